package props

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"

	"verif/pbt/internal/h"
	"verif/pbt/internal/jsv"
	"verif/pbt/internal/tgen"
	"verif/pbt/internal/zoo"
)

// unitDesc describes a content unit of a request or a response.
type unitDesc struct {
	T       tgen.T                       `json:"t"`
	Form    string                       `json:"form,omitempty"` // val, ptr, nilptr
	CT      string                       `json:"ct,omitempty"`
	Format  string                       `json:"format,omitempty"`
	Desc    string                       `json:"desc,omitempty"`
	Status  int                          `json:"status,omitempty"`
	Default bool                         `json:"default,omitempty"`
	Map     map[string]map[string]string `json:"map,omitempty"` // location -> field -> name
	Ref     string                       `json:"ref,omitempty"` // reference in place of content
	Ext     string                       `json:"ext,omitempty"` // extension key set by Customize
	Prep    bool                         `json:"prep,omitempty"`

	given func(mine, want map[string]string) // is told about maps that are handed over
}

type secDesc struct {
	Name   string   `json:"name"`
	Scopes []string `json:"scopes"`
}

// opDesc describes an operation.
type opDesc struct {
	Method     string     `json:"method"`
	Path       string     `json:"path"`
	Tags       []string   `json:"tags,omitempty"`
	Summary    string     `json:"summary,omitempty"`
	Desc       string     `json:"desc,omitempty"`
	ID         string     `json:"id,omitempty"`
	Deprecated bool       `json:"deprecated,omitempty"`
	Sec        []secDesc  `json:"sec,omitempty"`
	Req        []unitDesc `json:"req,omitempty"`
	Resp       []unitDesc `json:"resp,omitempty"`
	Webhook    bool       `json:"webhook,omitempty"` // 3.1 only
	Reset      bool       `json:"reset,omitempty"`   // metadata is set to something else and cleared first
}

// structure is the value given to the reflector.
func (u unitDesc) structure() interface{} { return u.T.Value(u.Form) }

func (u unitDesc) customize(is31 bool) func(cor openapi.ContentOrReference) {
	if u.Ref != "" {
		return func(cor openapi.ContentOrReference) { cor.SetReference(u.Ref) }
	}

	if u.Ext == "" {
		return nil
	}

	return func(cor openapi.ContentOrReference) {
		switch c := cor.(type) {
		case *openapi3.RequestBodyOrRef:
			c.RequestBodyEns().WithMapOfAnythingItem(u.Ext, true)
		case *openapi3.ResponseOrRef:
			c.ResponseEns().WithMapOfAnythingItem(u.Ext, true)
		case *openapi31.RequestBodyOrReference:
			c.RequestBodyEns().WithMapOfAnythingItem(u.Ext, true)
		case *openapi31.ResponseOrReference:
			c.ResponseEns().WithMapOfAnythingItem(u.Ext, true)
		default:
			panic(fmt.Sprintf("unexpected customization of %T", cor))
		}
	}
}

// args builds the arguments of AddReqStructure and AddRespStructure.
func (u unitDesc) args() (interface{}, []openapi.ContentOption) {
	var opts []openapi.ContentOption

	s := u.structure()

	if u.Prep {
		s = zoo.Prep{Body: s, Type: u.CT, Status: u.Status, Def: u.Default, Desc: u.Desc}
	} else {
		if u.CT != "" {
			opts = append(opts, openapi.WithContentType(u.CT))
		}

		if u.Status != 0 {
			opts = append(opts, openapi.WithHTTPStatus(u.Status))
		}

		if u.Default || u.Desc != "" {
			opts = append(opts, func(cu *openapi.ContentUnit) {
				cu.IsDefault = u.Default
				cu.Description = u.Desc
			})
		}
	}

	if u.Format != "" || len(u.Map) > 0 {
		maps := map[string]map[string]string{}

		for in, m := range u.Map {
			maps[in] = map[string]string{}
			for k, v := range m {
				maps[in][k] = v
			}

			if u.given != nil {
				u.given(maps[in], m)
			}
		}

		opts = append(opts, func(cu *openapi.ContentUnit) {
			cu.Format = u.Format

			for _, in := range h.SortedKeys(maps) {
				cu.SetFieldMapping(openapi.In(in), maps[in])
			}
		})
	}

	if u.Ref != "" {
		opts = append(opts, openapi.WithReference(u.Ref))
	} else if c := u.customize(false); c != nil {
		opts = append(opts, openapi.WithCustomize(c))
	}

	return s, opts
}

// contentUnit builds the unit directly, as used for walking.
func (u unitDesc) contentUnit() openapi.ContentUnit {
	cu := openapi.ContentUnit{}
	s, opts := u.args()

	if p, ok := s.(openapi.ContentUnitPreparer); ok {
		p.SetupContentUnit(&cu)
	} else {
		cu.Structure = s
	}

	for _, o := range opts {
		o(&cu)
	}

	return cu
}

// fillOC applies the description to an operation context.
func (o opDesc) fillOC(oc openapi.OperationContext) {
	if o.Reset {
		oc.SetTags("stale", "older")
		oc.SetSummary("stale")
		oc.SetDescription("stale")
		oc.SetID("stale")
		oc.SetIsDeprecated(!o.Deprecated)

		oc.SetTags()
		oc.SetSummary("")
		oc.SetDescription("")
		oc.SetID("")
		oc.SetIsDeprecated(false)
	}

	if len(o.Tags) > 0 {
		oc.SetTags(o.Tags...)
	}

	if o.Summary != "" {
		oc.SetSummary(o.Summary)
	}

	if o.Desc != "" {
		oc.SetDescription(o.Desc)
	}

	if o.ID != "" {
		oc.SetID(o.ID)
	}

	if o.Deprecated {
		oc.SetIsDeprecated(true)
	}

	for _, s := range o.Sec {
		oc.AddSecurity(s.Name, s.Scopes...)
	}

	for _, u := range o.Req {
		s, opts := u.args()
		oc.AddReqStructure(s, opts...)
	}

	for _, u := range o.Resp {
		s, opts := u.args()
		oc.AddRespStructure(s, opts...)
	}
}

// register adds the operation to the reflector.
func (o opDesc) register(r openapi.Reflector) error {
	oc, err := r.NewOperationContext(o.Method, o.Path)
	if err != nil {
		return err
	}

	o.fillOC(oc)

	if o.Webhook {
		if r31, ok := r.(*openapi31.Reflector); ok {
			return r31.AddWebhook(oc)
		}
	}

	return r.AddOperation(oc)
}

// newReflector makes a reflector, with formats of Go types if fmts is set.
func newReflector(is31, fmts bool) openapi.Reflector {
	if is31 {
		if fmts {
			return openapi31.NewReflector()
		}

		return &openapi31.Reflector{}
	}

	if fmts {
		return openapi3.NewReflector()
	}

	return &openapi3.Reflector{}
}

// docOf renders the document of the reflector.
func docOf(r openapi.Reflector) map[string]interface{} {
	b, err := json.Marshal(r.SpecSchema())
	if err != nil {
		panic(fmt.Sprintf("document can not be saved: %v", err))
	}

	v, err := jsv.Parse(b)
	h.Must(err, "parse document")

	m, ok := v.(map[string]interface{})
	if !ok {
		panic("document is not an object")
	}

	return m
}

// get follows object keys.
func get(v interface{}, keys ...string) interface{} {
	for _, k := range keys {
		m, ok := v.(map[string]interface{})
		if !ok {
			return nil
		}

		v = m[k]
	}

	return v
}

func asMap(v interface{}) map[string]interface{} {
	m, _ := v.(map[string]interface{})

	return m
}

func asList(v interface{}) []interface{} {
	l, _ := v.([]interface{})

	return l
}

// simCtx compares values with references followed, treating pairs under comparison as equal.
type simCtx struct {
	rootA, rootB interface{}
	seen         map[[2]string]bool
}

// simDiff describes the first difference of two values of two documents, with references followed on both sides.
func simDiff(rootA, a, rootB, b interface{}) string {
	c := newSimCtx(rootA, rootB)

	return c.diff("", a, b)
}

func newSimCtx(rootA, rootB interface{}) *simCtx {
	return &simCtx{rootA: rootA, rootB: rootB, seen: map[[2]string]bool{}}
}

func (c *simCtx) diff(path string, a, b interface{}) string {
	ma, oka := a.(map[string]interface{})
	mb, okb := b.(map[string]interface{})

	if oka && okb {
		ra, isRefA := ma["$ref"].(string)
		rb, isRefB := mb["$ref"].(string)

		if isRefA && isRefB {
			if !strings.HasPrefix(ra, "#/") || !strings.HasPrefix(rb, "#/") {
				if ra != rb {
					return fmt.Sprintf("%s: references %q and %q differ", path, ra, rb)
				}
			} else if k := [2]string{ra, rb}; !c.seen[k] {
				c.seen[k] = true

				ta, fa := jsv.Resolve(c.rootA, ra)
				tb, fb := jsv.Resolve(c.rootB, rb)

				if ra == rb && !fa && !fb {
					// A reference given by the caller.
				} else if !fa || !fb {
					return fmt.Sprintf("%s: unresolvable reference %q (%v) or %q (%v)", path, ra, fa, rb, fb)
				}

				if d := c.diff(path+"("+ra+")", ta, tb); d != "" {
					return d
				}
			}
		} else if isRefA != isRefB {
			return fmt.Sprintf("%s: only one is a reference: %s and %s", path, cut(js(a)), cut(js(b)))
		}

		for _, k := range h.SortedKeys(ma) {
			if k == "$ref" && isRefA {
				continue
			}

			vb, ok := mb[k]
			if !ok {
				return fmt.Sprintf("%s: %q only in the first: %s", path, k, cut(js(ma[k])))
			}

			if d := c.diff(path+"/"+k, ma[k], vb); d != "" {
				return d
			}
		}

		for _, k := range h.SortedKeys(mb) {
			if _, ok := ma[k]; !ok {
				return fmt.Sprintf("%s: %q only in the second: %s", path, k, cut(js(mb[k])))
			}
		}

		return ""
	}

	la, oka := a.([]interface{})
	lb, okb := b.([]interface{})

	if oka && okb {
		if len(la) != len(lb) {
			return fmt.Sprintf("%s: %s and %s differ in length", path, cut(js(a)), cut(js(b)))
		}

		for i := range la {
			if d := c.diff(fmt.Sprintf("%s/%d", path, i), la[i], lb[i]); d != "" {
				return d
			}
		}

		return ""
	}

	if d := jsv.Diff(a, b); d != "" {
		return path + ": " + d
	}

	return ""
}

// fieldInfo is a field found by flattening a structure.
type fieldInfo struct {
	Name  string // parameter or property name
	Go    string
	Tag   reflect.StructTag
	Type  reflect.Type
	Blank bool
	Found bool // a tag or mapping of the location is present
}

// flatten lists fields carrying one of the tags (the first found wins) or a mapping, looking into embedded structures.
func flatten(v interface{}, mapping map[string]string, tags ...string) []fieldInfo {
	if v == nil {
		return nil
	}

	if s, ok := virtOf(v); ok {
		var res []fieldInfo

		for _, f := range s.Fields {
			res = flattenField(res, reflect.StructField{Name: f.Name, Tag: f.Tag, Type: reflect.TypeOf(f.Value)}, mapping, tags)
		}

		return res
	}

	return flattenType(nil, reflect.TypeOf(v), mapping, tags)
}

func virtOf(v interface{}) (jsonschema.Struct, bool) {
	switch s := v.(type) {
	case zoo.Virt:
		return s.Struct, true
	case *zoo.Virt:
		return s.Struct, true
	case jsonschema.Struct:
		return s, true
	}

	return jsonschema.Struct{}, false
}

func flattenType(res []fieldInfo, t reflect.Type, mapping map[string]string, tags []string) []fieldInfo {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}

	if t.Kind() != reflect.Struct {
		return res
	}

	for i := 0; i < t.NumField(); i++ {
		res = flattenField(res, t.Field(i), mapping, tags)
	}

	return res
}

func flattenField(res []fieldInfo, f reflect.StructField, mapping map[string]string, tags []string) []fieldInfo {
	name, found := mapping[f.Name]
	if !found {
		for _, tag := range tags {
			if name, found = f.Tag.Lookup(tag); found {
				break
			}
		}
	}

	if name == "-" {
		return res
	}

	for i, c := range name {
		if c == ',' {
			name = name[:i]

			break
		}
	}

	ind := f.Type
	for ind != nil && ind.Kind() == reflect.Ptr {
		ind = ind.Elem()
	}

	if name == "" && f.Anonymous && ind.Kind() == reflect.Struct {
		return flattenType(res, f.Type, mapping, tags)
	}

	if f.Name == "_" {
		return append(res, fieldInfo{Name: name, Go: f.Name, Tag: f.Tag, Type: f.Type, Blank: true, Found: found})
	}

	if !found || f.PkgPath != "" {
		return res
	}

	if name == "" {
		name = f.Name
	}

	return append(res, fieldInfo{Name: name, Go: f.Name, Tag: f.Tag, Type: f.Type, Found: true})
}
