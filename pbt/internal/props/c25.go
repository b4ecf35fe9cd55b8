package props

import (
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
	"verif/pbt/internal/jsv"
	"verif/pbt/internal/tgen"
	"verif/pbt/internal/zoo"
)

// mapCase has operations with fields of types that are mapped to others.
type mapCase struct {
	opsCase
	Dst [2]tgen.T `json:"dst"` // What @0 and @1 are mapped to.
}

var (
	mapSrc   = [2]string{"MapID", "MapAny"}
	tagPairs = regexp.MustCompile(`([A-Za-z]+):"((?:[^"\\]|\\.)*)"`)
)

// neutralTag keeps tags that do not depend on the type of the field.
func neutralTag(tag string) string {
	var res []string

	for _, m := range tagPairs.FindAllStringSubmatch(tag, -1) {
		switch m[1] {
		case "query", "path", "cookie", "header", "form", "formData", "json", "required", "description", "deprecated", "title":
			res = append(res, m[0])
		}
	}

	return strings.Join(res, " ")
}

func eachField(t *tgen.T, f func(f *tgen.F)) {
	if t.E != nil {
		eachField(t.E, f)
	}

	for i := range t.F {
		eachField(&t.F[i].T, f)
		f(&t.F[i])
	}
}

func (c *opsCase) eachUnit(f func(u *unitDesc)) {
	for i := range c.Ops {
		for j := range c.Ops[i].Req {
			f(&c.Ops[i].Req[j])
		}

		for j := range c.Ops[i].Resp {
			f(&c.Ops[i].Resp[j])
		}
	}
}

func genMapCase(t *rapid.T) mapCase {
	c := mapCase{opsCase: genOps(1, 3, true)(t)}
	c.Dst[0] = tgen.Basic(pick(t, []string{"string", "int", "int64", "float64", "bool", "date", "time"}))
	c.Dst[1] = pick(t, []tgen.T{tgen.Zoo("Doc"), tgen.Zoo("Tree"), tgen.Zoo("a.Item0"), tgen.Zoo("b.Item1"), tgen.Basic("string"), tgen.Basic("time"), tgen.Of("map", tgen.Basic("int"))})

	c.eachUnit(func(u *unitDesc) {
		if u.T.K != "struct" {
			return
		}

		eachField(&u.T, func(f *tgen.F) {
			if f.Emb || f.N == "_" || f.N[0] == 'R' || !chance(t, 40) {
				return
			}

			switch k := f.T.K; k {
			case "zoo", "struct", "any", "raw", "file", "filehdr", "files", "filehdrs":
				return
			case "ptr", "slice", "map", "array":
				// Elements are mapped as well.
				if !scalarKind(f.T.E.K) || (k == "ptr" && c.Fmts) { // Pointers have no format.
					return
				}

				f.T = tgen.T{K: f.T.K, N: f.T.N, E: &tgen.T{K: "@0"}}
			default:
				f.T = tgen.Basic("@0")

				mapped := false // The field is a parameter as well.
				for _, m := range u.Map {
					mapped = mapped || m[f.N] != ""
				}

				if !mapped && strings.HasPrefix(f.Tag, "json:") && chance(t, 50) {
					f.T.K = "@1"
				}
			}

			f.Tag = neutralTag(f.Tag)
		})
	})

	return c
}

// resolved replaces the placeholders, by sources of mapping or by what they are mapped to.
func (c mapCase) resolved(dst bool) (r opsCase, n int) {
	b, err := json.Marshal(c.opsCase)
	h.Must(err, "marshal")
	h.Must(json.Unmarshal(b, &r), "unmarshal")

	var visit func(t *tgen.T)

	visit = func(t *tgen.T) {
		if t.K == "@0" || t.K == "@1" {
			n++
			i := int(t.K[1] - '0')

			if dst {
				*t = c.Dst[i]
			} else {
				*t = tgen.Zoo(mapSrc[i])
			}

			return
		}

		if t.E != nil {
			visit(t.E)
		}

		for i := range t.F {
			visit(&t.F[i].T)
		}
	}

	r.eachUnit(func(u *unitDesc) { visit(&u.T) })

	return r, n
}

func runMapping(c mapCase, st *h.Stats) error {
	src, n := c.resolved(false)
	dst, _ := c.resolved(true)

	build := func(oc opsCase, mapped bool) (map[string]interface{}, []string, string) {
		r := oc.reflector(oc.Is31)

		if mapped {
			for i, d := range c.Dst {
				r.JSONSchemaReflector().AddTypeMapping(zoo.All[mapSrc[i]], reflect.New(d.Type()).Elem().Interface())
			}
		}

		var errs []string

		for _, o := range oc.Ops {
			e := ""
			if err := o.register(r); err != nil {
				e = "error " + err.Error()
			}

			errs = append(errs, e)
		}

		return docOf(r), errs, walkedText(r, oc)
	}

	a, ea, wa := build(src, true)
	b, eb, wb := build(dst, false)

	if !reflect.DeepEqual(ea, eb) {
		return fmt.Errorf("errors %q with mapped types, %q with the types they are mapped to", ea, eb)
	}

	if d := jsv.Diff(b, a); d != "" {
		return fmt.Errorf("the document of mapped types differs from that of the types they are mapped to: %s", d)
	}

	if wa != wb {
		return fmt.Errorf("walked schemas of mapped types differ from those of the types they are mapped to: %s and %s", wa, wb)
	}

	st.NonTrivialIf(n > 0)

	return nil
}

// walkedText describes the schemas for validation of all units.
func walkedText(r openapi.Reflector, c opsCase) string {
	var res strings.Builder

	w, ok := r.(walker)
	if !ok {
		return ""
	}

	for _, o := range c.Ops {
		cb := func(in openapi.In, name string, schema *jsonschema.SchemaOrBool, required bool) error {
			b, err := json.Marshal(schema)
			if err != nil {
				return err
			}

			fmt.Fprintln(&res, in, name, required, string(b))

			return nil
		}

		for _, u := range o.Req {
			if err := w.WalkRequestJSONSchemas(o.Method, u.contentUnit(), cb, func(openapi.OperationContext) {}); err != nil {
				res.WriteString("error\n")
			}
		}

		for _, u := range o.Resp {
			if err := w.WalkResponseJSONSchemas(u.contentUnit(), cb, func(openapi.OperationContext) {}); err != nil {
				res.WriteString("error\n")
			}
		}
	}

	lines := strings.Split(res.String(), "\n") // The order of form fields is not defined.
	sort.Strings(lines)

	return strings.Join(lines, "\n")
}

func init() {
	p := h.Register("C25", "Settings of the schema reflector reach every part of every operation", "")

	h.Add(p, "type mapping", "operations with fields of two types that are mapped to a scalar and to any type; non-trivial when there is such a field", 6000, 200000, genMapCase, runMapping)

	h.Add(p, "inlined types", "operations with types whose definitions are inlined; non-trivial when a reference is inlined", 6000, 200000, genInlineCase, runInline)

	h.Add(p, "marks", "operations reflected with and without an interceptor that marks every schema; non-trivial when there is a schema that is not a reference", 6000, 200000, genOps(1, 3, true), runMarks)

	h.Add(p, "skipped fields", "operations with fields that an interceptor skips against the same operations without these fields; non-trivial when a field is skipped", 6000, 200000, genSkip, runSkip)
}

func scalarKind(k string) bool {
	switch k {
	case "string", "bool", "float32", "float64", "time", "date":
		return true
	}

	return strings.HasPrefix(k, "int") || strings.HasPrefix(k, "uint")
}

// inlineCase has operations that use types without a definition of their own.
type inlineCase struct {
	opsCase
	Inline []string `json:"inline"`
}

var inlineTypes = []string{"Doc", "a.Item0", "b.Item1", "PageDoc", "Level", "Color", "TextID", "Inline", "WithEmb", "a.Scalar0"}

func genInlineCase(t *rapid.T) inlineCase {
	return inlineCase{opsCase: genOps(1, 3, true)(t), Inline: rapid.SliceOfNDistinct(rapid.SampledFrom(inlineTypes), 1, 5, rapid.ID[string]).Draw(t, "inline")}
}

// inlined follows references in the first document where the second has an inlined schema.
type inlined struct {
	plain interface{}
	n     int
	names map[string]bool
}

// bare is a schema without what depends on whether it is inlined.
func bare(s interface{}) interface{} {
	m := asMap(s)
	if m == nil {
		return s
	}

	res := map[string]interface{}{}

	for k, v := range m {
		if k == "nullable" || k == "description" || k == "title" || k == "deprecated" {
			continue
		}

		if l := asList(v); k == "type" && len(l) == 2 {
			if v = l[0]; v == "null" {
				v = l[1]
			}
		}

		res[k] = v
	}

	return res
}

func (c *inlined) diff(path string, a, b interface{}) string {
	ma, oka := a.(map[string]interface{})
	mb, okb := b.(map[string]interface{})

	if oka && okb {
		// In 3.0 members next to a reference make it a part of allOf.
		if all := asList(ma["allOf"]); len(ma) == 1 && len(all) == 2 && mb["allOf"] == nil && asMap(all[1])["$ref"] != nil {
			m := map[string]interface{}{"$ref": asMap(all[1])["$ref"]}
			for k, v := range asMap(all[0]) {
				m[k] = v
			}

			ma = m
		}

		ra, isRefA := ma["$ref"].(string)
		_, isRefB := mb["$ref"].(string)

		if isRefA && !isRefB {
			t, ok := jsv.Resolve(c.plain, ra)
			if !ok {
				return path + ": unresolvable " + ra
			}

			c.n++
			c.names[strings.TrimPrefix(ra, "#/components/schemas/")] = true

			// A pointer is nullable, a reference to the type it points to is not;
			// annotations of the place replace those of the type, but not those of a reference.
			m := map[string]interface{}{}
			for k, v := range asMap(t) {
				m[k] = v
			}

			for k, v := range ma {
				if k != "$ref" {
					m[k] = v
				}
			}

			return c.diff(path+"("+ra+")", bare(m), bare(mb))
		}

		for _, k := range h.SortedKeys(ma) {
			vb, ok := mb[k]
			if !ok {
				return fmt.Sprintf("%s: %q only in the plain document: %s", path, k, cut(js(ma[k])))
			}

			if d := c.diff(path+"/"+k, ma[k], vb); d != "" {
				return d
			}
		}

		for _, k := range h.SortedKeys(mb) {
			// Parameters, headers and responses are described as their schemas.
			if (k == "description" || k == "deprecated") && (mb["schema"] != nil || mb["content"] != nil) {
				continue
			}

			if _, ok := ma[k]; !ok {
				return fmt.Sprintf("%s: %q only in the document with inlined types: %s", path, k, cut(js(mb[k])))
			}
		}

		return ""
	}

	la, oka := a.([]interface{})
	lb, okb := b.([]interface{})

	if oka && okb && len(la) == len(lb) {
		for i := range la {
			if d := c.diff(fmt.Sprintf("%s/%d", path, i), la[i], lb[i]); d != "" {
				return d
			}
		}

		return ""
	}

	if d := jsv.Diff(a, b); d != "" {
		return path + ": " + d
	}

	return ""
}

func runInline(c inlineCase, st *h.Stats) error {
	build := func(inline bool) (map[string]interface{}, []string) {
		r := c.reflector(c.Is31)

		if inline {
			for _, n := range c.Inline {
				r.JSONSchemaReflector().InlineDefinition(zoo.All[n])
			}
		}

		var errs []string

		for _, o := range c.Ops {
			e := ""
			if err := o.register(r); err != nil {
				e = "error " + err.Error()
			}

			errs = append(errs, e)
		}

		return docOf(r), errs
	}

	a, ea := build(false)
	b, eb := build(true)

	if !reflect.DeepEqual(ea, eb) {
		return fmt.Errorf("errors %q without inlined types, %q with", ea, eb)
	}

	sa, sb := asMap(get(a, "components", "schemas")), asMap(get(b, "components", "schemas"))
	d := &inlined{plain: a, names: map[string]bool{}}

	if s := d.diff("/paths", a["paths"], b["paths"]); s != "" {
		return fmt.Errorf("inlined types: %s", s)
	}

	if s := d.diff("/webhooks", a["webhooks"], b["webhooks"]); s != "" {
		return fmt.Errorf("inlined types: %s", s)
	}

	for _, n := range h.SortedKeys(sb) {
		if sa[n] == nil {
			return fmt.Errorf("component %s appears when types are inlined", n)
		}

		if s := d.diff("/components/schemas/"+n, sa[n], sb[n]); s != "" {
			return fmt.Errorf("inlined types: %s", s)
		}
	}

	for n := range d.names {
		if sb[n] != nil {
			return fmt.Errorf("type %s is inlined in one place and a component as well", n)
		}
	}

	st.NonTrivialIf(d.n > 0)

	return nil
}

// unmark removes marks.
func unmark(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		m := map[string]interface{}{}

		for k, e := range x {
			if k != "x-mark" {
				m[k] = unmark(e)
			}
		}

		return m
	case []interface{}:
		l := make([]interface{}, len(x))
		for i, e := range x {
			l[i] = unmark(e)
		}

		return l
	}

	return v
}

// eachRootSchema visits the schemas of parameters, headers, contents and components.
func eachRootSchema(v interface{}, path string, f func(path string, s interface{})) {
	switch x := v.(type) {
	case map[string]interface{}:
		for _, k := range h.SortedKeys(x) {
			switch p := path + "/" + k; k {
			case "schema":
				f(p, x[k])
			case "schemas":
				for _, n := range h.SortedKeys(asMap(x[k])) {
					f(p+"/"+n, asMap(x[k])[n])
				}
			case "example", "examples", "default", "enum":
			default:
				eachRootSchema(x[k], p, f)
			}
		}
	case []interface{}:
		for i, e := range x {
			eachRootSchema(e, fmt.Sprintf("%s/%d", path, i), f)
		}
	}
}

func runMarks(c opsCase, st *h.Stats) error {
	build := func(mark bool) (map[string]interface{}, []string) {
		r := c.reflector(c.Is31)

		if mark {
			jr := r.JSONSchemaReflector()
			jr.DefaultOptions = append(jr.DefaultOptions, jsonschema.InterceptSchema(func(p jsonschema.InterceptSchemaParams) (bool, error) {
				if !p.Processed {
					p.Schema.WithExtraPropertiesItem("x-mark", p.Schema.ReflectType.String())
				}

				return false, nil
			}))
		}

		var errs []string

		for _, o := range c.Ops {
			e := ""
			if err := o.register(r); err != nil {
				e = "error " + err.Error()
			}

			errs = append(errs, e)
		}

		return docOf(r), errs
	}

	a, ea := build(false)
	b, eb := build(true)

	if !reflect.DeepEqual(ea, eb) {
		return fmt.Errorf("errors %q without marks, %q with", ea, eb)
	}

	if d := jsv.Diff(a, unmark(b)); d != "" {
		return fmt.Errorf("besides marks, documents differ: %s", d)
	}

	var err error

	eachRootSchema(b, "", func(path string, s interface{}) {
		m := asMap(s)
		if m["$ref"] != nil || m["allOf"] != nil || err != nil {
			return
		}

		if len(m) == 0 || m["x-point"] != nil || m["x-marked"] != nil || m["x-money"] != nil { // Any value, or the type exposes its schema: interceptors are not asked.
			return
		}

		// Contents without a Go type are strings.
		if strings.Contains(path, "/content/") && m["type"] == "string" && (len(m) == 1 || len(m) == 2 && m["format"] != nil) {
			return
		}

		st.NonTrivial()

		if m["x-mark"] == nil {
			err = fmt.Errorf("schema at %s was not seen by the interceptor: %s", path, js(s))
		}
	})

	return err
}
