package props

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"mime/multipart"
	"net/http"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"

	"verif/pbt/internal/h"
	"verif/pbt/internal/jsv"
)

// opModel is an independent model of what the document says about an operation.
//
// JSON Schemas of single structures come from the schema library with options of its own,
// everything else (which parts exist, where, under which name, with which attributes) is modelled here.
type opModel struct {
	is31, fmts bool
	roots      map[string]interface{} // definitions of each reflected structure
	n          int
	ctx        map[string]string // context of each reflected structure
	in         string            // context of the current one
}

func newModel(is31, fmts bool) *opModel {
	return &opModel{is31: is31, fmts: fmts, roots: map[string]interface{}{}, ctx: map[string]string{}}
}

func (m *opModel) root() interface{} { return map[string]interface{}{"roots": m.roots} }

type modelErr struct{ msg string }

func (e modelErr) Error() string { return e.msg }

var unsafeName = regexp.MustCompile(`[^a-zA-Z0-9]+`)

func typeKey(t reflect.Type) string {
	f := fnv.New64a()
	_, _ = f.Write([]byte(t.PkgPath() + "::" + t.Name()))

	return fmt.Sprintf("%s.%x", unsafeName.ReplaceAllString(t.Name(), "_"), f.Sum64())
}

// reflect makes a reference schema.
func (m *opModel) reflect(v interface{}, opts ...func(rc *jsonschema.ReflectContext)) (jsonschema.Schema, func(s jsonschema.SchemaOrBool) interface{}, error) {
	r := jsonschema.Reflector{}

	m.n++
	id := strconv.Itoa(m.n)
	defs := map[string]interface{}{}

	conv := func(s jsonschema.SchemaOrBool) interface{} {
		b, err := json.Marshal(s)
		h.Must(err, "marshal reference schema")

		v, err := jsv.Parse(b)
		h.Must(err, "parse reference schema")

		if !m.is31 {
			v = conv30(v)
		}

		return v
	}

	o := []func(rc *jsonschema.ReflectContext){
		jsonschema.DefinitionsPrefix("#/roots/" + id + "/"),
		jsonschema.InterceptDefName(func(t reflect.Type, _ string) string { return typeKey(t) }),
		jsonschema.CollectDefinitions(func(name string, s jsonschema.Schema) { defs[name] = conv(s.ToSchemaOrBool()) }),
	}

	if m.fmts {
		o = append(o, jsonschema.InterceptSchema(func(p jsonschema.InterceptSchemaParams) (bool, error) {
			if p.Processed {
				return false, nil
			}

			switch p.Value.Kind() {
			case reflect.Int64:
				p.Schema.WithFormat("int64")
			case reflect.Int32:
				p.Schema.WithFormat("int32")
			case reflect.Float32:
				p.Schema.WithFormat("float")
			case reflect.Float64:
				p.Schema.WithFormat("double")
			}

			return false, nil
		}))
	}

	s, err := r.Reflect(v, append(o, opts...)...)
	if err != nil {
		return s, nil, modelErr{err.Error()}
	}

	m.roots[id] = defs
	m.ctx[id] = m.in

	return s, conv, nil
}

// conv30 converts JSON Schema to the notation of OpenAPI 3.0.
func conv30(v interface{}) interface{} {
	if b, ok := v.(bool); ok {
		if b {
			return map[string]interface{}{}
		}

		return map[string]interface{}{"not": map[string]interface{}{}}
	}

	s, ok := v.(map[string]interface{})
	if !ok {
		return v
	}

	if ref, ok := s["$ref"]; ok {
		r := map[string]interface{}{"$ref": ref}
		if s["deprecated"] == true {
			return map[string]interface{}{"allOf": []interface{}{map[string]interface{}{"deprecated": true}, r}}
		}

		return r
	}

	out := map[string]interface{}{}

	for _, k := range []string{
		"title", "description", "required", "default", "enum", "deprecated", "format", "minItems", "maxItems", "minLength",
		"maxLength", "minProperties", "maxProperties", "multipleOf", "pattern", "readOnly", "writeOnly", "uniqueItems",
		"minimum", "maximum",
	} {
		if x, ok := s[k]; ok {
			out[k] = x
		}
	}

	for k, x := range s {
		if strings.HasPrefix(k, "x-") {
			out[k] = x
		}
	}

	types := asList(s["type"])
	if t, ok := s["type"].(string); ok {
		types = []interface{}{t}
	}

	for _, t := range types {
		if t == "null" {
			out["nullable"] = true
		} else {
			out["type"] = t
		}
	}

	if ex := asList(s["examples"]); len(ex) > 0 {
		out["example"] = ex[0]
	}

	for _, b := range [][2]string{{"exclusiveMaximum", "maximum"}, {"exclusiveMinimum", "minimum"}} {
		ev, ok := s[b[0]]
		if !ok {
			continue
		}

		if iv, ok := s[b[1]]; ok {
			er, _ := jsv.Rat(ev)
			ir, _ := jsv.Rat(iv)
			c := er.Cmp(ir)
			if (b[1] == "maximum" && c > 0) || (b[1] == "minimum" && c < 0) {
				continue
			}
		}

		out[b[1]] = ev
		out[b[0]] = true
	}

	for _, k := range []string{"oneOf", "anyOf", "allOf"} {
		if l := asList(s[k]); len(l) > 0 {
			var r []interface{}
			for _, x := range l {
				r = append(r, conv30(x))
			}

			out[k] = r
		}
	}

	if x, ok := s["not"]; ok {
		out["not"] = conv30(x)
	}

	if x, ok := s["items"]; ok {
		if _, isList := x.([]interface{}); !isList {
			out["items"] = conv30(x)
		}
	}

	if x, ok := s["additionalProperties"]; ok {
		if b, isBool := x.(bool); isBool {
			out["additionalProperties"] = b
		} else {
			out["additionalProperties"] = conv30(x)
		}
	}

	if p := asMap(s["properties"]); len(p) > 0 {
		r := map[string]interface{}{}
		for k, x := range p {
			r[k] = conv30(x)
		}

		out["properties"] = r
	}

	return out
}

func indirect(t reflect.Type) reflect.Type {
	for t != nil && t.Kind() == reflect.Ptr {
		t = t.Elem()
	}

	return t
}

func isListOrMap(v interface{}) bool {
	if v == nil {
		return false
	}

	switch indirect(reflect.TypeOf(v)).Kind() {
	case reflect.Slice, reflect.Map, reflect.Array:
		return true
	}

	return false
}

func embedsListOrMap(t reflect.Type) bool {
	t = indirect(t)
	if t == nil || t.Kind() != reflect.Struct {
		return false
	}

	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if !f.Anonymous {
			continue
		}

		switch indirect(f.Type).Kind() {
		case reflect.Slice, reflect.Map, reflect.Array:
			return true
		}

		if embedsListOrMap(f.Type) {
			return true
		}
	}

	return false
}

// tagged lists top-level fields with a tag that names something.
func tagged(t reflect.Type, tag string) []reflect.StructField {
	t = indirect(t)
	if t == nil || t.Kind() != reflect.Struct {
		return nil
	}

	var res []reflect.StructField

	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		name := strings.Split(f.Tag.Get(tag), ",")[0]

		switch {
		case name == "-":
		case f.Anonymous:
			res = append(res, tagged(f.Type, tag)...)
		case name != "":
			res = append(res, f)
		}
	}

	return res
}

func hasTag(v interface{}, tag string) bool {
	return v != nil && len(tagged(reflect.TypeOf(v), tag)) > 0
}

func boolTag(e map[string]interface{}, tag reflect.StructTag, names ...string) error {
	for _, n := range names {
		s, ok := tag.Lookup(n)
		if !ok {
			continue
		}

		b, err := strconv.ParseBool(s)
		if err != nil {
			return modelErr{err.Error()}
		}

		e[n] = b
	}

	return nil
}

// normBools drops false attributes, they are defaults.
func normBools(e map[string]interface{}, names ...string) {
	for _, n := range names {
		if e[n] == false {
			delete(e, n)
		}
	}
}

var locations = []string{"query", "path", "cookie", "header"}

// params lists parameters of a request structure.
func (m *opModel) params(u unitDesc) (res []map[string]interface{}, forbidden []string, err error) {
	v := u.structure()
	if v == nil || isListOrMap(v) {
		return nil, nil, nil
	}

	for _, in := range locations {
		tags := []string{in}
		if in == "query" {
			tags = append(tags, "form")
		}

		s, conv, err := m.reflect(v,
			jsonschema.PropertyNameMapping(u.Map[in]), jsonschema.PropertyNameTag(tags[0], tags[1:]...), jsonschema.SkipEmbeddedMapsSlices,
			func(rc *jsonschema.ReflectContext) { rc.UnnamedFieldWithTag = true },
		)
		if err != nil {
			return nil, nil, err
		}

		closed := false

		for _, f := range flatten(v, u.Map[in], tags...) {
			if f.Blank {
				if ap, ok := f.Tag.Lookup("additionalProperties"); ok && f.Found {
					closed = ap == "false"
				}

				continue
			}

			ps, ok := s.Properties[f.Name]
			if !ok {
				panic(h.HarnessError{Msg: "no reference property " + f.Name})
			}

			p, err := m.param(in, f, ps, conv)
			if err != nil {
				return nil, nil, err
			}

			res = append(res, p)
		}

		if closed {
			forbidden = append(forbidden, in)
		}
	}

	return res, forbidden, nil
}

func (m *opModel) param(in string, f fieldInfo, ps jsonschema.SchemaOrBool, conv func(jsonschema.SchemaOrBool) interface{}) (map[string]interface{}, error) {
	p := map[string]interface{}{"name": f.Name, "in": in}
	if ps.TypeObject.Description != nil {
		p["description"] = *ps.TypeObject.Description
	}

	style := func(s string, explode bool) { p["style"], p["explode"] = s, explode }
	positional := in == "path" || in == "header"
	cf := f.Tag.Get("collectionFormat")

	switch cf {
	case "csv":
		if positional {
			style("simple", false)
		} else {
			style("form", false)
		}
	case "ssv":
		if in == "query" {
			style("spaceDelimited", false)
		}
	case "pipes":
		if in == "query" {
			style("pipeDelimited", false)
		}
	case "multi":
		if !positional {
			style("form", true)
		}
	}

	nv := reflect.New(f.Type).Interface()

	if cf == "json" || (hasTag(nv, "json") && !hasTag(nv, in)) {
		if it := indirect(f.Type); it.Kind() == reflect.Struct {
			nv = reflect.New(it).Interface()
		}

		s, conv, err := m.reflect(nv, jsonschema.RootRef)
		if err != nil {
			return nil, err
		}

		p["content"] = map[string]interface{}{"application/json": map[string]interface{}{"schema": conv(s.ToSchemaOrBool())}}
	} else {
		s, _, err := m.reflect(nv)
		if err != nil {
			return nil, err
		}

		if in == "query" && s.HasType(jsonschema.Object) {
			style("deepObject", true)
		}

		sch := conv(ps)
		if mm := asMap(sch); mm != nil && !m.is31 && f.Type.Kind() != reflect.Ptr {
			delete(mm, "nullable")
		}

		p["schema"] = sch
	}

	if d, ok := f.Tag.Lookup("description"); ok {
		p["description"] = d
	}

	if st := f.Tag.Get("style"); st != "" {
		p["style"] = st
	}

	if err := boolTag(p, f.Tag, "required", "deprecated", "allowEmptyValue", "explode", "allowReserved"); err != nil {
		return nil, err
	}

	if in == "path" {
		p["required"] = true
	}

	normBools(p, "required", "deprecated", "allowEmptyValue", "allowReserved")

	return p, nil
}

func enforcesBody(v interface{}) bool {
	_, ok := v.(openapi.RequestBodyEnforcer)

	return ok
}

func bodyAllowed(method string, v interface{}) bool {
	switch strings.ToUpper(method) {
	case http.MethodGet, http.MethodHead, http.MethodDelete, http.MethodTrace:
		return enforcesBody(v)
	}

	return true
}

var (
	fileType    = reflect.TypeOf((*multipart.File)(nil)).Elem()
	fileHdrType = reflect.TypeOf(multipart.FileHeader{})
)

func isFile(t reflect.Type) bool {
	t = indirect(t)

	return t == fileType || t == fileHdrType
}

// media adds content, the mime type is given once per operation part by construction.
type media map[string]interface{}

func stringMedia(format string) map[string]interface{} {
	s := map[string]interface{}{"type": "string"}
	if format != "" {
		s["format"] = format
	}

	return map[string]interface{}{"schema": s}
}

const (
	mJSON  = "application/json"
	mForm  = "application/x-www-form-urlencoded"
	mMulti = "multipart/form-data"
)

func (m *opModel) formBody(u unitDesc, method string, c media) error {
	v := u.structure()
	if v == nil || !bodyAllowed(method, v) {
		return nil
	}

	mapping := u.Map["formData"]
	if !hasTag(v, "formData") && !hasTag(v, "form") && len(mapping) == 0 {
		return nil
	}

	files := false
	m.in = "formData"

	defer func() { m.in = "" }()

	s, conv, err := m.reflect(v, jsonschema.RootRef, jsonschema.PropertyNameMapping(mapping), jsonschema.PropertyNameTag("formData", "form"),
		jsonschema.InterceptNullability(func(p jsonschema.InterceptNullabilityParams) {
			if t := p.Schema.ReflectType; p.NullAdded && t != nil && t.Kind() == reflect.Slice && isFile(t.Elem()) {
				p.Schema.RemoveType(jsonschema.Null)
			}
		}),
		jsonschema.InterceptSchema(func(p jsonschema.InterceptSchemaParams) (bool, error) {
			if !p.Value.IsValid() || !isFile(p.Value.Type()) || p.Value.Kind() != reflect.Ptr {
				return false, nil
			}

			files = true

			p.Schema.AddType(jsonschema.String)
			p.Schema.RemoveType(jsonschema.Null)
			p.Schema.WithFormat("binary")

			if m.is31 {
				p.Schema.WithExtraPropertiesItem("contentMediaType", "application/octet-stream")
			}

			return true, nil
		}),
	)
	if err != nil {
		return err
	}

	mime := mForm
	if files {
		mime = mMulti
	}

	c[mime] = map[string]interface{}{"schema": conv(s.ToSchemaOrBool())}

	return nil
}

func (m *opModel) jsonBody(u unitDesc, method string, c media) error {
	v := u.structure()
	if v == nil || !bodyAllowed(method, v) {
		return nil
	}

	_, virtual := virtOf(v)
	_, forced := v.(openapi.RequestJSONBodyEnforcer)

	if (hasTag(v, "formData") || hasTag(v, "form")) && !virtual && !forced {
		return nil
	}

	if !hasTag(v, "json") && !virtual && !isListOrMap(v) && !embedsListOrMap(reflect.TypeOf(v)) {
		return nil
	}

	s, conv, err := m.reflect(v, jsonschema.RootRef)
	if err != nil {
		return err
	}

	c[mJSON] = map[string]interface{}{"schema": conv(s.ToSchemaOrBool())}

	return nil
}

// body adds the body of a request structure.
func (m *opModel) body(u unitDesc, method string, body map[string]interface{}) (map[string]interface{}, error) {
	c := media{}

	switch u.CT {
	case "":
		if err := m.formBody(u, method, c); err != nil {
			return body, err
		}

		if err := m.jsonBody(u, method, c); err != nil {
			return body, err
		}

		if v := u.structure(); v != nil {
			for _, f := range tagged(reflect.TypeOf(v), "contentType") {
				c[strings.Split(f.Tag.Get("contentType"), ",")[0]] = stringMedia("")
			}
		}
	case mJSON:
		if err := m.jsonBody(u, method, c); err != nil {
			return body, err
		}
	case mForm, mMulti:
		if err := m.formBody(u, method, c); err != nil {
			return body, err
		}
	default:
		c[u.CT] = stringMedia(u.Format)
	}

	if len(c) > 0 {
		if body == nil {
			body = map[string]interface{}{"content": map[string]interface{}{}}
		}

		for k, v := range c {
			asMap(body["content"])[k] = v
		}
	}

	if body != nil && u.Desc != "" && body["$ref"] == nil {
		body["description"] = u.Desc
	}

	if body != nil && u.Ext != "" && u.Ref == "" {
		body[u.Ext] = true
	}

	if body != nil && u.Ref != "" {
		body = map[string]interface{}{"$ref": u.Ref}
	}

	return body, nil
}

// statusKey names the status of a response structure.
func statusKey(u unitDesc) string {
	switch {
	case u.Default:
		return "default"
	case u.Status == 0:
		return "200"
	case u.Status > 0 && u.Status < 6:
		return strconv.Itoa(u.Status) + "XX"
	}

	return strconv.Itoa(u.Status)
}

// meaningful tells if the schema says anything about the body.
func (m *opModel) meaningful(v interface{}) (bool, error) {
	s, _, err := m.reflect(v)
	if err != nil {
		return false, err
	}

	s.Title, s.Description, s.Comment, s.ExtraProperties, s.ID, s.Examples = nil, nil, nil, nil, nil, nil

	b, err := json.Marshal(s)
	h.Must(err, "marshal")

	return string(b) != "{}" && string(b) != `{"type":"object"}`, nil
}

// response merges a response structure into a response.
func (m *opModel) response(u unitDesc, method string, resp map[string]interface{}) (map[string]interface{}, error) {
	if resp == nil {
		resp = map[string]interface{}{"description": ""}
	}

	v := u.structure()
	ct := strings.Split(u.CT, ";")[0]
	head := strings.EqualFold(method, http.MethodHead)

	content := asMap(resp["content"])
	if content == nil {
		content = map[string]interface{}{}
	}

	if v != nil && !head {
		ok, err := m.meaningful(v)
		if err != nil {
			return nil, err
		}

		if ok {
			s, conv, err := m.reflect(v, jsonschema.RootRef)
			if err != nil {
				return nil, err
			}

			sch := conv(s.ToSchemaOrBool())
			if mm := asMap(sch); mm != nil && !m.is31 {
				delete(mm, "nullable")
			}

			mime := ct
			if mime == "" {
				mime = mJSON
			}

			content[mime] = map[string]interface{}{"schema": sch}

			if s.Description != nil && resp["description"] == "" {
				resp["description"] = *s.Description
			}
		}
	}

	if v != nil {
		mapping := u.Map["header"]

		s, conv, err := m.reflect(v, jsonschema.InlineRefs, jsonschema.PropertyNameMapping(mapping), jsonschema.PropertyNameTag("header"))
		if err != nil {
			return nil, err
		}

		if !isListOrMap(v) && !embedsListOrMap(reflect.TypeOf(v)) {
			for _, f := range flatten(v, mapping, "header") {
				if f.Blank {
					continue
				}

				ps := s.Properties[f.Name]
				hd := map[string]interface{}{"schema": conv(ps)}

				if ps.TypeObject.Description != nil {
					hd["description"] = *ps.TypeObject.Description
				}

				if d, ok := f.Tag.Lookup("description"); ok {
					hd["description"] = d
				}

				if ps.TypeObject.Deprecated != nil {
					hd["deprecated"] = *ps.TypeObject.Deprecated
				}

				names := []string{"required", "deprecated", "explode"}
				if !m.is31 {
					names = append(names, "allowEmptyValue", "allowReserved")
				}

				if err := boolTag(hd, f.Tag, names...); err != nil {
					return nil, err
				}

				normBools(hd, names...)

				if resp["headers"] == nil {
					resp["headers"] = map[string]interface{}{}
				}

				asMap(resp["headers"])[f.Name] = hd
			}
		}

		if s.Description != nil && resp["description"] == "" {
			resp["description"] = *s.Description
		}

		if !head {
			for _, f := range tagged(reflect.TypeOf(v), "contentType") {
				mime := strings.Split(f.Tag.Get("contentType"), ",")[0]
				if content[mime] == nil {
					content[mime] = stringMedia("")
				}
			}
		}
	}

	if ct != "" && !head && content[ct] == nil {
		content[ct] = stringMedia(u.Format)
	}

	if u.Desc != "" {
		resp["description"] = u.Desc
	}

	if resp["description"] == "" {
		code := u.Status
		if code == 0 && !u.Default {
			code = 200
		}

		resp["description"] = http.StatusText(code)
	}

	if len(content) > 0 {
		resp["content"] = content
	}

	if u.Ref != "" {
		return map[string]interface{}{"$ref": u.Ref}, nil
	}

	if u.Ext != "" {
		resp[u.Ext] = true
	}

	return resp, nil
}

// expectedOp is the modelled operation.
type expectedOp struct {
	method, path string
	op           map[string]interface{}
	forbidden    map[string]bool
}

// operation models the whole operation; a modelErr means that registration has to fail.
func (m *opModel) operation(o opDesc) (e expectedOp, err error) {
	e.method = strings.ToLower(o.Method)
	e.op = map[string]interface{}{}
	e.forbidden = map[string]bool{}

	var names []string

	e.path, names = modelPath(o.Path)

	if len(o.Tags) > 0 {
		var l []interface{}
		for _, t := range o.Tags {
			l = append(l, t)
		}

		e.op["tags"] = l
	}

	for k, v := range map[string]string{"summary": o.Summary, "description": o.Desc, "operationId": o.ID} {
		if v != "" {
			e.op[k] = v
		}
	}

	if o.Deprecated {
		e.op["deprecated"] = true
	}

	if len(o.Sec) > 0 {
		var l []interface{}

		for _, s := range o.Sec {
			scopes := []interface{}{}
			for _, sc := range s.Scopes {
				scopes = append(scopes, sc)
			}

			l = append(l, map[string]interface{}{s.Name: scopes})
		}

		e.op["security"] = l
	}

	var (
		params []interface{}
		body   map[string]interface{}
	)

	declared := map[string]bool{}
	seen := map[string]bool{}

	for _, u := range o.Req {
		if u.CT == "" || u.CT == mJSON || u.CT == mForm || u.CT == mMulti {
			ps, forbidden, err := m.params(u)
			if err != nil {
				return e, err
			}

			for _, p := range ps {
				k := p["in"].(string) + ":" + p["name"].(string)
				if seen[k] {
					return e, modelErr{"parameter declared twice: " + k}
				}

				seen[k] = true

				if p["in"] == "path" {
					declared[p["name"].(string)] = true
				}

				params = append(params, p)
			}

			for _, in := range forbidden {
				e.forbidden[in] = true
				e.op["x-forbid-unknown-"+in] = true
			}
		}

		if body, err = m.body(u, o.Method, body); err != nil {
			return e, err
		}
	}

	want := map[string]bool{}
	for _, n := range names {
		want[n] = true
	}

	if !reflect.DeepEqual(want, declared) {
		return e, modelErr{fmt.Sprintf("path has %v, structures declare %v", h.SortedKeys(want), h.SortedKeys(declared))}
	}

	if len(params) > 0 {
		e.op["parameters"] = params
	}

	if body != nil {
		e.op["requestBody"] = body
	}

	resps := map[string]interface{}{}

	for _, u := range o.Resp {
		k := statusKey(u)

		r, err := m.response(u, o.Method, asMap(resps[k]))
		if err != nil {
			return e, err
		}

		resps[k] = r
	}

	if len(resps) == 0 {
		resps["204"] = map[string]interface{}{"description": "No Content"}
	}

	e.op["responses"] = resps

	return e, nil
}

// modelPath reduces placeholders to their names; nested braces are part of the expression.
func modelPath(p string) (string, []string) {
	var (
		out   strings.Builder
		names []string
	)

	for i := 0; i < len(p); i++ {
		if p[i] != '{' {
			out.WriteByte(p[i])

			continue
		}

		depth, j := 0, i

		for ; j < len(p); j++ {
			if p[j] == '{' {
				depth++
			} else if p[j] == '}' {
				depth--
				if depth == 0 {
					break
				}
			}
		}

		if j == len(p) {
			out.WriteString(p[i:])

			break
		}

		name := strings.SplitN(p[i+1:j], ":", 2)[0]
		names = append(names, name)
		out.WriteString("{" + name + "}")
		i = j
	}

	return out.String(), names
}

// findOp finds the operation in the document.
func findOp(doc map[string]interface{}, webhook bool, path, method string) map[string]interface{} {
	if webhook {
		return asMap(get(doc, "webhooks", path, method))
	}

	return asMap(get(doc, "paths", path, method))
}

// normOp removes what carries no information from an operation of a document, in place.
func normOp(op map[string]interface{}) map[string]interface{} {
	for _, p := range asList(op["parameters"]) {
		normBools(asMap(p), "required", "deprecated", "allowEmptyValue", "allowReserved")
	}

	for _, r := range asMap(op["responses"]) {
		for _, hd := range asMap(asMap(r)["headers"]) {
			e := asMap(hd)
			normBools(e, "required", "deprecated", "explode", "allowEmptyValue", "allowReserved")

			if e["style"] == "simple" {
				delete(e, "style")
			}
		}

		if hs, ok := asMap(r)["headers"]; ok && len(asMap(hs)) == 0 {
			delete(asMap(r), "headers")
		}
	}

	return op
}

// pathOf makes a path with all path parameters that the request structures declare.
func pathOf(prefix string, req []unitDesc) string {
	var names []string

	seen := map[string]bool{}

	for _, u := range req {
		v := u.structure()
		if v == nil || isListOrMap(v) || (u.CT != "" && u.CT != mJSON && u.CT != mForm && u.CT != mMulti) {
			continue
		}

		for _, f := range flatten(v, u.Map["path"], "path") {
			if !f.Blank && !seen[f.Name] {
				seen[f.Name] = true
				names = append(names, f.Name)
			}
		}
	}

	sort.Strings(names)

	for _, n := range names {
		prefix += "/{" + n + "}"
	}

	return prefix
}
