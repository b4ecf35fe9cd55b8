package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
	"verif/pbt/internal/jsv"
	"verif/pbt/internal/tgen"
	"verif/pbt/internal/zoo"
)

// c16case is a structure to walk, with operations registered before.
type c16case struct {
	Is31   bool     `json:"is31"`
	Fmts   bool     `json:"fmts"`
	Prev   []opDesc `json:"prev,omitempty"`
	Resp   bool     `json:"resp,omitempty"`
	Method string   `json:"method"`
	U      unitDesc `json:"u"`
	Fail   int      `json:"fail"`   // callback that fails
	NoDone bool     `json:"noDone"` // done callback is not set
	Name   string   `json:"name"`   // unknown component
}

// inv30 converts a schema of OpenAPI 3.0 to JSON Schema.
func inv30(v interface{}) interface{} {
	s, ok := v.(map[string]interface{})
	if !ok {
		return v
	}

	if ref, ok := s["$ref"]; ok {
		return map[string]interface{}{"$ref": ref}
	}

	out := map[string]interface{}{}

	for k, x := range s {
		switch k {
		case "nullable", "example", "exclusiveMinimum", "exclusiveMaximum":
		case "not", "items", "additionalProperties":
			out[k] = inv30(x)
		case "allOf", "oneOf", "anyOf":
			l := []interface{}{}
			for _, e := range asList(x) {
				l = append(l, inv30(e))
			}

			out[k] = l
		case "properties":
			m := map[string]interface{}{}
			for n, e := range asMap(x) {
				m[n] = inv30(e)
			}

			out[k] = m
		default:
			out[k] = x
		}
	}

	if s["nullable"] == true {
		if t, ok := out["type"]; ok {
			out["type"] = []interface{}{t, "null"}
		}
	}

	if e, ok := s["example"]; ok {
		out["examples"] = []interface{}{e}
	}

	for _, b := range [][2]string{{"exclusiveMaximum", "maximum"}, {"exclusiveMinimum", "minimum"}} {
		if s[b[0]] == true {
			if x, ok := out[b[1]]; ok {
				out[b[0]] = x
				delete(out, b[1])
			}
		}
	}

	return out
}

// asJSONSchemaDoc converts components of a document to JSON Schema.
func asJSONSchemaDoc(doc map[string]interface{}, is31 bool) map[string]interface{} {
	comps := map[string]interface{}{}

	for k, s := range asMap(get(doc, "components", "schemas")) {
		if !is31 {
			s = inv30(s)
		}

		comps[k] = canonSchema(s)
	}

	return map[string]interface{}{"components": map[string]interface{}{"schemas": comps}}
}

// canonSchema brings equivalent notations of a JSON Schema to one form: order of types, a list of one type, trivial schemas.
func canonSchema(v interface{}) interface{} {
	s, ok := v.(map[string]interface{})
	if !ok {
		if v == true {
			return map[string]interface{}{}
		}

		return v
	}

	out := map[string]interface{}{}

	for k, x := range s {
		switch k {
		case "type":
			if l := asList(x); l != nil {
				var names []string
				for _, t := range l {
					names = append(names, fmt.Sprint(t))
				}

				names = sorted(names)
				if len(names) == 1 {
					x = names[0]
				} else {
					nl := []interface{}{}
					for _, t := range names {
						nl = append(nl, t)
					}

					x = nl
				}
			}

			out[k] = x
		case "not", "items", "additionalProperties", "if", "then", "else", "contains", "propertyNames", "additionalItems":
			out[k] = canonSchema(x)

			if k == "additionalProperties" && x == true {
				out[k] = true
			}
		case "allOf", "oneOf", "anyOf":
			l := []interface{}{}
			for _, e := range asList(x) {
				l = append(l, canonSchema(e))
			}

			out[k] = l
		case "properties", "patternProperties", "definitions", "$defs":
			m := map[string]interface{}{}
			for n, e := range asMap(x) {
				m[n] = canonSchema(e)
			}

			out[k] = m
		default:
			out[k] = x
		}
	}

	for _, k := range []string{"minLength", "minItems", "minProperties"} {
		if r, ok := jsv.Rat(out[k]); ok && r.Sign() == 0 {
			delete(out, k)
		}
	}

	for _, k := range []string{"deprecated", "readOnly", "writeOnly", "uniqueItems"} {
		if out[k] == false {
			delete(out, k)
		}
	}

	return out
}

type walked struct {
	In       string
	Name     string
	Required bool
	Schema   interface{} // nil if there is none
	Root     map[string]interface{}
}

func (w walked) String() string {
	return fmt.Sprintf("%s %q required=%v %s", w.In, w.Name, w.Required, cut(js(w.Schema)))
}

// handedOut renders a schema passed to a callback.
func handedOut(s *jsonschema.SchemaOrBool) (schema interface{}, root map[string]interface{}, err error) {
	if s == nil {
		return nil, nil, nil
	}

	b, err := json.Marshal(s)
	if err != nil {
		return nil, nil, err
	}

	v, err := jsv.Parse(b)
	if err != nil {
		return nil, nil, err
	}

	m := asMap(v)
	comps := map[string]interface{}{}

	for k, c := range asMap(get(m, "components", "schemas")) {
		comps[k] = canonSchema(c)
	}

	unresolved := ""

	walkRefs(v, "", func(path, ref string) {
		if _, ok := jsv.Resolve(v, ref); !ok {
			unresolved = fmt.Sprintf("reference %q at %s does not resolve within schema %s", ref, path, cut(js(v)))
		}
	})

	if unresolved != "" {
		return nil, nil, errors.New(unresolved)
	}

	if m != nil {
		delete(m, "components")
	}

	return canonSchema(v), map[string]interface{}{"components": map[string]interface{}{"schemas": comps}}, nil
}

// sameSchema compares a documented schema with the one handed out, which may have the root reference replaced by its target.
func sameSchema(doc map[string]interface{}, want interface{}, root map[string]interface{}, got interface{}) string {
	if ref, ok := asMap(want)["$ref"].(string); ok && asMap(got)["$ref"] == nil {
		want, _ = jsv.Resolve(doc, ref)
	}

	return simDiff(doc, want, root, got)
}

// documented lists what registering documents for the walk.
func documented(op map[string]interface{}, is31, resp bool) []walked {
	var res []walked

	conv := func(s interface{}) interface{} {
		if !is31 {
			s = inv30(s)
		}

		return canonSchema(s)
	}

	if !resp {
		for _, x := range asList(op["parameters"]) {
			p := asMap(x)
			w := walked{In: p["in"].(string), Name: p["name"].(string), Required: p["required"] == true}

			if s, ok := p["schema"]; ok {
				w.Schema = conv(s)
			} else {
				w.Schema = conv(get(p, "content", mJSON, "schema"))
			}

			res = append(res, w)
		}

		body := asMap(op["requestBody"])
		if s := get(body, "content", mJSON, "schema"); s != nil {
			res = append(res, walked{In: "body", Name: "body", Schema: conv(s)})
		}

		if s := get(body, "content", mForm, "schema"); s != nil {
			res = append(res, walked{In: "urlencoded", Schema: conv(s)})
		}

		return res
	}

	for _, x := range asMap(op["responses"]) {
		r := asMap(x)

		for name, hd := range asMap(r["headers"]) {
			res = append(res, walked{In: "header", Name: http.CanonicalHeaderKey(name), Required: asMap(hd)["required"] == true, Schema: conv(asMap(hd)["schema"])})
		}

		for _, mt := range asMap(r["content"]) {
			if s := get(mt, "schema"); s != nil {
				res = append(res, walked{In: "body", Name: "body", Schema: conv(s)})
			}
		}
	}

	return res
}

// formFields expands urlencoded bodies to fields.
func formFields(l []walked, doc map[string]interface{}) []walked {
	var res []walked

	for _, w := range l {
		if w.In != "urlencoded" {
			res = append(res, w)

			continue
		}

		s := w.Schema
		for i := 0; i < 5; i++ {
			if ref, ok := asMap(s)["$ref"].(string); ok {
				s, _ = jsv.Resolve(doc, ref)
			}
		}

		required := map[string]bool{}
		for _, n := range asList(asMap(s)["required"]) {
			required[n.(string)] = true
		}

		for n, p := range asMap(asMap(s)["properties"]) {
			res = append(res, walked{In: "formData", Name: n, Required: required[n], Schema: p})
		}
	}

	return res
}

type walker interface {
	WalkRequestJSONSchemas(method string, cu openapi.ContentUnit, cb openapi.JSONSchemaCallback, done func(oc openapi.OperationContext)) error
	WalkResponseJSONSchemas(cu openapi.ContentUnit, cb openapi.JSONSchemaCallback, done func(oc openapi.OperationContext)) error
	ResolveJSONSchemaRef(ref string) (s jsonschema.SchemaOrBool, found bool)
}

var (
	_ walker = &openapi3.Reflector{}
	_ walker = &openapi31.Reflector{}
)

var errCallback = errors.New("callback fails")

func (c c16case) walk(w walker, cb openapi.JSONSchemaCallback, done func(oc openapi.OperationContext)) error {
	if c.Resp {
		return w.WalkResponseJSONSchemas(c.U.contentUnit(), cb, done)
	}

	return w.WalkRequestJSONSchemas(c.Method, c.U.contentUnit(), cb, done)
}

func runC16(c c16case, st *h.Stats) error {
	// What registering documents.
	o := opDesc{Method: c.Method, Path: "/"}

	if c.Resp {
		o.Method = http.MethodGet
		o.Resp = []unitDesc{c.U}
	} else {
		o.Req = []unitDesc{c.U}
		o.Path = pathOf("/p", o.Req)
	}

	reg := newReflector(c.Is31, c.Fmts)
	regErr := o.register(reg)

	// The walk.
	r := newReflector(c.Is31, c.Fmts)

	for _, p := range c.Prev {
		_ = p.register(r) //nolint:errcheck // Only its components matter.
	}

	before := docOf(r)
	w := r.(walker)

	var got []walked

	doneCalls := 0
	done := func(oc openapi.OperationContext) {
		doneCalls++

		l := oc.Request()
		if c.Resp {
			l = oc.Response()
		}

		if len(l) != 1 {
			doneCalls += 100
		}
	}

	if c.NoDone {
		done = nil
	}

	var bad error

	err := c.walk(w, func(in openapi.In, name string, schema *jsonschema.SchemaOrBool, required bool) error {
		s, root, err := handedOut(schema)
		if err != nil && bad == nil {
			bad = fmt.Errorf("%s %q: %w", in, name, err)
		}

		if s == nil && err == nil {
			bad = fmt.Errorf("%s %q: no schema", in, name)
		}

		got = append(got, walked{In: string(in), Name: name, Required: required, Schema: s, Root: root})

		return nil
	}, done)

	if bad != nil {
		return bad
	}

	if !c.NoDone && doneCalls != 1 {
		return fmt.Errorf("done is called %d times", doneCalls)
	}

	if (err != nil) != (regErr != nil) {
		return fmt.Errorf("registering gives %v, walking %v", regErr, err)
	}

	st.ClassIf(c.Is31, "3.1")
	st.ClassIf(c.Resp, "response")
	st.ClassIf(len(c.Prev) > 0, "operations registered before")

	if err != nil {
		st.Class("rejected")

		return nil
	}

	doc := docOf(reg)
	e, _ := newModel(c.Is31, c.Fmts).operation(o)

	op := findOp(doc, false, e.path, e.method)
	if op == nil {
		return fmt.Errorf("operation is not registered: %s", cut(js(doc)))
	}

	jdoc := asJSONSchemaDoc(doc, c.Is31)
	want := formFields(documented(op, c.Is31, c.Resp), jdoc)

	if len(want) != len(got) {
		return fmt.Errorf("%d schemas are documented, %d handed out\ndocumented: %v\nhanded out: %v", len(want), len(got), want, got)
	}

	st.NonTrivialIf(len(want) > 0)

	used := map[int]bool{}

	for _, g := range got {
		reason := "no such part"
		found := false

		st.Class("in " + g.In)
		st.ClassIf(len(asMap(get(g.Root, "components", "schemas"))) > 0, "with components")

		for i, x := range want {
			if used[i] || x.In != g.In || x.Name != g.Name {
				continue
			}

			if x.Required != g.Required {
				reason = fmt.Sprintf("required is documented as %v", x.Required)

				continue
			}

			if reason = sameSchema(jdoc, x.Schema, g.Root, g.Schema); reason == "" {
				used[i], found = true, true

				break
			}
		}

		if !found {
			return fmt.Errorf("handed out schema of %v does not match the documented ones (first documented, second handed out): %s\ndocumented: %v\nof document %s", g, reason, want, cut(js(doc)))
		}
	}

	// Nothing but components is added.
	after := docOf(r)
	for _, m := range []map[string]interface{}{before, after} {
		delete(m, "components")
	}

	if d := jsv.Diff(before, after); d != "" {
		return fmt.Errorf("walking changes the document: %s", d)
	}

	if err := c.resolve(r, w); err != nil {
		return err
	}

	return c.failing(len(got), st)
}

// resolve checks references to components.
func (c c16case) resolve(r openapi.Reflector, w walker) error {
	doc := docOf(r)
	jdoc := asJSONSchemaDoc(doc, c.Is31)
	names := h.SortedKeys(asMap(get(doc, "components", "schemas")))

	for _, n := range names {
		s, found := w.ResolveJSONSchemaRef("#/components/schemas/" + n)
		if !found {
			return fmt.Errorf("component %q is not found", n)
		}

		b, err := json.Marshal(s)
		if err != nil {
			return fmt.Errorf("component %q: %w", n, err)
		}

		v, err := jsv.Parse(b)
		h.Must(err, "parse")

		root := jdoc // 3.1 schemas are those of the document.

		if comps := get(v, "components", "schemas"); comps != nil {
			delete(asMap(v), "components")

			m := map[string]interface{}{}
			for k, x := range asMap(comps) {
				m[k] = canonSchema(x)
			}

			root = map[string]interface{}{"components": map[string]interface{}{"schemas": m}}
		}

		if d := simDiff(jdoc, get(jdoc, "components", "schemas", n), root, canonSchema(v)); d != "" {
			return fmt.Errorf("component %q (first documented, second resolved): %s", n, d)
		}
	}

	known := map[string]bool{}
	for _, n := range names {
		known[n] = true
	}

	if len(names) > 0 {
		for _, ref := range []string{names[0], "#/components/responses/" + names[0], "#/definitions/" + names[0], "#/components/schemas/" + names[0] + "/properties/x"} {
			if _, found := w.ResolveJSONSchemaRef(ref); found {
				return fmt.Errorf("reference %q is found", ref)
			}
		}
	}

	if !known[c.Name] {
		for _, ref := range []string{c.Name, "#/components/schemas/" + c.Name} {
			if s, found := w.ResolveJSONSchemaRef(ref); found {
				return fmt.Errorf("reference %q is found: %s", ref, js(s))
			}
		}
	}

	return nil
}

// failing checks that errors of the callback are returned.
func (c c16case) failing(n int, st *h.Stats) error {
	if n == 0 {
		return nil
	}

	w := newReflector(c.Is31, c.Fmts).(walker)
	fail := c.Fail % n
	calls, dones := 0, 0

	err := c.walk(w, func(openapi.In, string, *jsonschema.SchemaOrBool, bool) error {
		calls++

		if calls == fail+1 {
			return errCallback
		}

		return nil
	}, func(openapi.OperationContext) { dones++ })

	if !errors.Is(err, errCallback) {
		return fmt.Errorf("error of callback %d of %d is not returned: %v", fail+1, n, err)
	}

	if dones != 1 {
		return fmt.Errorf("done is called %d times if callback fails", dones)
	}

	st.Class("callback fails")

	return nil
}

func genC16(resp bool) func(t *rapid.T) c16case {
	return func(t *rapid.T) c16case {
		g := newOpGen(t)
		c := c16case{
			Is31: rapid.Bool().Draw(t, "is31"), Fmts: chance(t, 30), Resp: resp,
			Method: genMethodSpelling(t, pick(t, []string{"post", "put", "patch", "post", "get", "delete", "head", "options"})),
			Fail:   drawInt(t, 0, 5), NoDone: chance(t, 15),
			Name: pick(t, []string{"", "Unknown", "unknown/x", "%", "~1"}),
		}

		if chance(t, 40) {
			for i := drawInt(t, 1, 2); i > 0; i-- {
				o := g.operation()
				o.Path = fmt.Sprintf("/prev%d", i) + o.Path

				for _, l := range [][]unitDesc{o.Req, o.Resp} {
					for j := range l {
						if l[j].T.K == "virt" && l[j].T.D == "" {
							l[j].T.D = fmt.Sprintf("VirtN%d", g.next())
						}
					}
				}

				c.Prev = append(c.Prev, o)
			}
		}

		if resp {
			c.U = g.respUnit()
		} else if chance(t, 30) {
			// Form data of all shapes.
			c.U.T = tgen.T{K: "struct"}
			for i := drawInt(t, 1, 4); i > 0; i-- {
				c.U.T.F = append(c.U.T.F, g.formField("formData"))
			}

			if chance(t, 40) {
				c.U.T.F = append(c.U.T.F, tgen.F{N: "Nested", T: g.zooType("field", zoo.Special), Tag: `formData:"nested"`})
			}

			g.form(&c.U)
		} else {
			c.U = g.reqUnit()
		}

		if c.U.T.K == "virt" && c.U.T.D == "" {
			c.U.T.D = fmt.Sprintf("VirtN%d", g.next())
		}

		if c.Name != "" && strings.HasPrefix(c.Name, "Zoo") {
			c.Name = "Unknown"
		}

		return c
	}
}

func init() {
	p := h.Register("C16", "Schemas handed to validators match the document and stand alone",
		"Schemas are compared by structure after conversion to JSON Schema, with references followed and equivalent notations (order of types, zero minima) unified.",
		"Resolved 3.1 components are compared with references followed in the document.")

	h.Add(p, "request", "at least one schema is handed out; request structures of all kinds, also after other operations",
		8000, 400000, genC16(false), runC16)
	h.Add(p, "response", "at least one schema is handed out; response structures of all kinds, also after other operations",
		8000, 400000, genC16(true), runC16)
	h.Add(p, "loaded", "the schema refers to components; loaded documents with components of all kinds, schemas that use them, also with missing components",
		15000, 1000000, genC16load, func(c c16load, st *h.Stats) error { return c.run(st) })
}
