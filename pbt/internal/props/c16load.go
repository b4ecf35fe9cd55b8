package props

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
	"verif/pbt/internal/jsv"
)

// c16load is a loaded document with components, and a schema that uses them.
type c16load struct {
	Is31 bool    `json:"is31"`
	S    c13case `json:"s"`
	Miss string  `json:"miss"` // component to be missing

	Empty int `json:"empty,omitempty"` // how no components are written
}

// standsAlone checks that references of a schema resolve within itself.
func standsAlone(v interface{}) error {
	var err error

	schemaRefs(v, func(ref string) {
		if _, ok := jsv.Resolve(v, ref); !ok && err == nil {
			err = fmt.Errorf("reference %q does not resolve within schema %s", ref, cut(js(v)))
		}
	})

	return err
}

// schemaRefs lists references of a schema, but not those of its values.
func schemaRefs(v interface{}, f func(ref string)) {
	for k, x := range asMap(v) {
		switch k {
		case "$ref":
			if s, ok := x.(string); ok {
				f(s)
			}
		case "properties", "patternProperties", "dependentSchemas", "dependencies", "$defs", "definitions":
			for _, e := range asMap(x) {
				schemaRefs(e, f)
			}
		case "components":
			for _, e := range asMap(get(x, "schemas")) {
				schemaRefs(e, f)
			}
		case "allOf", "anyOf", "oneOf", "prefixItems":
			for _, e := range asList(x) {
				schemaRefs(e, f)
			}
		case "not", "items", "additionalProperties", "if", "then", "else", "contains", "propertyNames", "unevaluatedItems", "unevaluatedProperties", "contentSchema":
			schemaRefs(x, f)
		}
	}
}

func (c c16load) run(st *h.Stats) error {
	comps := map[string]interface{}{}
	for k, b := range c.S.Comps {
		comps[k] = parseRaw(b)
	}

	doc := func(comps map[string]interface{}) []byte {
		d := map[string]interface{}{"openapi": "3.0.3", "info": map[string]interface{}{"title": "", "version": ""}, "paths": map[string]interface{}{}}
		if c.Is31 {
			d["openapi"] = "3.1.0"
		}

		switch {
		case len(comps) > 0:
			d["components"] = map[string]interface{}{"schemas": comps}
		case c.Empty > 0:
			d["components"] = []map[string]interface{}{{}, {"schemas": comps}, {"x-a": 1}}[c.Empty-1]
		}

		b, err := json.Marshal(d)
		h.Must(err, "marshal")

		return b
	}

	dialect := jsv.OAS30
	if c.Is31 {
		dialect = jsv.Draft2020
	}

	type loadedDoc struct {
		w      walker
		toJS   func(nilSpec bool) jsonschema.SchemaOrBool
		asText func() string
	}

	load := func(comps map[string]interface{}) (l loadedDoc, err error) {
		if c.Is31 {
			r := openapi31.NewReflector()
			if err := r.Spec.UnmarshalJSON(doc(comps)); err != nil {
				return l, err
			}

			s := map[string]interface{}{}
			h.Must(json.Unmarshal(c.S.Schema, &s), "schema")

			return loadedDoc{w: r, toJS: func(nilSpec bool) jsonschema.SchemaOrBool {
				if nilSpec {
					return openapi31.ToJSONSchema(s, nil)
				}

				return openapi31.ToJSONSchema(s, r.Spec)
			}, asText: func() string { return js(s) + js(r.Spec) }}, nil
		}

		r := openapi3.NewReflector()
		if err := r.Spec.UnmarshalJSON(doc(comps)); err != nil {
			return l, err
		}

		s := openapi3.SchemaOrRef{}
		if err := json.Unmarshal(c.S.Schema, &s); err != nil {
			return l, err
		}

		return loadedDoc{w: r, toJS: func(nilSpec bool) jsonschema.SchemaOrBool {
			if nilSpec {
				return s.ToJSONSchema(nil)
			}

			return s.ToJSONSchema(r.Spec)
		}, asText: func() string { return js(s) + js(r.Spec) }}, nil
	}

	l, err := load(comps)
	if err != nil {
		return fmt.Errorf("load: %w", err)
	}

	before := l.asText()
	root := compsRoot(comps)

	v, err := saved(l.toJS(false))
	if err != nil {
		return fmt.Errorf("save: %w", err)
	}

	st.ClassIf(c.Is31, "3.1")
	st.ClassIf(len(asMap(get(v, "components", "schemas"))) > 0, "with components")

	refs := 0
	schemaRefs(parseRaw(c.S.Schema), func(string) { refs++ })
	st.NonTrivialIf(refs > 0)

	if err := standsAlone(v); err != nil {
		return err
	}

	if err := agree("schema", c.S.Insts, root, parseRaw(c.S.Schema), dialect, v, v, jsv.Draft2020, h.NewStats()); err != nil {
		return err
	}

	for k := range comps {
		s, found := l.w.ResolveJSONSchemaRef("#/components/schemas/" + k)
		if !found {
			return fmt.Errorf("component %q is not found", k)
		}

		v, err := saved(s)
		if err != nil {
			return fmt.Errorf("save component %q: %w", k, err)
		}

		jroot := v
		if c.Is31 { // Schema as in the document.
			jroot = root
		} else if err := standsAlone(v); err != nil {
			return fmt.Errorf("component %q: %w", k, err)
		}

		if err := agree("component "+k, c.S.Insts, root, comps[k], dialect, jroot, v, jsv.Draft2020, h.NewStats()); err != nil {
			return err
		}
	}

	if s, found := l.w.ResolveJSONSchemaRef("#/components/schemas/" + c.Miss + "x"); found {
		return fmt.Errorf("unknown component is found: %s", js(s))
	}

	if again, err := saved(l.toJS(false)); err != nil || jsv.Diff(v, again) != "" {
		return fmt.Errorf("converted again: %w, before %s, after %s", err, cut(js(v)), cut(js(again)))
	}

	if after := l.asText(); after != before {
		return fmt.Errorf("document or schema is changed\nbefore: %s\nafter:  %s", before, after)
	}

	return c.missing(v, comps, refs, load2(func(m map[string]interface{}) (func(bool) jsonschema.SchemaOrBool, walker, error) {
		l, err := load(m)

		return l.toJS, l.w, err
	}), st)
}

type load2 func(map[string]interface{}) (func(nilSpec bool) jsonschema.SchemaOrBool, walker, error)

// missing checks that unresolved references are left as they are.
func (c c16load) missing(full interface{}, comps map[string]interface{}, refs int, load load2, st *h.Stats) error {
	toJS, _, err := load(comps)
	if err != nil {
		return err
	}

	alone, err := saved(toJS(true))
	if err != nil {
		return fmt.Errorf("save, no document: %w", err)
	}

	if refs == 0 {
		if d := jsv.Diff(full, alone); d != "" {
			return fmt.Errorf("schema without references depends on the document: %s", d)
		}
	}

	delete(comps, c.Miss)

	toJS, w, err := load(comps)
	if err != nil {
		return fmt.Errorf("load without a component: %w", err)
	}

	part, err := saved(toJS(false))
	if err != nil {
		return fmt.Errorf("save, component is missing: %w", err)
	}

	if ref := "#/components/schemas/" + c.Miss; !strings.Contains(js(full)+string(c.S.Schema), ref) {
		delete(asMap(get(full, "components", "schemas")), c.Miss)

		if d := jsv.Diff(full, part); d != "" {
			return fmt.Errorf("schema depends on a component that is not referenced: %s", d)
		}
	}

	if _, found := w.ResolveJSONSchemaRef("#/components/schemas/" + c.Miss); found {
		return fmt.Errorf("removed component %q is found", c.Miss)
	}

	for k := range comps {
		if _, found := w.ResolveJSONSchemaRef("#/components/schemas/" + k); !found {
			return fmt.Errorf("component %q is not found if %q is missing", k, c.Miss)
		}
	}

	st.ClassIf(len(comps) > 0, "other components")

	return nil
}

func genC16load(t *rapid.T) c16load {
	c := c16load{Is31: rapid.Bool().Draw(t, "is31"), Miss: pick(t, []string{"A", "B-1", "c.d_E"}), Empty: drawInt(t, 0, 3)}
	c.S = genSchemas(&schGen{t: t, js: c.Is31, ext: c.Is31, cur: -1}, 85)

	// Entities hold schemas as objects.
	obj := func(b json.RawMessage) json.RawMessage {
		switch string(b) {
		case "true":
			return json.RawMessage(`{}`)
		case "false":
			return json.RawMessage(`{"not":{}}`)
		}

		return b
	}

	c.S.Schema = obj(c.S.Schema)
	for k, b := range c.S.Comps {
		c.S.Comps[k] = obj(b)
	}

	return c
}
