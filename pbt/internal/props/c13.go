package props

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go/openapi3"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
	"verif/pbt/internal/jsv"
)

// c13case is a schema with the components it refers to and instances to try.
type c13case struct {
	Schema json.RawMessage            `json:"schema"`
	Comps  map[string]json.RawMessage `json:"comps,omitempty"`
	Insts  []json.RawMessage          `json:"insts"`
}

// schGen generates schemas in the notation of OpenAPI 3.0 or of JSON Schema.
type schGen struct {
	t     *rapid.T
	js    bool // JSON Schema
	ext   bool // JSON Schema with keywords that OpenAPI 3.0 does not have
	names []string
	cur   int // index of the component being made
	lits  []interface{}
	keys  []string
}

var schemaKeys = []string{"a", "b", "c d", "x-k", "$k", "é", "nullable", "type"}

func (g *schGen) num() interface{} {
	n := pick(g.t, []interface{}{0, 1, 2, 3, 5, 10, -1, -2.5, 0.5, 2.5, 1e10, 100, 1.0})
	g.lits = append(g.lits, n)

	return n
}

func (g *schGen) nat() interface{} { return drawInt(g.t, 0, 4) }

func (g *schGen) val(depth int) interface{} {
	var v interface{}

	switch n := drawInt(g.t, 0, 9); {
	case n == 0:
		v = nil
	case n == 1:
		v = rapid.Bool().Draw(g.t, "bool")
	case n <= 3:
		v = g.num()
	case n <= 6:
		v = pick(g.t, []string{"", "a", "ab", "abc", "x1", "éé", "null", "1", "aaaaaa", "a-b"})
	case n <= 7 && depth > 0:
		l := []interface{}{}
		for i := drawInt(g.t, 0, 4); i > 0; i-- {
			l = append(l, g.val(depth-1))
		}

		v = l
	case n <= 9 && depth > 0:
		m := map[string]interface{}{}

		for i := drawInt(g.t, 0, 4); i > 0; i-- {
			k := pick(g.t, schemaKeys)
			if len(g.keys) > 0 && chance(g.t, 70) {
				k = pick(g.t, g.keys)
			}

			m[k] = g.val(depth - 1)
		}

		v = m
	default:
		v = "a"
	}

	if depth < 2 && len(g.lits) < 50 {
		g.lits = append(g.lits, v)
	}

	return v
}

// sub is a schema of a member; direct members apply to the same value.
func (g *schGen) sub(depth int, direct bool) interface{} {
	t := g.t

	if len(g.names) > 0 && chance(t, 25) {
		n := drawInt(t, 0, len(g.names)-1)

		// References that apply to the same value do not form cycles.
		if !direct || n > g.cur {
			m := map[string]interface{}{"$ref": "#/components/schemas/" + g.names[n]}

			if g.js && !g.ext && chance(t, 15) { // 3.0 can say it with allOf.
				m["deprecated"] = rapid.Bool().Draw(t, "deprecated")
			}

			if g.ext && chance(t, 20) && depth > 0 {
				for k, v := range asMap(g.schema(depth - 1)) {
					m[k] = v
				}
			}

			return m
		}
	}

	if g.js && chance(t, 12) {
		return rapid.Bool().Draw(t, "schema")
	}

	return g.schema(depth - 1)
}

func (g *schGen) schema(depth int) interface{} {
	t := g.t
	m := map[string]interface{}{}

	add := func(p int, k string, f func() interface{}) {
		if chance(t, p) {
			m[k] = f()
		}
	}

	typ := ""
	if chance(t, 75) {
		typ = pick(t, []string{"string", "integer", "number", "boolean", "object", "array", "object", "array"})
	}

	null := chance(t, 25)

	switch {
	case g.js && typ != "" && null:
		l := []interface{}{typ, "null"}
		if rapid.Bool().Draw(t, "null first") {
			l = []interface{}{"null", typ}
		}

		m["type"] = l
	case g.js && typ == "" && chance(t, 10):
		// The converter writes it as nullable without anything else.
		return map[string]interface{}{"type": "null"}
	case typ != "":
		m["type"] = typ

		if !g.js && null {
			m["nullable"] = true
		} else if !g.js && chance(t, 10) {
			m["nullable"] = false
		}
	}

	p := func(types ...string) int {
		for _, x := range types {
			if x == typ {
				return 35
			}
		}

		if typ == "" {
			return 12
		}

		return 4
	}

	for _, b := range [][2]string{{"maximum", "exclusiveMaximum"}, {"minimum", "exclusiveMinimum"}} {
		add(p("integer", "number"), b[0], g.num)

		if g.js {
			add(p("integer", "number"), b[1], g.num)
		} else {
			add(p("integer", "number"), b[1], func() interface{} { return chance(t, 70) })
		}
	}

	add(p("integer", "number")/2, "multipleOf", func() interface{} { return pick(t, []interface{}{1, 2, 0.5, 2.5}) })
	add(p("string"), "maxLength", g.nat)
	add(p("string"), "minLength", g.nat)
	add(p("string")/2, "pattern", func() interface{} { return pick(t, []string{"^a", "b$", "[0-9]", "^x?$", ""}) })
	add(p("array"), "maxItems", g.nat)
	add(p("array"), "minItems", g.nat)
	add(p("array")/2, "uniqueItems", func() interface{} { return chance(t, 80) })
	add(p("object")/2, "maxProperties", g.nat)
	add(p("object")/2, "minProperties", g.nat)
	add(p("object"), "required", func() interface{} {
		l := []interface{}{}
		seen := map[string]bool{}

		for i := drawInt(t, 1, 2); i > 0; i-- {
			k := pick(t, schemaKeys[:4])
			if !seen[k] {
				l = append(l, k)
				seen[k] = true
				g.keys = append(g.keys, k)
			}
		}

		return l
	})
	add(10, "enum", func() interface{} {
		l := []interface{}{}
		for i := drawInt(t, 1, 3); i > 0; i-- {
			l = append(l, g.val(1))
		}

		return l
	})

	if depth > 0 {
		add(p("object"), "properties", func() interface{} {
			ps := map[string]interface{}{}

			for i := drawInt(t, 1, 3); i > 0; i-- {
				k := pick(t, schemaKeys)
				g.keys = append(g.keys, k)
				ps[k] = g.sub(depth, false)
			}

			return ps
		})
		add(p("object"), "additionalProperties", func() interface{} {
			if chance(t, 50) {
				return rapid.Bool().Draw(t, "additional")
			}

			return g.sub(depth, false)
		})

		if typ == "array" && !g.js { // OpenAPI requires it.
			m["items"] = g.sub(depth, false)
		} else {
			add(p("array"), "items", func() interface{} { return g.sub(depth, false) })
		}

		for _, k := range []string{"allOf", "anyOf", "oneOf"} {
			add(9, k, func() interface{} {
				l := []interface{}{}
				for i := drawInt(t, 1, 3); i > 0; i-- {
					l = append(l, g.sub(depth, true))
				}

				return l
			})
		}

		add(6, "not", func() interface{} { return g.sub(depth, true) })
	} else if typ == "array" && !g.js {
		m["items"] = map[string]interface{}{}
	}

	if g.ext {
		g.extra(m, depth, add)
	}

	add(10, "title", func() interface{} { return pick(t, []string{"", "T"}) })
	add(10, "description", func() interface{} { return pick(t, []string{"", "D"}) })
	add(10, "format", func() interface{} { return pick(t, []string{"date", "int32", "custom"}) })
	add(8, "default", func() interface{} { return g.val(1) })
	add(8, "deprecated", func() interface{} { return rapid.Bool().Draw(t, "deprecated") })
	add(8, "readOnly", func() interface{} { return rapid.Bool().Draw(t, "readOnly") })
	add(8, "writeOnly", func() interface{} { return rapid.Bool().Draw(t, "writeOnly") })
	add(8, "x-ext", func() interface{} { return g.val(1) })

	if g.js {
		add(8, "examples", func() interface{} { return []interface{}{g.val(1)} })
	} else {
		add(8, "example", func() interface{} { return g.val(1) })

		// Without a type, nullable says nothing.
		if _, ok := m["type"]; !ok && null {
			for _, k := range []string{
				"enum", "allOf", "anyOf", "oneOf", "not", "properties", "items", "maximum", "minimum", "multipleOf", "minLength", "maxLength",
				"pattern", "maxItems", "minItems", "uniqueItems", "maxProperties", "minProperties", "required", "additionalProperties",
			} {
				if m[k] != nil {
					m["nullable"] = true
				}
			}
		}
	}

	return m
}

// extra adds keywords of JSON Schema that OpenAPI 3.0 does not have.
func (g *schGen) extra(m map[string]interface{}, depth int, add func(p int, k string, f func() interface{})) {
	t := g.t

	add(4, "const", func() interface{} { return g.val(1) })

	if depth <= 0 {
		return
	}

	one := func(direct bool) func() interface{} {
		return func() interface{} { return g.sub(depth, direct) }
	}

	named := func(direct bool, keys ...string) func() interface{} {
		return func() interface{} {
			k := pick(t, keys)
			g.keys = append(g.keys, k)

			return map[string]interface{}{k: g.sub(depth, direct)}
		}
	}

	list := func() interface{} {
		l := []interface{}{}
		for i := drawInt(t, 1, 2); i > 0; i-- {
			l = append(l, g.sub(depth, false))
		}

		return l
	}

	if chance(t, 8) {
		m["if"] = g.sub(depth, true)
		add(70, "then", one(true))
		add(70, "else", one(true))
	}

	add(5, "contains", one(false))
	add(5, "propertyNames", one(false))
	add(6, "patternProperties", named(false, "a", "^b", "k$"))
	add(5, "dependentSchemas", named(true, "a", "b"))
	add(6, "prefixItems", list)
	add(4, "unevaluatedProperties", one(false))
	add(4, "unevaluatedItems", one(false))
	add(4, "contentSchema", one(false))
	add(4, "dependencies", func() interface{} {
		if chance(t, 30) {
			return map[string]interface{}{"a": []interface{}{"b"}}
		}

		return named(true, "a", "b")()
	})
	add(4, "$defs", named(false, "a", "b"))
	add(4, "definitions", named(false, "a", "b"))
}

// inst makes an instance that has a chance to be accepted.
func (g *schGen) inst(root map[string]interface{}, s interface{}, depth int) interface{} {
	t := g.t

	if chance(t, 12) || depth < 0 {
		return g.val(1)
	}

	m, ok := s.(map[string]interface{})
	if !ok {
		return g.val(2)
	}

	if r, ok := m["$ref"].(string); ok {
		x, _ := jsv.Resolve(root, r)

		return g.inst(root, x, depth-1)
	}

	if l := asList(m["enum"]); len(l) > 0 && chance(t, 80) {
		return pick(t, l)
	}

	for _, k := range []string{"allOf", "anyOf", "oneOf"} {
		if l := asList(m[k]); len(l) > 0 && (chance(t, 40) || m["type"] == nil) {
			return g.inst(root, pick(t, l), depth-1)
		}
	}

	typ, _ := m["type"].(string)
	if l := asList(m["type"]); len(l) > 0 {
		typ, _ = pick(t, l).(string)
	}

	if m["nullable"] == true && chance(t, 20) {
		typ = "null"
	}

	if typ == "" {
		switch {
		case m["properties"] != nil || m["required"] != nil:
			typ = "object"
		case m["items"] != nil || m["maxItems"] != nil:
			typ = "array"
		case m["minLength"] != nil || m["maxLength"] != nil:
			typ = "string"
		case m["minimum"] != nil || m["maximum"] != nil:
			typ = "number"
		default:
			return g.val(2)
		}
	}

	lim := func(k string) int {
		n, ok := jsv.Rat(m[k])
		if !ok || !n.IsInt() {
			return drawInt(t, 0, 3)
		}

		return int(n.Num().Int64()) + drawInt(t, -1, 1)
	}

	bound := func(a, b string) int {
		k := a
		if m[a] == nil || m[b] != nil && chance(t, 50) {
			k = b
		}

		n := lim(k)
		if n < 0 {
			n = 0
		}

		return n
	}

	switch typ {
	case "null":
		return nil
	case "boolean":
		return rapid.Bool().Draw(t, "b")
	case "string":
		return strings.Repeat(pick(t, []string{"a", "1", "é"}), bound("minLength", "maxLength"))
	case "integer", "number":
		for _, k := range []string{"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"} {
			if n, ok := jsv.Rat(m[k]); ok && chance(t, 60) {
				d := pick(t, []*big.Rat{new(big.Rat), new(big.Rat), big.NewRat(1, 1), big.NewRat(-1, 1), big.NewRat(1, 2)})
				f, _ := new(big.Rat).Add(n, d).Float64()

				return f
			}
		}

		return pick(t, []interface{}{0, 1, 2, 2.5, -3, 1e10, 5})
	case "array":
		l := []interface{}{}
		for i := bound("minItems", "maxItems"); i > 0; i-- {
			l = append(l, g.inst(root, m["items"], depth-1))
		}

		return l
	case "object":
		o := map[string]interface{}{}
		ps := asMap(m["properties"])

		for _, k := range h.SortedKeys(ps) {
			if chance(t, 70) {
				o[k] = g.inst(root, ps[k], depth-1)
			}
		}

		for _, k := range asList(m["required"]) {
			if k := k.(string); chance(t, 85) && o[k] == nil {
				o[k] = g.inst(root, ps[k], depth-1)
			}
		}

		if chance(t, 35) {
			o[pick(t, schemaKeys)] = g.inst(root, m["additionalProperties"], depth-1)
		}

		return o
	}

	return nil
}

func genC13(isJS bool) func(t *rapid.T) c13case {
	return func(t *rapid.T) c13case { return genSchemas(&schGen{t: t, js: isJS, cur: -1}, 50) }
}

// genSchemas makes a schema, components with the probability, and instances.
func genSchemas(g *schGen, p int) c13case {
	t := g.t
	c := c13case{Comps: map[string]json.RawMessage{}}

	if chance(t, p) {
		g.names = []string{"A", "B-1", "c.d_E"}[:drawInt(t, 1, 3)]
	}

	comps := map[string]interface{}{}
	root := map[string]interface{}{"components": map[string]interface{}{"schemas": comps}}

	for i, n := range g.names {
		g.cur = i
		comps[n] = g.sub(2, true)
	}

	g.cur = -1
	s := g.sub(3, true)

	norm := func(v interface{}) json.RawMessage {
		b, err := json.Marshal(v)
		h.Must(err, "marshal")

		return b
	}

	c.Schema = norm(s)
	for k, v := range comps {
		c.Comps[k] = norm(v)
	}

	for i := 0; i < 12; i++ {
		c.Insts = append(c.Insts, norm(g.inst(root, s, 4)))
	}

	return c
}

// plain30 removes notation without meaning from a schema of OpenAPI 3.0, in place.
func plain30(v interface{}) interface{} {
	switch x := v.(type) {
	case []interface{}:
		for i := range x {
			x[i] = plain30(x[i])
		}
	case map[string]interface{}:
		_, isType := x["type"].(string)

		for _, k := range []string{"minLength", "minItems", "minProperties"} {
			if n, ok := jsv.Rat(x[k]); ok && n.Sign() == 0 {
				delete(x, k)
			}
		}

		for _, b := range [][2]string{{"exclusiveMaximum", "maximum"}, {"exclusiveMinimum", "minimum"}} {
			if x[b[0]] == false || x[b[1]] == nil {
				delete(x, b[0])
			}
		}

		if x["nullable"] == false || !isType {
			delete(x, "nullable")
		}

		for k, e := range x {
			switch k {
			case "properties":
				for n, s := range asMap(e) {
					asMap(e)[n] = plain30(s)
				}
			case "allOf", "anyOf", "oneOf", "not", "items", "additionalProperties":
				x[k] = plain30(e)
			}
		}
	}

	return v
}

// plainJS removes notation without meaning from a JSON Schema, in place.
func plainJS(v interface{}) interface{} {
	switch x := v.(type) {
	case []interface{}:
		for i := range x {
			x[i] = plainJS(x[i])
		}
	case bool:
		if x {
			return map[string]interface{}{}
		}

		return map[string]interface{}{"not": map[string]interface{}{}}
	case map[string]interface{}:
		if r := x["$ref"]; r != nil && x["deprecated"] != nil {
			if x["deprecated"] == true {
				return map[string]interface{}{"allOf": []interface{}{map[string]interface{}{"deprecated": true}, map[string]interface{}{"$ref": r}}}
			}

			delete(x, "deprecated")
		}

		for _, k := range []string{"minLength", "minItems", "minProperties"} {
			if n, ok := jsv.Rat(x[k]); ok && n.Sign() == 0 {
				delete(x, k)
			}
		}

		// Only the stricter bound has a meaning.
		for _, b := range [][2]string{{"exclusiveMaximum", "maximum"}, {"exclusiveMinimum", "minimum"}} {
			e, ok1 := jsv.Rat(x[b[0]])
			i, ok2 := jsv.Rat(x[b[1]])

			if ok1 && ok2 {
				c := e.Cmp(i)
				if b[1] == "minimum" {
					c = -c
				}

				if c <= 0 {
					delete(x, b[1])
				} else {
					delete(x, b[0])
				}
			}
		}

		if l := asList(x["type"]); len(l) == 2 && l[0] == "null" {
			x["type"] = []interface{}{l[1], l[0]}
		}

		for k, e := range x {
			switch k {
			case "properties":
				for n, s := range asMap(e) {
					asMap(e)[n] = plainJS(s)
				}
			case "additionalProperties":
				if _, ok := e.(bool); !ok {
					x[k] = plainJS(e)
				}
			case "allOf", "anyOf", "oneOf", "not", "items":
				x[k] = plainJS(e)
			}
		}
	}

	return v
}

func parseRaw(b []byte) interface{} {
	v, err := jsv.Parse(b)
	h.Must(err, "parse")

	return v
}

func saved(v interface{}) (interface{}, error) {
	b, err := json.Marshal(v)
	if err != nil {
		return nil, err
	}

	return jsv.Parse(b)
}

func compsRoot(comps map[string]interface{}) map[string]interface{} {
	return map[string]interface{}{"components": map[string]interface{}{"schemas": comps}}
}

// agree compares acceptance of instances.
func agree(what string, insts []json.RawMessage, rootA, a interface{}, da jsv.Dialect, rootB, b interface{}, db jsv.Dialect, st *h.Stats) error {
	accepted := 0

	for _, raw := range insts {
		inst := parseRaw(raw)

		ea := (&jsv.Validator{Root: rootA, Dialect: da}).Validate(a, inst)
		eb := (&jsv.Validator{Root: rootB, Dialect: db}).Validate(b, inst)

		if (ea == nil) != (eb == nil) {
			return fmt.Errorf("%s: instance %s: before %v, after %v\nbefore: %s\nafter:  %s", what, raw, ea, eb, cut(js(a)), cut(js(b)))
		}

		if ea == nil {
			accepted++
		}
	}

	st.NonTrivialIf(accepted > 0 && accepted < len(insts))
	st.ClassIf(accepted > 0, "some accepted")
	st.ClassIf(accepted < len(insts), "some rejected")

	return nil
}

// from30 checks schemas of OpenAPI 3.0.
func (c c13case) from30(st *h.Stats) error {
	spec := &openapi3.Spec{}
	comps := map[string]interface{}{}

	for k, b := range c.Comps {
		s := openapi3.SchemaOrRef{}
		if err := json.Unmarshal(b, &s); err != nil {
			return fmt.Errorf("load component: %w", err)
		}

		spec.ComponentsEns().SchemasEns().WithMapOfSchemaOrRefValuesItem(k, s)
		comps[k] = parseRaw(b)
	}

	s := openapi3.SchemaOrRef{}
	if err := json.Unmarshal(c.Schema, &s); err != nil {
		return fmt.Errorf("load: %w", err)
	}

	orig, root := parseRaw(c.Schema), compsRoot(comps)
	before, _ := json.Marshal([]interface{}{s, spec})

	conv := s.ToJSONSchema(spec)

	after, _ := json.Marshal([]interface{}{s, spec})
	if string(before) != string(after) {
		return fmt.Errorf("conversion changes the schema or the document: %s, %s", before, after)
	}

	jv, err := saved(conv)
	if err != nil {
		return fmt.Errorf("save: %w", err)
	}

	st.ClassIf(len(comps) > 0, "components")
	st.ClassIf(get(jv, "components") != nil, "references kept")

	if err := agree("3.0 to JSON Schema", c.Insts, root, orig, jsv.OAS30, jv, jv, jsv.Draft2020, st); err != nil {
		return err
	}

	// There and back, one schema at a time.
	back := func(name string, text []byte, s openapi3.SchemaOrRef) error {
		j := s.ToJSONSchema(spec)

		if s.SchemaReference != nil { // The root reference is replaced with its target.
			return nil
		}

		b := openapi3.SchemaOrRef{}
		b.FromJSONSchema(j)

		bv, err := saved(b)
		if err != nil {
			return fmt.Errorf("save %s: %w", name, err)
		}

		return diffErr(name+" after conversion there and back", plain30(parseRaw(text)), plain30(bv))
	}

	if err := back("schema", c.Schema, s); err != nil {
		return err
	}

	for k := range comps {
		if err := back("component "+k, c.Comps[k], spec.Components.Schemas.MapOfSchemaOrRefValues[k]); err != nil {
			return err
		}
	}

	return nil
}

// fromJS checks JSON Schemas of the common subset.
func (c c13case) fromJS(st *h.Stats) error {
	spec := &openapi3.Spec{}
	comps, comps30 := map[string]interface{}{}, map[string]interface{}{}

	load := func(text []byte) (openapi3.SchemaOrRef, interface{}, error) {
		j := jsonschema.SchemaOrBool{}
		s := openapi3.SchemaOrRef{}

		if err := json.Unmarshal(text, &j); err != nil {
			return s, nil, h.HarnessError{Msg: "load JSON Schema: " + err.Error()}
		}

		s.FromJSONSchema(j)
		v, err := saved(s)

		if b, e := json.Marshal(j); e == nil && err == nil {
			if d := jsv.Diff(plainJS(parseRaw(text)), plainJS(parseRaw(b))); d != "" {
				err = fmt.Errorf("conversion changes the JSON Schema: %s", d)
			}
		}

		return s, v, err
	}

	for k, b := range c.Comps {
		s, v, err := load(b)
		if err != nil {
			return err
		}

		spec.ComponentsEns().SchemasEns().WithMapOfSchemaOrRefValuesItem(k, s)
		comps[k], comps30[k] = parseRaw(b), v
	}

	s, v, err := load(c.Schema)
	if err != nil {
		return err
	}

	orig := parseRaw(c.Schema)
	st.ClassIf(len(comps) > 0, "components")

	// Null type is written as nullable alone, which is read as null here.
	if err := agree("JSON Schema to 3.0", c.Insts, compsRoot(comps), orig, jsv.Draft2020, compsRoot(nullOnly(comps30).(map[string]interface{})), nullOnly(v), jsv.OAS30, st); err != nil {
		return err
	}

	jv, err := saved(s.ToJSONSchema(spec))
	if err != nil {
		return fmt.Errorf("save: %w", err)
	}

	if err := agree("JSON Schema there and back", c.Insts, compsRoot(comps), orig, jsv.Draft2020, jv, jv, jsv.Draft2020, st); err != nil {
		return err
	}

	if s.SchemaReference != nil {
		return nil
	}

	delete(asMap(jv), "components")

	return diffErr("JSON Schema after conversion there and back", plainJS(orig), plainJS(jv))
}

// nullOnly gives nullable without anything else the meaning of null.
func nullOnly(v interface{}) interface{} {
	switch x := v.(type) {
	case []interface{}:
		l := []interface{}{}
		for _, e := range x {
			l = append(l, nullOnly(e))
		}

		return l
	case map[string]interface{}:
		if len(x) == 1 && x["nullable"] == true {
			return map[string]interface{}{"enum": []interface{}{nil}}
		}

		m := map[string]interface{}{}
		for k, e := range x {
			m[k] = e

			if k != "enum" && k != "default" && k != "example" && k != "x-ext" {
				m[k] = nullOnly(e)
			}
		}

		return m
	}

	return v
}

func init() {
	p := h.Register("C13", "Conversion between JSON Schema and OpenAPI 3.0 schema keeps the meaning",
		"The subset of JSON Schema is that of OpenAPI 3.0: one type with or without null, no keywords that 3.0 does not have, one example.",
		"Null type alone is written as nullable without type, which is read as null; nullable beside other keywords extends the type of the same schema only, without a type it says nothing.",
		"discriminator, xml and externalDocs have no form in JSON Schema.")

	h.Add(p, "from 3.0", "instances of both kinds, accepted and rejected; generated 3.0 schemas with components, converted to JSON Schema and back",
		20000, 1500000, genC13(false), func(c c13case, st *h.Stats) error { return c.from30(st) })
	h.Add(p, "from JSON Schema", "instances of both kinds, accepted and rejected; generated JSON Schemas with definitions, converted to 3.0 and back",
		20000, 1500000, genC13(true), func(c c13case, st *h.Stats) error { return c.fromJS(st) })
}
