package props

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"pgregory.net/rapid"
	"verif/pbt/internal/h"
	"verif/pbt/internal/jsv"
	"verif/pbt/internal/tgen"
	"verif/pbt/internal/zoo"
)

// c12bad is a text that has to be rejected.
type c12bad struct {
	What string          `json:"what"`
	Text json.RawMessage `json:"text"`
}

// c12case is a type with texts of its values.
type c12case struct {
	T    tgen.T            `json:"t"`
	Form string            `json:"form"`
	Fmts bool              `json:"fmts,omitempty"`
	Good []json.RawMessage `json:"good"`
	Bad  []c12bad          `json:"bad,omitempty"`
}

// elemTags declares constraints of elements.
func elemTags(g *opGen, e tgen.T, prefix string) string {
	var k string

	switch {
	case e.K == "string" || isNum(e.K):
		k = e.K
	default:
		return ""
	}

	res := ""
	tag := reflect.StructTag(strings.TrimSpace(g.constraints(k)))

	for _, c := range constraintTags {
		if v, ok := tag.Lookup(c); ok {
			res += fmt.Sprintf(" %s%s:%q", prefix, c, v)
		}
	}

	return res
}

func isNum(k string) bool {
	return strings.HasPrefix(k, "int") || strings.HasPrefix(k, "uint") || strings.HasPrefix(k, "float")
}

// valueFields makes fields of types whose values can be generated.
func (g *opGen) valueFields(depth, min, max int) []tgen.F {
	var res []tgen.F

	for _, f := range g.fields("json", depth, min, max) {
		if g.w(50) && (f.T.K == "slice" || f.T.K == "map") && !strings.Contains(f.Tag, "uniqueItems") {
			p := map[string]string{"slice": "items.", "map": "additionalProperties."}[f.T.K]
			f.Tag += elemTags(g, *f.T.E, p)
		}

		res = append(res, f)
	}

	if g.w(15) {
		res = append(res, tgen.F{N: "_", T: tgen.Basic("empty"), Tag: `additionalProperties:"false"`})
	}

	if g.w(15) {
		res = append(res, tgen.F{T: tgen.Zoo(pick(g.t, []string{"Base", "WithEmb", "DeepEmb"})), Emb: true})
	}

	return res
}

func genC12(t *rapid.T) (c c12case) {
	g := newOpGen(t)

	switch n := drawInt(t, 0, 19); {
	case n < 10:
		c.T = tgen.T{K: "struct", F: g.valueFields(3, 1, 5)}
	case n < 13:
		c.T = g.zooType("root", zoo.Generated)
	case n < 15:
		c.T = g.zooType("root", zoo.Special)
	case n < 18:
		e, _ := g.bodyType("elem", 2)
		c.T = tgen.Of(pick(t, []string{"slice", "map"}), e)
	default:
		c.T, _ = g.bodyType("root", 2)
	}

	c.Form = pick(t, []string{"val", "ptr"})
	c.Fmts = rapid.Bool().Draw(t, "formats")

	if c.T.K == "zoo" && (isNamedList(c.T.Z) || isNamedEnum(c.T.Z)) || c.T.K == "ptr" {
		c.Form = "val"
	}

	if !c.values(t) {
		c = c12case{T: tgen.Zoo("Doc"), Form: "val"}
		c.values(t)
	}

	return c
}

// values adds texts, it is false if values of the type can not be made.
func (c *c12case) values(t *rapid.T) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(errDeep); !is {
				panic(r)
			}

			ok = false
		}
	}()

	ty := c.T.Type()
	vg := valGen{t: t}

	for i := drawInt(t, 1, 3); i > 0; i-- {
		v := vg.value(ty, "", 0, false, false)

		b, err := json.Marshal(v.Interface())
		if err != nil {
			panic(fmt.Sprintf("marshal %s: %v", ty, err))
		}

		c.Good = append(c.Good, b)
		c.Bad = append(c.Bad, corruptions(t, ty, b, 4)...)
	}

	return true
}

func runC12(c c12case, st *h.Stats) error {
	op := opDesc{Method: "post", Path: "/x", Req: []unitDesc{{T: c.T, Form: c.Form}}, Resp: []unitDesc{{T: c.T, Form: c.Form, Status: 200}}}

	for _, is31 := range []bool{false, true} {
		r := newReflector(is31, c.Fmts)
		if err := op.register(r); err != nil {
			return fmt.Errorf("type %s is not accepted: %w", c.T, err)
		}

		doc := docOf(r)
		reg := findOp(doc, false, "/x", "post")
		v := jsv.Validator{Root: doc, Dialect: jsv.OAS30}
		ver := "3.0"

		if is31 {
			v.Dialect = jsv.Draft2020
			ver = "3.1"
		}

		for _, place := range []string{"request", "response"} {
			var content interface{}
			if place == "request" {
				content = get(reg, "requestBody", "content")
			} else {
				content = get(reg, "responses", "200", "content")
			}

			schema, ok := get(content, mJSON).(map[string]interface{})
			if !ok {
				st.Class("no JSON " + place)

				continue
			}

			st.NonTrivial()
			st.Class(place + " in " + ver)

			for _, text := range c.Good {
				x, err := jsv.Parse(text)
				h.Must(err, "parse value")

				if err := v.Validate(schema["schema"], x); err != nil {
					return fmt.Errorf("%s schema of %s in %s does not accept value %s: %w\nschema: %s\ncomponents: %s",
						place, c.T, ver, cut(string(text)), err, cut(js(schema["schema"])), cut(js(get(doc, "components", "schemas"))))
				}

				st.Class("accepted value")
			}

			for _, bad := range c.Bad {
				x, err := jsv.Parse(bad.Text)
				h.Must(err, "parse value")

				if v.Validate(schema["schema"], x) == nil {
					return fmt.Errorf("%s schema of %s in %s accepts corrupt value %s (%s)\nschema: %s\ncomponents: %s",
						place, c.T, ver, cut(string(bad.Text)), bad.What, cut(js(schema["schema"])), cut(js(get(doc, "components", "schemas"))))
				}

				st.Class("rejected value")

				if p := strings.Split(bad.What, ": "); len(p) > 1 {
					w := p[1]
					if strings.HasPrefix(w, "without") {
						w = "required"
					}

					st.Class("rejected " + w)
				}
			}
		}
	}

	return nil
}

func init() {
	p := h.Register("C12", "Values a Go type can serialise are accepted by its documented schema",
		"Values are generated by reflection within constraint tags, encoding/json makes the texts, an independent validator decides with the schema taken from the saved document.",
		"Nil values of types with shared definitions, `,string` option and values of format keywords are outside.")

	h.Add(p, "values", "a JSON schema is published; structures with constraint tags of fields and elements, named, generic, recursive, embedded types, lists, maps; up to 3 values and 4 corruptions of each",
		40000, 2000000, genC12, runC12)
}
