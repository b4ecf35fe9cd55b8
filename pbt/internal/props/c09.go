package props

import (
	"fmt"
	"strings"

	"github.com/swaggest/openapi-go"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
	"verif/pbt/internal/zoo"
)

// opCase is a single operation with a flavour of reflector.
type opCase struct {
	Is31 bool   `json:"is31"`
	Fmts bool   `json:"fmts"`
	Op   opDesc `json:"op"`
}

func genOpCase(tune func(g *opGen, o *opDesc)) func(t *rapid.T) opCase {
	return func(t *rapid.T) opCase {
		g := newOpGen(t)
		c := opCase{Is31: rapid.Bool().Draw(t, "is31"), Fmts: chance(t, 40)}

		if tune == nil {
			c.Op = g.operation()
		} else {
			tune(g, &c.Op)
		}

		return c
	}
}

// registered registers the operation and compares a part of it with the model.
func (c opCase) registered(st *h.Stats, part func(m *opModel, e expectedOp, doc, op map[string]interface{}, oc openapi.OperationContext) error) error {
	r := newReflector(c.Is31, c.Fmts)
	m := newModel(c.Is31, c.Fmts)
	e, modelErr := m.operation(c.Op)

	oc, err := r.NewOperationContext(c.Op.Method, c.Op.Path)
	if err != nil {
		return fmt.Errorf("operation context is refused: %w", err)
	}

	c.Op.fillOC(oc)
	err = r.AddOperation(oc)

	if modelErr != nil {
		st.Class("rejected")

		if err == nil {
			return fmt.Errorf("operation is accepted, has to be rejected: %w", modelErr)
		}

		return nil
	}

	if err != nil {
		return fmt.Errorf("operation is rejected: %w", err)
	}

	doc := docOf(r)

	op := findOp(doc, false, e.path, e.method)
	if op == nil {
		return fmt.Errorf("operation %s %s is missing in %s", e.method, e.path, cut(js(doc)))
	}

	normOp(op)
	st.ClassIf(c.Is31, "3.1")
	st.ClassIf(!c.Is31, "3.0")
	st.ClassIf(c.Fmts, "with Go formats")

	return part(m, e, doc, op, oc)
}

func partDiff(what string, m *opModel, want interface{}, doc, got interface{}) error {
	if want == nil {
		want = map[string]interface{}{}
	}

	if got == nil {
		got = map[string]interface{}{}
	}

	if d := simDiff(m.root(), want, doc, got); d != "" {
		return fmt.Errorf("%s (first expected, second documented): %s\nexpected:   %s\ndocumented: %s", what, d, cut(js(want)), cut(js(got)))
	}

	return nil
}

func init() {
	p := h.Register("C09", "Request parameters are documented exactly as tagged",
		"Schemas of single values are those of the JSON schema library; how they are placed, named and decorated is modelled independently.",
		"Parameters that are lists or maps of named JSON types are not generated (known finding of C14).")

	run := func(c opCase, st *h.Stats) error {
		return c.registered(st, func(m *opModel, e expectedOp, doc, op map[string]interface{}, oc openapi.OperationContext) error {
			want := e.op["parameters"]
			if want == nil {
				want = []interface{}{}
			}

			got := op["parameters"]
			if got == nil {
				got = []interface{}{}
			}

			classParams(st, asList(want))

			if err := partDiff("parameters", m, want, doc, got); err != nil {
				return err
			}

			for _, in := range []string{"query", "path", "cookie", "header", "formData", "body"} {
				if got := oc.UnknownParamsAreForbidden(openapi.In(in)); got != e.forbidden[in] {
					return fmt.Errorf("unknown parameters forbidden in %s: want %v, got %v", in, e.forbidden[in], got)
				}

				key := "x-forbid-unknown-" + in
				if (op[key] == true) != e.forbidden[in] || (op[key] != nil && op[key] != true) {
					return fmt.Errorf("%s: want %v, got %v", key, e.forbidden[in], op[key])
				}

				st.ClassIf(e.forbidden[in], "closed "+in)
			}

			return nil
		})
	}

	h.Add(p, "structure", "operation has at least one parameter or forbids unknown ones; structures with fields in several locations, embedded ones, mappings, tags of all kinds",
		30000, 1500000, genOpCase(func(g *opGen, o *opDesc) {
			t := g.t
			o.Method = genMethodSpelling(t, pick(t, httpMethods))

			for i := pick(t, []int{1, 1, 1, 2}); i > 0; i-- {
				u := unitDesc{}

				switch n := drawInt(t, 0, 9); {
				case n < 7:
					g.reqStruct(&u)
				case n < 9:
					u = g.reqUnit()
				default:
					g.virtUnit(&u, "query", "path", "cookie", "header")
				}

				if u.Form == "" {
					g.form(&u)
				}

				o.Req = append(o.Req, u)
			}

			o.tidy()
			o.Path = g.path(o.Req)

			if chance(t, 6) {
				// Placeholders that do not match.
				o.Path = pick(t, []string{o.Path + "/{extra}", strings.Replace(o.Path, "/{", "/{x", 1)})
			}
		}), run)

	h.Add(p, "named types", "operation has at least one parameter; structures declared in packages",
		12000, 500000, genOpCase(func(g *opGen, o *opDesc) {
			t := g.t
			o.Method = pick(t, httpMethods)

			for i := pick(t, []int{1, 1, 2}); i > 0; i-- {
				u := unitDesc{}
				u.T.K = "zoo"
				u.T.Z = pick(t, append(zoo.Requests[:len(zoo.Requests):len(zoo.Requests)], handReq...))
				g.form(&u)

				o.Req = append(o.Req, u)
			}

			o.tidy()
			o.Path = g.path(o.Req)
		}), run)
}

func classParams(st *h.Stats, l []interface{}) {
	st.NonTrivialIf(len(l) > 0)

	for _, x := range l {
		p := asMap(x)
		st.Class("in " + fmt.Sprint(p["in"]))
		st.ClassIf(p["style"] != nil, fmt.Sprintf("style %v", p["style"]))
		st.ClassIf(p["content"] != nil, "JSON content")
		st.ClassIf(p["required"] == true, "required")
		st.ClassIf(p["deprecated"] == true, "deprecated")
		st.ClassIf(p["description"] != nil, "description")
	}
}
