package props

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strings"

	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
	"verif/pbt/internal/jsv"
	"verif/pbt/internal/meta"
	"verif/pbt/internal/tgen"
	"verif/pbt/internal/zoo"
)

// checkDocument validates the document of a reflector and loads it back.
func checkDocument(r openapi.Reflector, is31 bool) error {
	b, err := json.Marshal(r.SpecSchema())
	if err != nil {
		return fmt.Errorf("document can not be saved: %w", err)
	}

	v, err := jsv.Parse(b)
	if err != nil {
		return fmt.Errorf("document is not JSON: %w", err)
	}

	validate := meta.Validate30
	if is31 {
		validate = meta.Validate31
	}

	if err := validate("", v); err != nil {
		return fmt.Errorf("document is not valid OpenAPI: %w\n%s", err, cut(string(b)))
	}

	var again interface{} = &openapi3.Spec{}
	if is31 {
		again = &openapi31.Spec{}
	}

	if err := json.Unmarshal(b, again); err != nil {
		return fmt.Errorf("document does not load back: %w\n%s", err, cut(string(b)))
	}

	b2, err := json.Marshal(again)
	if err != nil {
		return fmt.Errorf("loaded document can not be saved: %w", err)
	}

	v2, err := jsv.Parse(b2)
	if err != nil {
		return fmt.Errorf("document is not JSON: %w", err)
	}

	return diffErr("document loaded back", v, v2)
}

func runC21(c opsCase, st *h.Stats) error {
	r := c.reflector(c.Is31)
	accepted := 0

	for i, o := range c.Ops {
		if err := o.register(r); err == nil {
			accepted++
		} else {
			st.Class("rejected")

			if err.Error() == "" {
				return fmt.Errorf("operation %d: empty error", i)
			}
		}

		for _, s := range o.Sec {
			switch s.Name {
			case "basic":
				r.SpecSchema().SetHTTPBasicSecurity(s.Name, o.Summary)
			case "key":
				r.SpecSchema().SetAPIKeySecurity(s.Name, "k", openapi.InQuery, o.Desc)
			default:
				r.SpecSchema().SetHTTPBearerTokenSecurity(s.Name, o.ID, "")
			}
		}
	}

	st.NonTrivialIf(accepted > 0)
	st.ClassIf(c.Is31, "3.1")

	if err := checkDocument(r, c.Is31); err != nil {
		return err
	}

	_, err := checkRefs(docOf(r))

	return err
}

var contentOnly = regexp.MustCompile(` ?\b(style|explode|allowReserved|allowEmptyValue):"[^"]*"`)

// plainContent removes attributes that OpenAPI does not allow for parameters with JSON content.
func plainContent(u unitDesc, f *tgen.F) {
	moved := false
	for _, m := range u.Map {
		_, ok := m[f.N]
		moved = moved || ok
	}

	if k := f.T.K; moved || k == "zoo" || k == "struct" || k == "ptr" || strings.Contains(f.Tag, `collectionFormat:"json"`) {
		f.Tag = contentOnly.ReplaceAllString(f.Tag, "")
	}
}

var oddTypes = []string{"Bad", "Holder", "Shape", "AnyShape", "Cond", "Negative", "Broken", "FormTree", "QueryTree", "Link", "MixedForm", "ForceList", "Upload", "RawOut", "Odd", "Chan"}

// anyType makes a type without regard to what is supported.
func (g *opGen) anyType(depth int) tgen.T {
	t := g.t

	switch n := drawInt(t, 0, 12); {
	case n < 3:
		return tgen.Basic(pick(t, []string{"chan", "func", "complex", "any", "raw", "file", "filehdr", "files", "filehdrs", "empty", "bytes", "time", "date", "string", "uint8", "float32"}))
	case n < 5:
		return tgen.Zoo(pick(t, oddTypes))
	case n < 7:
		return tgen.Zoo(pick(t, zoo.Special))
	case n < 8:
		return tgen.Zoo(pick(t, zoo.Generated))
	case n < 9 && depth > 0:
		// Pointers to nil pointers break the walkers of the reflection library.
		if e := g.anyType(depth - 1); e.K != "ptr" && e.K != "filehdr" {
			return tgen.Of("ptr", e)
		}
	case n < 11 && depth > 0:
		return tgen.Of(pick(t, []string{"slice", "map"}), g.anyType(depth-1))
	case n < 12 && depth > 0:
		f := []tgen.F{}
		for i := drawInt(t, 0, 3); i > 0; i-- {
			if x := g.anyField(depth - 1); !x.Emb || len(f) == 0 {
				f = append(f, x)
			}
		}

		return tgen.T{K: "struct", F: f}
	}

	return tgen.Basic("int")
}

// anyField makes a field with arbitrary tags.
func (g *opGen) anyField(depth int) tgen.F {
	t := g.t
	tag := ""

	for i := pick(t, []int{0, 1, 1, 1, 2, 3}); i > 0; i-- {
		k := pick(t, []string{"json", "json", "query", "path", "cookie", "header", "formData", "form", "contentType"})
		v := pick(t, []string{"", "-", "a,omitempty", "b c", ",", ",omitempty", "é", "x.y", "n"})

		if chance(t, 60) {
			v = fmt.Sprintf("n%d", g.next())
		}

		tag += fmt.Sprintf("%s:%q ", k, v)
	}

	for i := drawInt(t, 0, 2); i > 0; i-- {
		k := pick(t, []string{
			"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf", "minLength", "maxLength", "pattern", "minItems", "maxItems",
			"uniqueItems", "minProperties", "maxProperties", "enum", "default", "example", "examples", "format", "title", "description", "required",
			"deprecated", "nullable", "const", "readOnly", "writeOnly", "collectionFormat",
			"additionalProperties", "refer", "type", "inlineRefs",
		})
		v := pick(t, []string{"", "1", "3", "true", "false", "a,b", `["a"]`, `{"a":1}`, "csv", "json", "multi", "pipes", "ssv", "text", "null", "1e400", "9999999999999999999"})

		if chance(t, 10) && (strings.HasPrefix(k, "ex") || strings.HasSuffix(k, "imum")) {
			v = pick(t, []string{"0", "-1", "2.5"})
		}
		tag += fmt.Sprintf("%s:%q ", k, v)
	}

	f := tgen.F{N: fmt.Sprintf("X%d", g.next()), T: g.anyType(depth), Tag: tag}

	// Schema reflection library does not handle enum values for interfaces.
	if k := f.T.K; k != "string" && k != "int" && k != "float32" {
		f.Tag = strings.ReplaceAll(f.Tag, "enum:", "noenum:")
	}

	if chance(t, 5) {
		f.N = "_"
		f.T = tgen.Basic("empty")
	}

	// Parameters with JSON content can not have other attributes of serialization.
	if k := f.T.K; k != "string" && k != "int" && k != "float32" && k != "slice" {
		f.Tag = strings.ReplaceAll(f.Tag, "collectionFormat:", "noformat:")
	}

	if chance(t, 8) {
		f.T, f.Emb = tgen.Zoo(pick(t, []string{"Params", "a.Params0", "b.Params1", "a.Params2"})), true
	}

	return f
}

func init() {
	p := h.Register("C21", "Documents produced by reflection are valid OpenAPI and load back",
		"Valid means valid under the official JSON Schema of the version.",
		"Values of style tags are those that OpenAPI defines for the location, parameters with JSON content do not have style, explode and allowReserved tags (OpenAPI excludes them, C09 has them documented as tagged); constraint tags with impossible values are expected to be reported or ignored, the document of accepted operations has to be valid.")

	h.Add(p, "operations", "at least one operation is accepted; sequences of operations with metadata and security",
		6000, 300000, func(t *rapid.T) opsCase {
			c := genOps(1, 5, false)(t)

			for _, o := range c.Ops {
				for _, u := range o.Req {
					for i := range u.T.F {
						plainContent(u, &u.T.F[i])
					}
				}
			}

			return c
		}, runC21)

	h.Add(p, "arbitrary types", "at least one operation is accepted; operations over arbitrary Go types and tags, supported or not: reflection ends with a result or an error and the document is valid",
		12000, 800000, func(t *rapid.T) opsCase {
			g := newOpGen(t)
			c := opsCase{Is31: rapid.Bool().Draw(t, "is31"), Fmts: chance(t, 30)}

			for i := drawInt(t, 1, 3); i > 0; i-- {
				o := opDesc{Method: pick(t, httpMethods), Path: fmt.Sprintf("/p%d", len(c.Ops))}

				mk := func() unitDesc {
					u := unitDesc{}

					if chance(t, 75) {
						u.T = tgen.T{K: "struct"}
						for j := drawInt(t, 0, 4); j > 0; j-- {
							f := g.anyField(2)

							dup := false
							for _, x := range u.T.F {
								dup = dup || x.N == f.N && x.N != "_" || x.Emb && f.Emb // Embedded fields may share a name.
							}

							if !dup {
								u.T.F = append(u.T.F, f)
							}
						}
					} else {
						for u.T = g.anyType(2); u.T.K == "ptr"; {
							u.T = *u.T.E
						}

						if u.T.K == "filehdr" {
							u.T = tgen.Basic("file")
						}
					}

					g.form(&u)

					return u
				}

				for j := drawInt(t, 0, 2); j > 0; j-- {
					u := mk()
					if chance(t, 15) {
						u.CT = pick(t, []string{mJSON, mForm, mMulti, "text/plain"})
					}

					o.Req = append(o.Req, u)
				}

				for j := drawInt(t, 0, 2); j > 0; j-- {
					u := mk()
					u.Status = pick(t, statuses)
					u.Default = chance(t, 10)

					if chance(t, 15) {
						u.CT = pick(t, []string{mJSON, "text/plain"})
					}

					o.Resp = append(o.Resp, u)
				}

				o.Path = pathOf(o.Path, o.Req)
				g.metadata(&o)
				c.Ops = append(c.Ops, o)
			}

			c.Names = genNames(t)

			return c
		}, runC21)
}
