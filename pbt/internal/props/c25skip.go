package props

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
	"verif/pbt/internal/jsv"
	"verif/pbt/internal/tgen"
)

// skipCase has operations with fields that an interceptor skips.
type skipCase struct {
	opsCase
	Skip []string `json:"skip"` // Go names
}

// eachStruct visits structures, outer ones first.
func eachStruct(t *tgen.T, f func(t *tgen.T)) {
	if t.K == "struct" {
		f(t)
	}

	if t.E != nil {
		eachStruct(t.E, f)
	}

	for i := range t.F {
		eachStruct(&t.F[i].T, f)
	}
}

var locTags = []string{"query", "path", "cookie", "header", "form", "formData", "json"}

// tagLocations are the locations of a field.
func tagLocations(f tgen.F) (res []string) {
	for _, k := range locTags {
		if v, ok := reflect.StructTag(f.Tag).Lookup(k); ok && v != "-" {
			res = append(res, k)
		}
	}

	return res
}

func genSkip(t *rapid.T) skipCase {
	c := skipCase{opsCase: genOps(1, 3, true)(t)}
	seen := map[string]int{}

	c.eachUnit(func(u *unitDesc) {
		eachStruct(&u.T, func(s *tgen.T) {
			for _, f := range s.F {
				seen[f.N]++
			}
		})
	})

	c.eachUnit(func(u *unitDesc) {
		mapped := map[string]bool{}

		for _, m := range u.Map {
			for k := range m {
				mapped[k] = true
			}
		}

		eachStruct(&u.T, func(s *tgen.T) {
			left := map[string]int{}

			for _, f := range s.F {
				if !mapped[f.N] && !f.Emb {
					for _, l := range tagLocations(f) {
						left[l]++
					}
				}
			}

			for _, f := range s.F {
				l := tagLocations(f)

				// Required properties are listed before they are skipped.
				ok := len(l) > 0 && f.N != "_" && !f.Emb && !mapped[f.N] && seen[f.N] == 1 && !strings.Contains(f.Tag, "required:")

				for _, k := range l {
					ok = ok && k != "path" && left[k] > 1
				}

				if ok && chance(t, 40) {
					c.Skip = append(c.Skip, f.N)

					for _, k := range l {
						left[k]--
					}
				}
			}
		})
	})

	return c
}

// without drops the skipped fields.
func (c skipCase) without() (r opsCase) {
	b, err := json.Marshal(c.opsCase)
	h.Must(err, "marshal")
	h.Must(json.Unmarshal(b, &r), "unmarshal")

	skip := map[string]bool{}
	for _, n := range c.Skip {
		skip[n] = true
	}

	r.eachUnit(func(u *unitDesc) {
		eachStruct(&u.T, func(s *tgen.T) {
			var l []tgen.F

			for _, f := range s.F {
				if !skip[f.N] {
					l = append(l, f)
				}
			}

			s.F = l
		})
	})

	return r
}

func runSkip(c skipCase, st *h.Stats) error {
	skip := map[string]bool{}
	for _, n := range c.Skip {
		skip[n] = true
	}

	skipped := 0

	build := func(oc opsCase) (map[string]interface{}, []string, string) {
		r := oc.reflector(oc.Is31)
		jr := r.JSONSchemaReflector()

		jr.DefaultOptions = append(jr.DefaultOptions, jsonschema.InterceptProp(func(p jsonschema.InterceptPropParams) error {
			if skip[p.Field.Name] && !p.Processed {
				skipped++

				return jsonschema.ErrSkipProperty
			}

			return nil
		}))

		var errs []string

		for _, o := range oc.Ops {
			e := ""
			if err := o.register(r); err != nil {
				e = "error " + err.Error()
			}

			errs = append(errs, e)
		}

		return docOf(r), errs, walkedText(r, oc)
	}

	a, ea, wa := build(c.opsCase)
	b, eb, wb := build(c.without())

	if !reflect.DeepEqual(ea, eb) {
		return fmt.Errorf("errors %q with skipped fields, %q without these fields", ea, eb)
	}

	// Components of types that only skipped fields use are not there either.
	if d := jsv.Diff(b, a); d != "" {
		return fmt.Errorf("the document with skipped fields %q differs from that without these fields: %s", c.Skip, d)
	}

	if wa != wb {
		return fmt.Errorf("walked schemas with skipped fields %q differ from those without these fields: %s and %s", c.Skip, wa, wb)
	}

	st.NonTrivialIf(skipped > 0)

	return nil
}
