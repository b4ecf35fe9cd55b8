package props

import (
	"encoding/json"
	"fmt"
	"regexp"

	"pgregory.net/rapid"
	"verif/pbt/internal/docgen"
	"verif/pbt/internal/h"
	"verif/pbt/internal/jsv"
)

type corruptCase struct {
	Ent  string          `json:"ent"`
	Doc  json.RawMessage `json:"doc"`
	Why  []string        `json:"why"`
	Kind []string        `json:"kind"`
}

func genCorrupt(t *rapid.T, v *version, nulls bool) corruptCase {
	g := &docgen.G{T: t, Dense: chance(t, 40), Empty: chance(t, 10), NoTricky: true}
	c := corruptCase{Ent: "Spec"}

	if !chance(t, 30) {
		c.Ent = pick(t, v.Names)
	}

	ty := docgen.EntTy(c.Ent)

	var d interface{}

	if c.Ent == "Spec" {
		d = v.Gr.Doc(g)
	} else {
		d = v.Gr.FragmentTy(g, ty)
	}

	d = docgen.Clone(d)

	n := 1
	if chance(t, 20) {
		n = drawInt(t, 2, 3)
	}

	for ; n > 0; n-- {
		cs := v.Gr.Corruptions(g, ty, d)
		if len(cs) == 0 {
			break
		}

		// Even choice of the kind first.
		byKind := map[string][]docgen.Corruption{}
		for _, x := range cs {
			byKind[x.Kind] = append(byKind[x.Kind], x)
		}

		x := pick(t, byKind[pick(t, h.SortedKeys(byKind))])
		d = x.Apply(d)
		c.Kind = append(c.Kind, x.Kind)
		c.Why = append(c.Why, fmt.Sprintf("%s at %q", x.Kind, x.Path))
	}

	b, err := json.Marshal(d)
	h.Must(err, "marshal corrupted document")

	c.Doc = b

	return c
}

// dropNulls removes optional members that are null where a typed member is expected; other typed nulls are out of scope.
func dropNulls(gr *docgen.Grammar, ty *docgen.Ty, v interface{}) (res interface{}, other bool) {
	for {
		var path []string

		gr.Walk(ty, v, func(s docgen.Site) {
			if m, ok := s.Value.(map[string]interface{}); ok && s.IsRef {
				for _, x := range m {
					other = other || x == nil
				}
			}

			if s.Ty == nil || s.Ty.Kind == docgen.KAny || s.Value != nil || len(s.Path) == 0 {
				return
			}

			if s.Owner != nil && s.Owner.Field(s.Key) != nil && !s.Req {
				path = s.Path
			} else {
				other = true
			}
		})

		if path == nil {
			return v, other
		}

		v = docgen.Delete(v, path)
	}
}

var compNameRe = regexp.MustCompile(`\A[a-zA-Z0-9._-]+\z`)

// badComponentName tells if a component has a name outside of the specified alphabet; the official schema lets it pass.
func badComponentName(gr *docgen.Grammar, ty *docgen.Ty, v interface{}) bool {
	bad := false

	gr.Walk(ty, v, func(s docgen.Site) {
		if m, ok := s.Value.(map[string]interface{}); ok && s.Ty != nil && s.Ty.Kind == docgen.KMap && s.Ty.MapKeys == "comp" {
			for k := range m {
				bad = bad || !compNameRe.MatchString(k)
			}
		}
	})

	return bad
}

func init() {
	p := h.Register("C03", "Malformed 3.0 documents are rejected, never silently altered",
		"A corrupted document counts only when the official schema of OpenAPI 3.0 finds it invalid.",
		"Out of scope of rejection: values of the right JSON type outside a numeric range or length, null in place of a typed member (counts as absent), the exclusive choice of schema and content in headers; these may be accepted but must then be reproduced.")

	h.Add(p, "reject", "one to three structural corruptions (missing required key, unknown key, wrong JSON type, bad enum or constant, bad path, status, method or component key) of a generated valid document or entity; non-trivial when the official schema finds the result invalid", 120000, 2500000,
		func(t *rapid.T) corruptCase { return genCorrupt(t, v30, false) },
		func(c corruptCase, st *h.Stats) error {
			d, err := jsv.Parse(c.Doc)
			h.Must(err, "parse case")

			if v30.validate(c.Ent, d) == nil && !badComponentName(v30.Gr, docgen.EntTy(c.Ent), d) {
				st.Class("still-valid")

				return checkLossless(v30, docCase{Ent: c.Ent, Doc: c.Doc})
			}

			st.NonTrivial()
			st.Class(c.Kind...)
			st.Class("entity:" + c.Ent)

			e := v30.Ents[c.Ent]()
			if err := json.Unmarshal(c.Doc, e); err == nil {
				out, _ := json.Marshal(e)

				return fmt.Errorf("malformed %s (%v) is accepted and saved as %s", c.Ent, c.Why, cut(string(out)))
			}

			return nil
		})

	h.Add(p, "faithful", "arbitrary replacement of up to four values, keys or members anywhere in a generated document, including null, negative and huge numbers; non-trivial when loading succeeds", 80000, 1500000,
		func(t *rapid.T) docCase {
			c := genDoc(t, v30, 30)

			d, err := jsv.Parse(c.Doc)
			h.Must(err, "parse case")

			g := &docgen.G{T: t}
			for n := drawInt(t, 0, 4); n > 0; n-- {
				d = mutateJSON(t, g, d)
			}

			b, err := json.Marshal(d)
			h.Must(err, "marshal")

			c.Doc = b

			return c
		},
		func(c docCase, st *h.Stats) error {
			e, out, err := loadSave(v30.Ents[c.Ent], c.Doc)
			if e == nil {
				st.Class("rejected")

				if err == nil {
					return fmt.Errorf("no entity and no error")
				}

				return nil
			}

			st.NonTrivial()

			want, err := jsv.Parse(c.Doc)
			h.Must(err, "parse case")

			if err := docgen.DupKeys(out); err != nil {
				return fmt.Errorf("%w in %s", err, cut(string(out)))
			}

			got, err := jsv.Parse(out)
			if err != nil {
				return err
			}

			if v30.validate(c.Ent, want) == nil {
				st.Class("valid")
			} else {
				st.Class("invalid-but-accepted")
			}

			ty := docgen.EntTy(c.Ent)

			want, other := dropNulls(v30.Gr, ty, want)
			if other {
				st.Class("typed-null")

				return nil
			}

			return diffErr("load/save silently changes "+c.Ent, v30.Gr.Canon(ty, want), v30.Gr.Canon(ty, got))
		})
}

// mutateJSON changes one position of free JSON.
func mutateJSON(t *rapid.T, g *docgen.G, d interface{}) interface{} {
	var paths [][]string

	var walk func(v interface{}, p []string)

	walk = func(v interface{}, p []string) {
		paths = append(paths, p)

		switch x := v.(type) {
		case map[string]interface{}:
			for _, k := range h.SortedKeys(x) {
				walk(x[k], append(append([]string{}, p...), k))
			}
		case []interface{}:
			for i := range x {
				walk(x[i], append(append([]string{}, p...), fmt.Sprint(i)))
			}
		}
	}

	walk(d, nil)

	p := pick(t, paths)
	v, _ := docgen.At(d, p)

	if m, ok := v.(map[string]interface{}); ok && chance(t, 40) {
		k := pick(t, []string{"x-a", "zzz", "$ref", "description", "schema", "content", "example", "type", "", "default", "items", "required", "enum", "200", "in"})
		m[k] = g.Any(2)

		return d
	}

	if len(p) == 0 {
		return d
	}

	if chance(t, 25) {
		return docgen.Delete(d, p)
	}

	nv := g.Any(1)
	if chance(t, 40) {
		nv = pick(t, []interface{}{nil, json.Number("-1"), json.Number("0"), json.Number("1e400"), json.Number("1000000000000000000"), json.Number("100000000000000000000"), json.Number("1.5"), json.Number("-0"), "", true,
			map[string]interface{}{}, []interface{}{}, map[string]interface{}{"$ref": "#/components/schemas/A"}, []interface{}{nil}, map[string]interface{}{"a": nil}})
	}

	return docgen.Set(d, p, nv)
}
