package props

import (
	"encoding/json"
	"fmt"

	"pgregory.net/rapid"
	"verif/pbt/internal/docgen"
	"verif/pbt/internal/h"
	"verif/pbt/internal/jsv"
)

// genCorrupt31 damages known members only.
func genCorrupt31(t *rapid.T) corruptCase {
	v := v31
	g := &docgen.G{T: t, Dense: chance(t, 40), Empty: chance(t, 10), NoTricky: true}
	c := corruptCase{Ent: "Spec"}

	if !chance(t, 30) {
		c.Ent = pick(t, v.Names)
	}

	ty := docgen.EntTy(c.Ent)

	var d interface{}

	if c.Ent == "Spec" {
		d = v.Gr.Doc(g)
	} else {
		d = v.Gr.FragmentTy(g, ty)
	}

	d = docgen.Clone(d)

	n := 1
	if chance(t, 20) {
		n = drawInt(t, 2, 3)
	}

	for ; n > 0; n-- {
		byKind := map[string][]docgen.Corruption{}

		for _, x := range v.Gr.Corruptions(g, ty, d) {
			if x.Kind == "missing" || x.Kind == "enum" || x.Kind == "type" && x.Path[len(x.Path)-1] != "$ref" {
				byKind[x.Kind] = append(byKind[x.Kind], x)
			}
		}

		if len(byKind) == 0 {
			break
		}

		x := pick(t, byKind[pick(t, h.SortedKeys(byKind))])
		d = x.Apply(d)
		c.Kind = append(c.Kind, x.Kind)
		c.Why = append(c.Why, fmt.Sprintf("%s at %q", x.Kind, x.Path))
	}

	b, err := json.Marshal(d)
	h.Must(err, "marshal corrupted document")

	c.Doc = b

	return c
}

func init() {
	p := h.Register("C24", "Malformed 3.1 documents are rejected, known members are never altered",
		"A corrupted document counts only when the official schema of OpenAPI 3.1 finds it invalid.",
		"Members that OpenAPI 3.1 does not list (and keys that match no pattern of their place) may be dropped on load, and nothing else may; null in place of a typed member counts as absent.")

	h.Add(p, "reject", "one to three structural corruptions (missing required key, wrong JSON type, bad enum value) of a generated valid document or entity; non-trivial when the official schema finds the result invalid", 100000, 2500000,
		genCorrupt31,
		func(c corruptCase, st *h.Stats) error {
			d, err := jsv.Parse(c.Doc)
			h.Must(err, "parse case")

			if len(c.Kind) == 0 || v31.validate(c.Ent, d) == nil {
				st.Class("still-valid")

				return checkLossless(v31, docCase{Ent: c.Ent, Doc: c.Doc})
			}

			st.NonTrivial()
			st.Class(c.Kind...)
			st.Class("entity:" + c.Ent)

			e := v31.Ents[c.Ent]()
			if err := json.Unmarshal(c.Doc, e); err == nil {
				out, _ := json.Marshal(e)

				return fmt.Errorf("malformed %s (%v) is accepted and saved as %s", c.Ent, c.Why, cut(string(out)))
			}

			return nil
		})

	h.Add(p, "faithful", "arbitrary replacement of up to four values, keys or members anywhere in a generated document; non-trivial when loading succeeds", 80000, 1500000,
		func(t *rapid.T) docCase {
			c := genDoc(t, v31, 30)

			d, err := jsv.Parse(c.Doc)
			h.Must(err, "parse case")

			g := &docgen.G{T: t}
			for n := drawInt(t, 0, 4); n > 0; n-- {
				d = mutateJSON(t, g, d)
			}

			b, err := json.Marshal(d)
			h.Must(err, "marshal")

			c.Doc = b

			return c
		},
		func(c docCase, st *h.Stats) error {
			e, out, err := loadSave(v31.Ents[c.Ent], c.Doc)
			if e == nil {
				st.Class("rejected")

				if err == nil {
					return fmt.Errorf("no entity and no error")
				}

				return nil
			}

			st.NonTrivial()

			want, err := jsv.Parse(c.Doc)
			h.Must(err, "parse case")

			if err := docgen.DupKeys(out); err != nil {
				return fmt.Errorf("%w in %s", err, cut(string(out)))
			}

			got, err := jsv.Parse(out)
			if err != nil {
				return err
			}

			if v31.validate(c.Ent, want) == nil {
				st.Class("valid")
			} else {
				st.Class("invalid-but-accepted")
			}

			ty := docgen.EntTy(c.Ent)

			nullRef := false

			v31.Gr.Walk(ty, want, func(s docgen.Site) {
				if m, ok := s.Value.(map[string]interface{}); ok && s.Ty != nil && s.Ty.Kind == docgen.KOrRef {
					r, has := m["$ref"]
					nullRef = nullRef || has && r == nil
				}
			})

			want, other := dropNulls(v31.Gr, ty, want)
			if other || nullRef {
				st.Class("typed-null")

				return nil
			}

			return diffErr("load/save silently changes "+c.Ent, v31.Gr.Canon(ty, v31.Gr.Strip(ty, want)), v31.Gr.Canon(ty, got))
		})
}
