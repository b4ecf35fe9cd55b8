package props

import (
	"fmt"
	"strings"

	"github.com/swaggest/openapi-go"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
	"verif/pbt/internal/tgen"
	"verif/pbt/internal/zoo"
)

var _ = rapid.ID[int]

func init() {
	p := h.Register("C10", "Request bodies are documented under the right media type and schema",
		"Schemas of single structures are those of the JSON schema library with the options that belong to the body; which fields, media types, descriptions and references are documented is modelled independently.",
		"Structures of one operation do not share media types, a reference is only set by the last one.")

	run := func(c opCase, st *h.Stats) error {
		return c.registered(st, func(m *opModel, e expectedOp, doc, op map[string]interface{}, _ openapi.OperationContext) error {
			want, _ := e.op["requestBody"].(map[string]interface{})
			got := asMap(op["requestBody"])

			st.NonTrivialIf(want != nil)
			st.ClassIf(want == nil, "no body")
			st.ClassIf(want["$ref"] != nil, "reference")
			st.ClassIf(want["description"] != nil, "description")

			for _, k := range mediaOf(want) {
				if strings.HasPrefix(k, "text/x-r") {
					k = "contentType tag"
				}

				st.Class("media " + k)
			}

			st.ClassIf(len(mediaOf(want)) > 1, "several media types")

			if (want == nil) != (op["requestBody"] == nil) {
				return fmt.Errorf("request body: want %s, got %s", cut(js(want)), cut(js(op["requestBody"])))
			}

			if want == nil {
				return nil
			}

			return partDiff("request body", m, want, doc, got)
		})
	}

	h.Add(p, "structure", "operation has a body; methods of all kinds, structures with JSON, form and raw fields, lists, maps, virtual structures, several units with content types, descriptions, references",
		30000, 1200000, genOpCase(func(g *opGen, o *opDesc) {
			t := g.t
			o.Method = genMethodSpelling(t, pick(t, []string{"post", "post", "put", "patch", "options", "get", "head", "delete", "trace"}))

			for i := pick(t, []int{1, 1, 2, 3}); i > 0; i-- {
				u := unitDesc{}

				switch n := drawInt(t, 0, 11); {
				case n < 3:
					u.T = tgen.T{K: "struct", F: g.fields("json", 3, 1, 4)}
				case n < 5:
					u.T = tgen.T{K: "struct"}
					tag := pick(t, []string{"formData", "form"})

					for j := drawInt(t, 1, 4); j > 0; j-- {
						u.T.F = append(u.T.F, g.formField(tag))
					}

					if tag == "formData" && chance(t, 30) {
						g.mapped(&u, "formData", 50, "formData")
					}
				case n < 6:
					u.T = tgen.T{K: "struct"}

					for j := drawInt(t, 1, 2); j > 0; j-- {
						i := g.next()
						u.T.F = append(u.T.F, tgen.F{N: fmt.Sprintf("R%d", i), T: tgen.Basic(pick(t, []string{"string", "bytes"})), Tag: fmt.Sprintf(`contentType:"text/x-r%d"`, i)})
					}

					if chance(t, 40) {
						u.T.F = append(u.T.F, g.bodyField("json", 1))
					}
				default:
					u = g.reqUnit()
				}

				if u.Form == "" {
					g.form(&u)
					g.unitExtras(&u, "requestBodies")
				}

				o.Req = append(o.Req, u)
			}

			o.tidy()
			o.Path = g.path(o.Req)
		}), run)

	h.Add(p, "enforced", "operation has a body; types that enforce bodies or mix JSON and form data, with every method and in every form",
		12000, 300000, genOpCase(func(g *opGen, o *opDesc) {
			t := g.t
			o.Method = pick(t, httpMethods)
			u := unitDesc{T: tgen.Zoo(pick(t, append([]string{"ForceAll", "ForcePtr", "ForceJSON", "ForceBoth", "MixedForm", "ForceList", "Upload", "Raw", "ClosedBody", "EmbList", "EmbDict", "Items", "NoTags", "Empty"}, zoo.Requests...)))}
			g.form(&u)

			if chance(t, 25) {
				u.CT = pick(t, []string{mJSON, mForm, mMulti, "text/plain"})
			}

			g.unitExtras(&u, "requestBodies")
			o.Req = []unitDesc{u}
			o.tidy()
			o.Path = g.path(o.Req)
		}), run)

	h.Add(p, "without tags", "some field has no tag; structures without JSON tags under the ProcessWithoutTags option against the same structures with tags that repeat the field names",
		6000, 200000, genTagless(false), runTagless)
}
