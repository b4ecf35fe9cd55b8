package props

import (
	"fmt"

	"github.com/swaggest/openapi-go"
	"verif/pbt/internal/h"
	"verif/pbt/internal/tgen"
	"verif/pbt/internal/zoo"
)

func init() {
	p := h.Register("C11", "Responses accumulate by status with the right content and headers",
		"Schemas of single structures are those of the JSON schema library; statuses, media types, headers and descriptions are modelled independently.",
		"Structures of one status do not share media types or headers, a reference is only set by the last one.")

	run := func(c opCase, st *h.Stats) error {
		return c.registered(st, func(m *opModel, e expectedOp, doc, op map[string]interface{}, _ openapi.OperationContext) error {
			want := asMap(e.op["responses"])
			st.NonTrivialIf(len(c.Op.Resp) > 0)
			st.ClassIf(len(want) < len(c.Op.Resp), "several structures of one status")
			st.ClassIf(len(want) > 1, "several statuses")

			for k, r := range want {
				if len(k) == 3 && k[1:] == "XX" {
					k = "family"
				}

				st.Class("status " + k)
				st.ClassIf(get(r, "headers") != nil, "headers")
				st.ClassIf(get(r, "$ref") != nil, "reference")
				st.ClassIf(len(mediaOf(asMap(r))) > 1, "several media types")
				st.ClassIf(len(mediaOf(asMap(r))) == 1, "one media type")
			}

			return partDiff("responses", m, want, doc, asMap(op["responses"]))
		})
	}

	h.Add(p, "structures", "at least one response structure; lists of structures over statuses, families and default, with content types, formats, headers, descriptions, references",
		25000, 1000000, genOpCase(func(g *opGen, o *opDesc) {
			t := g.t
			o.Method = genMethodSpelling(t, pick(t, []string{"get", "post", "get", "head", "put", "delete"}))
			o.Path = "/r"

			for i := pick(t, []int{0, 1, 1, 2, 2, 3, 4, 5}); i > 0; i-- {
				o.Resp = append(o.Resp, g.respUnit())
			}

			// Same status for several structures.
			if len(o.Resp) > 1 && chance(t, 50) {
				k := drawInt(t, 1, len(o.Resp)-1)
				o.Resp[k].Status, o.Resp[k].Default = o.Resp[0].Status, o.Resp[0].Default

				if o.Resp[k].CT == "" && o.Resp[0].CT == "" && chance(t, 70) {
					o.Resp[k].CT = fmt.Sprintf("application/x%d+json", g.next())
				}
			}

			o.tidy()
		}), run)

	h.Add(p, "named types", "at least one response structure; types declared in packages",
		10000, 300000, genOpCase(func(g *opGen, o *opDesc) {
			t := g.t
			o.Method = pick(t, []string{"get", "post", "head"})
			o.Path = "/r"

			for i := drawInt(t, 1, 3); i > 0; i-- {
				u := unitDesc{T: tgen.Zoo(pick(t, append([]string{"WithHeaders", "HeadersOnly", "Raw", "Empty", "NoTags", "Shape", "AnyShape", "Negative", "Doc", "ClosedBody", "Money", "Inline"}, zoo.Responses...)))}
				u.Status = pick(t, statuses)
				u.Default = chance(t, 15)
				g.form(&u)
				g.unitExtras(&u, "responses")
				o.Resp = append(o.Resp, u)
			}

			o.tidy()
		}), run)

	h.Add(p, "without tags", "some field has no tag; structures without JSON tags under the ProcessWithoutTags option against the same structures with tags that repeat the field names",
		6000, 200000, genTagless(true), runTagless)
}
