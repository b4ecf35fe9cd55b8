package props

import (
	"fmt"

	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

// schemas30 converts all schemas of a 3.1 document to the notation of 3.0.
func schemas30(doc map[string]interface{}) {
	media := func(c interface{}) {
		for _, mt := range asMap(c) {
			if s, ok := asMap(mt)["schema"]; ok {
				asMap(mt)["schema"] = conv30(s)
			}
		}
	}

	comps := asMap(get(doc, "components", "schemas"))
	for k, s := range comps {
		comps[k] = conv30(s)
	}

	for _, pi := range asMap(doc["paths"]) {
		for _, op := range asMap(pi) {
			for _, p := range asList(asMap(op)["parameters"]) {
				if s, ok := asMap(p)["schema"]; ok {
					asMap(p)["schema"] = conv30(s)
				}

				media(asMap(p)["content"])
			}

			media(get(op, "requestBody", "content"))

			for _, r := range asMap(asMap(op)["responses"]) {
				media(asMap(r)["content"])

				for _, hd := range asMap(asMap(r)["headers"]) {
					if s, ok := asMap(hd)["schema"]; ok {
						asMap(hd)["schema"] = conv30(s)
					}
				}
			}
		}
	}
}

// dropRootNull removes nullability of parameters and of response bodies themselves, 3.0 does not show it.
func dropRootNull(doc map[string]interface{}) (n int) {
	drop := func(s interface{}) {
		if m := asMap(s); m != nil && m["nullable"] != nil {
			delete(m, "nullable")
			n++
		}
	}

	for _, pi := range asMap(doc["paths"]) {
		for _, op := range asMap(pi) {
			for _, p := range asList(asMap(op)["parameters"]) {
				drop(asMap(p)["schema"])
			}

			for _, r := range asMap(asMap(op)["responses"]) {
				for _, mt := range asMap(asMap(r)["content"]) {
					drop(asMap(mt)["schema"])
				}
			}
		}
	}

	return n
}

func runC18(c opsCase, st *h.Stats) error {
	r30, r31 := c.reflector(false), c.reflector(true)

	for i, o := range c.Ops {
		e30, e31 := o.register(r30), o.register(r31)
		if (e30 == nil) != (e31 == nil) {
			return fmt.Errorf("operation %d: 3.0 gives %v, 3.1 gives %v", i, e30, e31)
		}

		st.ClassIf(e30 != nil, "rejected")
	}

	d30, d31 := docOf(r30), docOf(r31)
	schemas30(d31)

	n := dropRootNull(d31)
	dropRootNull(d30)

	for _, d := range []map[string]interface{}{d30, d31} {
		for _, pi := range asMap(d["paths"]) {
			for _, op := range asMap(pi) {
				normOp(asMap(op))
			}
		}

		// Attributes of headers that 3.1 does not have.
		for _, pi := range asMap(d["paths"]) {
			for _, op := range asMap(pi) {
				for _, r := range asMap(asMap(op)["responses"]) {
					for _, hd := range asMap(asMap(r)["headers"]) {
						delete(asMap(hd), "allowEmptyValue")
						delete(asMap(hd), "allowReserved")
					}
				}
			}
		}
	}

	if d := simDiff(d30, d30["paths"], d31, d31["paths"]); d != "" {
		return fmt.Errorf("operations differ (first 3.0, second 3.1): %s\n3.0: %s\n3.1: %s", d, cut(js(d30)), cut(js(d31)))
	}

	k30, k31 := h.SortedKeys(asMap(get(d30, "components", "schemas"))), h.SortedKeys(asMap(get(d31, "components", "schemas")))
	if err := eqStr("names of components", k30, k31); err != nil {
		return err
	}

	if d := simDiff(d30, get(d30, "components"), d31, get(d31, "components")); d != "" {
		return fmt.Errorf("components differ (first 3.0, second 3.1): %s", d)
	}

	delete(d30, "openapi")
	delete(d31, "openapi")
	delete(d30, "paths")
	delete(d31, "paths")
	delete(d30, "components")
	delete(d31, "components")

	st.NonTrivialIf(len(c.Ops) > 0)
	st.ClassIf(n > 0, "null in a root schema")
	st.ClassIf(len(k30) > 0, "components")

	return diffErr("general part", d30, d31)
}

func init() {
	p := h.Register("C18", "The same operation is documented equivalently in 3.0 and 3.1",
		"Schemas are compared by structure after conversion of the 3.1 form to the notation of 3.0, keywords that 3.0 does not have are not compared.",
		"Null at the root of a parameter or of a response body is not compared, 3.0 leaves it out by design.",
		"allowEmptyValue and allowReserved of response headers are not compared, 3.1 does not have them.")

	h.Add(p, "operations", "at least one operation; sequences of operations registered in both versions",
		8000, 400000, func(t *rapid.T) opsCase {
			c := genOps(1, 4, true)(t)
			c.Is31 = false

			for i := range c.Ops {
				if c.Ops[i].Webhook {
					c.Ops[i].Webhook = false
					c.Ops[i].Path = "/" + c.Ops[i].Path
				}
			}

			return c
		}, runC18)
}
