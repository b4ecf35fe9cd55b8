package docgen

import (
	"encoding/json"
	"strings"
)

// Corruption is a structural damage at a path.
type Corruption struct {
	Kind string
	Path []string
	// Value replaces (or is added at) the path, unless Remove.
	Value  interface{}
	Remove bool
	// NewKey renames the last path element.
	NewKey string
}

// Apply changes the document.
func (c Corruption) Apply(doc interface{}) interface{} {
	if c.NewKey != "" || c.Kind == "rename" {
		v, ok := At(doc, c.Path)
		if !ok {
			return doc
		}

		doc = Delete(doc, c.Path)

		return Set(doc, append(append([]string{}, c.Path[:len(c.Path)-1]...), c.NewKey), v)
	}

	if c.Remove {
		return Delete(doc, c.Path)
	}

	return Set(doc, c.Path, c.Value)
}

func wrongTypes(t *Ty, v interface{}) []interface{} {
	obj := M{"zz": json.Number("1")}
	arr := A{"zz"}
	n := json.Number("7")

	switch t.Kind {
	case KStr, KURI, KEmail, KRegex, KVersion, KEnum:
		return []interface{}{n, true, obj, arr, json.Number("1.5")}
	case KBool:
		return []interface{}{n, "true", obj, arr, json.Number("0")}
	case KNat:
		return []interface{}{"7", true, obj, arr, json.Number("1.5")}
	case KNum, KPosNum:
		return []interface{}{"7", true, obj, arr}
	case KEnt, KOrRef:
		return []interface{}{n, "zz", true, arr, A{}}
	case KList:
		return []interface{}{n, "zz", true, obj, M{}}
	case KMap, KSecReq:
		return []interface{}{n, "zz", true, arr, A{}}
	case KBoolOrSchema:
		return []interface{}{n, "zz", arr}
	}

	return nil
}

// Corruptions lists structural damages applicable to a document.
func (gr *Grammar) Corruptions(g *G, t *Ty, doc interface{}) []Corruption {
	var res []Corruption

	gr.Walk(t, doc, func(s Site) {
		if s.Ty == nil {
			return
		}

		root := len(s.Path) == 0

		for _, w := range wrongTypes(s.Ty, s.Value) {
			if !root {
				res = append(res, Corruption{Kind: "type", Path: s.Path, Value: w})
			}
		}

		if s.Ty.Kind == KEnum && !root {
			for _, w := range []string{"zz", "", strings.ToUpper(s.Ty.Enum[0]) + "_"} {
				res = append(res, Corruption{Kind: "enum", Path: s.Path, Value: w})
			}
		}

		if s.Req && !root {
			res = append(res, Corruption{Kind: "missing", Path: s.Path, Remove: true}, Corruption{Kind: "missing", Path: s.Path, Remove: true})
		}

		if s.IsRef && s.Ty.Kind == KOrRef {
			res = append(res, Corruption{Kind: "unknown", Path: sub(s.Path, "zzz"), Value: "v"}, Corruption{Kind: "type", Path: sub(s.Path, "$ref"), Value: json.Number("1")})
		}

		if m, ok := s.Value.(M); ok && s.Ent != nil {
			if !s.Ent.AnyExtra && s.Ent.Pat != "callback" {
				for _, k := range []string{"zzz", "X-foo", "", "x", "description2", "$id", "Description"} {
					if _, has := m[k]; !has {
						res = append(res, Corruption{Kind: "unknown", Path: sub(s.Path, k), Value: Pick(g, []interface{}{"v", true, M{}, A{}, nil})})
					}
				}

				if !s.Ent.Ext {
					res = append(res, Corruption{Kind: "unknown", Path: sub(s.Path, "x-foo"), Value: "v"})
				}
			}

			if s.Ent.PatT != nil {
				for _, k := range sortedKeys(m) {
					if !s.Ent.PatKey(k) {
						continue
					}

					switch s.Ent.Pat {
					case "path":
						res = append(res, Corruption{Kind: "pathkey", Path: sub(s.Path, k), NewKey: Pick(g, []string{"a/b", "{id}", "users", "X-/", " /a", "http://a/b"})})
					case "status":
						res = append(res, Corruption{Kind: "status", Path: sub(s.Path, k), NewKey: Pick(g, []string{"20", "2000", "600", "099", "2xx", "6XX", "0XX", "2X0", "20X", "ok", "Default", " 200", "200 ", "-200", "2X"})})
					case "method":
						res = append(res, Corruption{Kind: "method", Path: sub(s.Path, k), NewKey: Pick(g, []string{"GET", "Get", "connect", "gets", "xget", "get ", "query"})})
					}
				}
			}
		}

		if m, ok := s.Value.(M); ok && s.Ty.Kind == KMap && s.Ty.MapKeys == "comp" {
			for _, k := range sortedKeys(m) {
				res = append(res, Corruption{Kind: "comp", Path: sub(s.Path, k), NewKey: Pick(g, []string{"a b", "a/b", "é", "a,b", "#", "a\n", "a[b]", "{a}", "a~1b"})})
			}
		}
	})

	return res
}
