package docgen

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

// Site is a typed position in a document.
type Site struct {
	Path   []string    // keys and indices from the root
	Ty     *Ty         // type at the position, nil for extensions and untyped members
	Ent    *Ent        // resolved entity, if the value is an entity (not a reference)
	Owner  *Ent        // entity that holds the member
	Key    string      // member name in Owner, if it is a direct member
	Req    bool        // the member is required
	IsRef  bool        // the value is a reference object
	Value  interface{} // the value
	InFree bool        // below free-form JSON
}

// resolve finds the entity of an object value.
func (gr *Grammar) resolve(name string, v M) *Ent {
	if name == "SecurityScheme" && !gr.V31 {
		switch v["type"] {
		case "apiKey":
			return gr.Ents["APIKeySecurityScheme"]
		case "http":
			return gr.Ents["HTTPSecurityScheme"]
		case "oauth2":
			return gr.Ents["OAuth2SecurityScheme"]
		default:
			return gr.Ents["OpenIdConnectSecurityScheme"]
		}
	}

	if name == "SecurityScheme" {
		switch k, _ := v["type"].(string); k {
		case "http":
			if sc, _ := v["scheme"].(string); strings.EqualFold(sc, "bearer") {
				k = "bearer"
			}

			return gr.Kinds[k]
		case "apiKey", "oauth2", "openIdConnect":
			return gr.Kinds[k]
		}
	}

	return gr.Ents[name]
}

func sortedKeys(m M) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}

	sort.Strings(r)

	return r
}

// Walk visits typed positions in depth-first key order.
func (gr *Grammar) Walk(t *Ty, v interface{}, visit func(s Site)) {
	gr.walk(t, v, nil, Site{}, visit)
}

func isRef(m M) bool {
	_, ok := m["$ref"].(string)

	return ok || (len(m) == 1 && m["$ref"] == nil && hasKey(m, "$ref"))
}

func hasKey(m M, k string) bool { _, ok := m[k]; return ok }

var secReqTy = &Ty{Kind: KMap, Elem: &Ty{Kind: KList, Elem: &Ty{Kind: KStr}}}

func sub(path []string, k string) []string {
	return append(append(make([]string, 0, len(path)+1), path...), k)
}

func (gr *Grammar) walk(t *Ty, v interface{}, path []string, base Site, visit func(s Site)) {
	s := base
	s.Path, s.Ty, s.Value = path, t, v

	if t == nil {
		visit(s)

		return
	}

	switch t.Kind {
	case KOrRef, KEnt:
		m, ok := v.(M)
		if !ok {
			visit(s)

			return
		}

		if t.Kind == KOrRef {
			if isRef(m) {
				s.IsRef = true
				visit(s)

				return
			}
		}

		e := gr.resolve(t.Ent, m)
		s.Ent = e
		visit(s)

		for _, k := range sortedKeys(m) {
			b := Site{Owner: e, Key: k}

			var ft *Ty

			if f := e.Field(k); f != nil {
				ft, b.Req = f.T, f.Req
			} else if e.PatT != nil && e.PatKey(k) {
				ft = e.PatT
			}

			gr.walk(ft, m[k], sub(path, k), b, visit)
		}
	case KList:
		visit(s)

		if l, ok := v.(A); ok {
			for i, x := range l {
				gr.walk(t.Elem, x, sub(path, fmt.Sprint(i)), Site{}, visit)
			}
		}
	case KMap:
		visit(s)

		if m, ok := v.(M); ok {
			for _, k := range sortedKeys(m) {
				gr.walk(t.Elem, m[k], sub(path, k), Site{}, visit)
			}
		}
	case KSecReq:
		gr.walk(secReqTy, v, path, base, visit)
	case KBoolOrSchema:
		visit(s)

		if _, ok := v.(M); ok {
			gr.walk(&Ty{Kind: KOrRef, Ent: "Schema", RefDir: "schemas"}, v, path, base, visit)
		}
	default:
		visit(s)
	}
}

// Canon normalises a document: absent and empty optional lists and maps are the same (except an operation's
// security), and so are absent and spelled out default styles of headers and header or cookie parameters.
func (gr *Grammar) Canon(t *Ty, v interface{}) interface{} {
	if t == nil {
		return v
	}

	switch t.Kind {
	case KOrRef, KEnt:
		m, ok := v.(M)
		if !ok {
			return v
		}

		if t.Kind == KOrRef {
			if isRef(m) {
				return v
			}
		}

		e := gr.resolve(t.Ent, m)
		res := make(M, len(m))

		for k, x := range m {
			var ft *Ty

			f := e.Field(k)
			if f != nil {
				ft = f.T
			} else if e.PatT != nil && e.PatKey(k) {
				ft = e.PatT
			}

			if f != nil && !f.Req && !(e.Name == "Operation" && k == "security") && isEmptyColl(f.T, x) {
				continue
			}

			res[k] = gr.Canon(ft, x)
		}

		if e.StyleDef != nil {
			if st, ok := m["style"]; ok && st == e.StyleDef(m) {
				delete(res, "style")
			}
		}

		return res
	case KList:
		l, ok := v.(A)
		if !ok {
			return v
		}

		res := make(A, len(l))
		for i, x := range l {
			res[i] = gr.Canon(t.Elem, x)
		}

		return res
	case KMap:
		m, ok := v.(M)
		if !ok {
			return v
		}

		res := make(M, len(m))
		for k, x := range m {
			res[k] = gr.Canon(t.Elem, x)
		}

		return res
	case KBoolOrSchema:
		if _, ok := v.(M); ok {
			return gr.Canon(&Ty{Kind: KOrRef, Ent: "Schema", RefDir: "schemas"}, v)
		}
	}

	return v
}

func isEmptyColl(t *Ty, v interface{}) bool {
	switch t.Kind {
	case KList:
		l, ok := v.(A)

		return ok && len(l) == 0
	case KMap:
		m, ok := v.(M)

		return ok && len(m) == 0
	}

	return false
}

// EntTy is the type of an entity name; the suffix "?" allows a reference.
func EntTy(name string) *Ty {
	if strings.HasSuffix(name, "?") {
		return orRef(strings.TrimSuffix(name, "?"), "")
	}

	return ent(name)
}

// Clone copies JSON data.
func Clone(v interface{}) interface{} {
	switch x := v.(type) {
	case M:
		r := make(M, len(x))
		for k, e := range x {
			r[k] = Clone(e)
		}

		return r
	case A:
		r := make(A, len(x))
		for i, e := range x {
			r[i] = Clone(e)
		}

		return r
	}

	return v
}

// At finds the value at a path.
func At(v interface{}, path []string) (interface{}, bool) {
	for _, p := range path {
		switch x := v.(type) {
		case M:
			e, ok := x[p]
			if !ok {
				return nil, false
			}

			v = e
		case A:
			i := idx(p)
			if i < 0 || i >= len(x) {
				return nil, false
			}

			v = x[i]
		default:
			return nil, false
		}
	}

	return v, true
}

func idx(p string) int {
	i := 0
	if p == "" {
		return -1
	}

	for _, c := range p {
		if c < '0' || c > '9' {
			return -1
		}

		i = i*10 + int(c-'0')
	}

	return i
}

// Set replaces (or adds) the value at a path and returns the new root.
func Set(v interface{}, path []string, nv interface{}) interface{} {
	if len(path) == 0 {
		return nv
	}

	switch x := v.(type) {
	case M:
		x[path[0]] = Set(x[path[0]], path[1:], nv)
	case A:
		i := idx(path[0])
		x[i] = Set(x[i], path[1:], nv)
	}

	return v
}

// Delete removes an object member or a list element and returns the new root.
func Delete(v interface{}, path []string) interface{} {
	if len(path) == 1 {
		switch x := v.(type) {
		case M:
			delete(x, path[0])
		case A:
			i := idx(path[0])

			return append(append(A{}, x[:i]...), x[i+1:]...)
		}

		return v
	}

	switch x := v.(type) {
	case M:
		x[path[0]] = Delete(x[path[0]], path[1:])
	case A:
		i := idx(path[0])
		x[i] = Delete(x[i], path[1:])
	}

	return v
}

// DupKeys reports an object key that is emitted twice.
func DupKeys(data []byte) error {
	dec := json.NewDecoder(bytes.NewReader(data))
	dec.UseNumber()

	type frame struct {
		obj    bool
		keys   map[string]bool
		expKey bool
	}

	var st []*frame

	for {
		tok, err := dec.Token()
		if err != nil {
			return nil //nolint:nilerr // Syntax is checked elsewhere.
		}

		var top *frame
		if len(st) > 0 {
			top = st[len(st)-1]
		}

		if d, ok := tok.(json.Delim); ok {
			switch d {
			case '{', '[':
				if top != nil && top.obj {
					top.expKey = true
				}

				st = append(st, &frame{obj: d == '{', keys: map[string]bool{}, expKey: d == '{'})
			default:
				st = st[:len(st)-1]
			}

			continue
		}

		if top != nil && top.obj {
			if top.expKey {
				k, _ := tok.(string)
				if top.keys[k] {
					return fmt.Errorf("object key %q is emitted twice", k)
				}

				top.keys[k] = true
				top.expKey = false
			} else {
				top.expKey = true
			}
		}
	}
}

// Strip removes members that an entity does not know: neither listed nor matched by its pattern nor an extension.
func (gr *Grammar) Strip(t *Ty, v interface{}) interface{} {
	if t == nil {
		return v
	}

	switch t.Kind {
	case KOrRef, KEnt:
		m, ok := v.(M)
		if !ok {
			return v
		}

		res := make(M, len(m))

		if t.Kind == KOrRef && isRef(m) {
			for k, x := range m {
				if k == "$ref" || k == "summary" || k == "description" {
					res[k] = x
				}
			}

			return res
		}

		e := gr.resolve(t.Ent, m)

		for k, x := range m {
			f := e.Field(k)

			switch {
			case f != nil:
				res[k] = gr.Strip(f.T, x)
			case e.PatT != nil && e.PatKey(k):
				res[k] = gr.Strip(e.PatT, x)
			case e.AnyExtra || (e.Ext || e.Pat == "callback") && strings.HasPrefix(k, "x-"):
				res[k] = x
			}
		}

		return res
	case KList:
		l, ok := v.(A)
		if !ok {
			return v
		}

		res := make(A, len(l))
		for i, x := range l {
			res[i] = gr.Strip(t.Elem, x)
		}

		return res
	case KMap:
		m, ok := v.(M)
		if !ok {
			return v
		}

		res := make(M, len(m))
		for k, x := range m {
			res[k] = gr.Strip(t.Elem, x)
		}

		return res
	}

	return v
}
