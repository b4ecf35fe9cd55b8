package props

import (
	"encoding/json"
	"fmt"

	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
	"pgregory.net/rapid"
	"verif/pbt/internal/docgen"
	"verif/pbt/internal/h"
	"verif/pbt/internal/jsv"
)

// c17cmd is a call of a helper.
type c17cmd struct {
	K    string    `json:"k"` // title, description, version, basic, key, bearer, op, get
	Name string    `json:"name,omitempty"`
	A    string    `json:"a,omitempty"`
	In   string    `json:"in,omitempty"`
	Desc string    `json:"desc,omitempty"`
	Sec  []secDesc `json:"sec,omitempty"`
	Nil  bool      `json:"nil,omitempty"` // scopes are passed as a nil slice
}

type c17case struct {
	Start30 json.RawMessage `json:"start30,omitempty"`
	Start31 json.RawMessage `json:"start31,omitempty"`
	Cmds    []c17cmd        `json:"cmds"`
}

// dropEmptyDescriptions treats an empty description of the info and of security schemes as absent.
func dropEmptyDescriptions(doc map[string]interface{}) map[string]interface{} {
	drop := func(v interface{}) {
		if m := asMap(v); m != nil && m["description"] == "" {
			delete(m, "description")
		}
	}

	drop(doc["info"])

	for _, s := range asMap(get(doc, "components", "securitySchemes")) {
		drop(s)
	}

	return doc
}

func ensMap(m map[string]interface{}, k string) map[string]interface{} {
	if m[k] == nil {
		m[k] = map[string]interface{}{}
	}

	return asMap(m[k])
}

// runOne runs the commands on one version.
func (c c17case) runOne(is31 bool) (map[string]interface{}, error) {
	r := newReflector(is31, false)
	start := c.Start30

	if is31 {
		start = c.Start31
	}

	if len(start) > 0 {
		switch x := r.(type) {
		case *openapi3.Reflector:
			x.Spec = &openapi3.Spec{}
		case *openapi31.Reflector:
			x.Spec = &openapi31.Spec{}
		}

		if err := json.Unmarshal(start, r.SpecSchema()); err != nil {
			return nil, h.HarnessError{Msg: "start document: " + err.Error()}
		}
	}

	model := docOf(r)
	s := r.SpecSchema()
	ops := 0

	for i, cmd := range c.Cmds {
		info := ensMap(model, "info")
		scheme := map[string]interface{}{}

		switch cmd.K {
		case "title":
			s.SetTitle(cmd.A)

			info["title"] = cmd.A
		case "description":
			s.SetDescription(cmd.A)

			info["description"] = cmd.A
		case "version":
			s.SetVersion(cmd.A)

			info["version"] = cmd.A
		case "basic":
			s.SetHTTPBasicSecurity(cmd.Name, cmd.Desc)

			scheme = map[string]interface{}{"type": "http", "scheme": "basic"}
		case "key":
			s.SetAPIKeySecurity(cmd.Name, cmd.A, openapi.In(cmd.In), cmd.Desc)

			scheme = map[string]interface{}{"type": "apiKey", "name": cmd.A, "in": cmd.In}
		case "bearer":
			s.SetHTTPBearerTokenSecurity(cmd.Name, cmd.A, cmd.Desc)

			scheme = map[string]interface{}{"type": "http", "scheme": "bearer"}
			if cmd.A != "" {
				scheme["bearerFormat"] = cmd.A
			}
		case "op":
			ops++
			path := fmt.Sprintf("/zz-secured-%d", ops)

			oc, err := r.NewOperationContext("GET", path)
			if err != nil {
				return nil, fmt.Errorf("operation context: %w", err)
			}

			var want []interface{}

			for _, sec := range cmd.Sec {
				scopes := []interface{}{}
				for _, x := range sec.Scopes {
					scopes = append(scopes, x)
				}

				if cmd.Nil {
					oc.AddSecurity(sec.Name, append([]string(nil), sec.Scopes...)...)
				} else {
					oc.AddSecurity(sec.Name, append([]string{}, sec.Scopes...)...)
				}

				want = append(want, map[string]interface{}{sec.Name: scopes})
			}

			if err := r.AddOperation(oc); err != nil {
				return nil, fmt.Errorf("add operation: %w", err)
			}

			op := map[string]interface{}{"responses": map[string]interface{}{"204": map[string]interface{}{"description": "No Content"}}}
			if len(want) > 0 {
				op["security"] = want
			}

			ensMap(model, "paths")[path] = map[string]interface{}{"get": op}
		}

		if len(scheme) > 0 {
			scheme["description"] = cmd.Desc
			ensMap(ensMap(model, "components"), "securitySchemes")[cmd.Name] = scheme
		}

		desc, _ := info["description"].(string)
		title, _ := info["title"].(string)
		vers, _ := info["version"].(string)

		for _, err := range []error{
			eqStr(fmt.Sprintf("command %d %s: title", i, cmd.K), title, s.Title()),
			eqStr(fmt.Sprintf("command %d %s: description", i, cmd.K), desc, s.Description()),
			eqStr(fmt.Sprintf("command %d %s: version", i, cmd.K), vers, s.Version()),
		} {
			if err != nil {
				return nil, err
			}
		}

		if got := docOf(r); jsv.Diff(dropEmptyDescriptions(docgen.Clone(model).(map[string]interface{})), dropEmptyDescriptions(got)) != "" {
			return nil, diffErr(fmt.Sprintf("command %d %s", i, js(cmd)), dropEmptyDescriptions(docgen.Clone(model).(map[string]interface{})), got)
		}
	}

	// It loads back.
	b, err := json.Marshal(r.SpecSchema())
	if err != nil {
		return nil, fmt.Errorf("save: %w", err)
	}

	var again interface{} = &openapi3.Spec{}
	if is31 {
		again = &openapi31.Spec{}
	}

	if err := json.Unmarshal(b, again); err != nil {
		return nil, fmt.Errorf("document does not load back: %w\n%s", err, cut(string(b)))
	}

	b2, err := json.Marshal(again)
	if err != nil {
		return nil, fmt.Errorf("save again: %w", err)
	}

	v, _ := jsv.Parse(b)
	v2, _ := jsv.Parse(b2)

	return asMap(v), diffErr("loaded back", v, v2)
}

func runC17(c c17case, st *h.Stats) error {
	d30, err := c.runOne(false)
	if err != nil {
		return fmt.Errorf("3.0: %w", err)
	}

	d31, err := c.runOne(true)
	if err != nil {
		return fmt.Errorf("3.1: %w", err)
	}

	declared := map[string]int{}

	for _, cmd := range c.Cmds {
		st.Class(cmd.K)

		if cmd.Name != "" {
			declared[cmd.Name]++

			a, b := get(d30, "components", "securitySchemes", cmd.Name), get(d31, "components", "securitySchemes", cmd.Name)
			if err := diffErr("3.0 and 3.1 security scheme "+cmd.Name, a, b); err != nil {
				return err
			}
		}
	}

	for _, n := range declared {
		st.ClassIf(n > 1, "declared again")
	}

	st.ClassIf(len(declared) > 1, "several schemes")
	st.ClassIf(len(c.Start30) > 0, "on a loaded document")
	st.NonTrivialIf(len(c.Cmds) > 0)

	return nil
}

func init() {
	p := h.Register("C17", "Security and general info helpers document what was declared",
		"Names of security schemes have the characters that OpenAPI allows for component names; API keys are in query, header or cookie.",
		"An empty description is the same as none.")

	text := func(t *rapid.T) string {
		if chance(t, 40) {
			return rapid.String().Draw(t, "text")
		}

		return pick(t, []string{"", "Text.", "basic", "bearer", "JWT", "X-API-Key", "1.0", "null", "true", "multi\nline: #x", "<b>&</b>", "\u2028é\U0001F600"})
	}

	name := func(t *rapid.T) string {
		if chance(t, 30) {
			return rapid.StringMatching(`[a-zA-Z0-9._\-]{1,8}`).Draw(t, "name")
		}

		return pick(t, []string{"admin", "user", "Admin", "a.b-c_d", "0", "x-ext"})
	}

	h.Add(p, "history", "at least one call; histories of title, description, version and security calls and of secured operations on new and loaded documents of both versions",
		30000, 2000000, func(t *rapid.T) c17case {
			c := c17case{}

			if chance(t, 40) {
				for _, v := range []*version{v30, v31} {
					b, err := json.Marshal(v.Gr.Doc(&docgen.G{T: t}))
					h.Must(err, "start document")

					if v.V31 {
						c.Start31 = b
					} else {
						c.Start30 = b
					}
				}
			}

			for i := drawInt(t, 1, 12); i > 0; i-- {
				cmd := c17cmd{K: pick(t, []string{"title", "description", "version", "basic", "key", "bearer", "key", "bearer", "op", "op"})}

				switch cmd.K {
				case "title", "description", "version":
					cmd.A = text(t)
				case "op":
					for j := drawInt(t, 0, 4); j > 0; j-- {
						s := secDesc{Name: name(t)}
						for k := drawInt(t, 0, 3); k > 0; k-- {
							s.Scopes = append(s.Scopes, text(t))
						}

						cmd.Sec = append(cmd.Sec, s)
					}

					cmd.Nil = rapid.Bool().Draw(t, "nil")
				default:
					cmd.Name, cmd.Desc, cmd.A = name(t), text(t), text(t)

					if cmd.K == "key" {
						cmd.In = pick(t, []string{"query", "header", "cookie"})
					}
				}

				c.Cmds = append(c.Cmds, cmd)
			}

			return c
		}, runC17)
}
