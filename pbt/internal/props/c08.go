package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
	"pgregory.net/rapid"
	"verif/pbt/internal/docgen"
	"verif/pbt/internal/h"
	"verif/pbt/internal/jsv"
	"verif/pbt/internal/tgen"
)

// c08case is a history of registrations.
type c08case struct {
	Is31  bool     `json:"is31"`
	Early bool     `json:"early"` // contexts are made before the first registration
	Ops   []opDesc `json:"ops"`

	Start json.RawMessage `json:"start,omitempty"` // document that is loaded first
	Again []bool          `json:"again,omitempty"` // contexts that are changed and added once more
}

func genC08(t *rapid.T) c08case {
	g := newOpGen(t)
	c := c08case{Is31: rapid.Bool().Draw(t, "is31"), Early: chance(t, 25)}

	if chance(t, 15) {
		c.Start = genStart(t, c.Is31, "/a", "/b", "/a/{id}", "/b/{id}")
	}

	for i := drawInt(t, 1, 8); i > 0; i-- {
		o := opDesc{Method: genMethodSpelling(t, pick(t, httpMethods))}

		if chance(t, 70) {
			o.Method = genMethodSpelling(t, pick(t, []string{"get", "post"}))
		}

		if chance(t, 60) {
			u := unitDesc{T: tgen.T{K: "struct"}}

			for j := drawInt(t, 0, 3); j > 0; j-- {
				f := g.paramField(pick(t, []string{"path", "path", "query", "header"}))
				if chance(t, 60) {
					// Few names, so that parameters clash and paths are the same.
					in := "query"
					for _, l := range []string{"path", "header", "form"} {
						if _, ok := reflect.StructTag(f.Tag).Lookup(l); ok {
							in = l
						}
					}

					f.Tag = fmt.Sprintf("%s:%q", in, pick(t, []string{"id", "name"})) + strings.TrimPrefix(f.Tag, fmt.Sprintf("%s:%q", in, reflect.StructTag(f.Tag).Get(in)))
				}

				u.T.F = append(u.T.F, f)
			}

			if chance(t, 30) {
				u.T.F = append(u.T.F, g.bodyField("json", 1))
			}

			g.form(&u)
			o.Req = append(o.Req, u)
			g.named = map[string]bool{}
		}

		if chance(t, 20) {
			o.Req = append(o.Req, g.reqUnit())
		}

		for j := pick(t, []int{0, 0, 1, 2}); j > 0; j-- {
			o.Resp = append(o.Resp, g.respUnit())
		}

		if chance(t, 3) {
			o.Resp = append(o.Resp, unitDesc{T: tgen.Zoo("Broken"), Status: 418})
		}

		// A field that can not be described.
		if chance(t, 4) {
			in := pick(t, []string{"json", "json", "formData", "query", "header", "cookie"})
			u := unitDesc{T: tgen.T{K: "struct", F: []tgen.F{{N: "Broken", T: tgen.Zoo("Broken"), Tag: fmt.Sprintf("%s:%q", in, "broken")}}}}

			if (in == "json" || in == "header") && chance(t, 50) {
				u.Status = 419
				o.Resp = append(o.Resp, u)
			} else {
				o.Req = append(o.Req, u)
			}
		}

		o.tidy()

		// The same parameter once more, in the same words.
		if len(o.Req) > 0 && chance(t, 6) {
			for _, f := range o.Req[0].T.F {
				if tag := reflect.StructTag(f.Tag); tag.Get("path") != "" || tag.Get("query") != "" || tag.Get("header") != "" {
					o.Req = append(o.Req, unitDesc{T: tgen.T{K: "struct", F: []tgen.F{f}}})

					break
				}
			}
		}

		p := pick(t, []string{"/a", "/b"})

		switch drawInt(t, 0, 9) {
		case 0:
			o.Path = pick(t, []string{"/a/{id}", "/a/{name}", "/a/{id}/{name}", "/a"})
		case 1:
			o.Path = pathOf(p, o.Req) + pick(t, []string{"/", "/x"})
		default:
			o.Path = pathOf(p, o.Req)
		}

		if chance(t, 25) {
			o.Path = strings.ReplaceAll(o.Path, "}", pick(t, []string{":[0-9]+}", ":[a-z]{2,3}}"}))
		}

		if c.Is31 && chance(t, 25) {
			o.Webhook = true
			o.Path = pick(t, []string{"hook1", "hook2", "{id}"})
		}

		g.metadata(&o)
		o.Reset = chance(t, 15)
		c.Ops = append(c.Ops, o)
		c.Again = append(c.Again, chance(t, 15))
	}

	return c
}

// genStart makes a document that may have operations at the given paths.
func genStart(t *rapid.T, is31 bool, paths ...string) []byte {
	v := v30
	if is31 {
		v = v31
	}

	g := &docgen.G{T: t}
	doc := v.Gr.Doc(g)

	for _, p := range paths {
		if chance(t, 50) {
			ensMap(doc, "paths")[p] = v.Gr.Fragment(g, "PathItem")
		}
	}

	for _, n := range []string{"/a", "hook1"} {
		if is31 && chance(t, 30) {
			ensMap(doc, "webhooks")[n] = v.Gr.Fragment(g, "PathItem")
		}
	}

	b, err := json.Marshal(doc)
	h.Must(err, "start document")

	return b
}

type taken struct{ paths, hooks map[string]bool }

func runC08(c c08case, st *h.Stats) error {
	r := newReflector(c.Is31, false)
	tk := taken{paths: map[string]bool{}, hooks: map[string]bool{}}

	type pending struct {
		oc  openapi.OperationContext
		err error
	}

	if len(c.Start) > 0 {
		switch x := r.(type) {
		case *openapi3.Reflector:
			x.Spec = &openapi3.Spec{}
		case *openapi31.Reflector:
			x.Spec = &openapi31.Spec{}
		}

		h.Must(json.Unmarshal(c.Start, r.SpecSchema()), "start document")

		start := docOf(r)

		for p, item := range asMap(start["paths"]) {
			for _, m := range httpMethods {
				if asMap(item)[m] != nil {
					tk.paths[m+" "+p] = true
				}
			}
		}

		for n := range asMap(start["webhooks"]) {
			tk.hooks[n] = true
		}
	}

	early := make([]pending, len(c.Ops))

	if c.Early {
		for i, o := range c.Ops {
			oc, err := r.NewOperationContext(o.Method, o.Path)
			early[i] = pending{oc, err}

			if err != nil && len(c.Start) == 0 {
				return fmt.Errorf("operation %d: context is refused without registered operations: %w", i, err)
			}
		}
	}

	ok, failed := 0, 0

	for i, o := range c.Ops {
		before := docOf(r)
		m := newModel(c.Is31, false)
		e, want := m.operation(o)
		key := e.method + " " + e.path
		why := "invalid"

		switch {
		case o.Webhook && tk.hooks[o.Path]:
			want, why = modelErr{"webhook name is taken"}, "webhook taken"
		case !o.Webhook && tk.paths[key]:
			want, why = modelErr{"method and path are taken"}, "taken"
		}

		var (
			err error
			oc  openapi.OperationContext
		)

		if c.Early {
			oc, err = early[i].oc, early[i].err
		} else {
			oc, err = r.NewOperationContext(o.Method, o.Path)
		}

		if err == nil {
			if oc.Method() != e.method || oc.PathPattern() != e.path {
				return fmt.Errorf("operation %d: context has %q %q, want %q %q", i, oc.Method(), oc.PathPattern(), e.method, e.path)
			}

			o.fillOC(oc)

			if r31, is := r.(*openapi31.Reflector); is && o.Webhook {
				err = r31.AddWebhook(oc)
			} else {
				err = r.AddOperation(oc)
			}
		}

		after := docOf(r)

		if want != nil {
			failed++

			st.Class("fails: " + why)

			if err == nil {
				return fmt.Errorf("operation %d (%s %s) is accepted, has to fail: %w", i, o.Method, o.Path, want)
			}

			for _, k := range []string{"paths", "webhooks"} {
				if d := jsv.Diff(before[k], after[k]); d != "" && len(asMap(before[k]))+len(asMap(after[k])) > 0 {
					return fmt.Errorf("operation %d (%s %s) failed (%v), but %s changed: %s", i, o.Method, o.Path, err, k, d)
				}
			}

			continue
		}

		if err != nil {
			return fmt.Errorf("operation %d (%s %s) has to be accepted, failed: %w", i, o.Method, o.Path, err)
		}

		ok++

		got := findOp(after, o.Webhook, e.path, e.method)
		if got == nil {
			return fmt.Errorf("operation %d: %s %s is missing after registration", i, e.method, e.path)
		}

		if o.Reset {
			st.Class("metadata set and cleared")

			// An empty text is as good as none.
			c := map[string]interface{}{}
			for k, v := range got {
				c[k] = v
			}

			got = c

			for _, k := range []string{"summary", "description", "operationId", "deprecated"} {
				if got[k] == "" || got[k] == false {
					delete(got, k)
				}
			}
		}

		for _, k := range []string{"tags", "summary", "description", "operationId", "deprecated", "security"} {
			if err := diffErr(fmt.Sprintf("operation %d: %s", i, k), e.op[k], got[k]); err != nil {
				return err
			}
		}

		if err := sameStrings("statuses", h.SortedKeys(asMap(e.op["responses"])), h.SortedKeys(asMap(got["responses"]))); err != nil {
			return fmt.Errorf("operation %d: %w", i, err)
		}

		if len(o.Resp) == 0 {
			st.Class("default response")

			if err := diffErr("default response", get(e.op, "responses", "204"), get(got, "responses", "204")); err != nil {
				return err
			}
		}

		for what, p := range map[string][2]interface{}{
			"summary": {o.Summary, oc.Summary()}, "description": {o.Desc, oc.Description()}, "id": {o.ID, oc.ID()},
			"deprecated": {o.Deprecated, oc.IsDeprecated()}, "tags": {js(append([]string{}, o.Tags...)), js(append([]string{}, oc.Tags()...))},
		} {
			if p[0] != p[1] {
				return fmt.Errorf("operation %d: context reports %s %v, want %v", i, what, p[1], p[0])
			}
		}

		if i < len(c.Again) && c.Again[i] {
			st.Class("context added again")

			oc.SetTags("again")
			oc.SetSummary("Again.")
			oc.AddSecurity("again")
			oc.AddReqStructure(nil, openapi.WithContentType("text/again"))
			oc.AddRespStructure(nil, openapi.WithHTTPStatus(418), openapi.WithContentType("text/again"))
			oc.AddRespStructure(nil, func(cu *openapi.ContentUnit) { cu.IsDefault = true })

			if r31, is := r.(*openapi31.Reflector); is && o.Webhook {
				err = r31.AddWebhook(oc)
			} else {
				err = r.AddOperation(oc)
			}

			if err == nil {
				return fmt.Errorf("operation %d: context is accepted again", i)
			}

			if d := jsv.Diff(after, docOf(r)); d != "" {
				return fmt.Errorf("operation %d: context is refused when added again (%w), but the document changed: %s", i, err, d)
			}
		}

		// Nothing else changes.
		section := "paths"
		if o.Webhook {
			section = "webhooks"
			tk.hooks[o.Path] = true
		} else {
			tk.paths[key] = true
		}

		asMap(asMap(after[section])[e.path])[e.method] = nil

		rest := asMap(get(after, section, e.path))
		delete(rest, e.method)

		if len(rest) == 0 && get(before, section, e.path) == nil {
			delete(asMap(after[section]), e.path)
		}

		// Definitions may be added.
		for k, v := range asMap(after["components"]) {
			for n := range asMap(v) {
				if _, has := asMap(get(before, "components", k))[n]; k == "schemas" && !has {
					delete(asMap(v), n)
				}
			}

			if _, has := asMap(before["components"])[k]; !has && len(asMap(v)) == 0 {
				delete(asMap(after["components"]), k)
			}
		}

		for k := range after {
			if _, has := before[k]; !has {
				before[k] = nil
			}
		}

		for k, b := range before {
			a := after[k]
			if m, is := a.(map[string]interface{}); (is || a == nil) && len(m) == 0 && len(asMap(b)) == 0 {
				continue
			}

			if d := jsv.Diff(b, a); d != "" {
				return fmt.Errorf("operation %d (%s %s) changed something else in %s: %s", i, o.Method, o.Path, k, d)
			}
		}
	}

	st.NonTrivialIf(ok > 0 && failed > 0)
	st.ClassIf(ok > 1, "several registered")
	st.ClassIf(c.Early, "contexts made early")
	st.ClassIf(len(c.Start) > 0, "on a loaded document")
	st.ClassIf(c.Is31, "3.1")

	// Contexts of other kinds are refused.
	return nil
}

func sameStrings(what string, want, got []string) error {
	if strings.Join(want, "\x00") != strings.Join(got, "\x00") {
		return fmt.Errorf("%s: want %q, got %q", what, want, got)
	}

	return nil
}

// c08spec is a history of direct registrations in a document.
type c08spec struct {
	Is31  bool            `json:"is31"`
	Start json.RawMessage `json:"start,omitempty"` // document that is loaded first
	Steps []c08step       `json:"steps"`
}

type c08step struct {
	Kind   string      `json:"kind"` // add, setup, webhook
	Method string      `json:"method"`
	Path   string      `json:"path"`
	ID     string      `json:"id"`
	Params [][2]string `json:"params,omitempty"` // in, name
	Resp   bool        `json:"resp,omitempty"`
	Fail   int         `json:"fail,omitempty"` // setup function that fails, counted from 1
}

func genC08spec(t *rapid.T) c08spec {
	c := c08spec{Is31: rapid.Bool().Draw(t, "is31")}

	if chance(t, 30) {
		c.Start = genStart(t, c.Is31, "/a", "/b", "/a/{id}")
	}

	for i := drawInt(t, 1, 10); i > 0; i-- {
		s := c08step{Kind: pick(t, []string{"add", "add", "setup", "setup", "webhook"}), ID: fmt.Sprintf("id%d", i), Resp: chance(t, 40)}
		s.Method = genMethodSpelling(t, pick(t, []string{"get", "get", "post", "delete", "head", "options", "patch", "put", "trace"}))

		if chance(t, 5) {
			s.Method = genBadMethod(t)
		}

		s.Path = pick(t, []string{"/a", "/b"})
		if chance(t, 40) {
			for _, n := range []string{"id", "name"} {
				if chance(t, 60) {
					s.Path += "/{" + n + pick(t, []string{"", ":[0-9]{2}", ":.+"}) + "}"

					if chance(t, 90) {
						s.Params = append(s.Params, [2]string{"path", n})
					}
				}
			}
		}

		for j := pick(t, []int{0, 0, 1, 2}); j > 0; j-- {
			s.Params = append(s.Params, [2]string{pick(t, []string{"query", "header", "cookie", "query", "path", "$ref"}), pick(t, []string{"q", "h", "id"})})
		}

		if s.Kind == "setup" && chance(t, 20) {
			s.Fail = drawInt(t, 1, 2)
		}

		c.Steps = append(c.Steps, s)
	}

	return c
}

// specOps hides the version of the document.
type specOps struct {
	add, webhook func(method, path string, op []byte) error
	setup        func(method, path string, f ...func(op []byte) ([]byte, error)) error
	doc          func() map[string]interface{}
}

func newSpecOps(is31 bool, start []byte) specOps {
	render := func(v interface{}) map[string]interface{} {
		b, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}

		x, err := jsv.Parse(b)
		h.Must(err, "parse")

		return asMap(x)
	}

	if is31 {
		s := &openapi31.Spec{Openapi: "3.1.0"}
		if len(start) > 0 {
			h.Must(json.Unmarshal(start, s), "start document")
		}

		dec := func(b []byte) openapi31.Operation {
			var op openapi31.Operation

			h.Must(json.Unmarshal(b, &op), "decode operation")

			return op
		}

		return specOps{
			add:     func(m, p string, b []byte) error { return s.AddOperation(m, p, dec(b)) },
			webhook: func(m, p string, b []byte) error { return s.AddWebhook(m, p, dec(b)) },
			setup: func(m, p string, f ...func(op []byte) ([]byte, error)) error {
				var fs []func(op *openapi31.Operation) error

				for _, x := range f {
					fs = append(fs, func(op *openapi31.Operation) error {
						b, err := json.Marshal(op)
						h.Must(err, "encode operation")

						n, err := x(b)
						*op = dec(n)

						return err
					})
				}

				return s.SetupOperation(m, p, fs...)
			},
			doc: func() map[string]interface{} { return render(s) },
		}
	}

	s := &openapi3.Spec{Openapi: "3.0.3"}
	if len(start) > 0 {
		h.Must(json.Unmarshal(start, s), "start document")
	}

	dec := func(b []byte) openapi3.Operation {
		var op openapi3.Operation

		h.Must(json.Unmarshal(b, &op), "decode operation")

		return op
	}

	return specOps{
		add: func(m, p string, b []byte) error { return s.AddOperation(m, p, dec(b)) },
		setup: func(m, p string, f ...func(op []byte) ([]byte, error)) error {
			var fs []func(op *openapi3.Operation) error

			for _, x := range f {
				fs = append(fs, func(op *openapi3.Operation) error {
					b, err := json.Marshal(op)
					h.Must(err, "encode operation")

					n, err := x(b)
					*op = dec(n)

					return err
				})
			}

			return s.SetupOperation(m, p, fs...)
		},
		doc: func() map[string]interface{} { return render(s) },
	}
}

// op is the operation of the step.
func (s c08step) op() map[string]interface{} {
	op := map[string]interface{}{"operationId": s.ID, "responses": map[string]interface{}{}}

	var ps []interface{}
	for _, p := range s.Params {
		x := map[string]interface{}{"in": p[0], "name": p[1], "schema": map[string]interface{}{"type": "string"}}
		if p[0] == "path" {
			x["required"] = true
		}

		// What a reference declares is not known.
		if p[0] == "$ref" {
			x = map[string]interface{}{"$ref": "#/components/parameters/" + p[1]}
		}

		ps = append(ps, x)
	}

	if ps != nil {
		op["parameters"] = ps
	}

	if s.Resp {
		op["responses"] = map[string]interface{}{"200": map[string]interface{}{"description": s.ID}}
	}

	return op
}

func runC08spec(c c08spec, st *h.Stats) error {
	s := newSpecOps(c.Is31, c.Start)
	start := s.doc()
	ops := map[string]interface{}{}
	hooks := map[string]interface{}{}

	for p, item := range asMap(start["paths"]) {
		for _, m := range httpMethods {
			if m = strings.ToLower(m); asMap(item)[m] != nil {
				ops[m+" "+p] = asMap(item)[m]
			}
		}
	}

	for n, item := range asMap(start["webhooks"]) {
		hooks[n] = item
	}

	ok, failed := 0, 0

	for i, step := range c.Steps {
		if step.Kind == "webhook" && !c.Is31 {
			continue
		}

		path, names := modelPath(step.Path)
		method := strings.ToLower(step.Method)
		key := method + " " + path

		want := "" // reason to fail
		if !isHTTPMethod(method) {
			want = "bad method"
		}

		declared := map[string]bool{}
		seen := map[[2]string]bool{}

		for _, p := range step.Params {
			if seen[p] && step.Kind != "webhook" && p[0] != "$ref" {
				want = "parameter declared twice"
			}

			seen[p] = true

			if p[0] == "path" {
				declared[p[1]] = true
			}
		}

		placeholders := map[string]bool{}
		for _, n := range names {
			placeholders[n] = true
		}

		if !reflect.DeepEqual(placeholders, declared) && step.Kind != "webhook" {
			want = "placeholders differ"
		}

		if step.Kind == "add" && ops[key] != nil {
			want = "taken"
		}

		if step.Kind == "webhook" && hooks[path] != nil {
			want = "webhook taken"
		}

		if step.Fail > 0 {
			want = "setup fails"
		}

		op := step.op()
		b, err := json.Marshal(op)
		h.Must(err, "encode")

		exp := step.op()

		if step.Kind != "setup" && !step.Resp {
			exp["responses"] = map[string]interface{}{"204": map[string]interface{}{"description": "No Content"}}
		}

		switch step.Kind {
		case "add":
			err = s.add(step.Method, step.Path, b)
		case "webhook":
			err = s.webhook(step.Method, path, b)
		default:
			prev := ops[key]
			saw := interface{}(nil)

			err = s.setup(step.Method, step.Path, func(got []byte) ([]byte, error) {
				saw, _ = jsv.Parse(got)

				if step.Fail == 1 {
					return b, errors.New("setup 1")
				}

				return b, nil
			}, func(got []byte) ([]byte, error) {
				x, _ := jsv.Parse(got)
				asMap(x)["summary"] = "Second"
				n, _ := json.Marshal(x)

				if step.Fail == 2 {
					return n, errors.New("setup 2")
				}

				return n, nil
			})

			exp["summary"] = "Second"

			if prev != nil {
				st.Class("existing operation is set up")

				if want != "bad method" {
					if d := jsv.Diff(prev, saw); d != "" {
						return fmt.Errorf("step %d: setup sees another operation: %s", i, d)
					}
				}
			}
		}

		if want != "" {
			failed++

			st.Class("fails: " + want)

			if err == nil {
				return fmt.Errorf("step %d is accepted, has to fail: %s", i, want)
			}

			if step.Fail > 0 && isHTTPMethod(method) && err.Error() != fmt.Sprintf("setup %d", step.Fail) {
				return fmt.Errorf("step %d: error of setup is not returned: %w", i, err)
			}
		} else {
			ok++

			if err != nil {
				return fmt.Errorf("step %d has to be accepted: %w", i, err)
			}

			if step.Kind == "webhook" {
				hooks[path] = map[string]interface{}{method: exp}
			} else {
				ops[key] = exp
			}
		}

		// The document has what was registered and nothing else.
		paths := map[string]interface{}{}
		if start["paths"] != nil {
			paths = asMap(clone(start["paths"]))
		}

		for k, v := range ops {
			mp := strings.SplitN(k, " ", 2)
			if paths[mp[1]] == nil {
				paths[mp[1]] = map[string]interface{}{}
			}

			asMap(paths[mp[1]])[mp[0]] = v
		}

		doc := s.doc()

		for k := range doc {
			if _, has := start[k]; !has && k != "paths" && k != "webhooks" {
				return fmt.Errorf("step %d (%v): %s is new in the document", i, err, k)
			}
		}

		for k, v := range start {
			if k == "paths" || k == "webhooks" {
				continue
			}

			if d := jsv.Diff(v, doc[k]); d != "" {
				return fmt.Errorf("step %d (%v): changed something else in %s: %s", i, err, k, d)
			}
		}

		for k, want := range map[string]map[string]interface{}{"paths": paths, "webhooks": hooks} {
			got := asMap(doc[k])
			dropEmptyResponses(got)

			w := asMap(clone(want))
			dropEmptyResponses(w)

			if len(w) == 0 && len(got) == 0 {
				continue
			}

			if d := jsv.Diff(w, got); d != "" {
				return fmt.Errorf("step %d (%v): %s: %s", i, err, k, d)
			}
		}
	}

	st.NonTrivialIf(ok > 0 && failed > 0)
	st.ClassIf(c.Is31, "3.1")
	st.ClassIf(len(c.Start) > 0, "on a loaded document")

	return nil
}

func clone(v interface{}) interface{} {
	b, err := json.Marshal(v)
	h.Must(err, "clone")

	x, err := jsv.Parse(b)
	h.Must(err, "clone")

	return x
}

func dropEmptyResponses(paths map[string]interface{}) {
	for _, p := range paths {
		for _, op := range asMap(p) {
			if m := asMap(op); m != nil && len(asMap(m["responses"])) == 0 {
				delete(m, "responses")
			}
		}
	}
}

func init() {
	p := h.Register("C08", "Operations are registered once, exactly as described, or not at all",
		"Which registrations have to fail is decided by an independent model of taken keys, placeholders and declared parameters.")

	h.Add(p, "reflector", "history with an accepted and a refused registration; operations with clashing paths, methods, webhook names and parameters",
		10000, 500000, genC08, runC08)
	h.Add(p, "document", "history with an accepted and a refused registration; direct AddOperation, SetupOperation and AddWebhook with the whole document compared after each step",
		20000, 800000, genC08spec, runC08spec)
}
