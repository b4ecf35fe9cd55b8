package props

import (
	"fmt"
	"net/http"
	"reflect"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"verif/pbt/internal/h"
	"verif/pbt/internal/zoo"
)

// part is what a hook is told about the part of the operation.
type part struct {
	Resp bool
	In   openapi.In
}

// hookCall is one call of a hook.
type hookCall struct {
	Hook  string
	Op    bool // an operation is reported
	Part  part
	Field string // Go name
	Name  string
	Type  reflect.Type
	Done  bool
}

type parts map[part]bool

// reach says which parts may reflect a field or a type.
type reach struct {
	fields map[string]parts // by Go names of fields that are unique in the case
	types  map[reflect.Type]parts
	whole  map[reflect.Type]parts // parts that reflect all fields of the type
	loose  bool                   // types that are not found in fields may be reflected
}

func (r *reach) allow(m map[string]parts, k string, p parts) {
	if m[k] == nil {
		m[k] = parts{}
	}

	for x := range p {
		m[k][x] = true
	}
}

func (r *reach) look(t reflect.Type) {
	switch reflect.New(t).Interface().(type) {
	case jsonschema.OneOfExposer, jsonschema.AnyOfExposer, jsonschema.AllOfExposer, jsonschema.NotExposer, jsonschema.IfExposer, jsonschema.ThenExposer, jsonschema.ElseExposer:
		r.loose = true
	}
}

// typ adds a type that is reflected as a whole in the parts.
func (r *reach) typ(t reflect.Type, p parts) {
	t = indirect(t)
	if t == nil {
		return
	}

	if r.types[t] == nil {
		r.types[t] = parts{}
	}

	if r.whole[t] == nil {
		r.whole[t] = parts{}
	}

	more := false

	for x := range p {
		more = more || !r.whole[t][x]
		r.types[t][x], r.whole[t][x] = true, true
	}

	if !more {
		return
	}

	r.look(t)

	switch t.Kind() {
	case reflect.Slice, reflect.Array, reflect.Map:
		r.typ(t.Elem(), p)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			r.allow(r.fields, t.Field(i).Name, p)
			r.typ(t.Field(i).Type, p)
		}
	}
}

// root adds a field of a structure that is added to the operation.
func (r *reach) root(f reflect.StructField, u unitDesc, resp bool) {
	p := parts{}
	emb := f.Anonymous

	for tag, ins := range map[string][]openapi.In{
		"query": {"query"}, "path": {"path"}, "cookie": {"cookie"}, "header": {"header"},
		"form": {"query", "body"}, "formData": {"body"}, "json": {"body"},
	} {
		if resp && tag != "header" && tag != "json" {
			continue
		}

		if _, ok := f.Tag.Lookup(tag); ok || emb {
			for _, in := range ins {
				p[part{resp, in}] = true
			}
		}
	}

	for in, m := range u.Map {
		if _, ok := m[f.Name]; ok {
			if in == "formData" {
				in = "body"
			}

			p[part{resp, openapi.In(in)}] = true
		}
	}

	r.allow(r.fields, f.Name, p)
	r.typ(f.Type, p)
}

// unit adds a structure.
func (r *reach) unit(u unitDesc, resp bool) {
	s := u.structure()
	if s == nil {
		return
	}

	all := parts{{resp, "body"}: true, {resp, "header"}: true}
	if !resp {
		all = parts{{false, "query"}: true, {false, "path"}: true, {false, "cookie"}: true, {false, "header"}: true, {false, "body"}: true}
	}

	if v, ok := virtOf(s); ok {
		for _, f := range v.Fields {
			r.root(reflect.StructField{Name: f.Name, Tag: f.Tag, Type: reflect.TypeOf(f.Value)}, u, resp)
		}

		return
	}

	var fields func(t reflect.Type)

	fields = func(t reflect.Type) {
		if t = indirect(t); t.Kind() != reflect.Struct {
			r.typ(t, all)

			return
		}

		if r.types[t] == nil {
			r.types[t] = parts{}
		}

		r.look(t)

		for x := range all {
			r.types[t][x] = true
		}

		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			r.root(f, u, resp)
		}
	}

	fields(reflect.TypeOf(s))
}

// hooked is a reflector that reports calls of hooks.
func hooked(c opsCase, see func(rc *jsonschema.ReflectContext, call hookCall) error) openapi.Reflector {
	r := newReflector(c.Is31, c.Fmts)
	jr := r.JSONSchemaReflector()

	jr.DefaultOptions = append(jr.DefaultOptions,
		jsonschema.InterceptSchema(func(p jsonschema.InterceptSchemaParams) (bool, error) {
			call := hookCall{Hook: "schema", Done: p.Processed}
			if p.Value.IsValid() {
				call.Type = p.Value.Type()
			}

			return false, see(p.Context, call)
		}),
		jsonschema.InterceptProp(func(p jsonschema.InterceptPropParams) error {
			return see(p.Context, hookCall{Hook: "property", Done: p.Processed, Field: p.Field.Name, Name: p.Name, Type: p.Field.Type})
		}),
		jsonschema.InterceptNullability(func(p jsonschema.InterceptNullabilityParams) {
			_ = see(p.Context, hookCall{Hook: "nullability", Type: p.Type})
		}),
	)

	return r
}

func sameUnits(what string, want []unitDesc, got []openapi.ContentUnit) error {
	if len(want) != len(got) {
		return fmt.Errorf("%s: %d structures added, operation reports %d", what, len(want), len(got))
	}

	for i, u := range want {
		w, g := u.contentUnit(), got[i]

		if !sameIface(w.Structure, g.Structure) || w.ContentType != g.ContentType || w.HTTPStatus != g.HTTPStatus || w.IsDefault != g.IsDefault || w.Description != g.Description || w.Format != g.Format {
			return fmt.Errorf("%s %d: operation reports %+v, added is %+v", what, i, g, w)
		}

		for _, in := range []openapi.In{openapi.InPath, openapi.InQuery, openapi.InHeader, openapi.InCookie, openapi.InFormData} {
			if !sameMap(w.FieldMapping(in), g.FieldMapping(in)) {
				return fmt.Errorf("%s %d: operation reports %s mapping %v, added is %v", what, i, in, g.FieldMapping(in), w.FieldMapping(in))
			}
		}
	}

	return nil
}

// exposes tells if a structure of the operation has a schema of its own, hooks are not called for it.
func exposes(o opDesc, resp bool) bool {
	units := o.Req
	if resp {
		units = o.Resp
	}

	for _, u := range units {
		if t := u.T.Type(); t != nil {
			v := reflect.New(indirect(t)).Interface()

			_, a := v.(jsonschema.Exposer)
			_, b := v.(jsonschema.RawExposer)

			if a || b {
				return true
			}
		}
	}

	return false
}

func runC22(c opsCase, st *h.Stats) error {
	var (
		calls   []hookCall
		current *opDesc
		failure error
		checked int
	)

	r := hooked(c, func(rc *jsonschema.ReflectContext, call hookCall) error {
		oc, ok := openapi.OperationCtx(rc)
		if ok {
			call.Op, call.Part = true, part{oc.IsProcessingResponse(), oc.ProcessingIn()}
		}

		calls = append(calls, call)

		switch {
		case failure != nil:
		case current == nil && ok:
			failure = fmt.Errorf("%s hook outside of operation is given %s %s", call.Hook, oc.Method(), oc.PathPattern())
		case current != nil && ok:
			o := *current
			wantPath := o.Path

			if _, clean, _, err := openapi.SanitizeMethodPath(o.Method, o.Path); err == nil {
				wantPath = clean
			}

			if !strings.EqualFold(oc.Method(), o.Method) || oc.PathPattern() != wantPath {
				failure = fmt.Errorf("%s hook is given operation %s %s while %s %s is being added", call.Hook, oc.Method(), oc.PathPattern(), o.Method, o.Path)
			}

			// Content does not change between calls.
			if checked++; failure == nil && checked%8 == 1 {
				if failure = sameUnits("request", o.Req, oc.Request()); failure == nil {
					failure = sameUnits("response", o.Resp, oc.Response())
				}
			}

			if failure == nil && (oc.ID() != o.ID || oc.Summary() != o.Summary || oc.Description() != o.Desc || oc.IsDeprecated() != o.Deprecated || strings.Join(oc.Tags(), "\n") != strings.Join(o.Tags, "\n")) {
				failure = fmt.Errorf("%s hook is given operation details %q, %q, %q, %v, %q instead of those of %+v",
					call.Hook, oc.ID(), oc.Summary(), oc.Description(), oc.IsDeprecated(), oc.Tags(), o)
			}
		}

		return nil
	})

	outside := func() error {
		current = nil
		n := len(calls)

		if _, err := r.JSONSchemaReflector().Reflect(zoo.Doc{}); err != nil {
			return fmt.Errorf("reflect outside of operation: %w", err)
		}

		if len(calls) == n {
			return fmt.Errorf("no hook is called outside of operation")
		}

		return failure
	}

	if err := outside(); err != nil {
		return err
	}

	for i := range c.Ops {
		o := c.Ops[i]
		current, calls, checked = &o, nil, 0

		err := o.register(r)
		seen := calls

		if failure != nil {
			return fmt.Errorf("operation %d: %w", i, failure)
		}

		if e := outside(); e != nil {
			return fmt.Errorf("after operation %d: %w", i, e)
		}

		// Nothing is reflected in a part where it does not belong.
		can := reach{fields: map[string]parts{}, types: map[reflect.Type]parts{}, whole: map[reflect.Type]parts{}}
		for _, u := range o.Req {
			can.unit(u, false)
		}

		for _, u := range o.Resp {
			can.unit(u, true)
		}

		for _, s := range seen {
			if !s.Op {
				continue
			}

			st.Class(fmt.Sprintf("%s hook in response=%v %s", s.Hook, s.Part.Resp, s.Part.In))

			if p, ok := can.fields[s.Field]; ok && s.Hook == "property" && !can.loose && !p[s.Part] {
				return fmt.Errorf("operation %d: hook for field %s %s (%s) is told that %+v is processed, possible are %v", i, s.Field, s.Type, s.Name, s.Part, p)
			}

			t := indirect(s.Type)
			if p, ok := can.types[t]; t != nil && ok && t.Kind() == reflect.Struct && t.PkgPath() != "" && !can.loose && !p[s.Part] {
				return fmt.Errorf("operation %d: %s hook for %s is told that %+v is processed, possible are %v", i, s.Hook, s.Type, s.Part, p)
			}
		}

		if err != nil {
			st.Class("rejected")

			continue
		}

		// Everything documented is reflected in its part.
		has := func(hook, name string, p part) bool {
			for _, s := range seen {
				if s.Op && s.Hook == hook && (name == "" || s.Name == name || p.In == "header" && http.CanonicalHeaderKey(s.Name) == http.CanonicalHeaderKey(name)) && s.Part == p && (hook == "schema" || s.Done) {
					return true
				}
			}

			return false
		}

		doc := docOf(r)
		method, path := strings.ToLower(o.Method), o.Path

		if !o.Webhook {
			var perr error

			method, path, _, perr = openapi.SanitizeMethodPath(o.Method, o.Path)
			h.Must(perr, "path")
		}

		op := findOp(doc, o.Webhook, path, method)

		for _, pa := range asList(op["parameters"]) {
			m := asMap(pa)
			name, _ := m["name"].(string)
			in, _ := m["in"].(string)

			if !has("property", name, part{false, openapi.In(in)}) {
				return fmt.Errorf("operation %d: no hook call for parameter %q in %s: %+v", i, name, in, seen)
			}

			st.Class("parameter")
		}

		body := func(what string, content interface{}, resp bool) error {
			for mt, v := range asMap(content) {
				s := asMap(get(v, "schema"))

				if s["$ref"] != nil && !exposes(o, resp) && !has("schema", "", part{resp, "body"}) {
					return fmt.Errorf("operation %d: no hook call for %s %s", i, what, mt)
				}

				for name := range asMap(s["properties"]) {
					if !has("property", name, part{resp, "body"}) {
						return fmt.Errorf("operation %d: no hook call for property %q of %s %s", i, name, what, mt)
					}
				}

				st.Class(what)
			}

			return nil
		}

		if err := body("request body", get(op, "requestBody", "content"), false); err != nil {
			return err
		}

		for _, resp := range asMap(op["responses"]) {
			if err := body("response body", get(resp, "content"), true); err != nil {
				return err
			}

			for name := range asMap(get(resp, "headers")) {
				if !has("property", name, part{true, "header"}) {
					return fmt.Errorf("operation %d: no hook call for response header %q", i, name)
				}

				st.Class("response header")
			}
		}

		st.NonTrivialIf(len(seen) > 0)
	}

	return nil
}

func init() {
	p := h.Register("C22", "Custom schema hooks see which operation part is being reflected",
		"Reflections that the reflector makes to find out whether there is a body at all have no operation and are not counted.",
		"Form bodies are reported as body.")

	h.Add(p, "operations", "at least one hook call; sequences of operations with schema, property and nullability hooks",
		8000, 400000, genOps(1, 3, true), runC22)
}
