package props

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
	"pgregory.net/rapid"
	"verif/pbt/internal/docgen"
	"verif/pbt/internal/h"
	"verif/pbt/internal/jsv"
)

// setter is a method of an entity that sets a member.
type setter struct {
	Name  string
	Kind  string // with, item, ens
	Field int
}

type entity struct {
	Type    reflect.Type
	Setters []setter
}

var (
	entities30 = collectEntities(reflect.TypeOf(openapi3.Spec{}))
	entities31 = collectEntities(reflect.TypeOf(openapi31.Spec{}))
)

func entitiesOf(is31 bool) map[string]entity {
	if is31 {
		return entities31
	}

	return entities30
}

// collectEntities finds all entities reachable from a type, with their setters.
func collectEntities(root reflect.Type) map[string]entity {
	res := map[string]entity{}

	var walk func(t reflect.Type)

	walk = func(t reflect.Type) {
		for t.Kind() == reflect.Ptr || t.Kind() == reflect.Map || t.Kind() == reflect.Slice {
			t = t.Elem()
		}

		if _, ok := res[t.Name()]; ok || t.Kind() != reflect.Struct || t.PkgPath() != root.PkgPath() {
			return
		}

		e := entity{Type: t}
		pt := reflect.PtrTo(t)

		for i := 0; i < pt.NumMethod(); i++ {
			m := pt.Method(i)

			for j := 0; j < t.NumField(); j++ {
				f := t.Field(j)

				switch {
				case m.Name == "With"+f.Name && m.Type.NumIn() == 2:
					e.Setters = append(e.Setters, setter{Name: m.Name, Kind: "with", Field: j})
				case m.Name == "With"+f.Name+"Item" && f.Type.Kind() == reflect.Map && m.Type.NumIn() == 3:
					e.Setters = append(e.Setters, setter{Name: m.Name, Kind: "item", Field: j})
				case m.Name == f.Name+"Ens" && m.Type.NumIn() == 1:
					e.Setters = append(e.Setters, setter{Name: m.Name, Kind: "ens", Field: j})
				}
			}
		}

		res[t.Name()] = e

		for i := 0; i < t.NumField(); i++ {
			walk(t.Field(i).Type)
		}
	}

	walk(root)

	return res
}

// fill draws a value of a type.
func fill(r *rand.Rand, t reflect.Type, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	words := []string{"a", "b", "x-a", "200", "/a", "get", "", "Foo", "http://a.b/", "key with space", "path", "query"}

	switch t.Kind() {
	case reflect.Ptr:
		if depth > 0 && r.Intn(3) > 0 {
			n := reflect.New(t.Elem())
			n.Elem().Set(fill(r, t.Elem(), depth-1))
			v.Set(n)
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if r.Intn(3) == 0 || depth > 2 {
				v.Field(i).Set(fill(r, t.Field(i).Type, depth-1))
			}
		}
	case reflect.Map:
		if depth > 0 && r.Intn(4) > 0 {
			v.Set(reflect.MakeMap(t))
			for n := r.Intn(3); n > 0; n-- {
				v.SetMapIndex(reflect.ValueOf(words[r.Intn(len(words))]).Convert(t.Key()), fill(r, t.Elem(), depth-1))
			}
		}
	case reflect.Slice:
		if depth > 0 && r.Intn(4) > 0 {
			n := r.Intn(3)
			v.Set(reflect.MakeSlice(t, n, n+r.Intn(2)))

			for i := 0; i < n; i++ {
				v.Index(i).Set(fill(r, t.Elem(), depth-1))
			}
		}
	case reflect.String:
		v.SetString(words[r.Intn(len(words))])
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int64, reflect.Int:
		v.SetInt(int64(r.Intn(100) - 50))
	case reflect.Float64:
		v.SetFloat(float64(r.Intn(100)) / 4)
	case reflect.Interface:
		if t == anyType {
			switch r.Intn(5) {
			case 0:
			case 1:
				v.Set(reflect.ValueOf(words[r.Intn(len(words))]))
			case 2:
				v.Set(reflect.ValueOf(r.Intn(10)))
			case 3:
				v.Set(reflect.ValueOf(map[string]interface{}{"a": r.Intn(10)}))
			default:
				v.Set(reflect.ValueOf([]interface{}{r.Intn(10)}))
			}
		}
	}

	return v
}

type setCall struct {
	Method string `json:"method"`
	Key    string `json:"key,omitempty"`
	Seed   int    `json:"seed"`
	N      int    `json:"n,omitempty"`
}

type setCase struct {
	V31   bool      `json:"v31"`
	Ent   string    `json:"ent"`
	Init  int       `json:"init"`
	Calls []setCall `json:"calls"`
}

// sameValue compares values; nil and empty lists and maps are the same.
func sameValue(a, b reflect.Value) bool {
	if (a.Kind() == reflect.Slice || a.Kind() == reflect.Map) && a.Len() == 0 && b.Len() == 0 {
		return true
	}

	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func diffStruct(want, got reflect.Value) string {
	for i := 0; i < want.NumField(); i++ {
		if !sameValue(want.Field(i), got.Field(i)) {
			return fmt.Sprintf("%s: want %s, got %s", want.Type().Field(i).Name, goText(want.Field(i)), goText(got.Field(i)))
		}
	}

	return ""
}

func goText(v reflect.Value) string {
	if v.Kind() == reflect.Ptr && !v.IsNil() {
		return "&" + goText(v.Elem())
	}

	return cut(fmt.Sprintf("%#v", v.Interface()))
}

func runSetters(c setCase, st *h.Stats) error {
	e, ok := entitiesOf(c.V31)[c.Ent]
	if !ok {
		panic(h.HarnessError{Msg: "unknown entity " + c.Ent})
	}

	build := func() reflect.Value {
		r := rand.New(rand.NewSource(int64(c.Init)))
		v := reflect.New(e.Type)

		if c.Init > 0 {
			v.Elem().Set(fill(r, e.Type, 3))
		}

		return v
	}

	got, want := build(), build()
	setters := map[string]setter{}

	for _, s := range e.Setters {
		setters[s.Name] = s
	}

	for i, call := range c.Calls {
		s, ok := setters[call.Method]
		if !ok {
			continue
		}

		m := got.MethodByName(s.Name)
		ft := e.Type.Field(s.Field).Type
		wf := want.Elem().Field(s.Field)
		gf := got.Elem().Field(s.Field)
		what := fmt.Sprintf("call %d: %s.%s", i, c.Ent, s.Name)

		// arg draws the same argument twice: for the call and for the model.
		arg := func(t reflect.Type, n int) (reflect.Value, reflect.Value) {
			return fill(rand.New(rand.NewSource(int64(call.Seed+n))), t, 3), fill(rand.New(rand.NewSource(int64(call.Seed+n))), t, 3)
		}

		st.Class(s.Kind)
		st.NonTrivial()

		var out []reflect.Value

		switch s.Kind {
		case "with":
			if m.Type().IsVariadic() {
				var in []reflect.Value

				et := m.Type().In(0).Elem()
				l := reflect.MakeSlice(reflect.SliceOf(et), 0, call.N)

				for j := 0; j < call.N; j++ {
					a, b := arg(et, j)
					in = append(in, a)
					l = reflect.Append(l, b)
				}

				out = m.Call(in)

				wf.Set(l.Convert(ft))
			} else {
				at := m.Type().In(0)
				a, b := arg(at, 0)
				out = m.Call([]reflect.Value{a})

				switch {
				case at == ft:
					wf.Set(b)
				case ft.Kind() == reflect.Ptr && ft.Elem() == at:
					p := reflect.New(at)
					p.Elem().Set(b)
					wf.Set(p)
				default:
					return fmt.Errorf("%s takes %s for a member of type %s", what, at, ft)
				}
			}
		case "item":
			a, b := arg(m.Type().In(1), 0)
			if m.Type().In(1) != ft.Elem() {
				return fmt.Errorf("%s takes %s for items of type %s", what, m.Type().In(1), ft.Elem())
			}

			out = m.Call([]reflect.Value{reflect.ValueOf(call.Key).Convert(m.Type().In(0)), a})

			if wf.IsNil() {
				wf.Set(reflect.MakeMap(ft))
			}

			wf.SetMapIndex(reflect.ValueOf(call.Key).Convert(ft.Key()), b)
		case "ens":
			var before uintptr

			if gf.Kind() == reflect.Ptr {
				before = gf.Pointer()
			}

			out = m.Call(nil)

			if wf.Kind() == reflect.Ptr && wf.IsNil() {
				wf.Set(reflect.New(ft.Elem()))
			}

			if len(out) != 1 || out[0].Kind() != reflect.Ptr {
				return fmt.Errorf("%s does not return the member", what)
			}

			if gf.Kind() == reflect.Ptr {
				if before != 0 && gf.Pointer() != before {
					return fmt.Errorf("%s replaces the existing member", what)
				}

				if out[0].Pointer() != gf.Pointer() {
					return fmt.Errorf("%s returns something else than the member", what)
				}
			} else if out[0].Pointer() != gf.Addr().Pointer() {
				return fmt.Errorf("%s returns something else than the member", what)
			}

			st.ClassIf(before != 0, "ens-existing")
		}

		if s.Kind != "ens" && (len(out) != 1 || out[0].Kind() != reflect.Ptr || out[0].Pointer() != got.Pointer()) {
			return fmt.Errorf("%s does not return the receiver", what)
		}

		if d := diffStruct(want.Elem(), got.Elem()); d != "" {
			return fmt.Errorf("%s: %s", what, d)
		}
	}

	return nil
}

// Building entities from JSON data with setters only.

type builder struct {
	r    *rand.Rand
	v31  bool
	used map[string]int
}

var timesRe = regexp.MustCompile(`[^a-z0-9]`)

func normName(s string) string { return timesRe.ReplaceAllString(strings.ToLower(s), "") }

// memberSetter finds the method that sets the member the specification calls key.
func memberSetter(p reflect.Value, key string) (reflect.Value, string) {
	names := []string{normName(key)}
	if key == "operationId" && p.Elem().Type().Name() == "Operation" {
		names = append(names, "id")
	}

	t := p.Type()

	for i := 0; i < t.NumMethod(); i++ {
		n := t.Method(i).Name
		if !strings.HasPrefix(n, "With") || t.Method(i).Type.NumIn() != 2 {
			continue
		}

		for _, w := range names {
			if normName(n[4:]) == w {
				return p.Method(i), n
			}
		}
	}

	return reflect.Value{}, ""
}

func isEntityType(t reflect.Type) bool {
	return t.Kind() == reflect.Struct && strings.HasPrefix(t.PkgPath(), "github.com/swaggest/openapi-go/openapi3")
}

func (b *builder) fromJSON(t reflect.Type, data interface{}) (reflect.Value, error) {
	v := reflect.New(t)

	if t.Kind() == reflect.Ptr {
		e, err := b.fromJSON(t.Elem(), data)
		if err != nil {
			return v, err
		}

		v.Elem().Set(reflect.New(t.Elem()))
		v.Elem().Elem().Set(e)

		return v.Elem(), nil
	}

	switch {
	case isEntityType(t):
		err := b.entity(v, data)

		return v.Elem(), err
	case t.Kind() == reflect.Slice && isEntityType(t.Elem()):
		for _, e := range data.([]interface{}) {
			x, err := b.fromJSON(t.Elem(), e)
			if err != nil {
				return v, err
			}

			v.Elem().Set(reflect.Append(v.Elem(), x))
		}

		return v.Elem(), nil
	case t.Kind() == reflect.Map && isEntityType(t.Elem()):
		v.Elem().Set(reflect.MakeMap(t))

		for k, e := range data.(map[string]interface{}) {
			x, err := b.fromJSON(t.Elem(), e)
			if err != nil {
				return v, err
			}

			v.Elem().SetMapIndex(reflect.ValueOf(k).Convert(t.Key()), x)
		}

		return v.Elem(), nil
	}

	err := json.Unmarshal(rawJSON(data), v.Interface())

	return v.Elem(), err
}

func (b *builder) call(m reflect.Value, args ...reflect.Value) {
	m.Call(args)
}

// set calls a setter with data.
func (b *builder) set(p, m reflect.Value, name string, data interface{}) error {
	b.used[p.Elem().Type().Name()+"."+name]++

	at := m.Type().In(0)

	// Whole maps or item by item.
	if mm, ok := data.(map[string]interface{}); ok && at.Kind() == reflect.Map && b.r.Intn(2) == 0 {
		if im := p.MethodByName(name + "Item"); im.IsValid() && len(mm) > 0 {
			b.used[p.Elem().Type().Name()+"."+name+"Item"]++

			for _, k := range h.SortedKeys(mm) {
				x, err := b.fromJSON(im.Type().In(1), mm[k])
				if err != nil {
					return err
				}

				im.Call([]reflect.Value{reflect.ValueOf(k).Convert(im.Type().In(0)), x})
			}

			return nil
		}
	}

	if m.Type().IsVariadic() {
		x, err := b.fromJSON(at, data)
		if err != nil {
			return err
		}

		m.CallSlice([]reflect.Value{x})

		return nil
	}

	// The accessor that creates the member.
	if em := p.MethodByName(strings.TrimPrefix(name, "With") + "Ens"); em.IsValid() && b.r.Intn(2) == 0 {
		b.used[p.Elem().Type().Name()+"."+strings.TrimPrefix(name, "With")+"Ens"]++

		if out := em.Call(nil)[0]; isEntityType(out.Type().Elem()) {
			return b.entity(out, data)
		}
	}

	x, err := b.fromJSON(at, data)
	if err != nil {
		return err
	}

	b.call(m, x)

	return nil
}

// entity fills an entity (given by pointer) from JSON data.
func (b *builder) entity(p reflect.Value, data interface{}) error {
	t := p.Elem().Type()

	if t.Name() == "SchemaAdditionalProperties" {
		if x, ok := data.(bool); ok {
			p.Interface().(*openapi3.SchemaAdditionalProperties).WithBool(x)

			return nil
		}

		var s openapi3.SchemaOrRef
		if err := b.entity(reflect.ValueOf(&s), data); err != nil {
			return err
		}

		p.Interface().(*openapi3.SchemaAdditionalProperties).WithSchemaOrRef(s)

		return nil
	}

	m, ok := data.(map[string]interface{})
	if !ok {
		return fmt.Errorf("%s from %s", t, js(data))
	}

	// Reference or value.
	if strings.HasSuffix(t.Name(), "OrRef") || strings.HasSuffix(t.Name(), "OrReference") {
		base := strings.TrimSuffix(strings.TrimSuffix(t.Name(), "OrReference"), "OrRef")
		name := "With" + base

		if _, isRef := m["$ref"]; isRef {
			name = "With" + base + "Reference"
			if b.v31 {
				name = "WithReference"
			}
		}

		mt := p.MethodByName(name)
		if !mt.IsValid() {
			return fmt.Errorf("%s has no %s", t, name)
		}

		return b.set(p, mt, name, data)
	}

	// Kinds of security schemes.
	if t.Name() == "SecurityScheme" {
		name := ""

		switch m["type"] {
		case "apiKey":
			name = "WithAPIKeySecurityScheme"
		case "http":
			name = "WithHTTPSecurityScheme"
		case "oauth2":
			name = "WithOAuth2SecurityScheme"
		case "openIdConnect":
			name = "WithOpenIDConnectSecurityScheme"
		}

		if b.v31 {
			rest := map[string]interface{}{}

			for k, v := range m {
				switch {
				case k == "type":
				case k == "description":
					p.Interface().(*openapi31.SecurityScheme).WithDescription(v.(string))
				case strings.HasPrefix(k, "x-"):
					p.Interface().(*openapi31.SecurityScheme).WithMapOfAnythingItem(k, plain(v))
				default:
					rest[k] = v
				}
			}

			data = rest

			switch m["type"] {
			case "apiKey":
				name = "WithAPIKey"
			case "http":
				name = "WithHTTP"
				if _, ok := m["bearerFormat"]; ok || strings.EqualFold(m["scheme"].(string), "bearer") && b.r.Intn(2) == 0 {
					name = "WithHTTPBearer"
				}
			case "oauth2":
				name = "WithOauth2"
			case "openIdConnect":
				name = "WithOidc"
			case "mutualTLS":
				name = "WithMutualTLS"
			}
		}

		mt := p.MethodByName(name)
		if !mt.IsValid() {
			return fmt.Errorf("%s has no %s", t, name)
		}

		return b.set(p, mt, name, data)
	}

	keys := h.SortedKeys(m)
	b.r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })

	for _, k := range keys {
		if k == "type" && (strings.HasSuffix(t.Name(), "SecurityScheme")) {
			continue // Constant.
		}

		if k == "style" && t.Name() == "Header" {
			continue // Constant.
		}

		if mt, name := memberSetter(p, k); mt.IsValid() {
			if err := b.set(p, mt, name, m[k]); err != nil {
				return fmt.Errorf("%s: %w", name, err)
			}

			continue
		}

		// Map of pattern members.
		prefix := "WithMapOf"
		if strings.HasPrefix(k, "x-") && !strings.HasPrefix(t.Name(), "Components") || k == "x-a" && t.Name() == "Components" || t.Name() == "Components" {
			prefix = "WithMapOfAnything"
		}

		var names []string

		for i := 0; i < p.NumMethod(); i++ {
			n := p.Type().Method(i).Name
			if (strings.HasPrefix(n, prefix) || n == "WithAdditionalPropertiesItem") && strings.HasSuffix(n, "Item") {
				if prefix == "WithMapOf" && n == "WithMapOfAnythingItem" {
					continue
				}

				names = append(names, n)
			}
		}

		sort.Strings(names) // MapOf... after AdditionalProperties
		if len(names) == 0 {
			return fmt.Errorf("%s has no setter for %q", t, k)
		}

		name := names[len(names)-1]
		mt := p.MethodByName(name)
		b.used[t.Name()+"."+name]++

		x, err := b.fromJSON(mt.Type().In(1), m[k])
		if err != nil {
			return err
		}

		if mt.Type().In(1) == anyType && !x.IsValid() {
			x = reflect.Zero(anyType)
		}

		mt.Call([]reflect.Value{reflect.ValueOf(k).Convert(mt.Type().In(0)), x})
	}

	return nil
}

func plain(v interface{}) interface{} {
	var r interface{}

	h.Must(json.Unmarshal(rawJSON(v), &r), "plain")

	return r
}

type buildCase struct {
	V31  bool            `json:"v31"`
	Ent  string          `json:"ent"`
	Doc  json.RawMessage `json:"doc"`
	Seed int             `json:"seed"`
}

type helperCase struct {
	V31    bool   `json:"v31"`
	Method string `json:"method"`
	Ref    string `json:"ref"`
	Seed   int    `json:"seed"`
}

// runHelpers checks the convenience setters that are not named after a member.
func runHelpers(c helperCase, st *h.Stats) error {
	r := rand.New(rand.NewSource(int64(c.Seed)))
	known := isHTTPMethod(asciiLower(c.Method))

	st.NonTrivialIf(known)
	st.ClassIf(known, "known-method")
	st.ClassIf(c.V31, "3.1")

	if !c.V31 {
		var rb openapi3.RequestBodyOrRef

		rb.SetReference(c.Ref)

		if err := eqStr("SetReference of request body", openapi3.RequestBodyOrRef{RequestBodyReference: &openapi3.RequestBodyReference{Ref: c.Ref}}, rb); err != nil {
			return err
		}

		var rs openapi3.ResponseOrRef

		rs.SetReference(c.Ref)

		if err := eqStr("SetReference of response", openapi3.ResponseOrRef{ResponseReference: &openapi3.ResponseReference{Ref: c.Ref}}, rs); err != nil {
			return err
		}

		p := fill(r, reflect.TypeOf(openapi3.Parameter{}), 3).Interface().(openapi3.Parameter)
		pr := p.ToParameterOrRef()

		if pr.ParameterReference != nil || pr.Parameter == nil || !reflect.DeepEqual(*pr.Parameter, p) {
			return fmt.Errorf("ToParameterOrRef of %#v gives %#v", p, pr)
		}

		if !known {
			return nil
		}

		pi := fill(r, reflect.TypeOf(openapi3.PathItem{}), 3).Interface().(openapi3.PathItem)
		op := fill(r, reflect.TypeOf(openapi3.Operation{}), 2).Interface().(openapi3.Operation)

		want := map[string]openapi3.Operation{}
		for k, v := range pi.MapOfOperationValues {
			want[k] = v
		}

		want[asciiLower(c.Method)] = op
		cp := pi

		if pi.WithOperation(c.Method, op) != &pi {
			return fmt.Errorf("WithOperation does not return the receiver")
		}

		cp.MapOfOperationValues = want

		if d := diffStruct(reflect.ValueOf(cp), reflect.ValueOf(pi)); d != "" {
			return fmt.Errorf("WithOperation(%q): %s", c.Method, d)
		}

		return nil
	}

	var rb openapi31.RequestBodyOrReference

	rb.SetReference(c.Ref)

	if err := eqStr("SetReference of request body", openapi31.RequestBodyOrReference{Reference: &openapi31.Reference{Ref: c.Ref}}, rb); err != nil {
		return err
	}

	var rs openapi31.ResponseOrReference

	rs.SetReference(c.Ref)

	if err := eqStr("SetReference of response", openapi31.ResponseOrReference{Reference: &openapi31.Reference{Ref: c.Ref}}, rs); err != nil {
		return err
	}

	p := fill(r, reflect.TypeOf(openapi31.Parameter{}), 3).Interface().(openapi31.Parameter)
	pr := p.ToParameterOrRef()

	if pr.Reference != nil || pr.Parameter == nil || !reflect.DeepEqual(*pr.Parameter, p) {
		return fmt.Errorf("ToParameterOrRef of %#v gives %#v", p, pr)
	}

	pi := fill(r, reflect.TypeOf(openapi31.PathItem{}), 3).Interface().(openapi31.PathItem)
	op := fill(r, reflect.TypeOf(openapi31.Operation{}), 2).Interface().(openapi31.Operation)
	want := pi

	err := pi.SetOperation(c.Method, &op)
	if (err == nil) != known {
		return fmt.Errorf("SetOperation(%q): %v", c.Method, err)
	}

	if known {
		reflect.ValueOf(&want).Elem().FieldByName(strings.ToUpper(c.Method[:1]) + asciiLower(c.Method[1:])).Set(reflect.ValueOf(&op))
	}

	if d := diffStruct(reflect.ValueOf(want), reflect.ValueOf(pi)); d != "" {
		return fmt.Errorf("SetOperation(%q): %s", c.Method, d)
	}

	o, err := pi.Operation(c.Method)
	if (err == nil) != known || known && o != &op || !known && o != nil {
		return fmt.Errorf("Operation(%q): %v, %v", c.Method, o, err)
	}

	for _, m := range []string{http.MethodGet, http.MethodPut, http.MethodPost, http.MethodDelete, http.MethodOptions, http.MethodHead, http.MethodPatch, http.MethodTrace} {
		o, err := pi.Operation(m)
		if err != nil {
			return fmt.Errorf("Operation(%q): %w", m, err)
		}

		f := reflect.ValueOf(pi).FieldByName(m[:1] + strings.ToLower(m[1:])).Interface().(*openapi31.Operation)
		if f != o {
			return fmt.Errorf("Operation(%q) returns an operation of another method", m)
		}
	}

	if x := pi.PathItemOrReference(); x.Reference != nil || x.PathItem != &pi {
		return fmt.Errorf("PathItemOrReference gives %#v", x)
	}

	return nil
}

func init() {
	p := h.Register("C06", "Entity setters set the named member and nothing else")

	h.Add(p, "calls", "sequences of one to eight setter, item setter and Ens calls on an empty or filled entity of any type of both packages, compared with a model after each call; non-trivial when at least one call is made", 400000, 6000000,
		func(t *rapid.T) setCase {
			c := setCase{V31: chance(t, 40)}
			es := entitiesOf(c.V31)

			var names []string

			for _, n := range h.SortedKeys(es) {
				if len(es[n].Setters) > 0 {
					names = append(names, n)
				}
			}

			c.Ent = pick(t, names)
			if chance(t, 60) {
				c.Init = drawInt(t, 1, 1000000)
			}

			e := es[c.Ent]

			for n := drawInt(t, 1, 8); n > 0; n-- {
				s := pick(t, e.Setters)
				c.Calls = append(c.Calls, setCall{Method: s.Name, Key: pick(t, []string{"a", "b", "x-a", "200", "/a", "get", ""}), Seed: drawInt(t, 0, 1000000), N: drawInt(t, 0, 3)})
			}

			return c
		}, runSetters)

	h.Add(p, "saved", "a generated document or entity is built with setters only (whole maps or item by item, values or Ens accessors, in any order) and saved; non-trivial when it has more than 5 members", 200000, 3000000,
		func(t *rapid.T) buildCase {
			c := buildCase{V31: chance(t, 50), Seed: drawInt(t, 0, 1000000)}
			dc := genDoc(t, ver(c.V31), 30)
			c.Ent, c.Doc = dc.Ent, dc.Doc

			return c
		},
		func(c buildCase, st *h.Stats) error {
			v := ver(c.V31)

			d, err := jsv.Parse(c.Doc)
			h.Must(err, "parse")

			b := builder{r: rand.New(rand.NewSource(int64(c.Seed))), v31: c.V31, used: map[string]int{}}
			e := v.Ents[c.Ent]()

			if err := b.entity(reflect.ValueOf(e), d); err != nil {
				return fmt.Errorf("building %s: %w", c.Ent, err)
			}

			st.NonTrivialIf(sizeOf(d) > 5)
			st.ClassIf(len(b.used) > 10, "more-than-10-setters")
			st.Class(c.Ent)

			out, err := json.Marshal(e)
			if err != nil {
				return fmt.Errorf("saving fails: %w", err)
			}

			got, err := jsv.Parse(out)
			if err != nil {
				return err
			}

			ty := docgen.EntTy(c.Ent)

			return diffErr("built with setters", v.Gr.Canon(ty, d), v.Gr.Canon(ty, got))
		})

	h.Add(p, "helpers", "path item, reference and parameter helpers over any method spelling and filled entities; non-trivial when the method is one of OpenAPI", 100000, 300000,
		func(t *rapid.T) helperCase {
			c := helperCase{V31: chance(t, 50), Ref: pick(t, []string{"#/components/responses/A", "a.yaml", "", "#/components/requestBodies/B"}), Seed: drawInt(t, 0, 1000000)}
			if chance(t, 75) {
				c.Method = genMethodSpelling(t, pick(t, httpMethods))
			} else {
				c.Method = genBadMethod(t)
			}

			return c
		}, runHelpers)
}
