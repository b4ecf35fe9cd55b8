package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi31"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
	"verif/pbt/internal/jsv"
)

// c15case is a set of operations with another order of registration.
type c15case struct {
	opsCase
	Order []int `json:"order"`
}

// registerIn registers operations in the given order.
func (c opsCase) registerIn(order []int) (doc map[string]interface{}, raw []byte, errs map[int]string) {
	r := c.reflector(c.Is31)
	errs = map[int]string{}

	for _, i := range order {
		if err := c.Ops[i].register(r); err != nil {
			errs[i] = err.Error()
		}
	}

	raw, err := json.Marshal(r.SpecSchema())
	if err != nil {
		panic(err)
	}

	return docOf(r), raw, errs
}

func sameNames(doc map[string]interface{}) bool {
	for k := range asMap(get(doc, "components", "schemas")) {
		if strings.Contains(k, "Type2") {
			return true
		}
	}

	return false
}

func runC15(c c15case, st *h.Stats) error {
	plain := make([]int, len(c.Ops))
	for i := range plain {
		plain[i] = i
	}

	doc, raw, errs := c.registerIn(plain)
	_, again, _ := c.registerIn(plain)

	if !bytes.Equal(raw, again) {
		return fmt.Errorf("built twice, the document differs\nfirst:  %s\nsecond: %s", cut(string(raw)), cut(string(again)))
	}

	other, otherRaw, otherErrs := c.registerIn(c.Order)

	for i := range c.Ops {
		if (errs[i] == "") != (otherErrs[i] == "") {
			return fmt.Errorf("operation %d: error %q in one order, %q in another", i, errs[i], otherErrs[i])
		}
	}

	moved := false
	for i, j := range c.Order {
		moved = moved || i != j
	}

	if sameNames(doc) || sameNames(other) {
		st.Class("types of the same name")

		for _, k := range []string{"paths", "webhooks"} {
			if len(asMap(doc[k])) == 0 && len(asMap(other[k])) == 0 {
				continue
			}

			if d := simDiff(doc, doc[k], other, other[k]); d != "" {
				return fmt.Errorf("order %v: %s: %s", c.Order, k, d)
			}
		}
	} else if !bytes.Equal(raw, otherRaw) {
		return fmt.Errorf("order %v changes the document: %s", c.Order, jsv.Diff(doc, other))
	}

	for i, o := range c.Ops {
		if errs[i] != "" {
			continue
		}

		alone, _, aloneErrs := c.registerIn([]int{i})
		if aloneErrs[i] != "" {
			return fmt.Errorf("operation %d alone fails: %s", i, aloneErrs[i])
		}

		m := newModel(c.Is31, c.Fmts)
		e, _ := m.operation(o)

		a, b := findOp(alone, o.Webhook, e.path, e.method), findOp(doc, o.Webhook, e.path, e.method)
		if a == nil || b == nil {
			return fmt.Errorf("operation %d is missing", i)
		}

		if d := simDiff(alone, interface{}(a), doc, interface{}(b)); d != "" {
			return fmt.Errorf("operation %d reads different with others (first alone): %s", i, d)
		}
	}

	st.NonTrivialIf(moved && len(c.Ops) > 1 && len(asMap(get(doc, "components", "schemas"))) > 0)
	st.ClassIf(c.Is31, "3.1")
	st.ClassIf(len(errs) > 0, "a rejected operation")

	return nil
}

// fill populates a value.
func populate(v reflect.Value, depth int) {
	if depth > 4 {
		return
	}

	switch v.Kind() {
	case reflect.Ptr:
		if v.CanSet() {
			v.Set(reflect.New(v.Type().Elem()))
			populate(v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				populate(v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 1, 3))
		populate(v.Index(0), depth+1)
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))

		if v.Type().Key().Kind() == reflect.String {
			e := reflect.New(v.Type().Elem()).Elem()
			populate(e, depth+1)
			v.SetMapIndex(reflect.ValueOf("k").Convert(v.Type().Key()), e)
		}
	case reflect.String:
		v.SetString("text")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(7)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(7)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(1.5)
	case reflect.Bool:
		v.SetBool(true)
	}
}

type unitState struct {
	Structure                 string
	ContentType, Format, Desc string
	Status                    int
	Default                   bool
	Maps                      string
}

func stateOf(l []openapi.ContentUnit) []unitState {
	var res []unitState

	for _, cu := range l {
		maps := map[openapi.In]map[string]string{}

		for _, in := range []openapi.In{openapi.InQuery, openapi.InPath, openapi.InCookie, openapi.InHeader, openapi.InFormData} {
			maps[in] = cu.FieldMapping(in)
		}

		res = append(res, unitState{
			Structure: dump(reflect.ValueOf(cu.Structure), 0), ContentType: cu.ContentType, Format: cu.Format, Desc: cu.Description,
			Status: cu.HTTPStatus, Default: cu.IsDefault, Maps: js(maps),
		})
	}

	return res
}

// dump renders a value with pointers followed.
func dump(v reflect.Value, depth int) string {
	if !v.IsValid() {
		return "nil"
	}

	if depth > 7 {
		return "..."
	}

	var b strings.Builder

	b.WriteString(v.Type().String())

	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("(nil)")
		} else {
			b.WriteString("&" + dump(v.Elem(), depth+1))
		}
	case reflect.Struct:
		b.WriteString("{")

		for i := 0; i < v.NumField(); i++ {
			b.WriteString(v.Type().Field(i).Name + ":" + dump(v.Field(i), depth+1) + ";")
		}

		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			b.WriteString("(nil)")
		}

		b.WriteString("[")

		for i := 0; i < v.Len(); i++ {
			b.WriteString(dump(v.Index(i), depth+1) + ";")
		}

		b.WriteString("]")
	case reflect.Map:
		var l []string
		for _, k := range v.MapKeys() {
			l = append(l, fmt.Sprint(k)+":"+dump(v.MapIndex(k), depth+1))
		}

		b.WriteString(fmt.Sprint(len(l)) + strings.Join(sorted(l), ";"))
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
	default:
		fmt.Fprintf(&b, "=%v", v)
	}

	return b.String()
}

func sorted(l []string) []string {
	for i := range l {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}

	return l
}

// runC15inputs registers populated values twice and compares them before and after.
func runC15inputs(c opsCase, st *h.Stats) error {
	r, r2 := c.reflector(c.Is31), c.reflector(c.Is31)

	for i, o := range c.Ops {
		// The same values go to two reflectors.
		oc, err := r.NewOperationContext(o.Method, o.Path)
		if err != nil {
			return fmt.Errorf("operation %d: %w", i, err)
		}

		oc2, err := r2.NewOperationContext(o.Method, o.Path)
		if err != nil {
			return fmt.Errorf("operation %d: %w", i, err)
		}

		tags := append(make([]string, 0, 8), o.Tags...)
		oc.SetTags(tags...)
		oc2.SetTags(tags...)

		for _, s := range o.Sec {
			scopes := append(make([]string, 0, 8), s.Scopes...)
			oc.AddSecurity(s.Name, scopes...)
			oc2.AddSecurity(s.Name, scopes...)
		}

		type handed struct{ mine, want map[string]string }

		var maps []handed

		add := func(u unitDesc, f ...func(s interface{}, opts ...openapi.ContentOption)) {
			u.given = func(mine, want map[string]string) { maps = append(maps, handed{mine, want}) }
			s, opts := u.args()

			if u.T.K != "virt" && u.T.K != "nil" && u.Form != "nilptr" && !u.Prep {
				p := reflect.New(u.T.Type())
				populate(p.Elem(), 0)

				if s = p.Interface(); u.Form != "ptr" {
					s = p.Elem().Interface()
				}
			}

			for _, x := range f {
				x(s, opts...)
			}
		}

		for _, u := range o.Req {
			add(u, oc.AddReqStructure, oc2.AddReqStructure)
		}

		for _, u := range o.Resp {
			add(u, oc.AddRespStructure, oc2.AddRespStructure)
		}

		reqBefore, respBefore := stateOf(oc.Request()), stateOf(oc.Response())

		reg := func(r openapi.Reflector, oc openapi.OperationContext) error {
			if r31, ok := r.(*openapi31.Reflector); ok && o.Webhook {
				return r31.AddWebhook(oc)
			}

			return r.AddOperation(oc)
		}

		e1, e2 := reg(r, oc), reg(r2, oc2)
		if (e1 == nil) != (e2 == nil) {
			return fmt.Errorf("operation %d: same values give %v and %v", i, e1, e2)
		}

		if !reflect.DeepEqual(reqBefore, stateOf(oc.Request())) {
			return fmt.Errorf("operation %d: request units are modified:\nbefore: %+v\nafter:  %+v", i, reqBefore, stateOf(oc.Request()))
		}

		if !reflect.DeepEqual(respBefore, stateOf(oc.Response())) {
			return fmt.Errorf("operation %d: response units are modified:\nbefore: %+v\nafter:  %+v", i, respBefore, stateOf(oc.Response()))
		}

		for _, m := range maps {
			if !reflect.DeepEqual(m.mine, m.want) {
				return fmt.Errorf("operation %d: field mapping %v is modified: %v", i, m.want, m.mine)
			}
		}

		if fmt.Sprint(tags) != fmt.Sprint(o.Tags) {
			return fmt.Errorf("operation %d: tags are modified: %v", i, tags)
		}
	}

	a, b := docOf(r), docOf(r2)
	if d := jsv.Diff(a, b); d != "" {
		return fmt.Errorf("second document of the same values: %s", d)
	}

	// Nothing of one document is reachable from another: changes stay local.
	st.NonTrivialIf(len(c.Ops) > 0)
	st.ClassIf(c.Is31, "3.1")

	return nil
}

func init() {
	p := h.Register("C15", "Operation documents do not depend on other operations or on their order",
		"Component names of different types with the same name may be numbered by first use, such documents are compared with references followed.",
		"Virtual structures have names; named lists and pointers to named lists and enumerations are used in one kind of place (known findings).")

	h.Add(p, "order", "two or more operations are permuted and have components; every operation is also registered alone",
		2500, 120000, func(t *rapid.T) c15case {
			c := c15case{opsCase: genOps(1, 6, true)(t)}

			idx := make([]int, len(c.Ops))
			for i := range idx {
				idx[i] = i
			}

			c.Order = rapid.Permutation(idx).Draw(t, "order")

			return c
		}, runC15)
	h.Add(p, "inputs", "populated values are registered in two documents and compared before and after",
		4000, 150000, genOps(1, 3, true), runC15inputs)
}
