// Package jsv is a small JSON Schema validator used as an oracle. It implements the draft-04,
// 2020-12 (subset) and OpenAPI 3.0 dialects over decoded JSON values.
package jsv

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"
)

// Dialect selects keyword semantics.
type Dialect int

// Dialects.
const (
	Draft04 Dialect = iota // Boolean exclusiveMaximum/exclusiveMinimum, definitions.
	OAS30                  // Draft04 plus nullable.
	Draft2020
)

// Validator validates instances against schemas of one root document.
type Validator struct {
	Root    interface{}
	Dialect Dialect

	// DynamicRef resolves $dynamicRef values.
	DynamicRef map[string]interface{}

	// Strict makes unresolvable references errors of the schema (returned as validation errors).
	depth int
}

var (
	reMu    sync.Mutex
	reCache = map[string]*regexp.Regexp{}
)

func compile(p string) (*regexp.Regexp, error) {
	reMu.Lock()
	defer reMu.Unlock()

	if r, ok := reCache[p]; ok {
		return r, nil
	}

	r, err := regexp.Compile(p)
	if err != nil {
		return nil, err
	}

	reCache[p] = r

	return r, nil
}

// Parse decodes JSON keeping numbers exact.
func Parse(data []byte) (interface{}, error) {
	d := json.NewDecoder(strings.NewReader(string(data)))
	d.UseNumber()

	var v interface{}
	if err := d.Decode(&v); err != nil {
		return nil, err
	}

	if d.More() {
		return nil, fmt.Errorf("trailing data")
	}

	return v, nil
}

// Normalize converts any Go value to decoded JSON form.
func Normalize(v interface{}) (interface{}, error) {
	b, err := json.Marshal(v)
	if err != nil {
		return nil, err
	}

	return Parse(b)
}

// Resolve resolves a local JSON pointer reference.
func Resolve(root interface{}, ref string) (interface{}, bool) {
	if ref == "#" {
		return root, true
	}

	if !strings.HasPrefix(ref, "#/") {
		return nil, false
	}

	cur := root

	for _, part := range strings.Split(ref[2:], "/") {
		part = strings.ReplaceAll(strings.ReplaceAll(part, "~1", "/"), "~0", "~")

		switch x := cur.(type) {
		case map[string]interface{}:
			n, ok := x[part]
			if !ok {
				return nil, false
			}

			cur = n
		case []interface{}:
			i, err := strconv.Atoi(part)
			if err != nil || i < 0 || i >= len(x) {
				return nil, false
			}

			cur = x[i]
		default:
			return nil, false
		}
	}

	return cur, true
}

type evaluated struct {
	props map[string]bool
	items map[int]bool
}

func newEval() *evaluated { return &evaluated{props: map[string]bool{}, items: map[int]bool{}} }

func (e *evaluated) merge(o *evaluated) {
	for k := range o.props {
		e.props[k] = true
	}

	for k := range o.items {
		e.items[k] = true
	}
}

// Validate reports the first error found.
func (v *Validator) Validate(schema, inst interface{}) error {
	v.depth = 0

	return v.val(schema, inst, "", newEval())
}

// Rat converts a JSON number.
func Rat(n interface{}) (*big.Rat, bool) {
	switch x := n.(type) {
	case json.Number:
		if len(x) > 400 {
			return nil, false
		}

		if f, err := x.Float64(); err != nil || math.Abs(f) > 1e300 {
			return nil, false
		}

		r, ok := new(big.Rat).SetString(string(x))

		return r, ok
	case float64:
		r := new(big.Rat).SetFloat64(x)

		return r, r != nil
	case int:
		return new(big.Rat).SetInt64(int64(x)), true
	case int64:
		return new(big.Rat).SetInt64(x), true
	}

	return nil, false
}

// Equal compares decoded JSON values, numbers by value.
func Equal(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case bool:
		y, ok := b.(bool)

		return ok && x == y
	case string:
		y, ok := b.(string)

		return ok && x == y
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}

		for i := range x {
			if !Equal(x[i], y[i]) {
				return false
			}
		}

		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}

		for k := range x {
			yv, ok := y[k]
			if !ok || !Equal(x[k], yv) {
				return false
			}
		}

		return true
	}

	ra, ok1 := Rat(a)
	rb, ok2 := Rat(b)

	if ok1 && ok2 {
		return ra.Cmp(rb) == 0
	}

	return reflect.DeepEqual(a, b)
}

// Diff describes the first difference between decoded JSON values, or "".
func Diff(a, b interface{}) string { return diff("", a, b) }

func diff(path string, a, b interface{}) string {
	if Equal(a, b) {
		return ""
	}

	if x, ok := a.(map[string]interface{}); ok {
		if y, ok := b.(map[string]interface{}); ok {
			keys := map[string]bool{}
			for k := range x {
				keys[k] = true
			}

			for k := range y {
				keys[k] = true
			}

			sk := make([]string, 0, len(keys))
			for k := range keys {
				sk = append(sk, k)
			}

			sort.Strings(sk)

			for _, k := range sk {
				xv, okx := x[k]
				yv, oky := y[k]
				p := path + "/" + k

				switch {
				case !okx:
					return fmt.Sprintf("%s: absent vs %s", p, short(yv))
				case !oky:
					return fmt.Sprintf("%s: %s vs absent", p, short(xv))
				default:
					if d := diff(p, xv, yv); d != "" {
						return d
					}
				}
			}
		}
	}

	if x, ok := a.([]interface{}); ok {
		if y, ok := b.([]interface{}); ok && len(x) == len(y) {
			for i := range x {
				if d := diff(fmt.Sprintf("%s/%d", path, i), x[i], y[i]); d != "" {
					return d
				}
			}
		}
	}

	return fmt.Sprintf("%s: %s vs %s", path, short(a), short(b))
}

func short(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%v", v)
	}

	if len(b) > 300 {
		return string(b[:300]) + "..."
	}

	return string(b)
}

func typeOf(inst interface{}) string {
	switch x := inst.(type) {
	case nil:
		return "null"
	case bool:
		return "boolean"
	case string:
		return "string"
	case []interface{}:
		return "array"
	case map[string]interface{}:
		return "object"
	case json.Number, float64, int, int64:
		if r, ok := Rat(x); ok && r.IsInt() {
			return "integer"
		}

		return "number"
	}

	return fmt.Sprintf("%T", inst)
}

func matchesType(want, got string) bool {
	return want == got || (want == "number" && got == "integer")
}

func num(m map[string]interface{}, k string) (*big.Rat, bool) {
	x, ok := m[k]
	if !ok {
		return nil, false
	}

	return Rat(x)
}

func (v *Validator) val(schema, inst interface{}, path string, ev *evaluated) error {
	v.depth++
	defer func() { v.depth-- }()

	if v.depth > 2000 {
		return fmt.Errorf("%s: schema recursion too deep", path)
	}

	if b, ok := schema.(bool); ok {
		if b {
			return nil
		}

		return fmt.Errorf("%s: false schema", path)
	}

	m, ok := schema.(map[string]interface{})
	if !ok {
		return fmt.Errorf("%s: bad schema %s", path, short(schema))
	}

	if ref, ok := m["$ref"].(string); ok {
		target, found := Resolve(v.Root, ref)
		if !found {
			return fmt.Errorf("%s: unresolvable reference %q", path, ref)
		}

		if err := v.val(target, inst, path, ev); err != nil {
			return err
		}

		if v.Dialect != Draft2020 {
			return nil // siblings are ignored
		}
	}

	if dr, ok := m["$dynamicRef"].(string); ok {
		target, found := v.DynamicRef[dr]
		if !found {
			return fmt.Errorf("%s: unresolvable dynamic reference %q", path, dr)
		}

		if err := v.val(target, inst, path, ev); err != nil {
			return err
		}
	}

	t := typeOf(inst)

	if v.Dialect == OAS30 && t == "null" {
		if n, ok := m["nullable"].(bool); ok && n {
			if _, hasType := m["type"]; hasType {
				// nullable extends type; enum and combinators still apply below.
				return v.rest(m, inst, t, path, ev, true)
			}
		}
	}

	return v.rest(m, inst, t, path, ev, false)
}

func (v *Validator) rest(m map[string]interface{}, inst interface{}, t, path string, ev *evaluated, skipType bool) error {
	if ty, ok := m["type"]; ok && !skipType {
		okT := false

		switch x := ty.(type) {
		case string:
			okT = matchesType(x, t)
		case []interface{}:
			for _, e := range x {
				if s, ok := e.(string); ok && matchesType(s, t) {
					okT = true
				}
			}
		default:
			return fmt.Errorf("%s: bad type keyword", path)
		}

		if !okT {
			return fmt.Errorf("%s: type %s, want %s", path, t, short(ty))
		}
	}

	if en, ok := m["enum"].([]interface{}); ok {
		found := false

		for _, e := range en {
			if Equal(e, inst) {
				found = true

				break
			}
		}

		if !found {
			return fmt.Errorf("%s: %s not in enum %s", path, short(inst), short(en))
		}
	}

	if v.Dialect == Draft2020 {
		if c, ok := m["const"]; ok && !Equal(c, inst) {
			return fmt.Errorf("%s: %s is not const %s", path, short(inst), short(c))
		}
	}

	switch t {
	case "integer", "number":
		if err := v.number(m, inst, path); err != nil {
			return err
		}
	case "string":
		s := inst.(string)
		n := new(big.Rat).SetInt64(int64(utf8.RuneCountInString(s)))

		if x, ok := num(m, "maxLength"); ok && n.Cmp(x) > 0 {
			return fmt.Errorf("%s: longer than %s", path, x)
		}

		if x, ok := num(m, "minLength"); ok && n.Cmp(x) < 0 {
			return fmt.Errorf("%s: shorter than %s", path, x)
		}

		if p, ok := m["pattern"].(string); ok {
			if re, err := compile(p); err == nil && !re.MatchString(s) {
				return fmt.Errorf("%s: %q does not match %q", path, s, p)
			}
		}
	case "array":
		if err := v.array(m, inst.([]interface{}), path, ev); err != nil {
			return err
		}
	case "object":
		if err := v.object(m, inst.(map[string]interface{}), path, ev); err != nil {
			return err
		}
	}

	if err := v.combine(m, inst, path, ev); err != nil {
		return err
	}

	if t == "object" {
		if up, ok := m["unevaluatedProperties"]; ok && v.Dialect == Draft2020 {
			for k, x := range inst.(map[string]interface{}) {
				if !ev.props[k] {
					if err := v.val(up, x, path+"/"+k, newEval()); err != nil {
						return fmt.Errorf("unevaluated property %q: %w", k, err)
					}
				}
			}

			for k := range inst.(map[string]interface{}) {
				ev.props[k] = true
			}
		}
	}

	return nil
}

func (v *Validator) number(m map[string]interface{}, inst interface{}, path string) error {
	n, ok := Rat(inst)
	if !ok {
		return nil
	}

	exMax, exMin := false, false

	if v.Dialect == Draft2020 {
		if x, ok := num(m, "exclusiveMaximum"); ok && n.Cmp(x) >= 0 {
			return fmt.Errorf("%s: not below %s", path, x)
		}

		if x, ok := num(m, "exclusiveMinimum"); ok && n.Cmp(x) <= 0 {
			return fmt.Errorf("%s: not above %s", path, x)
		}
	} else {
		exMax, _ = m["exclusiveMaximum"].(bool)
		exMin, _ = m["exclusiveMinimum"].(bool)
	}

	if x, ok := num(m, "maximum"); ok {
		if c := n.Cmp(x); c > 0 || (exMax && c == 0) {
			return fmt.Errorf("%s: %s over maximum %s", path, n, x)
		}
	}

	if x, ok := num(m, "minimum"); ok {
		if c := n.Cmp(x); c < 0 || (exMin && c == 0) {
			return fmt.Errorf("%s: %s under minimum %s", path, n, x)
		}
	}

	if x, ok := num(m, "multipleOf"); ok && x.Sign() > 0 {
		if !new(big.Rat).Quo(n, x).IsInt() {
			return fmt.Errorf("%s: %s not a multiple of %s", path, n, x)
		}
	}

	return nil
}

func (v *Validator) array(m map[string]interface{}, a []interface{}, path string, ev *evaluated) error {
	n := new(big.Rat).SetInt64(int64(len(a)))

	if x, ok := num(m, "maxItems"); ok && n.Cmp(x) > 0 {
		return fmt.Errorf("%s: more than %s items", path, x)
	}

	if x, ok := num(m, "minItems"); ok && n.Cmp(x) < 0 {
		return fmt.Errorf("%s: fewer than %s items", path, x)
	}

	if u, _ := m["uniqueItems"].(bool); u {
		for i := range a {
			for j := 0; j < i; j++ {
				if Equal(a[i], a[j]) {
					return fmt.Errorf("%s: duplicate items", path)
				}
			}
		}
	}

	start := 0

	if pi, ok := m["prefixItems"].([]interface{}); ok {
		for i := 0; i < len(pi) && i < len(a); i++ {
			if err := v.val(pi[i], a[i], fmt.Sprintf("%s/%d", path, i), newEval()); err != nil {
				return err
			}
		}

		start = len(pi)
	}

	switch it := m["items"].(type) {
	case nil:
	case []interface{}:
		for i := range a {
			if i < len(it) {
				if err := v.val(it[i], a[i], fmt.Sprintf("%s/%d", path, i), newEval()); err != nil {
					return err
				}
			} else if ai, ok := m["additionalItems"]; ok {
				if err := v.val(ai, a[i], fmt.Sprintf("%s/%d", path, i), newEval()); err != nil {
					return err
				}
			}
		}
	default:
		for i := start; i < len(a); i++ {
			if err := v.val(it, a[i], fmt.Sprintf("%s/%d", path, i), newEval()); err != nil {
				return err
			}
		}
	}

	if c, ok := m["contains"]; ok && v.Dialect == Draft2020 {
		found := false

		for i := range a {
			if v.val(c, a[i], path, newEval()) == nil {
				found = true

				break
			}
		}

		if !found {
			return fmt.Errorf("%s: contains not satisfied", path)
		}
	}

	return nil
}

func (v *Validator) object(m map[string]interface{}, o map[string]interface{}, path string, ev *evaluated) error {
	n := new(big.Rat).SetInt64(int64(len(o)))

	if x, ok := num(m, "maxProperties"); ok && n.Cmp(x) > 0 {
		return fmt.Errorf("%s: more than %s properties", path, x)
	}

	if x, ok := num(m, "minProperties"); ok && n.Cmp(x) < 0 {
		return fmt.Errorf("%s: fewer than %s properties", path, x)
	}

	if req, ok := m["required"].([]interface{}); ok {
		for _, r := range req {
			if s, ok := r.(string); ok {
				if _, has := o[s]; !has {
					return fmt.Errorf("%s: missing required %q", path, s)
				}
			}
		}
	}

	props, _ := m["properties"].(map[string]interface{})
	pats, _ := m["patternProperties"].(map[string]interface{})
	ap, hasAP := m["additionalProperties"]

	keys := make([]string, 0, len(o))
	for k := range o {
		keys = append(keys, k)
	}

	sort.Strings(keys)

	for _, k := range keys {
		matched := false

		if ps, ok := props[k]; ok {
			matched = true

			if err := v.val(ps, o[k], path+"/"+k, newEval()); err != nil {
				return err
			}
		}

		for p, ps := range pats {
			re, err := compile(p)
			if err != nil {
				continue
			}

			if re.MatchString(k) {
				matched = true

				if err := v.val(ps, o[k], path+"/"+k, newEval()); err != nil {
					return err
				}
			}
		}

		if matched {
			ev.props[k] = true
		} else if hasAP {
			if err := v.val(ap, o[k], path+"/"+k, newEval()); err != nil {
				return fmt.Errorf("additional property %q: %w", k, err)
			}

			ev.props[k] = true
		}

		if pn, ok := m["propertyNames"]; ok && v.Dialect == Draft2020 {
			if err := v.val(pn, k, path+"/"+k, newEval()); err != nil {
				return err
			}
		}
	}

	if ds, ok := m["dependentSchemas"].(map[string]interface{}); ok && v.Dialect == Draft2020 {
		for k, s := range ds {
			if _, has := o[k]; has {
				if err := v.val(s, o, path, ev); err != nil {
					return err
				}
			}
		}
	}

	return nil
}

func (v *Validator) combine(m map[string]interface{}, inst interface{}, path string, ev *evaluated) error {
	if l, ok := m["allOf"].([]interface{}); ok {
		for _, s := range l {
			if err := v.val(s, inst, path, ev); err != nil {
				return err
			}
		}
	}

	if l, ok := m["anyOf"].([]interface{}); ok {
		var first error

		any := false

		for _, s := range l {
			e := newEval()
			if err := v.val(s, inst, path, e); err == nil {
				any = true

				ev.merge(e)
			} else if first == nil {
				first = err
			}
		}

		if !any {
			return fmt.Errorf("%s: anyOf: %w", path, firstErr(first))
		}
	}

	if l, ok := m["oneOf"].([]interface{}); ok {
		n := 0

		var errs []string

		for _, s := range l {
			e := newEval()
			if err := v.val(s, inst, path, e); err == nil {
				n++

				ev.merge(e)
			} else {
				errs = append(errs, err.Error())
			}
		}

		if n != 1 {
			return fmt.Errorf("%s: oneOf matched %d: %s", path, n, strings.Join(errs, "; "))
		}
	}

	if s, ok := m["not"]; ok {
		if v.val(s, inst, path, newEval()) == nil {
			return fmt.Errorf("%s: not", path)
		}
	}

	if s, ok := m["if"]; ok && v.Dialect == Draft2020 {
		e := newEval()
		if v.val(s, inst, path, e) == nil {
			ev.merge(e)

			if th, ok := m["then"]; ok {
				if err := v.val(th, inst, path, ev); err != nil {
					return err
				}
			}
		} else if el, ok := m["else"]; ok {
			if err := v.val(el, inst, path, ev); err != nil {
				return err
			}
		}
	}

	return nil
}

func firstErr(e error) error {
	if e == nil {
		return fmt.Errorf("no alternatives")
	}

	return e
}
