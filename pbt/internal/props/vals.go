package props

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/swaggest/jsonschema-go"
	"pgregory.net/rapid"
	"verif/pbt/internal/jsv"
	"verif/pbt/internal/zoo"
)

// errDeep stops generation of a value that is recursive without an end.
type errDeep struct{}

// valGen generates Go values that satisfy the constraints declared with tags.
type valGen struct {
	t *rapid.T
}

// prefixed returns tags of elements, as declared with a prefix.
func prefixed(tag reflect.StructTag, prefix string) reflect.StructTag {
	res := ""

	for _, k := range constraintTags {
		if v, ok := tag.Lookup(prefix + k); ok {
			res += fmt.Sprintf(" %s:%q", k, v)
		}

		if v, ok := tag.Lookup(prefix + prefix + k); ok {
			res += fmt.Sprintf(" %s:%q", prefix+k, v)
		}
	}

	return reflect.StructTag(strings.TrimSpace(res))
}

var constraintTags = []string{
	"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf", "enum",
	"minLength", "maxLength", "pattern", "minItems", "maxItems", "uniqueItems", "minProperties", "maxProperties",
}

func tagInt(tag reflect.StructTag, name string, def int) int {
	v, ok := tag.Lookup(name)
	if !ok {
		return def
	}

	n, err := strconv.Atoi(v)
	if err != nil {
		panic("bad tag " + string(tag))
	}

	return n
}

func tagRat(tag reflect.StructTag, name string) *big.Rat {
	v, ok := tag.Lookup(name)
	if !ok {
		return nil
	}

	r, ok := new(big.Rat).SetString(v)
	if !ok {
		panic("bad tag " + string(tag))
	}

	return r
}

// enumOf lists values of enum tag as JSON texts or plain texts.
func enumOf(tag reflect.StructTag) []string {
	v, ok := tag.Lookup("enum")
	if !ok {
		return nil
	}

	var l []interface{}
	if strings.HasPrefix(v, "[") && json.Unmarshal([]byte(v), &l) == nil {
		var res []string
		for _, x := range l {
			res = append(res, fmt.Sprint(x))
		}

		return res
	}

	return strings.Split(v, ",")
}

// numOK tells if the number satisfies the tags.
func numOK(tag reflect.StructTag, r *big.Rat) bool {
	if x := tagRat(tag, "minimum"); x != nil && r.Cmp(x) < 0 {
		return false
	}

	if x := tagRat(tag, "maximum"); x != nil && r.Cmp(x) > 0 {
		return false
	}

	if x := tagRat(tag, "exclusiveMinimum"); x != nil && r.Cmp(x) <= 0 {
		return false
	}

	if x := tagRat(tag, "exclusiveMaximum"); x != nil && r.Cmp(x) >= 0 {
		return false
	}

	if x := tagRat(tag, "multipleOf"); x != nil && !new(big.Rat).Quo(r, x).IsInt() {
		return false
	}

	if e := enumOf(tag); e != nil {
		for _, s := range e {
			if x, ok := new(big.Rat).SetString(s); ok && x.Cmp(r) == 0 {
				return true
			}
		}

		return false
	}

	return true
}

// numBase picks an integer around the declared bounds.
func (g valGen) numBase(tag reflect.StructTag) int64 {
	if e := enumOf(tag); e != nil {
		n, err := strconv.ParseInt(pick(g.t, e), 10, 64)
		if err != nil {
			panic("bad enum " + string(tag))
		}

		return n
	}

	lo, hi := int64(-100), int64(100)

	set := func(name string, f func(x int64)) {
		if r := tagRat(tag, name); r != nil {
			n := new(big.Int).Div(r.Num(), r.Denom()).Int64()
			if !r.IsInt() && strings.HasSuffix(strings.ToLower(name), "minimum") {
				n++
			}

			f(n)
		}
	}

	set("minimum", func(x int64) { lo = x; hi = x + 100 })
	set("exclusiveMinimum", func(x int64) { lo = x + 1; hi = x + 100 })
	set("maximum", func(x int64) {
		if lo == -100 {
			lo = x - 100
		}

		hi = x
	})
	set("exclusiveMaximum", func(x int64) {
		if lo == -100 {
			lo = x - 100
		}

		hi = x - 1
	})

	n := lo

	switch drawInt(g.t, 0, 3) {
	case 0:
	case 1:
		n = hi
	default:
		n = lo + int64(drawInt(g.t, 0, int(hi-lo)))
	}

	if m := tagInt(tag, "multipleOf", 0); m != 0 {
		n -= n % int64(m)
		if n < lo {
			n += int64(m)
		}
	}

	return n
}

func free(tag reflect.StructTag, names ...string) bool {
	for _, n := range names {
		if _, ok := tag.Lookup(n); ok {
			return false
		}
	}

	return true
}

var numTags = []string{"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf", "enum"}

func (g valGen) str(tag reflect.StructTag) string {
	t := g.t

	if e := enumOf(tag); e != nil {
		return pick(t, e)
	}

	lo, hi := tagInt(tag, "minLength", 0), tagInt(tag, "maxLength", -1)

	if p, ok := tag.Lookup("pattern"); ok {
		if !free(tag, "minLength", "maxLength") {
			panic("unsupported tags " + string(tag))
		}

		return rapid.StringMatching(p).Draw(t, "str")
	}

	switch tag.Get("format") {
	case "uuid":
		return "123e4567-e89b-12d3-a456-426614174000"
	case "email":
		return "a@b.example"
	case "uri":
		return "https://a.example/b?c"
	case "date-time":
		return "2020-01-02T03:04:05Z"
	}

	if hi < 0 {
		hi = lo + 5
	}

	n := drawInt(t, lo, hi)
	s := ""

	for utf8.RuneCountInString(s) < n {
		s += pick(t, []string{"a", "b", "é", "\u4e16", "0", " ", "\"", "\\", "<", "\n", "\U0001F600"})
	}

	return s
}

var (
	typTime  = reflect.TypeOf(time.Time{})
	typDate  = reflect.TypeOf(jsonschema.Date{})
	typRaw   = reflect.TypeOf(json.RawMessage{})
	typBytes = reflect.TypeOf([]byte{})
	typAny   = reflect.TypeOf((*interface{})(nil)).Elem()
)

var anyValues = []interface{}{nil, true, 1.5, "s", []interface{}{"x", 1.0}, map[string]interface{}{"k": nil}, map[string]interface{}{}}

// custom makes values of types with their own JSON form.
func (g valGen) custom(ty reflect.Type) (interface{}, bool) {
	t := g.t

	switch ty {
	case typTime:
		return time.Unix(int64(drawInt(t, 0, 2000000000)), int64(drawInt(t, 0, 3)*500)).UTC(), true
	case typDate:
		var d jsonschema.Date
		if err := d.UnmarshalText([]byte(fmt.Sprintf("20%02d-%02d-%02d", drawInt(t, 0, 99), drawInt(t, 1, 12), drawInt(t, 1, 28)))); err != nil {
			panic(err)
		}

		return d, true
	case typRaw:
		b, _ := json.Marshal(pick(t, anyValues))

		return json.RawMessage(b), true
	case reflect.TypeOf(zoo.Level(0)):
		return zoo.Level(drawInt(t, 1, 3)), true
	case reflect.TypeOf(zoo.Color("")):
		return pick(t, []zoo.Color{"red", "green"}), true
	case reflect.TypeOf(zoo.Code("")):
		return zoo.Code(rapid.StringMatching("^[a-z]{1,5}$").Draw(t, "code")), true
	case reflect.TypeOf(zoo.Money{}):
		return zoo.Money{Cents: int64(drawInt(t, 0, 100000))}, true
	case reflect.TypeOf(zoo.Marked("")):
		return zoo.Marked(g.str(`maxLength:"20"`)), true
	case reflect.TypeOf(zoo.TextID{}):
		return zoo.TextID{A: drawInt(t, 0, 9), B: drawInt(t, 0, 9)}, true
	}

	return nil, false
}

// value makes a value of the type, depth limits recursion, empty forbids the empty value of encoding/json.
func (g valGen) value(ty reflect.Type, tag reflect.StructTag, depth int, nilOK, nonEmpty bool) reflect.Value {
	t := g.t

	if depth > 9 {
		panic(errDeep{})
	}

	if c, ok := g.custom(ty); ok {
		return reflect.ValueOf(c).Convert(ty)
	}

	// Embedded lists and maps have an own member in encoding/json.
	if embedsListOrMap(ty) {
		panic(errDeep{})
	}

	v := reflect.New(ty).Elem()

	switch ty.Kind() {
	case reflect.Bool:
		v.SetBool(nonEmpty || rapid.Bool().Draw(t, "bool"))
	case reflect.String:
		s := g.str(tag)
		v.SetString(s)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		var n int64

		if free(tag, numTags...) && chance(t, 30) {
			bits := uint(ty.Bits() - 1)
			n = pick(t, []int64{0, -1, 1, math.MaxInt64 >> (63 - bits), -(math.MaxInt64 >> (63 - bits)) - 1})
		} else {
			n = g.numBase(tag)
			for try := 0; v.OverflowInt(n) || try > 0 && !numOK(tag, big.NewRat(n, 1)); try++ {
				if try > 20 {
					panic(errDeep{})
				}

				if n = g.numBase(tag); v.OverflowInt(n) {
					n /= 10
				}
			}
		}

		v.SetInt(n)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		var n uint64

		if free(tag, numTags...) && chance(t, 30) {
			n = pick(t, []uint64{0, 1, math.MaxUint64 >> uint(64-ty.Bits())})
		} else {
			x := g.numBase(tag)
			if x < 0 {
				x = 0
			}

			n = uint64(x)
			for v.OverflowUint(n) {
				n /= 10
			}

			if !numOK(tag, new(big.Rat).SetInt64(int64(n))) {
				panic(errDeep{})
			}
		}

		v.SetUint(n)
	case reflect.Float32, reflect.Float64:
		f := float64(g.numBase(tag))

		if free(tag, numTags...) && chance(t, 40) {
			f = pick(t, []float64{0, 0.5, -2.25, 1e20, 1e-7, 3.4e38, -1e21})
		} else if chance(t, 20) && numOK(tag, new(big.Rat).SetFloat64(f+0.5)) {
			f += 0.5
		}

		v.SetFloat(f)
	case reflect.Interface:
		x := pick(t, anyValues)
		if nonEmpty && x == nil {
			x = "s"
		}

		if x != nil {
			v.Set(reflect.ValueOf(x))
		}
	case reflect.Ptr:
		if nilOK && !nonEmpty && (depth > 4 || chance(t, 35)) {
			break
		}

		v.Set(reflect.New(ty.Elem()))
		v.Elem().Set(g.value(ty.Elem(), tag, depth+1, false, false))
	case reflect.Slice:
		if ty.Elem().Kind() == reflect.Uint8 {
			// Bytes are not nullable in the schema library.
			b := make([]byte, 0)
			for i := drawInt(t, b2i(nonEmpty), 4); i > 0; i-- {
				b = append(b, byte(drawInt(t, 0, 255)))
			}

			v.SetBytes(b)

			break
		}

		if nilOK && !nonEmpty && chance(t, 20) {
			break
		}

		lo, hi := tagInt(tag, "minItems", 0), tagInt(tag, "maxItems", -1)
		if nonEmpty && lo == 0 {
			lo = 1
		}

		if hi < 0 {
			hi = lo + 2
		}

		if hi < lo {
			panic(errDeep{})
		}

		if depth > 4 {
			hi = lo
		}

		n := drawInt(t, lo, hi)
		v.Set(reflect.MakeSlice(ty, 0, n))

		seen := map[string]bool{}
		uniq := tag.Get("uniqueItems") == "true"

		for try := 0; v.Len() < n && try < 200; try++ {
			e := g.elem(ty.Elem(), prefixed(tag, "items."), depth+1)

			if uniq {
				x, _ := json.Marshal(e.Interface())
				if seen[string(x)] {
					continue
				}

				seen[string(x)] = true
			}

			v.Set(reflect.Append(v, e))
		}

		if v.Len() < lo {
			panic(errDeep{})
		}
	case reflect.Array:
		for i := 0; i < ty.Len(); i++ {
			v.Index(i).Set(g.value(ty.Elem(), prefixed(tag, "items."), depth+1, false, false))
		}
	case reflect.Map:
		if nilOK && !nonEmpty && chance(t, 20) {
			break
		}

		lo, hi := tagInt(tag, "minProperties", 0), tagInt(tag, "maxProperties", -1)
		if nonEmpty && lo == 0 {
			lo = 1
		}

		if hi < 0 {
			hi = lo + 2
		}

		if hi < lo {
			panic(errDeep{})
		}

		if depth > 4 {
			hi = lo
		}

		v.Set(reflect.MakeMap(ty))

		for n := drawInt(t, lo, hi); v.Len() < n; {
			v.SetMapIndex(reflect.ValueOf(pick(t, []string{"k", "a b", "é", "1", "", "x.y", "$k", "k2", "k3"})),
				g.elem(ty.Elem(), prefixed(tag, "additionalProperties."), depth+1))
		}
	case reflect.Struct:
		closed, untagged := false, false

		for i := 0; i < ty.NumField(); i++ {
			f := ty.Field(i)

			if f.Name == "_" {
				closed = closed || f.Tag.Get("additionalProperties") == "false"
			} else if _, ok := f.Tag.Lookup("json"); !ok && !f.Anonymous {
				untagged = true
			}
		}

		// Fields without tags are not declared.
		if closed && untagged {
			panic(errDeep{})
		}

		for i := 0; i < ty.NumField(); i++ {
			f := ty.Field(i)

			if f.Name == "_" {
				continue
			}

			js, ok := f.Tag.Lookup("json")

			if f.Anonymous && !ok {
				v.Field(i).Set(g.value(f.Type, "", depth+1, true, false))

				continue
			}

			if !f.IsExported() || !ok || js == "-" {
				continue
			}

			omit := strings.HasSuffix(js, ",omitempty")
			req := f.Tag.Get("required") == "true"

			v.Field(i).Set(g.field(f, depth+1, omit, req))
		}
	default:
		panic("unsupported type " + ty.String())
	}

	return v
}

// elem makes an element of a list or map, a pointer can be nil unless its schema is a shared definition.
// Elements that are lists or maps are not nullable in the schema library.
func (g valGen) elem(ty reflect.Type, tag reflect.StructTag, depth int) reflect.Value {
	nilOK := ty.Kind() == reflect.Ptr && !shared(ty.Elem()) && free(tag, "enum")

	return g.value(ty, tag, depth, nilOK, false)
}

func b2i(b bool) int {
	if b {
		return 1
	}

	return 0
}

// shared tells that schema of the type is a definition.
func shared(ty reflect.Type) bool {
	return ty.Name() != "" && ty.PkgPath() != "" && ty != typTime && ty != typDate && ty != typRaw
}

func (g valGen) field(f reflect.StructField, depth int, omit, req bool) reflect.Value {
	ty := f.Type
	elem := ty

	if ty.Kind() == reflect.Ptr {
		elem = ty.Elem()
	}

	// Absence is fine for members that are not required, null is fine unless the schema is a shared definition.
	nilOK := omit && !req || !omit && !shared(elem) && free(f.Tag, "enum")

	// The schema library reads enumerated values of pointers to numbers as strings.
	if _, ok := f.Tag.Lookup("enum"); ok && ty.Kind() == reflect.Ptr && elem.Kind() != reflect.String {
		if omit && !req {
			return reflect.Zero(ty)
		}

		panic(errDeep{})
	}

	if omit && !req && chance(g.t, 25) && ty.Kind() != reflect.Array && ty.Kind() != reflect.Struct {
		return reflect.Zero(ty)
	}

	for try := 0; try < 20; try++ {
		v := g.value(ty, f.Tag, depth, nilOK, omit && req)

		switch v.Kind() {
		case reflect.Slice, reflect.Map:
			if !omit || !req || v.Len() > 0 {
				return v
			}
		default:
			if !omit || !req || !v.IsZero() || v.Kind() == reflect.Struct || v.Kind() == reflect.Array {
				return v
			}
		}
	}

	panic(errDeep{})
}

// corruption is a change of a value that breaks its type or a declared constraint.
type corruption struct {
	what     string
	do, undo func()
}

type corrupter struct {
	list []corruption
	free bool // no declarations inside
}

func (c *corrupter) add(what string, do, undo func()) {
	c.list = append(c.list, corruption{what, do, undo})
}

func num(s string) json.Number { return json.Number(s) }

var wrongValues = map[string][]interface{}{
	"string":  {num("7"), true, []interface{}{}, map[string]interface{}{}},
	"integer": {"1", num("1.5"), true, []interface{}{num("1")}, map[string]interface{}{}},
	"number":  {"1", true, []interface{}{num("1")}, map[string]interface{}{}},
	"boolean": {"true", num("0"), []interface{}{}, map[string]interface{}{}},
	"array":   {"x", num("1"), map[string]interface{}{}, true},
	"object":  {"x", num("1"), []interface{}{}, true},
}

// jsonType is the JSON type of values of Go type.
func jsonType(ty reflect.Type) string {
	switch ty {
	case typTime, typDate, reflect.TypeOf(zoo.Money{}), reflect.TypeOf(zoo.TextID{}):
		return "string"
	case typRaw, typAny:
		return ""
	case reflect.TypeOf(zoo.Point{}):
		return "array"
	}

	switch ty.Kind() {
	case reflect.Ptr:
		return jsonType(ty.Elem())
	case reflect.Bool:
		return "boolean"
	case reflect.String:
		return "string"
	case reflect.Float32, reflect.Float64:
		return "number"
	case reflect.Slice:
		if ty.Elem().Kind() == reflect.Uint8 {
			return "string"
		}

		return "array"
	case reflect.Array:
		return "array"
	case reflect.Map, reflect.Struct:
		return "object"
	case reflect.Interface:
		return ""
	}

	return "integer"
}

// walk lists corruptions of the value that is stored with set.
func (c *corrupter) walk(path string, ty reflect.Type, tag reflect.StructTag, v interface{}, set func(v interface{})) {
	if v == nil {
		return
	}

	for ty.Kind() == reflect.Ptr {
		ty = ty.Elem()
	}

	jt := jsonType(ty)
	if jt == "" {
		return
	}

	put := func(what string, w interface{}) {
		c.add(fmt.Sprintf("%s: %s: %s in place of %s", path, what, js(w), cut(js(v))), func() { set(w) }, func() { set(v) })
	}

	for _, w := range wrongValues[jt] {
		put("type", w)
	}

	switch ty {
	case typTime, typDate, reflect.TypeOf(zoo.TextID{}):
		return
	case reflect.TypeOf(zoo.Level(0)):
		put("enum", num("77"))

		return
	case reflect.TypeOf(zoo.Color("")):
		put("enum", "blue")

		return
	case reflect.TypeOf(zoo.Code("")):
		put("pattern", "UP")
		put("minLength", "")

		return
	case reflect.TypeOf(zoo.Money{}):
		put("pattern", "1.5")

		return
	case reflect.TypeOf(zoo.Marked("")):
		put("maxLength", strings.Repeat("é", 21))

		return
	case reflect.TypeOf(zoo.Point{}):
		put("minItems", []interface{}{num("1")})
		put("items", []interface{}{num("1"), "2"})

		return
	}

	switch x := v.(type) {
	case json.Number:
		c.number(tag, jt, put)
	case string:
		if ty.Kind() == reflect.String {
			c.str(tag, put)
		}
	case []interface{}:
		c.array(path, ty, tag, x, put)
	case map[string]interface{}:
		if ty.Kind() == reflect.Map {
			c.dict(path, ty, tag, x, put)
		} else {
			c.object(path, ty, x)
		}
	}
}

func (c *corrupter) number(tag reflect.StructTag, jt string, put func(string, interface{})) {
	if e := enumOf(tag); e != nil {
		put("enum", num("98765"))
	}

	one := big.NewRat(1, 1)

	bad := func(name string, r *big.Rat) {
		if r.IsInt() {
			put(name, num(r.Num().String()))
		} else if jt == "number" {
			f, _ := r.Float64()
			put(name, num(fmt.Sprint(f)))
		}
	}

	if x := tagRat(tag, "minimum"); x != nil {
		bad("minimum", new(big.Rat).Sub(x, one))
	}

	if x := tagRat(tag, "maximum"); x != nil {
		bad("maximum", new(big.Rat).Add(x, one))
	}

	if x := tagRat(tag, "exclusiveMinimum"); x != nil {
		bad("exclusiveMinimum", x)
		bad("exclusiveMinimum", new(big.Rat).Sub(x, one))
	}

	if x := tagRat(tag, "exclusiveMaximum"); x != nil {
		bad("exclusiveMaximum", x)
		bad("exclusiveMaximum", new(big.Rat).Add(x, one))
	}

	if x := tagRat(tag, "multipleOf"); x != nil && x.Cmp(one) != 0 {
		bad("multipleOf", new(big.Rat).Add(x, one))
	}
}

func (c *corrupter) str(tag reflect.StructTag, put func(string, interface{})) {
	if e := enumOf(tag); e != nil {
		put("enum", "not listed")
		put("enum", "")
	}

	if n := tagInt(tag, "minLength", 0); n > 0 {
		put("minLength", strings.Repeat("é", n-1))
	}

	if n := tagInt(tag, "maxLength", -1); n >= 0 {
		put("maxLength", strings.Repeat("é", n+1))
	}

	if p, ok := tag.Lookup("pattern"); ok {
		re := regexp.MustCompile(p)

		for _, s := range []string{"", "!", "A", "abcdefghij", "A1!"} {
			if !re.MatchString(s) {
				put("pattern", s)
			}
		}
	}
}

func (c *corrupter) array(path string, ty reflect.Type, tag reflect.StructTag, a []interface{}, put func(string, interface{})) {
	if n := tagInt(tag, "minItems", 0); n > 0 && len(a) >= n {
		put("minItems", a[:n-1])
	}

	if n := tagInt(tag, "maxItems", -1); n >= 0 && len(a) > 0 {
		l := append([]interface{}{}, a...)
		for len(l) <= n {
			l = append(l, a[0])
		}

		put("maxItems", l)
	}

	if tag.Get("uniqueItems") == "true" && len(a) > 0 {
		put("uniqueItems", append(append([]interface{}{}, a...), a[0]))
	}

	for i := range a {
		i := i
		c.walk(fmt.Sprintf("%s[%d]", path, i), ty.Elem(), prefixed(tag, "items."), a[i], func(v interface{}) { a[i] = v })
	}
}

func (c *corrupter) dict(path string, ty reflect.Type, tag reflect.StructTag, m map[string]interface{}, put func(string, interface{})) {
	if n := tagInt(tag, "minProperties", 0); n == 1 {
		put("minProperties", map[string]interface{}{})
	}

	keys := sortedKeys(m)

	if n := tagInt(tag, "maxProperties", -1); n >= 0 && len(m) > 0 {
		l := map[string]interface{}{}
		for i := 0; i <= n; i++ {
			l[fmt.Sprintf("more%d", i)] = m[keys[0]]
		}

		put("maxProperties", l)
	}

	for _, k := range keys {
		k := k
		c.walk(path+"."+k, ty.Elem(), prefixed(tag, "additionalProperties."), m[k], func(v interface{}) { m[k] = v })
	}
}

func sortedKeys(m map[string]interface{}) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}

	for i := range l {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}

	return l
}

func (c *corrupter) object(path string, ty reflect.Type, m map[string]interface{}) {
	for i := 0; i < ty.NumField(); i++ {
		f := ty.Field(i)

		if f.Name == "_" {
			if f.Tag.Get("additionalProperties") == "false" {
				c.add(path+": additional property", func() { m["not declared"] = true }, func() { delete(m, "not declared") })
			}

			continue
		}

		js, ok := f.Tag.Lookup("json")

		if f.Anonymous && !ok {
			e := f.Type
			if e.Kind() == reflect.Ptr {
				e = e.Elem()
			}

			c.object(path, e, m)

			continue
		}

		if !ok || js == "-" {
			continue
		}

		name := strings.Split(js, ",")[0]

		old, ok := m[name]
		if !ok {
			continue
		}

		if f.Tag.Get("required") == "true" {
			c.add(path+": without required "+name, func() { delete(m, name) }, func() { m[name] = old })
		}

		c.walk(path+"."+name, f.Type, f.Tag, old, func(v interface{}) { m[name] = v })
	}
}

// corruptions makes up to n invalid texts from a valid one.
func corruptions(t *rapid.T, ty reflect.Type, text []byte, n int) (res []c12bad) {
	root, err := jsv.Parse(text)
	if err != nil {
		panic(err)
	}

	root = toNumbers(root)
	c := corrupter{}
	c.walk("", ty, "", root, func(v interface{}) { root = v })

	if len(c.list) == 0 {
		return nil
	}

	for i := drawInt(t, 0, n); i > 0; i-- {
		x := pick(t, c.list)
		x.do()
		b, err := json.Marshal(root)
		x.undo()

		if err != nil {
			panic(err)
		}

		res = append(res, c12bad{What: x.what, Text: b})
	}

	return res
}

// toNumbers makes sure that numbers are json.Number.
func toNumbers(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}

	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()

	var res interface{}
	if err := d.Decode(&res); err != nil {
		panic(err)
	}

	return res
}
