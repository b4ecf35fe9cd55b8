// Package docgen generates OpenAPI documents (and fragments) from a declarative grammar of the specification.
package docgen

import (
	"encoding/json"
	"math"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// M is a JSON object.
type M = map[string]interface{}

// A is a JSON array.
type A = []interface{}

// G wraps the generator source.
type G struct {
	T     *rapid.T
	V31   bool
	Dense bool // more optional members
	Empty bool // allow empty lists and maps
	// SafeNum limits integers to the double-exact range.
	budget int
	// NoTricky uses plain strings only.
	NoTricky bool
	// Refs are names of components to refer to.
	Names []string
}

var probGen = rapid.IntRange(0, 99)

// Int draws from [lo,hi].
func (g *G) Int(lo, hi int) int { return rapid.IntRange(lo, hi).Draw(g.T, "i") }

// P is true with about p percent; shrinks to false.
func (g *G) P(p int) bool { return probGen.Draw(g.T, "p") >= 100-p }

// Pick picks one.
func Pick[T any](g *G, l []T) T { return l[g.Int(0, len(l)-1)] }

var plainWords = []string{"a", "b", "id", "name", "Foo", "bar-baz", "some text", "X", "zeta", "long description here", "café", "数据"}

var trickyWords = []string{
	"", "true", "false", "null", "~", "yes", "no", "on", "off", "1", "0", "-1", "1.5", "1e3", "0x1F", "0o17", "017", "1_000",
	"2001-01-01", "2001-12-14T21:59:43Z", "12:30:45", "- a", "a: b", "a:", "#x", "a #b", " lead", "trail ", "line1\nline2",
	"line1\nline2\n", "\n", "\t", "tab\tin", "|", ">", "!!str x", "!x", "&a", "*a", "<<", "=", "[", "]", "{", "}", "{a}", ",", "?", "? a",
	"-", "--- ", "...", "%", "@", "`", "\"", "'", "it's", "say \"hi\"", "\\", "a\\nb", "é", "\u2028", "\u00a0", "\ufeff", "😀", "\u0001", "\u007f", "\u0085",
	".inf", "-.inf", ".nan", "Infinity", "NaN", "null ", "Null", "NULL", "True", "TRUE", "y", "n", "Y", "N", "0b1", "+1", "1.", ".5", "1e", "0.", "00", "9007199254740993",
	"x-foo", "$ref", "key", "<a>&b", "/a/b", "~1", "~0",
}

// Str draws a string.
func (g *G) Str() string {
	if g.NoTricky {
		return Pick(g, plainWords)
	}

	switch g.Int(0, 9) {
	case 0, 1, 2, 3:
		return Pick(g, plainWords)
	case 4, 5, 6, 7:
		return Pick(g, trickyWords)
	case 8:
		return Pick(g, trickyWords) + Pick(g, trickyWords)
	default:
		return rapid.StringN(0, 8, 40).Draw(g.T, "s")
	}
}

// Key draws a map key usable in free maps.
func (g *G) Key() string {
	if g.P(70) {
		return Pick(g, []string{"a", "b", "c", "id", "name", "X-Request-Id", "x-header", "foo.bar", "200", "1.5", "0.25", "true"})
	}

	return g.Str()
}

// CompName draws a component name.
func (g *G) CompName() string {
	if len(g.Names) > 0 && g.P(60) {
		return Pick(g, g.Names)
	}

	return Pick(g, []string{"Foo", "Bar", "a.b", "a-b", "a_b", "9", "X1", "true", "null", "1.5", "Very.Long_name-1", "x-", "x-foo", "-", "_"})
}

// Any draws free-form JSON.
func (g *G) Any(depth int) interface{} {
	n := 8
	if depth <= 0 {
		n = 5
	}

	switch g.Int(0, n) {
	case 0:
		return nil
	case 1:
		return g.P(50)
	case 2:
		return g.Number()
	case 3, 4, 5:
		return g.Str()
	case 6, 7:
		l := A{}
		for i := g.Int(0, 3); i > 0; i-- {
			l = append(l, g.Any(depth-1))
		}

		return l
	default:
		m := M{}
		for i := g.Int(0, 3); i > 0; i-- {
			m[g.Key()] = g.Any(depth - 1)
		}

		return m
	}
}

// Number draws a JSON number representable exactly as a double.
func (g *G) Number() interface{} {
	switch g.Int(0, 5) {
	case 0, 1, 2:
		return json.Number(strconv.Itoa(g.Int(-100, 100)))
	case 3:
		return json.Number(strconv.FormatFloat(float64(g.Int(-1000, 1000))/8, 'f', -1, 64))
	case 4:
		return Pick(g, []interface{}{
			json.Number("9007199254740992"), json.Number("-9007199254740991"), json.Number("1e100"), json.Number("1e-7"), json.Number("2147483648"),
			json.Number("1e21"), json.Number("123456789012"), json.Number("0.1"), json.Number("1000000"), json.Number("5e-324"), json.Number("100000000000000000000"),
		})
	default:
		f := rapid.Float64().Draw(g.T, "f")
		if math.IsInf(f, 0) || math.IsNaN(f) {
			f = 0
		}

		return json.Number(strconv.FormatFloat(f, 'g', -1, 64))
	}
}

// Nat draws a non-negative integer.
func (g *G) Nat() json.Number {
	switch g.Int(0, 9) {
	case 0:
		return Pick(g, []json.Number{"2147483648", "4294967295", "9007199254740992", "1000000", "1000000000000000"})
	case 1:
		return "0"
	default:
		return json.Number(strconv.Itoa(g.Int(0, 300)))
	}
}

// URI draws a URI reference.
func (g *G) URI() string {
	return Pick(g, []string{"https://example.com/", "http://example.com/a?b=c#d", "/rel/path", "mailto:a@b.c", "https://ex.com/%7Ea", "urn:a:b", "file.yaml#/x"})
}

// Kind of grammar type.
type Kind int

// Kinds.
const (
	KStr Kind = iota
	KURI
	KEmail
	KRegex
	KBool
	KNat
	KNum
	KPosNum
	KAny
	KEnum
	KEnt
	KOrRef
	KList
	KMap
	KBoolOrSchema
	KSecReq
	KSchema31
	KUnion
	KVersion
)

// Ty is a grammar type.
type Ty struct {
	Kind     Kind
	Ent      string
	Enum     []string
	Elem     *Ty
	MapKeys  string // "", "comp", "media", "status", "status", "scope"
	MinItems int
	Unique   bool
	Max      int
	RefDir   string // components section for references
	Alts     []*Ty
}

// Field is an object member.
type Field struct {
	K   string
	T   *Ty
	Req bool
}

// Ent is an object type of the specification.
type Ent struct {
	Name     string
	Def      string // name in the official schema
	Fields   []Field
	Ext      bool   // allows x-
	Pat      string // kind of pattern keys: "path", "status", "method", "comp", "callback"
	PatT     *Ty
	AnyExtra bool // allows arbitrary additional members
	Post     func(g *G, m M)
	StyleDef func(m M) string // default style that may be spelled out on save
}

// Field finds a member by key.
func (e *Ent) Field(k string) *Field {
	for i := range e.Fields {
		if e.Fields[i].K == k {
			return &e.Fields[i]
		}
	}

	return nil
}

// Grammar is a set of entities.
type Grammar struct {
	V31  bool
	Ents map[string]*Ent
	// Kinds are variants of SecurityScheme of 3.1.
	Kinds map[string]*Ent
}

// PatKey tells if a key is a pattern member of the entity.
func (e *Ent) PatKey(k string) bool {
	switch e.Pat {
	case "path":
		return strings.HasPrefix(k, "/")
	case "status":
		if len(k) != 3 || k[0] < '1' || k[0] > '5' {
			return false
		}

		return k[1:] == "XX" || (k[1] >= '0' && k[1] <= '9' && k[2] >= '0' && k[2] <= '9')
	case "method":
		switch k {
		case "get", "put", "post", "delete", "options", "head", "patch", "trace":
			return true
		}

		return false
	case "callback":
		return !strings.HasPrefix(k, "x-")
	}

	return false
}

func (g *G) patKey(pat string) string {
	switch pat {
	case "path":
		return Pick(g, []string{"/", "/a", "/a/{id}", "/b/{id}/c", "/~1", "/x-foo", "/UPPER", "/a b", "/é", "/a.json", "/true", "/{a}/{b}"})
	case "status":
		return Pick(g, []string{"200", "201", "204", "404", "500", "4XX", "5XX", "100", "599", "2XX"})
	case "method":
		return Pick(g, []string{"get", "put", "post", "delete", "options", "head", "patch", "trace"})
	case "callback":
		return Pick(g, []string{"{$request.body#/url}", "http://example.com?x={$url}", "a", "true", "1"})
	case "comp":
		return g.CompName()
	case "media":
		return Pick(g, []string{"application/json", "text/plain", "image/*", "application/x-www-form-urlencoded", "multipart/form-data", "*/*", "application/vnd.x+json"})
	}

	return g.Key()
}

// Val generates a value of a type.
func (gr *Grammar) Val(g *G, t *Ty, depth int) interface{} {
	g.budget--

	switch t.Kind {
	case KStr:
		return g.Str()
	case KURI:
		return g.URI()
	case KEmail:
		return Pick(g, []string{"a@b.com", "x.y@example.org"})
	case KRegex:
		return Pick(g, []string{"^a+$", "[a-z]{2}", "\\d+", "^x-", ""})
	case KBool:
		return g.P(50)
	case KNat:
		return g.Nat()
	case KNum:
		return g.Number()
	case KPosNum:
		return Pick(g, []json.Number{"1", "2", "0.5", "0.1", "1e3", "3"})
	case KAny:
		return g.Any(2)
	case KEnum:
		return Pick(g, t.Enum)
	case KVersion:
		return Pick(g, t.Enum)
	case KEnt:
		return gr.Entity(g, t.Ent, depth)
	case KOrRef:
		if depth <= 0 || g.P(25) {
			return gr.ref(g, t)
		}

		return gr.Entity(g, t.Ent, depth)
	case KList:
		n := 0

		lo := t.MinItems
		if !g.Empty && lo == 0 {
			lo = 1
		}

		hi := 3
		if depth <= 1 {
			hi = 1
		}

		if hi < lo {
			hi = lo
		}

		n = g.Int(lo, hi)
		l := A{}
		seen := map[string]bool{}

		for i := 0; i < n; i++ {
			v := gr.Val(g, t.Elem, depth-1)
			if t.Unique {
				b, _ := json.Marshal(v)
				if seen[string(b)] {
					continue
				}

				seen[string(b)] = true
			}

			l = append(l, v)
		}

		return l
	case KMap:
		lo := t.MinItems
		if !g.Empty && lo == 0 {
			lo = 1
		}

		hi := 3
		if depth <= 1 {
			hi = 1
		}

		if t.Max > 0 {
			hi = t.Max
		}

		m := M{}
		for i := g.Int(lo, hi); i > 0; i-- {
			k := g.patKey(t.MapKeys)
			m[k] = gr.Val(g, t.Elem, depth-1)
		}

		return m
	case KBoolOrSchema:
		if g.P(40) {
			return g.P(50)
		}

		return gr.Val(g, &Ty{Kind: KOrRef, Ent: "Schema", RefDir: "schemas"}, depth-1)
	case KSecReq:
		m := M{}
		for i := g.Int(0, 2); i > 0; i-- {
			l := A{}
			for j := g.Int(0, 2); j > 0; j-- {
				l = append(l, Pick(g, []string{"read", "write:pets", ""}))
			}

			m[Pick(g, []string{"api_key", "oauth", "x-sec", "b"})] = l
		}

		return m
	case KSchema31:
		return gr.schema31(g, 2)
	case KUnion:
		return gr.Val(g, t.Alts[g.Int(0, len(t.Alts)-1)], depth)
	}

	panic("unknown kind")
}

func (gr *Grammar) ref(g *G, t *Ty) interface{} {
	m := M{}

	if t.RefDir == "" || g.P(20) {
		m["$ref"] = Pick(g, []string{"other.yaml", "https://example.com/x.json#/a/b", "../x.json#/components/schemas/A"})
	} else {
		m["$ref"] = "#/components/" + t.RefDir + "/" + g.CompName()
	}

	if gr.V31 {
		if g.P(20) {
			m["summary"] = g.Str()
		}

		if g.P(20) {
			m["description"] = g.Str()
		}
	}

	return m
}

// Entity generates an entity.
func (gr *Grammar) Entity(g *G, name string, depth int) interface{} {
	e := gr.Ents[name]
	if e == nil {
		panic("no entity " + name)
	}

	m := M{}

	p := 35
	if g.Dense {
		p = 65
	}

	if depth <= 1 {
		p /= 2
	}

	if g.budget < 0 || depth <= 0 {
		p = 0
	}

	if p > 0 && g.P(3) && depth < 6 {
		p = 95
	}

	for _, f := range e.Fields {
		if f.Req || (p > 0 && g.P(p)) {
			m[f.K] = gr.Val(g, f.T, depth-1)
		}
	}

	if e.PatT != nil {
		n := 0
		if p > 0 || e.Pat == "status" {
			n = g.Int(0, 2)
		}

		if e.Pat == "path" && depth >= 4 {
			n = g.Int(1, 3)
		}

		for ; n > 0; n-- {
			m[g.patKey(e.Pat)] = gr.Val(g, e.PatT, depth-1)
		}
	}

	if e.Ext && g.P(p/3) {
		for n := g.Int(1, 2); n > 0; n-- {
			m[Pick(g, []string{"x-a", "x-", "x-b-c", "x-internal", "x-null", "x-1"})] = g.Any(2)
		}
	}

	if e.AnyExtra && g.P(p/3) {
		m["zzz"] = g.Any(1)
	}

	if e.Post != nil {
		e.Post(g, m)
	}

	return m
}

// schema31 draws a free JSON Schema 2020-12 object.
func (gr *Grammar) schema31(g *G, depth int) interface{} {
	m := M{}

	add := func(k string, f func() interface{}) {
		if g.P(12) {
			m[k] = f()
		}
	}
	sub := func() interface{} {
		if g.P(12) {
			return g.P(50)
		}

		return gr.schema31(g, depth-1)
	}

	if g.P(20) {
		m["$ref"] = "#/components/schemas/" + g.CompName()
	}

	if g.P(60) {
		types := []string{"string", "integer", "number", "object", "array", "boolean", "null"}
		if g.P(30) {
			m["type"] = A{Pick(g, types[:3]), "null"}
		} else {
			m["type"] = Pick(g, types)
		}
	}

	add("title", func() interface{} { return g.Str() })
	add("description", func() interface{} { return g.Str() })
	add("default", func() interface{} { return g.Any(1) })
	add("const", func() interface{} { return g.Any(1) })
	add("enum", func() interface{} { return A{g.Any(1), g.Any(1)} })
	add("examples", func() interface{} { return A{g.Any(1)} })
	add("minimum", func() interface{} { return g.Number() })
	add("exclusiveMaximum", func() interface{} { return g.Number() })
	add("maxLength", func() interface{} { return g.Nat() })
	add("pattern", func() interface{} { return "^a" })
	add("format", func() interface{} { return g.Str() })
	add("required", func() interface{} { return A{"a"} })
	add("deprecated", func() interface{} { return g.P(50) })
	add("x-ext", func() interface{} { return g.Any(1) })
	add("unknownKeyword", func() interface{} { return g.Any(1) })
	add("contentMediaType", func() interface{} { return "application/octet-stream" })
	add("discriminator", func() interface{} { return M{"propertyName": "a", "mapping": M{"x": "#/components/schemas/Foo"}} })

	if depth > 0 {
		add("properties", func() interface{} { return M{g.Key(): sub(), "p": sub()} })
		add("patternProperties", func() interface{} { return M{"^a": sub()} })
		add("additionalProperties", sub)
		add("items", sub)
		add("prefixItems", func() interface{} { return A{sub(), sub()} })
		add("allOf", func() interface{} { return A{sub()} })
		add("anyOf", func() interface{} { return A{sub(), sub()} })
		add("oneOf", func() interface{} { return A{sub()} })
		add("not", sub)
		add("if", sub)
		add("then", sub)
		add("$defs", func() interface{} { return M{"d": sub()} })
		add("dependentSchemas", func() interface{} { return M{"a": sub()} })
		add("unevaluatedProperties", sub)
	}

	return m
}

// Doc generates a whole document.
func (gr *Grammar) Doc(g *G) M {
	g.V31 = gr.V31
	g.budget = 150

	return gr.Entity(g, "Spec", 7).(M)
}

// Fragment generates one entity.
func (gr *Grammar) Fragment(g *G, name string) M {
	g.V31 = gr.V31
	g.budget = 80

	return gr.Entity(g, name, 4).(M)
}

// Names lists entities.
func (gr *Grammar) Names() []string {
	r := make([]string, 0, len(gr.Ents))
	for k := range gr.Ents {
		r = append(r, k)
	}

	sort.Strings(r)

	return r
}

// FragmentTy generates a fragment of a type.
func (gr *Grammar) FragmentTy(g *G, t *Ty) interface{} {
	g.V31 = gr.V31
	g.budget = 80

	return gr.Val(g, t, 4)
}

// PatKeyOf draws a key of a kind.
func PatKeyOf(g *G, pat string) string { return g.patKey(pat) }

// ValTop generates a value with its own budget.
func (gr *Grammar) ValTop(g *G, t *Ty, depth int) interface{} {
	g.V31 = gr.V31
	g.budget = 20

	return gr.Val(g, t, depth)
}
