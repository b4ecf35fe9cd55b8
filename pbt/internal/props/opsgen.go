package props

import (
	"fmt"
	"reflect"
	"regexp"
	"strings"

	"pgregory.net/rapid"
	"verif/pbt/internal/tgen"
	"verif/pbt/internal/zoo"
)

// opGen generates content units and operations.
type opGen struct {
	t     *rapid.T
	n     int
	named map[string]bool // named types used in the current structure

	names  []usedName // names of fields so far
	reused bool       // the last name was used before

	// The schema library makes definitions of lists and of enumerated scalars nullable depending on the place
	// that was seen first (known finding of C15), so that lists are only used as plain fields
	// or only in other places of one case, and pointers to them are not used.
	listFields bool
}

func newOpGen(t *rapid.T) *opGen {
	return &opGen{t: t, named: map[string]bool{}, listFields: rapid.Bool().Draw(t, "list fields")}
}

func isNamedList(n string) bool {
	switch n {
	case "Items", "Dict", "EmbList", "EmbDict", "Point", "ForceList":
		return true
	}

	return strings.Contains(n, ".List") || strings.Contains(n, ".Dict")
}

func isNamedEnum(n string) bool { return n == "Level" || n == "Color" || n == "Code" }

// zooType picks a named type for a place: field, root, elem or ptr.
func (g *opGen) zooType(place string, names []string) tgen.T {
	n := pick(g.t, names)

	if isNamedList(n) && (place == "ptr" || g.listFields != (place == "field")) || place == "ptr" && isNamedEnum(n) {
		n = "Doc"
	}

	return tgen.Zoo(n)
}

func (g *opGen) next() int { g.n++; return g.n }

func (g *opGen) w(p int) bool { return chance(g.t, p) }

// usedName is the name of a field with its location.
type usedName struct{ in, name string }

var plainName = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9_]*$`)

// name makes a name for a location that is unique there: a new one, one that is used in another location,
// or one that differs from another name only in case.
func (g *opGen) name(in string) string {
	name := g.freshName(in)
	g.reused = false

	if in != "header" && len(g.names) > 0 && g.w(14) {
		p := pick(g.t, g.names)
		n := p.name

		if p.in == in || g.w(30) {
			if n = strings.ToUpper(n); n == p.name {
				n = strings.ToLower(n)
			}
		}

		ok := plainName.MatchString(n)

		for _, u := range g.names {
			// Fields with tag form are parameters and fields of the body.
			if u.name == n && (u.in == in || u.in == "form" || in == "form") {
				ok = false
			}
		}

		if ok {
			name, g.reused = n, true
		}
	}

	g.names = append(g.names, usedName{in, name})

	return name
}

func (g *opGen) freshName(in string) string {
	i := g.next()

	switch in {
	case "header":
		return pick(g.t, []string{fmt.Sprintf("X-H%d", i), fmt.Sprintf("x-low-%d", i), fmt.Sprintf("XH%d", i)})
	case "path":
		return pick(g.t, []string{fmt.Sprintf("id%d", i), fmt.Sprintf("snake_%d", i), fmt.Sprintf("kebab-%d", i), fmt.Sprintf("dot.%d", i)})
	}

	return pick(g.t, []string{fmt.Sprintf("n%d", i), fmt.Sprintf("snake_%d", i), fmt.Sprintf("UP%d", i), fmt.Sprintf("dot.%d", i), fmt.Sprintf("arr%d[]", i), fmt.Sprintf("sp ce%d", i)})
}

var intKinds = []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64"}

func (g *opGen) scalar() string {
	switch drawInt(g.t, 0, 9) {
	case 0, 1, 2, 3:
		return "string"
	case 4:
		return "bool"
	case 5:
		return pick(g.t, []string{"float32", "float64"})
	case 6:
		return pick(g.t, []string{"time", "date", "bytes"})
	}

	return pick(g.t, intKinds)
}

// constraints makes tags that suit the kind.
func (g *opGen) constraints(kind string) string {
	t := g.t
	tag := ""

	add := func(k string, v interface{}) { tag += fmt.Sprintf(" %s:%q", k, fmt.Sprint(v)) }

	switch {
	case strings.HasPrefix(kind, "int") || strings.HasPrefix(kind, "uint") || strings.HasPrefix(kind, "float"):
		lo := drawInt(t, 0, 9)
		hi := lo + drawInt(t, 10, 90)

		// Bounds around zero are easily taken for absent ones.
		if g.w(20) {
			if strings.HasPrefix(kind, "uint") {
				lo = 0
			} else {
				lo = -drawInt(t, 0, 40)
			}

			hi = pick(t, []int{0, lo + 10, 50})
			if hi <= lo {
				hi = lo + 1
			}
		}

		switch drawInt(t, 0, 10) {
		case 0:
			add("minimum", lo)
		case 1:
			add("maximum", hi)
		case 2:
			add("minimum", lo)
			add("exclusiveMaximum", hi)
		case 3:
			add("exclusiveMinimum", lo)
			add("maximum", hi)
		case 4:
			add("multipleOf", drawInt(t, 2, 5))
		case 5:
			add("enum", fmt.Sprintf("%d,%d", lo, hi))
		case 6:
			if strings.HasPrefix(kind, "float") {
				add("minimum", fmt.Sprintf("%d.25", lo))
				add("maximum", fmt.Sprintf("%d.5", hi+1))
			} else {
				add("minimum", lo)
				add("maximum", hi)
			}
		}

		if g.w(10) {
			add("default", lo+1)
		}

		if g.w(10) {
			add("example", lo+2)
		}
	case kind == "string":
		switch drawInt(t, 0, 9) {
		case 0:
			add("minLength", drawInt(t, 1, 3))
		case 1:
			add("maxLength", pick(t, []int{0, 1, 4, 9}))
		case 5:
			lo := drawInt(t, 0, 3)
			add("minLength", lo)
			add("maxLength", lo+drawInt(t, 0, 4))
		case 2:
			add("pattern", pick(t, []string{"^[a-z]+$", `^\d{2,3}$`, "x|y"}))
		case 3:
			add("format", pick(t, []string{"uuid", "email", "uri", "date-time"}))
		case 4:
			add("enum", "a,b,c")
		}

		if g.w(10) {
			add("default", "def")
		}

		if g.w(10) {
			add("example", "ex")
		}
	case kind == "bool":
		if g.w(20) {
			add("default", pick(t, []string{"true", "false"}))
		}
	case kind == "slice":
		switch drawInt(t, 0, 5) {
		case 0:
			add("minItems", drawInt(t, 1, 2))
		case 1:
			add("maxItems", pick(t, []int{0, 1, 3, 5}))
		case 2:
			add("uniqueItems", "true")
		case 3:
			lo := drawInt(t, 0, 2)
			add("minItems", lo)
			add("maxItems", lo+drawInt(t, 0, 3))
		}
	case kind == "map":
		switch drawInt(t, 0, 5) {
		case 0:
			add("minProperties", 1)
		case 1:
			add("maxProperties", pick(t, []int{0, 1, 2, 4}))
		case 2:
			add("minProperties", 1)
			add("maxProperties", drawInt(t, 1, 3))
		}
	}

	if g.w(15) {
		add("title", fmt.Sprintf("Title %d", g.next()))
	}

	return tag
}

func (g *opGen) common() string {
	tag := ""

	if g.w(25) {
		tag += fmt.Sprintf(" description:%q", pick(g.t, []string{"Some text.", "With \"quotes\", commas: and colons", "Ünicode"})+fmt.Sprint(g.next()))
	}

	if g.w(30) {
		tag += fmt.Sprintf(" required:%q", pick(g.t, []string{"true", "true", "true", "false"}))
	}

	if g.w(12) {
		tag += fmt.Sprintf(" deprecated:%q", pick(g.t, []string{"true", "true", "false"}))
	}

	return tag
}

// once picks a named type that is not used in this structure yet.
func (g *opGen) once(names ...string) (string, bool) {
	n := pick(g.t, names)
	if g.named[n] {
		return "", false
	}

	g.named[n] = true

	return n, true
}

// paramType makes the type of a parameter or header with tags that belong to it.
func (g *opGen) paramType(in string) (tgen.T, string) {
	t := g.t

	switch drawInt(t, 0, 13) {
	case 0, 1:
		e := g.scalar()
		if e == "bytes" {
			e = "string"
		}

		tag := g.constraints("slice")
		if g.w(60) {
			tag += fmt.Sprintf(" collectionFormat:%q", pick(t, []string{"csv", "ssv", "pipes", "multi", "json"}))
		}

		return tgen.Of("slice", tgen.Basic(e)), tag
	case 2:
		k := g.scalar()

		return tgen.Of("ptr", tgen.Basic(k)), g.constraints(k)
	case 3:
		if n, ok := g.once("Level", "Color", "TextID", "Code", "a.Scalar0", "a.Scalar1", "b.Scalar0", "b.Scalar4"); ok {
			return tgen.Zoo(n), ""
		}
	case 4:
		if in != "respheader" {
			if n, ok := g.once("JSONFilter", "Doc", "Inline", "a.Item0", "Tree"); ok {
				ty := tgen.Zoo(n)
				if g.w(20) {
					ty = tgen.Of("ptr", ty)
				}

				return ty, ""
			}
		}
	case 5:
		if in == "query" {
			if n, ok := g.once("Filter"); ok {
				return tgen.Zoo(n), ""
			}

			return tgen.Of("map", tgen.Basic(pick(t, []string{"int", "string", "bool"}))), g.constraints("map")
		}
	case 6:
		if in != "respheader" {
			return tgen.T{K: "struct", F: []tgen.F{
				{N: "A", T: tgen.Basic(g.scalar()), Tag: `json:"a"`},
				{N: "B", T: tgen.Of("slice", tgen.Basic("int")), Tag: `json:"b,omitempty" maxItems:"3"`},
			}}, ""
		}
	}

	k := g.scalar()

	return tgen.Basic(k), g.constraints(k)
}

func (g *opGen) paramField(in string) tgen.F {
	i := g.next()
	ty, tag := g.paramType(in)
	name := g.name(in)
	loc := in

	if k := ty.K; in == "query" && k != "zoo" && k != "struct" && k != "ptr" && !g.reused && g.w(10) {
		loc = "form"
		g.names[len(g.names)-1].in = loc
	}

	tag = fmt.Sprintf("%s:%q", loc, name) + tag + g.common()

	if in == "query" && g.w(8) {
		tag += ` allowEmptyValue:"true"`
	}

	if in == "query" && g.w(8) {
		tag += fmt.Sprintf(" allowReserved:%q", pick(g.t, []string{"true", "false"}))
	}

	if g.w(6) {
		tag += fmt.Sprintf(" explode:%q", pick(g.t, []string{"true", "false"}))
	}

	if g.w(5) {
		styles := map[string][]string{"query": {"form", "spaceDelimited", "pipeDelimited", "deepObject"}, "path": {"simple", "label", "matrix"}, "header": {"simple"}, "cookie": {"form"}}
		tag += fmt.Sprintf(" style:%q", pick(g.t, styles[in]))
	}

	if loc != "form" && g.w(20) {
		tag += ` json:"-"`
	}

	return tgen.F{N: fmt.Sprintf("P%d", i), T: ty, Tag: tag}
}

// bodyType makes a type for JSON or form data.
func (g *opGen) bodyType(place string, depth int) (tgen.T, string) {
	t := g.t

	switch n := drawInt(t, 0, 15); {
	case n < 5 || depth <= 0:
		k := g.scalar()

		return tgen.Basic(k), g.constraints(k)
	case n < 7:
		return g.zooType(place, zoo.Generated), ""
	case n < 9:
		return g.zooType(place, zoo.Special), ""
	case n == 9:
		e, _ := g.bodyType("elem", depth-1)

		return tgen.Of("slice", e), g.constraints("slice")
	case n == 10:
		e, _ := g.bodyType("elem", depth-1)

		return tgen.Of("map", e), g.constraints("map")
	case n == 11:
		return tgen.Of("ptr", g.zooType("ptr", pick(t, [][]string{zoo.Special, zoo.Generated}))), ""
	case n == 12:
		k := g.scalar()

		return tgen.Of("ptr", tgen.Basic(k)), g.constraints(k)
	case n == 13:
		return tgen.Basic(pick(t, []string{"any", "raw"})), ""
	case n == 14:
		return tgen.T{K: "struct", F: g.fields("json", depth-1, 1, 3)}, ""
	}

	return tgen.T{K: "array", N: drawInt(t, 1, 3), E: &tgen.T{K: "string"}}, ""
}

func (g *opGen) fields(tag string, depth, min, max int) []tgen.F {
	var res []tgen.F

	for i := drawInt(g.t, min, max); i > 0; i-- {
		res = append(res, g.bodyField(tag, depth))
	}

	return res
}

func (g *opGen) bodyField(tag string, depth int) tgen.F {
	i := g.next()
	name := g.name("body")
	ty, extra := g.bodyType("field", depth)

	if tag == "json" && !(ty.K == "zoo" && isNamedList(ty.Z)) && g.w(25) {
		name += ",omitempty"
	}

	return tgen.F{N: fmt.Sprintf("B%d", i), T: ty, Tag: fmt.Sprintf("%s:%q", tag, name) + extra + g.common()}
}

func (g *opGen) formField(tag string) tgen.F {
	i := g.next()
	in := "body"

	if tag == "form" {
		in = tag
	}

	name := g.name(in)

	var (
		ty    tgen.T
		extra string
	)

	n := drawInt(g.t, 0, 11)
	if tag == "form" && (n < 2 || n == 3) {
		n = 2 // Form fields are parameters as well.
	}

	switch n {
	case 0:
		ty = tgen.Basic(pick(g.t, []string{"file", "filehdr"}))
	case 1:
		ty = tgen.Basic(pick(g.t, []string{"files", "filehdrs"}))
	case 2:
		ty, extra = tgen.Of("slice", tgen.Basic("string")), g.constraints("slice")
	case 3:
		ty = g.zooType("field", []string{"Level", "Color", "TextID", "Code", "Doc", "Items", "WithEmb", "a.Item1", "b.Item2"})
	case 4:
		ty = tgen.Of("ptr", tgen.Basic("int"))
	default:
		k := g.scalar()
		ty, extra = tgen.Basic(k), g.constraints(k)
	}

	return tgen.F{N: fmt.Sprintf("F%d", i), T: ty, Tag: fmt.Sprintf("%s:%q", tag, name) + extra + g.common()}
}

// mapped moves some names from tags to a mapping.
func (g *opGen) mapped(u *unitDesc, in string, p int, tags ...string) {
	for i, f := range u.T.F {
		if f.Emb || f.N == "_" || !g.w(p) {
			continue
		}

		for _, tag := range tags {
			name, ok := reflect.StructTag(f.Tag).Lookup(tag)
			if !ok || strings.ContainsAny(name, ",") {
				continue
			}

			if u.Map == nil {
				u.Map = map[string]map[string]string{}
			}

			if u.Map[in] == nil {
				u.Map[in] = map[string]string{}
			}

			u.Map[in][f.N] = name

			if g.w(10) {
				u.Map[in][f.N] = "-" // The field is left out.
			} else if g.w(70) {
				u.T.F[i].Tag = strings.TrimSpace(strings.Replace(f.Tag, fmt.Sprintf("%s:%q", tag, name), "", 1))
			} else {
				u.Map[in][f.N] = name + "m"
			}

			break
		}
	}
}

func (g *opGen) form(u *unitDesc) {
	switch n := drawInt(g.t, 0, 9); {
	case n < 6:
		u.Form = "val"
	case n < 9:
		u.Form = "ptr"
	default:
		u.Form = "nilptr"
	}

	if u.T.K == "zoo" && (isNamedList(u.T.Z) || isNamedEnum(u.T.Z)) {
		u.Form = "val"
	}

	if u.T.K == "virt" && u.Form == "nilptr" {
		u.Form = "ptr"
	}
}

// reqStruct makes a structure with fields in several locations.
func (g *opGen) reqStruct(u *unitDesc) {
	t := g.t
	g.named = map[string]bool{}
	u.T = tgen.T{K: "struct"}

	if g.w(20) {
		u.T.F = append(u.T.F, tgen.F{N: "Params", T: tgen.Zoo(pick(t, []string{"Params", "a.Params0", "b.Params1", "a.Params2"})), Emb: true})
	}

	for i := drawInt(t, 0, 4); i > 0; i-- {
		u.T.F = append(u.T.F, g.paramField(pick(t, []string{"query", "query", "path", "cookie", "header"})))
	}

	switch drawInt(t, 0, 9) {
	case 0, 1, 2:
		u.T.F = append(u.T.F, g.fields("json", 2, 1, 4)...)
	case 3, 4:
		tag := pick(t, []string{"formData", "formData", "form"})
		for i := drawInt(t, 1, 3); i > 0; i-- {
			u.T.F = append(u.T.F, g.formField(tag))
		}
	case 5:
		u.T.F = append(u.T.F, g.formField("formData"), g.bodyField("json", 1))
	case 6:
		if g.w(40) {
			i := g.next()
			u.T.F = append(u.T.F, tgen.F{N: fmt.Sprintf("R%d", i), T: tgen.Basic("string"), Tag: fmt.Sprintf(`contentType:"text/x-r%d"`, i)})
		} else {
			i := g.next()
			loc := pick(t, []string{"query", "header", "cookie"})
			k := g.scalar()
			u.T.F = append(u.T.F, tgen.F{N: fmt.Sprintf("M%d", i), T: tgen.Basic(k), Tag: fmt.Sprintf(`%s:"X-M%d" json:"m%d"`, loc, i, i) + g.constraints(k) + g.common()})
		}
	}

	// Order of fields matters.
	if len(u.T.F) > 1 && g.w(50) {
		i := drawInt(t, 0, len(u.T.F)-1)
		u.T.F[0], u.T.F[i] = u.T.F[i], u.T.F[0]
	}

	if g.w(10) {
		u.T.F = append(u.T.F, tgen.F{N: "_", T: tgen.Basic("empty"), Tag: pick(t, []string{
			`query:"_" additionalProperties:"false"`, `header:"_" cookie:"_" additionalProperties:"false"`, `path:"_" additionalProperties:"false"`,
			`title:"Titled." description:"Described."`, `query:"_" header:"_" additionalProperties:"true"`,
			`query:"_" cookie:"_" path:"_" header:"_" additionalProperties:"false"`,
		})})
	}

	if g.w(15) {
		g.mapped(u, pick(t, []string{"query", "path", "cookie", "header"}), 50, "query", "path", "cookie", "header")
		g.fixMapping(u)
	}
}

// fixMapping keeps only mappings whose field still is of that location, others would move it.
func (g *opGen) fixMapping(u *unitDesc) {
	for in, m := range u.Map {
		for f := range m {
			for _, x := range u.T.F {
				if x.N != f {
					continue
				}

				for _, loc := range []string{"query", "path", "cookie", "header"} {
					if _, ok := reflect.StructTag(x.Tag).Lookup(loc); ok && loc != in {
						delete(m, f)
					}
				}

				// JSON encoding and styles depend on location.
				if k := x.T.K; k == "zoo" || k == "struct" || k == "map" || k == "ptr" {
					if _, ok := m[f]; ok && in != "query" {
						delete(m, f)
					}
				}

				if strings.Contains(x.Tag, "style:") {
					delete(m, f)
				}
			}
		}

		if len(m) == 0 {
			delete(u.Map, in)
		}
	}
}

var handReq = []string{"ForceAll", "ForcePtr", "ForceJSON", "ForceBoth", "MixedForm", "FormTree", "ForceList", "Params", "Filter", "ClosedQuery", "ClosedMany", "ClosedBody", "Upload", "Raw", "Empty", "NoTags"}

func (g *opGen) reqUnit() unitDesc {
	t := g.t
	u := unitDesc{}

	switch n := drawInt(t, 0, 99); {
	case n < 45:
		g.reqStruct(&u)
	case n < 60:
		u.T = tgen.Zoo(pick(t, zoo.Requests))
	case n < 68:
		u.T = g.zooType("root", zoo.Special)
		if u.T.Z == "ReferEmb" {
			u.T.Z = "DeepEmb" // Known finding of C14: its parameters make a definition of the embedded type.
		}
	case n < 75:
		u.T = g.zooType("root", zoo.Generated)
	case n < 80:
		e, _ := g.bodyType("elem", 1)
		u.T = tgen.Of(pick(t, []string{"slice", "map"}), e)
	case n < 90:
		u.T = g.zooType("root", handReq)
	case n < 95:
		g.virtUnit(&u, "query", "header")
	default:
		u.T = tgen.Basic("nil")
		u.CT = pick(t, []string{"text/plain", "image/png", "application/xml"})

		if g.w(40) {
			u.Format = "binary"
		}
	}

	g.form(&u)

	if u.CT == "" && g.w(12) {
		u.CT = pick(t, []string{mJSON, mForm, mMulti, "text/plain", "application/octet-stream"})
	}

	g.unitExtras(&u, "requestBodies")

	return u
}

func (g *opGen) unitExtras(u *unitDesc, comp string) {
	if g.w(15) {
		u.Desc = fmt.Sprintf("Unit %d.", g.next())
	}

	if g.w(8) {
		u.Ext = fmt.Sprintf("x-u%d", g.next())
	} else if g.w(4) {
		u.Ref = fmt.Sprintf("#/components/%s/C%d", comp, g.next())
	}

	if u.T.K != "nil" && g.w(8) {
		u.Prep = true
	}
}

func (g *opGen) virtUnit(u *unitDesc, locs ...string) {
	u.T = tgen.T{K: "virt"}

	if g.w(50) {
		u.T.D = fmt.Sprintf("Virt%d", g.next())
	}

	g.named = map[string]bool{}

	for i := drawInt(g.t, 1, 4); i > 0; i-- {
		if len(locs) > 0 && g.w(30) {
			in := pick(g.t, locs)
			k := g.scalar()
			u.T.F = append(u.T.F, tgen.F{N: fmt.Sprintf("P%d", g.next()), T: tgen.Basic(k), Tag: fmt.Sprintf("%s:%q", in, g.name(in)) + g.constraints(k) + g.common()})
		} else {
			f := g.bodyField("json", 1)
			if f.T.K == "any" { // A virtual field needs a value.
				f.T.K = "string"
			}

			u.T.F = append(u.T.F, f)
		}
	}
}

var statuses = []int{0, 0, 200, 201, 204, 304, 400, 404, 500, 503, 1, 2, 3, 4, 5}

func (g *opGen) respUnit() unitDesc {
	t := g.t
	u := unitDesc{Status: pick(t, statuses)}

	if g.w(10) {
		u.Default = true

		if g.w(70) {
			u.Status = 0
		}
	}

	switch n := drawInt(t, 0, 99); {
	case n < 30:
		g.respStruct(&u)
	case n < 45:
		u.T = tgen.Zoo(pick(t, zoo.Responses))
	case n < 58:
		u.T = g.zooType("root", zoo.Special)
	case n < 68:
		u.T = g.zooType("root", zoo.Generated)
	case n < 75:
		e, _ := g.bodyType("elem", 1)
		u.T = tgen.Of(pick(t, []string{"slice", "map"}), e)
	case n < 82:
		u.T = tgen.Zoo(pick(t, []string{"WithHeaders", "HeadersOnly", "Raw", "Empty", "NoTags", "Shape", "AnyShape", "Negative", "Doc", "ClosedBody"}))
	case n < 86:
		g.virtUnit(&u, "header")
	case n < 90:
		u.T = tgen.Basic(pick(t, []string{"string", "int", "bool", "time"}))
	default:
		u.T = tgen.Basic("nil")
	}

	g.form(&u)

	if g.w(25) {
		u.CT = pick(t, []string{mJSON, "text/plain", "text/html; charset=utf-8", "application/problem+json", "application/json; charset=utf-8", "image/png", "text/csv;header=present"})

		if g.w(30) {
			u.Format = pick(t, []string{"binary", "byte"})
		}
	}

	for i, f := range u.T.F {
		if strings.HasPrefix(f.Tag, "contentType:") && g.w(30) { // Same as that of the JSON content.
			mime := mJSON
			if u.CT != "" {
				mime = strings.Split(u.CT, ";")[0]
			}

			u.T.F[i].Tag = fmt.Sprintf("contentType:%q", mime)
		}
	}

	g.unitExtras(&u, "responses")

	return u
}

func (g *opGen) respStruct(u *unitDesc) {
	t := g.t
	g.named = map[string]bool{}
	u.T = tgen.T{K: "struct"}

	for i := drawInt(t, 0, 3); i > 0; i-- {
		f := tgen.F{N: fmt.Sprintf("H%d", g.next())}

		var tag string

		f.T, tag = g.paramType("respheader")
		f.Tag = fmt.Sprintf("header:%q", g.name("header")) + tag + g.common()

		if g.w(80) {
			f.Tag += ` json:"-"`
		}

		if g.w(6) {
			f.Tag += ` explode:"true"`
		}

		u.T.F = append(u.T.F, f)
	}

	if g.w(70) {
		u.T.F = append(u.T.F, g.fields("json", 2, 1, 3)...)
	}

	if g.w(10) {
		i := g.next()
		u.T.F = append(u.T.F, tgen.F{N: fmt.Sprintf("R%d", i), T: tgen.Basic("string"), Tag: fmt.Sprintf(`contentType:"text/x-r%d"`, i)})
	}

	if g.w(15) {
		u.T.F = append(u.T.F, tgen.F{N: "_", T: tgen.Basic("empty"), Tag: pick(t, []string{`description:"Response described."`, `title:"T" additionalProperties:"false"`})})
	}

	if g.w(15) {
		g.mapped(u, "header", 40, "header")
	}
}

// media types of a unit, used to keep them distinct.
func mediaOf(x map[string]interface{}) []string {
	var res []string
	for k := range asMap(x["content"]) {
		res = append(res, k)
	}

	return res
}

func overlap(used map[string]bool, l []string) bool {
	for _, k := range l {
		if used[k] {
			return true
		}
	}

	for _, k := range l {
		used[k] = true
	}

	return false
}

// tidy removes units that contradict others.
func (o *opDesc) tidy() {
	m := newModel(true, false)
	used := map[string]bool{}

	var req []unitDesc

	ref := -1 // Unit whose body is replaced with a reference.

	for _, u := range o.Req {
		plain := u
		plain.Ref = ""

		b, err := m.body(plain, o.Method, nil)
		if err == nil && overlap(used, mediaOf(b)) {
			continue
		}

		// Content can not be added to a reference.
		if ref >= 0 && (len(b) > 0 || u.Ref != "") {
			req[ref].Ref = ""
			ref = -1
		}

		if ref >= 0 {
			u.Ext = ""
		}

		if u.Ref != "" {
			ref = len(req)
		}

		req = append(req, u)
	}

	if l := len(req); l > 0 {
		o.Req = req
	} else {
		o.Req = nil
	}

	usedBy := map[string]map[string]bool{}
	last := map[string]int{}

	var resp []unitDesc

	for _, u := range o.Resp {
		k := statusKey(u)
		if usedBy[k] == nil {
			usedBy[k] = map[string]bool{}
		}

		plain := u
		plain.Ref = ""

		r, err := m.response(plain, o.Method, nil)
		if err == nil {
			l := mediaOf(r)
			for hn := range asMap(r["headers"]) {
				l = append(l, "header "+hn)
			}

			if overlap(usedBy[k], l) {
				continue
			}
		}

		if j, ok := last[k]; ok {
			resp[j].Ref = ""
		}

		last[k] = len(resp)
		resp = append(resp, u)
	}

	o.Resp = resp
}

// operation generates an operation.
func (g *opGen) operation() opDesc {
	t := g.t
	o := opDesc{Method: genMethodSpelling(t, pick(t, httpMethods))}

	if g.w(60) {
		o.Method = genMethodSpelling(t, pick(t, []string{"post", "put", "patch"}))
	}

	for i := pick(t, []int{0, 1, 1, 1, 2, 3}); i > 0; i-- {
		o.Req = append(o.Req, g.reqUnit())
	}

	for i := pick(t, []int{0, 1, 1, 2, 3, 4}); i > 0; i-- {
		o.Resp = append(o.Resp, g.respUnit())
	}

	o.tidy()
	o.Path = g.path(o.Req)
	g.metadata(&o)

	return o
}

func (g *opGen) metadata(o *opDesc) {
	if g.w(30) {
		for i := drawInt(g.t, 1, 3); i > 0; i-- {
			o.Tags = append(o.Tags, fmt.Sprintf("tag %d", g.next()))
		}
	}

	if g.w(30) {
		o.Summary = fmt.Sprintf("Summary %d", g.next())
	}

	if g.w(30) {
		o.Desc = fmt.Sprintf("Operation %d.\n\nLong.", g.next())
	}

	if g.w(30) {
		o.ID = fmt.Sprintf("op%d", g.next())
	}

	o.Deprecated = g.w(15)

	if g.w(20) {
		for i := drawInt(g.t, 1, 3); i > 0; i-- {
			s := secDesc{Name: pick(g.t, []string{"basic", "key", "oauth"})}

			for j := drawInt(g.t, 0, 2); j > 0; j-- {
				s.Scopes = append(s.Scopes, fmt.Sprintf("scope%d", g.next()))
			}

			o.Sec = append(o.Sec, s)
		}
	}
}

// path makes a path that suits the structures, rarely one that does not.
func (g *opGen) path(req []unitDesc) string {
	p := pathOf(pick(g.t, []string{"/a", "/b", "/a/b", "/c-d_e.f", "/x~y"}), req)

	if g.w(25) {
		p = strings.ReplaceAll(p, "}", pick(g.t, []string{":[0-9]+}", ":[a-z]{2,3}}", ":.*}"}))
	}

	if g.w(15) {
		p += pick(g.t, []string{"/", "/tail", ".json"})
	}

	return p
}
