package props

import (
	"fmt"
	"hash/fnv"
	"path"
	"reflect"
	"regexp"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
	"verif/pbt/internal/jsv"
	"verif/pbt/internal/tgen"
)

// opsCase is a sequence of operations in one document.
type opsCase struct {
	Is31 bool     `json:"is31"`
	Fmts bool     `json:"fmts"`
	Ops  []opDesc `json:"ops"`

	// Names selects an interceptor of definition names.
	Names string `json:"names,omitempty"`
}

var defNames = map[string]func(rc *jsonschema.ReflectContext){
	"dots": jsonschema.InterceptDefName(func(t reflect.Type, n string) string {
		return path.Base(t.PkgPath()) + "." + t.Name()
	}),
	"path": jsonschema.InterceptDefName(func(t reflect.Type, n string) string {
		return t.PkgPath() + "." + t.Name()
	}),
	"letters": jsonschema.InterceptDefName(func(t reflect.Type, n string) string {
		return "é" + n + "数"
	}),
	"odd": jsonschema.InterceptDefName(func(t reflect.Type, n string) string {
		return n + "/~1 b#%" + n
	}),
	"same": jsonschema.InterceptDefName(func(t reflect.Type, n string) string {
		return "Same"
	}),
	"lower": jsonschema.InterceptDefName(func(t reflect.Type, n string) string {
		return strings.ToLower(n)
	}),
	// Names that differ only in the case of letters.
	"cases": jsonschema.InterceptDefName(func(t reflect.Type, n string) string {
		f := fnv.New32a()
		_, _ = f.Write([]byte(t.PkgPath() + "." + t.String() + n))

		b := []byte("abcdefghijklmnopqrstuvwxyzabcdef")
		for i := range b {
			if f.Sum32()&(1<<i) != 0 {
				b[i] -= 'a' - 'A'
			}
		}

		return string(b)
	}),
	"strip": jsonschema.StripDefinitionNamePrefix("Zoo", "A", "B"),
}

// genNames selects how definitions are named.
func genNames(t *rapid.T) string {
	if chance(t, 70) {
		return ""
	}

	return pick(t, h.SortedKeys(defNames))
}

// reflector makes a reflector with the options of the case.
func (c opsCase) reflector(is31 bool) openapi.Reflector {
	r := newReflector(is31, c.Fmts)

	if c.Names != "" {
		jr := r.JSONSchemaReflector()
		jr.DefaultOptions = append(jr.DefaultOptions, defNames[c.Names])
	}

	return r
}

// genOps generates operations with distinct paths.
func genOps(min, max int, virtNames bool) func(t *rapid.T) opsCase {
	return func(t *rapid.T) opsCase {
		g := newOpGen(t)
		c := opsCase{Is31: rapid.Bool().Draw(t, "is31"), Fmts: chance(t, 30)}

		for i := drawInt(t, min, max); i > 0; i-- {
			o := g.operation()
			o.Path = fmt.Sprintf("/p%d", len(c.Ops)) + o.Path

			if c.Is31 && chance(t, 10) {
				o.Webhook = true
				o.Path = fmt.Sprintf("hook%d", len(c.Ops)) + strings.ReplaceAll(o.Path, "/", "-")
			}

			if virtNames {
				for _, l := range [][]unitDesc{o.Req, o.Resp} {
					for j := range l {
						if l[j].T.K == "virt" && l[j].T.D == "" {
							l[j].T.D = fmt.Sprintf("VirtN%d", g.next())
						}
					}
				}
			}

			c.Ops = append(c.Ops, o)
		}

		c.Names = genNames(t)

		// With the same name for several types the order of reflection decides who gets it.
		if virtNames && (c.Names == "same" || c.Names == "strip") {
			c.Names = "dots"
		}

		return c
	}
}

var componentName = regexp.MustCompile(`^[a-zA-Z0-9.\-_]+$`)

// walkRefs visits references of schemas.
func walkRefs(v interface{}, path string, f func(path, ref string)) {
	switch x := v.(type) {
	case map[string]interface{}:
		if r, ok := x["$ref"].(string); ok {
			f(path, r)
		}

		for _, k := range h.SortedKeys(x) {
			if k == "example" || k == "examples" || k == "default" || k == "enum" {
				continue
			}

			walkRefs(x[k], path+"/"+k, f)
		}
	case []interface{}:
		for i, e := range x {
			walkRefs(e, fmt.Sprintf("%s/%d", path, i), f)
		}
	}
}

func checkRefs(doc map[string]interface{}) (n int, err error) {
	for k := range asMap(get(doc, "components", "schemas")) {
		if !componentName.MatchString(k) {
			return n, fmt.Errorf("component name %q has characters that are not allowed", k)
		}
	}

	walkRefs(doc, "", func(path, ref string) {
		if strings.HasPrefix(ref, "#/components/schemas/") {
			n++
		} else if strings.HasPrefix(ref, "#/components/") || strings.HasPrefix(ref, "https://") {
			return // given by the caller
		}

		if _, ok := jsv.Resolve(doc, ref); !ok && err == nil {
			err = fmt.Errorf("reference %q at %s does not resolve", ref, path)
		}
	})

	return n, err
}

// registerAll registers the operations that have to be accepted and returns their models.
func (c opsCase) registerAll() (doc map[string]interface{}, models []*opModel, exp []expectedOp, err error) {
	r := c.reflector(c.Is31)

	for i, o := range c.Ops {
		m := newModel(c.Is31, c.Fmts)
		e, want := m.operation(o)

		err := o.register(r)
		if (err == nil) != (want == nil) {
			return nil, nil, nil, fmt.Errorf("operation %d: expected error %v, got %v", i, want, err)
		}

		if err != nil {
			m = nil
		}

		models = append(models, m)
		exp = append(exp, e)
	}

	return docOf(r), models, exp, nil
}

func runC14(c opsCase, st *h.Stats) error {
	doc, models, exp, err := c.registerAll()
	if err != nil {
		return err
	}

	n, err := checkRefs(doc)
	if err != nil {
		return err
	}

	byComponent := map[string]string{}
	byType := map[[2]string]string{}
	places := map[string]int{}

	for i, m := range models {
		if m == nil {
			continue
		}

		got := findOp(doc, c.Ops[i].Webhook, exp[i].path, exp[i].method)
		if got == nil {
			return fmt.Errorf("operation %d is missing", i)
		}

		sim := newSimCtx(m.root(), doc)
		if d := sim.diff("", interface{}(exp[i].op), interface{}(normOp(got))); d != "" {
			return fmt.Errorf("operation %d (first expected, second documented): %s\nexpected:   %s\ndocumented: %s", i, d, cut(js(exp[i].op)), cut(js(got)))
		}

		for pair := range sim.seen {
			p := strings.SplitN(pair[0], "/", 4)
			if len(p) != 4 || p[1] != "roots" {
				continue
			}

			key := [2]string{m.ctx[p[2]], p[3]}

			if prev, ok := byComponent[pair[1]]; ok && prev != key[1] {
				return fmt.Errorf("%s is used for types %s and %s", pair[1], prev, key[1])
			}

			if prev, ok := byType[key]; ok && prev != pair[1] {
				return fmt.Errorf("type %s has components %s and %s", key[1], prev, pair[1])
			}

			byComponent[pair[1]] = key[1]
			byType[key] = pair[1]
			places[pair[1]]++
		}
	}

	multi := 0

	for k, p := range places {
		if p > 1 {
			multi++
		}

		st.ClassIf(strings.Contains(k, "Type2"), "types of the same name")
		st.ClassIf(strings.Contains(k, "FormData"), "form data type")
		st.ClassIf(strings.Contains(k, "Page") || strings.Contains(k, "Pair"), "generic type")
	}

	st.NonTrivialIf(len(places) > 1)
	st.ClassIf(multi > 0, "type in several operations")
	st.ClassIf(n > 0, "references")
	st.ClassIf(c.Is31, "3.1")
	st.ClassIf(c.Names != "", "names: "+c.Names)

	return nil
}

func init() {
	p := h.Register("C14", "Every schema reference resolves to the definition of its own Go type",
		"Types are identified by package path and name, virtual structures by their name.",
		"Definitions are compared with those that the JSON schema library makes for a type alone.")

	h.Add(p, "history", "document has at least two referenced components; sequences of operations with named types, several packages of the same base name, generics, recursive types, form data",
		4000, 250000, genOps(1, 8, false), runC14)

	h.Add(p, "bodies", "document has at least two referenced components; sequences of bodies and responses of named types",
		8000, 300000, func(t *rapid.T) opsCase {
			g := newOpGen(t)
			c := opsCase{Is31: rapid.Bool().Draw(t, "is31")}

			for i := drawInt(t, 2, 8); i > 0; i-- {
				o := opDesc{Method: pick(t, []string{"post", "put"}), Path: fmt.Sprintf("/p%d", len(c.Ops))}

				mk := func() unitDesc {
					u := unitDesc{}

					switch drawInt(t, 0, 4) {
					case 0:
						e, _ := g.bodyType("elem", 1)
						u.T = tgen.Of(pick(t, []string{"slice", "map"}), e)
					case 1:
						u.T = tgen.T{K: "struct", F: g.fields("json", 2, 1, 3)}
					case 2:
						// Form data of the same types.
						u.T = tgen.T{K: "struct", F: []tgen.F{g.formField("formData"), {N: "Nested", T: g.zooType("field", []string{"Doc", "WithEmb", "a.Item1", "Tree", "PageDoc", "x/a.Item1"}), Tag: `formData:"nested"`}}}
					default:
						u.T = g.zooType("root", pick(t, [][]string{{"a.Item0", "x/a.Item0", "b.Item0", "a.Item3", "x/a.Item3", "PageA0", "PageXA0", "PageB0"}, {"Doc", "Tree", "PagePage", "PageDoc", "Graph", "Node"}}))
					}

					g.form(&u)

					return u
				}

				if chance(t, 70) {
					o.Req = []unitDesc{mk()}
				}

				u := mk()
				if u.T.K == "struct" && strings.Contains(u.T.F[0].Tag, "formData") {
					u.T = tgen.Zoo("Doc")
				}

				o.Resp = []unitDesc{u}
				o.tidy()
				o.Path = pathOf(o.Path, o.Req)
				c.Ops = append(c.Ops, o)
			}

			c.Names = genNames(t)

			return c
		}, runC14)
}
