package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
	"gopkg.in/yaml.v2"
	"pgregory.net/rapid"
	"verif/pbt/internal/docgen"
	"verif/pbt/internal/h"
	"verif/pbt/internal/jsv"
)

type specIface interface {
	MarshalJSON() ([]byte, error)
	MarshalYAML() ([]byte, error)
	UnmarshalJSON(data []byte) error
	UnmarshalYAML(data []byte) error
}

func newSpec(is31 bool) specIface {
	if is31 {
		return new(openapi31.Spec)
	}

	return new(openapi3.Spec)
}

type yamlCase struct {
	V31  bool            `json:"v31"`
	Doc  json.RawMessage `json:"doc"`
	YAML string          `json:"yaml,omitempty"`
}

// genSpecDoc draws a whole document and optionally mutates it.
func genSpecDoc(t *rapid.T, is31 bool, mutatePct int) json.RawMessage {
	v := ver(is31)
	g := &docgen.G{T: t, Dense: chance(t, 30), Empty: chance(t, 30)}
	d := v.Gr.Doc(g)

	var doc interface{} = d

	if chance(t, mutatePct) {
		doc = docgen.Clone(d)
		for n := drawInt(t, 1, 3); n > 0; n-- {
			doc = mutateJSON(t, g, doc)
		}
	}

	b, err := json.Marshal(yamlable(doc))
	h.Must(err, "marshal generated document")

	return b
}

// yamlable replaces what is out of scope: numbers beyond the range of a double (YAML reads them as strings)
// and the key "<<" (a known finding).
func yamlable(v interface{}) interface{} {
	switch x := v.(type) {
	case json.Number:
		if f, err := strconv.ParseFloat(string(x), 64); err != nil || math.IsInf(f, 0) {
			return json.Number("1e30")
		}
	case map[string]interface{}:
		m := map[string]interface{}{}

		for k, e := range x {
			if k == "<<" {
				k = "<< "
			}

			m[k] = yamlable(e)
		}

		return m
	case []interface{}:
		l := make([]interface{}, len(x))
		for i, e := range x {
			l[i] = yamlable(e)
		}

		return l
	}

	return v
}

func printableASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 || s[i] > 0x7e {
			return false
		}
	}

	return true
}

var bigInts = []string{"9007199254740993", "9223372036854775807", "4611686018427387905", "1152921504606846977"}

// fromYAML converts decoded YAML to decoded JSON, keeping the order of the top level keys.
func fromYAML(v interface{}) (interface{}, error) {
	switch x := v.(type) {
	case yaml.MapSlice:
		m := map[string]interface{}{}

		for _, it := range x {
			k, ok := it.Key.(string)
			if !ok {
				return nil, fmt.Errorf("key %#v is not a string", it.Key)
			}

			if _, dup := m[k]; dup {
				return nil, fmt.Errorf("key %q is repeated", k)
			}

			e, err := fromYAML(it.Value)
			if err != nil {
				return nil, err
			}

			m[k] = e
		}

		return m, nil
	case []interface{}:
		l := make([]interface{}, 0, len(x))

		for _, e := range x {
			e, err := fromYAML(e)
			if err != nil {
				return nil, err
			}

			l = append(l, e)
		}

		return l, nil
	case int:
		return json.Number(strconv.Itoa(x)), nil
	case int64:
		return json.Number(strconv.FormatInt(x, 10)), nil
	case uint64:
		return json.Number(strconv.FormatUint(x, 10)), nil
	case float64:
		if math.IsInf(x, 0) || math.IsNaN(x) {
			return nil, fmt.Errorf("%v is not a JSON number", x)
		}

		return json.Number(strconv.FormatFloat(x, 'g', -1, 64)), nil
	case nil, bool, string:
		return v, nil
	default:
		return nil, fmt.Errorf("%#v is not JSON data", v)
	}
}

func topKeys(data []byte) []string {
	d := json.NewDecoder(bytes.NewReader(data))
	_, err := d.Token()
	h.Must(err, "token")

	var keys []string

	for d.More() {
		k, err := d.Token()
		h.Must(err, "token")

		keys = append(keys, k.(string))

		var raw json.RawMessage

		h.Must(d.Decode(&raw), "raw")
	}

	return keys
}

func init() {
	p := h.Register("C04", "YAML form of a document is equivalent to its JSON form",
		"YAML is read as by gopkg.in/yaml.v2 (YAML 1.1), the library of the module.")

	h.Add(p, "save", "a generated 3.0 or 3.1 document (with strings that look like other YAML types and, in 3.0 schemas, integers beyond 2^53) is saved as JSON and YAML; non-trivial when it has more than 10 members", 60000, 1200000,
		func(t *rapid.T) yamlCase {
			c := yamlCase{V31: chance(t, 50)}
			c.Doc = genSpecDoc(t, c.V31, 0)

			if !c.V31 && chance(t, 50) {
				// Typed integer members of 3.0 schemas hold any int64.
				d, err := jsv.Parse(c.Doc)
				h.Must(err, "parse")

				var sites [][]string

				docgen.G30.Walk(docgen.EntTy("Spec"), d, func(s docgen.Site) {
					if s.Ty != nil && s.Ty.Kind == docgen.KNat {
						sites = append(sites, s.Path)
					}
				})

				for _, s := range sites {
					if chance(t, 60) {
						d = docgen.Set(d, s, json.Number(pick(t, bigInts)))
					}
				}

				c.Doc, err = json.Marshal(d)
				h.Must(err, "marshal")
			}

			return c
		},
		func(c yamlCase, st *h.Stats) error {
			s := newSpec(c.V31)
			if err := s.UnmarshalJSON(c.Doc); err != nil {
				return fmt.Errorf("loading fails: %w", err)
			}

			jd, err := s.MarshalJSON()
			if err != nil {
				return fmt.Errorf("saving as JSON fails: %w", err)
			}

			want, err := jsv.Parse(jd)
			if err != nil {
				return err
			}

			st.ClassIf(c.V31, "3.1")
			st.ClassIf(!c.V31, "3.0")
			st.NonTrivialIf(sizeOf(want) > 10)

			yd, err := s.MarshalYAML()
			if err != nil {
				return fmt.Errorf("saving as YAML fails: %w", err)
			}

			for _, b := range bigInts {
				st.ClassIf(bytes.Contains(jd, []byte(b)), "integer-beyond-double")
			}

			var ms yaml.MapSlice
			if err := yaml.UnmarshalStrict(yd, &ms); err != nil {
				return fmt.Errorf("saved YAML can not be parsed: %w\n%s", err, cut(string(yd)))
			}

			got, err := fromYAML(ms)
			if err != nil {
				return fmt.Errorf("saved YAML: %w\n%s", err, cut(string(yd)))
			}

			if err := diffErr("YAML and JSON differ", want, got); err != nil {
				return fmt.Errorf("%w\n%s", err, cut(string(yd)))
			}

			var yk []string
			for _, it := range ms {
				yk = append(yk, it.Key.(string))
			}

			if jk := topKeys(jd); strings.Join(jk, "\n") != strings.Join(yk, "\n") {
				return fmt.Errorf("order of top level keys: JSON %q, YAML %q", jk, yk)
			}

			// Loading the YAML gives the same document.
			l := newSpec(c.V31)
			if err := l.UnmarshalYAML(yd); err != nil {
				return fmt.Errorf("saved YAML does not load: %w\n%s", err, cut(string(yd)))
			}

			ld, err := l.MarshalJSON()
			if err != nil {
				return err
			}

			if !bytes.Equal(ld, jd) {
				g2, _ := jsv.Parse(ld)
				if err := diffErr("loading saved YAML", want, g2); err != nil {
					return err
				}
			}

			yd2, err := l.MarshalYAML()
			if err != nil {
				return fmt.Errorf("second YAML cycle: %w", err)
			}

			// The order of keys like 400, 4XX and 200 is not a strict one in yaml.v2 and varies.
			if !bytes.Equal(yd, yd2) && fmt.Sprint(sorted(strings.Split(string(yd), "\n"))) != fmt.Sprint(sorted(strings.Split(string(yd2), "\n"))) {
				return fmt.Errorf("second YAML cycle changes the text:\n%s\nto:\n%s", cut(string(yd)), cut(string(yd2)))
			}

			return nil
		})

	h.Add(p, "load", "a generated document, in a third of the cases broken by mutations, written by an independent YAML writer with block, flow, literal, quoted and plain styles, comments, anchors and integer keys (or as the JSON text itself); non-trivial when both forms load", 60000, 1200000,
		func(t *rapid.T) yamlCase {
			c := yamlCase{V31: chance(t, 50)}
			c.Doc = genSpecDoc(t, c.V31, 30)

			d, err := jsv.Parse(c.Doc)
			h.Must(err, "parse")

			if chance(t, 5) && printableASCII(string(c.Doc)) {
				c.YAML = string(c.Doc)
			} else {
				c.YAML = docgen.YAMLText(&docgen.G{T: t}, d)
			}

			return c
		},
		func(c yamlCase, st *h.Stats) error {
			want, err := jsv.Parse(c.Doc)
			h.Must(err, "parse")

			js, ys := newSpec(c.V31), newSpec(c.V31)
			je, ye := js.UnmarshalJSON(c.Doc), ys.UnmarshalYAML([]byte(c.YAML))

			st.ClassIf(c.V31, "3.1")
			st.ClassIf(!c.V31, "3.0")

			if (je == nil) != (ye == nil) {
				if ye != nil && strings.HasPrefix(ye.Error(), "yaml:") {
					var v interface{}
					if yaml.Unmarshal([]byte(c.YAML), &v) != nil {
						panic(h.HarnessError{Msg: "YAML writer gives malformed text: " + ye.Error() + "\n" + c.YAML})
					}
				}

				return fmt.Errorf("loading JSON: %v, loading YAML: %v\n%s", je, ye, cut(c.YAML))
			}

			if je != nil {
				st.Class("both-rejected")

				return nil
			}

			_ = want

			st.NonTrivial()

			jd, err := js.MarshalJSON()
			if err != nil {
				return err
			}

			yd, err := ys.MarshalJSON()
			if err != nil {
				return err
			}

			a, err := jsv.Parse(jd)
			if err != nil {
				return err
			}

			b, err := jsv.Parse(yd)
			if err != nil {
				return err
			}

			if err := diffErr("loaded from JSON and from YAML", a, b); err != nil {
				return fmt.Errorf("%w\n%s", err, cut(c.YAML))
			}

			return nil
		})
}
