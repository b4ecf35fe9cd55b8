package props

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
	"gopkg.in/yaml.v2"
	"pgregory.net/rapid"
	"verif/pbt/internal/docgen"
	"verif/pbt/internal/h"
	"verif/pbt/internal/jsv"
)

type bytesCase struct {
	V31  bool   `json:"v31"`
	Ent  string `json:"ent"`
	YAML bool   `json:"yaml,omitempty"`
	Data []byte `json:"data"`
	Text string `json:"text,omitempty"` // Data for the reader.
}

var jsonBits = []string{
	`{`, `}`, `[`, `]`, `,`, `:`, `"`, `null`, `true`, `false`, `0`, `-1`, `1e999`, `1.5`, `""`, `"a"`, `{}`, `[]`, ` `, "\n", `\u0000`, `\ud800`, "\x00", "\xff", "\xc3",
	`"$ref"`, `"openapi"`, `"info"`, `"paths"`, `"in"`, `"name"`, `"schema"`, `"content"`, `"x-a"`, `"type"`, `"responses"`, `"/"`, `"get"`, `"components"`, `"additionalProperties"`, `"default"`, `"example"`,
	`{"a":`, `[[`, `{"$ref":1}`, `{"$ref":null}`, `{"type":"http"}`, `{"in":"path"}`,
}

var yamlBits = []string{
	"&a ", "*a", "<<: *a\n", "!!binary ", "!!str ", "!!float ", "!!int ", "!!null ", "!!map ", "!!set ", "!!omap ", "!!timestamp ", "!x ", "? ", ": ", "- ", "\n", "  ", "|\n", ">-\n", "---\n", "...\n", "%YAML 1.1\n",
	"{", "}", "[", "]", ",", "#", "'", "\"", "1: ", "1.5: ", "true: ", "null: ", "~: ", "[a]: ", "{a: b}: ", "2001-01-01: ", ".nan", ".inf", "-.inf", "0x1F", "1e400", "\t", "\x00", "\xff", "\u0085", "\u2028",
	"openapi: ", "info: ", "paths: ", "a: &a [*a]", "components: ",
}

// Helper types of the entities, only their decoders are checked for crashes.
var more3 = map[string]func() interface{}{
	"ParameterReference!":         func() interface{} { return new(openapi3.ParameterReference) },
	"SchemaReference!":            func() interface{} { return new(openapi3.SchemaReference) },
	"SchemaAdditionalProperties!": func() interface{} { return new(openapi3.SchemaAdditionalProperties) },
	"ExampleReference!":           func() interface{} { return new(openapi3.ExampleReference) },
	"HasSchema!":                  func() interface{} { return new(openapi3.HasSchema) },
	"HasContent!":                 func() interface{} { return new(openapi3.HasContent) },
	"SchemaXORContent!":           func() interface{} { return new(openapi3.SchemaXORContent) },
	"SchemaXORContentNot!":        func() interface{} { return new(openapi3.SchemaXORContentNot) },
	"PathParameter!":              func() interface{} { return new(openapi3.PathParameter) },
	"QueryParameter!":             func() interface{} { return new(openapi3.QueryParameter) },
	"HeaderParameter!":            func() interface{} { return new(openapi3.HeaderParameter) },
	"CookieParameter!":            func() interface{} { return new(openapi3.CookieParameter) },
	"ParameterLocation!":          func() interface{} { return new(openapi3.ParameterLocation) },
	"RequestBodyReference!":       func() interface{} { return new(openapi3.RequestBodyReference) },
	"ResponseReference!":          func() interface{} { return new(openapi3.ResponseReference) },
	"HeaderReference!":            func() interface{} { return new(openapi3.HeaderReference) },
	"LinkReference!":              func() interface{} { return new(openapi3.LinkReference) },
	"LinkNot!":                    func() interface{} { return new(openapi3.LinkNot) },
	"CallbackReference!":          func() interface{} { return new(openapi3.CallbackReference) },
	"ComponentsSchemas!":          func() interface{} { return new(openapi3.ComponentsSchemas) },
	"ComponentsResponses!":        func() interface{} { return new(openapi3.ComponentsResponses) },
	"ComponentsParameters!":       func() interface{} { return new(openapi3.ComponentsParameters) },
	"ComponentsExamples!":         func() interface{} { return new(openapi3.ComponentsExamples) },
	"ComponentsRequestBodies!":    func() interface{} { return new(openapi3.ComponentsRequestBodies) },
	"ComponentsHeaders!":          func() interface{} { return new(openapi3.ComponentsHeaders) },
	"SecuritySchemeReference!":    func() interface{} { return new(openapi3.SecuritySchemeReference) },
	"Bearer!":                     func() interface{} { return new(openapi3.Bearer) },
	"NonBearer!":                  func() interface{} { return new(openapi3.NonBearer) },
	"ComponentsSecuritySchemes!":  func() interface{} { return new(openapi3.ComponentsSecuritySchemes) },
	"ComponentsLinks!":            func() interface{} { return new(openapi3.ComponentsLinks) },
	"ComponentsCallbacks!":        func() interface{} { return new(openapi3.ComponentsCallbacks) },
	"ParameterIn!":                func() interface{} { return new(openapi3.ParameterIn) },
	"SchemaType!":                 func() interface{} { return new(openapi3.SchemaType) },
	"EncodingStyle!":              func() interface{} { return new(openapi3.EncodingStyle) },
	"PathParameterStyle!":         func() interface{} { return new(openapi3.PathParameterStyle) },
	"QueryParameterStyle!":        func() interface{} { return new(openapi3.QueryParameterStyle) },
	"APIKeySecuritySchemeIn!":     func() interface{} { return new(openapi3.APIKeySecuritySchemeIn) },
}

var more31 = map[string]func() interface{}{
	"Reference!":                func() interface{} { return new(openapi31.Reference) },
	"EncodingAllOf0!":           func() interface{} { return new(openapi31.EncodingAllOf0) },
	"SecuritySchemeAPIKey!":     func() interface{} { return new(openapi31.SecuritySchemeAPIKey) },
	"SecuritySchemeHTTP!":       func() interface{} { return new(openapi31.SecuritySchemeHTTP) },
	"SecuritySchemeHTTPBearer!": func() interface{} { return new(openapi31.SecuritySchemeHTTPBearer) },
	"SecuritySchemeOauth2!":     func() interface{} { return new(openapi31.SecuritySchemeOauth2) },
	"SecuritySchemeOidc!":       func() interface{} { return new(openapi31.SecuritySchemeOidc) },
	"MutualTLS!":                func() interface{} { return new(openapi31.MutualTLS) },
	"ParameterIn!":              func() interface{} { return new(openapi31.ParameterIn) },
	"EncodingStyle!":            func() interface{} { return new(openapi31.EncodingStyle) },
	"ParameterStyle!":           func() interface{} { return new(openapi31.ParameterStyle) },
	"SecuritySchemeAPIKeyIn!":   func() interface{} { return new(openapi31.SecuritySchemeAPIKeyIn) },
}

// mutateBytes changes text at byte level.
func mutateBytes(t *rapid.T, b []byte, bits []string) []byte {
	b = append([]byte{}, b...)

	for n := drawInt(t, 1, 4); n > 0; n-- {
		i := drawInt(t, 0, len(b))

		switch drawInt(t, 0, 5) {
		case 0: // insert
			b = append(b[:i:i], append([]byte(pick(t, bits)), b[i:]...)...)
		case 1: // cut
			j := drawInt(t, i, len(b))
			if j > i+30 {
				j = i + 30
			}

			b = append(b[:i:i], b[j:]...)
		case 2: // flip
			if i < len(b) {
				b[i] ^= byte(drawInt(t, 1, 255))
			}
		case 3: // duplicate a piece elsewhere
			j := drawInt(t, i, len(b))
			k := drawInt(t, 0, len(b))
			b = append(b[:k:k], append(append([]byte{}, b[i:j]...), b[k:]...)...)
		case 4: // truncate
			if chance(t, 30) {
				b = b[:i]
			}
		case 5: // replace by a bit
			j := i + drawInt(t, 0, 6)
			if j > len(b) {
				j = len(b)
			}

			b = append(b[:i:i], append([]byte(pick(t, bits)), b[j:]...)...)
		}
	}

	if len(b) > 1<<16 {
		b = b[:1<<16]
	}

	return b
}

func (v *version) more() map[string]func() interface{} {
	if v.V31 {
		return more31
	}

	return more3
}

// entity makes an empty entity or helper.
func (v *version) entity(name string) interface{} {
	if strings.HasSuffix(name, "!") {
		return v.more()[name]()
	}

	return v.Ents[name]()
}

func genBytes(t *rapid.T) bytesCase {
	c := genBytesOf(t)

	if !c.YAML && chance(t, 25) {
		c.Ent = pick(t, h.SortedKeys(ver(c.V31).more()))
	}

	return c
}

func genBytesOf(t *rapid.T) bytesCase {
	c := bytesCase{V31: chance(t, 50), YAML: chance(t, 35)}
	v := ver(c.V31)
	bits := jsonBits

	if c.YAML {
		bits = append(append([]string{}, yamlBits...), jsonBits[:30]...)
	}

	kind := drawInt(t, 0, 9)

	switch {
	case chance(t, 3): // next to nothing
		c.Ent = pick(t, v.Names)
		c.Data = []byte(pick(t, []string{"", " ", "n", "{", "[", "\"", "{}", "[]", "null", "0", "true"}))
	case kind == 0: // soup
		c.Ent = pick(t, v.Names)

		var sb strings.Builder
		for n := drawInt(t, 0, 12); n > 0; n-- {
			sb.WriteString(pick(t, bits))
		}

		c.Data = []byte(sb.String())
	case kind == 1:
		c.Ent = pick(t, v.Names)
		c.Data = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes")
	case kind <= 3: // arbitrary JSON values
		c.Ent = pick(t, v.Names)
		g := &docgen.G{T: t}
		c.Data = rawJSON(g.Any(3))
	default:
		dc := genDoc(t, v, 20)
		if c.YAML {
			dc.Ent, dc.Doc = "Spec", genSpecDoc(t, c.V31, 0)
		}

		c.Ent = dc.Ent

		d, err := jsv.Parse(dc.Doc)
		h.Must(err, "parse")

		g := &docgen.G{T: t}

		if kind >= 7 {
			for n := drawInt(t, 1, 4); n > 0; n-- {
				d = mutateJSON(t, g, d)
			}
		}

		c.Data = rawJSON(d)

		if c.YAML && chance(t, 70) {
			c.Data = []byte(docgen.YAMLText(g, yamlable(d)))
		}

		if kind < 7 || chance(t, 20) {
			c.Data = mutateBytes(t, c.Data, bits)
		}
	}

	if c.YAML {
		c.Ent = "Spec"
	}

	c.Text = string(c.Data)

	return c
}

func runBytes(c bytesCase, st *h.Stats) error {
	v := ver(c.V31)
	e := v.entity(c.Ent)
	text := cut(string(c.Data))

	st.ClassIf(c.YAML, "yaml")
	st.ClassIf(!c.YAML, "json")

	load := func(e interface{}, data []byte, direct bool) error {
		if direct {
			return e.(json.Unmarshaler).UnmarshalJSON(data)
		}

		return json.Unmarshal(data, e)
	}

	if c.YAML {
		if err := e.(specIface).UnmarshalYAML(append([]byte{}, c.Data...)); err != nil {
			st.Class("yaml-rejected")

			return nil
		}

		var x interface{}
		if err := yaml.Unmarshal(append([]byte{}, c.Data...), &x); err != nil {
			return fmt.Errorf("malformed YAML (%w) is accepted: %s", err, text)
		}
	} else {
		// Called directly, the decoder sees unchecked bytes.
		d := v.entity(c.Ent)
		derr := load(d, append([]byte{}, c.Data...), true)

		err := load(e, append([]byte{}, c.Data...), false)
		if helper := strings.HasSuffix(c.Ent, "!"); helper {
			st.Class("helper type")

			if err == nil {
				st.NonTrivial()

				_, _ = json.Marshal(e)
			}

			return nil
		}

		if string(c.Data) != "null" && strings.TrimSpace(string(c.Data)) != "null" && (err == nil) != (derr == nil) {
			return fmt.Errorf("%s: json.Unmarshal: %v, UnmarshalJSON: %v: %s", c.Ent, err, derr, text)
		}

		if err != nil {
			st.ClassIf(json.Valid(c.Data), "rejected-valid-json")
			st.Class("rejected")

			return nil
		}
	}

	st.NonTrivial()
	st.Class("accepted")

	out, err := json.Marshal(e)
	if err != nil {
		return fmt.Errorf("accepted %s can not be saved: %w: %s", c.Ent, err, text)
	}

	if err := docgen.DupKeys(out); err != nil {
		return fmt.Errorf("accepted %s: %w: %s saved as %s", c.Ent, err, text, cut(string(out)))
	}

	l := v.entity(c.Ent)
	if err := load(l, out, false); err != nil {
		return fmt.Errorf("accepted %s is saved as text that does not load: %w: %s saved as %s", c.Ent, err, text, cut(string(out)))
	}

	again, err := json.Marshal(l)
	if err != nil {
		return fmt.Errorf("saving again: %w", err)
	}

	a, err := jsv.Parse(out)
	if err != nil {
		return err
	}

	b, err := jsv.Parse(again)
	if err != nil {
		return err
	}

	if err := diffErr("saved text loads as something else", a, b); err != nil {
		return fmt.Errorf("%w: %s", err, text)
	}

	if c.Ent != "Spec" {
		return nil
	}

	y, err := e.(specIface).MarshalYAML()
	if err != nil {
		return fmt.Errorf("accepted document can not be saved as YAML: %w: %s", err, text)
	}

	if strings.Contains(string(y), "<<:") {
		return nil // Known finding of C04.
	}

	if err := newSpec(c.V31).UnmarshalYAML(y); err != nil {
		return fmt.Errorf("accepted document is saved as YAML that does not load: %w: %s", err, text)
	}

	return nil
}

func init() {
	p := h.Register("C20", "Loading arbitrary bytes ends with a value or an error, never a crash",
		"A case that does not return in 150 s counts as a crash.")

	h.Add(p, "bytes", "bytes for any entity of both versions: token soup, random bytes, arbitrary JSON, generated documents broken at byte or JSON level, as JSON or YAML with anchors, tags and odd keys; non-trivial when the input is accepted", 600000, 8000000, genBytes, runBytes)

	// Two bytes choose the entity, the rest is the input.
	kinds := func() (kinds []bytesCase) {
		for _, v31 := range []bool{false, true} {
			v := ver(v31)
			kinds = append(kinds, bytesCase{V31: v31, Ent: "Spec", YAML: true})

			for _, n := range v.Names {
				kinds = append(kinds, bytesCase{V31: v31, Ent: n})
			}

			for _, n := range h.SortedKeys(v.more()) {
				kinds = append(kinds, bytesCase{V31: v31, Ent: n})
			}
		}

		return kinds
	}()

	h.Raw(p, "bytes", func(data []byte) bytesCase {
		data = append(data, 0, 0)
		c := kinds[(int(data[0])+256*int(data[1]))%len(kinds)]

		if len(data) > 4 {
			c.Data = append([]byte{}, data[2:len(data)-2]...)
		}

		c.Text = string(c.Data)

		return c
	}, func(c bytesCase) []byte {
		for i, k := range kinds {
			if k.V31 == c.V31 && k.Ent == c.Ent && k.YAML == c.YAML {
				return append([]byte{byte(i), byte(i >> 8)}, c.Data...)
			}
		}

		return nil
	})
}
