package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
	"pgregory.net/rapid"
	"verif/pbt/internal/docgen"
	"verif/pbt/internal/h"
	"verif/pbt/internal/jsv"
	"verif/pbt/internal/meta"
)

// ents3 maps grammar entities to Go types ("?" marks the reference-or-value form).
var ents3 = map[string]func() interface{}{
	"Spec":                        func() interface{} { return new(openapi3.Spec) },
	"Info":                        func() interface{} { return new(openapi3.Info) },
	"Contact":                     func() interface{} { return new(openapi3.Contact) },
	"License":                     func() interface{} { return new(openapi3.License) },
	"Server":                      func() interface{} { return new(openapi3.Server) },
	"ServerVariable":              func() interface{} { return new(openapi3.ServerVariable) },
	"Components":                  func() interface{} { return new(openapi3.Components) },
	"Schema":                      func() interface{} { return new(openapi3.Schema) },
	"Schema?":                     func() interface{} { return new(openapi3.SchemaOrRef) },
	"Discriminator":               func() interface{} { return new(openapi3.Discriminator) },
	"XML":                         func() interface{} { return new(openapi3.XML) },
	"Response":                    func() interface{} { return new(openapi3.Response) },
	"Response?":                   func() interface{} { return new(openapi3.ResponseOrRef) },
	"MediaType":                   func() interface{} { return new(openapi3.MediaType) },
	"Example":                     func() interface{} { return new(openapi3.Example) },
	"Example?":                    func() interface{} { return new(openapi3.ExampleOrRef) },
	"Header":                      func() interface{} { return new(openapi3.Header) },
	"Header?":                     func() interface{} { return new(openapi3.HeaderOrRef) },
	"Paths":                       func() interface{} { return new(openapi3.Paths) },
	"PathItem":                    func() interface{} { return new(openapi3.PathItem) },
	"Operation":                   func() interface{} { return new(openapi3.Operation) },
	"Responses":                   func() interface{} { return new(openapi3.Responses) },
	"Tag":                         func() interface{} { return new(openapi3.Tag) },
	"ExternalDocumentation":       func() interface{} { return new(openapi3.ExternalDocumentation) },
	"Parameter":                   func() interface{} { return new(openapi3.Parameter) },
	"Parameter?":                  func() interface{} { return new(openapi3.ParameterOrRef) },
	"RequestBody":                 func() interface{} { return new(openapi3.RequestBody) },
	"RequestBody?":                func() interface{} { return new(openapi3.RequestBodyOrRef) },
	"SecurityScheme":              func() interface{} { return new(openapi3.SecurityScheme) },
	"SecurityScheme?":             func() interface{} { return new(openapi3.SecuritySchemeOrRef) },
	"APIKeySecurityScheme":        func() interface{} { return new(openapi3.APIKeySecurityScheme) },
	"HTTPSecurityScheme":          func() interface{} { return new(openapi3.HTTPSecurityScheme) },
	"OAuth2SecurityScheme":        func() interface{} { return new(openapi3.OAuth2SecurityScheme) },
	"OpenIdConnectSecurityScheme": func() interface{} { return new(openapi3.OpenIDConnectSecurityScheme) },
	"OAuthFlows":                  func() interface{} { return new(openapi3.OAuthFlows) },
	"ImplicitOAuthFlow":           func() interface{} { return new(openapi3.ImplicitOAuthFlow) },
	"PasswordOAuthFlow":           func() interface{} { return new(openapi3.PasswordOAuthFlow) },
	"ClientCredentialsFlow":       func() interface{} { return new(openapi3.ClientCredentialsFlow) },
	"AuthorizationCodeOAuthFlow":  func() interface{} { return new(openapi3.AuthorizationCodeOAuthFlow) },
	"Link":                        func() interface{} { return new(openapi3.Link) },
	"Link?":                       func() interface{} { return new(openapi3.LinkOrRef) },
	"Callback":                    func() interface{} { return new(openapi3.Callback) },
	"Callback?":                   func() interface{} { return new(openapi3.CallbackOrRef) },
	"Encoding":                    func() interface{} { return new(openapi3.Encoding) },
}

var ents31 = map[string]func() interface{}{
	"Spec":                  func() interface{} { return new(openapi31.Spec) },
	"Info":                  func() interface{} { return new(openapi31.Info) },
	"Contact":               func() interface{} { return new(openapi31.Contact) },
	"License":               func() interface{} { return new(openapi31.License) },
	"Server":                func() interface{} { return new(openapi31.Server) },
	"ServerVariable":        func() interface{} { return new(openapi31.ServerVariable) },
	"Components":            func() interface{} { return new(openapi31.Components) },
	"Paths":                 func() interface{} { return new(openapi31.Paths) },
	"PathItem":              func() interface{} { return new(openapi31.PathItem) },
	"PathItem?":             func() interface{} { return new(openapi31.PathItemOrReference) },
	"Operation":             func() interface{} { return new(openapi31.Operation) },
	"ExternalDocumentation": func() interface{} { return new(openapi31.ExternalDocumentation) },
	"Parameter":             func() interface{} { return new(openapi31.Parameter) },
	"Parameter?":            func() interface{} { return new(openapi31.ParameterOrReference) },
	"RequestBody":           func() interface{} { return new(openapi31.RequestBody) },
	"RequestBody?":          func() interface{} { return new(openapi31.RequestBodyOrReference) },
	"MediaType":             func() interface{} { return new(openapi31.MediaType) },
	"Encoding":              func() interface{} { return new(openapi31.Encoding) },
	"Responses":             func() interface{} { return new(openapi31.Responses) },
	"Response":              func() interface{} { return new(openapi31.Response) },
	"Response?":             func() interface{} { return new(openapi31.ResponseOrReference) },
	"Callbacks":             func() interface{} { return new(openapi31.Callbacks) },
	"Callbacks?":            func() interface{} { return new(openapi31.CallbacksOrReference) },
	"Example":               func() interface{} { return new(openapi31.Example) },
	"Example?":              func() interface{} { return new(openapi31.ExampleOrReference) },
	"Link":                  func() interface{} { return new(openapi31.Link) },
	"Link?":                 func() interface{} { return new(openapi31.LinkOrReference) },
	"Header":                func() interface{} { return new(openapi31.Header) },
	"Header?":               func() interface{} { return new(openapi31.HeaderOrReference) },
	"Tag":                   func() interface{} { return new(openapi31.Tag) },
	"SecurityScheme":        func() interface{} { return new(openapi31.SecurityScheme) },
	"SecurityScheme?":       func() interface{} { return new(openapi31.SecuritySchemeOrReference) },
	"OAuthFlows":            func() interface{} { return new(openapi31.OauthFlows) },
	"FlowImplicit":          func() interface{} { return new(openapi31.OauthFlowsDefsImplicit) },
	"FlowPassword":          func() interface{} { return new(openapi31.OauthFlowsDefsPassword) },
	"FlowClientCredentials": func() interface{} { return new(openapi31.OauthFlowsDefsClientCredentials) },
	"FlowAuthorizationCode": func() interface{} { return new(openapi31.OauthFlowsDefsAuthorizationCode) },
}

// version bundles what differs between the two OpenAPI versions.
type version struct {
	V31   bool
	Gr    *docgen.Grammar
	Ents  map[string]func() interface{}
	Names []string
}

var (
	v30 = &version{Gr: docgen.G30, Ents: ents3, Names: h.SortedKeys(ents3)}
	v31 = &version{V31: true, Gr: docgen.G31, Ents: ents31, Names: h.SortedKeys(ents31)}
)

func ver(is31 bool) *version {
	if is31 {
		return v31
	}

	return v30
}

func (v *version) validate(name string, doc interface{}) error {
	isRef := false

	if strings.HasSuffix(name, "?") {
		m, ok := doc.(map[string]interface{})
		if ok {
			_, isRef = m["$ref"]
		}

		name = strings.TrimSuffix(name, "?")
	}

	def := v.Gr.Ents[name].Def
	if def == "-" {
		def = ""
	}

	if v.V31 {
		if isRef {
			def = "reference"
		}

		return meta.Validate31(def, doc)
	}

	if isRef {
		def = "Reference"
	}

	return meta.Validate30(def, doc)
}

type docCase struct {
	Ent string          `json:"ent"`
	Doc json.RawMessage `json:"doc"`
}

// genDoc draws a document or a fragment.
func genDoc(t *rapid.T, v *version, specPct int) docCase {
	g := &docgen.G{T: t, Dense: chance(t, 30), Empty: chance(t, 30)}
	c := docCase{Ent: "Spec"}

	if !chance(t, specPct) {
		c.Ent = pick(t, v.Names)
	}

	var d interface{}

	if c.Ent == "Spec" {
		d = v.Gr.Doc(g)
	} else {
		d = v.Gr.FragmentTy(g, docgen.EntTy(c.Ent))
	}

	b, err := json.Marshal(d)
	h.Must(err, "marshal generated document")

	c.Doc = b

	return c
}

// loadSave decodes into a fresh entity and encodes it.
func loadSave(mk func() interface{}, data []byte) (interface{}, []byte, error) {
	e := mk()
	if err := json.Unmarshal(data, e); err != nil {
		return nil, nil, fmt.Errorf("loading fails: %w", err)
	}

	out, err := json.Marshal(e)
	if err != nil {
		return nil, nil, fmt.Errorf("saving fails: %w", err)
	}

	return e, out, nil
}

// checkLossless is the round trip oracle.
func checkLossless(v *version, c docCase) error {
	want, err := jsv.Parse(c.Doc)
	h.Must(err, "parse case")

	e, out, err := loadSave(v.Ents[c.Ent], c.Doc)
	if err != nil {
		return err
	}

	if err := docgen.DupKeys(out); err != nil {
		return fmt.Errorf("%w in %s", err, cut(string(out)))
	}

	got, err := jsv.Parse(out)
	if err != nil {
		return fmt.Errorf("saved text is not JSON: %w", err)
	}

	ty := docgen.EntTy(c.Ent)
	if err := diffErr("load/save changes "+c.Ent, v.Gr.Canon(ty, want), v.Gr.Canon(ty, got)); err != nil {
		return err
	}

	// Saving the value instead of the pointer gives the same text.
	out2, err := json.Marshal(reflect.ValueOf(e).Elem().Interface())
	if err != nil {
		return fmt.Errorf("saving by value fails: %w", err)
	}

	if !bytes.Equal(out, out2) {
		return fmt.Errorf("saving by value differs: %s and %s", cut(string(out)), cut(string(out2)))
	}

	_, again, err := loadSave(v.Ents[c.Ent], out)
	if err != nil {
		return fmt.Errorf("second cycle: %w", err)
	}

	if !bytes.Equal(out, again) {
		return fmt.Errorf("second cycle changes the text: %s\nto: %s", cut(string(out)), cut(string(again)))
	}

	return nil
}

// sizeOf counts members.
func sizeOf(v interface{}) int {
	n := 1

	switch x := v.(type) {
	case map[string]interface{}:
		for _, e := range x {
			n += sizeOf(e)
		}
	case []interface{}:
		for _, e := range x {
			n += sizeOf(e)
		}
	}

	return n
}

func classifyDoc(v *version, c docCase, st *h.Stats) interface{} {
	d, err := jsv.Parse(c.Doc)
	h.Must(err, "parse case")

	st.Class(c.Ent)

	v.Gr.Walk(docgen.EntTy(c.Ent), d, func(s docgen.Site) {
		st.ClassIf(s.IsRef, "with-reference")
		st.ClassIf(s.Owner != nil && strings.HasPrefix(s.Key, "x-"), "with-extension")

		if s.Ent != nil && len(s.Path) > 0 {
			st.Class("has:" + s.Ent.Name)
		}
	})

	return d
}
