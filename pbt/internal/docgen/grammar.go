package docgen

func str() *Ty                     { return &Ty{Kind: KStr} }
func uri() *Ty                     { return &Ty{Kind: KURI} }
func boolT() *Ty                   { return &Ty{Kind: KBool} }
func nat() *Ty                     { return &Ty{Kind: KNat} }
func num() *Ty                     { return &Ty{Kind: KNum} }
func anyT() *Ty                    { return &Ty{Kind: KAny} }
func enum(v ...string) *Ty         { return &Ty{Kind: KEnum, Enum: v} }
func ent(n string) *Ty             { return &Ty{Kind: KEnt, Ent: n} }
func orRef(n, dir string) *Ty      { return &Ty{Kind: KOrRef, Ent: n, RefDir: dir} }
func list(e *Ty) *Ty               { return &Ty{Kind: KList, Elem: e} }
func mapOf(e *Ty, keys string) *Ty { return &Ty{Kind: KMap, Elem: e, MapKeys: keys} }
func secReqs() *Ty                 { return list(&Ty{Kind: KSecReq}) }
func opt(k string, t *Ty) Field    { return Field{K: k, T: t} }
func req(k string, t *Ty) Field    { return Field{K: k, T: t, Req: true} }
func fields(f ...Field) []Field    { return f }
func schema30() *Ty                { return orRef("Schema", "schemas") }
func has(m M, k string) bool       { _, ok := m[k]; return ok }
func exampleXor(g *G, m M) {
	if has(m, "example") && has(m, "examples") {
		if g.P(50) {
			delete(m, "example")
		} else {
			delete(m, "examples")
		}
	}
}

func contentOne(v31 bool) *Ty {
	_ = v31

	return &Ty{Kind: KMap, Elem: ent("MediaType"), MapKeys: "media", MinItems: 1, Max: 1}
}

func content() *Ty { return mapOf(ent("MediaType"), "media") }

// schemaXorContent keeps exactly one of schema and content, and drops members not allowed with content.
func schemaXorContent(gr *Grammar) func(g *G, m M) {
	return func(g *G, m M) {
		exampleXor(g, m)

		s, c := has(m, "schema"), has(m, "content")

		switch {
		case s && c:
			if g.P(40) {
				delete(m, "schema")
			} else {
				delete(m, "content")
			}
		case !s && !c:
			if gr.V31 {
				m["schema"] = gr.Val(g, &Ty{Kind: KSchema31}, 1)
			} else {
				m["schema"] = gr.Val(g, schema30(), 0)
			}
		}

		if has(m, "content") {
			for _, k := range []string{"style", "explode", "allowReserved", "example", "examples"} {
				delete(m, k)
			}
		}
	}
}

func paramStyles(in string) []string {
	switch in {
	case "path":
		return []string{"matrix", "label", "simple"}
	case "query":
		return []string{"form", "spaceDelimited", "pipeDelimited", "deepObject"}
	case "header":
		return []string{"simple"}
	default:
		return []string{"form"}
	}
}

func headerDefStyle(m M) string {
	if c, ok := m["content"].(M); ok && len(c) > 0 {
		return ""
	}

	return "simple"
}

func paramDefStyle(m M) string {
	switch m["in"] {
	case "header":
		if c, ok := m["content"].(M); ok && len(c) > 0 {
			return ""
		}

		return "simple"
	case "cookie":
		return "form"
	}

	return ""
}

// G30 is the OpenAPI 3.0 grammar.
var G30 = build30()

func build30() *Grammar {
	gr := &Grammar{Ents: map[string]*Ent{}}
	add := func(e Ent) {
		if e.Def == "" {
			e.Def = e.Name
		}

		gr.Ents[e.Name] = &e
	}
	methods := mapOf

	_ = methods

	add(Ent{Name: "Spec", Def: "-", Ext: true, Fields: fields(
		req("openapi", &Ty{Kind: KVersion, Enum: []string{"3.0.0", "3.0.1", "3.0.2", "3.0.3", "3.0.3-rc1"}}), req("info", ent("Info")), opt("externalDocs", ent("ExternalDocumentation")),
		opt("servers", list(ent("Server"))), opt("security", secReqs()), opt("tags", &Ty{Kind: KList, Elem: ent("Tag"), Unique: true}),
		req("paths", ent("Paths")), opt("components", ent("Components")))})
	add(Ent{Name: "Info", Ext: true, Fields: fields(req("title", str()), opt("description", str()), opt("termsOfService", uri()),
		opt("contact", ent("Contact")), opt("license", ent("License")), req("version", str()))})
	add(Ent{Name: "Contact", Ext: true, Fields: fields(opt("name", str()), opt("url", uri()), opt("email", &Ty{Kind: KEmail}))})
	add(Ent{Name: "License", Ext: true, Fields: fields(req("name", str()), opt("url", uri()))})
	add(Ent{Name: "Server", Ext: true, Fields: fields(req("url", str()), opt("description", str()), opt("variables", mapOf(ent("ServerVariable"), "")))})
	add(Ent{Name: "ServerVariable", Ext: true, Fields: fields(opt("enum", list(str())), req("default", str()), opt("description", str()))})
	add(Ent{Name: "Components", Ext: true, Fields: fields(
		opt("schemas", mapOf(schema30(), "comp")), opt("responses", mapOf(orRef("Response", "responses"), "comp")),
		opt("parameters", mapOf(orRef("Parameter", "parameters"), "comp")), opt("examples", mapOf(orRef("Example", "examples"), "comp")),
		opt("requestBodies", mapOf(orRef("RequestBody", "requestBodies"), "comp")), opt("headers", mapOf(orRef("Header", "headers"), "comp")),
		opt("securitySchemes", mapOf(orRef("SecurityScheme", "securitySchemes"), "comp")), opt("links", mapOf(orRef("Link", "links"), "comp")),
		opt("callbacks", mapOf(orRef("Callback", "callbacks"), "comp")))})
	add(Ent{Name: "Schema", Ext: true, Fields: fields(
		opt("title", str()), opt("multipleOf", &Ty{Kind: KPosNum}), opt("maximum", num()), opt("exclusiveMaximum", boolT()), opt("minimum", num()), opt("exclusiveMinimum", boolT()),
		opt("maxLength", nat()), opt("minLength", nat()), opt("pattern", &Ty{Kind: KRegex}), opt("maxItems", nat()), opt("minItems", nat()), opt("uniqueItems", boolT()),
		opt("maxProperties", nat()), opt("minProperties", nat()), opt("required", &Ty{Kind: KList, Elem: str(), MinItems: 1, Unique: true}),
		opt("enum", &Ty{Kind: KList, Elem: anyT(), MinItems: 1}), opt("type", enum("array", "boolean", "integer", "number", "object", "string")),
		opt("not", schema30()), opt("allOf", list(schema30())), opt("oneOf", list(schema30())), opt("anyOf", list(schema30())), opt("items", schema30()),
		opt("properties", mapOf(schema30(), "")), opt("additionalProperties", &Ty{Kind: KBoolOrSchema}), opt("description", str()), opt("format", str()), opt("default", anyT()),
		opt("nullable", boolT()), opt("discriminator", ent("Discriminator")), opt("readOnly", boolT()), opt("writeOnly", boolT()), opt("example", anyT()),
		opt("externalDocs", ent("ExternalDocumentation")), opt("deprecated", boolT()), opt("xml", ent("XML")))})
	add(Ent{Name: "Discriminator", AnyExtra: true, Fields: fields(req("propertyName", str()), opt("mapping", mapOf(str(), "")))})
	add(Ent{Name: "XML", Ext: true, Fields: fields(opt("name", str()), opt("namespace", uri()), opt("prefix", str()), opt("attribute", boolT()), opt("wrapped", boolT()))})
	add(Ent{Name: "Response", Ext: true, Fields: fields(req("description", str()), opt("headers", mapOf(orRef("Header", "headers"), "")), opt("content", content()), opt("links", mapOf(orRef("Link", "links"), "")))})
	add(Ent{Name: "MediaType", Ext: true, Fields: fields(opt("schema", schema30()), opt("example", anyT()), opt("examples", mapOf(orRef("Example", "examples"), "")),
		opt("encoding", mapOf(ent("Encoding"), ""))), Post: exampleXor})
	add(Ent{Name: "Example", Ext: true, Fields: fields(opt("summary", str()), opt("description", str()), opt("value", anyT()), opt("externalValue", uri()))})
	add(Ent{Name: "Header", Ext: true, Fields: fields(opt("description", str()), opt("required", boolT()), opt("deprecated", boolT()), opt("allowEmptyValue", boolT()),
		opt("style", enum("simple")), opt("explode", boolT()), opt("allowReserved", boolT()), opt("schema", schema30()), opt("content", contentOne(false)), opt("example", anyT()),
		opt("examples", mapOf(orRef("Example", "examples"), ""))), Post: schemaXorContent(gr), StyleDef: headerDefStyle})
	add(Ent{Name: "Paths", Ext: true, Pat: "path", PatT: ent("PathItem")})
	add(Ent{Name: "PathItem", Ext: true, Fields: fields(opt("$ref", uri()), opt("summary", str()), opt("description", str()), opt("servers", list(ent("Server"))),
		opt("parameters", &Ty{Kind: KList, Elem: orRef("Parameter", "parameters"), Unique: true})), Pat: "method", PatT: ent("Operation")})
	add(Ent{Name: "Operation", Ext: true, Fields: fields(opt("tags", list(str())), opt("summary", str()), opt("description", str()), opt("externalDocs", ent("ExternalDocumentation")),
		opt("operationId", str()), opt("parameters", &Ty{Kind: KList, Elem: orRef("Parameter", "parameters"), Unique: true}), opt("requestBody", orRef("RequestBody", "requestBodies")),
		req("responses", ent("Responses")), opt("callbacks", mapOf(orRef("Callback", "callbacks"), "")), opt("deprecated", boolT()), opt("security", secReqs()), opt("servers", list(ent("Server"))))})
	add(Ent{Name: "Responses", Ext: true, Fields: fields(opt("default", orRef("Response", "responses"))), Pat: "status", PatT: orRef("Response", "responses"), Post: func(g *G, m M) {
		if len(m) == 0 {
			m["204"] = M{"description": "No Content"}
		}
	}})
	add(Ent{Name: "Tag", Ext: true, Fields: fields(req("name", str()), opt("description", str()), opt("externalDocs", ent("ExternalDocumentation")))})
	add(Ent{Name: "ExternalDocumentation", Ext: true, Fields: fields(opt("description", str()), req("url", uri()))})
	add(Ent{Name: "Parameter", Ext: true, Fields: fields(req("name", str()), req("in", enum("query", "path", "header", "cookie")), opt("description", str()), opt("required", boolT()),
		opt("deprecated", boolT()), opt("allowEmptyValue", boolT()), opt("style", str()), opt("explode", boolT()), opt("allowReserved", boolT()), opt("schema", schema30()),
		opt("content", contentOne(false)), opt("example", anyT()), opt("examples", mapOf(orRef("Example", "examples"), ""))), StyleDef: paramDefStyle,
		Post: func(g *G, m M) {
			schemaXorContent(gr)(g, m)

			in := m["in"].(string)
			if has(m, "style") {
				m["style"] = Pick(g, paramStyles(in))
			}

			if in == "path" {
				m["required"] = true
			}
		}})
	add(Ent{Name: "RequestBody", Ext: true, Fields: fields(opt("description", str()), req("content", content()), opt("required", boolT()))})
	add(Ent{Name: "APIKeySecurityScheme", Ext: true, Fields: fields(req("type", enum("apiKey")), req("name", str()), req("in", enum("header", "query", "cookie")), opt("description", str()))})
	add(Ent{Name: "HTTPSecurityScheme", Ext: true, Fields: fields(req("type", enum("http")), req("scheme", enum("bearer", "basic", "digest", "Bearer", "x")), opt("bearerFormat", str()), opt("description", str())),
		Post: func(g *G, m M) {
			if m["scheme"] != "bearer" {
				delete(m, "bearerFormat")
			}
		}})
	add(Ent{Name: "OAuth2SecurityScheme", Ext: true, Fields: fields(req("type", enum("oauth2")), req("flows", ent("OAuthFlows")), opt("description", str()))})
	add(Ent{Name: "OpenIdConnectSecurityScheme", Ext: true, Fields: fields(req("type", enum("openIdConnect")), req("openIdConnectUrl", uri()), opt("description", str()))})
	add(Ent{Name: "OAuthFlows", Ext: true, Fields: fields(opt("implicit", ent("ImplicitOAuthFlow")), opt("password", ent("PasswordOAuthFlow")),
		opt("clientCredentials", ent("ClientCredentialsFlow")), opt("authorizationCode", ent("AuthorizationCodeOAuthFlow")))})
	add(Ent{Name: "ImplicitOAuthFlow", Ext: true, Fields: fields(req("authorizationUrl", uri()), opt("refreshUrl", uri()), req("scopes", mapOf(str(), "")))})
	add(Ent{Name: "PasswordOAuthFlow", Ext: true, Fields: fields(req("tokenUrl", uri()), opt("refreshUrl", uri()), opt("scopes", mapOf(str(), "")))})
	add(Ent{Name: "ClientCredentialsFlow", Ext: true, Fields: fields(req("tokenUrl", uri()), opt("refreshUrl", uri()), opt("scopes", mapOf(str(), "")))})
	add(Ent{Name: "AuthorizationCodeOAuthFlow", Ext: true, Fields: fields(req("authorizationUrl", uri()), req("tokenUrl", uri()), opt("refreshUrl", uri()), opt("scopes", mapOf(str(), "")))})
	add(Ent{Name: "Link", Ext: true, Fields: fields(opt("operationId", str()), opt("operationRef", uri()), opt("parameters", mapOf(anyT(), "")), opt("requestBody", anyT()),
		opt("description", str()), opt("server", ent("Server"))), Post: func(g *G, m M) {
		if has(m, "operationId") {
			delete(m, "operationRef")
		}
	}})
	add(Ent{Name: "Callback", Ext: true, Pat: "callback", PatT: ent("PathItem")})
	add(Ent{Name: "Encoding", Fields: fields(opt("contentType", str()), opt("headers", mapOf(ent("Header"), "")), opt("style", enum("form", "spaceDelimited", "pipeDelimited", "deepObject")),
		opt("explode", boolT()), opt("allowReserved", boolT()))})

	// SecurityScheme is a union of the four kinds.
	sec := []*Ty{ent("APIKeySecurityScheme"), ent("HTTPSecurityScheme"), ent("OAuth2SecurityScheme"), ent("OpenIdConnectSecurityScheme")}
	gr.Ents["SecurityScheme"] = &Ent{Name: "SecurityScheme", Def: "SecurityScheme", Ext: true, Post: func(g *G, m M) {
		for k := range m {
			delete(m, k)
		}

		x := gr.Val(g, Pick(g, sec), 3).(M)
		for k, v := range x {
			m[k] = v
		}
	}}

	return gr
}

// G31 is the OpenAPI 3.1 grammar.
var G31 = build31()

func build31() *Grammar {
	gr := &Grammar{V31: true, Ents: map[string]*Ent{}}
	add := func(e Ent) { gr.Ents[e.Name] = &e }
	sch := func() *Ty { return &Ty{Kind: KSchema31} }

	add(Ent{Name: "Spec", Def: "", Ext: true, Fields: fields(
		req("openapi", &Ty{Kind: KVersion, Enum: []string{"3.1.0", "3.1.1", "3.1.10", "3.1.0-rc1"}}), req("info", ent("Info")), opt("jsonSchemaDialect", uri()), opt("servers", list(ent("Server"))),
		opt("paths", ent("Paths")), opt("webhooks", mapOf(orRef("PathItem", "pathItems"), "")), opt("components", ent("Components")), opt("security", secReqs()),
		opt("tags", list(ent("Tag"))), opt("externalDocs", ent("ExternalDocumentation"))), Post: func(g *G, m M) {
		if !has(m, "paths") && !has(m, "components") && !has(m, "webhooks") {
			m["paths"] = M{}
		}
	}})
	add(Ent{Name: "Info", Def: "info", Ext: true, Fields: fields(req("title", str()), opt("summary", str()), opt("description", str()), opt("termsOfService", uri()),
		opt("contact", ent("Contact")), opt("license", ent("License")), req("version", str()))})
	add(Ent{Name: "Contact", Def: "contact", Ext: true, Fields: fields(opt("name", str()), opt("url", uri()), opt("email", &Ty{Kind: KEmail}))})
	add(Ent{Name: "License", Def: "license", Ext: true, Fields: fields(req("name", str()), opt("identifier", str()), opt("url", uri())), Post: func(g *G, m M) {
		if has(m, "identifier") {
			delete(m, "url")
		}
	}})
	add(Ent{Name: "Server", Def: "server", Ext: true, Fields: fields(req("url", uri()), opt("description", str()), opt("variables", mapOf(ent("ServerVariable"), "")))})
	add(Ent{Name: "ServerVariable", Def: "server-variable", Ext: true, Fields: fields(opt("enum", &Ty{Kind: KList, Elem: str(), MinItems: 1}), req("default", str()), opt("description", str()))})
	add(Ent{Name: "Components", Def: "components", Ext: true, Fields: fields(
		opt("schemas", mapOf(sch(), "comp")), opt("responses", mapOf(orRef("Response", "responses"), "comp")),
		opt("parameters", mapOf(orRef("Parameter", "parameters"), "comp")), opt("examples", mapOf(orRef("Example", "examples"), "comp")),
		opt("requestBodies", mapOf(orRef("RequestBody", "requestBodies"), "comp")), opt("headers", mapOf(orRef("Header", "headers"), "comp")),
		opt("securitySchemes", mapOf(orRef("SecurityScheme", "securitySchemes"), "comp")), opt("links", mapOf(orRef("Link", "links"), "comp")),
		opt("callbacks", mapOf(orRef("Callbacks", "callbacks"), "comp")), opt("pathItems", mapOf(orRef("PathItem", "pathItems"), "comp")))})
	add(Ent{Name: "Paths", Def: "paths", Ext: true, Pat: "path", PatT: ent("PathItem")})
	op := func(k string) Field { return opt(k, ent("Operation")) }
	add(Ent{Name: "PathItem", Def: "path-item", Ext: true, Fields: fields(opt("summary", str()), opt("description", str()), opt("servers", list(ent("Server"))),
		opt("parameters", list(orRef("Parameter", "parameters"))), op("get"), op("put"), op("post"), op("delete"), op("options"), op("head"), op("patch"), op("trace"))})
	add(Ent{Name: "Operation", Def: "operation", Ext: true, Fields: fields(opt("tags", list(str())), opt("summary", str()), opt("description", str()), opt("externalDocs", ent("ExternalDocumentation")),
		opt("operationId", str()), opt("parameters", list(orRef("Parameter", "parameters"))), opt("requestBody", orRef("RequestBody", "requestBodies")),
		opt("responses", ent("Responses")), opt("callbacks", mapOf(orRef("Callbacks", "callbacks"), "")), opt("deprecated", boolT()), opt("security", secReqs()), opt("servers", list(ent("Server"))))})
	add(Ent{Name: "ExternalDocumentation", Def: "external-documentation", Ext: true, Fields: fields(opt("description", str()), req("url", uri()))})
	add(Ent{Name: "Parameter", Def: "parameter", Ext: true, Fields: fields(req("name", str()), req("in", enum("query", "path", "header", "cookie")), opt("description", str()), opt("required", boolT()),
		opt("deprecated", boolT()), opt("allowEmptyValue", boolT()), opt("style", str()), opt("explode", boolT()), opt("allowReserved", boolT()), opt("schema", sch()),
		opt("content", contentOne(true)), opt("example", anyT()), opt("examples", mapOf(orRef("Example", "examples"), ""))),
		Post: func(g *G, m M) {
			schemaXorContent(gr)(g, m)

			in := m["in"].(string)
			if has(m, "style") {
				m["style"] = Pick(g, paramStyles(in))
			}

			if in == "path" {
				m["required"] = true

				if n := m["name"].(string); n == "" || n[len(n)-1] == '/' || n[len(n)-1] == '#' || n[len(n)-1] == '?' || n[len(n)-1] == '\n' {
					m["name"] = "id"
				}
			}

			if in != "query" {
				delete(m, "allowEmptyValue")
				delete(m, "allowReserved")
			}
		}})
	add(Ent{Name: "RequestBody", Def: "request-body", Ext: true, Fields: fields(opt("description", str()), req("content", content()), opt("required", boolT()))})
	add(Ent{Name: "MediaType", Def: "media-type", Ext: true, Fields: fields(opt("schema", sch()), opt("example", anyT()), opt("examples", mapOf(orRef("Example", "examples"), "")),
		opt("encoding", mapOf(ent("Encoding"), "")))})
	add(Ent{Name: "Encoding", Def: "encoding", Ext: true, Fields: fields(opt("contentType", str()), opt("headers", mapOf(orRef("Header", "headers"), "")),
		opt("style", enum("form", "spaceDelimited", "pipeDelimited", "deepObject")), opt("explode", boolT()), opt("allowReserved", boolT()))})
	add(Ent{Name: "Responses", Def: "responses", Ext: true, Fields: fields(opt("default", orRef("Response", "responses"))), Pat: "status", PatT: orRef("Response", "responses"), Post: func(g *G, m M) {
		if len(m) == 0 {
			m["204"] = M{"description": "No Content"}
		}
	}})
	add(Ent{Name: "Response", Def: "response", Ext: true, Fields: fields(req("description", str()), opt("headers", mapOf(orRef("Header", "headers"), "")), opt("content", content()), opt("links", mapOf(orRef("Link", "links"), "")))})
	add(Ent{Name: "Callbacks", Def: "callbacks", Pat: "callback", PatT: orRef("PathItem", "pathItems")})
	add(Ent{Name: "Example", Def: "example", Ext: true, Fields: fields(opt("summary", str()), opt("description", str()), opt("value", anyT()), opt("externalValue", uri())), Post: func(g *G, m M) {
		if has(m, "value") {
			delete(m, "externalValue")
		}
	}})
	add(Ent{Name: "Link", Def: "link", Ext: true, Fields: fields(opt("operationId", str()), opt("operationRef", uri()), opt("parameters", mapOf(str(), "")), opt("requestBody", anyT()),
		opt("description", str()), opt("body", ent("Server"))), Post: func(g *G, m M) {
		if has(m, "operationId") {
			delete(m, "operationRef")
		} else if !has(m, "operationRef") {
			m["operationId"] = "op"
		}
	}})
	add(Ent{Name: "Header", Def: "header", Ext: true, Fields: fields(opt("description", str()), opt("required", boolT()), opt("deprecated", boolT()),
		opt("style", enum("simple")), opt("explode", boolT()), opt("schema", sch()), opt("content", contentOne(true)), opt("example", anyT()),
		opt("examples", mapOf(orRef("Example", "examples"), ""))), Post: schemaXorContent(gr), StyleDef: headerDefStyle})
	add(Ent{Name: "Tag", Def: "tag", Ext: true, Fields: fields(req("name", str()), opt("description", str()), opt("externalDocs", ent("ExternalDocumentation")))})
	add(Ent{Name: "SecurityScheme", Def: "security-scheme", Ext: true, Fields: fields(req("type", enum("apiKey", "http", "mutualTLS", "oauth2", "openIdConnect")), opt("description", str())), Post: func(g *G, m M) {
		switch m["type"] {
		case "apiKey":
			m["name"] = g.Str()
			m["in"] = Pick(g, []string{"query", "header", "cookie"})
		case "http":
			m["scheme"] = Pick(g, []string{"basic", "bearer", "Bearer", "BEARER", "digest"})
			if s := m["scheme"].(string); len(s) == 6 && s != "digest" && g.P(60) {
				m["bearerFormat"] = g.Str()
			}
		case "oauth2":
			m["flows"] = gr.Val(g, ent("OAuthFlows"), 3)
		case "openIdConnect":
			m["openIdConnectUrl"] = g.URI()
		}
	}})
	add(Ent{Name: "OAuthFlows", Def: "oauth-flows", Ext: true, Fields: fields(opt("implicit", ent("FlowImplicit")), opt("password", ent("FlowPassword")),
		opt("clientCredentials", ent("FlowClientCredentials")), opt("authorizationCode", ent("FlowAuthorizationCode")))})
	add(Ent{Name: "FlowImplicit", Def: "oauth-flows/$defs/implicit", Ext: true, Fields: fields(req("authorizationUrl", uri()), opt("refreshUrl", uri()), req("scopes", mapOf(str(), "")))})
	add(Ent{Name: "FlowPassword", Def: "oauth-flows/$defs/password", Ext: true, Fields: fields(req("tokenUrl", uri()), opt("refreshUrl", uri()), req("scopes", mapOf(str(), "")))})
	add(Ent{Name: "FlowClientCredentials", Def: "oauth-flows/$defs/client-credentials", Ext: true, Fields: fields(req("tokenUrl", uri()), opt("refreshUrl", uri()), req("scopes", mapOf(str(), "")))})
	add(Ent{Name: "FlowAuthorizationCode", Def: "oauth-flows/$defs/authorization-code", Ext: true, Fields: fields(req("authorizationUrl", uri()), req("tokenUrl", uri()), opt("refreshUrl", uri()), req("scopes", mapOf(str(), "")))})

	// Kinds of security scheme, for walking.
	gr.Kinds = map[string]*Ent{}
	kind := func(k string, f ...Field) {
		gr.Kinds[k] = &Ent{Name: "SecurityScheme", Def: "security-scheme", Ext: true, Fields: append([]Field{req("type", enum("apiKey", "http", "mutualTLS", "oauth2", "openIdConnect")), opt("description", str())}, f...)}
	}
	kind("apiKey", req("name", str()), req("in", enum("query", "header", "cookie")))
	kind("http", req("scheme", str()))
	kind("bearer", req("scheme", str()), opt("bearerFormat", str()))
	kind("oauth2", req("flows", ent("OAuthFlows")))
	kind("openIdConnect", req("openIdConnectUrl", uri()))

	return gr
}
