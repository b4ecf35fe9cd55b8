From f711c9e60f3ff6c7b29fbe0cf39c4e3a070c63c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:05 +0000
Subject: [PATCH 01/37] fix: keep balanced braces of placeholder regexp in
 SanitizeMethodPath

---
 operation.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/operation.go b/operation.go
index 74b6d4c..2413fe9 100644
--- a/operation.go
+++ b/operation.go
@@ -176,7 +176,8 @@ func OperationCtx(rc *jsonschema.ReflectContext) (OperationContext, bool) {
 	return nil, false
 }
 
-var regexFindPathParameter = regexp.MustCompile(`{([^}:]+)(:[^}]+)?(?:})`)
+// Placeholder regexp may contain quantifiers in braces, for example {id:[0-9]{3}}.
+var regexFindPathParameter = regexp.MustCompile(`{([^}:]+)(:(?:[^{}]|{[^{}]*})+)?}`)
 
 // SanitizeMethodPath validates method and parses path element names.
 func SanitizeMethodPath(method, pathPattern string) (cleanMethod string, cleanPath string, pathParams []string, err error) {
-- 
2.43.0


From 5f1add5234e56bd5513bda007ac0921aa8c62f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:39 +0000
Subject: [PATCH 02/37] fix: do not encode keys of 3.0 parameter and HTTP
 security scheme twice after loading

---
 openapi3/entities.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/openapi3/entities.go b/openapi3/entities.go
index 356433a..504b997 100644
--- a/openapi3/entities.go
+++ b/openapi3/entities.go
@@ -1583,12 +1583,18 @@ func (p *Parameter) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
-	err = json.Unmarshal(data, &mp.SchemaXORContent)
+	// These constraints are only checked here, their keys belong to Parameter itself and would be encoded twice.
+	var (
+		schemaXORContent SchemaXORContent
+		location         ParameterLocation
+	)
+
+	err = json.Unmarshal(data, &schemaXORContent)
 	if err != nil {
 		return err
 	}
 
-	err = json.Unmarshal(data, &mp.Location)
+	err = json.Unmarshal(data, &location)
 	if err != nil {
 		return err
 	}
@@ -6656,18 +6662,22 @@ func (h *HTTPSecurityScheme) UnmarshalJSON(data []byte) error {
 	oneOfErrors := make(map[string]error, 2)
 	oneOfValid := 0
 
-	err = json.Unmarshal(data, &mh.Bearer)
+	// These constraints are only checked here, their keys belong to HTTPSecurityScheme itself and would be encoded twice.
+	var (
+		bearer    Bearer
+		nonBearer NonBearer
+	)
+
+	err = json.Unmarshal(data, &bearer)
 	if err != nil {
 		oneOfErrors["Bearer"] = err
-		mh.Bearer = nil
 	} else {
 		oneOfValid++
 	}
 
-	err = json.Unmarshal(data, &mh.NonBearer)
+	err = json.Unmarshal(data, &nonBearer)
 	if err != nil {
 		oneOfErrors["NonBearer"] = err
-		mh.NonBearer = nil
 	} else {
 		oneOfValid++
 	}
-- 
2.43.0


From 769c5c8c97672a0d31f99fd11ffc0e16a653d9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:53 +0000
Subject: [PATCH 03/37] fix: keep empty security of operation, it removes a
 top-level declaration

---
 openapi3/entities.go  | 5 +++++
 openapi31/entities.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/openapi3/entities.go b/openapi3/entities.go
index 504b997..65c91bd 100644
--- a/openapi3/entities.go
+++ b/openapi3/entities.go
@@ -4127,6 +4127,11 @@ func (o *Operation) UnmarshalJSON(data []byte) error {
 
 // MarshalJSON encodes JSON.
 func (o Operation) MarshalJSON() ([]byte, error) {
+	// Empty security is different from absent, it removes a top-level security declaration.
+	if o.Security != nil && len(o.Security) == 0 {
+		return marshalUnion(marshalOperation(o), json.RawMessage(`{"security":[]}`), o.MapOfAnything)
+	}
+
 	return marshalUnion(marshalOperation(o), o.MapOfAnything)
 }
 
diff --git a/openapi31/entities.go b/openapi31/entities.go
index e84efa5..12e101e 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -2473,6 +2473,11 @@ func (o *Operation) UnmarshalJSON(data []byte) error {
 
 // MarshalJSON encodes JSON.
 func (o Operation) MarshalJSON() ([]byte, error) {
+	// Empty security is different from absent, it removes a top-level security declaration.
+	if o.Security != nil && len(o.Security) == 0 {
+		return marshalUnion(marshalOperation(o), json.RawMessage(`{"security":[]}`), o.MapOfAnything)
+	}
+
 	return marshalUnion(marshalOperation(o), o.MapOfAnything)
 }
 
-- 
2.43.0


From e9ab4108cc3c9817549efe83a0ed7c1c85604c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:57 +0000
Subject: [PATCH 04/37] fix: do not add style to header with content, it is not
 valid there

---
 openapi3/entities.go  | 7 ++++++-
 openapi31/entities.go | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/openapi3/entities.go b/openapi3/entities.go
index 65c91bd..9c2ee7b 100644
--- a/openapi3/entities.go
+++ b/openapi3/entities.go
@@ -3264,11 +3264,16 @@ func (h *Header) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
-// constHeader is unconditionally added to JSON.
+// constHeader is added to JSON of header without content.
 var constHeader = json.RawMessage(`{"style":"simple"}`)
 
 // MarshalJSON encodes JSON.
 func (h Header) MarshalJSON() ([]byte, error) {
+	// Style is not allowed together with content.
+	if len(h.Content) > 0 {
+		return marshalUnion(marshalHeader(h), h.MapOfAnything)
+	}
+
 	return marshalUnion(constHeader, marshalHeader(h), h.MapOfAnything)
 }
 
diff --git a/openapi31/entities.go b/openapi31/entities.go
index 12e101e..257fad6 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -1813,11 +1813,16 @@ func (h *Header) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
-// constHeader is unconditionally added to JSON.
+// constHeader is added to JSON of header without content.
 var constHeader = json.RawMessage(`{"style":"simple"}`)
 
 // MarshalJSON encodes JSON.
 func (h Header) MarshalJSON() ([]byte, error) {
+	// Style is not allowed together with content.
+	if len(h.Content) > 0 {
+		return marshalUnion(marshalHeader(h), h.MapOfAnything)
+	}
+
 	return marshalUnion(constHeader, marshalHeader(h), h.MapOfAnything)
 }
 
-- 
2.43.0


From 4951d372ce8bcb309786b3fdd130806644c5727d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:44 +0000
Subject: [PATCH 05/37] fix: allow loading 3.1 examples, only value together
 with externalValue is not valid

---
 openapi31/entities.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index 257fad6..6654efc 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -1889,12 +1889,6 @@ var knownKeysExample = []string{
 func (e *Example) UnmarshalJSON(data []byte) error {
 	var err error
 
-	var not interface{}
-
-	if json.Unmarshal(data, &not) == nil {
-		return errors.New("not constraint failed for Example")
-	}
-
 	me := marshalExample(*e)
 
 	err = json.Unmarshal(data, &me)
@@ -1909,6 +1903,12 @@ func (e *Example) UnmarshalJSON(data []byte) error {
 		rawMap = nil
 	}
 
+	if _, found := rawMap["value"]; found {
+		if _, found := rawMap["externalValue"]; found {
+			return errors.New("not constraint failed for Example")
+		}
+	}
+
 	if me.Value == nil {
 		if _, ok := rawMap["value"]; ok {
 			var v interface{}
-- 
2.43.0


From cae0385ba038d8fed719c629d24add4e7d74a39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:00 +0000
Subject: [PATCH 06/37] fix: load 3.1 references that would also be accepted as
 a value

---
 openapi31/entities.go | 63 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 63 insertions(+)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index 6654efc..2a23497 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -2006,6 +2006,13 @@ func (e *ExampleOrReference) UnmarshalJSON(data []byte) error {
 		oneOfValid++
 	}
 
+	// Object with $ref is a reference even if it would also be accepted as a value.
+	if e.Reference != nil {
+		e.Example = nil
+
+		return nil
+	}
+
 	err = json.Unmarshal(data, &e.Example)
 	if err != nil {
 		oneOfErrors["Example"] = err
@@ -2077,6 +2084,13 @@ func (h *HeaderOrReference) UnmarshalJSON(data []byte) error {
 		oneOfValid++
 	}
 
+	// Object with $ref is a reference even if it would also be accepted as a value.
+	if h.Reference != nil {
+		h.Header = nil
+
+		return nil
+	}
+
 	err = json.Unmarshal(data, &h.Header)
 	if err != nil {
 		oneOfErrors["Header"] = err
@@ -2243,6 +2257,13 @@ func (p *ParameterOrReference) UnmarshalJSON(data []byte) error {
 		oneOfValid++
 	}
 
+	// Object with $ref is a reference even if it would also be accepted as a value.
+	if p.Reference != nil {
+		p.Parameter = nil
+
+		return nil
+	}
+
 	err = json.Unmarshal(data, &p.Parameter)
 	if err != nil {
 		oneOfErrors["Parameter"] = err
@@ -2778,6 +2799,13 @@ func (r *RequestBodyOrReference) UnmarshalJSON(data []byte) error {
 		oneOfValid++
 	}
 
+	// Object with $ref is a reference even if it would also be accepted as a value.
+	if r.Reference != nil {
+		r.RequestBody = nil
+
+		return nil
+	}
+
 	err = json.Unmarshal(data, &r.RequestBody)
 	if err != nil {
 		oneOfErrors["RequestBody"] = err
@@ -3303,6 +3331,13 @@ func (l *LinkOrReference) UnmarshalJSON(data []byte) error {
 		oneOfValid++
 	}
 
+	// Object with $ref is a reference even if it would also be accepted as a value.
+	if l.Reference != nil {
+		l.Link = nil
+
+		return nil
+	}
+
 	err = json.Unmarshal(data, &l.Link)
 	if err != nil {
 		oneOfErrors["Link"] = err
@@ -3374,6 +3409,13 @@ func (r *ResponseOrReference) UnmarshalJSON(data []byte) error {
 		oneOfValid++
 	}
 
+	// Object with $ref is a reference even if it would also be accepted as a value.
+	if r.Reference != nil {
+		r.Response = nil
+
+		return nil
+	}
+
 	err = json.Unmarshal(data, &r.Response)
 	if err != nil {
 		oneOfErrors["Response"] = err
@@ -3544,6 +3586,13 @@ func (p *PathItemOrReference) UnmarshalJSON(data []byte) error {
 		oneOfValid++
 	}
 
+	// Object with $ref is a reference even if it would also be accepted as a value.
+	if p.Reference != nil {
+		p.PathItem = nil
+
+		return nil
+	}
+
 	err = json.Unmarshal(data, &p.PathItem)
 	if err != nil {
 		oneOfErrors["PathItem"] = err
@@ -3615,6 +3664,13 @@ func (c *CallbacksOrReference) UnmarshalJSON(data []byte) error {
 		oneOfValid++
 	}
 
+	// Object with $ref is a reference even if it would also be accepted as a value.
+	if c.Reference != nil {
+		c.Callbacks = nil
+
+		return nil
+	}
+
 	err = json.Unmarshal(data, &c.Callbacks)
 	if err != nil {
 		oneOfErrors["Callbacks"] = err
@@ -5280,6 +5336,13 @@ func (s *SecuritySchemeOrReference) UnmarshalJSON(data []byte) error {
 		oneOfValid++
 	}
 
+	// Object with $ref is a reference even if it would also be accepted as a value.
+	if s.Reference != nil {
+		s.SecurityScheme = nil
+
+		return nil
+	}
+
 	err = json.Unmarshal(data, &s.SecurityScheme)
 	if err != nil {
 		oneOfErrors["SecurityScheme"] = err
-- 
2.43.0


From c1e6cbcead6189612553e01fd6d2a6b84b700584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:07 +0000
Subject: [PATCH 07/37] fix: keep empty 3.1 schema of parameter, header and
 media type

---
 openapi31/entities.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index 2a23497..5d44208 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -1406,7 +1406,7 @@ func (p *Parameter) UnmarshalJSON(data []byte) error {
 
 // MarshalJSON encodes JSON.
 func (p Parameter) MarshalJSON() ([]byte, error) {
-	return marshalUnion(marshalParameter(p), p.MapOfAnything)
+	return marshalUnion(marshalParameter(p), emptySchema(p.Schema), p.MapOfAnything)
 }
 
 // MediaType structure is generated from "#/$defs/media-type".
@@ -1562,7 +1562,7 @@ func (m *MediaType) UnmarshalJSON(data []byte) error {
 
 // MarshalJSON encodes JSON.
 func (m MediaType) MarshalJSON() ([]byte, error) {
-	return marshalUnion(marshalMediaType(m), m.MapOfAnything)
+	return marshalUnion(marshalMediaType(m), emptySchema(m.Schema), m.MapOfAnything)
 }
 
 // Encoding structure is generated from "#/$defs/encoding".
@@ -1823,7 +1823,7 @@ func (h Header) MarshalJSON() ([]byte, error) {
 		return marshalUnion(marshalHeader(h), h.MapOfAnything)
 	}
 
-	return marshalUnion(constHeader, marshalHeader(h), h.MapOfAnything)
+	return marshalUnion(constHeader, marshalHeader(h), emptySchema(h.Schema), h.MapOfAnything)
 }
 
 // Example structure is generated from "#/$defs/example".
@@ -5695,6 +5695,15 @@ func (i *SecuritySchemeAPIKeyIn) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
+// emptySchema keeps a schema that accepts anything, it would be omitted as an empty map.
+func emptySchema(schema map[string]interface{}) json.RawMessage {
+	if schema != nil && len(schema) == 0 {
+		return json.RawMessage(`{"schema":{}}`)
+	}
+
+	return json.RawMessage("null")
+}
+
 func marshalUnion(maps ...interface{}) ([]byte, error) {
 	result := []byte("{")
 	isObject := true
-- 
2.43.0


From 8f0e50763cc544e76f8e7554390fadf582182875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:55 +0000
Subject: [PATCH 08/37] fix: keep allowEmptyValue and allowReserved of 3.1
 parameter

---
 openapi31/entities.go | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index 5d44208..25ea1fa 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -1188,18 +1188,20 @@ func (r *Reference) UnmarshalJSON(data []byte) error {
 
 // Parameter structure is generated from "#/$defs/parameter".
 type Parameter struct {
-	Name          string                        `json:"name"` // Required.
-	In            ParameterIn                   `json:"in"`   // Required.
-	Description   *string                       `json:"description,omitempty"`
-	Required      *bool                         `json:"required,omitempty"`
-	Deprecated    *bool                         `json:"deprecated,omitempty"`
-	Schema        map[string]interface{}        `json:"schema,omitempty"`
-	Content       map[string]MediaType          `json:"content,omitempty"`
-	Style         *ParameterStyle               `json:"style,omitempty"`
-	Explode       *bool                         `json:"explode,omitempty"`
-	Example       *interface{}                  `json:"example,omitempty"`
-	Examples      map[string]ExampleOrReference `json:"examples,omitempty"`
-	MapOfAnything map[string]interface{}        `json:"-"` // Key must match pattern: `^x-`.
+	Name            string                        `json:"name"` // Required.
+	In              ParameterIn                   `json:"in"`   // Required.
+	Description     *string                       `json:"description,omitempty"`
+	Required        *bool                         `json:"required,omitempty"`
+	Deprecated      *bool                         `json:"deprecated,omitempty"`
+	AllowEmptyValue *bool                         `json:"allowEmptyValue,omitempty"`
+	Schema          map[string]interface{}        `json:"schema,omitempty"`
+	Content         map[string]MediaType          `json:"content,omitempty"`
+	Style           *ParameterStyle               `json:"style,omitempty"`
+	Explode         *bool                         `json:"explode,omitempty"`
+	AllowReserved   *bool                         `json:"allowReserved,omitempty"`
+	Example         *interface{}                  `json:"example,omitempty"`
+	Examples        map[string]ExampleOrReference `json:"examples,omitempty"`
+	MapOfAnything   map[string]interface{}        `json:"-"` // Key must match pattern: `^x-`.
 }
 
 // WithName sets Name value.
@@ -1232,6 +1234,12 @@ func (p *Parameter) WithDeprecated(val bool) *Parameter {
 	return p
 }
 
+// WithAllowEmptyValue sets AllowEmptyValue value.
+func (p *Parameter) WithAllowEmptyValue(val bool) *Parameter {
+	p.AllowEmptyValue = &val
+	return p
+}
+
 // WithSchema sets Schema value.
 func (p *Parameter) WithSchema(val map[string]interface{}) *Parameter {
 	p.Schema = val
@@ -1278,6 +1286,12 @@ func (p *Parameter) WithExplode(val bool) *Parameter {
 	return p
 }
 
+// WithAllowReserved sets AllowReserved value.
+func (p *Parameter) WithAllowReserved(val bool) *Parameter {
+	p.AllowReserved = &val
+	return p
+}
+
 // WithExample sets Example value.
 func (p *Parameter) WithExample(val interface{}) *Parameter {
 	p.Example = &val
@@ -1326,10 +1340,12 @@ var knownKeysParameter = []string{
 	"description",
 	"required",
 	"deprecated",
+	"allowEmptyValue",
 	"schema",
 	"content",
 	"style",
 	"explode",
+	"allowReserved",
 	"example",
 	"examples",
 }
-- 
2.43.0


From f8ea9b2ac05d48010fbd8153afa738dae4f372f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:56 +0000
Subject: [PATCH 09/37] fix: allow matrix, label and simple styles of 3.1
 parameters

---
 openapi31/entities.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index 25ea1fa..e5f28da 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -5619,6 +5619,9 @@ const (
 	ParameterStyleSpaceDelimited = ParameterStyle("spaceDelimited")
 	ParameterStylePipeDelimited  = ParameterStyle("pipeDelimited")
 	ParameterStyleDeepObject     = ParameterStyle("deepObject")
+	ParameterStyleMatrix         = ParameterStyle("matrix")
+	ParameterStyleLabel          = ParameterStyle("label")
+	ParameterStyleSimple         = ParameterStyle("simple")
 )
 
 // MarshalJSON encodes JSON.
@@ -5628,6 +5631,9 @@ func (i ParameterStyle) MarshalJSON() ([]byte, error) {
 	case ParameterStyleSpaceDelimited:
 	case ParameterStylePipeDelimited:
 	case ParameterStyleDeepObject:
+	case ParameterStyleMatrix:
+	case ParameterStyleLabel:
+	case ParameterStyleSimple:
 
 	default:
 		return nil, fmt.Errorf("unexpected ParameterStyle value: %v", i)
@@ -5652,6 +5658,9 @@ func (i *ParameterStyle) UnmarshalJSON(data []byte) error {
 	case ParameterStyleSpaceDelimited:
 	case ParameterStylePipeDelimited:
 	case ParameterStyleDeepObject:
+	case ParameterStyleMatrix:
+	case ParameterStyleLabel:
+	case ParameterStyleSimple:
 
 	default:
 		return fmt.Errorf("unexpected ParameterStyle value: %v", v)
-- 
2.43.0


From 921df1bf6ce0ef72df24702e788104438c2c316b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:20 +0000
Subject: [PATCH 10/37] fix: keep extensions of 3.1 components and encoding

---
 openapi31/entities.go | 163 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 163 insertions(+)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index e5f28da..94c931f 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -1588,6 +1588,7 @@ type Encoding struct {
 	Style         *EncodingStyle               `json:"style,omitempty"`
 	Explode       *bool                        `json:"explode,omitempty"`
 	AllowReserved *bool                        `json:"allowReserved,omitempty"`
+	MapOfAnything map[string]interface{}       `json:"-"` // Key must match pattern: `^x-`.
 }
 
 // WithContentType sets ContentType value.
@@ -1631,6 +1632,84 @@ func (e *Encoding) WithAllowReserved(val bool) *Encoding {
 	return e
 }
 
+// WithMapOfAnything sets MapOfAnything value.
+func (e *Encoding) WithMapOfAnything(val map[string]interface{}) *Encoding {
+	e.MapOfAnything = val
+	return e
+}
+
+// WithMapOfAnythingItem sets MapOfAnything item value.
+func (e *Encoding) WithMapOfAnythingItem(key string, val interface{}) *Encoding {
+	if e.MapOfAnything == nil {
+		e.MapOfAnything = make(map[string]interface{}, 1)
+	}
+
+	e.MapOfAnything[key] = val
+
+	return e
+}
+
+type marshalEncoding Encoding
+
+var knownKeysEncoding = []string{
+	"contentType",
+	"headers",
+	"style",
+	"explode",
+	"allowReserved",
+}
+
+// UnmarshalJSON decodes JSON.
+func (e *Encoding) UnmarshalJSON(data []byte) error {
+	var err error
+
+	me := marshalEncoding(*e)
+
+	err = json.Unmarshal(data, &me)
+	if err != nil {
+		return err
+	}
+
+	var rawMap map[string]json.RawMessage
+
+	err = json.Unmarshal(data, &rawMap)
+	if err != nil {
+		rawMap = nil
+	}
+
+	for _, key := range knownKeysEncoding {
+		delete(rawMap, key)
+	}
+
+	for key, rawValue := range rawMap {
+		if !regexX.MatchString(key) {
+			continue
+		}
+
+		if me.MapOfAnything == nil {
+			me.MapOfAnything = make(map[string]interface{}, 1)
+		}
+
+		var val interface{}
+
+		err = json.Unmarshal(rawValue, &val)
+		if err != nil {
+			return err
+		}
+
+		me.MapOfAnything[key] = val
+	}
+
+	*e = Encoding(me)
+
+	return nil
+}
+
+// MarshalJSON encodes JSON.
+func (e Encoding) MarshalJSON() ([]byte, error) {
+	return marshalUnion(marshalEncoding(e), e.MapOfAnything)
+}
+
 // Header structure is generated from "#/$defs/header".
 type Header struct {
 	Description   *string                       `json:"description,omitempty"`
@@ -3820,6 +3899,7 @@ type Components struct {
 	Links           map[string]LinkOrReference           `json:"links,omitempty"`
 	Callbacks       map[string]CallbacksOrReference      `json:"callbacks,omitempty"`
 	PathItems       map[string]PathItemOrReference       `json:"pathItems,omitempty"`
+	MapOfAnything   map[string]interface{}               `json:"-"` // Key must match pattern: `^x-`.
 }
 
 // WithSchemas sets Schemas value.
@@ -3992,6 +4072,89 @@ func (c *Components) WithPathItemsItem(key string, val PathItemOrReference) *Com
 	return c
 }
 
+// WithMapOfAnything sets MapOfAnything value.
+func (c *Components) WithMapOfAnything(val map[string]interface{}) *Components {
+	c.MapOfAnything = val
+	return c
+}
+
+// WithMapOfAnythingItem sets MapOfAnything item value.
+func (c *Components) WithMapOfAnythingItem(key string, val interface{}) *Components {
+	if c.MapOfAnything == nil {
+		c.MapOfAnything = make(map[string]interface{}, 1)
+	}
+
+	c.MapOfAnything[key] = val
+
+	return c
+}
+
+type marshalComponents Components
+
+var knownKeysComponents = []string{
+	"schemas",
+	"responses",
+	"parameters",
+	"examples",
+	"requestBodies",
+	"headers",
+	"securitySchemes",
+	"links",
+	"callbacks",
+	"pathItems",
+}
+
+// UnmarshalJSON decodes JSON.
+func (c *Components) UnmarshalJSON(data []byte) error {
+	var err error
+
+	mc := marshalComponents(*c)
+
+	err = json.Unmarshal(data, &mc)
+	if err != nil {
+		return err
+	}
+
+	var rawMap map[string]json.RawMessage
+
+	err = json.Unmarshal(data, &rawMap)
+	if err != nil {
+		rawMap = nil
+	}
+
+	for _, key := range knownKeysComponents {
+		delete(rawMap, key)
+	}
+
+	for key, rawValue := range rawMap {
+		if !regexX.MatchString(key) {
+			continue
+		}
+
+		if mc.MapOfAnything == nil {
+			mc.MapOfAnything = make(map[string]interface{}, 1)
+		}
+
+		var val interface{}
+
+		err = json.Unmarshal(rawValue, &val)
+		if err != nil {
+			return err
+		}
+
+		mc.MapOfAnything[key] = val
+	}
+
+	*c = Components(mc)
+
+	return nil
+}
+
+// MarshalJSON encodes JSON.
+func (c Components) MarshalJSON() ([]byte, error) {
+	return marshalUnion(marshalComponents(c), c.MapOfAnything)
+}
+
 // SecurityScheme structure is generated from "#/$defs/security-scheme".
 type SecurityScheme struct {
 	Description   *string                   `json:"description,omitempty"`
-- 
2.43.0


From a5fe8650c7a66f596448308acb3f3166c027253e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:42 +0000
Subject: [PATCH 11/37] fix: reject values that are not objects in place of
 paths, callbacks and components

---
 openapi3/entities.go  | 22 +++++++++++-----------
 openapi31/entities.go |  4 ++--
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/openapi3/entities.go b/openapi3/entities.go
index 9c2ee7b..4ae80cf 100644
--- a/openapi3/entities.go
+++ b/openapi3/entities.go
@@ -5487,7 +5487,7 @@ func (c *Callback) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -5657,7 +5657,7 @@ func (p *Paths) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -5997,7 +5997,7 @@ func (c *ComponentsSchemas) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -6063,7 +6063,7 @@ func (c *ComponentsResponses) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -6129,7 +6129,7 @@ func (c *ComponentsParameters) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -6195,7 +6195,7 @@ func (c *ComponentsExamples) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -6261,7 +6261,7 @@ func (c *ComponentsRequestBodies) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -6327,7 +6327,7 @@ func (c *ComponentsHeaders) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -8063,7 +8063,7 @@ func (c *ComponentsSecuritySchemes) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -8129,7 +8129,7 @@ func (c *ComponentsLinks) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -8195,7 +8195,7 @@ func (c *ComponentsCallbacks) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
diff --git a/openapi31/entities.go b/openapi31/entities.go
index 94c931f..cdfe725 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -3579,7 +3579,7 @@ func (c *Callbacks) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -3834,7 +3834,7 @@ func (p *Paths) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
-- 
2.43.0


From 0c10bbd5f7832adce3c719c7059853ff571f7b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:44 +0000
Subject: [PATCH 12/37] fix: reject 3.0 components with invalid names instead
 of dropping them

---
 openapi3/entities.go | 90 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 90 insertions(+)

diff --git a/openapi3/entities.go b/openapi3/entities.go
index 4ae80cf..8e9841b 100644
--- a/openapi3/entities.go
+++ b/openapi3/entities.go
@@ -6025,6 +6025,16 @@ func (c *ComponentsSchemas) UnmarshalJSON(data []byte) error {
 		}
 	}
 
+	if len(rawMap) != 0 {
+		offendingKeys := make([]string, 0, len(rawMap))
+
+		for key := range rawMap {
+			offendingKeys = append(offendingKeys, key)
+		}
+
+		return fmt.Errorf("additional properties not allowed in ComponentsSchemas: %v", offendingKeys)
+	}
+
 	return nil
 }
 
@@ -6091,6 +6101,16 @@ func (c *ComponentsResponses) UnmarshalJSON(data []byte) error {
 		}
 	}
 
+	if len(rawMap) != 0 {
+		offendingKeys := make([]string, 0, len(rawMap))
+
+		for key := range rawMap {
+			offendingKeys = append(offendingKeys, key)
+		}
+
+		return fmt.Errorf("additional properties not allowed in ComponentsResponses: %v", offendingKeys)
+	}
+
 	return nil
 }
 
@@ -6157,6 +6177,16 @@ func (c *ComponentsParameters) UnmarshalJSON(data []byte) error {
 		}
 	}
 
+	if len(rawMap) != 0 {
+		offendingKeys := make([]string, 0, len(rawMap))
+
+		for key := range rawMap {
+			offendingKeys = append(offendingKeys, key)
+		}
+
+		return fmt.Errorf("additional properties not allowed in ComponentsParameters: %v", offendingKeys)
+	}
+
 	return nil
 }
 
@@ -6223,6 +6253,16 @@ func (c *ComponentsExamples) UnmarshalJSON(data []byte) error {
 		}
 	}
 
+	if len(rawMap) != 0 {
+		offendingKeys := make([]string, 0, len(rawMap))
+
+		for key := range rawMap {
+			offendingKeys = append(offendingKeys, key)
+		}
+
+		return fmt.Errorf("additional properties not allowed in ComponentsExamples: %v", offendingKeys)
+	}
+
 	return nil
 }
 
@@ -6289,6 +6329,16 @@ func (c *ComponentsRequestBodies) UnmarshalJSON(data []byte) error {
 		}
 	}
 
+	if len(rawMap) != 0 {
+		offendingKeys := make([]string, 0, len(rawMap))
+
+		for key := range rawMap {
+			offendingKeys = append(offendingKeys, key)
+		}
+
+		return fmt.Errorf("additional properties not allowed in ComponentsRequestBodies: %v", offendingKeys)
+	}
+
 	return nil
 }
 
@@ -6355,6 +6405,16 @@ func (c *ComponentsHeaders) UnmarshalJSON(data []byte) error {
 		}
 	}
 
+	if len(rawMap) != 0 {
+		offendingKeys := make([]string, 0, len(rawMap))
+
+		for key := range rawMap {
+			offendingKeys = append(offendingKeys, key)
+		}
+
+		return fmt.Errorf("additional properties not allowed in ComponentsHeaders: %v", offendingKeys)
+	}
+
 	return nil
 }
 
@@ -8091,6 +8151,16 @@ func (c *ComponentsSecuritySchemes) UnmarshalJSON(data []byte) error {
 		}
 	}
 
+	if len(rawMap) != 0 {
+		offendingKeys := make([]string, 0, len(rawMap))
+
+		for key := range rawMap {
+			offendingKeys = append(offendingKeys, key)
+		}
+
+		return fmt.Errorf("additional properties not allowed in ComponentsSecuritySchemes: %v", offendingKeys)
+	}
+
 	return nil
 }
 
@@ -8157,6 +8227,16 @@ func (c *ComponentsLinks) UnmarshalJSON(data []byte) error {
 		}
 	}
 
+	if len(rawMap) != 0 {
+		offendingKeys := make([]string, 0, len(rawMap))
+
+		for key := range rawMap {
+			offendingKeys = append(offendingKeys, key)
+		}
+
+		return fmt.Errorf("additional properties not allowed in ComponentsLinks: %v", offendingKeys)
+	}
+
 	return nil
 }
 
@@ -8223,6 +8303,16 @@ func (c *ComponentsCallbacks) UnmarshalJSON(data []byte) error {
 		}
 	}
 
+	if len(rawMap) != 0 {
+		offendingKeys := make([]string, 0, len(rawMap))
+
+		for key := range rawMap {
+			offendingKeys = append(offendingKeys, key)
+		}
+
+		return fmt.Errorf("additional properties not allowed in ComponentsCallbacks: %v", offendingKeys)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 5a0b71d3e18d196eefbfdd31a928789daf615bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:11 +0000
Subject: [PATCH 13/37] fix: keep additional properties of 3.0 discriminator

---
 openapi3/entities.go | 51 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 49 insertions(+), 2 deletions(-)

diff --git a/openapi3/entities.go b/openapi3/entities.go
index 8e9841b..bd68bf1 100644
--- a/openapi3/entities.go
+++ b/openapi3/entities.go
@@ -2323,8 +2323,9 @@ func (s SchemaAdditionalProperties) MarshalJSON() ([]byte, error) {
 
 // Discriminator structure is generated from "#/definitions/Discriminator".
 type Discriminator struct {
-	PropertyName string            `json:"propertyName"` // Required.
-	Mapping      map[string]string `json:"mapping,omitempty"`
+	PropertyName         string                 `json:"propertyName"` // Required.
+	Mapping              map[string]string      `json:"mapping,omitempty"`
+	AdditionalProperties map[string]interface{} `json:"-"` // All unmatched properties.
 }
 
 // WithPropertyName sets PropertyName value.
@@ -2350,8 +2351,30 @@ func (d *Discriminator) WithMappingItem(key string, val string) *Discriminator {
 	return d
 }
 
+// WithAdditionalProperties sets AdditionalProperties value.
+func (d *Discriminator) WithAdditionalProperties(val map[string]interface{}) *Discriminator {
+	d.AdditionalProperties = val
+	return d
+}
+
+// WithAdditionalPropertiesItem sets AdditionalProperties item value.
+func (d *Discriminator) WithAdditionalPropertiesItem(key string, val interface{}) *Discriminator {
+	if d.AdditionalProperties == nil {
+		d.AdditionalProperties = make(map[string]interface{}, 1)
+	}
+
+	d.AdditionalProperties[key] = val
+
+	return d
+}
+
 type marshalDiscriminator Discriminator
 
+var knownKeysDiscriminator = []string{
+	"propertyName",
+	"mapping",
+}
+
 var requireKeysDiscriminator = []string{
 	"propertyName",
 }
@@ -2380,11 +2403,35 @@ func (d *Discriminator) UnmarshalJSON(data []byte) error {
 		}
 	}
 
+	for _, key := range knownKeysDiscriminator {
+		delete(rawMap, key)
+	}
+
+	for key, rawValue := range rawMap {
+		if md.AdditionalProperties == nil {
+			md.AdditionalProperties = make(map[string]interface{}, 1)
+		}
+
+		var val interface{}
+
+		err = json.Unmarshal(rawValue, &val)
+		if err != nil {
+			return err
+		}
+
+		md.AdditionalProperties[key] = val
+	}
+
 	*d = Discriminator(md)
 
 	return nil
 }
 
+// MarshalJSON encodes JSON.
+func (d Discriminator) MarshalJSON() ([]byte, error) {
+	return marshalUnion(marshalDiscriminator(d), d.AdditionalProperties)
+}
+
 // XML structure is generated from "#/definitions/XML".
 type XML struct {
 	Name          *string                `json:"name,omitempty"`
-- 
2.43.0


From f88179025d5607cef40a24752cb65a8719ed476b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:34 +0000
Subject: [PATCH 14/37] fix: keep exact value of large integers in YAML

---
 openapi3/yaml.go  | 6 +++++-
 openapi31/yaml.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/openapi3/yaml.go b/openapi3/yaml.go
index 458e378..48fbb65 100644
--- a/openapi3/yaml.go
+++ b/openapi3/yaml.go
@@ -50,7 +50,11 @@ type orderedMap []yaml.MapItem
 func (om *orderedMap) UnmarshalJSON(data []byte) error {
 	var mapData map[string]interface{}
 
-	err := json.Unmarshal(data, &mapData)
+	// Numbers are kept as is, float64 would lose precision of large integers.
+	d := json.NewDecoder(bytes.NewReader(data))
+	d.UseNumber()
+
+	err := d.Decode(&mapData)
 	if err != nil {
 		return err
 	}
diff --git a/openapi31/yaml.go b/openapi31/yaml.go
index 4e9bb9e..d8abd16 100644
--- a/openapi31/yaml.go
+++ b/openapi31/yaml.go
@@ -50,7 +50,11 @@ type orderedMap []yaml.MapItem
 func (om *orderedMap) UnmarshalJSON(data []byte) error {
 	var mapData map[string]interface{}
 
-	err := json.Unmarshal(data, &mapData)
+	// Numbers are kept as is, float64 would lose precision of large integers.
+	d := json.NewDecoder(bytes.NewReader(data))
+	d.UseNumber()
+
+	err := d.Decode(&mapData)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From a33492b31ea554b1212627069a8a9eb49bfef476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:56 +0000
Subject: [PATCH 15/37] fix: reject parameters and headers with null schema or
 empty content, they can not be saved

---
 openapi3/entities.go  | 5 +++++
 openapi31/entities.go | 6 ++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/openapi3/entities.go b/openapi3/entities.go
index bd68bf1..46eb822 100644
--- a/openapi3/entities.go
+++ b/openapi3/entities.go
@@ -1599,6 +1599,11 @@ func (p *Parameter) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
+	// Null or empty value would not be saved.
+	if mp.Schema == nil && len(mp.Content) == 0 {
+		return errors.New("schema or content are expected")
+	}
+
 	var rawMap map[string]json.RawMessage
 
 	err = json.Unmarshal(data, &rawMap)
diff --git a/openapi31/entities.go b/openapi31/entities.go
index cdfe725..f9ac15d 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -1853,8 +1853,10 @@ func (h *Header) UnmarshalJSON(data []byte) error {
 		rawMap = nil
 	}
 
-	_, schemaExists := rawMap["schema"]
-	_, contentExists := rawMap["content"]
+	// Null or empty value would not be saved.
+	schemaExists := mh.Schema != nil
+	contentExists := len(mh.Content) > 0
+
 	if schemaExists && contentExists {
 		return fmt.Errorf("both schema and content are set, only one of them is allowed")
 	} else if !schemaExists && !contentExists {
-- 
2.43.0


From 54ebfe7bd2d783510da5c2ffb81dd254bdef923b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:16 +0000
Subject: [PATCH 16/37] fix: keep value of exclusive bounds in 3.0 schema

---
 openapi3/jsonschema.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/openapi3/jsonschema.go b/openapi3/jsonschema.go
index 1cf4b82..2a4df45 100644
--- a/openapi3/jsonschema.go
+++ b/openapi3/jsonschema.go
@@ -260,18 +260,20 @@ func (s *SchemaOrRef) FromJSONSchema(schema jsonschema.SchemaOrBool) {
 		os.Items.FromJSONSchema(*js.Items.SchemaOrBool)
 	}
 
-	if js.ExclusiveMaximum != nil {
+	os.Maximum = js.Maximum
+
+	// Numeric exclusive bound becomes a flag of the bound, the stricter one is kept if there are both.
+	if js.ExclusiveMaximum != nil && (js.Maximum == nil || *js.ExclusiveMaximum <= *js.Maximum) {
 		os.WithExclusiveMaximum(true)
-		os.Maximum = js.Maximum
-	} else if js.Maximum != nil {
-		os.Maximum = js.Maximum
+		os.Maximum = js.ExclusiveMaximum
 	}
 
-	if js.ExclusiveMinimum != nil {
+	os.Minimum = js.Minimum
+
+	// Numeric exclusive bound becomes a flag of the bound, the stricter one is kept if there are both.
+	if js.ExclusiveMinimum != nil && (js.Minimum == nil || *js.ExclusiveMinimum >= *js.Minimum) {
 		os.WithExclusiveMinimum(true)
-		os.Minimum = js.Minimum
-	} else if js.Minimum != nil {
-		os.Minimum = js.Minimum
+		os.Minimum = js.ExclusiveMinimum
 	}
 
 	os.Format = js.Format
-- 
2.43.0


From 6db0f2dc400d54f6945dae7457d3e26e01dccc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:32 +0000
Subject: [PATCH 17/37] fix: walk schemas of default response and of response
 customized as reference

---
 openapi3/walk_schema.go  | 11 ++++++++++-
 openapi31/walk_schema.go | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/openapi3/walk_schema.go b/openapi3/walk_schema.go
index 877a252..4ea89c3 100644
--- a/openapi3/walk_schema.go
+++ b/openapi3/walk_schema.go
@@ -38,6 +38,15 @@ func (r *Reflector) WalkResponseJSONSchemas(cu openapi.ContentUnit, cb openapi.J
 		resp = r.Response
 	}
 
+	if op.Responses.Default != nil {
+		resp = op.Responses.Default.Response
+	}
+
+	// Response can be customized as a reference, there are no schemas to provide then.
+	if resp == nil {
+		return nil
+	}
+
 	if err := r.provideHeaderSchemas(resp, cb); err != nil {
 		return err
 	}
@@ -59,7 +68,7 @@ func (r *Reflector) WalkResponseJSONSchemas(cu openapi.ContentUnit, cb openapi.J
 
 func (r *Reflector) provideHeaderSchemas(resp *Response, cb openapi.JSONSchemaCallback) error {
 	for name, h := range resp.Headers {
-		if h.Header.Schema == nil {
+		if h.Header == nil || h.Header.Schema == nil {
 			continue
 		}
 
diff --git a/openapi31/walk_schema.go b/openapi31/walk_schema.go
index 55aa781..c9686e6 100644
--- a/openapi31/walk_schema.go
+++ b/openapi31/walk_schema.go
@@ -38,6 +38,15 @@ func (r *Reflector) WalkResponseJSONSchemas(cu openapi.ContentUnit, cb openapi.J
 		resp = r.Response
 	}
 
+	if op.Responses.Default != nil {
+		resp = op.Responses.Default.Response
+	}
+
+	// Response can be customized as a reference, there are no schemas to provide then.
+	if resp == nil {
+		return nil
+	}
+
 	if err := r.provideHeaderSchemas(resp, cb); err != nil {
 		return err
 	}
@@ -59,7 +68,7 @@ func (r *Reflector) WalkResponseJSONSchemas(cu openapi.ContentUnit, cb openapi.J
 
 func (r *Reflector) provideHeaderSchemas(resp *Response, cb openapi.JSONSchemaCallback) error {
 	for name, h := range resp.Headers {
-		if h.Header.Schema == nil {
+		if h.Header == nil || h.Header.Schema == nil {
 			continue
 		}
 
-- 
2.43.0


From 467d1ab27e5d4cdd1e7f5448590f9197353a245e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:35 +0000
Subject: [PATCH 18/37] fix: keep headers of several response structures with
 same status

---
 openapi3/reflect.go  | 4 +++-
 openapi31/reflect.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index 8f9d147..bcf87a8 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -638,7 +638,9 @@ func (r *Reflector) parseResponseHeader(resp *Response, oc openapi.OperationCont
 		return err
 	}
 
-	resp.Headers = res
+	for name, header := range res {
+		resp.WithHeadersItem(name, header)
+	}
 
 	if schema.Description != nil && resp.Description == "" {
 		resp.Description = *schema.Description
diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index 4be25f9..1ea182f 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -608,7 +608,9 @@ func (r *Reflector) parseResponseHeader(resp *Response, oc openapi.OperationCont
 		return err
 	}
 
-	resp.Headers = res
+	for name, header := range res {
+		resp.WithHeadersItem(name, header)
+	}
 
 	if schema.Description != nil && resp.Description == "" {
 		resp.Description = *schema.Description
-- 
2.43.0


From 654add77d8a132c51515c7c3182311b02b37e951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:53 +0000
Subject: [PATCH 19/37] fix: do not inline references when checking for object
 parameter, recursive types overflow the stack

---
 openapi3/reflect.go  | 1 -
 openapi31/reflect.go | 1 -
 2 files changed, 2 deletions(-)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index bcf87a8..371d59e 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -519,7 +519,6 @@ func (r *Reflector) parseParametersIn(
 			} else {
 				ps, err := r.Reflect(reflect.New(field.Type).Interface(),
 					openapi.WithOperationCtx(oc, false, in),
-					jsonschema.InlineRefs,
 					sanitizeDefName,
 				)
 				if err != nil {
diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index 1ea182f..680f6c4 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -484,7 +484,6 @@ func (r *Reflector) parseParametersIn(
 			} else {
 				ps, err := r.Reflect(reflect.New(field.Type).Interface(),
 					openapi.WithOperationCtx(oc, false, in),
-					jsonschema.InlineRefs,
 					sanitizeDefName,
 				)
 				if err != nil {
-- 
2.43.0


From 7df866dda8a0468b3a157847b73fce8a1ee84491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:19 +0000
Subject: [PATCH 20/37] fix: check existing operation by clean path in
 Spec.AddOperation

---
 openapi3/helper.go  | 8 ++++++--
 openapi31/helper.go | 7 +++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/openapi3/helper.go b/openapi3/helper.go
index b215205..b58e55f 100644
--- a/openapi3/helper.go
+++ b/openapi3/helper.go
@@ -98,8 +98,12 @@ func (s *Spec) SetupOperation(method, path string, setup ...func(*Operation) err
 //
 // It will fail if operation with method and path already exists.
 func (s *Spec) AddOperation(method, path string, operation Operation) error {
-	method = strings.ToLower(method)
-	pathItem := s.Paths.MapOfPathItemValues[path]
+	method, cleanPath, _, err := openapi.SanitizeMethodPath(method, path)
+	if err != nil {
+		return err
+	}
+
+	pathItem := s.Paths.MapOfPathItemValues[cleanPath]
 
 	if _, found := pathItem.MapOfOperationValues[method]; found {
 		return fmt.Errorf("operation already exists: %s %s", method, path)
diff --git a/openapi31/helper.go b/openapi31/helper.go
index 533a613..909ab89 100644
--- a/openapi31/helper.go
+++ b/openapi31/helper.go
@@ -153,9 +153,12 @@ func (o *Operation) validatePathParams(pathParams map[string]bool) error {
 //
 // It will fail if operation with method and path already exists.
 func (s *Spec) AddOperation(method, path string, operation Operation) error {
-	method = strings.ToLower(method)
+	method, cleanPath, _, err := openapi.SanitizeMethodPath(method, path)
+	if err != nil {
+		return err
+	}
 
-	pathItem := s.PathsEns().MapOfPathItemValues[path]
+	pathItem := s.PathsEns().MapOfPathItemValues[cleanPath]
 
 	op, err := pathItem.Operation(method)
 	if err != nil {
-- 
2.43.0


From 84ea76c095381bd84916c77b61a530c24227abe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:20 +0000
Subject: [PATCH 21/37] fix: keep existing 3.1 operation if its setup fails

---
 openapi31/helper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openapi31/helper.go b/openapi31/helper.go
index 909ab89..da2f122 100644
--- a/openapi31/helper.go
+++ b/openapi31/helper.go
@@ -85,6 +85,9 @@ func (s *Spec) SetupOperation(method, path string, setup ...func(*Operation) err
 
 	if operation == nil {
 		operation = &Operation{}
+	} else { // Existing operation is replaced once setup succeeds.
+		existing := *operation
+		operation = &existing
 	}
 
 	for _, f := range setup {
-- 
2.43.0


From a107eb95e765e3528c7cb2df1a76a969db8ecad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:52 +0000
Subject: [PATCH 22/37] fix: keep existing content of 3.1 response with
 contentType tag

---
 openapi31/reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index 680f6c4..57c90eb 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -624,7 +624,7 @@ func (r *Reflector) parseRawResponseBody(resp *Response, cu openapi.ContentUnit)
 	}
 
 	refl.WalkTaggedFields(reflect.ValueOf(cu.Structure), func(_ reflect.Value, _ reflect.StructField, tag string) {
-		resp.WithContentItem(tag, mediaType(""))
+		r.ensureResponseContentType(resp, tag, "")
 	}, tagContentType)
 }
 
-- 
2.43.0


From 43068b023868de427870fc2fad336e2380856247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:41 +0000
Subject: [PATCH 23/37] fix: do not overwrite JSON component with form data
 schema of nested type

---
 internal/json_schema.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/json_schema.go b/internal/json_schema.go
index f19d55f..baa028e 100644
--- a/internal/json_schema.go
+++ b/internal/json_schema.go
@@ -111,9 +111,15 @@ func ReflectRequestBody(
 	reflOptions = append(reflOptions,
 		jsonschema.InterceptDefName(func(t reflect.Type, defaultDefName string) string {
 			if tag != tagJSON {
+				// Named containers may have items that are different in form data and JSON.
+				if refl.IsSliceOrMap(reflect.Zero(t).Interface()) {
+					return definitionPrefix + defaultDefName
+				}
+
 				v := reflect.New(t).Interface()
 
-				if refl.HasTaggedFields(v, tag) {
+				// Nested type with JSON fields is different in form data, it can not share definition with JSON type.
+				if refl.HasTaggedFields(v, tag) || refl.HasTaggedFields(v, tagJSON) {
 					return definitionPrefix + defaultDefName
 				}
 
-- 
2.43.0


From f697f8e7623f87234519a79f32050c67dd9edbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:43 +0000
Subject: [PATCH 24/37] fix: detect JSON body of virtual structure that is
 passed by pointer

---
 internal/json_schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/json_schema.go b/internal/json_schema.go
index baa028e..fd9645d 100644
--- a/internal/json_schema.go
+++ b/internal/json_schema.go
@@ -69,7 +69,7 @@ func ReflectRequestBody(
 	hasJSONSchemaStruct := false
 
 	refl.WalkFieldsRecursively(reflect.ValueOf(input), func(v reflect.Value, _ reflect.StructField, _ []reflect.StructField) {
-		if v.Type() == reflect.TypeOf(jsonschema.Struct{}) {
+		if refl.DeepIndirect(v.Type()) == reflect.TypeOf(jsonschema.Struct{}) {
 			hasJSONSchemaStruct = true
 		}
 	})
-- 
2.43.0


From a23ff5f0703daadad5247484dd0c1ace0c158599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:59 +0000
Subject: [PATCH 25/37] fix: use parameter styles that are valid for parameter
 location

---
 openapi3/reflect.go  | 14 ++++++++------
 openapi31/reflect.go | 14 ++++++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index 371d59e..37544f9 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -484,14 +484,16 @@ func (r *Reflector) parseParametersIn(
 			collectionFormat := ""
 			refl.ReadStringTag(field.Tag, "collectionFormat", &collectionFormat)
 
-			switch collectionFormat {
-			case "csv":
+			switch {
+			case collectionFormat == "csv" && (in == openapi.InPath || in == openapi.InHeader):
+				p.WithStyle(string(PathParameterStyleSimple)).WithExplode(false)
+			case collectionFormat == "csv":
 				p.WithStyle(string(QueryParameterStyleForm)).WithExplode(false)
-			case "ssv":
+			case collectionFormat == "ssv" && in == openapi.InQuery:
 				p.WithStyle(string(QueryParameterStyleSpaceDelimited)).WithExplode(false)
-			case "pipes":
+			case collectionFormat == "pipes" && in == openapi.InQuery:
 				p.WithStyle(string(QueryParameterStylePipeDelimited)).WithExplode(false)
-			case "multi":
+			case collectionFormat == "multi" && (in == openapi.InQuery || in == openapi.InCookie):
 				p.WithStyle(string(QueryParameterStyleForm)).WithExplode(true)
 			}
 
@@ -525,7 +527,7 @@ func (r *Reflector) parseParametersIn(
 					return err
 				}
 
-				if ps.HasType(jsonschema.Object) {
+				if in == openapi.InQuery && ps.HasType(jsonschema.Object) {
 					p.WithStyle(string(QueryParameterStyleDeepObject)).WithExplode(true)
 				}
 			}
diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index 57c90eb..fa436e2 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -448,14 +448,16 @@ func (r *Reflector) parseParametersIn(
 			collectionFormat := ""
 			refl.ReadStringTag(field.Tag, "collectionFormat", &collectionFormat)
 
-			switch collectionFormat {
-			case "csv":
+			switch {
+			case collectionFormat == "csv" && (in == openapi.InPath || in == openapi.InHeader):
+				p.WithStyle(ParameterStyleSimple).WithExplode(false)
+			case collectionFormat == "csv":
 				p.WithStyle(ParameterStyleForm).WithExplode(false)
-			case "ssv":
+			case collectionFormat == "ssv" && in == openapi.InQuery:
 				p.WithStyle(ParameterStyleSpaceDelimited).WithExplode(false)
-			case "pipes":
+			case collectionFormat == "pipes" && in == openapi.InQuery:
 				p.WithStyle(ParameterStylePipeDelimited).WithExplode(false)
-			case "multi":
+			case collectionFormat == "multi" && (in == openapi.InQuery || in == openapi.InCookie):
 				p.WithStyle(ParameterStyleForm).WithExplode(true)
 			}
 
@@ -490,7 +492,7 @@ func (r *Reflector) parseParametersIn(
 					return err
 				}
 
-				if ps.HasType(jsonschema.Object) {
+				if in == openapi.InQuery && ps.HasType(jsonschema.Object) {
 					p.WithStyle(ParameterStyleDeepObject).WithExplode(true)
 				}
 			}
-- 
2.43.0


From 2cc009636310bcf64edaae24e676a37ae730a583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:01 +0000
Subject: [PATCH 26/37] fix: apply style tag to 3.1 parameter

---
 openapi31/reflect.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index fa436e2..77ba144 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -502,6 +502,13 @@ func (r *Reflector) parseParametersIn(
 				return err
 			}
 
+			style := ""
+			refl.ReadStringTag(field.Tag, "style", &style)
+
+			if style != "" {
+				p.WithStyle(ParameterStyle(style))
+			}
+
 			if in == openapi.InPath {
 				p.WithRequired(true)
 			}
-- 
2.43.0


From 55c4352fe7c1485225b19fe3537da5b85786a8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:38 +0000
Subject: [PATCH 27/37] fix: provide all referenced definitions with 3.1 JSON
 schema

---
 openapi31/jsonschema.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/openapi31/jsonschema.go b/openapi31/jsonschema.go
index 62429f7..d7e671e 100644
--- a/openapi31/jsonschema.go
+++ b/openapi31/jsonschema.go
@@ -88,8 +88,12 @@ func findReferences(js jsonschema.SchemaOrBool, ctx toJSONSchemaContext) {
 		return
 	}
 
-	if jso.Not != nil {
-		findReferences(*jso.Not, ctx)
+	for _, sub := range []*jsonschema.SchemaOrBool{
+		jso.Not, jso.If, jso.Then, jso.Else, jso.AdditionalProperties, jso.AdditionalItems, jso.Contains, jso.PropertyNames,
+	} {
+		if sub != nil {
+			findReferences(*sub, ctx)
+		}
 	}
 
 	for _, allOf := range jso.AllOf {
@@ -118,7 +122,17 @@ func findReferences(js jsonschema.SchemaOrBool, ctx toJSONSchemaContext) {
 		findReferences(propSchema, ctx)
 	}
 
-	if jso.AdditionalProperties != nil {
-		findReferences(*jso.AdditionalProperties, ctx)
+	for _, propSchema := range jso.PatternProperties {
+		findReferences(propSchema, ctx)
+	}
+
+	for _, def := range jso.Definitions {
+		findReferences(def, ctx)
+	}
+
+	for _, dep := range jso.Dependencies {
+		if dep.SchemaOrBool != nil {
+			findReferences(*dep.SchemaOrBool, ctx)
+		}
 	}
 }
-- 
2.43.0


From e0919c003e74e5f5e390f41171e784d42d3d436f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:39 +0000
Subject: [PATCH 28/37] fix: do not panic on unresolved reference of JSON
 schema without components

---
 openapi3/jsonschema.go  | 6 +++++-
 openapi31/jsonschema.go | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/openapi3/jsonschema.go b/openapi3/jsonschema.go
index 2a4df45..8ff48dd 100644
--- a/openapi3/jsonschema.go
+++ b/openapi3/jsonschema.go
@@ -55,7 +55,11 @@ func (s *SchemaOrRef) toJSONSchema(ctx toJSONSchemaContext) jsonschema.SchemaOrB
 			if _, alreadyProcessed := ctx.refsProcessed[dstName]; !alreadyProcessed {
 				ctx.refsProcessed[dstName] = jsonschema.SchemaOrBool{}
 
-				dst := ctx.spec.Components.Schemas.MapOfSchemaOrRefValues[dstName]
+				dst := SchemaOrRef{}
+				if ctx.spec != nil && ctx.spec.Components != nil && ctx.spec.Components.Schemas != nil {
+					dst = ctx.spec.Components.Schemas.MapOfSchemaOrRefValues[dstName]
+				}
+
 				ctx.refsProcessed[dstName] = dst.toJSONSchema(ctx)
 			}
 
diff --git a/openapi31/jsonschema.go b/openapi31/jsonschema.go
index d7e671e..9dceea1 100644
--- a/openapi31/jsonschema.go
+++ b/openapi31/jsonschema.go
@@ -71,7 +71,10 @@ func findReferences(js jsonschema.SchemaOrBool, ctx toJSONSchemaContext) {
 			if _, alreadyProcessed := ctx.refsProcessed[dstName]; !alreadyProcessed {
 				ctx.refsProcessed[dstName] = jsonschema.SchemaOrBool{}
 
-				dst := ctx.spec.Components.Schemas[dstName]
+				var dst map[string]interface{}
+				if ctx.spec != nil && ctx.spec.Components != nil {
+					dst = ctx.spec.Components.Schemas[dstName]
+				}
 
 				js := jsonschema.SchemaOrBool{}
 				if err := js.FromSimpleMap(dst); err != nil {
-- 
2.43.0


From d08ab1acd1ac2eb6bab741e98b9bba23414c3f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:41 +0000
Subject: [PATCH 29/37] fix: do not panic on header with reference schema

---
 openapi3/reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index 37544f9..65f669b 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -615,7 +615,7 @@ func (r *Reflector) parseResponseHeader(resp *Response, oc openapi.OperationCont
 
 			header := Header{
 				Description:   propertySchema.Description,
-				Deprecated:    s.Schema.Deprecated,
+				Deprecated:    propertySchema.Deprecated,
 				Schema:        &s,
 				Content:       nil,
 				Example:       nil,
-- 
2.43.0


From 2f99b7cf1b856853d6415e9de73a4712b8e76580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:14 +0000
Subject: [PATCH 30/37] fix: keep title and description of JSON parameter type
 behind a pointer

---
 openapi3/reflect.go  | 4 ++++
 openapi31/reflect.go | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index 65f669b..d852dcc 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -499,6 +499,10 @@ func (r *Reflector) parseParametersIn(
 
 			// Check if parameter is an JSON encoded object.
 			property := reflect.New(field.Type).Interface()
+			if refl.DeepIndirect(field.Type).Kind() == reflect.Struct {
+				// Pointer to pointer hides title and description of the type.
+				property = reflect.New(refl.DeepIndirect(field.Type)).Interface()
+			}
 
 			if collectionFormat == "json" ||
 				(refl.HasTaggedFields(property, tagJSON) && !refl.HasTaggedFields(property, string(in))) {
diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index 77ba144..4ba4f51 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -463,6 +463,11 @@ func (r *Reflector) parseParametersIn(
 
 			// Check if parameter is an JSON encoded object.
 			property := reflect.New(field.Type).Interface()
+			if refl.DeepIndirect(field.Type).Kind() == reflect.Struct {
+				// Pointer to pointer hides title and description of the type.
+				property = reflect.New(refl.DeepIndirect(field.Type)).Interface()
+			}
+
 			if collectionFormat == "json" || //nolint:nestif
 				(refl.HasTaggedFields(property, tagJSON) && !refl.HasTaggedFields(property, string(in))) {
 				propertySchema, err := r.Reflect(property,
-- 
2.43.0


From 6fe4675b51f4deb15c97425503e4184e5456c6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:31 +0000
Subject: [PATCH 31/37] fix: provide schemas of form fields of recursive type

---
 openapi3/walk_schema.go  | 17 +++++++++++++++--
 openapi31/walk_schema.go | 17 +++++++++++++++--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/openapi3/walk_schema.go b/openapi3/walk_schema.go
index 4ea89c3..f1bbed5 100644
--- a/openapi3/walk_schema.go
+++ b/openapi3/walk_schema.go
@@ -3,6 +3,7 @@ package openapi3
 import (
 	"fmt"
 	"net/http"
+	"strings"
 
 	"github.com/swaggest/jsonschema-go"
 	"github.com/swaggest/openapi-go"
@@ -148,7 +149,19 @@ func (r *Reflector) WalkRequestJSONSchemas(
 }
 
 func provideFormDataSchemas(schema jsonschema.SchemaOrBool, cb openapi.JSONSchemaCallback) error {
-	for name, propertySchema := range schema.TypeObject.Properties {
+	properties, required := schema.TypeObject.Properties, schema.TypeObject.Required
+
+	// Recursive root is kept as reference.
+	if ref := schema.TypeObject.Ref; ref != nil {
+		if components, ok := schema.TypeObject.ExtraProperties["components"].(map[string]interface{}); ok {
+			if schemas, ok := components["schemas"].(map[string]jsonschema.SchemaOrBool); ok {
+				root := schemas[strings.TrimPrefix(*ref, componentsSchemas)]
+				properties, required = root.TypeObjectEns().Properties, root.TypeObjectEns().Required
+			}
+		}
+	}
+
+	for name, propertySchema := range properties {
 		propertySchema := propertySchema
 
 		if propertySchema.TypeObject != nil && len(schema.TypeObject.ExtraProperties) > 0 {
@@ -159,7 +172,7 @@ func provideFormDataSchemas(schema jsonschema.SchemaOrBool, cb openapi.JSONSchem
 
 		isRequired := false
 
-		for _, req := range schema.TypeObject.Required {
+		for _, req := range required {
 			if req == name {
 				isRequired = true
 
diff --git a/openapi31/walk_schema.go b/openapi31/walk_schema.go
index c9686e6..db0c935 100644
--- a/openapi31/walk_schema.go
+++ b/openapi31/walk_schema.go
@@ -3,6 +3,7 @@ package openapi31
 import (
 	"fmt"
 	"net/http"
+	"strings"
 
 	"github.com/swaggest/jsonschema-go"
 	"github.com/swaggest/openapi-go"
@@ -148,7 +149,19 @@ func (r *Reflector) WalkRequestJSONSchemas(
 }
 
 func provideFormDataSchemas(schema jsonschema.SchemaOrBool, cb openapi.JSONSchemaCallback) error {
-	for name, propertySchema := range schema.TypeObject.Properties {
+	properties, required := schema.TypeObject.Properties, schema.TypeObject.Required
+
+	// Recursive root is kept as reference.
+	if ref := schema.TypeObject.Ref; ref != nil {
+		if components, ok := schema.TypeObject.ExtraProperties["components"].(map[string]interface{}); ok {
+			if schemas, ok := components["schemas"].(map[string]jsonschema.SchemaOrBool); ok {
+				root := schemas[strings.TrimPrefix(*ref, componentsSchemas)]
+				properties, required = root.TypeObjectEns().Properties, root.TypeObjectEns().Required
+			}
+		}
+	}
+
+	for name, propertySchema := range properties {
 		propertySchema := propertySchema
 
 		if propertySchema.TypeObject != nil && len(schema.TypeObject.ExtraProperties) > 0 {
@@ -159,7 +172,7 @@ func provideFormDataSchemas(schema jsonschema.SchemaOrBool, cb openapi.JSONSchem
 
 		isRequired := false
 
-		for _, req := range schema.TypeObject.Required {
+		for _, req := range required {
 			if req == name {
 				isRequired = true
 
-- 
2.43.0


From 37839b4dfc2e2d5c7678aee889d8a2e93a483a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:53 +0000
Subject: [PATCH 32/37] fix: keep extra properties of form field schema when
 adding components

---
 openapi3/walk_schema.go  | 10 ++++++++--
 openapi31/walk_schema.go | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/openapi3/walk_schema.go b/openapi3/walk_schema.go
index f1bbed5..b5b6104 100644
--- a/openapi3/walk_schema.go
+++ b/openapi3/walk_schema.go
@@ -164,10 +164,16 @@ func provideFormDataSchemas(schema jsonschema.SchemaOrBool, cb openapi.JSONSchem
 	for name, propertySchema := range properties {
 		propertySchema := propertySchema
 
-		if propertySchema.TypeObject != nil && len(schema.TypeObject.ExtraProperties) > 0 {
+		if components, ok := schema.TypeObject.ExtraProperties["components"]; ok && propertySchema.TypeObject != nil {
+			extra := map[string]interface{}{"components": components}
+
+			for k, v := range propertySchema.TypeObject.ExtraProperties {
+				extra[k] = v
+			}
+
 			cp := *propertySchema.TypeObject
 			propertySchema.TypeObject = &cp
-			propertySchema.TypeObject.ExtraProperties = schema.TypeObject.ExtraProperties
+			propertySchema.TypeObject.ExtraProperties = extra
 		}
 
 		isRequired := false
diff --git a/openapi31/walk_schema.go b/openapi31/walk_schema.go
index db0c935..ae616ca 100644
--- a/openapi31/walk_schema.go
+++ b/openapi31/walk_schema.go
@@ -164,10 +164,16 @@ func provideFormDataSchemas(schema jsonschema.SchemaOrBool, cb openapi.JSONSchem
 	for name, propertySchema := range properties {
 		propertySchema := propertySchema
 
-		if propertySchema.TypeObject != nil && len(schema.TypeObject.ExtraProperties) > 0 {
+		if components, ok := schema.TypeObject.ExtraProperties["components"]; ok && propertySchema.TypeObject != nil {
+			extra := map[string]interface{}{"components": components}
+
+			for k, v := range propertySchema.TypeObject.ExtraProperties {
+				extra[k] = v
+			}
+
 			cp := *propertySchema.TypeObject
 			propertySchema.TypeObject = &cp
-			propertySchema.TypeObject.ExtraProperties = schema.TypeObject.ExtraProperties
+			propertySchema.TypeObject.ExtraProperties = extra
 		}
 
 		isRequired := false
-- 
2.43.0


From 014c25f00ee5bc7bc5c0d6a88ca5f829a824f421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:27 +0000
Subject: [PATCH 33/37] fix: expose operation in deprecated operation context

---
 openapi3/reflect.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index d852dcc..e9b563c 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -237,6 +237,10 @@ func fromOpCtx(oc openapi.OperationContext) OperationContext {
 
 	c.HTTPMethod = oc.Method()
 
+	if oe, ok := oc.(OperationExposer); ok {
+		c.Operation = oe.Operation()
+	}
+
 	if req := oc.Request(); len(req) > 0 {
 		cu := req[0]
 
-- 
2.43.0


From a176e8a9ec5226506a9502a23ff2fb80f6d330f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:24 +0000
Subject: [PATCH 34/37] fix: do not convert nullable 3.0 schema without type
 but with other constraints to null type

---
 openapi3/jsonschema.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/openapi3/jsonschema.go b/openapi3/jsonschema.go
index 8ff48dd..41af2ed 100644
--- a/openapi3/jsonschema.go
+++ b/openapi3/jsonschema.go
@@ -83,7 +83,8 @@ func (s *SchemaOrRef) toJSONSchema(ctx toJSONSchemaContext) jsonschema.SchemaOrB
 		jso.AddType(jsonschema.SimpleType(*ss.Type))
 	}
 
-	if ss.Nullable != nil && *ss.Nullable {
+	// Nullable extends the type of the schema, without a type it does not change the meaning of other constraints.
+	if ss.Nullable != nil && *ss.Nullable && (ss.Type != nil || !ss.hasConstraints()) {
 		jso.AddType(jsonschema.Null)
 	}
 
@@ -182,6 +183,16 @@ func (s *SchemaOrRef) toJSONSchema(ctx toJSONSchemaContext) jsonschema.SchemaOrB
 	return js
 }
 
+// hasConstraints checks if there are constraints of a value other than its type.
+func (s *Schema) hasConstraints() bool {
+	return s.MultipleOf != nil || s.Maximum != nil || s.Minimum != nil ||
+		s.MaxLength != nil || s.MinLength != nil || s.Pattern != nil ||
+		s.MaxItems != nil || s.MinItems != nil || s.UniqueItems != nil || s.Items != nil ||
+		s.MaxProperties != nil || s.MinProperties != nil || s.Properties != nil || s.AdditionalProperties != nil ||
+		len(s.Required) > 0 || len(s.Enum) > 0 ||
+		s.Not != nil || len(s.AllOf) > 0 || len(s.OneOf) > 0 || len(s.AnyOf) > 0
+}
+
 // FromJSONSchema loads OpenAPI Schema from JSON Schema.
 func (s *SchemaOrRef) FromJSONSchema(schema jsonschema.SchemaOrBool) {
 	if schema.TypeBoolean != nil {
-- 
2.43.0


From 673530b907f869a2a6e54554428b7c651b4aa8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:44 +0000
Subject: [PATCH 35/37] fix: do not change documented operation when its
 context is added again

---
 openapi3/reflect.go  |  5 +++++
 openapi31/reflect.go | 11 +++++++++++
 2 files changed, 16 insertions(+)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index e9b563c..9c770dc 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -274,6 +274,11 @@ func (r *Reflector) AddOperation(oc openapi.OperationContext) error {
 		return fmt.Errorf("wrong operation context %T received, %T expected", oc, operationContext{})
 	}
 
+	// Existing operation can share data with the context, it is checked before the setup.
+	if _, found := r.SpecEns().Paths.MapOfPathItemValues[oc.PathPattern()].MapOfOperationValues[oc.Method()]; found {
+		return fmt.Errorf("operation already exists: %s %s", oc.Method(), oc.PathPattern())
+	}
+
 	if err := r.setupRequest(c.op, oc); err != nil {
 		return fmt.Errorf("setup request %s %s: %w", oc.Method(), oc.PathPattern(), err)
 	}
diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index 4ba4f51..0f95193 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -212,6 +212,12 @@ func (o operationContext) Operation() *Operation {
 
 // AddOperation configures operation request and response schema.
 func (r *Reflector) AddOperation(oc openapi.OperationContext) error {
+	// Existing operation can share data with the context, it is checked before the setup.
+	pathItem := r.SpecEns().PathsEns().MapOfPathItemValues[oc.PathPattern()]
+	if op, err := pathItem.Operation(oc.Method()); err == nil && op != nil {
+		return fmt.Errorf("operation already exists: %s %s", oc.Method(), oc.PathPattern())
+	}
+
 	c, err := r.setupOC(oc)
 	if err != nil {
 		return err
@@ -222,6 +228,11 @@ func (r *Reflector) AddOperation(oc openapi.OperationContext) error {
 
 // AddWebhook configures webhook request and response schema.
 func (r *Reflector) AddWebhook(oc openapi.OperationContext) error {
+	// Existing webhook can share data with the context, it is checked before the setup.
+	if _, found := r.SpecEns().Webhooks[oc.PathPattern()]; found {
+		return fmt.Errorf("duplicate webhook name: %s", oc.PathPattern())
+	}
+
 	c, err := r.setupOC(oc)
 	if err != nil {
 		return err
-- 
2.43.0


From 5216f57fb1ec35884fc5fb03d6664a2cf4857a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:56 +0000
Subject: [PATCH 36/37] fix: keep constraints next to reference and all
 referenced components in 3.1 JSON schema

---
 openapi31/jsonschema.go | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/openapi31/jsonschema.go b/openapi31/jsonschema.go
index 9dceea1..00f88eb 100644
--- a/openapi31/jsonschema.go
+++ b/openapi31/jsonschema.go
@@ -38,8 +38,8 @@ func ToJSONSchema(s map[string]interface{}, spec *Spec) jsonschema.SchemaOrBool
 
 	findReferences(js, ctx)
 
-	// Inline root reference without recursions.
-	if js.TypeObjectEns().Ref != nil {
+	// Inline root reference without recursions and without constraints next to it.
+	if js.TypeObjectEns().Ref != nil && len(s) == 1 {
 		dstName := strings.TrimPrefix(*js.TypeObjectEns().Ref, componentsSchemas)
 		if ctx.refsCount[dstName] == 1 {
 			js = ctx.refsProcessed[dstName]
@@ -87,8 +87,6 @@ func findReferences(js jsonschema.SchemaOrBool, ctx toJSONSchemaContext) {
 
 			ctx.refsCount[dstName]++
 		}
-
-		return
 	}
 
 	for _, sub := range []*jsonschema.SchemaOrBool{
@@ -138,4 +136,35 @@ func findReferences(js jsonschema.SchemaOrBool, ctx toJSONSchemaContext) {
 			findReferences(*dep.SchemaOrBool, ctx)
 		}
 	}
+
+	// Keywords of JSON Schema 2020-12 that are not known to jsonschema.Schema.
+	for _, keyword := range []string{"unevaluatedItems", "unevaluatedProperties", "contentSchema"} {
+		findValueReferences(jso.ExtraProperties[keyword], ctx)
+	}
+
+	if items, ok := jso.ExtraProperties["prefixItems"].([]interface{}); ok {
+		for _, item := range items {
+			findValueReferences(item, ctx)
+		}
+	}
+
+	for _, keyword := range []string{"$defs", "dependentSchemas"} {
+		if schemas, ok := jso.ExtraProperties[keyword].(map[string]interface{}); ok {
+			for _, schema := range schemas {
+				findValueReferences(schema, ctx)
+			}
+		}
+	}
+}
+
+func findValueReferences(v interface{}, ctx toJSONSchemaContext) {
+	m, ok := v.(map[string]interface{})
+	if !ok {
+		return
+	}
+
+	js := jsonschema.SchemaOrBool{}
+	if err := js.FromSimpleMap(m); err == nil {
+		findReferences(js, ctx)
+	}
 }
-- 
2.43.0


From c03d7853c7e4b79ad204bb766a9d7cdf04e1d539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:15 +0000
Subject: [PATCH 37/37] fix: reject malformed references of 3.1 instead of
 dropping their content

---
 openapi31/entities.go | 49 +++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index f9ac15d..0761be8 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -2104,10 +2104,10 @@ func (e *ExampleOrReference) UnmarshalJSON(data []byte) error {
 	}
 
 	// Object with $ref is a reference even if it would also be accepted as a value.
-	if e.Reference != nil {
+	if e.Reference != nil || hasRef(data) {
 		e.Example = nil
 
-		return nil
+		return err
 	}
 
 	err = json.Unmarshal(data, &e.Example)
@@ -2182,10 +2182,10 @@ func (h *HeaderOrReference) UnmarshalJSON(data []byte) error {
 	}
 
 	// Object with $ref is a reference even if it would also be accepted as a value.
-	if h.Reference != nil {
+	if h.Reference != nil || hasRef(data) {
 		h.Header = nil
 
-		return nil
+		return err
 	}
 
 	err = json.Unmarshal(data, &h.Header)
@@ -2355,10 +2355,10 @@ func (p *ParameterOrReference) UnmarshalJSON(data []byte) error {
 	}
 
 	// Object with $ref is a reference even if it would also be accepted as a value.
-	if p.Reference != nil {
+	if p.Reference != nil || hasRef(data) {
 		p.Parameter = nil
 
-		return nil
+		return err
 	}
 
 	err = json.Unmarshal(data, &p.Parameter)
@@ -2897,10 +2897,10 @@ func (r *RequestBodyOrReference) UnmarshalJSON(data []byte) error {
 	}
 
 	// Object with $ref is a reference even if it would also be accepted as a value.
-	if r.Reference != nil {
+	if r.Reference != nil || hasRef(data) {
 		r.RequestBody = nil
 
-		return nil
+		return err
 	}
 
 	err = json.Unmarshal(data, &r.RequestBody)
@@ -3429,10 +3429,10 @@ func (l *LinkOrReference) UnmarshalJSON(data []byte) error {
 	}
 
 	// Object with $ref is a reference even if it would also be accepted as a value.
-	if l.Reference != nil {
+	if l.Reference != nil || hasRef(data) {
 		l.Link = nil
 
-		return nil
+		return err
 	}
 
 	err = json.Unmarshal(data, &l.Link)
@@ -3507,10 +3507,10 @@ func (r *ResponseOrReference) UnmarshalJSON(data []byte) error {
 	}
 
 	// Object with $ref is a reference even if it would also be accepted as a value.
-	if r.Reference != nil {
+	if r.Reference != nil || hasRef(data) {
 		r.Response = nil
 
-		return nil
+		return err
 	}
 
 	err = json.Unmarshal(data, &r.Response)
@@ -3684,10 +3684,10 @@ func (p *PathItemOrReference) UnmarshalJSON(data []byte) error {
 	}
 
 	// Object with $ref is a reference even if it would also be accepted as a value.
-	if p.Reference != nil {
+	if p.Reference != nil || hasRef(data) {
 		p.PathItem = nil
 
-		return nil
+		return err
 	}
 
 	err = json.Unmarshal(data, &p.PathItem)
@@ -3762,10 +3762,10 @@ func (c *CallbacksOrReference) UnmarshalJSON(data []byte) error {
 	}
 
 	// Object with $ref is a reference even if it would also be accepted as a value.
-	if c.Reference != nil {
+	if c.Reference != nil || hasRef(data) {
 		c.Callbacks = nil
 
-		return nil
+		return err
 	}
 
 	err = json.Unmarshal(data, &c.Callbacks)
@@ -5518,10 +5518,10 @@ func (s *SecuritySchemeOrReference) UnmarshalJSON(data []byte) error {
 	}
 
 	// Object with $ref is a reference even if it would also be accepted as a value.
-	if s.Reference != nil {
+	if s.Reference != nil || hasRef(data) {
 		s.SecurityScheme = nil
 
-		return nil
+		return err
 	}
 
 	err = json.Unmarshal(data, &s.SecurityScheme)
@@ -5894,6 +5894,19 @@ func emptySchema(schema map[string]interface{}) json.RawMessage {
 	return json.RawMessage("null")
 }
 
+// hasRef tells if data is an object with a $ref member.
+func hasRef(data []byte) bool {
+	var m map[string]json.RawMessage
+
+	if err := json.Unmarshal(data, &m); err != nil {
+		return false
+	}
+
+	_, found := m["$ref"]
+
+	return found
+}
+
 func marshalUnion(maps ...interface{}) ([]byte, error) {
 	result := []byte("{")
 	isObject := true
-- 
2.43.0

