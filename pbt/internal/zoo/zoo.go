// Package zoo holds Go types that exercise the features of schema reflection.
package zoo

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"mime/multipart"
	"strings"
	"time"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"

	"verif/pbt/internal/zoo/a"
	"verif/pbt/internal/zoo/b"
	xa "verif/pbt/internal/zoo/x/a"
)

// Level is an integer with enumerated values.
type Level int

// Enum implements jsonschema.Enum.
func (Level) Enum() []interface{} { return []interface{}{1, 2, 3} }

// Color is a string with named enumerated values.
type Color string

// NamedEnum implements jsonschema.NamedEnum.
func (Color) NamedEnum() ([]interface{}, []string) {
	return []interface{}{"red", "green"}, []string{"RED", "GREEN"}
}

// TextID has a text form.
type TextID struct {
	A, B int
}

// MarshalText implements encoding.TextMarshaler.
func (t TextID) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("%d-%d", t.A, t.B)), nil }

// UnmarshalText implements encoding.TextUnmarshaler.
func (t *TextID) UnmarshalText(d []byte) error {
	_, err := fmt.Sscanf(string(d), "%d-%d", &t.A, &t.B)

	return err
}

// Code is a string with a prepared schema.
type Code string

// PrepareJSONSchema implements jsonschema.Preparer.
func (Code) PrepareJSONSchema(s *jsonschema.Schema) error {
	s.WithPattern("^[a-z]+$").WithMinLength(1).WithTitle("Code")

	return nil
}

// Money exposes its schema.
type Money struct{ Cents int64 }

// JSONSchema implements jsonschema.Exposer.
func (Money) JSONSchema() (jsonschema.Schema, error) {
	s := jsonschema.Schema{}
	s.AddType(jsonschema.String)
	s.WithPattern(`^\d+\.\d{2}$`).WithDescription("Amount of money.").WithExtraPropertiesItem("x-money", true)

	return s, nil
}

// MarshalJSON implements json.Marshaler.
func (m Money) MarshalJSON() ([]byte, error) {
	c := m.Cents
	if c < 0 {
		c = -(c + 1)
	}

	return json.Marshal(fmt.Sprintf("%d.%02d", c/100, c%100))
}

// Point exposes raw schema.
type Point struct{ X, Y float64 }

// JSONSchemaBytes implements jsonschema.RawExposer.
func (Point) JSONSchemaBytes() ([]byte, error) {
	return []byte(`{"type":"array","items":{"type":"number"},"minItems":2,"maxItems":2,"x-point":"xy"}`), nil
}

// MarshalJSON implements json.Marshaler.
func (p Point) MarshalJSON() ([]byte, error) { return json.Marshal([]float64{p.X, p.Y}) }

// Doc has title and description.
type Doc struct {
	A string `json:"a" required:"true"`
	B int    `json:"b,omitempty"`
}

// Title implements jsonschema.Titled.
func (Doc) Title() string { return "Doc title" }

// Description implements jsonschema.Described.
func (Doc) Description() string { return "Doc description" }

// Tree is recursive in values.
type Tree struct {
	Name     string `json:"name" minLength:"1"`
	Children []Tree `json:"children,omitempty"`
}

// Node is recursive in pointers.
type Node struct {
	Value int   `json:"value"`
	Next  *Node `json:"next,omitempty"`
}

// Graph is recursive in maps and with another type.
type Graph struct {
	Edges map[string]Edge `json:"edges,omitempty"`
}

// Edge belongs to Graph.
type Edge struct {
	To     *Graph  `json:"to,omitempty"`
	Weight float64 `json:"weight" minimum:"0"`
}

// Page is generic.
type Page[T any] struct {
	Items []T `json:"items,omitempty"`
	Total int `json:"total" minimum:"0"`
}

// Pair is generic with two parameters.
type Pair[K comparable, V any] struct {
	Key K `json:"key"`
	Val V `json:"val"`
}

// Base is embedded.
type Base struct {
	ID      int64     `json:"id" minimum:"1"`
	Created time.Time `json:"created"`
}

// WithEmb embeds a structure.
type WithEmb struct {
	Base
	Name string `json:"name" required:"true"`
}

// PtrEmb embeds a pointer.
type PtrEmb struct {
	*Base
	Title string `json:"title,omitempty"`
}

// ReferEmb refers to the embedded structure.
type ReferEmb struct {
	Base  `refer:"true"`
	Extra string `json:"extra"`
}

// DeepEmb embeds twice.
type DeepEmb struct {
	WithEmb
	Deep bool `json:"deep"`
}

// Items is a named list.
type Items []Doc

// Dict is a named map.
type Dict map[string]Tree

// EmbList embeds a list.
type EmbList struct {
	Items
}

// EmbDict embeds a map.
type EmbDict struct {
	Dict
}

// MapID is described as another type by a type mapping.
type MapID struct {
	hi, lo uint64
}

// MapAny has no schema of its own.
type MapAny [2]complex128

// Shape is one of its members.
type Shape struct{}

// JSONSchemaOneOf implements jsonschema.OneOfExposer.
func (Shape) JSONSchemaOneOf() []interface{} { return []interface{}{Circle{}, Square{}} }

// Circle is a Shape.
type Circle struct {
	Radius float64 `json:"radius" required:"true" minimum:"0"`
}

// Square is a Shape.
type Square struct {
	Side float64 `json:"side" required:"true" minimum:"0"`
}

// AnyShape is any of its members.
type AnyShape struct {
	Kind string `json:"kind"`
}

// JSONSchemaAnyOf implements jsonschema.AnyOfExposer.
func (AnyShape) JSONSchemaAnyOf() []interface{} { return []interface{}{Circle{}, Square{}} }

// Cond exposes conditional subschemas.
type Cond struct {
	Kind string `json:"kind"`
	Side int    `json:"side,omitempty"`
}

// JSONSchemaIf implements jsonschema.IfExposer.
func (Cond) JSONSchemaIf() interface{} { return Circle{} }

// JSONSchemaThen implements jsonschema.ThenExposer.
func (Cond) JSONSchemaThen() interface{} { return Doc{} }

// JSONSchemaElse implements jsonschema.ElseExposer.
func (Cond) JSONSchemaElse() interface{} { return Square{} }

// Negative exposes a negated schema.
type Negative struct {
	Name string `json:"name"`
}

// JSONSchemaNot implements jsonschema.NotExposer.
func (Negative) JSONSchemaNot() interface{} { return Circle{} }

// Broken fails to provide a schema.
type Broken struct{}

// ErrBroken is the failure of Broken.
var ErrBroken = errors.New("broken schema")

// JSONSchema implements jsonschema.Exposer.
func (Broken) JSONSchema() (jsonschema.Schema, error) { return jsonschema.Schema{}, ErrBroken }

// Inline is never a definition.
type Inline struct {
	V int `json:"v"`
}

// InlineJSONSchema implements jsonschema.SchemaInliner.
func (Inline) InlineJSONSchema() {}

// Marked exposes a schema with an extension, without a definition.
type Marked string

// JSONSchema implements jsonschema.Exposer.
func (Marked) JSONSchema() (jsonschema.Schema, error) {
	s := jsonschema.Schema{}
	s.AddType(jsonschema.String)
	s.WithMaxLength(20).WithExtraPropertiesItem("x-marked", map[string]interface{}{"by": "test"})

	return s, nil
}

// InlineJSONSchema implements jsonschema.SchemaInliner.
func (Marked) InlineJSONSchema() {}

// Date wraps a well known type.
type Dated struct {
	On  jsonschema.Date  `json:"on"`
	Opt *jsonschema.Date `json:"opt,omitempty"`
	At  *time.Time       `json:"at,omitempty"`
}

// Upload has files.
type Upload struct {
	Name  string                  `formData:"name" minLength:"1"`
	File  multipart.File          `formData:"file"`
	Head  *multipart.FileHeader   `formData:"head" required:"true"`
	Files []multipart.File        `formData:"files"`
	Heads []*multipart.FileHeader `formData:"heads"`
}

// FormTree is recursive form data.
type FormTree struct {
	Name     string              `formData:"name" required:"true" minLength:"2"`
	Parent   *FormTree           `formData:"parent"`
	Children []FormTree          `formData:"children"`
	ByName   map[string]FormTree `formData:"byName"`
	Doc      *Doc                `formData:"doc"`
}

// QueryTree is a recursive deep object.
type QueryTree struct {
	Name string      `query:"name"`
	Sub  *QueryTree  `query:"sub"`
	List []QueryTree `query:"list"`
}

// HeadTree is recursive in headers.
type HeadTree struct {
	Name string    `header:"X-Name" json:"name"`
	Sub  *HeadTree `header:"X-Sub" json:"sub"`
}

// Link has its schema elsewhere.
type Link string

// JSONSchemaBytes implements jsonschema.RawExposer.
func (Link) JSONSchemaBytes() ([]byte, error) {
	return []byte(`{"$ref":"https://example.com/schemas/link.json"}`), nil
}

// EmbSelf embeds a pointer to itself.
type EmbSelf struct {
	*EmbSelf
	A int `json:"a" query:"a"`
}

// Odd has unusual members.
type Odd struct {
	Nested map[int]map[string][]*Doc `json:"nested"`
	Arr    [2][3]int                 `json:"arr"`
	PP     *[]*Doc                   `json:"pp"`
	Err    error                     `json:"err"`
	IO     io.Reader                 `json:"io"`
	U      uintptr                   `json:"u"`
	D      time.Duration             `json:"d" minimum:"1"`
	Anon   struct {
		X *Odd `json:"x"`
	} `json:"anon"`
	hidden int `json:"hidden"` //nolint
}

// Chan is not supported.
type Chan chan int

// ForceAll enforces request body.
type ForceAll struct {
	Q string `query:"q"`
	B string `json:"b" maxLength:"5"`
	C Doc    `json:"c"`
}

// ForceRequestBody implements openapi.RequestBodyEnforcer.
func (ForceAll) ForceRequestBody() {}

// ForcePtr enforces request body with pointer receiver.
type ForcePtr struct {
	F int    `formData:"f" minimum:"3"`
	G string `formData:"g"`
}

// ForceRequestBody implements openapi.RequestBodyEnforcer.
func (*ForcePtr) ForceRequestBody() {}

// ForceJSON enforces JSON together with form data.
type ForceJSON struct {
	F int    `formData:"f" json:"f"`
	G string `formData:"g" json:"gg"`
	H *Doc   `json:"h,omitempty"`
}

// ForceJSONRequestBody implements openapi.RequestJSONBodyEnforcer.
func (ForceJSON) ForceJSONRequestBody() {}

// ForceBoth enforces everything.
type ForceBoth struct {
	H string `header:"X-H"`
	F int    `form:"f" json:"f" query:"ff"`
	G bool   `json:"g"`
}

// ForceRequestBody implements openapi.RequestBodyEnforcer.
func (ForceBoth) ForceRequestBody() {}

// ForceJSONRequestBody implements openapi.RequestJSONBodyEnforcer.
func (ForceBoth) ForceJSONRequestBody() {}

// MixedForm has both kinds of body fields.
type MixedForm struct {
	F int    `formData:"f" json:"f"`
	G string `json:"g"`
}

// ForceList is an enforced list.
type ForceList []Doc

// ForceRequestBody implements openapi.RequestBodyEnforcer.
func (ForceList) ForceRequestBody() {}

// Params is embedded into requests.
type Params struct {
	Page  int    `query:"page" minimum:"1" default:"1" description:"Page number."`
	Limit int    `query:"limit" maximum:"100" required:"true"`
	Trace string `header:"X-Trace" format:"uuid"`
	Sess  string `cookie:"sess"`
}

// Filter is a deep object in query.
type Filter struct {
	Min  int      `query:"min"`
	Max  int      `query:"max" minimum:"1"`
	Tags []string `query:"tags"`
}

// JSONFilter is a JSON encoded parameter.
type JSONFilter struct {
	Min int    `json:"min"`
	Doc *Doc   `json:"doc,omitempty"`
	Str string `json:"str" pattern:"^x"`
}

// ClosedQuery forbids unknown query parameters.
type ClosedQuery struct {
	_ struct{} `query:"_" additionalProperties:"false"`
	A string   `query:"a"`
	B string   `header:"b"`
}

// ClosedMany forbids unknown parameters in several locations.
type ClosedMany struct {
	_ struct{} `header:"_" cookie:"_" additionalProperties:"false"`
	A string   `query:"a"`
	B string   `header:"b"`
	C string   `cookie:"c"`
}

// ClosedBody forbids unknown properties of JSON.
type ClosedBody struct {
	_ struct{} `additionalProperties:"false" title:"Closed body"`
	A string   `json:"a"`
	Q string   `query:"q"`
}

// WithHeaders has headers and a body.
type WithHeaders struct {
	ETag  string `header:"ETag" json:"-" description:"Tag."`
	Count int    `header:"X-Count" json:"-" minimum:"0" required:"true"`
	Body  Doc    `json:"body"`
}

// HeadersOnly has headers.
type HeadersOnly struct {
	Loc string   `header:"Location" json:"-" format:"uri"`
	Old []string `header:"X-Old" json:"-" deprecated:"true"`
}

// Raw has raw bodies.
type Raw struct {
	Text string `contentType:"text/plain"`
	CSV  []byte `contentType:"text/csv"`
}

// RawOut is a raw response body.
type RawOut struct {
	io.Writer
}

// Empty is an empty structure.
type Empty struct{}

// NoTags has no tags.
type NoTags struct {
	A string
	B int
}

// Prep prepares its own content unit.
type Prep struct {
	Body   interface{}
	Type   string
	Status int
	Def    bool
	Desc   string
}

// SetupContentUnit implements openapi.ContentUnitPreparer.
func (p Prep) SetupContentUnit(cu *openapi.ContentUnit) {
	cu.Structure = p.Body
	cu.ContentType = p.Type
	cu.HTTPStatus = p.Status
	cu.IsDefault = p.Def
	cu.Description = p.Desc
}

// Virt embeds a virtual structure.
type Virt struct {
	jsonschema.Struct
}

// Holder has an interface value.
type Holder struct {
	Any   interface{}    `json:"any"`
	Str   fmt.Stringer   `json:"str"`
	List  []interface{}  `json:"list,omitempty"`
	Named map[string]any `json:"named,omitempty"`
}

// Bad has unsupported members.
type Bad struct {
	C chan int       `json:"c"`
	Q chan int       `query:"q"`
	F func()         `json:"f"`
	X complex128     `json:"x"`
	S strings.Reader `json:"-"`
}

// All lists the types by name.
var All = map[string]interface{}{}

// Generated lists names of generated types that marshal to JSON without special care.
var Generated []string

// Requests and Responses list names of generated types with fields in several locations.
var Requests, Responses []string

// Special lists names of handwritten types for JSON bodies whose values can be generated.
var Special []string

func init() {
	for _, m := range []map[string]interface{}{a.All, b.All, xa.All} {
		for k, v := range m {
			All[k] = v
			Generated = append(Generated, k)
		}
	}

	for _, m := range []map[string]interface{}{a.Embeds, b.Embeds, xa.Embeds} {
		for k, v := range m {
			All[k] = v
		}
	}

	for _, m := range []map[string]interface{}{a.Requests, b.Requests, xa.Requests} {
		for k, v := range m {
			All[k] = v
			Requests = append(Requests, k)
		}
	}

	for _, m := range []map[string]interface{}{a.Responses, b.Responses, xa.Responses} {
		for k, v := range m {
			All[k] = v
			Responses = append(Responses, k)
		}
	}

	special := map[string]interface{}{
		"Level": Level(0), "Color": Color(""), "TextID": TextID{}, "Code": Code(""), "Money": Money{}, "Point": Point{},
		"Doc": Doc{}, "Tree": Tree{}, "Node": Node{}, "Graph": Graph{}, "Edge": Edge{},
		"PageDoc": Page[Doc]{}, "PageTree": Page[Tree]{}, "PageStr": Page[string]{}, "PageA0": Page[a.Item0]{}, "PageB0": Page[b.Item0]{},
		"PageXA0": Page[xa.Item0]{}, "PagePage": Page[Page[Doc]]{},
		"PairStrDoc": Pair[string, Doc]{}, "PairIntTree": Pair[int, Tree]{}, "PairAB": Pair[string, Pair[string, b.Item1]]{},
		"Base": Base{}, "WithEmb": WithEmb{}, "PtrEmb": PtrEmb{}, "ReferEmb": ReferEmb{}, "DeepEmb": DeepEmb{},
		"Items": Items{}, "Dict": Dict{}, "EmbList": EmbList{}, "EmbDict": EmbDict{},
		"Circle": Circle{}, "Square": Square{}, "Inline": Inline{}, "Marked": Marked(""), "Dated": Dated{}, "Empty": Empty{}, "NoTags": NoTags{},
		"JSONFilter": JSONFilter{},
	}
	for k, v := range special {
		All[k] = v
		Special = append(Special, k)
	}

	for k, v := range map[string]interface{}{
		"Shape": Shape{}, "AnyShape": AnyShape{}, "Cond": Cond{}, "Negative": Negative{}, "Broken": Broken{},
		"Upload": Upload{}, "ForceAll": ForceAll{}, "ForcePtr": ForcePtr{}, "ForceJSON": ForceJSON{}, "ForceBoth": ForceBoth{},
		"MixedForm": MixedForm{}, "FormTree": FormTree{}, "QueryTree": QueryTree{}, "HeadTree": HeadTree{}, "Link": Link(""), "EmbSelf": EmbSelf{}, "Odd": Odd{}, "Chan": Chan(nil), "RawOut": RawOut{}, "ForceList": ForceList{}, "Params": Params{}, "Filter": Filter{}, "ClosedQuery": ClosedQuery{},
		"ClosedMany": ClosedMany{}, "ClosedBody": ClosedBody{}, "WithHeaders": WithHeaders{}, "HeadersOnly": HeadersOnly{},
		"MapID": MapID{}, "MapAny": MapAny{},
		"Raw": Raw{}, "Holder": Holder{}, "Bad": Bad{}, "Prep": Prep{}, "Virt": Virt{},
	} {
		All[k] = v
	}

	sortStrings(Generated)
	sortStrings(Special)
	sortStrings(Requests)
	sortStrings(Responses)
}

func sortStrings(l []string) {
	for i := range l {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}
