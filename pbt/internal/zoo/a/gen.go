// Code generated by tools/genzoo.py. DO NOT EDIT.

// Package a holds generated sample types.
package a

import (
	"encoding/json"
	"time"
)

var (
	_ json.RawMessage
	_ time.Time
)

// Scalar0 is a named scalar.
type Scalar0 string

// Scalar1 is a named scalar.
type Scalar1 int

// Scalar2 is a named scalar.
type Scalar2 int64

// Scalar3 is a named scalar.
type Scalar3 uint16

// Scalar4 is a named scalar.
type Scalar4 float64

// Scalar5 is a named scalar.
type Scalar5 bool

// Scalar6 is a named scalar.
type Scalar6 int32

// Scalar7 is a named scalar.
type Scalar7 string

// Item0 is a sample.
type Item0 struct {
	F0 bool   `json:"dot.0"`
	F1 string `json:"f1,omitempty" pattern:"^[A-Z][0-9]+$"`
	F2 int    `json:"f2" required:"true" exclusiveMinimum:"2" maximum:"40"`
	F3 string `json:"f3"`
}

// Item1 is a sample.
type Item1 struct {
	F0 []*Item10 `json:"f0" required:"true"`
	F1 string    `json:"f1" required:"true" format:"email"`
	F2 *string   `json:"f2" required:"true" enum:"a,b,c"`
	F3 []string  `json:"f3" required:"true" minItems:"2" uniqueItems:"true"`
	_  struct{}  `additionalProperties:"false" title:"Closed"`
}

// Item2 is a sample.
type Item2 struct {
	F0 []interface{}    `json:"f0"`
	F1 map[string]int8  `json:"kebab-1"`
	F2 map[string][]int `json:"kebab-2,omitempty"`
	F3 bool             `json:"snake_3" required:"true"`
	F4 *Item26          `json:"f4,omitempty" deprecated:"true"`
	F5 bool             `json:"f5" required:"true" default:"true"`
}

// Item3 is a sample.
type Item3 struct {
	F0     float64 `json:"kebab-0" minimum:"5" title:"T0"`
	Hidden string  `json:"-"`
}

// Item4 is a sample.
type Item4 struct {
	F0 bool `json:"f0"`
	F1 bool `json:"UPPER1" required:"true"`
}

// Item5 is a sample.
type Item5 struct {
	F0 int8 `json:"UPPER0" required:"true"`
}

// Item6 is a sample.
type Item6 struct {
	Base1
	F0 *Item26 `json:"f0" required:"true"`
	F1 string  `json:"f1"`
	F2 uint64  `json:"UPPER2,omitempty" example:"9" title:"T2"`
	F3 struct {
		In0 bool `json:"in0"`
	} `json:"dot.3,omitempty"`
	F4 []string `json:"f4" maxItems:"5"`
}

// Item7 is a sample.
type Item7 struct {
	F0 string            `json:"f0"`
	F1 map[string]string `json:"f1"`
	F2 string            `json:"UPPER2,omitempty" default:"def"`
	F3 int64             `json:"f3" required:"true"`
	_  struct{}          `additionalProperties:"false" title:"Closed"`
}

// Item8 is a sample.
type Item8 struct {
	F0    []float64 `json:"f0" required:"true" minItems:"2"`
	F1    string    `json:"f1"`
	NoTag int
}

// Item9 is a sample.
type Item9 struct {
	F0 string `json:"f0" required:"true"`
	F1 struct {
		In0 bool    `json:"in0"`
		In1 float32 `json:"in1" minimum:"2" maximum:"23" default:"7"`
		In2 *Item20 `json:"in2"`
	} `json:"f1" required:"true"`
	F2 float64          `json:"f2" required:"true" default:"7" example:"9"`
	F3 map[string][]int `json:"f3"`
	F4 uint8            `json:"f4" required:"true"`
}

// Item10 is a sample.
type Item10 struct {
	F0     float64  `json:"f0" required:"true" example:"9"`
	F1     int16    `json:"f1" required:"true" description:"Field 1."`
	F2     []string `json:"f2,omitempty" uniqueItems:"true" title:"T2" description:"Field 2."`
	F3     []uint32 `json:"f3" required:"true" minItems:"2" maxItems:"3"`
	F4     float32  `json:"f4" required:"true"`
	Hidden string   `json:"-"`
}

// Item11 is a sample.
type Item11 struct {
	F0     bool            `json:"f0"`
	F1     map[string]bool `json:"f1" required:"true"`
	F2     bool            `json:"kebab-2" required:"true"`
	F3     bool            `json:"snake_3,omitempty"`
	F4     string          `json:"UPPER4" minLength:"2" maxLength:"6" default:"def"`
	Hidden string          `json:"-"`
}

// Item12 is a sample.
type Item12 struct {
	F0 *int8 `json:"f0" required:"true"`
}

// Item13 is a sample.
type Item13 struct {
	F0 struct {
		In0 map[string]float32 `json:"in0"`
		In1 bool               `json:"in1"`
		In2 []Item9            `json:"in2"`
	} `json:"f0,omitempty"`
	F1 time.Time       `json:"f1" required:"true"`
	F2 string          `json:"f2,omitempty" format:"email"`
	F3 int64           `json:"f3,omitempty" maximum:"25" multipleOf:"2"`
	F4 json.RawMessage `json:"snake_4"`
	F5 *Item30         `json:"f5,omitempty"`
}

// Item14 is a sample.
type Item14 struct {
	F0 float64     `json:"f0" required:"true"`
	F1 int16       `json:"UPPER1" minimum:"0" exclusiveMaximum:"13" description:"Field 1."`
	F2 string      `json:"f2" required:"true"`
	F3 []int8      `json:"f3" required:"true" maxItems:"4"`
	F4 interface{} `json:"f4,omitempty"`
}

// Item15 is a sample.
type Item15 struct {
	F0 *string `json:"f0" minLength:"1" maxLength:"5" description:"Field 0."`
	F1 int32   `json:"f1"`
	F2 int64   `json:"UPPER2" required:"true"`
}

// Item16 is a sample.
type Item16 struct {
	F0 []string `json:"f0,omitempty" maxItems:"4"`
	F1 Item4    `json:"f1" description:"Nested value."`
}

// Item17 is a sample.
type Item17 struct {
	F0 string          `json:"f0,omitempty" format:"email" default:"def"`
	F1 bool            `json:"kebab-1"`
	F2 map[string]bool `json:"f2" maxProperties:"4"`
	F3 bool            `json:"dot.3" description:"Field 3."`
	F4 *bool           `json:"f4,omitempty"`
	F5 []struct {
		In0 *bool  `json:"in0"`
		In1 string `json:"in1" pattern:"^[A-Z][0-9]+$"`
	} `json:"f5,omitempty"`
}

// Item18 is a sample.
type Item18 struct {
	F0 Item9    `json:"f0"`
	F1 *Item25  `json:"kebab-1,omitempty" title:"T1"`
	F2 *string  `json:"f2" pattern:"[0-9]" default:"def"`
	_  struct{} `additionalProperties:"false" title:"Closed"`
}

// Item19 is a sample.
type Item19 struct {
	F0 []Item15 `json:"kebab-0" required:"true"`
	F1 *Item20  `json:"f1" required:"true"`
	F2 int16    `json:"f2,omitempty" exclusiveMinimum:"3" maximum:"17"`
	F3 *Item30  `json:"f3" required:"true"`
	F4 []string `json:"f4" minItems:"2" maxItems:"3"`
}

// Item20 is a sample.
type Item20 struct {
	F0 []Item26          `json:"snake_0"`
	F1 float32           `json:"f1" required:"true" enum:"1,2,3"`
	F2 []string          `json:"f2,omitempty" uniqueItems:"true"`
	F3 string            `json:"f3,omitempty" pattern:"^(red|green|blue)$"`
	F4 map[string]Item33 `json:"f4"`
	F5 uint8             `json:"f5" default:"7"`
}

// Item21 is a sample.
type Item21 struct {
	F0 []*Item4 `json:"f0,omitempty"`
	F1 struct {
		In0 bool `json:"in0"`
	} `json:"f1"`
	F2 []*Item24 `json:"f2"`
}

// Item22 is a sample.
type Item22 struct {
	F0 string            `json:"dot.0,omitempty" description:"Field 0."`
	F1 []string          `json:"f1"`
	F2 bool              `json:"f2,omitempty"`
	F3 map[string]string `json:"f3"`
	F4 struct {
		In0 json.RawMessage `json:"in0"`
	} `json:"f4,omitempty"`
}

// Item23 is a sample.
type Item23 struct {
	F0 struct {
		In0 Item17 `json:"in0"`
		In1 []int8 `json:"in1" minItems:"1"`
	} `json:"f0" required:"true"`
	F1 []string         `json:"kebab-1" maxItems:"5"`
	F2 *string          `json:"f2,omitempty" example:"ex"`
	F3 string           `json:"f3" required:"true"`
	F4 map[string]Item9 `json:"f4,omitempty"`
}

// Item24 is a sample.
type Item24 struct {
	F0 *string `json:"f0" minLength:"3"`
	F1 Item7   `json:"f1" description:"Nested value."`
	F2 []struct {
		In0 string `json:"in0" format:"uri"`
		In1 []bool `json:"in1" minItems:"2" maxItems:"4"`
	} `json:"f2" required:"true"`
	F3 string `json:"f3" required:"true" title:"T3"`
}

// Item25 is a sample.
type Item25 struct {
	F0 bool              `json:"UPPER0,omitempty"`
	F1 uint              `json:"dot.1" required:"true" minimum:"3"`
	F2 map[string]bool   `json:"f2,omitempty" minProperties:"1"`
	F3 bool              `json:"f3" required:"true" description:"Field 3."`
	F4 map[string]string `json:"snake_4"`
	F5 string            `json:"f5,omitempty" minLength:"3" default:"def" title:"T5"`
}

// Item26 is a sample.
type Item26 struct {
	F0 []Item33 `json:"f0,omitempty"`
	F1 string   `json:"f1" required:"true" minLength:"2" maxLength:"4" title:"T1"`
	F2 string   `json:"f2" required:"true" pattern:"^(red|green|blue)$" title:"T2"`
	F3 float32  `json:"kebab-3" required:"true"`
	F4 *Item10  `json:"f4"`
}

// Item27 is a sample.
type Item27 struct {
	Base1
	F0     map[string]bool    `json:"f0" required:"true" maxProperties:"4" title:"T0" description:"Field 0."`
	F1     string             `json:"f1" format:"email"`
	F2     uint32             `json:"f2" required:"true" maximum:"29" default:"7"`
	F3     map[string]float64 `json:"f3"`
	Hidden string             `json:"-"`
	_      struct{}           `additionalProperties:"false" title:"Closed"`
}

// Item28 is a sample.
type Item28 struct {
	F0 *Item17 `json:"f0"`
}

// Item29 is a sample.
type Item29 struct {
	F0 string   `json:"f0,omitempty" pattern:"^[a-z]{2,4}$"`
	F1 Scalar3  `json:"f1"`
	F2 bool     `json:"f2,omitempty"`
	F3 []string `json:"f3" uniqueItems:"true"`
	F4 string   `json:"f4"`
	F5 float32  `json:"UPPER5" required:"true" example:"9"`
}

// Item30 is a sample.
type Item30 struct {
	F0     map[string][]int `json:"f0" required:"true"`
	F1     int16            `json:"f1" required:"true"`
	Hidden string           `json:"-"`
}

// Item31 is a sample.
type Item31 struct {
	F0 []struct {
		In0 []uint64 `json:"in0" minItems:"1" maxItems:"3" uniqueItems:"true"`
		In1 string   `json:"in1" minLength:"1"`
	} `json:"snake_0" required:"true"`
}

// Item32 is a sample.
type Item32 struct {
	F0 uint32 `json:"UPPER0,omitempty"`
	F1 int    `json:"dot.1" maximum:"25"`
}

// Item33 is a sample.
type Item33 struct {
	F0 map[string]string `json:"UPPER0,omitempty" title:"T0"`
}

// Item34 is a sample.
type Item34 struct {
	F0 interface{} `json:"snake_0"`
	F1 float64     `json:"f1"`
	F2 string      `json:"f2" minLength:"3" maxLength:"7"`
}

// Item35 is a sample.
type Item35 struct {
	Base2
	F0 Item26            `json:"f0"`
	F1 map[string]string `json:"f1,omitempty"`
	F2 string            `json:"f2,omitempty" minLength:"3" maxLength:"5"`
	F3 Item23            `json:"f3,omitempty"`
	F4 bool              `json:"f4" default:"true"`
}

// Base0 is embedded.
type Base0 struct {
	B00 string `json:"b00" format:"email"`
	B01 string `json:"b01" pattern:"^(red|green|blue)$" default:"def"`
}

// Base1 is embedded.
type Base1 struct {
	B10 string  `json:"b10" format:"uuid"`
	B11 float64 `json:"b11" default:"7"`
}

// Base2 is embedded.
type Base2 struct {
	B20 int64 `json:"b20" minimum:"1" maximum:"28" multipleOf:"3" default:"7"`
}

// Req0 is a request.
type Req0 struct {
	Params0
	P0 bool   `query:"q0"`
	P1 string `cookie:"c1" required:"true"`
}

// Req1 is a request.
type Req1 struct {
	P0 bool     `header:"X-P0" required:"true"`
	P1 []string `header:"X-P1" collectionFormat:"multi" deprecated:"true" description:"Parameter 1."`
}

// Req2 is a request.
type Req2 struct {
	P0  bool   `query:"q0" json:"-" deprecated:"true"`
	P1  string `query:"q1" required:"true" format:"uri"`
	P2  *bool  `path:"p2" required:"true"`
	P3  string `query:"q3" json:"-" default:"def" deprecated:"true"`
	B4J *Item4 `json:"b4" required:"true"`
}

// Req3 is a request.
type Req3 struct {
	Params2
	P0  bool              `path:"p0"`
	P1  float64           `query:"q1" json:"-" minimum:"3"`
	P2  []string          `path:"p2" json:"-" required:"true" collectionFormat:"csv"`
	B3J map[string]Item10 `json:"b3"`
	B3F string            `formData:"b3" enum:"[\"x y\",\"z\"]"`
}

// Req4 is a request.
type Req4 struct {
	Params1
	P0 string `path:"p0"`
}

// Req5 is a request.
type Req5 struct {
	P0 *string `query:"q0" json:"-" required:"true" minLength:"3" default:"def"`
	P1 string  `query:"q1" json:"-"`
}

// Req6 is a request.
type Req6 struct {
	P0 string `query:"q0" minLength:"2" maxLength:"7"`
	P1 bool   `query:"q1" required:"true"`
}

// Req7 is a request.
type Req7 struct {
	Params0
	P0 string `query:"q0"`
	P1 int8   `query:"q1"`
}

// Req8 is a request.
type Req8 struct {
	Params0
	B0J []bool `json:"b0" minItems:"2"`
	P1  string `header:"X-P1" required:"true" deprecated:"true"`
	P2  int16  `cookie:"c2"`
	B3J string `json:"b3" minLength:"2" maxLength:"9"`
}

// Req9 is a request.
type Req9 struct {
	B0J []string `json:"b0" maxItems:"5"`
	B0F uint32   `formData:"b0" enum:"5,7" default:"7"`
}

// Req10 is a request.
type Req10 struct {
	P0 bool `path:"p0" required:"true" deprecated:"true"`
}

// Req11 is a request.
type Req11 struct {
	P0 int32  `header:"X-P0"`
	P1 *int32 `path:"p1" exclusiveMinimum:"4" maximum:"32"`
}

// Resp0 is a response.
type Resp0 struct {
	H0 int8     `header:"X-H0" json:"-" multipleOf:"2"`
	H1 string   `header:"X-H1" json:"-" example:"ex"`
	_  struct{} `description:"Response 0."`
}

// Resp1 is a response.
type Resp1 struct {
	F0 *Item16  `json:"f0"`
	H1 bool     `header:"X-H1" json:"-" required:"true"`
	_  struct{} `description:"Response 1."`
}

// Resp2 is a response.
type Resp2 struct {
	F0 *Item1 `json:"f0" deprecated:"true"`
}

// Resp3 is a response.
type Resp3 struct {
	H0 uint64 `header:"X-H0" json:"-"`
	H1 string `header:"X-H1" json:"-" required:"true" format:"uuid" deprecated:"true"`
}

// Resp4 is a response.
type Resp4 struct {
	F0 string `json:"f0"`
}

// Resp5 is a response.
type Resp5 struct {
	F0 json.RawMessage `json:"f0"`
	H1 bool            `header:"X-H1" json:"-" required:"true" default:"true" deprecated:"true"`
	F2 []uint64        `json:"f2"`
	F3 Item27          `json:"f3" description:"Nested value."`
	_  struct{}        `description:"Response 5."`
}

// Resp6 is a response.
type Resp6 struct {
	H0 string   `header:"X-H0" json:"-" required:"true"`
	H1 []string `header:"X-H1" json:"-" required:"true"`
	F2 uint8    `json:"f2"`
	F3 *bool    `json:"f3"`
}

// Resp7 is a response.
type Resp7 struct {
	H0 []string `header:"X-H0" json:"-" required:"true"`
	H1 int16    `header:"X-H1" json:"-" required:"true" enum:"5,7"`
	H2 float32  `header:"X-H2" json:"-" description:"Header 2."`
}

// Resp8 is a response.
type Resp8 struct {
	F0 map[string]uint `json:"f0" maxProperties:"4"`
}

// Resp9 is a response.
type Resp9 struct {
	F0 string `json:"f0" format:"uuid"`
	F1 int16  `json:"f1" exclusiveMinimum:"0"`
}

// Resp10 is a response.
type Resp10 struct {
	H0 []bool `header:"X-H0" json:"-"`
	H1 uint8  `header:"X-H1" json:"-" required:"true" enum:"5,7"`
	H2 string `header:"X-H2" json:"-" required:"true" default:"def"`
}

// Resp11 is a response.
type Resp11 struct {
	H0 bool     `header:"X-H0" json:"-"`
	H1 uint64   `header:"X-H1" json:"-" required:"true" deprecated:"true"`
	H2 bool     `header:"X-H2" json:"-" required:"true" description:"Header 2."`
	H3 []string `header:"X-H3" json:"-" required:"true" description:"Header 3."`
	_  struct{} `description:"Response 11."`
}

// Params0 is embedded.
type Params0 struct {
	E00 string  `query:"e00" format:"uri"`
	E01 float32 `header:"e01" minimum:"2" maximum:"13"`
	E02 string  `header:"e02"`
}

// Params1 is embedded.
type Params1 struct {
	E10 bool `query:"e10" default:"true"`
	E11 int8 `header:"e11" maximum:"11" multipleOf:"2"`
}

// Params2 is embedded.
type Params2 struct {
	E20 bool   `query:"e20"`
	E21 string `cookie:"e21" minLength:"3" maxLength:"4"`
}

// List0 is a named list.
type List0 []Item18

// Dict0 is a named map.
type Dict0 map[string]Item18

// List1 is a named list.
type List1 []Item3

// Dict1 is a named map.
type Dict1 map[string]Item3

// List2 is a named list.
type List2 []Item24

// Dict2 is a named map.
type Dict2 map[string]Item24

// List3 is a named list.
type List3 []Item31

// Dict3 is a named map.
type Dict3 map[string]Item31

// List4 is a named list.
type List4 []Item33

// Dict4 is a named map.
type Dict4 map[string]Item33

// List5 is a named list.
type List5 []Item15

// Dict5 is a named map.
type Dict5 map[string]Item15

// All lists the types.
var All = map[string]interface{}{
	"a.Item0":   Item0{},
	"a.Item1":   Item1{},
	"a.Item2":   Item2{},
	"a.Item3":   Item3{},
	"a.Item4":   Item4{},
	"a.Item5":   Item5{},
	"a.Item6":   Item6{},
	"a.Item7":   Item7{},
	"a.Item8":   Item8{},
	"a.Item9":   Item9{},
	"a.Item10":  Item10{},
	"a.Item11":  Item11{},
	"a.Item12":  Item12{},
	"a.Item13":  Item13{},
	"a.Item14":  Item14{},
	"a.Item15":  Item15{},
	"a.Item16":  Item16{},
	"a.Item17":  Item17{},
	"a.Item18":  Item18{},
	"a.Item19":  Item19{},
	"a.Item20":  Item20{},
	"a.Item21":  Item21{},
	"a.Item22":  Item22{},
	"a.Item23":  Item23{},
	"a.Item24":  Item24{},
	"a.Item25":  Item25{},
	"a.Item26":  Item26{},
	"a.Item27":  Item27{},
	"a.Item28":  Item28{},
	"a.Item29":  Item29{},
	"a.Item30":  Item30{},
	"a.Item31":  Item31{},
	"a.Item32":  Item32{},
	"a.Item33":  Item33{},
	"a.Item34":  Item34{},
	"a.Item35":  Item35{},
	"a.List0":   List0{},
	"a.List1":   List1{},
	"a.List2":   List2{},
	"a.List3":   List3{},
	"a.List4":   List4{},
	"a.List5":   List5{},
	"a.Dict0":   Dict0{},
	"a.Dict1":   Dict1{},
	"a.Dict2":   Dict2{},
	"a.Dict3":   Dict3{},
	"a.Dict4":   Dict4{},
	"a.Dict5":   Dict5{},
	"a.Scalar0": Scalar0(""),
	"a.Scalar1": Scalar1(0),
	"a.Scalar2": Scalar2(0),
	"a.Scalar3": Scalar3(0),
	"a.Scalar4": Scalar4(0),
	"a.Scalar5": Scalar5(false),
	"a.Scalar6": Scalar6(0),
	"a.Scalar7": Scalar7(""),
}

// Requests lists request types.
var Requests = map[string]interface{}{
	"a.Req0":  Req0{},
	"a.Req1":  Req1{},
	"a.Req2":  Req2{},
	"a.Req3":  Req3{},
	"a.Req4":  Req4{},
	"a.Req5":  Req5{},
	"a.Req6":  Req6{},
	"a.Req7":  Req7{},
	"a.Req8":  Req8{},
	"a.Req9":  Req9{},
	"a.Req10": Req10{},
	"a.Req11": Req11{},
}

// Responses lists response types.
var Responses = map[string]interface{}{
	"a.Resp0":  Resp0{},
	"a.Resp1":  Resp1{},
	"a.Resp2":  Resp2{},
	"a.Resp3":  Resp3{},
	"a.Resp4":  Resp4{},
	"a.Resp5":  Resp5{},
	"a.Resp6":  Resp6{},
	"a.Resp7":  Resp7{},
	"a.Resp8":  Resp8{},
	"a.Resp9":  Resp9{},
	"a.Resp10": Resp10{},
	"a.Resp11": Resp11{},
}

// Embeds lists types to be embedded.
var Embeds = map[string]interface{}{
	"a.Params0": Params0{},
	"a.Params1": Params1{},
	"a.Params2": Params2{},
}
