// Code generated by tools/genzoo.py. DO NOT EDIT.

// Package a holds generated sample types.
package a

import (
	"encoding/json"
	"time"

	a2 "verif/pbt/internal/zoo/a"
	b "verif/pbt/internal/zoo/b"
)

var (
	_ json.RawMessage
	_ time.Time
	_ b.Item0
	_ a2.Item0
)

// Scalar0 is a named scalar.
type Scalar0 string

// Scalar1 is a named scalar.
type Scalar1 int

// Scalar2 is a named scalar.
type Scalar2 int64

// Scalar3 is a named scalar.
type Scalar3 uint16

// Scalar4 is a named scalar.
type Scalar4 float64

// Scalar5 is a named scalar.
type Scalar5 bool

// Scalar6 is a named scalar.
type Scalar6 int32

// Scalar7 is a named scalar.
type Scalar7 string

// Item0 is a sample.
type Item0 struct {
	F0    []uint   `json:"f0,omitempty" minItems:"2"`
	F1    uint8    `json:"f1" required:"true" minimum:"4" maximum:"42" multipleOf:"3"`
	F2    a2.Item2 `json:"f2" title:"T2" description:"Field 2."`
	F3    int16    `json:"f3" required:"true"`
	F4    string   `json:"f4" pattern:"^(red|green|blue)$"`
	F5    *string  `json:"f5" required:"true" minLength:"1"`
	NoTag int
}

// Item1 is a sample.
type Item1 struct {
	F0 bool   `json:"f0"`
	F1 uint32 `json:"kebab-1" enum:"5,7"`
	F2 []bool `json:"f2" minItems:"2"`
	F3 uint32 `json:"f3" required:"true" enum:"1,2,3"`
}

// Item2 is a sample.
type Item2 struct {
	F0 [3]int   `json:"f0"`
	F1 *Item30  `json:"dot.1,omitempty"`
	F2 a2.Item6 `json:"f2"`
}

// Item3 is a sample.
type Item3 struct {
	F0 [][]string        `json:"f0" description:"Field 0."`
	F1 map[string]string `json:"UPPER1" required:"true"`
	F2 []byte            `json:"f2"`
}

// Item4 is a sample.
type Item4 struct {
	F0 []string `json:"dot.0,omitempty" description:"Field 0."`
	F1 string   `json:"f1"`
}

// Item5 is a sample.
type Item5 struct {
	F0 float32 `json:"f0" required:"true" title:"T0"`
	F1 bool    `json:"f1,omitempty"`
	F2 string  `json:"f2,omitempty" minLength:"2" maxLength:"4" example:"ex"`
	F3 uint64  `json:"f3"`
	F4 []bool  `json:"f4" minItems:"1" title:"T4"`
	F5 string  `json:"f5,omitempty" title:"T5"`
}

// Item6 is a sample.
type Item6 struct {
	F0 b.Item17 `json:"f0,omitempty" title:"T0"`
}

// Item7 is a sample.
type Item7 struct {
	F0 int32   `json:"f0" title:"T0"`
	F1 float32 `json:"f1" required:"true" minimum:"3" description:"Field 1."`
	F2 uint    `json:"kebab-2" enum:"1,2,3"`
}

// Item8 is a sample.
type Item8 struct {
	F0 string  `json:"f0,omitempty" format:"email"`
	F1 float32 `json:"f1" required:"true" description:"Field 1."`
}

// Item9 is a sample.
type Item9 struct {
	F0 string   `json:"kebab-0" enum:"[\"x y\",\"z\"]"`
	F1 string   `json:"dot.1" format:"uuid"`
	F2 []*Item6 `json:"f2"`
	F3 string   `json:"f3" format:"uuid" default:"def" example:"ex" description:"Field 3."`
	F4 float64  `json:"f4" required:"true"`
}

// Item10 is a sample.
type Item10 struct {
	F0 string `json:"f0,omitempty" minLength:"2"`
}

// Item11 is a sample.
type Item11 struct {
	F0 struct {
		In0 *Item19 `json:"in0"`
	} `json:"f0" title:"T0"`
	F1 bool           `json:"f1"`
	F2 map[string]int `json:"f2,omitempty" maxProperties:"4" title:"T2"`
	_  struct{}       `additionalProperties:"false" title:"Closed"`
}

// Item12 is a sample.
type Item12 struct {
	F0 bool     `json:"f0,omitempty"`
	F1 []string `json:"f1"`
	F2 []struct {
		In0 string `json:"in0" format:"uri"`
		In1 bool   `json:"in1"`
	} `json:"f2"`
	F3 map[string]float64 `json:"f3" required:"true"`
	F4 *int16             `json:"kebab-4" maximum:"31"`
}

// Item13 is a sample.
type Item13 struct {
	F0 struct {
		In0 *float64 `json:"in0"`
	} `json:"UPPER0" required:"true"`
	F1    []Item33           `json:"f1"`
	F2    []string           `json:"f2,omitempty" maxItems:"3" uniqueItems:"true" title:"T2"`
	F3    *Item24            `json:"f3" required:"true"`
	F4    []float64          `json:"f4,omitempty" maxItems:"3"`
	F5    map[string]float32 `json:"f5" required:"true"`
	NoTag int
}

// Item14 is a sample.
type Item14 struct {
	F0    []Item11        `json:"f0,omitempty"`
	F1    bool            `json:"f1"`
	F2    int32           `json:"dot.2,omitempty" exclusiveMinimum:"0"`
	F3    json.RawMessage `json:"dot.3"`
	F4    uint8           `json:"kebab-4" required:"true" minimum:"2" maximum:"19"`
	F5    string          `json:"f5" minLength:"3" maxLength:"6"`
	NoTag int
}

// Item15 is a sample.
type Item15 struct {
	Base2
	F0 bool             `json:"dot.0,omitempty"`
	F1 bool             `json:"f1,omitempty"`
	F2 string           `json:"f2" required:"true"`
	F3 map[string][]int `json:"f3"`
	F4 bool             `json:"f4"`
}

// Item16 is a sample.
type Item16 struct {
	F0 [][]string `json:"f0,omitempty"`
	F1 struct {
		In0 *bool `json:"in0"`
	} `json:"f1" required:"true"`
	F2 bool `json:"f2,omitempty"`
	F3 struct {
		In0 bool     `json:"in0"`
		In1 []string `json:"in1"`
		In2 string   `json:"in2"`
	} `json:"f3" required:"true"`
	F4    int32 `json:"f4" required:"true" minimum:"0" maximum:"31" multipleOf:"3"`
	F5    *uint `json:"snake_5" required:"true" enum:"1,2,3" default:"7"`
	NoTag int
}

// Item17 is a sample.
type Item17 struct {
	F0 []struct {
		In0 [][]string `json:"in0"`
		In1 string     `json:"in1"`
	} `json:"UPPER0"`
	F1 map[string]uint8 `json:"f1,omitempty"`
}

// Item18 is a sample.
type Item18 struct {
	F0 int32      `json:"f0" exclusiveMinimum:"2"`
	F1 []b.Item27 `json:"snake_1"`
}

// Item19 is a sample.
type Item19 struct {
	F0     int64     `json:"dot.0" example:"9"`
	F1     string    `json:"dot.1" required:"true"`
	F2     time.Time `json:"f2" required:"true"`
	F3     string    `json:"f3,omitempty" enum:"foo,bar" default:"def"`
	F4     float32   `json:"f4"`
	Hidden string    `json:"-"`
}

// Item20 is a sample.
type Item20 struct {
	Base0
	F0 int32             `json:"snake_0,omitempty" minimum:"1" default:"7"`
	F1 []string          `json:"f1"`
	F2 map[string]string `json:"f2" title:"T2"`
	F3 []Item20          `json:"f3"`
}

// Item21 is a sample.
type Item21 struct {
	F0 map[string]Item21 `json:"f0" required:"true"`
	F1 *int16            `json:"dot.1,omitempty" minimum:"4"`
	F2 *a2.Item21        `json:"f2" required:"true"`
	F3 []Item34          `json:"f3"`
	F4 string            `json:"f4" required:"true" minLength:"3" maxLength:"9"`
}

// Item22 is a sample.
type Item22 struct {
	F0 string `json:"f0" default:"def" example:"ex"`
}

// Item23 is a sample.
type Item23 struct {
	F0     string    `json:"f0,omitempty"`
	F1     *Item19   `json:"f1" required:"true"`
	F2     string    `json:"snake_2" description:"Field 2."`
	F3     a2.Item16 `json:"f3"`
	Hidden string    `json:"-"`
}

// Item24 is a sample.
type Item24 struct {
	F0 []Item20          `json:"snake_0" required:"true"`
	F1 map[string]string `json:"f1,omitempty"`
	F2 string            `json:"f2" enum:"foo,bar"`
}

// Item25 is a sample.
type Item25 struct {
	F0 []uint32          `json:"f0" minItems:"1"`
	F1 map[string]string `json:"f1" maxProperties:"4" minProperties:"1"`
	F2 Item2             `json:"f2" description:"Nested value."`
	F3 Item17            `json:"UPPER3"`
	F4 map[string]Item34 `json:"snake_4"`
	F5 *Item0            `json:"snake_5,omitempty" title:"T5"`
}

// Item26 is a sample.
type Item26 struct {
	F0 map[string]Item25 `json:"f0"`
	F1 bool              `json:"kebab-1" required:"true"`
	F2 float32           `json:"f2" required:"true" enum:"5,7" description:"Field 2."`
	F3 string            `json:"f3" required:"true"`
	F4 bool              `json:"f4,omitempty"`
	F5 string            `json:"dot.5,omitempty" pattern:"^(red|green|blue)$"`
	_  struct{}          `additionalProperties:"false" title:"Closed"`
}

// Item27 is a sample.
type Item27 struct {
	F0 json.RawMessage `json:"f0" description:"Field 0."`
	F1 int16           `json:"f1,omitempty" default:"7"`
	F2 string          `json:"UPPER2,omitempty" minLength:"1" maxLength:"7"`
	F3 *bool           `json:"dot.3,omitempty"`
	F4 string          `json:"dot.4" required:"true" enum:"foo,bar"`
}

// Item28 is a sample.
type Item28 struct {
	F0    *bool `json:"f0"`
	NoTag int
	_     struct{} `additionalProperties:"false" title:"Closed"`
}

// Item29 is a sample.
type Item29 struct {
	F0    []*Item4  `json:"dot.0,omitempty"`
	F1    bool      `json:"f1"`
	F2    string    `json:"f2,omitempty" enum:"[\"x y\",\"z\"]"`
	F3    []float32 `json:"f3" maxItems:"3"`
	F4    []string  `json:"f4" maxItems:"5"`
	F5    int8      `json:"f5" minimum:"0"`
	NoTag int
}

// Item30 is a sample.
type Item30 struct {
	F0 uint      `json:"f0,omitempty" enum:"1,2,3"`
	F1 *Item14   `json:"snake_1,omitempty"`
	F2 a2.Item19 `json:"UPPER2" required:"true"`
}

// Item31 is a sample.
type Item31 struct {
	F0     string            `json:"kebab-0" required:"true" minLength:"2" maxLength:"7"`
	F1     map[string]string `json:"f1,omitempty" maxProperties:"4"`
	Hidden string            `json:"-"`
}

// Item32 is a sample.
type Item32 struct {
	Base0
	F0 struct {
		In0 map[string]Item1 `json:"in0"`
		In1 uint32           `json:"in1" default:"7" example:"9"`
		In2 string           `json:"in2" minLength:"2" maxLength:"8"`
	} `json:"f0" required:"true" description:"Field 0."`
	F1 map[string]float32 `json:"f1"`
	F2 *Item19            `json:"UPPER2"`
	F3 []byte             `json:"f3"`
}

// Item33 is a sample.
type Item33 struct {
	F0    bool     `json:"f0"`
	F1    *uint    `json:"kebab-1" minimum:"2" exclusiveMaximum:"19"`
	F2    []bool   `json:"f2" maxItems:"5"`
	F3    []string `json:"f3" maxItems:"5" uniqueItems:"true"`
	NoTag int
	_     struct{} `additionalProperties:"false" title:"Closed"`
}

// Item34 is a sample.
type Item34 struct {
	Base2
	F0 int64 `json:"snake_0,omitempty" minimum:"1" maximum:"28" multipleOf:"2" title:"T0"`
	F1 int   `json:"f1" required:"true"`
	F2 uint8 `json:"f2,omitempty" exclusiveMinimum:"4" maximum:"18" multipleOf:"3"`
}

// Item35 is a sample.
type Item35 struct {
	Base1
	F0     bool     `json:"kebab-0"`
	F1     string   `json:"UPPER1" required:"true" minLength:"2" maxLength:"5" default:"def"`
	F2     []string `json:"snake_2" minItems:"2" maxItems:"4"`
	Hidden string   `json:"-"`
}

// Base0 is embedded.
type Base0 struct {
	B00 float32 `json:"b00" maximum:"16" default:"7"`
	B01 string  `json:"b01" enum:"foo,bar" example:"ex"`
}

// Base1 is embedded.
type Base1 struct {
	B10 string  `json:"b10" minLength:"1"`
	B11 float64 `json:"b11" enum:"5,7"`
	B12 float32 `json:"b12" minimum:"1" exclusiveMaximum:"25"`
}

// Base2 is embedded.
type Base2 struct {
	B20 int64 `json:"b20" exclusiveMaximum:"42"`
	B21 int8  `json:"b21"`
}

// Req0 is a request.
type Req0 struct {
	Params0
	B0F float64 `form:"b0" enum:"5,7"`
	P1  *string `cookie:"c1" default:"def" example:"ex"`
	P2  float64 `path:"p2" required:"true" maximum:"13" description:"Parameter 2."`
	B3F string  `form:"b3"`
	P4  bool    `path:"p4" required:"true"`
}

// Req1 is a request.
type Req1 struct {
	B0J string   `json:"b0" required:"true" enum:"[\"x y\",\"z\"]"`
	P1  []string `path:"p1" collectionFormat:"multi"`
}

// Req2 is a request.
type Req2 struct {
	P0 string  `path:"p0" json:"-" required:"true"`
	P1 []int16 `query:"q1" collectionFormat:"csv"`
}

// Req3 is a request.
type Req3 struct {
	B0J *string `json:"b0"`
}

// Req4 is a request.
type Req4 struct {
	P0 int8     `query:"q0" enum:"1,2,3"`
	_  struct{} `cookie:"_" additionalProperties:"false"`
}

// Req5 is a request.
type Req5 struct {
	Params0
	P0  *string `query:"q0" json:"-"`
	P1  string  `path:"p1" required:"true" pattern:"[0-9]"`
	B2F bool    `form:"b2"`
	B3F string  `form:"b3" minLength:"3" maxLength:"8"`
}

// Req6 is a request.
type Req6 struct {
	Params1
	P0 *uint8 `cookie:"c0" json:"-" maximum:"31"`
}

// Req7 is a request.
type Req7 struct {
	Params2
	P0  *string `query:"q0" minLength:"1" maxLength:"9" deprecated:"true"`
	B1J Item4   `json:"b1" required:"true"`
	P2  *uint64 `path:"p2" minimum:"3" maximum:"13"`
	P3  []bool  `header:"X-P3" collectionFormat:"multi"`
}

// Req8 is a request.
type Req8 struct {
	P0 int64 `path:"p0" exclusiveMinimum:"2"`
}

// Req9 is a request.
type Req9 struct {
	P0 string `cookie:"c0" json:"-" minLength:"2" maxLength:"9"`
}

// Req10 is a request.
type Req10 struct {
	P0 uint64  `header:"X-P0" json:"-" required:"true"`
	P1 float32 `header:"X-P1" description:"Parameter 1."`
	P2 string  `query:"q2" json:"-" required:"true" minLength:"3" default:"def"`
}

// Req11 is a request.
type Req11 struct {
	P0 bool `path:"p0" json:"-" required:"true"`
}

// Resp0 is a response.
type Resp0 struct {
	H0 bool     `header:"X-H0" json:"-" required:"true" default:"true"`
	H1 bool     `header:"X-H1" json:"-" required:"true" default:"true" description:"Header 1."`
	_  struct{} `description:"Response 0."`
}

// Resp1 is a response.
type Resp1 struct {
	F0 string   `json:"f0"`
	F1 []Item10 `json:"f1"`
	H2 bool     `header:"X-H2" json:"-"`
	H3 bool     `header:"X-H3" json:"-"`
}

// Resp2 is a response.
type Resp2 struct {
	F0 map[string]bool `json:"f0"`
	F1 Item1           `json:"f1"`
	F2 []bool          `json:"f2"`
}

// Resp3 is a response.
type Resp3 struct {
	F0 float32  `json:"f0" exclusiveMaximum:"33"`
	H1 string   `header:"X-H1" json:"-" required:"true"`
	_  struct{} `description:"Response 3."`
}

// Resp4 is a response.
type Resp4 struct {
	H0 string          `header:"X-H0" json:"-"`
	H1 uint32          `header:"X-H1" json:"-" example:"9"`
	F2 map[string]bool `json:"f2" minProperties:"1"`
	_  struct{}        `description:"Response 4."`
}

// Resp5 is a response.
type Resp5 struct {
	H0 string                 `header:"X-H0" json:"-" required:"true" minLength:"2" deprecated:"true"`
	F1 map[string]interface{} `json:"f1"`
	F2 Item15                 `json:"f2"`
}

// Resp6 is a response.
type Resp6 struct {
	H0 string `header:"X-H0" json:"-" required:"true" minLength:"3" deprecated:"true"`
	F1 string `json:"f1"`
	H2 int64  `header:"X-H2" json:"-" enum:"1,2,3"`
}

// Resp7 is a response.
type Resp7 struct {
	F0 map[string]float32 `json:"f0" maxProperties:"4"`
	H1 string             `header:"X-H1" json:"-" enum:"a,b,c" deprecated:"true"`
	F2 *uint32            `json:"f2"`
}

// Resp8 is a response.
type Resp8 struct {
	F0 a2.Item17 `json:"f0"`
	F1 string    `json:"f1" minLength:"3" maxLength:"7"`
	F2 string    `json:"f2"`
	F3 [3]int    `json:"f3"`
	_  struct{}  `description:"Response 8."`
}

// Resp9 is a response.
type Resp9 struct {
	F0 string `json:"f0" enum:"[\"x y\",\"z\"]" default:"def"`
}

// Resp10 is a response.
type Resp10 struct {
	F0 a2.Item20 `json:"f0"`
	F1 string    `json:"f1" minLength:"3"`
}

// Resp11 is a response.
type Resp11 struct {
	H0 int8      `header:"X-H0" json:"-" multipleOf:"3" deprecated:"true"`
	H1 []float64 `header:"X-H1" json:"-"`
}

// Params0 is embedded.
type Params0 struct {
	E00 string `cookie:"e00" minLength:"3" maxLength:"9" default:"def"`
	E01 bool   `query:"e01"`
}

// Params1 is embedded.
type Params1 struct {
	E10 string `query:"e10"`
}

// Params2 is embedded.
type Params2 struct {
	E20 bool   `cookie:"e20"`
	E21 uint64 `cookie:"e21" enum:"1,2,3"`
}

// List0 is a named list.
type List0 []Item4

// Dict0 is a named map.
type Dict0 map[string]Item4

// List1 is a named list.
type List1 []Item32

// Dict1 is a named map.
type Dict1 map[string]Item32

// List2 is a named list.
type List2 []Item12

// Dict2 is a named map.
type Dict2 map[string]Item12

// List3 is a named list.
type List3 []Item10

// Dict3 is a named map.
type Dict3 map[string]Item10

// List4 is a named list.
type List4 []Item27

// Dict4 is a named map.
type Dict4 map[string]Item27

// List5 is a named list.
type List5 []Item27

// Dict5 is a named map.
type Dict5 map[string]Item27

// All lists the types.
var All = map[string]interface{}{
	"x/a.Item0":   Item0{},
	"x/a.Item1":   Item1{},
	"x/a.Item2":   Item2{},
	"x/a.Item3":   Item3{},
	"x/a.Item4":   Item4{},
	"x/a.Item5":   Item5{},
	"x/a.Item6":   Item6{},
	"x/a.Item7":   Item7{},
	"x/a.Item8":   Item8{},
	"x/a.Item9":   Item9{},
	"x/a.Item10":  Item10{},
	"x/a.Item11":  Item11{},
	"x/a.Item12":  Item12{},
	"x/a.Item13":  Item13{},
	"x/a.Item14":  Item14{},
	"x/a.Item15":  Item15{},
	"x/a.Item16":  Item16{},
	"x/a.Item17":  Item17{},
	"x/a.Item18":  Item18{},
	"x/a.Item19":  Item19{},
	"x/a.Item20":  Item20{},
	"x/a.Item21":  Item21{},
	"x/a.Item22":  Item22{},
	"x/a.Item23":  Item23{},
	"x/a.Item24":  Item24{},
	"x/a.Item25":  Item25{},
	"x/a.Item26":  Item26{},
	"x/a.Item27":  Item27{},
	"x/a.Item28":  Item28{},
	"x/a.Item29":  Item29{},
	"x/a.Item30":  Item30{},
	"x/a.Item31":  Item31{},
	"x/a.Item32":  Item32{},
	"x/a.Item33":  Item33{},
	"x/a.Item34":  Item34{},
	"x/a.Item35":  Item35{},
	"x/a.List0":   List0{},
	"x/a.List1":   List1{},
	"x/a.List2":   List2{},
	"x/a.List3":   List3{},
	"x/a.List4":   List4{},
	"x/a.List5":   List5{},
	"x/a.Dict0":   Dict0{},
	"x/a.Dict1":   Dict1{},
	"x/a.Dict2":   Dict2{},
	"x/a.Dict3":   Dict3{},
	"x/a.Dict4":   Dict4{},
	"x/a.Dict5":   Dict5{},
	"x/a.Scalar0": Scalar0(""),
	"x/a.Scalar1": Scalar1(0),
	"x/a.Scalar2": Scalar2(0),
	"x/a.Scalar3": Scalar3(0),
	"x/a.Scalar4": Scalar4(0),
	"x/a.Scalar5": Scalar5(false),
	"x/a.Scalar6": Scalar6(0),
	"x/a.Scalar7": Scalar7(""),
}

// Requests lists request types.
var Requests = map[string]interface{}{
	"x/a.Req0":  Req0{},
	"x/a.Req1":  Req1{},
	"x/a.Req2":  Req2{},
	"x/a.Req3":  Req3{},
	"x/a.Req4":  Req4{},
	"x/a.Req5":  Req5{},
	"x/a.Req6":  Req6{},
	"x/a.Req7":  Req7{},
	"x/a.Req8":  Req8{},
	"x/a.Req9":  Req9{},
	"x/a.Req10": Req10{},
	"x/a.Req11": Req11{},
}

// Responses lists response types.
var Responses = map[string]interface{}{
	"x/a.Resp0":  Resp0{},
	"x/a.Resp1":  Resp1{},
	"x/a.Resp2":  Resp2{},
	"x/a.Resp3":  Resp3{},
	"x/a.Resp4":  Resp4{},
	"x/a.Resp5":  Resp5{},
	"x/a.Resp6":  Resp6{},
	"x/a.Resp7":  Resp7{},
	"x/a.Resp8":  Resp8{},
	"x/a.Resp9":  Resp9{},
	"x/a.Resp10": Resp10{},
	"x/a.Resp11": Resp11{},
}

// Embeds lists types to be embedded.
var Embeds = map[string]interface{}{
	"x/a.Params0": Params0{},
	"x/a.Params1": Params1{},
	"x/a.Params2": Params2{},
}
