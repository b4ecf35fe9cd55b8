// Code generated by tools/genzoo.py. DO NOT EDIT.

// Package b holds generated sample types.
package b

import (
	"encoding/json"
	"time"

	a "verif/pbt/internal/zoo/a"
)

var (
	_ json.RawMessage
	_ time.Time
	_ a.Item0
)

// Scalar0 is a named scalar.
type Scalar0 string

// Scalar1 is a named scalar.
type Scalar1 int

// Scalar2 is a named scalar.
type Scalar2 int64

// Scalar3 is a named scalar.
type Scalar3 uint16

// Scalar4 is a named scalar.
type Scalar4 float64

// Scalar5 is a named scalar.
type Scalar5 bool

// Scalar6 is a named scalar.
type Scalar6 int32

// Scalar7 is a named scalar.
type Scalar7 string

// Item0 is a sample.
type Item0 struct {
	F0 []string `json:"f0" maxItems:"4" title:"T0"`
	F1 *Item18  `json:"f1,omitempty"`
	F2 struct {
		In0 []float64 `json:"in0" maxItems:"3"`
		In1 *string   `json:"in1" pattern:"^[A-Z][0-9]+$" example:"ex"`
		In2 bool      `json:"in2"`
	} `json:"f2,omitempty" description:"Field 2."`
	F3 map[string]interface{} `json:"f3,omitempty"`
	F4 map[string]float64     `json:"f4" maxProperties:"4"`
}

// Item1 is a sample.
type Item1 struct {
	F0 float32 `json:"f0" required:"true" minimum:"4" maximum:"41" default:"7"`
	F1 string  `json:"f1" minLength:"3" maxLength:"9"`
	F2 bool    `json:"f2"`
	F3 *string `json:"f3,omitempty" pattern:"[0-9]" example:"ex"`
	F4 []byte  `json:"f4" required:"true"`
}

// Item2 is a sample.
type Item2 struct {
	F0 string `json:"f0" required:"true" format:"uri" title:"T0"`
	F1 struct {
		In0 []*Item2 `json:"in0"`
		In1 *Item27  `json:"in1"`
		In2 int64    `json:"in2"`
	} `json:"f1" description:"Field 1."`
	F2 []string          `json:"f2"`
	F3 map[string]Item12 `json:"UPPER3"`
}

// Item3 is a sample.
type Item3 struct {
	F0 time.Time `json:"f0,omitempty"`
}

// Item4 is a sample.
type Item4 struct {
	F0 [3]int      `json:"f0" required:"true"`
	F1 []Item13    `json:"f1" required:"true"`
	F2 *Item5      `json:"f2" deprecated:"true"`
	F3 *uint32     `json:"f3" required:"true"`
	F4 interface{} `json:"f4,omitempty"`
}

// Item5 is a sample.
type Item5 struct {
	F0 json.RawMessage   `json:"f0" required:"true"`
	F1 bool              `json:"f1" title:"T1" description:"Field 1."`
	F2 *Item11           `json:"f2" required:"true"`
	F3 map[string]string `json:"f3" required:"true" minProperties:"1"`
}

// Item6 is a sample.
type Item6 struct {
	F0 *Item12  `json:"f0" title:"T0"`
	F1 []Item17 `json:"f1,omitempty"`
	F2 Scalar0  `json:"f2"`
	F3 bool     `json:"f3" required:"true" description:"Field 3."`
}

// Item7 is a sample.
type Item7 struct {
	F0 float64 `json:"f0,omitempty" enum:"1,2,3" default:"7" description:"Field 0."`
	F1 bool    `json:"f1" required:"true"`
	F2 int16   `json:"f2" title:"T2"`
}

// Item8 is a sample.
type Item8 struct {
	F0 *Item17         `json:"f0" required:"true"`
	F1 Scalar6         `json:"UPPER1" required:"true"`
	F2 string          `json:"f2" minLength:"2" default:"def"`
	F3 int32           `json:"f3" title:"T3"`
	F4 map[string]bool `json:"UPPER4,omitempty"`
	F5 []a.Item13      `json:"snake_5"`
}

// Item9 is a sample.
type Item9 struct {
	F0 *Item32     `json:"f0"`
	F1 uint8       `json:"f1" exclusiveMaximum:"22"`
	F2 []*a.Item27 `json:"f2,omitempty"`
	F3 struct {
		In0 Item5 `json:"in0"`
	} `json:"f3"`
}

// Item10 is a sample.
type Item10 struct {
	F0 uint `json:"f0" required:"true" minimum:"0" exclusiveMaximum:"24"`
}

// Item11 is a sample.
type Item11 struct {
	Base2
	F0 bool               `json:"f0" required:"true"`
	F1 string             `json:"f1" required:"true" enum:"foo,bar"`
	F2 json.RawMessage    `json:"dot.2,omitempty"`
	F3 *string            `json:"f3,omitempty" minLength:"1" maxLength:"6"`
	F4 map[string]float64 `json:"f4,omitempty"`
	F5 map[string]float32 `json:"f5" required:"true"`
}

// Item12 is a sample.
type Item12 struct {
	F0 int             `json:"f0,omitempty" title:"T0" description:"Field 0."`
	F1 uint8           `json:"snake_1" exclusiveMinimum:"5" maximum:"35"`
	F2 json.RawMessage `json:"f2" required:"true"`
}

// Item13 is a sample.
type Item13 struct {
	F0 float64 `json:"f0,omitempty"`
	F1 uint    `json:"f1" maximum:"8" default:"7"`
	F2 []struct {
		In0 *Item8 `json:"in0"`
	} `json:"dot.2"`
	F3 string `json:"f3" minLength:"3" maxLength:"6" title:"T3"`
}

// Item14 is a sample.
type Item14 struct {
	Base2
	F0 a.Item27 `json:"f0" title:"T0"`
	F1 int32    `json:"snake_1"`
	F2 *string  `json:"f2" minLength:"3" maxLength:"7"`
}

// Item15 is a sample.
type Item15 struct {
	F0 a.Item17 `json:"f0"`
	F1 bool     `json:"f1,omitempty"`
	F2 bool     `json:"f2,omitempty" description:"Field 2."`
}

// Item16 is a sample.
type Item16 struct {
	Base1
	F0 bool `json:"f0" required:"true" title:"T0"`
	F1 struct {
		In0 string `json:"in0"`
		In1 int16  `json:"in1"`
	} `json:"kebab-1" required:"true"`
	F2 []string  `json:"f2,omitempty" maxItems:"3"`
	F3 time.Time `json:"f3,omitempty"`
	F4 bool      `json:"f4,omitempty"`
}

// Item17 is a sample.
type Item17 struct {
	F0 map[string]string `json:"f0,omitempty"`
	F1 []bool            `json:"f1,omitempty" maxItems:"3"`
	F2 int               `json:"f2"`
	F3 [][]string        `json:"f3,omitempty"`
	F4 float32           `json:"kebab-4" minimum:"5" exclusiveMaximum:"15"`
}

// Item18 is a sample.
type Item18 struct {
	F0 int8              `json:"f0" enum:"5,7"`
	F1 uint              `json:"f1" minimum:"5" maximum:"17" multipleOf:"3"`
	F2 string            `json:"f2" required:"true" pattern:"^(red|green|blue)$"`
	F3 map[string]string `json:"f3" minProperties:"1"`
	F4 bool              `json:"f4,omitempty"`
}

// Item19 is a sample.
type Item19 struct {
	F0 bool     `json:"f0" description:"Field 0."`
	F1 []string `json:"f1" minItems:"1" uniqueItems:"true"`
	F2 float32  `json:"snake_2,omitempty" exclusiveMinimum:"1" exclusiveMaximum:"31"`
}

// Item20 is a sample.
type Item20 struct {
	Base0
	F0 *uint32 `json:"f0" enum:"5,7"`
	F1 int8    `json:"f1"`
	F2 *string `json:"f2,omitempty" pattern:"^[A-Z][0-9]+$"`
}

// Item21 is a sample.
type Item21 struct {
	F0 []struct {
		In0 string `json:"in0" default:"def" example:"ex"`
	} `json:"f0,omitempty"`
	F1     time.Time `json:"snake_1" required:"true"`
	F2     *Item22   `json:"f2,omitempty"`
	F3     bool      `json:"f3"`
	Hidden string    `json:"-"`
}

// Item22 is a sample.
type Item22 struct {
	F0 uint8  `json:"f0,omitempty"`
	F1 string `json:"f1" description:"Field 1."`
}

// Item23 is a sample.
type Item23 struct {
	F0    interface{} `json:"UPPER0,omitempty"`
	NoTag int
}

// Item24 is a sample.
type Item24 struct {
	F0 string   `json:"f0" pattern:"[0-9]" title:"T0"`
	F1 Item14   `json:"f1,omitempty" title:"T1"`
	F2 []string `json:"f2" required:"true" uniqueItems:"true" description:"Field 2."`
}

// Item25 is a sample.
type Item25 struct {
	F0 *Item35   `json:"f0,omitempty" title:"T0"`
	F1 *bool     `json:"f1" required:"true"`
	F2 bool      `json:"f2" required:"true"`
	F3 []float32 `json:"f3,omitempty" maxItems:"3" uniqueItems:"true"`
	F4 *a.Item23 `json:"UPPER4" required:"true"`
	F5 []bool    `json:"f5" minItems:"1" maxItems:"5"`
}

// Item26 is a sample.
type Item26 struct {
	F0 bool     `json:"f0,omitempty"`
	F1 []uint32 `json:"dot.1" required:"true" maxItems:"5"`
	F2 Item10   `json:"f2"`
	F3 Item6    `json:"f3" required:"true"`
	F4 int32    `json:"f4" required:"true" minimum:"3" maximum:"18" multipleOf:"3" description:"Field 4."`
	F5 []byte   `json:"f5" required:"true"`
}

// Item27 is a sample.
type Item27 struct {
	F0 uint8  `json:"f0" exclusiveMinimum:"3" maximum:"22" description:"Field 0."`
	F1 string `json:"UPPER1,omitempty"`
	F2 bool   `json:"f2" title:"T2"`
}

// Item28 is a sample.
type Item28 struct {
	F0 []string `json:"f0" required:"true"`
	F1 []struct {
		In0 map[string]bool `json:"in0"`
		In1 string          `json:"in1"`
	} `json:"f1,omitempty"`
	F2 int32 `json:"f2" required:"true" minimum:"0"`
}

// Item29 is a sample.
type Item29 struct {
	Base2
	F0 string `json:"f0" format:"uri" default:"def"`
}

// Item30 is a sample.
type Item30 struct {
	F0    bool             `json:"f0"`
	F1    []Item29         `json:"f1"`
	F2    []a.Item19       `json:"f2"`
	F3    map[string][]int `json:"f3"`
	NoTag int
}

// Item31 is a sample.
type Item31 struct {
	F0 float64  `json:"UPPER0" required:"true" default:"7"`
	F1 bool     `json:"f1" required:"true"`
	F2 string   `json:"f2" required:"true" minLength:"2" maxLength:"5"`
	F3 Item22   `json:"f3"`
	F4 *Item3   `json:"f4,omitempty"`
	F5 string   `json:"f5"`
	_  struct{} `additionalProperties:"false" title:"Closed"`
}

// Item32 is a sample.
type Item32 struct {
	F0 string `json:"kebab-0,omitempty" minLength:"2" maxLength:"6"`
}

// Item33 is a sample.
type Item33 struct {
	F0     uint32            `json:"f0"`
	F1     Item20            `json:"f1,omitempty"`
	F2     uint64            `json:"dot.2" required:"true"`
	F3     []string          `json:"f3" required:"true" minItems:"2" maxItems:"3" uniqueItems:"true"`
	F4     map[string]uint64 `json:"snake_4" required:"true"`
	F5     string            `json:"f5"`
	Hidden string            `json:"-"`
}

// Item34 is a sample.
type Item34 struct {
	Base0
	F0    bool    `json:"f0"`
	F1    []bool  `json:"f1,omitempty" minItems:"1" maxItems:"3"`
	F2    string  `json:"UPPER2"`
	F3    float32 `json:"f3" minimum:"1" maximum:"35" default:"7" description:"Field 3."`
	F4    bool    `json:"f4" description:"Field 4."`
	NoTag int
}

// Item35 is a sample.
type Item35 struct {
	Base1
	F0 string           `json:"f0,omitempty" minLength:"1" maxLength:"8" title:"T0"`
	F1 interface{}      `json:"f1"`
	F2 *bool            `json:"dot.2" description:"Field 2."`
	F3 map[string]Item6 `json:"f3"`
	F4 int64            `json:"dot.4" required:"true" default:"7"`
	F5 int64            `json:"f5" required:"true"`
}

// Base0 is embedded.
type Base0 struct {
	B00 bool    `json:"b00"`
	B01 string  `json:"b01" enum:"a,b,c"`
	B02 float32 `json:"b02"`
}

// Base1 is embedded.
type Base1 struct {
	B10 string `json:"b10"`
	B11 bool   `json:"b11"`
}

// Base2 is embedded.
type Base2 struct {
	B20 string `json:"b20" example:"ex"`
	B21 string `json:"b21" minLength:"1" maxLength:"7"`
}

// Req0 is a request.
type Req0 struct {
	P0  uint8  `query:"q0" exclusiveMinimum:"2" maximum:"16" multipleOf:"3" example:"9"`
	P1  bool   `path:"p1" required:"true" default:"true"`
	B2F bool   `formData:"b2"`
	P3  string `path:"p3" json:"-" format:"uuid" description:"Parameter 3."`
	B4F int    `formData:"b4" required:"true" enum:"5,7" default:"7"`
}

// Req1 is a request.
type Req1 struct {
	Params0
	B0J string `json:"b0" minLength:"2" maxLength:"8"`
	B0F string `formData:"b0" required:"true" minLength:"3" maxLength:"6"`
}

// Req2 is a request.
type Req2 struct {
	P0  int64  `query:"q0" json:"-" minimum:"0" maximum:"24"`
	B1F uint64 `form:"b1"`
}

// Req3 is a request.
type Req3 struct {
	P0  string   `path:"p0" required:"true" pattern:"^[A-Z][0-9]+$" default:"def"`
	B1J []Item16 `json:"b1" required:"true"`
}

// Req4 is a request.
type Req4 struct {
	Params1
	P0 string   `cookie:"c0" format:"email"`
	P1 *bool    `header:"X-P1"`
	P2 int64    `query:"q2" minimum:"3" maximum:"20" deprecated:"true"`
	P3 []uint64 `query:"q3" collectionFormat:"multi"`
	P4 int32    `path:"p4" required:"true" example:"9" deprecated:"true" description:"Parameter 4."`
}

// Req5 is a request.
type Req5 struct {
	Params0
	P0 uint8 `query:"q0" enum:"1,2,3" example:"9"`
}

// Req6 is a request.
type Req6 struct {
	P0 []string `path:"p0" json:"-" collectionFormat:"multi"`
	P1 string   `query:"q1" format:"email" default:"def"`
	P2 *int16   `cookie:"c2"`
}

// Req7 is a request.
type Req7 struct {
	P0 string `header:"X-P0" json:"-" pattern:"^(red|green|blue)$"`
	P1 string `cookie:"c1" description:"Parameter 1."`
	P2 uint64 `path:"p2" required:"true" minimum:"4" maximum:"12"`
}

// Req8 is a request.
type Req8 struct {
	B0J *a.Item2   `json:"b0"`
	P1  string     `path:"p1" example:"ex"`
	B2J [][]string `json:"b2"`
	B3J string     `json:"b3"`
}

// Req9 is a request.
type Req9 struct {
	P0 uint     `query:"q0" minimum:"4" multipleOf:"2"`
	P1 []string `query:"q1" collectionFormat:"csv" description:"Parameter 1."`
	P2 []bool   `query:"q2" required:"true" collectionFormat:"csv"`
	P3 uint     `query:"q3" required:"true"`
}

// Req10 is a request.
type Req10 struct {
	P0  []string `query:"q0" collectionFormat:"multi"`
	B1F bool     `form:"b1"`
	P2  *bool    `header:"X-P2" required:"true"`
	P3  []string `query:"q3" required:"true" collectionFormat:"multi"`
}

// Req11 is a request.
type Req11 struct {
	Params0
	P0  string   `cookie:"c0" minLength:"2" maxLength:"6"`
	B1J []string `json:"b1" required:"true" uniqueItems:"true"`
}

// Resp0 is a response.
type Resp0 struct {
	H0 bool     `header:"X-H0" json:"-" deprecated:"true"`
	H1 []bool   `header:"X-H1" json:"-" description:"Header 1."`
	_  struct{} `description:"Response 0."`
}

// Resp1 is a response.
type Resp1 struct {
	H0 int8     `header:"X-H0" json:"-"`
	H1 string   `header:"X-H1" json:"-" required:"true" format:"uri" default:"def" example:"ex"`
	H2 []string `header:"X-H2" json:"-"`
}

// Resp2 is a response.
type Resp2 struct {
	F0 []float32       `json:"f0" uniqueItems:"true"`
	F1 int             `json:"f1" minimum:"4" maximum:"35" example:"9"`
	F2 map[string]bool `json:"f2" minProperties:"1"`
	_  struct{}        `description:"Response 2."`
}

// Resp3 is a response.
type Resp3 struct {
	F0 a.Item20 `json:"f0"`
	H1 string   `header:"X-H1" json:"-" minLength:"1" maxLength:"8" example:"ex" description:"Header 1."`
	F2 bool     `json:"f2"`
	F3 string   `json:"f3" format:"email" example:"ex"`
}

// Resp4 is a response.
type Resp4 struct {
	H0 []uint `header:"X-H0" json:"-" required:"true" description:"Header 0." deprecated:"true"`
}

// Resp5 is a response.
type Resp5 struct {
	F0 map[string][]int `json:"f0"`
	H1 bool             `header:"X-H1" json:"-"`
	H2 uint64           `header:"X-H2" json:"-"`
}

// Resp6 is a response.
type Resp6 struct {
	H0 string `header:"X-H0" json:"-" default:"def"`
}

// Resp7 is a response.
type Resp7 struct {
	F0 Item26   `json:"f0"`
	F1 []string `json:"f1"`
	H2 string   `header:"X-H2" json:"-" required:"true" minLength:"1" maxLength:"5"`
	F3 bool     `json:"f3"`
}

// Resp8 is a response.
type Resp8 struct {
	F0 []string         `json:"f0" maxItems:"4"`
	F1 map[string][]int `json:"f1"`
}

// Resp9 is a response.
type Resp9 struct {
	H0 int    `header:"X-H0" json:"-" default:"7"`
	F1 string `json:"f1" minLength:"1" maxLength:"4"`
	F2 struct {
		In0 int8 `json:"in0" enum:"1,2,3"`
	} `json:"f2"`
	H3 bool     `header:"X-H3" json:"-"`
	_  struct{} `description:"Response 9."`
}

// Resp10 is a response.
type Resp10 struct {
	H0 []bool `header:"X-H0" json:"-" description:"Header 0."`
	F1 bool   `json:"f1"`
}

// Resp11 is a response.
type Resp11 struct {
	H0 string    `header:"X-H0" json:"-" required:"true" pattern:"[0-9]"`
	F1 []*Item15 `json:"f1"`
}

// Params0 is embedded.
type Params0 struct {
	E00 string `cookie:"e00"`
	E01 bool   `header:"e01"`
	E02 string `query:"e02" minLength:"1" maxLength:"4"`
}

// Params1 is embedded.
type Params1 struct {
	E10 string `cookie:"e10" format:"uri"`
}

// Params2 is embedded.
type Params2 struct {
	E20 uint64 `cookie:"e20" minimum:"4"`
}

// List0 is a named list.
type List0 []Item27

// Dict0 is a named map.
type Dict0 map[string]Item27

// List1 is a named list.
type List1 []Item31

// Dict1 is a named map.
type Dict1 map[string]Item31

// List2 is a named list.
type List2 []Item4

// Dict2 is a named map.
type Dict2 map[string]Item4

// List3 is a named list.
type List3 []Item31

// Dict3 is a named map.
type Dict3 map[string]Item31

// List4 is a named list.
type List4 []Item32

// Dict4 is a named map.
type Dict4 map[string]Item32

// List5 is a named list.
type List5 []Item33

// Dict5 is a named map.
type Dict5 map[string]Item33

// All lists the types.
var All = map[string]interface{}{
	"b.Item0":   Item0{},
	"b.Item1":   Item1{},
	"b.Item2":   Item2{},
	"b.Item3":   Item3{},
	"b.Item4":   Item4{},
	"b.Item5":   Item5{},
	"b.Item6":   Item6{},
	"b.Item7":   Item7{},
	"b.Item8":   Item8{},
	"b.Item9":   Item9{},
	"b.Item10":  Item10{},
	"b.Item11":  Item11{},
	"b.Item12":  Item12{},
	"b.Item13":  Item13{},
	"b.Item14":  Item14{},
	"b.Item15":  Item15{},
	"b.Item16":  Item16{},
	"b.Item17":  Item17{},
	"b.Item18":  Item18{},
	"b.Item19":  Item19{},
	"b.Item20":  Item20{},
	"b.Item21":  Item21{},
	"b.Item22":  Item22{},
	"b.Item23":  Item23{},
	"b.Item24":  Item24{},
	"b.Item25":  Item25{},
	"b.Item26":  Item26{},
	"b.Item27":  Item27{},
	"b.Item28":  Item28{},
	"b.Item29":  Item29{},
	"b.Item30":  Item30{},
	"b.Item31":  Item31{},
	"b.Item32":  Item32{},
	"b.Item33":  Item33{},
	"b.Item34":  Item34{},
	"b.Item35":  Item35{},
	"b.List0":   List0{},
	"b.List1":   List1{},
	"b.List2":   List2{},
	"b.List3":   List3{},
	"b.List4":   List4{},
	"b.List5":   List5{},
	"b.Dict0":   Dict0{},
	"b.Dict1":   Dict1{},
	"b.Dict2":   Dict2{},
	"b.Dict3":   Dict3{},
	"b.Dict4":   Dict4{},
	"b.Dict5":   Dict5{},
	"b.Scalar0": Scalar0(""),
	"b.Scalar1": Scalar1(0),
	"b.Scalar2": Scalar2(0),
	"b.Scalar3": Scalar3(0),
	"b.Scalar4": Scalar4(0),
	"b.Scalar5": Scalar5(false),
	"b.Scalar6": Scalar6(0),
	"b.Scalar7": Scalar7(""),
}

// Requests lists request types.
var Requests = map[string]interface{}{
	"b.Req0":  Req0{},
	"b.Req1":  Req1{},
	"b.Req2":  Req2{},
	"b.Req3":  Req3{},
	"b.Req4":  Req4{},
	"b.Req5":  Req5{},
	"b.Req6":  Req6{},
	"b.Req7":  Req7{},
	"b.Req8":  Req8{},
	"b.Req9":  Req9{},
	"b.Req10": Req10{},
	"b.Req11": Req11{},
}

// Responses lists response types.
var Responses = map[string]interface{}{
	"b.Resp0":  Resp0{},
	"b.Resp1":  Resp1{},
	"b.Resp2":  Resp2{},
	"b.Resp3":  Resp3{},
	"b.Resp4":  Resp4{},
	"b.Resp5":  Resp5{},
	"b.Resp6":  Resp6{},
	"b.Resp7":  Resp7{},
	"b.Resp8":  Resp8{},
	"b.Resp9":  Resp9{},
	"b.Resp10": Resp10{},
	"b.Resp11": Resp11{},
}

// Embeds lists types to be embedded.
var Embeds = map[string]interface{}{
	"b.Params0": Params0{},
	"b.Params1": Params1{},
	"b.Params2": Params2{},
}
