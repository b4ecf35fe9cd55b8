// Package tgen describes Go types as data, so that generated types can be stored, shrunk and replayed.
package tgen

import (
	"encoding/json"
	"fmt"
	"mime/multipart"
	"reflect"
	"time"

	"github.com/swaggest/jsonschema-go"

	"verif/pbt/internal/zoo"
)

// T describes a type.
type T struct {
	K string `json:"k"`           // kind, see basic and the switch in Type
	Z string `json:"z,omitempty"` // name of a zoo type
	E *T     `json:"e,omitempty"` // element
	N int    `json:"n,omitempty"` // array length
	F []F    `json:"f,omitempty"` // fields of struct or virt
	D string `json:"d,omitempty"` // definition name of virt
}

// F describes a field.
type F struct {
	N   string `json:"n"`
	T   T      `json:"t"`
	Tag string `json:"tag,omitempty"`
	Emb bool   `json:"emb,omitempty"`
}

var basic = map[string]reflect.Type{
	"bool": reflect.TypeOf(false), "int": reflect.TypeOf(0), "int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)),
	"int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)), "uint": reflect.TypeOf(uint(0)),
	"uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)),
	"uint64": reflect.TypeOf(uint64(0)), "float32": reflect.TypeOf(float32(0)), "float64": reflect.TypeOf(float64(0)),
	"string": reflect.TypeOf(""), "bytes": reflect.TypeOf([]byte{}), "time": reflect.TypeOf(time.Time{}),
	"date": reflect.TypeOf(jsonschema.Date{}), "raw": reflect.TypeOf(json.RawMessage{}),
	"any":   reflect.TypeOf((*interface{})(nil)).Elem(),
	"empty": reflect.TypeOf(struct{}{}),
	"file":  reflect.TypeOf((*multipart.File)(nil)).Elem(), "filehdr": reflect.TypeOf((*multipart.FileHeader)(nil)),
	"files": reflect.TypeOf([]multipart.File{}), "filehdrs": reflect.TypeOf([]*multipart.FileHeader{}),
	"chan": reflect.TypeOf(make(chan int)), "func": reflect.TypeOf(func() {}), "complex": reflect.TypeOf(complex(1, 1)),
}

// Basic describes a type by kind.
func Basic(k string) T { return T{K: k} }

// Zoo describes a named type.
func Zoo(n string) T { return T{K: "zoo", Z: n} }

// Of describes a composite type.
func Of(k string, e T) T { return T{K: k, E: &e} }

// Type builds the Go type; nil for "nil".
func (t T) Type() reflect.Type {
	if b, ok := basic[t.K]; ok {
		return b
	}

	switch t.K {
	case "zoo":
		v, ok := zoo.All[t.Z]
		if !ok {
			panic("unknown zoo type " + t.Z)
		}

		return reflect.TypeOf(v)
	case "slice":
		return reflect.SliceOf(t.E.Type())
	case "array":
		return reflect.ArrayOf(t.N, t.E.Type())
	case "map":
		return reflect.MapOf(reflect.TypeOf(""), t.E.Type())
	case "ptr":
		return reflect.PtrTo(t.E.Type())
	case "struct":
		fields := make([]reflect.StructField, 0, len(t.F))

		for _, f := range t.F {
			sf := reflect.StructField{Name: f.N, Type: f.T.Type(), Tag: reflect.StructTag(f.Tag), Anonymous: f.Emb}
			if f.Emb {
				e := sf.Type
				if e.Kind() == reflect.Ptr {
					e = e.Elem()
				}

				sf.Name = e.Name()
			}

			if c := sf.Name[0]; c == '_' || (c >= 'a' && c <= 'z') {
				sf.PkgPath = "verif"
			}

			fields = append(fields, sf)
		}

		return reflect.StructOf(fields)
	case "virt":
		return reflect.TypeOf(zoo.Virt{})
	case "nil":
		return nil
	}

	panic(fmt.Sprintf("unknown kind %q", t.K))
}

// Value makes a value in the given form: val, ptr or nilptr.
func (t T) Value(form string) interface{} {
	if t.K == "nil" {
		return nil
	}

	if t.K == "virt" {
		v := t.virt()
		if form == "ptr" {
			return &v
		}

		return v
	}

	ty := t.Type()

	switch form {
	case "ptr":
		return reflect.New(ty).Interface()
	case "nilptr":
		return reflect.Zero(reflect.PtrTo(ty)).Interface()
	}

	return reflect.Zero(ty).Interface()
}

func (t T) virt() zoo.Virt {
	v := zoo.Virt{}
	v.DefName = t.D

	for _, f := range t.F {
		var val interface{}

		if f.T.K == "virt" {
			val = f.T.virt().Struct
		} else {
			val = reflect.Zero(f.T.Type()).Interface()
		}

		v.Fields = append(v.Fields, jsonschema.Field{Name: f.N, Value: val, Tag: reflect.StructTag(f.Tag)})
	}

	return v
}

// String is a short name of the type.
func (t T) String() string {
	switch t.K {
	case "zoo":
		return t.Z
	case "slice", "ptr", "map", "array":
		return t.K + "(" + t.E.String() + ")"
	case "struct", "virt":
		s := t.K + "{"
		for _, f := range t.F {
			s += f.N + " " + f.T.String() + ";"
		}

		return s + "}"
	}

	return t.K
}
