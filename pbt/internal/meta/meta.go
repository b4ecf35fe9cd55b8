// Package meta holds the official OpenAPI document schemas (copied once from the specification) as oracles.
package meta

import (
	_ "embed" // Embedded schemas.
	"strings"

	"verif/pbt/internal/jsv"
)

//go:embed oas30.json
var oas30 []byte

//go:embed oas31.json
var oas31 []byte

var root30, root31 interface{}

func init() {
	var err error
	if root30, err = jsv.Parse(oas30); err != nil {
		panic(err)
	}

	if root31, err = jsv.Parse(oas31); err != nil {
		panic(err)
	}
}

// Validate30 validates a document fragment; def "" means the whole document.
func Validate30(def string, doc interface{}) error {
	v := &jsv.Validator{Root: root30, Dialect: jsv.Draft04}
	s := root30

	if def != "" {
		s, _ = jsv.Resolve(root30, "#/definitions/"+def)
	}

	return v.Validate(s, doc)
}

// Validate31 validates a document fragment; def "" means the whole document.
func Validate31(def string, doc interface{}) error {
	schemaDef, _ := jsv.Resolve(root31, "#/$defs/schema")
	v := &jsv.Validator{Root: root31, Dialect: jsv.Draft2020, DynamicRef: map[string]interface{}{"#meta": schemaDef}}
	s := root31

	if def != "" {
		s, _ = jsv.Resolve(root31, "#/$defs/"+strings.TrimPrefix(def, "#/$defs/"))
	}

	return v.Validate(s, doc)
}
