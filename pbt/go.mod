module verif/pbt

go 1.23

require (
	github.com/swaggest/jsonschema-go v0.3.78
	github.com/swaggest/openapi-go v0.0.0
	github.com/swaggest/refl v1.4.0
	gopkg.in/yaml.v2 v2.4.0
	pgregory.net/rapid v1.3.0
)

replace github.com/swaggest/openapi-go => /repo
