package props

import (
	"encoding/json"
	"fmt"
	"runtime/debug"
	"strings"
	"sync"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

// readCase is a document that several goroutines read.
type readCase struct {
	V31     bool     `json:"v31"`
	Doc     *docCase `json:"doc,omitempty"`
	Ops     *opsCase `json:"ops,omitempty"`
	Readers []string `json:"readers"`
}

var readers = []string{"json", "json", "yaml", "schemas", "resolve", "info", "operations"}

// read renders what a reader of the document gets.
func (c readCase) read(kind string, spec interface{}, r openapi.Reflector) (res string, perr error) {
	defer func() {
		if r := recover(); r != nil {
			perr = fmt.Errorf("panic: %v\n%s", r, debug.Stack())
		}
	}()

	var sb strings.Builder

	out := func(f string, args ...interface{}) { fmt.Fprintf(&sb, f+"\n", args...) }
	schema := func(name string, s jsonschema.SchemaOrBool, ok bool) {
		b, err := json.Marshal(s)
		out("%s %v %s %v", name, ok, b, err)
	}

	switch x := spec.(type) {
	case *openapi3.Spec:
		switch kind {
		case "json":
			b, err := json.Marshal(x)
			out("%s %v", b, err)
		case "yaml":
			b, err := x.MarshalYAML()
			out("%s %v", b, err)
		case "schemas":
			if x.Components != nil && x.Components.Schemas != nil {
				for _, k := range h.SortedKeys(x.Components.Schemas.MapOfSchemaOrRefValues) {
					s := x.Components.Schemas.MapOfSchemaOrRefValues[k]
					schema(k, s.ToJSONSchema(x), true)
				}
			}
		case "resolve":
			if x.Components != nil && x.Components.Schemas != nil {
				for _, k := range append(h.SortedKeys(x.Components.Schemas.MapOfSchemaOrRefValues), "none") {
					s, ok := r.(*openapi3.Reflector).ResolveJSONSchemaRef("#/components/schemas/" + k)
					schema(k, s, ok)
				}
			}
		case "info":
			out("%q %q %q", x.Title(), x.Description(), x.Version())
		case "operations":
			for _, p := range h.SortedKeys(x.Paths.MapOfPathItemValues) {
				pi := x.Paths.MapOfPathItemValues[p]

				for _, m := range h.SortedKeys(pi.MapOfOperationValues) {
					op := pi.MapOfOperationValues[m]
					out("%s %s %v %v", p, m, op.UnknownParamIsForbidden(openapi3.ParameterInQuery), js(op))
				}
			}
		}
	case *openapi31.Spec:
		switch kind {
		case "json":
			b, err := json.Marshal(x)
			out("%s %v", b, err)
		case "yaml":
			b, err := x.MarshalYAML()
			out("%s %v", b, err)
		case "schemas":
			if x.Components != nil {
				for _, k := range h.SortedKeys(x.Components.Schemas) {
					schema(k, openapi31.ToJSONSchema(x.Components.Schemas[k], x), true)
				}
			}
		case "resolve":
			if x.Components != nil {
				for _, k := range append(h.SortedKeys(x.Components.Schemas), "none") {
					s, ok := r.(*openapi31.Reflector).ResolveJSONSchemaRef("#/components/schemas/" + k)
					schema(k, s, ok)
				}
			}
		case "info":
			out("%q %q %q", x.Title(), x.Description(), x.Version())
		case "operations":
			if x.Paths != nil {
				for _, p := range h.SortedKeys(x.Paths.MapOfPathItemValues) {
					pi := x.Paths.MapOfPathItemValues[p]

					for _, m := range []string{"get", "put", "post", "delete", "options", "head", "patch", "trace"} {
						op, err := pi.Operation(m)
						if err != nil || op == nil {
							out("%s %s %v", p, m, err)

							continue
						}

						out("%s %s %v %v", p, m, op.UnknownParamIsForbidden(openapi31.ParameterInQuery), js(op))
					}
				}
			}
		}
	}

	return sb.String(), nil
}

// make builds the document.
func (c readCase) make() (interface{}, openapi.Reflector, error) {
	if c.Ops != nil {
		r := c.Ops.reflector(c.V31)
		for _, o := range c.Ops.Ops {
			_ = o.register(r) //nolint:errcheck // The document matters.
		}

		return r.SpecSchema(), r, nil
	}

	r := newReflector(c.V31, false)
	s := r.SpecSchema()

	return s, r, json.Unmarshal(c.Doc.Doc, s)
}

func genRead(t *rapid.T) readCase {
	c := readCase{V31: rapid.Bool().Draw(t, "is31")}

	if chance(t, 50) {
		d := genDoc(t, ver(c.V31), 100)
		c.Doc = &d
	} else {
		o := genOps(1, 3, true)(t)
		o.Is31 = c.V31
		c.Ops = &o

		for i := range o.Ops {
			o.Ops[i].Webhook = o.Ops[i].Webhook && c.V31
		}
	}

	for i := drawInt(t, 2, 6); i > 0; i-- {
		c.Readers = append(c.Readers, pick(t, readers))
	}

	return c
}

func runRead(c readCase, st *h.Stats) error {
	spec, r, err := c.make()
	if err != nil {
		return fmt.Errorf("load: %w", err)
	}

	var wg sync.WaitGroup

	got := make([]string, len(c.Readers))
	errs := make([]error, len(c.Readers))
	start := make(chan struct{})

	for i, k := range c.Readers {
		i, k := i, k

		wg.Add(1)

		go func() {
			defer wg.Done()

			<-start

			got[i], errs[i] = c.read(k, spec, r)
		}()
	}

	close(start)
	wg.Wait()

	spec, r, err = c.make()
	if err != nil {
		return fmt.Errorf("load: %w", err)
	}

	long := 0

	for i, k := range c.Readers {
		want, err := c.read(k, spec, r)
		if (err == nil) != (errs[i] == nil) || !sameLines(want, got[i]) {
			a, b := got[i], want

			// The first difference, with what is before.
			for n := 0; n < len(a) && n < len(b); n++ {
				if a[n] != b[n] {
					if n -= 200; n > 0 {
						a, b = a[n:], b[n:]
					}

					break
				}
			}

			return fmt.Errorf("reading %s gives\n%s\n(%v) alongside other readers and\n%s\n(%v) alone", k, cut(a), errs[i], cut(b), err)
		}

		if len(want) > 100 {
			long++
		}

		st.Class(k)
	}

	st.NonTrivialIf(long > 1)

	return nil
}
