package props

import (
	"encoding/json"

	"fmt"
	"reflect"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
	"verif/pbt/internal/jsv"
	"verif/pbt/internal/tgen"
)

// c19case is an operation for both ways of registration.
type c19case struct {
	Fmts  bool   `json:"fmts"`
	Op    opDesc `json:"op"`
	Short []bool `json:"short"` // use SetRequest, SetJSONResponse and SetStringResponse where they can express the unit
	Item  bool   `json:"item"`  // set the operation to a path item directly
}

// sighting is what a schema hook sees.
type sighting struct {
	Type   string
	Resp   bool
	In     string
	Method string
}

func (c c19case) reflector(see func(rc *jsonschema.ReflectContext, t reflect.Type) error) *openapi3.Reflector {
	r := newReflector(false, c.Fmts).(*openapi3.Reflector)

	r.DefaultOptions = append(r.DefaultOptions, jsonschema.InterceptSchema(func(p jsonschema.InterceptSchemaParams) (bool, error) {
		if p.Processed || !p.Value.IsValid() {
			return false, nil
		}

		return false, see(p.Context, p.Value.Type())
	}))

	return r
}

func sameIface(a, b interface{}) bool {
	return reflect.TypeOf(a) == reflect.TypeOf(b) && dump(reflect.ValueOf(a), 0) == dump(reflect.ValueOf(b), 0)
}

func sameMap(a, b map[string]string) bool {
	return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b)
}

// details compares the deprecated context with the current one.
func details(old openapi3.OperationContext, oc openapi.OperationContext) error {
	if old.HTTPMethod != oc.Method() || old.ProcessingResponse != oc.IsProcessingResponse() || old.ProcessingIn != string(oc.ProcessingIn()) {
		return fmt.Errorf("deprecated context has method %q, response %v, in %q; the current one %q, %v, %q",
			old.HTTPMethod, old.ProcessingResponse, old.ProcessingIn, oc.Method(), oc.IsProcessingResponse(), oc.ProcessingIn())
	}

	if oe, ok := oc.(openapi3.OperationExposer); ok && old.Operation != oe.Operation() {
		return fmt.Errorf("deprecated context has operation %p, the current one %p", old.Operation, oe.Operation())
	}

	if l := oc.Request(); len(l) > 0 {
		cu := l[0]

		if !sameIface(old.Input, cu.Structure) {
			return fmt.Errorf("deprecated context has input %T, the current one %T", old.Input, cu.Structure)
		}

		for in, m := range map[openapi.In]map[string]string{
			openapi.InQuery: old.ReqQueryMapping, openapi.InPath: old.ReqPathMapping, openapi.InHeader: old.ReqHeaderMapping,
			openapi.InCookie: old.ReqCookieMapping, openapi.InFormData: old.ReqFormDataMapping,
		} {
			if !sameMap(m, cu.FieldMapping(in)) {
				return fmt.Errorf("deprecated context has %s mapping %v, the current one %v", in, m, cu.FieldMapping(in))
			}
		}
	}

	if l := oc.Response(); len(l) > 0 {
		cu := l[0]

		if !sameIface(old.Output, cu.Structure) || old.HTTPStatus != cu.HTTPStatus || old.RespContentType != cu.ContentType || !sameMap(old.RespHeaderMapping, cu.FieldMapping(openapi.InHeader)) {
			return fmt.Errorf("deprecated context has output %T, status %d, type %q, mapping %v; the current one %T, %d, %q, %v",
				old.Output, old.HTTPStatus, old.RespContentType, old.RespHeaderMapping, cu.Structure, cu.HTTPStatus, cu.ContentType, cu.FieldMapping(openapi.InHeader))
		}
	}

	return nil
}

// old sets the operation up with the deprecated calls.
func (c c19case) old(r *openapi3.Reflector, op *openapi3.Operation) error {
	n := 0
	short := func() bool {
		n++

		return len(c.Short) > 0 && c.Short[n%len(c.Short)]
	}

	for _, u := range c.Op.Req {
		var err error

		if short() && len(u.Map) == 0 {
			err = r.SetRequest(op, u.structure(), c.Op.Method)
		} else {
			err = r.SetupRequest(openapi3.OperationContext{
				Operation: op, Input: u.structure(), HTTPMethod: c.Op.Method,
				ReqQueryMapping: u.Map["query"], ReqPathMapping: u.Map["path"], ReqCookieMapping: u.Map["cookie"],
				ReqHeaderMapping: u.Map["header"], ReqFormDataMapping: u.Map["formData"],
			})
		}

		if err != nil {
			return err
		}
	}

	for _, u := range c.Op.Resp {
		var err error

		full := openapi3.OperationContext{
			Operation: op, HTTPMethod: c.Op.Method,
			Output: u.structure(), HTTPStatus: u.Status, RespContentType: u.CT, RespHeaderMapping: u.Map["header"],
		}

		switch {
		case strings.EqualFold(c.Op.Method, "head") || !short() || len(u.Map) > 0:
			err = r.SetupResponse(full)
		case u.T.K == "nil" && u.CT != "":
			err = r.SetStringResponse(op, u.Status, u.CT)
		case u.CT == "":
			err = r.SetJSONResponse(op, u.structure(), u.Status)
		default:
			err = r.SetupResponse(full)
		}

		if err != nil {
			return err
		}
	}

	return nil
}

func runC19(c c19case, st *h.Stats) error {
	var seenNew, seenOld []sighting

	// Operation context.
	rn := c.reflector(func(rc *jsonschema.ReflectContext, t reflect.Type) error {
		oc, ok := openapi.OperationCtx(rc)
		old, ok2 := openapi3.OperationCtx(rc)

		if ok != ok2 {
			return fmt.Errorf("context found: %v, deprecated context found: %v", ok, ok2)
		}

		if ok {
			seenNew = append(seenNew, sighting{t.String(), oc.IsProcessingResponse(), string(oc.ProcessingIn()), strings.ToLower(oc.Method())})

			return details(old, oc)
		}

		return nil
	})
	errNew := c.Op.register(rn)

	if _, bad := newModel(false, c.Fmts).operation(c.Op); bad == nil && errNew != nil {
		return fmt.Errorf("operation context: %w", errNew)
	}

	// Deprecated calls.
	ro := c.reflector(func(rc *jsonschema.ReflectContext, t reflect.Type) error {
		if old, ok := openapi3.OperationCtx(rc); ok {
			seenOld = append(seenOld, sighting{t.String(), old.ProcessingResponse, old.ProcessingIn, strings.ToLower(old.HTTPMethod)})
		}

		return nil
	})

	var errOld error

	op := openapi3.Operation{}
	ro.SpecEns()

	if errOld = c.old(ro, &op); errOld == nil {
		method, path, _, err := openapi.SanitizeMethodPath(c.Op.Method, c.Op.Path)
		h.Must(err, "path")

		if c.Item && len(c.Op.Resp) > 0 && errNew == nil {
			pi := openapi3.PathItem{}
			ro.Spec.Paths.WithMapOfPathItemValuesItem(path, *pi.WithOperation(strings.ToUpper(method), op))
		} else {
			errOld = ro.Spec.AddOperation(c.Op.Method, c.Op.Path, op)
		}
	}

	if (errOld == nil) != (errNew == nil) {
		return fmt.Errorf("operation context gives %v, deprecated calls %v", errNew, errOld)
	}

	if errNew != nil {
		st.Class("rejected")

		return nil
	}

	st.NonTrivialIf(len(c.Op.Req)+len(c.Op.Resp) > 0)
	st.ClassIf(len(c.Op.Req) > 0, "request")
	st.ClassIf(len(c.Op.Resp) > 0, "response")
	st.ClassIf(len(seenNew) > 0, "schema hooks")

	a, err := json.Marshal(rn.Spec)
	if err != nil {
		return fmt.Errorf("save: %w", err)
	}

	b, err := json.Marshal(ro.Spec)
	if err != nil {
		return fmt.Errorf("save deprecated: %w", err)
	}

	va, _ := jsv.Parse(a)
	vb, _ := jsv.Parse(b)

	if d := jsv.Diff(va, vb); d != "" {
		return fmt.Errorf("document of operation context and of deprecated calls: %s\ncontext:    %s\ndeprecated: %s", d, cut(string(a)), cut(string(b)))
	}

	if len(seenNew) != len(seenOld) {
		return fmt.Errorf("schema hooks are called %d times with operation context, %d times with deprecated calls", len(seenNew), len(seenOld))
	}

	for i := range seenNew {
		x, y := seenNew[i], seenOld[i]
		if y.Method == "" { // SetJSONResponse has no method.
			y.Method = x.Method
		}

		if x != y {
			return fmt.Errorf("schema hook call %d sees %+v with operation context, %+v with deprecated calls", i, x, y)
		}
	}

	return nil
}

func init() {
	p := h.Register("C19", "The older 3.0 calls document the same as operation contexts",
		"Units that the deprecated calls can not express (request content type, format, description, customization, default response) are not generated.")

	h.Add(p, "operation", "at least one structure; request and response structures with mappings, statuses and content types, set up in both ways",
		10000, 500000, genC19, runC19)
}

func genC19(t *rapid.T) c19case {
	g := newOpGen(t)
	c := c19case{Fmts: chance(t, 30), Item: rapid.Bool().Draw(t, "item")}
	c.Op = g.operation()
	plain := func(u *unitDesc, req bool) {
		u.Format, u.Desc, u.Ext, u.Ref, u.Default, u.Prep = "", "", "", "", false, false

		if req {
			u.CT = ""
		}

		if u.T.K == "virt" && u.T.D == "" {
			u.T.D = fmt.Sprintf("VirtN%d", g.next())
		}

		if u.T.K == "nil" && req {
			u.T = tgen.Zoo("Empty")
		}
	}

	for i := range c.Op.Req {
		plain(&c.Op.Req[i], true)
	}

	for i := range c.Op.Resp {
		plain(&c.Op.Resp[i], false)
	}

	c.Op.Tags, c.Op.Summary, c.Op.Desc, c.Op.ID, c.Op.Deprecated, c.Op.Sec = nil, "", "", "", false, nil
	c.Op.tidy()
	c.Op.Path = pathOf("/a", c.Op.Req)

	if chance(t, 5) {
		c.Op.Path += "/{extra}"
	}

	c.Short = rapid.SliceOfN(rapid.Bool(), 3, 3).Draw(t, "short")

	return c
}
