package props

import (
	"errors"
	"fmt"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

// faultCase has operations during whose reflection a hook fails.
type faultCase struct {
	opsCase
	At    int     `json:"at"`    // index of the operation that fails
	Calls []int   `json:"calls"` // which of the hook calls fails, one per attempt, in thousandths of all calls
	Props bool    `json:"props"` // calls for properties fail, otherwise those for schemas
	Sub   c19case `json:"sub"`   // for deprecated calls
}

const faultMessage = "hook fails on purpose"

// fault makes the n-th call of a hook fail, and later ones for the same schema or property:
// a structure may be reflected more than once, and a hook that fails once only need not be noticed.
type fault struct {
	n, armed int
	hit      string
}

func (f *fault) arm(n int) { f.n, f.armed, f.hit = 0, n, "" }

func (f *fault) call(format string, args ...interface{}) error {
	f.n++

	site := fmt.Sprintf(format, args...)

	if f.n == f.armed {
		f.hit = site
	}

	if f.hit == site {
		return errors.New(faultMessage)
	}

	return nil
}

func (f *fault) install(r openapi.Reflector, props bool) {
	jr := r.JSONSchemaReflector()

	if props {
		jr.DefaultOptions = append(jr.DefaultOptions, jsonschema.InterceptProp(func(p jsonschema.InterceptPropParams) error {
			return f.call("property %s of %s, processed %v", p.Field.Name, p.Field.Type, p.Processed)
		}))

		return
	}

	jr.DefaultOptions = append(jr.DefaultOptions, jsonschema.InterceptSchema(func(p jsonschema.InterceptSchemaParams) (bool, error) {
		t := "?"
		if p.Value.IsValid() {
			t = p.Value.Type().String()
		}

		return false, f.call("schema of %s, processed %v", t, p.Processed)
	}))
}

// faulty makes a reflector with operations up to the one that fails.
func (c faultCase) faulty() (openapi.Reflector, *fault) {
	r := c.reflector(c.Is31)
	f := &fault{}
	f.install(r, c.Props)

	for _, o := range c.Ops[:c.At] {
		_ = o.register(r) //nolint:errcheck // Compared by what is documented.
	}

	return r, f
}

func (c faultCase) nth(k, calls int) int { return 1 + c.Calls[k]*calls/1000 }

func operationsOf(doc map[string]interface{}) map[string]interface{} {
	res := map[string]interface{}{}

	for _, k := range []string{"paths", "webhooks"} {
		if m := asMap(doc[k]); len(m) > 0 {
			res[k] = m
		}
	}

	return res
}

func checkFault(what string, err error, hit string, clean error) error {
	if err == nil {
		return fmt.Errorf("%s succeeds although a hook fails at %s", what, hit)
	}

	if clean == nil && !strings.Contains(err.Error(), faultMessage) {
		return fmt.Errorf("%s fails with %q, which does not tell the error of the hook at %s", what, err, hit)
	}

	return nil
}

func genFault(t *rapid.T) faultCase {
	c := faultCase{opsCase: genOps(1, 3, true)(t), Props: rapid.Bool().Draw(t, "props")}
	c.At = drawInt(t, 0, len(c.Ops)-1)
	c.Calls = rapid.SliceOfN(rapid.IntRange(0, 999), 1, 6).Draw(t, "calls")

	return c
}

func runFaultAdd(c faultCase, st *h.Stats) error {
	clean, f := c.faulty()
	o := c.Ops[c.At]

	f.arm(0)
	cleanErr := o.register(clean)
	calls := f.n
	want := docOf(clean)

	st.NonTrivialIf(calls > 0 && cleanErr == nil)

	if calls == 0 {
		return nil
	}

	for k := range c.Calls {
		r, f := c.faulty()
		before := docOf(r)

		f.arm(c.nth(k, calls))
		err := o.register(r)
		hit := f.hit
		during := f.n

		f.arm(0)

		if hit == "" {
			return fmt.Errorf("hooks are called %d times, then %d times for the same operation", calls, during)
		}

		if err := checkFault("adding the operation", err, hit, cleanErr); err != nil {
			return err
		}

		if err := diffErr("operations before and after a failed registration", operationsOf(before), operationsOf(docOf(r))); err != nil {
			return err
		}

		// The cause is gone.
		err = o.register(r)
		if (err == nil) != (cleanErr == nil) {
			return fmt.Errorf("registration: %v; after a failure at %s: %v", cleanErr, hit, err)
		}

		if cleanErr == nil {
			if err := diffErr("document without and with an earlier failure at "+hit, want, docOf(r)); err != nil {
				return err
			}
		}
	}

	return nil
}

func runFaultWalk(c faultCase, st *h.Stats) error {
	o := c.Ops[c.At]

	for i, u := range append(append([]unitDesc{}, o.Req...), o.Resp...) {
		w := c16case{Is31: c.Is31, Fmts: c.Fmts, Method: o.Method, U: u, Resp: i >= len(o.Req)}

		walk := func(n int) (int, string, []string, error) {
			r := c.reflector(c.Is31)
			f := &fault{}
			f.install(r, c.Props)
			f.arm(n)

			var seen []string

			err := w.walk(r.(walker), func(in openapi.In, name string, _ *jsonschema.SchemaOrBool, _ bool) error {
				seen = append(seen, string(in)+" "+name)

				return nil
			}, nil)

			return f.n, f.hit, seen, err
		}

		calls, _, _, cleanErr := walk(0)
		if calls == 0 {
			continue
		}

		st.NonTrivialIf(cleanErr == nil)

		for k := range c.Calls {
			_, hit, seen, err := walk(c.nth(k, calls))
			if hit == "" {
				return fmt.Errorf("hooks are not called for the same structure as often as before (%d)", calls)
			}

			if err := checkFault("walking", err, hit, cleanErr); err != nil {
				return err
			}

			if len(seen) > 0 && cleanErr == nil {
				return fmt.Errorf("walking hands out %q although reflection fails at %s", seen, hit)
			}
		}
	}

	return nil
}

func runFaultOld(c faultCase, st *h.Stats) error {
	setup := func(n int) (int, string, []byte, error) {
		r := newReflector(false, c.Sub.Fmts).(*openapi3.Reflector)
		f := &fault{}
		f.install(r, c.Props)
		r.SpecEns()
		f.arm(n)

		op := openapi3.Operation{}
		err := c.Sub.old(r, &op)
		calls, hit := f.n, f.hit

		if n == 0 {
			return calls, hit, nil, err
		}

		f.arm(0)

		op = openapi3.Operation{}

		if again := c.Sub.old(r, &op); again != nil {
			return calls, hit, nil, fmt.Errorf("again: %w", again)
		}

		return calls, hit, []byte(js(docOf(r))), err
	}

	calls, _, _, cleanErr := setup(0)
	if calls == 0 || cleanErr != nil {
		return nil
	}

	st.NonTrivial()

	_, _, want, _ := setup(-1)

	for k := range c.Calls {
		_, hit, got, err := setup(c.nth(k, calls))
		if hit == "" {
			return fmt.Errorf("hooks are not called for the same structures as often as before (%d)", calls)
		}

		if err := checkFault("setting up", err, hit, nil); err != nil {
			return err
		}

		if string(want) != string(got) {
			return fmt.Errorf("document without and with an earlier failure at %s:\n%s\n%s", hit, cut(string(want)), cut(string(got)))
		}
	}

	return nil
}

func init() {
	p := h.Register("C26", "A failing schema hook fails the registration and leaves no trace", "")

	h.Add(p, "add", "operations of which one is added while a hook fails at some of its calls; non-trivial when a hook is called and the operation is fine otherwise", 3000, 100000, genFault, runFaultAdd)

	h.Add(p, "walk", "structures that are walked while a hook fails at some of its calls; non-trivial when a hook is called and the structure is fine otherwise", 3000, 100000, genFault, runFaultWalk)

	h.Add(p, "deprecated calls", "operations that are set up with the deprecated calls while a hook fails at some of its calls; non-trivial when a hook is called and the operation is fine otherwise", 3000, 100000,
		func(t *rapid.T) faultCase {
			c := faultCase{Props: rapid.Bool().Draw(t, "props"), Sub: genC19(t)}
			c.Calls = rapid.SliceOfN(rapid.IntRange(0, 999), 1, 6).Draw(t, "calls")

			return c
		}, runFaultOld)
}
