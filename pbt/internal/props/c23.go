package props

import (
	"encoding/json"
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
	"verif/pbt/internal/tgen"
)

// c23job is independent work of one goroutine.
type c23job struct {
	Ops  *opsCase `json:"ops,omitempty"`
	Old  bool     `json:"old,omitempty"` // deprecated calls
	Is31 bool     `json:"is31,omitempty"`
	Doc  *docCase `json:"doc,omitempty"`
	YAML bool     `json:"yaml,omitempty"`
	N    int      `json:"n"` // number of goroutines doing the job
}

type c23case struct {
	Jobs []c23job `json:"jobs"`
}

type yamlDoc interface {
	MarshalYAML() ([]byte, error)
	UnmarshalYAML(data []byte) error
}

// run does the job and renders everything that it produces.
func (j c23job) run() (res string, perr error) {
	defer func() {
		if r := recover(); r != nil {
			perr = fmt.Errorf("panic: %v\n%s", r, debug.Stack())
		}
	}()

	var sb strings.Builder

	out := func(f string, args ...interface{}) { fmt.Fprintf(&sb, f+"\n", args...) }

	switch {
	case j.Doc != nil:
		v := ver(j.Is31)
		data := append([]byte(nil), j.Doc.Doc...)

		e, text, err := loadSave(v.Ents[j.Doc.Ent], data)
		out("%v %s", err, text)

		if y, ok := e.(yamlDoc); ok && err == nil && j.YAML {
			b, err := y.MarshalYAML()
			out("%v %s", err, b)

			if err == nil {
				e2 := v.Ents[j.Doc.Ent]().(yamlDoc)
				err = e2.UnmarshalYAML(b)
				text, err2 := json.Marshal(e2)
				out("%v %v %s", err, err2, text)
			}
		}

	case j.Old:
		r := j.Ops.reflector(false).(*openapi3.Reflector)

		for i, o := range j.Ops.Ops {
			op := openapi3.Operation{}
			err := c19case{Op: o, Short: []bool{i%2 == 0, true}}.old(r, &op)
			out("%v", err)

			if err == nil {
				out("%v", r.SpecEns().AddOperation(o.Method, o.Path, op))
			}
		}

		b, err := json.Marshal(r.Spec)
		out("%v %s", err, b)

	case j.Ops != nil:
		r := j.Ops.reflector(j.Ops.Is31)
		r.SpecSchema().SetTitle("T")
		r.SpecSchema().SetHTTPBasicSecurity("basic", "d")
		r.SpecSchema().SetAPIKeySecurity("key", "X-Key", "header", "d")
		r.SpecSchema().SetHTTPBearerTokenSecurity("bearer", "JWT", "d")

		for i, o := range j.Ops.Ops {
			out("%v", o.register(r))

			if i%2 == 1 { // Other goroutines go on.
				runtime.Gosched()
			}
		}

		b, err := json.Marshal(r.SpecSchema())
		out("%v %s", err, b)

		switch x := r.(type) {
		case *openapi3.Reflector:
			y, err := x.Spec.MarshalYAML()
			out("%v %s", err, y)
			s := openapi3.Spec{}
			err = s.UnmarshalYAML(y)
			b, err2 := json.Marshal(s)
			out("%v %v %s", err, err2, b)
		case *openapi31.Reflector:
			y, err := x.Spec.MarshalYAML()
			out("%v %s", err, y)
			s := openapi31.Spec{}
			err = s.UnmarshalYAML(y)
			b, err2 := json.Marshal(s)
			out("%v %v %s", err, err2, b)
		}

		w := j.Ops.reflector(j.Ops.Is31).(walker)
		cb := func(in openapi.In, name string, schema *jsonschema.SchemaOrBool, required bool) error {
			b, err := json.Marshal(schema)
			out("%s %s %v %v %s", in, name, required, err, b)

			return nil
		}

		for _, o := range j.Ops.Ops {
			for _, u := range o.Req {
				if u.Ref == "" {
					out("%v", w.WalkRequestJSONSchemas(o.Method, u.contentUnit(), cb, nil))
				}
			}

			for _, u := range o.Resp {
				if u.Ref == "" {
					out("%v", w.WalkResponseJSONSchemas(u.contentUnit(), cb, nil))
				}
			}
		}
	}

	return sb.String(), nil
}

// sameLines compares output regardless of the order of lines, walkers do not promise an order.
func sameLines(a, b string) bool {
	if a == b {
		return true
	}

	return fmt.Sprint(sorted(strings.Split(a, "\n"))) == fmt.Sprint(sorted(strings.Split(b, "\n")))
}

func runC23(c c23case, st *h.Stats) error {
	type result struct {
		job  int
		text string
		err  error
	}

	var (
		wg  sync.WaitGroup
		mu  sync.Mutex
		res []result
	)

	start := make(chan struct{})

	// Concurrently first, so that nothing is initialised by the sequential run.
	for i, j := range c.Jobs {
		for k := 0; k < j.N; k++ {
			i, j := i, j

			wg.Add(1)

			go func() {
				defer wg.Done()

				<-start

				text, err := j.run()

				mu.Lock()
				res = append(res, result{i, text, err})
				mu.Unlock()
			}()
		}
	}

	close(start)
	wg.Wait()

	want := make([]string, len(c.Jobs))

	for i, j := range c.Jobs {
		text, err := j.run()
		if err != nil {
			text = err.Error()[:20]
		}

		want[i] = text

		st.ClassIf(j.Doc != nil, "load and save")
		st.ClassIf(j.Ops != nil && !j.Old, "reflect, save, load and walk")
		st.ClassIf(j.Old, "deprecated calls")
		st.ClassIf(j.N > 1, "same job in several goroutines")
	}

	for _, r := range res {
		if r.err != nil {
			r.text = r.err.Error()[:20]
		}

		if !sameLines(r.text, want[r.job]) {
			return fmt.Errorf("job %d gives\n%s\nconcurrently and\n%s\nalone (%v)", r.job, cut(r.text), cut(want[r.job]), r.err)
		}
	}

	st.NonTrivialIf(len(res) > 1)

	return nil
}

func init() {
	p := h.Register("C23", "Independent reflectors can be used concurrently, one document can be read concurrently",
		"The checker is built with the race detector: accesses of shared memory that are not ordered count as violations, whatever the timing was.",
		"Definition names of virtual structures without a name come from a global counter of the schema library, virtual structures have names here.")

	h.Add(p, "jobs", "at least two goroutines work at once; reflectors with generated operations, deprecated calls, walks, and generated documents loaded and saved, concurrently and one after another",
		1500, 60000, func(t *rapid.T) c23case {
			c := c23case{}

			for i := drawInt(t, 1, 3); i > 0; i-- {
				j := c23job{N: drawInt(t, 1, 3)}

				switch drawInt(t, 0, 5) {
				case 0, 1:
					j.Is31 = rapid.Bool().Draw(t, "is31")
					d := genDoc(t, ver(j.Is31), 60)
					j.Doc = &d
					j.YAML = chance(t, 60)
				case 2:
					o := genOps(1, 2, true)(t)
					o.Is31 = false

					for k := range o.Ops {
						op := &o.Ops[k]
						op.Webhook = false

						for _, l := range [][]unitDesc{op.Req, op.Resp} {
							for m := range l {
								l[m].Prep, l[m].Default, l[m].Ref, l[m].Ext = false, false, "", ""

								if l[m].T.K == "nil" {
									l[m].T = tgen.Zoo("Empty")
								}
							}
						}

						op.Path = pathOf(fmt.Sprintf("/a%d", k), op.Req)
					}

					j.Ops, j.Old = &o, true
				default:
					o := genOps(1, 3, true)(t)
					j.Ops = &o
				}

				c.Jobs = append(c.Jobs, j)
			}

			return c
		}, runC23)

	h.Add(p, "readers", "goroutines that save, convert and look into one document at once; non-trivial when at least two of them get something of substance",
		500, 60000, genRead, runRead)
}
