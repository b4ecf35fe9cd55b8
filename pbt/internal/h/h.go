// Package h is the property-checking harness: it drives generated cases through
// properties, journals each case before it runs, shrinks failures and records coverage.
package h

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
)

// Stats collects coverage facts about one case.
type Stats struct {
	nontrivial bool
	classes    map[string]int
}

// Class marks the case as belonging to a named class.
func (s *Stats) Class(names ...string) {
	for _, n := range names {
		s.classes[n]++
	}
}

// ClassIf marks the case conditionally.
func (s *Stats) ClassIf(cond bool, name string) {
	if cond {
		s.classes[name]++
	}
}

// NonTrivial marks the case as non-trivial.
func (s *Stats) NonTrivial() { s.nontrivial = true }

// NonTrivialIf marks the case as non-trivial conditionally.
func (s *Stats) NonTrivialIf(c bool) {
	if c {
		s.nontrivial = true
	}
}

// Facet is one executable check of a property.
type Facet struct {
	Name     string
	Rule     string
	Quick    int // cases per run, quick tier
	Thorough int // cases per run, thorough tier
	gen      func(t *rapid.T) interface{}
	run      func(c interface{}, st *Stats) error
	decode   func(data []byte) (interface{}, error)

	// For the fuzzer: cases from and to raw bytes, when the input of the property is raw bytes.
	FromRaw func(data []byte) interface{}
	ToRaw   func(c interface{}) []byte
}

// Prop is a property with its facets.
type Prop struct {
	ID          string
	Title       string
	Facets      []*Facet
	Assumptions []string
	Race        bool
}

// Props is the registry.
var Props = map[string]*Prop{}

// Register declares a property.
func Register(id, title string, assumptions ...string) *Prop {
	p := &Prop{ID: id, Title: title, Assumptions: assumptions}
	Props[id] = p

	return p
}

// Add adds a facet to a property.
func Add[C any](p *Prop, name, rule string, quick, thorough int, gen func(t *rapid.T) C, run func(c C, st *Stats) error) {
	p.Facets = append(p.Facets, &Facet{
		Name: name, Rule: rule, Quick: quick, Thorough: thorough,
		gen: func(t *rapid.T) interface{} { return gen(t) },
		run: func(c interface{}, st *Stats) error { return run(c.(C), st) },
		decode: func(data []byte) (interface{}, error) {
			var c C
			err := json.Unmarshal(data, &c)

			return c, err
		},
	})
}

// Raw lets the fuzzer mutate the bytes of the cases of a facet.
func Raw[C any](p *Prop, facet string, from func(data []byte) C, to func(c C) []byte) {
	f := p.Facet(facet)
	f.FromRaw = func(data []byte) interface{} { return from(data) }
	f.ToRaw = func(c interface{}) []byte { return to(c.(C)) }
}

// Facet finds a facet by name.
func (p *Prop) Facet(name string) *Facet {
	for _, f := range p.Facets {
		if f.Name == name {
			return f
		}
	}

	return nil
}

// Replay is the stored form of a failing case.
type Replay struct {
	Property string          `json:"property"`
	Facet    string          `json:"facet"`
	Failure  string          `json:"failure,omitempty"`
	Case     json.RawMessage `json:"case"`
}

// HarnessError is a defect of the check itself, not of the code under test.
type HarnessError struct{ Msg string }

func (e HarnessError) Error() string { return e.Msg }

// Must fails the check (not the property) on an unexpected harness condition.
func Must(err error, format string, args ...interface{}) {
	if err != nil {
		panic(HarnessError{fmt.Sprintf(format, args...) + ": " + err.Error()})
	}
}

// RunCase runs one case, converting panics of the code under test into failures.
func (f *Facet) RunCase(c interface{}, st *Stats) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if he, ok := r.(HarnessError); ok {
				panic(he)
			}

			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()

	return f.run(c, st)
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}

	return strings.Join(lines, "\n")
}

// Decode decodes a case.
func (f *Facet) Decode(data []byte) (interface{}, error) { return f.decode(data) }

// NewStats creates Stats.
func NewStats() *Stats { return &Stats{classes: map[string]int{}} }

// FacetResult is what a shard reports.
type FacetResult struct {
	Facet       string            `json:"facet"`
	Rule        string            `json:"rule"`
	Evaluations int               `json:"evaluations"`
	NonTrivial  []uint64          `json:"nontrivial"`
	Classes     map[string]int    `json:"classes"`
	Samples     []json.RawMessage `json:"samples"`
	Failure     string            `json:"failure,omitempty"`
	Case        json.RawMessage   `json:"case,omitempty"`
}

type tb struct {
	name   string
	failed bool
	logs   []string
}

type stopTB struct{}

func (t *tb) Helper()      {}
func (t *tb) Name() string { return t.name }
func (t *tb) Logf(format string, args ...any) {
	t.logs = append(t.logs, fmt.Sprintf(format, args...))
}
func (t *tb) Log(args ...any)                   { t.logs = append(t.logs, fmt.Sprint(args...)) }
func (t *tb) Skipf(format string, args ...any)  { panic(stopTB{}) }
func (t *tb) Skip(args ...any)                  { panic(stopTB{}) }
func (t *tb) SkipNow()                          { panic(stopTB{}) }
func (t *tb) Errorf(format string, args ...any) { t.Logf(format, args...); t.failed = true }
func (t *tb) Error(args ...any)                 { t.Log(args...); t.failed = true }
func (t *tb) Fatalf(format string, args ...any) { t.Errorf(format, args...); panic(stopTB{}) }
func (t *tb) Fatal(args ...any)                 { t.Error(args...); panic(stopTB{}) }
func (t *tb) FailNow()                          { t.failed = true; panic(stopTB{}) }
func (t *tb) Fail()                             { t.failed = true }
func (t *tb) Failed() bool                      { return t.failed }

// Hash64 hashes data.
func Hash64(data []byte) uint64 {
	s := sha256.Sum256(data)

	return binary.LittleEndian.Uint64(s[:8])
}

// RunFacet explores a facet with rapid (flags already set) and journals each case.
func RunFacet(p *Prop, f *Facet, journal string) (res FacetResult, err error) {
	res = FacetResult{Facet: f.Name, Rule: f.Rule, Classes: map[string]int{}}
	seen := map[uint64]bool{}
	maxSamples := 3

	var (
		harnessErr error
		failing    bool
	)

	jf, err := os.Create(journal)
	if err != nil {
		return res, err
	}
	defer jf.Close()

	t := &tb{name: p.ID + "-" + f.Name}

	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopTB); ok {
					return
				}

				panic(r)
			}
		}()

		rapid.Check(t, func(rt *rapid.T) {
			if harnessErr != nil {
				rt.Fatalf("harness error")
			}

			c := f.gen(rt)

			data, err := json.Marshal(c)
			if err != nil {
				harnessErr = fmt.Errorf("marshal case: %w", err)
				rt.Fatalf("harness error")
			}

			WriteJournal(jf, p.ID, f.Name, data)
			CaseStarted()

			// The case that runs is the one a replay would run.
			c, err = f.decode(data)
			if err != nil {
				harnessErr = fmt.Errorf("decode case: %w: %s", err, data)
				rt.Fatalf("harness error")
			}

			st := NewStats()

			var runErr error

			func() {
				defer func() {
					if r := recover(); r != nil {
						if he, ok := r.(HarnessError); ok {
							harnessErr = fmt.Errorf("%w; case: %s", he, data)

							return
						}

						panic(r)
					}
				}()

				runErr = f.RunCase(c, st)
			}()

			if harnessErr != nil {
				rt.Fatalf("harness error")
			}

			if !failing {
				res.Evaluations++

				for k := range st.classes {
					res.Classes[k]++
				}

				if st.nontrivial {
					hs := Hash64(data)
					if !seen[hs] {
						seen[hs] = true
						res.NonTrivial = append(res.NonTrivial, hs)

						if len(res.Samples) < maxSamples && len(data) < 3000 && (len(data) > 60 || res.Evaluations > 50) {
							res.Samples = append(res.Samples, data)
						}
					}
				}
			}

			if runErr != nil {
				failing = true
				res.Failure = runErr.Error()
				res.Case = data

				rt.Fatalf("violation")
			}
		})
	}()

	if harnessErr != nil {
		return res, harnessErr
	}

	if t.failed && res.Failure == "" {
		return res, fmt.Errorf("rapid: %s", strings.Join(t.logs, "\n"))
	}

	return res, nil
}

// Gen draws a case.
func (f *Facet) Gen(t *rapid.T) interface{} { return f.gen(t) }

// WriteJournal stores the case that is about to run.
func WriteJournal(f *os.File, prop, facet string, data []byte) {
	b, _ := json.Marshal(Replay{Property: prop, Facet: facet, Case: data})
	_ = f.Truncate(0)
	_, _ = f.WriteAt(b, 0)
}

// caseLimit is far beyond the time any case needs.
const caseLimit = 150 * time.Second

var caseStart int64

// CaseStarted restarts the clock of the watchdog.
func CaseStarted() { atomic.StoreInt64(&caseStart, time.Now().UnixNano()) }

// Watchdog ends the process when a case does not return.
func Watchdog() {
	for {
		time.Sleep(time.Second)

		if s := atomic.LoadInt64(&caseStart); s != 0 && time.Since(time.Unix(0, s)) > caseLimit {
			fmt.Fprintf(os.Stderr, "fatal error: case does not end in %s\n", caseLimit)
			buf := make([]byte, 1<<16)
			os.Stderr.Write(buf[:runtime.Stack(buf, true)])
			os.Exit(67)
		}
	}
}

// SortedKeys returns sorted map keys.
func SortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}

	sort.Strings(r)

	return r
}
