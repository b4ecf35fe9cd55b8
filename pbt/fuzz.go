package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/pbt/internal/h"
)

// fuzzRun is what the coverage-guided search of one facet covered.
type fuzzRun struct {
	Facet       string  `json:"facet"`
	Input       string  `json:"input"`
	Seconds     float64 `json:"seconds"`
	Cases       int     `json:"cases"`
	NewCoverage int     `json:"cases_reaching_new_code"`
	Unconfirmed int     `json:"failures_not_reproduced,omitempty"`

	failure string
	kase    json.RawMessage
	fatal   bool
	err     error
}

var fuzzStatRe = regexp.MustCompile(`execs: (\d+) .*new interesting: (\d+)`)

// fuzzFacet runs the coverage-guided fuzzer (the binary bin) over one facet.
func fuzzFacet(self, bin, scratch, id string, f *h.Facet, raw bool, seed uint64, d time.Duration) *fuzzRun {
	r := &fuzzRun{Facet: f.Name, Input: "random bits of the generator"}
	if raw {
		r.Input = "bytes of the case"
	}

	dir, err := os.MkdirTemp(scratch, "fuzz-")
	if err != nil {
		r.err = err

		return r
	}
	defer os.RemoveAll(dir)

	out := filepath.Join(dir, "out")
	if r.err = os.Mkdir(out, 0o755); r.err != nil {
		return r
	}

	start := time.Now()
	cmd := exec.Command(bin, "-test.run=^$", "-test.fuzz=^FuzzFacet$", "-test.fuzztime="+d.String(), "-test.fuzzminimizetime=10x",
		"-test.fuzzcachedir="+filepath.Join(dir, "cache"), "-test.parallel=8")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=2500MiB", "PBT_FUZZ="+id+"/"+f.Name, "PBT_FUZZ_OUT="+out, "PBT_FUZZ_SEED="+strconv.FormatUint(seed>>16, 10))

	if raw {
		cmd.Env = append(cmd.Env, "PBT_FUZZ_RAW=1")
	}

	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	runErr := cmd.Run()
	r.Seconds = time.Since(start).Seconds()

	if m := fuzzStatRe.FindAllStringSubmatch(buf.String(), -1); len(m) > 0 {
		r.Cases, _ = strconv.Atoi(m[len(m)-1][1])
		r.NewCoverage, _ = strconv.Atoi(m[len(m)-1][2])
	}

	if fs, _ := filepath.Glob(filepath.Join(out, "harness-*")); len(fs) > 0 {
		b, _ := os.ReadFile(fs[0])
		r.err = fmt.Errorf("harness: %s", tail(string(b), 3000))

		return r
	}

	fails, _ := filepath.Glob(filepath.Join(out, "fail-*")) // The names start with the size.
	sort.Strings(fails)

	for i, fn := range fails {
		if i > 20 {
			break
		}

		for n := 0; n < 3; n++ {
			o, err := exec.Command(self, "replay", fn).CombinedOutput()
			if exitCode(err) == 1 || (err != nil && fatalRe.Match(o)) {
				var rep h.Replay

				b, _ := os.ReadFile(fn)
				if r.err = json.Unmarshal(b, &rep); r.err == nil {
					r.failure, r.kase = rep.Failure, rep.Case
				}

				return r
			}
		}

		r.Unconfirmed++
	}

	if runErr == nil {
		return r
	}

	// A worker that died leaves its last case.
	journals, _ := filepath.Glob(filepath.Join(out, "journal-*"))
	for _, fn := range journals {
		if st, err := os.Stat(fn); err != nil || st.Size() == 0 {
			continue
		}

		o, err := exec.Command(self, "replay", fn).CombinedOutput()
		if err != nil && fatalRe.Match(o) {
			var rep h.Replay

			b, _ := os.ReadFile(fn)
			if r.err = json.Unmarshal(b, &rep); r.err == nil {
				r.failure, r.kase, r.fatal = "process crashed: "+head(string(o), 3000), rep.Case, true
			}

			return r
		}
	}

	if r.Unconfirmed == 0 && !strings.Contains(buf.String(), "context deadline exceeded") { // https://go.dev/issue/48157
		r.err = fmt.Errorf("fuzzer: %w: %s", runErr, tail(buf.String(), 3000))
	}

	return r
}
