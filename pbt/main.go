// Command pbt drives the property checks of /verif. See DESIGN.md.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"verif/pbt/internal/h"
	_ "verif/pbt/internal/props"
)

func main() {
	testing.Init()
	debug.SetMaxStack(256 << 20)

	if len(os.Args) < 2 {
		usage()
	}

	switch os.Args[1] {
	case "run":
		os.Exit(cmdRun(os.Args[2:]))
	case "shard":
		os.Exit(cmdShard(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "list":
		for _, id := range h.SortedKeys(h.Props) {
			for _, f := range h.Props[id].Facets {
				fmt.Println(id, f.Name, f.Quick, f.Thorough)
			}
		}
	default:
		usage()
	}
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: pbt run ID | shard ID FACET SEED CHECKS DIR | replay FILE | list")
	os.Exit(2)
}

func infra(format string, args ...interface{}) int {
	fmt.Fprintf(os.Stderr, "CHECK-ERROR: "+format+"\n", args...)

	return 2
}

// cmdShard explores facets of a property in this process.
func cmdShard(args []string) int {
	id, facet, seed, checks, out := args[0], args[1], args[2], args[3], args[4]

	p := h.Props[id]
	f := p.Facet(facet)

	set := func(k, v string) {
		if err := flag.Set(k, v); err != nil {
			panic(err)
		}
	}

	_ = flag.CommandLine.Parse(nil)
	set("rapid.seed", seed)
	set("rapid.checks", checks)
	set("rapid.nofailfile", "true")
	set("rapid.shrinktime", "25s")

	go h.Watchdog()

	res, err := h.RunFacet(p, f, out+".journal")
	if err != nil {
		return infra("%s/%s: %v", id, facet, err)
	}

	b, err := json.Marshal(res)
	if err != nil {
		return infra("%v", err)
	}

	if err := os.WriteFile(out+".result", b, 0o600); err != nil {
		return infra("%v", err)
	}

	return 0
}

// cmdReplay runs one stored case, without the generator library.
func cmdReplay(args []string) int {
	data, err := os.ReadFile(args[0])
	if err != nil {
		return infra("%v", err)
	}

	var r h.Replay
	if err := json.Unmarshal(data, &r); err != nil {
		return infra("%v", err)
	}

	p, ok := h.Props[r.Property]
	if !ok {
		return infra("unknown property %q", r.Property)
	}

	f := p.Facet(r.Facet)
	if f == nil {
		return infra("unknown facet %q", r.Facet)
	}

	c, err := f.Decode(r.Case)
	if err != nil {
		return infra("%v", err)
	}

	h.CaseStarted()
	go h.Watchdog()

	if err := f.RunCase(c, h.NewStats()); err != nil {
		fmt.Println("FAIL:", err)

		return 1
	}

	fmt.Println("PASS")

	return 0
}

type job struct {
	facet  *h.Facet
	seed   uint64
	checks int
	out    string

	res   h.FacetResult
	crash string // fatal crash of the code under test
	jcase json.RawMessage
	err   error
}

var fatalRe = regexp.MustCompile(`(?m)^(fatal error: (stack overflow|concurrent map|all goroutines are asleep|case does not end)|runtime: goroutine stack exceeds|WARNING: DATA RACE)`)

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb

	return x ^ (x >> 31)
}

func seedFor(base uint64, s string, i int) uint64 {
	v := splitmix(base ^ h.Hash64([]byte(s+"#"+strconv.Itoa(i))))
	if v == 0 {
		v = 1
	}

	return v & 0x7fffffffffffffff
}

func cmdRun(args []string) int {
	start := time.Now()
	id := args[0]

	p, ok := h.Props[id]
	if !ok {
		return infra("unknown property %q", id)
	}

	verifDir := os.Getenv("VERIF_DIR")
	if verifDir == "" {
		return infra("VERIF_DIR is not set")
	}

	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}

	if len(args) > 1 {
		tier = args[1]
	}

	seed := uint64(1)

	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			return infra("VERIF_SEED: %v", err)
		}

		seed = uint64(v)
	}

	scratch, err := os.MkdirTemp(filepath.Join(verifDir, ".build"), "run-"+id+"-")
	if err != nil {
		return infra("%v", err)
	}
	defer os.RemoveAll(scratch)

	limit := 780 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}

	self, err := os.Executable()
	if err != nil {
		return infra("%v", err)
	}

	// Stored cases first: known findings, then regressions.
	known, err := loadKnown(verifDir, id)
	if err != nil {
		return infra("%v", err)
	}

	for i, k := range known {
		rc, out := replayCase(self, scratch, fmt.Sprintf("known-%d", i), k)
		switch rc {
		case 0: // fixed in this tree
		case 1:
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
		default:
			return infra("known finding %d: %s", i, out)
		}
	}

	regress, _ := filepath.Glob(filepath.Join(verifDir, "regress", id+"-*.json"))
	sort.Strings(regress)

	replayed := 0

	for _, fn := range regress {
		cmd := exec.Command(self, "replay", fn)
		out, err := cmd.CombinedOutput()
		rc := exitCode(err)
		replayed++

		if rc == 0 {
			continue
		}

		if rc == 1 || fatalRe.Match(out) {
			fmt.Printf("regression case %s fails:\n%s\n", fn, tail(string(out), 3000))
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, fn)
			writeEvidence(verifDir, p, tier, seed, nil, nil, replayed, 1, start)

			return 1
		}

		return infra("replay %s: rc=%d %s", fn, rc, tail(string(out), 2000))
	}

	// Exploration.
	shards := runtime.NumCPU()
	if shards > 8 {
		shards = 8
	}

	if shards < 2 {
		shards = 2
	}

	const shardUnits = 8 // The amount and seeds of work do not depend on the number of CPUs.

	var jobs []*job

	for _, f := range p.Facets {
		n := f.Quick
		if tier == "thorough" {
			n = f.Thorough
		}

		if s := os.Getenv("PBT_SCALE"); s != "" {
			sc, _ := strconv.ParseFloat(s, 64)
			n = int(float64(n) * sc)
		}

		if of := os.Getenv("PBT_FACET"); of != "" && of != f.Name {
			continue
		}

		units := shardUnits
		if tier == "thorough" {
			units = shardUnits * 4
		}

		per := (n + units - 1) / units

		for i := 0; i < units; i++ {
			jobs = append(jobs, &job{
				facet: f, seed: seedFor(seed, id+"/"+f.Name, i), checks: per,
				out: filepath.Join(scratch, fmt.Sprintf("%s-%d", f.Name, i)),
			})
		}
	}

	var (
		wg     sync.WaitGroup
		mu     sync.Mutex
		failed bool
	)

	deadline := start.Add(limit)
	ch := make(chan *job)

	for i := 0; i < shards; i++ {
		wg.Add(1)

		go func() {
			defer wg.Done()

			for j := range ch {
				mu.Lock()
				stop := failed
				mu.Unlock()

				if stop {
					continue
				}

				runJob(self, id, j, deadline)

				if j.res.Failure != "" || j.crash != "" {
					mu.Lock()
					failed = true
					mu.Unlock()
				}
			}
		}()
	}

	for _, j := range jobs {
		ch <- j
	}

	close(ch)
	wg.Wait()

	// The smallest failing case is the one reported.
	var best *job

	for _, j := range jobs {
		if j.crash != "" && len(j.jcase) > 0 {
			j.res.Facet = j.facet.Name
			j.res.Failure = j.crash
			j.res.Case = j.jcase
		}

		if j.res.Failure != "" && (best == nil || len(j.res.Case) < len(best.res.Case)) {
			best = j
		}
	}

	if best == nil {
		for _, j := range jobs {
			if j.err != nil {
				return infra("%s/%s seed=%d: %v", id, j.facet.Name, j.seed, j.err)
			}
		}
	}

	// The coverage-guided search.
	var fuzzed []*fuzzRun

	if bin := os.Getenv("PBT_FUZZBIN"); bin != "" && best == nil && tier == "thorough" {
		d := time.Minute
		if s := os.Getenv("PBT_FUZZTIME"); s != "" {
			if d, err = time.ParseDuration(s); err != nil {
				return infra("%v", err)
			}
		}

	fuzz:
		for _, f := range p.Facets {
			for _, raw := range []bool{false, true} {
				if of := os.Getenv("PBT_FACET"); (of != "" && of != f.Name) || (raw && f.FromRaw == nil) {
					continue
				}

				r := fuzzFacet(self, bin, scratch, id, f, raw, seedFor(seed, id+"/"+f.Name, 1000), d)
				if r.err != nil {
					return infra("%s/%s: %v", id, f.Name, r.err)
				}

				fuzzed = append(fuzzed, r)

				if r.failure != "" {
					best = &job{facet: f, res: h.FacetResult{Facet: f.Name, Failure: r.failure, Case: r.kase}}
					if r.fatal {
						best.crash, best.jcase = r.failure, r.kase
					}

					break fuzz
				}
			}
		}
	}

	violations := 0

	if best != nil {
		violations = 1

		if best.crash != "" && !strings.Contains(best.crash, "case does not end") {
			best.res.Case = shrinkCrash(self, scratch, id, best)
		}

		rep := h.Replay{Property: id, Facet: best.facet.Name, Failure: best.res.Failure, Case: best.res.Case}
		b, _ := json.MarshalIndent(rep, "", " ")
		dir := filepath.Join(verifDir, "evidence", "replays")
		_ = os.MkdirAll(dir, 0o755)
		fn := filepath.Join(dir, fmt.Sprintf("%s-%s-%016x.json", id, best.facet.Name, h.Hash64(best.res.Case)))

		if err := os.WriteFile(fn, b, 0o600); err != nil {
			return infra("%v", err)
		}

		fmt.Printf("facet %s: %s\ncase: %s\n", best.facet.Name, tail(best.res.Failure, 6000), tail(string(best.res.Case), 4000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, fn)
	}

	if err := writeEvidence(verifDir, p, tier, seed, jobs, fuzzed, replayed, violations, start); err != nil {
		return infra("%v", err)
	}

	if violations > 0 {
		return 1
	}

	fmt.Printf("OK property=%s tier=%s seed=%d wall=%.1fs\n", id, tier, seed, time.Since(start).Seconds())

	return 0
}

func exitCode(err error) int {
	if err == nil {
		return 0
	}

	if ee, ok := err.(*exec.ExitError); ok {
		return ee.ExitCode()
	}

	return -1
}

func runJob(self, id string, j *job, deadline time.Time) {
	cmd := exec.Command(self, "shard", id, j.facet.Name, strconv.FormatUint(j.seed, 10), strconv.Itoa(j.checks), j.out)
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=2500MiB", "GORACE=halt_on_error=1 exitcode=66")

	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf

	if err := cmd.Start(); err != nil {
		j.err = err

		return
	}

	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()

	var err error

	timer := time.NewTimer(time.Until(deadline))
	defer timer.Stop()

	select {
	case err = <-done:
	case <-timer.C:
		_ = cmd.Process.Kill()
		<-done
		j.err = fmt.Errorf("out of time (inconclusive)")

		return
	}

	if err != nil {
		if fatalRe.Match(buf.Bytes()) {
			jd, jerr := os.ReadFile(j.out + ".journal")
			if jerr == nil {
				var r h.Replay
				if json.Unmarshal(jd, &r) == nil && len(r.Case) > 0 {
					j.crash = "process crashed: " + head(buf.String(), 3000)
					j.jcase = r.Case

					return
				}
			}
		}

		j.err = fmt.Errorf("shard failed: %w: %s", err, tail(buf.String(), 3000))

		return
	}

	b, err := os.ReadFile(j.out + ".result")
	if err != nil {
		j.err = err

		return
	}

	j.err = json.Unmarshal(b, &j.res)
}

type knownFinding struct {
	Property string          `json:"property"`
	Status   string          `json:"status"`
	What     string          `json:"what"`
	Facet    string          `json:"facet"`
	Case     json.RawMessage `json:"case"`
}

func loadKnown(dir, id string) ([]knownFinding, error) {
	data, err := os.ReadFile(filepath.Join(dir, "known_findings.jsonl"))
	if os.IsNotExist(err) {
		return nil, nil
	}

	if err != nil {
		return nil, err
	}

	var res []knownFinding

	for _, line := range strings.Split(string(data), "\n") {
		line = strings.TrimSpace(line)
		if line == "" || !strings.HasPrefix(line, "{") { // "fixed: ..." lines and comments suppress nothing
			continue
		}

		var k knownFinding
		if err := json.Unmarshal([]byte(line), &k); err != nil {
			return nil, fmt.Errorf("known_findings.jsonl: %w: %s", err, line)
		}

		if k.Property == id && k.Status == "known" {
			res = append(res, k)
		}
	}

	return res, nil
}

func replayCase(self, scratch, name string, k knownFinding) (int, string) {
	b, _ := json.Marshal(h.Replay{Property: k.Property, Facet: k.Facet, Case: k.Case})
	fn := filepath.Join(scratch, name+".json")

	if err := os.WriteFile(fn, b, 0o600); err != nil {
		return 2, err.Error()
	}

	out, err := exec.Command(self, "replay", fn).CombinedOutput()
	rc := exitCode(err)

	if rc != 0 && fatalRe.Match(out) {
		rc = 1
	}

	return rc, tail(string(out), 2000)
}

// shrinkCrash reduces a case that kills the process, by replaying reduced cases in subprocesses.
func shrinkCrash(self, scratch, id string, j *job) json.RawMessage {
	cur := j.jcase
	budget := 80
	stop := time.Now().Add(40 * time.Second)

	crashes := func(c json.RawMessage) bool {
		budget--

		b, _ := json.Marshal(h.Replay{Property: id, Facet: j.facet.Name, Case: c})
		fn := filepath.Join(scratch, "shrink.json")
		_ = os.WriteFile(fn, b, 0o600)
		out, err := exec.Command(self, "replay", fn).CombinedOutput()

		return err != nil && fatalRe.Match(out)
	}

	for again := true; again; {
		again = false

		var v interface{}
		if json.Unmarshal(cur, &v) != nil {
			return cur
		}

		for _, cand := range reductions(v) {
			if budget <= 0 || time.Now().After(stop) {
				return cur
			}

			b, err := json.Marshal(cand)
			if err != nil || len(b) >= len(cur) {
				continue
			}

			if crashes(b) {
				cur = b
				again = true

				break
			}
		}
	}

	return cur
}

func reductions(v interface{}) []interface{} {
	var res []interface{}

	switch x := v.(type) {
	case map[string]interface{}:
		for _, k := range h.SortedKeys(x) {
			for _, r := range reductions(x[k]) {
				m := map[string]interface{}{}
				for kk, vv := range x {
					m[kk] = vv
				}

				m[k] = r
				res = append(res, m)
			}
		}
	case []interface{}:
		for i := range x {
			res = append(res, append(append([]interface{}{}, x[:i]...), x[i+1:]...))
		}

		for i := range x {
			for _, r := range reductions(x[i]) {
				l := append([]interface{}{}, x...)
				l[i] = r
				res = append(res, l)
			}
		}
	}

	return res
}

func writeEvidence(dir string, p *h.Prop, tier string, seed uint64, jobs []*job, fuzzed []*fuzzRun, replayed, violations int, start time.Time) error {
	type facetCov struct {
		Facet      string         `json:"facet"`
		Rule       string         `json:"rule"`
		Cases      int            `json:"cases"`
		Nontrivial int            `json:"distinct_nontrivial_cases"`
		Classes    map[string]int `json:"classes"`
	}

	eval, nontrivial := 0, 0

	var (
		samples []interface{}
		rules   []string
		facets  []facetCov
	)

	for _, f := range p.Facets {
		fc := facetCov{Facet: f.Name, Rule: f.Rule, Classes: map[string]int{}}
		set := map[uint64]bool{}
		n := 0

		for _, j := range jobs {
			if j.facet != f {
				continue
			}

			fc.Cases += j.res.Evaluations

			for _, hsh := range j.res.NonTrivial {
				set[hsh] = true
			}

			for k, v := range j.res.Classes {
				fc.Classes[k] += v
			}

			for _, s := range j.res.Samples {
				if n < 3 {
					samples = append(samples, map[string]interface{}{"facet": f.Name, "case": s})
					n++
				}
			}
		}

		fc.Nontrivial = len(set)
		eval += fc.Cases
		nontrivial += fc.Nontrivial

		facets = append(facets, fc)
		rules = append(rules, f.Name+": "+f.Rule)
	}

	cov := map[string]interface{}{
		"evaluations":         eval,
		"distinct_nontrivial": nontrivial,
		"rule":                strings.Join(rules, " || "),
		"samples":             samples,
		"facets":              facets,
		"regression_replays":  replayed,
	}

	if len(fuzzed) > 0 {
		cov["coverage_guided"] = fuzzed

		for _, r := range fuzzed {
			cov["evaluations"] = cov["evaluations"].(int) + r.Cases
		}
	}

	ev := map[string]interface{}{
		"property":    p.ID,
		"tier":        tier,
		"seed":        seed,
		"level":       "exploration",
		"coverage":    cov,
		"assumptions": p.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
	}

	if p.Assumptions == nil {
		delete(ev, "assumptions")
	}

	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}

	if err := os.MkdirAll(filepath.Join(dir, "evidence"), 0o755); err != nil {
		return err
	}

	return os.WriteFile(filepath.Join(dir, "evidence", p.ID+".json"), append(b, '\n'), 0o600)
}

func tail(s string, n int) string {
	if len(s) <= n {
		return s
	}

	return "..." + s[len(s)-n:]
}

func head(s string, n int) string {
	if len(s) <= n {
		return s
	}

	return s[:n] + "..."
}
