// Package fuzz drives the facets of the properties with the coverage-guided fuzzer of the go command:
// the fuzzer mutates the stream of random bits that the generator of a facet reads, and keeps the
// streams whose cases reach new code. The thorough tier of a check uses it after the random search.
package fuzz

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verif/pbt/internal/h"
	_ "verif/pbt/internal/props"
)

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb

	return x ^ (x >> 31)
}

func stream(seed uint64, n int) []byte {
	b := make([]byte, 0, n*8)

	for i := 0; i < n; i++ {
		seed = splitmix(seed + uint64(i))
		b = binary.LittleEndian.AppendUint64(b, seed)
	}

	return b
}

type fatal interface {
	Fatalf(format string, args ...any)
}

// FuzzFacet fuzzes facet PBT_FUZZ=ID/FACET; failing cases go to the PBT_FUZZ_OUT directory.
func FuzzFacet(f *testing.F) {
	id, name, _ := strings.Cut(os.Getenv("PBT_FUZZ"), "/")
	raw := os.Getenv("PBT_FUZZ_RAW") != ""
	out := os.Getenv("PBT_FUZZ_OUT")
	seed, _ := strconv.ParseUint(os.Getenv("PBT_FUZZ_SEED"), 10, 64)

	p, ok := h.Props[id]
	if !ok {
		f.Skip("PBT_FUZZ is not set")
	}

	facet := p.Facet(name)
	if facet == nil {
		f.Fatal("unknown facet")
	}

	debug.SetMaxStack(256 << 20)

	go h.Watchdog()

	journal, err := os.OpenFile(filepath.Join(out, fmt.Sprintf("journal-%d", os.Getpid())), os.O_CREATE|os.O_RDWR, 0o600)
	if err != nil {
		f.Fatal(err)
	}

	report := func(kind string, r h.Replay) {
		b, _ := json.Marshal(r)
		_ = os.WriteFile(filepath.Join(out, fmt.Sprintf("%s-%06d-%016x.json", kind, len(b), h.Hash64(b))), b, 0o600)
	}

	run := func(t fatal, c interface{}) {
		data, err := json.Marshal(c)
		if err != nil {
			report("harness", h.Replay{Property: id, Facet: name, Failure: "marshal: " + err.Error()})
			t.Fatalf("harness")
		}

		h.WriteJournal(journal, id, name, data)
		h.CaseStarted()

		c, err = facet.Decode(data)
		if err != nil {
			report("harness", h.Replay{Property: id, Facet: name, Failure: "decode: " + err.Error(), Case: data})
			t.Fatalf("harness")
		}

		defer func() {
			if r := recover(); r != nil {
				if he, ok := r.(h.HarnessError); ok {
					report("harness", h.Replay{Property: id, Facet: name, Failure: he.Error(), Case: data})
				}

				panic(r)
			}
		}()

		if err := facet.RunCase(c, h.NewStats()); err != nil {
			report("fail", h.Replay{Property: id, Facet: name, Failure: err.Error(), Case: data})
			t.Fatalf("violation: %v", err)
		}
	}

	if raw {
		cases := rapid.Custom(facet.Gen)

		for i := 0; i < 400; i++ {
			if b := facet.ToRaw(cases.Example(int(seed>>1) + i)); b != nil {
				f.Add(b)
			}
		}

		f.Fuzz(func(t *testing.T, in []byte) {
			if len(in) <= 1<<16 {
				run(t, facet.FromRaw(in))
			}
		})

		return
	}

	for i := 0; i < 64; i++ {
		f.Add(stream(seed+uint64(i), 16<<(i%5)))
	}

	target := rapid.MakeFuzz(func(rt *rapid.T) { run(rt, facet.Gen(rt)) })

	f.Fuzz(func(t *testing.T, in []byte) {
		if len(in) > 1<<15 {
			return
		}

		// A stream that is used up continues with bits that depend on the stream only.
		n := (len(in) + 7) / 8 * 8
		buf := make([]byte, n, n+(1<<15))
		copy(buf, in)
		target(t, append(buf, stream(h.Hash64(in), 1<<12)...))
	})
}
