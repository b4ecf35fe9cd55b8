package props

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"pgregory.net/rapid"
	"verif/pbt/internal/jsv"
)

// Short constructors for generators.

func drawInt(t *rapid.T, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, "i") }

var percent = rapid.IntRange(0, 99)

// chance is true with about p percent and shrinks to false.
func chance(t *rapid.T, p int) bool { return percent.Draw(t, "p") >= 100-p }

func pick[T any](t *rapid.T, l []T) T { return l[drawInt(t, 0, len(l)-1)] }

func js(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("<unmarshalable: %v>", err)
	}

	return string(b)
}

func cut(s string) string {
	if len(s) > 2500 {
		return s[:2500] + "..."
	}

	return s
}

func eqStr(what string, want, got interface{}) error {
	if !reflect.DeepEqual(want, got) {
		return fmt.Errorf("%s: want %#v, got %#v", what, want, got)
	}

	return nil
}

func diffErr(what string, want, got interface{}) error {
	if d := jsv.Diff(want, got); d != "" {
		return fmt.Errorf("%s: %s\nwant: %s\ngot:  %s", what, d, cut(js(want)), cut(js(got)))
	}

	return nil
}

func joinErr(parts ...string) string { return strings.Join(parts, "\n") }
