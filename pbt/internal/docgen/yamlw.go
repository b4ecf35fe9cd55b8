package docgen

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strings"
)

// YAML writes decoded JSON as block or flow YAML text in drawn styles. It is independent of the YAML library in use.
type yamlw struct {
	g       *G
	sb      strings.Builder
	anchors map[string]string // JSON text of a subtree to anchor name
	seen    map[string]int
	indent  int
	n       int
	block   bool // the last line belongs to a literal block
}

var plainSafe = regexp.MustCompile(`\A[A-Za-z][A-Za-z0-9_./-]*( [A-Za-z][A-Za-z0-9_./-]*)*\z`)

var notStrings = map[string]bool{
	"y": true, "n": true, "yes": true, "no": true, "on": true, "off": true, "true": true, "false": true, "null": true,
}

var (
	plainInt = regexp.MustCompile(`\A(0|-?[1-9][0-9]{0,8})\z`)
	// Fractional numbers in the form that is printed for them.
	plainFloat = regexp.MustCompile(`\A-?(0|[1-9][0-9]{0,5})\.[0-9]{0,4}[1-9]\z`)

	printable = regexp.MustCompile(`\A[\x20-\x7e]*\z`)
	block     = regexp.MustCompile(`\A[!-~][\x20-\x7e]*[!-~]?(\n[!-~][\x20-\x7e]*)*\n?\z`)
)

// YAMLText renders a decoded JSON value as YAML.
func YAMLText(g *G, v interface{}) string {
	w := &yamlw{g: g, anchors: map[string]string{}, seen: map[string]int{}, indent: g.Int(1, 4)}
	w.count(v)

	if g.P(20) {
		w.sb.WriteString("# comment: {not data}\n---\n")
	}

	w.node(v, 0, false, false)

	s := w.sb.String()
	if w.block || !strings.HasSuffix(s, "\n") && g.P(70) {
		s += "\n"
	}

	if strings.HasSuffix(s, "\n") && g.P(10) {
		s += "...\n"
	}

	return s
}

func (w *yamlw) count(v interface{}) {
	switch x := v.(type) {
	case M:
		if len(x) > 0 {
			b, _ := json.Marshal(x)
			w.seen[string(b)]++
		}

		for _, e := range x {
			w.count(e)
		}
	case A:
		if len(x) > 0 {
			b, _ := json.Marshal(x)
			w.seen[string(b)]++
		}

		for _, e := range x {
			w.count(e)
		}
	}
}

func (w *yamlw) nl(ind int) {
	if w.g.P(4) && !w.block {
		w.sb.WriteString(" # c")
	}

	w.block = false

	w.sb.WriteString("\n")

	if w.g.P(2) {
		w.sb.WriteString("\n")
	}

	w.sb.WriteString(strings.Repeat(" ", ind))
}

// node writes a value; inline is true when text precedes it on the line.
func (w *yamlw) node(v interface{}, ind int, inline, flow bool) {
	isColl := false

	switch x := v.(type) {
	case M:
		isColl = len(x) > 0
	case A:
		isColl = len(x) > 0
	}

	if isColl && inline {
		b, _ := json.Marshal(v)
		k := string(b)

		if name, ok := w.anchors[k]; ok && w.g.P(70) {
			w.sb.WriteString("*" + name + " ")

			return
		}

		if w.seen[k] > 1 && w.anchors[k] == "" && w.g.P(70) {
			w.n++

			name := fmt.Sprintf("anc%d", w.n)
			w.sb.WriteString("&" + name + " ")

			defer func() { w.anchors[k] = name }()
		}
	}

	if isColl && (flow || w.g.P(8)) {
		w.flow(v)

		return
	}

	switch x := v.(type) {
	case M:
		if len(x) == 0 {
			w.sb.WriteString("{}")

			return
		}

		for i, k := range w.keys(x) {
			if i > 0 || inline {
				w.nl(ind)
			}

			w.key(k)
			w.sb.WriteString(":")

			w.child(x[k], ind)
		}
	case A:
		if len(x) == 0 {
			w.sb.WriteString("[]")

			return
		}

		for i, e := range x {
			if i > 0 || inline {
				w.nl(ind)
			}

			w.sb.WriteString("-")
			w.child(e, ind)
		}
	default:
		w.scalar(v, ind, false)
	}
}

func (w *yamlw) child(v interface{}, ind int) {
	if v == nil && w.g.P(30) {
		return // An empty node is null.
	}

	w.sb.WriteString(" ")
	w.node(v, ind+w.indent, true, false)
}

func (w *yamlw) keys(m M) []string {
	ks := sortedKeys(m)

	if len(ks) > 1 && w.g.P(40) {
		i := w.g.Int(0, len(ks)-1)
		ks = append(append([]string{}, ks[i:]...), ks[:i]...)
	}

	return ks
}

func (w *yamlw) key(k string) {
	// Keys that are not strings in YAML stand for their text.
	if (plainInt.MatchString(k) || plainFloat.MatchString(k) || k == "true" || k == "false") && w.g.P(80) {
		w.sb.WriteString(k)

		return
	}

	w.str(k)
}

func (w *yamlw) str(s string) {
	switch {
	case plainSafe.MatchString(s) && !notStrings[strings.ToLower(s)] && w.g.P(80):
		w.sb.WriteString(s)
	case printable.MatchString(s) && w.g.P(50):
		w.sb.WriteString("'" + strings.ReplaceAll(s, "'", "''") + "'")
	default:
		w.quoted(s)
	}
}

func (w *yamlw) quoted(s string) {
	w.sb.WriteString(`"`)

	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			w.sb.WriteString(`\` + string(r))
		case r == '\n':
			w.sb.WriteString(`\n`)
		case r == '\t':
			w.sb.WriteString(`\t`)
		case r >= 0x20 && r < 0x7f:
			w.sb.WriteRune(r)
		case r <= 0xff:
			fmt.Fprintf(&w.sb, `\x%02x`, r)
		case r > 0xffff:
			fmt.Fprintf(&w.sb, `\U%08x`, r)
		case r > 0xa0 && r < 0x2000 && w.g.P(50):
			w.sb.WriteRune(r)
		default:
			fmt.Fprintf(&w.sb, `\u%04x`, r)
		}
	}

	w.sb.WriteString(`"`)
}

func (w *yamlw) scalar(v interface{}, ind int, flow bool) {
	switch x := v.(type) {
	case nil:
		w.sb.WriteString(Pick(w.g, []string{"null", "~", "Null", "NULL"}))
	case bool:
		if x {
			w.sb.WriteString(Pick(w.g, []string{"true", "True", "TRUE", "yes", "on"}))
		} else {
			w.sb.WriteString(Pick(w.g, []string{"false", "False", "no", "off"}))
		}
	case json.Number:
		w.sb.WriteString(string(x))
	case string:
		if !flow && ind > 0 && block.MatchString(x) && strings.Contains(x, "\n") && w.g.P(60) {
			if strings.HasSuffix(x, "\n") {
				w.sb.WriteString("|")
			} else {
				w.sb.WriteString("|-")
			}

			for _, l := range strings.Split(strings.TrimSuffix(x, "\n"), "\n") {
				w.sb.WriteString("\n" + strings.Repeat(" ", ind) + l)
			}

			w.block = true

			return
		}

		w.str(x)
	}
}

func (w *yamlw) flow(v interface{}) {
	switch x := v.(type) {
	case M:
		w.sb.WriteString("{")

		for i, k := range w.keys(x) {
			if i > 0 {
				w.sb.WriteString(", ")
			}

			w.key(k)
			w.sb.WriteString(": ")
			w.flow(x[k])
		}

		w.sb.WriteString("}")
	case A:
		w.sb.WriteString("[")

		for i, e := range x {
			if i > 0 {
				w.sb.WriteString(", ")
			}

			w.flow(e)
		}

		w.sb.WriteString("]")
	default:
		w.scalar(v, 0, true)
	}
}
