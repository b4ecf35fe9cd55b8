package props

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/swaggest/openapi-go"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

type pathSeg struct {
	Lit  string `json:"lit,omitempty"`
	Name string `json:"name,omitempty"`
	Re   string `json:"re,omitempty"`
}

type c07case struct {
	Method string    `json:"method"`
	Segs   []pathSeg `json:"segs"`
}

func (c c07case) pattern() (pattern, clean string, names []string) {
	for _, s := range c.Segs {
		pattern += s.Lit
		clean += s.Lit

		if s.Name == "" {
			continue
		}

		names = append(names, s.Name)
		clean += "{" + s.Name + "}"

		if s.Re != "" {
			pattern += "{" + s.Name + ":" + s.Re + "}"
		} else {
			pattern += "{" + s.Name + "}"
		}
	}

	return pattern, clean, names
}

var httpMethods = []string{"get", "put", "post", "delete", "options", "head", "patch", "trace"}

func isHTTPMethod(m string) bool {
	for _, x := range httpMethods {
		if x == m {
			return true
		}
	}

	return false
}

func genMethodSpelling(t *rapid.T, m string) string {
	switch drawInt(t, 0, 3) {
	case 0:
		return m
	case 1:
		return strings.ToUpper(m)
	case 2:
		return strings.ToUpper(m[:1]) + m[1:]
	}

	b := []byte(m)
	for i := range b {
		if chance(t, 50) {
			b[i] -= 'a' - 'A'
		}
	}

	return string(b)
}

func genBadMethod(t *rapid.T) string {
	if chance(t, 70) {
		return pick(t, []string{"", "connect", "CONNECT", "gett", " get", "get ", "ge", "link", "$ref", "parameters", "servers", "query", "pos", "x-get", "summary", "*", "get,post", "GET\n", "ſet", "paſch"})
	}

	s := rapid.StringN(0, 6, 20).Draw(t, "m")
	if isHTTPMethod(strings.ToLower(s)) {
		return "connect"
	}

	return s
}

var (
	litWords = []string{"/", "/a", "/users/", ".json", "-", ":", ":action", "/v1.0/", "~", "%20", "/é", "*", "$1", "$", "\\", "/x:y", "id", "a:b", "[0-9]+", "(x)", "/ ", ",", "=", "^", "/./"}
	phNames  = []string{"id", "a", "b", "user_id", "user-id", "userId", "a.b", "id2", "é", "a b", "$1", "*", "$", "a|b", "[x]", " id", "id ", " ", "\tid", "ID", "a,b", "a/b", "\u00a0x", "?", "id*"}
	reAtoms  = []string{"[0-9]+", "\\d+", "[a-z]{2}", "[a-z]{1,3}", ".*", "a|b", "(?:x|y){2}", ":", "[^/]+", "\\d{4}-\\d{2}", "$", "$1", "x", "(?i:a)", "[:alpha:]", "{1}", "/",
		"\\p{L}+", "\\pN", "[\\p{Greek}]{2,}", "\\x{1F600}", "{}", "{a}", "{id}", "{x:y}", "[{,}]", "é", "{\n}", " ",
	}
)

func genSeg(t *rapid.T) pathSeg {
	s := pathSeg{}

	if chance(t, 75) {
		s.Lit = pick(t, litWords)
		if chance(t, 30) {
			s.Lit += strings.Map(func(r rune) rune {
				if r == '{' || r == '}' {
					return -1
				}

				return r
			}, rapid.StringN(0, 4, 12).Draw(t, "lit"))
		}
	}

	if chance(t, 70) {
		s.Name = pick(t, phNames)

		if chance(t, 60) {
			s.Re = pick(t, reAtoms)
			if chance(t, 40) {
				s.Re += pick(t, reAtoms)
			}

			if chance(t, 20) { // Any text, any text in balanced braces.
				noBraces := func() string {
					return strings.Map(func(r rune) rune {
						if r == '{' || r == '}' {
							return -1
						}

						return r
					}, rapid.StringN(0, 4, 12).Draw(t, "re"))
				}

				s.Re += noBraces()
				if chance(t, 50) {
					s.Re += "{" + noBraces() + "}"
				}
			}
		}
	}

	return s
}

func init() {
	p := h.Register("C07", "Method and path patterns are validated and cleaned correctly",
		"Placeholder names have no ':', '{' or '}' and literals have no braces, as in the routers whose syntax is accepted; a regexp's braces are balanced and nested at most once inside the placeholder, as in a regular expression quantifier.")

	h.Add(p, "sanitize", "pattern assembled from literals and {name} or {name:regexp} placeholders; non-trivial when there are at least two placeholders or one with a regexp", 160000, 3000000,
		func(t *rapid.T) c07case {
			c := c07case{}
			if chance(t, 15) {
				c.Method = genBadMethod(t)
			} else {
				c.Method = genMethodSpelling(t, pick(t, httpMethods))
			}

			for i := drawInt(t, 0, 6); i > 0; i-- {
				c.Segs = append(c.Segs, genSeg(t))
			}

			return c
		},
		func(c c07case, st *h.Stats) error {
			pattern, clean, names := c.pattern()
			re := false

			for _, s := range c.Segs {
				re = re || s.Re != ""
				st.ClassIf(strings.Contains(s.Re, "{"), "brace-in-regexp")
				st.ClassIf(strings.Contains(s.Re, ":"), "colon-in-regexp")
			}

			st.ClassIf(re, "regexp")
			st.ClassIf(len(names) == 0, "no-placeholder")
			st.NonTrivialIf(len(names) > 1 || re)

			m, cp, pp, err := openapi.SanitizeMethodPath(c.Method, pattern)
			valid := isHTTPMethod(asciiLower(c.Method))
			st.ClassIf(!valid, "bad-method")

			if !valid {
				if err == nil {
					return fmt.Errorf("method %q accepted as %q", c.Method, m)
				}

				return nil
			}

			if err != nil {
				return fmt.Errorf("method %q rejected: %w", c.Method, err)
			}

			if m != asciiLower(c.Method) {
				return fmt.Errorf("method %q reported as %q", c.Method, m)
			}

			if cp != clean {
				return fmt.Errorf("pattern %q: clean path want %q, got %q", pattern, clean, cp)
			}

			if len(names) != len(pp) || (len(names) > 0 && !reflect.DeepEqual(names, pp)) {
				return fmt.Errorf("pattern %q: names want %q, got %q", pattern, names, pp)
			}

			_, cp2, pp2, err := openapi.SanitizeMethodPath(strings.ToUpper(m), cp)
			if err != nil {
				return fmt.Errorf("cleaning %q again: %w", cp, err)
			}

			if cp2 != cp || !reflect.DeepEqual(pp2, pp) {
				return fmt.Errorf("cleaning %q again gives %q %q", cp, cp2, pp2)
			}

			return nil
		})
}

func asciiLower(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 'a' - 'A'
		}
	}

	return string(b)
}
