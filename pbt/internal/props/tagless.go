package props

import (
	"fmt"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
	"verif/pbt/internal/tgen"
)

// taglessType makes a type without named types, as those have fields of their own.
func (g *opGen) taglessType(depth int) (tgen.T, string) {
	switch drawInt(g.t, 0, 8) {
	case 0:
		e, _ := g.taglessType(depth - 1)

		return tgen.Of("slice", e), g.constraints("slice")
	case 1:
		e, _ := g.taglessType(depth - 1)

		return tgen.Of("map", e), g.constraints("map")
	case 2:
		k := g.scalar()

		return tgen.Of("ptr", tgen.Basic(k)), g.constraints(k)
	case 3, 4:
		if depth > 0 {
			return tgen.T{K: "struct", F: g.taglessFields(depth - 1)}, ""
		}
	}

	k := g.scalar()

	return tgen.Basic(k), g.constraints(k)
}

// taglessFields makes fields, some of which have the name of the field as JSON name.
func (g *opGen) taglessFields(depth int) []tgen.F {
	var res []tgen.F

	for i := drawInt(g.t, 1, 4); i > 0; i-- {
		f := tgen.F{N: fmt.Sprintf("F%d", g.next())}
		f.T, f.Tag = g.taglessType(depth)

		name := f.N
		if g.w(35) {
			name = pick(g.t, []string{"n", "snake_", "UP"}) + f.N

			if g.w(30) {
				name += ",omitempty"
			}
		}

		f.Tag = fmt.Sprintf("json:%q", name) + f.Tag + g.common()
		res = append(res, f)
	}

	return res
}

// untag removes JSON names that are the names of fields.
func untag(t tgen.T) (tgen.T, int) {
	n := 0

	if t.E != nil {
		e, k := untag(*t.E)
		t.E, n = &e, k
	}

	fields := make([]tgen.F, len(t.F))

	for i, f := range t.F {
		ft, k := untag(f.T)
		f.T = ft
		n += k

		if name := fmt.Sprintf("json:%q", f.N); strings.HasPrefix(f.Tag, name) {
			f.Tag = strings.TrimPrefix(f.Tag[len(name):], " ")
			n++
		}

		fields[i] = f
	}

	if t.F != nil {
		t.F = fields
	}

	return t, n
}

func untagUnits(l []unitDesc) ([]unitDesc, int) {
	res, n := make([]unitDesc, len(l)), 0

	for i, u := range l {
		var k int

		u.T, k = untag(u.T)
		n += k
		res[i] = u
	}

	return res, n
}

// genTagless makes an operation with structures of JSON members and parameters.
func genTagless(resp bool) func(t *rapid.T) opCase {
	return func(t *rapid.T) opCase {
		g := newOpGen(t)
		c := opCase{Is31: rapid.Bool().Draw(t, "is31"), Fmts: chance(t, 20)}
		o := &c.Op
		o.Method = pick(t, []string{"post", "put", "patch", "post", "get", "delete"})

		unit := func(loc string) unitDesc {
			u := unitDesc{T: tgen.T{K: "struct", F: g.taglessFields(2)}}

			for i := pick(t, []int{0, 0, 1, 2}); i > 0; i-- {
				k := g.next()
				l := loc

				if !resp {
					l = pick(t, []string{"query", "path", "header", "cookie"})
				}

				u.T.F = append(u.T.F, tgen.F{N: fmt.Sprintf("P%d", k), T: tgen.Basic(g.scalar()), Tag: fmt.Sprintf(`%s:"p%d" json:"-"`, l, k)})
			}

			if chance(t, 15) {
				u.T = tgen.Of("slice", u.T)
			}

			u.Form = pick(t, []string{"val", "ptr", "nilptr"})

			return u
		}

		if resp {
			for i := drawInt(t, 1, 3); i > 0; i-- {
				u := unit("header")
				u.Status = pick(t, statuses)
				o.Resp = append(o.Resp, u)
			}
		} else {
			for i := pick(t, []int{1, 1, 1, 2}); i > 0; i-- {
				u := unit("")
				if chance(t, 20) {
					u.CT = mJSON
				}

				o.Req = append(o.Req, u)
			}
		}

		o.tidy()
		o.Path = pathOf("/a", o.Req)

		return c
	}
}

// runTagless compares fields without tags under the option that processes them with tags that say the same.
func runTagless(c opCase, st *h.Stats) error {
	tagged, plain := newReflector(c.Is31, c.Fmts), newReflector(c.Is31, c.Fmts)

	jr := plain.JSONSchemaReflector()
	jr.DefaultOptions = append(jr.DefaultOptions, jsonschema.ProcessWithoutTags)

	o := c.Op
	n, k := 0, 0
	o.Req, n = untagUnits(o.Req)
	o.Resp, k = untagUnits(o.Resp)

	for _, x := range []struct {
		r openapi.Reflector
		o opDesc
	}{{tagged, c.Op}, {plain, o}} {
		if err := x.o.register(x.r); err != nil {
			return fmt.Errorf("operation is rejected: %w", err)
		}
	}

	st.NonTrivialIf(n+k > 0)
	st.ClassIf(c.Is31, "3.1")

	return diffErr("fields without tags are documented differently (first with tags, second without)", docOf(tagged), docOf(plain))
}
