package props

import (
	"fmt"

	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

func registerLossless(id, title string, v *version) {
	p := h.Register(id, title,
		"The validity of generated documents is established by the official JSON schema of the version, evaluated by the bundled validator.",
		"Empty optional lists and maps are equal in meaning to absent ones, except an operation's security; numbers are exactly representable as doubles.")

	h.Add(p, "roundtrip", "a whole document (45%) or one entity generated from a grammar of the specification and confirmed valid by the official schema; non-trivial when it has more than 5 members", 200000, 4000000,
		func(t *rapid.T) docCase { return genDoc(t, v, 45) },
		func(c docCase, st *h.Stats) error {
			d := classifyDoc(v, c, st)
			st.NonTrivialIf(sizeOf(d) > 5)

			if err := v.validate(c.Ent, d); err != nil {
				panic(h.HarnessError{Msg: fmt.Sprintf("generated %s is not valid: %v", c.Ent, err)})
			}

			return checkLossless(v, c)
		})
}

func init() {
	registerLossless("C01", "OpenAPI 3.0 documents survive a load/save cycle without loss", v30)
	registerLossless("C02", "OpenAPI 3.1 documents survive a load/save cycle without loss", v31)
}
