package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"

	"pgregory.net/rapid"
	"verif/pbt/internal/docgen"
	"verif/pbt/internal/h"
	"verif/pbt/internal/jsv"
)

type edit struct {
	Op    string          `json:"op"` // set, remove
	Kind  string          `json:"kind"`
	Path  []string        `json:"path"`
	Value json.RawMessage `json:"value,omitempty"`
	Save  bool            `json:"save,omitempty"` // save after the edit
}

type editCase struct {
	V31   bool            `json:"v31"`
	Ent   string          `json:"ent"`
	Doc   json.RawMessage `json:"doc"`
	Edits []edit          `json:"edits"`
}

// genEdit draws an edit that is possible in the document.
func genEdit(t *rapid.T, v *version, g *docgen.G, ty *docgen.Ty, d interface{}) (edit, bool) {
	type cand struct {
		kind string
		path []string
		ty   *docgen.Ty
		ext  bool
	}

	byKind := map[string][]cand{}
	add := func(c cand) { byKind[c.kind] = append(byKind[c.kind], c) }

	v.Gr.Walk(ty, d, func(s docgen.Site) {
		secType := s.Owner != nil && s.Key == "type" && (s.Owner.Field("type") != nil && s.Owner.Field("type").Req)

		if s.Owner != nil && s.Owner.Name == "Header" && s.Key == "style" {
			return // A constant that has no place in memory.
		}

		// Replacement and removal of what is present.
		if len(s.Path) > 0 && !secType {
			switch {
			case s.Ty != nil:
				kind := "replace"
				if s.Ty.Kind == docgen.KOrRef {
					kind = "replace-union"
				}

				if s.Ty.Kind == docgen.KList || s.Ty.Kind == docgen.KMap {
					kind = "replace-collection"
				}

				add(cand{kind: kind, path: s.Path, ty: s.Ty})

				switch {
				case s.Owner == nil:
					add(cand{kind: "remove-item", path: s.Path})
				case !s.Req:
					add(cand{kind: "clear", path: s.Path})
				}
			case s.Owner != nil && (s.Key == "zzz" || len(s.Key) >= 2 && s.Key[:2] == "x-"):
				add(cand{kind: "replace-extension", path: s.Path, ext: true})
				add(cand{kind: "remove-extension", path: s.Path})
			}
		}

		// Additions.
		if s.Ent != nil {
			m, _ := s.Value.(map[string]interface{})

			for i := range s.Ent.Fields {
				f := &s.Ent.Fields[i]

				if other := map[string]string{"schema": "content", "content": "schema"}[f.K]; other != "" && (s.Ent.Name == "Header" || s.Ent.Name == "Parameter") {
					if _, ok := m[other]; ok {
						continue // Only one of them is valid.
					}
				}

				if _, ok := m[f.K]; !ok && !(s.Ent.Name == "Header" && f.K == "style") {
					add(cand{kind: "add-member", path: sub(s.Path, f.K), ty: f.T})
				}
			}

			if s.Ent.Ext {
				add(cand{kind: "add-extension", path: sub(s.Path, pick(t, []string{"x-new", "x-", "x-a"})), ext: true})
			}

			if s.Ent.PatT != nil {
				add(cand{kind: "add-item", path: sub(s.Path, docgen.PatKeyOf(g, s.Ent.Pat)), ty: s.Ent.PatT})
			}
		}

		if s.Ty != nil && s.Ty.Kind == docgen.KMap {
			if _, ok := s.Value.(map[string]interface{}); ok {
				add(cand{kind: "add-item", path: sub(s.Path, docgen.PatKeyOf(g, s.Ty.MapKeys)), ty: s.Ty.Elem})
			}
		}

		if l, ok := s.Value.([]interface{}); ok && s.Ty != nil && s.Ty.Kind == docgen.KList {
			add(cand{kind: "append", path: sub(s.Path, strconv.Itoa(len(l))), ty: s.Ty.Elem})
		}
	})

	if len(byKind) == 0 {
		return edit{}, false
	}

	c := pick(t, byKind[pick(t, h.SortedKeys(byKind))])
	e := edit{Op: "set", Kind: c.kind, Path: c.path, Save: chance(t, 50)}

	switch {
	case c.path[len(c.path)-1] == "style" && c.ty != nil && c.ty.Kind == docgen.KStr:
		e.Value = rawJSON(pick(t, []string{"form", "simple", "matrix", "label", "deepObject", "pipeDelimited", "spaceDelimited"}))
	case c.ext:
		e.Value = rawJSON(g.Any(2))
	case c.ty != nil:
		e.Value = rawJSON(v.Gr.ValTop(g, c.ty, 3))
	default:
		e.Op = "remove"
	}

	return e, true
}

func rawJSON(v interface{}) json.RawMessage {
	b, err := json.Marshal(v)
	h.Must(err, "marshal")

	return b
}

func sub(path []string, k string) []string {
	return append(append(make([]string, 0, len(path)+1), path...), k)
}

// applyModel applies the edit to JSON data.
func (e edit) applyModel(d interface{}) interface{} {
	if e.Op == "remove" {
		return docgen.Delete(d, e.Path)
	}

	nv, err := jsv.Parse(e.Value)
	h.Must(err, "parse edit")

	if p, ok := docgen.At(d, e.Path[:len(e.Path)-1]); !ok {
		// An empty collection is not saved.
		var c interface{} = map[string]interface{}{e.Path[len(e.Path)-1]: nv}
		if e.Kind == "append" {
			c = []interface{}{nv}
		}

		return docgen.Set(d, e.Path[:len(e.Path)-1], c)
	} else {
		if l, ok := p.([]interface{}); ok && e.Path[len(e.Path)-1] == strconv.Itoa(len(l)) {
			return docgen.Set(d, e.Path[:len(e.Path)-1], append(append([]interface{}{}, l...), nv))
		}
	}

	return docgen.Set(d, e.Path, nv)
}

// applyGo applies the edit to the Go value.
func (e edit) applyGo(v reflect.Value) error {
	op := slotOp(removeSlot)
	if e.Op == "set" {
		op = setJSON(e.Value)
	}

	_, err := editAt(v, e.Path, op)

	return err
}

// dropConstStyle removes the constant style of headers that got content by an edit.
func dropConstStyle(gr *docgen.Grammar, ty *docgen.Ty, d interface{}) interface{} {
	gr.Walk(ty, d, func(s docgen.Site) {
		if s.Ent != nil && s.Ent.Name == "Header" {
			m := s.Value.(map[string]interface{})
			if c, ok := m["content"].(map[string]interface{}); ok && len(c) > 0 {
				delete(m, "style")
			}
		}
	})

	return d
}

func init() {
	p := h.Register("C05", "Editing a loaded document and saving it reflects exactly the edit",
		"An edit assigns the exported Go member that holds a JSON member; new values are decoded from JSON.")

	h.Add(p, "edit", "a generated 3.0 or 3.1 document or entity is loaded, one to five edits (replace, clear, add a member, item, element or extension, remove an item, switch between value and reference) are applied to the Go value and to the JSON data, with or without saving in between; non-trivial when all edits apply", 120000, 2500000,
		func(t *rapid.T) editCase {
			c := editCase{V31: chance(t, 50)}
			v := ver(c.V31)
			dc := genDoc(t, v, 40)
			c.Ent, c.Doc = dc.Ent, dc.Doc

			d, err := jsv.Parse(c.Doc)
			h.Must(err, "parse")

			g := &docgen.G{T: t, Empty: chance(t, 30), V31: c.V31}
			ty := docgen.EntTy(c.Ent)

			for n := drawInt(t, 1, 5); n > 0; n-- {
				e, ok := genEdit(t, v, g, ty, d)
				if !ok {
					break
				}

				c.Edits = append(c.Edits, e)
				d = e.applyModel(d)
			}

			return c
		},
		func(c editCase, st *h.Stats) error {
			v := ver(c.V31)
			ty := docgen.EntTy(c.Ent)

			load := func() (interface{}, error) {
				buf := append([]byte{}, c.Doc...)
				e := v.Ents[c.Ent]()

				if err := e.(json.Unmarshaler).UnmarshalJSON(buf); err != nil {
					return nil, fmt.Errorf("loading fails: %w", err)
				}

				for i := range buf {
					buf[i] = '#' // The entity must not keep the input.
				}

				return e, nil
			}

			e1, err := load()
			if err != nil {
				return err
			}

			e2, err := load() // Edited in the same way, saved only in the end.
			if err != nil {
				return err
			}

			e3, err := load() // Not edited.
			if err != nil {
				return err
			}

			base, err := json.Marshal(e1)
			if err != nil {
				return fmt.Errorf("saving fails: %w", err)
			}

			want, err := jsv.Parse(base)
			if err != nil {
				return err
			}

			st.Class(c.Ent)

			for i, e := range c.Edits {
				if err := e.applyGo(reflect.ValueOf(e1).Elem()); err != nil {
					return fmt.Errorf("edit %d (%s at %q): %w", i, e.Kind, e.Path, err)
				}

				if err := e.applyGo(reflect.ValueOf(e2).Elem()); err != nil {
					return fmt.Errorf("edit %d (%s at %q): %w", i, e.Kind, e.Path, err)
				}

				want = dropConstStyle(v.Gr, ty, e.applyModel(want))

				st.Class("edit:" + e.Kind)

				if !e.Save && i < len(c.Edits)-1 {
					continue
				}

				out, err := json.Marshal(e1)
				if err != nil {
					return fmt.Errorf("saving after %s at %q fails: %w", e.Kind, e.Path, err)
				}

				if err := docgen.DupKeys(out); err != nil {
					return fmt.Errorf("after %s at %q: %w in %s", e.Kind, e.Path, err, cut(string(out)))
				}

				got, err := jsv.Parse(out)
				if err != nil {
					return err
				}

				if err := diffErr(fmt.Sprintf("after %s at %q", e.Kind, e.Path), v.Gr.Canon(ty, want), v.Gr.Canon(ty, got)); err != nil {
					return err
				}

				want = got
			}

			st.NonTrivialIf(len(c.Edits) > 0)

			o1, err := json.Marshal(e1)
			if err != nil {
				return err
			}

			if !reflect.DeepEqual(e1, e2) {
				return fmt.Errorf("saving changes the value in memory: %#v and %#v", e1, e2)
			}

			for i := 0; i < 2; i++ {
				o2, err := json.Marshal(e2)
				if err != nil {
					return err
				}

				if !bytes.Equal(o1, o2) {
					return fmt.Errorf("saving is not deterministic: %s and %s", cut(string(o1)), cut(string(o2)))
				}
			}

			o3, err := json.Marshal(e3)
			if err != nil {
				return err
			}

			if !bytes.Equal(base, o3) {
				return fmt.Errorf("another value loaded from the same data has changed: %s to %s", cut(string(base)), cut(string(o3)))
			}

			return nil
		})
}
