package props

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"
)

var anyType = reflect.TypeOf((*interface{})(nil)).Elem()

// slotOp changes a Go value that holds a JSON member; it tells if the member has to be removed.
type slotOp func(slot reflect.Value) (remove bool, err error)

// setJSON replaces a value by one decoded from JSON.
func setJSON(data []byte) slotOp {
	return func(slot reflect.Value) (bool, error) {
		if slot.Kind() == reflect.Ptr && slot.Type().Elem() == anyType {
			var v interface{}
			if err := json.Unmarshal(data, &v); err != nil {
				return false, err
			}

			slot.Set(reflect.ValueOf(&v))

			return false, nil
		}

		n := reflect.New(slot.Type())
		if err := json.Unmarshal(data, n.Interface()); err != nil {
			return false, err
		}

		slot.Set(n.Elem())

		return false, nil
	}
}

func removeSlot(reflect.Value) (bool, error) { return true, nil }

// editAt applies an operation to the member of an entity that is saved at a JSON path.
func editAt(v reflect.Value, path []string, op slotOp) (bool, error) {
	if len(path) == 0 {
		return op(v)
	}

	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			v.Set(reflect.New(v.Type().Elem()))
		}

		rm, err := editAt(v.Elem(), path, op)

		return rm, err
	case reflect.Struct:
		return editStruct(v, path, op)
	case reflect.Map:
		if v.IsNil() {
			v.Set(reflect.MakeMap(v.Type()))
		}

		k := reflect.ValueOf(path[0]).Convert(v.Type().Key())
		e := reflect.New(v.Type().Elem()).Elem()

		if cur := v.MapIndex(k); cur.IsValid() {
			e.Set(cur)
		}

		rm, err := editAt(e, path[1:], op)
		if err != nil {
			return false, err
		}

		if rm {
			v.SetMapIndex(k, reflect.Value{})
		} else {
			v.SetMapIndex(k, e)
		}

		return false, nil
	case reflect.Slice:
		i, err := strconv.Atoi(path[0])
		if err != nil || i < 0 || i > v.Len() {
			return false, fmt.Errorf("bad index %q", path[0])
		}

		if i == v.Len() {
			v.Set(reflect.Append(v, reflect.Zero(v.Type().Elem())))
		}

		rm, err := editAt(v.Index(i), path[1:], op)
		if err != nil {
			return false, err
		}

		if rm {
			n := reflect.MakeSlice(v.Type(), 0, v.Len())
			n = reflect.AppendSlice(n, v.Slice(0, i))
			n = reflect.AppendSlice(n, v.Slice(i+1, v.Len()))
			v.Set(n)
		}

		return false, nil
	}

	return false, fmt.Errorf("can not step into %s at %q", v.Type(), path)
}

func jsonTag(f reflect.StructField) string {
	return strings.Split(f.Tag.Get("json"), ",")[0]
}

func editField(f reflect.Value, rest []string, op slotOp) (bool, error) {
	rm, err := editAt(f, rest, op)
	if err == nil && rm {
		f.Set(reflect.Zero(f.Type()))
	}

	return false, err
}

func editStruct(v reflect.Value, path []string, op slotOp) (bool, error) {
	var (
		t      = v.Type()
		maps   = map[string]reflect.Value{}
		unions []reflect.Value
	)

	for i := 0; i < t.NumField(); i++ {
		f := v.Field(i)

		switch tag := jsonTag(t.Field(i)); {
		case tag == path[0] && tag != "-":
			return editField(f, path[1:], op)
		case tag != "-":
		case f.Kind() == reflect.Map:
			maps[t.Field(i).Name] = f
		case f.Kind() == reflect.Ptr && !f.IsNil():
			unions = append(unions, f)
		}
	}

	if any, ok := maps["MapOfAnything"]; ok && strings.HasPrefix(path[0], "x-") {
		return editAt(any, path, op)
	}

	delete(maps, "MapOfAnything")

	for _, m := range maps {
		return editAt(m, path, op)
	}

	for _, u := range unions {
		rm, err := editAt(u, path, op)
		if err == nil {
			return rm, nil
		}
	}

	return false, fmt.Errorf("%s has no place for %q", t, path[0])
}
