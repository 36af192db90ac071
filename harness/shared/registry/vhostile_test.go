package registry

import (
	"fmt"
	"reflect"

	"github.com/skycoin/skycoin/src/cipher/encoder"
)

// vHostile makes up an encoded registry that nobody would register
func vHostile(v *V) (b []byte, desc string) {
	names := []string{"A", "B", "C"}
	kinds := []reflect.Kind{reflect.Invalid, reflect.Bool, reflect.Int, reflect.Uint8, reflect.Int64,
		reflect.String, reflect.Struct, reflect.Slice, reflect.Array, reflect.Ptr, reflect.Interface, reflect.Map, 99}
	var schema func(depth int) []byte
	d := ""
	schema = func(depth int) []byte {
		var x encodedSchema
		x.Kind = uint32(kinds[v.R.Intn(len(kinds))])
		if v.R.Intn(2) == 0 {
			x.Kind = uint32([]reflect.Kind{reflect.Struct, reflect.Slice, reflect.Array}[v.R.Intn(3)])
		}
		if depth == 0 {
			x.Kind = uint32(reflect.Struct)
		}
		if v.R.Intn(5) == 0 {
			x.ReferenceType = uint32(v.R.Intn(6))
		}
		if depth > 0 && v.R.Intn(2) == 0 {
			x.Name = []byte(names[v.R.Intn(3)])
		}
		x.Len = []uint32{0, 1, 2, 3, 1000, 1<<32 - 1}[v.R.Intn(6)]
		d += fmt.Sprintf("{ref %d, %s, %q, %d", x.ReferenceType, reflect.Kind(x.Kind), x.Name, x.Len)
		if depth < 3 {
			if v.R.Intn(10) != 0 {
				d += ", elem "
				x.Elem = schema(depth + 1)
			}
			for i := v.R.Intn(3); reflect.Kind(x.Kind) == reflect.Struct && i > 0 && (depth == 0 || len(x.Name) == 0); i-- {
				d += ", field "
				x.Fields = append(x.Fields, encoder.Serialize(encodedField{[]byte("F"), nil, uint32(v.R.Intn(2)), schema(depth + 1)}))
			}
		}
		d += "}"
		return encoder.Serialize(x)
	}
	var ent registryEntities
	for i := 0; i < 1+v.R.Intn(3); i++ {
		e := registryEntity{Name: names[i]}
		d += e.Name + ": "
		e.Schema = schema(0)
		// the name
		var x encodedSchema
		encoder.DeserializeRaw(e.Schema, &x)
		if v.R.Intn(20) != 0 {
			x.Name = []byte(e.Name)
		}
		e.Schema = encoder.Serialize(x)
		d += "; "
		ent = append(ent, e)
	}
	return encoder.Serialize(ent), d
}

// vUse asks everything of a schema, and of what it's made of
func vUse(s Schema, seen map[Schema]bool) {
	if seen[s] {
		return
	}
	seen[s] = true
	_, _, _ = s.Reference(), s.IsReference(), s.ReferenceType()
	_, _, _, _, _ = s.HasReferences(), s.Kind(), s.Name(), s.Len(), s.IsRegistered()
	_, _, _ = s.RawName(), s.Encode(), s.String()
	for _, f := range s.Fields() {
		_, _, _, _, _, _, _ = f.Name(), f.RawName(), f.Kind(), f.Tag(), f.RawTag(), f.Encode(), f.String()
		vUse(f.Schema(), seen)
	}
	if k := s.Kind(); s.Elem() != nil {
		vUse(s.Elem(), seen)
	} else if (k == reflect.Slice || k == reflect.Array) && !s.IsReference() {
		panic("no schema of elements")
	}
}
