package registry

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
	"github.com/skycoin/skycoin/src/cipher/encoder"
)

// vSame tells how two schemas differ
func vSame(a, b Schema, seen map[[2]Schema]bool) string {
	if seen[[2]Schema{a, b}] {
		return ""
	}
	seen[[2]Schema{a, b}] = true
	if (a == nil) != (b == nil) {
		return "one is missing"
	}
	switch {
	case a.Reference() != b.Reference():
		return fmt.Sprintf("%s: reference %s and %s", a, a.Reference(), b.Reference())
	case a.Kind() != b.Kind() || a.Name() != b.Name() || a.Len() != b.Len() || !bytes.Equal(a.RawName(), b.RawName()):
		return fmt.Sprintf("%s %s %d and %s %s %d", a.Kind(), a.Name(), a.Len(), b.Kind(), b.Name(), b.Len())
	case a.IsReference() != b.IsReference() || a.ReferenceType() != b.ReferenceType() || a.HasReferences() != b.HasReferences() || a.IsRegistered() != b.IsRegistered():
		return fmt.Sprintf("%s: reference %t %d, has %t, registered %t, and %t %d %t %t", a, a.IsReference(), a.ReferenceType(), a.HasReferences(), a.IsRegistered(), b.IsReference(), b.ReferenceType(), b.HasReferences(), b.IsRegistered())
	case !bytes.Equal(a.Encode(), b.Encode()):
		return fmt.Sprintf("%s: other encodings", a)
	case a.String() != b.String():
		return fmt.Sprintf("%s and %s", a, b)
	case len(a.Fields()) != len(b.Fields()):
		return fmt.Sprintf("%s: %d and %d fields", a, len(a.Fields()), len(b.Fields()))
	}
	for i, f := range a.Fields() {
		g := b.Fields()[i]
		if f.Name() != g.Name() || f.Tag() != g.Tag() || f.Kind() != g.Kind() || f.String() != g.String() || !bytes.Equal(f.Encode(), g.Encode()) {
			return fmt.Sprintf("field %d of %s: %s and %s", i, a, f, g)
		}
		if s := vSame(f.Schema(), g.Schema(), seen); s != "" {
			return s
		}
	}
	if (a.Elem() == nil) != (b.Elem() == nil) {
		return fmt.Sprintf("%s: one has no element", a)
	}
	if a.Elem() != nil {
		return vSame(a.Elem(), b.Elem(), seen)
	}
	return ""
}

// vMatches tells how a schema differs from the type it was made from
func vMatches(s Schema, t reflect.Type, tag reflect.StructTag, ts []vNamed) string {
	named := ""
	for _, n := range ts {
		if n.typ == t {
			named = n.name
		}
	}
	switch t {
	case typeOfRef, typeOfRefs:
		want := ReferenceTypeSingle
		if t == typeOfRefs {
			want = ReferenceTypeSlice
		}
		name, _ := TagSchemaName(tag)
		if !s.IsReference() || s.ReferenceType() != want || s.Elem() == nil || s.Elem().Name() != name || !s.HasReferences() || s.IsRegistered() {
			return fmt.Sprintf("%s for a reference to %s", s, name)
		}
		return ""
	case typeOfDynamic:
		if !s.IsReference() || s.ReferenceType() != ReferenceTypeDynamic || s.Elem() != nil || !s.HasReferences() || s.IsRegistered() {
			return fmt.Sprintf("%s for a dynamic reference", s)
		}
		return ""
	}
	if named == "" {
		named = t.Name()
	}
	if s.IsReference() || s.Kind() != t.Kind() || s.Name() != named {
		return fmt.Sprintf("%s %s for %s %s", s.Kind(), s.Name(), t, named)
	}
	switch t.Kind() {
	case reflect.Array, reflect.Slice:
		if t.Kind() == reflect.Array && s.Len() != t.Len() {
			return fmt.Sprintf("length %d for %s", s.Len(), t)
		}
		if s.Elem() == nil {
			return fmt.Sprintf("no schema of elements of %s", t)
		}
		return vMatches(s.Elem(), t.Elem(), "", ts)
	case reflect.Struct:
		j := 0
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.Tag.Get("enc") == "-" {
				continue
			}
			if j >= len(s.Fields()) {
				return fmt.Sprintf("no field %s in %s", f.Name, s)
			}
			g := s.Fields()[j]
			j++
			if g.Name() != f.Name || g.Tag() != f.Tag {
				return fmt.Sprintf("field %s for %s", g, f.Name)
			}
			if m := vMatches(g.Schema(), f.Type, f.Tag, ts); m != "" {
				return m
			}
		}
		if j != len(s.Fields()) {
			return fmt.Sprintf("%d fields for %s", len(s.Fields()), t)
		}
	}
	return ""
}

func vRegs(v *V, class, in string, a, b *Registry) {
	if a.Reference() != b.Reference() {
		v.Fail(class, in, "the reference is %s, and then %s", a.Reference(), b.Reference())
	}
	if len(a.reg) != len(b.reg) || len(a.srf) != len(b.srf) {
		v.Fail(class, in, "%d schemas (%d by reference), and then %d (%d)", len(a.reg), len(a.srf), len(b.reg), len(b.srf))
	}
	for name, s := range a.reg {
		o, err := b.SchemaByName(name)
		if err != nil {
			v.Fail(class, in, "schema %s: %v", name, err)
			continue
		}
		if d := vSame(s, o, map[[2]Schema]bool{}); d != "" {
			v.Fail(class, in, "schema %s: %s", name, d)
		}
		if p, err := b.SchemaByReference(s.Reference()); err != nil || p.Reference() != s.Reference() {
			v.Fail(class, in, "schema %s by reference: %v", name, err)
		}
	}
}

func vPerm(v *V, n int) []int { return v.R.Perm(n) }

func TestVerif(t *testing.T) {
	v := vstart(t, "a case is one set of made up types registered in several orders, encoded and decoded, or one damaged or made up encoding decoded; non-trivial: several types, or an encoding that was accepted",
		"sets of up to 5 structures of up to 4 fields, nested to 3 levels, arrays of up to 70000")
	defer v.Done()
	vLongArrays = true
	for v.More(0.4) {
		ts := vTypes(v, 5, true)
		in := vTypesString(ts)
		v.Pending(in)
		v.Try("panic", in, func() {
			r := vRegistry(ts, vPerm(v, len(ts)))
			enc := r.Encode()
			if r.Reference() != RegistryRef(cipher.SumSHA256(enc)) {
				v.Fail("reference", in, "the reference is not the hash of the encoding")
			}
			for i := 0; i < 3; i++ {
				o := vRegistry(ts, vPerm(v, len(ts)))
				if e := o.Encode(); !bytes.Equal(e, enc) {
					v.Fail("order", in, "registered in another order, the encoding is %x, not %x", e, enc)
				}
				vRegs(v, "order", in, r, o)
			}
			if !bytes.Equal(r.Encode(), enc) {
				v.Fail("order", in, "encoded again, it's not the same")
			}
			for _, n := range ts {
				s, err := r.SchemaByName(n.name)
				if err != nil {
					v.Fail("schema", in, "schema %s: %v", n.name, err)
					continue
				}
				if !s.IsRegistered() {
					v.Fail("schema", in, "schema %s is not registered", n.name)
				}
				if m := vMatches(s, n.typ, "", ts); m != "" {
					v.Fail("schema", in, "schema %s: %s", n.name, m)
				}
				tps := r.Types()
				if tps.Direct[n.name] != n.typ || tps.Inverse[n.typ] != n.name {
					v.Fail("schema", in, "type of %s", n.name)
				}
			}
			d, err := DecodeRegistry(enc)
			if err != nil {
				v.Fail("decode", in, "decoding: %v", err)
				return
			}
			vRegs(v, "decode", in, r, d)
			if e := d.Encode(); !bytes.Equal(e, enc) {
				v.Fail("decode", in, "decoded, the encoding is %x, not %x", e, enc)
			}
			// another set is not the same
			if len(ts) > 1 {
				var o *Registry
				if _, did := vpanics(func() { o = vRegistry(ts[:len(ts)-1], vPerm(v, len(ts)-1)) }); !did && o.Reference() == r.Reference() {
					v.Fail("set", in, "without the last type the reference is the same")
				}
			}
		})
		v.Case(in, len(ts) > 1)
	}
	stuck := false // a call has not ended
	accept := func(b []byte, in string) bool {
		v.Pending(in)
		ok := false
		r, did, done := vTimed(20*time.Second, func() {
			d, err := DecodeRegistry(b)
			if err != nil {
				return
			}
			ok = true
			if d == nil {
				v.Fail("bytes", in, "no registry and no error")
				return
			}
			enc := d.Encode()
			if d.Reference() != RegistryRef(cipher.SumSHA256(enc)) {
				v.Fail("bytes", in, "the reference is not the hash of the encoding")
			}
			for name, s := range d.reg {
				vUse(s, map[Schema]bool{})
				if !s.IsRegistered() || s.Name() != name {
					v.Fail("bytes", in, "%q names %q (%s)", name, s.Name(), s.Kind())
				}
				if o, err := d.SchemaByReference(s.Reference()); err != nil || o.Reference() != s.Reference() {
					v.Fail("bytes", in, "schema %s by reference: %v", name, err)
				}
			}
			o, err := DecodeRegistry(enc)
			if err != nil {
				v.Fail("bytes", in, "accepted, encoded and refused: %v", err)
				return
			}
			vRegs(v, "bytes", in, d, o)
		})
		if !done {
			stuck = true
			v.Fail("endless", in, "decoding and encoding took more than 20 s")
		} else if did {
			v.Fail("bytes-panic", in, "panic: %v", r)
		}
		return ok
	}
	for !stuck && v.More(0.7) {
		b, d := vHostile(v)
		if v.R.Intn(8) == 0 {
			b = append(b, v.Bytes(5)...)
		}
		v.Case(d, accept(b, d))
	}
	for !stuck && v.More(1) {
		ts := vTypes(v, 4, true)
		b := vRegistry(ts, vPerm(v, len(ts))).Encode()
		what := ""
		switch v.R.Intn(4) {
		case 0:
			n := v.R.Intn(len(b))
			b, what = b[:n], fmt.Sprintf("cut to %d bytes", n)
		case 1:
			b, what = v.Bytes(40), "random bytes"
		case 2:
			// an entity left out
			var ent registryEntities
			encoder.DeserializeRaw(b, &ent)
			i := v.R.Intn(len(ent))
			ent = append(ent[:i:i], ent[i+1:]...)
			b, what = encoder.Serialize(ent), fmt.Sprintf("without entity %d", i)
		default:
			for i := 1 + v.R.Intn(3); i > 0; i-- {
				j := v.R.Intn(len(b))
				b[j] = byte([]int{0, 1, 25, 23, 17, 22, 20, 255, v.R.Intn(256)}[v.R.Intn(9)])
				what += fmt.Sprintf("byte %d set to %d ", j, b[j])
			}
		}
		in := fmt.Sprintf("%s of %s: %x", what, vTypesString(ts), b)
		v.Case(in, accept(b, in))
	}
}
