package registry

import (
	"fmt"
	"reflect"
	"testing"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
	"github.com/skycoin/skycoin/src/cipher/encoder"
)

// a schema and every schema within it
func vAll(s Schema, out map[Schema]bool) {
	if s == nil || out[s] {
		return
	}
	out[s] = true
	for _, f := range s.Fields() {
		vAll(f.Schema(), out)
	}
	vAll(s.Elem(), out)
}

func TestVerif(t *testing.T) {
	v := vstart(t, "a case is one set of made up types with values encoded, followed by other bytes, cut or damaged, or one made up encoded registry with random bytes; non-trivial: an encoding that is not empty",
		"up to 4 structures of up to 4 fields, nested to 3 levels")
	defer v.Done()
	stuck := false // a call has not ended
	arb := func(s Schema, b []byte, in string) {
		if stuck {
			return
		}
		in = fmt.Sprintf("size by %s (%s) of %x: %s", s, s.Kind(), b, in)
		v.Pending(in)
		c := b[:len(b):len(b)]
		var n int
		var err error
		r, did, done := vTimed(10*time.Second, func() { n, err = s.Size(c) })
		switch {
		case !done:
			stuck = true
			v.Fail("endless", in, "took more than 10 s")
		case did:
			v.Fail("panic", in, "panic: %v", r)
		case err == nil && (n < 0 || n > len(b)):
			v.Fail("bounds", in, "size %d of %d bytes", n, len(b))
		}
	}
	hash := func(reflect.Type, string) (h cipher.SHA256) {
		copy(h[:], v.Bytes(32))
		return
	}
	for !stuck && v.More(0.6) {
		ts := vTypes(v, 4, true)
		in := vTypesString(ts)
		reg := vRegistry(ts, v.R.Perm(len(ts)))
		dec, err := DecodeRegistry(reg.Encode())
		if err != nil {
			v.Case(in, false) // of C07
			dec = reg
		}
		nt := false
		for _, n := range ts {
			for i := 0; i < 3; i++ {
				x := reflect.New(n.typ)
				if i > 0 {
					vFill(v, x.Elem(), hash)
				}
				enc := encoder.Serialize(x.Interface())
				nt = nt || len(enc) > 0
				for _, r := range []*Registry{reg, dec} {
					s, err := r.SchemaByName(n.name)
					if err != nil {
						v.Fail("exact", in, "no schema %s: %v", n.name, err)
						continue
					}
					tail := v.Bytes(6)
					if v.R.Intn(2) == 0 {
						tail = nil
					}
					b := append(append([]byte{}, enc...), tail...)
					c := fmt.Sprintf("size of %x followed by %x by %s of %s", enc, tail, n.name, in)
					v.Pending(c)
					v.Try("panic", c, func() {
						if k, err := s.Size(b); err != nil || k != len(enc) {
							v.Fail("exact", c, "the size is %d (%v), not %d", k, err, len(enc))
						}
					})
					if len(enc) > 0 {
						cut := enc[:v.R.Intn(len(enc))]
						c := fmt.Sprintf("size of %x (cut) by %s of %s", cut, n.name, in)
						v.Try("panic", c, func() {
							if k, err := s.Size(cut); err == nil {
								v.Fail("cut", c, "the size is %d, not an error", k)
							}
						})
						arb(s, cut, in)
						b := append([]byte{}, enc...)
						for j := 1 + v.R.Intn(3); j > 0; j-- {
							b[v.R.Intn(len(b))] = byte(v.Int(0, 255))
						}
						arb(s, b, in)
						// what the decoder takes
						y := reflect.New(n.typ)
						if k, err := encoder.DeserializeRaw(b, y.Interface()); err == nil {
							if m, err := s.Size(b); err != nil || m != int(k) {
								v.Fail("exact", fmt.Sprintf("size of %x by %s of %s", b, n.name, in), "the size is %d (%v), the decoder takes %d", m, err, k)
							}
						}
					}
					arb(s, v.Bytes(20), in)
					all := map[Schema]bool{}
					vAll(s, all)
					for q := range all {
						arb(q, v.Bytes(8), in)
					}
				}
			}
		}
		v.Case(in, nt)
	}
	for !stuck && v.More(1) {
		b, d := vHostile(v)
		v.Pending(d)
		var reg *Registry
		var err error
		if _, did, done := vTimed(20*time.Second, func() { reg, err = DecodeRegistry(b) }); did || !done || err != nil {
			v.Case(d, false) // of C07
			continue
		}
		for _, s := range reg.reg {
			all := map[Schema]bool{}
			vAll(s, all)
			for q := range all {
				for i := 0; i < 3; i++ {
					p := v.Bytes(12)
					if v.R.Intn(3) == 0 {
						p = append([]byte{255, 255, 255, 255}, p...)
					} else if v.R.Intn(2) == 0 && len(p) > 3 {
						p[1], p[2], p[3] = 0, 0, 0
					}
					arb(q, p, d)
				}
			}
		}
		v.Case(d, true)
	}
}
