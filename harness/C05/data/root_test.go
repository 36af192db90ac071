package data

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/skycoin/skycoin/src/cipher"
)

func TestVerif(t *testing.T) {
	v := vstart(t, "a case is one root record, validated, encoded and decoded; non-trivial: exactly the flaws listed are present",
		"all combinations of missing fields, random contents")
	defer v.Done()
	fill := func(b []byte) {
		// often a single byte is set
		switch v.R.Intn(3) {
		case 0:
			b[0] = 1
		case 1:
			b[len(b)-1] = 0x80
		default:
			v.R.Read(b)
			b[0] |= 1
		}
	}
	for v.More(1) {
		var r Root
		mask := v.R.Intn(32)
		if v.R.Intn(3) == 0 {
			mask = 31
		}
		r.Create, r.Access = v.R.Int63()-v.R.Int63(), v.R.Int63()
		if mask&1 != 0 {
			fill(r.Hash[:])
		}
		if mask&2 != 0 {
			fill(r.Sig[:])
		}
		if mask&4 != 0 {
			r.Time = v.R.Int63() - v.R.Int63()
			if v.R.Intn(3) == 0 {
				r.Time = -1
			}
		}
		if mask&8 != 0 {
			r.Seq = v.R.Uint64() >> uint(v.R.Intn(64))
		}
		if mask&16 != 0 {
			fill(r.Prev[:])
		}
		valid := r.Hash != (cipher.SHA256{}) && r.Sig != (cipher.Sig{}) && r.Time != 0 && (r.Seq == 0) == (r.Prev == (cipher.SHA256{}))
		in := fmt.Sprintf("%+v", r)
		v.Case(in, true)
		before := r
		err := r.Validate()
		if (err == nil) != valid {
			v.Fail("validate", in, "Validate: %v, valid: %v", err, valid)
		}
		if r != before {
			v.Fail("changed", in, "Validate changed the record")
		}
		var q Root
		p := r.Encode()
		if err := q.Decode(p); err != nil || !reflect.DeepEqual(q, r) {
			v.Fail("roundtrip", in, "decoded %+v, error %v", q, err)
		}
		if len(p) > 0 {
			var z Root
			var derr error
			v.Try("decode", fmt.Sprintf("%x", p[:len(p)-1]), func() { derr = z.Decode(p[:v.R.Intn(len(p))]) })
			if derr == nil {
				v.Fail("truncated", in, "a truncated record decodes")
			}
		}
	}
}
