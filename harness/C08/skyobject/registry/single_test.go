package registry

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"

	"github.com/skycoin/skycoin/src/cipher"
	"github.com/skycoin/skycoin/src/cipher/encoder"
)

type vVal struct {
	A uint64
	B string
	C []byte
	D [3]int16
}

type vSmall struct{ X uint8 }

func TestVerif(t *testing.T) {
	v := vstart(t, "a case is one history of settings, clearings and readings of one single or one dynamic reference through a pack that counts what it is asked; non-trivial: something was stored",
		"histories of up to 8 steps")
	defer v.Done()
	blank := cipher.SHA256{}
	for v.More(1) {
		p := newVPack(nil)
		var ref Ref
		var dyn Dynamic
		var want []byte // nil: blank
		var sch SchemaRef
		isDyn := v.R.Intn(2) == 0
		hist := "Ref"
		if isDyn {
			hist = "Dynamic"
		}
		hash := func() cipher.SHA256 {
			if isDyn {
				return dyn.Hash
			}
			return ref.Hash
		}
		setv := func(o interface{}) error {
			if isDyn {
				return dyn.SetValue(p, o)
			}
			return ref.SetValue(p, o)
		}
		getv := func(o interface{}) error {
			if isDyn {
				return dyn.Value(p, o)
			}
			return ref.Value(p, o)
		}
		stored := false
		steps := 1 + v.R.Intn(8)
		for i := 0; i < steps; i++ {
			p.failAdd, p.failGet = v.R.Intn(4) == 0, v.R.Intn(4) == 0
			before := hash()
			beforeSch := dyn.Schema
			adds, gets := p.adds, p.gets
			switch op := v.R.Intn(9); op {
			case 0, 1, 2: // set
				var o interface{}
				switch v.R.Intn(3) {
				case 0:
					o = &vSmall{uint8(v.R.Intn(3))}
				case 1:
					o = vSmall{uint8(v.R.Intn(3))}
				default:
					x := vVal{v.R.Uint64(), string(v.Bytes(20)), v.Bytes(20), [3]int16{int16(v.R.Int()), 0, -1}}
					o = &x
				}
				enc := encoder.Serialize(o)
				hist += fmt.Sprintf("; SetValue(%+v) fail=%v", o, p.failAdd)
				var err error
				v.Try("set", hist, func() { err = setv(o) })
				if p.adds != adds+1 {
					v.Fail("set-adds", hist, "%d values added by one SetValue", p.adds-adds)
				}
				if p.failAdd {
					if err != errVPack || hash() != before {
						v.Fail("set-failed", hist, "error %v, the hash was %x and is %x", err, before, hash())
					}
					break
				}
				want, stored = enc, true
				if err != nil || hash() != cipher.SumSHA256(enc) || !bytes.Equal(p.vals[hash()], enc) {
					v.Fail("set", hist, "error %v, hash %x, the encoding has %x and is kept as %x", err, hash(), cipher.SumSHA256(enc), p.vals[hash()])
				}
			case 3: // set nothing
				var err error
				o := []interface{}{nil, (*vVal)(nil), (*vSmall)(nil)}[v.R.Intn(3)]
				hist += fmt.Sprintf("; SetValue(%T nil)", o)
				v.Try("set-nil", hist, func() { err = setv(o) })
				want, sch = nil, SchemaRef{}
				if err != nil || hash() != blank || p.adds != adds {
					v.Fail("set-nil", hist, "error %v, hash %x, added %d", err, hash(), p.adds-adds)
				}
			case 4: // clear
				hist += "; Clear"
				if isDyn {
					dyn.Clear()
				} else {
					ref.Clear()
				}
				want, sch = nil, SchemaRef{}
				if hash() != blank {
					v.Fail("clear", hist, "hash %x after Clear", hash())
				}
			case 5: // schema
				if !isDyn {
					break
				}
				sch = SchemaRef{}
				if v.R.Intn(3) > 0 {
					sch[v.R.Intn(32)] = byte(1 + v.R.Intn(255))
				}
				dyn.Schema = sch
				beforeSch = sch
				hist += fmt.Sprintf("; Schema = %x", sch[:])
			case 8: // a hash, not of a value
				if v.R.Intn(3) > 0 {
					break
				}
				h := cipher.SHA256{}
				h[v.R.Intn(32)] = 1
				dyn.Hash, ref.Hash = h, h
				want = []byte{}
				hist += fmt.Sprintf("; Hash = %x", h[:])
			default: // read
				hist += fmt.Sprintf("; Value fail=%v", p.failGet)
				n, m := vVal{A: 1, B: "x"}, vSmall{77}
				var o interface{} = &n
				small := len(want) == 1
				if small {
					o = &m
				}
				var err error
				v.Try("get", hist, func() { err = getv(o) })
				invalid := isDyn && sch == SchemaRef{} && hash() != blank
				switch {
				case invalid:
					if err != ErrInvalidDynamicReference || p.gets != gets {
						v.Fail("get-invalid", hist, "error %v, %d looked up", err, p.gets-gets)
					}
				case hash() == blank:
					if err != ErrReferenceRepresentsNil || p.gets != gets {
						v.Fail("get-blank", hist, "error %v, %d looked up", err, p.gets-gets)
					}
				case p.failGet:
					if err != errVPack {
						v.Fail("get-failed", hist, "error %v", err)
					}
				case len(want) == 0:
					if err != ErrNotFound || p.asked[len(p.asked)-1] != hash() {
						v.Fail("get-missing", hist, "error %v, asked for %x", err, p.asked[len(p.asked)-1])
					}
				default:
					var got []byte
					if small {
						got = encoder.Serialize(m)
					} else {
						got = encoder.Serialize(n)
					}
					if err != nil || !bytes.Equal(got, want) {
						v.Fail("get", hist, "error %v, read %x, was set to %x", err, got, want)
					}
				}
				if hash() != before || p.adds != adds {
					v.Fail("get-changes", hist, "the hash was %x and is %x, added %d", before, hash(), p.adds-adds)
				}
			}
			if isDyn {
				if want != nil && dyn.Schema != beforeSch {
					v.Fail("schema", hist, "schema %x became %x", beforeSch, dyn.Schema)
				}
				if dyn.IsBlank() != (reflect.DeepEqual(dyn, Dynamic{})) {
					v.Fail("isblank", hist, "IsBlank of %+v: %v", dyn, dyn.IsBlank())
				}
				if valid := !(dyn.Schema == SchemaRef{} && dyn.Hash != blank); dyn.IsValid() != valid {
					v.Fail("isvalid", hist, "IsValid of %+v: %v", dyn, dyn.IsValid())
				}
				// an invalid or a blank one isn't walked
				called := 0
				gets = p.gets
				err := dyn.Walk(p, func(h cipher.SHA256, _ int) (bool, error) { called++; return false, nil })
				if dyn.IsValid() != (err == nil) || called > 1 || (called == 1) != dyn.IsValid() || p.gets != gets {
					v.Fail("walk", hist, "walking %+v: %v, called %d times", dyn, err, called)
				}
			} else if ref.IsBlank() != (ref.Hash == blank) {
				v.Fail("isblank", hist, "IsBlank of %x: %v", ref.Hash, ref.IsBlank())
			}
		}
		v.Case(hist, stored)
	}
}
