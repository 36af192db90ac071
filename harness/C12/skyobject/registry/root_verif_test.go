package registry

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"reflect"
	"strconv"
	"testing"

	"github.com/skycoin/skycoin/src/cipher"
	"github.com/skycoin/skycoin/src/cipher/encoder"
)

// what is published of a root
type vPublished struct {
	Refs       []Dynamic
	Descriptor []byte
	Reg        RegistryRef
	Pub        cipher.PubKey
	Nonce      uint64
	Seq        uint64
	Time       int64
	Prev       cipher.SHA256
}

func vPublish(r *Root) (p vPublished) {
	p = vPublished{r.Refs, r.Descriptor, r.Reg, r.Pub, r.Nonce, r.Seq, r.Time, r.Prev}
	if len(p.Refs) == 0 {
		p.Refs = nil
	}
	if len(p.Descriptor) == 0 {
		p.Descriptor = nil
	}
	return
}

func vRoot(v *V) *Root {
	r := new(Root)
	n := v.R.Intn(5)
	if v.R.Intn(3) == 0 {
		n = 0
	}
	for i := 0; i < n; i++ {
		var d Dynamic
		if v.R.Intn(3) > 0 {
			v.R.Read(d.Schema[:])
			if v.R.Intn(3) > 0 {
				v.R.Read(d.Hash[:])
			}
		}
		r.Refs = append(r.Refs, d)
	}
	if v.R.Intn(2) == 0 {
		r.Descriptor = v.Bytes(v.R.Intn(21))
	}
	if v.R.Intn(4) > 0 {
		v.R.Read(r.Reg[:])
		v.R.Read(r.Pub[:])
		v.R.Read(r.Prev[:])
	}
	r.Nonce, r.Seq, r.Time = v.R.Uint64()>>uint(v.R.Intn(64)), v.R.Uint64()>>uint(v.R.Intn(64)), v.R.Int63()-v.R.Int63()
	if v.R.Intn(2) == 0 {
		v.R.Read(r.Sig[:])
		v.R.Read(r.Hash[:])
	}
	r.IsFull = v.R.Intn(2) == 0
	return r
}

func TestVerif(t *testing.T) {
	v := vstart(t, "a case is one made up root, encoded with different signatures and hashes, decoded, cut, printed and walked; non-trivial: it has references",
		"up to 4 references, 20 bytes of descriptor; every cut of the encoding")
	defer v.Done()
	for v.More(1) {
		r := vRoot(v)
		in := fmt.Sprintf("%+v", *r)
		v.Case(in, len(r.Refs) > 0)
		v.Try("a root", in, func() {
			was := vPublish(r)
			enc := r.Encode()
			if want := encoder.Serialize(was); len(enc) != len(want) {
				v.Fail("length of the encoding", in, "%d bytes for %d of the published fields", len(enc), len(want))
			}
			// neither signature, hash nor state
			o := *r
			v.R.Read(o.Sig[:])
			v.R.Read(o.Hash[:])
			o.IsFull = !r.IsFull
			if !bytes.Equal(o.Encode(), enc) {
				v.Fail("signature or hash in the encoding", in, "the encoding differs with another signature, hash or state")
			}
			// every published field matters
			for i := 0; i < 8; i++ {
				o := *r
				name := ""
				switch i {
				case 0:
					name = "Refs"
					o.Refs = append(append([]Dynamic{}, r.Refs...), Dynamic{})
				case 1:
					name = "Descriptor"
					o.Descriptor = append(append([]byte{}, r.Descriptor...), 7)
				case 2:
					name = "Reg"
					o.Reg[v.R.Intn(len(o.Reg))]++
				case 3:
					name = "Pub"
					o.Pub[v.R.Intn(len(o.Pub))]++
				case 4:
					name = "Nonce"
					o.Nonce ^= 1 << uint(v.R.Intn(64))
				case 5:
					name = "Seq"
					o.Seq ^= 1 << uint(v.R.Intn(64))
				case 6:
					name = "Time"
					o.Time ^= 1 << uint(v.R.Intn(64))
				case 7:
					name = "Prev"
					o.Prev[v.R.Intn(len(o.Prev))]++
				}
				if bytes.Equal(o.Encode(), enc) {
					v.Fail("a published field that is not encoded", in+" with another "+name, "the encoding is the same")
				}
			}
			if !reflect.DeepEqual(vPublish(r), was) {
				v.Fail("encoding changes the root", in, "%+v", *r)
			}
			// there and back
			d, err := DecodeRoot(enc)
			if err != nil || d == nil {
				v.Fail("decoding of an encoding", in, "%v", err)
				return
			}
			if got := vPublish(d); !reflect.DeepEqual(got, was) {
				v.Fail("decoded root", in, "got %+v", got)
			}
			if d.Sig != (cipher.Sig{}) || d.Hash != (cipher.SHA256{}) || d.IsFull {
				v.Fail("unpublished fields of a decoded root", in, "got %v %v %v", d.Sig, d.Hash, d.IsFull)
			}
			if !bytes.Equal(d.Encode(), enc) {
				v.Fail("encoding of a decoded root", in, "differs")
			}
			// printed
			short := strconv.FormatUint(r.Nonce, 10)
			if len(short) > 4 {
				short = short[:4]
			}
			pub := hex.EncodeToString(r.Pub[:])[:7]
			if want := pub + "/" + short + "/" + strconv.FormatUint(r.Seq, 10); r.Short() != want {
				v.Fail("short form", in, "%q for %q", r.Short(), want)
			}
			if want := fmt.Sprint(pub, "/", strconv.FormatUint(r.Nonce, 10), "/", strconv.FormatUint(r.Seq, 10), ":", hex.EncodeToString(r.Hash[:])[:7]); r.String() != want {
				v.Fail("long form", in, "%q for %q", r.String(), want)
			}
			// cut
			for n := 0; n < len(enc); n++ {
				if d, err := DecodeRoot(enc[:n:n]); err == nil || d != nil {
					v.Fail("a cut encoding", fmt.Sprintf("%s cut to %d of %d", in, n, len(enc)), "gives %v %v", d, err)
					break
				}
			}
			// other bytes
			bad := append([]byte{}, enc...)
			for i := v.R.Intn(4); i >= 0 && len(bad) > 0; i-- {
				bad[v.R.Intn(len(bad))] = byte(v.R.Intn(256))
			}
			if v.R.Intn(4) == 0 {
				bad = v.Bytes(v.R.Intn(300))
			}
			bi := fmt.Sprintf("bytes %x", bad)
			v.Try("other bytes", bi, func() {
				d, err := DecodeRoot(bad)
				if (err == nil) != (d != nil) {
					v.Fail("other bytes", bi, "gives %v %v", d, err)
				}
				if d != nil && !bytes.HasPrefix(bad, d.Encode()) {
					v.Fail("other bytes", bi, "gives %+v", *d)
				}
			})
			// without references it is itself
			o = *r
			o.Refs = nil
			calls := 0
			p := newVPack(nil)
			if err := o.Walk(p, func(cipher.SHA256, int) (bool, error) { calls++; return true, nil }); err != nil || calls != 0 || p.gets != 0 {
				v.Fail("walking a root without references", in, "%v, %d calls, %d reads", err, calls, p.gets)
			}
			if d, err = DecodeRoot(o.Encode()); err != nil || len(d.Refs) != 0 {
				v.Fail("a root without references", in, "%v", err)
			}
		})
	}
}
