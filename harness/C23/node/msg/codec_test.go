package msg

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"

	"github.com/skycoin/skycoin/src/cipher"
)

func TestVerif(t *testing.T) {
	v := vstart(t, "a case is one message, encoded and decoded, or one string of bytes, decoded; non-trivial: a message with fields, or bytes that are not a message",
		"all 16 messages with random contents, each truncation and extension of a sample of them, random bytes; lists of up to 20 elements, values of up to 300 bytes")
	defer v.Done()
	pk := func() (p cipher.PubKey) {
		v.R.Read(p[:])
		if v.R.Intn(5) == 0 {
			p = cipher.PubKey{}
		}
		return
	}
	bs := func() []byte {
		n := v.R.Intn(20)
		if v.R.Intn(5) == 0 {
			n = v.R.Intn(300)
		}
		b := make([]byte, n)
		v.R.Read(b)
		return b
	}
	str := func() string { return string(bs()) }
	u64 := func() uint64 { return v.R.Uint64() >> uint(v.R.Intn(64)) }
	types := []Type{PingType, PongType, SynType, AckType, OkType, ErrType, SubType, UnsubType, RqListType, ListType, RootType, RqObjectType, ObjectType, RqPreviewType, RqPeersType, PeersType}
	mk := func(k int) Msg {
		switch k {
		case 1:
			return &Ping{}
		case 2:
			return &Pong{}
		case 3:
			return &Syn{uint16(v.R.Uint32()), pk()}
		case 4:
			return &Ack{pk()}
		case 5:
			return &Ok{}
		case 6:
			return &Err{str()}
		case 7:
			return &Sub{pk()}
		case 8:
			return &Unsub{pk()}
		case 9:
			return &RqList{}
		case 10:
			l := &List{}
			for i := v.R.Intn(4) * v.R.Intn(6); i > 0; i-- {
				l.Feeds = append(l.Feeds, pk())
			}
			return l
		case 11:
			r := &Root{Feed: pk(), Nonce: u64(), Seq: u64(), Value: bs()}
			v.R.Read(r.Sig[:])
			return r
		case 12:
			r := &RqObject{}
			v.R.Read(r.Key[:])
			return r
		case 13:
			return &Object{bs()}
		case 14:
			return &RqPreview{pk()}
		case 15:
			return &RqPeers{pk()}
		}
		p := &Peers{Feed: pk()}
		for i := v.R.Intn(4) * v.R.Intn(4); i > 0; i-- {
			p.List = append(p.List, PeerInfo{pk(), bs(), str(), str()})
		}
		return p
	}
	norm := func(m Msg) string { return fmt.Sprintf("%T %+v", m, m) } // nil and empty are the same
	for v.More(1) {
		k := v.R.Intn(16) + 1
		m := mk(k)
		in := norm(m)
		v.Case(in, k > 2 && k != 5 && k != 9)
		var p []byte
		v.Try("encode", in, func() { p = m.Encode() })
		if norm(m) != in {
			v.Fail("encode", in, "the message is changed: %s", norm(m))
		}
		if m.Type() != types[k-1] || len(p) == 0 || p[0] != byte(types[k-1]) || int(types[k-1]) != k {
			v.Fail("type", in, "type %v, encoded % x", m.Type(), p)
		}
		if p2 := m.Encode(); !bytes.Equal(p, p2) {
			v.Fail("encode", in, "encoded differently the second time: % x and % x", p, p2)
		}
		q := append([]byte(nil), p...)
		var d Msg
		var err error
		v.Try("decode", in, func() { d, err = Decode(q) })
		if err != nil {
			v.Fail("decode", in, "Decode: %v", err)
		}
		if d.Type() != m.Type() || norm(d) != in {
			v.Fail("decode", in, "decoded %s", norm(d))
		}
		if !bytes.Equal(p, q) {
			v.Fail("decode", in, "Decode changed the bytes")
		}
		// damaged
		bad := func(b []byte, what string, want func(error) bool) {
			bin := fmt.Sprintf("%s: % x", what, b)
			v.Case(bin, true)
			v.Try("damaged", bin, func() {
				m, err := Decode(b)
				if err == nil {
					v.Fail("damaged", bin, "decoded %s", norm(m))
				}
				if !want(err) {
					v.Fail("damaged", bin, "unexpected error %T %v", err, err)
				}
				if m != nil && !reflect.ValueOf(m).IsNil() {
					v.Fail("damaged", bin, "a message %s with the error %v", norm(m), err)
				}
			})
		}
		anyErr := func(err error) bool { return true }
		bad(nil, "empty", func(err error) bool { return err == ErrEmptyMessage })
		if len(p) > 1 {
			n := v.R.Intn(len(p))
			if n > 0 {
				bad(p[:n:n], "truncated", func(err error) bool { return err != ErrEmptyMessage })
			}
		}
		ext := append(append([]byte(nil), p...), make([]byte, 1+v.R.Intn(300))...)
		v.R.Read(ext[len(p):])
		bad(ext, "extended", func(err error) bool { return err == ErrIncomplieDecoding })
		un := append([]byte(nil), p...)
		un[0] = byte(v.R.Intn(256))
		if un[0] == 0 || un[0] > 16 {
			bad(un, "unknown type", func(err error) bool {
				e, ok := err.(InvalidTypeError)
				return ok && e.Type() == Type(un[0])
			})
		}
		// any bytes: if they decode, they are that message
		b := bs()
		if len(b) > 0 && v.R.Intn(2) == 0 {
			b[0] = byte(1 + v.R.Intn(16))
		}
		bin := fmt.Sprintf("% x", b)
		v.Case(bin, true)
		v.Try("any bytes", bin, func() {
			m, err := Decode(b)
			if err == nil {
				if e := m.Encode(); !bytes.Equal(e, b) && b[0] != PeersType { // an encoding is unique
					v.Fail("any bytes", bin, "decoded to %s, whose encoding is % x", norm(m), e)
				}
			}
			_ = anyErr
		})
	}
}
