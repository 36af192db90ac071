package node

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"testing"
	"time"

	"github.com/skycoin/net/factory"
	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/node/msg"
	"github.com/skycoin/cxo/skyobject"
)

func TestVerif(t *testing.T) {
	v := vstart(t, "a case is a frame, made and read, or a string of bytes, read, or requests of one connection sent at the same time and answered in another order; non-trivial: all",
		"messages of eight types, values of up to 100 bytes, up to 8 requests at the same time")
	defer v.Done()
	os.Setenv("HOME", os.TempDir())
	pk := func() (p cipher.PubKey) {
		v.R.Read(p[:])
		return
	}
	bs := func(n int) []byte { b := make([]byte, v.R.Intn(n)); v.R.Read(b); return b }
	mk := func() msg.Msg {
		switch v.R.Intn(8) {
		case 0:
			return &msg.Ping{}
		case 1:
			return &msg.Syn{Protocol: uint16(v.R.Uint32()), NodeID: pk()}
		case 2:
			return &msg.Ok{}
		case 3:
			return &msg.Err{Err: string(bs(20))}
		case 4:
			return &msg.Root{Feed: pk(), Nonce: v.R.Uint64(), Seq: v.R.Uint64(), Value: bs(100)}
		case 5:
			return &msg.Object{Value: bs(100)}
		case 6:
			return &msg.RqList{}
		}
		return &msg.Sub{Feed: pk()}
	}
	num := func() uint32 {
		switch v.R.Intn(3) {
		case 0:
			return uint32(v.R.Intn(300))
		case 1:
			return uint32(1) << uint(v.R.Intn(32)) * uint32(1+v.R.Intn(3))
		}
		return v.R.Uint32()
	}
	c := &Conn{}
	for v.More(0.5) {
		seq, rseq, m := num(), num(), mk()
		if len(v.Hints) > 0 && v.R.Intn(4) == 0 {
			seq = uint32(v.Hints[v.R.Intn(len(v.Hints))])
		}
		in := fmt.Sprintf("seq %d rseq %d %T %+v", seq, rseq, m, m)
		v.Case(in, true)
		v.Try("frame", in, func() {
			raw := c.encodeMsg(seq, rseq, m)
			keep := append([]byte(nil), raw...)
			raw2 := c.encodeMsg(num(), num(), mk())
			raw2[0]++ // another message must not touch the first one
			if !bytes.Equal(raw, keep) {
				v.Fail("frame", in, "the frame changed while another message was encoded")
			}
			s, r, g, err := c.decodeRaw(raw)
			if err != nil || s != seq || r != rseq || fmt.Sprintf("%T %+v", g, g) != fmt.Sprintf("%T %+v", m, m) {
				v.Fail("frame", in, "arrives as seq %d rseq %d %T %+v, error %v", s, r, g, g, err)
			}
			if !bytes.Equal(raw, keep) {
				v.Fail("frame", in, "decoding changed the frame")
			}
			// truncated, extended
			n := v.R.Intn(len(raw))
			if _, _, g, err = c.decodeRaw(raw[:n:n]); err == nil {
				v.Fail("truncated", in, "the first %d bytes decode to %+v", n, g)
			}
			if _, _, g, err = c.decodeRaw(append(keep, byte(v.R.Intn(2)))); err == nil {
				v.Fail("extended", in, "with one more byte it decodes to %+v", g)
			}
		})
		b := bs(30)
		in = fmt.Sprintf("bytes % x", b)
		v.Case(in, true)
		v.Try("any bytes", in, func() {
			_, _, g, err := c.decodeRaw(b)
			if err == nil && len(b) < 9 {
				v.Fail("any bytes", in, "decoded to %+v", g)
			}
			if err == nil && !bytes.Equal(c.encodeMsg(binary.LittleEndian.Uint32(b), binary.LittleEndian.Uint32(b[4:]), g), b) {
				v.Fail("any bytes", in, "decoded to %T %+v", g, g)
			}
		})
	}

	// over a connection
	cfg := NewConfig()
	cfg.Config = skyobject.NewConfig()
	cfg.Config.InMemoryDB = true
	cfg.TCP.Listen, cfg.UDP.Listen, cfg.RPC = "", "", ""
	cfg.TCP.ResponseTimeout, cfg.UDP.ResponseTimeout = 20*time.Second, 20*time.Second
	cfg.Public = true
	n, err := NewNode(cfg)
	if err != nil {
		t.Skip(err)
	}
	defer n.Close()
	recv := func(ch <-chan []byte, in string) []byte {
		select {
		case b := <-ch:
			return b
		case <-time.After(10 * time.Second):
			v.Fail("connection", in, "nothing is sent within 10 s")
		}
		return nil
	}
	open := func() (c *Conn, peer *factory.Connection, done chan error) {
		a, b := factory.Pipe(v.R.Intn(2) == 0, "a", "b")
		c = n.newConnection(a, false)
		c.seq = num()
		done = make(chan error, 1)
		go func() {
			var err error
			if r, did := vpanics(func() { err = c.receiveMsg() }); did {
				err = fmt.Errorf("panic: %v", r)
				done <- err
				return
			}
			if err != nil {
				err = fmt.Errorf("error: %v", err)
			}
			done <- err
		}()
		return c, b, done
	}
	wait := func(done chan error, in string) error {
		select {
		case err := <-done:
			if err != nil && err.Error()[:5] == "panic" {
				v.Fail("connection", in, "%v", err)
			}
			return err
		case <-time.After(10 * time.Second):
			v.Fail("connection", in, "the connection goes on for 10 s")
		}
		return nil
	}
	for v.More(1) {
		// requests
		c, p, done := open()
		k := 1 + v.R.Intn(8)
		in := fmt.Sprintf("%d requests at the same time, numbers from %d on", k, c.seq+1)
		v.Case(in, true)
		if v.R.Intn(20) == 0 {
			c.seq = 1<<32 - 1 - uint32(v.R.Intn(10))
		}
		keys := make([]cipher.SHA256, k)
		res := make([]string, k)
		var wg sync.WaitGroup
		for i := range keys {
			v.R.Read(keys[i][:])
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				r, err := c.sendRequest(&msg.RqObject{Key: keys[i]})
				if o, ok := r.(*msg.Object); err != nil || !ok || !bytes.Equal(o.Value, keys[i][:]) {
					res[i] = fmt.Sprintf("request %d got %T %+v, error %v", i, r, r, err)
				}
			}(i)
		}
		type rq struct {
			seq uint32
			key cipher.SHA256
		}
		var rqs []rq
		used := map[uint32]bool{}
		for range keys {
			raw := recv(p.GetChanIn(), in)
			s, r, g, err := c.decodeRaw(raw)
			o, ok := g.(*msg.RqObject)
			if err != nil || !ok || r != 0 || used[s] || s == 0 {
				v.Fail("requests", in, "sent: seq %d (used before: %v) rseq %d %T, error %v", s, used[s], r, g, err)
			}
			used[s] = true
			rqs = append(rqs, rq{s, o.Key})
		}
		rand.Shuffle(k, func(i, j int) { rqs[i], rqs[j] = rqs[j], rqs[i] })
		for _, q := range rqs {
			p.GetChanOut() <- c.encodeMsg(num(), q.seq, &msg.Object{Value: append([]byte(nil), q.key[:]...)})
			for i := v.R.Intn(5); i > 0; i-- { // and repeated replies
				p.GetChanOut() <- c.encodeMsg(num(), q.seq, &msg.Object{Value: []byte{1}})
			}
		}
		ok := make(chan bool)
		go func() { wg.Wait(); close(ok) }()
		select {
		case <-ok:
		case <-time.After(10 * time.Second):
			v.Fail("requests", in, "a request got no reply in 10 s")
		}
		for _, s := range res {
			if s != "" {
				v.Fail("requests", in, "%s", s)
			}
		}
		if len(c.reqs) != 0 {
			v.Fail("requests", in, "%d requests are kept after their replies", len(c.reqs))
		}
		// replies that come when the request is given up
		in = "requests given up while their replies come"
		for i := 0; i < 100; i++ {
			quit, end := make(chan struct{}), make(chan struct{})
			var got msg.Msg
			var gerr error
			go func() {
				got, gerr = c.sendRequestQuit(&msg.RqObject{Key: keys[0]}, quit)
				close(end)
			}()
			s, _, _, err := c.decodeRaw(recv(p.GetChanIn(), in))
			if err != nil {
				v.Fail("requests", in, "%v", err)
			}
			m := c.encodeMsg(num(), s, &msg.Object{Value: []byte{5}})
			spin := v.R.Intn(2000)
			go func() {
				for j := 0; j < spin; j++ {
					runtime.KeepAlive(j)
				}
				close(quit)
			}()
			p.GetChanOut() <- m
			select {
			case <-end:
			case <-time.After(10 * time.Second):
				v.Fail("requests", in, "a request given up goes on for 10 s")
			}
			if o, ok := got.(*msg.Object); gerr == nil && (!ok || len(o.Value) != 1 || o.Value[0] != 5) || gerr != nil && gerr != ErrClosed {
				v.Fail("requests", in, "got %T, error %v", got, gerr)
			}
		}
		p.GetChanOut() <- c.encodeMsg(1, 0, &msg.RqList{})
		recv(p.GetChanIn(), in+", then a request of the peer")
		// the peer's request: its number comes back
		for i := v.R.Intn(3); i > 0; i-- {
			s := num()
			if s == 0 {
				s = 1
			}
			in := fmt.Sprintf("RqList with the number %d", s)
			v.Case(in, true)
			p.GetChanOut() <- c.encodeMsg(s, 0, &msg.RqList{})
			_, r, g, err := c.decodeRaw(recv(p.GetChanIn(), in))
			if _, ok := g.(*msg.List); err != nil || r != s || !ok {
				v.Fail("reply", in, "reply: rseq %d %T, error %v", r, g, err)
			}
		}
		if v.R.Intn(4) == 0 { // closing ends it, without an error
			in := "close"
			v.Try("connection", in, func() { c.Close(); c.Close() })
			if err := wait(done, in); err != nil {
				v.Fail("connection", in, "closed with the error %v", err)
			}
			if err := c.sendMsg(1, 0, &msg.Ok{}); err != ErrClosed {
				v.Fail("connection", in, "sendMsg after close: %v", err)
			}
			p.Close()
			continue
		}
		// bad frame
		var b []byte
		switch v.R.Intn(3) {
		case 0:
			b = make([]byte, v.R.Intn(9))
		case 1:
			b = c.encodeMsg(num(), 0, &msg.Root{Value: bs(100)})
			b = b[:9+v.R.Intn(len(b)-9)]
		case 2:
			b = append(c.encodeMsg(num(), 0, &msg.RqList{}), 7)
		}
		in = fmt.Sprintf("frame % x", b)
		v.Case(in, true)
		p.GetChanOut() <- b
		if err := wait(done, in); err == nil {
			v.Fail("connection", in, "no error")
		}
		v.Try("connection", in, func() { c.Close() })
		p.Close()
	}
}
