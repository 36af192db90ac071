package node

import (
	"encoding/binary"
	"fmt"
	"os"
	"strings"
	"testing"
	"time"

	"github.com/skycoin/net/factory"
	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/node/msg"
	"github.com/skycoin/cxo/skyobject"
)

func TestVerif(t *testing.T) {
	v := vstart(t, "a case is a handshake with a peer that follows a script; non-trivial: the script is not the usual one",
		"scripts: the usual one, other versions, other messages, other numbers, identities already connected, damaged frames, silence, closing")
	defer v.Done()
	os.Setenv("HOME", os.TempDir())
	cfg := NewConfig()
	cfg.Config = skyobject.NewConfig()
	cfg.Config.InMemoryDB = true
	cfg.TCP.Listen, cfg.UDP.Listen, cfg.RPC = "", "", ""
	cfg.TCP.ResponseTimeout, cfg.UDP.ResponseTimeout = 20*time.Second, 20*time.Second
	n, err := NewNode(cfg)
	if err != nil {
		t.Skip(err)
	}
	defer n.Close()
	n.TCP()
	n.UDP()
	pk := func() (p cipher.PubKey) {
		v.R.Read(p[:])
		return
	}
	enc := (&Conn{}).encodeMsg
	recv := func(p *factory.Connection, in string) (seq, rseq uint32, m msg.Msg) {
		select {
		case b := <-p.GetChanIn():
			if len(b) < 9 {
				v.Fail("frame", in, "sent: % x", b)
			}
			m, err := msg.Decode(b[8:])
			if err != nil {
				v.Fail("frame", in, "sent: % x: %v", b, err)
			}
			return binary.LittleEndian.Uint32(b), binary.LittleEndian.Uint32(b[4:]), m
		case <-time.After(10 * time.Second):
			v.Fail("frame", in, "nothing is sent within 10 s")
		}
		return
	}
	addr := 0
	// connected peers
	var old []cipher.PubKey
	others := []msg.Msg{&msg.Ping{}, &msg.Pong{}, &msg.Ok{}, &msg.Sub{Feed: pk()}, &msg.RqList{}, &msg.List{}, &msg.Object{Value: []byte{1}}, &msg.RqPeers{Feed: pk()}}
	for v.More(1) {
		addr++
		as := fmt.Sprint("peer:", addr)
		tcp := v.R.Intn(2) == 0
		a, p := factory.Pipe(tcp, as, "me")
		incoming := v.R.Intn(2) == 0
		script := v.R.Intn(10)
		to := 20 * time.Second
		if script == 9 {
			to = time.Duration(5+v.R.Intn(20)) * time.Millisecond
		} else if v.R.Intn(3) == 0 {
			to = 0
		}
		cfg.TCP.ResponseTimeout, cfg.UDP.ResponseTimeout = to, to
		in := fmt.Sprintf("incoming %v, tcp %v, response timeout %v, %d peers connected, script %d: ", incoming, tcp, to, len(old), script)
		type result struct {
			c   *Conn
			err error
			p   interface{}
		}
		res := make(chan result, 1)
		go func() {
			var r result
			r.p, _ = vpanics(func() { r.c, r.err = n.initConn(a, incoming) })
			res <- r
		}()
		var (
			seq  uint32
			id   = pk()
			good bool   // should succeed
			kind string // part of the error
			say  msg.Msg
		)
		if !incoming {
			s, r, m := recv(p, in)
			syn, ok := m.(*msg.Syn)
			if !ok || r != 0 || syn.Protocol != msg.Version || syn.NodeID != n.ID() {
				v.Fail("syn", in, "the first message is %T %+v, rseq %d", m, m, r)
			}
			seq = s
			say = &msg.Ack{NodeID: id}
		} else {
			seq = v.R.Uint32() >> uint(v.R.Intn(32))
			say = &msg.Syn{Protocol: msg.Version, NodeID: id}
		}
		frame := func(m msg.Msg) []byte {
			if incoming {
				return enc(seq, v.R.Uint32()>>uint(v.R.Intn(32)), m)
			}
			return enc(v.R.Uint32()>>uint(v.R.Intn(32)), seq, m)
		}
		var raw []byte
		switch script {
		case 0, 1:
			in += "the usual one"
			raw, good = frame(say), true
		case 2:
			if len(old) == 0 {
				raw, good = frame(say), true
				break
			}
			id = old[v.R.Intn(len(old))]
			in += "a peer that is connected already"
			if incoming {
				say = &msg.Syn{Protocol: msg.Version, NodeID: id}
			} else {
				say = &msg.Ack{NodeID: id}
			}
			raw, kind = frame(say), ErrAlreadyHaveConnection.Error()
		case 3:
			if incoming {
				ver := uint16(v.R.Intn(10))
				if v.R.Intn(2) == 0 {
					ver = uint16(v.R.Uint32())
				}
				in += fmt.Sprint("version ", ver)
				good = ver == msg.Version
				kind = "version"
				raw = frame(&msg.Syn{Protocol: ver, NodeID: id})
			} else {
				in += "refused by the peer"
				kind = "my reason"
				raw = frame(&msg.Err{Err: "my reason"})
			}
		case 4:
			m := others[v.R.Intn(len(others))]
			if v.R.Intn(3) == 0 { // the message of the other side
				if incoming {
					m = &msg.Ack{NodeID: id}
				} else {
					m = &msg.Syn{Protocol: msg.Version, NodeID: id}
				}
			}
			in += fmt.Sprintf("%T", m)
			kind = "type"
			raw = frame(m)
		case 5:
			raw = frame(say)
			raw = raw[:v.R.Intn(len(raw))]
			in += fmt.Sprintf("frame cut: % x", raw)
		case 6:
			raw = append(frame(say), 1)
			in += "a byte after the message"
		case 7:
			if incoming {
				raw, good = frame(say), true
				break
			}
			other := seq + 1 + uint32(v.R.Intn(300))
			if v.R.Intn(2) == 0 {
				other = seq ^ 1<<uint(v.R.Intn(32))
			}
			in += fmt.Sprintf("replies to %d, not %d", other, seq)
			raw = enc(seq, other, say)
		case 8:
			in += "closed"
			p.Close()
		case 9:
			in += "silence"
			kind = ErrTimeout.Error()
		}
		v.Case(in, script > 1)
		if raw != nil || script == 5 {
			p.GetChanOut() <- raw
		}
		var r result
		select {
		case r = <-res:
		case <-time.After(10 * time.Second):
			v.Fail("handshake", in, "goes on for 10 s")
		}
		if r.p != nil {
			v.Fail("handshake", in, "panic: %v", r.p)
		}
		if good != (r.err == nil) {
			v.Fail("handshake", in, "error: %v", r.err)
		}
		if r.err != nil && !strings.Contains(r.err.Error(), kind) {
			v.Fail("handshake", in, "error: %v, not of the kind %q", r.err, kind)
		}
		if incoming && (script < 5 || script == 7) { // it answers, except to an unknown message
			var want string
			if good {
				want = "*msg.Ack"
			} else if script < 4 {
				want = "*msg.Err"
			}
			if want != "" {
				s, rs, m := recv(p, in)
				if fmt.Sprintf("%T", m) != want || rs != seq || s == 0 {
					v.Fail("answer", in, "answer %T, seq %d, rseq %d", m, s, rs)
				}
				if ack, ok := m.(*msg.Ack); ok && ack.NodeID != n.ID() {
					v.Fail("answer", in, "the identity in the answer is not of this node")
				}
			}
		}
		c2, yep := n.hasPeer(id)
		if good {
			if r.c.PeerID() != id || !yep || c2 != r.c {
				v.Fail("identity", in, "peer's identity is %x, not %x; known: %v", r.c.PeerID(), id, yep)
			}
			old = append(old, id)
			if len(old) > 20 { // some leave
				if c, ok := n.hasPeer(old[0]); ok {
					c.Close()
					for k := 0; k < 1000; k++ {
						if _, ok = n.hasPeer(old[0]); !ok {
							break
						}
						time.Sleep(time.Millisecond)
					}
				}
				old = old[1:]
			}
		} else {
			if script != 2 && yep {
				v.Fail("identity", in, "the peer is known after the handshake failed")
			}
			p.Close()
		}
		n.mx.Lock()
		pend := len(n.pendConns)
		n.mx.Unlock()
		if pend != 0 {
			v.Fail("pending", in, "the connection is still pending")
		}
	}
}
