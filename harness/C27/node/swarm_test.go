package node

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	discovery "github.com/skycoin/net/skycoin-messenger/factory"

	"github.com/skycoin/net/factory"
	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/node/log"
	"github.com/skycoin/cxo/node/msg"
	"github.com/skycoin/cxo/skyobject"
)

const vlong = 20 * time.Second

type vlogw struct{}

func (vlogw) Write(p []byte) (int, error) { return len(p), nil }

func vconf() *Config {
	c := NewConfig()
	c.Config = skyobject.NewConfig()
	c.Config.InMemoryDB = true
	c.Config.RollAvgSamples = 1
	c.TCP.Listen, c.UDP.Listen, c.RPC = "", "", ""
	c.TCP.ResponseTimeout, c.UDP.ResponseTimeout = 2*vlong, 2*vlong
	c.Logger = log.NewConfig()
	c.Logger.Output = vlogw{}
	return c
}

func vmust(err error) {
	if err != nil {
		panic(err)
	}
}

func vpk(i int) (pk cipher.PubKey) {
	pk, _ = cipher.GenerateDeterministicKeyPair([]byte{byte(i), byte(i >> 8), 27})
	return
}

type vstop struct{}

type vcase struct {
	v   *V
	mx  sync.Mutex
	log []string
}

func (c *vcase) note(f string, as ...interface{}) {
	c.mx.Lock()
	defer c.mx.Unlock()
	c.log = append(c.log, fmt.Sprintf(f, as...))
}

func (c *vcase) in() string {
	c.mx.Lock()
	defer c.mx.Unlock()
	return strings.Join(c.log, "; ")
}

func (c *vcase) fail(class, f string, as ...interface{}) {
	c.v.Fail(class, c.in(), f, as...)
	panic(vstop{})
}

func (c *vcase) run(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(vstop); !ok {
				c.v.Fail("panic", c.in(), "panic: %v", r)
			}
		}
		c.v.Case(c.in(), true)
	}()
	f()
}

func (c *vcase) wait(what string, f func() bool) {
	for d := time.Now().Add(vlong); !f(); {
		if time.Now().After(d) {
			c.fail("stuck", "%s: not in %v", what, vlong)
		}
		time.Sleep(time.Millisecond)
	}
}

func (c *vcase) ends(what string, f func()) {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(vlong):
		c.fail("stuck", "%s: not in %v", what, vlong)
	}
}

type vaddr struct {
	a  string
	ok bool
}

var vaddrs = []vaddr{{"", true}, {"1.2.3.4:80", true}, {"127.0.0.1:65535", true}, {"10.0.0.7:0", true}, {"1.2.3.4", false}, {"x:1", false},
	{"1.2.3.4:70000", false}, {"1.2.3.4:", false}, {":80", false}, {"[::1]:3", false}, {"1.2.3:3", false}, {"1.2.3.4:-1", false}, {"127.0.0.1:7777", true}}

const vself = "127.0.0.1:7777"

type vev struct {
	kind byte
	p    Peer
}

// what is kept about peers against a plain map
func vpeers(v *V, n *Node, evs chan vev, listen bool) {
	c := &vcase{v: v}
	c.run(func() {
		v := c.v
		cfg := SwarmConfig{MaxPeers: uint64(v.R.Intn(7)), PeersPerResponse: uint64(v.R.Intn(5)), PeerExpirePeriod: time.Hour * time.Duration(v.R.Intn(3))}
		max, per, exp := cfg.MaxPeers, cfg.PeersPerResponse, cfg.PeerExpirePeriod
		d := DefaultSwarmConfig()
		if max == 0 {
			max = d.MaxPeers
		}
		if per == 0 {
			per = d.PeersPerResponse
		}
		if exp == 0 {
			exp = d.PeerExpirePeriod
		}
		var feed cipher.PubKey
		v.R.Read(feed[:])
		s := newSwarm(n, feed, cfg)
		c.note("at most %d peers, %d passed, kept for %v, listening %v", max, per, exp, listen)
		if x := s.cfg; x.MaxPeers != max || x.PeersPerResponse != per || x.PeerExpirePeriod != exp || x.MaxConns != d.MaxConns ||
			x.RequestPeerRate != d.RequestPeerRate || x.ClearOldPeersRate != d.ClearOldPeersRate || x.OutgoingConnRate != d.OutgoingConnRate {
			c.fail("config", "zero fields are not set to defaults: %v", x)
		}
		m := map[cipher.PubKey]Peer{}
		ident := func() (pk cipher.PubKey, name string) {
			switch i := v.R.Intn(12); i {
			case 0:
				return cipher.PubKey{}, "nobody"
			case 1:
				return n.ID(), "itself"
			default:
				return vpk(i), fmt.Sprint("p", i)
			}
		}
		valid := func(pk cipher.PubKey, t, u vaddr) bool {
			return pk != (cipher.PubKey{}) && pk != n.ID() && t.ok && u.ok && !(listen && t.a == vself)
		}
		pick := func() vaddr {
			if v.R.Intn(2) == 0 {
				return vaddrs[v.R.Intn(4)]
			}
			return vaddrs[v.R.Intn(len(vaddrs))]
		}
		eq := func(a, b Peer) bool {
			return a.PubKey == b.PubKey && bytes.Equal(a.Metadata, b.Metadata) && a.TCPAddr == b.TCPAddr && a.UDPAddr == b.UDPAddr && a.RetryTimes == b.RetryTimes
		}
		get := func() map[cipher.PubKey]Peer {
			r := map[cipher.PubKey]Peer{}
			for _, p := range s.Peers() {
				if _, ok := r[p.PubKey]; ok {
					c.fail("once", "a peer is kept twice")
				}
				r[p.PubKey] = p
			}
			return r
		}
		same := func() {
			g := get()
			if uint64(len(g)) > max {
				c.fail("limit", "%d peers are kept", len(g))
			}
			for pk, p := range g {
				q, ok := m[pk]
				if !ok {
					c.fail("kept", "a peer more is kept")
				}
				if !eq(p, q) || p.LastSeen.Before(q.LastSeen) {
					c.fail("kept", "%v is kept, not %v", p, q)
				}
				if dt := p.LastSeen.Sub(q.LastSeen); dt > time.Minute {
					c.fail("seen", "seen %v later", dt)
				}
			}
			if len(g) != len(m) {
				c.fail("kept", "%d peers are kept, not %d", len(g), len(m))
			}
			if s.needPeers() != (uint64(len(m)) < max) {
				c.fail("need", "peers are needed: %v, with %d of %d", s.needPeers(), len(m), max)
			}
		}
		expect := func(l []vev) {
			for len(l) > 0 {
				select {
				case e := <-evs:
					ok := false
					for i := range l {
						if l[i].kind == e.kind && l[i].p.PubKey == e.p.PubKey {
							l = append(l[:i], l[i+1:]...)
							ok = true
							break
						}
					}
					if !ok {
						c.fail("callback", "callback %c for another peer", e.kind)
					}
				case <-time.After(vlong):
					c.fail("callback", "no callback %c", l[0].kind)
				}
			}
		}
		for i := 5 + v.R.Intn(20); i > 0; i-- {
			switch v.R.Intn(9) {
			case 0, 1: // add
				pk, name := ident()
				t, u := pick(), pick()
				meta := v.Bytes(v.R.Intn(3))
				c.note("AddPeer %s %q %q", name, t.a, u.a)
				err := s.AddPeer(pk, meta, t.a, u.a)
				_, known := m[pk]
				full := uint64(len(m)) >= max
				if !valid(pk, t, u) || full && !known {
					if err == nil {
						c.fail("valid", "added")
					}
				} else if !full && err != nil {
					c.fail("valid", "not added: %v", err)
				}
				if err == nil {
					r := uint64(0)
					if known {
						r = get()[pk].RetryTimes
					}
					m[pk] = Peer{pk, meta, t.a, u.a, time.Now().Add(-time.Second), r}
				}
			case 2: // remove
				pk, name := ident()
				c.note("RemovePeer %s", name)
				err := s.RemovePeer(pk)
				if _, ok := m[pk]; ok != (err == nil) {
					c.fail("kept", "RemovePeer: %v", err)
				}
				delete(m, pk)
			case 3, 4: // learn
				var l []msg.PeerInfo
				twice := false
				good := map[cipher.PubKey][]msg.PeerInfo{}
				for j := v.R.Intn(5); j > 0; j-- {
					pk, name := ident()
					t, u := pick(), pick()
					pi := msg.PeerInfo{PubKey: pk, Metadata: v.Bytes(v.R.Intn(3)), TCPAddr: t.a, UDPAddr: u.a}
					if old, ok := m[pk]; ok && v.R.Intn(2) == 0 {
						pi = peerToMsg(old)
						t.ok, u.ok, t.a, u.a = true, true, pi.TCPAddr, pi.UDPAddr
					}
					l = append(l, pi)
					c.note("learn %s %q %q", name, pi.TCPAddr, pi.UDPAddr)
					if valid(pk, t, u) {
						twice = twice || len(good[pk]) > 0
						good[pk] = append(good[pk], pi)
					}
				}
				s.addPeers(append([]msg.PeerInfo(nil), l...))
				g := get()
				if uint64(len(g)) > max {
					c.fail("limit", "%d peers are kept", len(g))
				}
				nnew, want := 0, map[cipher.PubKey]bool{}
				for pk := range good {
					if _, ok := m[pk]; !ok {
						nnew++
					}
					want[pk] = true
				}
				for pk := range m {
					want[pk] = true
				}
				total := 0
				for _, x := range good {
					total += len(x)
				}
				room := uint64(len(m)+total) <= max
				if room && len(g) != len(want) {
					c.fail("learn", "%d peers are kept, not %d", len(g), len(want))
				}
				if nnew == total && uint64(len(m)+total) > max && uint64(len(g)) != max {
					c.fail("learn", "%d peers are kept, not %d", len(g), max)
				}
				var evl []vev
				now := time.Now()
				for pk, p := range m {
					q, ok := g[pk]
					if !ok {
						c.fail("kept", "a peer is lost when another is learned")
					}
					if q.RetryTimes != p.RetryTimes {
						c.fail("retry", "a peer that is learned again has %d failures, not %d", q.RetryTimes, p.RetryTimes)
					}
					fit := false
					for _, pi := range good[pk] {
						x := msgToPeer(pi)
						x.RetryTimes = p.RetryTimes
						if eq(x, q) {
							fit = true
						}
					}
					if fit && now.Sub(q.LastSeen) > time.Minute {
						fit = false
					}
					if len(good[pk]) > 0 && room && !fit {
						c.fail("learn", "what is learned of a known peer does not update it")
					}
					if !fit && !eq(p, q) {
						c.fail("kept", "a peer that is not learned of changes")
					}
					if !eq(p, q) {
						evl = append(evl, vev{'u', q})
					}
				}
				for pk, q := range g {
					if _, ok := m[pk]; ok {
						continue
					}
					fit := false
					for _, pi := range good[pk] {
						if eq(msgToPeer(pi), q) {
							fit = true
						}
					}
					if !fit {
						c.fail("valid", "peer %q %q is taken", q.TCPAddr, q.UDPAddr)
					}
					if now.Sub(q.LastSeen) > time.Minute {
						c.fail("seen", "a peer learned is not seen")
					}
					evl = append(evl, vev{'a', q})
				}
				if !twice {
					expect(evl)
				} else {
					n := len(evl)
					for ; n > 0; n-- {
						select {
						case <-evs:
						case <-time.After(vlong):
							c.fail("callback", "no callback")
						}
					}
					for e := true; e; { // other than these, for what is in the list twice
						select {
						case <-evs:
						case <-time.After(5 * time.Millisecond):
							e = false
						}
					}
				}
				m = g
			case 5: // forget
				s.mu.Lock()
				for pk, p := range s.peers {
					age := []time.Duration{0, exp / 2, exp - time.Minute, exp + time.Minute, 2 * exp}[v.R.Intn(5)]
					p.LastSeen = time.Now().Add(-age)
					s.peers[pk] = p
				}
				s.mu.Unlock()
				m = get()
				c.note("clearOldPeers")
				var evl []vev
				for pk, p := range m {
					if time.Since(p.LastSeen) > exp {
						delete(m, pk)
						evl = append(evl, vev{'r', p})
					}
				}
				s.clearOldPeers()
				expect(evl)
			case 6: // fail or not
				pk, name := ident()
				p, ok := m[pk]
				var err error
				if v.R.Intn(3) > 0 {
					c.note("%s fails", name)
					err = s.incPeerRetryTimes(pk)
					p.RetryTimes++
				} else {
					c.note("%s succeeds", name)
					err = s.resetPeerRetryTimes(pk)
					p.RetryTimes = 0
				}
				if ok != (err == nil) {
					c.fail("retry", "known %v, error %v", ok, err)
				}
				if ok {
					m[pk] = p
				}
			default: // pass
				pk, name := ident()
				c.note("pass to %s", name)
				l := s.peersForExchange(pk)
				can := map[cipher.PubKey]bool{}
				for k, p := range m {
					if k != pk && p.RetryTimes == 0 {
						can[k] = true
					}
				}
				want := len(can)
				if uint64(want) > per {
					want = int(per)
				}
				if len(l) != want {
					c.fail("pass", "%d peers are passed, not %d", len(l), want)
				}
				for _, pi := range l {
					if !can[pi.PubKey] {
						c.fail("pass", "a peer that fails, or the asker, or one twice, is passed")
					}
					delete(can, pi.PubKey)
					p := m[pi.PubKey]
					if !bytes.Equal(pi.Metadata, p.Metadata) || pi.TCPAddr != p.TCPAddr || pi.UDPAddr != p.UDPAddr {
						c.fail("pass", "%v is passed as %v", p, pi)
					}
				}
			}
			same()
		}
	})
	for e := true; e; {
		select {
		case <-evs:
		case <-time.After(time.Millisecond):
			e = false
		}
	}
}

// exchange with a peer that follows a script
func vexchange(v *V, n *Node, i int) {
	c := &vcase{v: v}
	c.run(func() {
		feed := vpk(1000 + i)
		vmust(n.Share(feed))
		defer n.DontShare(feed)
		s := newSwarm(n, feed, SwarmConfig{})
		n.mx.Lock()
		n.ss[feed] = s
		n.mx.Unlock()
		defer func() {
			n.mx.Lock()
			delete(n.ss, feed)
			n.mx.Unlock()
		}()
		a, b := factory.Pipe(true, fmt.Sprint("addr:", i), "me")
		defer b.Close()
		id := vpk(2000 + i)
		enc := (&Conn{}).encodeMsg
		b.GetChanOut() <- enc(1, 0, &msg.Syn{Protocol: msg.Version, NodeID: id})
		conn, err := n.initConn(a, true)
		vmust(err)
		defer conn.Close()
		<-b.GetChanIn()
		b.GetChanOut() <- enc(1, 0, &msg.Sub{Feed: feed})
		recv := func() (uint32, uint32, msg.Msg) {
			select {
			case raw, ok := <-b.GetChanIn():
				if !ok {
					c.fail("closed", "the connection is closed")
				}
				g, err := msg.Decode(raw[8:])
				vmust(err)
				return binary.LittleEndian.Uint32(raw), binary.LittleEndian.Uint32(raw[4:]), g
			case <-time.After(vlong):
				c.fail("stuck", "no message in %v", vlong)
			}
			return 0, 0, nil
		}
		if _, _, g := recv(); fmt.Sprintf("%T", g) != "*msg.Ok" {
			c.fail("subscribe", "subscription gives %T", g)
		}
		// asked
		for j := v.R.Intn(4); j >= 0; j-- {
			s.AddPeer(vpk(j), nil, "1.2.3.4:5", "")
		}
		s.AddPeer(id, nil, "1.2.3.4:7", "")
		b.GetChanOut() <- enc(7, 0, &msg.RqPeers{Feed: feed})
		_, r, g := recv()
		if p, ok := g.(*msg.Peers); !ok || r != 7 || p.Feed != feed || len(p.List) != len(s.Peers())-1 {
			c.fail("asked", "peers asked for are %#v", g)
		} else {
			for _, x := range p.List {
				if x.PubKey == id {
					c.fail("asked", "the asker is passed to itself")
				}
			}
		}
		was := len(s.Peers())
		// asks
		c.ends("requestPeers", s.requestPeers)
		seq, _, g := recv()
		if q, ok := g.(*msg.RqPeers); !ok || q.Feed != feed {
			c.fail("ask", "%#v is asked", g)
		}
		l := []msg.PeerInfo{{PubKey: vpk(500), TCPAddr: "1.1.1.1:1"}, {PubKey: vpk(501), TCPAddr: "1.1.1.1:2"}}
		kind := v.R.Intn(4)
		var m msg.Msg = &msg.Peers{Feed: feed, List: l}
		switch kind {
		case 1:
			m = &msg.Peers{Feed: vpk(999), List: l}
			c.note("peers of another feed")
		case 2:
			m = &msg.Err{Err: "none"}
			c.note("an error")
		case 3:
			m = &msg.Ok{}
			c.note("another message")
		default:
			c.note("peers")
		}
		b.GetChanOut() <- enc(9, seq, m)
		if kind == 0 {
			c.wait("peers are taken", func() bool { return len(s.Peers()) == was+2 })
			return
		}
		// the connection answers after it
		b.GetChanOut() <- enc(10, 0, &msg.RqPeers{Feed: feed})
		recv()
		time.Sleep(2 * time.Millisecond)
		if len(s.Peers()) != was {
			c.fail("wrong feed", "the answer adds peers")
		}
	})
}

// connecting to peers, that are real nodes
func vconns(v *V, x int) {
	c := &vcase{v: v}
	c.run(func() {
		feed := vpk(3000)
		conf := vconf()
		conf.MaxConnections = v.R.Intn(6)
		conf.MaxPendingConnections = 8 + v.R.Intn(2)
		if v.R.Intn(4) == 0 {
			conf.MaxPendingConnections = 0
		}
		c.note("at most %d connections, %d pending", conf.MaxConnections, conf.MaxPendingConnections)
		n, err := NewNode(conf)
		vmust(err)
		closed := false
		defer func() {
			if !closed {
				n.Close()
			}
		}()
		vmust(n.Share(feed))
		cfg := SwarmConfig{MaxConns: uint64(1 + v.R.Intn(5))}
		c.note("%d for the feed", cfg.MaxConns)
		s := newSwarm(n, feed, cfg)
		type peer struct {
			pk    cipher.PubKey
			addr  string
			n     *Node
			works bool // it can be subscribed to
		}
		var ps []*peer
		defer func() {
			for _, p := range ps {
				if p.n != nil {
					p.n.Close()
				}
			}
		}()
		for i := 1 + v.R.Intn(5); i > 0; i-- {
			p := &peer{addr: fmt.Sprintf("127.0.%d.%d:%d", x>>8, x&255, 100+i)}
			switch v.R.Intn(4) {
			case 0: // nobody listens
				p.pk = vpk(4000 + i)
				c.note("nobody at a peer")
			case 1: // refuses
				conf := vconf()
				conf.TCP.Listen = p.addr
				conf.OnSubscribeRemote = func(*Conn, cipher.PubKey) error { return errors.New("no") }
				p.n, err = NewNode(conf)
				vmust(err)
				p.pk = p.n.ID()
				vmust(p.n.Share(feed))
				c.note("a peer that refuses")
			default:
				conf := vconf()
				conf.TCP.Listen = p.addr
				p.n, err = NewNode(conf)
				vmust(err)
				p.pk = p.n.ID()
				vmust(p.n.Share(feed))
				p.works = true
				c.note("a peer")
			}
			vmust(s.AddPeer(p.pk, nil, p.addr, ""))
			ps = append(ps, p)
		}
		s.mu.Lock()
		for pk, q := range s.peers {
			q.RetryTimes = 7
			s.peers[pk] = q
		}
		s.mu.Unlock()
		for _, p := range ps { // some are connected
			if p.works && v.R.Intn(4) == 0 && (conf.MaxConnections == 0 || len(n.Connections()) < conf.MaxConnections) {
				conn, err := n.TCP().Connect(p.addr)
				vmust(err)
				c.note("one is connected")
				if v.R.Intn(2) == 0 {
					vmust(conn.Subscribe(feed))
					c.note("and subscribed to")
				}
			}
		}
		room := 1 << 30
		if conf.MaxConnections > 0 {
			room = conf.MaxConnections - len(n.Connections())
		}
		subs := len(n.ConnectionsOfFeed(feed))
		want := int(cfg.MaxConns) - subs
		if want > room {
			want = room
		}
		if want < 0 {
			want = 0
		}
		count, ok := s.needConns()
		if int(count) != want || ok != (want > 0) {
			c.fail("need", "%d connections are needed (%v), not %d: %d of the feed, room for %d", count, ok, want, subs, room)
		}
		had := map[cipher.PubKey]bool{}
		for _, conn := range n.Connections() {
			had[conn.PeerID()] = true
		}
		can := 0
		for _, p := range ps {
			if !had[p.pk] {
				can++
			}
		}
		if want > can {
			want = can
		}
		if !ok {
			count = 0
		}
		if count > 0 {
			c.ends("createOutgoingConns", func() { s.createOutgoingConns(count) })
		}
		tried := func() map[cipher.PubKey]uint64 {
			r := map[cipher.PubKey]uint64{}
			for _, q := range s.Peers() {
				if q.RetryTimes != 7 {
					r[q.PubKey] = q.RetryTimes
				}
			}
			return r
		}
		c.wait("connections", func() bool { return len(tried()) >= want })
		time.Sleep(2 * time.Millisecond)
		t := tried()
		if len(t) != want {
			c.fail("count", "%d peers are tried, not %d", len(t), want)
		}
		for _, p := range ps {
			r, ok := t[p.pk]
			if !ok {
				continue
			}
			if had[p.pk] {
				c.fail("again", "a peer that is connected is tried")
			}
			if p.works && r != 0 || !p.works && r != 8 {
				c.fail("retry", "a peer that works (%v) has %d failures after 7 and a try", p.works, r)
			}
			if _, yep := n.hasPeer(p.pk); yep != (p.n != nil) {
				c.fail("connect", "a peer is connected: %v, there is one: %v", yep, p.n != nil)
			}
		}
		if l := len(n.ConnectionsOfFeed(feed)); l > int(cfg.MaxConns) && l > subs {
			c.fail("limit", "%d connections of the feed", l)
		}
		if l := len(n.Connections()); conf.MaxConnections > 0 && l > conf.MaxConnections {
			c.fail("limit", "%d connections", l)
		}
		// found by the discovery
		var di []*discovery.NodeInfo
		for _, p := range ps {
			di = append(di, &discovery.NodeInfo{PubKey: p.pk, Address: p.addr}, nil)
		}
		if conf.MaxConnections == 0 && v.R.Intn(2) == 0 {
			c.note("discovery")
			c.ends("discovery", func() {
				n.TCP().findServiceNodes(&discovery.QueryResp{Result: []*discovery.ServiceInfo{nil, {PubKey: feed, Nodes: di}}})
			})
			for _, p := range ps {
				conn, yep := n.hasPeer(p.pk)
				if yep != (p.n != nil) {
					c.fail("discovery", "a peer found is connected: %v, it's there: %v", yep, p.n != nil)
				}
				if yep && n.fs.hasConnFeed(conn, feed) != p.works {
					c.fail("discovery", "a peer found is subscribed to: %v, it accepts: %v", n.fs.hasConnFeed(conn, feed), p.works)
				}
			}
		}
		c.note("closing")
		closed = true
		c.ends("closing", func() { n.Close() })
	})
}

// a swarm that runs
func vruns(v *V, n *Node, i int) {
	c := &vcase{v: v}
	c.run(func() {
		feed := vpk(5000 + i)
		ms := time.Millisecond
		cfg := SwarmConfig{RequestPeerRate: ms * time.Duration(1+v.R.Intn(3)), ClearOldPeersRate: ms * time.Duration(1+v.R.Intn(3)), OutgoingConnRate: ms * time.Duration(1+v.R.Intn(3)), PeerExpirePeriod: time.Hour}
		slow := v.R.Intn(2) == 0
		if slow {
			cfg = SwarmConfig{RequestPeerRate: time.Hour, ClearOldPeersRate: time.Hour, OutgoingConnRate: time.Hour}
		}
		c.note("rates %v", cfg.OutgoingConnRate)
		s, err := n.JoinSwarm(feed, cfg)
		vmust(err)
		if g, err := n.JoinSwarm(feed, cfg); err != nil || g != s {
			c.fail("join", "joining again gives another: %v", err)
		}
		if g, ok := n.InSwarm(feed); !ok || g != s {
			c.fail("join", "not in the swarm joined")
		}
		s.AddPeer(vpk(1), nil, "127.0.0.1:9", "")
		s.AddPeer(vpk(2), nil, "", "")
		if !slow {
			s.mu.Lock()
			p := s.peers[vpk(2)]
			p.LastSeen = time.Now().Add(-2 * time.Hour)
			s.peers[vpk(2)] = p
			s.mu.Unlock()
			c.wait("the old peer is forgotten and the other tried", func() bool {
				l := s.Peers()
				return len(l) == 1 && l[0].RetryTimes > 0
			})
		}
		c.note("leaving")
		c.ends("leaving", func() { err = n.LeaveSwarm(feed) })
		vmust(err)
		if _, ok := n.InSwarm(feed); ok {
			c.fail("leave", "in the swarm left")
		}
		if err := n.LeaveSwarm(feed); err == nil {
			c.fail("leave", "left twice")
		}
	})
}

func TestVerif(t *testing.T) {
	os.Setenv("HOME", os.TempDir())
	v := vstart(t, "a case is a history of a swarm, of its exchange with a scripted peer, or of its connections to real nodes; non-trivial: all",
		"at most 12 identities and 13 addresses, limits below 7, 25 operations; 5 peers; in-memory transport")
	evs := make(chan vev, 10000)
	mk := func(listen string) *Node {
		conf := vconf()
		conf.TCP.Listen = listen
		conf.OnPeerAdded = func(_ cipher.PubKey, p Peer) { evs <- vev{'a', p} }
		conf.OnPeerUpdated = func(_ cipher.PubKey, p Peer) { evs <- vev{'u', p} }
		conf.OnPeerRemoved = func(_ cipher.PubKey, p Peer) { evs <- vev{'r', p} }
		n, err := NewNode(conf)
		vmust(err)
		n.TCP()
		n.UDP()
		return n
	}
	a, b, r := mk(vself), mk(""), mk("")
	for i := 0; v.More(1); i++ {
		switch {
		case i%8 == 5:
			vexchange(v, b, i)
		case i%8 == 6:
			vconns(v, i/8)
		case i%8 == 7:
			vruns(v, r, i)
			for e := true; e; {
				select {
				case <-evs:
				case <-time.After(5 * time.Millisecond):
					e = false
				}
			}
		case i%2 == 0:
			vpeers(v, a, evs, true)
		default:
			vpeers(v, b, evs, false)
		}
	}
	v.Done()
}
