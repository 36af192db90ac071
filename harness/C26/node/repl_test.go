package node

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/skycoin/net/factory"
	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/node/log"
	"github.com/skycoin/cxo/node/msg"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"
)

const vlong = 20 * time.Second

type vItem struct {
	N    uint32
	Data []byte
	Next registry.Ref  `skyobject:"schema=v.Item"`
	Many registry.Refs `skyobject:"schema=v.Item"`
}

var vReg = registry.NewRegistry(func(r *registry.Reg) { r.Register("v.Item", vItem{}) })

type vlogw struct{}

func (vlogw) Write(p []byte) (int, error) { return len(p), nil }

func vconf() *Config {
	c := NewConfig()
	c.Config = skyobject.NewConfig()
	c.Config.InMemoryDB = true
	c.Config.RollAvgSamples = 1
	c.TCP.Listen, c.UDP.Listen, c.RPC = "", "", ""
	c.TCP.ResponseTimeout, c.UDP.ResponseTimeout = 2*vlong, 2*vlong
	c.MaxFillingTime = 0
	c.Logger = log.NewConfig()
	c.Logger.Output = vlogw{}
	return c
}

type vroot struct {
	r    *registry.Root
	raw  []byte
	sig  cipher.Sig
	keys map[cipher.SHA256]bool // all the root refers to
}

// what is published
type vpub struct {
	c  *skyobject.Container
	pk cipher.PubKey
	sk cipher.SecKey
	up *skyobject.Unpack
	rs map[uint64][]*vroot // by head
	ro map[uint64]*registry.Root

	big bool
}

func vmust(err error) {
	if err != nil {
		panic(err)
	}
}

func newVpub(c *skyobject.Container, b byte) *vpub {
	p := &vpub{c: c, rs: map[uint64][]*vroot{}, ro: map[uint64]*registry.Root{}}
	p.pk, p.sk = cipher.GenerateDeterministicKeyPair([]byte{7, b})
	vmust(c.AddFeed(p.pk))
	var err error
	p.up, err = c.Unpack(p.sk, vReg)
	vmust(err)
	return p
}

func (p *vpub) item(v *V, depth int) *vItem {
	it := &vItem{N: uint32(v.R.Intn(50)), Data: v.Bytes(v.R.Intn(9))}
	if p.big {
		it.Data = make([]byte, 5000)
		return it
	}
	if depth > 0 && v.R.Intn(2) == 0 {
		vmust(it.Next.SetValue(p.up, p.item(v, depth-1)))
	}
	if depth > 0 && v.R.Intn(3) == 0 {
		for i := v.R.Intn(6); i > 0; i-- {
			vmust(it.Many.AppendValues(p.up, p.item(v, depth-1)))
		}
	}
	return it
}

// save a root, changing a part of the one before
func (p *vpub) save(v *V, nonce uint64) *vroot {
	r := p.ro[nonce]
	if r == nil {
		r = &registry.Root{Pub: p.pk, Nonce: nonce}
		p.ro[nonce] = r
	}
	sch, _ := vReg.SchemaByName("v.Item")
	d := registry.Dynamic{Schema: sch.Reference()}
	if len(r.Refs) == 0 || v.R.Intn(10) > 0 {
		vmust(d.SetValue(p.up, p.item(v, 3)))
		if len(r.Refs) > 0 && v.R.Intn(2) == 0 {
			r.Refs[v.R.Intn(len(r.Refs))] = d
		} else {
			r.Refs = append(r.Refs, d)
		}
	}
	vmust(p.c.Save(p.up, r))
	rr, err := p.c.Root(p.pk, nonce, r.Seq)
	vmust(err)
	vr := &vroot{r: rr, raw: rr.Encode(), sig: rr.Sig, keys: map[cipher.SHA256]bool{cipher.SHA256(rr.Reg): true}}
	vmust(p.c.Walk(rr, func(k cipher.SHA256, _ int) (bool, error) {
		if k == (cipher.SHA256{}) {
			return false, nil
		}
		vr.keys[k] = true
		return true, nil
	}))
	p.rs[nonce] = append(p.rs[nonce], vr)
	return vr
}

type vcase struct {
	v     *V
	mx    sync.Mutex
	log   []string
	fails []string
	start time.Time
	peers int
}

func (c *vcase) note(f string, as ...interface{}) {
	c.mx.Lock()
	defer c.mx.Unlock()
	c.log = append(c.log, fmt.Sprintf(f, as...))
}

// from any goroutine, reported by the main one
func (c *vcase) bad(class, f string, as ...interface{}) {
	c.mx.Lock()
	defer c.mx.Unlock()
	c.fails = append(c.fails, class+"\x00"+fmt.Sprintf(f, as...))
}

type vstop struct{}

func (c *vcase) report() {
	c.mx.Lock()
	defer c.mx.Unlock()
	for _, f := range c.fails {
		s := strings.SplitN(f, "\x00", 2)
		c.v.Fail(s[0], strings.Join(c.log, "; "), "%s", s[1])
	}
	c.fails = nil
}

func (c *vcase) fail(class, f string, as ...interface{}) {
	c.bad(class, f, as...)
	c.report()
	panic(vstop{})
}

func (c *vcase) wait(class, what string, f func() bool) {
	for t := time.Now(); !f(); time.Sleep(time.Millisecond) {
		if time.Since(t) > vlong {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			if p := os.Getenv("VERIF_STACKS"); p != "" {
				os.WriteFile(p, buf, 0644)
			}
			c.fail(class, "%s: not in %v", what, vlong)
		}
	}
}

func (c *vcase) closeNode(n *Node, name string) {
	done := make(chan interface{}, 1)
	go func() {
		r, _ := vpanics(func() { n.Close() })
		done <- r
	}()
	c.wait("close", "closing of "+name, func() bool { return len(done) == 1 })
	if r := <-done; r != nil {
		c.fail("close", "closing of %s: panic %v", name, r)
	}
}

// a peer that follows a script
type vpeer struct {
	c    *vcase
	name string
	pub  *vpub
	fc   *factory.Connection
	id   cipher.PubKey

	mx    sync.Mutex
	seq   uint32
	known map[cipher.SHA256]bool // announced
	mode  string                 // how to answer
	held  []func()
	asked int
	wrong bool // gave a wrong object
	gone  bool // closed by the peer
	oks   int
	lists int
	quit  chan struct{}
}

func (p *vpeer) send(rseq uint32, m msg.Msg) {
	p.mx.Lock()
	p.seq++
	b := (&Conn{}).encodeMsg(p.seq, rseq, m)
	p.mx.Unlock()
	select {
	case p.fc.GetChanOut() <- b:
	case <-p.quit:
	case <-time.After(vlong):
		if !p.fc.IsClosed() {
			p.c.bad("stuck", "the node doesn't read what %s sends", p.name)
		}
	}
}

func (p *vpeer) loop() {
	for {
		var b []byte
		var ok bool
		select {
		case b, ok = <-p.fc.GetChanIn():
			if !ok {
				return
			}
		case <-p.quit:
			return
		}
		m, err := msg.Decode(b[8:])
		if err != nil {
			p.c.bad("frame", "%s got % x: %v", p.name, b, err)
			return
		}
		seq := binary.LittleEndian.Uint32(b)
		switch x := m.(type) {
		case *msg.Ok:
			p.mx.Lock()
			p.oks++
			p.mx.Unlock()
		case *msg.Err, *msg.List:
			p.mx.Lock()
			p.lists++
			p.mx.Unlock()
		case *msg.RqObject:
			p.mx.Lock()
			known, mode, gone := p.known[x.Key], p.mode, p.gone
			p.asked++
			p.mx.Unlock()
			if !known && !gone {
				p.c.bad("asked", "%s is asked for an object of no root it has announced", p.name)
			}
			val, _, err := p.pub.c.Get(x.Key, 0)
			if err != nil {
				continue
			}
			val = append([]byte(nil), val...)
			p.c.note("%s is asked (%s)", p.name, mode)
			good := func() { p.send(seq, &msg.Object{Value: val}) }
			switch mode {
			case "good":
				good()
			case "twice":
				good()
				good()
			case "hold":
				p.mx.Lock()
				p.held = append(p.held, good)
				p.mx.Unlock()
			case "wrong":
				p.mx.Lock()
				p.wrong = true
				p.mx.Unlock()
				if len(val) > 0 && seq%2 == 0 {
					val[int(seq)%len(val)] ^= 1
				} else {
					val = append(val, 1)
				}
				p.send(seq, &msg.Object{Value: val})
			case "err":
				p.mx.Lock()
				p.wrong = true
				p.mx.Unlock()
				p.send(seq, &msg.Err{Err: "none"})
			case "close":
				p.mx.Lock()
				p.gone = true
				p.mx.Unlock()
				p.fc.Close()
				return
			}
		}
	}
}

func (p *vpeer) release() {
	p.mx.Lock()
	h := p.held
	p.held = nil
	p.mx.Unlock()
	for _, f := range h {
		f()
	}
}

func (p *vpeer) announce(r *vroot) {
	p.mx.Lock()
	for k := range r.keys {
		p.known[k] = true
	}
	p.mx.Unlock()
	p.send(0, &msg.Root{Feed: r.r.Pub, Nonce: r.r.Nonce, Seq: r.r.Seq, Value: r.raw, Sig: r.sig})
}

var vaddr int

func (c *vcase) peer(n *Node, pub *vpub, mode string) (p *vpeer) {
	vaddr++
	c.peers++
	p = &vpeer{c: c, name: fmt.Sprint("peer", c.peers), pub: pub, mode: mode, known: map[cipher.SHA256]bool{}, quit: make(chan struct{})}
	a, b := factory.Pipe(c.v.R.Intn(2) == 0, fmt.Sprint("addr:", vaddr), "me")
	p.fc = b
	c.v.R.Read(p.id[:])
	p.send(0, &msg.Syn{Protocol: msg.Version, NodeID: p.id})
	done := make(chan error, 1)
	go func() {
		_, err := n.initConn(a, true)
		done <- err
	}()
	select {
	case err := <-done:
		if err != nil {
			c.fail("setup", "handshake: %v", err)
		}
	case <-time.After(vlong):
		c.fail("stuck", "a handshake goes on for %v", vlong)
	}
	go p.loop()
	p.send(0, &msg.Sub{Feed: pub.pk})
	c.wait("stuck", "reply to a subscription", func() bool {
		p.mx.Lock()
		defer p.mx.Unlock()
		return p.oks > 0
	})
	c.note("%s (%s)", p.name, mode)
	return
}

// everything sent by the peer before has been received
func (c *vcase) sync(p *vpeer) {
	p.mx.Lock()
	l := p.lists
	p.mx.Unlock()
	p.send(0, &msg.RqList{})
	c.wait("stuck", "reply to "+p.name, func() bool {
		p.mx.Lock()
		defer p.mx.Unlock()
		return p.lists > l || p.gone
	})
}

type vfilled struct {
	mx sync.Mutex
	m  map[string]int
}

func (f *vfilled) add(r *registry.Root) {
	f.mx.Lock()
	f.m[fmt.Sprint(r.Pub.Hex()[:6], r.Nonce, "/", r.Seq)]++
	f.mx.Unlock()
}

func (f *vfilled) has(r *registry.Root) bool {
	f.mx.Lock()
	defer f.mx.Unlock()
	return f.m[fmt.Sprint(r.Pub.Hex()[:6], r.Nonce, "/", r.Seq)] > 0
}

func (c *vcase) whole(n *Node, r *vroot) {
	g, err := n.c.Root(r.r.Pub, r.r.Nonce, r.r.Seq)
	if err != nil {
		c.fail("filled", "a root reported as filled can't be read: %v", err)
	}
	if !bytes.Equal(g.Encode(), r.raw) || g.Sig != r.sig {
		c.fail("filled", "another root is filled")
	}
	for k := range r.keys {
		if _, _, err := n.c.Get(k, 0); err != nil {
			c.fail("filled", "an object of a root reported as filled can't be read: %v", err)
		}
	}
}

// one node and peers that follow scripts
func (c *vcase) scripted() {
	v := c.v
	pc, err := skyobject.NewContainer(vconf().Config)
	vmust(err)
	defer pc.Close()
	pub := newVpub(pc, byte(v.R.Intn(256)))
	conf := vconf()
	if v.R.Intn(3) == 0 {
		conf.MaxFillingTime = time.Duration(1+v.R.Intn(10)) * time.Millisecond
	}
	if v.R.Intn(4) == 0 {
		conf.TCP.ResponseTimeout = time.Duration(1+v.R.Intn(10)) * time.Millisecond
		conf.UDP.ResponseTimeout = conf.TCP.ResponseTimeout
	}
	if v.R.Intn(2) == 0 {
		conf.Config.MaxFillingParallel = 1 + v.R.Intn(3)
	}
	conf.MaxHeads = []int{0, 1, 2, 10}[v.R.Intn(4)]
	if v.R.Intn(5) == 0 {
		conf.Config.CacheMaxAmount, conf.Config.CacheMaxVolume, conf.Config.CacheMaxItemSize = 0, 0, 0
	}
	big := v.R.Intn(8) == 0
	if big {
		conf.Config.MaxObjectSize = 4096
		if conf.Config.CacheMaxAmount > 0 {
			conf.Config.CacheMaxItemSize = 4096
		}
		c.note("objects of up to 4096 bytes")
	}
	var got vfilled
	got.m = map[string]int{}
	var rejects = v.R.Intn(6) == 0
	var rmx sync.Mutex
	conf.OnRootReceived = func(*Conn, *registry.Root) error {
		rmx.Lock()
		defer rmx.Unlock()
		if rejects {
			return errors.New("rejected")
		}
		return nil
	}
	conf.OnRootFilled = func(_ *Node, r *registry.Root) { got.add(r) }
	var breaks int32
	conf.OnFillingBreaks = func(*Node, *registry.Root, error) { atomic.AddInt32(&breaks, 1) }
	c.note("filling time %v, response timeout %v, %d heads, %d parallel, rejecting: %v", conf.MaxFillingTime, conf.TCP.ResponseTimeout, conf.MaxHeads, conf.Config.MaxFillingParallel, rejects)
	n, err := NewNode(conf)
	vmust(err)
	n.TCP()
	n.UDP()
	vmust(n.Share(pub.pk))
	var peers, left []*vpeer
	defer func() {
		for _, p := range append(peers, left...) {
			close(p.quit)
			p.fc.Close()
		}
	}()
	heads := 1
	if v.R.Intn(4) == 0 {
		heads = 3
	}
	for h := 0; h < heads; h++ {
		for i := 1 + v.R.Intn(4); i > 0; i-- {
			pub.save(v, uint64(h+1))
		}
	}
	if big { // something too large breaks the filling of its root only
		pub2 := newVpub(pc, 3)
		pub2.big = true
		vmust(n.Share(pub2.pk))
		p := c.peer(n, pub2, "good")
		peers = append(peers, p)
		r := pub2.save(v, 1)
		c.note("%s announces a root with an object of 5000 bytes", p.name)
		p.announce(r)
		c.wait("large", "end of filling of a too large object", func() bool {
			return atomic.LoadInt32(&breaks) > 0 || conf.MaxFillingTime > 0 || rejects
		})
	}
	modes := []string{"good", "good", "good", "twice", "hold", "hold", "wrong", "err", "never", "close"}
	for i := 1 + v.R.Intn(3); i > 0; i-- {
		peers = append(peers, c.peer(n, pub, modes[v.R.Intn(len(modes))]))
	}
	for i := 2 + v.R.Intn(10); i > 0; i-- {
		if len(peers) == 0 {
			peers = append(peers, c.peer(n, pub, modes[v.R.Intn(len(modes))]))
		}
		k := v.R.Intn(len(peers))
		p := peers[k]
		nonce := uint64(1 + v.R.Intn(heads))
		switch v.R.Intn(10) {
		default:
			rs := pub.rs[nonce]
			r := rs[v.R.Intn(len(rs))]
			c.note("%s announces %d/%d", p.name, nonce, r.r.Seq)
			p.announce(r)
		case 5:
			c.note("%s releases", p.name)
			p.release()
		case 6:
			mode := modes[v.R.Intn(len(modes))]
			c.note("%s is %s", p.name, mode)
			p.mx.Lock()
			p.mode = mode
			p.mx.Unlock()
		case 7:
			c.note("a root is saved")
			pub.save(v, nonce)
		case 8:
			c.note("%s leaves", p.name)
			p.mx.Lock()
			p.gone = true
			p.mx.Unlock()
			if v.R.Intn(2) == 0 {
				p.send(0, &msg.Unsub{Feed: pub.pk})
			} else {
				p.fc.Close()
			}
			left = append(left, p)
			peers = append(peers[:k], peers[k+1:]...)
		case 9:
			time.Sleep(time.Duration(v.R.Intn(3000)) * time.Microsecond)
		}
	}
	if v.R.Intn(3) > 0 {
		// the end: everything newest gets filled from a good peer
		if v.R.Intn(2) == 0 {
			for _, p := range peers {
				c.note("%s releases", p.name)
				p.release()
			}
		}
		rmx.Lock()
		rejects = false
		rmx.Unlock()
		conf.MaxFillingTime = 0
		conf.TCP.ResponseTimeout, conf.UDP.ResponseTimeout = 2*vlong, 2*vlong
		for _, p := range append(left, peers...) { // those who never answer
			p.fc.Close()
		}
		last := c.peer(n, pub, "good")
		peers = append(peers, last)
		for h := 0; h < heads; h++ {
			rs := pub.rs[uint64(h+1)]
			r := rs[len(rs)-1]
			c.note("%s announces %d/%d until it's filled", last.name, h+1, r.r.Seq)
			t := time.Now()
			c.wait("newest", fmt.Sprintf("filling of the newest root %d/%d from a good peer", h+1, r.r.Seq), func() bool {
				if got.has(r.r) {
					return true
				}
				if time.Since(t) > 100*time.Millisecond || len(last.known) == 0 {
					last.announce(r)
					t = time.Now()
				}
				return false
			})
			c.whole(n, r)
			// older ones are of no interest then
			if len(rs) > 1 {
				o := rs[v.R.Intn(len(rs)-1)]
				if _, err := n.c.Root(o.r.Pub, o.r.Nonce, o.r.Seq); err == data.ErrNotFound {
					c.sync(last)
					last.mx.Lock()
					was := last.asked
					last.mx.Unlock()
					last.announce(o)
					c.sync(last)
					time.Sleep(2 * time.Millisecond)
					last.mx.Lock()
					now := last.asked
					last.mx.Unlock()
					if _, err := n.c.Root(o.r.Pub, o.r.Nonce, o.r.Seq); err == nil || now > was {
						c.fail("older", "the root %d older than the newest one is filled", o.r.Seq)
					}
				}
			}
		}
		// those who gave a wrong object are disconnected
		for _, p := range peers {
			p.mx.Lock()
			wrong := p.wrong
			p.mx.Unlock()
			if wrong {
				c.wait("wrong", p.name+" that gave a wrong object gets disconnected", p.fc.IsClosed)
			}
		}
	}
	c.closeNode(n, "the node")
	c.report()
	for pk, nf := range n.fs.fs {
		if pk != (cipher.PubKey{}) && conf.MaxHeads > 0 && len(nf.hs) > conf.MaxHeads {
			c.fail("heads", "%d heads are kept, %d is the limit", len(nf.hs), conf.MaxHeads)
		}
	}
}

// nodes between, everything announced once
func (c *vcase) chain() {
	v := c.v
	k := 2 + v.R.Intn(3)
	var ns []*Node
	var gots []*vfilled
	parent := make([]int, k)
	var leaving int32 // connections are being closed
	defer func() {
		for _, i := range v.R.Perm(len(ns)) {
			c.closeNode(ns[i], fmt.Sprint("node ", i))
		}
		c.report()
	}()
	for i := 0; i < k; i++ {
		conf := vconf()
		if v.R.Intn(3) == 0 {
			conf.Config.MaxFillingParallel = 1
		}
		got := &vfilled{m: map[string]int{}}
		gots = append(gots, got)
		conf.OnRootFilled = func(_ *Node, r *registry.Root) { got.add(r) }
		conf.OnFillingBreaks = func(_ *Node, r *registry.Root, err error) {
			if atomic.LoadInt32(&leaving) == 1 {
				return
			}
			c.bad("breaks", "filling of root %d fails without a cause: %v", r.Seq, err)
		}
		n, err := NewNode(conf)
		vmust(err)
		ns = append(ns, n)
		vaddr++
		vmust(n.TCP().Listen(fmt.Sprint("listen:", vaddr)))
		n.UDP()
	}
	pub := newVpub(ns[0].c, byte(v.R.Intn(256)))
	vmust(ns[0].Share(pub.pk))
	feeds := []cipher.PubKey{pub.pk} // the other ones have no roots
	for i := v.R.Intn(3); i > 0; i-- {
		pk, _ := cipher.GenerateDeterministicKeyPair([]byte{8, byte(i)})
		vmust(ns[0].Share(pk))
		feeds = append(feeds, pk)
	}
	heads := 1 + v.R.Intn(2)
	for i := v.R.Intn(3); i > 0; i-- {
		pub.save(v, 1)
	}
	lis := func(n *Node) string {
		return n.TCP().Address()
	}
	for i := 1; i < k; i++ {
		parent[i] = v.R.Intn(i)
		cn, err := ns[i].TCP().Connect(lis(ns[parent[i]]))
		vmust(err)
		for _, pk := range feeds {
			vmust(cn.Subscribe(pk))
		}
	}
	c.note("nodes connected to: %v", parent[1:])
	news := map[uint64]bool{} // heads with roots published when all are subscribed
	for i := 1 + v.R.Intn(6); i > 0; i-- {
		nonce := uint64(1 + v.R.Intn(heads))
		r := pub.save(v, nonce)
		news[nonce] = true
		c.note("%d/%d is published", nonce, r.r.Seq)
		rr := *r.r
		ns[0].Publish(&rr)
		if v.R.Intn(3) == 0 {
			time.Sleep(time.Duration(v.R.Intn(2000)) * time.Microsecond)
		}
	}
	var nonces []uint64
	for h := range news {
		nonces = append(nonces, h)
	}
	sort.Slice(nonces, func(i, j int) bool { return nonces[i] < nonces[j] })
	for i := 1; i < k; i++ {
		for _, h := range nonces {
			rs := pub.rs[h]
			r := rs[len(rs)-1]
			if !gots[i].has(r.r) {
				c.wait("chain", fmt.Sprintf("filling of the newest root %d/%d by node %d", h, r.r.Seq, i), func() bool {
					c.report()
					return gots[i].has(r.r)
				})
			}
			c.whole(ns[i], r)
		}
	}
	// closed connections are forgotten
	atomic.StoreInt32(&leaving, 1)
	i := 1 + v.R.Intn(k-1)
	cns := ns[i].Connections()
	for _, cn := range cns {
		cn.Close()
	}
	c.note("node %d closes its connections", i)
	gone := func() bool {
		for _, pk := range feeds {
			if len(ns[i].ConnectionsOfFeed(pk)) != 0 {
				return false
			}
		}
		return len(ns[i].Connections()) == 0
	}
	c.wait("gone", "forgetting of closed connections", gone)
	if v.R.Intn(2) == 0 { // a subscription that is handled after it
		for _, cn := range cns {
			ns[i].fs.addConnFeed(cn, feeds[v.R.Intn(len(feeds))])
		}
		c.note("a late subscription")
		if !gone() {
			c.fail("gone", "a closed connection is kept because of a late subscription")
		}
	}
	// and it can come again, and gets what it missed
	r := pub.save(v, 1)
	ns[0].Publish(r.r)
	cn, err := ns[i].TCP().Connect(lis(ns[0]))
	if err == ErrAlreadyHaveConnection || err != nil && strings.Contains(err.Error(), ErrAlreadyHaveConnection.Error()) {
		return // the other side didn't notice yet
	}
	vmust(err)
	vmust(cn.Subscribe(pub.pk))
	c.note("node %d comes again", i)
	if ns[0].c.ActiveHead(pub.pk) == 1 {
		c.wait("again", "filling of the root that was missed", func() bool {
			return gots[i].has(r.r)
		})
	}
}

func vOne(v *V) {
	c := &vcase{v: v, start: time.Now()}
	defer func() {
		r := recover()
		if _, ok := r.(vstop); r != nil && !ok {
			c.note("%v", r)
			v.Fail("panic", strings.Join(c.log, "; "), "panic: %v", r)
		}
		c.mx.Lock()
		defer c.mx.Unlock()
		v.Case(strings.Join(c.log, "; "), len(c.log) > 4)
	}()
	if v.R.Intn(3) == 0 {
		c.chain()
	} else {
		c.scripted()
	}
}

func TestVerif(t *testing.T) {
	os.Setenv("HOME", os.TempDir())
	v := vstart(t, "a case is one node with peers that follow a script, or several real nodes that replicate a feed; non-trivial: more than four events",
		"up to four peers or nodes, three heads, about ten roots; schedules as they happen")
	for v.More(1) {
		v.Pending("a node panics or stops")
		vOne(v)
	}
	v.Done()
}
