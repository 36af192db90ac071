package skyobject

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"runtime/pprof"
	"strings"
	"sync"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
	"github.com/skycoin/skycoin/src/cipher/encoder"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/cxds"
	"github.com/skycoin/cxo/data/idxdb"
	"github.com/skycoin/cxo/skyobject/registry"
)

// A world is a container with roots that are saved, received and deleted at
// random, and what there must be of it: computed from the encodings of stored
// objects by the code below.

type vLeaf struct {
	N uint32
	S string
}

type vNode struct {
	Name  string
	Child registry.Ref     `skyobject:"schema=v.Leaf"`
	Next  registry.Ref     `skyobject:"schema=v.Node"`
	List  registry.Refs    `skyobject:"schema=v.Leaf"`
	Nodes registry.Refs    `skyobject:"schema=v.Node"`
	Dyn   registry.Dynamic `enc:"any"`
	Pair  [2]vInner
}

type vInner struct {
	X uint8
	R registry.Ref `skyobject:"schema=v.Leaf"`
}

type vOther struct {
	A string
}

type vERefs struct {
	Depth    uint32
	Degree   uint32
	Length   uint32
	Elements []cipher.SHA256
}

type vENode struct {
	Length   uint32
	Elements []cipher.SHA256
}

var vRegs = []*registry.Registry{
	registry.NewRegistry(func(r *registry.Reg) {
		r.Register("v.Leaf", vLeaf{})
		r.Register("v.Node", vNode{})
		r.Register("v.Inner", vInner{})
	}),
	registry.NewRegistry(func(r *registry.Reg) {
		r.Register("v.Leaf", vLeaf{})
		r.Register("v.Node", vNode{})
		r.Register("v.Inner", vInner{})
		r.Register("v.Other", vOther{})
	}),
}

func vSchema(reg *registry.Registry, name string) registry.SchemaRef {
	s, err := reg.SchemaByName(name)
	if err != nil {
		panic(err)
	}
	return s.Reference()
}

func vKind(s registry.SchemaRef) string {
	for _, n := range []string{"v.Leaf", "v.Node"} {
		for _, r := range vRegs {
			if vSchema(r, n) == s {
				return n
			}
		}
	}
	return "v.Other"
}

type vEdge struct {
	hash cipher.SHA256
	kind string
}

// what an object of given kind refers to
func vChildren(kind string, val []byte) (es []vEdge, err error) {
	switch {
	case kind == "v.Node":
		var n vNode
		if _, err = encoder.DeserializeRaw(val, &n); err != nil {
			return
		}
		return []vEdge{{n.Child.Hash, "v.Leaf"}, {n.Next.Hash, "v.Node"},
			{n.List.Hash, "refs v.Leaf"}, {n.Nodes.Hash, "refs v.Node"},
			{n.Dyn.Hash, vKind(n.Dyn.Schema)},
			{n.Pair[0].R.Hash, "v.Leaf"}, {n.Pair[1].R.Hash, "v.Leaf"}}, nil
	case strings.HasPrefix(kind, "refs "):
		var r vERefs
		if _, err = encoder.DeserializeRaw(val, &r); err != nil {
			return
		}
		return vBranch(int(r.Depth), r.Elements, kind[5:]), nil
	case strings.HasPrefix(kind, "branch "):
		var d int
		var k string
		fmt.Sscanf(kind, "branch %d %s", &d, &k)
		var r vENode
		if _, err = encoder.DeserializeRaw(val, &r); err != nil {
			return
		}
		return vBranch(d, r.Elements, k), nil
	}
	return
}

func vBranch(depth int, hs []cipher.SHA256, kind string) (es []vEdge) {
	for _, h := range hs {
		if depth == 0 {
			es = append(es, vEdge{h, kind})
		} else {
			es = append(es, vEdge{h, fmt.Sprintf("branch %d %s", depth-1, kind)})
		}
	}
	return
}

// a DB that stays when a container is closed
type vKeepCXDS struct{ data.CXDS }

func (vKeepCXDS) Close() error { return nil }

type vKeepIdx struct{ data.IdxDB }

func (vKeepIdx) Close() error { return nil }

type vOwner struct {
	pk cipher.PubKey
	sk cipher.SecKey
}

type vRoot struct {
	hash, prev cipher.SHA256
	reg        registry.RegistryRef
	refs       []registry.Dynamic
	time       int64
	sig        cipher.Sig
	val        []byte
}

type vWorld struct {
	v    *V
	prop string // report for this one only
	conf *Config
	c    *Container
	db   *data.DB
	feed map[cipher.PubKey]map[uint64]map[uint64]*vRoot

	remote *Container // of those who send
	extra  map[cipher.SHA256][]byte
	owners []vOwner // 0, 1: here; 2, 3: remote

	kinds map[cipher.SHA256]string // of objects that were ever referred to
	order []cipher.SHA256

	log []string
}

type vStop struct{}

func (w *vWorld) fail(prop, class, f string, as ...interface{}) {
	if prop == w.prop || os.Getenv("VERIF_ALL") != "" {
		w.v.Fail(prop+" "+class, strings.Join(w.log, "; "), f, as...)
	}
	panic(vStop{}) // the world is broken, nothing else follows
}

func (w *vWorld) note(f string, as ...interface{}) {
	w.log = append(w.log, fmt.Sprintf(f, as...))
}

func (w *vWorld) must(what string, err error) {
	if err != nil {
		w.fail("C30", what, "%s: %v", what, err)
	}
}

func (w *vWorld) n(n int) int { return w.v.R.Intn(n) }

func vMemDB() *data.DB {
	return data.NewDB(vKeepCXDS{cxds.NewMemoryCXDS()}, vKeepIdx{idxdb.NewMemeoryDB()})
}

func (w *vWorld) config() (c *Config) {
	c = NewConfig()
	c.DataDir = ""
	c.InMemoryDB = true
	c.RollAvgSamples = 1
	c.Degree = registry.Degree(2 + w.n(3))
	c.CacheRegistries = w.n(3)
	c.CachePolicy = CachePolicy(w.n(2))
	c.CacheCleaning = []float64{0.5, 0.7, 0.9}[w.n(3)]
	c.MaxObjectSize = 2048 + w.n(3)*1024
	switch w.n(4) {
	case 0: // off
		c.CacheMaxAmount = 0
		c.CacheMaxVolume = 0
	case 1: // tiny
		c.CacheMaxAmount = 1 + w.n(12)
		c.CacheMaxVolume = 20 + w.n(1500)
		c.CacheMaxItemSize = c.CacheMaxVolume / 3
	case 2:
		c.CacheMaxAmount = 1 + w.n(40)
	}
	return
}

func vOpen(conf *Config) (c *Container) {
	c, err := NewContainer(conf)
	if err != nil {
		panic(err)
	}
	return
}

func vShut(c *Container) (err error) {
	err = c.Close()
	c.Index.Close()
	return
}

func vNewWorld(v *V, prop string) (w *vWorld) {
	w = &vWorld{v: v, prop: prop, kinds: map[cipher.SHA256]string{}, extra: map[cipher.SHA256][]byte{},
		feed: map[cipher.PubKey]map[uint64]map[uint64]*vRoot{}}
	w.conf = w.config()
	w.db = vMemDB()
	w.conf.DB = w.db
	w.c = vOpen(w.conf)
	rc := NewConfig()
	rc.DataDir = ""
	rc.RollAvgSamples = 1
	rc.DB = vMemDB()
	rc.Degree = w.conf.Degree
	w.remote = vOpen(rc)
	for i := 0; i < 4; i++ {
		var o vOwner
		o.pk, o.sk = cipher.GenerateDeterministicKeyPair([]byte{byte(i), byte(w.n(256)), byte(w.n(256))})
		w.owners = append(w.owners, o)
		if i >= 2 {
			w.must("AddFeed", w.remote.AddFeed(o.pk))
		}
	}
	w.note("degree %d, cache %d items of %d bytes (one %d), policy %v, cleaning %v, %d registries", w.conf.Degree, w.conf.CacheMaxAmount, w.conf.CacheMaxVolume, w.conf.CacheMaxItemSize, w.conf.CachePolicy, w.conf.CacheCleaning, w.conf.CacheRegistries)
	return
}

func (w *vWorld) close() {
	vShut(w.c)
	vShut(w.remote)
}

//
// what there must be
//

// references to each object
func (w *vWorld) expect() (m map[cipher.SHA256]int) {
	m = map[cipher.SHA256]int{}
	var refer func(h cipher.SHA256, kind string, from string)
	refer = func(h cipher.SHA256, kind string, from string) {
		if h == (cipher.SHA256{}) {
			return
		}
		if m[h]++; m[h] > 1 {
			return
		}
		if w.kinds[h] == "" {
			w.kinds[h] = kind
			w.order = append(w.order, h)
		}
		val, _, err := w.db.CXDS().Get(h, 0)
		if err != nil {
			w.fail("C30", "lost", "%s %s that %s refers to can't be read: %v", kind, h.Hex()[:7], from, err)
		}
		if cipher.SumSHA256(val) != h {
			w.fail("C30", "value", "the value of %s is another one", h.Hex()[:7])
		}
		es, err := vChildren(kind, val)
		if err != nil {
			w.fail("C30", "value", "%s %s does not decode: %v", kind, h.Hex()[:7], err)
		}
		for _, e := range es {
			refer(e.hash, e.kind, kind+" "+h.Hex()[:7])
		}
	}
	for _, hs := range w.feed {
		for _, rs := range hs {
			for seq, r := range rs {
				from := fmt.Sprintf("root %d", seq)
				m[r.hash]++
				m[cipher.SHA256(r.reg)]++
				for _, d := range r.refs {
					refer(d.Hash, vKind(d.Schema), from)
				}
			}
		}
	}
	return
}

// check counters; closed: by the DB itself
func (w *vWorld) counters(when string, closed bool) {
	exp := w.expect()
	keys := map[cipher.SHA256]uint32{}
	w.db.CXDS().Iterate(func(k cipher.SHA256, rc uint32, val []byte) error {
		keys[k] = rc
		return nil
	})
	var bad []string
	for k, n := range exp {
		if _, ok := keys[k]; !ok {
			bad = append(bad, fmt.Sprintf("%s of %d references is not stored", k.Hex()[:7], n))
		}
	}
	for k, rc := range keys {
		if !closed {
			val, n, err := w.c.Get(k, 0)
			if err != nil {
				w.fail("C13", "get", "%s: Get of stored object: %v", when, err)
			}
			if cipher.SumSHA256(val) != k {
				w.fail("C13", "value", "%s: Get of %s gives another value", when, k.Hex()[:7])
			}
			rc = uint32(n)
		}
		if int(rc) != exp[k] {
			bad = append(bad, fmt.Sprintf("%s has %d, %d references", k.Hex()[:7], rc, exp[k]))
		}
	}
	if len(bad) > 0 {
		w.fail("C30", "counters", "%s: %s", when, strings.Join(bad, ", "))
	}
}

func (w *vWorld) last(pk cipher.PubKey, nonce uint64) (r *vRoot, seq uint64) {
	for s, x := range w.feed[pk][nonce] {
		if r == nil || s > seq {
			r, seq = x, s
		}
	}
	return
}

func (w *vWorld) index(when string) {
	c := w.c
	fs := map[cipher.PubKey]bool{}
	for _, pk := range c.Feeds() {
		if fs[pk] {
			w.fail("C16", "feeds", "%s: Feeds has %s twice", when, pk.Hex()[:7])
		}
		fs[pk] = true
		if w.feed[pk] == nil {
			w.fail("C16", "feeds", "%s: Feeds has %s that is not there", when, pk.Hex()[:7])
		}
	}
	for i, o := range w.owners {
		hs, ok := w.feed[o.pk]
		if c.HasFeed(o.pk) != ok || fs[o.pk] != ok {
			w.fail("C16", "feeds", "%s: feed %d: HasFeed %v, in Feeds %v, want %v", when, i, c.HasFeed(o.pk), fs[o.pk], ok)
		}
		heads, err := c.Heads(o.pk)
		if !ok {
			if err != data.ErrNoSuchFeed || c.ActiveHead(o.pk) != 0 {
				w.fail("C16", "heads", "%s: Heads of feed %d that is not there: %v", when, i, err)
			}
			continue
		}
		if err != nil || len(heads) != len(hs) {
			w.fail("C16", "heads", "%s: Heads of feed %d: %v %v, want %d", when, i, heads, err, len(hs))
		}
		var actn uint64
		var actt int64
		for _, nonce := range heads {
			if _, ok := hs[nonce]; !ok {
				w.fail("C16", "heads", "%s: Heads of feed %d has %d", when, i, nonce)
			}
		}
		for nonce := uint64(1); nonce <= 3; nonce++ {
			_, ok := hs[nonce]
			if c.HasHead(o.pk, nonce) != ok {
				w.fail("C16", "heads", "%s: HasHead %d/%d is %v", when, i, nonce, !ok)
			}
			seq, err := c.LastRootSeq(o.pk, nonce)
			if !ok {
				if err != data.ErrNoSuchHead {
					w.fail("C16", "last", "%s: LastRootSeq of %d/%d that is not there: %v", when, i, nonce, err)
				}
				continue
			}
			r, lseq := w.last(o.pk, nonce)
			if r == nil {
				if err != data.ErrNotFound {
					w.fail("C16", "last", "%s: LastRootSeq of blank head %d/%d: %v", when, i, nonce, err)
				}
				if _, err = c.LastRoot(o.pk, nonce); err != data.ErrNotFound {
					w.fail("C16", "last", "%s: LastRoot of blank head %d/%d: %v", when, i, nonce, err)
				}
				continue
			}
			if err != nil || seq != lseq {
				w.fail("C16", "last", "%s: LastRootSeq of %d/%d: %d %v, want %d", when, i, nonce, seq, err, lseq)
			}
			lr, err := c.LastRoot(o.pk, nonce)
			if err != nil || lr.Hash != r.hash || lr.Sig != r.sig || lr.Seq != lseq || lr.Pub != o.pk || lr.Nonce != nonce {
				w.fail("C16", "last", "%s: LastRoot of %d/%d: %v %v, want %s", when, i, nonce, lr, err, r.hash.Hex()[:7])
			}
			if r.time > actt {
				actn, actt = nonce, r.time
			}
			for s, x := range hs[nonce] {
				gr, err := c.Root(o.pk, nonce, s)
				if err != nil || gr.Hash != x.hash || gr.Sig != x.sig || gr.Seq != s {
					w.fail("C16", "root", "%s: Root %d/%d/%d: %v %v, want %s", when, i, nonce, s, gr, err, x.hash.Hex()[:7])
				}
			}
		}
		if got := c.ActiveHead(o.pk); got != actn {
			w.fail("C16", "active", "%s: active head of feed %d is %d, want %d", when, i, got, actn)
		}
	}
}

// the whole check
func (w *vWorld) check(when string) {
	if w.prop == "C16" || w.prop == "C17" || w.prop == "C18" {
		w.index(when)
		if w.n(8) > 0 {
			return
		}
	}
	w.counters(when, false)
}

//
// operations
//

func (w *vWorld) leaf() *vLeaf {
	if w.n(4) == 0 {
		return &vLeaf{uint32(w.n(1000)), strings.Repeat("x", w.n(900))}
	}
	return &vLeaf{uint32(w.n(5)), ""}
}

// a live object of given kind here, that some root has, if any
func (w *vWorld) live(c *Container, kind string) (h cipher.SHA256) {
	var hs []cipher.SHA256
	seen := map[cipher.SHA256]bool{}
	var refer func(h cipher.SHA256, k string)
	refer = func(h cipher.SHA256, k string) {
		if h == (cipher.SHA256{}) || seen[h] {
			return
		}
		seen[h] = true
		if k == kind {
			hs = append(hs, h)
		}
		val, _, err := c.DB().CXDS().Get(h, 0)
		if err != nil {
			return
		}
		es, _ := vChildren(k, val)
		for _, e := range es {
			refer(e.hash, e.kind)
		}
	}
	// in order, to be reproducible
	for _, o := range w.owners {
		for nonce := uint64(1); nonce <= 3; nonce++ {
			for seq := uint64(0); seq < 40; seq++ {
				if r := w.feed[o.pk][nonce][seq]; r != nil {
					for _, d := range r.refs {
						refer(d.Hash, vKind(d.Schema))
					}
				}
			}
		}
	}
	if w.n(3) == 0 {
		// or one that nothing refers to, but that is stored
		hs = nil
		for _, h := range w.order {
			if w.kinds[h] == kind {
				if _, _, err := c.DB().CXDS().Get(h, 0); err == nil {
					hs = append(hs, h)
				}
			}
		}
	}
	if len(hs) == 0 {
		return
	}
	return hs[w.n(len(hs))]
}

// receive what is not an authentic root of a shared feed
func (w *vWorld) hostile() {
	i, r := w.remoteRoot()
	o := w.owners[i]
	val, sig, pk := r.Encode(), r.Sig, o.pk
	_, shared := w.feed[pk]
	if p, err := w.c.PreviewRoot(pk, sig, val); err != nil || p.Hash != r.Hash || p.Sig != sig || p.IsFull {
		w.fail("C17", "preview", "PreviewRoot of an authentic root: %v", err)
	}
	if p, err := w.c.ReceivedRoot(pk, sig, val); shared && (err != nil || p.Hash != r.Hash) || !shared && err != data.ErrNoSuchFeed {
		w.fail("C17", "refused", "ReceivedRoot of an authentic root of a feed that is shared %v: %v", shared, err)
	}
	sign := func(sk cipher.SecKey) {
		var err error
		sig, err = cipher.SignHash(cipher.SumSHA256(val), sk)
		w.must("SignHash", err)
	}
	what := ""
	switch w.n(8) {
	case 0:
		what = "a byte changed"
		val[w.n(len(val))] ^= byte(1 + w.n(255))
	case 1:
		what = "signature changed"
		sig[w.n(64)] ^= byte(1 + w.n(255))
	case 2:
		what = "signed by another"
		sign(w.owners[(i+1)%4].sk)
	case 3:
		what = "of another feed, signed by owner of this one"
		o = w.owners[(i+1+w.n(3))%4]
		pk = o.pk
		sign(o.sk)
	case 4:
		what = "truncated and signed"
		val = val[:w.n(len(val))]
		sign(o.sk)
	case 5:
		what = "with something after the end, signed"
		val = append(val, w.v.Bytes(1+w.n(5))...)
		sign(o.sk)
	case 6:
		what = "random bytes, signed"
		val = w.v.Bytes(w.n(300))
		sign(o.sk)
	case 7:
		what = "blank signature"
		sig = cipher.Sig{}
	}
	w.note("hostile %d/%d/%d: %s", i, r.Nonce, r.Seq, what)
	if p, err := w.c.ReceivedRoot(pk, sig, val); err == nil || p != nil {
		w.fail("C17", "hostile", "ReceivedRoot: %v, %v", p, err)
	}
	if _, err := w.c.PreviewRoot(pk, sig, val); err == nil {
		w.fail("C17", "hostile", "PreviewRoot accepts it")
	}
}

// fill a node with random things, saving them
func (w *vWorld) node(c *Container, up registry.Pack, reg *registry.Registry, depth int) *vNode {
	n := new(vNode)
	w.change(c, up, reg, n, depth)
	return n
}

func (w *vWorld) ref(c *Container, up registry.Pack, reg *registry.Registry, kind string, r *registry.Ref, depth int) {
	switch w.n(6) {
	case 0:
		r.Clear()
	case 1:
		if h := w.live(c, kind); h != (cipher.SHA256{}) {
			r.Hash = h
		}
	default:
		w.must("SetValue", r.SetValue(up, w.value(c, up, reg, kind, depth)))
	}
}

func (w *vWorld) value(c *Container, up registry.Pack, reg *registry.Registry, kind string, depth int) interface{} {
	if kind == "v.Leaf" || depth <= 0 && w.n(3) > 0 {
		if kind == "v.Node" {
			return &vNode{Name: fmt.Sprint(w.n(3))}
		}
		return w.leaf()
	}
	return w.node(c, up, reg, depth-1)
}

func (w *vWorld) refs(c *Container, up registry.Pack, reg *registry.Registry, kind string, r *registry.Refs, depth int) {
	for k := w.n(4); k > 0; k-- {
		ln, err := r.Len(up)
		w.must("Len", err)
		switch w.n(8) {
		case 0:
			r.Clear()
		case 1:
			if ln > 0 {
				w.must("DeleteByIndex", r.DeleteByIndex(up, w.n(ln)))
			}
		case 2:
			if ln > 0 {
				w.must("SetValueByIndex", r.SetValueByIndex(up, w.n(ln), w.value(c, up, reg, kind, depth)))
			}
		case 3:
			var h cipher.SHA256
			if w.n(3) > 0 {
				h = w.live(c, kind)
			}
			w.must("AppendHashes", r.AppendHashes(up, h))
		default:
			m := 1 + w.n(3)
			if depth < 2 {
				m += w.n(7)
			}
			var vs []interface{}
			for i := 0; i < m; i++ {
				vs = append(vs, w.value(c, up, reg, kind, depth-1))
			}
			if w.n(3) == 0 && m > 1 {
				vs[0] = vs[m-1]
			}
			w.must("AppendValues", r.AppendValues(up, vs...))
		}
	}
}

func (w *vWorld) change(c *Container, up registry.Pack, reg *registry.Registry, n *vNode, depth int) {
	for k := 1 + w.n(4); k > 0; k-- {
		switch w.n(8) {
		case 0:
			n.Name = fmt.Sprint(w.n(4))
		case 1:
			w.ref(c, up, reg, "v.Leaf", &n.Child, depth)
		case 2:
			w.ref(c, up, reg, "v.Node", &n.Next, depth)
		case 3:
			w.refs(c, up, reg, "v.Leaf", &n.List, depth)
		case 4:
			if depth > 0 {
				w.refs(c, up, reg, "v.Node", &n.Nodes, depth-1)
			}
		case 5:
			w.dynamic(c, up, reg, &n.Dyn, depth-1)
		case 6:
			i := w.n(2)
			w.ref(c, up, reg, "v.Leaf", &n.Pair[i].R, depth)
		case 7:
			// saved, but not used
			w.must("Add", func() error { _, err := up.Add(encoder.Serialize(w.leaf())); return err }())
		}
	}
}

func (w *vWorld) dynamic(c *Container, up registry.Pack, reg *registry.Registry, d *registry.Dynamic, depth int) {
	kind := []string{"v.Leaf", "v.Node", "v.Node"}[w.n(3)]
	switch w.n(7) {
	case 0:
		d.Clear()
	case 1:
		if h := w.live(c, kind); h != (cipher.SHA256{}) {
			d.Hash, d.Schema = h, vSchema(reg, kind)
		}
	case 2:
		d.Hash, d.Schema = cipher.SHA256{}, vSchema(reg, kind) // nil of the type
	default:
		w.must("SetValue", d.SetValue(up, w.value(c, up, reg, kind, depth)))
		d.Schema = vSchema(reg, kind)
	}
}

// change what a root refers to
func (w *vWorld) edit(c *Container, up registry.Pack, reg *registry.Registry, r *registry.Root) {
	for k := 1 + w.n(3); k > 0; k-- {
		switch {
		case len(r.Refs) == 0 || w.n(3) == 0 && len(r.Refs) < 4:
			var d registry.Dynamic
			w.dynamic(c, up, reg, &d, 2)
			r.Refs = append(r.Refs, d)
		case w.n(4) == 0:
			i := w.n(len(r.Refs))
			r.Refs = append(r.Refs[:i:i], r.Refs[i+1:]...)
		case w.n(6) == 0:
			r.Refs = append(r.Refs, r.Refs[w.n(len(r.Refs))]) // twice
		default:
			d := &r.Refs[w.n(len(r.Refs))]
			if d.Hash == (cipher.SHA256{}) || vKind(d.Schema) != "v.Node" || w.n(4) == 0 {
				w.dynamic(c, up, reg, d, 2)
				continue
			}
			var n vNode
			w.must("Value", d.Value(up, &n))
			w.change(c, up, reg, &n, 2)
			w.must("SetValue", d.SetValue(up, &n))
		}
	}
}

func vRecord(r *registry.Root) *vRoot {
	return &vRoot{r.Hash, r.Prev, r.Reg, append([]registry.Dynamic(nil), r.Refs...), r.Time, r.Sig, r.Encode()}
}

func (w *vWorld) registryOf(ref registry.RegistryRef) *registry.Registry {
	for _, r := range vRegs {
		if r.Reference() == ref {
			return r
		}
	}
	return vRegs[w.n(len(vRegs))]
}

// the root to be saved next: made of the last or new
func (w *vWorld) nextRoot(c *Container, pk cipher.PubKey, nonce uint64) (r *registry.Root) {
	if lr, err := c.LastRoot(pk, nonce); err == nil && w.n(5) > 0 {
		return lr
	}
	r = new(registry.Root)
	r.Pub, r.Nonce = pk, nonce
	r.Descriptor = w.v.Bytes(w.n(4))
	return
}

func (w *vWorld) save() {
	i := w.n(2)
	o := w.owners[i]
	nonce := uint64(1 + w.n(3))
	r := w.nextRoot(w.c, o.pk, nonce)
	reg := w.registryOf(r.Reg)
	sk := o.sk
	wrong := w.n(12) == 0
	if wrong {
		sk = w.owners[2].sk
	}
	up, err := w.c.Unpack(sk, reg)
	w.must("Unpack", err)
	for times := 1 + w.n(2)*w.n(3); times > 0; times-- {
		mark := len(w.log)
		w.note("save %d/%d", i, nonce)
		w.edit(w.c, up, reg, r)
		switch w.n(14) {
		case 0:
			w.note("given up")
			w.must("Close", up.Close())
			return
		case 1:
			// refers to what is not stored
			d := registry.Dynamic{Schema: vSchema(reg, "v.Leaf")}
			w.v.R.Read(d.Hash[:])
			r.Refs = append(r.Refs, d)
			w.note("with unknown object")
			if err = w.c.Save(up, r); err == nil {
				w.fail("C18", "unknown", "saving of a root that refers to an object that is not stored succeeded")
			}
			w.must("Close", up.Close())
			return
		}
		if w.n(14) == 0 {
			desc := r.Descriptor
			r.Descriptor = make([]byte, w.conf.MaxObjectSize)
			w.note("too large")
			if err = w.c.Save(up, r); err == nil {
				w.fail("C18", "large", "saving of a root that is too large succeeded")
			}
			r.Descriptor = desc
			if w.n(2) == 0 {
				w.must("Close", up.Close())
				return
			}
		}
		lr, lseq := w.last(o.pk, nonce)
		_, shared := w.feed[o.pk]
		before := time.Now().UnixNano()
		if w.n(4) == 0 {
			r.Seq, r.Time, r.Prev = uint64(w.n(9)), 7, cipher.SHA256{5} // no matter
		}
		err = w.c.Save(up, r)
		if wrong || !shared {
			w.note("refused: %v", err)
			if err == nil {
				w.fail("C18", "refused", "saving with key of another feed %v, feed is shared %v, succeeded", wrong, shared)
			}
			w.must("Close", up.Close())
			return
		}
		if err != nil {
			w.fail("C18", "save", "Save: %v", err)
		}
		rec := vRecord(r)
		if w.feed[o.pk][nonce] == nil {
			w.feed[o.pk][nonce] = map[uint64]*vRoot{}
		}
		w.log = append(w.log[:mark], fmt.Sprintf("save %d/%d as %d with %d refs", i, nonce, r.Seq, len(r.Refs)))
		w.chain(o, r, rec, lr, lseq, before)
		w.feed[o.pk][nonce][r.Seq] = rec
		if times > 1 && w.n(2) == 0 {
			w.check("saved")
		}
	}
	if w.n(2) == 0 {
		w.must("Close", up.Close())
	}
}

// C18 for one root saved
func (w *vWorld) chain(o vOwner, r *registry.Root, rec, lr *vRoot, lseq uint64, before int64) {
	if lr == nil && (r.Seq != 0 || r.Prev != (cipher.SHA256{})) || lr != nil && (r.Seq != lseq+1 || r.Prev != lr.hash) {
		w.fail("C18", "chain", "saved as %d after %s, the last one is %v %d", r.Seq, r.Prev.Hex()[:7], lr != nil, lseq)
	}
	if r.Hash != cipher.SumSHA256(rec.val) {
		w.fail("C18", "hash", "hash of the root is not of its encoding")
	}
	if err := cipher.VerifyPubKeySignedHash(o.pk, r.Sig, r.Hash); err != nil {
		w.fail("C18", "signature", "signature: %v", err)
	}
	if r.Time < before || r.Time > time.Now().UnixNano() {
		w.fail("C18", "time", "timestamp %d", r.Time)
	}
	val, _, err := w.db.CXDS().Get(r.Hash, 0)
	if err != nil || !bytes.Equal(val, rec.val) {
		w.fail("C18", "stored", "the root is not stored: %v", err)
	}
	if gr, err := w.c.Root(o.pk, r.Nonce, r.Seq); err != nil || gr.Hash != r.Hash || gr.Sig != r.Sig || !gr.IsFull {
		w.fail("C18", "stored", "the root can't be got back: %v %v", gr, err)
	}
}

// a root of the remote container
func (w *vWorld) remoteRoot() (i int, r *registry.Root) {
	i = 2 + w.n(2)
	o := w.owners[i]
	nonce := uint64(1 + w.n(3))
	r = w.nextRoot(w.remote, o.pk, nonce)
	reg := w.registryOf(r.Reg)
	up, err := w.remote.Unpack(o.sk, reg)
	w.must("Unpack", err)
	live := w.feed
	w.feed = map[cipher.PubKey]map[uint64]map[uint64]*vRoot{} // nothing is live there
	w.edit(w.remote, up, reg, r)
	w.feed = live
	err = w.remote.Save(up, r)
	w.must("Save", err)
	w.must("Close", up.Close())
	if w.n(3) == 0 {
		// the same made by hand, with another number and time
		r.Seq = uint64(w.n(12))
		r.Time = int64(1 + w.n(1000000))*1000 + int64(len(w.log))
		r.Prev = cipher.SHA256{}
		if r.Seq > 0 {
			w.v.R.Read(r.Prev[:])
		}
		r.Hash = cipher.SumSHA256(r.Encode())
		r.Sig, err = cipher.SignHash(r.Hash, o.sk)
		w.must("SignHash", err)
		w.extra[r.Hash] = r.Encode()
	}
	r.IsFull = false
	return
}

// receive and fill, or fail to
func (w *vWorld) receive() {
	i, sr := w.remoteRoot()
	o := w.owners[i]
	hs, shared := w.feed[o.pk]
	w.note("receive %d/%d/%d %s with %d refs", i, sr.Nonce, sr.Seq, sr.Hash.Hex()[:7], len(sr.Refs))
	r, err := w.c.ReceivedRoot(o.pk, sr.Sig, sr.Encode())
	if !shared {
		if err != data.ErrNoSuchFeed {
			w.fail("C17", "feed", "root of a feed that is not shared: %v", err)
		}
		return
	}
	if err != nil {
		w.fail("C17", "refused", "an authentic root is refused: %v", err)
	}
	if r.Hash != sr.Hash || r.Sig != sr.Sig {
		w.fail("C17", "received", "received root has another hash or signature")
	}
	_, have := hs[sr.Nonce][sr.Seq]
	if r.IsFull != have {
		w.fail("C17", "full", "received root is full: %v, want %v", r.IsFull, have)
	}
	if r.IsFull && w.n(2) == 0 {
		return
	}
	r.IsFull = false
	failAt := -1
	if w.n(3) == 0 {
		failAt = w.n(12)
	}
	rq := make(chan cipher.SHA256, w.n(4))
	f := w.c.Fill(r, rq, w.n(4))
	late := failAt >= 0 && w.n(2) == 0 // objects come without being asked for
	pushFirst := w.n(3) > 0
	push := func(key cipher.SHA256) {
		time.Sleep(100 * time.Microsecond)
		w.c.Cache.mx.Lock()
		keys := []cipher.SHA256{key}
		for k, it := range w.c.Cache.is {
			if it.isWanted() {
				keys = append(keys, k)
			}
		}
		w.c.Cache.mx.Unlock()
		for _, k := range keys {
			val, _, err := w.remote.Get(k, 0)
			if e, ok := w.extra[k]; ok {
				val, err = e, nil
			}
			if err == nil {
				w.c.SetWanted(k, val)
			}
		}
	}
	var wg sync.WaitGroup
	wg.Add(1)
	failed := errors.New("failed by the test")
	early := failAt >= 0 && w.n(3) == 0
	if early {
		f.Fail(failed)
	}
	twice := w.n(4) == 0
	var bad error
	go func() {
		defer wg.Done()
		for n := 0; ; n++ {
			key, ok := <-rq
			if !ok {
				return
			}
			if n == failAt {
				if late && pushFirst {
					push(key)
				}
				f.Fail(failed)
				if late && !pushFirst {
					push(key)
				}
				continue
			}
			val, _, err := w.remote.Get(key, 0)
			if e, ok := w.extra[key]; ok {
				val, err = e, nil
			}
			if err != nil {
				bad = fmt.Errorf("asked for %s: %v", key.Hex()[:7], err)
				f.Fail(bad)
				continue
			}
			if _, err = w.c.SetWanted(key, val); err != nil {
				if _, ok := err.(*ObjectIsTooLargeError); !ok {
					bad = err
				}
			}
			if twice {
				w.c.SetWanted(key, val)
			}
		}
	}()
	ran := make(chan error, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				ran <- fmt.Errorf("panic: %v", e)
			}
		}()
		err := f.Run()
		f.Close()
		ran <- err
	}()
	select {
	case err = <-ran:
	case <-time.After(20 * time.Second):
		if os.Getenv("VERIF_ALL") != "" {
			pprof.Lookup("goroutine").WriteTo(os.Stdout, 2)
		}
		w.fail("C15", "hang", "filling of the root never ends")
	}
	close(rq)
	wg.Wait()
	if bad != nil {
		w.fail("C15", "requests", "%v", bad)
	}
	if err == nil && !have {
		if hs[sr.Nonce] == nil {
			hs[sr.Nonce] = map[uint64]*vRoot{}
		}
		hs[sr.Nonce][sr.Seq] = vRecord(sr)
	}
	_, large := err.(*ObjectIsTooLargeError)
	if err != nil && err != failed && !large {
		w.fail("C15", "fill", "filling: %v", err)
	}
	if r.IsFull != (err == nil) {
		w.fail("C15", "full", "the root is full: %v, filling: %v", r.IsFull, err)
	}
	w.note("filled: %v", err)
	w.c.Cache.mx.Lock()
	for k, it := range w.c.Cache.is {
		if it.fc != 0 || it.isWanted() {
			w.c.Cache.mx.Unlock()
			w.fail("C15", "mark", "%s is kept as used by fillers (%d) or waited for (%v), but all fillers are closed", k.Hex()[:7], it.fc, it.isWanted())
		}
	}
	w.c.Cache.mx.Unlock()
}

func (w *vWorld) remove() {
	i := w.n(4)
	o := w.owners[i]
	nonce := uint64(1 + w.n(3))
	hs, shared := w.feed[o.pk]
	rs, head := hs[nonce]
	switch w.n(6) {
	case 0:
		w.note("del feed %d", i)
		err := w.c.DelFeed(o.pk)
		if !shared && err != data.ErrNoSuchFeed || shared && err != nil {
			w.fail("C16", "del feed", "DelFeed of %d that is there %v: %v", i, shared, err)
		}
		delete(w.feed, o.pk)
	case 1:
		w.note("del head %d/%d", i, nonce)
		err := w.c.DelHead(o.pk, nonce)
		want := error(nil)
		if !shared {
			want = data.ErrNoSuchFeed
		} else if !head {
			want = data.ErrNoSuchHead
		}
		if err != want {
			w.fail("C16", "del head", "DelHead: %v, want %v", err, want)
		}
		if head {
			delete(hs, nonce)
		}
	default:
		seq := uint64(w.n(8))
		_, last := w.last(o.pk, nonce)
		if w.n(3) == 0 {
			seq = last
		}
		w.note("del root %d/%d/%d", i, nonce, seq)
		err := w.c.DelRoot(o.pk, nonce, seq)
		want := error(nil)
		if !shared {
			want = data.ErrNoSuchFeed
		} else if !head {
			want = data.ErrNoSuchHead
		} else if rs[seq] == nil {
			want = data.ErrNotFound
		}
		if err != want {
			w.fail("C16", "del root", "DelRoot: %v, want %v", err, want)
		}
		if head {
			delete(rs, seq)
		}
	}
}

func (w *vWorld) add() {
	i := w.n(4)
	o := w.owners[i]
	if w.n(2) == 0 {
		w.note("add feed %d", i)
		if err := w.c.AddFeed(o.pk); err != nil {
			w.fail("C16", "add feed", "AddFeed: %v", err)
		}
		if w.feed[o.pk] == nil {
			w.feed[o.pk] = map[uint64]map[uint64]*vRoot{}
		}
		return
	}
	nonce := uint64(1 + w.n(3))
	w.note("add head %d/%d", i, nonce)
	hs, ok := w.feed[o.pk]
	err := w.c.AddHead(o.pk, nonce)
	if ok && err != nil || !ok && err != data.ErrNoSuchFeed {
		w.fail("C16", "add head", "AddHead to feed that is there %v: %v", ok, err)
	}
	if ok && hs[nonce] == nil {
		hs[nonce] = map[uint64]*vRoot{}
	}
}

func (w *vWorld) restart() {
	w.note("restart")
	if err := vShut(w.c); err != nil {
		w.fail("C13", "close", "Close: %v", err)
	}
	if w.prop == "C30" || w.prop == "C13" {
		w.counters("closed", true)
	}
	c, err := NewContainer(w.conf)
	if err != nil {
		w.fail("C16", "open", "NewContainer: %v", err)
	}
	w.c = c
}

// a history of given length; extra is called sometimes
func (w *vWorld) run(steps int, extra func()) {
	defer w.close()
	defer func() {
		r := recover()
		if _, ok := r.(vStop); r != nil && !ok {
			panic(r)
		}
	}()
	w.note("add feeds")
	for i, o := range w.owners {
		if i%2 == 0 || w.n(3) > 0 {
			w.must("AddFeed", w.c.AddFeed(o.pk))
			w.feed[o.pk] = map[uint64]map[uint64]*vRoot{}
		}
	}
	for ; steps > 0; steps-- {
		w.v.Pending(strings.Join(w.log, "; "))
		switch w.n(10) {
		case 0, 1, 2:
			w.save()
		case 3, 4, 5:
			w.receive()
		case 6:
			w.remove()
			if w.n(2) == 0 {
				w.remove()
			}
		case 7:
			w.remove()
		case 8:
			w.add()
		case 9:
			if w.n(2) == 0 {
				w.restart()
			}
		}
		if extra != nil && w.n(3) == 0 {
			extra()
		}
		w.check("then")
	}
	// all go
	for i, o := range w.owners {
		if _, ok := w.feed[o.pk]; ok {
			w.note("del feed %d", i)
			if err := w.c.DelFeed(o.pk); err != nil {
				w.fail("C30", "del feed", "DelFeed: %v", err)
			}
			delete(w.feed, o.pk)
		}
	}
	w.check("all deleted")
	w.restart()
	w.check("at the end")
}
