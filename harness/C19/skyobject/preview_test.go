package skyobject

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/cxds"
	"github.com/skycoin/cxo/data/idxdb"
	"github.com/skycoin/cxo/skyobject/registry"
)

type vpItem struct {
	N    uint32
	Next registry.Ref  `skyobject:"schema=v.Item"`
	Many registry.Refs `skyobject:"schema=v.Item"`
}

var vpReg = registry.NewRegistry(func(r *registry.Reg) { r.Register("v.Item", vpItem{}) })

var errVdb, errVget = errors.New("the store fails by the test"), errors.New("the peer fails by the test")

type vpStore struct {
	data.CXDS
	fail bool
}

func (s *vpStore) Get(k cipher.SHA256, inc int) ([]byte, uint32, error) {
	if s.fail {
		return nil, 0, errVdb
	}
	return s.CXDS.Get(k, inc)
}

type vpGetter struct {
	m     map[cipher.SHA256][]byte
	fail  map[cipher.SHA256]bool
	asked map[cipher.SHA256]int
}

func (g *vpGetter) Get(k cipher.SHA256) ([]byte, error) {
	g.asked[k]++
	if g.fail[k] || g.m[k] == nil {
		return nil, errVget
	}
	return g.m[k], nil
}

func vpNew(amount int) (*Container, *vpStore) {
	conf := NewConfig()
	conf.DataDir = ""
	conf.RollAvgSamples = 1
	conf.CacheMaxAmount = amount
	if amount == 0 {
		conf.CacheMaxVolume, conf.CacheMaxItemSize = 0, 0
	}
	s := &vpStore{CXDS: cxds.NewMemoryCXDS()}
	conf.DB = data.NewDB(s, idxdb.NewMemeoryDB())
	c, err := NewContainer(conf)
	if err != nil {
		panic(err)
	}
	return c, s
}

func vpSnap(c *Container, s data.CXDS) string {
	var l []string
	s.Iterate(func(k cipher.SHA256, rc uint32, val []byte) error {
		l = append(l, fmt.Sprint(k.Hex(), rc, val))
		return nil
	})
	sort.Strings(l)
	return fmt.Sprint(l, len(c.Feeds()))
}

func vpOne(v *V) {
	var log []string
	note := func(f string, as ...interface{}) { log = append(log, fmt.Sprintf(f, as...)) }
	type stop struct{}
	fail := func(class, f string, as ...interface{}) {
		v.Fail(class, strings.Join(log, "; "), f, as...)
		panic(stop{})
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); !ok {
				v.Fail("panic", strings.Join(log, "; "), "panic: %v", r)
			}
		}
		v.Case(strings.Join(log, "; "), len(log) > 2)
	}()
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	src, ss := vpNew(100)
	defer src.Close()
	c, cs := vpNew([]int{0, 1, 100}[v.R.Intn(3)])
	defer c.Close()
	pk, sk := cipher.GenerateDeterministicKeyPair([]byte{byte(v.R.Intn(256)), 3})
	must(src.AddFeed(pk))
	up, err := src.Unpack(sk, vpReg)
	must(err)
	var item func(d int) *vpItem
	item = func(d int) *vpItem {
		it := &vpItem{N: uint32(v.R.Intn(9))}
		if d > 0 && v.R.Intn(2) == 0 {
			must(it.Next.SetValue(up, item(d-1)))
		}
		for i := v.R.Intn(3); d > 0 && i > 0; i-- {
			must(it.Many.AppendValues(up, item(d-1)))
		}
		return it
	}
	sch, _ := vpReg.SchemaByName("v.Item")
	r := &registry.Root{Pub: pk, Nonce: 1}
	for i := v.R.Intn(4); i > 0; i-- {
		d := registry.Dynamic{Schema: sch.Reference()}
		must(d.SetValue(up, item(3)))
		r.Refs = append(r.Refs, d)
	}
	must(src.Save(up, r))
	// a part of it is stored here
	m := map[cipher.SHA256][]byte{}
	here := map[cipher.SHA256]bool{}
	var keys []cipher.SHA256
	ss.Iterate(func(k cipher.SHA256, rc uint32, val []byte) error {
		m[k] = append([]byte(nil), val...)
		keys = append(keys, k)
		return nil
	})
	sort.Slice(keys, func(i, j int) bool { return bytes.Compare(keys[i][:], keys[j][:]) < 0 })
	for _, k := range keys {
		if v.R.Intn(3) == 0 {
			_, err := c.Set(k, m[k], 1+v.R.Intn(3))
			must(err)
			here[k] = true
		}
	}
	var wanted cipher.SHA256 // known to be missing, regardless of the store
	if k := keys[v.R.Intn(len(keys))]; v.R.Intn(3) == 0 && !here[k] { // somebody waits for it
		wanted = k
		must(c.Want(k, make(chan Object, 1), v.R.Intn(2)))
		note("%s is wanted", k.Hex()[:5])
	}
	note("%d of %d objects are here", len(here), len(keys))
	g := &vpGetter{m, map[cipher.SHA256]bool{}, map[cipher.SHA256]int{}}
	if v.R.Intn(3) == 0 {
		k := keys[v.R.Intn(len(keys))]
		g.fail[k] = true
		note("the peer has no %s", k.Hex()[:5])
	}
	snap := vpSnap(c, cs)
	rk := cipher.SHA256(r.Reg)
	if v.R.Intn(8) == 0 && !here[rk] {
		// not a registry
		g.m[rk] = v.Bytes(v.R.Intn(20))
		if _, err := c.Preview(r, g); err == nil {
			fail("registry", "%x is taken for a registry", g.m[rk])
		}
		note("a damaged registry is refused")
		if s := vpSnap(c, cs); s != snap {
			fail("stored", "a preview that is refused changes the store")
		}
		return
	}
	if v.R.Intn(8) == 0 && rk != wanted {
		cs.fail = true
		p, err := c.Preview(r, g)
		cs.fail = false
		if err != nil && err != errVdb || err == nil && p == nil {
			fail("error", "the failure of the store is %v", err)
		}
		if err != nil && len(g.asked) > 0 {
			fail("asked", "the peer is asked when the store fails")
		}
		if err != nil {
			return
		}
		g.asked = map[cipher.SHA256]int{}
	}
	p, err := c.Preview(r, g)
	if bad := !here[rk] && g.fail[rk]; bad != (err != nil) {
		fail("registry", "Preview: %v, the registry is here: %v, the peer has it: %v", err, here[rk], !g.fail[rk])
	}
	if err != nil {
		if err != errVget {
			fail("error", "the error of the peer is %v", err)
		}
		return
	}
	if p.Root() != r {
		fail("root", "another root")
	}
	if p.Registry() == nil || p.Registry().Reference() != r.Reg {
		fail("registry", "another registry is used")
	}
	got := map[cipher.SHA256]bool{}
	for i := 5 + v.R.Intn(20); i > 0; i-- {
		k := keys[v.R.Intn(len(keys))]
		if v.R.Intn(20) == 0 {
			v.R.Read(k[:])
		}
		was := g.asked[k]
		if v.R.Intn(12) == 0 && k != wanted {
			cs.fail = true
			note("Get %s, the store fails", k.Hex()[:5])
			val, err := p.Get(k)
			cs.fail = false
			if err != nil && err != errVdb || err == nil && !bytes.Equal(val, m[k]) {
				fail("error", "the failure of the store gives %x, %v", val, err)
			}
			if g.asked[k] != was {
				fail("asked", "the peer is asked when the store fails")
			}
			continue
		}
		val, err := p.Get(k)
		note("Get %s", k.Hex()[:5])
		if ok := m[k] != nil && (here[k] || !g.fail[k]); ok != (err == nil) {
			fail("get", "here %v, the peer has it %v: error %v", here[k], m[k] != nil && !g.fail[k], err)
		}
		if err == nil && !bytes.Equal(val, m[k]) {
			fail("get", "got %x, not %x", val, m[k])
		}
		if err != nil && err != errVget {
			fail("error", "the error of the peer is %v", err)
		}
		ask := was
		if !here[k] && !got[k] {
			ask++
		}
		if k == rk && !here[k] && g.asked[k] == was {
			ask = was // the registry may be kept
		}
		if g.asked[k] != ask {
			fail("asked", "the peer is asked %d times, not %d; here %v, got before %v", g.asked[k]-was, ask-was, here[k], got[k])
		}
		if err == nil {
			got[k] = true
		}
		if s := vpSnap(c, cs); s != snap {
			fail("stored", "the store changes by reading")
		}
	}
	// the whole of it
	for k := range g.fail {
		delete(g.fail, k)
	}
	var walk func(it *vpItem)
	walk = func(it *vpItem) {
		if it.Next.Hash != (cipher.SHA256{}) {
			var n vpItem
			if err := it.Next.Value(p, &n); err != nil {
				fail("get", "reading of a value: %v", err)
			}
			walk(&n)
		}
		if _, err := it.Many.Len(p); err != nil {
			fail("get", "reading of values: %v", err)
		}
		it.Many.Ascend(p, func(_ int, h cipher.SHA256) error {
			val, err := p.Get(h)
			if err != nil || !bytes.Equal(val, m[h]) {
				fail("get", "reading of a value: %x, %v", val, err)
			}
			return nil
		})
	}
	for _, d := range r.Refs {
		var it vpItem
		if err := d.Value(p, &it); err != nil {
			fail("get", "reading of a value: %v", err)
		}
		walk(&it)
	}
	note("read")
	if s := vpSnap(c, cs); s != snap {
		fail("stored", "the store changes by reading")
	}
	if _, err := c.LastRoot(pk, 1); err == nil {
		fail("stored", "the root is saved")
	}
}

func TestVerif(t *testing.T) {
	v := vstart(t, "a case is a root, a part of which is stored here, read through a preview; non-trivial: all but refused ones", "up to three trees of depth three; failures of the store and the peer")
	for v.More(1) {
		vpOne(v)
	}
	v.Done()
}
