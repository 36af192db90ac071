package cxoutils

import (
	"errors"
	"fmt"
	"os"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/cxds"
	"github.com/skycoin/cxo/data/idxdb"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"
)

type vItem struct {
	N uint32
	R registry.Ref `skyobject:"schema=v.Item"`
}

var vReg = registry.NewRegistry(func(r *registry.Reg) { r.Register("v.Item", vItem{}) })

var errV = errors.New("the store fails by the test")

type vStore struct {
	data.CXDS
	failDel bool
	failGet int
	during  func() // called once, inside of IterateDel
	got     func() // called by Get
}

func (s *vStore) IterateDel(f data.IterateObjectsDelFunc) error {
	if s.failDel {
		return errV
	}
	return s.CXDS.IterateDel(func(k cipher.SHA256, rc uint32, val []byte) (bool, error) {
		if d := s.during; d != nil {
			s.during = nil
			d()
		}
		return f(k, rc, val)
	})
}

func (s *vStore) Get(k cipher.SHA256, inc int) ([]byte, uint32, error) {
	if g := s.got; g != nil {
		g()
	}
	if s.failGet > 0 {
		if s.failGet--; s.failGet == 0 {
			return nil, 0, errV
		}
	}
	return s.CXDS.Get(k, inc)
}

type vIdx struct {
	data.IdxDB
	fail int // this call fails, if above zero
}

func (s *vIdx) Tx(f func(data.Feeds) error) error {
	if s.fail > 0 {
		if s.fail--; s.fail == 0 {
			return errV
		}
	}
	return s.IdxDB.Tx(f)
}

func seqs(m map[uint64]bool) (l []uint64) {
	for s := range m {
		l = append(l, s)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return
}

func vOne(v *V) {
	var log []string
	note := func(f string, as ...interface{}) { log = append(log, fmt.Sprintf(f, as...)) }
	type stop struct{}
	fail := func(class, f string, as ...interface{}) {
		v.Fail(class, strings.Join(log, "; "), f, as...)
		panic(stop{})
	}
	conf := skyobject.NewConfig()
	conf.DataDir = ""
	conf.RollAvgSamples = 1
	if v.R.Intn(3) == 0 {
		conf.CacheMaxAmount, conf.CacheMaxVolume = 0, 0
	} else if v.R.Intn(2) == 0 {
		conf.CacheMaxAmount = 1 + v.R.Intn(6)
	}
	cx := &vStore{CXDS: cxds.NewMemoryCXDS()}
	idx := &vIdx{IdxDB: idxdb.NewMemeoryDB()}
	conf.DB = data.NewDB(cx, idx)
	c, err := skyobject.NewContainer(conf)
	if err != nil {
		panic(err)
	}
	defer func() {
		c.Close()
		c.Index.Close()
		if r := recover(); r != nil {
			if _, ok := r.(stop); !ok {
				v.Fail("panic", strings.Join(log, "; "), "panic: %v", r)
			}
		}
		v.Case(strings.Join(log, "; "), len(log) > 3)
	}()
	must := func(err error) {
		if err != nil {
			fail("setup", "%v", err)
		}
	}
	note("cache of %d", conf.CacheMaxAmount)
	sch, _ := vReg.SchemaByName("v.Item")
	type head struct {
		pk    cipher.PubKey
		nonce uint64
	}
	m := map[head]map[uint64]bool{}
	var hs []head
	for f := 0; f < 1+v.R.Intn(2); f++ {
		pk, sk := cipher.GenerateDeterministicKeyPair([]byte{byte(f), byte(v.R.Intn(256))})
		must(c.AddFeed(pk))
		up, err := c.Unpack(sk, vReg)
		must(err)
		for h := 0; h < 1+v.R.Intn(3); h++ {
			hd := head{pk, uint64(h + 1)}
			m[hd] = map[uint64]bool{}
			hs = append(hs, hd)
			r := new(registry.Root)
			r.Pub, r.Nonce = pk, hd.nonce
			k := v.R.Intn(9)
			if k == 0 {
				must(c.AddHead(pk, hd.nonce))
			}
			for i := 0; i < k; i++ {
				var it vItem
				it.N = uint32(v.R.Intn(5))
				if v.R.Intn(2) == 0 {
					must(it.R.SetValue(up, &vItem{N: uint32(v.R.Intn(9))}))
				}
				d := registry.Dynamic{Schema: sch.Reference()}
				must(d.SetValue(up, &it))
				r.Refs = append(r.Refs, d)
				if len(r.Refs) > 3 {
					r.Refs = r.Refs[1:]
				}
				must(c.Save(up, r))
				m[hd][r.Seq] = true
			}
			note("%d/%d has %d roots", f, hd.nonce, k)
			if k > 1 && v.R.Intn(3) == 0 {
				s := uint64(v.R.Intn(k))
				must(c.DelRoot(pk, hd.nonce, s))
				delete(m[hd], s)
				note("without %d", s)
			}
		}
	}
	// somebody waits for or holds something
	gc := make(chan skyobject.Object, 9)
	held := map[cipher.SHA256]bool{}
	var keys []cipher.SHA256
	cx.Iterate(func(k cipher.SHA256, _ uint32, _ []byte) error {
		keys = append(keys, k)
		return nil
	})
	sort.Slice(keys, func(i, j int) bool { return keys[i].Hex() < keys[j].Hex() })
	for i := v.R.Intn(3); i > 0 && len(keys) > 0; i-- {
		k := keys[v.R.Intn(len(keys))]
		held[k] = true
		note("%s is held", k.Hex()[:7])
		must(c.Want(k, gc, 1))
	}
	check := func(n int, removed, failed bool) {
		for hd, was := range m {
			l := seqs(was)
			now := map[uint64]bool{}
			for _, s := range l {
				if r, err := c.Root(hd.pk, hd.nonce, s); err == nil {
					now[s] = true
					if err = c.Walk(r, func(k cipher.SHA256, _ int) (bool, error) {
						if k == (cipher.SHA256{}) {
							return false, nil
						}
						_, _, err := c.Get(k, 0)
						return true, err
					}); err != nil {
						fail("lost", "something of root %d that is kept is removed: %v", s, err)
					}
				} else if err != data.ErrNotFound && err != data.ErrNoSuchHead {
					fail("root", "Root: %v", err)
				}
			}
			if removed {
				for i, s := range l {
					if i+n >= len(l) && !now[s] {
						fail("newest", "root %d of %v was removed, %d newest must be kept", s, l, n)
					}
				}
				if !failed && n >= 0 && len(now) > n {
					fail("old", "%v of %v are left, %d newest were to be kept", seqs(now), l, n)
				}
			} else if len(now) != len(was) {
				fail("root", "%v of %v are left after removing of objects", seqs(now), l)
			}
			m[hd] = now
		}
	}
	for i := 1 + v.R.Intn(3); i > 0; i-- {
		if v.R.Intn(2) == 0 {
			n := v.R.Intn(6)
			if v.R.Intn(8) == 0 {
				n = int(v.Int(0, 1<<40))
			}
			if v.R.Intn(5) == 0 {
				idx.fail = 1 + v.R.Intn(4)
			}
			note("RemoveRootObjects %d, failing %d", n, idx.fail)
			err = RemoveRootObjects(c, n)
			failed := idx.fail > 0
			was := strings.Contains(log[len(log)-1], "failing 0")
			if !was && !failed {
				if err != errV {
					fail("error", "an error of the database is %v", err)
				}
				idx.fail = 0
				check(n, true, true)
				return
			}
			idx.fail = 0
			if err != nil {
				fail("error", "RemoveRootObjects: %v", err)
			}
			check(n, true, false)
			continue
		}
		type obj struct {
			rc  uint32
			inc bool
		}
		was := map[cipher.SHA256]obj{}
		cx.Iterate(func(k cipher.SHA256, rc uint32, _ []byte) error {
			was[k] = obj{rc, c.IsCached(k)}
			return nil
		})
		if v.R.Intn(6) == 0 {
			cx.failDel = true
			note("RemoveObjects fails")
			if err = RemoveObjects(c); err != errV {
				fail("error", "an error of the store is %v", err)
			}
			cx.failDel = false
			continue
		}
		if v.R.Intn(4) == 0 && len(keys) > 0 {
			// somebody reads at the same time
			note("RemoveObjects, during a reading")
			var (
				in   = make(chan struct{}, 9)
				read = make(chan struct{})
				done = make(chan error, 1)
				busy bool
				k    = keys[v.R.Intn(len(keys))]
			)
			cx.during = func() {
				busy = true
				go func() {
					c.Get(k, 0)
					close(read)
				}()
				select {
				case <-in: // inside of the store, or waits for it
				case <-read:
				case <-time.After(20 * time.Millisecond):
				}
			}
			cx.got = func() {
				select {
				case in <- struct{}{}:
				default:
				}
			}
			go func() { done <- RemoveObjects(c) }()
			select {
			case err = <-done:
			case <-time.After(20 * time.Second):
				v.Fail("hang", strings.Join(log, "; "), "RemoveObjects hangs, %s is being read at the same time", k.Hex()[:7])
				v.Done()
				os.Exit(1)
			}
			if busy {
				<-read
			}
			cx.during, cx.got = nil, nil
		} else {
			note("RemoveObjects")
			err = RemoveObjects(c)
		}
		if err != nil {
			fail("error", "RemoveObjects: %v", err)
		}
		for k, o := range was {
			_, _, err := cx.Get(k, 0)
			if keep := o.rc > 0 || o.inc || held[k]; keep != (err == nil) {
				fail("objects", "object with rc %d, in use %v: kept %v", o.rc, o.inc || held[k], err == nil)
			}
		}
		check(0, false, false)
	}
}

func TestVerif(t *testing.T) {
	v := vstart(t, "random roots cleaned up, against what must be kept", "up to two feeds, three heads, nine roots each; failures of the databases")
	for v.More(1) {
		vOne(v)
	}
	v.Done()
}
