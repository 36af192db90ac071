package idxdb

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/data"
)

type mroots map[uint64]data.Root
type mheads map[uint64]mroots
type mfeeds map[cipher.PubKey]mheads

func (m mfeeds) copy() (c mfeeds) {
	c = mfeeds{}
	for pk, hs := range m {
		c[pk] = mheads{}
		for n, rs := range hs {
			c[pk][n] = mroots{}
			for s, r := range rs {
				c[pk][n][s] = r
			}
		}
	}
	return
}

type irun struct {
	v     *V
	db    data.IdxDB
	m     mfeeds
	pks   []cipher.PubKey
	ns    []uint64
	ss    []uint64
	log   []string
	depth int
}

type istop struct{}

var errI = errors.New("failed by the test")

func (w *irun) fail(class, f string, as ...interface{}) {
	w.v.Fail(class, strings.Join(w.log, "; "), f, as...)
	panic(istop{})
}

func (w *irun) note(f string, as ...interface{}) { w.log = append(w.log, fmt.Sprintf(f, as...)) }

func (w *irun) n(n int) int { return w.v.R.Intn(n) }

func ifeeds(m mfeeds) (pks []cipher.PubKey) {
	for pk := range m {
		pks = append(pks, pk)
	}
	sort.Slice(pks, func(i, j int) bool { return bytes.Compare(pks[i][:], pks[j][:]) < 0 })
	return
}

func iheads(m mheads) (ns []uint64) {
	for n := range m {
		ns = append(ns, n)
	}
	sort.Slice(ns, func(i, j int) bool { return ns[i] < ns[j] })
	return
}

func iroots(m mroots) (ns []uint64) {
	for n := range m {
		ns = append(ns, n)
	}
	sort.Slice(ns, func(i, j int) bool { return ns[i] < ns[j] })
	return
}

func (w *irun) root(seq uint64) *data.Root {
	r := &data.Root{Seq: seq, Time: int64(1 + w.n(1000))}
	w.v.R.Read(r.Hash[:])
	w.v.R.Read(r.Sig[:])
	if seq != 0 {
		w.v.R.Read(r.Prev[:])
	}
	switch w.n(14) {
	case 0:
		r.Time = 0
	case 1:
		r.Hash = cipher.SHA256{}
	case 2:
		r.Sig = cipher.Sig{}
	case 3:
		w.v.R.Read(r.Prev[:])
	}
	return r
}

// a root that was read or visited is the one saved
func (w *irun) same(what string, got *data.Root, want data.Root) {
	if *got != want {
		w.fail(what, "%s gives %+v, want %+v", what, *got, want)
	}
}

func (w *irun) roots(rs data.Roots, m mroots) {
	if rs.Len() != len(m) {
		w.fail("Len", "Len of roots is %d, want %d", rs.Len(), len(m))
	}
	seq := w.ss[w.n(len(w.ss))]
	now := time.Now().UnixNano()
	switch w.n(8) {
	case 0, 1, 2:
		r := w.root(seq)
		c := *r
		w.note("Set %d", seq)
		err := rs.Set(r)
		later := time.Now().UnixNano()
		if (c.Validate() == nil) != (err == nil) {
			w.fail("Set", "Set of %+v: %v", c, err)
		}
		if err != nil {
			break
		}
		old, ok := m[seq]
		if ok {
			c.Create, c.Access = old.Create, old.Access
			w.same("Set", r, c)
		} else {
			if r.Create != r.Access || r.Create < now || r.Create > later {
				w.fail("Set times", "creation time %d, access time %d, it is %d to %d", r.Create, r.Access, now, later)
			}
			c.Create, c.Access = r.Create, r.Access
			w.same("Set", r, c)
			m[seq] = c
			break
		}
		w.touched(rs, m, seq, old, now, later)
	case 3:
		w.note("Get %d", seq)
		r, err := rs.Get(seq)
		later := time.Now().UnixNano()
		old, ok := m[seq]
		if !ok {
			if err != data.ErrNotFound {
				w.fail("Get", "Get of absent: %v", err)
			}
			break
		}
		if err != nil {
			w.fail("Get", "Get: %v", err)
		}
		w.same("Get", r, old)
		w.touched(rs, m, seq, old, now, later)
	case 4:
		w.note("Del %d", seq)
		if err := rs.Del(seq); err != nil {
			w.fail("Del", "Del: %v", err)
		}
		delete(m, seq)
	case 5:
		ok, err := rs.Has(seq)
		if _, want := m[seq]; err != nil || ok != want {
			w.fail("Has", "Has %d: %v %v", seq, ok, err)
		}
	default:
		w.walk(rs, m, w.n(2) == 0)
	}
}

// only the access time was set, to now; read without touching
func (w *irun) touched(rs data.Roots, m mroots, seq uint64, old data.Root, now, later int64) {
	found := false
	rs.Ascend(func(r *data.Root) error {
		if r.Seq != seq {
			return nil
		}
		found = true
		if r.Access < now || r.Access > later {
			w.fail("access", "access time of %d is %d, it is %d to %d", seq, r.Access, now, later)
		}
		old.Access = r.Access
		w.same("touched", r, old)
		return nil
	})
	if !found {
		w.fail("access", "the root %d is not visited", seq)
	}
	m[seq] = old
}

func (w *irun) walk(rs data.Roots, m mroots, up bool) {
	name := "Descend"
	f := rs.Descend
	if up {
		name, f = "Ascend", rs.Ascend
	}
	w.note("%s{", name)
	stop, bad := -1, false
	if w.n(3) == 0 {
		stop, bad = w.n(4), w.n(2) == 0
	}
	change := w.n(2) == 0 && w.depth < 2
	var last uint64
	n := 0
	next := func() (uint64, bool) {
		l := iroots(m)
		if up {
			for _, s := range l {
				if n == 0 || s > last {
					return s, true
				}
			}
		} else {
			for i := len(l) - 1; i >= 0; i-- {
				if n == 0 || l[i] < last {
					return l[i], true
				}
			}
		}
		return 0, false
	}
	stopped := false
	err := f(func(r *data.Root) error {
		want, ok := next()
		if !ok || r.Seq != want {
			w.fail(name, "%s visits %d, want %d (%v)", name, r.Seq, want, ok)
		}
		w.same(name, r, m[want])
		last = want
		if n++; n-1 == stop {
			stopped = true
			if bad {
				return errI
			}
			return data.ErrStopIteration
		}
		if change && w.n(2) == 0 {
			w.depth++
			w.roots(rs, m)
			if w.n(3) == 0 {
				w.note("Del %d", last)
				rs.Del(last)
				delete(m, last)
			}
			w.depth--
		}
		return nil
	})
	w.note("}")
	if stopped && bad && err != errI || !(stopped && bad) && err != nil {
		w.fail(name, "%s: %v", name, err)
	}
	if s, ok := next(); ok && !stopped {
		w.fail(name, "%s does not visit %d", name, s)
	}
}

func (w *irun) heads(hs data.Heads, m mheads) {
	if hs.Len() != len(m) {
		w.fail("Len", "Len of heads is %d, want %d", hs.Len(), len(m))
	}
	n := w.ns[w.n(len(w.ns))]
	switch w.n(7) {
	case 0, 1:
		w.note("head %d{", n)
		rs, err := hs.Add(n)
		if err != nil {
			w.fail("Add", "Add head: %v", err)
		}
		if m[n] == nil {
			m[n] = mroots{}
		}
		for k := w.n(5); k > 0; k-- {
			w.roots(rs, m[n])
		}
		w.note("}")
	case 2, 3:
		rs, err := hs.Roots(n)
		if m[n] == nil {
			if err != data.ErrNoSuchHead {
				w.fail("Roots", "Roots of absent head: %v", err)
			}
			break
		}
		if err != nil {
			w.fail("Roots", "Roots: %v", err)
		}
		w.note("roots %d{", n)
		for k := w.n(5); k > 0; k-- {
			w.roots(rs, m[n])
		}
		w.note("}")
	case 4:
		w.note("Del head %d", n)
		err := hs.Del(n)
		if m[n] == nil && err != data.ErrNoSuchHead || m[n] != nil && err != nil {
			w.fail("Del", "Del of head: %v", err)
		}
		delete(m, n)
	case 5:
		ok, err := hs.Has(n)
		if err != nil || ok != (m[n] != nil) {
			w.fail("Has", "Has head: %v %v", ok, err)
		}
	case 6:
		var got []uint64
		stop := w.n(5)
		err := hs.Iterate(func(n uint64) error {
			got = append(got, n)
			if stop == len(got) {
				return data.ErrStopIteration
			}
			return nil
		})
		want := iheads(m)
		if stop > 0 && len(want) > stop {
			want = want[:stop]
		}
		if err != nil || fmt.Sprint(got) != fmt.Sprint(want) {
			w.fail("Iterate", "heads %v, want %v, %v", got, want, err)
		}
		if len(m) > 0 {
			if err = hs.Iterate(func(uint64) error { return errI }); err != errI {
				w.fail("Iterate", "error of the callback: %v", err)
			}
		}
	}
}

func (w *irun) feeds(fs data.Feeds) {
	m := w.m
	if fs.Len() != len(m) {
		w.fail("Len", "Len of feeds is %d, want %d", fs.Len(), len(m))
	}
	i := w.n(len(w.pks))
	pk := w.pks[i]
	switch w.n(8) {
	case 0:
		w.note("Add feed %d", i)
		if err := fs.Add(pk); err != nil {
			w.fail("Add", "Add feed: %v", err)
		}
		if m[pk] == nil {
			m[pk] = mheads{}
		}
	case 1:
		if w.n(3) > 0 {
			break
		}
		w.note("Del feed %d", i)
		err := fs.Del(pk)
		if m[pk] == nil && err != data.ErrNoSuchFeed || m[pk] != nil && err != nil {
			w.fail("Del", "Del of feed: %v", err)
		}
		delete(m, pk)
	case 2:
		ok, err := fs.Has(pk)
		if err != nil || ok != (m[pk] != nil) {
			w.fail("Has", "Has feed: %v %v", ok, err)
		}
	case 3:
		if w.depth > 0 {
			break
		}
		w.note("Iterate{")
		stop, bad := -1, false
		if w.n(3) == 0 {
			stop, bad = w.n(4), w.n(2) == 0
		}
		n := 0
		var last cipher.PubKey
		stopped := false
		next := func() (cipher.PubKey, bool) {
			for _, pk := range ifeeds(w.m) {
				if n == 0 || bytes.Compare(pk[:], last[:]) > 0 {
					return pk, true
				}
			}
			return cipher.PubKey{}, false
		}
		err := fs.Iterate(func(pk cipher.PubKey) error {
			want, ok := next()
			if !ok || pk != want {
				w.fail("Iterate", "feeds: visits %x, want %x (%v)", pk, want, ok)
			}
			last = pk
			if n++; n-1 == stop {
				stopped = true
				if bad {
					return errI
				}
				return data.ErrStopIteration
			}
			w.depth++
			if w.n(2) == 0 {
				w.feeds(fs)
			}
			w.depth--
			return nil
		})
		w.note("}")
		if stopped && bad && err != errI || !(stopped && bad) && err != nil {
			w.fail("Iterate", "feeds: %v", err)
		}
		if pk, ok := next(); ok && !stopped {
			w.fail("Iterate", "feeds: does not visit %x", pk)
		}
	default:
		hs, err := fs.Heads(pk)
		if m[pk] == nil {
			if err != data.ErrNoSuchFeed {
				w.fail("Heads", "Heads of absent feed: %v", err)
			}
			break
		}
		if err != nil {
			w.fail("Heads", "Heads: %v", err)
		}
		w.note("feed %d{", i)
		for k := w.n(6); k > 0; k-- {
			w.heads(hs, m[pk])
		}
		w.note("}")
	}
}

func (w *irun) tx() {
	w.note("Tx(")
	before := w.m.copy()
	back := w.n(5) == 0
	err := w.db.Tx(func(fs data.Feeds) error {
		for k := 1 + w.n(8); k > 0; k-- {
			w.feeds(fs)
		}
		if back {
			return errI
		}
		return nil
	})
	if back {
		w.m = before
		w.note(")failed")
		if err != errI {
			w.fail("Tx", "a transaction that failed: %v", err)
		}
		return
	}
	w.note(")")
	if err != nil {
		w.fail("Tx", "Tx: %v", err)
	}
}

// everything is as it must be, without touching
func (w *irun) whole() {
	err := w.db.Tx(func(fs data.Feeds) error {
		var pks []cipher.PubKey
		fs.Iterate(func(pk cipher.PubKey) error {
			pks = append(pks, pk)
			return nil
		})
		if fmt.Sprint(pks) != fmt.Sprint(ifeeds(w.m)) {
			w.fail("whole", "feeds are %x, want %x", pks, ifeeds(w.m))
		}
		for _, pk := range pks {
			hs, err := fs.Heads(pk)
			if err != nil {
				return err
			}
			var ns []uint64
			hs.Iterate(func(n uint64) error {
				ns = append(ns, n)
				return nil
			})
			if fmt.Sprint(ns) != fmt.Sprint(iheads(w.m[pk])) {
				w.fail("whole", "heads are %v, want %v", ns, iheads(w.m[pk]))
			}
			for _, n := range ns {
				rs, err := hs.Roots(n)
				if err != nil {
					return err
				}
				w.log = append(w.log, "at the end")
				d := w.depth
				w.depth = 5
				l := iroots(w.m[pk][n])
				i := 0
				rs.Ascend(func(r *data.Root) error {
					if i >= len(l) || r.Seq != l[i] {
						w.fail("whole", "root %d is there, want %v", r.Seq, l)
					}
					w.same("whole", r, w.m[pk][n][r.Seq])
					i++
					return nil
				})
				if i != len(l) {
					w.fail("whole", "%d roots, want %v", i, l)
				}
				w.depth = d
				w.log = w.log[:len(w.log)-1]
			}
		}
		return nil
	})
	if err != nil {
		w.fail("whole", "%v", err)
	}
}

func TestVerif(t *testing.T) {
	v := vstart(t, "random transactions against nested maps, with changes during iterations, failing transactions and reopening",
		"up to 8 transactions; extreme keys, heads and numbers among few others")
	dir, err := os.MkdirTemp("", "verif")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	for i := 0; v.More(1); i++ {
		name := filepath.Join(dir, fmt.Sprint(i))
		open := func() data.IdxDB {
			db, err := NewDriveIdxDB(name)
			if err != nil {
				t.Fatal(err)
			}
			if d, ok := db.(*driveDB); ok {
				d.b.NoSync = true
			}
			return db
		}
		w := &irun{v: v, m: mfeeds{}, db: open()}
		w.pks = []cipher.PubKey{{}, {1}}
		for k := 0; k < 3; k++ {
			var pk cipher.PubKey
			v.R.Read(pk[:])
			w.pks = append(w.pks, pk)
		}
		var top, low cipher.PubKey
		for k := range top {
			top[k] = 0xff
		}
		low = top
		low[len(low)-1] = byte(v.R.Intn(255))
		w.pks = append(w.pks, top, low)
		w.pks = append(w.pks[:0:0], w.pks...)
		w.ns = []uint64{0, 1, 255, 256, math.MaxUint64, v.R.Uint64()}
		w.ss = []uint64{0, 1, 2, 3, 255, 256, 257, math.MaxUint64, math.MaxUint64 - 1, v.R.Uint64(), 1 << 32}
		v.Try("panic", "(see the pending history)", func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(istop); !ok {
						v.Fail("panic", strings.Join(w.log, "; "), "panic: %v", r)
					}
				}
			}()
			for k := 1 + v.R.Intn(8); k > 0; k-- {
				w.tx()
				if v.R.Intn(6) == 0 {
					w.note("reopen")
					w.db.Close()
					w.db = open()
				}
				if v.R.Intn(3) == 0 {
					w.whole()
				}
			}
			w.whole()
		})
		w.db.Close()
		os.Remove(name)
		v.Case(strings.Join(w.log, "; "), len(w.log) > 6)
	}
	v.Done()
}
