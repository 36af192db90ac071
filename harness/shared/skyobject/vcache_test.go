package skyobject

import (
	"errors"
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/cxds"
	"github.com/skycoin/cxo/data/idxdb"
	"github.com/skycoin/cxo/skyobject/registry"
)

// A cache over a store that fails when asked to, and what it must give

var errVFail = errors.New("the store fails by the test")

type vFailCXDS struct {
	data.CXDS
	n      int // calls before the failure, if above zero
	failed bool
	log    []string
}

func (f *vFailCXDS) fail() bool {
	if f.n > 0 {
		if f.n--; f.n == 0 {
			f.failed = true
			return true
		}
	}
	return false
}

func (f *vFailCXDS) Get(k cipher.SHA256, inc int) ([]byte, uint32, error) {
	if f.fail() {
		return nil, 0, errVFail
	}
	v, rc, err := f.CXDS.Get(k, inc)
	return append([]byte(nil), v...), rc, err
}

func (f *vFailCXDS) Set(k cipher.SHA256, v []byte, inc int) (uint32, error) {
	if f.fail() {
		return 0, errVFail
	}
	return f.CXDS.Set(k, append([]byte(nil), v...), inc)
}

func (f *vFailCXDS) Inc(k cipher.SHA256, inc int) (uint32, error) {
	if f.fail() {
		return 0, errVFail
	}
	return f.CXDS.Inc(k, inc)
}

func (f *vFailCXDS) Close() error { return nil }

type vCKey struct {
	key    cipher.SHA256
	val    []byte
	stored bool
	r, f   int // all references, those of fillers
	want   map[int]int
	held   map[int]int // by filler
	cached bool
	points int
}

type vCacheWorld struct {
	v    *V
	prop string
	c    *Container
	conf *Config
	db   *vFailCXDS
	ks   []*vCKey
	gcs  []chan Object
	time int
	log  []string
	mild bool // store and read only
}

func (w *vCacheWorld) fail(prop, class, f string, as ...interface{}) {
	if prop == w.prop || os.Getenv("VERIF_ALL") != "" {
		w.v.Fail(prop+" "+class, strings.Join(w.log, "; "), f, as...)
	}
	panic(vCStop{})
}

type vCStop struct{}

func (w *vCacheWorld) n(n int) int { return w.v.R.Intn(n) }

func vNewCacheWorld(v *V, prop string) (w *vCacheWorld) {
	w = &vCacheWorld{v: v, prop: prop}
	c := NewConfig()
	c.DataDir = ""
	c.RollAvgSamples = 1
	c.CacheRegistries = w.n(3)
	c.CachePolicy = CachePolicy(w.n(2))
	c.CacheCleaning = []float64{0.5, 0.7, 0.9}[w.n(3)]
	c.MaxObjectSize = 1024
	twoSizes := w.n(3) == 0 // as large as kept, or tiny
	keys := 2 + w.n(9)
	kind, both := w.n(6), false
	if prop == "C14" && w.n(3) == 0 {
		twoSizes, kind = true, 1
	}
	switch kind {
	case 0: // off
		c.CacheMaxAmount, c.CacheMaxVolume = 0, 0
	case 1, 2, 3: // small
		c.CacheMaxAmount = 1 + w.n(8)
		c.CacheMaxVolume = 20 + w.n(200)
		if twoSizes && w.n(2) == 0 {
			w.mild = w.n(2) == 0
			c.CacheMaxAmount, c.CacheCleaning, keys = 4+w.n(5), []float64{0.6, 0.7, 0.8}[w.n(3)], 8+w.n(5)
		}
		// tiny ones first, then large: one more exceeds both limits at once
		if both = twoSizes && w.n(2) == 0; both {
			w.mild = true
			c.CacheMaxAmount, c.CacheCleaning = 4+w.n(4), []float64{0.5, 0.55, 0.6}[w.n(3)]
			keys = c.CacheMaxAmount + 2 + w.n(4)
		}
		c.CacheMaxItemSize = int(float64(c.CacheMaxVolume) * (1 - c.CacheCleaning))
	case 4:
		c.CacheMaxAmount = 1 + w.n(4)
	}
	w.db = &vFailCXDS{CXDS: cxds.NewMemoryCXDS()}
	c.DB = data.NewDB(w.db, vKeepIdxDB{idxdb.NewMemeoryDB()})
	w.conf = c
	w.log = append(w.log, fmt.Sprintf("cache of %d items of %d bytes (one %d), policy %v, cleaning %v", c.CacheMaxAmount, c.CacheMaxVolume, c.CacheMaxItemSize, c.CachePolicy, c.CacheCleaning))
	w.open()
	for i := 0; i < 4; i++ {
		w.gcs = append(w.gcs, make(chan Object, 4))
	}
	for i := 0; i < keys; i++ {
		k := &vCKey{want: map[int]int{}, held: map[int]int{}}
		n := 1 + w.n(20)
		switch w.n(12) {
		case 0:
			n = 1 + w.n(300)
		case 1:
			n = c.MaxObjectSize + w.n(3)
		default:
			if twoSizes {
				if n = 1; w.n(2) == 0 && c.CacheMaxItemSize > 0 && c.CacheMaxItemSize < 300 {
					n = c.CacheMaxItemSize
				}
			}
		}
		if both {
			if n = 1; i >= c.CacheMaxAmount-2 && c.CacheMaxItemSize > 1 {
				n = c.CacheMaxItemSize - w.n(2)
			}
		}
		k.val = v.Bytes(n)
		k.val[0] = byte(i)
		k.key = cipher.SumSHA256(k.val)
		w.ks = append(w.ks, k)
	}
	return
}

type vKeepIdxDB struct{ data.IdxDB }

func (vKeepIdxDB) Close() error { return nil }

func (w *vCacheWorld) open() {
	c, err := NewContainer(w.conf)
	if err != nil {
		panic(err)
	}
	w.c = c
}

func (w *vCacheWorld) shut() error {
	err := w.c.Close()
	w.c.Index.Close()
	return err
}

func (k *vCKey) hard() int { return k.r - k.f }

func (k *vCKey) wanted() bool { return len(k.want) > 0 }

func vInc(rc, inc int) int {
	if rc+inc < 0 {
		return 0
	}
	return rc + inc
}

// what is in the cache with its value
func (w *vCacheWorld) regular() (m map[cipher.SHA256]int) {
	m = map[cipher.SHA256]int{}
	for k, it := range w.c.Cache.is {
		if len(it.val) > 0 {
			m[k] = len(it.val)
		}
	}
	return
}

// deliveries that must be there and no other
func (w *vCacheWorld) delivered(k *vCKey, to map[int]bool, hard int, tooLarge bool) {
	for i, gc := range w.gcs {
		select {
		case o := <-gc:
			if !to[i] {
				w.fail("C15", "delivered", "channel %d got %s that it does not wait for", i, o.Key.Hex()[:7])
			}
			if o.Key != k.key {
				w.fail("C15", "delivered", "channel %d got %s", i, o.Key.Hex()[:7])
			}
			if tooLarge {
				if o.Err == nil {
					w.fail("C15", "delivered", "channel %d got an object that is too large", i)
				}
			} else if o.Err != nil || string(o.Val) != string(k.val) {
				w.fail("C15", "delivered", "channel %d got another value or error %v", i, o.Err)
			} else if o.RC != hard {
				w.fail("C15", "delivered rc", "channel %d got rc %d, want %d", i, o.RC, hard)
			}
			select {
			case <-gc:
				w.fail("C15", "delivered", "channel %d got it twice", i)
			default:
			}
		default:
			if to[i] {
				w.fail("C15", "delivered", "channel %d did not get %s that it waits for", i, k.key.Hex()[:7])
			}
		}
	}
}

func (w *vCacheWorld) one() {
	ki := w.n(len(w.ks))
	k := w.ks[ki]
	if w.n(3) == 0 {
		for _, x := range w.n2() {
			k, ki = w.ks[x], x
		}
	}
	before := w.regular()
	was := map[cipher.SHA256]*vCKey{}
	for _, x := range w.ks {
		y := *x
		was[x.key] = &y
	}
	w.db.n, w.db.failed = 0, false
	if w.mild && w.n(4) > 0 {
		for x, y := range w.ks {
			if !y.stored {
				k, ki = y, x
				break
			}
		}
	}
	faulty := w.n(12) == 0 && !w.mild
	if faulty {
		w.db.n = 1 + w.n(3)
	}
	c := w.c
	rc, err := 0, error(nil)
	val := k.val
	to := map[int]bool{}
	old := *k
	neutral := false
	apply := func() {} // to the model
	wantErr := error(nil)
	wantRC := 0
	ignoreRC := false
	tooLarge := false
	large := len(k.val) > w.conf.MaxObjectSize
	takeAll := func() (sum int) {
		for gc, inc := range k.want {
			sum += inc
			to[gc] = true
		}
		return
	}
	name := ""
	op := w.n(12)
	if w.mild {
		op = []int{0, 0, 2}[w.n(3)]
	}
	switch op {
	case 0, 1: // Set
		inc := 1 + w.n(3)
		name = fmt.Sprintf("Set %d %d", ki, inc)
		switch {
		case k.wanted() && large:
			takeAll()
			wantErr, tooLarge = &ObjectIsTooLargeError{k.key}, true
			apply = func() { k.want = map[int]int{} }
		case k.wanted():
			sum := takeAll()
			wantRC = inc
			apply = func() {
				k.stored, k.r, k.f = true, k.r+inc+sum, k.f+sum
				for g, i := range k.want {
					k.held[g] += i
				}
				k.want = map[int]int{}
			}
		case large:
			wantErr = &ObjectIsTooLargeError{k.key}
		default:
			wantRC = vInc(k.r, inc) - k.f
			apply = func() { k.stored, k.r = true, vInc(k.r, inc) }
		}
		w.log = append(w.log, name)
		rc, err = c.Set(k.key, append([]byte(nil), k.val...), inc)
	case 2, 3, 4: // Get
		inc := w.anInc(k)
		name = fmt.Sprintf("Get %d %d", ki, inc)
		w.log = append(w.log, name)
		if !k.stored || k.wanted() {
			wantErr = data.ErrNotFound
		} else {
			wantRC = vInc(k.r, inc) - k.f
			apply = func() { k.r = vInc(k.r, inc) }
		}
		val, rc, err = c.Get(k.key, inc)
		if err == nil && string(val) != string(k.val) {
			w.fail("C13", "value", "Get gives another value")
		}
	case 5, 6: // Inc
		inc := w.anInc(k)
		name = fmt.Sprintf("Inc %d %d", ki, inc)
		w.log = append(w.log, name)
		if !k.stored || k.wanted() {
			wantErr = data.ErrNotFound
		} else {
			wantRC = vInc(k.r, inc) - k.f
			apply = func() { k.r = vInc(k.r, inc) }
		}
		rc, err = c.Inc(k.key, inc)
	case 7: // as deleting of a root reads it
		inc := w.anInc(k)
		name = fmt.Sprintf("getNoCache %d %d", ki, inc)
		w.log = append(w.log, name)
		if !k.stored || k.wanted() {
			wantErr = data.ErrNotFound
		} else {
			wantRC = vInc(k.r, inc) - k.f
			apply = func() { k.r = vInc(k.r, inc) }
		}
		neutral = true
		val, rc, err = c.Cache.getNoCache(k.key, inc)
		if err == nil && string(val) != string(k.val) {
			w.fail("C13", "value", "getNoCache gives another value")
		}
	case 8: // Want
		g, inc := w.n(len(w.gcs)), w.n(3)
		name = fmt.Sprintf("Want %d by %d, %d", ki, g, inc)
		w.log = append(w.log, name)
		ignoreRC = true
		if k.stored && !k.wanted() {
			to[g] = true
			apply = func() { k.r += inc; k.f += inc; k.held[g] += inc }
		} else {
			apply = func() { k.want[g] += inc }
		}
		err = c.Want(k.key, w.gcs[g], inc)
	case 9: // Unwant
		g := w.n(len(w.gcs))
		name = fmt.Sprintf("Unwant %d by %d", ki, g)
		w.log = append(w.log, name)
		ignoreRC, neutral = true, true
		apply = func() { delete(k.want, g) }
		c.Unwant(k.key, w.gcs[g])
	case 10: // SetWanted
		name = fmt.Sprintf("SetWanted %d", ki)
		w.log = append(w.log, name)
		ignoreRC = true
		neutral = !k.wanted()
		if k.wanted() {
			sum := takeAll()
			switch {
			case large:
				wantErr, tooLarge = &ObjectIsTooLargeError{k.key}, true
				apply = func() { k.want = map[int]int{} }
			case sum == 0:
				apply = func() { k.want = map[int]int{} }
			default:
				apply = func() {
					k.stored, k.r, k.f = true, k.r+sum, k.f+sum
					for g, i := range k.want {
						k.held[g] += i
					}
					k.want = map[int]int{}
				}
			}
		}
		rc, err = c.SetWanted(k.key, append([]byte(nil), k.val...))
	case 11: // Finc
		gs := []int{}
		for g, n := range k.held {
			if n > 0 {
				gs = append(gs, g)
			}
		}
		sort.Ints(gs)
		if len(gs) == 0 {
			w.db.n = 0
			return
		}
		g := gs[w.n(len(gs))]
		n := 1 + w.n(k.held[g])
		w.db.n = 0 // a failure is fatal for the caller
		ignoreRC, neutral = true, true
		if w.n(2) == 0 {
			name = fmt.Sprintf("Finc %d by %d: %d", ki, g, n)
			apply = func() { k.held[g] -= n; k.f -= n }
			w.log = append(w.log, name)
			err = c.Finc(k.key, n)
		} else {
			name = fmt.Sprintf("Finc %d by %d: %d", ki, g, -n)
			apply = func() { k.held[g] -= n; k.f -= n; k.r -= n }
			w.log = append(w.log, name)
			err = c.Finc(k.key, -n)
		}
	}
	failed := w.db.failed
	w.db.n, w.db.failed = 0, false
	if failed {
		w.log[len(w.log)-1] += " (the store failed)"
		if err == nil {
			w.fail("C13", "error", "failure of the store is not reported")
		}
		// done or not done; then start again, with what is there
		got := 0
		for _, gc := range w.gcs {
			for len(gc) > 0 {
				<-gc
				got++
			}
		}
		kb := was[k.key]
		for _, x := range w.ks {
			if x != k && x.stored {
				w.same(x, "after failure")
			}
		}
		wantedStill := false
		if it := w.c.Cache.is[k.key]; it != nil {
			wantedStill = it.isWanted()
		}
		if kb.wanted() && !wantedStill || !kb.wanted() && wantedStill || got > 0 {
			if got > 0 || wantedStill != kb.wanted() {
				// it was done
				apply()
				if k.stored && !k.wanted() {
					w.same(k, "done, but failed")
				}
				w.sync(before)
				return
			}
		}
		if k.stored && !k.wanted() {
			_, n, err := c.Get(k.key, 0)
			if err != nil {
				w.fail("C13", "failure", "after failure: Get: %v", err)
			}
			if n != k.hard() {
				*kb = *k
				apply()
				if n != k.hard() {
					w.fail("C13", "failure", "after failure: counter of %d is %d, it was %d", ki, n, kb.hard())
				}
			}
		} else if !k.wanted() {
			if _, n, err := c.Get(k.key, 0); err == nil {
				apply()
				if n != k.hard() {
					w.fail("C13", "failure", "after failure: counter of %d is %d", ki, n)
				}
			}
		}
		w.sync(before)
		return
	}
	switch e := wantErr.(type) {
	case nil:
		if err != nil {
			w.fail("C13", "error", "%v", err)
		}
	case *ObjectIsTooLargeError:
		if x, ok := err.(*ObjectIsTooLargeError); !ok || x.Error() != e.Error() {
			w.fail("C13", "error", "%v instead of too large", err)
		}
	default:
		if err != wantErr {
			w.fail("C13", "error", "%v instead of %v", err, wantErr)
		}
	}
	apply()
	if err == nil && !ignoreRC && rc != wantRC {
		w.fail("C13", "counter", "returns %d, want %d", rc, wantRC)
	}
	w.delivered(&old, to, k.hard(), tooLarge)
	w.limits(k, before, neutral, was)
}

func (w *vCacheWorld) n2() (xs []int) {
	// prefer those wanted or held
	for i, k := range w.ks {
		if k.wanted() || k.f > 0 {
			xs = append(xs, i)
		}
	}
	w.v.R.Shuffle(len(xs), func(i, j int) { xs[i], xs[j] = xs[j], xs[i] })
	return
}

// not below what fillers hold
func (w *vCacheWorld) anInc(k *vCKey) int {
	if k.f > 0 {
		return w.n(3+k.hard()) - k.hard()
	}
	return w.n(8) - 4
}

// the counter must be this
func (w *vCacheWorld) same(x *vCKey, when string) {
	if x.wanted() {
		return
	}
	val, n, err := w.c.Get(x.key, 0)
	if err != nil || n != x.hard() || string(val) != string(x.val) {
		w.fail("C13", "state", "%s: Get gives counter %d and %v, want %d", when, n, err, x.hard())
	}
}

// start the policy's numbers again
func (w *vCacheWorld) sync(before map[cipher.SHA256]int) {
	for _, k := range w.ks {
		it := w.c.Cache.is[k.key]
		if k.cached = it != nil && len(it.val) > 0; !k.cached {
			continue
		}
		w.time++
		if w.conf.CachePolicy == LRU {
			it.cachePoints = cachePoints(w.time)
		}
		k.points = int(it.cachePoints)
	}
}

func (w *vCacheWorld) limits(k *vCKey, before map[cipher.SHA256]int, neutral bool, was map[cipher.SHA256]*vCKey) {
	after := w.regular()
	vol := 0
	for key, n := range after {
		vol += n
		if n > w.conf.CacheMaxItemSize {
			w.fail("C14", "item", "an item of %d bytes is kept", n)
		}
		_ = key
	}
	if len(after) > w.conf.CacheMaxAmount || vol > w.conf.CacheMaxVolume {
		w.fail("C14", "limit", "%d items of %d bytes are kept", len(after), vol)
	}
	if a, v := w.c.amountVolume(); a != len(after) || v != vol {
		w.fail("C14", "stat", "statistics say %d items of %d bytes, there are %d of %d", a, v, len(after), vol)
	}
	// those removed against those kept
	maxOut, minIn := -1, 1<<60
	for _, x := range w.ks {
		if x == k || before[x.key] == 0 {
			continue
		}
		p := was[x.key].points
		if after[x.key] == 0 {
			if p > maxOut {
				maxOut = p
			}
		} else if p < minIn {
			minIn = p
		}
	}
	if maxOut > minIn {
		w.fail("C14", "policy", "an item used at or %d times was removed, and one of %d was kept (%v)", maxOut, minIn, w.conf.CachePolicy)
	}
	w.time++
	for _, x := range w.ks {
		if after[x.key] == 0 {
			x.points = 0
			continue
		}
		it := w.c.Cache.is[x.key]
		if x == k && !neutral {
			if w.conf.CachePolicy == LRU {
				x.points = w.time
			} else if before[x.key] == 0 {
				x.points = 1
			} else {
				x.points++
			}
		} else if x == k {
			if w.conf.CachePolicy == LRU {
				if it.cachePoints > 1000000 {
					x.points = w.time
				}
			} else {
				x.points = int(it.cachePoints)
			}
		}
		if w.conf.CachePolicy == LRU {
			if x == k && !neutral && it.cachePoints <= 1000000 {
				w.fail("C14", "policy", "the item used is not noted as used")
			}
			it.cachePoints = cachePoints(x.points)
		}
	}
	// not cached means that all is in the store
	for i, x := range w.ks {
		if w.c.IsCached(x.key) && after[x.key] == 0 && !x.wanted() && x.f == 0 {
			w.fail("C15", "mark", "%d is kept as used, but nobody waits for it or holds it, and its value is not cached", i)
		}
		if !w.c.IsCached(x.key) {
			if x.wanted() {
				w.fail("C15", "lost", "%d is not waited for anymore", i)
			}
			if x.f > 0 {
				w.fail("C15", "lost", "%d is not held by fillers anymore", i)
			}
			_, rc, err := w.db.CXDS.Get(x.key, 0)
			if (err == nil) != x.stored || x.stored && int(rc) != x.r {
				w.fail("C13", "store", "%d is stored with %d and %v, want %d", i, rc, err, x.r)
			}
		}
	}
}

func (w *vCacheWorld) all(when string) {
	for i, x := range w.ks {
		if x.wanted() {
			if _, err := w.c.Inc(x.key, 0); err != data.ErrNotFound {
				w.fail("C13", "state", "%s: Inc of wanted %d: %v", when, i, err)
			}
			continue
		}
		rc, err := w.c.Inc(x.key, 0)
		if !x.stored {
			if err != data.ErrNotFound {
				w.fail("C15", "stored", "%s: %d must not be stored: %v", when, i, err)
			}
			continue
		}
		if err != nil || rc != x.hard() {
			w.fail("C13", "state", "%s: counter of %d is %d and %v, want %d", when, i, rc, err, x.hard())
		}
	}
	w.sync(w.regular())
}

// closed: the store has all, fillers and those waiting are gone
func (w *vCacheWorld) reopen() {
	w.log = append(w.log, "Close")
	if err := w.shut(); err != nil {
		w.fail("C13", "close", "Close: %v", err)
	}
	for i, x := range w.ks {
		x.r -= x.f
		x.f = 0
		x.want, x.held = map[int]int{}, map[int]int{}
		_, rc, err := w.db.CXDS.Get(x.key, 0)
		if (err == nil) != x.stored || x.stored && int(rc) != x.r {
			w.fail("C13", "closed", "after Close %d is stored with %d and %v, want %d", i, rc, err, x.r)
		}
	}
	w.open()
	w.sync(nil)
}

func (w *vCacheWorld) run(steps int) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(vCStop); !ok {
				panic(r)
			}
		}
		w.shut()
	}()
	for ; steps > 0; steps-- {
		w.one()
		switch w.n(12) {
		case 0:
			w.all("all")
		case 1:
			if w.n(2) == 0 {
				w.reopen()
			}
		}
	}
	w.all("end")
	w.reopen()
}

// registries that the cache keeps
func (w *vCacheWorld) registries() {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(vCStop); !ok {
				panic(r)
			}
		}
	}()
	type pt struct{ at int }
	used := map[registry.RegistryRef]*pt{}
	var regs []*registry.Registry
	for i := 0; i < 4; i++ {
		regs = append(regs, registry.NewRegistry(func(r *registry.Reg) {
			r.Register(fmt.Sprintf("v.T%d", i), struct{ A uint32 }{})
		}))
	}
	for _, r := range regs {
		if _, err := w.c.Set(cipher.SHA256(r.Reference()), r.Encode(), 1); err != nil {
			w.fail("C13", "registry", "Set: %v", err)
		}
	}
	for n := 0; n < 12; n++ {
		r := regs[w.n(len(regs))]
		rr := r.Reference()
		w.time++
		was := map[registry.RegistryRef]bool{}
		for x := range w.c.Cache.rs {
			was[x] = true
		}
		if w.n(3) == 0 {
			w.log = append(w.log, "AddRegistryToCache "+rr.Short())
			w.c.AddRegistryToCache(r)
		} else {
			w.log = append(w.log, "Registry "+rr.Short())
			got, err := w.c.Registry(rr)
			if err != nil || got.Reference() != rr {
				w.fail("C13", "registry", "Registry: %v", err)
			}
		}
		if len(w.c.Cache.rs) > w.conf.CacheRegistries {
			w.fail("C14", "registries", "%d registries are kept, the limit is %d", len(w.c.Cache.rs), w.conf.CacheRegistries)
		}
		if used[rr] == nil || !was[rr] {
			used[rr] = &pt{}
		}
		if w.conf.CachePolicy == LRU {
			used[rr].at = w.time
		} else {
			used[rr].at++
		}
		for x := range was {
			if _, ok := w.c.Cache.rs[x]; ok || x == rr {
				continue
			}
			for y := range w.c.Cache.rs {
				if y != rr && used[y].at < used[x].at {
					w.fail("C14", "registries", "registry of %d was removed, that of %d was kept", used[x].at, used[y].at)
				}
			}
		}
		for x, ir := range w.c.Cache.rs {
			if w.conf.CachePolicy == LRU {
				ir.cachePoints = cachePoints(used[x].at)
			}
		}
	}
	w.shut()
}
