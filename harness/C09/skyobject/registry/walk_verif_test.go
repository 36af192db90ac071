package registry

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
	"github.com/skycoin/skycoin/src/cipher/encoder"
)

// vNode is a reference: an object, a blank one, a node of an array of references
type vNode struct {
	hash  cipher.SHA256
	depth int    // 0 for objects
	root  bool   // first node of an array of references
	get   bool   // whether what's inside must be got to walk deeper
	typ   string // type of the object
	kids  []*vNode
	size  int
}

func (n *vNode) String() string {
	var ks []string
	for _, k := range n.kids {
		ks = append(ks, k.String())
	}
	s := n.typ
	if n.depth > 0 {
		s = fmt.Sprintf("node%d", n.depth)
	}
	if n.hash == (cipher.SHA256{}) {
		return s + " nil"
	}
	s += " " + n.hash.Hex()[:4]
	if len(ks) > 0 {
		s += "(" + strings.Join(ks, ", ") + ")"
	}
	return s
}

type vBuild struct {
	v    *V
	ts   []vNamed
	reg  *Registry
	pack *vPack
	objs map[string][]*vNode
}

func vHasRefs(t reflect.Type) bool {
	switch t {
	case typeOfRef, typeOfRefs, typeOfDynamic:
		return true
	}
	switch t.Kind() {
	case reflect.Array, reflect.Slice:
		return vHasRefs(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).Tag.Get("enc") != "-" && vHasRefs(t.Field(i).Type) {
				return true
			}
		}
	}
	return false
}

func (b *vBuild) blank(typ string, depth int) *vNode {
	return &vNode{typ: typ, depth: depth, root: depth > 0, size: 1}
}

// add the kid to the node
func (n *vNode) add(k *vNode) cipher.SHA256 {
	n.kids = append(n.kids, k)
	n.size += k.size
	return k.hash
}

// object makes up an object of the type and stores it
func (b *vBuild) object(typ string, depth int) *vNode {
	v := b.v
	if os := b.objs[typ]; len(os) > 0 && v.R.Intn(3) == 0 {
		if o := os[v.R.Intn(len(os))]; o.size < 60 {
			return o
		}
	}
	var t reflect.Type
	for _, x := range b.ts {
		if x.name == typ {
			t = x.typ
		}
	}
	n := &vNode{typ: typ, size: 1, get: vHasRefs(t)}
	x := reflect.New(t).Elem()
	var dyn string
	vFill(v, x, func(rt reflect.Type, tag string) (h cipher.SHA256) {
		switch rt {
		case typeOfRef:
			return n.add(b.kid(strings.TrimPrefix(tag, "schema="), depth-1))
		case typeOfRefs:
			return n.add(b.refs(strings.TrimPrefix(tag, "schema="), depth-1))
		case typeOfDynamic:
			dyn = b.ts[v.R.Intn(len(b.ts))].name
			return n.add(b.kid(dyn, depth-1))
		}
		s, err := b.reg.SchemaByName(dyn)
		if err != nil {
			panic(err)
		}
		return cipher.SHA256(s.Reference())
	})
	n.hash, _ = b.pack.Add(encoder.Serialize(x.Interface()))
	b.objs[typ] = append(b.objs[typ], n)
	return n
}

// kid is an object or nothing
func (b *vBuild) kid(typ string, depth int) *vNode {
	if depth <= 0 || b.v.R.Intn(5) == 0 {
		return b.blank(typ, 0)
	}
	return b.object(typ, depth)
}

// refs makes up an array of references to the type
func (b *vBuild) refs(typ string, depth int) *vNode {
	v := b.v
	if depth <= 0 {
		return b.blank(typ, 1)
	}
	var r Refs
	kids := make(map[cipher.SHA256]*vNode)
	var hs []cipher.SHA256
	for i := v.R.Intn(12); i > 0; i-- {
		k := b.kid(typ, depth)
		kids[k.hash] = k
		hs = append(hs, k.hash)
	}
	b.pack.degree = Degree(2 + v.R.Intn(3))
	flags := b.pack.flags
	b.pack.flags = 0
	defer func() { b.pack.flags = flags }()
	if err := r.AppendHashes(b.pack, hs...); err != nil {
		panic(err)
	}
	for i := v.R.Intn(3); i > 0 && len(hs) > 0; i-- {
		j := v.R.Intn(len(hs))
		hs = append(hs[:j:j], hs[j+1:]...)
		if err := r.DeleteByIndex(b.pack, j); err != nil {
			panic(err)
		}
	}
	n := b.tree(typ, r.Hash, kids)
	n.check(hs)
	return n
}

// the tree of an array of references as it's stored
func (b *vBuild) tree(typ string, hash cipher.SHA256, kids map[cipher.SHA256]*vNode) *vNode {
	if hash == (cipher.SHA256{}) {
		return b.blank(typ, 1)
	}
	var er encodedRefs
	if _, err := encoder.DeserializeRaw(b.pack.vals[hash], &er); err != nil {
		panic(err)
	}
	n := &vNode{hash: hash, typ: typ, depth: int(er.Depth) + 1, root: true, get: true, size: 1}
	b.subtree(n, er.Elements, kids)
	return n
}

func (b *vBuild) subtree(n *vNode, hs []cipher.SHA256, kids map[cipher.SHA256]*vNode) {
	for _, h := range hs {
		if n.depth == 1 {
			k, ok := kids[h]
			if !ok {
				panic("no such element in the tree")
			}
			n.add(k)
			continue
		}
		var er encodedRefsNode
		if _, err := encoder.DeserializeRaw(b.pack.vals[h], &er); err != nil {
			panic(err)
		}
		k := &vNode{hash: h, typ: n.typ, depth: n.depth - 1, get: true, size: 1}
		b.subtree(k, er.Elements, kids)
		n.add(k)
	}
}

// check that the tree has the elements
func (n *vNode) check(hs []cipher.SHA256) {
	var got []cipher.SHA256
	var f func(n *vNode)
	f = func(n *vNode) {
		for _, k := range n.kids {
			if n.depth == 1 {
				got = append(got, k.hash)
			} else {
				f(k)
			}
		}
	}
	f(n)
	if fmt.Sprint(got) != fmt.Sprint(hs) && len(got)+len(hs) > 0 {
		panic(fmt.Sprintf("the stored array is not the array: %v and %v", got, hs))
	}
}

type vVisit struct {
	hash  cipher.SHA256
	depth int
}

func (x vVisit) String() string { return fmt.Sprintf("%s:%d", x.hash.Hex()[:4], x.depth) }

// visits counts what a walk has to visit; missing is whether a walk of all of
// it needs a value that's missing
func (n *vNode) visits(deeper func(vVisit) bool, pack *vPack, all map[vVisit]int) (missing bool) {
	x := vVisit{n.hash, n.depth}
	all[x]++
	if n.hash == (cipher.SHA256{}) {
		return false
	}
	_, ok := pack.vals[n.hash]
	if n.root && !ok {
		return true // loaded anyway
	}
	if !deeper(x) {
		return false
	}
	if n.get && !ok {
		return true
	}
	for _, k := range n.kids {
		if k.visits(deeper, pack, all) {
			missing = true
		}
	}
	return
}

func vDiff(want, got map[vVisit]int, part bool) string {
	for x, n := range got {
		if n > want[x] {
			return fmt.Sprintf("%s is visited %d times, it's there %d times", x, n, want[x])
		}
	}
	for x, n := range want {
		if n > got[x] && !part {
			return fmt.Sprintf("%s is visited %d times, it's there %d times", x, got[x], n)
		}
	}
	return ""
}

// vSplitter counts what a splitting asks for
type vSplitter struct {
	pack  *vPack
	mx    sync.Mutex
	wg    sync.WaitGroup
	async int
	rnd   *rand.Rand
	full  map[cipher.SHA256]bool // these need no splitting
	gets  map[cipher.SHA256]int
	pres  map[cipher.SHA256]int
	errs  []error
}

func (s *vSplitter) Registry() *Registry { return s.pack.reg }

func (s *vSplitter) Pre(key cipher.SHA256) (rc int, err error) {
	s.mx.Lock()
	defer s.mx.Unlock()
	s.pres[key]++
	if _, ok := s.pack.vals[key]; !ok {
		return 0, ErrNotFound
	}
	if s.full[key] {
		return 1, nil
	}
	return
}

func (s *vSplitter) Get(key cipher.SHA256) (val []byte, rc int, err error) {
	s.mx.Lock()
	defer s.mx.Unlock()
	s.gets[key]++
	val, ok := s.pack.vals[key]
	if !ok {
		return nil, 0, ErrNotFound
	}
	if s.full[key] {
		return val, 2, nil
	}
	return val, 1, nil
}

func (s *vSplitter) Fail(err error) {
	s.mx.Lock()
	defer s.mx.Unlock()
	s.errs = append(s.errs, err)
}

func (s *vSplitter) Go(f func()) {
	s.mx.Lock()
	async := s.rnd.Intn(4) < s.async
	s.mx.Unlock()
	if !async {
		f()
		return
	}
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		f()
	}()
}

func vSum(n *vNode, all map[vVisit]int, full map[cipher.SHA256]bool, pack *vPack) (missing bool) {
	return n.visits(func(x vVisit) bool { return !full[x.hash] }, pack, all)
}

func TestVerif(t *testing.T) {
	v := vstart(t, "random structures with references in arrays, slices and nested structures, random objects of them stored, walked and split; the visits are compared with the references that were put in",
		"up to 4 types, objects up to 4 levels deep, arrays of up to 11 references of degree 2..4, missing and damaged values, unsaved arrays, one refusal, error or stop per walk")
	for v.More(1) {
		ts := vTypes(v, 4, true)
		order := v.R.Perm(len(ts))
		reg := vRegistry(ts, order)
		pack := newVPack(reg)
		b := &vBuild{v: v, ts: ts, reg: reg, pack: pack, objs: map[string][]*vNode{}}
		depth := 1 + v.R.Intn(4)

		// what to walk
		typ := ts[v.R.Intn(len(ts))].name
		sch, err := reg.SchemaByName(typ)
		if err != nil {
			v.Fail("registry", vTypesString(ts), "%v", err)
			continue
		}
		kind := []string{"Ref", "Refs", "Dynamic", "Root", "unsaved Refs"}[v.R.Intn(5)]
		var nodes []*vNode
		var walk func(WalkFunc) error
		var split func(Splitter)
		var refs *Refs
		switch kind {
		case "Ref":
			n := b.kid(typ, depth)
			r := &Ref{n.hash}
			nodes = []*vNode{n}
			walk = func(f WalkFunc) error { return r.Walk(pack, sch, f) }
			split = func(s Splitter) { r.Split(s, sch) }
		case "Refs":
			n := b.refs(typ, depth)
			refs = &Refs{Hash: n.hash}
			if v.R.Intn(3) == 0 {
				if _, err := refs.Len(pack); err != nil {
					v.Fail("load", "", "%v", err)
				}
			}
			nodes = []*vNode{n}
			walk = func(f WalkFunc) error { return refs.Walk(pack, sch, f) }
			split = func(s Splitter) { (&Refs{Hash: n.hash}).Split(s, sch) }
		case "unsaved Refs":
			// with changes that are not saved
			refs = new(Refs)
			kids := map[cipher.SHA256]*vNode{}
			var hs []cipher.SHA256
			pack.degree = Degree(2 + v.R.Intn(3))
			ks := make([]*vNode, 1+v.R.Intn(10))
			for i := range ks {
				ks[i] = b.kid(typ, depth)
				kids[ks[i].hash] = ks[i]
			}
			pack.AddFlags(LazyUpdating)
			at := 1 + v.R.Intn(len(ks))
			for _, k := range ks {
				hs = append(hs, k.hash)
			}
			if err := refs.AppendHashes(pack, hs[:at]...); err != nil {
				panic(err)
			}
			if v.R.Intn(2) == 0 {
				refs.Rebuild(pack) // save it
			}
			for _, h := range hs[at:] {
				if err := refs.AppendHashes(pack, h); err != nil {
					panic(err)
				}
			}
			if v.R.Intn(2) == 0 {
				k := b.kid(typ, depth)
				kids[k.hash] = k
				j := v.R.Intn(len(hs))
				hs[j] = k.hash
				if err := refs.SetHashByIndex(pack, j, k.hash); err != nil {
					panic(err)
				}
			}
			pack.ClearFlags(LazyUpdating)
			// the same saved
			var saved Refs
			pack.degree = refs.degree
			if err := saved.AppendHashes(pack, hs...); err != nil {
				panic(err)
			}
			n := b.tree(typ, saved.Hash, kids)
			n.check(hs)
			nodes = []*vNode{n}
			walk = func(f WalkFunc) error { return refs.Walk(pack, sch, f) }
			split = func(s Splitter) { (&Refs{Hash: n.hash}).Split(s, sch) }
		default:
			var root Root
			k := 1
			if kind == "Root" {
				k = v.R.Intn(4)
			}
			for i := 0; i < k; i++ {
				var d Dynamic
				name := ts[v.R.Intn(len(ts))].name
				n := b.kid(name, depth)
				if s, _ := reg.SchemaByName(name); n.hash != d.Hash || v.R.Intn(2) == 0 {
					d.Schema = s.Reference()
				} else if v.R.Intn(2) == 0 {
					d.Schema = SchemaRef{7} // unknown
				}
				d.Hash = n.hash
				root.Refs = append(root.Refs, d)
				nodes = append(nodes, n)
			}
			if kind == "Dynamic" {
				d := root.Refs[0]
				walk = func(f WalkFunc) error { return d.Walk(pack, f) }
				split = d.Split
				break
			}
			walk = func(f WalkFunc) error { return root.Walk(pack, f) }
			split = func(s Splitter) {
				for _, d := range root.Refs {
					d.Split(s)
				}
			}
		}
		desc := fmt.Sprintf("types: %s; %s of %v", vTypesString(ts), kind, nodes)
		size := 0
		for _, n := range nodes {
			size += n.size
		}
		if size > 20000 {
			continue
		}
		run := func(class, what string, f func()) bool {
			r, did, in := vTimed(20*time.Second, f)
			switch {
			case !in:
				v.Fail(class+":endless", desc+"; "+what, "no end after 20 s")
				return false
			case did:
				v.Fail(class+":panic", desc+"; "+what, "panic: %v", r)
				return false
			}
			return true
		}

		// a walk: all of it, refusing, stopping, with an error
		mod := 1 + v.R.Intn(3)
		salt := byte(v.R.Intn(256))
		policies := []struct {
			what   string
			deeper func(x vVisit) bool
		}{
			{"all", func(vVisit) bool { return true }},
			{"nothing", func(vVisit) bool { return false }},
			{"some", func(x vVisit) bool { return int(x.hash[3]^salt)%(mod+1) != 0 }},
			{"arrays only", func(x vVisit) bool { return x.depth != 0 }},
		}
		saved := map[cipher.SHA256][]byte{}
		for k, x := range pack.vals {
			saved[k] = x
		}
		loaded := refs != nil && refs.refsNode != nil
		for round := 0; round < 4; round++ {
			p := policies[v.R.Intn(len(policies))]
			what := "deeper: " + p.what
			pack.vals = map[cipher.SHA256][]byte{}
			for k, x := range saved {
				pack.vals[k] = x
			}
			pack.flags = 0
			if v.R.Intn(3) == 0 && !loaded {
				// nothing is missing
				pack.flags = []Flags{HashTableIndex, EntireRefs, LazyUpdating}[v.R.Intn(3)]
			} else if v.R.Intn(3) == 0 && !loaded {
				// something is missing
				for k := range pack.vals {
					if v.R.Intn(3) == 0 {
						delete(pack.vals, k)
					}
				}
				what += ", values missing"
			}
			want := map[vVisit]int{}
			missing := false
			for _, n := range nodes {
				if n.visits(p.deeper, pack, want) {
					missing = true
				}
			}
			total := 0
			for _, n := range want {
				total += n
			}
			// without the missing, the calls that are there
			got := map[vVisit]int{}
			calls, stopAt := 0, 0
			var stop error
			if v.R.Intn(2) == 0 && total > 0 {
				stopAt = 1 + v.R.Intn(total)
				if stop = ErrStopIteration; v.R.Intn(2) == 0 {
					stop = errors.New("no more")
				}
				what += fmt.Sprintf(", %v at %d", stop, stopAt)
			}
			var late bool
			var werr error
			if !run("walk", what, func() {
				werr = walk(func(h cipher.SHA256, d int) (bool, error) {
					x := vVisit{h, d}
					calls++
					got[x]++
					if stop != nil && calls > stopAt {
						late = true
					}
					if calls == stopAt {
						return p.deeper(x), stop
					}
					return p.deeper(x), nil
				})
			}) {
				continue
			}
			in := desc + "; " + what
			v.Case(in, total > 1)
			stopped := stop != nil && calls >= stopAt
			switch {
			case late:
				v.Fail("walk:stop", in, "%d calls, stopped at %d", calls, stopAt)
			case stopped && stop == ErrStopIteration && werr != nil:
				v.Fail("walk:stop", in, "%v returned", werr)
			case stopped && stop != ErrStopIteration && werr != stop:
				v.Fail("walk:error", in, "%v returned", werr)
			case !stopped && missing && werr == nil:
				v.Fail("walk:missing", in, "no error, but a value is missing")
			case !stopped && !missing && werr != nil:
				v.Fail("walk:error", in, "%v", werr)
			}
			if d := vDiff(want, got, stopped || missing); d != "" {
				v.Fail("walk:visits", in, "%s", d)
			}
		}

		// splitting
		for round := 0; round < 2; round++ {
			pack.vals = map[cipher.SHA256][]byte{}
			for k, x := range saved {
				pack.vals[k] = x
			}
			s := &vSplitter{pack: pack, async: v.R.Intn(5), rnd: v.R, full: map[cipher.SHA256]bool{},
				gets: map[cipher.SHA256]int{}, pres: map[cipher.SHA256]int{}}
			what := "split"
			switch v.R.Intn(3) {
			case 0:
				for k := range pack.vals {
					if v.R.Intn(4) == 0 {
						s.full[k] = true
					}
				}
				what += fmt.Sprintf(", %d values full", len(s.full))
			case 1:
				for k := range pack.vals {
					if v.R.Intn(6) == 0 {
						delete(pack.vals, k)
					}
				}
				what += ", values missing"
			}
			want := map[vVisit]int{}
			missing := false
			for _, n := range nodes {
				if vSum(n, want, s.full, pack) {
					missing = true
				}
			}
			wgets, wpres := map[cipher.SHA256]int{}, map[cipher.SHA256]int{}
			objs := map[cipher.SHA256]bool{}
			for x, n := range want {
				if x.hash == (cipher.SHA256{}) {
					continue
				}
				if x.depth > 0 {
					wpres[x.hash] += n
					if !s.full[x.hash] {
						wgets[x.hash] += n
					}
				} else {
					objs[x.hash] = true
					wgets[x.hash] += n
				}
				if _, ok := pack.vals[x.hash]; !ok {
					missing = true
				}
			}
			if !run("split", what, func() { split(s); s.wg.Wait() }) {
				continue
			}
			in := desc + "; " + what
			v.Case(in, len(want) > 1)
			if missing != (len(s.errs) > 0) {
				v.Fail("split:error", in, "errors: %v, values missing: %t", s.errs, missing)
			}
			for h, n := range s.gets {
				if n > wgets[h] || n < wgets[h] && !missing {
					v.Fail("split:visits", in, "%s is got %d times, it's there %d times", h.Hex()[:4], n, wgets[h])
				}
			}
			for h, n := range s.pres {
				if n > wpres[h] || n < wpres[h] && !missing {
					v.Fail("split:visits", in, "%s is pre-requested %d times, it's there %d times", h.Hex()[:4], n, wpres[h])
				}
			}
			for h, n := range wgets {
				if s.gets[h] == 0 && !missing {
					v.Fail("split:visits", in, "%s is not got, it's there %d times", h.Hex()[:4], n)
				}
			}
			for h, n := range wpres {
				if s.pres[h] == 0 && !missing {
					v.Fail("split:visits", in, "%s is not pre-requested, it's there %d times", h.Hex()[:4], n)
				}
			}
		}

		// damaged values
		pack.vals = map[cipher.SHA256][]byte{}
		for k, x := range saved {
			x = append([]byte{}, x...)
			switch v.R.Intn(4) {
			case 0:
				x = x[:v.R.Intn(len(x)+1)]
			case 1:
				if len(x) > 0 {
					x[v.R.Intn(len(x))] ^= byte(1 << uint(v.R.Intn(8)))
				}
			case 2:
				if len(x) >= 4 {
					copy(x, []byte{255, 255, 255, byte(v.R.Intn(256))})
				}
			}
			pack.vals[k] = x
		}
		v.Case(desc+"; damaged", size > 1)
		pack.flags = 0
		run("damaged", "walk", func() { walk(func(cipher.SHA256, int) (bool, error) { return true, nil }) })
		s := &vSplitter{pack: pack, rnd: v.R, gets: map[cipher.SHA256]int{}, pres: map[cipher.SHA256]int{}}
		run("damaged", "split", func() { split(s); s.wg.Wait() })
	}
	v.Done()
}
