package registry

import (
	"fmt"
	"testing"

	"github.com/skycoin/skycoin/src/cipher"
	"github.com/skycoin/skycoin/src/cipher/encoder"
)

var vFlags = []Flags{0, HashTableIndex, EntireRefs, HashTableIndex | EntireRefs, LazyUpdating, LazyUpdating | HashTableIndex}

func TestVerif(t *testing.T) {
	v := vstart(t, "a case is one history of operations on one array of references, compared with a plain list after every step, loaded again from its hash now and then; non-trivial: it held more elements than its degree",
		"up to 25 operations, degrees 2 to 5, up to about 80 elements, out of at most 40 hashes, every combination of flags")
	defer v.Done()
	blank := cipher.SHA256{}
	for v.More(0.15) {
		vBroken(v)
	}
	for v.More(1) {
		p := newVPack(nil)
		p.degree = Degree(2 + v.R.Intn(4))
		p.flags = vFlags[v.R.Intn(len(vFlags))]
		degree := p.degree
		hashes := []int{2, 5, 40}[v.R.Intn(3)]
		var r Refs
		var list []cipher.SHA256
		appended := true // nothing but appending so far
		big := false
		hist := fmt.Sprintf("degree %d flags %d", degree, p.flags)
		steps := 1 + v.R.Intn(25)
		for s := 0; s < steps; s++ {
			var err error
			n := len(list)
			op := v.R.Intn(17)
			bad := ""
			do := func(f func()) {
				if pan, ok := vpanics(f); ok {
					bad = fmt.Sprintf("panic: %v", pan)
				}
			}
			switch op {
			case 0, 1, 2, 3: // append hashes
				var hs []cipher.SHA256
				for k := v.R.Intn(8); k > 0 && n+len(hs) < 80; k-- {
					hs = append(hs, vHash(v, hashes))
				}
				hist += fmt.Sprintf("; AppendHashes %s", vShow(hs))
				do(func() { err = r.AppendHashes(p, hs...) })
				list = append(list, hs...)
			case 4: // append values
				var vals []interface{}
				var hs []cipher.SHA256
				for k := v.R.Intn(4); k > 0; k-- {
					if v.R.Intn(4) == 0 {
						vals, hs = append(vals, nil), append(hs, blank)
						continue
					}
					x := uint32(v.R.Intn(5))
					vals, hs = append(vals, &x), append(hs, cipher.SumSHA256(encoder.Serialize(&x)))
				}
				hist += fmt.Sprintf("; AppendValues %d", len(vals))
				do(func() { err = r.AppendValues(p, vals...) })
				list = append(list, hs...)
			case 5: // append another array
				var o Refs
				var hs []cipher.SHA256
				for k := v.R.Intn(12); k > 0; k-- {
					hs = append(hs, vHash(v, hashes))
				}
				d, fl := p.degree, p.flags
				p.degree, p.flags = Degree(2+v.R.Intn(4)), vFlags[v.R.Intn(4)]
				hist += fmt.Sprintf("; Append %s of degree %d flags %d", vShow(hs), p.degree, p.flags)
				do(func() { err = o.AppendHashes(p, hs...) })
				if v.R.Intn(2) == 0 {
					o.Reset()
				}
				p.degree, p.flags = d, fl
				do(func() { err = r.Append(p, &o) })
				list = append(list, hs...)
			case 6, 7: // set
				if n == 0 {
					break
				}
				i, h := v.R.Intn(n), vHash(v, hashes)
				list = append([]cipher.SHA256{}, list...)
				if v.R.Intn(3) == 0 {
					x := uint32(v.R.Intn(5))
					h = cipher.SumSHA256(encoder.Serialize(&x))
					hist += fmt.Sprintf("; SetValueByIndex %d %d", i, x)
					do(func() { err = r.SetValueByIndex(p, i, &x) })
				} else {
					hist += fmt.Sprintf("; SetHashByIndex %d %s", i, vShow([]cipher.SHA256{h}))
					do(func() { err = r.SetHashByIndex(p, i, h) })
				}
				appended = appended && list[i] == h
				list[i] = h
			case 8, 9, 10: // delete
				if n == 0 {
					break
				}
				i := v.R.Intn(n)
				hist += fmt.Sprintf("; DeleteByIndex %d", i)
				do(func() { err = r.DeleteByIndex(p, i) })
				list = vRemove(list, i)
				appended = false
			case 11:
				h := vHash(v, hashes)
				hist += fmt.Sprintf("; DeleteByHash %s", vShow([]cipher.SHA256{h}))
				do(func() { err = r.DeleteByHash(p, h) })
				var rest []cipher.SHA256
				for _, x := range list {
					if x != h {
						rest = append(rest, x)
					}
				}
				if len(rest) == n {
					if err != ErrNotFound && bad == "" {
						bad = fmt.Sprintf("no such element, error %v", err)
					}
					err = nil
				} else {
					list, appended = rest, false
				}
			case 12: // slice
				i := v.R.Intn(n + 1)
				j := i + v.R.Intn(n-i+1)
				hist += fmt.Sprintf("; Slice %d:%d", i, j)
				var sl *Refs
				do(func() { sl, err = r.Slice(p, i, j) })
				if err != nil || bad != "" {
					break
				}
				if bad = vAgree(v, sl, p, list[i:j], hashes); bad != "" {
					bad = "the slice: " + bad
					break
				}
				var o Refs
				o.Hash = sl.Hash
				if got, e := vElems(&o, p); e != nil || !vSame(got, list[i:j]) {
					bad = fmt.Sprintf("the slice loaded again: %s, %v, the list is %s", vShow(got), e, vShow(list[i:j]))
				}
				if v.R.Intn(3) == 0 {
					r, list = *sl, append([]cipher.SHA256{}, list[i:j]...)
					hist += " taken"
				}
			case 13:
				if v.R.Intn(3) == 0 {
					hist += "; Clear"
					do(r.Clear)
					list, appended, degree = nil, true, p.degree
				}
			case 14:
				hist += "; Rebuild"
				do(func() { err = r.Rebuild(p) })
			case 15: // degree
				degree = Degree(2 + v.R.Intn(4))
				hist += fmt.Sprintf("; SetDegree %d", degree)
				do(func() { err = r.SetDegree(p, degree) })
			case 16: // set within an iteration
				hist += "; SetHashByIndex within an iteration"
				list = append([]cipher.SHA256{}, list...)
				appended = false
				k := 0
				do(func() {
					err = r.Ascend(p, func(i int, h cipher.SHA256) error {
						if i != k || h != list[i] {
							bad = fmt.Sprintf("element %d in place of %d", i, k)
						}
						k++
						if i%2 == 0 {
							list[i] = vHash(v, hashes)
							return r.SetHashByIndex(p, i, list[i])
						}
						return nil
					})
				})
			}
			if err == nil && bad == "" {
				do(func() { bad = vAgree(v, &r, p, list, hashes) })
			}
			if err != nil && bad == "" {
				bad = fmt.Sprintf("error: %v", err)
			}
			if bad == "" {
				if d, e := r.Degree(p); e != nil || d != degree {
					bad = fmt.Sprintf("degree %d, %v in place of %d", d, e, degree)
				}
			}
			if bad == "" && r.Flags()&LazyUpdating != 0 && v.R.Intn(3) == 0 {
				do(func() { err = r.Rebuild(p) })
				hist += "; Rebuild"
				if err != nil {
					bad = fmt.Sprintf("Rebuild: %v", err)
				} else if bad == "" {
					do(func() { bad = vAgree(v, &r, p, list, hashes) })
				}
				if bad == "" {
					bad = vReload(v, &r, p, list, hashes)
				}
			} else if bad == "" && r.Flags()&LazyUpdating == 0 {
				bad = vReload(v, &r, p, list, hashes)
			}
			if bad == "" && appended && r.Flags()&LazyUpdating == 0 && len(list) > 0 {
				// the same, appended at once
				q := newVPack(nil)
				q.degree = degree
				var o Refs
				if e := o.AppendHashes(q, list...); e != nil || o.Hash != r.Hash {
					bad = fmt.Sprintf("the encoding is not that of the same sequence appended at once: %s", vShow(list))
				}
			}
			if bad == "" && v.R.Intn(12) == 0 && (r.Flags()&LazyUpdating == 0) {
				// go on with the loaded one
				p.flags = vFlags[v.R.Intn(len(vFlags))]
				hist += fmt.Sprintf("; load with flags %d", p.flags)
				if v.R.Intn(2) == 0 {
					r.Reset()
				} else {
					r = Refs{Hash: r.Hash}
				}
				if len(list) == 0 {
					degree = p.degree
				}
				do(func() { bad = vAgree(v, &r, p, list, hashes) })
			}
			big = big || len(list) > int(degree)
			if bad != "" {
				v.Fail([]string{"append", "append", "append", "append", "appendvalues", "appendrefs", "set", "set", "delete", "delete", "delete", "deletehash", "slice", "clear", "rebuild", "setdegree", "setwithin"}[op], hist, "%s", bad)
				break
			}
		}
		v.Case(hist, big)
	}
}

// vReload loads the array from its hash
func vReload(v *V, r *Refs, p *vPack, list []cipher.SHA256, hashes int) (bad string) {
	fl := p.flags
	p.flags = vFlags[v.R.Intn(4)]
	defer func() { p.flags = fl }()
	o := Refs{Hash: r.Hash}
	if (len(list) == 0) != (o.Hash == cipher.SHA256{}) {
		return fmt.Sprintf("%d elements, the hash is %s", len(list), o.Hash.Hex())
	}
	if pan, ok := vpanics(func() { bad = vAgree(v, &o, p, list, hashes) }); ok {
		bad = fmt.Sprintf("panic: %v", pan)
	}
	if bad != "" {
		bad = fmt.Sprintf("loaded again with flags %d: %s", p.flags, bad)
		return
	}
	if len(list) > 0 {
		if d, err := o.Degree(p); err != nil || d != r.degree {
			bad = fmt.Sprintf("loaded again: degree %d, %v in place of %d", d, err, r.degree)
		}
	}
	return
}

// vBroken reads an array whose encoding is damaged or cannot be had
func vBroken(v *V) {
	p := newVPack(nil)
	p.degree = Degree(2 + v.R.Intn(3))
	var r Refs
	var list []cipher.SHA256
	for k := 1 + v.R.Intn(12); k > 0; k-- {
		list = append(list, vHash(v, 5))
	}
	if err := r.AppendHashes(p, list...); err != nil {
		v.Fail("append", vShow(list), "error: %v", err)
	}
	p.flags = vFlags[v.R.Intn(4)]
	hist := fmt.Sprintf("degree %d flags %d %s", p.degree, p.flags, vShow(list))
	// reading fails once
	o := Refs{Hash: r.Hash}
	p.failAt = p.gets + 1 + v.R.Intn(6)
	n, err := o.Len(p)
	if err == nil && n != len(list) {
		v.Fail("failed-load", hist, "Len: %d of %d", n, len(list))
	}
	var is []int
	if err == nil {
		is, err = o.IndicesByHash(p, list[0])
		if err == nil && (len(is) == 0 || is[0] != 0) {
			v.Fail("failed-load", hist, "IndicesByHash of the first: %v", is)
		}
	}
	p.failAt = 0
	if err == errVPack {
		if got, err := vElems(&o, p); err == nil && !vSame(got, list) || err != nil {
			v.Fail("failed-load", hist, "after an error of the pack: %s, %v", vShow(got), err)
		}
		o = Refs{Hash: r.Hash}
	} else if err != nil {
		v.Fail("failed-load", hist, "error %v", err)
	}
	// damaged
	var er encodedRefs
	if _, err := encoder.DeserializeRaw(p.vals[r.Hash], &er); err != nil {
		v.Fail("encoding", hist, "%v", err)
		return
	}
	hurt := func(n uint32) uint32 {
		switch v.R.Intn(5) {
		case 0:
			return 0
		case 1:
			return n + 1
		case 2:
			return n - 1
		case 3:
			return uint32(v.R.Intn(20))
		}
		return n
	}
	hurtElems := func(l []cipher.SHA256) []cipher.SHA256 {
		if len(l) == 0 {
			return l
		}
		i := v.R.Intn(len(l))
		switch v.R.Intn(5) {
		case 0:
			return nil
		case 1:
			return vRemove(l, i)
		case 2:
			return append(l, l[i])
		case 3:
			l[i] = cipher.SHA256{}
		}
		return l
	}
	if er.Depth > 0 && v.R.Intn(2) == 0 {
		i := v.R.Intn(len(er.Elements))
		var en encodedRefsNode
		if _, err := encoder.DeserializeRaw(p.vals[er.Elements[i]], &en); err != nil {
			v.Fail("encoding", hist, "%v", err)
			return
		}
		en.Length, en.Elements = hurt(en.Length), hurtElems(en.Elements)
		er.Elements[i], _ = p.Add(encoder.Serialize(en))
		hist += fmt.Sprintf("; branch %d becomes %d %d elements", i, en.Length, len(en.Elements))
	} else {
		switch v.R.Intn(4) {
		case 0:
			er.Depth = hurt(er.Depth)
		case 1:
			er.Length = hurt(er.Length)
		case 2:
			er.Degree = hurt(er.Degree)
		case 3:
			er.Elements = hurtElems(er.Elements)
		}
		hist += fmt.Sprintf("; becomes depth %d degree %d length %d %d elements", er.Depth, er.Degree, er.Length, len(er.Elements))
	}
	o.Hash, _ = p.Add(encoder.Serialize(er))
	v.Case(hist, true)
	v.Pending(hist)
	v.Try("damaged", hist, func() {
		n, err := o.Len(p)
		if err != nil {
			return
		}
		for i := 0; i < n && i < 30; i++ {
			o.HashByIndex(p, i)
		}
		o.Ascend(p, func(int, cipher.SHA256) error { return nil })
		o.Descend(p, func(int, cipher.SHA256) error { return nil })
		o.IndicesByHash(p, list[0])
		o.IndexOfHash(p, list[0])
		if n > 0 {
			o.SetHashByIndex(p, v.R.Intn(n), cipher.SHA256{9})
			o.DeleteByIndex(p, v.R.Intn(n))
			o.Slice(p, 0, n-1)
		}
		o.DeleteByHash(p, list[0])
	})
}
