package registry

import (
	"fmt"
	"testing"

	"github.com/skycoin/skycoin/src/cipher"
)

func TestVerif(t *testing.T) {
	v := vstart(t, "a case is one call with an index, a range or a degree, in range or not, on an array kept in memory or loaded; non-trivial: it must be refused",
		"arrays of up to 30 elements of degrees 2 to 5, every flag; indices from far below to far above")
	defer v.Done()
	flags := []Flags{0, HashTableIndex, EntireRefs, LazyUpdating}
	idx := func(n int) int {
		switch v.R.Intn(6) {
		case 0:
			return n
		case 1:
			return -1
		case 2:
			return n - 1
		case 3:
			return []int{-1 << 63, 1<<63 - 1, 1 << 32, -1 << 32, 1 << 31, n + 1}[v.R.Intn(6)]
		}
		return v.R.Intn(n+3) - 1
	}
	for v.More(1) {
		p := newVPack(nil)
		p.degree = Degree(2 + v.R.Intn(4))
		p.flags = flags[v.R.Intn(len(flags))]
		var r Refs
		var list []cipher.SHA256
		for k := v.R.Intn(30); k > 0; k-- {
			list = append(list, vHash(v, 6))
		}
		if err := r.AppendHashes(p, list...); err != nil {
			v.Fail("append", vShow(list), "%v", err)
			continue
		}
		if v.R.Intn(2) == 0 {
			p.flags = flags[v.R.Intn(len(flags))]
			r = Refs{Hash: r.Hash}
		}
		n := len(list)
		hist := fmt.Sprintf("degree %d flags %d %s", p.degree, p.flags, vShow(list))
		for s := 0; s < 4; s++ {
			i := idx(n)
			out := i < 0 || i >= n
			hash := r.Hash
			var err error
			var want error
			if out {
				want = ErrIndexOutOfRange
			}
			call, changes := "", false
			op := v.R.Intn(9)
			v.Pending(hist + fmt.Sprintf(" op %d index %d", op, i))
			pan, did := vpanics(func() {
				switch op {
				case 0:
					call = fmt.Sprintf("HashByIndex %d", i)
					_, err = r.HashByIndex(p, i)
				case 1:
					call = fmt.Sprintf("ValueByIndex %d", i)
					var x uint32
					_, err = r.ValueByIndex(p, i, &x)
					if !out {
						if err == ErrIndexOutOfRange {
							return
						}
						err = nil
					}
				case 2:
					call = fmt.Sprintf("SetHashByIndex %d", i)
					h := vHash(v, 6)
					err = r.SetHashByIndex(p, i, h)
					if !out {
						list = append([]cipher.SHA256{}, list...)
						list[i] = h
						changes = true
					}
				case 3:
					call = fmt.Sprintf("SetValueByIndex %d", i)
					err = r.SetValueByIndex(p, i, nil)
					if !out {
						list = append([]cipher.SHA256{}, list...)
						list[i] = cipher.SHA256{}
						changes = true
					}
				case 4:
					call = fmt.Sprintf("DeleteByIndex %d", i)
					err = r.DeleteByIndex(p, i)
					if !out {
						list = vRemove(list, i)
						n--
						changes = true
					}
				case 5:
					call = fmt.Sprintf("AscendFrom %d", i)
					calls := 0
					err = r.AscendFrom(p, i, func(int, cipher.SHA256) error { calls++; return nil })
					if n == 0 && i == 0 {
						want = nil
					}
					if out && calls > 0 {
						err = fmt.Errorf("called %d times", calls)
					}
				case 6:
					call = fmt.Sprintf("DescendFrom %d", i)
					calls := 0
					err = r.DescendFrom(p, i, func(int, cipher.SHA256) error { calls++; return nil })
					if out && calls > 0 {
						err = fmt.Errorf("called %d times", calls)
					}
				case 7:
					j := idx(n)
					call = fmt.Sprintf("Slice %d:%d", i, j)
					sl, e := r.Slice(p, i, j)
					err, want = e, nil
					if i < 0 || j < 0 || i > n || j > n {
						want = ErrIndexOutOfRange
					} else if i > j {
						want = ErrInvalidSliceIndex
					}
					out = want != nil
					if err != nil && sl != nil {
						err = fmt.Errorf("a slice and the error %v", err)
					}
				case 8:
					d := Degree(idx(6))
					if v.R.Intn(3) == 0 {
						d = MaxDegree + Degree(v.R.Intn(3)) - 1
					}
					call = fmt.Sprintf("SetDegree %d", d)
					before, _ := r.Degree(p)
					err, want = r.SetDegree(p, d), nil
					out = d < 2 || d > MaxDegree
					if out {
						want = ErrInvalidDegree
					} else {
						before, changes = d, true
					}
					if after, _ := r.Degree(p); after != before {
						v.Fail("degree", hist+"; "+call, "the degree is %d, must be %d", after, before)
					}
					if e := d.Validate(); e != want {
						v.Fail("degree", hist+"; "+call, "Validate: %v", e)
					}
				}
			})
			hist += "; " + call
			if did {
				v.Fail("panic", hist, "panic: %v", pan)
				break
			}
			v.Case(hist, out)
			if err != want {
				v.Fail("error", hist, "error %v, must be %v", err, want)
				break
			}
			if !changes && r.Hash != hash {
				v.Fail("changed", hist, "the hash changed")
				break
			}
			if got, err := vElems(&r, p); err != nil || !vSame(got, list) {
				v.Fail("changed", hist, "then the elements are %s, %v, must be %s", vShow(got), err, vShow(list))
				break
			}
		}
	}
}
