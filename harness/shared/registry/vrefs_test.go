package registry

import (
	"fmt"
	"sort"

	"github.com/skycoin/skycoin/src/cipher"
)

// a hash out of a few, the blank one included
func vHash(v *V, n int) (h cipher.SHA256) {
	if k := v.R.Intn(n); k > 0 {
		h[0], h[31] = byte(k), byte(k>>8)
	}
	return
}

func vShow(hs []cipher.SHA256) (s string) {
	for i, h := range hs {
		if i > 0 {
			s += " "
		}
		s += fmt.Sprintf("%d", int(h[0])|int(h[31])<<8)
	}
	return "[" + s + "]"
}

func vSame(a, b []cipher.SHA256) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func vRemove(l []cipher.SHA256, i int) []cipher.SHA256 {
	return append(append([]cipher.SHA256{}, l[:i]...), l[i+1:]...)
}

// vElems reads the elements one by one
func vElems(r *Refs, p Pack) (out []cipher.SHA256, err error) {
	n, err := r.Len(p)
	if err != nil {
		return nil, err
	}
	for i := 0; i < n; i++ {
		h, err := r.HashByIndex(p, i)
		if err != nil {
			return nil, fmt.Errorf("element %d of %d: %v", i, n, err)
		}
		out = append(out, h)
	}
	return
}

// vAgree says how the array differs from the list
func vAgree(v *V, r *Refs, p Pack, list []cipher.SHA256, hashes int) string {
	n, err := r.Len(p)
	if err != nil || n != len(list) {
		return fmt.Sprintf("Len: %d, %v, the list has %d", n, err, len(list))
	}
	got, err := vElems(r, p)
	if err != nil || !vSame(got, list) {
		return fmt.Sprintf("elements %s, %v, the list is %s", vShow(got), err, vShow(list))
	}
	from := 0
	if n > 0 {
		from = v.R.Intn(n)
	}
	for _, from := range []int{0, from} {
		got = nil
		k := from
		wrong := ""
		f := func(i int, h cipher.SHA256) error {
			if i != k {
				wrong = fmt.Sprintf("index %d in place of %d", i, k)
			}
			k++
			got = append(got, h)
			return nil
		}
		if from == 0 && v.R.Intn(2) == 0 {
			err = r.Ascend(p, f)
		} else {
			err = r.AscendFrom(p, from, f)
		}
		if err != nil || wrong != "" || !vSame(got, list[from:]) {
			return fmt.Sprintf("ascending from %d: %s, %v %s, the list is %s", from, vShow(got), err, wrong, vShow(list[from:]))
		}
	}
	for _, from := range []int{n - 1, from} {
		if n == 0 {
			break
		}
		got = nil
		k := from
		wrong := ""
		f := func(i int, h cipher.SHA256) error {
			if i != k {
				wrong = fmt.Sprintf("index %d in place of %d", i, k)
			}
			k--
			got = append([]cipher.SHA256{h}, got...)
			return nil
		}
		if from == n-1 && v.R.Intn(2) == 0 {
			err = r.Descend(p, f)
		} else {
			err = r.DescendFrom(p, from, f)
		}
		if err != nil || wrong != "" || !vSame(got, list[:from+1]) {
			return fmt.Sprintf("descending from %d: %s reversed, %v %s, the list is %s", from, vShow(got), err, wrong, vShow(list[:from+1]))
		}
	}
	if n > 0 {
		// stopped, or failed, somewhere
		at := v.R.Intn(n)
		for _, e := range []error{ErrStopIteration, errVPack} {
			calls, calls2 := 0, 0
			f := func(i int, h cipher.SHA256) error {
				calls++
				if i == at {
					return e
				}
				return nil
			}
			err1 := r.Ascend(p, f)
			calls, calls2 = 0, calls
			err2 := r.Descend(p, f)
			want := e
			if e == ErrStopIteration {
				want = nil
			}
			if err1 != want || err2 != want || calls2 != at+1 || calls != n-at {
				return fmt.Sprintf("stopped at %d of %d with %q: ascending %d calls, %v, descending %d calls, %v", at, n, e, calls2, err1, calls, err2)
			}
		}
	}
	for try := 0; try < 2; try++ {
		h := vHash(v, hashes+1)
		var want []int
		for i := range list {
			if list[i] == h {
				want = append(want, i)
			}
		}
		is, err := r.IndicesByHash(p, h)
		sort.Ints(is)
		if (len(want) == 0) != (err == ErrNotFound) || (len(want) > 0 && err != nil) || fmt.Sprint(is) != fmt.Sprint(want) {
			return fmt.Sprintf("IndicesByHash(%s): %v, %v, in the list %v", vShow([]cipher.SHA256{h}), is, err, want)
		}
		ok, err := r.HasHash(p, h)
		if err != nil || ok != (len(want) > 0) {
			return fmt.Sprintf("HasHash(%s): %v, %v, in the list %v", vShow([]cipher.SHA256{h}), ok, err, want)
		}
		i, err := r.IndexOfHash(p, h)
		if len(want) == 0 {
			if err != ErrNotFound {
				return fmt.Sprintf("IndexOfHash(%s): %d, %v, not in the list", vShow([]cipher.SHA256{h}), i, err)
			}
		} else if err != nil || i < 0 || i >= n || list[i] != h {
			return fmt.Sprintf("IndexOfHash(%s): %d, %v, in the list %v", vShow([]cipher.SHA256{h}), i, err, want)
		}
	}
	return ""
}
