package statutil

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"testing"
)

var form = regexp.MustCompile(`^(\d+(?:\.\d*[1-9])?)([kMG]?)(B?)$`)

func unitsCheck(v *V, name, s string, n uint32, base float64, suffix string) {
	in := fmt.Sprintf("%s(%d)", name, n)
	v.Case(in, n > 0)
	m := form.FindStringSubmatch(s)
	if m == nil || m[3] != suffix {
		v.Fail("format", in, "%q is not a number without trailing zeros, a prefix and %q", s, suffix)
		return
	}
	x, _ := strconv.ParseFloat(m[1], 64)
	k := map[string]int{"": 0, "k": 1, "M": 2, "G": 3}[m[2]]
	unit := math.Pow(base, float64(k))
	exact := float64(n) / unit
	if math.Abs(x-exact) > 0.005000001 {
		v.Fail("value", in, "%q is %f units off", s, x-exact)
	}
	if exact >= base || k > 0 && exact < 1 {
		v.Fail("unit", in, "%q: wrong unit", s)
	}
	if want := strconv.FormatFloat(math.Trunc(0), 'f', 2, 64); n == 0 && (x != 0 || want != "0.00") {
		v.Fail("zero", in, "%q", s)
	}
}

func TestVerif(t *testing.T) {
	v := vstart(t, "a case is one number printed as a volume or as an amount; the text is parsed back", "numbers below 2^32: all below 20000, all near powers of the units, random ones")
	defer v.Done()
	do := func(n uint32) {
		in := fmt.Sprint(n)
		v.Try("panic", in, func() {
			unitsCheck(v, "Volume", Volume(n).String(), n, 1024, "B")
			unitsCheck(v, "Amount", Amount(n).String(), n, 1000, "")
		})
	}
	for n := uint32(0); n < 20000; n++ {
		do(n)
	}
	for _, b := range []float64{1000, 1024, 1e6, 1 << 20, 1e9, 1 << 30, math.MaxUint32} {
		for _, k := range []float64{1, 10, 100, 999, 1023, 1000} {
			for d := -40; d <= 40; d++ {
				if x := b*k + float64(d); x >= 0 && x <= math.MaxUint32 {
					do(uint32(x))
				}
			}
		}
	}
	for _, h := range v.Hints {
		do(uint32(h))
	}
	for v.More(1) {
		n := v.R.Uint32()
		do(n >> uint(v.R.Intn(32)))
	}
}
