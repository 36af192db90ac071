//verif:race
package statutil

import (
	"fmt"
	"math"
	"sync"
	"testing"
	"time"
)

func TestVerif(t *testing.T) {
	v := vstart(t, "a case is a window size and a sequence of samples; the average returned after each is compared with the mean of the window, computed anew",
		"windows of 1 to 40 samples, sequences up to 5 windows long, samples up to an hour")
	defer v.Done()
	if _, p := vpanics(func() { NewDuration(0) }); !p {
		v.Fail("zero", "NewDuration(0)", "no panic")
	}
	if _, p := vpanics(func() { NewFloat(-1) }); !p {
		v.Fail("zero", "NewFloat(-1)", "no panic")
	}
	for v.More(1) {
		n := 1 + v.R.Intn(40)
		if v.R.Intn(3) == 0 {
			n = 1 + v.R.Intn(4)
		}
		m := v.R.Intn(5*n + 2)
		scale := []float64{10, 1e6, 3600e9}[v.R.Intn(3)]
		d, f := NewDuration(n), NewFloat(n)
		if d.Value() != 0 || f.Value() != 0 {
			v.Fail("initial", fmt.Sprint("n=", n), "initial value %v %v", d.Value(), f.Value())
		}
		var xs []float64
		v.Case(fmt.Sprintf("window %d, %d samples, scale %g, seed point %d", n, m, scale, v.R.Int63()), m > 0)
		for i := 0; i < m; i++ {
			s := math.Floor(v.R.Float64() * scale)
			if v.R.Intn(5) == 0 {
				s = 0
			}
			xs = append(xs, s)
			w := xs
			if len(w) > n {
				w = w[len(w)-n:]
			}
			sum := 0.0
			for _, y := range w {
				sum += y
			}
			mean := sum / float64(len(w))
			tol := 1e-9*scale*float64(i+2) + 1e-9
			in := fmt.Sprintf("n=%d samples=%v", n, xs)
			gd := d.Add(time.Duration(s))
			gf := f.Add(s)
			if math.Abs(float64(gd)-mean) > tol+1 {
				v.Fail("duration", in, "average %d, want %f", int64(gd), mean)
			}
			if math.Abs(gf-mean) > tol {
				v.Fail("float", in, "average %f, want %f", gf, mean)
			}
			if d.Value() != gd || f.Value() != gf {
				v.Fail("value", in, "Value %v %v after Add returned %v %v", d.Value(), f.Value(), gd, gf)
			}
		}
	}
	// samples added by several goroutines: none is lost (and the race detector
	// is on)
	for round := 0; round < 40; round++ {
		v.Pending("64 samples 0, 1000 ... 63000 added by 8 goroutines at once, and read, window 64")
		d, f := NewDuration(64), NewFloat(64)
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 8; i++ {
					d.Add(time.Duration(1000 * (g*8 + i)))
					f.Add(float64(1000 * (g*8 + i)))
					d.Value()
					f.Value()
				}
			}(g)
		}
		wg.Wait()
		if x, y := d.Value(), f.Value(); x < 31499 || x > 31501 || y < 31499 || y > 31501 {
			v.Fail("concurrent", "64 samples 0, 1000 ... 63000 by 8 goroutines, window 64", "average %d %f, want 31500", int64(x), y)
		}
	}
	v.Pending("")
	st := NewDuration(1)
	tp := time.Now().Add(-time.Hour)
	if a := st.AddStartTime(tp); a < time.Hour || a > time.Hour+time.Minute || st.Value() != a {
		v.Fail("start", "AddStartTime(an hour ago)", "got %v", a)
	}
}
