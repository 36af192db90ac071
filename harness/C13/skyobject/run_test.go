package skyobject

import (
	"strings"
	"testing"
)

func TestVerif(t *testing.T) {
	v := vstart(t, "random histories of calls of the cache over a store that fails sometimes, and of filling and deleting roots, against a model",
		"up to 60 calls, ten objects, four channels; all kinds of limits and policies")
	for v.More(0.7) {
		w := vNewCacheWorld(v, "C13")
		v.Try("C13 panic", "(see the log)", func() {
			defer func() {
				if r := recover(); r != nil {
					v.Fail("C13 panic", strings.Join(w.log, "; "), "panic: %v", r)
				}
			}()
			if v.R.Intn(10) == 0 {
				w.registries()
			} else {
				w.run(3 + v.R.Intn(58))
			}
		})
		v.Case(strings.Join(w.log, "; "), len(w.log) > 4)
	}
	for v.More(1) {
		w := vNewWorld(v, "C13")
		v.Try("C13 panic", "(see the pending history)", func() { w.run(3+v.R.Intn(28), nil) })
		v.Case(strings.Join(w.log, "; "), len(w.log) > 4)
	}
	v.Done()
}
