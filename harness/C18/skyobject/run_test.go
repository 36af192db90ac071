package skyobject

import (
	"strings"
	"testing"
)

func TestVerif(t *testing.T) {
	v := vstart(t, "random histories of saving, receiving, filling and deleting: the chain of each head after each saving",
		"up to 30 operations, two feeds saved here and two received, three heads each")
	for v.More(1) {
		w := vNewWorld(v, "C18")
		v.Try("C18 panic", "(see the pending history)", func() { w.run(3+v.R.Intn(28), nil) })
		v.Case(strings.Join(w.log, "; "), len(w.log) > 4)
	}
	v.Done()
}
