package skyobject

import (
	"strings"
	"testing"
)

func TestVerif(t *testing.T) {
	v := vstart(t, "random histories of saving, filling, failing and deleting roots against counts over the encodings of what is stored",
		"up to 30 operations, two feeds saved here and two received, three heads each, three levels of nodes, degrees 2 to 4, all kinds of caches")
	for v.More(1) {
		w := vNewWorld(v, "C30")
		v.Try("C30 panic", "(see the pending history)", func() { w.run(3+v.R.Intn(28), nil) })
		v.Case(strings.Join(w.log, "; "), len(w.log) > 4)
	}
	v.Done()
}
