package skyobject

import (
	"strings"
	"testing"
)

func TestVerif(t *testing.T) {
	v := vstart(t, "random histories of saving, receiving, filling and deleting: the index, after each operation and restart, against the roots that are stored",
		"up to 30 operations, two feeds saved here and two received, three heads each")
	for v.More(1) {
		w := vNewWorld(v, "C16")
		v.Try("C16 panic", "(see the pending history)", func() { w.run(3+v.R.Intn(28), nil) })
		v.Case(strings.Join(w.log, "; "), len(w.log) > 4)
	}
	v.Done()
}
