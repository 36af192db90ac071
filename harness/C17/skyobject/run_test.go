package skyobject

import (
	"strings"
	"testing"
)

func TestVerif(t *testing.T) {
	v := vstart(t, "random histories of saving, receiving, filling and deleting: authentic and forged roots received during random histories",
		"up to 30 operations, two feeds saved here and two received, three heads each")
	for v.More(1) {
		w := vNewWorld(v, "C17")
		v.Try("C17 panic", "(see the pending history)", func() { w.run(3+v.R.Intn(28), w.hostile) })
		v.Case(strings.Join(w.log, "; "), len(w.log) > 4)
	}
	v.Done()
}
