package skyobject

import (
	"fmt"
	"os"
	"testing"

	"github.com/skycoin/cxo/skyobject/registry"
)

func TestVerif(t *testing.T) {
	v := vstart(t, "a case is one configuration, its verdict is compared with the documented ranges", "each field at, below or above the edges of its range, several at once")
	defer v.Done()
	os.Setenv("HOME", os.TempDir())
	d := NewConfig()
	if err := d.Validate(); err != nil {
		v.Fail("default", "NewConfig()", "refused: %v", err)
	}
	if d.Degree != Degree || d.RollAvgSamples != RollAvgSamples || d.CacheMaxAmount != CacheMaxAmount || d.CacheMaxVolume != CacheMaxVolume || d.CachePolicy != LRU || d.CacheRegistries != CacheRegistries ||
		d.CacheCleaning != CacheCleaning || d.CacheMaxItemSize != CacheMaxItemSize || d.MaxObjectSize != MaxObjectSize || d.MaxFillingParallel != MaxFillingParallel || d.DataDir != DataDir() {
		v.Fail("defaults", "NewConfig()", "%+v", *d)
	}
	pick := func(xs ...int64) int64 { return xs[v.R.Intn(len(xs))] }
	for v.More(1) {
		c := *NewConfig()
		for k := v.R.Intn(4); k >= 0; k-- {
			switch v.R.Intn(9) {
			case 0:
				c.Degree = registry.Degree(pick(-1, 0, 1, 2, 3, 1023, 1024, 1025, 1<<31))
			case 1:
				c.RollAvgSamples = int(pick(-1, 0, 1, 2, 100))
			case 2:
				c.CacheMaxAmount = int(pick(-1, 0, 1, 1<<40))
			case 3:
				c.CacheMaxVolume = int(pick(-1, 0, 1, 10, 1<<40))
			case 4:
				c.CachePolicy = CachePolicy(pick(-1, 0, 1, 2))
			case 5:
				c.CacheCleaning = []float64{-1, 0, 0.49, 0.5, 0.51, 0.75, 0.9, 0.91, 1, 2}[v.R.Intn(10)]
			case 6:
				c.CacheMaxItemSize = int(pick(-1, 0, 1, 2, 3, 4, 5, 6, 1<<20, 2097152, 2097153, 4194304, 4194305, 1<<40))
			case 7:
				c.MaxObjectSize = int(pick(-1, 0, 1023, 1024, 1025, 1<<40))
			case 8:
				c.CacheRegistries = int(pick(0, 1, 10))
			}
		}
		in := fmt.Sprintf("%+v", c)
		v.Case(in, true)
		ok := c.Degree >= 2 && c.Degree <= 1024 && c.RollAvgSamples >= 1 && c.CacheMaxAmount >= 0 && c.CacheMaxVolume >= 0 && (c.CachePolicy == LRU || c.CachePolicy == LFU) &&
			c.CacheCleaning >= 0.5 && c.CacheCleaning <= 0.9 && c.CacheMaxItemSize <= int(float64(c.CacheMaxVolume)*(1-c.CacheCleaning)) && c.MaxObjectSize >= 1024
		was := c
		err := c.Validate()
		if (err == nil) != ok {
			v.Fail("verdict", in, "error %v, valid %v", err, ok)
		}
		if c != was {
			v.Fail("changed", in, "Validate changed the configuration to %+v", c)
		}
	}
}
