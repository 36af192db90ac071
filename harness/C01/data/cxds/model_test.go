package cxds

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"testing"
	"time"
	"unsafe"

	"github.com/boltdb/bolt"

	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/data"
)

type mobj struct {
	rc  int64
	val []byte
}

type cmodel map[cipher.SHA256]mobj

func (m cmodel) stats() (aa, au, va, vu int) {
	for _, o := range m {
		aa++
		va += len(o.val)
		if o.rc > 0 {
			au++
			vu += len(o.val)
		}
	}
	return
}

type crun struct {
	v     *V
	id    string
	drive bool
	name  string
	ds    data.CXDS
	m     cmodel
	log   []string
	keys  []cipher.SHA256
}

func (c *crun) fail(class, f string, as ...interface{}) {
	c.v.Fail(class, fmt.Sprintf("drive=%v: %v", c.drive, c.log), f, as...)
}

func (c *crun) open() {
	if !c.drive {
		c.ds = NewMemoryCXDS()
		return
	}
	ds, err := NewDriveCXDS(c.name)
	if err != nil {
		c.fail("open", "can't open: %v", err)
		c.ds = nil
		return
	}
	if d, ok := ds.(*driveCXDS); ok {
		d.b.NoSync = true
	}
	c.ds = ds
}

func add(rc int64, inc int) int64 {
	if rc += int64(inc); rc < 0 {
		return 0
	}
	return rc
}

func (c *crun) inc(hi int) int {
	switch c.v.R.Intn(8) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return -1
	case 3:
		return -1000
	case 4:
		return int(c.v.Int(-5, int64(hi)))
	}
	return c.v.R.Intn(7) - 3
}

func (c *crun) step() {
	var (
		v    = c.v
		k    = c.keys[v.R.Intn(len(c.keys))]
		o, h = c.m[k]
		kn   = fmt.Sprintf("%x", k[:2])
	)
	op := v.R.Intn(100)
	switch {
	case op < 25: // Set
		val := v.Bytes(1 + v.R.Intn(20))
		if v.R.Intn(12) == 0 {
			val = nil
		}
		if h && v.R.Intn(2) == 0 {
			val = append([]byte{}, o.val...)
		}
		inc := 1 + v.R.Intn(4)
		if v.R.Intn(10) == 0 {
			inc = int(v.Int(1, 1<<20))
		}
		c.log = append(c.log, fmt.Sprintf("Set(%s,%d bytes,%d)", kn, len(val), inc))
		rc, err := c.ds.Set(k, val, inc)
		if len(val) == 0 {
			if err == nil {
				c.fail("set-empty", "empty value accepted")
			}
			return
		}
		if err != nil {
			c.fail("set-err", "Set: %v", err)
			return
		}
		if !h {
			o = mobj{0, append([]byte{}, val...)}
		}
		o.rc += int64(inc)
		c.m[k] = o
		if int64(rc) != o.rc {
			c.fail("set-rc", "Set returns rc %d, want %d", rc, o.rc)
		}
	case op < 50: // Get
		inc := c.inc(1 << 20)
		c.log = append(c.log, fmt.Sprintf("Get(%s,%d)", kn, inc))
		val, rc, err := c.ds.Get(k, inc)
		if !h {
			if err != data.ErrNotFound || val != nil || rc != 0 {
				c.fail("get-missing", "Get of a missing object returns %x %d %v", val, rc, err)
			}
			return
		}
		o.rc = add(o.rc, inc)
		c.m[k] = o
		if err != nil || !bytes.Equal(val, o.val) || int64(rc) != o.rc {
			c.fail("get", "Get returns %x %d %v, want %x %d", val, rc, err, o.val, o.rc)
		}
	case op < 70: // Inc
		inc := c.inc(1 << 20)
		c.log = append(c.log, fmt.Sprintf("Inc(%s,%d)", kn, inc))
		rc, err := c.ds.Inc(k, inc)
		if !h {
			if err != data.ErrNotFound || rc != 0 {
				c.fail("inc-missing", "Inc of a missing object returns %d %v", rc, err)
			}
			return
		}
		o.rc = add(o.rc, inc)
		c.m[k] = o
		if err != nil || int64(rc) != o.rc {
			c.fail("inc", "Inc returns %d %v, want %d", rc, err, o.rc)
		}
	case op < 80: // Del
		c.log = append(c.log, fmt.Sprintf("Del(%s)", kn))
		if err := c.ds.Del(k); err != nil {
			c.fail("del-err", "Del: %v", err)
		}
		delete(c.m, k)
	case op < 88: // IterateDel
		stop, p := -1, v.R.Intn(3)
		var ret error
		if v.R.Intn(3) == 0 {
			stop = v.R.Intn(len(c.keys))
			ret = data.ErrStopIteration
			if v.R.Intn(2) == 0 {
				ret = errors.New("mine")
			}
		}
		c.log = append(c.log, fmt.Sprintf("IterateDel(stop %d %v, part %d)", stop, ret, p))
		c.iterDel(stop, ret, p)
	case op < 94:
		c.log = append(c.log, "Iterate")
		stop := -1
		var ret error
		if v.R.Intn(3) == 0 {
			stop = v.R.Intn(len(c.keys))
			ret = data.ErrStopIteration
			if v.R.Intn(2) == 0 {
				ret = errors.New("mine")
			}
		}
		c.iter(stop, ret)
	default:
		if c.drive {
			c.log = append(c.log, "reopen")
			if err := c.ds.Close(); err != nil {
				c.fail("close", "Close: %v", err)
			}
			c.open()
		} else if v.R.Intn(2) == 0 {
			c.log = append(c.log, "Set(inc 0)")
			if _, did := vpanics(func() { c.ds.Set(k, []byte("x"), -v.R.Intn(3)) }); !did {
				c.fail("set-nonpositive", "Set with inc <= 0 does not panic")
			}
		}
	}
}

func (c *crun) iterDel(stop int, ret error, p int) {
	var (
		seen = map[cipher.SHA256]bool{}
		n    int
		back = cmodel{}
	)
	for k, o := range c.m {
		back[k] = o
	}
	err := c.ds.IterateDel(func(k cipher.SHA256, rc uint32, val []byte) (del bool, err error) {
		o, ok := c.m[k]
		if seen[k] || !ok && !seen[k] || int64(rc) != o.rc || !bytes.Equal(val, o.val) {
			c.fail("iterdel-visit", "IterateDel visits %x rc %d val %x (seen %v), want %v", k[:2], rc, val, seen[k], o)
			return false, errors.New("failed")
		}
		seen[k] = true
		if n == stop {
			return true, ret
		}
		n++
		switch p {
		case 0:
			del = rc == 0
		case 1:
			del = k[1]%2 == 0
		case 2:
			del = true
		}
		if del {
			delete(c.m, k)
		}
		return
	})
	c.iterEnd("iterdel", err, stop, n, ret)
	if err != nil && c.drive {
		c.m = back // the transaction is discarded
	}
	if stop < 0 || n < stop {
		for k := range c.m {
			if !seen[k] {
				c.fail("iterdel-all", "IterateDel does not visit %x", k[:2])
			}
		}
	}
}

func (c *crun) iterEnd(class string, err error, stop, n int, ret error) {
	want := error(nil)
	if stop >= 0 && n == stop && ret != data.ErrStopIteration {
		want = ret
	}
	if err != want {
		// the callback is called for the stop-th object only if there is one
		if want != nil && err == nil && n == stop && len(c.m) <= stop {
			return
		}
		c.fail(class+"-err", "iteration returns %v, want %v", err, want)
	}
}

func (c *crun) iter(stop int, ret error) {
	var (
		seen    = map[cipher.SHA256]bool{}
		n       int
		stopped bool
		last    cipher.SHA256
	)
	err := c.ds.Iterate(func(k cipher.SHA256, rc uint32, val []byte) (err error) {
		o, ok := c.m[k]
		if stopped || seen[k] || !ok || int64(rc) != o.rc || !bytes.Equal(val, o.val) {
			c.fail("iterate-visit", "Iterate visits %x rc %d val %x (seen %v, stopped %v), want %v", k[:2], rc, val, seen[k], stopped, o)
			return errors.New("failed")
		}
		if c.drive && n > 0 && bytes.Compare(last[:], k[:]) >= 0 {
			c.fail("iterate-order", "not ascending")
		}
		last = k
		seen[k] = true
		if n == stop {
			stopped = true
			return ret
		}
		n++
		return
	})
	c.iterEnd("iterate", err, stop, n, ret)
	if stop < 0 || n < stop {
		if len(seen) != len(c.m) {
			c.fail("iterate-all", "Iterate visits %d of %d", len(seen), len(c.m))
		}
	}
}

// everything must be as in the model
func (c *crun) compare() {
	for _, k := range c.keys {
		o, h := c.m[k]
		val, rc, err := c.ds.Get(k, 0)
		if !h {
			if err != data.ErrNotFound {
				c.fail("state", "%x must not exist: %x %d %v", k[:2], val, rc, err)
			}
			continue
		}
		if err != nil || int64(rc) != o.rc || !bytes.Equal(val, o.val) {
			c.fail("state", "%x is %x %d %v, want %x %d", k[:2], val, rc, err, o.val, o.rc)
		}
	}
}

func (c *crun) stats() {
	aa, au := c.ds.Amount()
	va, vu := c.ds.Volume()
	waa, wau, wva, wvu := c.m.stats()
	if aa != waa || au != wau || va != wva || vu != wvu {
		c.fail("stats", "Amount %d %d Volume %d %d, want %d %d %d %d", aa, au, va, vu, waa, wau, wva, wvu)
	}
}

// grow adds to the volumes as if more was stored,
// false if the store keeps them otherwise
func (c *crun) grow(n int) bool {
	d := reflect.ValueOf(c.ds).Elem()
	for _, name := range []string{"volumeAll", "volumeUsed"} {
		f := d.FieldByName(name)
		if f.Kind() != reflect.Int {
			return false
		}
		*(*int)(unsafe.Pointer(f.UnsafeAddr())) += n
	}
	return true
}

func TestVerifCXDS(t *testing.T) {
	id := os.Getenv("VERIF_ID")
	v := vstart(t, "random operation sequences over a small key set on the memory and the on-drive store, compared with a map after every operation; a sequence counts when it holds at least 5 operations", "<= 60 operations, <= 8 keys, values <= 20 bytes, increments <= 2^20")
	dir, err := os.MkdirTemp("", "cxds")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	v.Pending("random operation sequences")
	for i := 0; v.More(0.9); i++ {
		c := &crun{v: v, id: id, m: cmodel{}, drive: i%4 != 0 || id == "C03", name: filepath.Join(dir, fmt.Sprintf("db%d", i))}
		for j := 1 + v.R.Intn(8); j > 0; j-- {
			var k cipher.SHA256
			copy(k[:], v.Bytes(32))
			switch v.R.Intn(8) {
			case 0:
				k = cipher.SHA256{}
			case 1:
				for i := range k {
					k[i] = 0xff
				}
			}
			if len(c.keys) > 0 && v.R.Intn(4) == 0 {
				// the next to another one
				k = c.keys[v.R.Intn(len(c.keys))]
				if v.R.Intn(2) == 0 {
					k[31] = byte(v.Int(0xfd, 0xff))
					c.keys = append(c.keys, k)
				}
				for i := len(k) - 1; i >= 0; i-- {
					if k[i]++; k[i] != 0 {
						break
					}
				}
			}
			c.keys = append(c.keys, k)
		}
		v.Try("panic", "", func() {
			c.open()
			n := 1 + v.R.Intn(60)
			for j := 0; j < n; j++ {
				v.Pending(fmt.Sprint(c.drive, c.log))
				v.Try("panic", fmt.Sprint(c.drive, c.log), c.step)
				if id == "C02" {
					c.stats()
				} else {
					c.compare()
				}
			}
			v.Case(fmt.Sprint(c.drive, c.log), n >= 5)
			if c.drive && (id == "C03" || id == "C02") {
				c.ds.Close()
				c.open()
				c.compare()
				c.stats()
			}
			if c.drive && id == "C02" && c.grow(5<<30) {
				aa, au := c.ds.Amount()
				va, vu := c.ds.Volume()
				c.ds.Close()
				c.open()
				aa2, au2 := c.ds.Amount()
				va2, vu2 := c.ds.Volume()
				if aa != aa2 || au != au2 || va != va2 || vu != vu2 {
					c.fail("stats", "with 5 GiB more, before and after reopening: Amount %d %d and %d %d, Volume %d %d and %d %d", aa, au, aa2, au2, va, vu, va2, vu2)
				}
			}
			c.ds.Close()
		})
		os.Remove(c.name)
	}
	if id == "C03" {
		c03(v, dir)
	}
	v.Done()
}

// files of other versions are refused and stay as they are
func c03(v *V, dir string) {
	for i := 0; i < 60; i++ {
		name := filepath.Join(dir, fmt.Sprintf("v%d", i))
		c := &crun{v: v, drive: true, name: name, m: cmodel{}}
		c.open()
		c.ds.Set(cipher.SumSHA256([]byte("a")), []byte("a"), 1)
		c.ds.Close()
		vers := uint32(Version) + uint32(v.Int(-2, 3))
		if i < 3 {
			vers = uint32(Version + i - 1)
		}
		if i > 40 {
			vers = v.R.Uint32() & 0x7fffffff
		}
		kind := i % 3
		b, err := bolt.Open(name, 0644, &bolt.Options{Timeout: time.Second})
		if err != nil {
			continue
		}
		b.Update(func(tx *bolt.Tx) error {
			bk := tx.Bucket(metaBucket)
			switch kind {
			case 0:
				vb := make([]byte, 4)
				binary.BigEndian.PutUint32(vb, vers)
				return bk.Put(versionKey, vb)
			case 1:
				if i < 30 {
					return bk.Delete(versionKey)
				}
				return tx.DeleteBucket(metaBucket)
			}
			return nil
		})
		b.Close()
		before, _ := os.ReadFile(name)
		desc := fmt.Sprintf("version file: kind %d version %d", kind, vers)
		v.Case(desc, true)
		ds, err := NewDriveCXDS(name)
		ok := kind == 2 || kind == 0 && int(vers) == Version
		if ok != (err == nil) {
			v.Fail("version", desc, "opening returns %v", err)
		}
		if err == nil {
			if val, rc, err := ds.Get(cipher.SumSHA256([]byte("a")), 0); err != nil || rc != 1 || string(val) != "a" {
				v.Fail("version-lost", desc, "content lost: %q %d %v", val, rc, err)
			}
			ds.Close()
			continue
		}
		switch {
		case kind == 0 && int(vers) < Version && err != ErrOldVersion,
			kind == 0 && int(vers) > Version && err != ErrNewVersion:
			v.Fail("version-error", desc, "wrong error %v", err)
		}
		after, _ := os.ReadFile(name)
		// bolt rewrites its meta pages, not the data
		if len(after) == 0 || len(after) < len(before)/2 {
			v.Fail("version-file", desc, "the refused file has been changed or removed")
		}
		os.Remove(name)
	}
}
