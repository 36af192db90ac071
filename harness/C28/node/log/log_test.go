package log

import (
	"bytes"
	"errors"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"testing"
)

type recw struct{ recs []string }

func (r *recw) Write(p []byte) (int, error) {
	r.recs = append(r.recs, string(p))
	return len(p), nil
}

// records of one debug or error call, with the message expected
func TestVerif(t *testing.T) {
	v := vstart(t, "a case is one call of a logging method with random pins, mode and arguments; it is non-trivial if it has arguments",
		"random pins (64 bits), random texts with % verbs, up to 4 arguments")
	defer v.Done()
	texts := []string{"", "a", "100%", "%s", "%d items", "x y", "%!", "\n", "[ERR]", "err=%s", "é%v"}
	pick := func() string { return texts[v.R.Intn(len(texts))] }
	defaults(v)
	for v.More(1) {
		var w recw
		c := NewConfig()
		c.Debug = v.R.Intn(4) != 0
		switch v.R.Intn(4) {
		case 0:
			c.Pins = Pin(1) << uint(v.R.Intn(64))
		case 1:
			c.Pins = Pin(v.R.Uint64())
		case 2:
			c.Pins = No
		}
		c.Prefix = []string{"", "[node] ", "%s"}[v.R.Intn(3)]
		c.Output = &w
		l := NewLogger(c)
		want := c.Pins
		if !c.Debug {
			want = 0
		}
		in := fmt.Sprintf("config %+v", c)
		if l.Pins() != want {
			v.Fail("pins", in, "Pins() is %x, want %x", l.Pins(), want)
		}
		for k := 0; k < 6; k++ {
			pin := Pin(1) << uint(v.R.Intn(64))
			switch v.R.Intn(5) {
			case 0:
				pin = Pin(v.R.Uint64())
			case 1:
				pin = 0
			case 2:
				pin = c.Pins
			}
			var args []interface{}
			for n := v.R.Intn(5); n > 0; n-- {
				switch v.R.Intn(3) {
				case 0:
					args = append(args, pick())
				case 1:
					args = append(args, v.R.Intn(100))
				default:
					args = append(args, errors.New(pick()))
				}
			}
			full := append(make([]interface{}, 0, 16), args...)
			args = full[:len(args):16]
			keep := append([]interface{}{}, full[:16]...)
			format := pick()
			err := errors.New(pick())
			method := v.R.Intn(6)
			desc := fmt.Sprintf("%s pin %x method %d format %q err %q args %v", in, pin, method, format, err, args)
			v.Case(desc, len(args) > 0)
			w.recs = nil
			shown := true
			var text string
			line := 0
			switch method {
			case 0:
				shown = pin&want != 0
				text = fmt.Sprint(append([]interface{}{"[DBG] "}, args...)...)
				l.Debug(pin, args...)
				_, _, line, _ = runtime.Caller(0)
			case 1:
				shown = pin&want != 0
				text = fmt.Sprintln(append([]interface{}{"[DBG]"}, args...)...)
				l.Debugln(pin, args...)
				_, _, line, _ = runtime.Caller(0)
			case 2:
				shown = pin&want != 0
				text = fmt.Sprintf("[DBG] "+format, args...)
				l.Debugf(pin, format, args...)
				_, _, line, _ = runtime.Caller(0)
			case 3:
				text = fmt.Sprint(append([]interface{}{"[ERR] ", fmt.Sprintf("err=%s ", err)}, args...)...)
				l.Error(err, args...)
				_, _, line, _ = runtime.Caller(0)
			case 4:
				text = fmt.Sprintln(append([]interface{}{"[ERR]", fmt.Sprintf("err=%s", err)}, args...)...)
				l.Errorln(err, args...)
				_, _, line, _ = runtime.Caller(0)
			case 5:
				text = fmt.Sprintf("[ERR] err=%s ", err) + fmt.Sprintf(format, args...)
				l.Errorf(err, format, args...)
				_, _, line, _ = runtime.Caller(0)
			}
			if !reflect.DeepEqual(keep, full[:16]) {
				v.Fail("args", desc, "the call changed the arguments: %v, were %v", full[:16], keep)
			}
			if !shown {
				if len(w.recs) != 0 {
					v.Fail("shown", desc, "printed %q, but no pin matches", w.recs)
				}
				continue
			}
			if len(w.recs) != 1 {
				v.Fail("records", desc, "%d records printed: %q", len(w.recs), w.recs)
				continue
			}
			if !strings.HasSuffix(text, "\n") {
				text += "\n"
			}
			rec := w.recs[0]
			_, file, _, _ := runtime.Caller(0)
			at := fmt.Sprintf("%s:%d: ", filepath.Base(file), line-1)
			if !strings.HasPrefix(rec, c.Prefix) || !strings.HasSuffix(rec, " "+at+text) {
				v.Fail("text", desc, "printed %q, want prefix %q and %q", rec, c.Prefix, at+text)
			}
		}
	}
}

func defaults(v *V) {
	c := NewConfig()
	if c.Debug || c.Pins != ^Pin(0) || c.Prefix != "" || c.Output != nil {
		v.Fail("defaults", "NewConfig", "got %+v", c)
	}
	for i := 0; i < 200; i++ {
		old := flag.CommandLine
		flag.CommandLine = flag.NewFlagSet("x", flag.ContinueOnError)
		flag.CommandLine.SetOutput(&bytes.Buffer{})
		c := NewConfig()
		c.Pins = Pin(v.R.Uint64())
		c.Debug = v.R.Intn(2) == 0
		want := c
		var as []string
		if v.R.Intn(2) == 0 {
			want.Debug = !c.Debug
			as = append(as, fmt.Sprintf("-debug=%v", want.Debug))
		}
		if v.R.Intn(2) == 0 {
			want.Prefix = "p"
			as = append(as, "-log-prefix", "p")
		}
		if v.R.Intn(2) == 0 {
			want.Pins = Pin(v.R.Uint64())
			as = append(as, "-debug-pins", fmt.Sprint(uint(want.Pins)))
		}
		in := fmt.Sprintf("flags %q over %+v", as, c)
		v.Case(in, len(as) > 0)
		c.FromFlags()
		err := flag.CommandLine.Parse(as)
		flag.CommandLine = old
		if err != nil || c != want {
			v.Fail("flags", in, "got %+v, want %+v (error %v)", c, want, err)
		}
	}
	// the default output
	r, w, err := os.Pipe()
	if err != nil {
		return
	}
	olds := os.Stderr
	os.Stderr = w
	l := NewLogger(NewConfig())
	os.Stderr = olds
	l.Print("to stderr")
	w.Close()
	b := make([]byte, 100)
	n, _ := r.Read(b)
	if !strings.Contains(string(b[:n]), "to stderr") {
		v.Fail("stderr", "no output configured", "stderr has %q", b[:n])
	}
}
