package node

import (
	"bytes"
	"flag"
	"fmt"
	"os"
	"reflect"
	"testing"
	"time"
)

func TestVerif(t *testing.T) {
	v := vstart(t, "a case is a set of command-line flags, or a configuration to validate", "random subsets of the flags")
	defer v.Done()
	os.Setenv("HOME", os.TempDir())
	d := NewConfig()
	if err := d.Validate(); err != nil {
		v.Fail("default", "NewConfig()", "refused: %v", err)
	}
	if d.MaxConnections != MaxConnections || d.MaxPendingConnections != MaxPendingConnections || d.MaxHeads != MaxHeads || d.MaxFillingTime != MaxFillingTime || d.RPC != RPCAddress ||
		d.Public != Public || d.TCP.Listen != ListenTCP || d.UDP.Listen != ListenUDP || d.TCP.Pings != Pings || d.TCP.ResponseTimeout != ResponseTimeout || d.UDP.ResponseTimeout != ResponseTimeout || d.Logger.Prefix != Prefix {
		v.Fail("defaults", "NewConfig()", "%+v", *d)
	}
	d.Config.MaxObjectSize = 3
	if d.Validate() == nil {
		v.Fail("inner", "MaxObjectSize 3", "accepted")
	}
	d.Config = nil
	if err := d.Validate(); err != nil {
		v.Fail("inner", "no container configuration", "refused: %v", err)
	}
	dur := func() time.Duration { return time.Duration(v.R.Intn(1000)) * time.Second }
	for v.More(0.4) {
		c, want := NewConfig(), NewConfig()
		var as []string
		fl := func(name string, val interface{}, set func()) {
			if v.R.Intn(3) == 0 {
				as = append(as, fmt.Sprintf("-%s=%v", name, val))
				set()
			}
		}
		n, m, d1, d2, d3, d4, d5 := v.R.Intn(1000), v.R.Intn(1000), dur(), dur(), dur(), dur(), dur()
		fl("max-connections", n, func() { want.MaxConnections = n })
		fl("max-heads", m, func() { want.MaxHeads = m })
		fl("max-filling-time", d1, func() { want.MaxFillingTime = d1 })
		fl("rpc", "r", func() { want.RPC = "r" })
		fl("tcp", "t", func() { want.TCP.Listen = "t" })
		fl("udp", "u", func() { want.UDP.Listen = "u" })
		fl("tcp-response-timeout", d2, func() { want.TCP.ResponseTimeout = d2 })
		fl("udp-response-timeout", d3, func() { want.UDP.ResponseTimeout = d3 })
		fl("tcp-pings", d4, func() { want.TCP.Pings = d4 })
		fl("udp-pings", d5, func() { want.UDP.Pings = d5 })
		fl("public", true, func() { want.Public = true })
		fl("mem-db", true, func() { want.InMemoryDB = true })
		fl("data-dir", "d", func() { want.DataDir = "d" })
		fl("db-path", "p", func() { want.DBPath = "p" })
		fl("log-prefix", "x", func() { want.Logger.Prefix = "x" })
		fl("debug", true, func() { want.Logger.Debug = true })
		in := fmt.Sprint(as)
		v.Case(in, len(as) > 0)
		old := flag.CommandLine
		flag.CommandLine = flag.NewFlagSet("x", flag.ContinueOnError)
		flag.CommandLine.SetOutput(&bytes.Buffer{})
		c.FromFlags()
		if !reflect.DeepEqual(c.Config, NewConfig().Config) {
			v.Fail("flags", in, "FromFlags alone changed the configuration to %+v", *c.Config)
		}
		err := flag.CommandLine.Parse(as)
		flag.CommandLine = old
		if err != nil || !reflect.DeepEqual(c, want) {
			v.Fail("flags", in, "error %v, got %+v %+v, want %+v %+v", err, *c, *c.Config, *want, *want.Config)
		}
	}
}
