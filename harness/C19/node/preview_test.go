package node

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/skycoin/net/factory"
	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/node/log"
	"github.com/skycoin/cxo/node/msg"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"
)

const vlong = 20 * time.Second

type vItem struct {
	N uint32
	R registry.Ref `skyobject:"schema=v.Item"`
}

var vReg = registry.NewRegistry(func(r *registry.Reg) { r.Register("v.Item", vItem{}) })

type vlogw struct{}

func (vlogw) Write(p []byte) (int, error) { return len(p), nil }

func vsnap(c *skyobject.Container) string {
	var l []string
	c.DB().CXDS().Iterate(func(k cipher.SHA256, rc uint32, val []byte) error {
		l = append(l, fmt.Sprint(k.Hex(), rc, val))
		return nil
	})
	sort.Strings(l)
	return fmt.Sprint(l, len(c.Feeds()))
}

func TestVerif(t *testing.T) {
	os.Setenv("HOME", os.TempDir())
	v := vstart(t, "a case is a preview of a feed of a peer that follows a script; non-trivial: all",
		"replies: the root, one of another feed, forged, damaged, an error, another message, nothing; objects given, wrong, refused, other messages")
	conf := NewConfig()
	conf.Config = skyobject.NewConfig()
	conf.Config.InMemoryDB = true
	conf.Config.RollAvgSamples = 1
	conf.TCP.Listen, conf.UDP.Listen, conf.RPC = "", "", ""
	conf.TCP.ResponseTimeout, conf.UDP.ResponseTimeout = 2*vlong, 2*vlong
	conf.Logger = log.NewConfig()
	conf.Logger.Output = vlogw{}
	n, err := NewNode(conf)
	if err != nil {
		panic(err)
	}
	defer n.Close()
	n.TCP()
	n.UDP()
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	pc, err := skyobject.NewContainer(conf.Config)
	must(err)
	defer pc.Close()
	type pub struct {
		pk cipher.PubKey
		sk cipher.SecKey
		rs []*registry.Root
	}
	sch, _ := vReg.SchemaByName("v.Item")
	var pubs []*pub
	for i := 0; i < 3; i++ {
		p := new(pub)
		p.pk, p.sk = cipher.GenerateDeterministicKeyPair([]byte{byte(i), 9})
		must(pc.AddFeed(p.pk))
		up, err := pc.Unpack(p.sk, vReg)
		must(err)
		r := &registry.Root{Pub: p.pk, Nonce: 4}
		for j := 0; j < 4; j++ {
			var it vItem
			it.N = uint32(i*10 + j)
			must(it.R.SetValue(up, &vItem{N: uint32(i*100 + j)}))
			d := registry.Dynamic{Schema: sch.Reference()}
			must(d.SetValue(up, &it))
			r.Refs = append(r.Refs, d)
			must(pc.Save(up, r))
			rr, err := pc.Root(p.pk, 4, r.Seq)
			must(err)
			p.rs = append(p.rs, rr)
		}
		pubs = append(pubs, p)
	}
	addr := 0
	for v.More(1) {
		var log []string
		var lmx sync.Mutex
		note := func(f string, as ...interface{}) {
			lmx.Lock()
			defer lmx.Unlock()
			log = append(log, fmt.Sprintf(f, as...))
		}
		in := func() string { lmx.Lock(); defer lmx.Unlock(); return strings.Join(log, "; ") }
		func() {
			addr++
			a, b := factory.Pipe(v.R.Intn(2) == 0, fmt.Sprint("addr:", addr), "me")
			defer b.Close()
			var id cipher.PubKey
			v.R.Read(id[:])
			enc := (&Conn{}).encodeMsg
			b.GetChanOut() <- enc(1, 0, &msg.Syn{Protocol: msg.Version, NodeID: id})
			c, err := n.initConn(a, true)
			must(err)
			<-b.GetChanIn() // Ack
			p := pubs[v.R.Intn(len(pubs))]
			r := p.rs[v.R.Intn(len(p.rs))]
			// a part of it is here
			if v.R.Intn(3) == 0 {
				r := p.rs[0]
				pc.Walk(r, func(k cipher.SHA256, _ int) (bool, error) {
					if k == (cipher.SHA256{}) {
						return false, nil
					}
					val, _, err := pc.Get(k, 0)
					must(err)
					if _, err = n.c.Set(k, val, 1); err != nil {
						must(err)
					}
					return true, nil
				})
				note("a part is here")
			}
			kind := v.R.Intn(9)
			var reply msg.Msg
			m := &msg.Root{Feed: r.Pub, Nonce: r.Nonce, Seq: r.Seq, Value: append([]byte(nil), r.Encode()...), Sig: r.Sig}
			good := kind < 3
			switch kind {
			case 0, 1, 2:
				note("the root")
				reply = m
			case 3:
				o := pubs[v.R.Intn(len(pubs))]
				if o == p {
					o = pubs[(v.R.Intn(len(pubs)-1)+1+indexOf(len(pubs), func(i int) bool { return pubs[i] == p }))%len(pubs)]
				}
				x := o.rs[0]
				m = &msg.Root{Feed: x.Pub, Nonce: x.Nonce, Seq: x.Seq, Value: x.Encode(), Sig: x.Sig}
				if v.R.Intn(2) == 0 {
					m.Feed = p.pk
				}
				note("a root of another feed, named %v", m.Feed == p.pk)
				reply = m
			case 4:
				m.Value[v.R.Intn(len(m.Value))] ^= 1 << uint(v.R.Intn(8))
				note("a damaged root")
				reply = m
			case 5:
				m.Sig = pubs[(indexOf(len(pubs), func(i int) bool { return pubs[i] == p })+1)%len(pubs)].rs[0].Sig
				if v.R.Intn(2) == 0 {
					m.Sig, _ = cipher.SignHash(cipher.SumSHA256(m.Value), pubs[(indexOf(len(pubs), func(i int) bool { return pubs[i] == p })+1)%len(pubs)].sk)
				}
				note("a forged signature")
				reply = m
			case 6:
				note("an error")
				reply = &msg.Err{Err: "my reason"}
			case 7:
				note("another message")
				reply = []msg.Msg{&msg.Ok{}, &msg.List{}, &msg.Object{Value: m.Value}, &msg.Pong{}}[v.R.Intn(4)]
			case 8:
				note("closing")
			}
			mode := v.R.Intn(5)
			note("objects: %s", []string{"given", "given", "wrong", "refused", "other messages"}[mode])
			done := make(chan struct{})
			defer func() { <-done }()
			var amx sync.Mutex
			asked := map[cipher.SHA256]int{}
			bad := map[cipher.SHA256]bool{}
			sub := false
			badseq := v.R.Int63()
			go func() {
				defer close(done)
				for raw := range b.GetChanIn() {
					g, err := msg.Decode(raw[8:])
					must(err)
					seq := binary.LittleEndian.Uint32(raw)
					switch x := g.(type) {
					case *msg.RqPreview:
						if x.Feed != p.pk {
							v.Fail("feed", in(), "preview of another feed is asked for")
						}
						if reply == nil {
							b.Close()
							return
						}
						b.GetChanOut() <- enc(2, seq, reply)
					case *msg.Sub:
						amx.Lock()
						sub = true
						amx.Unlock()
						b.GetChanOut() <- enc(2, seq, &msg.Ok{})
					case *msg.RqObject:
						val, _, err := pc.Get(x.Key, 0)
						amx.Lock()
						asked[x.Key]++
						k := int(badseq>>uint(8*(len(asked)%7))) & 7
						if mode >= 2 && k < 3 {
							bad[x.Key] = true
						}
						is := bad[x.Key]
						amx.Unlock()
						var o msg.Msg = &msg.Object{Value: val}
						if err != nil {
							o = &msg.Err{Err: "none"}
						} else if is {
							switch mode {
							case 2:
								w := append([]byte(nil), val...)
								if len(w) > 0 && k == 1 {
									w[int(badseq>>9&255)%len(w)] ^= 1
								} else if k == 2 {
									w = nil
								} else {
									w = append(w, 0)
								}
								o = &msg.Object{Value: w}
							case 3:
								o = &msg.Err{Err: "none"}
							case 4:
								o = &msg.Ok{}
							}
						}
						b.GetChanOut() <- enc(2, seq, o)
					}
				}
			}()
			snap := vsnap(n.c)
			want := v.R.Intn(3) == 0
			called := false
			res := make(chan error, 1)
			go func() {
				var err error
				if r, did := vpanics(func() {
					err = c.Preview(p.pk, func(pack registry.Pack, g *registry.Root) bool {
						called = true
						if !good {
							v.Fail("root", in(), "a root is previewed")
						}
						if g.Pub != p.pk || g.Hash != r.Hash || !bytes.Equal(g.Encode(), r.Encode()) {
							v.Fail("root", in(), "another root is previewed")
						}
						for i := 0; i < 2; i++ {
							for _, d := range g.Refs {
								var it vItem
								err := d.Value(pack, &it)
								amx.Lock()
								if isbad := bad[d.Hash]; isbad != (err != nil) {
									v.Fail("object", in(), "an object wrong or refused: %v, error %v", isbad, err)
								}
								amx.Unlock()
								if err != nil {
									continue
								}
								val, err := pack.Get(it.R.Hash)
								amx.Lock()
								if isbad := bad[it.R.Hash]; isbad != (err != nil) {
									v.Fail("object", in(), "an object wrong or refused: %v, error %v", isbad, err)
								}
								amx.Unlock()
								if err == nil && cipher.SumSHA256(val) != it.R.Hash {
									v.Fail("object", in(), "another object is given")
								}
							}
						}
						return want
					})
				}); did {
					err = fmt.Errorf("panic: %v", r)
					v.Fail("panic", in(), "%v", err)
				}
				res <- err
			}()
			select {
			case err = <-res:
			case <-time.After(vlong):
				v.Fail("stuck", in(), "a preview goes on for %v", vlong)
				return
			}
			v.Case(in(), true)
			amx.Lock()
			regbad := bad[cipher.SHA256(r.Reg)]
			if good && !regbad && (err != nil || !called) {
				v.Fail("root", in(), "an authentic root isn't previewed: %v", err)
			}
			if !(good && !regbad) && (err == nil || called) {
				v.Fail("root", in(), "the preview isn't refused: called %v", called)
			}
			if kind == 6 && !strings.Contains(err.Error(), "my reason") {
				v.Fail("error", in(), "the error doesn't give the reason: %v", err)
			}
			for k, x := range asked {
				if x > 1 && !bad[k] {
					v.Fail("asked", in(), "the peer is asked for an object %d times", x)
				}
			}
			if sub != (want && called) {
				v.Fail("subscribe", in(), "subscribed: %v, wanted: %v", sub, want && called)
			}
			amx.Unlock()
			if got := c.n.fs.hasConnFeed(c, p.pk); got != (want && called) {
				v.Fail("subscribe", in(), "shares the feed: %v, wanted: %v", got, want && called)
			}
			if !want || !called {
				if s := vsnap(n.c); s != snap {
					v.Fail("stored", in(), "a preview changes the store")
				}
			} else {
				n.DontShare(p.pk)
				n.c.DelFeed(p.pk)
			}
			if _, err := n.c.LastRoot(p.pk, 4); err != data.ErrNoSuchFeed && err != data.ErrNoSuchHead && err != data.ErrNotFound {
				v.Fail("stored", in(), "the root is stored: %v", err)
			}
			c.Close()
		}()
	}
	v.Done()
}

func indexOf(n int, f func(int) bool) int {
	for i := 0; i < n; i++ {
		if f(i) {
			return i
		}
	}
	return -1
}
