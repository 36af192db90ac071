// Package factory is a stand-in for github.com/skycoin/net/factory (not
// available offline): an in-memory transport with the API used by skycoin/cxo.
package factory

import (
	"errors"
	"fmt"
	"net"
	"sync"
)

type addr string

func (a addr) Network() string { return "mem" }
func (a addr) String() string  { return string(a) }

// Connection is one side of an in-memory duplex channel
type Connection struct {
	in, out chan []byte
	remote  addr
	tcp     bool
	mx      *sync.Mutex
	once    *sync.Once
	closed  chan struct{}
}

func (c *Connection) GetChanIn() <-chan []byte  { return c.in }
func (c *Connection) GetChanOut() chan<- []byte { return c.out }
func (c *Connection) GetRemoteAddr() net.Addr   { return c.remote }
func (c *Connection) IsTCP() bool               { return c.tcp }
func (c *Connection) IsClosed() bool {
	select {
	case <-c.closed:
		return true
	default:
		return false
	}
}
func (c *Connection) Close() { c.once.Do(func() { close(c.closed) }) }

// Pipe creates two connected Connections
func Pipe(tcp bool, aRemote, bRemote string) (a, b *Connection) {
	var (
		ab, ba = make(chan []byte, 128), make(chan []byte, 128)
		ai, bi = make(chan []byte, 128), make(chan []byte, 128)
		closed = make(chan struct{})
		once   sync.Once
	)
	a = &Connection{in: ai, out: ab, remote: addr(aRemote), tcp: tcp, once: &once, closed: closed}
	b = &Connection{in: bi, out: ba, remote: addr(bRemote), tcp: tcp, once: &once, closed: closed}
	go pump(ab, bi, closed)
	go pump(ba, ai, closed)
	return
}

func pump(from <-chan []byte, to chan<- []byte, closed <-chan struct{}) {
	defer close(to)
	for {
		select {
		case m := <-from:
			select {
			case to <- m:
			case <-closed:
				return
			}
		case <-closed:
			return
		}
	}
}

type factory struct {
	AcceptedCallback func(connection *Connection)
	tcp              bool
	mx               sync.Mutex
	addr             string
}

var (
	lmx       sync.Mutex
	listeners = map[string]*factory{}
	next      int
)

func (f *factory) key(a string) string { return fmt.Sprint(f.tcp, a) }

func (f *factory) Listen(address string) error {
	lmx.Lock()
	defer lmx.Unlock()
	if address == "" || address[len(address)-1] == ':' {
		next++
		address = fmt.Sprintf("mem:%d", next)
	}
	if _, ok := listeners[f.key(address)]; ok {
		return errors.New("address already in use")
	}
	listeners[f.key(address)] = f
	f.addr = address
	return nil
}

func (f *factory) connect(address string) (*Connection, error) {
	lmx.Lock()
	l, ok := listeners[f.key(address)]
	next++
	local := fmt.Sprintf("mem-client:%d", next)
	lmx.Unlock()
	if !ok {
		return nil, errors.New("connection refused")
	}
	a, b := Pipe(f.tcp, address, local)
	if l.AcceptedCallback != nil {
		go l.AcceptedCallback(b)
	}
	return a, nil
}

func (f *factory) Close() error {
	lmx.Lock()
	defer lmx.Unlock()
	if f.addr != "" {
		delete(listeners, f.key(f.addr))
		f.addr = ""
	}
	return nil
}

type TCPFactory struct{ factory }

func NewTCPFactory() *TCPFactory { return &TCPFactory{factory{tcp: true}} }
func (f *TCPFactory) Connect(address string) (*Connection, error) {
	return f.connect(address)
}

type UDPFactory struct{ factory }

func NewUDPFactory() *UDPFactory { return &UDPFactory{} }
func (f *UDPFactory) Connect(address string) (*Connection, error) {
	return f.connect(address)
}
