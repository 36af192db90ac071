package registry

import (
	"errors"

	"github.com/skycoin/skycoin/src/cipher"
)

var errVPack = errors.New("the pack fails")

// vPack is a Pack that counts what is asked of it and can fail
type vPack struct {
	reg              *Registry
	vals             map[cipher.SHA256][]byte
	degree           Degree
	flags            Flags
	gets, adds, sets int
	asked            []cipher.SHA256
	failGet, failAdd bool
	failAt           int // fail the n-th get, if it's not zero
}

func newVPack(reg *Registry) *vPack {
	return &vPack{reg: reg, vals: make(map[cipher.SHA256][]byte), degree: 3}
}

func (p *vPack) Registry() *Registry { return p.reg }

func (p *vPack) Get(key cipher.SHA256) ([]byte, error) {
	p.gets++
	p.asked = append(p.asked, key)
	if p.failGet || p.failAt == p.gets {
		return nil, errVPack
	}
	val, ok := p.vals[key]
	if !ok {
		return nil, ErrNotFound
	}
	return append([]byte{}, val...), nil
}

func (p *vPack) Set(key cipher.SHA256, val []byte) error {
	p.sets++
	if p.failAdd {
		return errVPack
	}
	p.vals[key] = append([]byte{}, val...)
	return nil
}

func (p *vPack) Add(val []byte) (cipher.SHA256, error) {
	p.adds++
	if p.failAdd {
		return cipher.SHA256{1, 2, 3}, errVPack
	}
	key := cipher.SumSHA256(val)
	p.vals[key] = append([]byte{}, val...)
	return key, nil
}

func (p *vPack) Degree() Degree                 { return p.degree }
func (p *vPack) SetDegree(d Degree) (err error) { p.degree = d; return }
func (p *vPack) Flags() Flags                   { return p.flags }
func (p *vPack) AddFlags(f Flags)               { p.flags |= f }
func (p *vPack) ClearFlags(f Flags)             { p.flags &^= f }
