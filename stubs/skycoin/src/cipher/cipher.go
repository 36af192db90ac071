// Package cipher is a stand-in for github.com/skycoin/skycoin/src/cipher
// (not available offline); only the API used by skycoin/cxo. Hashes are real
// SHA256; signatures are ed25519 packed in the sizes of the original types.
package cipher

import (
	"crypto/ed25519"
	"crypto/rand"
	"crypto/sha256"
	"encoding/hex"
	"errors"
)

type (
	SHA256 [32]byte
	PubKey [33]byte
	SecKey [32]byte
	Sig    [65]byte
)

func SumSHA256(b []byte) SHA256 { return sha256.Sum256(b) }

func (g SHA256) Hex() string { return hex.EncodeToString(g[:]) }
func (g *SHA256) Set(b []byte) error {
	if len(b) != len(g) {
		return errors.New("Invalid ripemd160 length")
	}
	copy(g[:], b)
	return nil
}

func SHA256FromHex(s string) (h SHA256, err error) {
	var b []byte
	if b, err = hex.DecodeString(s); err != nil {
		return
	}
	if len(b) != len(h) {
		return h, errors.New("Invalid hex length")
	}
	copy(h[:], b)
	return
}

func (p PubKey) Hex() string { return hex.EncodeToString(p[:]) }

func (p PubKey) Verify() error {
	if p[0] != 2 {
		return errors.New("Invalid public key")
	}
	return nil
}

func PubKeyFromHex(s string) (p PubKey, err error) {
	var b []byte
	if b, err = hex.DecodeString(s); err != nil {
		return
	}
	if len(b) != len(p) {
		return p, errors.New("Invalid public key length")
	}
	copy(p[:], b)
	return
}

func MustPubKeyFromHex(s string) PubKey {
	p, err := PubKeyFromHex(s)
	if err != nil {
		panic(err)
	}
	return p
}

func (s SecKey) Hex() string { return hex.EncodeToString(s[:]) }

func (s SecKey) Verify() error {
	if s == (SecKey{}) {
		return errors.New("Invalid SecKey")
	}
	return nil
}

func (s Sig) Hex() string { return hex.EncodeToString(s[:]) }

func pubOf(sk SecKey) (p PubKey) {
	p[0] = 2
	copy(p[1:], ed25519.NewKeyFromSeed(sk[:]).Public().(ed25519.PublicKey))
	return
}

func PubKeyFromSecKey(sk SecKey) (PubKey, error) {
	if err := sk.Verify(); err != nil {
		return PubKey{}, err
	}
	return pubOf(sk), nil
}

func MustPubKeyFromSecKey(sk SecKey) PubKey {
	p, err := PubKeyFromSecKey(sk)
	if err != nil {
		panic(err)
	}
	return p
}

func GenerateKeyPair() (PubKey, SecKey) {
	var sk SecKey
	if _, err := rand.Read(sk[:]); err != nil {
		panic(err)
	}
	return pubOf(sk), sk
}

func GenerateDeterministicKeyPair(seed []byte) (PubKey, SecKey) {
	sk := SecKey(sha256.Sum256(append([]byte("seed:"), seed...)))
	return pubOf(sk), sk
}

func SignHash(hash SHA256, sk SecKey) (sig Sig, err error) {
	if err = sk.Verify(); err != nil {
		return
	}
	copy(sig[:], ed25519.Sign(ed25519.NewKeyFromSeed(sk[:]), hash[:]))
	return
}

func VerifyPubKeySignedHash(pk PubKey, sig Sig, hash SHA256) error {
	if pk[0] != 2 || sig[64] != 0 ||
		!ed25519.Verify(ed25519.PublicKey(pk[1:]), hash[:], sig[:64]) {
		return errors.New("Invalid sig: PubKey recovery failed")
	}
	return nil
}
