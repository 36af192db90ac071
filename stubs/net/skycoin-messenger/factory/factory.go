// Package factory is a stand-in for
// github.com/skycoin/net/skycoin-messenger/factory (not available offline).
package factory

import (
	"errors"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
)

type LoggerLevel int

const (
	ErrorLevel LoggerLevel = iota
	DebugLevel
)

type SeedConfig struct {
	Seed      string
	SecKey    string
	PublicKey string
	secKey    cipher.SecKey
	publicKey cipher.PubKey
}

func NewSeedConfig() (*SeedConfig, error) {
	pk, sk := cipher.GenerateKeyPair()
	return mk(pk, sk), nil
}

func mk(pk cipher.PubKey, sk cipher.SecKey) *SeedConfig {
	return &SeedConfig{SecKey: sk.Hex(), PublicKey: pk.Hex(), secKey: sk, publicKey: pk}
}

func SecKeyToSeedConfig(sk cipher.SecKey) (*SeedConfig, error) {
	pk, err := cipher.PubKeyFromSecKey(sk)
	if err != nil {
		return nil, err
	}
	return mk(pk, sk), nil
}

type ConnConfig struct {
	SeedConfig                     *SeedConfig
	Reconnect                      bool
	ReconnectWait                  time.Duration
	FindServiceNodesByKeysCallback func(resp *QueryResp)
	OnConnected                    func(connection *Connection)
}

type NodeInfo struct {
	PubKey  cipher.PubKey
	Address string
}

type ServiceInfo struct {
	PubKey cipher.PubKey
	Nodes  []*NodeInfo
}

type QueryResp struct {
	Result []*ServiceInfo
}

type Service struct {
	Key cipher.PubKey
}

type NodeServices struct {
	ServiceAddress string
	Services       []*Service
}

type Connection struct{}

func (c *Connection) FindServiceNodesByKeys(keys []cipher.PubKey) error { return nil }
func (c *Connection) UpdateServices(ns *NodeServices) error            { return nil }

type MessengerFactory struct{}

func NewMessengerFactory() *MessengerFactory                       { return &MessengerFactory{} }
func (m *MessengerFactory) SetLoggerLevel(level LoggerLevel)       {}
func (m *MessengerFactory) ForEachConn(fn func(c *Connection))     {}
func (m *MessengerFactory) Close() error                           { return nil }
func (m *MessengerFactory) Listen(address string) error            { return nil }
func (m *MessengerFactory) ConnectWithConfig(address string, config *ConnConfig) error {
	return errors.New("no discovery offline")
}
