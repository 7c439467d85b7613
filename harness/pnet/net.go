// Package pnet runs real connection managers (and raw libp2p hosts) on the loopback.
package pnet

import (
	"fmt"
	"os"
	"reflect"
	"sync"
	"sync/atomic"
	"unsafe"

	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	ctypes "github.com/cosmos/cosmos-sdk/crypto/types"
	"github.com/libp2p/go-libp2p/core/host"
	"github.com/libp2p/go-libp2p/core/peer"
	"github.com/sisu-network/dheart/core"
	"github.com/sisu-network/dheart/p2p"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"

	"dverif/pbt"
)

// LocalIP is a loopback address that belongs to this process alone, so that ports never collide.
func LocalIP() string {
	p := os.Getpid()
	return fmt.Sprintf("127.%d.%d.%d", (p>>14)&255, (p>>7)&127+1, p&127+1)
}

var nextPort int32 = 20000

func NewPort() int {
	p := atomic.AddInt32(&nextPort, 1)
	if p > 60000 {
		atomic.StoreInt32(&nextPort, 20001)
		return 20001
	}
	return int(p)
}

func GenKey(r *pbt.Rand, ed bool) ctypes.PrivKey {
	if ed {
		return ed25519.GenPrivKeyFromSecret(r.Bytes(32))
	}
	return secp256k1.GenPrivKeyFromSecret(r.Bytes(32))
}

// Addr is a node's place in the network.
type Addr struct {
	Priv ctypes.PrivKey
	Host string
	Port int
	ID   peer.ID
}

func NewAddr(r *pbt.Rand, ed bool) *Addr {
	k := GenKey(r, ed)
	return &Addr{Priv: k, Host: LocalIP(), Port: NewPort(), ID: core.NewNode(k.PubKey()).PeerId}
}

func (a *Addr) Peer() *p2ptypes.Peer {
	return &p2ptypes.Peer{
		Address:    fmt.Sprintf("/ip4/%s/tcp/%d/p2p/%s", a.Host, a.Port, a.ID),
		PubKey:     fmt.Sprintf("%x", a.Priv.PubKey().Bytes()),
		PubKeyType: a.Priv.Type(),
	}
}

func (a *Addr) Config(peers []*Addr) p2ptypes.ConnectionsConfig {
	c := p2ptypes.ConnectionsConfig{Host: a.Host, Port: a.Port, Rendezvous: "verif"}
	for _, p := range peers {
		c.Peers = append(c.Peers, p.Peer())
	}
	return c
}

// Find returns the values inside a struct (behind a pointer) that have the wanted interface type.
// The service gives no other way to close its host or to reach its database.
func Find(holder interface{}, want reflect.Type) interface{} {
	v := reflect.ValueOf(holder)
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return nil
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() != want || !f.CanAddr() {
			continue
		}
		f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
		if !f.IsNil() {
			return f.Interface()
		}
	}
	return nil
}

var (
	hostType = reflect.TypeOf((*host.Host)(nil)).Elem()
	cmType   = reflect.TypeOf((*p2p.ConnectionManager)(nil)).Elem()
)

// HostOf is the libp2p host of a connection manager.
func HostOf(cm p2p.ConnectionManager) host.Host {
	h, _ := Find(cm, hostType).(host.Host)
	return h
}

// CMOf is the connection manager inside of a service object.
func CMOf(holder interface{}) p2p.ConnectionManager {
	c, _ := Find(holder, cmType).(p2p.ConnectionManager)
	return c
}

// Log keeps what was delivered to a node.
type Log struct {
	mu  sync.Mutex
	got map[string]int
	n   int
}

func NewLog() *Log { return &Log{got: map[string]int{}} }

func (l *Log) add(k string) {
	l.mu.Lock()
	l.got[k]++
	l.n++
	l.mu.Unlock()
}

func (l *Log) count(k string) int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.got[k]
}

func (l *Log) snapshot() map[string]int {
	l.mu.Lock()
	defer l.mu.Unlock()
	m := map[string]int{}
	for k, v := range l.got {
		m[k] = v
	}
	return m
}
