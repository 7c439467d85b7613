// Package pheart runs the real service object (server.TssApi over core.Heart) of several nodes, with their
// real connection managers on the loopback.
package pheart

import (
	"encoding/hex"
	"fmt"
	"reflect"
	"sync"
	"time"

	"github.com/sisu-network/dheart/core"
	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/db"
	"github.com/sisu-network/dheart/server"
	"github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/utils"

	"dverif/pbt"
	"dverif/phost"
	"dverif/pnet"
	"dverif/sim"
)

var dbType = reflect.TypeOf((*db.Database)(nil)).Elem()

// Node is one service object.
type Node struct {
	*pnet.Addr
	Heart *core.Heart
	Api   *server.TssApi
	Sink  *phost.Sink
	AES   []byte
	cfg   config.HeartConfig
}

// NewNode makes a service that has been initialised but has no key yet.
func NewNode(r *pbt.Rand, a *pnet.Addr, i int, peers []*pnet.Addr) *Node {
	n := &Node{Addr: a, Sink: &phost.Sink{}, AES: r.Bytes(32)}
	cfg := config.HeartConfig{ShortcutPreparams: true, AesKey: n.AES, Connection: a.Config(peers)}
	cfg.Db.InMemory, cfg.Db.Schema = true, fmt.Sprintf("dheart%d", i%10)
	n.cfg = cfg
	n.Heart = core.NewHeart(cfg, n.Sink)
	n.Api = server.NewTssApi(n.Heart)
	return n
}

// reconfigure makes the service again after a change of its configuration.
func (n *Node) reconfigure() {
	n.Heart = core.NewHeart(n.cfg, n.Sink)
	n.Api = server.NewTssApi(n.Heart)
}

// DB is the service's own database.
func (n *Node) DB() db.Database {
	d, _ := pnet.Find(n.Heart, dbType).(db.Database)
	return d
}

func (n *Node) Close() {
	if cm := pnet.CMOf(n.Heart); cm != nil {
		if h := pnet.HostOf(cm); h != nil {
			h.Close()
		}
	}
}

func (n *Node) Sealed(key []byte) string {
	bz, err := utils.AESDEncrypt(key, n.AES)
	if err != nil {
		panic(err)
	}
	return hex.EncodeToString(bz)
}

func (n *Node) SetKey() error { return n.Api.SetPrivKey(n.Sealed(n.Priv.Bytes()), n.Priv.Type()) }

// Net is a committee of services.
type Net struct {
	C     *sim.Committee
	Nodes []*Node
}

// Wrappers are the members' public keys as the host passes them, in the order of perm.
func (net *Net) Wrappers(perm []int) []types.PubKeyWrapper {
	var out []types.PubKeyWrapper
	for _, i := range perm {
		p := net.C.Members[i].Priv
		out = append(out, types.PubKeyWrapper{KeyType: p.Type(), Key: append([]byte(nil), p.PubKey().Bytes()...)})
	}
	return out
}

// NewNet prepares the services of all members (initialised, without key).
func NewNet(t *pbt.T, c *sim.Committee) *Net {
	net := &Net{C: c}
	r := t.Rand()
	var addrs []*pnet.Addr
	for _, m := range c.Members {
		addrs = append(addrs, &pnet.Addr{Priv: m.Priv, Host: pnet.LocalIP(), Port: pnet.NewPort(), ID: m.Node.PeerId})
	}
	for i := range c.Members {
		var peers []*pnet.Addr
		for j, a := range addrs {
			if j != i {
				peers = append(peers, a)
			}
		}
		net.Nodes = append(net.Nodes, NewNode(r, addrs[i], i, peers))
	}
	t.Cleanup(func() {
		for _, n := range net.Nodes {
			n.Close()
		}
	})
	for _, n := range net.Nodes {
		n.Api.Init()
	}
	return net
}

// Up gives every node its key and readiness, in any order.
func (net *Net) Up(t *pbt.T) {
	wg := &sync.WaitGroup{}
	errs := make([]error, len(net.Nodes))
	for i, n := range net.Nodes {
		readyFirst := t.Bool()
		wg.Add(1)
		go func(i int, n *Node) {
			defer wg.Done()
			if readyFirst {
				n.Api.SetSisuReady(true)
			}
			errs[i] = n.SetKey()
			if !readyFirst {
				n.Api.SetSisuReady(true)
			}
		}(i, n)
	}
	t.WithLimit(90*time.Second, "up-stuck", "setting the keys", wg.Wait)
	for i, e := range errs {
		if e != nil {
			t.Stuckf("set-key", "n%d refuses its key: %v", i, e)
		}
	}
	t.StopIfFailed()
}

// all calls f for every node at the same time.
func (net *Net) all(f func(i int, n *Node)) {
	wg := &sync.WaitGroup{}
	for i, n := range net.Nodes {
		wg.Add(1)
		go func(i int, n *Node) { defer wg.Done(); f(i, n) }(i, n)
	}
	wg.Wait()
}

// Keygen runs a keygen on all nodes and returns the key.
func (net *Net) Keygen(t *pbt.T, id, keyType string) []byte {
	before := make([]int, len(net.Nodes))
	for i, n := range net.Nodes {
		k, _ := n.Sink.All()
		before[i] = len(k)
	}
	perms := make([][]int, len(net.Nodes))
	for i := range perms {
		perms[i] = t.Perm(len(net.Nodes))
	}
	errs := make([]error, len(net.Nodes))
	net.all(func(i int, n *Node) { errs[i] = n.Api.KeyGen(id, keyType, net.Wrappers(perms[i])) })
	for i, e := range errs {
		if e != nil {
			t.Failf("keygen-refused", "n%d refuses keygen %q of %s: %v", i, id, keyType, e)
		}
	}
	t.StopIfFailed()
	ok := t.Wait(100*time.Second, func() bool {
		for i, n := range net.Nodes {
			if k, _ := n.Sink.All(); len(k) < before[i]+1 {
				return false
			}
		}
		return true
	})
	if !ok {
		t.Stuckf("keygen-no-result", "keygen %q of %s: not every node posted a result", id, keyType)
		t.StopIfFailed()
	}
	var pub []byte
	for i, n := range net.Nodes {
		k, _ := n.Sink.All()
		if len(k) != before[i]+1 {
			t.Failf("keygen-results", "n%d posted %d results for one keygen", i, len(k)-before[i])
		}
		r := k[len(k)-1]
		if r.KeyType != keyType {
			t.Failf("keygen-type", "n%d posted a result of type %q for a keygen of type %q", i, r.KeyType, keyType)
		}
		if r.Outcome != types.OutcomeSuccess {
			t.Stuckf("keygen-failed", "keygen %q of %s with all nodes up fails on n%d, culprits %v", id, keyType, i, r.Culprits)
		}
		if pub == nil {
			pub = r.PubKeyBytes
		} else if string(pub) != string(r.PubKeyBytes) {
			t.Failf("keygen-keys", "n0 reports key %x, n%d %x", pub, i, r.PubKeyBytes)
		}
	}
	t.StopIfFailed()
	return pub
}
