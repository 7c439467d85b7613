package pheart

import (
	"encoding/hex"
	"fmt"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/sisu-network/dheart/utils"

	"dverif/pbt"
	"dverif/pnet"
	"dverif/sim"
)

type keyCase struct {
	name    string
	sealed  string
	keyType string
	key     string // the key it stands for, when it is good
	bytes   string // the key's bytes, when only the type is wrong (such a key may count as the same as the one set)
}

// drawKeyCase draws an argument of SetPrivKey; own is the node's proper key.
func drawKeyCase(t *pbt.T, n *Node, own, other *pnet.Addr) keyCase {
	good := func(a *pnet.Addr) keyCase {
		return keyCase{"good", n.Sealed(a.Priv.Bytes()), a.Priv.Type(), string(a.Priv.Bytes()), ""}
	}
	a := own
	if t.Prob(1, 3) {
		a = other
	}
	g := good(a)
	raw := a.Priv.Bytes()
	bad := func(name, sealed, kt string) keyCase { return keyCase{name, sealed, kt, "", ""} }
	otherType := "ed25519"
	if a.Priv.Type() == "ed25519" {
		otherType = "secp256k1"
	}
	switch t.Weighted(8, 1, 1, 1, 2, 2, 1, 2, 1, 1, 1) {
	case 1:
		return bad("not hex", t.OneOf("", "0x"+g.sealed, "zz", g.sealed+"a", " ", "0x"), g.keyType)
	case 2:
		return bad("short", g.sealed[:2*t.Int(0, len(g.sealed)/2-1)], g.keyType)
	case 3:
		bz, _ := hex.DecodeString(g.sealed)
		bz[t.Int(0, len(bz)-1)] ^= byte(1 << uint(t.Int(0, 7)))
		return bad("altered", hex.EncodeToString(bz), g.keyType)
	case 4:
		bz, _ := utils.AESDEncrypt(raw, t.Bulk(32))
		return bad("another AES key", hex.EncodeToString(bz), g.keyType)
	case 5:
		k := t.Int(0, 70)
		if (k == 32 && g.keyType == "secp256k1") || (k == 64 && g.keyType == "ed25519") {
			k++
		}
		return bad("wrong length", n.Sealed(t.Bulk(k)), g.keyType)
	case 6:
		return keyCase{"other type", g.sealed, otherType, "", string(raw)}
	case 7:
		return keyCase{"unknown type", g.sealed, t.OneOf("", "rsa", "ED25519", "sr25519", "secp256k1 "), "", string(raw)}
	case 8:
		if g.keyType == "ed25519" {
			b := append([]byte(nil), raw...)
			b[t.Int(32, 63)] ^= 4
			return bad("inconsistent", n.Sealed(b), g.keyType)
		}
		return bad("no scalar", n.Sealed(make([]byte, 32)), g.keyType)
	case 9:
		if g.keyType == "secp256k1" {
			return bad("scalar too big", n.Sealed([]byte(strings.Repeat("\xff", 32))), g.keyType)
		}
		return bad("no key", n.Sealed(nil), g.keyType)
	case 10:
		bz, _ := hex.DecodeString(g.sealed)
		return bad("longer", hex.EncodeToString(append(bz, t.Bulk(1+t.Int(0, 20))...)), g.keyType)
	}
	return g
}

// Gate: generated histories of keys, readiness and requests on one service.
func Gate(t *pbt.T) {
	r := t.Rand()
	pair := sim.DrawDealt(t, 2, utils.GetThreshold(2))
	me := t.Int(0, 1)
	m := pair.C.Members[me]
	own := &pnet.Addr{Priv: m.Priv, Host: pnet.LocalIP(), Port: pnet.NewPort(), ID: m.Node.PeerId}
	other := pnet.NewAddr(r, t.Bool())
	n := NewNode(r, own, me, nil)
	badAES := t.Prob(1, 16)
	if badAES {
		n.cfg.AesKey = t.Bulk([]int{0, 1, 15, 31, 33}[t.Int(0, 4)])
		n.reconfigure()
	}
	t.Cleanup(n.Close)
	started := false
	start := func() {
		n.Api.Init()
		started = true
		k, e := pair.Ed(0), pair.Ec(0)
		if err := n.DB().SaveEdKeygen(ed, "dealt", pair.C.Pids(), k.Copy(me)); err != nil {
			panic(err)
		}
		if err := n.DB().SaveEcKeygen(ec, "dealt", pair.C.Pids(), e.Copy(me)); err != nil {
			panic(err)
		}
	}
	if !t.Prob(1, 6) {
		start()
	}
	net2 := &Net{C: pair.C}
	key, ready, accepted, refused, seq, blocked := "", false, 0, 0, 0, false
	t.Note("own key %s, other %s, bad AES %v, started %v", own.Priv.Type(), other.Priv.Type(), badAES, started)
	setKeys := func(cs []keyCase) {
		errs := make([]error, len(cs))
		wg := &sync.WaitGroup{}
		for i, c := range cs {
			wg.Add(1)
			go func(i int, c keyCase) { defer wg.Done(); errs[i] = n.Api.SetPrivKey(c.sealed, c.keyType) }(i, c)
		}
		t.WithLimit(60*time.Second, "set-key-stuck", "SetPrivKey", wg.Wait)
		usable := started && !badAES && !blocked
		now := key
		for i, c := range cs {
			t.Note("key %q (%s): %v", c.name, c.keyType, errs[i])
			if errs[i] == nil && c.key != "" && usable && now == "" {
				now = c.key
			}
		}
		anyGood := false
		for i, c := range cs {
			if errs[i] == nil && c.key == "" && (now == "" || c.bytes != now) {
				t.Failf("bad-key-accepted", "a bad key (%s) is accepted", c.name)
			}
			if errs[i] == nil && c.key != "" && (badAES || !started) {
				t.Failf("unusable-accepted", "a key is accepted although it cannot be used (started %v, AES key valid %v)", started, !badAES)
			}
			if errs[i] == nil && c.key != "" && c.key != now {
				t.Failf("second-key-accepted", "a key is accepted although another one is set")
			}
			if errs[i] == nil && blocked && key == "" {
				t.Failf("blocked-accepted", "a key is accepted although the node cannot listen")
			}
			if errs[i] != nil && c.key != "" && (c.key == key || len(cs) == 1 && key == "" && usable) {
				t.Failf("good-key-refused", "a good key is refused: %v", errs[i])
			}
			anyGood = anyGood || c.key != ""
		}
		if anyGood && usable && now == "" {
			t.Failf("all-refused", "of several good keys none is accepted")
		}
		if usable {
			key = now
		}
	}
	request := func() {
		w := net2.Wrappers(t.Perm(2))
		seq++
		var err error
		what := ""
		t.WithLimit(20*time.Second, "request-stuck", "a request", func() {
			if t.Bool() {
				kt := t.OneOf(ed, ec)
				what = "keygen " + kt
				err = n.Api.KeyGen(fmt.Sprint("kg", seq), kt, w)
			} else {
				q := drawRequest(t, t.OneOf(ed, ec), []string{fmt.Sprint("id", seq)})
				what = "sign " + q.KeyType
				err = n.Api.KeySign(q, w)
			}
		})
		open := ready && key != ""
		t.Note("%s: %v (ready %v, key %v)", what, err, ready, key != "")
		if !open && err == nil {
			t.Failf("accepted-while-closed", "%s is accepted, ready %v, key set %v", what, ready, key != "")
		}
		// The committee contains the proper key only.
		if open && key == string(own.Priv.Bytes()) && err != nil {
			t.Failf("refused-while-open", "%s is refused with key and readiness: %v", what, err)
		}
		if err == nil {
			accepted++
		} else {
			refused++
		}
	}
	for k := t.Int(3, 14); k > 0; k-- {
		switch t.Weighted(4, 4, 5, 1, 1) {
		case 0:
			ready = t.Prob(2, 3)
			t.Note("ready %v", ready)
			n.Api.SetSisuReady(ready)
		case 1:
			cs := []keyCase{drawKeyCase(t, n, own, other)}
			for t.Prob(1, 6) {
				cs = append(cs, drawKeyCase(t, n, own, other))
			}
			setKeys(cs)
		case 2:
			if accepted < 6 {
				request()
			}
		case 3:
			if !started {
				start()
				t.Note("started")
			}
		case 4: // the port is taken for a while
			if key == "" && started {
				l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", own.Host, own.Port))
				if err != nil {
					t.Discard()
				}
				blocked = true
				setKeys([]keyCase{{"good but the port is taken", n.Sealed(own.Priv.Bytes()), own.Priv.Type(), string(own.Priv.Bytes()), ""}})
				l.Close()
				blocked = false
			}
		}
		t.StopIfFailed()
	}
	if ks, ss := n.Sink.All(); accepted == 0 && len(ks)+len(ss) > 0 {
		t.Failf("posted", "all requests were refused, but %d results were posted", len(ks)+len(ss))
	}
	if !started {
		start()
	}
	if !badAES {
		if key == "" {
			setKeys([]keyCase{{"good", n.Sealed(own.Priv.Bytes()), own.Priv.Type(), string(own.Priv.Bytes()), ""}})
			t.StopIfFailed()
		}
		if cm := pnet.CMOf(n.Heart); cm != nil {
			if h := pnet.HostOf(cm); h != nil {
				want := own.ID
				if key == string(other.Priv.Bytes()) {
					want = other.ID
				}
				if h.ID() != want {
					t.Failf("identity", "the node's network identity is %s instead of %s", h.ID(), want)
				}
			}
		}
		ready = true
		n.Api.SetSisuReady(true)
		request()
		ready = false
		n.Api.SetSisuReady(false)
		request()
	}
	if refused > 0 && accepted > 0 {
		t.NonTrivial()
	}
}
