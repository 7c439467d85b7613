package pheart

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"sync"
	"time"

	"github.com/ethereum/go-ethereum/rpc"

	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/server"
	"github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/utils"

	"dverif/pbt"
	"dverif/phost"
	"dverif/pnet"
	"dverif/sim"
)

// args draws hostile arguments. pubs are good keys that may be mixed in.
type args struct {
	t    *pbt.T
	good []types.PubKeyWrapper
	n    *Node // for sealing keys
}

func (a *args) text() string {
	return a.t.OneOf("", "a", "eddsa", "ecdsa", "rsa", "ed25519", "secp256k1", "\x00", "é\n", "id-1", "0x", "%s%d", string(bytes.Repeat([]byte("long"), 2000)))
}

func (a *args) keyType() string {
	return a.t.OneOf("eddsa", "ecdsa", "eddsa", "ecdsa", "", "rsa", "EDDSA", "schnorr", " eddsa")
}

func (a *args) wrapper() types.PubKeyWrapper {
	t := a.t
	if t.Prob(1, 2) && len(a.good) > 0 {
		w := a.good[t.Int(0, len(a.good)-1)]
		w.Key = append([]byte(nil), w.Key...)
		switch t.Weighted(5, 1, 1, 1) {
		case 1:
			w.Key[t.Int(0, len(w.Key)-1)] ^= byte(1 << uint(t.Int(0, 7)))
		case 2:
			w.Key = w.Key[:t.Int(0, len(w.Key))]
		case 3:
			w.KeyType = t.OneOf("ed25519", "secp256k1", "")
		}
		return w
	}
	w := types.PubKeyWrapper{KeyType: t.OneOf("ed25519", "secp256k1", "ed25519", "secp256k1", "", "sr25519")}
	switch t.Weighted(2, 2, 2, 1) {
	case 0:
		w.Key = t.Bulk(32)
	case 1:
		w.Key = t.Bulk(33)
		w.Key[0] = byte(2 + t.Int(0, 1))
	case 2:
		w.Key = t.Bulk(t.Int(0, 70))
	}
	return w
}

func (a *args) wrappers() []types.PubKeyWrapper {
	t := a.t
	switch t.Weighted(2, 3, 3, 1) {
	case 0:
		return append([]types.PubKeyWrapper{}, a.good...)
	case 1: // good ones, some missing or repeated
		var out []types.PubKeyWrapper
		for i := t.Int(0, 5); i > 0; i-- {
			if len(a.good) > 0 {
				out = append(out, a.good[t.Int(0, len(a.good)-1)])
			}
		}
		return out
	case 2:
		var out []types.PubKeyWrapper
		for i := t.Int(0, 5); i > 0; i-- {
			out = append(out, a.wrapper())
		}
		return out
	}
	return nil
}

func (a *args) request() *types.KeysignRequest {
	t := a.t
	if t.Prob(1, 12) {
		return nil
	}
	r := &types.KeysignRequest{KeyType: a.keyType()}
	k := t.Weighted(1, 6, 3, 2, 1)
	if t.Prob(1, 30) {
		k = t.Int(20, 60)
	}
	for ; k > 0; k-- {
		if t.Prob(1, 10) {
			r.KeysignMessages = append(r.KeysignMessages, nil)
			continue
		}
		m := &types.KeysignMessage{Id: a.text(), InChain: a.text(), OutChain: a.text(), OutHash: a.text()}
		switch t.Weighted(4, 2, 1, 1, 1) {
		case 0:
			m.BytesToSign = t.Bulk(32)
		case 1:
			m.BytesToSign = t.Bulk(t.Int(1, 100))
		case 2:
			m.BytesToSign = make([]byte, t.Int(0, 40))
		case 4:
			m.BytesToSign = t.Bulk(5000)
		}
		r.KeysignMessages = append(r.KeysignMessages, m)
	}
	return r
}

func (a *args) key() (string, string) {
	t := a.t
	kt := t.OneOf("ed25519", "secp256k1", "", "rsa")
	switch t.Int(0, 4) {
	case 0:
		return a.text(), kt
	case 1:
		return hex.EncodeToString(t.Bulk(t.Int(0, 100))), kt
	case 2:
		return a.n.Sealed(t.Bulk(t.Int(0, 70))), kt
	case 3:
		return a.n.Sealed(t.Bulk(32)), "secp256k1"
	}
	return a.n.Sealed(a.n.Priv.Bytes()), kt
}

// one makes one call and says whether a work was accepted.
func (a *args) one(api server.Api, maySetKey bool) (name string, call func() bool) {
	t := a.t
	switch t.Weighted(5, 6, 2, 1, 1, 1) {
	case 0:
		id, kt, w := a.text(), a.keyType(), a.wrappers()
		return fmt.Sprintf("KeyGen(%.20q, %q, %d keys %s)", id, kt, len(w), brief(w)), func() bool { return api.KeyGen(id, kt, w) == nil }
	case 1:
		r, w := a.request(), a.wrappers()
		return fmt.Sprintf("KeySign(%.200s, %d keys %s)", content(r), len(w), brief(w)), func() bool { return api.KeySign(r, w) == nil }
	case 2:
		if maySetKey {
			k, kt := a.key()
			return fmt.Sprintf("SetPrivKey(%.60q, %q)", k, kt), func() bool { api.SetPrivKey(k, kt); return false }
		}
		fallthrough
	case 3:
		b := t.Bool()
		return fmt.Sprintf("SetSisuReady(%v)", b), func() bool { api.SetSisuReady(b); return false }
	case 4:
		h := int64(t.Seed())
		return fmt.Sprintf("BlockEnd(%d)", h), func() bool { api.BlockEnd(h); return false }
	}
	s := a.text()
	return "Ping", func() bool { api.Ping(s); return false }
}

func brief(ws []types.PubKeyWrapper) (s string) {
	for _, w := range ws {
		s += fmt.Sprintf("%s:%d:%.4x ", w.KeyType, len(w.Key), w.Key)
	}
	return
}

// calls makes generated calls, some at the same time; it stops after max accepted works.
func (a *args) calls(api server.Api, count, max int, maySetKey bool) (accepted int) {
	t := a.t
	for count > 0 && accepted < max {
		k := 1 + t.Weighted(5, 2, 1)
		count -= k
		oks := make([]bool, k)
		wg := &sync.WaitGroup{}
		what := ""
		for i := 0; i < k; i++ {
			name, f := a.one(api, maySetKey)
			what += name + "; "
			wg.Add(1)
			go func(i int) { defer wg.Done(); oks[i] = f() }(i)
		}
		t.Note("%s", what)
		t.WithLimit(60*time.Second, "call-stuck", "a call of "+what, wg.Wait)
		for _, ok := range oks {
			if ok {
				accepted++
			}
		}
	}
	return
}

// FuzzPair: hostile calls to one of two connected nodes; afterwards both serve a proper request.
func FuzzPair(t *pbt.T) {
	d := sim.DrawDealt(t, 2, utils.GetThreshold(2))
	net := NewNet(t, d.C)
	for i, x := range net.Nodes {
		if err := x.DB().SaveEdKeygen(ed, "dealt", d.C.Pids(), d.Ed(0).Copy(i)); err != nil {
			panic(err)
		}
		if t.Bool() {
			if err := x.DB().SaveEcKeygen(ec, "dealt", d.C.Pids(), d.Ec(0).Copy(i)); err != nil {
				panic(err)
			}
		}
	}
	net.Up(t)
	k := t.Int(0, 1)
	a := &args{t: t, good: net.Wrappers([]int{0, 1}), n: net.Nodes[k]}
	max := 1
	if t.Prob(1, 6) {
		max = 3
	}
	accepted := a.calls(net.Nodes[k].Api, t.Int(4, 30), max, true)
	for _, x := range net.Nodes {
		x.Api.SetSisuReady(true)
	}
	// The works that cannot succeed should be over before.
	t.Wait(70*time.Second, func() bool {
		ks, ss := net.Nodes[k].Sink.All()
		return len(ks)+len(ss) >= accepted
	})
	time.Sleep(t.Limit(50 * time.Millisecond))
	serves(t, net, sim.EdPub(d.Ed(0).Data[0].EDDSAPub))
	if accepted > 0 {
		t.Label("accepted")
	}
	t.NonTrivial()
}

// serves sends a proper request to all nodes until it has been signed (the nodes may still be busy with
// works that cannot succeed).
func serves(t *pbt.T, net *Net, pub []byte) {
	end := time.Now().Add(260 * time.Second) // (a work that only one node runs ends after three minutes)
	for try := 0; ; try++ {
		q := &types.KeysignRequest{KeyType: ed, KeysignMessages: []*types.KeysignMessage{{Id: fmt.Sprint("proper", try), BytesToSign: []byte("a proper message")}}}
		errs := make([]error, len(net.Nodes))
		t.WithLimit(30*time.Second, "call-stuck", "a proper request", func() {
			net.all(func(i int, n *Node) { errs[i] = n.Api.KeySign(phost.CloneReq(q), net.Wrappers([]int{0, 1})) })
		})
		for i, e := range errs {
			if e != nil {
				t.Failf("refused", "after hostile calls n%d refuses a proper request: %v", i, e)
			}
		}
		t.StopIfFailed()
		find := func(n *Node) *types.KeysignResult {
			_, ss := n.Sink.All()
			for _, r := range ss {
				if r.Request != nil && content(r.Request) == content(q) {
					return r
				}
			}
			return nil
		}
		if !t.Wait(time.Until(end), func() bool { return find(net.Nodes[0]) != nil && find(net.Nodes[1]) != nil }) {
			t.Stuckf("not-served", "after hostile calls a proper request gets no result (try %d)", try)
			t.StopIfFailed()
		}
		good := 0
		for i, n := range net.Nodes {
			if r := find(n); r.Outcome == types.OutcomeSuccess {
				if err := sim.CheckSigned(true, pub, [][]byte{[]byte("a proper message")}, r); err != nil {
					t.Failf("false-success", "n%d: %v", i, err)
				}
				good++
			}
		}
		if good == len(net.Nodes) {
			return
		}
		if time.Now().After(end) || try > 5 {
			t.Stuckf("not-served", "after hostile calls a proper request fails on %d of 2 nodes (try %d)", 2-good, try)
			t.StopIfFailed()
		}
	}
}

// FuzzAlone: hostile calls, in any order, to a service that may not be started, keyed or ready, and to the
// single-node service.
func FuzzAlone(t *pbt.T) {
	r := t.Rand()
	own := pnet.NewAddr(r, t.Prob(1, 3))
	n := NewNode(r, own, 0, nil)
	a := &args{t: t, n: n, good: []types.PubKeyWrapper{{KeyType: own.Priv.Type(), Key: own.Priv.PubKey().Bytes()}}}
	for i := t.Int(0, 2); i > 0; i-- {
		o := pnet.NewAddr(r, t.Bool())
		a.good = append(a.good, types.PubKeyWrapper{KeyType: o.Priv.Type(), Key: o.Priv.PubKey().Bytes()})
	}
	if t.Prob(1, 4) {
		sink := &phost.Sink{}
		api := server.GetApi(config.HeartConfig{UseOnMemory: true}, sink)
		t.Note("single node")
		a.calls(api, t.Int(3, 25), 1000, true)
		// Late results still have to come without a crash.
		t.WithLimit(20*time.Second, "call-stuck", "a keygen", func() {
			if err := api.KeyGen("last", ed, nil); err != nil {
				t.Failf("refused", "after hostile calls a keygen is refused: %v", err)
			}
		})
		t.Eventually(20*time.Second, "not-served", "the last keygen has a result", func() bool {
			ks, _ := sink.All()
			return len(ks) > 0 && ks[len(ks)-1].KeyType == ed
		})
		t.NonTrivial()
		return
	}
	if t.Prob(1, 4) { // a strange configuration
		n.cfg.Connection.Peers = append(n.cfg.Connection.Peers, pnet.NewAddr(r, false).Peer())
		p := n.cfg.Connection.Peers[0]
		switch t.Int(0, 6) {
		case 0:
			p.Address = a.text()
		case 1:
			p.Address = "/ip4/127.0.0.1/tcp/1"
		case 2:
			p.Address = "/ip4/127.0.0.1/tcp/1/p2p/Qmfoo"
		case 3:
			p.PubKey = a.text()
		case 4:
			p.PubKeyType = a.text()
		case 5:
			p.PubKey = hex.EncodeToString(t.Bulk(t.Int(0, 40)))
		case 6:
			n.cfg.Connection.Host = a.text()
		}
		if !bad(p.Address) && n.cfg.Connection.Host == own.Host {
			n.cfg.Connection.Peers[0].Address = "nonsense" // a peer that cannot be reached would be waited for
		}
		n.reconfigure()
		t.Note("configured peer %+v, host %q", *p, n.cfg.Connection.Host)
	}
	t.Cleanup(n.Close)
	api := server.Api(n.Api)
	if t.Prob(1, 4) {
		a.calls(api, t.Int(1, 6), 100, true)
		t.Note("before it was started")
	}
	api.Init()
	if t.Prob(2, 3) {
		if t.Bool() {
			api.SetSisuReady(true)
		}
		t.WithLimit(60*time.Second, "set-key-stuck", "SetPrivKey", func() { n.SetKey() })
	}
	a.calls(api, t.Int(3, 25), 8, true)
	time.Sleep(time.Duration(t.Int(0, 3)*20) * time.Millisecond)
	t.WithLimit(30*time.Second, "call-stuck", "the last calls", func() {
		api.SetSisuReady(true)
		api.SetPrivKey(n.Sealed(own.Priv.Bytes()), own.Priv.Type())
		api.Ping("x")
		if n.Api.Version() == "" {
			t.Failf("version", "no version")
		}
	})
	t.NonTrivial()
}

func bad(addr string) bool { return len(addr) < 60 }

// FuzzRPC: malformed and hostile JSON-RPC requests to the real server.
func FuzzRPC(t *pbt.T) {
	r := t.Rand()
	own := pnet.NewAddr(r, false)
	n := NewNode(r, own, 0, nil)
	t.Cleanup(n.Close)
	a := &args{t: t, n: n, good: []types.PubKeyWrapper{{KeyType: own.Priv.Type(), Key: own.Priv.PubKey().Bytes()}}}
	var api server.Api = n.Api
	single := t.Prob(1, 3)
	if single {
		api = server.GetApi(config.HeartConfig{UseOnMemory: true}, n.Sink)
	} else {
		api.Init()
	}
	h := rpc.NewServer()
	if err := h.RegisterName("tss", api); err != nil {
		panic(err)
	}
	port := pnet.NewPort()
	go server.NewServer(h, own.Host, uint16(port)).Run()
	url := fmt.Sprintf("http://%s:%d", own.Host, port)
	t.Cleanup(h.Stop)
	t.Eventually(10*time.Second, "server-down", "the server listens", func() bool {
		c, err := net.Dial("tcp", url[7:])
		if err == nil {
			c.Close()
		}
		return err == nil
	})
	t.StopIfFailed()
	cl := &http.Client{Timeout: t.Limit(40 * time.Second)}
	post := func(body string) (string, error) {
		resp, err := cl.Post(url, "application/json", bytes.NewReader([]byte(body)))
		if err != nil {
			return "", err
		}
		defer resp.Body.Close()
		bz, err := io.ReadAll(resp.Body)
		return string(bz), err
	}
	if !single && t.Bool() {
		post(rpcBody("tss_setSisuReady", true))
		post(rpcBody("tss_setPrivKey", n.Sealed(own.Priv.Bytes()), own.Priv.Type()))
	}
	for k := t.Int(3, 20); k > 0; k-- {
		body := a.rpc()
		t.Note("%.300s", body)
		got, err := post(body)
		if err != nil {
			t.Stuckf("no-answer", "no answer to %.300s: %v", body, err)
			t.StopIfFailed()
		}
		if bytes.Contains([]byte(got), []byte("method handler crashed")) {
			t.Failf("handler-crash", "the handler of %.300s crashed: %.300s", body, got)
		}
	}
	what := "tss_version"
	if single {
		what = "tss_blockEnd"
	}
	arg := []interface{}{}
	if single {
		arg = append(arg, 3)
	}
	got, err := post(rpcBody(what, arg...))
	var ans struct{ Result, Error interface{} }
	if err != nil || json.Unmarshal([]byte(got), &ans) != nil || ans.Error != nil {
		t.Stuckf("not-served", "after hostile requests %s is answered with %.300q, %v", what, got, err)
	}
	t.NonTrivial()
}

func rpcBody(method string, params ...interface{}) string {
	if params == nil {
		params = []interface{}{}
	}
	bz, _ := json.Marshal(map[string]interface{}{"jsonrpc": "2.0", "id": 1, "method": method, "params": params})
	return string(bz)
}

// rpc draws the body of one request.
func (a *args) rpc() string {
	t := a.t
	var method string
	var params []interface{}
	switch t.Weighted(5, 6, 2, 1, 1, 1, 1) {
	case 0:
		method, params = "tss_keyGen", []interface{}{a.text(), a.keyType(), a.wrappers()}
	case 1:
		method, params = "tss_keySign", []interface{}{a.request(), a.wrappers()}
	case 2:
		k, kt := a.key()
		if kt == "secp256k1" { // (a different good key is as good as any)
			kt = "rsa"
		}
		method, params = "tss_setPrivKey", []interface{}{k, kt}
	case 3:
		method, params = "tss_setSisuReady", []interface{}{t.Bool()}
	case 4:
		method, params = "tss_blockEnd", []interface{}{int64(t.Int(-5, 5))}
	case 5:
		method, params = "tss_ping", []interface{}{a.text()}
	case 6:
		method, params = t.OneOf("tss_version", "tss_init2", "tss_", "", "rpc_modules", "eth_call"), nil
	}
	for i := range params {
		if t.Prob(1, 8) {
			params[i] = a.junk(0)
		}
	}
	if t.Prob(1, 12) {
		params = params[:t.Int(0, len(params))]
	}
	if t.Prob(1, 12) {
		params = append(params, a.junk(0))
	}
	body := rpcBody(method, params...)
	switch t.Weighted(12, 1, 1, 1) {
	case 1:
		b := []byte(body)
		b[t.Int(0, len(b)-1)] = byte(t.Int(0, 255))
		body = string(b)
	case 2:
		body = body[:t.Int(0, len(body))]
	case 3:
		body = "[" + body + "," + body + "]"
	}
	return body
}

func (a *args) junk(depth int) interface{} {
	t := a.t
	switch k := t.Int(0, 8); {
	case k == 0:
		return nil
	case k == 1:
		return t.Int(-1000, 1000)
	case k == 2:
		return a.text()
	case k == 3:
		return 1e300
	case k == 4 && depth < 3:
		return []interface{}{a.junk(depth + 1), a.junk(depth + 1)}
	case k == 5 && depth < 3:
		return map[string]interface{}{t.OneOf("KeyType", "KeysignMessages", "Key", "x"): a.junk(depth + 1)}
	case k == 6:
		return []interface{}{map[string]interface{}{"KeyType": "ed25519", "Key": base64.StdEncoding.EncodeToString(t.Bulk(t.Int(0, 40)))}, nil}
	case k == 7:
		return map[string]interface{}{"KeyType": "eddsa", "KeysignMessages": []interface{}{nil, map[string]interface{}{"BytesToSign": nil}}}
	}
	return true
}
