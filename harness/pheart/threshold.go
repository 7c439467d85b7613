package pheart

import (
	"bytes"
	"fmt"
	"math/big"
	"time"

	"github.com/sisu-network/tss-lib/crypto"
	"github.com/sisu-network/tss-lib/tss"

	"github.com/sisu-network/dheart/types"

	"dverif/pbt"
	"dverif/phost"
	"dverif/sim"
)

// Quorum: a key generated through the services of n nodes can be used by any ceil(2n/3) of them and by no
// fewer: the degree of the stored shares, the number of signers of a request to all nodes, and requests that
// reach exactly a quorum or one node less.
func Quorum(t *pbt.T) {
	n := t.Int(2, 5)
	if t.Thorough && t.Prob(1, 6) {
		n = t.Int(6, 8)
	}
	kt := ed
	if n <= 3 && t.Prob(1, 12) {
		kt = ec
	}
	need := (2*n + 2) / 3 // ceil(2n/3)
	c := sim.NewCommittee(t.Rand(), n, t.Prob(1, 3))
	net := NewNet(t, c)
	net.Up(t)
	t.Note("%d nodes, %s, %d needed", n, kt, need)
	pub := net.Keygen(t, "k", kt)
	scheme := tss.EddsaScheme
	if kt == ec {
		scheme = tss.EcdsaScheme
	}
	order := tss.EC(scheme).Params().N
	var xs, ys []*big.Int
	for i, x := range net.Nodes {
		if kt == ed {
			s, err := x.DB().LoadEdKeygen(ed)
			if err != nil || s == nil || s.Xi == nil {
				t.Failf("no-share", "n%d has no share: %v", i, err)
				t.StopIfFailed()
			}
			xs, ys = append(xs, s.ShareID), append(ys, s.Xi)
		} else {
			s, err := x.DB().LoadEcKeygen(ec)
			if err != nil || s == nil || s.Xi == nil {
				t.Failf("no-share", "n%d has no share: %v", i, err)
				t.StopIfFailed()
			}
			xs, ys = append(xs, s.ShareID), append(ys, s.Xi)
		}
	}
	opens := func(idx []int) bool {
		var sx, sy []*big.Int
		for _, j := range idx {
			sx, sy = append(sx, xs[j]), append(sy, ys[j])
		}
		k := sim.Lagrange(sx, sy, order)
		if k.Sign() == 0 {
			return false
		}
		p := crypto.ScalarBaseMult(tss.EC(scheme), k)
		if kt == ed {
			return bytes.Equal(sim.EdPub(p), pub)
		}
		return bytes.Equal(sim.EcPub(p), pub)
	}
	if who := t.Subset(n, need); !opens(who) {
		t.Failf("too-many-needed", "the shares of %d of %d nodes %v do not make up the key", need, n, who)
	}
	if need > 1 {
		if who := t.Subset(n, need-1); opens(who) {
			t.Failf("too-few-needed", "the shares of only %d of %d nodes %v make up the key", need-1, n, who)
		}
	}
	t.StopIfFailed()
	sign := func(id string, who []int) int { return net.signBy(t, kt, pub, id, who) }
	all := make([]int, n)
	for i := range all {
		all[i] = i
	}
	if ok := sign("all", all); ok < need {
		t.Stuckf("few-signers", "a request to all %d nodes was signed by %d, %d are needed", n, ok, need)
	} else if ok != need {
		t.Note("%d nodes signed", ok)
	}
	t.StopIfFailed()
	if t.Prob(1, 4) && n > need {
		who := t.Subset(n, need)
		t.Label("exactly a quorum")
		// The leader has to be among them, otherwise nobody starts the work.
		id := ""
		for i := 0; ; i++ {
			id = fmt.Sprint("q", i)
			if has(who, LeaderOf(c, id)) {
				break
			}
		}
		if ok := sign(id, who); ok != need {
			t.Stuckf("quorum-failed", "a request to %d of %d nodes %v was signed by %d", need, n, who, ok)
		}
	}
	if t.Prob(1, 8) {
		t.Label("one less")
		if ok := sign("less", t.Subset(n, need-1)); ok != 0 {
			t.Failf("less-signed", "a request to %d of %d nodes was signed by %d", need-1, n, ok)
		}
	}
	t.NonTrivial()
}

func has(xs []int, x int) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// signBy makes a request to a set of nodes and returns how many of them report success.
func (net *Net) signBy(t *pbt.T, kt string, pub []byte, id string, who []int) int {
	n := len(net.Nodes)
	q := &types.KeysignRequest{KeyType: kt, KeysignMessages: []*types.KeysignMessage{{Id: id, BytesToSign: bytes.Repeat([]byte{7}, 32)}}}
	for _, i := range who {
		if err := net.Nodes[i].Api.KeySign(phost.CloneReq(q), net.Wrappers(t.Perm(n))); err != nil {
			t.Failf("refused", "n%d refuses a sign request: %v", i, err)
		}
	}
	t.StopIfFailed()
	results := func(i int) (out []*types.KeysignResult) {
		_, ss := net.Nodes[i].Sink.All()
		for _, r := range ss {
			if r.Request != nil && content(r.Request) == content(q) {
				out = append(out, r)
			}
		}
		return
	}
	if !t.Wait(60*time.Second, func() bool {
		for _, i := range who {
			if len(results(i)) == 0 {
				return false
			}
		}
		return true
	}) {
		t.Stuckf("no-result", "a request to %v has not been answered by all", who)
		t.StopIfFailed()
	}
	ok := 0
	for _, i := range who {
		if r := results(i)[0]; r.Outcome == types.OutcomeSuccess {
			ok++
			if err := sim.CheckSigned(kt == ed, pub, [][]byte{q.KeysignMessages[0].BytesToSign}, r); err != nil {
				t.Failf("false-success", "n%d: %v", i, err)
			}
		}
	}
	return ok
}

// Restarted: the services find their shares in their databases (as after a restart), and know the committee
// from their configuration only.
func Restarted(t *pbt.T) {
	n := []int{2, 4, 5, 3}[t.Weighted(4, 3, 1, 1)]
	kt := ec
	if t.Prob(1, 4) {
		kt = ed
	}
	need := (2*n + 2) / 3
	d := sim.DrawDealt(t, n, need-1)
	net := NewNet(t, d.C)
	pub := net.store(d, kt)
	net.Up(t)
	t.Note("%d nodes, %s, %d needed", n, kt, need)
	all := make([]int, n)
	for i := range all {
		all[i] = i
	}
	if ok := net.signBy(t, kt, pub, "first", all); ok < need {
		t.Stuckf("few-signers", "a request to all %d nodes after a restart was signed by %d, %d are needed", n, ok, need)
	}
	t.StopIfFailed()
	if kt == ed && t.Bool() {
		if ok := net.signBy(t, kt, pub, "less", t.Subset(n, need-1)); ok != 0 {
			t.Failf("less-signed", "a request to %d of %d nodes was signed by %d", need-1, n, ok)
		}
	}
	t.NonTrivial()
}

// store puts the shares of a dealt key into the databases.
func (net *Net) store(d *sim.Dealt, kt string) (pub []byte) {
	for i, x := range net.Nodes {
		var err error
		if kt == ed {
			k := d.Ed(0)
			pub = sim.EdPub(k.Data[0].EDDSAPub)
			err = x.DB().SaveEdKeygen(ed, "dealt", d.C.Pids(), k.Copy(i))
		} else {
			k := d.Ec(0)
			pub = sim.EcPub(k.Data[0].ECDSAPub)
			err = x.DB().SaveEcKeygen(ec, "dealt", d.C.Pids(), k.Copy(i))
		}
		if err != nil {
			panic(err)
		}
	}
	return
}

// TooEarly: requests that come before there is a key are refused, and do not stand in the way of the same
// requests afterwards.
func TooEarly(t *pbt.T) {
	n := t.Int(2, 3)
	kt := ed
	if t.Prob(1, 4) {
		n, kt = 2, ec
	}
	d := sim.DrawDealt(t, n, (2*n+2)/3-1)
	net := NewNet(t, d.C)
	net.Up(t)
	id := t.OneOf("a", "", "x y")
	q := &types.KeysignRequest{KeyType: kt, KeysignMessages: []*types.KeysignMessage{{Id: id, BytesToSign: bytes.Repeat([]byte{7}, 32)}}}
	for _, i := range t.Subset(n, t.Int(1, n)) {
		for k := t.Int(1, 2); k > 0; k-- {
			err := net.Nodes[i].Api.KeySign(phost.CloneReq(q), net.Wrappers(t.Perm(n)))
			t.Note("n%d without a key of type %s: %v", i, kt, err)
			if err == nil {
				t.Failf("accepted", "n%d accepts a sign request of type %s without a key", i, kt)
			}
		}
	}
	t.StopIfFailed()
	var pub []byte
	if kt == ed && t.Bool() {
		pub = net.Keygen(t, "k", kt)
	} else {
		pub = net.store(d, kt)
	}
	all := make([]int, n)
	for i := range all {
		all[i] = i
	}
	if ok := net.signBy(t, kt, pub, id, all); ok < (2*n+2)/3 {
		t.Stuckf("no-success", "a request to all %d nodes that was refused before there was a key succeeds on %d of them", n, ok)
	}
	time.Sleep(100 * time.Millisecond)
	for i, x := range net.Nodes {
		if _, ss := x.Sink.All(); len(ss) != 1 {
			t.Failf("too-many-results", "n%d posted %d results for one accepted request", i, len(ss))
		}
	}
	t.NonTrivial()
}
