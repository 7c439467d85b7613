package sim

import (
	"fmt"
	"math/big"
	"time"

	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/db"
	wtypes "github.com/sisu-network/dheart/worker/types"

	"dverif/pbt"
)

// Work is one signing or keygen that the nodes are asked to do.
type Work struct {
	ID        string
	Ed        bool
	Keygen    bool
	Threshold int
	Msgs      [][]byte
	Chains    []string // of the messages, "eth" if there is none
	EdKey     *EdKey
	EcKey     *EcKey
	Pub       []byte
	Presigns  bool
	BadMsg    bool // has a message that the protocol library cannot sign (leading zero byte, EdDSA)
}

func (w *Work) String() string {
	s := "EdDSA"
	if !w.Ed {
		s = "ECDSA"
	}
	if w.Keygen {
		return fmt.Sprintf("%s keygen %q threshold %d", s, w.ID, w.Threshold)
	}
	return fmt.Sprintf("%s signing %q threshold %d of %x presigns=%v", s, w.ID, w.Threshold, w.Msgs, w.Presigns)
}

// Request is what the host of member i asks for.
func (w *Work) Request(c *Committee, i int) *wtypes.WorkRequest {
	pids := c.Pids()
	chains := make([]string, len(w.Msgs))
	for j := range chains {
		chains[j] = "eth"
		if j < len(w.Chains) {
			chains[j] = w.Chains[j]
		}
	}
	msgs := make([][]byte, len(w.Msgs))
	for j := range msgs {
		msgs[j] = append([]byte{}, w.Msgs[j]...)
	}
	switch {
	case w.Keygen && w.Ed:
		return wtypes.NewEdKeygenRequest(w.ID, pids, w.Threshold)
	case w.Keygen:
		return wtypes.NewEcKeygenRequest("ecdsa", w.ID, pids, w.Threshold, Preparams(i))
	case w.Ed:
		return wtypes.NewEdSigningRequest(w.ID, pids, w.Threshold, msgs, chains, w.EdKey.Copy(i))
	}
	return wtypes.NewEcSigningRequest(w.ID, pids, w.Threshold, msgs, chains, w.EcKey.Copy(i))
}

func (w *Work) Kinds() []string {
	switch {
	case w.Keygen && w.Ed:
		return EdKeygenKinds
	case w.Keygen:
		return EcKeygenKinds
	case w.Ed:
		return EdSignKinds
	case w.Presigns:
		return []string{"SignRound7Message"}
	}
	return EcSignKinds
}

// WorkID draws a work id.
func WorkID(t *pbt.T, i int) string {
	return fmt.Sprintf("w%d%s-%d", i, t.OneOf("", "", "__", ",", "é"), t.Int(0, 999))
}

// DrawMsgs draws 1..max messages to sign.
func DrawMsgs(t *pbt.T, ed bool, max int) [][]byte {
	k := 1 + t.Weighted(6, 2, 1, 1)
	if k > max {
		k = max
	}
	out := make([][]byte, k)
	for i := range out {
		if ed {
			out[i] = t.Bulk(t.Int(1, 80))
			if out[i][0] == 0 { // see the known finding of C07
				out[i][0] = 1
			}
			continue
		}
		n := 32
		if t.Prob(1, 8) {
			n = t.Int(1, 64)
		}
		out[i] = t.Bulk(n)
		if t.Prob(1, 6) {
			out[i][0] = 0
		}
		if t.Prob(1, 16) { // as large as it can be
			for j := range out[i] {
				out[i][j] = 0xff
			}
		}
		if new(big.Int).SetBytes(out[i]).Sign() == 0 {
			out[i][n-1] = 1
		}
	}
	for i := 1; i < k && t.Prob(1, 4); i++ {
		j := t.Int(0, i-1)
		if m := append([]byte{}, out[j]...); len(m) > 1 && t.Bool() { // the same but for the end
			m[len(m)-1] ^= 2
			if new(big.Int).SetBytes(m).Sign() == 0 {
				m[len(m)-1] = 1
			}
			out[i] = m
		} else { // the same message again
			out[i] = m
		}
	}
	return out
}

// DrawSigning draws a signing of up to four messages under a dealt key.
func DrawSigning(t *pbt.T, d *Dealt, idx int, ed bool) *Work {
	w := &Work{ID: WorkID(t, idx), Ed: ed, Threshold: d.Threshold, Msgs: DrawMsgs(t, ed, 4)}
	if ed && t.Prob(1, 16) { // a long list of messages
		for k := t.Int(1, 6); k > 0; k-- {
			w.Msgs = append(w.Msgs, DrawMsgs(t, ed, 1)...)
		}
	}
	if t.Prob(1, 4) {
		for range w.Msgs {
			w.Chains = append(w.Chains, t.OneOf("", "eth", "cardano-testnet", "ganache1", "bitcoin", "unknown"))
		}
	}
	k := t.Int(0, 1)
	if ed {
		w.EdKey = d.Ed(k)
		w.Pub = EdPub(w.EdKey.Data[0].EDDSAPub)
	} else {
		w.EcKey = d.Ec(k)
		w.Pub = EcPub(w.EcKey.Data[0].ECDSAPub)
	}
	return w
}

// AddPresigns prepares one presign per message for the given members; some get nonces that lead to
// signatures with leading zero bytes.
func (w *Work) AddPresigns(t *pbt.T, c *Committee, members []int) func(i int, d db.Database) {
	w.Presigns = true
	r := t.Rand()
	n := len(w.Msgs)
	data := map[int]presignList{}
	for j := 0; j < n; j++ {
		var k *big.Int
		switch t.Weighted(2, 1, 1) {
		case 0:
			k = scalar(r, ecN)
		case 1:
			k = GrindNonce(r, w.EcKey, w.Msgs[j], true)
			t.Label("r with a leading zero byte")
		case 2:
			k = GrindNonce(r, w.EcKey, w.Msgs[j], false)
			t.Label("s with a leading zero byte")
		}
		for i, p := range c.DealPresign(r, w.EcKey, members, k) {
			data[members[i]] = append(data[members[i]], p)
		}
	}
	pids := c.Pids()
	sel := pids[:0:0]
	for _, m := range members {
		sel = append(sel, pids[m])
	}
	return func(i int, d db.Database) {
		if len(data[i]) == 0 {
			return
		}
		if err := d.SavePresignData("presign-"+w.ID, sel, data[i]); err != nil {
			t.Failf("save-presign", "SavePresignData: %v", err)
		}
	}
}

// FaultyLimits are short: works that cannot finish fail soon.
func FaultyLimits(t *pbt.T) config.TimeoutConfig {
	return config.TimeoutConfig{
		PresignJobTimeout:      t.Limit(2500 * time.Millisecond),
		KeygenJobTimeout:       t.Limit(2500 * time.Millisecond),
		SigningJobTimeout:      t.Limit(2500 * time.Millisecond),
		MonitorMessageTimeout:  t.Limit(200 * time.Millisecond),
		SelectionLeaderTimeout: t.Limit(600 * time.Millisecond),
		SelectionMemberTimeout: t.Limit(1000 * time.Millisecond),
	}
}

func has(xs []int, x int) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}
