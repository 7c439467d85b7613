package sim

import (
	"bytes"
	"math/big"
	"sort"
	"sync/atomic"
	"time"

	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/worker"
	wtypes "github.com/sisu-network/dheart/worker/types"
	"github.com/sisu-network/tss-lib/crypto"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	"github.com/sisu-network/tss-lib/tss"

	"dverif/pbt"
)

// ReportedKey hands an engine the result of a key generation with a rare kind of public key; what the host is told
// has to be this key in its standard encoding.
func ReportedKey(t *pbt.T) {
	ed := t.Bool()
	r := t.Rand()
	n := t.Int(1, 4)
	c := NewCommittee(r, n, true)
	s := NewSolo(t, c, t.Int(0, n-1), Generous(t), nil)
	cb, ok := s.Node.Engine.(worker.WorkerCallback)
	if !ok {
		t.Discard()
	}
	scheme := tss.EcdsaScheme
	if ed {
		scheme = tss.EddsaScheme
	}
	ec := tss.EC(scheme)
	style := t.Int(0, 3)
	k := scalar(r, ec.Params().N)
	pub, one := crypto.ScalarBaseMult(ec, k), crypto.ScalarBaseMult(ec, big.NewInt(1))
	for i := 0; i < 6000; i++ {
		x, y := len(pub.X().Bytes()), len(pub.Y().Bytes())
		if style == 0 || style == 1 && x < 32 || style == 2 && y < 32 || style == 3 && pub.Y().Bytes()[y-1] == 0 {
			break
		}
		next, err := pub.Add(one)
		if err != nil {
			t.Discard()
		}
		pub = next
	}
	var want []byte
	pad := func(v *big.Int) []byte { return v.FillBytes(make([]byte, 32)) }
	keyType := "ecdsa"
	if ed {
		keyType = "eddsa"
		want = pad(pub.Y())
		for i, j := 0, 31; i < j; i, j = i+1, j-1 {
			want[i], want[j] = want[j], want[i]
		}
		want[31] |= byte(pub.X().Bit(0)) << 7
	} else {
		want = append(append([]byte{4}, pad(pub.X())...), pad(pub.Y())...)
	}
	t.Note("%s key %x, %x", keyType, pub.X(), pub.Y())
	w := &Work{ID: WorkID(t, 0), Ed: ed, Keygen: true, Threshold: 0}
	if n > 1 {
		w.Threshold = t.Int(1, n-1)
	}
	var request *wtypes.WorkRequest
	res := &worker.JobResult{Success: true}
	if ed {
		request = wtypes.NewEdKeygenRequest(w.ID, c.Pids(), w.Threshold)
		d := edkeygen.NewLocalPartySaveData(n)
		d.EDDSAPub = pub
		res.EdKeygen = &d
	} else {
		request = wtypes.NewEcKeygenRequest(keyType, w.ID, c.Pids(), w.Threshold, Preparams(0))
		d := eckeygen.NewLocalPartySaveData(n)
		d.ECDSAPub = pub
		res.EcKeygen = &d
	}
	result := &worker.WorkerResult{Success: true, IsNodeSelected: true, Request: request, SelectedPids: c.Pids(), JobResults: []*worker.JobResult{res}}
	t.WithLimit(20*time.Second, "result-stuck", "OnWorkerResult", func() { cb.OnWorkerResult(request, result) })
	os := s.Node.Outcomes()
	if len(os) != 1 || os[0].Kind != "keygen" || os[0].Keygen.Outcome != htypes.OutcomeSuccess {
		t.Failf("keygen-outcome", "the engine told the host %v", os)
	}
	if g := os[0].Keygen; g.KeyType != keyType || !bytes.Equal(g.PubKeyBytes, want) {
		t.Failf("reported-key", "the host was told the %s key %x, it is the %s key %x", g.KeyType, g.PubKeyBytes, keyType, want)
	}
	if style > 0 {
		t.NonTrivial()
		t.Label("%s style %d", keyType, style)
	}
}

// OneEntry: a member spoils some entries of its last message, and so the signatures of some of the messages of a
// batch. The others can be finished before or after that, but the batch as a whole has failed where it arrived.
func OneEntry(p Proto) func(*pbt.T) {
	return func(t *pbt.T) {
		n := t.Int(2, 3)
		s := drawScene(t, p, n, n-1, 0)
		c := s.d.C
		w := DrawSigning(t, s.d, 0, p == EdSigning)
		for i := 0; len(w.Msgs) < 2; i++ {
			if i > 50 {
				t.Discard()
			}
			w = DrawSigning(t, s.d, 0, p == EdSigning)
		}
		s.works = []*Work{w}
		if p == EcPresigned {
			s.ss = append(s.ss, w.AddPresigns(t, c, seq(n)))
		}
		bad := t.Int(0, n-1)
		ks := w.Kinds()
		last := ks[len(ks)-1]
		to := map[int]bool{}
		for i := 0; i < n; i++ {
			if i != bad && (len(to) == 0 || t.Bool()) {
				to[i] = true
			}
		}
		entries := t.Subset(len(w.Msgs), t.Int(1, len(w.Msgs)-1))
		sort.Ints(entries)
		t.Note("%s among %d nodes; n%d spoils the entries %v of %s to %v", w, n, bad, entries, last, to)
		var hit int32
		cfg := Generous(t)
		cfg.SigningJobTimeout = t.Limit(8 * time.Second)
		cfg.MonitorMessageTimeout = t.Limit(20 * time.Second)
		s.start(cfg, func(m *Msg) Action {
			if m.From != bad || !to[m.To] || m.Kind != last || m.Origin != c.Members[bad].ID() {
				return Action{}
			}
			x := CloneTss(m.Signed.TssMessage)
			for _, e := range entries {
				if e < len(x.UpdateMessages) && len(x.UpdateMessages[e].Data) > 0 {
					d := x.UpdateMessages[e].Data
					d[len(d)-1] ^= 1
				}
			}
			atomic.AddInt32(&hit, 1)
			return Action{Data: c.SignBytes(bad, x)}
		})
		none := func(int) time.Duration { return 0 }
		if !s.cl.Run(s.starts(seq(n), none), 25*time.Second) {
			t.Stuckf("no-outcome", "not every node has reported")
			return
		}
		s.cl.checkResults(s.works)
		for i := 0; i < n; i++ {
			os := s.cl.OutcomesOf(w, i)
			if len(os) != 1 {
				t.Failf("outcomes", "n%d reported %d outcomes of one request", i, len(os))
			}
			if to[i] && os[0].Kind == "sign" && atomic.LoadInt32(&hit) > 0 {
				t.Failf("spoilt-success", "n%d reported %s although it got spoilt entries", i, os[0])
			}
		}
		if atomic.LoadInt32(&hit) > 0 {
			t.NonTrivial()
			t.Label("%d of %d spoilt", len(entries), len(w.Msgs))
		} else {
			t.Label("not sent")
		}
	}
}
