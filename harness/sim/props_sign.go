package sim

import (
	"fmt"
	"time"

	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/db"
	htypes "github.com/sisu-network/dheart/types"

	"dverif/pbt"
)

// Plan starts works on nodes at times.
type Start struct {
	Work  *Work
	Node  int
	After time.Duration
}

// Run asks the nodes for the works and returns when all have reported or the limit has passed.
func (cl *Cluster) Run(starts []Start, limit time.Duration) bool {
	t := cl.T
	begin := time.Now()
	errs := make(chan error, len(starts))
	// With more works than slots the nodes must get them in the same order: otherwise every node may fill
	// its slots with works that wait for the others.
	works := map[*Work]bool{}
	for _, s := range starts {
		works[s.Work] = true
	}
	add := func(s Start) {
		err := cl.Nodes[s.Node].Engine.AddRequest(s.Work.Request(cl.C, s.Node))
		if err != nil {
			err = fmt.Errorf("n%d: %v", s.Node, err)
		}
		errs <- err
	}
	if len(works) > 2 {
		byNode := map[int][]Start{}
		for _, s := range starts {
			byNode[s.Node] = append(byNode[s.Node], s)
		}
		for _, list := range byNode {
			go func(list []Start) {
				for _, s := range list {
					time.Sleep(time.Until(begin.Add(s.After)))
					add(s)
				}
			}(list)
		}
	} else {
		for _, s := range starts {
			go func(s Start) {
				time.Sleep(s.After)
				add(s)
			}(s)
		}
	}
	for range starts {
		select {
		case err := <-errs:
			if err != nil {
				t.Failf("request-refused", "AddRequest: %v", err)
			}
		case <-time.After(t.Limit(limit)):
			t.Stuckf("request-stuck", "AddRequest did not return within %v", t.Limit(limit))
		}
	}
	return t.Wait(limit-time.Since(begin)/time.Duration(t.Limit(1)), func() bool {
		for _, s := range starts {
			if !cl.Reported(s.Work, s.Node) {
				return false
			}
		}
		return true
	})
}

// Reported tells whether a node has an outcome of a work.
func (cl *Cluster) Reported(w *Work, node int) bool { return len(cl.OutcomesOf(w, node)) > 0 }

// OutcomesOf lists the outcomes of a work; keygen results are matched by key type.
func (cl *Cluster) OutcomesOf(w *Work, node int) []*Outcome {
	var out []*Outcome
	for _, o := range cl.Nodes[node].Outcomes() {
		if o.WorkID == w.ID || (w.Keygen && o.Kind == "keygen" && (o.Keygen.KeyType == "eddsa") == w.Ed) {
			out = append(out, o)
		}
	}
	return out
}

// checkResults is the oracle of C01 over everything that was reported.
func (cl *Cluster) checkResults(works []*Work) (successes int) {
	t := cl.T
	byID := map[string]*Work{}
	for _, w := range works {
		byID[w.ID] = w
	}
	first := map[string]*Outcome{}
	for _, s := range cl.Nodes {
		for _, o := range s.Outcomes() {
			t.Note("%s", o)
			if o.Kind != "sign" || o.Sign.Outcome != htypes.OutcomeSuccess {
				if o.Kind == "sign" && len(o.Sign.Signatures) > 0 {
					t.Failf("signatures-without-success", "%s", o)
				}
				continue
			}
			w := byID[o.WorkID]
			if w == nil || w.Keygen {
				t.Failf("result-of-unknown-work", "%s", o)
			}
			if err := CheckSigned(w.Ed, w.Pub, w.Msgs, o.Sign); err != nil {
				t.Failf("invalid-signature", "%s: %v", o, err)
			}
			successes++
			if f := first[o.WorkID]; f == nil {
				first[o.WorkID] = o
			} else if fmt.Sprintf("%x", f.Sign.Signatures) != fmt.Sprintf("%x", o.Sign.Signatures) {
				t.Failf("different-signatures", "%s: n%d has %x, n%d has %x", o.WorkID, f.Node, f.Sign.Signatures, o.Node, o.Sign.Signatures)
			}
		}
	}
	return successes
}

// dealSetup fills databases.
type setups []func(int, db.Database)

func (s setups) apply(i int, d db.Database) {
	for _, f := range s {
		f(i, d)
	}
}

// SignFaulty: signings under arbitrary faults, one dishonest member included. Whatever is reported as
// a success must be right.
func signValid(t *pbt.T, ed bool, presigns bool) {
	n := 2 + t.Weighted(3, 3, 1)
	threshold := t.Int(1, n-1)
	dl := DrawDealt(t, n, threshold)
	c := dl.C
	nw := 1
	if ed || presigns {
		nw = t.Int(1, 2)
	}
	var works []*Work
	var kinds []string
	var ss setups
	for i := 0; i < nw; i++ {
		w := DrawSigning(t, dl, i, ed)
		if presigns {
			ss = append(ss, w.AddPresigns(t, c, t.Subset(n, t.Int(threshold+1, n))))
		}
		works = append(works, w)
		kinds = append(kinds, w.Kinds()...)
		t.Note("work %s", w)
	}
	kinds = append(kinds, SelKinds...)
	faults := DrawFaults(t, n, FaultSpec{Drop: true, Dup: true, Delay: true, Slow: true, Err: true, Mutate: true, MaxDelay: 300 * time.Millisecond, Kinds: kinds, Max: 3})
	cfg := FaultyLimits(t)
	if !ed {
		cfg.SigningJobTimeout = t.Limit(8 * time.Second)
		if presigns {
			cfg.SigningJobTimeout = t.Limit(2500 * time.Millisecond)
		}
		cfg.SelectionLeaderTimeout = t.Limit(300 * time.Millisecond)
	}
	cl := NewCluster(t, c, cfg, ss.apply)
	cl.Net.SetDecide(Decider(c, faults, time.Duration(t.Int(0, 20))*time.Millisecond, t.Seed()))
	var starts []Start
	for _, w := range works {
		for i := 0; i < n; i++ {
			starts = append(starts, Start{w, i, time.Duration(t.Int(0, 3)*10) * time.Millisecond})
		}
	}
	cl.Run(starts, 15*time.Second)
	if cl.checkResults(works) > 0 {
		t.NonTrivial()
		if len(faults) > 0 {
			t.Label("success with faults")
		}
		if ed {
			t.Label("EdDSA success")
		} else if presigns {
			t.Label("ECDSA success from presigns")
		} else {
			t.Label("ECDSA success")
		}
	} else {
		t.Label("no success")
	}
}

func SignValidEd(t *pbt.T)      { signValid(t, true, false) }
func SignValidEc(t *pbt.T)      { signValid(t, false, false) }
func SignValidPresign(t *pbt.T) { signValid(t, false, true) }

// healthySign: no faults; everything succeeds, with odd messages.
func healthySign(t *pbt.T, ed, presigns bool, cfg config.TimeoutConfig) {
	n := 2 + t.Weighted(3, 3, 1)
	threshold := n - 1
	dl := DrawDealt(t, n, threshold)
	c := dl.C
	w := DrawSigning(t, dl, 0, ed)
	var ss setups
	if presigns {
		ss = append(ss, w.AddPresigns(t, c, seq(n)))
	}
	t.Note("work %s", w)
	cl := NewCluster(t, c, cfg, ss.apply)
	var starts []Start
	for i := 0; i < n; i++ {
		starts = append(starts, Start{w, i, 0})
	}
	if !cl.Run(starts, 60*time.Second) {
		t.Stuckf("no-result", "not every node reported the result of %s", w)
	}
	if s := cl.checkResults([]*Work{w}); s != n {
		t.Stuckf("healthy-failed", "only %d of %d nodes succeeded", s, n)
	}
	t.NonTrivial()
	if presigns {
		for _, m := range cl.Net.Log() {
			if IsUpdate(m.Kind) && m.Kind != "SignRound7Message" {
				t.Label("presigns not used")
				return
			}
		}
		t.Label("presigns used")
	}
}

func HealthyEd(t *pbt.T)      { healthySign(t, true, false, Generous(t)) }
func HealthyEc(t *pbt.T)      { healthySign(t, false, false, Generous(t)) }
func HealthyPresign(t *pbt.T) { healthySign(t, false, true, Generous(t)) }
