package sim

import (
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/sisu-network/dheart/db"
	htypes "github.com/sisu-network/dheart/types"
	wtypes "github.com/sisu-network/dheart/worker/types"
	"github.com/sisu-network/tss-lib/tss"

	"dverif/pbt"
)

// oddity changes a request in a way a caller could get wrong. The request may be refused or accepted.
type oddity struct {
	name string
	do   func(t *pbt.T, c *Committee, me int, r *wtypes.WorkRequest)
}

var oddities = []oddity{
	{"no key", func(t *pbt.T, c *Committee, me int, r *wtypes.WorkRequest) {
		r.EcKeygenInput, r.EcSigningInput, r.EdSigningInput = nil, nil, nil
	}},
	{"threshold too high", func(t *pbt.T, c *Committee, me int, r *wtypes.WorkRequest) {
		r.Threshold = len(c.Members) + t.Int(0, 3)
	}},
	{"negative threshold", func(t *pbt.T, c *Committee, me int, r *wtypes.WorkRequest) { r.Threshold = -1 - t.Int(0, 3) }},
	{"threshold zero", func(t *pbt.T, c *Committee, me int, r *wtypes.WorkRequest) { r.Threshold = 0 }},
	{"without this node", func(t *pbt.T, c *Committee, me int, r *wtypes.WorkRequest) {
		r.AllParties = without(r.AllParties, c.Members[me].ID())
	}},
	{"without another node", func(t *pbt.T, c *Committee, me int, r *wtypes.WorkRequest) {
		r.AllParties = without(r.AllParties, c.Members[t.Int(0, len(c.Members)-1)].ID())
	}},
	{"key of another committee", func(t *pbt.T, c *Committee, me int, r *wtypes.WorkRequest) {
		rnd := t.Rand()
		o := NewCommittee(rnd, len(c.Members), false)
		if r.EdSigningInput != nil {
			r.EdSigningInput = o.DealEd(rnd, 1).Copy(0)
		}
		if r.EcSigningInput != nil {
			r.EcSigningInput = o.DealEc(rnd, 1).Copy(0)
		}
	}},
	{"key of another size", func(t *pbt.T, c *Committee, me int, r *wtypes.WorkRequest) {
		rnd := t.Rand()
		o := NewCommittee(rnd, len(c.Members)+1, false)
		if r.EdSigningInput != nil {
			r.EdSigningInput = o.DealEd(rnd, 1).Copy(0)
		}
		if r.EcSigningInput != nil {
			r.EcSigningInput = o.DealEc(rnd, 1).Copy(0)
		}
	}},
	{"an empty message", func(t *pbt.T, c *Committee, me int, r *wtypes.WorkRequest) {
		if len(r.Messages) > 0 {
			r.Messages[t.Int(0, len(r.Messages)-1)] = []byte{}
		}
	}},
	{"a nil message", func(t *pbt.T, c *Committee, me int, r *wtypes.WorkRequest) {
		if len(r.Messages) > 0 {
			r.Messages[t.Int(0, len(r.Messages)-1)] = nil
		}
	}},
	{"a message with a leading zero byte", func(t *pbt.T, c *Committee, me int, r *wtypes.WorkRequest) {
		if len(r.Messages) > 0 {
			r.Messages[0] = append([]byte{0}, r.Messages[0]...)
		}
	}},
	{"no messages", func(t *pbt.T, c *Committee, me int, r *wtypes.WorkRequest) {
		r.Messages, r.BatchSize = nil, 0
	}},
	{"no chains", func(t *pbt.T, c *Committee, me int, r *wtypes.WorkRequest) { r.Chains = nil }},
	{"a key without content", func(t *pbt.T, c *Committee, me int, r *wtypes.WorkRequest) {
		if r.EdSigningInput != nil {
			k := *r.EdSigningInput
			switch t.Int(0, 3) {
			case 0:
				k.Xi = nil
			case 1:
				k.EDDSAPub = nil
			case 2:
				k.Ks = nil
			case 3:
				k.BigXj = nil
			}
			r.EdSigningInput = &k
		}
		if r.EcSigningInput != nil {
			k := *r.EcSigningInput
			switch t.Int(0, 3) {
			case 0:
				k.Xi = nil
			case 1:
				k.ECDSAPub = nil
			case 2:
				k.Ks = nil
			case 3:
				k.PaillierPKs = nil
			}
			r.EcSigningInput = &k
		}
	}},
}

func without(ps []*tss.PartyID, id string) []*tss.PartyID {
	var out []*tss.PartyID
	for _, p := range ps {
		if p.Id != id {
			out = append(out, p)
		}
	}
	return out
}

// book counts the accepted requests and outcomes per node.
type book struct {
	mu       sync.Mutex
	accepted map[string]int // "node work"
	err      map[string]error
}

// Outcomes: everything can go wrong, and every accepted request still ends in one outcome.
func Outcomes(kind string) func(*pbt.T) {
	return func(t *pbt.T) {
		n := 1 + t.Weighted(1, 6, 8, 2)
		threshold := 0
		if n > 1 {
			threshold = t.Int(1, n-1)
		}
		d := DrawDealt(t, n, threshold)
		c := d.C
		var works []*Work
		var kinds []string
		var ss setups
		nw := 1 + t.Weighted(4, 3, 2, 1, 1)
		if kind == "ecdsa" {
			nw = 1
		}
		keygens := 0
		odd := map[string]oddity{}
		for i := 0; i < nw; i++ {
			var w *Work
			what := t.Weighted(6, 3, 2)
			if kind == "ecdsa" {
				what = 3 + t.Weighted(2, 1)
			}
			switch what {
			case 0:
				w = DrawSigning(t, d, i, true)
				if t.Prob(1, 6) {
					for k := t.Int(1, 5); k > 0; k-- {
						w.Msgs = append(w.Msgs, DrawMsgs(t, true, 1)...)
					}
				}
			case 1:
				w = DrawSigning(t, d, i, false)
				if n > 1 {
					fill := w.AddPresigns(t, c, t.Subset(n, t.Int(threshold+1, n)))
					if t.Prob(1, 5) { // a node has lost its presigns
						lost := t.Int(0, n-1)
						t.Note("n%d does not have the presigns of %s", lost, w.ID)
						all := fill
						fill = func(i int, d db.Database) {
							if i != lost {
								all(i, d)
							}
						}
					}
					ss = append(ss, fill)
				} else {
					w = DrawSigning(t, d, i, true)
				}
			case 2:
				w = &Work{ID: WorkID(t, i), Ed: true, Keygen: true, Threshold: threshold}
				keygens++
			case 3:
				w = DrawSigning(t, d, i, false)
			case 4:
				w = &Work{ID: WorkID(t, i), Keygen: true, Threshold: threshold}
				keygens++
			}
			w.ID = fmt.Sprintf("%s-%d", w.ID, i)
			works = append(works, w)
			kinds = append(kinds, w.Kinds()...)
			t.Note("work %s among %d nodes", w, n)
			for m := 0; m < n; m++ {
				if t.Prob(1, 8) {
					o := oddities[t.Choose(uint64(len(oddities)))]
					odd[fmt.Sprintf("%d %s", m, w.ID)] = o
					t.Note("n%d is asked with %s", m, o.name)
				}
			}
		}
		maxDelay := 300 * time.Millisecond
		hang := t.Prob(1, 4)
		if hang {
			maxDelay = t.Limit(6 * time.Second)
			t.Label("hanging sends")
		}
		faults := DrawFaults(t, n, FaultSpec{Drop: true, Dup: true, Delay: true, Slow: true, Err: true, Mutate: true, MaxDelay: maxDelay, Kinds: append(kinds, SelKinds...), Max: 4})
		cfg := FaultyLimits(t)
		if t.Prob(1, 4) { // the limits are equal or reversed
			cfg.SelectionMemberTimeout = cfg.SelectionLeaderTimeout
		}
		cl := NewCluster(t, c, cfg, ss.apply)
		cl.Net.SetDecide(Decider(c, faults, time.Duration(t.Int(0, 20))*time.Millisecond, t.Seed()))
		for i := 0; i < n; i++ {
			if t.Prob(1, 6) {
				cl.Net.SetOffline(i, true)
				t.Note("n%d is offline", i)
			}
		}
		dbFaults := t.Prob(1, 4) && cl.drawDBFaults(t, DBOps...)
		if dbFaults {
			t.Label("database failures")
		}
		// Requests, some twice, some of only some nodes.
		b := &book{accepted: map[string]int{}, err: map[string]error{}}
		wg := &sync.WaitGroup{}
		asked := 0
		for _, w := range works {
			for i := 0; i < n; i++ {
				if t.Prob(1, 10) {
					continue
				}
				times := 1
				if t.Prob(1, 6) {
					times = 2
				}
				for k := 0; k < times; k++ {
					key := fmt.Sprintf("%d %s", i, w.ID)
					r := w.Request(c, i)
					if o, ok := odd[key]; ok {
						o.do(t, c, i, r)
					}
					after := time.Duration(t.Int(0, 3)*10) * time.Millisecond
					if t.Prob(1, 6) {
						after = time.Duration(t.Int(0, 1500)) * time.Millisecond
					}
					asked++
					wg.Add(1)
					go func(i int) {
						defer wg.Done()
						time.Sleep(after)
						err := cl.Nodes[i].Engine.AddRequest(r)
						b.mu.Lock()
						if err == nil {
							b.accepted[key]++
						} else {
							b.err[key] = err
						}
						b.mu.Unlock()
					}(i)
				}
			}
		}
		begin := time.Now()
		t.WithLimit(20*time.Second, "request-stuck", "AddRequest", wg.Wait)
		for k, err := range b.err {
			t.Note("%s was refused: %v", k, err)
			if _, ok := odd[k]; !ok {
				t.Failf("refused", "the request %s was refused: %v", k, err)
			}
		}
		// A work takes at most the member's selection time and the job time.
		per := cfg.SelectionMemberTimeout + cfg.SigningJobTimeout
		if cfg.KeygenJobTimeout > cfg.SigningJobTimeout {
			per = cfg.SelectionMemberTimeout + cfg.KeygenJobTimeout
		}
		bound := time.Duration((asked/n+2)/2+1)*per/time.Duration(t.Limit(1)) + 5*time.Second
		missing := func() string {
			var out []string
			for key, k := range b.accepted {
				var i int
				var id string
				fmt.Sscanf(key, "%d", &i)
				id = key[strings.Index(key, " ")+1:]
				_ = k
				if w := byID(works, id); !w.Keygen && len(cl.Nodes[i].Of(id)) == 0 {
					out = append(out, fmt.Sprintf("n%d has reported nothing about %s", i, id))
				}
			}
			for i := 0; i < n; i++ {
				for _, ed := range []bool{true, false} {
					want, got := 0, 0
					for _, w := range works {
						if w.Keygen && w.Ed == ed {
							if b.accepted[fmt.Sprintf("%d %s", i, w.ID)] > 0 {
								want++
							}
							got += len(cl.Nodes[i].Of(w.ID))
						}
					}
					for _, o := range cl.Nodes[i].Outcomes() {
						if o.Kind == "keygen" && (o.Keygen.KeyType == "eddsa") == ed {
							got++
						}
					}
					if got < want {
						out = append(out, fmt.Sprintf("n%d has reported %d outcomes of %d key generations", i, got, want))
					}
				}
			}
			return strings.Join(out, "; ")
		}
		if !t.Wait(bound, func() bool { return missing() == "" }) {
			for _, s := range cl.Nodes {
				for _, o := range s.Outcomes() {
					t.Note("%v: %s", o.At.Sub(begin), o)
				}
			}
			t.Stuckf("no-outcome", "after %v: %s", time.Since(begin), missing())
		}
		settled := time.Since(begin)
		cl.Idle(10*time.Second, "slot-not-freed", seq(n)...)
		if t.Prob(1, 3) { // anything left running would report later
			time.Sleep(per + 300*time.Millisecond - minDur(settled, per))
			t.Label("waited past the limits")
		}
		for i := 0; i < n; i++ {
			kg, kgMax := 0, 0
			for _, w := range works {
				os := cl.Nodes[i].Of(w.ID)
				max := b.accepted[fmt.Sprintf("%d %s", i, w.ID)]
				if w.Keygen {
					kgMax += max
					kg += len(os)
				}
				if len(os) > max {
					for _, o := range os {
						t.Note("%s", o)
					}
					t.Failf("two-outcomes", "n%d reported %d outcomes of %s, which it accepted %d times", i, len(os), w, max)
				}
			}
			for _, o := range cl.Nodes[i].Outcomes() {
				if o.Kind == "keygen" {
					kg++
					if o.Keygen.Outcome != htypes.OutcomeSuccess {
						t.Failf("keygen-outcome", "%s", o)
					}
				} else if byID(works, o.WorkID) == nil {
					t.Failf("unknown-outcome", "%s", o)
				}
			}
			if kg > kgMax {
				t.Failf("two-outcomes", "n%d reported %d outcomes of %d key generations", i, kg, kgMax)
			}
		}
		for _, s := range cl.Nodes {
			for _, o := range s.Outcomes() {
				k := o.Kind
				if k == "sign" && o.Sign.Outcome == htypes.OutcometNotSelected {
					k = "not selected"
				}
				t.Label("%s", k)
			}
		}
		if len(faults) > 0 || len(odd) > 0 || dbFaults {
			t.NonTrivial()
		}
		for _, s := range cl.Nodes {
			for _, op := range DBOps {
				s.faulty.Fail(op, 0)
			}
		}
		// Later requests run.
		if n == 1 {
			return
		}
		cl.Net.SetDecide(nil)
		for i := 0; i < n; i++ {
			cl.Net.SetOffline(i, false)
		}
		cl.later(d, n, threshold)
	}
}

func byID(works []*Work, id string) *Work {
	for _, w := range works {
		if w.ID == id {
			return w
		}
	}
	return nil
}

func minDur(a, b time.Duration) time.Duration {
	if a < b {
		return a
	}
	return b
}

// later: a signing without any fault succeeds. It has short limits here, so it gets three chances.
func (cl *Cluster) later(d *Dealt, n, threshold int) {
	t := cl.T
	good := 0
	for try := 0; try < 3; try++ {
		last := DrawSigning(t, d, 99, true)
		last.ID = fmt.Sprintf("last-%s-%d", last.ID, try)
		var starts []Start
		for i := 0; i < n; i++ {
			starts = append(starts, Start{last, i, 0})
		}
		cl.Run(starts, 10*time.Second)
		good = 0
		for i := 0; i < n; i++ {
			for _, o := range cl.Nodes[i].Of(last.ID) {
				if o.Kind == "sign" && o.Sign.Outcome == htypes.OutcomeSuccess {
					good++
				}
			}
		}
		if good >= threshold+1 {
			return
		}
	}
	t.Stuckf("later-work", "after all this, three signings without any fault failed (%d nodes succeeded with the last one, threshold %d)", good, threshold)
}
