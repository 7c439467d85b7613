package sim

import (
	"fmt"
	"time"

	"github.com/sisu-network/dheart/core/config"
	htypes "github.com/sisu-network/dheart/types"

	"dverif/pbt"
)

// Proto is one of the protocols a work can run.
type Proto int

const (
	EdSigning Proto = iota
	EcPresigned
	EdKeygenP
	EcSigningP
	EcKeygenP
)

func (p Proto) keygen() bool { return p == EdKeygenP || p == EcKeygenP }

func (p Proto) String() string {
	return []string{"EdDSA signing", "ECDSA signing from presigns", "EdDSA keygen", "ECDSA signing", "ECDSA keygen"}[p]
}

// scene is a committee with works that all have to succeed.
type scene struct {
	t         *pbt.T
	n         int
	threshold int
	d         *Dealt
	works     []*Work
	ss        setups
	kinds     []string
	cl        *Cluster
	begin     time.Time
}

func drawScene(t *pbt.T, p Proto, n, threshold, nw int) *scene {
	s := &scene{t: t, n: n, threshold: threshold}
	s.d = DrawDealt(t, n, threshold)
	for i := 0; i < nw; i++ {
		var w *Work
		switch p {
		case EdKeygenP, EcKeygenP:
			w = &Work{ID: WorkID(t, i), Ed: p == EdKeygenP, Keygen: true, Threshold: threshold}
		case EdSigning:
			w = DrawSigning(t, s.d, i, true)
		case EcSigningP:
			w = DrawSigning(t, s.d, i, false)
		case EcPresigned:
			w = DrawSigning(t, s.d, i, false)
			s.ss = append(s.ss, w.AddPresigns(t, s.d.C, seq(n)))
		}
		s.works = append(s.works, w)
		s.kinds = append(s.kinds, w.Kinds()...)
		t.Note("work %s among %d nodes", w, n)
	}
	return s
}

func (s *scene) start(cfg config.TimeoutConfig, decide func(*Msg) Action) {
	s.cl = NewCluster(s.t, s.d.C, cfg, s.ss.apply)
	s.cl.Net.SetDecide(decide)
	s.begin = time.Now()
}

// mustSucceed is the oracle: every asked node reports success or, for signings only, that it was not
// selected, and enough nodes succeed. early is the time before which a failure cannot come from a time limit.
func (s *scene) mustSucceed(sig string, early time.Duration, nodes []int) {
	t := s.t
	for _, w := range s.works {
		success := 0
		for _, i := range nodes {
			os := s.cl.OutcomesOf(w, i)
			if len(os) != 1 {
				for _, o := range os {
					t.Note("%s", o)
				}
				if len(os) > 1 {
					t.Failf(sig+"-twice", "n%d reported %d outcomes of %s", i, len(os), w)
				}
				t.Stuckf(sig+"-no-result", "n%d has not reported any outcome of %s after %v", i, w, time.Since(s.begin))
			}
			o := os[0]
			switch {
			case o.Kind == "failed":
				msg := fmt.Sprintf("n%d reported that %s failed, after %v", i, w, o.At.Sub(s.begin))
				if o.At.Sub(s.begin) < early {
					t.Failf(sig+"-failed", "%s", msg)
				}
				t.Stuckf(sig+"-failed-late", "%s", msg)
			case o.Kind == "keygen" && o.Keygen.Outcome == htypes.OutcomeSuccess,
				o.Kind == "sign" && o.Sign.Outcome == htypes.OutcomeSuccess:
				success++
			case o.Kind == "sign" && o.Sign.Outcome == htypes.OutcometNotSelected:
			default:
				t.Failf(sig+"-outcome", "n%d reported %s for %s", i, o, w)
			}
		}
		if want := s.threshold + 1; success < want {
			t.Failf(sig+"-few", "only %d nodes succeeded with %s", success, w)
		}
	}
	s.cl.checkResults(s.signWorks())
	for _, w := range s.works {
		if w.Keygen {
			s.cl.checkKeygen(w, s.threshold, nodes, true)
		}
	}
}

func (s *scene) signWorks() []*Work {
	var out []*Work
	for _, w := range s.works {
		if !w.Keygen {
			out = append(out, w)
		}
	}
	return out
}

func (s *scene) starts(nodes []int, after func(i int) time.Duration) []Start {
	var out []Start
	for _, w := range s.works {
		for _, i := range nodes {
			out = append(out, Start{w, i, after(i)})
		}
	}
	return out
}

func drawSize(t *pbt.T, p Proto) (n, threshold int) {
	switch p {
	case EcPresigned:
		n = t.Int(2, 6)
	case EcKeygenP, EcSigningP:
		n = 2 + t.Weighted(5, 1)
	default:
		n = 2 + t.Weighted(3, 4, 1)
	}
	return n, t.Int(1, n-1)
}

// Survive: all honest and online; messages are reordered, delayed, duplicated, sends return slowly.
func Survive(p Proto) func(*pbt.T) {
	return func(t *pbt.T) {
		n, threshold := drawSize(t, p)
		nw := 1
		if p == EdSigning { // (two leaders could choose the same presigns, and then one work has to fail)
			nw = t.Int(1, 3)
		}
		s := drawScene(t, p, n, threshold, nw)
		faults := DrawFaults(t, n, FaultSpec{Dup: true, Delay: true, Slow: true, MaxDelay: 400 * time.Millisecond, Kinds: append(s.kinds, SelKinds...), Max: 4})
		cfg := Generous(t)
		if t.Bool() {
			cfg.MonitorMessageTimeout = t.Limit(150 * time.Millisecond)
			t.Label("asking for messages")
		}
		s.start(cfg, Decider(s.d.C, faults, time.Duration(t.Int(0, 60))*time.Millisecond, t.Seed()))
		if t.Prob(1, 3) {
			s.cl.drawSlowDB(t, 300)
		}
		late := t.Perm(n)
		ok := s.cl.Run(s.starts(seq(n), func(i int) time.Duration { return time.Duration(late[i]*t.Int(0, 8)*10) * time.Millisecond }), 60*time.Second)
		_ = ok
		s.mustSucceed("honest", 10*time.Second, seq(n))
		if len(faults) > 0 {
			t.NonTrivial()
		}
		t.Label("%s", p)
		s.cl.AllHandled(10*time.Second, "handler-stuck")
		s.cl.Idle(10*time.Second, "slot-not-freed", seq(n)...)
	}
}

// SlowSends: send calls return only after a while although the message arrives at once. A node must not
// let the messages for some nodes wait for the send calls to others: the work's time limit is long enough for
// one slow call per round, but not for one per round and node.
func SlowSends(t *pbt.T) {
	n := t.Int(5, 6)
	s := drawScene(t, EdSigning, n, n-1, 1)
	s.works[0].Msgs = s.works[0].Msgs[:1]
	d := t.Limit(time.Duration(t.Int(400, 600)) * time.Millisecond)
	from := t.Int(-1, n-1)
	if from >= 0 && t.Bool() {
		from = -1
	}
	cfg := Generous(t)
	cfg.MonitorMessageTimeout = t.Limit(10 * time.Minute)
	cfg.SigningJobTimeout = 6*d + t.Limit(1500*time.Millisecond)
	t.Note("send calls of n%d (-1: all) return after %v, time limit of the work %v", from, d, cfg.SigningJobTimeout)
	s.start(cfg, func(m *Msg) Action {
		if from < 0 || m.From == from {
			return Action{Slow: d}
		}
		return Action{}
	})
	s.cl.Run(s.starts(seq(n), func(int) time.Duration { return 0 }), 60*time.Second)
	s.mustSucceed("slow-sends", 0, seq(n))
	t.NonTrivial()
	t.Label("slow nodes: %s", map[bool]string{true: "all", false: "one"}[from < 0])
}

// OneSlow: the send calls of one node return slowly, so that its result is ready while its last messages
// still wait to be sent. They have to be sent all the same: nobody else holds them.
func OneSlow(t *pbt.T) {
	p := []Proto{EdKeygenP, EdKeygenP, EcPresigned, EdSigning}[t.Choose(4)]
	n := t.Int(3, 4)
	s := drawScene(t, p, n, t.Int(1, n-1), 1)
	slow := t.Int(0, n-1)
	kinds := map[string]bool{}
	for _, k := range s.kinds {
		if t.Bool() {
			kinds[k] = true
		}
	}
	d := time.Duration(t.Int(20, 500)) * time.Millisecond
	cfg := Generous(t)
	if t.Bool() {
		cfg.MonitorMessageTimeout = t.Limit(150 * time.Millisecond)
	}
	t.Note("the send calls of n%d return after %v for %v", slow, d, kinds)
	s.start(cfg, func(m *Msg) Action {
		if m.From == slow && kinds[m.Kind] {
			return Action{Slow: d}
		}
		return Action{}
	})
	s.cl.Run(s.starts(seq(n), func(int) time.Duration { return 0 }), 60*time.Second)
	s.mustSucceed("one-slow", 10*time.Second, seq(n))
	if len(kinds) > 0 {
		t.NonTrivial()
	}
	t.Label("%s", p)
}

// Recover: protocol messages are lost on some links (the first one or two transmissions of a message);
// asking and answering works.
func Recover(p Proto) func(*pbt.T) {
	return func(t *pbt.T) {
		n, threshold := drawSize(t, p)
		s := drawScene(t, p, n, threshold, 1)
		s.recover(t, n)
	}
}

func (s *scene) recover(t *pbt.T, n int) {
	type loss struct {
		from, to int
		kind     string
		times    int
		all      bool // the link never carries this broadcast message: it has to come from another node
	}
	var losses []*loss
	k := t.Int(1, 4)
	if len(s.kinds) >= 4 {
		k = t.Int(2, len(s.kinds)) // ECDSA cases are few: lose more in each
	}
	for i := 0; i < k; i++ {
		l := &loss{from: t.Int(-1, n-1), to: t.Int(-1, n-1), kind: s.kinds[t.Choose(uint64(len(s.kinds)))], times: t.Int(1, 2)}
		losses = append(losses, l)
		t.Note("the first %d transmissions of %s from n%d to n%d are lost", l.times, l.kind, l.from, l.to)
	}
	// One broadcast message may have to come from another node that holds it. That node must not lose it itself.
	var relay *loss
	if n >= 3 && s.threshold == n-1 && t.Prob(1, 3) {
		relay = &loss{from: t.Int(0, n-1), kind: s.kinds[t.Choose(uint64(len(s.kinds)))], all: true}
		relay.to = (relay.from + t.Int(1, n-1)) % n
		t.Note("%s never gets from n%d to n%d directly", relay.kind, relay.from, relay.to)
	}
	cfg := Generous(t)
	cfg.MonitorMessageTimeout = t.Limit(150 * time.Millisecond)
	lost := map[string]bool{}
	s.start(cfg, func(m *Msg) Action {
		if !IsUpdate(m.Kind) || m.Signed == nil || m.Origin != s.d.C.Members[m.From].ID() {
			return Action{}
		}
		if relay != nil && m.Kind == relay.kind && m.Signed.TssMessage.IsBroadcast() {
			if m.From == relay.from && m.To == relay.to {
				s.t.Label("another node has to answer")
				return Action{Drop: true}
			}
			if m.From == relay.from {
				return Action{}
			}
		}
		for _, l := range losses {
			if (l.from < 0 || l.from == m.From) && (l.to < 0 || l.to == m.To) && l.kind == m.Kind && m.Nth <= l.times {
				s.cl.Net.mu.Lock()
				lost[m.Kind] = true
				s.cl.Net.mu.Unlock()
				return Action{Drop: true}
			}
		}
		return Action{}
	})
	s.cl.Run(s.starts(seq(n), func(int) time.Duration { return 0 }), 60*time.Second)
	s.mustSucceed("lost-messages", 10*time.Second, seq(n))
	s.cl.Net.mu.Lock()
	defer s.cl.Net.mu.Unlock()
	for k := range lost {
		t.NonTrivial()
		t.Label("lost %s", k)
	}
}

// LeadingZero is the known finding eddsa-leading-zero: the protocol library takes the message as a
// number, so that the signing of a message that begins with a zero byte fails.
func LeadingZero(t *pbt.T) {
	d := getDealt(3, 1, false, 0)
	w := &Work{ID: "zero", Ed: true, Threshold: 1, Msgs: [][]byte{{0, 7, 9}}, EdKey: d.Ed(0)}
	w.Pub = EdPub(w.EdKey.Data[0].EDDSAPub)
	cl := NewCluster(t, d.C, Generous(t), nil)
	var starts []Start
	for i := 0; i < 3; i++ {
		starts = append(starts, Start{w, i, 0})
	}
	cl.Run(starts, 30*time.Second)
	failed := 0
	for i := 0; i < 3; i++ {
		for _, o := range cl.Nodes[i].Of(w.ID) {
			if o.Kind == "failed" {
				failed++
			}
		}
	}
	if failed >= 2 {
		t.Failf("eddsa-leading-zero", "%d of 3 honest, connected nodes report the signing of 000709 as failed", failed)
	}
}

// ZeroMessage is the known finding ecdsa-zero-message: the protocol library does not sign the number zero.
func ZeroMessage(t *pbt.T) {
	d := getDealt(3, 1, false, 0)
	w := &Work{ID: "zero", Threshold: 1, Msgs: [][]byte{make([]byte, 32)}, EcKey: d.Ec(0), Presigns: true}
	w.Pub = EcPub(w.EcKey.Data[0].ECDSAPub)
	cl := NewCluster(t, d.C, Generous(t), setups{w.AddPresigns(t, d.C, seq(3))}.apply)
	var starts []Start
	for i := 0; i < 3; i++ {
		starts = append(starts, Start{w, i, 0})
	}
	cl.Run(starts, 30*time.Second)
	failed := 0
	for i := 0; i < 3; i++ {
		for _, o := range cl.Nodes[i].Of(w.ID) {
			if o.Kind == "failed" {
				failed++
			}
		}
	}
	if failed >= 2 {
		t.Failf("ecdsa-zero-message", "%d of 3 honest, connected nodes report the signing of 32 zero bytes as failed", failed)
	}
}
