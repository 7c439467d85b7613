package sim

import (
	"sort"
	"sync/atomic"
	"time"

	"github.com/sisu-network/dheart/core/config"

	"dverif/pbt"
)

// ScaledDefaults are the service's default time limits divided by div.
func ScaledDefaults(t *pbt.T, div int) config.TimeoutConfig {
	d := config.NewDefaultTimeoutConfig()
	f := func(x time.Duration) time.Duration { return t.Limit(x / time.Duration(div)) }
	return config.TimeoutConfig{
		PresignJobTimeout: f(d.PresignJobTimeout), KeygenJobTimeout: f(d.KeygenJobTimeout), SigningJobTimeout: f(d.SigningJobTimeout),
		MonitorMessageTimeout: f(d.MonitorMessageTimeout), SelectionLeaderTimeout: f(d.SelectionLeaderTimeout), SelectionMemberTimeout: f(d.SelectionMemberTimeout),
	}
}

// Quorum: some parties are offline, or have never been asked, from the beginning.
func Quorum(p Proto, div int) func(*pbt.T) {
	return func(t *pbt.T) {
		n := 2 + t.Weighted(1, 4, 2)
		threshold := t.Int(1, n-1)
		if p == EcSigningP {
			n, threshold = 3, 1
		}
		s := drawScene(t, p, n, threshold, 0)
		c := s.d.C
		leader := t.Int(0, n-1)
		var w *Work
		if p.keygen() {
			w = &Work{Ed: p == EdKeygenP, Keygen: true, Threshold: threshold}
		} else {
			w = DrawSigning(t, s.d, 0, p == EdSigning)
		}
		w.ID = c.LedBy(WorkID(t, 0), leader)
		s.works = []*Work{w}
		online := t.Subset(n, t.Int(1, n))
		if p == EcSigningP { // expensive: the interesting case only
			online = []int{leader, (leader + t.Int(1, n-1)) % n}
		} else if !has(online, leader) && t.Prob(3, 4) {
			online[0] = leader
		}
		sort.Ints(online)
		if p == EcPresigned {
			set := online
			if len(set) < threshold+1 || t.Prob(1, 3) {
				// A set that may have offline parties: then it cannot be used (and the work needs the whole protocol).
				set = t.Subset(n, t.Int(threshold+1, n))
			}
			usable := true
			for _, i := range set {
				usable = usable && has(online, i)
			}
			if !usable && len(online) > threshold && has(online, leader) && t.Prob(4, 5) {
				set, usable = online, true
			}
			s.ss = append(s.ss, w.AddPresigns(t, c, set))
			t.Note("presigns of %v", set)
		}
		// Times are relative to the limits.
		cfg := ScaledDefaults(t, div)
		gap := cfg.SelectionMemberTimeout - cfg.SelectionLeaderTimeout
		after := map[int]time.Duration{}
		for _, i := range online {
			after[i] = 0
		}
		shift := t.Int(0, 3)
		switch {
		case shift == 1 && gap > 0: // the leader starts later than the others
			after[leader] = gap * time.Duration(t.Int(1, 50)) / 100
			t.Note("the leader starts %v later", after[leader])
		case shift == 2: // members start later, still before the leader gives up
			for _, i := range online {
				if i != leader {
					after[i] = cfg.SelectionLeaderTimeout * time.Duration(t.Int(0, 50)) / 100
				}
			}
			t.Note("starts: %v", after)
		}
		// Sending to a node that is away can take as long as the attempt to connect to it.
		hang := time.Duration(0)
		if t.Prob(1, 3) {
			hang = t.Limit(20 * time.Second / time.Duration(div))
			t.Label("hanging sends")
		}
		gone := map[int]bool{}
		s.start(cfg, func(m *Msg) Action {
			s.cl.Net.mu.Lock()
			defer s.cl.Net.mu.Unlock()
			if gone[m.To] {
				return Action{Slow: hang, Err: true}
			}
			return Action{}
		})
		var silent []int
		for i := 0; i < n; i++ {
			if !has(online, i) {
				if t.Bool() {
					s.cl.Net.SetOffline(i, true)
					s.cl.Net.mu.Lock()
					gone[i] = true
					s.cl.Net.mu.Unlock()
				} else {
					silent = append(silent, i)
				}
			}
		}
		t.Note("%s among %d nodes; n%d leads; online %v (never asked: %v); limits %v and %v", w, n, leader, online, silent, cfg.SelectionLeaderTimeout, cfg.SelectionMemberTimeout)
		good := has(online, leader) && len(online) >= threshold+1
		if p.keygen() {
			good = len(online) == n
		}
		if !good && has(online, leader) && len(online) > 1 && t.Bool() {
			// A member repeats its answer all the time.
			t.Label("repeated answers")
			stop := make(chan struct{})
			defer close(stop)
			go s.repeatAnswers(w, leader, cfg.SelectionLeaderTimeout/4, stop)
		}
		s.cl.Run(s.starts(online, func(i int) time.Duration { return after[i] }), (cfg.SelectionMemberTimeout+gap+20*time.Second)/time.Duration(t.Limit(1)))
		if good {
			s.mustSucceed("quorum", 0, online)
			if len(online) < n {
				t.NonTrivial()
				t.Label("success without all")
			} else {
				t.Label("success with all")
			}
			return
		}
		for _, i := range online {
			os := s.cl.OutcomesOf(w, i)
			if len(os) == 0 {
				t.Stuckf("quorum-no-outcome", "n%d has reported nothing", i)
			}
			if len(os) != 1 || os[0].Kind != "failed" {
				t.Failf("quorum-outcome", "n%d reported %s although only %v are online (leader n%d)", i, os[0], online, leader)
			}
			begin := after[i]
			if has(online, leader) {
				begin = after[leader]
			}
			if at := os[0].At.Sub(s.begin) - begin; at < cfg.SelectionLeaderTimeout-20*time.Millisecond {
				t.Failf("quorum-early", "n%d gave up %v after the leader's start, the leader waits for %v", i, at, cfg.SelectionLeaderTimeout)
			} else if i == leader && at > cfg.SelectionLeaderTimeout*13/10+100*time.Millisecond {
				t.Stuckf("quorum-late", "the leader gave up after %v, its limit is %v", at, cfg.SelectionLeaderTimeout)
			}
			if at := os[0].At.Sub(s.begin) - after[i]; at > cfg.SelectionMemberTimeout*13/10+100*time.Millisecond {
				t.Stuckf("quorum-late", "n%d gave up after %v, its limit is %v", i, at, cfg.SelectionMemberTimeout)
			}
		}
		t.NonTrivial()
		t.Label("failure without a quorum")
		s.cl.Idle(10*time.Second, "slot-not-freed", online...)
	}
}

// repeatAnswers sends the answers to the leader again and again.
func (s *scene) repeatAnswers(w *Work, leader int, every time.Duration, stop chan struct{}) {
	for {
		select {
		case <-stop:
			return
		case <-time.After(every):
		}
		sent := map[int]bool{}
		for _, m := range s.cl.Net.Log() {
			if m.To == leader && m.Kind == "response" && m.WorkID == w.ID && !sent[m.From] {
				sent[m.From] = true
				s.cl.Net.Deliver(m.From, leader, m.Data, 0)
			}
		}
	}
}

// HungPeer: sends to one node do not return for a long time. Meanwhile the others take new requests as the
// service does (the nodes of the committee first), and carry them out.
func HungPeer(t *pbt.T) {
	n := t.Int(3, 4)
	threshold := t.Int(1, n-2)
	s := drawScene(t, EdSigning, n, threshold, 0)
	c := s.d.C
	x := t.Int(0, n-1)
	var others []int
	for i := 0; i < n; i++ {
		if i != x {
			others = append(others, i)
		}
	}
	for k := 0; k < 2; k++ {
		w := DrawSigning(t, s.d, k, true)
		w.ID = c.LedBy(WorkID(t, k), others[t.Int(0, len(others)-1)])
		s.works = append(s.works, w)
		t.Note("work %s among %d nodes, n%d leads", w, n, c.LeaderOf(w.ID))
	}
	t.Note("sends to n%d hang", x)
	cfg := ScaledDefaults(t, 15)
	hang := t.Limit(40 * time.Second)
	hung := make(chan int, 1000)
	s.start(cfg, func(m *Msg) Action {
		if m.To == x {
			select {
			case hung <- m.From:
			default:
			}
			return Action{Drop: true, Slow: hang}
		}
		return Action{}
	})
	for _, i := range others {
		if err := s.cl.Nodes[i].Engine.AddRequest(s.works[0].Request(c, i)); err != nil {
			t.Failf("request-refused", "AddRequest: %v", err)
		}
	}
	select {
	case i := <-hung:
		t.Note("n%d sends to n%d", i, x)
	case <-time.After(t.Limit(5 * time.Second)):
		t.Stuckf("no-send", "no node has sent anything to n%d", x)
		return
	}
	if t.Bool() {
		time.Sleep(time.Duration(t.Int(0, 60)) * time.Millisecond)
	}
	done := make(chan error, n)
	for _, i := range others {
		go func(i int) {
			e := s.cl.Nodes[i].Engine
			e.AddNodes(c.Nodes())
			done <- e.AddRequest(s.works[1].Request(c, i))
		}(i)
	}
	t.WithLimit(4*time.Second, "call-stuck", "a request while a send to another node hangs", func() {
		for range others {
			if err := <-done; err != nil {
				t.Record("request-refused", "AddRequest: %v", err)
			}
		}
	})
	t.StopIfFailed()
	t.Wait((cfg.SelectionMemberTimeout+10*time.Second)/time.Duration(t.Limit(1)), func() bool {
		for _, w := range s.works {
			for _, i := range others {
				if !s.cl.Reported(w, i) {
					return false
				}
			}
		}
		return true
	})
	s.mustSucceed("hung-peer", 0, others)
	t.NonTrivial()
}

// Retry: a work fails for want of a quorum, or since the messages of a node do not get out. Once every node is
// free again and everybody can be reached it is asked for again, under the same id, and succeeds.
func Retry(p Proto) func(*pbt.T) {
	return func(t *pbt.T) {
		n := 2 + t.Weighted(2, 4, 1)
		threshold := t.Int(1, n-1)
		s := drawScene(t, p, n, threshold, 0)
		c := s.d.C
		leader := t.Int(0, n-1)
		var w *Work
		if p.keygen() {
			w = &Work{Ed: true, Keygen: true, Threshold: threshold}
		} else {
			w = DrawSigning(t, s.d, 0, p == EdSigning)
		}
		w.ID = c.LedBy(WorkID(t, 0), leader)
		s.works = []*Work{w}
		if p == EcPresigned {
			s.ss = append(s.ss, w.AddPresigns(t, c, seq(n)))
		}
		cfg := ScaledDefaults(t, 15)
		cfg.MonitorMessageTimeout = t.Limit(20 * time.Second)
		cfg.SigningJobTimeout, cfg.KeygenJobTimeout = t.Limit(5*time.Second), t.Limit(5*time.Second)
		asked := seq(n)
		cut, from := -1, ""
		if p != EcPresigned && t.Bool() {
			cut = t.Int(0, n-1)
			kinds := w.Kinds()
			if w.Keygen { // nobody can finish it
				kinds = kinds[:1]
			}
			from = kinds[t.Choose(uint64(len(kinds)))]
			t.Note("nothing of n%d gets out from its %s on", cut, from)
		} else {
			k := threshold
			if w.Keygen {
				k = n - 1
			}
			asked = t.Subset(n, t.Int(1, k))
			sort.Ints(asked)
			t.Note("only %v can be reached", asked)
		}
		t.Note("%s among %d nodes, n%d leads; limits %v and %v", w, n, leader, cfg.SelectionLeaderTimeout, cfg.SelectionMemberTimeout)
		s.start(cfg, func(m *Msg) Action { return Action{Drop: m.From == cut && m.Kind >= from && IsUpdate(m.Kind)} })
		for i := 0; i < n; i++ {
			s.cl.Net.SetOffline(i, !has(asked, i))
		}
		limit := (cfg.SelectionMemberTimeout + cfg.SigningJobTimeout + cfg.KeygenJobTimeout + 20*time.Second) / time.Duration(t.Limit(1))
		none := func(int) time.Duration { return 0 }
		s.cl.Run(s.starts(asked, none), limit)
		failed := 0
		for _, i := range asked {
			os := s.cl.OutcomesOf(w, i)
			if len(os) != 1 {
				t.Stuckf("retry-first-outcomes", "n%d reported %d outcomes of the first attempt", i, len(os))
				return
			}
			if os[0].Kind == "failed" {
				failed++
			}
			if late := os[0].At.Sub(s.begin) >= cfg.SelectionMemberTimeout-30*time.Millisecond; late && cut < 0 && has(asked, leader) {
				t.Label("the leader's word came late")
				return
			}
		}
		if failed == 0 { // the one that cannot send has not been selected
			t.Label("first attempt succeeded")
		} else {
			t.NonTrivial()
			t.Label("first attempt failed")
		}
		s.cl.checkResults(s.signWorks())
		s.cl.Idle(10*time.Second, "slot-not-freed", asked...)
		s.cl.AllHandled(10*time.Second, "not-handled")
		// What belongs to the first attempt has arrived, or is lost.
		if !s.settled(w, leader, asked) {
			t.Label("the leader's word is missing")
			return
		}
		attempts := 1
		if !w.Keygen && p != EcPresigned && t.Prob(1, 3) {
			attempts = 2
		}
		if w.Keygen && failed == 0 {
			return
		}
		s.cl.Net.SetDecide(nil)
		for i := 0; i < n; i++ {
			s.cl.Net.SetOffline(i, false)
		}
		for a := 0; a < attempts; a++ {
			time.Sleep(20 * time.Millisecond)
			s.cl.Forget()
			after := map[int]time.Duration{}
			if t.Bool() {
				for i := 0; i < n; i++ {
					after[i] = time.Duration(t.Int(0, 60)) * time.Millisecond
				}
			}
			t.Note("all are asked again, after %v", after)
			s.begin = time.Now()
			s.cl.Run(s.starts(seq(n), func(i int) time.Duration { return after[i] }), limit)
			s.mustSucceed("retry", 0, seq(n))
			s.cl.Idle(10*time.Second, "slot-not-freed", seq(n)...)
			s.cl.AllHandled(10*time.Second, "not-handled")
			if !s.settled(w, leader, seq(n)) {
				return
			}
		}
	}
}

// settled waits until the leader has told everybody of its selection and nothing is under way any more.
func (s *scene) settled(w *Work, leader int, asked []int) bool {
	calm := func() bool { return atomic.LoadInt64(&s.cl.Net.Flying) == 0 }
	if !has(asked, leader) {
		return s.t.Wait(5*time.Second, calm)
	}
	from := s.begin
	return s.t.Wait(5*time.Second, func() bool {
		told := 0
		for _, m := range s.cl.Net.Log() {
			if m.From == leader && m.Kind == "selection" && m.WorkID == w.ID && !m.At.Before(from) {
				told++
			}
		}
		return told >= len(s.cl.C.Members)-1 && calm()
	})
}

// StaleSelection is the known finding stale-selection: a node that was not asked for the first attempt of a work
// has kept the leader's word that this attempt failed, and takes it as the leader's word on the next one.
func StaleSelection(t *pbt.T) {
	s := drawScene(t, EdKeygenP, 2, 1, 0)
	w := &Work{Ed: true, Keygen: true, Threshold: 1, ID: s.d.C.LedBy("keygen", 0)}
	s.works = []*Work{w}
	cfg := Generous(t)
	cfg.SelectionLeaderTimeout = t.Limit(time.Second)
	s.start(cfg, nil)
	none := func(int) time.Duration { return 0 }
	s.cl.Run(s.starts([]int{0}, none), 20*time.Second)
	if os := s.cl.OutcomesOf(w, 0); len(os) != 1 || os[0].Kind != "failed" {
		t.Stuckf("first-attempt", "n0 reported %v although n1 does not take part", os)
		return
	}
	s.cl.Idle(10*time.Second, "slot-not-freed", 0)
	s.cl.AllHandled(10*time.Second, "not-handled")
	if !s.settled(w, 0, []int{0}) {
		return
	}
	s.cl.Forget()
	s.begin = time.Now()
	s.cl.Run(s.starts(seq(2), none), 40*time.Second)
	s.mustSucceed("stale-selection", 0, seq(2))
}
