package sim

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/types/common"
	wtypes "github.com/sisu-network/dheart/worker/types"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"

	"dverif/pbt"
)

const slots = 2

func neverLimits(t *pbt.T) config.TimeoutConfig {
	d := 10 * time.Minute
	return config.TimeoutConfig{PresignJobTimeout: d, KeygenJobTimeout: d, SigningJobTimeout: d, MonitorMessageTimeout: d, SelectionLeaderTimeout: d, SelectionMemberTimeout: d}
}

// schedReq is a request whose execution never begins: the scripted leader decides how it ends.
func schedReq(c *Committee, id string, kind int) *wtypes.WorkRequest {
	pids := c.Pids()
	switch kind {
	case 0:
		return wtypes.NewEdKeygenRequest(id, pids, 1)
	case 1:
		return wtypes.NewEcKeygenRequest("ecdsa", id, pids, 1, &eckeygen.LocalPreParams{P: big.NewInt(1)})
	case 2:
		return wtypes.NewEdSigningRequest(id, pids, 1, [][]byte{{1, 2}}, []string{"c"}, &edkeygen.LocalPartySaveData{})
	}
	return wtypes.NewEcSigningRequest(id, pids, 1, [][]byte{{1, 2}}, []string{"c"}, &eckeygen.LocalPartySaveData{})
}

var schedKinds = []string{"EdDSA keygen", "ECDSA keygen", "EdDSA signing", "ECDSA signing"}

type schedWork struct {
	id    string
	kind  int
	begun int // how often it has been started
	done  int // how often it has ended
}

// EngineOrder drives one real engine: requests of all kinds are added while both slots are busy, works
// end in any order; the works that start, and when, are compared with a reference scheduler.
func EngineOrder(t *pbt.T) {
	n := t.Int(3, 5)
	c := getDealt(n, 1, false, t.Int(0, 3)).C
	me := t.Int(0, n-1)
	s := NewSolo(t, c, me, neverLimits(t), nil)
	var leaders []int
	for _, i := range s.Others() {
		leaders = append(leaders, i)
	}
	leaderOf := map[string]int{}
	all := map[string]*schedWork{}
	var running, queue []*schedWork // the model
	var order []string              // ids in the order of their start, model
	outcomes := 0
	ended := map[string]bool{} // the leader has already announced the end before the start
	endNow := func(w *schedWork) {
		w.done++
		outcomes++
	}
	var pump func()
	pump = func() {
		for len(running) < slots && len(queue) > 0 {
			w := queue[0]
			queue = queue[1:]
			if ended[w.id] {
				// It ends at once with the announcement that has come early.
				ended[w.id] = false
				endNow(w)
				continue
			}
			w.begun++
			order = append(order, w.id)
			running = append(running, w)
		}
	}
	settle := func(what string) {
		t.Eventually(10*time.Second, "schedule", what+": the engine runs exactly the works that should be running", func() bool {
			if s.Node.Engine.GetActiveWorkerCount() != len(running) {
				return false
			}
			if len(s.Node.Outcomes()) != outcomes {
				return false
			}
			return len(s.Sent("response", "")) == len(order)
		})
		var got []string
		for _, m := range s.Sent("response", "") {
			got = append(got, m.WorkID)
		}
		sortPairs(order, got)
		for i := range order {
			if got[i] != order[i] {
				t.Failf("schedule-order", "%s: works were started in the order %q, expected %q", what, got, order)
			}
		}
	}
	steps := t.Int(4, 22)
	for i := 0; i < steps; i++ {
		t.StopIfFailed()
		switch t.Weighted(6, 4, 2, 1) {
		case 0: // a new request
			l := leaders[t.Choose(uint64(len(leaders)))]
			w := &schedWork{id: c.LedBy(fmt.Sprintf("s%d-%d", i, t.Int(0, 99)), l), kind: t.Int(0, 3)}
			leaderOf[w.id] = l
			all[w.id] = w
			t.Note("add %s %s", schedKinds[w.kind], w.id)
			if err := s.Add(schedReq(c, w.id, w.kind)); err != nil {
				t.Failf("request-refused", "AddRequest: %v", err)
			}
			queue = enqueue(queue, w)
			pump()
			settle("after adding " + w.id)
		case 1: // a running work ends
			if len(running) == 0 {
				continue
			}
			k := t.Int(0, len(running)-1)
			w := running[k]
			running = append(append([]*schedWork{}, running[:k]...), running[k+1:]...)
			endNow(w)
			sel := w.kind >= 2 && t.Bool()
			t.Note("end %s (not selected: %v)", w.id, sel)
			s.Say(leaderOf[w.id], endMsg(c, me, leaderOf[w.id], w.id, sel))
			pump()
			settle("after the end of " + w.id)
			if len(queue) > 0 {
				t.NonTrivial()
			}
		case 2: // the same id again: waiting or running ones are not queued again
			var ids []string
			for id := range all {
				ids = append(ids, id)
			}
			if len(ids) == 0 {
				continue
			}
			sort.Strings(ids)
			w := all[ids[t.Choose(uint64(len(ids)))]]
			t.Note("add %s again", w.id)
			if err := s.Add(schedReq(c, w.id, w.kind)); err != nil {
				t.Failf("request-refused", "AddRequest of a known work: %v", err)
			}
			busy := false
			for _, x := range append(append([]*schedWork{}, running...), queue...) {
				busy = busy || x == w
			}
			if !busy {
				queue = enqueue(queue, w)
				pump()
				t.Label("a finished work again")
			} else {
				t.Label("a waiting or running work again")
			}
			settle("after adding " + w.id + " again")
		case 3: // the leader of a waiting work has already given up
			if len(queue) == 0 {
				continue
			}
			w := queue[t.Int(0, len(queue)-1)]
			if ended[w.id] {
				continue
			}
			ended[w.id] = true
			t.Note("the leader of waiting %s gives up", w.id)
			s.Say(leaderOf[w.id], endMsg(c, me, leaderOf[w.id], w.id, false))
			t.Label("ended before the start")
		}
	}
	for len(running) > 0 {
		w := running[0]
		running = running[1:]
		endNow(w)
		s.Say(leaderOf[w.id], endMsg(c, me, leaderOf[w.id], w.id, false))
		pump()
		settle("while draining")
	}
	for _, w := range all {
		got := len(s.Node.Of(w.id)) // keygens that fail carry their id, too
		if got != w.done {
			t.Failf("schedule-outcomes", "%s has %d outcomes, expected %d", w.id, got, w.done)
		}
	}
}

// sortPairs: two works that start in one step answer from routines of their own, so neighbours may be swapped.
func sortPairs(want, got []string) {
	if len(want) != len(got) {
		return
	}
	for i := 0; i+1 < len(want); i++ {
		if want[i] != got[i] && want[i] == got[i+1] && want[i+1] == got[i] {
			got[i], got[i+1] = got[i+1], got[i]
		}
	}
}

func enqueue(q []*schedWork, w *schedWork) []*schedWork {
	pos := len(q)
	if w.kind < 2 {
		for pos = 0; pos < len(q) && q[pos].kind < 2; pos++ {
		}
	}
	out := append([]*schedWork{}, q[:pos]...)
	out = append(out, w)
	return append(out, q[pos:]...)
}

// endMsg ends a work at the member me: by failure or by leaving it out.
func endMsg(c *Committee, me, leader int, id string, excluded bool) *common.TssMessage {
	if !excluded {
		return common.NewPreExecOutputMessage(c.Members[leader].ID(), "", id, false, nil, nil)
	}
	sel := []int{leader}
	for i := range c.Members {
		if i != me && i != leader && len(sel) < 2 {
			sel = append(sel, i)
		}
	}
	return common.NewPreExecOutputMessage(c.Members[leader].ID(), "", id, true, nil, c.PidsOf(sel))
}

// EngineSlots: many routines request works while others end them; no more than two run at once, none
// twice at the same time, all get done.
func EngineSlots(t *pbt.T) {
	n := t.Int(3, 4)
	c := getDealt(n, 1, false, t.Int(0, 3)).C
	me := t.Int(0, n-1)
	s := NewSolo(t, c, me, neverLimits(t), nil)
	var mu sync.Mutex
	active := map[string]bool{}
	maxActive := 0
	leaderOf := map[string]int{}
	r := t.Rand()
	maxHold := t.Int(0, 4)
	repeat := t.Prob(1, 3)
	var wg sync.WaitGroup
	s.Net.SetDecide(func(m *Msg) Action {
		if m.Kind != "response" {
			return Action{}
		}
		mu.Lock()
		if active[m.WorkID] {
			t.Record("slots-same-work", "%s is started while it is running", m.WorkID)
		}
		active[m.WorkID] = true
		if len(active) > maxActive {
			maxActive = len(active)
		}
		if len(active) > slots {
			t.Record("slots-exceeded", "%d works run at once: %v", len(active), active)
		}
		hold := time.Duration(r.Uint64()%uint64(maxHold*1000+1)) * time.Microsecond
		excluded := strings.HasPrefix(m.WorkID, "s") && r.Uint64()%2 == 0
		twice := r.Uint64()%4 == 0 && !repeat // (a second copy could end a later run of the same work)
		l := leaderOf[m.WorkID]
		mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(hold)
			mu.Lock()
			delete(active, m.WorkID)
			mu.Unlock()
			bz := c.SignBytes(l, endMsg(c, me, l, m.WorkID, excluded))
			s.Net.Deliver(l, me, bz, 0)
			if twice {
				s.Net.Deliver(l, me, bz, 0)
			}
		}()
		return Action{}
	})
	routines := t.Int(2, 6)
	per := t.Int(2, 8)
	adds := map[string]int{}
	plan := make([][]*wtypes.WorkRequest, routines)
	for i := range plan {
		for j := 0; j < per; j++ {
			kind := t.Int(0, 3)
			prefix := "k"
			if kind >= 2 {
				prefix = "s"
			}
			l := s.Others()[t.Choose(uint64(n-1))]
			name := fmt.Sprintf("%s%d-%d", prefix, i, j)
			if repeat && t.Prob(1, 3) {
				name = fmt.Sprintf("%s-all-%d", prefix, t.Int(0, 2))
			}
			id := c.LedBy(name, l)
			leaderOf[id] = l
			adds[id]++
			plan[i] = append(plan[i], schedReq(c, id, kind))
		}
	}
	t.Note("%d routines add %d works each, holding them up to %d ms, repeated ids: %v", routines, per, maxHold, repeat)
	stop := make(chan struct{})
	var sampler sync.WaitGroup
	sampler.Add(1)
	go func() {
		defer sampler.Done()
		for {
			select {
			case <-stop:
				return
			default:
				if k := s.Node.Engine.GetActiveWorkerCount(); k > slots {
					t.Record("slots-exceeded", "the engine runs %d works at once", k)
				}
				time.Sleep(50 * time.Microsecond)
			}
		}
	}()
	gap := time.Duration(t.Int(0, 3)*200) * time.Microsecond
	t.WithLimit(30*time.Second, "request-stuck", "adding requests", func() {
		var adders sync.WaitGroup
		for i := range plan {
			adders.Add(1)
			go func(i int) {
				defer adders.Done()
				for _, q := range plan[i] {
					if err := s.Node.Engine.AddRequest(q); err != nil {
						t.Record("request-refused", "AddRequest: %v", err)
					}
					time.Sleep(gap)
				}
			}(i)
		}
		adders.Wait()
	})
	t.Eventually(30*time.Second, "slots-unused", "every requested work is run and ends without a further event", func() bool {
		for id := range adds {
			if len(s.Node.Of(id)) == 0 {
				return false
			}
		}
		return s.Node.Engine.GetActiveWorkerCount() == 0
	})
	close(stop)
	sampler.Wait()
	wg.Wait()
	t.StopIfFailed()
	for id, k := range adds {
		if got := len(s.Node.Of(id)); got > k {
			t.Failf("slots-outcomes", "%s was requested %d times and has %d outcomes", id, k, got)
		}
	}
	if maxActive == slots {
		t.NonTrivial()
	}
}
