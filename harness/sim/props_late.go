package sim

import (
	"fmt"
	"time"

	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/types/common"

	"dverif/pbt"
)

// Late: one node gets the request, or the selection, only after messages of the work have reached it.
// Other nodes flood it with messages of other works. Nothing is asked for again: the node has to use
// what came early.
func Late(p Proto) func(*pbt.T) {
	return func(t *pbt.T) {
		n := t.Int(3, 4)
		if p == EcSigningP || p == EcKeygenP {
			n = 3
		}
		// One member may be left out of signings: it is free to flood.
		threshold := n - 1
		spare := -1
		if !p.keygen() && p != EcSigningP && n > 2 && t.Bool() {
			threshold = n - 2
		}
		s := drawScene(t, p, n, threshold, 0)
		c := s.d.C
		late := t.Int(0, n-1)
		leader := (late + t.Int(1, n-1)) % n
		var w *Work
		switch p {
		case EdKeygenP, EcKeygenP:
			w = &Work{Ed: p == EdKeygenP, Keygen: true, Threshold: threshold}
		default:
			w = DrawSigning(t, s.d, 0, p == EdSigning)
		}
		w.ID = c.LedBy(t.OneOf("late", "la__te", "l"), leader)
		parts := seq(n)
		if threshold == n-2 {
			for spare = 0; spare == late || spare == leader; spare++ {
			}
			parts = nil
			for i := 0; i < n; i++ {
				if i != spare {
					parts = append(parts, i)
				}
			}
		}
		if p == EcPresigned {
			s.ss = append(s.ss, w.AddPresigns(t, c, parts))
		}
		s.works = []*Work{w}
		t.Note("%s, n%d is late, n%d leads, n%d does not take part", w, late, leader, spare)
		mode := t.OneOf("request", "selection", "both")
		hold := time.Duration(t.Int(20, 400)) * time.Millisecond
		if p == EcSigningP || p == EcKeygenP || p == EdKeygenP { // the first message takes a while
			hold *= 4
		} else if p == EdSigning {
			hold *= 2
		}
		t.Note("late %s by %v", mode, hold)
		cfg := Generous(t)
		cfg.MonitorMessageTimeout = t.Limit(10 * time.Minute)
		s.start(cfg, func(m *Msg) Action {
			a := Action{}
			if m.To == late && m.Kind == "selection" && mode != "request" && m.WorkID == w.ID {
				a.Delay = hold
			}
			return a
		})
		if t.Bool() {
			s.cl.drawSlowDB(t, 150)
		}
		net := s.cl.Net
		// Floods of messages of other works, before and during the work.
		mut := &mutator{r: t.Rand(), words: []string{"x"}}
		flood := func(from, count int, same bool) {
			for i := 0; i < count; i++ {
				id := fmt.Sprintf("other%d", i%7)
				if i%5 == 0 {
					id = w.ID + "x"
				}
				if same {
					id = w.ID
				}
				var m *common.TssMessage
				if i%3 == 0 {
					m = common.NewAvailabilityResponseMessage(c.Members[from].ID(), c.Members[late].ID(), id, common.AvailabilityResponseMessage_YES, 1)
				} else {
					m = &common.TssMessage{Type: common.TssMessage_UPDATE_MESSAGES, From: c.Members[from].ID(), WorkId: id,
						UpdateMessages: []*common.UpdateMessage{{Round: "SignRound1Message", Data: []byte{byte(i)}, SerializedMessageRouting: []byte("{}")}}}
					if same { // what a participant could send
						m.UpdateMessages = nil
						for j := 0; j < len(w.Msgs) || j < 1; j++ {
							u := &common.UpdateMessage{SerializedMessageRouting: []byte("{}")}
							mut.mu.Lock()
							u.Data, u.Round = mut.payload()
							mut.mu.Unlock()
							m.UpdateMessages = append(m.UpdateMessages, u)
						}
					}
				}
				net.Deliver(from, late, c.SignBytes(from, m), 0)
			}
		}
		// Participants send at most 64 pending messages in all: the work itself needs up to 10 of each.
		// (The leader's: request, selection and first round; of the others only the first round can come early.)
		for _, i := range parts {
			if i == late || t.Bool() {
				continue
			}
			k := t.Int(0, 53)
			if i != leader && t.Bool() {
				k = 63
				if p == EcSigningP {
					k = 62
				}
			}
			first := t.OneOf("all", "none", "half")
			before := map[string]int{"all": k, "none": 0, "half": k / 2}[first]
			t.Note("n%d has %d messages of other works pending at n%d, %s of them before the work begins", i, k, late, first)
			flood(i, before, false)
			go func(i int) {
				time.Sleep(hold * 3 / 4)
				flood(i, k-before, false)
			}(i)
		}
		s.cl.AllHandled(10*time.Second, "handler-stuck")
		if spare >= 0 {
			k := t.Int(0, 150)
			t.Note("n%d floods n%d with %d messages", spare, late, k)
			same := t.Bool()
			if same {
				t.Note("they are messages of this work, in which it does not take part")
				t.Label("messages of an outsider")
			}
			flood(spare, k, same)
			go func() {
				for _, d := range []time.Duration{2, 4, 8} {
					time.Sleep(hold / d)
					flood(spare, k/2, same)
				}
			}()
		}
		// The late node has told the leader before (in an earlier life) that it is available.
		if mode != "selection" {
			net.Deliver(late, leader, c.SignBytes(late, common.NewAvailabilityResponseMessage(c.Members[late].ID(), c.Members[leader].ID(), w.ID, common.AvailabilityResponseMessage_YES, 1)), 0)
			s.cl.AllHandled(10*time.Second, "handler-stuck")
		}
		begin := time.Now()
		s.cl.Run(s.starts(parts, func(i int) time.Duration {
			if i == late && mode != "selection" {
				return hold
			}
			return 0
		}), 60*time.Second)
		s.mustSucceed("late", 8*time.Second, parts)
		for _, i := range parts {
			if o := s.cl.OutcomesOf(w, i)[0]; o.Kind == "sign" && o.Sign.Outcome == htypes.OutcometNotSelected {
				t.Failf("late-not-selected", "n%d was not selected although only %v take part", i, parts)
			}
		}
		early := false
		for _, m := range net.Log() {
			if m.To == late && m.WorkID == w.ID && IsUpdate(m.Kind) && m.At.Sub(begin) < hold {
				early = true
			}
			if m.Kind == "ask" {
				t.Failf("late-asked", "n%d asked for a message although asking is off", m.From)
			}
		}
		if early {
			t.NonTrivial()
		}
		t.Label("late %s", mode)
	}
}
