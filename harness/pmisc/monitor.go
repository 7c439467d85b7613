package pmisc

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/sisu-network/dheart/worker/components"
	wtypes "github.com/sisu-network/dheart/worker/types"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	edsigning "github.com/sisu-network/tss-lib/eddsa/signing"
	"github.com/sisu-network/tss-lib/tss"

	"dverif/pbt"
)

// The message kinds of each protocol in the order in which they are sent.
var protocols = map[wtypes.WorkType][]tss.MessageContent{
	wtypes.EcKeygen: {&eckeygen.KGRound1Message{}, &eckeygen.KGRound2Message1{}, &eckeygen.KGRound2Message2{}, &eckeygen.KGRound3Message{}},
	wtypes.EcSigning: {&ecsigning.SignRound1Message1{}, &ecsigning.SignRound1Message2{}, &ecsigning.SignRound2Message{}, &ecsigning.SignRound3Message{},
		&ecsigning.SignRound4Message{}, &ecsigning.SignRound5Message{}, &ecsigning.SignRound6Message{}, &ecsigning.SignRound7Message{}},
	wtypes.EdKeygen:  {&edkeygen.KGRound1Message{}, &edkeygen.KGRound2Message1{}, &edkeygen.KGRound2Message2{}},
	wtypes.EdSigning: {&edsigning.SignRound1Message{}, &edsigning.SignRound2Message{}, &edsigning.SignRound3Message{}},
}

var protoNames = map[wtypes.WorkType]string{wtypes.EcKeygen: "ecdsa-keygen", wtypes.EcSigning: "ecdsa-signing", wtypes.EdKeygen: "eddsa-keygen", wtypes.EdSigning: "eddsa-signing"}
var protoOrder = []wtypes.WorkType{wtypes.EdKeygen, wtypes.EdSigning, wtypes.EcKeygen, wtypes.EcSigning}

func parsedMsg(c tss.MessageContent, from *tss.PartyID) tss.ParsedMessage {
	meta := tss.MessageRouting{From: from, IsBroadcast: true}
	return tss.NewMessage(meta, c, tss.NewMessageWrapper(meta, c))
}

type monModel struct {
	kinds  []string
	others []string
	got    map[string][]bool
}

// missing is what a quiet monitor has to report.
func (m *monModel) missing() string {
	reached := -1
	for _, p := range m.others {
		for i, r := range m.got[p] {
			if r && i > reached {
				reached = i
			}
		}
	}
	collect := func() map[string][]string {
		out := map[string][]string{}
		for _, p := range m.others {
			for i := 0; i <= reached && i < len(m.kinds); i++ {
				if !m.got[p][i] {
					out[p] = append(out[p], m.kinds[i])
				}
			}
		}
		return out
	}
	out := collect()
	if len(out) == 0 && reached < len(m.kinds)-1 {
		reached++
		out = collect()
	}
	return reportString(out)
}

func reportString(m map[string][]string) string {
	var out []string
	for p, ks := range m {
		if len(ks) == 0 {
			out = append(out, p+": (nothing)")
			continue
		}
		ks = append([]string{}, ks...)
		sort.Strings(ks)
		out = append(out, p+": "+strings.Join(ks, ","))
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

type report struct {
	at   time.Time
	what string
}

type monSink struct {
	mu      sync.Mutex
	reports []report
}

func (s *monSink) OnMissingMesssageDetected(m map[string][]string) {
	r := report{time.Now(), reportString(m)}
	s.mu.Lock()
	s.reports = append(s.reports, r)
	s.mu.Unlock()
}

func (s *monSink) all() []report {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]report{}, s.reports...)
}

type monSetup struct {
	t       *pbt.T
	m       components.MessageMonitor
	sink    *monSink
	ref     *monModel
	pids    []*tss.PartyID
	content []tss.MessageContent
	timeout time.Duration
}

func newMonitor(t *pbt.T, timeout time.Duration) *monSetup {
	wt := protoOrder[t.Int(0, 3)]
	presigned := wt == wtypes.EcSigning && t.Prob(1, 2)
	n := t.Int(1, 6)
	if n == 1 {
		n = t.Int(1, 6)
	}
	s := &monSetup{t: t, sink: &monSink{}, content: protocols[wt], timeout: timeout, ref: &monModel{got: map[string][]bool{}}}
	if presigned { // only the last message is sent
		s.content = s.content[len(s.content)-1:]
		t.Label("presigned")
	}
	mp := map[string]*tss.PartyID{}
	for i := 0; i < n; i++ {
		p := tss.NewPartyID(fmt.Sprintf("p%d", i), "", big.NewInt(int64(i+1)))
		s.pids = append(s.pids, p)
		mp[p.Id] = p
	}
	for _, c := range s.content {
		s.ref.kinds = append(s.ref.kinds, parsedMsg(c, s.pids[0]).Type())
	}
	for _, p := range s.pids[1:] {
		s.ref.others = append(s.ref.others, p.Id)
		s.ref.got[p.Id] = make([]bool, len(s.content))
	}
	t.Note("%s (presigned: %v) among %d parties, p0 is this node", protoNames[wt], presigned, n)
	s.m = components.NewMessageMonitor(s.pids[0], wt, presigned, s.sink, mp, timeout)
	return s
}

// feed hands one message to the monitor.
func (s *monSetup) feed(p, k int) {
	s.t.Note("p%d sends %s", p, s.ref.kinds[k])
	s.m.NewMessageReceived(parsedMsg(s.content[k], s.pids[p]), s.pids[p])
	if p > 0 {
		s.ref.got[s.pids[p].Id][k] = true
	}
}

// Monitor alternates bursts of messages and quiet times and compares the reports with the model.
func Monitor(t *pbt.T) {
	s := newMonitor(t, 40*time.Millisecond)
	s.t.Cleanup(func() { s.m.Stop() })
	go s.m.Start()
	allowed := map[string]bool{s.ref.missing(): true}
	seen := 0
	phases := t.Int(1, 4)
	for ph := 0; ph < phases; ph++ {
		burst := t.Int(0, 12)
		if t.Prob(1, 4) { // complete everything
			for k := range s.content {
				for p := 1; p < len(s.pids); p++ {
					s.feed(p, k)
					allowed[s.ref.missing()] = true
				}
			}
		}
		for ; burst > 0; burst-- {
			switch t.Weighted(12, 1, 1) {
			case 0:
				// Mostly in protocol order, as in a real run.
				k := t.Int(0, len(s.content)-1)
				if t.Prob(3, 4) {
					k = t.Int(0, k)
				}
				p := t.Int(0, len(s.pids)-1)
				// The state after this message counts as soon as the monitor can see it.
				var before []bool
				if p > 0 {
					before = append([]bool{}, s.ref.got[s.pids[p].Id]...)
					s.ref.got[s.pids[p].Id][k] = true
				}
				allowed[s.ref.missing()] = true
				if p > 0 {
					copy(s.ref.got[s.pids[p].Id], before)
				}
				s.feed(p, k)
			case 1:
				x := tss.NewPartyID(t.OneOf("stranger", "", "p00"), "", big.NewInt(99))
				t.Note("a stranger %q sends", x.Id)
				s.m.NewMessageReceived(parsedMsg(s.content[t.Int(0, len(s.content)-1)], x), x)
			case 2:
				// A kind that is not part of this protocol.
				p := t.Int(0, len(s.pids)-1)
				other := protocols[protoOrder[t.Int(0, 3)]]
				c := other[t.Int(0, len(other)-1)]
				m := parsedMsg(c, s.pids[p])
				for _, k := range s.ref.kinds {
					if k == m.Type() {
						m = nil
						break
					}
				}
				if m != nil {
					t.Note("p%d sends the foreign %s", p, m.Type())
					s.m.NewMessageReceived(m, s.pids[p])
				}
			}
		}
		want := s.ref.missing()
		allowed[want] = true
		if want != "" {
			t.NonTrivial()
			from := seen
			t.Eventually(4*time.Second, "no-report", "a report of "+want, func() bool {
				for i, r := range s.sink.all() {
					if i >= from && r.what == want {
						return true
					}
				}
				return false
			})
			base := len(s.sink.all())
			if t.Prob(1, 3) {
				// It goes on reporting the same as long as nothing arrives.
				t.Eventually(4*time.Second, "no-repeat", "another report of "+want, func() bool { return len(s.sink.all()) > base })
			}
		} else {
			t.Label("silent")
			time.Sleep(s.timeout * 2) // reports of the time before may still be on their way
			base := len(s.sink.all())
			time.Sleep(s.timeout * 6)
			if k := len(s.sink.all()) - base; k > 1 {
				t.Failf("report-when-complete", "%d reports while nothing is missing: %s", k, s.sink.all()[base].what)
			}
		}
		rs := s.sink.all()
		for _, r := range rs[seen:] {
			if !allowed[r.what] || r.what == "" {
				t.Failf("wrong-report", "reported [%s], expected [%s]", r.what, want)
			}
		}
		seen = len(rs)
		allowed = map[string]bool{want: true}
	}
	if t.Prob(1, 2) {
		s.m.Stop()
		time.Sleep(s.timeout*2 + 50*time.Millisecond)
		base := len(s.sink.all())
		time.Sleep(s.timeout * 6)
		if k := len(s.sink.all()) - base; k > 1 {
			t.Failf("report-after-stop", "%d reports after it was stopped", k)
		}
		t.Label("stopped")
	}
}

// MonitorBusy keeps messages coming faster than the time limit: there must be no report.
func MonitorBusy(t *pbt.T) {
	s := newMonitor(t, 120*time.Millisecond)
	s.t.Cleanup(func() { s.m.Stop() })
	if len(s.pids) == 1 || len(s.content) == 1 {
		t.Discard()
	}
	feed := func() {
		// Never the whole of it, so that something is always missing.
		s.feed(t.Int(1, len(s.pids)-1), t.Int(0, len(s.content)-2))
	}
	last := time.Now()
	feed()
	var gap time.Duration
	go s.m.Start()
	for i := t.Int(25, 50); i > 0; i-- {
		time.Sleep(time.Duration(t.Int(5, 20)) * time.Millisecond)
		before := time.Now()
		reports := s.sink.all()
		feed()
		after := time.Now()
		if after.Sub(last) > gap {
			gap = after.Sub(last)
		}
		last = before
		if gap > s.timeout*9/10 {
			t.Discard() // this machine is too busy for a statement
		}
		if len(reports) > 0 {
			t.Failf("report-while-busy", "reported [%s] although messages arrived at least every %v (limit %v)", reports[0].what, gap, s.timeout)
		}
	}
	t.NonTrivial()
}

// MonitorConcurrent feeds from many routines, as the network does.
func MonitorConcurrent(t *pbt.T) {
	s := newMonitor(t, 30*time.Millisecond)
	s.t.Cleanup(func() { s.m.Stop() })
	go s.m.Start()
	type msg struct{ p, k int }
	var routines [][]msg
	for i := t.Int(2, 6); i > 0; i-- {
		var ms []msg
		for j := t.Int(1, 12); j > 0; j-- {
			ms = append(ms, msg{t.Int(0, len(s.pids)-1), t.Int(0, len(s.content)-1)})
		}
		routines = append(routines, ms)
	}
	var wg sync.WaitGroup
	for _, ms := range routines {
		for _, m := range ms {
			if m.p > 0 {
				s.ref.got[s.pids[m.p].Id][m.k] = true
			}
		}
		wg.Add(1)
		go func(ms []msg) {
			defer wg.Done()
			for _, m := range ms {
				s.m.NewMessageReceived(parsedMsg(s.content[m.k], s.pids[m.p]), s.pids[m.p])
			}
		}(ms)
	}
	wg.Wait()
	want := s.ref.missing()
	t.NonTrivial()
	if want == "" {
		return
	}
	t.Eventually(4*time.Second, "no-report-concurrent", "a report of "+want, func() bool {
		rs := s.sink.all()
		return len(rs) > 0 && rs[len(rs)-1].what == want
	})
}

// MonitorStopped: several monitors that have something to report are stopped at arbitrary moments; they say nothing
// afterwards. (One that is just about to speak may be overtaken by its stop, not most of them.)
func MonitorStopped(t *pbt.T) {
	const limit = 60 * time.Millisecond
	var ms []*monSetup
	stopped := make([]time.Time, 8)
	var wg sync.WaitGroup
	for i := range stopped {
		s := newMonitor(t, limit)
		s.t.Cleanup(func() { s.m.Stop() })
		ms = append(ms, s)
		if len(s.pids) == 1 {
			continue
		}
		start, run := time.Duration(t.Int(0, 60))*time.Millisecond, time.Duration(t.Int(20, 200))*time.Millisecond
		if t.Bool() { // from one kind to the next
			s.feed(t.Int(1, len(s.pids)-1), 0)
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			time.Sleep(start)
			go s.m.Start()
			time.Sleep(run)
			s.m.Stop()
			stopped[i] = time.Now()
		}(i)
	}
	wg.Wait()
	time.Sleep(3*limit + 20*time.Millisecond)
	late, say := 0, 0
	for i, s := range ms {
		if s.ref.missing() == "" || len(s.pids) == 1 {
			continue
		}
		say++
		for _, r := range s.sink.all() {
			if d := r.at.Sub(stopped[i]); d > 10*time.Millisecond {
				t.Note("monitor %d reported %v after it was stopped", i, d)
				late++
				break
			}
		}
	}
	if say > 3 {
		t.NonTrivial()
		if late > 2 && late*2 > say {
			t.Failf("report-after-stop", "%d of %d monitors reported after they had been stopped", late, say)
		}
	}
}
