package sim

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/db"
	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/types/common"
	wtypes "github.com/sisu-network/dheart/worker/types"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"

	"dverif/pbt"
)

// selCase is one work of a committee part, seen from one real node among scripted ones.
type selCase struct {
	t         *pbt.T
	d         *Dealt
	c         *Committee
	n, me     int // size of the request's party list (the first n members of dealt key), own index
	threshold int
	kind      string // ed-keygen, ed-sign, ec-presign, ec-sign
	batch     int
	req       *wtypes.WorkRequest
	id        string
	leader    int
	sets      [][]int  // presign sets: parties
	presigns  []string // ids, in the order of sets
	setOf     map[string]int
	s         *Solo
}

func drawSel(t *pbt.T, lead bool, cfg config.TimeoutConfig) *selCase {
	x := &selCase{t: t, setOf: map[string]int{}}
	x.n = 2 + t.Weighted(2, 3, 3, 2)
	x.threshold = t.Int(1, x.n-1)
	x.d = DrawDealt(t, x.n, x.threshold)
	x.c = x.d.C
	x.me = t.Int(0, x.n-1)
	x.leader = x.me
	if !lead {
		x.leader = (x.me + t.Int(1, x.n-1)) % x.n
	}
	x.id = x.c.LedBy(fmt.Sprintf("sel%d", t.Int(0, 999)), x.leader)
	x.batch = 1
	w := &Work{ID: x.id, Threshold: x.threshold}
	x.kind = t.OneOf("ed-keygen", "ed-sign", "ec-presign", "ed-sign", "ec-presign")
	var setup func(d db.Database)
	switch x.kind {
	case "ed-keygen":
		w.Ed, w.Keygen = true, true
	case "ed-sign":
		w.Ed = true
		w.EdKey = x.d.Ed(0)
		w.Msgs = DrawMsgs(t, true, 2)
	case "ec-presign":
		w.EcKey = x.d.Ec(0)
		w.Msgs = DrawMsgs(t, false, 3)
		r := t.Rand()
		var adds []func(d db.Database)
		k := t.Int(0, 3)
		seen := map[string]bool{}
		for i := 0; i < k; i++ {
			set := t.Subset(x.n, t.Int(x.threshold+1, x.n))
			sort.Ints(set)
			if seen[fmt.Sprint(set)] {
				continue
			}
			seen[fmt.Sprint(set)] = true
			x.sets = append(x.sets, set)
			num := t.Int(1, 2*len(w.Msgs))
			name := fmt.Sprintf("p%d", i)
			var list presignList
			for j := 0; j < num; j++ {
				var mine *ecsigning.SignatureData_OneRoundData
				for q, p := range x.c.DealPresign(r, w.EcKey, set, scalar(r, ecN)) {
					if set[q] == x.me || mine == nil {
						mine = p
					}
				}
				list = append(list, mine)
				pid := fmt.Sprintf("%s-%d", name, j)
				x.presigns = append(x.presigns, pid)
				x.setOf[pid] = len(x.sets) - 1
			}
			pids := x.c.PidsOf(set)
			adds = append(adds, func(d db.Database) {
				if err := d.SavePresignData(name, pids, list); err != nil {
					t.Failf("save-presign", "%v", err)
				}
			})
		}
		setup = func(d db.Database) {
			for _, f := range adds {
				f(d)
			}
		}
		t.Note("presign sets %v with %q", x.sets, x.presigns)
	}
	if len(w.Msgs) > 0 {
		x.batch = len(w.Msgs)
	}
	x.req = w.Request(x.c, x.me)
	t.Note("%s among %d nodes, this is n%d, n%d leads", w, x.n, x.me, x.leader)
	x.s = NewSolo(t, x.c, x.me, cfg, setup)
	return x
}

func (x *selCase) keygen() bool { return x.kind == "ed-keygen" }

func (x *selCase) names(idx []int) []string {
	var out []string
	for _, i := range idx {
		out = append(out, x.c.Members[i].ID())
	}
	return out
}

// outcome waits for the single outcome.
func (x *selCase) outcome(what string) *Outcome {
	var os []*Outcome
	x.t.Eventually(10*time.Second, "selection-no-outcome", what+": an outcome is reported", func() bool {
		os = x.s.Node.Outcomes()
		return len(os) > 0
	})
	if len(os) != 1 {
		x.t.Failf("selection-outcomes", "%s: %d outcomes", what, len(os))
	}
	return os[0]
}

// executes waits for the first protocol messages, which go to the other selected parties.
func (x *selCase) executes(sel []int, what string) {
	t := x.t
	want := map[int]bool{}
	for _, i := range sel {
		if i != x.me {
			want[i] = true
		}
	}
	got := map[int]bool{}
	ok := t.Wait(10*time.Second, func() bool {
		for _, m := range x.s.Net.Log() {
			if m.WorkID == x.id && IsUpdate(m.Kind) {
				got[m.To] = true
			}
		}
		return len(got) >= len(want) || len(x.s.Node.Outcomes()) > 0
	})
	if os := x.s.Node.Outcomes(); len(os) > 0 {
		t.Failf("selection-not-executed", "%s: the node reported %q instead of executing", what, os[0])
	}
	if !ok {
		t.Stuckf("selection-not-executed", "%s: the node does not start executing", what)
	}
	for i := range got {
		if !want[i] {
			t.Failf("selection-set", "%s: protocol messages go to n%d, selected are %v", what, i, sel)
		}
	}
}

func (x *selCase) notExecuted(what string) {
	if k := x.s.SentUpdates(x.id); k > 0 {
		x.t.Failf("selection-executed", "%s: the node has sent %d protocol messages", what, k)
	}
}

// SelectMember: one real member, a scripted leader and others announce selections of all kinds.
func SelectMember(t *pbt.T) {
	cfg := neverLimits(t)
	cfg.SigningJobTimeout, cfg.KeygenJobTimeout = t.Limit(20*time.Second), t.Limit(20*time.Second)
	x := drawSel(t, false, cfg)
	type ann struct {
		from    int
		msg     *common.TssMessage
		counts  bool // an announcement of the leader
		verdict string
		sel     []int
	}
	draw := func() *ann {
		a := &ann{from: x.leader}
		lead := x.c.Members[x.leader].ID()
		if t.Prob(1, 5) { // not from the leader
			a.from = x.s.Others()[t.Choose(uint64(x.n-1))]
		}
		size := x.threshold + 1
		if x.keygen() {
			size = x.n
		} else if size < x.n {
			size = t.Int(size, x.n)
		}
		a.sel = t.Subset(x.n, size)
		if !has(a.sel, x.leader) && t.Prob(4, 5) {
			a.sel[t.Choose(uint64(size))] = x.leader
		}
		if !has(a.sel, x.me) && t.Prob(2, 3) {
			for i := range a.sel {
				if a.sel[i] != x.leader {
					a.sel[i] = x.me
					break
				}
			}
		}
		if size < x.n && has(a.sel, x.me) && t.Prob(1, 4) {
			for i := range a.sel {
				for k := 0; k < x.n && a.sel[i] == x.me; k++ {
					if !has(a.sel, k) {
						a.sel[i] = k
					}
				}
			}
		}
		names := x.names(a.sel)
		success := true
		var ids []string
		if x.kind == "ec-presign" && len(x.presigns) > 0 && t.Prob(3, 4) {
			// A set made by its own parties.
			k := t.Choose(uint64(len(x.sets)))
			a.sel = append([]int{}, x.sets[k]...)
			names = x.names(a.sel)
			most := x.batch
			if t.Prob(1, 6) { // not one for each message
				most += t.Int(0, 1)*2 - 1
			}
			for _, id := range x.presigns {
				if x.setOf[id] == int(k) && len(ids) < most {
					ids = append(ids, id)
				}
			}
		}
		what := t.Weighted(6, 1, 1, 1, 1, 1, 1, 1, 1)
		switch what {
		case 1:
			names = append(names, names[t.Choose(uint64(len(names)))])
		case 2:
			names[t.Choose(uint64(len(names)))] = "12D3KooWunknown"
		case 3:
			names = names[:t.Choose(uint64(len(names)))]
		case 4:
			success = false
		case 5:
			if len(names) > 1 {
				names[0] = names[1]
			}
		case 6:
			if len(ids) > 0 {
				ids[t.Choose(uint64(len(ids)))] = "no-such-presign"
			}
		case 7:
			if len(ids) > 1 {
				ids[0] = ids[1]
			}
		case 8:
			if len(ids) > 0 {
				if t.Bool() {
					ids = append(ids, ids[0])
				} else if len(ids) > 1 {
					ids = ids[1:]
				}
			}
		}
		a.msg = common.NewPreExecOutputMessage(x.c.Members[a.from].ID(), "", x.id, success, ids, nil)
		a.msg.PreExecOutputMessage.Pids = names
		if t.Prob(1, 12) {
			a.msg.PreExecOutputMessage = nil
		}
		a.counts = a.from == x.leader && a.msg.PreExecOutputMessage != nil
		// the oracle
		distinct, known, joined, hasLead := true, true, false, false
		seen := map[string]bool{}
		a.sel = nil
		for _, p := range names {
			if seen[p] {
				distinct = false
			}
			seen[p] = true
			i := x.c.Index(p)
			if i < 0 {
				known = false
			} else {
				a.sel = append(a.sel, i)
			}
			joined = joined || i == x.me
			hasLead = hasLead || p == lead
		}
		idsOK := len(ids) == 0 || len(ids) == x.batch
		loadable := true
		dup := map[string]bool{}
		for _, id := range ids {
			if _, ok := x.setOf[id]; !ok || dup[id] {
				loadable = false
			}
			dup[id] = true
		}
		enough := len(names) >= x.threshold+1
		if x.keygen() {
			enough = len(names) == x.n
		}
		switch {
		case !success:
			a.verdict = "failed"
		case !distinct || !known || !enough || !idsOK || (!hasLead && len(ids) == 0):
			a.verdict = "unsound"
		case !joined:
			a.verdict = "not selected"
		case !loadable:
			a.verdict = "unsound"
		default:
			a.verdict = "execute"
		}
		short := make([]string, len(names))
		for i, p := range names {
			short[i] = x.c.Short(p)
		}
		t.Note("n%d announces success=%v %v presigns %q nil=%v: %s", a.from, success, short, ids, a.msg.PreExecOutputMessage == nil, a.verdict)
		return a
	}
	var anns []*ann
	for i, k := 0, t.Int(1, 4); i < k; i++ {
		anns = append(anns, draw())
	}
	early := t.Weighted(3, 1, 1)
	if early > len(anns) {
		early = len(anns)
	}
	for _, a := range anns[:early] {
		x.s.Say(a.from, a.msg)
	}
	t.Note("%d of them before the request", early)
	if err := x.s.Add(x.req); err != nil {
		t.Failf("request-refused", "AddRequest: %v", err)
	}
	var first *ann
	for i, a := range anns {
		if a.counts && first == nil {
			first = a
		}
		_ = i
	}
	for _, a := range anns[early:] {
		x.s.Say(a.from, a.msg)
	}
	if first == nil {
		time.Sleep(3 * time.Millisecond)
		if os := x.s.Node.Outcomes(); len(os) > 0 {
			t.Failf("selection-foreign", "the node reported %q although the leader has announced nothing", os[0])
		}
		x.notExecuted("the leader has announced nothing")
		x.s.Say(x.leader, endMsg(x.c, x.me, x.leader, x.id, false))
		x.outcome("after the leader's failure")
		t.Label("nothing from the leader")
		return
	}
	t.NonTrivial()
	t.Label("%s", first.verdict)
	switch first.verdict {
	case "failed", "unsound":
		o := x.outcome("an announcement that is " + first.verdict)
		if o.Kind != "failed" {
			t.Failf("selection-verdict", "the announcement is %s but the node reported %q", first.verdict, o)
		}
		x.notExecuted("the announcement is " + first.verdict)
	case "not selected":
		o := x.outcome("a selection without this node")
		if o.Kind != "sign" || o.Sign.Outcome != htypes.OutcometNotSelected {
			t.Failf("selection-verdict", "this node is not selected but reported %q", o)
		}
		x.notExecuted("this node is not selected")
	case "execute":
		x.executes(first.sel, "a sound selection")
	}
}

// SelectLeader: one real leader, scripted members that answer in all ways; the announcement is checked.
func SelectLeader(t *pbt.T) {
	cfg := neverLimits(t)
	cfg.SigningJobTimeout, cfg.KeygenJobTimeout = t.Limit(20*time.Second), t.Limit(20*time.Second)
	cfg.SelectionLeaderTimeout = t.Limit(300 * time.Millisecond)
	x := drawSel(t, true, cfg)
	me := x.c.Members[x.me].ID()
	yes := map[int]bool{x.me: true}
	type resp struct {
		early bool
		from  int
		m     *common.TssMessage
	}
	var rs []resp
	willing := t.Int(0, 4)
	for _, i := range x.s.Others() {
		from := x.c.Members[i].ID()
		ans := common.NewAvailabilityResponseMessage(from, me, x.id, common.AvailabilityResponseMessage_YES, 1)
		no := common.NewAvailabilityResponseMessage(from, me, x.id, common.AvailabilityResponseMessage_NO, 1)
		early := t.Prob(1, 3)
		switch {
		case t.Int(0, 4) <= willing:
			rs = append(rs, resp{early, i, ans})
			yes[i] = true
			if t.Prob(1, 6) {
				rs = append(rs, resp{t.Bool(), i, ans})
			}
		case t.Bool():
			rs = append(rs, resp{early, i, no})
		case t.Prob(1, 3):
			bad := CloneTss(ans)
			bad.AvailabilityResponseMessage = nil
			rs = append(rs, resp{early, i, bad})
		case t.Prob(1, 2):
			// For another work.
			other := CloneTss(ans)
			other.WorkId = x.id + "x"
			rs = append(rs, resp{early, i, other})
		}
	}
	// Answers in a random order, some before the request.
	p := t.Perm(len(rs))
	for _, k := range p {
		if rs[k].early {
			x.s.Say(rs[k].from, rs[k].m)
		}
	}
	if err := x.s.Add(x.req); err != nil {
		t.Failf("request-refused", "AddRequest: %v", err)
	}
	begin := time.Now()
	for _, k := range p {
		if !rs[k].early {
			t.Note("n%d answers", rs[k].from)
			x.s.Say(rs[k].from, rs[k].m)
		}
	}
	inTime := time.Since(begin) < cfg.SelectionLeaderTimeout/2
	var yesList []int
	for i := range yes {
		yesList = append(yesList, i)
	}
	sort.Ints(yesList)
	t.Note("available: %v", yesList)
	enough := len(yes) >= x.threshold+1
	if x.keygen() {
		enough = len(yes) == x.n
	}
	// The announcement reaches every other party.
	var sels []*Msg
	t.Eventually(10*time.Second, "selection-announced", "the leader announces the result to all other parties", func() bool {
		sels = x.s.Sent("selection", x.id)
		return len(sels) >= x.n-1
	})
	to := map[int]bool{}
	for _, m := range sels {
		to[m.To] = true
		if fmt.Sprint(m.Signed.TssMessage) != fmt.Sprint(sels[0].Signed.TssMessage) {
			t.Failf("selection-differs", "the leader announces %v and %v", m.Signed.TssMessage, sels[0].Signed.TssMessage)
		}
	}
	if len(to) != x.n-1 || len(sels) != x.n-1 || to[x.me] {
		t.Failf("selection-recipients", "%d announcements to %v", len(sels), to)
	}
	out := sels[0].Signed.TssMessage.PreExecOutputMessage
	if out == nil {
		t.Failf("selection-empty", "the announcement is empty")
	}
	if !out.Success {
		if enough {
			msg := fmt.Sprintf("the leader announces failure although %v are available (threshold %d)", yesList, x.threshold)
			if inTime {
				t.Failf("selection-failed", "%s", msg)
			}
			t.Stuckf("selection-failed-late", "%s", msg)
		}
		o := x.outcome("the leader announced failure")
		if o.Kind != "failed" {
			t.Failf("selection-verdict", "the leader announced failure but reported %q", o)
		}
		x.notExecuted("the leader announced failure")
		t.NonTrivial()
		t.Label("announced failure")
		return
	}
	seen := map[int]bool{}
	var sel []int
	for _, p := range out.Pids {
		i := x.c.Index(p)
		if i < 0 || seen[i] || !yes[i] {
			t.Failf("selection-unsound", "the leader selects %s, available are %v", x.short(out.Pids), yesList)
		}
		seen[i] = true
		sel = append(sel, i)
	}
	if len(sel) < x.threshold+1 || (x.keygen() && len(sel) != x.n) {
		t.Failf("selection-size", "the leader selects %s for %s with threshold %d", x.short(out.Pids), x.kind, x.threshold)
	}
	if !seen[x.me] && len(out.PresignIds) == 0 {
		t.Failf("selection-self", "the leader does not select itself")
	}
	t.NonTrivial()
	if len(out.PresignIds) > 0 {
		t.Label("with presigns")
		if x.kind != "ec-presign" || len(out.PresignIds) != x.batch {
			t.Failf("selection-presigns", "presigns %q for %d messages of %s", out.PresignIds, x.batch, x.kind)
		}
		dup := map[string]bool{}
		sort.Ints(sel)
		for _, id := range out.PresignIds {
			k, ok := x.setOf[id]
			if !ok || dup[id] || fmt.Sprint(x.sets[k]) != fmt.Sprint(sel) {
				t.Failf("selection-presigns", "presigns %q do not belong to %v", out.PresignIds, sel)
			}
			dup[id] = true
		}
	}
	if !seen[x.me] {
		t.Label("leader not among the parties of the presigns")
		o := x.outcome("the leader used presigns of others")
		if o.Kind != "sign" || o.Sign.Outcome != htypes.OutcometNotSelected {
			t.Failf("selection-verdict", "the leader is not selected but reported %q", o)
		}
		x.notExecuted("the leader is not selected")
		return
	}
	x.executes(sel, "the leader's own selection")
}

func (x *selCase) short(names []string) string {
	var out []string
	for _, p := range names {
		out = append(out, x.c.Short(p))
	}
	return strings.Join(out, ",")
}
