package sim

import (
	"fmt"
	"strings"
	"time"

	"github.com/sisu-network/dheart/db"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/tss-lib/tss"

	"dverif/pbt"
)

// dispatcher is how the workers hand messages to the engine.
type dispatcher interface {
	BroadcastMessage([]*tss.PartyID, *common.TssMessage)
	UnicastMessage(*tss.PartyID, *common.TssMessage)
}

func drawUpdate(t *pbt.T, from, to, work, round string) *common.TssMessage {
	m := &common.TssMessage{Type: common.TssMessage_UPDATE_MESSAGES, From: from, To: to, WorkId: work}
	for i, k := 0, t.Int(1, 3); i < k; i++ {
		m.UpdateMessages = append(m.UpdateMessages, &common.UpdateMessage{Data: t.Bulk(t.Int(0, 60)), SerializedMessageRouting: []byte(`{}`), Round: round})
	}
	return m
}

var roundNames = []string{"binance.tsslib.ecdsa.signing.SignRound1Message2", "binance.tsslib.eddsa.signing.SignRound2Message", "KGRound2Message1", "x"}

// AskModel: messages are stored by sending and receiving; anybody asks for anything.
func AskModel(t *pbt.T) {
	n := t.Int(3, 5)
	d := getDealt(n, 1, t.Prob(1, 5), t.Int(0, 3))
	c := d.C
	me := t.Int(0, n-1)
	s := NewSolo(t, c, me, neverLimits(t), nil)
	disp, ok := s.Node.Engine.(dispatcher)
	if !ok {
		panic("engine does not send messages of workers")
	}
	id := func(i int) string { return c.Members[i].ID() }
	type stored struct {
		from, to string
		data     string
	}
	model := map[string]*stored{} // by key
	var keys []string
	put := func(m *common.TssMessage, from int) {
		k := m.WorkId + "__" + m.From + "__" + m.To + "__" + m.UpdateMessages[0].Round
		model[k] = &stored{m.From, m.To, string(Wire(c.Sign(from, m)))}
		keys = append(keys, k)
	}
	exists := func(m *common.TssMessage) bool {
		return model[m.WorkId+"__"+m.From+"__"+m.To+"__"+m.UpdateMessages[0].Round] != nil
	}
	work := func() string { return t.OneOf("w", "w1", "a__b", "w__"+id(0), "__", "é,", "") }
	round := func() string { return roundNames[t.Choose(uint64(len(roundNames)))] }
	all := c.Pids()
	secp := true
	for _, m := range c.Members {
		secp = secp && m.Priv.Type() == "secp256k1"
	}
	answered := 0
	for i, k := 0, t.Int(5, 40); i < k; i++ {
		t.StopIfFailed()
		before := len(s.Net.Log())
		switch t.Weighted(2, 2, 2, 1, 1, 8) {
		case 0:
			m := drawUpdate(t, id(me), "", work(), round())
			if exists(m) {
				continue
			}
			t.Note("this node broadcasts %q %s", m.WorkId, KindOf(m))
			disp.BroadcastMessage(all, m)
			put(m, me)
			if got := len(s.Net.Log()) - before; got != n-1 {
				t.Failf("broadcast-count", "a broadcast among %d nodes sends %d messages", n, got)
			}
		case 1:
			to := s.Others()[t.Choose(uint64(n-1))]
			m := drawUpdate(t, id(me), id(to), work(), round())
			if exists(m) {
				continue
			}
			t.Note("this node sends %q %s to n%d", m.WorkId, KindOf(m), to)
			disp.UnicastMessage(all[to], m)
			put(m, me)
			l := s.Net.Log()[before:]
			if len(l) != 1 || l[0].To != to {
				t.Failf("unicast-recipient", "a private message to n%d causes %d sends", to, len(l))
			}
		case 2: // a broadcast message of another node, direct or passed on
			from, peer := s.Others()[t.Choose(uint64(n-1))], s.Others()[t.Choose(uint64(n-1))]
			m := drawUpdate(t, id(from), "", work(), round())
			if t.Prob(1, 8) {
				// A round that makes the key look like the key of somebody else's message.
				victim := t.Int(0, n-1)
				m.UpdateMessages[0].Round = "r__" + id(victim) + "____x"
				t.Note("n%d broadcasts %q with the round %q", from, m.WorkId, "r__"+c.Short(id(victim))+"____x")
				s.Bytes(id(peer), c.SignBytes(from, m))
				if l := s.Net.Log()[before:]; len(l) > 0 {
					t.Failf("sent-unasked", "storing a message sends %d messages", len(l))
				}
				continue
			}
			if exists(m) {
				continue
			}
			t.Note("n%d broadcasts %q %s, it comes by n%d", from, m.WorkId, KindOf(m), peer)
			s.Bytes(id(peer), c.SignBytes(from, m))
			put(m, from)
		case 3: // a private message for this node: not for others
			from := s.Others()[t.Choose(uint64(n-1))]
			m := drawUpdate(t, id(from), id(me), work(), round())
			t.Note("n%d sends %q %s to this node", from, m.WorkId, KindOf(m))
			s.Say(from, m)
			keys = append(keys, m.WorkId+"__"+m.From+"__"+m.To+"__"+m.UpdateMessages[0].Round)
		case 4: // not signed by its sender
			from := s.Others()[t.Choose(uint64(n-1))]
			m := drawUpdate(t, id(from), "", work(), round())
			if exists(m) {
				continue
			}
			t.Note("a forged broadcast %q of n%d", m.WorkId, from)
			sm := c.Sign((from+1)%n, m)
			sm.From = id(from)
			s.Bytes(id(from), Wire(sm))
			keys = append(keys, m.WorkId+"__"+m.From+"__"+m.To+"__"+m.UpdateMessages[0].Round)
		case 5: // somebody asks
			asker := s.Others()[t.Choose(uint64(n-1))]
			var key string
			switch {
			case len(keys) > 0 && t.Prob(3, 4):
				key = keys[t.Choose(uint64(len(keys)))]
				if t.Prob(1, 5) { // another part
					key = strings.Replace(key, t.OneOf("w", id(me), "x", "__"), t.OneOf("", "w", id(asker), "____"), 1)
				}
			case t.Bool():
				key = work() + "__" + id(t.Int(0, n-1)) + "__" + t.OneOf("", id(t.Int(0, n-1))) + "__" + round()
			default:
				key = t.Str(12, "__", "a", "_", id(me), "é", "")
			}
			to := id(me)
			if t.Bool() {
				to = ""
			}
			ask := common.NewRequestMessage(id(asker), to, work(), key)
			peer := s.Others()[t.Choose(uint64(n-1))]
			s.Bytes(id(peer), c.SignBytes(asker, ask))
			e := model[key]
			want := e != nil && (e.to == "" || e.to == id(asker))
			l := s.Net.Log()[before:]
			short := key
			for j := range c.Members {
				short = strings.ReplaceAll(short, id(j), fmt.Sprintf("n%d", j))
			}
			t.Note("n%d asks for %q: stored %v, answers %d", asker, short, e != nil, len(l))
			if !want {
				if len(l) > 0 {
					why := "unknown"
					if e != nil {
						why = "for " + c.Short(e.to) + " only"
					}
					t.Failf("answer-unentitled", "n%d asked for %q, which is %s, and was sent %s to n%d", asker, short, why, l[0].Kind, l[0].To)
				}
				if e != nil {
					t.Label("refused a private message")
				}
				continue
			}
			if len(l) != 1 || l[0].To != asker {
				t.Failf("answer-recipient", "n%d asked for %q and %d messages were sent", asker, short, len(l))
			}
			if secp && string(l[0].Data) != e.data || l[0].Signed == nil || string(Wire(l[0].Signed)) != string(l[0].Data) {
				t.Failf("answer-content", "n%d asked for %q and got %.300q instead of %.300q", asker, short, l[0].Data, e.data)
			}
			if err := c.CheckSignature(c.Index(e.from), l[0].Signed); err != nil {
				t.Failf("answer-content", "the answer for %q: %v", short, err)
			}
			answered++
			if e.from != id(me) {
				t.Label("answered for another node")
			} else if e.to != "" {
				t.Label("answered a private message")
			}
		}
	}
	if answered > 0 {
		t.NonTrivial()
	}
}

// forge makes a message that claims to be m of member i but is not what i signed. The forger is another member.
func forge(t *pbt.T, c *Committee, i, forger int, m *common.TssMessage, me int) (data []byte, what string) {
	return forgeR(c, i, forger, m, me, func(n uint64) uint64 { return t.Choose(n) })
}

func forgeR(c *Committee, i, forger int, m *common.TssMessage, me int, choose func(uint64) uint64) (data []byte, what string) {
	good := c.Sign(i, m)
	kind := choose(9)
	switch kind {
	case 0:
		s := c.Sign(forger, m)
		s.From = good.From
		return Wire(s), "signed by another member"
	case 1:
		s := c.Sign(forger, m)
		return Wire(s), "signed by another member under its own name"
	case 2:
		x := CloneTss(m)
		x.From = c.Members[forger].ID()
		s := c.Sign(forger, x)
		s.From = good.From
		s.TssMessage.From = good.From
		return Wire(s), "sender replaced after signing"
	case 3:
		good.Signature = nil
		return Wire(good), "without a signature"
	case 4:
		sig := append([]byte{}, good.Signature...)
		sig[choose(uint64(len(sig)))] ^= 1 << choose(8)
		good.Signature = sig
		return Wire(good), "signature with a flipped bit"
	case 5:
		good.Signature = good.Signature[:choose(uint64(len(good.Signature)))]
		return Wire(good), "signature cut short"
	case 6:
		x := CloneTss(m)
		x.WorkId += "y"
		good.Signature = c.Sign(i, x).Signature
		return Wire(good), "signature of another message of the same sender"
	case 7:
		out := pbt.NewRand(choose(1 << 62))
		s := &common.SignedMessage{From: good.From, TssMessage: m}
		k := privKey(out, false)
		bz := []byte(Wire(&common.SignedMessage{TssMessage: m}))
		s.Signature, _ = k.Sign(bz)
		return Wire(s), "signed by a stranger"
	}
	// Content changed after signing.
	x := CloneTss(m)
	switch choose(4) {
	case 0:
		x.To = c.Members[me].ID()
		if m.To != "" {
			x.To = ""
		}
	case 1:
		if x.PreExecOutputMessage != nil {
			x.PreExecOutputMessage.Success = !x.PreExecOutputMessage.Success
		} else if x.AvailabilityResponseMessage != nil {
			x.AvailabilityResponseMessage.MaxJob++
		} else if len(x.UpdateMessages) > 0 && x.UpdateMessages[0] != nil {
			u := x.UpdateMessages[choose(uint64(len(x.UpdateMessages)))]
			u.Data = append(u.Data, 0)
		} else if x.AskRequestMessage != nil {
			x.AskRequestMessage.MsgKey += "__"
		} else {
			x.WorkId += "z"
		}
	case 2:
		if len(x.UpdateMessages) > 0 {
			x.UpdateMessages[0].SerializedMessageRouting = []byte("{} ")
		} else {
			x.AvailabilityResponseMessage = &common.AvailabilityResponseMessage{MaxJob: 7}
		}
	case 3:
		x.AskRequestMessage = &common.AskRequestMessage{MsgKey: "a__b__c__d"}
	}
	good.TssMessage = x
	return Wire(good), "content changed after signing"
}

// Forged: for each kind of message, forged copies change nothing and the genuine one, whoever passes it
// on, takes effect.
func Forged(t *pbt.T) {
	n := t.Int(3, 5)
	c := getDealt(n, 1, t.Prob(1, 3), t.Int(0, 3)).C
	me := t.Int(0, n-1)
	id := func(i int) string { return c.Members[i].ID() }
	cfg := neverLimits(t)
	s := NewSolo(t, c, me, cfg, func(db.Database) {})
	forger := s.Others()[t.Choose(uint64(n-1))]
	victim := forger
	for victim == forger {
		victim = s.Others()[t.Choose(uint64(n-1))]
	}
	peer := func() string { return id(s.Others()[t.Choose(uint64(n-1))]) }
	quiet := func(what string, effect func() bool) {
		time.Sleep(time.Millisecond)
		if effect() {
			t.Failf("forged-effect", "a forged message (%s) took effect", what)
		}
	}
	var genuine *common.TssMessage
	var effect func() bool
	work := fmt.Sprintf("f%d", t.Int(0, 99))
	kind := t.OneOf("request", "response", "selection", "update", "ask")
	switch kind {
	case "request": // the node of a running work answers the one who asks
		work = c.LedBy(work, forger)
		if err := s.Add(schedReq(c, work, 2)); err != nil {
			t.Failf("request-refused", "%v", err)
		}
		t.Eventually(5*time.Second, "no-response", "the member answers its leader", func() bool { return len(s.Sent("response", work)) == 1 })
		genuine = common.NewAvailabilityRequestMessage(id(victim), id(me), work)
		effect = func() bool { return len(s.Sent("response", work)) > 1 || len(s.Node.Outcomes()) > 0 }
	case "response": // the leader of a work that needs two parties
		work = c.LedBy(work, me)
		if err := s.Add(schedReq(c, work, 2)); err != nil {
			t.Failf("request-refused", "%v", err)
		}
		genuine = common.NewAvailabilityResponseMessage(id(victim), id(me), work, common.AvailabilityResponseMessage_YES, 1)
		effect = func() bool { return len(s.Sent("selection", work)) > 0 || len(s.Node.Outcomes()) > 0 }
	case "selection":
		work = c.LedBy(work, victim)
		if err := s.Add(schedReq(c, work, 2)); err != nil {
			t.Failf("request-refused", "%v", err)
		}
		genuine = endMsg(c, me, victim, work, t.Bool())
		effect = func() bool { return len(s.Node.Outcomes()) > 0 }
	case "update":
		genuine = drawUpdate(t, id(victim), "", work, "r")
		key := work + "__" + id(victim) + "____r"
		effect = func() bool {
			before := len(s.Net.Log())
			s.Say(forger, common.NewRequestMessage(id(forger), id(me), work, key))
			return len(s.Net.Log()) > before
		}
	case "ask":
		m := drawUpdate(t, id(me), t.OneOf("", id(victim)), work, "r")
		s.Node.Engine.(dispatcher).BroadcastMessage(c.PidsOf([]int{victim}), m)
		base := len(s.Net.Log())
		genuine = common.NewRequestMessage(id(victim), t.OneOf("", id(me)), work, work+"__"+id(me)+"__"+m.To+"__r")
		effect = func() bool { return len(s.Net.Log()) > base }
	}
	early := kind == "response" && t.Bool()
	_ = early
	for i, k := 0, t.Int(1, 6); i < k; i++ {
		data, what := forge(t, c, victim, forger, genuine, me)
		t.Note("%s of n%d: %s", kind, victim, what)
		s.Bytes(peer(), data)
		quiet(kind+", "+what, effect)
	}
	// The genuine message for another node is not for this one.
	if genuine.To != "" && t.Prob(1, 3) {
		x := CloneTss(genuine)
		x.To = id(forger)
		s.Bytes(peer(), c.SignBytes(victim, x))
		quiet(kind+", addressed to another node", effect)
	}
	via := peer()
	t.Note("the genuine message comes by %s", c.Short(via))
	s.Bytes(via, c.SignBytes(victim, genuine))
	t.Eventually(5*time.Second, "genuine-ignored", "the genuine "+kind+" of a member takes effect", effect)
	for _, m := range s.Net.Log() {
		if m.Origin == id(me) {
			if err := CheckOutgoing(c, m); err != nil {
				t.Failf("outgoing-signature", "%s: %v", m.Kind, err)
			}
		}
	}
	t.Label("%s", kind)
	t.NonTrivial()
}

// ForgedStorm: a healthy work while each message is accompanied by forged copies and many messages are
// passed on by another node; everything has to succeed.
func ForgedStorm(p Proto) func(*pbt.T) {
	return func(t *pbt.T) {
		n := 3
		if p != EdKeygenP {
			n = t.Int(2, 4)
		}
		threshold := t.Int(1, n-1)
		s := drawScene(t, p, n, threshold, 1)
		r := t.Rand()
		per := t.Int(1, 2)
		relay := t.Int(0, 3)
		t.Note("%d forged copies of each message, %d of 4 are passed on by another node", per, relay)
		forged := 0
		var net *Net
		cfg := Generous(t)
		s.start(cfg, func(m *Msg) Action {
			if m.Signed == nil {
				return Action{}
			}
			net.mu.Lock()
			choose := func(k uint64) uint64 { return r.Uint64() % k }
			var out [][]byte
			for i := 0; i < per; i++ {
				f := int(choose(uint64(n)))
				if id := s.d.C.Members[f].ID(); id == m.Origin {
					f = (f + 1) % n
				}
				bz, _ := forgeR(s.d.C, s.d.C.Index(m.Origin), f, m.Signed.TssMessage, m.To, choose)
				out = append(out, bz)
				forged++
			}
			a := Action{}
			via := m.From
			if int(choose(4)) < relay {
				via = int(choose(uint64(n)))
			}
			net.mu.Unlock()
			for _, bz := range out {
				net.Deliver(m.From, m.To, bz, 0)
			}
			if via != m.From {
				net.Deliver(via, m.To, m.Data, 0)
				a.Drop = true
			}
			return a
		})
		net = s.cl.Net
		s.cl.Run(s.starts(seq(n), func(int) time.Duration { return 0 }), 60*time.Second)
		s.mustSucceed("forged", 10*time.Second, seq(n))
		for _, m := range net.Log() {
			if err := CheckOutgoing(s.d.C, m); err != nil {
				t.Failf("outgoing-signature", "%s of n%d: %v", m.Kind, m.From, err)
			}
		}
		s.cl.AllHandled(10*time.Second, "handler-stuck")
		if forged > 3 {
			t.NonTrivial()
		}
		t.Label("%s", p)
	}
}
