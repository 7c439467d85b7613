package sim

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/sisu-network/dheart/core/message"
	"github.com/sisu-network/dheart/types/common"
	wtypes "github.com/sisu-network/dheart/worker/types"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	edsigning "github.com/sisu-network/tss-lib/eddsa/signing"
	"github.com/sisu-network/tss-lib/tss"

	"dverif/pbt"
)

var workIDs = []string{"w", "", "_", "__", "___", "a__b", "a_", "_a", "keygen-1", "0xabc", "é", "a,b", "w__p__q__r", "<&>", "\"", "\u2028"}

func drawWorkID(t *pbt.T) string {
	if t.Prob(1, 3) {
		return t.Str(12, "a", "_", "__", "-", ",", "0", "é")
	}
	return workIDs[t.Choose(uint64(len(workIDs)))]
}

var allKinds = func() []string {
	var out []string
	for _, ks := range [][]string{EdSignKinds, EdKeygenKinds, EcKeygenKinds, EcSignKinds} {
		for _, k := range ks {
			out = append(out, "binance.tsslib.x."+k, k)
		}
	}
	return out
}()

type keyParts struct{ work, from, to, kind string }

// MessageKeys: keys can be taken apart again and different parts have different keys.
func MessageKeys(t *pbt.T) {
	c := DrawDealt(t, 4, 1).C
	draw := func() keyParts {
		p := keyParts{work: drawWorkID(t), from: c.Members[t.Int(0, 3)].ID(), kind: allKinds[t.Choose(uint64(len(allKinds)))]}
		if t.Bool() {
			p.to = c.Members[t.Int(0, 3)].ID()
		}
		return p
	}
	seen := map[string]keyParts{}
	base := draw()
	k := t.Int(2, 12)
	for i := 0; i < k; i++ {
		p := base
		o := draw()
		switch t.Int(0, 5) {
		case 0:
			p = o
		case 1:
			p.work = o.work
		case 2:
			p.from = o.from
		case 3:
			p.to = o.to
		case 4:
			p.kind = o.kind
		case 5: // parts move between the fields
			p.work = p.work + "__" + p.from
		}
		key := common.GetMessageKey(p.work, p.from, p.to, p.kind)
		t.Note("%q: %+v", key, p)
		if q, ok := seen[key]; ok && q != p {
			t.Failf("key-collision", "%+v and %+v have the same key %q", p, q, key)
		}
		seen[key] = p
		parts, err := common.ExtractMessageKey(key)
		if err != nil || len(parts) != 4 || parts[0] != p.work || parts[1] != p.from || parts[2] != p.to || parts[3] != p.kind {
			t.Failf("key-split", "key %q of %+v is split into %q, %v", key, p, parts, err)
		}
		m := &common.TssMessage{Type: common.TssMessage_UPDATE_MESSAGES, WorkId: p.work, From: p.from, To: p.to}
		for j := 1 + t.Weighted(4, 2, 1, 1, 1, 1, 1, 1, 1); j > 0; j-- {
			m.UpdateMessages = append(m.UpdateMessages, &common.UpdateMessage{Round: p.kind, Data: t.Bulk(t.Int(0, 3))})
		}
		if got, err := m.GetMessageKey(); err != nil || got != key {
			t.Failf("key-of-message", "%v has the key %q, %v, want %q", m, got, err, key)
		}
		if strings.Contains(p.work, "_") {
			t.NonTrivial()
		}
	}
	// Anything else is refused or split into four parts that make it up.
	s := t.Str(14, "a", "_", "__", "b")
	if parts, err := common.ExtractMessageKey(s); err == nil {
		if len(parts) != 4 || common.GetMessageKey(parts[0], parts[1], parts[2], parts[3]) != s {
			t.Failf("key-split-any", "%q is split into %q", s, parts)
		}
	} else if strings.Count(s, "__") >= 3 {
		t.Failf("key-refused", "%q: %v", s, err)
	}
}

func recode(t *pbt.T, m *common.TssMessage, sig []byte) *common.TssMessage {
	s := &common.SignedMessage{From: m.From, TssMessage: m, Signature: sig}
	bz, err := json.Marshal(s)
	if err != nil {
		t.Failf("encode", "%v: %v", m, err)
	}
	out := &common.SignedMessage{}
	if err := json.Unmarshal(bz, out); err != nil {
		t.Failf("decode", "%s: %v", bz, err)
	}
	if out.From != s.From || !bytes.Equal(out.Signature, sig) || !proto.Equal(out.TssMessage, m) {
		t.Failf("round-trip", "%v is decoded as %v", s, out)
	}
	again, err := json.Marshal(out.TssMessage)
	first, err2 := json.Marshal(m)
	if err != nil || err2 != nil || !bytes.Equal(again, first) {
		t.Failf("encoding-changes", "%s encoded again is %s (its signature covers the encoding)", first, again)
	}
	return out.TssMessage
}

// Envelopes: every kind of message made by the constructors keeps its parts through the network encoding.
func Envelopes(t *pbt.T) {
	c := DrawDealt(t, 4, 1).C
	from, to, work := c.Members[t.Int(0, 3)].ID(), "", drawWorkID(t)
	if t.Bool() {
		to = c.Members[t.Int(0, 3)].ID()
	}
	sig := t.Bytes(t.Int(0, 80))
	var m *common.TssMessage
	var check func(m *common.TssMessage) bool
	var typ common.TssMessage_Type
	switch t.Int(0, 4) {
	case 0:
		typ = common.TssMessage_AVAILABILITY_REQUEST
		m = common.NewAvailabilityRequestMessage(from, to, work)
		check = func(m *common.TssMessage) bool { return true }
	case 1:
		typ = common.TssMessage_AVAILABILITY_RESPONSE
		a := common.AvailabilityResponseMessage_ANSWER(t.Int(0, 1))
		k := t.Int(0, 10)
		m = common.NewAvailabilityResponseMessage(from, to, work, a, k)
		check = func(m *common.TssMessage) bool {
			r := m.AvailabilityResponseMessage
			return r != nil && r.Answer == a && int(r.MaxJob) == k
		}
	case 2:
		typ = common.TssMessage_PRE_EXEC_OUTPUT
		ok := t.Bool()
		var ids []string
		for i := t.Int(0, 3); i > 0; i-- {
			ids = append(ids, t.Str(6, "a", "b", "-", ",", "0"))
		}
		sel := t.Subset(4, t.Int(0, 4))
		m = common.NewPreExecOutputMessage(from, to, work, ok, ids, c.PidsOf(sel))
		check = func(m *common.TssMessage) bool {
			p := m.PreExecOutputMessage
			if p == nil || p.Success != ok || len(p.Pids) != len(sel) || len(p.PresignIds) != len(ids) {
				return false
			}
			for i, s := range sel {
				if p.Pids[i] != c.Members[s].ID() {
					return false
				}
			}
			for i := range ids {
				if p.PresignIds[i] != ids[i] {
					return false
				}
			}
			return true
		}
	case 3:
		typ = common.TssMessage_ASK_MESSAGE_REQUEST
		key := common.GetMessageKey(drawWorkID(t), from, to, allKinds[t.Choose(uint64(len(allKinds)))])
		m = common.NewRequestMessage(from, to, work, key)
		check = func(m *common.TssMessage) bool {
			return m.AskRequestMessage != nil && m.AskRequestMessage.MsgKey == key
		}
	case 4:
		typ = common.TssMessage_UPDATE_MESSAGES
		var msgs []tss.Message
		var contents []proto.Message
		pid := c.Pids()[t.Int(0, 3)]
		for i := t.Int(1, 4); i > 0; i-- {
			meta := tss.MessageRouting{From: pid, IsBroadcast: true}
			var content tss.MessageContent
			if t.Bool() {
				content = &edsigning.SignRound1Message{Commitment: t.Bytes(t.Int(0, 40))}
			} else {
				content = &eckeygen.KGRound3Message{PaillierProof: [][]byte{t.Bytes(t.Int(0, 40)), t.Bytes(3)}}
			}
			contents = append(contents, content)
			msgs = append(msgs, tss.NewMessage(meta, content, tss.NewMessageWrapper(meta, content)))
		}
		round := allKinds[t.Choose(uint64(len(allKinds)))]
		var err error
		if m, err = common.NewTssMessage(from, to, work, msgs, round); err != nil {
			t.Failf("make", "NewTssMessage: %v", err)
		}
		check = func(m *common.TssMessage) bool {
			if len(m.UpdateMessages) != len(msgs) {
				return false
			}
			for i, u := range m.UpdateMessages {
				p, err := tss.ParseWireMessage(u.Data, pid, true)
				if err != nil || u.Round != round || !proto.Equal(p.Content(), contents[i]) {
					return false
				}
			}
			return true
		}
	}
	t.Note("%v", m)
	for _, x := range []*common.TssMessage{m, recode(t, m, sig)} {
		if x.Type != typ || x.From != from || x.To != to || x.WorkId != work || !check(x) {
			t.Failf("content", "a message %s from %s to %q of %q is %v", typ, from, to, work, x)
		}
		if x.IsBroadcast() != (to == "") {
			t.Failf("broadcast", "%v: IsBroadcast is %v", x, x.IsBroadcast())
		}
	}
	if to == "" || work != "" {
		t.NonTrivial()
	}
}

var roundRe = regexp.MustCompile(`Round(\d+)Message`)

// Protocols runs the protocols of tss-lib with all their messages passing through the network encoding,
// and compares what they really send with the tables.
func Protocols(p Proto) func(*pbt.T) {
	return func(t *pbt.T) {
		n := 2 + t.Weighted(2, 1)
		if p == EdSigning || p == EdKeygenP {
			n = t.Int(2, 4)
		}
		threshold := n - 1
		d := DrawDealt(t, n, threshold)
		c := d.C
		pids := c.Pids()
		out := make(chan tss.Message, 1000)
		done := make(chan interface{}, 100)
		var parties []tss.Party
		msg := t.Bulk(32)
		msg[0] |= 1
		var wt wtypes.WorkType
		presigned := p == EcPresigned
		base := message.EcKeygen1
		var pres []*ecsigning.SignatureData_OneRoundData
		if presigned {
			pres = c.DealPresign(t.Rand(), d.Ec(0), seq(n), scalar(t.Rand(), ecN))
		}
		for i := range pids {
			params := tss.NewParameters(tss.NewPeerContext(pids), pids[i], n, threshold)
			switch p {
			case EdKeygenP:
				wt, base = wtypes.EdKeygen, message.EdKeygen1
				end := make(chan edkeygen.LocalPartySaveData, 1)
				go func() { done <- <-end }()
				parties = append(parties, edkeygen.NewLocalParty(params, out, end))
			case EcKeygenP:
				wt, base = wtypes.EcKeygen, message.EcKeygen1
				end := make(chan eckeygen.LocalPartySaveData, 1)
				go func() { done <- <-end }()
				parties = append(parties, eckeygen.NewLocalParty(params, out, end, *Preparams(i)))
			case EdSigning:
				wt, base = wtypes.EdSigning, message.EdSigning1
				end := make(chan *edsigning.SignatureData, 1)
				go func() { done <- <-end }()
				parties = append(parties, edsigning.NewLocalParty(new(big.Int).SetBytes(msg), params, *d.Ed(0).Copy(i), out, end))
			default:
				wt, base = wtypes.EcSigning, message.EcSigning1
				end := make(chan *ecsigning.SignatureData, 1)
				go func() { done <- <-end }()
				var one *ecsigning.SignatureData_OneRoundData
				if presigned {
					one = pres[i]
				}
				parties = append(parties, ecsigning.NewLocalParty(new(big.Int).SetBytes(msg), params, *d.Ec(0).Copy(i), one, out, end))
			}
		}
		sent := map[string]map[string]bool{} // sender, kind
		var order []string
		fail := make(chan string, 100)
		starting := &sync.WaitGroup{}
		for _, party := range parties {
			starting.Add(1)
			go func(party tss.Party) {
				defer starting.Done()
				if err := party.Start(); err != nil {
					fail <- fmt.Sprintf("Start: %v", err)
				}
			}(party)
		}
		starting.Wait()
		work := drawWorkID(t)
		finished := 0
		table := message.GetMessagesByWorkType(wt)
		for finished < n || len(out) > 0 {
			select {
			case <-done:
				finished++
			case e := <-fail:
				t.Failf("protocol", "%s does not work with decoded messages: %s", p, e)
			case <-time.After(t.Limit(60 * time.Second)):
				t.Stuckf("protocol-stuck", "%s does not finish with decoded messages", p)
			case m := <-out:
				from := m.GetFrom()
				if sent[from.Id] == nil {
					sent[from.Id] = map[string]bool{}
				}
				sent[from.Id][m.Type()] = true
				if len(order) == 0 || order[len(order)-1] != m.Type() {
					order = append(order, m.Type())
				}
				pm := m.(tss.ParsedMessage)
				round, err := message.GetMsgRound(pm.Content())
				k, _ := strconv.Atoi(roundRe.FindStringSubmatch(m.Type())[1])
				if err != nil || round != base+message.Round(k-1) {
					t.Failf("stage", "the stage of %s is %d, %v, want %d", m.Type(), round, err, base+message.Round(k-1))
				}
				if message.IsBroadcastMessage(m.Type()) != m.IsBroadcast() {
					t.Failf("table-broadcast", "%s: broadcast %v in the table, %v in the protocol", m.Type(), message.IsBroadcastMessage(m.Type()), m.IsBroadcast())
				}
				if !contains(table, m.Type()) {
					t.Failf("table-missing", "%s is not among the messages of %s: %v", m.Type(), wt, table)
				}
				to := ""
				if m.GetTo() != nil {
					to = m.GetTo()[0].Id
				}
				tm, err := common.NewTssMessage(from.Id, to, work, []tss.Message{m}, m.Type())
				if err != nil {
					t.Failf("encode-tss", "%v", err)
				}
				got := recode(t, tm, []byte{1})
				key, err := got.GetMessageKey()
				if err != nil || key != common.GetMessageKey(work, from.Id, to, m.Type()) {
					t.Failf("key-of-message", "%s has the key %q, %v", m.Type(), key, err)
				}
				parsed, err := tss.ParseWireMessage(got.UpdateMessages[0].Data, from, got.IsBroadcast())
				if err != nil || parsed.Type() != m.Type() || parsed.IsBroadcast() != m.IsBroadcast() || !proto.Equal(parsed.Content(), pm.Content()) {
					t.Failf("decode-tss", "%s is decoded as %v, %v", m, parsed, err)
				}
				for i, party := range parties {
					if pids[i].Id == from.Id || (to != "" && pids[i].Id != to) {
						continue
					}
					x, _ := tss.ParseWireMessage(got.UpdateMessages[0].Data, pids[from.Index], got.IsBroadcast())
					go func(party tss.Party) {
						if _, err := party.Update(x); err != nil {
							fail <- err.Error()
						}
					}(party)
				}
			}
		}
		want := message.GetMessageCountByWorkType(wt, presigned)
		for id, kinds := range sent {
			if len(kinds) != want {
				t.Failf("count", "%s sent %d kinds of messages in a %s (presigned %v), the table says %d", c.Short(id), len(kinds), p, presigned, want)
			}
			if !presigned && len(kinds) != len(table) {
				t.Failf("table-extra", "%s sent %d kinds, the table has %v", c.Short(id), len(kinds), table)
			}
		}
		if len(sent) != n {
			t.Failf("count", "only %d of %d parties sent something", len(sent), n)
		}
		// The table lists the kinds in the order of the rounds.
		last := 0
		for _, k := range table {
			r, _ := strconv.Atoi(roundRe.FindStringSubmatch(k)[1])
			if r < last {
				t.Failf("table-order", "%v", table)
			}
			last = r
		}
		t.NonTrivial()
		t.Label("%s", p)
	}
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}
