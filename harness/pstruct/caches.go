// Package pstruct holds model-based checks of the in-memory data structures.
package pstruct

import (
	"fmt"
	"math/big"
	"sync"

	"dverif/pbt"

	"github.com/sisu-network/dheart/core/cache"
	"github.com/sisu-network/dheart/tools"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/tss-lib/tss"
)

type cmsg struct {
	id       int
	from, wk string
	typ      common.TssMessage_Type
	m        *common.TssMessage
}

const perSender = 64

var kinds = []common.TssMessage_Type{
	common.TssMessage_UPDATE_MESSAGES, common.TssMessage_AVAILABILITY_REQUEST,
	common.TssMessage_AVAILABILITY_RESPONSE, common.TssMessage_PRE_EXEC_OUTPUT,
}

// MessageCacheModel compares cache.MessageCache with a bounded list per sender.
func MessageCacheModel(t *pbt.T) {
	c := cache.NewMessageCache()
	model := map[string][]*cmsg{}
	nS, nW := t.Int(1, 5), t.Int(1, 4)
	steps := t.Int(1, 60)
	big_ := t.Prob(1, 2) // cases that reach the capacity
	id, pops, overflow, multi := 0, 0, false, false
	for s := 0; s < steps; s++ {
		switch t.Weighted(6, 3, 2) {
		case 0:
			k := 1
			if big_ {
				k = t.Int(1, 40)
			}
			from := fmt.Sprintf("s%d", t.Int(0, nS-1))
			fixed := t.Prob(2, 3)
			wk := fmt.Sprintf("w%d", t.Int(0, nW-1))
			for i := 0; i < k; i++ {
				if !fixed && i > 0 {
					wk = fmt.Sprintf("w%d", t.Int(0, nW-1))
				}
				m := &cmsg{id: id, from: from, wk: wk, typ: kinds[t.Int(0, len(kinds)-1)]}
				m.m = &common.TssMessage{From: from, WorkId: wk, Type: m.typ, To: fmt.Sprint(id)}
				id++
				c.AddMessage(m.m)
				l := append(model[from], m)
				if len(l) > perSender {
					l = l[len(l)-perSender:]
					overflow = true
				}
				model[from] = l
			}
			t.Note("add %d from %s (work %s..)", k, from, wk)
		case 1:
			wk := fmt.Sprintf("w%d", t.Int(0, nW-1))
			var filter map[common.TssMessage_Type]bool
			switch t.Weighted(2, 1, 1, 1) {
			case 1:
				filter = common.GetPreworkSelectionMsgType()
			case 2:
				filter = common.GetUpdateMessageType()
			case 3:
				filter = map[common.TssMessage_Type]bool{kinds[t.Int(0, 3)]: true}
			}
			got := c.PopAllMessages(wk, filter)
			t.Note("pop %s filter %v -> %d", wk, filter, len(got))
			nz := 0
			for _, l := range model {
				if len(l) > 0 {
					nz++
				}
			}
			multi = multi || nz > 1
			checkTaken(t, got, model, wk, filter)
			for from, l := range model {
				var keep []*cmsg
				for _, m := range l {
					if !(m.wk == wk && (filter == nil || filter[m.typ])) {
						keep = append(keep, m)
					}
				}
				model[from] = keep
			}
			pops++
		case 2:
			wk := fmt.Sprintf("w%d", t.Int(0, nW-1))
			got := c.GetAllMessages(wk)
			t.Note("get %s -> %d", wk, len(got))
			checkTaken(t, got, model, wk, nil)
		}
	}
	for w := 0; w < nW; w++ {
		wk := fmt.Sprintf("w%d", w)
		checkTaken(t, c.GetAllMessages(wk), model, wk, nil)
	}
	if overflow {
		t.Label("overflow")
	}
	if multi {
		t.Label("pop-with-several-senders")
	}
	if pops > 0 && (overflow || multi) {
		t.NonTrivial()
	}
}

func checkTaken(t *pbt.T, got []*common.TssMessage, model map[string][]*cmsg, wk string, filter map[common.TssMessage_Type]bool) {
	by := map[string][]*common.TssMessage{}
	for _, m := range got {
		if m == nil {
			t.Failf("cache-content", "nil message returned for work %s", wk)
		}
		by[m.From] = append(by[m.From], m)
	}
	total := 0
	for from, l := range model {
		var want []*cmsg
		for _, m := range l {
			if m.wk == wk && (filter == nil || filter[m.typ]) {
				want = append(want, m)
			}
		}
		total += len(want)
		g := by[from]
		if len(g) != len(want) {
			t.Failf("cache-content", "work %s sender %s: got %d messages %v, want %d %v", wk, from, len(g), ids(g), len(want), idsm(want))
		}
		for i := range want {
			if g[i] != want[i].m && (g[i].To != want[i].m.To || g[i].WorkId != want[i].wk || g[i].Type != want[i].typ) {
				t.Failf("cache-content", "work %s sender %s: got messages %v, want %v", wk, from, ids(g), idsm(want))
			}
		}
	}
	if total != len(got) {
		t.Failf("cache-content", "work %s: %d messages returned, want %d", wk, len(got), total)
	}
}

func ids(l []*common.TssMessage) (r []string) {
	for _, m := range l {
		r = append(r, m.To)
	}
	return
}
func idsm(l []*cmsg) (r []string) {
	for _, m := range l {
		r = append(r, m.m.To)
	}
	return
}

// CircularQueueModel compares tools.CircularQueue with the log of its additions.
func CircularQueueModel(t *pbt.T) {
	size := t.Int(1, 9)
	if t.Prob(1, 8) {
		size = t.Int(10, 200)
	}
	q := tools.NewCircularQueue(size)
	nk := t.Int(1, size*2+2)
	n := t.Int(1, size*4+6)
	type e struct {
		k string
		v int
	}
	var log []e
	wrap, dup := false, false
	for i := 0; i < n; i++ {
		k := fmt.Sprintf("k%d", t.Int(0, nk-1))
		for _, x := range log[lastN(len(log), size):] {
			if x.k == k {
				dup = true
			}
		}
		q.Add(k, i)
		log = append(log, e{k, i})
		wrap = wrap || len(log) > size
		checkEvery := i == n-1 || size < 10 || i%7 == 0
		if !checkEvery {
			continue
		}
		for j := 0; j < nk; j++ {
			key := fmt.Sprintf("k%d", j)
			want := -1
			for _, x := range log[lastN(len(log), size):] {
				if x.k == key {
					want = x.v
				}
			}
			got := -1
			if v := q.Get(key); v != nil {
				got = v.(int)
			}
			if got != want {
				t.Failf("queue-content", "size %d, additions %v: Get(%s) = %d, want %d (-1: absent)", size, log, key, got, want)
			}
		}
	}
	t.Note("size %d, %d keys, %d additions: %v", size, nk, n, log[:min(len(log), 30)])
	if wrap {
		t.Label("wrapped")
	}
	if dup {
		t.Label("repeated-key")
	}
	if wrap {
		t.NonTrivial()
	}
}

func lastN(l, n int) int {
	if l > n {
		return l - n
	}
	return 0
}
func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// WorkCacheModel compares cache.WorkMessageCache with one bounded log per sender.
func WorkCacheModel(t *pbt.T) {
	per := t.Int(1, 5)
	if t.Prob(1, 6) {
		per = cache.MaxMessagePerNode
	}
	me := "me"
	c := cache.NewWorkMessageCache(per, tss.NewPartyID(me, "", big.NewInt(1)))
	senders := []string{me, "a", "b", "c"}[:t.Int(2, 4)]
	nk := t.Int(1, per*6+2)
	n := t.Int(1, per*12+8)
	type e struct {
		k string
		m *common.SignedMessage
	}
	logs := map[string][]e{}
	focus := senders[t.Int(0, len(senders)-1)]
	for i := 0; i < n; i++ {
		from := focus
		if t.Prob(1, 3) {
			from = senders[t.Int(0, len(senders)-1)]
		}
		k := fmt.Sprintf("k%d", t.Int(0, nk-1))
		m := &common.SignedMessage{From: from, Signature: []byte(fmt.Sprint(i))}
		c.Add(k, m)
		logs[from] = append(logs[from], e{k, m})
		if n > 60 && i%5 != 0 && i != n-1 {
			continue
		}
		for _, s := range append([]string{"nobody"}, senders...) {
			cp := per
			if s == me {
				cp = per * 5
			}
			for j := 0; j < nk; j++ {
				key := fmt.Sprintf("k%d", j)
				want := ""
				for _, x := range logs[s][lastN(len(logs[s]), cp):] {
					if x.k == key {
						want = string(x.m.Signature)
					}
				}
				got := ""
				if v := c.Get(s, key); v != nil {
					got = string(v.Signature)
					if v.From != s {
						t.Failf("workcache-content", "Get(%s,%s) returned a message from %s", s, key, v.From)
					}
				}
				if got != want {
					t.Failf("workcache-content", "capacity %d, sender %s (own node: %v) after %d additions: Get(%s) = %q, want %q", per, s, s == me, len(logs[s]), key, got, want)
				}
			}
		}
	}
	t.Note("per sender %d, senders %v, %d keys, %d additions (focus %s)", per, senders, nk, n, focus)
	for s, l := range logs {
		if s == me && len(l) > per*5 {
			t.Label("own-overflow")
			t.NonTrivial()
		}
		if s != me && len(l) > per {
			t.Label("peer-overflow")
			t.NonTrivial()
		}
	}
}

// CachesConcurrent: every goroutine owns a sender and a work; its view must be
// that of a sequential user of the caches, whatever the others do.
func CachesConcurrent(t *pbt.T) {
	g := t.Int(2, 6)
	seed := t.Seed()
	rounds := t.Int(20, 200)
	mc := cache.NewMessageCache()
	wc := cache.NewWorkMessageCache(8, tss.NewPartyID("s0", "", big.NewInt(1)))
	cq := tools.NewCircularQueue(g * 400)
	t.Note("%d goroutines, %d rounds", g, rounds)
	var wg sync.WaitGroup
	for i := 0; i < g; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			r := pbt.NewRand(pbt.Mix(seed, uint64(i)))
			from, wk := fmt.Sprintf("s%d", i), fmt.Sprintf("w%d", i)
			pending, n := 0, 0
			for k := 0; k < rounds; k++ {
				for a := 0; a < r.Intn(12); a++ {
					mc.AddMessage(&common.TssMessage{From: from, WorkId: wk, To: fmt.Sprint(n)})
					wc.Add(fmt.Sprintf("%s-%d", from, n), &common.SignedMessage{From: from, Signature: []byte(fmt.Sprint(n))})
					pending++
					n++
				}
				if r.Intn(2) == 0 {
					cq.Add(fmt.Sprintf("%d-%d", i, k), k)
					if v := cq.Get(fmt.Sprintf("%d-%d", i, k)); v == nil || v.(int) != k {
						t.Record("concurrent", "circular queue lost a key just added: %v", v)
						return
					}
				}
				if n > 0 {
					if v := wc.Get(from, fmt.Sprintf("%s-%d", from, n-1)); v == nil || string(v.Signature) != fmt.Sprint(n-1) {
						t.Record("concurrent", "work cache lost the message just added by %s", from)
						return
					}
				}
				want := min(pending, perSender)
				got := mc.GetAllMessages(wk)
				if len(got) != want {
					t.Record("concurrent", "sender %s: %d pending messages of its work, want %d", from, len(got), want)
					return
				}
				for x, m := range got {
					if m.To != fmt.Sprint(n-want+x) || m.From != from {
						t.Record("concurrent", "sender %s: message %d is %s/%s, want number %d", from, x, m.From, m.To, n-want+x)
						return
					}
				}
				if r.Intn(3) == 0 {
					if p := mc.PopAllMessages(wk, nil); len(p) != want {
						t.Record("concurrent", "sender %s: took %d messages, want %d", from, len(p), want)
						return
					}
					pending = 0
				}
			}
		}(i)
	}
	wg.Wait()
	t.StopIfFailed()
	t.NonTrivial()
}
