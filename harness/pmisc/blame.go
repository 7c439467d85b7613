package pmisc

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"

	"github.com/sisu-network/dheart/blame"
	"github.com/sisu-network/tss-lib/tss"

	"dverif/pbt"
)

type blameKey struct {
	work  string
	round uint32
}

type blameModel struct {
	sent    map[blameKey]map[string]bool
	accused map[blameKey]map[string]bool
	pre     []string
}

func newBlameModel() *blameModel {
	return &blameModel{sent: map[blameKey]map[string]bool{}, accused: map[blameKey]map[string]bool{}}
}

func put(m map[blameKey]map[string]bool, k blameKey, ids ...string) {
	if m[k] == nil {
		m[k] = map[string]bool{}
	}
	for _, i := range ids {
		m[k][i] = true
	}
}

func (m *blameModel) culprits(k blameKey, parties []string) string {
	var out []string
	for _, p := range parties {
		if !m.sent[k][p] || m.accused[k][p] {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func idsOf(ps []*tss.PartyID) string {
	var out []string
	for _, p := range ps {
		if p == nil {
			out = append(out, "<nil>")
			continue
		}
		out = append(out, p.Id)
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

var blameWorks = []string{"w", "w:1", "w:", "", "w1", "1", "W", ":1"}
var blameRounds = []uint32{1, 0, 2, 3, 10, 11, 4294967295}

// Blame compares the blame manager with a reference model over random histories.
func Blame(t *pbt.T) {
	n := t.Int(1, 8)
	var all []*tss.PartyID
	for i := 0; i < n+3; i++ { // the last three are outsiders
		all = append(all, tss.NewPartyID(fmt.Sprintf("p%d", i), "", big.NewInt(int64(i+1))))
	}
	m := blame.NewManager()
	ref := newBlameModel()
	nw, nr := t.Int(1, len(blameWorks)), t.Int(1, len(blameRounds))
	key := func() blameKey {
		return blameKey{blameWorks[t.Int(0, nw-1)], blameRounds[t.Int(0, nr-1)]}
	}
	some := func() (ps []*tss.PartyID, ids []string) {
		for k := t.Int(0, 3); k > 0; k-- {
			p := all[t.Int(0, len(all)-1)]
			ps, ids = append(ps, p), append(ids, p.Id)
		}
		return
	}
	check := func(k blameKey, parties []int) {
		mp := map[string]*tss.PartyID{}
		var ids []string
		for _, i := range parties {
			mp[all[i].Id] = all[i]
			ids = append(ids, all[i].Id)
		}
		got := m.GetRoundCulprits(k.work, k.round, mp)
		want := ref.culprits(k, ids)
		t.Note("culprits of work %q round %d among %v: %s", k.work, k.round, ids, idsOf(got))
		if idsOf(got) != want {
			t.Failf("wrong-culprits", "culprits of work %q round %d among %v are [%s], expected [%s]", k.work, k.round, ids, idsOf(got), want)
		}
		for _, p := range got {
			if mp[p.Id] != p {
				t.Failf("foreign-culprit", "the culprit %s is not the given participant", p.Id)
			}
		}
		if want != "" && len(ref.sent[k]) > 0 {
			t.NonTrivial()
		}
	}
	steps := t.Int(1, 40)
	for i := 0; i < steps; i++ {
		switch t.Weighted(6, 2, 1, 4, 1) {
		case 0:
			k, p := key(), all[t.Int(0, len(all)-1)]
			t.Note("sender %s in work %q round %d", p.Id, k.work, k.round)
			m.AddSender(k.work, k.round, p.Id)
			put(ref.sent, k, p.Id)
		case 1:
			k := key()
			ps, ids := some()
			t.Note("accuse %v in work %q round %d", ids, k.work, k.round)
			m.AddCulpritByRound(k.work, k.round, ps)
			put(ref.accused, k, ids...)
		case 2:
			ps, ids := some()
			t.Note("pre-execution culprits %v", ids)
			m.AddPreExecutionCulprit(ps)
			ref.pre = append(ref.pre, ids...)
		case 3:
			check(key(), t.Subset(n, t.Int(0, n)))
		case 4:
			check(key(), t.Subset(n+3, n+3))
		}
		pre := append([]string{}, ref.pre...)
		sort.Strings(pre)
		if got := idsOf(m.GetPreExecutionCulprits()); got != strings.Join(pre, " ") {
			t.Failf("pre-execution", "pre-execution culprits are [%s], expected %v", got, pre)
		}
	}
	every := make([]int, n)
	for i := range every {
		every[i] = i
	}
	for _, w := range blameWorks[:nw] {
		for _, r := range blameRounds[:nr] {
			check(blameKey{w, r}, every)
		}
	}
}

// BlameConcurrent adds from several routines at once; the final culprits must follow from all of it.
func BlameConcurrent(t *pbt.T) {
	n := t.Int(2, 8)
	var all []*tss.PartyID
	mp := map[string]*tss.PartyID{}
	var ids []string
	for i := 0; i < n; i++ {
		p := tss.NewPartyID(fmt.Sprintf("p%d", i), "", big.NewInt(int64(i+1)))
		all = append(all, p)
		mp[p.Id] = p
		ids = append(ids, p.Id)
	}
	m := blame.NewManager()
	ref := newBlameModel()
	type op struct {
		k      blameKey
		p      int
		accuse bool
	}
	routines := make([][]op, t.Int(2, 8))
	for i := range routines {
		for j := t.Int(1, 30); j > 0; j-- {
			o := op{blameKey{blameWorks[t.Int(0, 2)], blameRounds[t.Int(0, 2)]}, t.Int(0, n-1), t.Prob(1, 4)}
			routines[i] = append(routines[i], o)
			if o.accuse {
				put(ref.accused, o.k, all[o.p].Id)
			} else {
				put(ref.sent, o.k, all[o.p].Id)
			}
		}
	}
	var wg sync.WaitGroup
	for _, ops := range routines {
		wg.Add(1)
		go func(ops []op) {
			defer wg.Done()
			for _, o := range ops {
				if o.accuse {
					m.AddCulpritByRound(o.k.work, o.k.round, []*tss.PartyID{all[o.p]})
				} else {
					m.AddSender(o.k.work, o.k.round, all[o.p].Id)
				}
				m.GetRoundCulprits(o.k.work, o.k.round, mp)
			}
		}(ops)
	}
	wg.Wait()
	t.NonTrivial()
	for _, w := range blameWorks[:3] {
		for _, r := range blameRounds[:3] {
			k := blameKey{w, r}
			if got, want := idsOf(m.GetRoundCulprits(w, r, mp)), ref.culprits(k, ids); got != want {
				t.Failf("wrong-culprits-concurrent", "culprits of work %q round %d are [%s], expected [%s]", w, r, got, want)
			}
		}
	}
}
