package sim

import (
	"fmt"
	"sync"

	"dverif/pbt"
)

// Dealing EdDSA keys is slow, so committees with keys come from a pool; each entry is a function of
// its parameters alone.
type Dealt struct {
	C         *Committee
	Threshold int
	r         *pbt.Rand
	mu        sync.Mutex
	ed        []*EdKey
	ec        []*EcKey
}

var (
	poolMu sync.Mutex
	pool   = map[string]*Dealt{}
)

func getDealt(n, threshold int, mixed bool, idx int) *Dealt {
	key := fmt.Sprint(n, threshold, mixed, idx)
	poolMu.Lock()
	defer poolMu.Unlock()
	d := pool[key]
	if d == nil {
		r := pbt.NewRand(hash64(77, key))
		d = &Dealt{C: NewCommittee(r, n, mixed), Threshold: threshold, r: r}
		pool[key] = d
	}
	return d
}

// DrawDealt draws a committee of n members.
func DrawDealt(t *pbt.T, n, threshold int) *Dealt {
	return getDealt(n, threshold, t.Prob(1, 5), t.Int(0, 3))
}

func (d *Dealt) Ed(i int) *EdKey {
	d.mu.Lock()
	defer d.mu.Unlock()
	for len(d.ed) <= i {
		d.ed = append(d.ed, d.C.DealEd(pbt.NewRand(hash64(d.seed(), "ed", len(d.ed))), d.Threshold))
	}
	return d.ed[i]
}

func (d *Dealt) Ec(i int) *EcKey {
	d.mu.Lock()
	defer d.mu.Unlock()
	for len(d.ec) <= i {
		d.ec = append(d.ec, d.C.DealEc(pbt.NewRand(hash64(d.seed(), "ec", len(d.ec))), d.Threshold))
	}
	return d.ec[i]
}

func (d *Dealt) seed() uint64 { return hash64(3, d.C.Members[0].ID(), d.Threshold) }
