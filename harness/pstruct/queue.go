package pstruct

import (
	"fmt"
	"sync"

	"dverif/pbt"

	"github.com/sisu-network/dheart/core"
	"github.com/sisu-network/dheart/worker/types"
)

var workTypes = []types.WorkType{types.EcSigning, types.EcKeygen, types.EdSigning, types.EdKeygen}

func isKeygen(w types.WorkType) bool { return w == types.EcKeygen || w == types.EdKeygen }

// QueueModel compares the request queue with a two-class FIFO model.
func QueueModel(t *pbt.T) {
	q := core.NewRequestQueue()
	var model []*types.WorkRequest // in the order in which they have to come out
	n := t.Int(1, 40)
	nIds := t.Int(1, n)
	mixed, dups, pops := false, 0, 0
	desc := ""
	for i := 0; i < n; i++ {
		if t.Weighted(3, 1) == 0 {
			wt := workTypes[t.Int(0, 3)]
			id := fmt.Sprintf("w%d", t.Int(0, nIds))
			r := &types.WorkRequest{WorkType: wt, WorkId: id, Threshold: i}
			dup := false
			for _, m := range model {
				dup = dup || m.WorkId == id
			}
			got := q.AddWork(r)
			desc += fmt.Sprintf(" add(%s,%s)", id, wt)
			if got == dup {
				t.Failf("queue-add", "AddWork(%s) = %v although already waiting = %v;%s", id, got, dup, desc)
			}
			if dup {
				dups++
				continue
			}
			pos := len(model)
			if isKeygen(wt) {
				pos = 0
				for pos < len(model) && isKeygen(model[pos].WorkType) {
					pos++
				}
			}
			if pos < len(model) {
				mixed = true
			}
			model = append(model[:pos:pos], append([]*types.WorkRequest{r}, model[pos:]...)...)
		} else {
			got := q.Pop()
			pops++
			desc += " pop"
			checkPop(t, got, &model, desc)
		}
		if q.Size() != len(model) {
			t.Failf("queue-size", "size %d, want %d;%s", q.Size(), len(model), desc)
		}
	}
	t.Note("%s", desc)
	for len(model) > 0 {
		checkPop(t, q.Pop(), &model, desc+" drain")
	}
	if r := q.Pop(); r != nil {
		t.Failf("queue-order", "an empty queue returned %s", r.WorkId)
	}
	if mixed {
		t.Label("keygen-overtakes")
		t.NonTrivial()
	}
	if dups > 0 {
		t.Label("duplicate-id")
	}
}

func checkPop(t *pbt.T, got *types.WorkRequest, model *[]*types.WorkRequest, desc string) {
	if len(*model) == 0 {
		if got != nil {
			t.Failf("queue-order", "an empty queue returned %s;%s", got.WorkId, desc)
		}
		return
	}
	want := (*model)[0]
	if got == nil {
		t.Failf("queue-order", "got nothing, want %s;%s", want.WorkId, desc)
	}
	if got != want && (got.WorkId != want.WorkId || got.WorkType != want.WorkType || got.Threshold != want.Threshold) {
		t.Failf("queue-order", "got %s (%s), want %s (%s);%s", got.WorkId, got.WorkType, want.WorkId, want.WorkType, desc)
	}
	*model = (*model)[1:]
}

// QueueConcurrent: concurrent adders and takers; nothing lost, doubled or overtaken within a kind by one adder.
func QueueConcurrent(t *pbt.T) {
	q := core.NewRequestQueue()
	adders, takers := t.Int(1, 4), t.Int(1, 3)
	per := t.Int(5, 60)
	seed := t.Seed()
	total := adders * per
	t.Note("%d adders x %d works, %d takers", adders, per, takers)
	var mu sync.Mutex
	taken := map[string]int{}
	count := 0
	var wg sync.WaitGroup
	stop := make(chan struct{})
	var tw sync.WaitGroup
	for k := 0; k < takers; k++ {
		tw.Add(1)
		go func() {
			defer tw.Done()
			last := map[string]int{}
			for {
				r := q.Pop()
				if r == nil {
					select {
					case <-stop:
						return
					default:
						continue
					}
				}
				key := fmt.Sprintf("%d/%v", r.N, isKeygen(r.WorkType))
				if p, ok := last[key]; ok && p > r.Threshold {
					t.Record("queue-order", "adder %d: work number %d taken after number %d of the same kind", r.N, r.Threshold, p)
				}
				last[key] = r.Threshold
				mu.Lock()
				taken[r.WorkId]++
				count++
				mu.Unlock()
			}
		}()
	}
	for a := 0; a < adders; a++ {
		wg.Add(1)
		go func(a int) {
			defer wg.Done()
			r := pbt.NewRand(pbt.Mix(seed, uint64(a)))
			for i := 0; i < per; i++ {
				if !q.AddWork(&types.WorkRequest{WorkType: workTypes[r.Intn(4)], WorkId: fmt.Sprintf("%d-%d", a, i), N: a, Threshold: i}) {
					t.Record("queue-add", "fresh work id refused")
				}
			}
		}(a)
	}
	wg.Wait()
	ok := t.Wait(20e9, func() bool { mu.Lock(); defer mu.Unlock(); return count >= total || q.Size() == 0 })
	close(stop)
	tw.Wait()
	_ = ok
	for r := q.Pop(); r != nil; r = q.Pop() {
		taken[r.WorkId]++
	}
	if len(taken) != total {
		t.Failf("queue-order", "%d of %d works came out", len(taken), total)
	}
	for id, n := range taken {
		if n != 1 {
			t.Failf("queue-order", "work %s came out %d times", id, n)
		}
	}
	t.StopIfFailed()
	t.NonTrivial()
}
