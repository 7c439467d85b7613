package pdb

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"dverif/pbt"

	"github.com/sisu-network/dheart/core/components"
	"github.com/sisu-network/dheart/db"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	"github.com/sisu-network/tss-lib/tss"
)

// faultyDb fails the writes it is told to fail.
type faultyDb struct {
	db.Database
	failUpdate, failSave bool
	delay                func()
}

func (f *faultyDb) UpdatePresignStatus(ids []string) error {
	if f.delay != nil {
		f.delay()
	}
	if f.failUpdate {
		return errors.New("injected: cannot update")
	}
	return f.Database.UpdatePresignStatus(ids)
}

func (f *faultyDb) SavePresignData(w string, pids []*tss.PartyID, outs []*ecsigning.SignatureData_OneRoundData) error {
	if f.failSave {
		return errors.New("injected: cannot save")
	}
	return f.Database.SavePresignData(w, pids, outs)
}

type group struct {
	set  map[string]bool
	free map[string]bool // unused presign ids
}

func key(pids []*tss.PartyID) string {
	var s []string
	for _, p := range pids {
		if p == nil {
			s = append(s, "<nil>")
			continue
		}
		s = append(s, p.Id)
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

// Manager: random histories of adding, asking, failing and reloading against a model of unused presigns.
func Manager(t *pbt.T) {
	fd := &faultyDb{Database: Open(t)}
	m := components.NewAvailPresignManager(fd)
	if err := m.Load(); err != nil {
		t.Failf("presign-load", "%v", err)
	}
	parties := Pids(PidStyle(t), 6)
	inMem := map[string]map[string]bool{} // pid string -> ids the manager may still hand out
	handed := map[string]bool{}
	lost := map[string]string{} // consumed by a failed request: id -> pid string; may return after a reload
	addNo := 0
	interesting := 0
	steps := t.Int(2, 25)
	for s := 0; s < steps; s++ {
		t.StopIfFailed()
		switch t.Weighted(4, 6, 2, 1, 4) {
		case 0:
			n, k := t.Int(2, 4), t.Int(1, 6)
			var sel []*tss.PartyID
			for _, i := range t.Subset(6, n) {
				sel = append(sel, parties[i])
			}
			perm := t.Perm(n)
			sh := make([]*tss.PartyID, n)
			for i, j := range perm {
				sh[i] = sel[j]
			}
			r := t.Rand()
			outs := make([]*ecsigning.SignatureData_OneRoundData, k)
			for i := range outs {
				outs[i] = presign(r)
			}
			w := fmt.Sprintf("presign_%d", addNo)
			addNo++
			fd.failSave = t.Prob(1, 8)
			m.AddPresign(w, sh, outs)
			t.Note("add %d presigns %s of {%s} (save fails: %v)", k, w, key(sel), fd.failSave)
			if !fd.failSave {
				ks := key(sel)
				if inMem[ks] == nil {
					inMem[ks] = map[string]bool{}
				}
				for i := range outs {
					inMem[ks][fmt.Sprintf("%s-%d", w, i)] = true
				}
			}
			fd.failSave = false
		case 1, 3:
			batch := t.Int(1, 5)
			avail := map[string]*tss.PartyID{}
			var names []string
			for _, i := range t.Subset(6, t.Int(1, 6)) {
				avail[parties[i].Id] = parties[i]
				names = append(names, parties[i].Id)
			}
			fd.failUpdate = t.Prob(1, 8)
			var ids []string
			var pids []*tss.PartyID
			t.WithLimit(10*time.Second, "presign-blocked", "asking for presigns", func() {
				ids, pids = m.GetAvailablePresigns(batch, 6, avail)
			})
			t.Note("ask for %d, available %v, update fails %v -> %q of %v", batch, names, fd.failUpdate, ids, key(pids))
			possible := false
			for ks, free := range inMem {
				if len(free) >= batch && subset(ks, avail) {
					possible = true
				}
			}
			if fd.failUpdate {
				fd.failUpdate = false
				if len(ids) != 0 {
					t.Failf("presign-unmarked", "presigns %q were handed out although they could not be marked used", ids)
				}
				if possible {
					// Which group was consumed is the manager's choice: learn nothing, so stop trusting completeness
					// by reloading from the database (nothing was marked there).
					m = components.NewAvailPresignManager(fd)
					if err := m.Load(); err != nil {
						t.Failf("presign-load", "%v", err)
					}
				}
				continue
			}
			if len(ids) == 0 {
				if possible {
					t.Failf("presign-available", "asking for %d presigns with %v gives nothing although a suitable set exists", batch, names)
				}
				continue
			}
			if len(ids) != batch {
				t.Failf("presign-count", "asked for %d presigns, got %q", batch, ids)
			}
			interesting++
			ks := key(pids)
			for _, p := range pids {
				if p == nil || avail[p.Id] == nil {
					t.Failf("presign-parties", "presigns %q handed out with the parties %v, available were %v", ids, ks, names)
				}
			}
			for _, id := range ids {
				if handed[id] {
					t.Failf("presign-twice", "presign %q is handed out twice", id)
				}
				if !inMem[ks][id] {
					t.Failf("presign-parties", "presign %q is handed out for the parties %v, which did not make it", id, ks)
				}
				handed[id] = true
				delete(inMem[ks], id)
			}
			st, err := fd.LoadPresignStatus(ids)
			for _, x := range st {
				if x != db.PresignStatusUsed {
					err = fmt.Errorf("status %q", x)
				}
			}
			if err != nil {
				t.Failf("presign-unmarked", "presigns %q were handed out but are not marked used: %v", ids, err)
			}
		case 4:
			// Another node, the leader of a work, has chosen presigns.
			var pool []string
			for _, free := range inMem {
				for id := range free {
					pool = append(pool, id)
				}
			}
			sort.Strings(pool)
			var ids []string
			sound := true
			for i, k := 0, t.Int(1, 4); i < k; i++ {
				switch t.Weighted(6, 1, 1) {
				case 0:
					if len(pool) > 0 {
						ids = append(ids, pool[t.Choose(uint64(len(pool)))])
					}
				case 1:
					var old []string
					for id := range handed {
						old = append(old, id)
					}
					sort.Strings(old)
					if len(old) > 0 {
						ids = append(ids, old[t.Choose(uint64(len(old)))])
					}
				case 2:
					ids = append(ids, fmt.Sprintf("presign_%d-%d", t.Int(0, addNo+1), t.Int(0, 7)))
				}
			}
			if len(ids) == 0 {
				continue
			}
			seen := map[string]bool{}
			for _, id := range ids {
				free := false
				for _, f := range inMem {
					free = free || f[id]
				}
				if !free || seen[id] {
					sound = false
				}
				seen[id] = true
			}
			fd.failUpdate = t.Prob(1, 8)
			failing := fd.failUpdate
			var err error
			t.WithLimit(10*time.Second, "presign-blocked", "using presigns", func() { err = m.UsePresigns(ids) })
			fd.failUpdate = false
			t.Note("use %q, update fails %v -> %v", ids, failing, err)
			if failing || !sound {
				if err == nil {
					t.Failf("presign-use", "using %q gives no error although they are not all available (update fails: %v)", ids, failing)
				}
				if failing {
					m = components.NewAvailPresignManager(fd)
					if err := m.Load(); err != nil {
						t.Failf("presign-load", "%v", err)
					}
				}
				continue
			}
			if err != nil {
				t.Failf("presign-use", "using the available presigns %q: %v", ids, err)
			}
			interesting++
			for _, id := range ids {
				handed[id] = true
				for _, f := range inMem {
					delete(f, id)
				}
			}
			st, err := fd.LoadPresignStatus(ids)
			for _, x := range st {
				if x != db.PresignStatusUsed {
					err = fmt.Errorf("status %q", x)
				}
			}
			if err != nil {
				t.Failf("presign-unmarked", "presigns %q were used but are not marked used: %v", ids, err)
			}
		case 2:
			t.Note("reload")
			m = components.NewAvailPresignManager(fd)
			if err := m.Load(); err != nil {
				t.Failf("presign-load", "%v", err)
			}
		}
	}
	_ = lost
	if interesting >= 2 {
		t.NonTrivial()
	}
}

func subset(ks string, avail map[string]*tss.PartyID) bool {
	for _, p := range strings.Split(ks, ",") {
		if avail[p] == nil {
			return false
		}
	}
	return true
}

// ManagerConcurrent: several requests at once never share a presign, block or come back incomplete.
func ManagerConcurrent(t *pbt.T) {
	fd := &faultyDb{Database: Open(t)}
	if t.Bool() {
		d := time.Duration(t.Int(0, 400)) * time.Microsecond
		fd.delay = func() { time.Sleep(d) }
	}
	m := components.NewAvailPresignManager(fd)
	parties := Pids(PidStyle(t), 5)
	r := t.Rand()
	owner := map[string]string{}
	groups := t.Int(1, 3)
	for g := 0; g < groups; g++ {
		var sel []*tss.PartyID
		for _, i := range t.Subset(5, t.Int(2, 4)) {
			sel = append(sel, parties[i])
		}
		k := t.Int(1, 9)
		outs := make([]*ecsigning.SignatureData_OneRoundData, k)
		for i := range outs {
			outs[i] = presign(r)
		}
		m.AddPresign(fmt.Sprintf("g%d", g), sel, outs)
		for i := range outs {
			owner[fmt.Sprintf("g%d-%d", g, i)] = key(sel)
		}
	}
	avail := map[string]*tss.PartyID{}
	for _, p := range parties {
		avail[p.Id] = p
	}
	workers, rounds := t.Int(2, 8), t.Int(1, 5)
	batches := make([]int, workers)
	for i := range batches {
		batches[i] = t.Int(1, 4)
	}
	use := make([]string, workers)
	for i := range use {
		if t.Prob(1, 3) {
			use[i] = fmt.Sprintf("g%d-%d", t.Int(0, groups-1), t.Int(0, 3))
		}
	}
	t.Note("%d presigns in %d groups; %d routines ask %d times for %v or use %q", len(owner), groups, workers, rounds, batches, use)
	var mu sync.Mutex
	handed := map[string]int{}
	t.WithLimit(20*time.Second, "presign-blocked", "concurrent requests for presigns", func() {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < workers; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				for k := 0; k < rounds; k++ {
					if use[i] != "" { // a presign chosen by another node
						if err := m.UsePresigns([]string{use[i]}); err == nil {
							mu.Lock()
							handed[use[i]]++
							if handed[use[i]] > 1 {
								t.Record("presign-twice", "presign %q is used twice", use[i])
							}
							mu.Unlock()
						}
						continue
					}
					ids, pids := m.GetAvailablePresigns(batches[i], 5, avail)
					if len(ids) == 0 {
						continue
					}
					if len(ids) != batches[i] {
						t.Record("presign-count", "asked for %d presigns, got %q", batches[i], ids)
					}
					mu.Lock()
					for _, id := range ids {
						handed[id]++
						if handed[id] > 1 {
							t.Record("presign-twice", "presign %q is handed out twice", id)
						}
						if owner[id] != key(pids) {
							t.Record("presign-parties", "presign %q made by %q is handed out for %q", id, owner[id], key(pids))
						}
					}
					mu.Unlock()
				}
			}(i)
		}
		close(start)
		wg.Wait()
		// Later requests are still served.
		for i := 0; i < len(owner); i++ {
			ids, _ := m.GetAvailablePresigns(1, 5, avail)
			if len(ids) == 0 {
				break
			}
			handed[ids[0]]++
			if handed[ids[0]] > 1 {
				t.Record("presign-twice", "presign %q is handed out twice", ids[0])
			}
		}
	})
	t.StopIfFailed()
	if len(handed) != len(owner) {
		t.Failf("presign-available", "only %d of %d presigns could be handed out", len(handed), len(owner))
	}
	t.NonTrivial()
}
