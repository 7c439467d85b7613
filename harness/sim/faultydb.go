package sim

import (
	"errors"
	"sync"
	"time"

	"github.com/sisu-network/dheart/db"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	"github.com/sisu-network/tss-lib/tss"

	"dverif/pbt"
)

// DBOps are the operations of a node's database that can be made to fail.
var DBOps = []string{"save keygen", "load presign", "presign status", "use presign"}

var errDB = errors.New("injected database failure")

// faultyDB is the database an engine works with; the harness itself uses the real one below it.
type faultyDB struct {
	db.Database
	mu   sync.Mutex
	fail map[string]int // how many of the next calls fail
	hits int
	slow map[string]time.Duration
}

// Slow makes every call of an operation take a while.
func (f *faultyDB) Slow(op string, d time.Duration) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.slow == nil {
		f.slow = map[string]time.Duration{}
	}
	f.slow[op] = d
}

// Fail makes the next calls of an operation fail.
func (f *faultyDB) Fail(op string, times int) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.fail[op] = times
}

func (f *faultyDB) Hits() int {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.hits
}

func (f *faultyDB) err(op string) error {
	f.mu.Lock()
	d := f.slow[op]
	f.mu.Unlock()
	time.Sleep(d)
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.fail[op] > 0 {
		f.fail[op]--
		f.hits++
		return errDB
	}
	return nil
}

func (f *faultyDB) SaveEcKeygen(keyType, workId string, pids []*tss.PartyID, o *eckeygen.LocalPartySaveData) error {
	if err := f.err("save keygen"); err != nil {
		return err
	}
	return f.Database.SaveEcKeygen(keyType, workId, pids, o)
}

func (f *faultyDB) SaveEdKeygen(keyType, workId string, pids []*tss.PartyID, o *edkeygen.LocalPartySaveData) error {
	if err := f.err("save keygen"); err != nil {
		return err
	}
	return f.Database.SaveEdKeygen(keyType, workId, pids, o)
}

func (f *faultyDB) LoadPresign(ids []string) ([]*ecsigning.SignatureData_OneRoundData, error) {
	if err := f.err("load presign"); err != nil {
		return nil, err
	}
	return f.Database.LoadPresign(ids)
}

func (f *faultyDB) LoadPresignStatus(ids []string) ([]string, error) {
	if err := f.err("presign status"); err != nil {
		return nil, err
	}
	return f.Database.LoadPresignStatus(ids)
}

func (f *faultyDB) UpdatePresignStatus(ids []string) error {
	if err := f.err("use presign"); err != nil {
		return err
	}
	return f.Database.UpdatePresignStatus(ids)
}

// drawDBFaults makes some operations of some nodes fail; it says whether there are any.
func (cl *Cluster) drawDBFaults(t *pbt.T, ops ...string) bool {
	any := false
	for i, s := range cl.Nodes {
		if !t.Prob(1, 4) {
			continue
		}
		op := ops[t.Choose(uint64(len(ops)))]
		times := t.OneOf("1", "2", "all")
		k := map[string]int{"1": 1, "2": 2, "all": 1 << 30}[times]
		s.faulty.Fail(op, k)
		t.Note("n%d's database fails: %s, %s times", i, op, times)
		any = true
	}
	return any
}

// drawSlowDB makes some operations of some nodes slow.
func (cl *Cluster) drawSlowDB(t *pbt.T, ms int) {
	for i, s := range cl.Nodes {
		for _, op := range DBOps {
			if t.Prob(1, 4) {
				d := time.Duration(t.Int(1, ms)) * time.Millisecond
				s.faulty.Slow(op, d)
				t.Note("n%d's database: %s takes %v", i, op, d)
				t.Label("slow database")
			}
		}
	}
}
