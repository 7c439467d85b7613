package pbt

import (
	"encoding/binary"
	"fmt"
	"sync"
	"time"
)

// T is handed to every property function. All random choices of a case come
// from it and are recorded, so that a case can be shrunk and replayed.
type T struct {
	mu      sync.Mutex
	replay  []uint64
	useRep  bool
	pos     int
	r       rng
	choices []uint64
	shared  []byte // mmap shared with the supervisor: survives a crash

	notes      []string
	notesBytes int
	labels     map[string]bool
	nontrivial bool
	fails      []Failure
	cleanups   []func()
	scale      int
	Thorough   bool
	verbose    bool
}

// Failure kinds.
const (
	KindFail  = "fail"  // a safety violation that was observed
	KindStuck = "stuck" // something did not happen in time: has to be confirmed
)

type Failure struct {
	Kind string `json:"kind"`
	Sig  string `json:"sig"`
	Msg  string `json:"msg"`
}

type stopCase struct{}
type discardCase struct{}

// Choose returns a value in [0,n); 0 is the simplest one.
func (t *T) Choose(n uint64) uint64 {
	if n == 0 {
		n = 1
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	var v uint64
	if t.useRep {
		if t.pos < len(t.replay) {
			v = t.replay[t.pos] % n
		}
		t.pos++
	} else {
		v = t.r.next() % n
	}
	t.choices = append(t.choices, v)
	if i := len(t.choices); t.shared != nil && 8+8*i <= notesOff {
		binary.LittleEndian.PutUint64(t.shared[8*i:], v)
		binary.LittleEndian.PutUint64(t.shared, uint64(i))
	}
	return v
}

func (t *T) Seed() uint64 { return t.Choose(1 << 62) }

// Int is in [lo,hi], lo being simplest.
func (t *T) Int(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + int(t.Choose(uint64(hi-lo+1)))
}

func (t *T) Bool() bool { return t.Choose(2) == 1 }

// Prob is true with probability num/den; false is simplest.
func (t *T) Prob(num, den int) bool { return t.Choose(uint64(den)) >= uint64(den-num) }

// Weighted returns an index with probability proportional to its weight.
func (t *T) Weighted(ws ...int) int {
	total := 0
	for _, w := range ws {
		total += w
	}
	v := int(t.Choose(uint64(total)))
	for i, w := range ws {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}

func (t *T) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + int(t.Choose(uint64(n-i)))
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Subset picks k distinct indexes of n, in increasing order.
func (t *T) Subset(n, k int) []int {
	p := t.Perm(n)[:k]
	for i := range p {
		for j := i + 1; j < len(p); j++ {
			if p[j] < p[i] {
				p[i], p[j] = p[j], p[i]
			}
		}
	}
	return p
}

// Bytes draws every byte as its own choice.
func (t *T) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(t.Choose(256))
	}
	return b
}

// Bulk draws one seed and expands it.
func (t *T) Bulk(n int) []byte {
	s := t.Seed()
	if s == 0 {
		return make([]byte, n)
	}
	return NewRand(s).Bytes(n)
}

func (t *T) Rand() *Rand { return NewRand(t.Seed()) }

func (t *T) OneOf(xs ...string) string { return xs[t.Choose(uint64(len(xs)))] }

// Str draws a string over the given alphabet pieces.
func (t *T) Str(max int, pieces ...string) string {
	n := t.Int(0, max)
	s := ""
	for i := 0; i < n; i++ {
		s += t.OneOf(pieces...)
	}
	return s
}

func (t *T) Note(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.notesBytes > 60000 {
		return
	}
	if t.shared != nil && notesOff+8+t.notesBytes+len(s)+1 <= len(t.shared) {
		// Also kept where the supervisor finds it after a crash.
		copy(t.shared[notesOff+8+t.notesBytes:], s+"\n")
		binary.LittleEndian.PutUint64(t.shared[notesOff:], uint64(t.notesBytes+len(s)+1))
	}
	t.notesBytes += len(s) + 1
	t.notes = append(t.notes, s)
}

func (t *T) Label(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	t.mu.Lock()
	defer t.mu.Unlock()
	t.labels[s] = true
}

// NonTrivial marks the case as non-trivial by the rule of the check.
func (t *T) NonTrivial() {
	t.mu.Lock()
	t.nontrivial = true
	t.mu.Unlock()
}

// Record notes a violation and goes on (safe from any goroutine).
func (t *T) Record(sig, format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.fails) < 8 {
		t.fails = append(t.fails, Failure{KindFail, sig, clip(s, 4000)})
	}
}

// Failf records a violation and ends the case (only from the case's goroutine).
func (t *T) Failf(sig, format string, a ...interface{}) {
	t.Record(sig, format, a...)
	panic(stopCase{})
}

// Stuckf records that something did not happen in time and ends the case.
func (t *T) Stuckf(sig, format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	t.mu.Lock()
	t.fails = append(t.fails, Failure{KindStuck, sig, clip(s, 4000)})
	t.mu.Unlock()
	panic(stopCase{})
}

func (t *T) Failed() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return len(t.fails) > 0
}

// StopIfFailed ends the case if some goroutine recorded a violation.
func (t *T) StopIfFailed() {
	if t.Failed() {
		panic(stopCase{})
	}
}

func (t *T) Discard() { panic(discardCase{}) }

func (t *T) Cleanup(f func()) {
	t.mu.Lock()
	t.cleanups = append(t.cleanups, f)
	t.mu.Unlock()
}

// Limit scales a waiting limit (longer in confirmation runs).
func (t *T) Limit(d time.Duration) time.Duration { return d * time.Duration(t.scale) }

// longer is a scaled limit for waiting; a long one is not multiplied, a check has to end in time.
func (t *T) longer(d time.Duration) time.Duration {
	s := t.Limit(d)
	if most := d + 120*time.Second; s > most {
		return most
	}
	return s
}

// Eventually polls until cond holds; otherwise the case is stuck.
func (t *T) Eventually(limit time.Duration, sig, what string, cond func() bool) {
	if !t.Wait(limit, cond) {
		t.Stuckf(sig, "did not happen within %v: %s", t.longer(limit), what)
	}
}

// Wait polls until cond holds or the (scaled) limit has passed.
func (t *T) Wait(limit time.Duration, cond func() bool) bool {
	end := time.Now().Add(t.longer(limit))
	d := 200 * time.Microsecond
	for {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return cond()
		}
		time.Sleep(d)
		if d < 5*time.Millisecond {
			d += d / 2
		}
	}
}

// WithLimit runs f in its own goroutine; if it does not return in time the case is stuck.
func (t *T) WithLimit(limit time.Duration, sig, what string, f func()) {
	done := make(chan interface{}, 1)
	go func() {
		f()
		done <- nil
	}()
	select {
	case <-done:
	case <-time.After(t.longer(limit)):
		t.Stuckf(sig, "did not return within %v: %s", t.longer(limit), what)
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
