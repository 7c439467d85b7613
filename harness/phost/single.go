package phost

import (
	"bytes"
	"crypto/ed25519"
	"fmt"
	"reflect"
	"sync"
	"time"

	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/server"
	"github.com/sisu-network/dheart/types"

	"dverif/pbt"
)

// Sink is a client that keeps what is posted.
type Sink struct {
	mu      sync.Mutex
	Keygens []*types.KeygenResult
	Signs   []*types.KeysignResult
	SignAt  []time.Time  // when each signing result was posted
	Fail    func() error // the result of posting
	onSign  func(*types.KeysignResult)
}

// SetOnSign lets f look at each signing result while it is being posted.
func (s *Sink) SetOnSign(f func(*types.KeysignResult)) {
	s.mu.Lock()
	s.onSign = f
	s.mu.Unlock()
}

func (s *Sink) TryDial() {}

// SetFail makes posting fail from now on.
func (s *Sink) SetFail(f func() error) {
	s.mu.Lock()
	s.Fail = f
	s.mu.Unlock()
}

func (s *Sink) err() error {
	s.mu.Lock()
	f := s.Fail
	s.mu.Unlock()
	if f != nil {
		return f()
	}
	return nil
}
func (s *Sink) PostKeygenResult(r *types.KeygenResult) error {
	c := *r
	s.mu.Lock()
	s.Keygens = append(s.Keygens, &c)
	s.mu.Unlock()
	return s.err()
}
func (s *Sink) PostPresignResult(r *types.PresignResult) error { return nil }
func (s *Sink) PostKeysignResult(r *types.KeysignResult) error {
	c := *r
	s.mu.Lock()
	s.Signs = append(s.Signs, &c)
	s.SignAt = append(s.SignAt, time.Now())
	f := s.onSign
	s.mu.Unlock()
	if f != nil {
		f(&c)
	}
	return s.err()
}

// Times are when the signing results were posted.
func (s *Sink) Times() []time.Time {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]time.Time{}, s.SignAt...)
}

func (s *Sink) All() ([]*types.KeygenResult, []*types.KeysignResult) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*types.KeygenResult{}, s.Keygens...), append([]*types.KeysignResult{}, s.Signs...)
}

func CloneReq(r *types.KeysignRequest) *types.KeysignRequest {
	if r == nil {
		return nil
	}
	c := &types.KeysignRequest{KeyType: r.KeyType}
	for _, m := range r.KeysignMessages {
		if m == nil {
			c.KeysignMessages = append(c.KeysignMessages, nil)
			continue
		}
		x := *m
		x.Bytes = append([]byte(nil), m.Bytes...)
		x.BytesToSign = append([]byte(nil), m.BytesToSign...)
		c.KeysignMessages = append(c.KeysignMessages, &x)
	}
	return c
}

func SameReq(a, b *types.KeysignRequest) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.KeyType != b.KeyType || len(a.KeysignMessages) != len(b.KeysignMessages) {
		return false
	}
	for i := range a.KeysignMessages {
		x, y := a.KeysignMessages[i], b.KeysignMessages[i]
		if x == nil || y == nil {
			if x != y {
				return false
			}
			continue
		}
		p, q := *x, *y
		if !bytes.Equal(p.Bytes, q.Bytes) || !bytes.Equal(p.BytesToSign, q.BytesToSign) {
			return false
		}
		p.Bytes, q.Bytes, p.BytesToSign, q.BytesToSign = nil, nil, nil, nil
		if !reflect.DeepEqual(p, q) {
			return false
		}
	}
	return true
}

// VerifySingle tells whether a signature of the single-node service is good.
func VerifySingle(keyType string, pub, msg, sig []byte) bool {
	if keyType == "eddsa" {
		return len(pub) == 32 && len(sig) == 64 && ed25519.Verify(pub, msg, sig)
	}
	if len(sig) != 65 || len(msg) != 32 {
		return false
	}
	rec, err := ethcrypto.Ecrecover(msg, sig)
	return err == nil && bytes.Equal(rec, pub) && ethcrypto.VerifySignature(pub, msg, sig[:64])
}

// Single: generated histories of the single-node service.
func Single(t *pbt.T) {
	sink := &Sink{}
	if t.Prob(1, 4) {
		sink.Fail = func() error { return fmt.Errorf("host is gone") }
	}
	api := server.GetApi(config.HeartConfig{UseOnMemory: true}, sink)
	if t.Bool() {
		api.SetSisuReady(t.Bool())
	}
	if t.Bool() {
		api.SetPrivKey(drawText(t), drawText(t))
	}
	keys := map[string][][]byte{} // by type, in order of the phases in which they were posted
	signed := 0
	prev := map[string]int{} // how many keygens of a type ran at the same time in the last phase that had one
	type ask struct {
		req      *types.KeysignRequest
		orig     *types.KeysignRequest
		err      error
		possible bool // can be served
		unsure   bool // may be refused (an empty message)
	}
	phases := 2 + t.Int(0, 2)
	kgSeen, ksSeen := 0, 0
	for ph := 0; ph < phases; ph++ {
		var asks []*ask
		wantKeys := map[string]int{}
		wg := &sync.WaitGroup{}
		known := map[string]bool{"ecdsa": len(keys["ecdsa"]) > 0, "eddsa": len(keys["eddsa"]) > 0}
		doKeygen := ph%2 == 0 || t.Prob(1, 4)
		inFlight := map[string]bool{}
		if doKeygen {
			for i := t.Int(1, 3); i > 0; i-- {
				kt := t.OneOf("ecdsa", "eddsa", "eddsa", "ecdsa", "rsa", "")
				t.Note("phase %d: keygen %q", ph, kt)
				var w []types.PubKeyWrapper
				for k := t.Int(0, 2); k > 0; k-- {
					w = append(w, types.PubKeyWrapper{KeyType: drawText(t), Key: drawBytesOrNil(t, 40)})
				}
				var err error
				t.WithLimit(10*time.Second, "keygen-stuck", "KeyGen", func() { err = api.KeyGen(drawText(t), kt, w) })
				ok := kt == "ecdsa" || kt == "eddsa"
				if ok != (err == nil) {
					t.Failf("keygen-error", "keygen of %q returned %v", kt, err)
				}
				if ok {
					wantKeys[kt]++
					inFlight[kt] = true
				}
			}
		}
		if ph%2 == 1 || t.Bool() {
			for i := t.Int(1, 5); i > 0; i-- {
				kt := t.OneOf("ecdsa", "eddsa", "ecdsa", "eddsa", "rsa", "")
				r := drawKeysignRequest(t, kt)
				a := &ask{possible: known[kt]}
				for _, m := range r.KeysignMessages {
					if kt == "eddsa" {
						m.BytesToSign = drawBytesOrNil(t, 100)
						a.unsure = a.unsure || len(m.BytesToSign) == 0
						if t.Prob(1, 6) && len(m.BytesToSign) > 0 {
							m.BytesToSign[0] = 0
						}
					} else if t.Prob(1, 8) {
						m.BytesToSign = t.Bulk(t.Int(0, 40))
					}
					a.possible = a.possible && (kt == "eddsa" || len(m.BytesToSign) == 32)
				}
				switch t.Weighted(20, 1, 1) {
				case 1:
					r, a.possible = nil, false
				case 2:
					r.KeysignMessages[t.Int(0, len(r.KeysignMessages)-1)] = nil
					a.possible = false
				}
				a.req, a.orig = r, CloneReq(r)
				asks = append(asks, a)
				t.Note("phase %d: sign %+v possible=%v", ph, a.orig, a.possible)
				wg.Add(1)
				go func() { defer wg.Done(); a.err = api.KeySign(a.req, nil) }()
			}
		}
		t.WithLimit(10*time.Second, "keysign-stuck", "KeySign", wg.Wait)
		wantK, wantS := 0, 0
		for _, k := range wantKeys {
			wantK += k
		}
		for _, a := range asks {
			kt := "nil"
			if a.orig != nil {
				kt = a.orig.KeyType
			}
			if a.possible && !a.unsure && a.err != nil {
				t.Failf("sign-refused", "phase %d: %+v: %v", ph, a.orig, a.err)
			}
			if !a.possible && a.err == nil && !inFlight[kt] {
				t.Failf("sign-accepted", "phase %d: a request that cannot be served returned no error: %+v", ph, a.orig)
			}
			if a.err == nil {
				wantS++
			}
		}
		if !t.Wait(15*time.Second, func() bool {
			kg, ks := sink.All()
			n := 0
			for _, r := range ks[ksSeen:] {
				if r.Outcome == types.OutcomeSuccess {
					n++
				}
			}
			return len(kg)-kgSeen >= wantK && n >= wantS
		}) {
			kg, ks := sink.All()
			t.Stuckf("no-result", "phase %d: %d of %d keygen results and %d of %d signing results", ph, len(kg)-kgSeen, wantK, len(ks)-ksSeen, wantS)
		}
		time.Sleep(50 * time.Millisecond)
		kg, ks := sink.All()
		got := map[string]int{}
		for _, r := range kg[kgSeen:] {
			got[r.KeyType]++
			okLen := map[string]int{"ecdsa": 65, "eddsa": 32}[r.KeyType]
			if r.Outcome != types.OutcomeSuccess || len(r.PubKeyBytes) != okLen {
				t.Failf("keygen-result", "phase %d: %+v", ph, r)
			}
			for _, k := range keys[r.KeyType] {
				if bytes.Equal(k, r.PubKeyBytes) {
					t.Failf("keygen-old", "phase %d: the key of an earlier keygen was posted again", ph)
				}
			}
			keys[r.KeyType] = append(keys[r.KeyType], r.PubKeyBytes)
		}
		if !reflect.DeepEqual(got, wantKeys) {
			t.Failf("keygen-results", "phase %d: posted %v, asked for %v", ph, got, wantKeys)
		}
		// Keys that the requests of this phase could have used: the newest before this phase and those of it.
		var results []*types.KeysignResult
		for _, r := range ks[ksSeen:] {
			if r.Outcome == types.OutcomeSuccess {
				results = append(results, r)
			}
		}
		if len(results) != wantS {
			t.Failf("sign-results", "phase %d: %d successes posted for %d accepted requests", ph, len(results), wantS)
		}
		used := make([]bool, len(results))
		for _, a := range asks {
			if a.err != nil {
				continue
			}
			hit := -1
			for i, r := range results {
				if !used[i] && SameReq(r.Request, a.orig) {
					hit = i
					break
				}
			}
			if hit < 0 {
				t.Failf("sign-request", "phase %d: no result carries %+v", ph, a.orig)
			}
			used[hit] = true
			r := results[hit]
			if len(r.Signatures) != len(a.orig.KeysignMessages) {
				t.Failf("sign-count", "phase %d: %d signatures for %d messages", ph, len(r.Signatures), len(a.orig.KeysignMessages))
			}
			ks := keys[a.orig.KeyType]
			from := len(ks) - wantKeys[a.orig.KeyType] - 1
			if p := prev[a.orig.KeyType]; p > 1 {
				from -= p - 1 // keygens of the phase before ran at the same time: any of them is the newest
			}
			if from < 0 {
				from = 0
			}
			ok := false
			for _, k := range ks[from:] {
				all := true
				for i, m := range a.orig.KeysignMessages {
					all = all && VerifySingle(a.orig.KeyType, k, m.BytesToSign, r.Signatures[i])
				}
				ok = ok || all
			}
			if !ok {
				t.Failf("sign-invalid", "phase %d: the signatures %x of %+v do not verify under the newest key(s) %x", ph, r.Signatures, a.orig, ks[from:])
			}
			signed++
		}
		kgSeen, ksSeen = len(kg), len(ks)
		for kt, n := range wantKeys {
			prev[kt] = n
		}
	}
	if signed > 0 {
		t.NonTrivial()
	}
	t.Label("signed %v", signed > 0)
}
