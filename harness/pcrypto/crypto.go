// Package pcrypto checks the encryption helpers and the encrypted store.
package pcrypto

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"

	"dverif/pbt"

	"github.com/sisu-network/dheart/store"
	"github.com/sisu-network/dheart/utils"
)

func drawKey(t *pbt.T) []byte { return t.Bulk([]int{16, 24, 32}[t.Int(0, 2)]) }

func drawValue(t *pbt.T) []byte {
	switch t.Weighted(3, 3, 2, 1) {
	case 0:
		return t.Bulk(t.Int(0, 20))
	case 1:
		return t.Bulk(t.Int(0, 300))
	case 2:
		return bytes.Repeat([]byte{byte(t.Int(0, 255))}, t.Int(0, 200))
	}
	return t.Bulk(t.Int(0, 20000))
}

// mutate returns an altered copy of b (never equal to b) and a description.
func mutate(t *pbt.T, b []byte) ([]byte, string) {
	for {
		c := append([]byte{}, b...)
		what := ""
		switch t.Weighted(4, 3, 2, 1, 1, 1) {
		case 0:
			if len(c) > 0 {
				i, m := t.Int(0, len(c)-1), byte(1+t.Int(0, 254))
				c[i] ^= m
				what = fmt.Sprintf("byte %d of %d xor %02x", i, len(c), m)
			}
		case 1:
			k := t.Int(0, len(c))
			c = c[:k]
			what = fmt.Sprintf("cut from %d to %d bytes", len(b), k)
		case 2:
			x := t.Bulk(t.Int(1, 20))
			c = append(c, x...)
			what = fmt.Sprintf("%d bytes appended", len(x))
		case 3:
			k := t.Int(0, len(c))
			c = c[k:]
			what = fmt.Sprintf("first %d bytes dropped", k)
		case 4:
			c = t.Bulk(t.Int(0, 60))
			what = fmt.Sprintf("replaced by %d other bytes", len(c))
		case 5:
			if len(c) > 1 {
				i, j := t.Int(0, len(c)-1), t.Int(0, len(c)-1)
				c[i], c[j] = c[j], c[i]
				what = "two bytes swapped"
			}
		}
		if !bytes.Equal(c, b) {
			return c, what
		}
		c = append(append([]byte{}, b...), 0)
		return c, "a zero byte appended"
	}
}

func leaks(enc, val []byte) bool {
	// Any 8 consecutive plaintext bytes showing up in the output would not be chance.
	for i := 0; i+8 <= len(val); i += 4 {
		if i > 2000 {
			break
		}
		if bytes.Contains(enc, val[i:i+8]) {
			return true
		}
	}
	return false
}

// AES: utils.AESDEncrypt / AESDecrypt.
func AES(t *pbt.T) {
	key, val := drawKey(t), drawValue(t)
	t.Note("key of %d bytes, value of %d bytes", len(key), len(val))
	orig := append([]byte{}, val...)
	enc, err := utils.AESDEncrypt(val, key)
	if err != nil {
		t.Failf("roundtrip", "encrypting: %v", err)
	}
	enc2, _ := utils.AESDEncrypt(val, key)
	if !bytes.Equal(val, orig) {
		t.Failf("roundtrip", "encrypting changed the caller's value")
	}
	if bytes.Equal(enc, enc2) {
		t.Failf("fresh", "two encryptions of the same value are equal")
	}
	if leaks(enc, val) {
		t.Failf("leak", "the plaintext shows in the encrypted value")
	}
	keep := append([]byte{}, enc...)
	dec, err := utils.AESDecrypt(enc, key)
	if err != nil || !bytes.Equal(dec, val) {
		t.Failf("roundtrip", "decrypting gave %d bytes, error %v", len(dec), err)
	}
	if !bytes.Equal(enc, keep) {
		t.Failf("roundtrip", "decrypting changed the encrypted value")
	}
	mut, what := mutate(t, enc)
	t.Note("altered: %s", what)
	if dec, err := utils.AESDecrypt(mut, key); err == nil {
		t.Failf("tamper", "altered value (%s) decrypted to %d bytes without error", what, len(dec))
	}
	other := append([]byte{}, key...)
	other[t.Int(0, len(key)-1)] ^= byte(1 + t.Int(0, 254))
	if _, err := utils.AESDecrypt(enc, other); err == nil {
		t.Failf("tamper", "decrypted with another key")
	}
	if bad := t.Bulk(t.Int(0, 40)); len(bad) != 16 && len(bad) != 24 && len(bad) != 32 {
		if _, err := utils.AESDecrypt(enc, bad); err == nil {
			t.Failf("tamper", "a key of %d bytes was accepted", len(bad))
		}
		if _, err := utils.AESDEncrypt(val, bad); err == nil {
			t.Failf("tamper", "a key of %d bytes was accepted for encrypting", len(bad))
		}
	}
	t.NonTrivial()
}

type rawStore interface {
	store.Store
	Put(key, value []byte) error
	Get(key []byte) ([]byte, error)
}

var storeNo = 0

// Store: a model of the encrypted store over a sequence of puts, gets and alterations.
func Store(t *pbt.T) {
	storeNo++
	dir := filepath.Join(os.Getenv("PBT_SCRATCH"), fmt.Sprintf("st-%d-%d", os.Getpid(), storeNo))
	t.Cleanup(func() { os.RemoveAll(dir) })
	key := drawKey(t)
	s0, err := store.NewStore(dir, key)
	if err != nil {
		t.Failf("store", "cannot open: %v", err)
	}
	s := s0.(rawStore)
	model := map[string][]byte{}
	lastRaw := map[string][]byte{}
	altered := map[string]bool{}
	n := t.Int(1, 14)
	nk := t.Int(1, 4)
	puts := 0
	for i := 0; i < n; i++ {
		k := fmt.Sprintf("key%d", t.Int(0, nk-1))
		switch t.Weighted(4, 2) {
		case 0:
			v := drawValue(t)
			if old, ok := model[k]; ok && t.Prob(1, 3) {
				v = old
			}
			if err := s.PutEncrypted([]byte(k), v); err != nil {
				t.Failf("store", "put: %v", err)
			}
			raw, err := s.Get([]byte(k))
			if err != nil {
				t.Failf("store", "raw get: %v", err)
			}
			if bytes.Equal(raw, lastRaw[k]) {
				t.Failf("fresh", "storing again gives the same stored bytes")
			}
			if leaks(raw, v) {
				t.Failf("leak", "the plaintext shows in the store")
			}
			if len(v) >= 4 && bytes.Contains(raw, v) {
				t.Failf("leak", "the plaintext shows in the store")
			}
			lastRaw[k] = raw
			model[k] = v
			altered[k] = false
			puts++
			t.Note("put %s (%d bytes)", k, len(v))
		case 1:
			raw, ok := lastRaw[k]
			if !ok {
				continue
			}
			mut, what := mutate(t, raw)
			if err := s.Put([]byte(k), mut); err != nil {
				t.Failf("store", "raw put: %v", err)
			}
			altered[k] = true
			t.Note("alter stored %s: %s", k, what)
		}
		for j := 0; j < nk; j++ {
			k := fmt.Sprintf("key%d", j)
			v, err := s.GetEncrypted([]byte(k))
			want, ok := model[k]
			switch {
			case !ok && err == nil:
				t.Failf("store", "missing %s read as %d bytes without error", k, len(v))
			case ok && altered[k] && err == nil:
				t.Failf("tamper", "altered %s read as %d bytes without error", k, len(v))
			case ok && !altered[k] && (err != nil || !bytes.Equal(v, want)):
				t.Failf("roundtrip", "%s: got %d bytes, error %v, want %d bytes", k, len(v), err, len(want))
			}
		}
	}
	if puts == 0 {
		return
	}
	// The same data under another key.
	other := append([]byte{}, key...)
	other[t.Int(0, len(key)-1)] ^= byte(1 + t.Int(0, 254))
	dir2 := dir + "-copy"
	t.Cleanup(func() { os.RemoveAll(dir2) })
	os.MkdirAll(dir2, 0755)
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if e.Name() == "LOCK" {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err == nil {
			os.WriteFile(filepath.Join(dir2, e.Name()), b, 0644)
		}
	}
	use, same := other, false
	if t.Bool() {
		use, same = key, true
	}
	s2, err := store.NewStore(dir2, use)
	if err != nil {
		t.Failf("store", "cannot open the copied store: %v", err)
	}
	for k, want := range model {
		if altered[k] {
			continue
		}
		v, err := s2.GetEncrypted([]byte(k))
		if same && (err != nil || !bytes.Equal(v, want)) {
			t.Failf("roundtrip", "after reopening %s: %d bytes, error %v", k, len(v), err)
		}
		if !same && err == nil {
			t.Failf("tamper", "%s was readable with another key", k)
		}
	}
	t.NonTrivial()
}
