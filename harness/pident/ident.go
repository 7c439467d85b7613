// Package pident holds checks about leaders, identities and quorum sizes.
package pident

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"

	"dverif/pbt"

	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	ctypes "github.com/cosmos/cosmos-sdk/crypto/types"
	"github.com/libp2p/go-libp2p/core/crypto"
	"github.com/libp2p/go-libp2p/core/peer"

	"github.com/sisu-network/dheart/core"
	"github.com/sisu-network/dheart/utils"
	"github.com/sisu-network/dheart/worker"
	"github.com/sisu-network/tss-lib/tss"
)

var workIdPieces = []string{"a", "b", "keygen", "ecdsa_signing", "-", "_", "__", ":", "/", "0", "17", "é", " ", "f00dcafe", ""}

func drawParties(t *pbt.T, n int) []*tss.PartyID {
	ps := make([]*tss.PartyID, n)
	seed := t.Seed()
	for i := range ps {
		b := pbt.NewRand(pbt.Mix(seed, uint64(i))).Bytes(20)
		id := fmt.Sprintf("p%d-%s", i, hex.EncodeToString(b[:t.Int(0, 20)]))
		ps[i] = tss.NewPartyID(id, "", new(big.Int).SetBytes(append([]byte{byte(i + 1)}, b...)))
	}
	return ps
}

func workId(t *pbt.T) string {
	if t.Prob(1, 6) {
		return utils.KeccakHash32(t.Str(3, workIdPieces...))
	}
	return t.Str(6, workIdPieces...)
}

// Leader: every ordering of the same parties gives the same leader, out of them.
func Leader(t *pbt.T) {
	n := t.Int(1, 12)
	if t.Prob(1, 10) {
		n = t.Int(13, 80)
	}
	ps := drawParties(t, n)
	w := workId(t)
	first := worker.ChooseLeader(w, ps)
	t.Note("work %q, %d parties -> %v", w, n, first)
	if first == nil {
		t.Failf("leader", "no leader")
	}
	found := false
	for _, p := range ps {
		found = found || p.Id == first.Id
	}
	if !found {
		t.Failf("leader", "the leader %s is not one of the parties", first.Id)
	}
	for k := 0; k < 4; k++ {
		perm := t.Perm(n)
		qs := make([]*tss.PartyID, n)
		for i, j := range perm {
			qs[i] = tss.NewPartyID(ps[j].Id, ps[j].Moniker, ps[j].KeyInt())
			if k%2 == 1 {
				qs[i].Index = i
			}
		}
		if k == 3 {
			qs = tss.SortPartyIDs(qs)
		}
		before := make([]string, n)
		for i := range qs {
			before[i] = qs[i].Id
		}
		l := worker.ChooseLeader(w, qs)
		if l == nil || l.Id != first.Id {
			t.Failf("leader-agreement", "work %q: parties in order %v give leader %v, otherwise %s", w, perm, l, first.Id)
		}
		for i := range qs {
			if qs[i].Id != before[i] {
				t.Failf("leader", "choosing a leader reordered the caller's parties")
			}
		}
	}
	if n > 1 {
		t.NonTrivial()
	}
}

// LeaderSpread: over many works every party leads, and no choice is made by position.
func LeaderSpread(t *pbt.T) {
	n := t.Int(2, 9)
	ps := drawParties(t, n)
	prefix := workId(t)
	count := map[string]int{}
	total := 60 * n
	for i := 0; i < total; i++ {
		count[worker.ChooseLeader(fmt.Sprintf("%s%d", prefix, i), ps).Id]++
	}
	t.Note("%d parties, %d works named %q..: leaders %v", n, total, prefix, count)
	for _, p := range ps {
		if count[p.Id] == 0 {
			t.Failf("leader-spread", "party %s of %d never leads in %d works; counts %v", p.Id, n, total, count)
		}
	}
	t.NonTrivial()
}

// Threshold: threshold+1 == ceil(2n/3) for every n (n is enumerated by blocks).
func Threshold(t *pbt.T) {
	lo := 1 + 50*t.Int(0, 399)
	for n := lo; n < lo+50; n++ {
		need := (2*n + 2) / 3
		got := utils.GetThreshold(n)
		if got+1 != need {
			t.Failf("quorum", "committee of %d: threshold %d means %d signers, want ceil(2n/3) = %d", n, got, got+1, need)
		}
	}
	t.Note("committee sizes %d..%d", lo, lo+49)
	t.NonTrivial()
}

type key struct {
	priv ctypes.PrivKey
	pid  peer.ID
}

// DrawKey makes a private key of either kind from a drawn seed.
func DrawKey(t *pbt.T, seed uint64, kind int) key {
	secret := pbt.NewRand(seed).Bytes(32)
	if kind == 0 {
		k := secp256k1.GenPrivKeyFromSecret(secret)
		pk, err := crypto.UnmarshalSecp256k1PrivateKey(k.Bytes())
		if err != nil {
			panic(err)
		}
		id, err := peer.IDFromPrivateKey(pk)
		if err != nil {
			panic(err)
		}
		return key{k, id}
	}
	k := ed25519.GenPrivKeyFromSecret(secret)
	pk, err := crypto.UnmarshalEd25519PrivateKey(k.Bytes())
	if err != nil {
		panic(err)
	}
	id, err := peer.IDFromPrivateKey(pk)
	if err != nil {
		panic(err)
	}
	return key{k, id}
}

// Identities: node lists derived from public keys.
func Identities(t *pbt.T) {
	n := t.Int(1, 10)
	mode := t.Weighted(3, 1, 2) // secp only, ed only, mixed
	seed := t.Seed()
	ks := make([]key, n)
	kinds := ""
	for i := range ks {
		kind := 0
		if mode == 1 || (mode == 2 && t.Bool()) {
			kind = 1
		}
		ks[i] = DrawKey(t, pbt.Mix(seed, uint64(i)), kind)
		kinds += fmt.Sprint(kind)
	}
	t.Note("%d keys, kinds %s", n, kinds)
	mk := func(perm []int) []ctypes.PubKey {
		r := make([]ctypes.PubKey, n)
		for i, j := range perm {
			r[i] = ks[j].priv.PubKey()
		}
		return r
	}
	var ref []string
	for k := 0; k < 3; k++ {
		perm := t.Perm(n)
		nodes := core.NewNodes(mk(perm))
		if len(nodes) != n {
			t.Failf("identity", "%d keys gave %d nodes", n, len(nodes))
		}
		var ids []string
		seen := map[string]bool{}
		for i, nd := range nodes {
			if nd == nil {
				t.Failf("identity", "nil node for a valid key")
			}
			if nd.PartyId.Index != i {
				t.Failf("identity", "node at position %d has party index %d", i, nd.PartyId.Index)
			}
			if i > 0 && nodes[i-1].PartyId.KeyInt().Cmp(nd.PartyId.KeyInt()) >= 0 {
				t.Failf("identity", "parties are not strictly ordered by key")
			}
			if nd.PartyId.Id != nd.PeerId.String() {
				t.Failf("identity", "party id %s differs from peer id %s", nd.PartyId.Id, nd.PeerId)
			}
			var own *key
			for x := range ks {
				if bytes.Equal(ks[x].priv.PubKey().Bytes(), nd.PubKey.Bytes()) {
					own = &ks[x]
				}
			}
			if own == nil {
				t.Failf("identity", "node %d carries a public key that was not given", i)
			}
			if own.pid != nd.PeerId {
				t.Failf("identity", "node %d: peer id %s, but the private key's peer id is %s", i, nd.PeerId, own.pid)
			}
			if seen[nd.PartyId.Id] {
				t.Failf("identity", "two nodes share the identity %s", nd.PartyId.Id)
			}
			seen[nd.PartyId.Id] = true
			single := core.NewNode(own.priv.PubKey())
			if single == nil || single.PeerId != nd.PeerId || single.PartyId.Id != nd.PartyId.Id || single.PartyId.KeyInt().Cmp(nd.PartyId.KeyInt()) != 0 {
				t.Failf("identity", "a node derived alone differs from the one in the list")
			}
			ids = append(ids, nd.PartyId.Id+"/"+nd.PartyId.KeyInt().Text(16))
		}
		if k == 0 {
			ref = ids
		} else if fmt.Sprint(ref) != fmt.Sprint(ids) {
			t.Failf("identity-agreement", "order %v of the same keys gives parties %v, otherwise %v", perm, ids, ref)
		}
	}
	if n > 1 {
		t.NonTrivial()
	}
	t.Label("kinds-%d", mode)
}

type oddKey struct {
	ctypes.PubKey
	typ string
}

func (k oddKey) Type() string { return k.typ }

// BadKeys: unusable keys are rejected (by nil or by leaving them out), never by a crash.
func BadKeys(t *pbt.T) {
	n := t.Int(0, 4)
	seed := t.Seed()
	var keys []ctypes.PubKey
	good := map[string]bool{}
	for i := 0; i < n; i++ {
		k := DrawKey(t, pbt.Mix(seed, uint64(i)), t.Int(0, 1))
		keys = append(keys, k.priv.PubKey())
		good[k.pid.String()] = true
	}
	var bad ctypes.PubKey
	var what string
	ln := t.Int(0, 70)
	raw := t.Bulk(ln)
	switch t.Int(0, 4) {
	case 0:
		if ln == 33 { // might be a real point
			raw = append(raw, 0)
		}
		bad, what = &secp256k1.PubKey{Key: raw}, fmt.Sprintf("secp256k1 key of %d bytes", len(raw))
	case 1:
		if ln == 32 {
			raw = append(raw, 0)
		}
		bad, what = &ed25519.PubKey{Key: raw}, fmt.Sprintf("ed25519 key of %d bytes", len(raw))
	case 2:
		x := make([]byte, 33)
		x[0] = byte(t.Int(4, 255))
		copy(x[1:], t.Bulk(32))
		bad, what = &secp256k1.PubKey{Key: x}, "secp256k1 key with a bad prefix"
	case 3:
		x := bytes.Repeat([]byte{0xff}, 33)
		x[0] = byte(t.Int(2, 3))
		bad, what = &secp256k1.PubKey{Key: x}, "secp256k1 key with x beyond the field"
	case 4:
		bad, what = oddKey{&ed25519.PubKey{Key: t.Bulk(32)}, t.OneOf("sr25519", "", "ED25519", "secp256r1")}, "key of an unknown type"
	}
	t.Note("%d good keys and a %s", n, what)
	if nd := core.NewNode(bad); nd != nil {
		t.Failf("bad-key", "%s was accepted as node %s", what, nd.PeerId)
	}
	at := t.Int(0, n)
	keys = append(keys[:at:at], append([]ctypes.PubKey{bad}, keys[at:]...)...)
	nodes := core.NewNodes(keys)
	for _, nd := range nodes {
		if nd == nil || nd.PartyId == nil || !good[nd.PartyId.Id] {
			t.Failf("bad-key", "%s became part of the node list", what)
		}
	}
	// The type and bytes as they come from storage.
	name := t.OneOf("secp256k1", "ed25519", "", "sr25519", "Secp256k1")
	pk, err := utils.GetCosmosPubKey(name, raw)
	if known := name == "secp256k1" || name == "ed25519"; known != (err == nil) {
		t.Failf("bad-key", "GetCosmosPubKey(%q) gave error %v", name, err)
	} else if known && (!bytes.Equal(pk.Bytes(), raw) || pk.Type() != name) {
		t.Failf("bad-key", "GetCosmosPubKey(%q) changed the key", name)
	}
	t.NonTrivial()
}
