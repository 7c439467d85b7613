package sim

import (
	"bytes"
	"math/big"
	"time"

	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/tss-lib/crypto"
	"github.com/sisu-network/tss-lib/tss"

	"dverif/pbt"
)

// checkKeygen is the oracle of C02 over the keys that were reported; mustAll: every node has to have one.
func (cl *Cluster) checkKeygen(w *Work, threshold int, nodes []int, mustAll bool) (pub []byte) {
	t := cl.T
	scheme, keyType := tss.EcdsaScheme, "ecdsa"
	if w.Ed {
		scheme, keyType = tss.EddsaScheme, "eddsa"
	}
	n := tss.EC(scheme).Params().N
	pids := cl.C.Pids()
	var xs, ys []*big.Int
	var who []int
	for _, i := range nodes {
		for _, o := range cl.Nodes[i].Outcomes() {
			if o.Kind != "keygen" || o.Keygen.Outcome != htypes.OutcomeSuccess || (o.Keygen.KeyType == "eddsa") != w.Ed {
				continue
			}
			if o.Keygen.KeyType != keyType {
				t.Failf("keygen-type", "n%d reported key type %q for a %s keygen", i, o.Keygen.KeyType, keyType)
			}
			if pub == nil {
				pub = o.Keygen.PubKeyBytes
			} else if !bytes.Equal(pub, o.Keygen.PubKeyBytes) {
				t.Failf("keygen-keys-differ", "n%d reported key %x, another node %x", i, o.Keygen.PubKeyBytes, pub)
			}
			if o.StoreErr != nil {
				t.Failf("keygen-not-stored", "n%d reported a key but its share cannot be loaded: %v", i, o.StoreErr)
			}
			var share, id *big.Int
			var stored []byte
			if w.Ed {
				if o.EdStored == nil || o.EdStored.EDDSAPub == nil || o.EdStored.Xi == nil {
					t.Failf("keygen-not-stored", "n%d reported a key but has stored nothing", i)
				}
				share, id, stored = o.EdStored.Xi, o.EdStored.ShareID, EdPub(o.EdStored.EDDSAPub)
			} else {
				if o.EcStored == nil || o.EcStored.ECDSAPub == nil || o.EcStored.Xi == nil {
					t.Failf("keygen-not-stored", "n%d reported a key but has stored nothing", i)
				}
				share, id, stored = o.EcStored.Xi, o.EcStored.ShareID, EcPub(o.EcStored.ECDSAPub)
			}
			if !bytes.Equal(stored, pub) {
				t.Failf("keygen-stored-key", "n%d stored the key %x but reported %x", i, stored, pub)
			}
			if id.Cmp(pids[i].KeyInt()) != 0 {
				t.Failf("keygen-share-id", "n%d stored a share for another party", i)
			}
			xs, ys, who = append(xs, id), append(ys, share), append(who, i)
		}
	}
	if mustAll && len(who) != len(nodes) {
		t.Failf("keygen-missing", "only %v have a key", who)
	}
	if len(who) < threshold+1 {
		return pub
	}
	key := func(idx []int) []byte {
		var sx, sy []*big.Int
		for _, j := range idx {
			sx, sy = append(sx, xs[j]), append(sy, ys[j])
		}
		k := Lagrange(sx, sy, n)
		if k.Sign() == 0 {
			return nil
		}
		p := crypto.ScalarBaseMult(tss.EC(scheme), k)
		if w.Ed {
			return EdPub(p)
		}
		return EcPub(p)
	}
	for k := 0; k < 3; k++ {
		idx := t.Subset(len(who), threshold+1)
		if got := key(idx); !bytes.Equal(got, pub) {
			t.Failf("keygen-shares", "the shares of %v (threshold %d) give the key %x instead of %x", idx, threshold, got, pub)
		}
	}
	if idx := t.Subset(len(who), threshold); bytes.Equal(key(idx), pub) {
		t.Failf("keygen-threshold", "%d shares are enough to get the key, with a threshold of %d", threshold, threshold)
	}
	return pub
}

// KeygenThenSign runs a keygen (with disturbances) and signs with the stored shares.
func KeygenThenSign(ed bool) func(*pbt.T) {
	return func(t *pbt.T) {
		p := EcKeygenP
		if ed {
			p = EdKeygenP
		}
		n, threshold := drawSize(t, p)
		if ed && t.Prob(1, 8) {
			n = 5
			threshold = t.Int(1, 4)
		}
		s := drawScene(t, p, n, threshold, 1)
		w := s.works[0]
		bad := t.Prob(1, 3) // a dishonest node or lost messages: only what is reported counts
		spec := FaultSpec{Dup: true, Delay: true, Slow: true, MaxDelay: 200 * time.Millisecond, Kinds: append(s.kinds, SelKinds...), Max: 3}
		cfg := Generous(t)
		if bad {
			spec.Mutate, spec.Drop = true, true
			spec.Max = 2
			cfg = FaultyLimits(t)
			if !ed {
				cfg.KeygenJobTimeout = t.Limit(12 * time.Second)
			}
		}
		faults := DrawFaults(t, n, spec)
		s.start(cfg, Decider(s.d.C, faults, time.Duration(t.Int(0, 30))*time.Millisecond, t.Seed()))
		dbBad := t.Prob(1, 5) && s.cl.drawDBFaults(t, "save keygen")
		if dbBad {
			t.Label("database failure")
		}
		s.cl.Run(s.starts(seq(n), func(int) time.Duration { return time.Duration(t.Int(0, 4)*10) * time.Millisecond }), 60*time.Second)
		if !bad && !dbBad {
			s.mustSucceed("keygen", 10*time.Second, seq(n))
		}
		pub := s.cl.checkKeygen(w, threshold, seq(n), false)
		done := 0
		for _, nd := range s.cl.Nodes {
			if nd.faulty.Hits() > 0 {
				t.NonTrivial()
			}
			for _, o := range nd.Outcomes() {
				t.Note("%s", o)
				if o.Kind == "keygen" {
					done++
				}
			}
		}
		if done < n {
			t.Label("keygen did not finish everywhere")
			return
		}
		t.NonTrivial()
		if bad {
			t.Label("finished despite faults")
		}
		// A signing by a quorum with what the nodes have stored; the others are offline.
		s.cl.Net.SetDecide(nil)
		sw := &Work{ID: "after-" + w.ID, Ed: ed, Threshold: threshold, Msgs: DrawMsgs(t, ed, 2), Pub: pub}
		quorum := t.Subset(n, threshold+1)
		t.Note("signing by %v", quorum)
		for i := range s.cl.Nodes {
			s.cl.Net.SetOffline(i, !has(quorum, i))
		}
		sub := &Committee{}
		for _, i := range quorum {
			sub.Members = append(sub.Members, s.d.C.Members[i])
		}
		if ed {
			sw.EdKey = &EdKey{}
		} else {
			sw.EcKey = &EcKey{}
		}
		var starts []Start
		// Only the quorum is named in the request: another committee than the one that made the key.
		for _, i := range quorum {
			var err error
			if ed {
				d, e := s.cl.Nodes[i].DB.LoadEdKeygen("eddsa")
				sw.EdKey.Data, err = append(sw.EdKey.Data, d), e
			} else {
				d, e := s.cl.Nodes[i].DB.LoadEcKeygen("ecdsa")
				sw.EcKey.Data, err = append(sw.EcKey.Data, d), e
			}
			if err != nil {
				t.Failf("share-lost", "n%d: %v", i, err)
			}
		}
		begin := time.Now()
		for k, i := range quorum {
			if err := s.cl.Nodes[i].Engine.AddRequest(sw.Request(sub, k)); err != nil {
				t.Failf("request-refused", "AddRequest: %v", err)
			}
			starts = append(starts, Start{sw, i, 0})
		}
		if !t.Wait(60*time.Second, func() bool {
			for _, x := range starts {
				if !s.cl.Reported(sw, x.Node) {
					return false
				}
			}
			return true
		}) {
			t.Stuckf("sign-after-keygen", "the signing after the keygen had no result in time")
		}
		ok := s.cl.checkResults([]*Work{sw})
		if ok != len(quorum) {
			if !bad && time.Since(begin) < time.Second {
				t.Failf("sign-after-keygen", "only %d of %d nodes could sign with the stored shares", ok, len(quorum))
			}
			t.Stuckf("sign-after-keygen", "only %d of %d nodes could sign with the stored shares", ok, len(quorum))
		}
	}
}
