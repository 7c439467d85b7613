// Package pdb checks the database and the presign manager on top of it.
package pdb

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"dverif/pbt"

	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/db"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	libCommon "github.com/sisu-network/tss-lib/common"
	"github.com/sisu-network/tss-lib/crypto"
	"github.com/sisu-network/tss-lib/crypto/paillier"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	"github.com/sisu-network/tss-lib/tss"
)

// Open returns a fresh in-memory database (the service's own sqlite mode).
func Open(t *pbt.T) db.Database {
	cfg := config.GetLocalhostDbConfig()
	cfg.InMemory = true
	d := db.NewDatabase(&cfg)
	if err := d.Init(); err != nil {
		t.Failf("db-init", "Init: %v", err)
	}
	t.Cleanup(func() { d.Close() })
	return d
}

func js(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// spoil alters everything in a value that the database returned: it belongs to the caller.
func spoil(v interface{}) {
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				return
			}
			if b, ok := v.Interface().(*big.Int); ok {
				if w := b.Bits(); len(w) > 0 {
					w[0] ^= 5
				}
				return
			}
			if _, ok := v.Interface().(*crypto.ECPoint); ok {
				return // made anew from what is stored, without access to its insides
			}
			walk(v.Elem())
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					walk(v.Field(i))
				}
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Map:
			for _, k := range v.MapKeys() {
				walk(v.MapIndex(k))
			}
		case reflect.String:
			if v.CanSet() {
				v.SetString("spoilt")
			}
		case reflect.Uint8:
			if v.CanSet() {
				v.SetUint(v.Uint() ^ 0x55)
			}
		}
	}
	walk(reflect.ValueOf(v))
}

func bigN(r *pbt.Rand, n int) *big.Int { return new(big.Int).SetBytes(r.Bytes(n)) }

var names = [][]string{
	{"12D3node0", "12D3node1", "12D3node2", "12D3node3", "12D3node4", "12D3node5"},
	{"p1", "p", "p11", "1", "p12", "12"}, // contained in one another
	{"16Uiu2HAm1VbuonZJDGXXr91ubZGwcc7jaAWGqg8Mw1R8gBsKEG1M", "16Uiu2HAm1VbuonZJDGXXr91ubZGwcc7jaAWGqg8Mw1R8gBsKEG1N",
		"16Uiu2HAm1VbuonZJDGXXr91ubZGwcc7jaAWGqg8Mw1R8gBsKEG1n", "16Uiu2HAm1VbuonZJDGXXr91ubZGwcc7jaAWGqg8Mw1R8gBsKEg1M",
		"16Uiu2HAm1VbuonZJDGXXr91ubZGwcc7jaAWGqg8Mw1R8gBsKEG1", "26Uiu2HAm1VbuonZJDGXXr91ubZGwcc7jaAWGqg8Mw1R8gBsKEG1M"},
}

// PidStyle draws what party ids look like.
func PidStyle(t *pbt.T) int { return t.Weighted(2, 1, 1) }

// Pids lists up to six parties (as real ones: no commas in their ids, distinct).
func Pids(style, n int) []*tss.PartyID {
	ps := make([]*tss.PartyID, n)
	for i := range ps {
		ps[i] = tss.NewPartyID(names[style][i], "", big.NewInt(int64(1000+i)))
	}
	return ps
}

var points = map[string][]*crypto.ECPoint{}

// point picks one of some precomputed points of a curve.
func point(r *pbt.Rand, scheme string) *crypto.ECPoint {
	if points[scheme] == nil {
		k := big.NewInt(7)
		for i := 0; i < 48; i++ {
			k = new(big.Int).Add(new(big.Int).Mul(k, k), big.NewInt(11))
			k.Mod(k, tss.EC(scheme).Params().N)
			points[scheme] = append(points[scheme], crypto.ScalarBaseMult(tss.EC(scheme), k))
		}
	}
	return points[scheme][r.Uint64()%uint64(len(points[scheme]))]
}

func preparams(r *pbt.Rand) *eckeygen.LocalPreParams {
	sz := 8 + int(r.Uint64()%250)
	p := &eckeygen.LocalPreParams{NTildei: bigN(r, sz), H1i: bigN(r, sz), H2i: bigN(r, sz), Alpha: bigN(r, sz), Beta: bigN(r, sz), P: bigN(r, sz), Q: bigN(r, sz)}
	p.PaillierSK = &paillier.PrivateKey{PublicKey: paillier.PublicKey{N: bigN(r, sz)}, LambdaN: bigN(r, sz), PhiN: bigN(r, sz)}
	return p
}

func ecSave(r *pbt.Rand, n int) *eckeygen.LocalPartySaveData {
	s := eckeygen.NewLocalPartySaveData(n)
	s.LocalPreParams = *preparams(r)
	s.Xi, s.ShareID = bigN(r, 32), bigN(r, 33)
	for i := 0; i < n; i++ {
		s.Ks[i], s.NTildej[i], s.H1j[i], s.H2j[i] = bigN(r, 33), bigN(r, 64), bigN(r, 64), bigN(r, 64)
		s.PaillierPKs[i] = &paillier.PublicKey{N: bigN(r, 64)}
		s.BigXj[i] = point(r, tss.EcdsaScheme)
	}
	s.ECDSAPub = point(r, tss.EcdsaScheme)
	return &s
}

func edSave(r *pbt.Rand, n int) *edkeygen.LocalPartySaveData {
	s := edkeygen.NewLocalPartySaveData(n)
	s.Xi, s.ShareID = bigN(r, 32), bigN(r, 33)
	for i := 0; i < n; i++ {
		s.Ks[i] = bigN(r, 33)
		s.BigXj[i] = point(r, tss.EddsaScheme)
	}
	s.EDDSAPub = point(r, tss.EddsaScheme)
	return &s
}

func presign(r *pbt.Rand) *ecsigning.SignatureData_OneRoundData {
	return &ecsigning.SignatureData_OneRoundData{
		T: int32(r.Uint64() % 100), PartyId: fmt.Sprintf("p%d", r.Uint64()%9), KI: r.Bytes(32), RSigmaI: r.Bytes(int(r.Uint64() % 40)),
		BigR:     &libCommon.ECPoint{X: r.Bytes(32), Y: r.Bytes(32)},
		BigRBarJ: map[string]*libCommon.ECPoint{"a": {X: r.Bytes(32), Y: r.Bytes(31)}},
		BigSJ:    map[string]*libCommon.ECPoint{"b": {X: r.Bytes(32), Y: r.Bytes(30)}, "c": {X: r.Bytes(2)}},
	}
}

type mPresign struct {
	id, pids, status, data string
}

type mPeer struct{ addr, key, typ string }

// Model: random histories of the whole Database interface against a reference model.
func Model(t *pbt.T) {
	d := Open(t)
	var pre string
	kg := map[string]map[string]string{} // key type -> work id -> data
	ps := map[string]*mPresign{}
	var psOrder []string
	peers := map[string]mPeer{}
	style := PidStyle(t)
	long := strings.Repeat("0a1b2c3d", 8)
	works := []string{long + "e", long + "f", "1" + long, "keygen0", "w1", "w1-0", "w-1", "w", "0x9", "w%", "W", "it's", "é"}
	anyKinds := map[string]bool{}

	sortedIds := func() []string { return append([]string{}, psOrder...) }
	drawIds := func(withMissing bool) []string {
		ids := sortedIds()
		if len(ids) == 0 {
			return nil
		}
		k := t.Int(1, len(ids))
		var r []string
		for _, i := range t.Subset(len(ids), k) {
			r = append(r, ids[i])
		}
		perm := t.Perm(len(r))
		q := make([]string, len(r))
		for i, j := range perm {
			q[i] = r[j]
		}
		if withMissing {
			at := t.Int(0, len(q))
			q = append(q[:at:at], append([]string{t.OneOf("nope-0", "w1-99", "w", "")}, q[at:]...)...)
		}
		return q
	}
	checkAvail := func(when string) {
		ids, pids, err := d.GetAvailablePresignShortForm()
		if err != nil || len(ids) != len(pids) {
			t.Failf("presign-list", "%s: listing available presigns: %d ids, %d pids, error %v", when, len(ids), len(pids), err)
		}
		var got, want []string
		for i := range ids {
			got = append(got, ids[i]+" by "+pids[i])
		}
		for _, p := range ps {
			if p.status == db.PresignStatusNotUsed {
				want = append(want, p.id+" by "+p.pids)
			}
		}
		sort.Strings(got)
		sort.Strings(want)
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			t.Failf("presign-list", "%s: available presigns are %v, want %v", when, got, want)
		}
	}

	steps := t.Int(3, 30)
	for s := 0; s < steps; s++ {
		t.StopIfFailed()
		r := t.Rand()
		switch op := t.Weighted(1, 2, 5, 4, 4, 4, 5, 4, 4, 3, 3); op {
		case 0:
			v := preparams(r)
			err := d.SavePreparams(v)
			t.Note("save preparams -> %v", err)
			if pre == "" {
				if err != nil {
					t.Failf("preparams", "saving preparams: %v", err)
				}
				pre = js(v)
			} else if err == nil {
				// Replacing is fine too, as long as it is what is read back.
				pre = js(v)
			}
			spoil(v)
		case 1:
			v, err := d.LoadPreparams()
			if pre == "" {
				if err != db.ErrNotFound {
					t.Failf("missing", "loading preparams that were never saved: %v, error %v", v, err)
				}
			} else if err != nil || js(v) != pre {
				t.Failf("preparams", "preparams changed: error %v", err)
			}
			spoil(v)
		case 2, 3:
			kt := t.OneOf("ecdsa", "eddsa")
			w := t.OneOf(works...)
			n := t.Int(1, 4)
			var data string
			var err error
			if kt == "ecdsa" {
				v := ecSave(r, n)
				data = js(v)
				err = d.SaveEcKeygen(kt, w, Pids(style, n), v)
				spoil(v)
			} else {
				v := edSave(r, n)
				data = js(v)
				err = d.SaveEdKeygen(kt, w, Pids(style, n), v)
				spoil(v)
			}
			if kg[kt] == nil {
				kg[kt] = map[string]string{}
			}
			_, had := kg[kt][w]
			t.Note("save %s keygen %q (had one: %v) -> %v", kt, w, had, err)
			if !had && err != nil {
				t.Failf("keygen", "saving keygen %s %q: %v", kt, w, err)
			}
			if err == nil {
				kg[kt][w] = data
			}
			anyKinds["keygen"] = true
		case 4:
			kt := t.OneOf("ecdsa", "eddsa")
			var got string
			var err error
			missing := false
			if kt == "ecdsa" {
				var v *eckeygen.LocalPartySaveData
				v, err = d.LoadEcKeygen(kt)
				missing = v == nil
				got = js(v)
				spoil(v)
			} else {
				var v *edkeygen.LocalPartySaveData
				v, err = d.LoadEdKeygen(kt)
				missing = v == nil
				got = js(v)
				spoil(v)
			}
			if len(kg[kt]) == 0 {
				if !errors.Is(err, db.ErrNotFound) {
					t.Failf("missing", "loading a %s keygen that was never saved gives error %v", kt, err)
				}
				break
			}
			if err != nil || missing {
				t.Failf("keygen", "cannot load the %s keygen: %v", kt, err)
			}
			ok := false
			for _, data := range kg[kt] {
				ok = ok || data == got
			}
			if !ok {
				t.Failf("keygen", "the loaded %s keygen is none of the %d saved ones", kt, len(kg[kt]))
			}
		case 5, 6:
			w := t.OneOf(works...)
			n, k := t.Int(1, 4), t.Int(0, 5)
			outs := make([]*ecsigning.SignatureData_OneRoundData, k)
			for i := range outs {
				outs[i] = presign(r)
			}
			all := Pids(style, 6)
			var sel []*tss.PartyID
			var names []string
			for _, i := range t.Subset(6, n) {
				sel = append(sel, all[i])
			}
			perm := t.Perm(n)
			shuffled := make([]*tss.PartyID, n)
			for i, j := range perm {
				shuffled[i] = sel[j]
				names = append(names, sel[j].Id)
			}
			sort.Strings(names)
			err := d.SavePresignData(w, shuffled, outs)
			clash := false
			for i := range outs {
				clash = clash || ps[fmt.Sprintf("%s-%d", w, i)] != nil
			}
			t.Note("save %d presigns of %q -> %v", k, w, err)
			if !clash && err != nil {
				t.Failf("presign-save", "saving %d presigns of %q: %v", k, w, err)
			}
			if clash && err == nil {
				t.Failf("presign-save", "presigns of %q were saved twice", w)
			}
			if err == nil {
				for i := range outs {
					id := fmt.Sprintf("%s-%d", w, i)
					ps[id] = &mPresign{id, strings.Join(names, ","), db.PresignStatusNotUsed, js(outs[i])}
					psOrder = append(psOrder, id)
				}
			}
			checkAvail("after saving presigns")
			if k > 1 {
				anyKinds["batch"] = true
			}
		case 7:
			missing := t.Prob(1, 4)
			ids := drawIds(missing)
			if len(ids) == 0 {
				break
			}
			got, err := d.LoadPresign(ids)
			if missing {
				if err == nil {
					t.Failf("missing", "LoadPresign(%q) has a missing id but gives no error", ids)
				}
				break
			}
			if err != nil || len(got) != len(ids) {
				t.Failf("presign-load", "LoadPresign(%q): %d results, error %v", ids, len(got), err)
			}
			for i, id := range ids {
				if js(got[i]) != ps[id].data {
					t.Failf("presign-load", "LoadPresign(%q): result %d is not presign %q", ids, i, id)
				}
			}
			spoil(got)
			if len(ids) > 1 {
				anyKinds["ordered"] = true
			}
		case 8:
			missing := t.Prob(1, 4)
			ids := drawIds(missing)
			if len(ids) == 0 {
				break
			}
			got, err := d.LoadPresignStatus(ids)
			if missing {
				if err == nil && len(got) == len(ids) {
					t.Failf("missing", "LoadPresignStatus(%q) has a missing id but gives %q", ids, got)
				}
				break
			}
			if err != nil || len(got) != len(ids) {
				t.Failf("presign-status", "LoadPresignStatus(%q): %q, error %v", ids, got, err)
			}
			for i, id := range ids {
				if got[i] != ps[id].status {
					t.Failf("presign-status", "LoadPresignStatus(%q): %q, but %q is %q", ids, got, id, ps[id].status)
				}
			}
			spoil(got)
		case 9:
			ids := drawIds(t.Prob(1, 6))
			if len(ids) == 0 {
				break
			}
			err := d.UpdatePresignStatus(ids)
			t.Note("mark used %q -> %v", ids, err)
			if err != nil {
				t.Failf("presign-status", "UpdatePresignStatus(%q): %v", ids, err)
			}
			for _, id := range ids {
				if ps[id] != nil {
					ps[id].status = db.PresignStatusUsed
				}
			}
			anyKinds["used"] = true
			checkAvail("after marking presigns used")
		case 10:
			if t.Prob(2, 3) {
				n := t.Int(0, 4)
				var in []*p2ptypes.Peer
				clash := false
				own := map[string]bool{}
				for i := 0; i < n; i++ {
					k := fmt.Sprintf("%02x%02x", t.Int(0, 11), 7)
					p := mPeer{t.OneOf("/ip4/1.2.3.4/tcp/28300/p2p/x", "/dns/a/tcp/1", "it's", ""), k, t.OneOf("ed25519", "secp256k1")}
					clash = clash || peers[k].key != "" || own[k]
					own[k] = true
					in = append(in, &p2ptypes.Peer{Address: p.addr, PubKey: p.key, PubKeyType: p.typ})
				}
				err := d.SavePeers(in)
				t.Note("save %d peers -> %v", n, err)
				if !clash && err != nil {
					t.Failf("peers", "saving %d peers: %v", n, err)
				}
				if err == nil {
					for _, p := range in {
						peers[p.PubKey] = mPeer{p.Address, p.PubKey, p.PubKeyType}
					}
					if n > 0 {
						anyKinds["peers"] = true
					}
				}
			}
			got := map[string]mPeer{}
			list := d.LoadPeers()
			for _, p := range list {
				got[p.PubKey] = mPeer{p.Address, p.PubKey, p.PubKeyType}
			}
			if fmt.Sprint(got) != fmt.Sprint(peers) || len(list) != len(peers) {
				t.Failf("peers", "peers read back are %v (%d rows), saved were %v", got, len(list), peers)
			}
			spoil(list)
		}
	}
	checkAvail("at the end")
	if len(anyKinds) >= 2 {
		t.NonTrivial()
	}
	for k := range anyKinds {
		t.Label("%s", k)
	}
}

// Concurrent: several goroutines use one database at once, each on its own items; all must be there.
func Concurrent(t *pbt.T) {
	d := Open(t)
	g, per := t.Int(2, 8), t.Int(1, 6)
	seed := t.Seed()
	t.Note("%d goroutines with %d works each", g, per)
	var wg sync.WaitGroup
	t.WithLimit(20*time.Second, "db-blocked", "concurrent saves and loads", func() {
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				r := pbt.NewRand(pbt.Mix(seed, uint64(i)))
				for j := 0; j < per; j++ {
					w := fmt.Sprintf("w%d.%d", i, j)
					outs := []*ecsigning.SignatureData_OneRoundData{presign(r), presign(r)}
					if err := d.SavePresignData(w, Pids(0, 3), outs); err != nil {
						t.Record("db-concurrent", "SavePresignData: %v", err)
						return
					}
					got, err := d.LoadPresign([]string{w + "-1", w + "-0"})
					if err != nil || len(got) != 2 || js(got[0]) != js(outs[1]) || js(got[1]) != js(outs[0]) {
						t.Record("db-concurrent", "presigns of %s read back wrong while others save (error %v)", w, err)
						return
					}
					if j%2 == 0 {
						if err := d.UpdatePresignStatus([]string{w + "-0"}); err != nil {
							t.Record("db-concurrent", "UpdatePresignStatus: %v", err)
							return
						}
					}
				}
			}(i)
		}
		wg.Wait()
	})
	t.StopIfFailed()
	ids, _, err := d.GetAvailablePresignShortForm()
	want := g * (per*2 - (per+1)/2)
	if err != nil || len(ids) != want {
		t.Failf("db-concurrent", "%d presigns are listed, want %d (error %v)", len(ids), want, err)
	}
	t.NonTrivial()
}

// Large: a store with many presigns lists all of those that are left, and each can be loaded.
func Large(t *pbt.T) {
	d := Open(t)
	r := t.Rand()
	left := map[string]string{} // id -> content
	var all []string
	works := t.Int(2, 12)
	for w, total := 0, t.Int(300, 2600); total > 0 && w < works; w++ {
		k := t.Int(1, total)
		if w == works-1 {
			k = total
		}
		if k > 800 {
			k = 800
		}
		total -= k
		outs := make([]*ecsigning.SignatureData_OneRoundData, k)
		for i := range outs {
			outs[i] = presign(r)
		}
		name := fmt.Sprintf("w%d", w)
		if err := d.SavePresignData(name, Pids(w%3, 2+w%3), outs); err != nil {
			t.Failf("db-large", "saving %d presigns of %s: %v", k, name, err)
		}
		for i, o := range outs {
			id := fmt.Sprintf("%s-%d", name, i)
			left[id] = js(o)
			all = append(all, id)
		}
	}
	var used []string
	for _, id := range all {
		if len(used) < 600 && t.Prob(1, 6) {
			used = append(used, id)
		}
	}
	if len(used) > 0 {
		if err := d.UpdatePresignStatus(used); err != nil {
			t.Failf("db-large", "marking %d presigns: %v", len(used), err)
		}
	}
	for _, id := range used {
		delete(left, id)
	}
	t.Note("%d presigns, %d used", len(all), len(used))
	ids, _, err := d.GetAvailablePresignShortForm()
	if err != nil || len(ids) != len(left) {
		t.Failf("db-large", "%d presigns are listed, %d are left (error %v)", len(ids), len(left), err)
	}
	seen := map[string]bool{}
	for _, id := range ids {
		if left[id] == "" || seen[id] {
			t.Failf("db-large", "%s is listed, which is used, unknown or listed twice", id)
		}
		seen[id] = true
	}
	sort.Strings(ids)
	for len(ids) > 0 {
		k := t.Int(1, 700)
		if k > len(ids) {
			k = len(ids)
		}
		got, err := d.LoadPresign(ids[:k])
		if err != nil || len(got) != k {
			t.Failf("db-large", "loading %d presigns gives %d (error %v)", k, len(got), err)
		}
		for i := range got {
			if js(got[i]) != left[ids[i]] {
				t.Failf("db-large", "%s was read back wrong", ids[i])
			}
		}
		ids = ids[k:]
	}
	t.NonTrivial()
}

// Idle: what was saved is still there after the database was not used for a while.
func Idle(t *pbt.T) {
	d := Open(t)
	r := t.Rand()
	v := edSave(r, 3)
	if err := d.SaveEdKeygen("eddsa", "w", Pids(0, 3), v); err != nil {
		t.Failf("db-idle", "%v", err)
	}
	wait := 5500 + t.Int(0, 700)
	if t.Thorough {
		wait = 31000 + t.Int(0, 3000)
	}
	t.Note("idle for %d ms", wait)
	time.Sleep(time.Duration(wait) * time.Millisecond)
	got, err := d.LoadEdKeygen("eddsa")
	if err != nil || js(got) != js(v) {
		t.Failf("db-idle", "after %d ms without use the keygen cannot be read: %v", wait, err)
	}
	t.NonTrivial()
}
