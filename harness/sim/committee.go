// Package sim runs real engines of a committee against each other over a simulated network, or one
// real engine against scripted peers.
package sim

import (
	"fmt"
	"math/big"
	"sort"
	"sync"

	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	ctypes "github.com/cosmos/cosmos-sdk/crypto/types"
	"github.com/sisu-network/dheart/core"
	"github.com/sisu-network/dheart/worker"
	tcommon "github.com/sisu-network/tss-lib/common"
	"github.com/sisu-network/tss-lib/crypto"
	"github.com/sisu-network/tss-lib/crypto/paillier"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	"github.com/sisu-network/tss-lib/tss"

	"dverif/pbt"
)

// Member is one node of a committee.
type Member struct {
	Priv ctypes.PrivKey
	Node *core.Node
}

func (m *Member) ID() string { return m.Node.PeerId.String() }

// Committee lists its members in the order of the nodes (party order).
type Committee struct {
	Members []*Member
}

func privKey(r *pbt.Rand, ed bool) ctypes.PrivKey {
	if ed {
		return ed25519.GenPrivKeyFromSecret(r.Bytes(32))
	}
	return secp256k1.GenPrivKeyFromSecret(r.Bytes(32))
}

// NewCommittee makes n members with random node keys; with mixed some have ed25519 keys.
func NewCommittee(r *pbt.Rand, n int, mixed bool) *Committee {
	c := &Committee{}
	byID := map[string]ctypes.PrivKey{}
	var pubs []ctypes.PubKey
	for i := 0; i < n; i++ {
		k := privKey(r, mixed && r.Uint64()%2 == 0)
		pubs = append(pubs, k.PubKey())
		byID[string(k.PubKey().Bytes())] = k
	}
	for _, node := range core.NewNodes(pubs) {
		c.Members = append(c.Members, &Member{Priv: byID[string(node.PubKey.Bytes())], Node: node})
	}
	if len(c.Members) != n {
		panic("committee is incomplete")
	}
	return c
}

// Pids returns fresh, sorted party ids of all members.
func (c *Committee) Pids() tss.SortedPartyIDs {
	out := make([]*tss.PartyID, len(c.Members))
	for i, m := range c.Members {
		p := m.Node.PartyId
		out[i] = tss.NewPartyID(p.Id, p.Moniker, p.KeyInt())
	}
	return tss.SortPartyIDs(out)
}

func (c *Committee) Nodes() []*core.Node {
	out := make([]*core.Node, len(c.Members))
	for i, m := range c.Members {
		p := m.Node.PartyId
		out[i] = &core.Node{PeerId: m.Node.PeerId, PubKey: m.Node.PubKey, PartyId: tss.NewPartyID(p.Id, p.Moniker, p.KeyInt())}
	}
	return out
}

func (c *Committee) Index(id string) int {
	for i, m := range c.Members {
		if m.ID() == id {
			return i
		}
	}
	return -1
}

// Short names the members in messages.
func (c *Committee) Short(id string) string {
	if i := c.Index(id); i >= 0 {
		return fmt.Sprintf("n%d", i)
	}
	return id
}

// LeaderOf is the leader of a work (the choice itself is checked by C12).
func (c *Committee) LeaderOf(workID string) int {
	return c.Index(worker.ChooseLeader(workID, c.Pids()).Id)
}

// ---- a trusted dealer ----

func scalar(r *pbt.Rand, n *big.Int) *big.Int {
	for {
		v := new(big.Int).Mod(new(big.Int).SetBytes(r.Bytes(40)), n)
		if v.Sign() != 0 {
			return v
		}
	}
}

type dealt struct {
	secret *big.Int
	shares []*big.Int
	points []*crypto.ECPoint
	pub    *crypto.ECPoint
	keys   []*big.Int
}

func (c *Committee) deal(r *pbt.Rand, scheme string, threshold int) *dealt {
	ec := tss.EC(scheme)
	n := ec.Params().N
	coef := make([]*big.Int, threshold+1)
	for i := range coef {
		coef[i] = scalar(r, n)
	}
	d := &dealt{secret: coef[0], pub: crypto.ScalarBaseMult(ec, coef[0])}
	for _, p := range c.Pids() {
		x := p.KeyInt()
		v := new(big.Int)
		for i := threshold; i >= 0; i-- {
			v.Mul(v, x)
			v.Add(v, coef[i])
			v.Mod(v, n)
		}
		d.shares = append(d.shares, v)
		d.points = append(d.points, crypto.ScalarBaseMult(ec, v))
		d.keys = append(d.keys, x)
	}
	return d
}

// EdKey and EcKey are dealt key shares, by member.
type EdKey struct {
	Secret *big.Int
	Data   []*edkeygen.LocalPartySaveData
}

func (k *EdKey) Copy(i int) *edkeygen.LocalPartySaveData {
	d := *k.Data[i]
	return &d
}

type EcKey struct {
	Secret *big.Int
	Data   []*eckeygen.LocalPartySaveData
}

func (k *EcKey) Copy(i int) *eckeygen.LocalPartySaveData {
	d := *k.Data[i]
	return &d
}

func (c *Committee) DealEd(r *pbt.Rand, threshold int) *EdKey {
	d := c.deal(r, tss.EddsaScheme, threshold)
	k := &EdKey{Secret: d.secret}
	for i := range c.Members {
		s := edkeygen.NewLocalPartySaveData(len(c.Members))
		s.Xi, s.ShareID = d.shares[i], d.keys[i]
		copy(s.Ks, d.keys)
		copy(s.BigXj, d.points)
		s.EDDSAPub = d.pub
		k.Data = append(k.Data, &s)
	}
	return k
}

var (
	preOnce sync.Once
	pres    []*eckeygen.LocalPreParams
)

// Preparams loads the precomputed safe primes of the repository.
func Preparams(i int) *eckeygen.LocalPreParams {
	preOnce.Do(func() {
		for i := 0; i < 15; i++ {
			pres = append(pres, worker.LoadEcPreparams(i))
		}
	})
	p := *pres[i%len(pres)]
	return &p
}

func (c *Committee) DealEc(r *pbt.Rand, threshold int) *EcKey {
	d := c.deal(r, tss.EcdsaScheme, threshold)
	k := &EcKey{Secret: d.secret}
	n := len(c.Members)
	for i := range c.Members {
		s := eckeygen.NewLocalPartySaveData(n)
		s.LocalPreParams = *Preparams(i)
		s.Xi, s.ShareID = d.shares[i], d.keys[i]
		copy(s.Ks, d.keys)
		copy(s.BigXj, d.points)
		for j := 0; j < n; j++ {
			p := Preparams(j)
			s.NTildej[j], s.H1j[j], s.H2j[j] = p.NTildei, p.H1i, p.H2i
			s.PaillierPKs[j] = &paillier.PublicKey{N: p.PaillierSK.N}
		}
		s.ECDSAPub = d.pub
		k.Data = append(k.Data, &s)
	}
	return k
}

// DealPresign makes one presign with nonce 1/k for the given members (by index).
func (c *Committee) DealPresign(r *pbt.Rand, key *EcKey, members []int, k *big.Int) []*ecsigning.SignatureData_OneRoundData {
	ec := tss.EC(tss.EcdsaScheme)
	n := ec.Params().N
	bigR := crypto.ScalarBaseMult(ec, new(big.Int).ModInverse(k, n))
	rx := new(big.Int).Mod(bigR.X(), n)
	split := func(v *big.Int) []*big.Int {
		out := make([]*big.Int, len(members))
		sum := new(big.Int)
		for i := range out[1:] {
			out[i] = scalar(r, n)
			sum.Add(sum, out[i])
		}
		out[len(out)-1] = new(big.Int).Mod(new(big.Int).Sub(v, sum), n)
		return out
	}
	ks := split(k)
	sigmas := split(new(big.Int).Mod(new(big.Int).Mul(k, key.Secret), n))
	bar, sj := map[string]*tcommon.ECPoint{}, map[string]*tcommon.ECPoint{}
	for i, m := range members {
		id := c.Members[m].ID()
		bar[id] = bigR.ScalarMult(ks[i]).ToProtobufPoint()
		sj[id] = bigR.ScalarMult(sigmas[i]).ToProtobufPoint()
	}
	out := make([]*ecsigning.SignatureData_OneRoundData, len(members))
	for i, m := range members {
		out[i] = &ecsigning.SignatureData_OneRoundData{
			T:        int32(len(members) - 1),
			KI:       ks[i].Bytes(),
			RSigmaI:  new(big.Int).Mod(new(big.Int).Mul(rx, sigmas[i]), n).Bytes(),
			BigR:     bigR.ToProtobufPoint(),
			BigRBarJ: bar,
			BigSJ:    sj,
			PartyId:  c.Members[m].ID(),
		}
	}
	return out
}

// GrindNonce looks for a nonce whose r or s has a leading zero byte.
func GrindNonce(r *pbt.Rand, key *EcKey, msg []byte, wantR bool) *big.Int {
	ec := tss.EC(tss.EcdsaScheme)
	n := ec.Params().N
	z := HashInt(msg, n)
	for try := 0; ; try++ {
		k := scalar(r, n)
		if try > 3000 {
			return k
		}
		bigR := crypto.ScalarBaseMult(ec, new(big.Int).ModInverse(k, n))
		rx := new(big.Int).Mod(bigR.X(), n)
		if wantR {
			if rx.BitLen() <= 248 {
				return k
			}
			continue
		}
		s := new(big.Int).Mul(rx, key.Secret)
		s.Add(s, z)
		s.Mul(s, k)
		s.Mod(s, n)
		if s.Cmp(new(big.Int).Rsh(n, 1)) > 0 {
			s.Sub(n, s)
		}
		if s.BitLen() <= 248 {
			return k
		}
	}
}

// HashInt is the standard truncation of a message hash for ECDSA.
func HashInt(msg []byte, n *big.Int) *big.Int {
	if len(msg) > 32 {
		msg = msg[:32]
	}
	return new(big.Int).SetBytes(msg)
}

// Lagrange interpolates the secret at zero from shares at the given points.
func Lagrange(xs, ys []*big.Int, n *big.Int) *big.Int {
	sum := new(big.Int)
	for i := range xs {
		num, den := big.NewInt(1), big.NewInt(1)
		for j := range xs {
			if i == j {
				continue
			}
			num.Mul(num, xs[j]).Mod(num, n)
			d := new(big.Int).Sub(xs[j], xs[i])
			den.Mul(den, d.Mod(d, n)).Mod(den, n)
		}
		t := new(big.Int).ModInverse(den, n)
		t.Mul(t, num).Mul(t, ys[i])
		sum.Add(sum, t).Mod(sum, n)
	}
	return sum
}

func sortedKeys(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var ecN = tss.EC(tss.EcdsaScheme).Params().N

type presignList = []*ecsigning.SignatureData_OneRoundData
