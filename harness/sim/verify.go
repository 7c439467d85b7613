package sim

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/ed25519"
	"fmt"
	"math/big"

	"github.com/decred/dcrd/dcrec/edwards/v2"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/tss-lib/crypto"
	"github.com/sisu-network/tss-lib/tss"
)

// EdPub and EcPub are the encodings of group keys (65 bytes uncompressed for ECDSA).
func EdPub(p *crypto.ECPoint) []byte { return edwards.NewPublicKey(p.X(), p.Y()).Serialize() }

func EcPub(p *crypto.ECPoint) []byte {
	return ethcrypto.FromECDSAPub(&ecdsa.PublicKey{Curve: tss.EC(tss.EcdsaScheme), X: p.X(), Y: p.Y()})
}

var halfN = new(big.Int).Rsh(tss.EC(tss.EcdsaScheme).Params().N, 1)

// VerifyEd and VerifyEc say why a signature is not acceptable.
func VerifyEd(pub, msg, sig []byte) error {
	if len(sig) != 64 {
		return fmt.Errorf("%d bytes instead of 64: %x", len(sig), sig)
	}
	if !ed25519.Verify(pub, msg, sig) {
		return fmt.Errorf("does not verify: message %x signature %x key %x", msg, sig, pub)
	}
	return nil
}

func VerifyEc(pub, msg, sig []byte) error {
	if len(sig) != 65 {
		return fmt.Errorf("%d bytes instead of 65: %x", len(sig), sig)
	}
	h := make([]byte, 32)
	HashInt(msg, nil).FillBytes(h)
	if new(big.Int).SetBytes(sig[32:64]).Cmp(halfN) > 0 {
		return fmt.Errorf("s is not low: %x", sig)
	}
	if !ethcrypto.VerifySignature(pub, h, sig[:64]) {
		return fmt.Errorf("does not verify: message %x signature %x key %x", msg, sig, pub)
	}
	rec, err := ethcrypto.Ecrecover(h, sig)
	if err != nil {
		return fmt.Errorf("no key can be recovered: %v", err)
	}
	if !bytes.Equal(rec, pub) {
		return fmt.Errorf("the recovered key is another one (v=%d)", sig[64])
	}
	return nil
}

// CheckSigned checks a successful signing result.
func CheckSigned(ed bool, pub []byte, msgs [][]byte, res *htypes.KeysignResult) error {
	if len(res.Signatures) != len(msgs) {
		return fmt.Errorf("%d signatures for %d messages", len(res.Signatures), len(msgs))
	}
	for i, s := range res.Signatures {
		var err error
		if ed {
			err = VerifyEd(pub, msgs[i], s)
		} else {
			err = VerifyEc(pub, msgs[i], s)
		}
		if err != nil {
			return fmt.Errorf("signature %d: %v", i, err)
		}
	}
	return nil
}

// CheckOutgoing checks that a message a node sent is signed by that node over its content.
func CheckOutgoing(c *Committee, m *Msg) error {
	if m.Signed == nil {
		return fmt.Errorf("not a signed message: %.200q", m.Data)
	}
	i := c.Index(m.Signed.From)
	if i < 0 || m.Signed.From != m.Signed.TssMessage.From {
		return fmt.Errorf("signed as %s, from %s", m.Signed.From, m.Signed.TssMessage.From)
	}
	return c.CheckSignature(i, m.Signed)
}
