package sim

import (
	"encoding/json"
	"fmt"

	"github.com/sisu-network/dheart/types/common"
)

// Sign wraps a message as the given member would.
func (c *Committee) Sign(i int, m *common.TssMessage) *common.SignedMessage {
	bz, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	sig, err := c.Members[i].Priv.Sign(bz)
	if err != nil {
		panic(err)
	}
	return &common.SignedMessage{From: c.Members[i].ID(), TssMessage: m, Signature: sig}
}

// SignBytes is the wire form of a signed message.
func (c *Committee) SignBytes(i int, m *common.TssMessage) []byte {
	return Wire(c.Sign(i, m))
}

func Wire(s *common.SignedMessage) []byte {
	bz, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	return bz
}

// CheckSignature verifies a signature by member i over the message content.
func (c *Committee) CheckSignature(i int, s *common.SignedMessage) error {
	bz, err := json.Marshal(s.TssMessage)
	if err != nil {
		return err
	}
	if !c.Members[i].Node.PubKey.VerifySignature(bz, s.Signature) {
		return fmt.Errorf("signature of n%d does not verify over %.300s", i, bz)
	}
	return nil
}
