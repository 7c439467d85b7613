package sim

import (
	"fmt"
	"time"

	"github.com/sisu-network/dheart/core"
	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/db"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	"github.com/sisu-network/dheart/types/common"
	"github.com/sisu-network/dheart/worker"
	wtypes "github.com/sisu-network/dheart/worker/types"
	"github.com/sisu-network/tss-lib/tss"

	"dverif/pbt"
)

// Solo is one real engine among scripted members.
type Solo struct {
	T    *pbt.T
	C    *Committee
	Me   int
	Net  *Net
	Node *SimNode
}

func NewSolo(t *pbt.T, c *Committee, me int, cfg config.TimeoutConfig, setup func(d db.Database)) *Solo {
	s := &Solo{T: t, C: c, Me: me, Net: NewNet(t, c), Node: &SimNode{Idx: me, DB: OpenDB(t)}}
	if setup != nil {
		setup(s.Node.DB)
	}
	nodes := c.Nodes()
	s.Node.Engine = core.NewEngine(nodes[me], &Manager{s.Net, me}, s.Node.DB, s.Node, c.Members[me].Priv, cfg)
	s.Node.Engine.AddNodes(nodes)
	if err := s.Node.Engine.Init(); err != nil {
		t.Failf("engine-init", "Init: %v", err)
	}
	s.Net.SetHost(me, s.Node.Engine)
	return s
}

// Others are the indexes of the scripted members.
func (s *Solo) Others() []int {
	var out []int
	for i := range s.C.Members {
		if i != s.Me {
			out = append(out, i)
		}
	}
	return out
}

// Say hands a message signed by member i to the engine and returns when it has been handled.
func (s *Solo) Say(i int, m *common.TssMessage) { s.Bytes(s.C.Members[i].ID(), s.C.SignBytes(i, m)) }

// Bytes hands bytes to the engine as coming from a peer.
func (s *Solo) Bytes(peer string, data []byte) {
	s.T.WithLimit(20*time.Second, "handler-stuck", "OnNetworkMessage", func() {
		s.Node.Engine.OnNetworkMessage(&p2ptypes.P2PMessage{FromPeerId: peer, Data: data})
	})
}

// Sent lists the messages the engine has sent, those of one kind and work only when these are not "".
func (s *Solo) Sent(kind, workID string) []*Msg {
	var out []*Msg
	for _, m := range s.Net.Log() {
		if (kind == "" || m.Kind == kind) && (workID == "" || m.WorkID == workID) {
			out = append(out, m)
		}
	}
	return out
}

// SentUpdates counts the tss protocol messages sent for a work.
func (s *Solo) SentUpdates(workID string) int {
	n := 0
	for _, m := range s.Net.Log() {
		if m.WorkID == workID && IsUpdate(m.Kind) {
			n++
		}
	}
	return n
}

// Add requests a work.
func (s *Solo) Add(r *wtypes.WorkRequest) (err error) {
	s.T.WithLimit(20*time.Second, "request-stuck", "AddRequest", func() { err = s.Node.Engine.AddRequest(r) })
	return err
}

// LedBy finds a work id of which the given member is the leader, among all members.
func (c *Committee) LedBy(prefix string, leader int) string {
	return LedBy(prefix, c.Pids(), c.Members[leader].ID())
}

func LedBy(prefix string, pids []*tss.PartyID, leader string) string {
	for i := 0; ; i++ {
		id := fmt.Sprintf("%s.%d", prefix, i)
		if worker.ChooseLeader(id, pids).Id == leader {
			return id
		}
	}
}

// SelectedPids are the pids of members.
func (c *Committee) PidsOf(idx []int) []*tss.PartyID {
	all := c.Pids()
	var out []*tss.PartyID
	for _, i := range idx {
		out = append(out, all[i])
	}
	return out
}
