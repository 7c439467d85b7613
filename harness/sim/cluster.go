package sim

import (
	"encoding/json"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/libp2p/go-libp2p/core/peer"
	"github.com/libp2p/go-libp2p/core/protocol"
	"github.com/sisu-network/dheart/core"
	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/db"
	"github.com/sisu-network/dheart/p2p"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	htypes "github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/types/common"
	wtypes "github.com/sisu-network/dheart/worker/types"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	"github.com/sisu-network/tss-lib/tss"

	"dverif/pbt"
)

// Msg is one message on its way from one node to another.
type Msg struct {
	From, To int
	Kind     string // kind of message; the tss message name for update messages
	WorkID   string
	Origin   string // the node that signed it
	Nth      int    // how many of this kind were sent on this link for this work and origin, this one included
	Data     []byte
	Signed   *common.SignedMessage
	At       time.Time
}

// Action tells what happens to a message.
type Action struct {
	Drop  bool
	Dups  int           // additional deliveries
	Delay time.Duration // before the delivery
	Slow  time.Duration // before the send call returns
	Err   bool          // the send call returns an error
	Data  []byte        // replaces the content
}

// Net connects the nodes of a committee.
type Net struct {
	T *pbt.T
	C *Committee

	mu      sync.Mutex
	hosts   []core.Engine
	decide  func(*Msg) Action
	counts  map[string]int
	log     []*Msg
	offline map[int]bool
	closed  bool

	Flying   int64 // deliveries that have not ended
	Handling int64 // calls of OnNetworkMessage that have not returned
	Handled  int64
}

func NewNet(t *pbt.T, c *Committee) *Net {
	n := &Net{T: t, C: c, hosts: make([]core.Engine, len(c.Members)), counts: map[string]int{}, offline: map[int]bool{}}
	t.Cleanup(func() {
		n.mu.Lock()
		n.closed = true
		n.mu.Unlock()
	})
	return n
}

func (n *Net) SetDecide(f func(*Msg) Action) {
	n.mu.Lock()
	n.decide = f
	n.mu.Unlock()
}

func (n *Net) SetOffline(i int, off bool) {
	n.mu.Lock()
	n.offline[i] = off
	n.mu.Unlock()
}

func (n *Net) SetHost(i int, e core.Engine) {
	n.mu.Lock()
	n.hosts[i] = e
	n.mu.Unlock()
}

// Log returns the messages sent so far.
func (n *Net) Log() []*Msg {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]*Msg{}, n.log...)
}

// KindOf names a message.
func KindOf(m *common.TssMessage) string {
	if m == nil {
		return "nil"
	}
	switch m.Type {
	case common.TssMessage_UPDATE_MESSAGES:
		if len(m.UpdateMessages) == 0 || m.UpdateMessages[0] == nil {
			return "update"
		}
		s := m.UpdateMessages[0].Round
		return s[strings.LastIndex(s, ".")+1:]
	case common.TssMessage_AVAILABILITY_REQUEST:
		return "request"
	case common.TssMessage_AVAILABILITY_RESPONSE:
		return "response"
	case common.TssMessage_PRE_EXEC_OUTPUT:
		return "selection"
	case common.TssMessage_ASK_MESSAGE_REQUEST:
		return "ask"
	}
	return m.Type.String()
}

// IsUpdate tells whether a kind is a tss protocol message.
func IsUpdate(kind string) bool {
	return strings.HasPrefix(kind, "KG") || strings.HasPrefix(kind, "Sign") || kind == "update"
}

func (n *Net) send(from int, to peer.ID, data []byte) error {
	ti := n.C.Index(to.String())
	if ti < 0 {
		return fmt.Errorf("unknown peer")
	}
	sm := &common.SignedMessage{}
	m := &Msg{From: from, To: ti, Data: append([]byte{}, data...), At: time.Now(), Kind: "garbage"}
	if err := json.Unmarshal(data, sm); err == nil && sm.TssMessage != nil {
		m.Signed, m.Kind, m.WorkID, m.Origin = sm, KindOf(sm.TssMessage), sm.TssMessage.WorkId, sm.From
	}
	n.mu.Lock()
	if n.closed {
		n.mu.Unlock()
		return fmt.Errorf("closed")
	}
	key := fmt.Sprintf("%d>%d %s %s %s", from, ti, m.Kind, m.WorkID, m.Origin)
	n.counts[key]++
	m.Nth = n.counts[key]
	if len(n.log) < 20000 {
		n.log = append(n.log, m)
	}
	off := n.offline[from] || n.offline[ti]
	decide := n.decide
	n.mu.Unlock()
	a := Action{}
	if decide != nil {
		a = decide(m)
	}
	if off {
		a.Drop = true
	}
	if a.Data != nil {
		m.Data = a.Data
	}
	if !a.Drop {
		for i := 0; i <= a.Dups; i++ {
			d := a.Delay
			if i > 0 {
				d += time.Duration(i) * 3 * time.Millisecond
			}
			n.Deliver(from, ti, m.Data, d)
		}
	}
	if a.Slow > 0 {
		time.Sleep(a.Slow)
	}
	if a.Err {
		return fmt.Errorf("send failed")
	}
	return nil
}

// Deliver hands bytes to a node as coming from a peer, in a goroutine of its own.
func (n *Net) Deliver(from, to int, data []byte, delay time.Duration) {
	n.DeliverAs(n.C.Members[from].ID(), to, data, delay)
}

func (n *Net) DeliverAs(fromPeer string, to int, data []byte, delay time.Duration) {
	n.mu.Lock()
	h := n.hosts[to]
	n.mu.Unlock()
	if h == nil {
		return
	}
	atomic.AddInt64(&n.Flying, 1)
	go func() {
		defer atomic.AddInt64(&n.Flying, -1)
		if delay > 0 {
			time.Sleep(delay)
		}
		n.mu.Lock()
		off := n.offline[to] || n.closed
		n.mu.Unlock()
		if off {
			return
		}
		atomic.AddInt64(&n.Handling, 1)
		h.OnNetworkMessage(&p2ptypes.P2PMessage{FromPeerId: fromPeer, Data: append([]byte{}, data...)})
		atomic.AddInt64(&n.Handling, -1)
		atomic.AddInt64(&n.Handled, 1)
	}()
}

// Manager is the connection manager of one node.
type Manager struct {
	Net  *Net
	Self int
}

func (m *Manager) Start([]byte, string) error { return nil }
func (m *Manager) WriteToStream(id peer.ID, _ protocol.ID, msg []byte) error {
	return m.Net.send(m.Self, id, msg)
}
func (m *Manager) AddListener(protocol.ID, p2p.P2PDataListener) {}
func (m *Manager) IsReady() bool                                { return true }

// Outcome is one call of the engine's callback.
type Outcome struct {
	Node    int
	Kind    string // keygen, sign, failed
	WorkID  string // not known for keygen successes
	Request *wtypes.WorkRequest
	Keygen  *htypes.KeygenResult
	Sign    *htypes.KeysignResult
	At      time.Time
	// what the node had stored when it reported a key
	EcStored *eckeygen.LocalPartySaveData
	EdStored *edkeygen.LocalPartySaveData
	StoreErr error
}

func (o *Outcome) String() string {
	switch o.Kind {
	case "keygen":
		return fmt.Sprintf("n%d keygen %s outcome %d key %x", o.Node, o.Keygen.KeyType, o.Keygen.Outcome, o.Keygen.PubKeyBytes)
	case "sign":
		return fmt.Sprintf("n%d signing %s outcome %d with %d signatures", o.Node, o.WorkID, o.Sign.Outcome, len(o.Sign.Signatures))
	}
	return fmt.Sprintf("n%d work %s failed", o.Node, o.WorkID)
}

// SimNode is one node with a real engine.
type SimNode struct {
	Idx    int
	Engine core.Engine
	DB     db.Database
	faulty *faultyDB // what the engine uses

	mu       sync.Mutex
	outcomes []*Outcome
	Hook     func(*Outcome) // called on the engine's goroutine
}

func (s *SimNode) add(o *Outcome) {
	o.Node, o.At = s.Idx, time.Now()
	s.mu.Lock()
	s.outcomes = append(s.outcomes, o)
	h := s.Hook
	s.mu.Unlock()
	if h != nil {
		h(o)
	}
}

func (s *SimNode) OnWorkKeygenFinished(result *htypes.KeygenResult) {
	o := &Outcome{Kind: "keygen", Keygen: result}
	if result.KeyType == "eddsa" {
		o.EdStored, o.StoreErr = s.DB.LoadEdKeygen(result.KeyType)
	} else {
		o.EcStored, o.StoreErr = s.DB.LoadEcKeygen(result.KeyType)
	}
	s.add(o)
}

func (s *SimNode) OnWorkSigningFinished(request *wtypes.WorkRequest, result *htypes.KeysignResult) {
	s.add(&Outcome{Kind: "sign", WorkID: request.WorkId, Request: request, Sign: result})
}

func (s *SimNode) OnWorkFailed(request *wtypes.WorkRequest, culprits []*tss.PartyID) {
	s.add(&Outcome{Kind: "failed", WorkID: request.WorkId, Request: request})
}

// Outcomes lists all callbacks so far.
func (s *SimNode) Outcomes() []*Outcome {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*Outcome{}, s.outcomes...)
}

// Of lists the outcomes of one signing or failed work.
func (s *SimNode) Of(workID string) []*Outcome {
	var out []*Outcome
	for _, o := range s.Outcomes() {
		if o.WorkID == workID {
			out = append(out, o)
		}
	}
	return out
}

// Forget drops the outcomes so far.
func (cl *Cluster) Forget() {
	for _, s := range cl.Nodes {
		s.mu.Lock()
		s.outcomes = nil
		s.mu.Unlock()
	}
}

// Cluster runs one real engine per member.
type Cluster struct {
	T     *pbt.T
	C     *Committee
	Net   *Net
	Nodes []*SimNode
	Cfg   config.TimeoutConfig
}

// OpenDB returns a fresh in-memory database.
func OpenDB(t *pbt.T) db.Database {
	cfg := config.GetLocalhostDbConfig()
	cfg.InMemory = true
	d := db.NewDatabase(&cfg)
	if err := d.Init(); err != nil {
		t.Failf("db-init", "Init: %v", err)
	}
	t.Cleanup(func() { d.Close() })
	return d
}

// Generous limits: a healthy work never comes near them.
func Generous(t *pbt.T) config.TimeoutConfig {
	return config.TimeoutConfig{
		PresignJobTimeout:      t.Limit(30 * time.Second),
		KeygenJobTimeout:       t.Limit(30 * time.Second),
		SigningJobTimeout:      t.Limit(30 * time.Second),
		MonitorMessageTimeout:  t.Limit(10 * time.Second),
		SelectionLeaderTimeout: t.Limit(20 * time.Second),
		SelectionMemberTimeout: t.Limit(25 * time.Second),
	}
}

// NewCluster starts a node per member; setup may fill a node's database before its engine starts.
func NewCluster(t *pbt.T, c *Committee, cfg config.TimeoutConfig, setup func(i int, d db.Database)) *Cluster {
	cl := &Cluster{T: t, C: c, Net: NewNet(t, c), Cfg: cfg}
	for i := range c.Members {
		s := &SimNode{Idx: i, DB: OpenDB(t)}
		if setup != nil {
			setup(i, s.DB)
		}
		s.faulty = &faultyDB{Database: s.DB, fail: map[string]int{}}
		nodes := c.Nodes()
		s.Engine = core.NewEngine(nodes[i], &Manager{cl.Net, i}, s.faulty, s, c.Members[i].Priv, cfg)
		s.Engine.AddNodes(nodes)
		if err := s.Engine.Init(); err != nil {
			t.Failf("engine-init", "Init: %v", err)
		}
		cl.Nodes = append(cl.Nodes, s)
	}
	for i, s := range cl.Nodes {
		cl.Net.SetHost(i, s.Engine)
	}
	return cl
}

// AllHandled waits until every delivered message has been handled.
func (cl *Cluster) AllHandled(limit time.Duration, sig string) {
	cl.T.Eventually(limit, sig, "every call that hands a network message to a node returns", func() bool {
		return atomic.LoadInt64(&cl.Net.Handling) == 0
	})
}

// Idle waits until no node runs a work.
func (cl *Cluster) Idle(limit time.Duration, sig string, nodes ...int) {
	cl.T.Eventually(limit, sig, "all worker slots are free again", func() bool {
		for _, i := range nodes {
			if cl.Nodes[i].Engine.GetActiveWorkerCount() != 0 {
				return false
			}
		}
		return true
	})
}
