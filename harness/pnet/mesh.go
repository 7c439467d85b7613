package pnet

import (
	"context"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"sync"
	"time"

	"github.com/libp2p/go-libp2p"
	"github.com/libp2p/go-libp2p/core/crypto"
	"github.com/libp2p/go-libp2p/core/host"
	"github.com/libp2p/go-libp2p/core/network"
	"github.com/libp2p/go-libp2p/core/peer"
	"github.com/libp2p/go-libp2p/core/protocol"
	"github.com/multiformats/go-multiaddr"
	"github.com/sisu-network/dheart/p2p"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"

	"dverif/pbt"
)

var protos = []protocol.ID{p2p.TSSProtocolID, p2p.PingProtocolID}

func digest(b []byte) string {
	if len(b) <= 40 {
		return fmt.Sprintf("%d:%x", len(b), b)
	}
	h := sha256.Sum256(b)
	return fmt.Sprintf("%d:%x", len(b), h[:12])
}

func key(proto protocol.ID, from, content string) string {
	return string(proto) + " " + from + " " + content
}

// ear is the listener of one protocol on one node.
type ear struct {
	log   *Log
	proto protocol.ID
	slow  func() // runs after the message has been noted
}

func (e *ear) OnNetworkMessage(m *p2ptypes.P2PMessage) {
	if m == nil {
		e.log.add("a nil message")
		return
	}
	e.log.add(key(e.proto, m.FromPeerId, digest(m.Data)))
	if e.slow != nil {
		e.slow()
	}
}

type node struct {
	*Addr
	cm    p2p.ConnectionManager
	log   *Log
	ears  [2]bool
	peers []*Addr
	up    bool
}

type mesh struct {
	t     *pbt.T
	nodes []*node
	block chan struct{} // listeners may hang until this is closed
	hang  int           // every so many messages hang
	mu    sync.Mutex
	count int
	must  []map[string]int // by node: what has to be delivered
	may   []map[string]int // by node: what may be delivered as well
	seq   uint64
}

func (m *mesh) ear(n *node, p int) *ear {
	return &ear{log: n.log, proto: protos[p], slow: func() {
		if m.hang == 0 {
			return
		}
		m.mu.Lock()
		m.count++
		h := m.count%m.hang == 0
		m.mu.Unlock()
		if h {
			<-m.block
		}
	}}
}

func (m *mesh) start(n *node) error {
	n.cm = p2p.NewConnectionManager(n.Config(n.peers))
	for p := range protos {
		if n.ears[p] {
			n.cm.AddListener(protos[p], m.ear(n, p))
		}
	}
	err := n.cm.Start(n.Priv.Bytes(), n.Priv.Type())
	n.up = err == nil
	return err
}

func (m *mesh) stop(n *node) {
	if n.cm != nil {
		if h := HostOf(n.cm); h != nil {
			h.Close()
		}
	}
	n.up = false
}

// payload draws a message; all but tiny ones are unique.
func (m *mesh) payload(t *pbt.T, r *pbt.Rand) []byte {
	var size int
	switch t.Weighted(6, 6, 3, 3, 2, 1) {
	case 0:
		size = t.Int(12, 400)
	case 1:
		size = t.Int(0, 11)
	case 2:
		size = 4096 + t.Int(-8, 8)
	case 3:
		size = t.Int(1000, 70000)
	case 4:
		size = 1<<uint(t.Int(12, 21)) + t.Int(-4, 4)
	case 5:
		size = t.Int(1<<21, p2p.MaxPayload)
		if t.Bool() {
			size = p2p.MaxPayload - t.Int(0, 1)
		}
	}
	b := make([]byte, size)
	if size < 12 {
		copy(b, r.Bytes(size))
		return b
	}
	m.seq++
	binary.LittleEndian.PutUint64(b, m.seq)
	copy(b[8:], r.Bytes(min(size-8, 4096)))
	b[size-1] = byte(m.seq)
	return b
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

type send struct {
	from, to, proto int
	data            []byte
	err             error
	sure            bool // both ends are up
}

func (m *mesh) drawSends(t *pbt.T, k int, sure func(i, j int) bool) []*send {
	r := t.Rand()
	var out []*send
	big := 0
	for i := 0; i < k; i++ {
		s := &send{from: t.Int(0, len(m.nodes)-1), proto: t.Int(0, 1)}
		s.to = (s.from + 1 + t.Int(0, len(m.nodes)-2)) % len(m.nodes)
		s.data = m.payload(t, r)
		if len(out) > 0 && t.Prob(1, 5) {
			// The same bytes again: to the same peer, on the other protocol or to someone else.
			last := out[len(out)-1]
			s.data = last.data
			if t.Prob(2, 3) {
				s.from, s.to, s.proto = last.from, last.to, last.proto
			}
		}
		if big += len(s.data); big > 45000000 {
			s.data = s.data[:min(len(s.data), 3000)]
		}
		s.sure = sure(s.from, s.to)
		if m.nodes[s.from].up {
			out = append(out, s)
		}
	}
	return out
}

// burst sends everything with a few goroutines.
func (m *mesh) burst(t *pbt.T, sends []*send) {
	for _, s := range sends {
		if n := m.nodes[s.to]; n.ears[s.proto] {
			k := key(protos[s.proto], m.nodes[s.from].ID.String(), digest(s.data))
			if s.sure {
				m.must[s.to][k]++
			} else {
				m.may[s.to][k]++
			}
		}
	}
	workers := t.Int(1, 8)
	wg := &sync.WaitGroup{}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := w; i < len(sends); i += workers {
				s := sends[i]
				s.err = m.nodes[s.from].cm.WriteToStream(m.nodes[s.to].ID, protos[s.proto], s.data)
			}
		}(w)
	}
	t.WithLimit(90*time.Second, "send-stuck", "sending", wg.Wait)
	for _, s := range sends {
		if s.err != nil && s.sure {
			t.Stuckf("send-error", "n%d sends %d bytes to n%d (%s), both are connected: %v", s.from, len(s.data), s.to, protos[s.proto], s.err)
		}
	}
}

// settle waits for what has to arrive and then looks at everything that did.
func (m *mesh) settle(t *pbt.T, when string) {
	done := func() bool {
		for i, n := range m.nodes {
			for k, c := range m.must[i] {
				if n.log.count(k) < c {
					return false
				}
			}
		}
		return true
	}
	ok := t.Wait(15*time.Second, done)
	if ok {
		time.Sleep(40 * time.Millisecond)
	}
	for i, n := range m.nodes {
		got := n.log.snapshot()
		for k, c := range got {
			if c > m.must[i][k]+m.may[i][k] {
				t.Failf("unexpected-delivery", "%s: n%d got %d times %q, sent to it: %d (and %d uncertain)", when, i, c, m.name(k), m.must[i][k], m.may[i][k])
			}
		}
		for k, c := range m.must[i] {
			if got[k] < c {
				t.Stuckf("lost-message", "%s: n%d got %d times %q, which was sent to it %d times without an error", when, i, got[k], m.name(k), c)
			}
		}
	}
	t.StopIfFailed()
}

func (m *mesh) name(k string) string {
	for i, n := range m.nodes {
		k = replace(k, n.ID.String(), fmt.Sprintf("n%d", i))
	}
	return k
}

func replace(s, a, b string) string {
	for i := 0; i+len(a) <= len(s); i++ {
		if s[i:i+len(a)] == a {
			return s[:i] + b + s[i+len(a):]
		}
	}
	return s
}

func rawHost(r *pbt.Rand) (host.Host, error) {
	k, err := crypto.UnmarshalSecp256k1PrivateKey(GenKey(r, false).Bytes())
	if err != nil {
		return nil, err
	}
	return libp2p.New(libp2p.NoListenAddrs, libp2p.Identity(k))
}

func frame(b []byte) []byte {
	h := make([]byte, 4)
	binary.LittleEndian.PutUint32(h, uint32(len(b)))
	return append(h, b...)
}

// Mesh: generated traffic between real connection managers on the loopback.
func Mesh(t *pbt.T) {
	n := t.Int(2, 4)
	m := &mesh{t: t, block: make(chan struct{})}
	if t.Prob(1, 4) {
		m.hang = t.Int(1, 5)
	}
	r := t.Rand()
	for i := 0; i < n; i++ {
		x := &node{Addr: NewAddr(r, t.Prob(1, 3)), log: NewLog()}
		x.ears = [2]bool{!t.Prob(1, 10), !t.Prob(1, 4)}
		m.nodes = append(m.nodes, x)
		m.must = append(m.must, map[string]int{})
		m.may = append(m.may, map[string]int{})
	}
	t.Cleanup(func() {
		close(m.block)
		for _, x := range m.nodes {
			m.stop(x)
		}
	})
	for i, x := range m.nodes {
		for j := range m.nodes {
			if i != j {
				x.peers = append(x.peers, m.nodes[j].Addr)
			}
		}
	}
	late := -1
	if t.Prob(1, 8) {
		late = t.Int(0, n-1)
	}
	t.Note("%d nodes, ears %v, late %d, hang %d", n, func() (o [][2]bool) {
		for _, x := range m.nodes {
			o = append(o, x.ears)
		}
		return
	}(), late, m.hang)
	wg := &sync.WaitGroup{}
	errs := make([]error, n)
	for i := range m.nodes {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			if i == late {
				time.Sleep(time.Second)
			}
			errs[i] = m.start(m.nodes[i])
		}(i)
	}
	t.WithLimit(60*time.Second, "start-stuck", "starting the connection managers", wg.Wait)
	for i, e := range errs {
		if e != nil {
			t.Stuckf("start-error", "n%d does not start: %v", i, e)
		}
		if e == nil && !m.nodes[i].cm.IsReady() {
			t.Failf("not-ready", "n%d is connected to all peers but not ready", i)
		}
	}
	t.StopIfFailed()
	all := func(i, j int) bool { return m.nodes[i].up && m.nodes[j].up }
	total := 0
	phases := t.Int(2, 5)
	for ph := 0; ph < phases; ph++ {
		op := t.Weighted(5, 3, 2, 2, 2)
		switch op {
		case 0:
			s := m.drawSends(t, t.Int(1, 25), all)
			t.Note("phase %d: %d sends", ph, len(s))
			total += len(s)
			m.burst(t, s)
		case 1: // a peer restarts, perhaps while others send to it
			k := t.Int(0, n-1)
			x := m.nodes[k]
			during := t.Int(0, 6)
			t.Note("phase %d: n%d restarts", ph, k)
			m.settle(t, "before a restart")
			m.stop(x)
			var ss []*send
			if during > 0 {
				ss = m.drawSends(t, during, all)
				for _, s := range ss {
					t.Note("  while it is down: n%d to n%d, %d bytes", s.from, s.to, len(s.data))
				}
			}
			dwg := &sync.WaitGroup{}
			dwg.Add(1)
			go func() { defer dwg.Done(); m.burst(t, ss) }()
			time.Sleep(time.Duration(t.Int(0, 30)) * time.Millisecond)
			var err error
			t.WithLimit(60*time.Second, "restart-stuck", "restarting a connection manager", func() { dwg.Wait(); err = m.start(x) })
			if err != nil {
				t.Stuckf("restart-error", "n%d does not start again: %v", k, err)
			}
			t.StopIfFailed()
			time.Sleep(t.Limit(100 * time.Millisecond))
			s := m.drawSends(t, t.Int(2, 12), all)
			for _, y := range s { // mostly to and from the restarted node
				if t.Prob(2, 3) && y.to != k && y.from != k {
					if y.to = k; t.Bool() {
						y.from, y.to = k, y.from
					}
				}
			}
			total += len(s) + 1
			t.Note("phase %d: then %d sends", ph, len(s))
			m.burst(t, s)
		case 2: // sends that must be refused
			from := m.nodes[t.Int(0, n-1)]
			stranger := NewAddr(r, false)
			id := stranger.ID
			if t.Bool() {
				id = peer.ID("")
			}
			if err := from.cm.WriteToStream(id, protos[t.Int(0, 1)], []byte("x")); err == nil {
				t.Failf("unknown-peer", "sending to an unknown peer returned no error")
			}
			to := m.nodes[t.Int(0, n-1)]
			if to != from {
				over := p2p.MaxPayload + t.Int(1, 5)
				if err := from.cm.WriteToStream(to.ID, protos[0], make([]byte, over)); err == nil {
					t.Failf("oversize", "sending %d bytes returned no error", over)
				}
			}
			if err := from.cm.WriteToStream(from.ID, protos[0], []byte("me")); err == nil {
				t.Failf("send-self", "sending to oneself, which is no configured peer, returned no error")
			}
			t.Note("phase %d: refused sends", ph)
		case 3: // listeners come (or are replaced)
			x := m.nodes[t.Int(0, n-1)]
			p := t.Int(0, 1)
			m.settle(t, "before a listener change")
			x.ears[p] = true
			x.cm.AddListener(protos[p], m.ear(x, p))
			t.Note("phase %d: new listener", ph)
		case 4: // an outsider with its own identity sends good frames and garbage
			k := t.Int(0, n-1)
			x := m.nodes[k]
			h, err := rawHost(r)
			if err != nil {
				panic(err)
			}
			ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
			ma, _ := multiaddr.NewMultiaddr(x.Peer().Address)
			info, _ := peer.AddrInfoFromP2pAddr(ma)
			if err := h.Connect(ctx, *info); err != nil {
				t.Stuckf("outsider-connect", "cannot connect: %v", err)
			} else {
				for q := t.Int(1, 4); q > 0; q-- {
					p := t.Int(0, 1)
					st, err := h.NewStream(ctx, x.ID, protos[p])
					if err != nil {
						t.Stuckf("outsider-stream", "cannot open a stream: %v", err)
						break
					}
					m.outsider(t, r, st, x, k, p, h.ID().String())
				}
			}
			t.Note("phase %d: outsider to n%d", ph, k)
			closeIt := t.Bool()
			if closeIt {
				m.settle(t, "outsider")
				h.Close()
			} else {
				t.Cleanup(func() { h.Close() })
			}
			cancel()
		}
		t.StopIfFailed()
		if t.Bool() {
			m.settle(t, fmt.Sprintf("after phase %d", ph))
		}
	}
	m.settle(t, "at the end")
	if total > 1 {
		t.NonTrivial()
	}
}

// outsider writes frames that were never sent by a node: whole ones are delivered under the outsider's
// identity, broken ones are not delivered at all.
func (m *mesh) outsider(t *pbt.T, r *pbt.Rand, st network.Stream, x *node, k, p int, id string) {
	for i := t.Int(0, 3); i > 0; i-- {
		b := r.Bytes(t.Int(12, 5000))
		if x.ears[p] {
			m.must[k][key(protos[p], id, digest(b))]++
		}
		f := frame(b)
		cut := t.Int(0, len(f))
		st.Write(f[:cut])
		if t.Bool() {
			time.Sleep(2 * time.Millisecond)
		}
		if _, err := st.Write(f[cut:]); err != nil {
			t.Stuckf("outsider-write", "%v", err)
		}
	}
	switch t.Weighted(2, 2, 2, 1, 1) {
	case 0: // announces more than is allowed
		h := make([]byte, 4)
		binary.LittleEndian.PutUint32(h, uint32(p2p.MaxPayload+1)+uint32(r.Intn(1<<31)))
		st.Write(append(h, r.Bytes(t.Int(0, 3000))...))
	case 1: // ends in the middle
		f := frame(r.Bytes(t.Int(12, 3000)))
		st.Write(f[:t.Int(0, len(f)-1)])
		if t.Bool() {
			st.CloseWrite()
		}
	case 2:
		st.CloseWrite()
	case 3: // stays open, nothing more
		st.Write([]byte{9, 0})
	case 4:
	}
}
