package pheart

import (
	"fmt"
	"sync"
	"time"

	libchain "github.com/sisu-network/lib/chain"

	"github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/utils"

	"dverif/pbt"
	"dverif/phost"
	"dverif/pnet"
	"dverif/sim"
)

const (
	ed = libchain.KEY_TYPE_EDDSA
	ec = libchain.KEY_TYPE_ECDSA
)

// call is one sign request to one node.
type call struct {
	node  int
	req   *types.KeysignRequest // what is passed
	orig  *types.KeysignRequest // its content
	pubs  []types.PubKeyWrapper
	start time.Time
	err   error
	delay time.Duration
}

func content(r *types.KeysignRequest) string {
	if r == nil {
		return "nil"
	}
	s := r.KeyType
	for _, m := range r.KeysignMessages {
		if m == nil {
			s += "|nil"
		} else {
			s += fmt.Sprintf("|%q %q %q %q %x %x", m.Id, m.InChain, m.OutChain, m.OutHash, m.Bytes, m.BytesToSign)
		}
	}
	return s
}

func drawRequest(t *pbt.T, keyType string, ids []string) *types.KeysignRequest {
	r := &types.KeysignRequest{KeyType: keyType}
	for i, k := 0, 1+t.Weighted(5, 2, 1); i < k; i++ {
		m := &types.KeysignMessage{
			Id: ids[t.Int(0, len(ids)-1)], InChain: t.OneOf("", "eth", "ganache1"), OutChain: t.OneOf("eth", "cardano", ""),
			OutHash: t.OneOf("", "0xab"), BytesToSign: t.Bulk(32),
		}
		m.BytesToSign[0] |= 1 // no leading zero (see C07)
		if t.Bool() {
			m.Bytes = t.Bulk(t.Int(0, 50))
		}
		r.KeysignMessages = append(r.KeysignMessages, m)
	}
	return r
}

type service struct {
	t     *pbt.T
	net   *Net
	pub   map[string][]byte
	mu    sync.Mutex
	calls []*call
	slow  bool // something in the history makes works fail late
}

// result collects what a node posted for a content.
func (s *service) check(final bool) string {
	bad := ""
	s.mu.Lock()
	defer s.mu.Unlock()
	for i, n := range s.net.Nodes {
		_, signs := n.Sink.All()
		at := n.Sink.Times() // not shorter than signs
		count, last := map[string]int{}, map[string]time.Time{}
		for k, r := range signs {
			if r.Request == nil {
				s.t.Failf("result-without-request", "n%d posted a result without request (outcome %d)", i, r.Outcome)
				continue
			}
			c := content(r.Request)
			count[c]++
			last[c] = at[k]
		}
		accepted, lastStart := map[string]int{}, map[string]time.Time{}
		for _, c := range s.calls {
			if c.node == i && c.err == nil {
				k := content(c.orig)
				accepted[k]++
				if c.start.After(lastStart[k]) {
					lastStart[k] = c.start
				}
			}
		}
		for k, c := range count {
			if c > accepted[k] {
				s.t.Failf("too-many-results", "n%d posted %d results for a request that it accepted %d times: %.200s", i, c, accepted[k], k)
			}
		}
		for k := range accepted {
			if !last[k].After(lastStart[k]) {
				bad = fmt.Sprintf("n%d accepted a request (%d times) and posted no result after the last time (%d results in all): %.200s", i, accepted[k], count[k], k)
			}
		}
	}
	return bad
}

// verify checks the successful results.
func (s *service) verify() (succeeded int) {
	for i, n := range s.net.Nodes {
		_, signs := n.Sink.All()
		for _, r := range signs {
			if r.Request == nil || r.Outcome != types.OutcomeSuccess {
				continue
			}
			succeeded++
			pub := s.pub[r.Request.KeyType]
			var msgs [][]byte
			for _, m := range r.Request.KeysignMessages {
				msgs = append(msgs, m.BytesToSign)
			}
			if err := sim.CheckSigned(r.Request.KeyType == ed, pub, msgs, r); err != nil {
				s.t.Failf("false-success", "n%d posted a success: %v", i, err)
			}
		}
	}
	return
}

func (s *service) run(calls []*call) {
	wg := &sync.WaitGroup{}
	for _, c := range calls {
		c.orig = phost.CloneReq(c.req)
		wg.Add(1)
		go func(c *call) {
			defer wg.Done()
			time.Sleep(c.delay)
			c.start = time.Now()
			c.err = s.net.Nodes[c.node].Api.KeySign(c.req, c.pubs)
		}(c)
	}
	s.t.WithLimit(20*time.Second, "keysign-stuck", "KeySign", wg.Wait)
	s.mu.Lock()
	s.calls = append(s.calls, calls...)
	s.mu.Unlock()
	for _, c := range calls {
		s.t.Note("  n%d %.120s after %v: %v", c.node, content(c.orig), c.delay, c.err)
	}
}

// again makes the hosts ask for a request once more while its first result is being posted, when that
// has begun everywhere.
func (s *service) again(r *types.KeysignRequest, perms [][]int, pause time.Duration) {
	mine := content(r)
	posting := &sync.WaitGroup{}
	posting.Add(len(s.net.Nodes))
	for i, n := range s.net.Nodes {
		i, n := i, n
		once := &sync.Once{}
		n.Sink.SetOnSign(func(res *types.KeysignResult) {
			if content(res.Request) != mine {
				return
			}
			once.Do(func() {
				posting.Done()
				posting.Wait()
				go func() {
					c := &call{node: i, req: phost.CloneReq(r), orig: r, pubs: s.net.Wrappers(perms[i]), start: time.Now()}
					s.mu.Lock()
					s.calls = append(s.calls, c)
					s.mu.Unlock()
					err := n.Api.KeySign(c.req, c.pubs)
					s.mu.Lock()
					c.err = err
					s.mu.Unlock()
				}()
				time.Sleep(pause)
			})
		})
	}
}

func (s *service) await(limit time.Duration) {
	why := ""
	ok := s.t.Wait(limit, func() bool { why = s.check(false); return why == "" || s.t.Failed() })
	if !ok {
		s.t.Stuckf("no-result", "%s", why)
	}
	s.t.StopIfFailed()
}

// Service: generated histories of sign requests to the services of a committee.
func Service(t *pbt.T) {
	n := t.Int(2, 4)
	d := sim.DrawDealt(t, n, utils.GetThreshold(n))
	s := &service{t: t, net: NewNet(t, d.C), pub: map[string][]byte{}}
	full := make([]int, n)
	for i := range full {
		full[i] = i
	}
	dealt := t.Prob(1, 2)
	if dealt {
		k := d.Ed(0)
		for i, x := range s.net.Nodes {
			if err := x.DB().SaveEdKeygen(ed, "dealt", d.C.Pids(), k.Copy(i)); err != nil {
				panic(err)
			}
		}
		s.pub[ed] = sim.EdPub(k.Data[0].EDDSAPub)
	}
	s.net.Up(t)
	if !dealt {
		s.pub[ed] = s.net.Keygen(t, "keygen-"+t.OneOf("1", "", "x y"), ed)
		t.Label("keygen")
	}
	if t.Prob(1, 6) {
		for _, x := range s.net.Nodes {
			x.Sink.SetFail(func() error { return fmt.Errorf("host is gone") })
		}
		t.Label("posting-fails")
	}
	ids := []string{"a", "b", "ab", "", t.OneOf("2", "ba", "aa", "three", "a,b", "a__b")}
	var past []*types.KeysignRequest
	phases := t.Int(1, 3)
	for ph := 0; ph < phases; ph++ {
		var calls []*call
		delay := func() time.Duration { return time.Duration(t.Weighted(3, 1, 1)*t.Int(0, 40)) * time.Millisecond }
		everywhere := func(r *types.KeysignRequest, who []int) {
			for _, i := range who {
				calls = append(calls, &call{node: i, req: phost.CloneReq(r), pubs: s.net.Wrappers(t.Perm(n)), delay: delay()})
			}
		}
		alone := false
		for k := 1 + t.Weighted(4, 3, 2, 1); k > 0; k-- {
			r := drawRequest(t, ed, ids)
			switch t.Weighted(12, 3, 3, 3, 2) {
			case 0:
				if len(calls) == 0 && k == 1 {
					alone = true
				}
				everywhere(r, full)
				past = append(past, r)
			case 1: // the same request again, now or later
				if len(past) > 0 {
					r = past[t.Int(0, len(past)-1)]
				}
				everywhere(r, full)
				if t.Bool() {
					everywhere(r, t.Subset(n, t.Int(1, n)))
				}
				past = append(past, r)
				t.Label("repeat")
			case 2: // requests that have to be refused
				who := t.Subset(n, t.Int(1, n))
				w := s.net.Wrappers(t.Perm(n))
				switch t.Int(0, 6) {
				case 0:
					r.KeyType = ec // no such key
				case 1:
					r.KeyType = t.OneOf("", "rsa")
				case 2:
					r.KeysignMessages = nil
				case 3:
					r.KeysignMessages[t.Int(0, len(r.KeysignMessages)-1)].BytesToSign = nil
				case 4:
					r.KeysignMessages[t.Int(0, len(r.KeysignMessages)-1)] = nil
				case 5:
					w = nil
				case 6:
					w[t.Int(0, n-1)].Key = t.Bulk(t.Int(0, 31))
				}
				for _, i := range who {
					calls = append(calls, &call{node: i, req: phost.CloneReq(r), pubs: w, delay: delay()})
				}
				t.Label("refused")
			case 3: // another request with the ids of a previous one
				if len(past) > 0 {
					q := phost.CloneReq(past[t.Int(0, len(past)-1)])
					for _, m := range q.KeysignMessages {
						m.BytesToSign = t.Bulk(32)
						m.BytesToSign[0] |= 1
					}
					r = q
				}
				everywhere(r, full)
				t.Label("same-ids")
			case 4: // not all nodes get it
				if !s.slow || t.Prob(1, 3) {
					everywhere(r, t.Subset(n, t.Int(1, n-1)))
					s.slow = true
					t.Label("partial")
				}
			}
		}
		t.Note("phase %d: %d calls", ph, len(calls))
		s.run(calls)
		for _, c := range calls {
			if refusable(c, s) && c.err == nil {
				t.Failf("accepted", "n%d accepts a request that it cannot carry out: %s", c.node, content(c.orig))
			}
		}
		for _, c := range calls {
			if c.err != nil && !refusable(c, s) && !s.conflict(c) {
				t.Failf("refused", "n%d refuses a proper request, no other request has the same message ids: %v", c.node, c.err)
			}
		}
		t.StopIfFailed()
		before := s.verify()
		if s.slow {
			phases = ph + 1
		}
		if ph == phases-1 || t.Prob(2, 3) {
			s.await(220 * time.Second)
			if ok := s.verify() - before; alone && !s.slow && ok < utils.GetThreshold(n)+1 && quiet(s, calls) {
				t.Stuckf("no-success", "a single request to all %d nodes succeeded on %d of them only", n, ok)
			}
		}
	}
	time.Sleep(150 * time.Millisecond)
	if why := s.check(true); why != "" {
		t.Failf("result-vanished", "%s", why)
	}
	ok := s.verify()
	for _, c := range s.calls {
		if !phost.SameReq(c.orig, c.req) {
			t.Failf("request-changed", "the caller's request was altered: %s became %s", content(c.orig), content(c.req))
		}
	}
	t.StopIfFailed()
	if ok > 0 {
		t.NonTrivial()
	}
}

// refusable: the request cannot be carried out whatever else happens.
func refusable(c *call, s *service) bool {
	if c.orig.KeyType != ed || len(c.orig.KeysignMessages) == 0 || len(c.pubs) == 0 {
		return true
	}
	for _, m := range c.orig.KeysignMessages {
		if m == nil || len(m.BytesToSign) == 0 {
			return true
		}
	}
	for _, w := range c.pubs {
		if len(w.Key) < 32 {
			return true
		}
	}
	return false
}

func idList(r *types.KeysignRequest) string {
	s := ""
	for _, m := range r.KeysignMessages {
		if m != nil {
			s += fmt.Sprintf("%q,", m.Id)
		}
	}
	return s
}

// conflict: another request to the same node has the same message ids.
func (s *service) conflict(c *call) bool {
	for _, x := range s.calls {
		if x.node == c.node && idList(x.orig) == idList(c.orig) && content(x.orig) != content(c.orig) {
			return true
		}
	}
	return false
}

// quiet: nothing of an earlier history can disturb the works of these calls.
func quiet(s *service, calls []*call) bool {
	seen := map[string]bool{}
	for _, c := range s.calls {
		mine := false
		for _, x := range calls {
			mine = mine || x == c
		}
		if !mine {
			for _, m := range c.orig.KeysignMessages {
				if m != nil {
					seen[m.Id] = true
				}
			}
		}
	}
	for _, c := range calls {
		for _, m := range c.orig.KeysignMessages {
			if m != nil && seen[m.Id] {
				return false
			}
		}
	}
	return true
}

// leaderOf is the leader of the work of a request with one message id. How work ids are made is taken from
// the code; a different rule only makes the choice of ids less useful.
// LeaderOf is the member that leads the signing of one message.
func LeaderOf(c *sim.Committee, msgID string) int {
	return c.LeaderOf(utils.KeccakHash32(utils.KeccakHash32(msgID)))
}

// lone is a service of a committee that runs without the others, ready for requests.
func lone(t *pbt.T) (*Net, *Node, int) {
	n := t.Int(2, 4)
	d := sim.DrawDealt(t, n, utils.GetThreshold(n))
	me := t.Int(0, n-1)
	m := d.C.Members[me]
	node := NewNode(t.Rand(), &pnet.Addr{Priv: m.Priv, Host: pnet.LocalIP(), Port: pnet.NewPort(), ID: m.Node.PeerId}, me, nil)
	t.Cleanup(node.Close)
	node.Api.Init()
	net := &Net{C: d.C, Nodes: []*Node{node}}
	if err := node.DB().SaveEdKeygen(ed, "dealt", d.C.Pids(), d.Ed(0).Copy(me)); err != nil {
		panic(err)
	}
	node.Api.SetSisuReady(true)
	t.WithLimit(60*time.Second, "up-stuck", "setting the key", func() {
		if err := node.SetKey(); err != nil {
			t.Failf("set-key", "n%d refuses its key: %v", me, err)
		}
	})
	t.StopIfFailed()
	return net, node, n
}

// WorkIDs: one service that runs alone takes many requests whose lists of message ids are related but
// different, so that all of them are works of their own; what is in process is not mixed up.
func WorkIDs(t *pbt.T) {
	net, node, n := lone(t)
	hash := utils.KeccakHash32
	atoms := []string{"a", "b", "", fmt.Sprint(t.Int(0, 99)), hash(fmt.Sprint(t.Int(0, 9))), "é"}
	known := map[string]bool{}
	var lists [][]string
	related := 0
	name := func(l []string) string { return fmt.Sprintf("%q", l) }
	add := func(l []string) {
		if k := name(l); len(l) > 0 && len(l) < 7 && !known[k] {
			known[k] = true
			lists = append(lists, l)
		}
	}
	chain := func(l []string, h func(string) string) string { // of a prefix, as a rule for ids might have it
		s := ""
		for _, x := range l {
			s = h(s + x)
		}
		return s
	}
	for k := t.Int(2, 4); k > 0; k-- {
		var l []string
		for j := t.Int(1, 3); j > 0; j-- {
			l = append(l, t.OneOf(atoms...))
		}
		add(l)
	}
	for k := t.Int(4, 16); k > 0; k-- {
		l := append([]string{}, lists[t.Int(0, len(lists)-1)]...)
		i := t.Int(0, len(l)-1)
		before := len(lists)
		switch t.Int(0, 8) {
		case 0: // neighbours in one
			if i+1 < len(l) {
				sep := t.OneOf("", "", ",", "_", "__", "-", "|", " ", "\x00", "/", ":")
				l = append(append(l[:i:i], l[i]+sep+l[i+1]), l[i+2:]...)
			}
		case 1: // another order
			j := t.Int(0, len(l)-1)
			l[i], l[j] = l[j], l[i]
		case 2: // one more
			l = append(append(append([]string{}, l[:i]...), t.OneOf(append([]string{l[i]}, atoms...)...)), l[i:]...)
		case 3: // one less
			l = append(l[:i:i], l[i+1:]...)
		case 4: // the beginning replaced with its hash
			if i > 0 {
				l = append([]string{chain(l[:i], hash) + l[i]}, l[i+1:]...)
			}
		case 5: // a hash instead of what is hashed
			l[i] = hash(l[i])
		case 6: // a boundary moves
			if i+1 < len(l) && len(l[i]) > 0 {
				x := l[i]
				l[i], l[i+1] = x[:len(x)-1], x[len(x)-1:]+l[i+1]
			}
		case 8: // one id with the hashes of the others
			x := ""
			for _, y := range l {
				x += hash(y)
			}
			l = []string{x}
		case 7: // another id of the same length
			if b := []byte(l[i]); len(b) > 0 {
				b[t.Int(0, len(b)-1)] ^= byte(1 << uint(t.Int(0, 4)))
				l[i] = string(b)
			}
		}
		add(l)
		related += len(lists) - before
	}
	request := func(l []string) *types.KeysignRequest {
		r := &types.KeysignRequest{KeyType: ed}
		for _, id := range l {
			r.KeysignMessages = append(r.KeysignMessages, &types.KeysignMessage{Id: id, OutChain: "eth", BytesToSign: append([]byte{1}, t.Bulk(31)...)})
		}
		return r
	}
	call := func(r *types.KeysignRequest) (err error) {
		t.WithLimit(20*time.Second, "keysign-stuck", "KeySign", func() { err = node.Api.KeySign(r, net.Wrappers(t.Perm(n))) })
		t.StopIfFailed()
		return
	}
	posted := func(l []string) bool {
		_, signs := node.Sink.All()
		for _, r := range signs {
			if r.Request != nil && idList(r.Request) == idList(request(l)) {
				return true
			}
		}
		return false
	}
	for _, l := range lists {
		if t.Prob(1, 5) { // a request that has to be refused and leaves no trace
			r, w := request(l), net.Wrappers(t.Perm(n))
			j := t.Int(0, len(l)-1)
			switch t.Int(0, 5) {
			case 0:
				r.KeyType = t.OneOf("", "rsa", ec)
			case 1:
				r.KeysignMessages = nil
			case 2:
				r.KeysignMessages[j].BytesToSign = nil
			case 3:
				r.KeysignMessages[j] = nil
			case 4:
				w = nil
			case 5:
				w[t.Int(0, n-1)].Key = t.Bulk(t.Int(0, 31))
			}
			var err error
			t.WithLimit(20*time.Second, "keysign-stuck", "KeySign", func() { err = node.Api.KeySign(r, w) })
			t.StopIfFailed()
			if err == nil {
				t.Failf("accepted", "a request that cannot be carried out is accepted: %s with %d public keys", content(r), len(w))
			}
			t.Label("refused before")
		}
		if err := call(request(l)); err != nil {
			t.Failf("ids-collide", "a request with the message ids %q is refused: %v; the ids in process are %q", l, err, lists)
		}
	}
	for k := t.Int(1, 3); k > 0; k-- {
		l := lists[t.Int(0, len(lists)-1)]
		if err := call(request(l)); err == nil && !posted(l) {
			t.Failf("ids-in-process", "another request with the message ids %q is accepted while one is in process", l)
		}
	}
	if related > 0 {
		t.NonTrivial()
	}
	t.Label("%d lists", (len(lists)+4)/5*5)
}

// Failing: the requests to one service that runs alone fail; each gets its one result.
func Failing(t *pbt.T) {
	net, node, n := lone(t)
	var kinds []string
	want := map[string]int{}
	var signs []*types.KeysignRequest
	most := 2 // more of them wait for each other
	if t.Thorough {
		most = 4
	}
	for i, k := 0, t.Int(1, most); i < k; i++ {
		var err error
		if t.Bool() {
			kt := t.OneOf(ed, ec)
			kinds = append(kinds, kt)
			want[kt]++
			t.WithLimit(20*time.Second, "keygen-stuck", "KeyGen", func() {
				err = node.Api.KeyGen(fmt.Sprint("k", i), kt, net.Wrappers(t.Perm(n)))
			})
		} else {
			q := drawRequest(t, ed, []string{fmt.Sprint("id", i)})
			signs = append(signs, phost.CloneReq(q))
			t.WithLimit(20*time.Second, "keysign-stuck", "KeySign", func() { err = node.Api.KeySign(q, net.Wrappers(t.Perm(n))) })
		}
		t.Note("request %d: keygens %v, %d signings, error %v", i, kinds, len(signs), err)
		if err != nil {
			t.Failf("refused", "request %d is refused: %v", i, err)
		}
	}
	t.StopIfFailed()
	if len(signs) > 0 && t.Bool() { // the host asks again while it is still busy with taking the result
		again := phost.CloneReq(signs[t.Int(0, len(signs)-1)])
		mine, order := content(again), t.Perm(n)
		pause := time.Duration(t.Int(1, 30)) * time.Millisecond
		once, errs := &sync.Once{}, make(chan error, 1)
		node.Sink.SetOnSign(func(r *types.KeysignResult) {
			if content(r.Request) != mine {
				return
			}
			once.Do(func() {
				go func() { errs <- node.Api.KeySign(phost.CloneReq(again), net.Wrappers(order)) }()
				time.Sleep(pause)
			})
		})
		t.Note("request %s again, while its result is being posted (%v)", mine, pause)
		if !t.Wait(100*time.Second, func() bool { return len(errs) > 0 }) {
			t.Stuckf("no-result", "a signing that cannot succeed has no result")
		} else if err := <-errs; err != nil {
			t.Failf("refused", "a request is refused although it has its result: %v", err)
		}
		t.StopIfFailed()
		signs = append(signs, again)
		t.Label("again")
	}
	done := func() bool {
		ks, ss := node.Sink.All()
		return len(ks) >= len(kinds) && len(ss) >= len(signs)
	}
	if !t.Wait(100*time.Second, done) {
		ks, ss := node.Sink.All()
		t.Stuckf("no-result", "%d keygens and %d signings that cannot succeed have %d and %d results", len(kinds), len(signs), len(ks), len(ss))
		t.StopIfFailed()
	}
	time.Sleep(100 * time.Millisecond)
	ks, ss := node.Sink.All()
	if len(ks) != len(kinds) || len(ss) != len(signs) {
		t.Failf("too-many-results", "%d keygens and %d signings have %d and %d results", len(kinds), len(signs), len(ks), len(ss))
	}
	for _, r := range ks {
		if want[r.KeyType]--; want[r.KeyType] < 0 {
			t.Failf("keygen-type", "the keygens are of types %v, a result is of type %q", kinds, r.KeyType)
		}
		if r.Outcome != types.OutcomeFailure {
			t.Failf("false-success", "a keygen without the other nodes has the outcome %v", r.Outcome)
		}
	}
	left := map[string]int{}
	for _, q := range signs {
		left[content(q)]++
	}
	for _, r := range ss {
		if left[content(r.Request)]--; left[content(r.Request)] < 0 {
			t.Failf("other-request", "a result carries the request %s, which is not (or no longer) open", content(r.Request))
		}
		if r.Outcome != types.OutcomeFailure {
			t.Failf("false-success", "a signing without the other nodes has the outcome %v", r.Outcome)
		}
	}
	t.NonTrivial()
}

// Again: the hosts ask for a request once more as soon as its result is being posted.
func Again(t *pbt.T) {
	n := t.Int(2, 4)
	d := sim.DrawDealt(t, n, utils.GetThreshold(n))
	s := &service{t: t, net: NewNet(t, d.C), pub: map[string][]byte{}}
	k := d.Ed(0)
	for i, x := range s.net.Nodes {
		if err := x.DB().SaveEdKeygen(ed, "dealt", d.C.Pids(), k.Copy(i)); err != nil {
			panic(err)
		}
	}
	s.pub[ed] = sim.EdPub(k.Data[0].EDDSAPub)
	s.net.Up(t)
	var calls []*call
	for j, m := 0, t.Int(1, 3); j < m; j++ {
		r := drawRequest(t, ed, []string{fmt.Sprint("id", j)})
		if j == 0 {
			var perms [][]int
			for i := 0; i < n; i++ {
				perms = append(perms, t.Perm(n))
			}
			pause := time.Duration(t.Int(1, 40)) * time.Millisecond
			t.Note("%s again as soon as it is posted (%v)", content(r), pause)
			s.again(r, perms, pause)
		}
		for i := 0; i < n; i++ {
			calls = append(calls, &call{node: i, req: phost.CloneReq(r), pubs: s.net.Wrappers(t.Perm(n))})
		}
	}
	s.run(calls)
	s.t.Wait(60*time.Second, func() bool {
		s.mu.Lock()
		defer s.mu.Unlock()
		return len(s.calls) == len(calls)+n
	})
	s.await(60 * time.Second)
	s.mu.Lock()
	for _, c := range s.calls {
		if c.err != nil {
			t.Failf("refused", "n%d refuses a proper request: %v", c.node, c.err)
		}
	}
	more := len(s.calls) - len(calls)
	s.mu.Unlock()
	if more != n {
		t.Stuckf("no-result", "%d of %d nodes posted a result of the first request", more, n)
	}
	t.StopIfFailed()
	if s.verify() > 0 {
		t.NonTrivial()
	}
}
