// Package phost checks the service's boundary: the client that posts results to the host, the
// single-node service and the real service over loopback connections.
package phost

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"sync"
	"time"

	"github.com/ethereum/go-ethereum/rpc"
	"github.com/sisu-network/dheart/client"
	"github.com/sisu-network/dheart/types"
	"github.com/sisu-network/tss-lib/tss"
	"math/big"

	"dverif/pbt"
)

// hostAPI is the host's side.
type hostAPI struct {
	mu      sync.Mutex
	got     []string // kind and content of everything that arrived
	pings   int
	refuse  map[string]bool // contents that are refused with an error
	pingErr bool
}

func (h *hostAPI) add(kind string, v interface{}) error {
	bz, err := json.Marshal(v)
	if err != nil {
		return err
	}
	s := kind + string(bz)
	h.mu.Lock()
	defer h.mu.Unlock()
	h.got = append(h.got, s)
	if h.refuse[s] {
		return errors.New("refused")
	}
	return nil
}

func (h *hostAPI) Ping(source string) error {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.pings++
	if h.pingErr {
		return errors.New("not now")
	}
	return nil
}

func (h *hostAPI) KeygenResult(r *types.KeygenResult) (bool, error) { return true, h.add("keygen", r) }
func (h *hostAPI) KeysignResult(r *types.KeysignResult) error       { return h.add("keysign", r) }

// faulty hosts treat the next requests in a planned way.
type faultyHost struct {
	api   *hostAPI
	rpc   *rpc.Server
	mu    sync.Mutex
	fault string
	lis   net.Listener
	srv   *http.Server
	addr  string
}

func newFaultyHost(t *pbt.T) *faultyHost {
	h := &faultyHost{api: &hostAPI{refuse: map[string]bool{}}, rpc: rpc.NewServer()}
	if err := h.rpc.RegisterName("tss", h.api); err != nil {
		t.Failf("harness", "%v", err)
	}
	return h
}

func (h *faultyHost) listen(addr string) error {
	l, err := net.Listen("tcp", addr)
	if err != nil {
		return err
	}
	h.lis, h.addr = l, l.Addr().String()
	h.srv = &http.Server{Handler: h}
	go h.srv.Serve(l)
	return nil
}

func (h *faultyHost) close() {
	if h.srv != nil {
		h.srv.Close()
		h.srv = nil
	}
}

type recorder struct {
	http.ResponseWriter
	buf  bytes.Buffer
	code int
}

func (r *recorder) Write(b []byte) (int, error) { return r.buf.Write(b) }
func (r *recorder) WriteHeader(c int)           { r.code = c }

func (h *faultyHost) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	h.mu.Lock()
	fault := h.fault
	h.mu.Unlock()
	hijack := func() net.Conn {
		c, _, err := w.(http.Hijacker).Hijack()
		if err != nil {
			return nil
		}
		return c
	}
	switch fault {
	case "":
		h.rpc.ServeHTTP(w, req)
	case "status 500":
		w.WriteHeader(500)
	case "status 404":
		w.WriteHeader(404)
		io.WriteString(w, "not found")
	case "closed before reading":
		if c := hijack(); c != nil {
			c.Close()
		}
	case "closed after handling":
		rec := &recorder{ResponseWriter: w}
		h.rpc.ServeHTTP(rec, req)
		if c := hijack(); c != nil {
			c.Close()
		}
	case "half a response":
		rec := &recorder{ResponseWriter: w}
		h.rpc.ServeHTTP(rec, req)
		w.Write(rec.buf.Bytes()[:rec.buf.Len()/2])
	case "no json":
		io.WriteString(w, "<html></html>")
	case "empty":
	case "error object":
		body, _ := io.ReadAll(req.Body)
		var x struct {
			ID json.RawMessage `json:"id"`
		}
		json.Unmarshal(body, &x)
		fmt.Fprintf(w, `{"jsonrpc":"2.0","id":%s,"error":{"code":-32000,"message":"no"}}`, x.ID)
	}
}

var postFaults = []string{"status 500", "status 404", "closed before reading", "closed after handling", "half a response", "no json", "empty", "error object"}

func drawBytesOrNil(t *pbt.T, max int) []byte {
	switch t.Weighted(6, 1, 1) {
	case 1:
		return nil
	case 2:
		return []byte{}
	}
	return t.Bulk(t.Int(1, max))
}

func drawText(t *pbt.T) string {
	return t.Str(20, "a", "Z", "0", "-", " ", "\"", "<", "é", "\n", "0x")
}

func drawCulprits(t *pbt.T) []*tss.PartyID {
	var out []*tss.PartyID
	for i := t.Weighted(6, 2, 1); i > 0; i-- {
		out = append(out, tss.NewPartyID(fmt.Sprintf("Qm%d", t.Int(0, 99)), "m", big.NewInt(int64(1+t.Int(0, 1000)))))
	}
	return out
}

func drawKeysignRequest(t *pbt.T, keyType string) *types.KeysignRequest {
	r := &types.KeysignRequest{KeyType: keyType}
	for i := t.Int(1, 4); i > 0; i-- {
		r.KeysignMessages = append(r.KeysignMessages, &types.KeysignMessage{
			Id: drawText(t), InChain: drawText(t), OutChain: drawText(t), OutHash: drawText(t), Bytes: drawBytesOrNil(t, 200), BytesToSign: t.Bulk(32),
		})
	}
	return r
}

// Posting: results posted over connections of all kinds of quality.
func Posting(t *pbt.T) {
	h := newFaultyHost(t)
	t.Cleanup(h.close)
	if err := h.listen("127.0.0.1:0"); err != nil {
		t.Failf("harness", "%v", err)
	}
	c := client.NewClient("http://" + h.addr)
	post := func(v interface{}) (err error) {
		t.WithLimit(20*time.Second, "post-stuck", "posting", func() {
			switch r := v.(type) {
			case *types.KeygenResult:
				err = c.PostKeygenResult(r)
			case *types.KeysignResult:
				err = c.PostKeysignResult(r)
			}
		})
		return err
	}
	draw := func() (interface{}, string) {
		if t.Bool() {
			r := &types.KeygenResult{KeyType: drawText(t), KeygenIndex: t.Int(0, 5), PubKeyBytes: drawBytesOrNil(t, 70), Outcome: types.OutcomeType(t.Int(0, 2)), Culprits: drawCulprits(t)}
			return r, "keygen"
		}
		r := &types.KeysignResult{Outcome: types.OutcomeType(t.Int(0, 2)), ErrMesage: drawText(t), Culprits: drawCulprits(t)}
		if t.Prob(7, 8) {
			r.Request = drawKeysignRequest(t, t.OneOf("ecdsa", "eddsa"))
		}
		for i := t.Int(0, 4); i > 0; i-- {
			r.Signatures = append(r.Signatures, drawBytesOrNil(t, 65))
		}
		if t.Prob(1, 12) {
			r.Signatures = append(r.Signatures, t.Bulk(1<<18))
		}
		return r, "keysign"
	}
	text := func(kind string, v interface{}) string {
		bz, _ := json.Marshal(v)
		return kind + string(bz)
	}
	if t.Bool() {
		v, kind := draw()
		if err := post(v); err == nil {
			t.Failf("not-dialled", "a %s result was posted without a connection", kind)
		}
	}
	t.WithLimit(9*time.Second, "dial-stuck", "TryDial with a host that answers", c.TryDial)
	if h.api.pings != 1 {
		t.Failf("ping", "the host was pinged %d times", h.api.pings)
	}
	steps := t.Int(1, 8)
	broken := false // connections may have been broken by the step before
	for i := 0; i < steps; i++ {
		fault := ""
		if t.Bool() {
			fault = postFaults[t.Choose(uint64(len(postFaults)))]
		}
		down := t.Prob(1, 10)
		addr := h.addr
		if down {
			h.close()
			fault = "host down"
		}
		h.mu.Lock()
		h.fault = fault
		h.mu.Unlock()
		h.api.mu.Lock()
		h.api.got = nil
		h.api.refuse = map[string]bool{}
		h.api.mu.Unlock()
		k := 1
		if t.Prob(1, 3) {
			k = t.Int(2, 5)
		}
		want := map[string]int{}
		refused := map[string]bool{}
		vals := make([]interface{}, k)
		kinds := make([]string, k)
		for j := range vals {
			vals[j], kinds[j] = draw()
			s := text(kinds[j], vals[j])
			want[s]++
			if t.Prob(1, 4) {
				refused[s] = true
			}
			t.Note("step %d (%s): %.300s refused=%v", i, fault, s, refused[s])
		}
		h.api.mu.Lock()
		h.api.refuse = refused
		h.api.mu.Unlock()
		errs := make([]error, k)
		wg := &sync.WaitGroup{}
		for j := range vals {
			wg.Add(1)
			go func(j int) {
				defer wg.Done()
				switch r := vals[j].(type) {
				case *types.KeygenResult:
					errs[j] = c.PostKeygenResult(r)
				case *types.KeysignResult:
					errs[j] = c.PostKeysignResult(r)
				}
			}(j)
		}
		t.WithLimit(20*time.Second, "post-stuck", "posting", wg.Wait)
		unsure := map[string]bool{}
		h.api.mu.Lock()
		got := map[string]int{}
		for _, s := range h.api.got {
			got[s]++
		}
		h.api.mu.Unlock()
		for j := range vals {
			s := text(kinds[j], vals[j])
			bad := fault != "" || refused[s]
			if bad && errs[j] == nil {
				t.Failf("false-success", "step %d: posting returned no error although the host had a fault (%q, refused %v): %.300s", i, fault, refused[s], s)
			}
			if errs[j] != nil && broken {
				unsure[s] = true // it may have been told of a connection that had broken before
			} else if !bad && errs[j] != nil {
				t.Failf("false-error", "step %d: posting returned %v although the host took it: %.300s", i, errs[j], s)
			}
		}
		arrives := fault == "" || fault == "closed after handling" || fault == "half a response"
		for s, k := range want {
			if arrives && got[s] != k && !(unsure[s] && got[s] < k) {
				t.Failf("arrival", "step %d (%s): posted %d times, arrived %d times: %.300s\nthe host has %.600q", i, fault, k, got[s], s, h.api.got)
			}
		}
		for s := range got {
			if want[s] == 0 {
				t.Failf("altered", "step %d: what arrived was not posted: %.500s", i, s)
			}
		}
		broken = fault != "" && fault != "error object" && fault != "no json" && fault != "empty"
		if fault != "" || len(refused) > 0 {
			t.NonTrivial()
			t.Label("%s", fault)
		}
		if down {
			if err := h.listen(addr); err != nil {
				return // the port was taken by something else
			}
		}
	}
}

// Dialling: the host starts to answer only later.
func Dialling(t *pbt.T) {
	h := newFaultyHost(t)
	t.Cleanup(h.close)
	if err := h.listen("127.0.0.1:0"); err != nil {
		t.Failf("harness", "%v", err)
	}
	addr := h.addr
	fault := t.OneOf("host down", "status 500", "no json", "error object", "ping refused", "closed before reading")
	late := time.Duration(t.Int(100, 1500)) * time.Millisecond
	if t.Prob(1, 4) {
		late = time.Duration(t.Int(10200, 12000)) * time.Millisecond // the second try fails as well
	} else if t.Prob(1, 8) {
		late = time.Duration(t.Int(31, 45)) * time.Second // four or five tries fail
		if t.Thorough && t.Prob(1, 4) {
			late += time.Duration(t.Int(30, 120)) * time.Second
		}
	}
	t.Note("%s for %v", fault, late)
	switch fault {
	case "host down":
		h.close()
	case "ping refused":
		h.api.pingErr = true
	default:
		h.fault = fault
	}
	c := client.NewClient("http://" + addr)
	done := make(chan struct{})
	go func() { c.TryDial(); close(done) }()
	time.Sleep(late)
	select {
	case <-done:
		t.Failf("dial-early", "TryDial returned although the host has not answered (%s)", fault)
	default:
	}
	if fault == "host down" {
		if err := h.listen(addr); err != nil {
			t.Discard()
		}
	}
	h.mu.Lock()
	h.fault = ""
	h.mu.Unlock()
	h.api.mu.Lock()
	h.api.pingErr = false
	h.api.mu.Unlock()
	select {
	case <-done:
	case <-time.After(t.Limit(14 * time.Second)):
		t.Stuckf("dial-gave-up", "TryDial has not connected %v after the host began to answer", t.Limit(14*time.Second))
	}
	if err := c.PostKeysignResult(&types.KeysignResult{}); err != nil {
		t.Failf("after-dial", "posting after dialling: %v", err)
	}
	t.NonTrivial()
	t.Label("%s", fault)
}
