// Package pboot starts the whole service as a process of its own (run.Run, as main does) from a generated
// environment and configuration, with a recording host, and drives it over its RPC port.
package pboot

import (
	"bytes"
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ethereum/go-ethereum/rpc"
	"github.com/sisu-network/dheart/core/config"
	"github.com/sisu-network/dheart/run"
	"github.com/sisu-network/dheart/types"
	"github.com/sisu-network/dheart/utils"

	"dverif/pbt"
	"dverif/pheart"
	"dverif/phost"
	"dverif/pnet"
	"dverif/sim"
)

const (
	ec, ed = "ecdsa", "eddsa"
	marker = "DVERIF_BOOT"
)

// Child is the whole program of a service's process. It ends when its parent closes its input or is gone.
func Child() bool {
	if os.Getenv(marker) == "" {
		return false
	}
	go func() {
		io.Copy(ioutil.Discard, os.Stdin)
		os.Exit(0)
	}()
	run.Run()
	select {}
}

// host records what a service posts.
type host struct {
	mu    sync.Mutex
	pings int
	keys  []*types.KeygenResult
	signs []*types.KeysignResult
	srv   *http.Server
	addr  string
}

func (h *host) Ping(source string) error {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.pings++
	return nil
}

func (h *host) KeygenResult(r *types.KeygenResult) (bool, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.keys = append(h.keys, r)
	return true, nil
}

func (h *host) KeysignResult(r *types.KeysignResult) error {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.signs = append(h.signs, r)
	return nil
}

func (h *host) counts() (p, k, s int) {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.pings, len(h.keys), len(h.signs)
}

// keygens are the keygen results of a type after the first `from` results.
func (h *host) keygens(from int, kt string) (out []*types.KeygenResult) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for _, r := range h.keys[from:] {
		if r.KeyType == kt {
			out = append(out, r)
		}
	}
	return
}

func (h *host) results(from int, q *types.KeysignRequest) (out []*types.KeysignResult) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for _, r := range h.signs[from:] {
		if r.Request != nil && phost.SameReq(r.Request, q) {
			out = append(out, r)
		}
	}
	return
}

func (h *host) listen(addr string) error {
	s := rpc.NewServer()
	if err := s.RegisterName("tss", h); err != nil {
		return err
	}
	l, err := net.Listen("tcp", addr)
	if err != nil {
		return err
	}
	h.addr = l.Addr().String()
	h.srv = &http.Server{Handler: s}
	go h.srv.Serve(l)
	return nil
}

func (h *host) close() {
	if h.srv != nil {
		h.srv.Close()
	}
}

var ports int32

// freePort is a port below the range of outgoing connections that is free on all addresses.
func freePort(high bool) int {
	for i := 0; ; i++ {
		k := os.Getpid()*61 + int(atomic.AddInt32(&ports, 1))
		p := 10000 + k%9900
		if high && i < 4000 { // above them
			p = 61000 + k%4500
		}
		l, err := net.Listen("tcp", fmt.Sprintf("0.0.0.0:%d", p))
		if err == nil {
			l.Close()
			return p
		}
		if i > 9000 {
			panic("no free port")
		}
	}
}

// tail keeps the last of what a process prints.
type tail struct {
	mu  sync.Mutex
	buf []byte
}

func (b *tail) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.buf = append(b.buf, p...)
	if len(b.buf) > 16000 {
		b.buf = append([]byte(nil), b.buf[len(b.buf)-8000:]...)
	}
	return len(p), nil
}

func (b *tail) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return string(b.buf)
}

// proc is one service with its scratch directory and host.
type proc struct {
	dir, home string
	cfg       config.HeartConfig
	aes       []byte
	aesHex    string
	host      *host
	cmd       *exec.Cmd
	in        io.WriteCloser
	out       *tail
	ended     chan struct{}
	rpc       *rpc.Client
	edit      func(conf string) string // spoils the configuration file
	high      bool                     // a high port
	at        string                   // the address that its host uses
	envForm   int
	relHome   string
	noConf    bool
	noEnv     bool
}

// newProc prepares the files' contents of a service.
func newProc(t *pbt.T) *proc {
	dir, err := ioutil.TempDir("", "dverif-boot")
	if err != nil {
		panic(err)
	}
	p := &proc{dir: dir, aes: t.Bytes(32), host: &host{}}
	t.Cleanup(func() { p.kill(); p.host.close(); os.RemoveAll(dir) })
	name := t.OneOf("home", "a b", "x.y", "sisu/dheart")
	p.home = filepath.Join(dir, name)
	p.aesHex = hex.EncodeToString(p.aes)
	if t.Bool() {
		p.aesHex = strings.ToUpper(p.aesHex)
	}
	p.high, p.envForm = t.Prob(1, 3), t.Int(0, 3)
	p.at = t.OneOf("127.0.0.1", pnet.LocalIP())
	if t.Prob(1, 4) {
		p.relHome = name
	}
	p.cfg.ShortcutPreparams = true
	p.cfg.HomeDir = p.home
	return p
}

func (p *proc) writeFiles() {
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	must(os.MkdirAll(p.home, 0o755))
	path := filepath.Join(p.home, "dheart.toml")
	config.WriteConfigFile(path, p.cfg)
	bz, err := ioutil.ReadFile(path)
	must(err)
	// The writer leaves out the setting that is for tests only.
	conf := strings.Replace(string(bz), "[db]\n", "[db]\nin-memory = true\n", 1)
	if p.edit != nil {
		conf = p.edit(conf)
	}
	must(ioutil.WriteFile(path, []byte(conf), 0o644))
	if p.noConf {
		must(os.Remove(path))
	}
	if p.noEnv {
		return
	}
	home := p.home
	if p.relHome != "" {
		home = p.relHome
	}
	env := fmt.Sprintf("HOME_DIR=%q\nAES_KEY_HEX=%s\n", home, p.aesHex)
	switch p.envForm {
	case 1:
		env = fmt.Sprintf("# dheart\n\nAES_KEY_HEX='%s'\nOTHER=1\nexport HOME_DIR=%q", p.aesHex, home)
	case 2:
		env = fmt.Sprintf("HOME_DIR = %q # the home\nAES_KEY_HEX=\"%s\"\n", home, p.aesHex)
	}
	must(ioutil.WriteFile(filepath.Join(p.dir, ".env"), []byte(env), 0o644))
}

// launch starts the process.
func (p *proc) launch() {
	p.cfg.Port = freePort(p.high)
	p.writeFiles()
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	p.out, p.ended = &tail{}, make(chan struct{})
	p.cmd = exec.Command(exe)
	p.cmd.Dir = p.dir
	p.cmd.Env = []string{marker + "=1", "PATH=" + os.Getenv("PATH"), "HOME=" + p.dir, "TMPDIR=" + p.dir, "GOMAXPROCS=" + strconv.Itoa(4)}
	p.cmd.Stdout, p.cmd.Stderr = p.out, p.out
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		panic(err)
	}
	if err = p.cmd.Start(); err != nil {
		panic(err)
	}
	go func(c *exec.Cmd, done chan struct{}) { c.Wait(); close(done) }(p.cmd, p.ended)
	p.rpc, err = rpc.Dial(fmt.Sprintf("http://%s:%d", p.at, p.cfg.Port))
	if err != nil {
		panic(err)
	}
}

func (p *proc) gone() bool {
	select {
	case <-p.ended:
		return true
	default:
		return false
	}
}

func (p *proc) kill() {
	if p.cmd == nil {
		return
	}
	p.cmd.Process.Kill()
	<-p.ended
	p.in.Close()
	p.rpc.Close()
	p.cmd = nil
}

func (p *proc) call(res interface{}, method string, args ...interface{}) error {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	return p.rpc.CallContext(ctx, res, method, args...)
}

func (p *proc) serves() bool {
	var v string
	return p.call(&v, "tss_version") == nil && v != ""
}

// lost tells whether the process lost its port to another program before it could listen.
func (p *proc) lost() bool { return strings.Contains(p.out.String(), "address already in use") }

func clip(s string) string {
	if len(s) > 1500 {
		s = s[len(s)-1500:]
	}
	return s
}

// up starts the services and waits until all answer.
func up(t *pbt.T, ps ...*proc) {
	for _, p := range ps {
		p.launch()
	}
	for i, p := range ps {
		for tries := 0; ; tries++ {
			ok := t.Wait(40*time.Second, func() bool { return p.gone() || p.serves() })
			if ok && !p.gone() {
				break
			}
			if p.gone() && p.lost() && tries < 5 {
				p.kill()
				p.launch()
				continue
			}
			if p.gone() {
				t.Failf("ended", "service %d ends instead of serving: %s", i, clip(p.out.String()))
			} else {
				t.Stuckf("not-serving", "service %d does not answer on its port %d: %s", i, p.cfg.Port, clip(p.out.String()))
			}
			t.StopIfFailed()
		}
	}
}

// alive reports services that ended by themselves.
func alive(t *pbt.T, when string, ps ...*proc) {
	for i, p := range ps {
		if p.cmd != nil && p.gone() {
			t.Failf("crashed", "%s service %d has ended: %s", when, i, clip(p.out.String()))
		}
	}
	t.StopIfFailed()
}

// dialled waits until every host has been found by its service.
func dialled(t *pbt.T, before []int, ps ...*proc) {
	if !t.Wait(60*time.Second, func() bool {
		for i, p := range ps {
			if n, _, _ := p.host.counts(); n <= before[i] {
				return false
			}
		}
		return true
	}) {
		t.Stuckf("host-not-dialled", "a service does not find its host")
		t.StopIfFailed()
	}
}

func pings(ps ...*proc) (out []int) {
	for _, p := range ps {
		n, _, _ := p.host.counts()
		out = append(out, n)
	}
	return
}

// digest is a digest that can be signed (zero and numbers above the order of the curve cannot, see C01).
func digest(t *pbt.T) []byte {
	b := t.Bytes(32)
	b[0] &= 0x7f
	b[31] |= 1
	return b
}

func drawRequest(t *pbt.T, kt string, tag string) *types.KeysignRequest {
	q := &types.KeysignRequest{KeyType: kt}
	for i, n := 0, t.Int(1, 3); i < n; i++ {
		q.KeysignMessages = append(q.KeysignMessages, &types.KeysignMessage{
			Id:          fmt.Sprintf("%s-%d%s", tag, i, t.OneOf("", "x", "=;")),
			OutChain:    t.OneOf("ganache1", "", "solana"),
			OutHash:     t.OneOf("", "0xab"),
			BytesToSign: digest(t),
		})
	}
	return q
}

// Single: the single-node mode.
func Single(t *pbt.T) {
	p := newProc(t)
	p.cfg.UseOnMemory = true
	late := t.Prob(1, 3)
	if err := p.host.listen("127.0.0.1:0"); err != nil {
		panic(err)
	}
	if late {
		p.host.close()
	}
	p.cfg.SisuServerUrl = "http://" + p.host.addr
	up(t, p)
	if late {
		t.Label("late host")
		time.Sleep(300 * time.Millisecond)
		if err := p.host.listen(p.host.addr); err != nil {
			t.Discard() // another program has the port now
		}
	}
	dialled(t, []int{0}, p)
	for life, lives := 0, t.Int(1, 2); life < lives; life++ {
		if life > 0 {
			at := pings(p)
			p.kill()
			if t.Bool() {
				p.cfg.SisuServerUrl += "/"
			}
			up(t, p)
			dialled(t, at, p)
			t.Label("restarted")
		}
		for _, i := range t.Perm(2)[:t.Int(1, 2)] {
			kt := []string{ec, ed}[i]
			if err := p.call(nil, "tss_keySign", drawRequest(t, kt, "early"), nil); err == nil {
				t.Failf("signs-without-key", "a %s request is accepted before there is a key", kt)
			}
			_, k0, s0 := p.host.counts()
			if err := p.call(nil, "tss_keyGen", "id", kt, nil); err != nil {
				t.Stuckf("refused", "keygen of %s: %v", kt, err)
			}
			t.StopIfFailed()
			if !t.Wait(40*time.Second, func() bool { return len(p.host.keygens(k0, kt)) > 0 || p.gone() }) {
				t.Stuckf("no-keygen-result", "the host has no result of a keygen of %s", kt)
				t.StopIfFailed()
			}
			alive(t, "after a keygen", p)
			r := p.host.keygens(k0, kt)[0]
			if r.Outcome != types.OutcomeSuccess {
				t.Failf("keygen-outcome", "a keygen of %s has outcome %d", kt, r.Outcome)
			}
			q := drawRequest(t, kt, "m")
			if err := p.call(nil, "tss_keySign", q, nil); err != nil {
				t.Stuckf("refused", "keysign of %s: %v", kt, err)
			}
			t.StopIfFailed()
			if !t.Wait(40*time.Second, func() bool { return len(p.host.results(s0, q)) > 0 || p.gone() }) {
				t.Stuckf("no-sign-result", "the host has no result of a sign request of %s", kt)
				t.StopIfFailed()
			}
			alive(t, "after a sign request", p)
			s := p.host.results(s0, q)[0]
			if s.Outcome != types.OutcomeSuccess || len(s.Signatures) != len(q.KeysignMessages) {
				t.Failf("outcome", "a sign request of %s with %d messages has outcome %d and %d signatures", kt, len(q.KeysignMessages), s.Outcome, len(s.Signatures))
				return
			}
			for k, m := range q.KeysignMessages {
				if !phost.VerifySingle(kt, r.PubKeyBytes, m.BytesToSign, s.Signatures[k]) {
					t.Failf("bad-signature", "signature %d of a %s request does not verify under the posted key", k, kt)
				}
			}
			t.NonTrivial()
		}
	}
}

func sealed(p *proc, key []byte) string {
	bz, err := utils.AESDEncrypt(key, p.aes)
	if err != nil {
		panic(err)
	}
	return hex.EncodeToString(bz)
}

// Committee: services that sign together.
func Committee(t *pbt.T) {
	n := []int{2, 3}[t.Weighted(1, 1)]
	c := sim.NewCommittee(t.Rand(), n, t.Bool())
	var ps []*proc
	var addrs []*pnet.Addr
	for _, m := range c.Members {
		addrs = append(addrs, &pnet.Addr{Priv: m.Priv, Host: pnet.LocalIP(), Port: pnet.NewPort(), ID: m.Node.PeerId})
	}
	slot := t.Perm(10)
	for i := range addrs {
		p := newProc(t)
		var peers []*pnet.Addr
		for j, a := range addrs {
			if j != i {
				peers = append(peers, a)
			}
		}
		p.cfg.Connection = addrs[i].Config(peers)
		p.cfg.Db.Schema = fmt.Sprintf("dheart%d", slot[i])
		if err := p.host.listen("127.0.0.1:0"); err != nil {
			panic(err)
		}
		p.cfg.SisuServerUrl = "http://" + p.host.addr
		ps = append(ps, p)
	}
	all := func(what string, f func(i int, p *proc) error) {
		errs := make([]error, n)
		wg := &sync.WaitGroup{}
		for i, p := range ps {
			wg.Add(1)
			go func(i int, p *proc) { defer wg.Done(); errs[i] = f(i, p) }(i, p)
		}
		wg.Wait()
		alive(t, "after "+what, ps...)
		for i, err := range errs {
			if errors.Is(err, context.DeadlineExceeded) {
				t.Stuckf("no-answer", "service %d does not answer: %s", i, what)
			} else if err != nil {
				t.Failf("refused", "service %d: %s: %v", i, what, err)
			}
		}
		t.StopIfFailed()
	}
	wrappers := func(perm []int) (out []types.PubKeyWrapper) {
		for _, i := range perm {
			k := c.Members[i].Priv.PubKey()
			out = append(out, types.PubKeyWrapper{KeyType: k.Type(), Key: k.Bytes()})
		}
		return
	}
	// The databases are in memory: a service that starts again has lost its keys. There is one key of a type, so
	// that services that stay can only make one of the other type with it.
	used, dead := map[string]bool{}, -1
	for life, lives := 0, t.Weighted(3, 2)+1; life < lives; life++ {
		fresh := make([]bool, n) // services that start in this life
		var starts []*proc
		one := -1
		if life > 0 && len(used) < 2 {
			one = t.Int(-1, n-1)
			if dead >= 0 && one >= 0 {
				one = dead
			}
		}
		dead = -1
		if life > 0 {
			t.Label("restarted all: %v", one < 0)
		}
		if one < 0 {
			used = map[string]bool{}
		}
		for i, p := range ps {
			if one < 0 || i == one {
				fresh[i] = true
				starts = append(starts, p)
				p.kill()
			}
		}
		late := t.Prob(1, 5) // a host that comes back only after its service has started
		at := pings(starts...)
		if late {
			starts[0].host.close()
			t.Label("late host")
		}
		up(t, starts...)
		if late {
			if err := starts[0].host.listen(starts[0].host.addr); err != nil {
				t.Discard() // another program has the port now
			}
		}
		dialled(t, at, starts...)
		kt := []string{ec, ed}[t.Int(0, 1)]
		if used[ec] {
			kt = ed
		} else if used[ed] {
			kt = ec
		}
		used[kt] = true
		t.Note("life %d of %d services: all start: %v, else %d starts; late host %v; %s", life, n, one < 0, one, late, kt)
		for i, p := range ps {
			if !fresh[i] {
				continue
			}
			if t.Bool() {
				if err := p.call(nil, "tss_keyGen", "early", kt, wrappers(t.Perm(n))); err == nil {
					t.Failf("keygen-too-early", "service %d accepts a keygen before it has its key", i)
				}
			}
			// A key that is sealed with another service's secret.
			if err := p.call(nil, "tss_setPrivKey", sealed(ps[(i+1)%n], addrs[i].Priv.Bytes()), addrs[i].Priv.Type()); err == nil {
				t.Failf("foreign-secret", "service %d takes a key that was not sealed with its own secret", i)
			}
		}
		t.StopIfFailed()
		readyFirst := t.Bool()
		all("setting the key", func(i int, p *proc) error {
			if !fresh[i] {
				return nil
			}
			if readyFirst {
				if err := p.call(nil, "tss_setSisuReady", true); err != nil {
					return err
				}
			}
			if err := p.call(nil, "tss_setPrivKey", sealed(p, addrs[i].Priv.Bytes()), addrs[i].Priv.Type()); err != nil {
				return err
			}
			if !readyFirst {
				return p.call(nil, "tss_setSisuReady", true)
			}
			return nil
		})
		var k0, s0 []int
		for _, p := range ps {
			_, k, s := p.host.counts()
			k0, s0 = append(k0, k), append(s0, s)
		}
		perm := t.Perm(n)
		id := fmt.Sprintf("keygen%d", life)
		all("keygen", func(i int, p *proc) error { return p.call(nil, "tss_keyGen", id, kt, wrappers(perm)) })
		if !t.Wait(75*time.Second, func() bool {
			for i, p := range ps {
				if len(p.host.keygens(k0[i], kt)) == 0 && !p.gone() {
					return false
				}
			}
			return true
		}) {
			t.Stuckf("no-keygen-result", "not every host has a result of a keygen of %s", kt)
			t.StopIfFailed()
		}
		alive(t, "after a keygen", ps...)
		var pub []byte
		for i, p := range ps {
			r := p.host.keygens(k0[i], kt)[0]
			if r.Outcome != types.OutcomeSuccess {
				t.Stuckf("keygen-outcome", "service %d: a keygen of %s has outcome %d", i, kt, r.Outcome)
				t.StopIfFailed()
			}
			if i > 0 && !bytes.Equal(pub, r.PubKeyBytes) {
				t.Failf("keys-differ", "the services post different keys for one keygen: %x, %x", pub, r.PubKeyBytes)
			}
			pub = r.PubKeyBytes
		}
		t.StopIfFailed()
		q := drawRequest(t, kt, fmt.Sprint("m", life))
		perm = t.Perm(n)
		all("keysign", func(i int, p *proc) error { return p.call(nil, "tss_keySign", q, wrappers(perm)) })
		if !t.Wait(75*time.Second, func() bool {
			for i, p := range ps {
				if len(p.host.results(s0[i], q)) == 0 && !p.gone() {
					return false
				}
			}
			return true
		}) {
			t.Stuckf("no-sign-result", "not every host has a result of a sign request of %s", kt)
			t.StopIfFailed()
		}
		alive(t, "after a sign request", ps...)
		var msgs [][]byte
		for _, m := range q.KeysignMessages {
			msgs = append(msgs, m.BytesToSign)
		}
		good := 0
		for i, p := range ps {
			r := p.host.results(s0[i], q)[0]
			if r.Outcome != types.OutcomeSuccess {
				continue
			}
			good++
			if err := sim.CheckSigned(kt == ed, pub, msgs, r); err != nil {
				t.Failf("false-success", "service %d: %v", i, err)
			}
		}
		if need := (2*n + 2) / 3; good < need {
			t.Stuckf("few-signers", "a request to all %d services was signed by %d, %d are needed", n, good, need)
			t.StopIfFailed()
		}
		t.NonTrivial()
		if n > 2 && t.Bool() {
			// One service is killed. The others are still enough, unless the killed one has to lead.
			dead = t.Int(0, n-1)
			ps[dead].kill()
			id := fmt.Sprint("d", life)
			for leads := t.Prob(1, 6); (pheart.LeaderOf(c, id) == dead) != leads; {
				id += "x"
			}
			t.Note("service %d is killed", dead)
			q := &types.KeysignRequest{KeyType: kt, KeysignMessages: []*types.KeysignMessage{{Id: id, BytesToSign: digest(t)}}}
			perm := t.Perm(n)
			s0 := make([]int, n)
			all("keysign without one", func(i int, p *proc) error {
				if i == dead {
					return nil
				}
				_, _, s0[i] = p.host.counts()
				return p.call(nil, "tss_keySign", q, wrappers(perm))
			})
			if !t.Wait(75*time.Second, func() bool {
				for i, p := range ps {
					if i != dead && len(p.host.results(s0[i], q)) == 0 && !p.gone() {
						return false
					}
				}
				return true
			}) {
				t.Stuckf("no-sign-result", "not every host has a result of a sign request of %s after service %d has been killed", kt, dead)
				t.StopIfFailed()
			}
			good := 0
			for i, p := range ps {
				if i == dead {
					continue
				}
				r := p.host.results(s0[i], q)[0]
				if r.Outcome == types.OutcomeSuccess {
					good++
					if err := sim.CheckSigned(kt == ed, pub, [][]byte{q.KeysignMessages[0].BytesToSign}, r); err != nil {
						t.Failf("false-success", "service %d: %v", i, err)
					}
				}
			}
			led := pheart.LeaderOf(c, id) == dead
			t.Label("dead leader: %v, %d of %d signed", led, good, n)
			if !led && good < (2*n+2)/3 {
				t.Stuckf("few-signers", "after service %d of %d has been killed a request is signed by %d, %d are needed", dead, n, good, (2*n+2)/3)
				t.StopIfFailed()
			}
		}
	}
}

// Refuses: settings that cannot be read. The service ends, it does not serve with anything else.
func Refuses(t *pbt.T) {
	p := newProc(t)
	p.cfg.UseOnMemory = t.Bool()
	p.cfg.SisuServerUrl = "http://127.0.0.1:1"
	p.cfg.Db.Schema = "dheart0"
	what := t.OneOf("nothing", "secret", "secret", "config", "no config", "no env")
	switch what {
	case "secret":
		h := []byte(p.aesHex)
		switch t.Int(0, 2) {
		case 0:
			h = h[:t.Int(0, 31)*2+1]
		case 1:
			h[t.Int(0, len(h)-1)] = "gG-.z"[t.Int(0, 4)]
		case 2:
			h = append([]byte("0x"), h...)
		}
		p.aesHex = string(h)
	case "config":
		bad := t.OneOf("[db", "port = \"x\"", "home-dir = \"a", "= 3", "use-on-memory = 5", "port = 99999999999999999999")
		p.edit = func(s string) string {
			if strings.HasPrefix(bad, "port") || strings.HasPrefix(bad, "use") || strings.HasPrefix(bad, "home") {
				var out []string
				for _, l := range strings.Split(s, "\n") {
					if strings.Fields(l + " .")[0] != strings.Fields(bad)[0] {
						out = append(out, l)
					}
				}
				s = strings.Join(out, "\n")
			}
			return bad + "\n" + s
		}
	case "no config":
		p.noConf = true
	case "no env":
		p.noEnv = true
	}
	t.Note("%s", what)
	t.Label("%s", what)
	for tries := 0; ; tries++ {
		p.launch()
		ok := t.Wait(40*time.Second, func() bool { return p.gone() || p.serves() })
		if ok && p.gone() && p.lost() && tries < 5 {
			p.kill()
			continue
		}
		if !ok {
			t.Stuckf("hangs", "with %s the service neither serves nor ends: %s", what, clip(p.out.String()))
			t.StopIfFailed()
		}
		break
	}
	if what == "nothing" {
		if p.gone() {
			t.Failf("ended", "the service ends instead of serving: %s", clip(p.out.String()))
		}
		return
	}
	if !p.gone() {
		// It serves, although only until it reads what is wrong?
		time.Sleep(500 * time.Millisecond)
		if !p.gone() {
			t.Failf("serves", "with %s the service serves all the same", what)
		}
		return
	}
	t.NonTrivial()
}
