package pbt

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Prop is one executable sub-check of a property.
type Prop struct {
	Name     string
	Fn       func(*T)
	Quick    int // number of cases in the quick tier
	Thorough int // number of cases in the thorough tier
	Procs    int // parallel worker processes (default 8)
	Recycle  int // cases per worker process (default 400)
	Timeout  time.Duration
	// QuickCap/ThoroughCap stop the generation of further cases (never a verdict).
	QuickCap    time.Duration
	ThoroughCap time.Duration
	MinCases    int // at least this many cases must have run for the check to count
}

// KnownCase replays one listed known finding; it must fail as long as it is unrepaired.
type KnownCase struct {
	ID string
	Fn func(*T)
}

type Check struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Props       []*Prop
	Known       []*KnownCase
	WorkerInit  func()
}

type wproc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	outF   *os.File
	shmF   *os.File
	shm    []byte
	stderr *tailBuf
	runs   int
}

type tailBuf struct {
	mu   sync.Mutex
	head []byte
	tail []byte
}

func (b *tailBuf) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	n := len(p)
	if len(b.head) < 200000 {
		k := 200000 - len(b.head)
		if k > len(p) {
			k = len(p)
		}
		b.head = append(b.head, p[:k]...)
		p = p[k:]
	}
	b.tail = append(b.tail, p...)
	if len(b.tail) > 400000 {
		b.tail = append([]byte{}, b.tail[len(b.tail)-200000:]...)
	}
	return n, nil
}
func (b *tailBuf) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return string(b.head) + string(b.tail)
}

var (
	scratch  string
	verifDir string
	gomax    int
)

func startWorker(c *Check) (*wproc, error) {
	f, err := os.CreateTemp(scratch, "shm")
	if err != nil {
		return nil, err
	}
	os.Remove(f.Name())
	if err := f.Truncate(sharedSize); err != nil {
		return nil, err
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, sharedSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(exe, c.ID)
	cmd.Env = append(os.Environ(), "PBT_WORKER=1", "GOMAXPROCS="+strconv.Itoa(gomax), "PBT_SCRATCH="+scratch)
	cmd.Dir = scratch
	cmd.ExtraFiles = []*os.File{pw, f}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	tb := &tailBuf{}
	cmd.Stderr = tb
	if os.Getenv("PBT_STDOUT") != "" {
		cmd.Stdout = os.Stderr
	}
	runtime.LockOSThread() // Pdeathsig follows the starting thread
	err = cmd.Start()
	if err != nil {
		return nil, err
	}
	pw.Close()
	return &wproc{cmd: cmd, in: in, out: bufio.NewReaderSize(pr, 1<<20), outF: pr, shmF: f, shm: mem, stderr: tb}, nil
}

func (w *wproc) close() {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
	w.outF.Close()
	syscall.Munmap(w.shm)
	w.shmF.Close()
}

func (w *wproc) sharedChoices() []uint64 {
	n := binary.LittleEndian.Uint64(w.shm)
	if n > 399999 {
		n = 399999
	}
	cs := make([]uint64, n)
	for i := range cs {
		cs[i] = binary.LittleEndian.Uint64(w.shm[8*(i+1):])
	}
	return cs
}

func (w *wproc) sharedNotes() []string {
	n := binary.LittleEndian.Uint64(w.shm[notesOff:])
	if n > uint64(sharedSize-notesOff-8) {
		n = 0
	}
	return strings.Split(strings.TrimSpace(string(w.shm[notesOff+8:notesOff+8+int(n)])), "\n")
}

// run executes one job; dead tells that the worker is gone.
func (w *wproc) run(j *job, timeout time.Duration) (res *caseResult, dead bool) {
	start := time.Now()
	bz, _ := json.Marshal(j)
	type rd struct {
		line []byte
		err  error
	}
	ch := make(chan rd, 1)
	go func() {
		if _, err := w.in.Write(append(bz, '\n')); err != nil {
			// The worker died; the read below reports it.
			_ = err
		}
		l, err := w.out.ReadBytes('\n')
		ch <- rd{l, err}
	}()
	w.runs++
	res = &caseResult{}
	select {
	case r := <-ch:
		if r.err == nil {
			if err := json.Unmarshal(r.line, res); err != nil {
				return &caseResult{Infra: "bad result line: " + err.Error()}, true
			}
			res.DurMs = time.Since(start).Milliseconds()
			return res, false
		}
		done := make(chan error, 1)
		go func() { done <- w.cmd.Wait() }()
		var werr error
		select {
		case werr = <-done:
		case <-time.After(20 * time.Second):
			w.cmd.Process.Kill()
			werr = <-done
		}
		res.Choices = w.sharedChoices()
		res.Notes = w.sharedNotes()
		res.Stderr = w.stderr.String()
		res.classifyDeath(werr)
	case <-time.After(timeout):
		w.cmd.Process.Signal(syscall.SIGQUIT)
		done := make(chan error, 1)
		go func() { done <- w.cmd.Wait() }()
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			w.cmd.Process.Kill()
			<-done
		}
		res.Choices = w.sharedChoices()
		res.Notes = w.sharedNotes()
		res.Stderr = w.stderr.String()
		res.Hang = true
		res.Fails = []Failure{{KindStuck, "hang", "the case did not end within " + timeout.String() + "\n" + clip(interesting(res.Stderr), 6000)}}
	}
	res.DurMs = time.Since(start).Milliseconds()
	return res, true
}

// interesting keeps the goroutines that are inside the code under test.
func interesting(s string) string {
	var b strings.Builder
	for _, g := range strings.Split(s, "\n\n") {
		if strings.Contains(g, "sisu-network/dheart") && strings.HasPrefix(strings.TrimSpace(g), "goroutine") {
			b.WriteString(clip(g, 1200) + "\n\n")
		}
	}
	return b.String()
}

func (r *caseResult) classifyDeath(werr error) {
	s := r.Stderr
	ix := -1
	for _, m := range []string{"\npanic: ", "\nfatal error: ", "panic: ", "fatal error: ", "SIGSEGV"} {
		if i := strings.Index(s, m); i >= 0 {
			ix = i
			break
		}
	}
	if ee, ok := werr.(*exec.ExitError); ok {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
			r.Infra = "worker was killed (out of memory?)"
			return
		}
	}
	if ee, ok := werr.(*exec.ExitError); ok && ix < 0 && ee.Exited() && ee.ExitCode() != 9 {
		// Nothing in the harness ends a worker in the middle of a case.
		r.Crash = clip(s, 6000)
		r.Fails = []Failure{{KindFail, "crash:exit", fmt.Sprintf("the process ended itself: %v\n%s", werr, clip(s, 4000))}}
		return
	}
	if ix < 0 {
		r.Infra = fmt.Sprintf("worker ended: %v\n%s", werr, clip(s, 3000))
		return
	}
	st := s[ix:]
	if strings.Contains(clip(st, 300), "out of memory") || strings.Contains(clip(st, 300), "cannot allocate") {
		r.Infra = "worker out of memory"
		return
	}
	who, frame := classifyStack(st)
	switch who {
	case "target":
		r.Crash = clip(st, 6000)
		r.Fails = []Failure{{KindFail, "crash:" + frame, clip(st, 4000)}}
	default:
		if strings.Contains(clip(st, 300), "runtime error: ") {
			// The oracle tripped over a result that is out of shape, such as a nil party.
			r.Crash = clip(st, 6000)
			r.Fails = []Failure{{KindFail, "malformed:" + frame, clip(st, 4000)}}
			return
		}
		r.HarnessErr = clip(st, 6000)
	}
}

type replayFile struct {
	Property string   `json:"property"`
	SubCheck string   `json:"sub_check"`
	Seed     int64    `json:"verif_seed"`
	Case     int      `json:"case"`
	Thorough bool     `json:"thorough,omitempty"`
	Failure  Failure  `json:"failure"`
	Choices  []uint64 `json:"choices"`
	Notes    []string `json:"notes"`
	Shrunk   string   `json:"shrunk"`
	Command  string   `json:"command"`
}

type stats struct {
	Generated  int            `json:"generated"`
	Discarded  int            `json:"discarded"`
	Nontrivial int            `json:"nontrivial"`
	Distinct   int            `json:"distinct_nontrivial"`
	Inconcl    int            `json:"inconclusive"`
	Labels     map[string]int `json:"labels"`
	WallS      float64        `json:"wall_s"`
	CutByTime  bool           `json:"cut_by_time,omitempty"`
	fps        map[uint64]bool
	samples    []interface{}
}

// Main runs the check named on the command line.
func Main(checks ...*Check) {
	args := os.Args[1:]
	if len(args) == 0 {
		for _, c := range checks {
			fmt.Println(c.ID)
		}
		os.Exit(3)
	}
	var c *Check
	for _, x := range checks {
		if x.ID == args[0] {
			c = x
		}
	}
	if c == nil {
		fmt.Fprintln(os.Stderr, "no such check:", args[0])
		os.Exit(3)
	}
	for _, p := range c.Props {
		if p.Procs == 0 {
			p.Procs = 8
		}
		if p.Recycle == 0 {
			p.Recycle = 400
		}
		if p.Timeout == 0 {
			p.Timeout = 60 * time.Second
		}
		if p.QuickCap == 0 {
			p.QuickCap = 90 * time.Second
		}
		if p.ThoroughCap == 0 {
			p.ThoroughCap = 15 * time.Minute
		}
	}
	if os.Getenv("PBT_WORKER") != "" {
		workerMain(c)
		return
	}
	os.Exit(supervise(c, args[1:]))
}

func supervise(c *Check, args []string) int {
	verifDir = os.Getenv("VERIF_DIR")
	if verifDir == "" {
		verifDir = "/verif"
	}
	var err error
	scratch, err = os.MkdirTemp("", "pbt-"+c.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(scratch)
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		}
	}
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	only := ""
	caseNo := -1
	replay := ""
	times := 1
	for i := 0; i < len(args); i++ {
		switch args[i] {
		case "--only":
			i++
			only = args[i]
		case "--case":
			i++
			caseNo, _ = strconv.Atoi(args[i])
		case "--replay":
			i++
			replay = args[i]
		case "--times":
			i++
			times, _ = strconv.Atoi(args[i])
		case "--thorough":
			thorough = true
		default:
			fmt.Fprintln(os.Stderr, "unknown argument", args[i])
			return 3
		}
	}
	if replay != "" {
		return doReplay(c, replay, times)
	}
	start := time.Now()
	all := map[string]*stats{}
	var viol []string
	infra := ""
	for pi, p := range c.Props {
		if only != "" && p.Name != only {
			continue
		}
		gomax = 4
		if p.Procs == 1 {
			gomax = 8
		}
		st := &stats{Labels: map[string]int{}, fps: map[uint64]bool{}}
		all[p.Name] = st
		v, inf := runProp(c, pi, p, seed, thorough, st, caseNo)
		viol = append(viol, v...)
		if inf != "" {
			infra = p.Name + ": " + inf
		}
		if len(viol) > 0 || infra != "" {
			break
		}
	}
	known := runKnown(c, thorough, &infra, &viol, seed)
	writeEvidence(c, seed, thorough, all, time.Since(start), len(viol), known)
	for _, p := range c.Props {
		if st := all[p.Name]; st != nil {
			fmt.Printf("%s/%s: %d cases, %d discarded, %d distinct non-trivial, %d inconclusive, %.1fs %v\n", c.ID, p.Name,
				st.Generated, st.Discarded, st.Distinct, st.Inconcl, st.WallS, labelsLine(st))
		}
	}
	if len(viol) > 0 {
		for _, v := range viol {
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, v)
		}
		return 1
	}
	if infra != "" {
		fmt.Println("ERROR of the check:", infra)
		return 3
	}
	return 0
}

func labelsLine(st *stats) string {
	ks := make([]string, 0)
	for k := range st.Labels {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf(" %s:%d", k, st.Labels[k])
	}
	return s
}

// runProp generates the cases of one sub-check.
func runProp(c *Check, pi int, p *Prop, seed int64, thorough bool, st *stats, only int) (viol []string, infra string) {
	n := p.Quick
	cap := p.QuickCap
	if thorough {
		n, cap = p.Thorough, p.ThoroughCap
		if n == 0 {
			n = p.Quick * 10
		}
	}
	if n == 0 {
		return nil, ""
	}
	start := time.Now()
	var mu sync.Mutex
	next := 0
	stop := false
	type bad struct {
		idx int
		res *caseResult
	}
	var bads []bad
	inconcl := []bad{}
	procs := p.Procs
	if procs > n {
		procs = n
	}
	if only >= 0 {
		next, n, procs = only, only+1, 1
	}
	var wg sync.WaitGroup
	infraCount := 0
	for k := 0; k < procs; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			runtime.LockOSThread()
			var w *wproc
			defer func() {
				if w != nil {
					w.close()
				}
			}()
			for {
				mu.Lock()
				if stop || next >= n || time.Since(start) > cap {
					if next < n && !stop {
						st.CutByTime = true
					}
					mu.Unlock()
					return
				}
				idx := next
				next++
				mu.Unlock()
				if w == nil || w.runs >= p.Recycle {
					if w != nil {
						w.close()
					}
					var err error
					w, err = startWorker(c)
					if err != nil {
						mu.Lock()
						infra = "cannot start worker: " + err.Error()
						stop = true
						mu.Unlock()
						w = nil
						return
					}
				}
				j := &job{Prop: pi, Seed: Mix(uint64(seed), HashString(c.ID), HashString(p.Name), uint64(idx)), Thorough: thorough}
				res, dead := w.run(j, p.Timeout)
				if dead {
					w.close()
					w = nil
				} else if res.Rss > 3<<30 {
					w.close()
					w = nil
				}
				mu.Lock()
				st.Generated++
				if os.Getenv("PBT_SLOW") != "" && res.DurMs > 2000 {
					fmt.Printf("slow case %d: %d ms %v\n", idx, res.DurMs, res.Labels)
				}
				if os.Getenv("PBT_SLOW") != "" && len(res.Fails) > 0 {
					fmt.Printf("failing case %d: %s\n  %s\n", idx, clip(res.Fails[0].Msg, 2000), clip(strings.Join(res.Notes, "\n  "), 6000))
				}
				if res.Infra != "" {
					infraCount++
					if infraCount > 3 {
						infra = res.Infra
						stop = true
					}
					mu.Unlock()
					continue
				}
				if res.HarnessErr != "" {
					infra = fmt.Sprintf("case %d: %s", idx, res.HarnessErr)
					stop = true
					mu.Unlock()
					continue
				}
				for _, l := range res.Labels {
					st.Labels[l]++
				}
				if res.Discard {
					st.Discarded++
				} else if len(res.Fails) == 0 && res.Nontrivial {
					st.Nontrivial++
					if !st.fps[res.Fp] {
						st.fps[res.Fp] = true
						st.Distinct++
						if len(st.samples) < 3 && len(res.Notes) > 0 {
							st.samples = append(st.samples, map[string]interface{}{"sub_check": p.Name, "case": idx, "labels": res.Labels, "case_text": clipNotes(res.Notes)})
						}
					}
				}
				if len(res.Fails) > 0 {
					if res.Fails[0].Kind == KindStuck {
						inconcl = append(inconcl, bad{idx, res})
						if len(inconcl) >= 3 {
							stop = true
						}
					} else {
						bads = append(bads, bad{idx, res})
						stop = true
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	st.WallS = time.Since(start).Seconds()
	if infra != "" && len(bads) == 0 && len(inconcl) == 0 {
		return nil, infra
	}
	sort.Slice(bads, func(i, k int) bool { return bads[i].idx < bads[k].idx })
	if len(bads) == 0 {
		// Time-based observations have to be confirmed by isolated re-runs with longer limits.
		for i, b := range inconcl {
			if i >= 4 {
				break
			}
			if os.Getenv("PBT_SLOW") != "" {
				fmt.Println("SUSPICION", p.Name, b.idx, b.res.Fails[0].Msg, b.res.Notes)
			}
			if r := confirm(c, pi, p, b.res.Choices, thorough, 5); r != nil {
				bads = append(bads, bad{b.idx, r})
				break
			}
			fmt.Printf("not confirmed (counted as inconclusive): %s case %d: %s\n", p.Name, b.idx, clip(b.res.Fails[0].Msg, 300))
			st.Inconcl++
		}
	}
	if len(bads) == 0 {
		if st.Generated < p.MinCases {
			return nil, fmt.Sprintf("only %d cases ran (need %d)", st.Generated, p.MinCases)
		}
		return nil, ""
	}
	b := bads[0]
	best, how := shrink(c, pi, p, b.res, thorough)
	path := filepath.Join(verifDir, "replays", fmt.Sprintf("%s-%s-s%d-%d.json", c.ID, p.Name, seed, b.idx))
	os.MkdirAll(filepath.Dir(path), 0755)
	rf := replayFile{Property: c.ID, SubCheck: p.Name, Seed: seed, Case: b.idx, Thorough: thorough, Failure: best.Fails[0], Choices: best.Choices,
		Notes: best.Notes, Shrunk: how, Command: fmt.Sprintf("/verif/check %s --replay %s", c.ID, path)}
	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	enc.SetEscapeHTML(false)
	enc.SetIndent("", " ")
	enc.Encode(rf)
	os.WriteFile(path, buf.Bytes(), 0644)
	fmt.Printf("FAILED %s/%s case %d (%s): [%s] %s\n", c.ID, p.Name, b.idx, how, best.Fails[0].Sig, clip(best.Fails[0].Msg, 3000))
	for i, nline := range best.Notes {
		if i > 60 {
			break
		}
		fmt.Println("   ", clip(nline, 400))
	}
	return []string{path}, ""
}

func clipNotes(ns []string) []string {
	out := []string{}
	tot := 0
	for _, n := range ns {
		n = clip(n, 300)
		tot += len(n)
		if tot > 1500 || len(out) >= 25 {
			out = append(out, "...")
			break
		}
		out = append(out, n)
	}
	return out
}

func runOnce(c *Check, pi int, p *Prop, choices []uint64, thorough bool, scale int, timeout time.Duration) *caseResult {
	w, err := startWorker(c)
	if err != nil {
		return &caseResult{Infra: err.Error()}
	}
	defer w.close()
	res, _ := w.run(&job{Prop: pi, Choices: choices, Replay: true, Scale: scale, Thorough: thorough}, timeout)
	if len(res.Fails) > 0 && len(res.Choices) == 0 {
		res.Choices = choices
	}
	return res
}

var began = time.Now()

func confirm(c *Check, pi int, p *Prop, choices []uint64, thorough bool, times int) *caseResult {
	gomax = 8
	for i := 0; i < times; i++ {
		limit := 3 * p.Timeout
		if !thorough { // the quick tier has to come to an end
			left := 840*time.Second - time.Since(began)
			if i > 0 && left < 360*time.Second {
				break
			}
			if left < time.Minute {
				left = time.Minute
			}
			if limit > left {
				limit = left
			}
		}
		r := runOnce(c, pi, p, choices, thorough, 3, limit)
		if len(r.Fails) > 0 {
			return r
		}
	}
	return nil
}

// shrink minimises the choice sequence while the same failure signature shows.
func shrink(c *Check, pi int, p *Prop, orig *caseResult, thorough bool) (*caseResult, string) {
	best := orig
	sig := orig.Fails[0].Sig
	limit := 45 * time.Second
	if orig.Fails[0].Kind == KindStuck {
		limit = 0
	}
	end := time.Now().Add(limit)
	attempts := 0
	first := true
	gomax = 8
	var w *wproc
	defer func() {
		if w != nil {
			w.close()
		}
	}()
	try := func(cs []uint64) bool {
		if time.Now().After(end) {
			return false
		}
		attempts++
		if w == nil || w.runs > 50 {
			if w != nil {
				w.close()
			}
			var err error
			if w, err = startWorker(c); err != nil {
				w = nil
				return false
			}
		}
		r, dead := w.run(&job{Prop: pi, Choices: cs, Replay: true, Thorough: thorough}, p.Timeout)
		if dead {
			w.close()
			w = nil
		}
		for _, f := range r.Fails {
			if f.Sig == sig {
				if len(r.Choices) == 0 {
					r.Choices = cs
				}
				r.Fails = []Failure{f}
				r.Choices = trimZeros(r.Choices)
				if first || smaller(r.Choices, best.Choices) {
					first = false
					best = r
					return true
				}
				return false
			}
		}
		return false
	}
	if limit > 0 {
		repro := false
		for i := 0; i < 4 && !repro; i++ {
			repro = try(orig.Choices)
		}
		if !repro {
			return orig, "observed; not reproduced by the same choices within the attempts (depends on the schedule)"
		}
	}
	for changed := true; changed && time.Now().Before(end); {
		changed = false
		// Delete chunks.
		for size := len(best.Choices); size >= 1 && time.Now().Before(end); size /= 2 {
			for i := 0; i+size <= len(best.Choices) && time.Now().Before(end); {
				cs := append(append([]uint64{}, best.Choices[:i]...), best.Choices[i+size:]...)
				if len(cs) < len(best.Choices) && try(cs) {
					changed = true
				} else {
					i += size
				}
			}
		}
		// Zero chunks, then reduce single values.
		for size := len(best.Choices) / 2; size >= 1 && time.Now().Before(end); size /= 2 {
			for i := 0; i+size <= len(best.Choices) && time.Now().Before(end); i += size {
				cs := append([]uint64{}, best.Choices...)
				nz := false
				for k := i; k < i+size; k++ {
					nz = nz || cs[k] != 0
					cs[k] = 0
				}
				if nz && try(cs) {
					changed = true
				}
			}
		}
		for i := 0; i < len(best.Choices) && time.Now().Before(end); i++ {
			for i < len(best.Choices) && best.Choices[i] > 0 && time.Now().Before(end) {
				cs := append([]uint64{}, best.Choices...)
				old := cs[i]
				cs[i] = old / 2
				if try(cs) && i < len(best.Choices) && best.Choices[i] < old {
					changed = true
					continue
				}
				cs = append([]uint64{}, best.Choices...)
				if i < len(cs) && cs[i] > 0 {
					old = cs[i]
					cs[i]--
					if try(cs) && i < len(best.Choices) && best.Choices[i] < old {
						changed = true
						continue
					}
				}
				break
			}
		}
	}
	if limit == 0 {
		return best, "confirmed by an isolated re-run with longer limits; not shrunk"
	}
	return best, fmt.Sprintf("shrunk from %d to %d choices in %d attempts", len(orig.Choices), len(best.Choices), attempts)
}

func trimZeros(c []uint64) []uint64 {
	for len(c) > 0 && c[len(c)-1] == 0 {
		c = c[:len(c)-1]
	}
	return c
}

// smaller is the shortlex order.
func smaller(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

func doReplay(c *Check, path string, times int) int {
	bz, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var rf replayFile
	if err := json.Unmarshal(bz, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	gomax = 8
	for pi, p := range c.Props {
		if p.Name != rf.SubCheck {
			continue
		}
		for i := 0; i < times; i++ {
			r := runOnce(c, pi, p, rf.Choices, rf.Thorough, 1, 2*p.Timeout)
			for _, n := range r.Notes {
				fmt.Println("   ", clip(n, 400))
			}
			if r.HarnessErr != "" || r.Infra != "" {
				fmt.Println(r.HarnessErr, r.Infra)
				return 3
			}
			if len(r.Fails) > 0 {
				fmt.Printf("[%s] %s\n", r.Fails[0].Sig, r.Fails[0].Msg)
				fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
				return 1
			}
		}
		fmt.Println("the replayed case passes")
		return 0
	}
	return 3
}

type knownRes struct {
	ID   string `json:"id"`
	What string `json:"what"`
	Runs int    `json:"still_fails"`
}

// runKnown replays the listed known findings of this property.
func runKnown(c *Check, thorough bool, infra *string, viol *[]string, seed int64) []knownRes {
	var out []knownRes
	if len(c.Known) == 0 {
		return out
	}
	listed := map[string]string{}
	bz, _ := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	for _, l := range strings.Split(string(bz), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: property="+c.ID+" id=") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+c.ID+" id=")
		f := strings.SplitN(rest, " ", 2)
		if len(f) == 2 {
			listed[f[0]] = f[1]
		}
	}
	gomax = 8
	for i, k := range c.Known {
		w, err := startWorker(c)
		if err != nil {
			*infra = err.Error()
			return out
		}
		res, _ := w.run(&job{Known: i + 1, Replay: true, Thorough: thorough}, 90*time.Second)
		w.close()
		if res.HarnessErr != "" {
			*infra = "known finding " + k.ID + ": " + res.HarnessErr
			return out
		}
		if len(res.Fails) == 0 {
			continue
		}
		if what, ok := listed[k.ID]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", c.ID, k.ID, what)
			out = append(out, knownRes{k.ID, what, 1})
		} else {
			path := filepath.Join(verifDir, "replays", fmt.Sprintf("%s-known-%s.json", c.ID, k.ID))
			os.MkdirAll(filepath.Dir(path), 0755)
			b, _ := json.MarshalIndent(map[string]interface{}{"property": c.ID, "known_case": k.ID, "failure": res.Fails[0]}, "", " ")
			os.WriteFile(path, b, 0644)
			fmt.Printf("FAILED directed case %s: %s\n", k.ID, clip(res.Fails[0].Msg, 1500))
			*viol = append(*viol, path)
		}
	}
	return out
}

func writeEvidence(c *Check, seed int64, thorough bool, all map[string]*stats, wall time.Duration, viol int, known []knownRes) {
	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	ev, nt := 0, 0
	samples := []interface{}{}
	for _, p := range c.Props {
		if st := all[p.Name]; st != nil {
			ev += st.Generated
			nt += st.Distinct
			samples = append(samples, st.samples...)
		}
	}
	cov := map[string]interface{}{
		"evaluations": ev, "distinct_nontrivial": nt, "rule": c.Rule, "samples": samples, "sub_checks": all,
	}
	if len(known) > 0 {
		cov["known_findings"] = known
	}
	level := c.Level
	if level == "" {
		level = "exploration"
	}
	e := map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": append([]string{}, c.Assumptions...), "wall_s": wall.Seconds(), "violations": viol,
	}
	bz, _ := json.MarshalIndent(e, "", " ")
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0755)
	os.WriteFile(filepath.Join(dir, c.ID+".json"), append(bz, '\n'), 0644)
}
