package pbt

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type job struct {
	Prop     int      `json:"p"`
	Seed     uint64   `json:"s"`
	Choices  []uint64 `json:"c,omitempty"`
	Replay   bool     `json:"r,omitempty"`
	Scale    int      `json:"k,omitempty"`
	Thorough bool     `json:"t,omitempty"`
	Known    int      `json:"kn,omitempty"` // 1-based index of a known-finding case
}

type caseResult struct {
	Discard    bool      `json:"d,omitempty"`
	Nontrivial bool      `json:"n,omitempty"`
	Fp         uint64    `json:"fp,omitempty"`
	Labels     []string  `json:"l,omitempty"`
	Notes      []string  `json:"no,omitempty"`
	Fails      []Failure `json:"f,omitempty"`
	Choices    []uint64  `json:"c,omitempty"`
	HarnessErr string    `json:"he,omitempty"`
	Rss        int64     `json:"rss,omitempty"`

	// Filled by the supervisor.
	Crash  string `json:"crash,omitempty"`
	Hang   bool   `json:"hang,omitempty"`
	Infra  string `json:"infra,omitempty"`
	DurMs  int64  `json:"-"`
	Stderr string `json:"-"`
}

const (
	notesOff   = 8 + 8*400000
	sharedSize = notesOff + 80000
)

func workerMain(c *Check) {
	debug.SetGCPercent(200)
	debug.SetTraceback("all")
	out := os.NewFile(3, "results")
	shm := os.NewFile(4, "shared")
	mem, err := syscall.Mmap(int(shm.Fd()), 0, sharedSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS mmap:", err)
		os.Exit(9)
	}
	if c.WorkerInit != nil {
		c.WorkerInit()
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		var j job
		if err := json.Unmarshal(line, &j); err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS job:", err)
			os.Exit(9)
		}
		fn := c.Props[j.Prop].Fn
		if j.Known > 0 {
			fn = c.Known[j.Known-1].Fn
		}
		res := runCase(fn, &j, mem)
		bz, _ := json.Marshal(res)
		if _, err := out.Write(append(bz, '\n')); err != nil {
			os.Exit(0)
		}
	}
}

func runCase(fn func(*T), j *job, mem []byte) *caseResult {
	for i := 0; i < 8; i++ {
		mem[i] = 0
		mem[notesOff+i] = 0
	}
	t := &T{shared: mem, labels: map[string]bool{}, scale: j.Scale, Thorough: j.Thorough, r: rng{j.Seed}}
	if t.scale < 1 {
		t.scale = 1
	}
	if j.Replay {
		t.useRep, t.replay, t.verbose = true, j.Choices, true
	}
	res := &caseResult{}
	done := make(chan struct{})
	run := func(f func()) {
		defer func() {
			if r := recover(); r != nil {
				switch r.(type) {
				case stopCase:
				case discardCase:
					res.Discard = true
				default:
					st := fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
					if who, frame := classifyStack(st); who == "target" {
						t.Record("panic:"+frame, "panic: %v\n%s", r, clip(st, 3500))
					} else if _, ok := r.(runtime.Error); ok {
						// The oracle tripped over a result that is out of shape, such as a nil party.
						t.Record("malformed:"+frame, "a result is malformed, looking at it panics: %v\n%s", r, clip(st, 3500))
					} else {
						res.HarnessErr = st
					}
				}
			}
		}()
		f()
	}
	go func() {
		defer close(done)
		run(func() { fn(t) })
		t.mu.Lock()
		cl := t.cleanups
		t.cleanups = nil
		t.mu.Unlock()
		for i := len(cl) - 1; i >= 0; i-- {
			run(cl[i])
		}
	}()
	<-done
	t.mu.Lock()
	defer t.mu.Unlock()
	res.Nontrivial = t.nontrivial
	for l := range t.labels {
		res.Labels = append(res.Labels, l)
	}
	res.Notes = t.notes
	res.Fails = t.fails
	fp := uint64(j.Prop) + 77
	for _, v := range t.choices {
		fp = (fp ^ v) * 1099511628211
		fp ^= fp >> 29
	}
	res.Fp = fp
	if len(t.fails) > 0 {
		res.Choices = t.choices
	}
	res.Rss = rss()
	return res
}

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * 4096
}

// classifyStack decides from the stack of the panicking goroutine whether the
// code under test ("target") or the harness ("harness") is at fault: the frame
// nearest to the panic that belongs to either decides.
func classifyStack(s string) (who, frame string) {
	lines := strings.Split(s, "\n")
	// The panicking goroutine is the first one marked running (or the first listed).
	start := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "goroutine ") && strings.Contains(l, "[running") {
			start = i + 1
			break
		}
	}
	end := len(lines)
	for i := start; i < len(lines); i++ {
		if strings.TrimSpace(lines[i]) == "" {
			end = i
			break
		}
	}
	g := lines[start:end]
	from := 0
	for i, l := range g {
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.throw") ||
			strings.HasPrefix(l, "runtime.fatalthrow") || strings.HasPrefix(l, "runtime.sigpanic") ||
			strings.HasPrefix(l, "runtime.gopanic") || strings.HasPrefix(l, "runtime.panic") {
			from = i
		}
	}
	first := ""
	for _, l := range g[from:] {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		created := strings.HasPrefix(l, "created by ")
		l = strings.TrimPrefix(l, "created by ")
		name := l
		if i := strings.LastIndex(name, "("); i > 0 && !created {
			name = name[:i]
		}
		switch {
		case strings.HasPrefix(name, "github.com/sisu-network/dheart/"):
			if first == "" {
				first = name
			}
			return "target", shortFrame(first)
		case strings.HasPrefix(name, "github.com/sisu-network/tss-lib/"),
			strings.HasPrefix(name, "github.com/libp2p/"):
			if first == "" {
				first = name
			}
		case strings.HasPrefix(name, "dverif/"), strings.HasPrefix(name, "main."):
			if first != "" && strings.HasPrefix(first, "github.com/sisu-network/tss-lib/") {
				return "harness", shortFrame(name)
			}
			return "harness", shortFrame(name)
		}
	}
	if first != "" {
		return "target", shortFrame(first)
	}
	// A goroutine of some other library: blame the code under test when it is on the stack.
	return "unknown", ""
}

func shortFrame(f string) string {
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return f
}

// Quiesce waits until the number of goroutines is back to about base.
func Quiesce(base int, limit time.Duration) bool {
	end := time.Now().Add(limit)
	for runtime.NumGoroutine() > base {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(time.Millisecond)
	}
	return true
}
