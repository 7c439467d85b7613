package sim

import (
	"encoding/json"
	"fmt"
	"time"

	"github.com/sisu-network/dheart/types/common"

	"dverif/pbt"
)

// Fault is one rule for messages on their way. -1 and "" select everything.
type Fault struct {
	From, To int
	Kind     string
	Nth      int // 0: every one, else only the n-th on its link
	Act      Action
	What     string
	Mutate   int // 0: none, else the kind of alteration (re-signed by its sender)
	Seed     uint64
}

func (f *Fault) String() string {
	k := f.Kind
	if k == "" {
		k = "every kind"
	}
	nth := "each"
	if f.Nth > 0 {
		nth = fmt.Sprintf("number %d", f.Nth)
	}
	return fmt.Sprintf("%s: n%d -> n%d, %s, %s", f.What, f.From, f.To, k, nth)
}

func (f *Fault) matches(m *Msg) bool {
	return (f.From < 0 || f.From == m.From) && (f.To < 0 || f.To == m.To) && (f.Kind == "" || f.Kind == m.Kind) && (f.Nth == 0 || f.Nth == m.Nth)
}

// Kinds of the messages of the protocols, with those of the selection.
var (
	EdSignKinds   = []string{"SignRound1Message", "SignRound2Message", "SignRound3Message"}
	EdKeygenKinds = []string{"KGRound1Message", "KGRound2Message1", "KGRound2Message2"}
	EcKeygenKinds = []string{"KGRound1Message", "KGRound2Message1", "KGRound2Message2", "KGRound3Message"}
	EcSignKinds   = []string{"SignRound1Message1", "SignRound1Message2", "SignRound2Message", "SignRound3Message", "SignRound4Message", "SignRound5Message", "SignRound6Message", "SignRound7Message"}
	SelKinds      = []string{"request", "response", "selection", "ask"}
)

// FaultSpec says which faults may be drawn.
type FaultSpec struct {
	Drop, Dup, Delay, Slow, Err, Mutate bool
	MaxDelay                            time.Duration
	Kinds                               []string
	Max                                 int
}

// DrawFaults draws rules; the first one that matches a message is applied, delays add up.
func DrawFaults(t *pbt.T, n int, s FaultSpec) []*Fault {
	var acts []string
	add := func(on bool, a string) {
		if on {
			acts = append(acts, a)
		}
	}
	add(s.Dup, "duplicate")
	add(s.Delay, "delay")
	add(s.Slow, "slow send")
	add(s.Drop, "drop")
	add(s.Err, "send error")
	add(s.Mutate, "alter")
	k := t.Int(0, s.Max)
	var out []*Fault
	for i := 0; i < k; i++ {
		f := &Fault{From: t.Int(-1, n-1), To: t.Int(-1, n-1), Nth: t.Int(0, 2), What: acts[t.Choose(uint64(len(acts)))]}
		if t.Prob(3, 4) {
			f.Kind = s.Kinds[t.Choose(uint64(len(s.Kinds)))]
		}
		d := time.Duration(1+t.Choose(uint64(s.MaxDelay/time.Millisecond))) * time.Millisecond
		switch f.What {
		case "duplicate":
			f.Act.Dups = 1 + t.Int(0, 3)
		case "delay":
			f.Act.Delay = d
			f.What += " " + d.String()
		case "slow send":
			f.Act.Slow = d
			f.What += " " + d.String()
		case "drop":
			f.Act.Drop = true
		case "send error":
			f.Act.Drop, f.Act.Err = true, true
		case "alter":
			f.Mutate = 1 + t.Int(0, 8)
			f.Seed = t.Seed()
			f.What = fmt.Sprintf("alter (%d)", f.Mutate)
			if f.From < 0 {
				f.From = 0
			}
		}
		out = append(out, f)
		t.Note("fault %s", f)
	}
	return out
}

// Decider applies rules and a random delay below jitter.
func Decider(c *Committee, faults []*Fault, jitter time.Duration, seed uint64) func(*Msg) Action {
	return func(m *Msg) Action {
		a := Action{}
		if jitter > 0 {
			a.Delay = time.Duration(hash64(seed, m.From, m.To, m.Kind, m.WorkID, m.Nth) % uint64(jitter))
		}
		for _, f := range faults {
			if !f.matches(m) {
				continue
			}
			a.Delay += f.Act.Delay
			a.Slow += f.Act.Slow
			a.Dups += f.Act.Dups
			a.Drop = a.Drop || f.Act.Drop
			a.Err = a.Err || f.Act.Err
			if f.Mutate > 0 && a.Data == nil {
				a.Data = alter(c, m, f.Mutate, pbt.NewRand(f.Seed^uint64(m.Nth)))
			}
		}
		return a
	}
}

func hash64(seed uint64, parts ...interface{}) uint64 {
	h := seed ^ 14695981039346656037
	for _, b := range []byte(fmt.Sprint(parts...)) {
		h ^= uint64(b)
		h *= 1099511628211
	}
	h ^= h >> 29
	h *= 0x9E3779B97F4A7C15
	h ^= h >> 32
	return h
}

// CloneTss copies a message.
func CloneTss(m *common.TssMessage) *common.TssMessage {
	bz, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	out := &common.TssMessage{}
	if err := json.Unmarshal(bz, out); err != nil {
		panic(err)
	}
	return out
}

// alter changes the content of a message the way a dishonest sender could (signing it again).
func alter(c *Committee, m *Msg, kind int, r *pbt.Rand) []byte {
	if m.Signed == nil || m.Origin != c.Members[m.From].ID() {
		return nil
	}
	x := CloneTss(m.Signed.TssMessage)
	us := x.UpdateMessages
	pick := func() *common.UpdateMessage { return us[r.Uint64()%uint64(len(us))] }
	switch {
	case x.PreExecOutputMessage != nil:
		p := x.PreExecOutputMessage
		switch kind % 5 {
		case 0:
			p.Success = !p.Success
		case 1:
			if len(p.Pids) > 0 {
				p.Pids = p.Pids[1:]
			}
		case 2:
			if len(p.Pids) > 1 {
				p.Pids[0] = p.Pids[1]
			}
		case 3:
			p.PresignIds = []string{"a-0"}
		case 4:
			x.PreExecOutputMessage = nil
		}
	case len(us) == 0:
		if x.AvailabilityResponseMessage != nil {
			x.AvailabilityResponseMessage.Answer = 1
		} else {
			x.WorkId += "x"
		}
	default:
		switch kind {
		case 1: // one byte
			u := pick()
			if len(u.Data) > 0 {
				u.Data[r.Uint64()%uint64(len(u.Data))] ^= byte(1 + r.Uint64()%255)
			}
		case 2: // order within the batch
			us[0], us[len(us)-1] = us[len(us)-1], us[0]
		case 3:
			x.UpdateMessages = us[:len(us)-1]
		case 4:
			x.UpdateMessages = append(us, us[0])
		case 5:
			pick().Data = r.Bytes(int(r.Uint64() % 200))
		case 6:
			u := pick()
			u.Data = u.Data[:r.Uint64()%uint64(len(u.Data)+1)]
		case 7:
			us[r.Uint64()%uint64(len(us))] = nil
		case 8:
			pick().SerializedMessageRouting = r.Bytes(int(r.Uint64() % 50))
		case 9: // last bytes
			u := pick()
			if len(u.Data) > 0 {
				u.Data[len(u.Data)-1-int(r.Uint64()%3)%len(u.Data)] ^= 1
			}
		}
	}
	return c.SignBytes(m.From, x)
}
