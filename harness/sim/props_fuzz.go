package sim

import (
	"math"
	"math/big"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/golang/protobuf/ptypes"
	"github.com/golang/protobuf/ptypes/any"
	"github.com/sisu-network/dheart/types/common"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	edsigning "github.com/sisu-network/tss-lib/eddsa/signing"
	"github.com/sisu-network/tss-lib/tss"

	"dverif/pbt"
)

// mutator changes messages the way a hostile node could.
type mutator struct {
	mu    sync.Mutex
	r     *pbt.Rand
	words []string
	count map[string]int
}

func (m *mutator) n(k int) int { return int(m.r.Uint64() % uint64(k)) }

var odd = func() [][]byte {
	one := big.NewInt(1)
	p256 := new(big.Int).Lsh(one, 256)
	edN := tss.EC(tss.EddsaScheme).Params().N
	out := [][]byte{nil, {}, {0}, {1}, {2}, {255}, make([]byte, 32), make([]byte, 64)}
	for _, x := range []*big.Int{ecN, edN, p256, tss.EC(tss.EcdsaScheme).Params().P, tss.EC(tss.EddsaScheme).Params().P} {
		out = append(out, x.Bytes(), new(big.Int).Sub(x, one).Bytes(), new(big.Int).Add(x, one).Bytes())
	}
	return out
}()

func (m *mutator) bytes(b []byte) []byte {
	switch m.n(5) {
	case 0:
		return append([]byte{}, odd[m.n(len(odd))]...)
	case 1:
		return m.r.Bytes(m.n(70))
	case 2:
		return m.r.Bytes(200 + m.n(400))
	case 3:
		return append([]byte{}, b[:m.n(len(b)+1)]...)
	}
	b = append([]byte{}, b...)
	if len(b) > 0 {
		b[m.n(len(b))] ^= byte(1 + m.n(255))
	}
	return b
}

// value changes something within v.
func (m *mutator) value(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			if v.CanSet() && v.Type().Elem().Kind() == reflect.Struct {
				v.Set(reflect.New(v.Type().Elem()))
				m.value(v.Elem(), depth+1)
			}
			return
		}
		if depth > 0 && v.CanSet() && m.n(8) == 0 {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		m.value(v.Elem(), depth+1)
	case reflect.Struct:
		var fs []int
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.PkgPath == "" && !strings.HasPrefix(f.Name, "XXX_") {
				fs = append(fs, i)
			}
		}
		if len(fs) > 0 {
			m.value(v.Field(fs[m.n(len(fs))]), depth+1)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			v.SetBytes(m.bytes(v.Bytes()))
			return
		}
		l := v.Len()
		switch k := m.n(8); {
		case k == 0:
			v.Set(reflect.Zero(v.Type()))
		case k == 1 && l > 0:
			v.Set(v.Slice(0, m.n(l)))
		case k == 2 && l > 0:
			v.Set(reflect.Append(v, v.Index(m.n(l))))
		case k == 3:
			v.Set(reflect.Append(v, reflect.Zero(v.Type().Elem())))
		case k == 4 && l > 1:
			a, b := m.n(l), m.n(l)
			x, y := reflect.ValueOf(v.Index(a).Interface()), reflect.ValueOf(v.Index(b).Interface())
			v.Index(a).Set(y)
			v.Index(b).Set(x)
		case l > 0:
			m.value(v.Index(m.n(l)), depth+1)
		default:
			v.Set(reflect.Append(v, reflect.Zero(v.Type().Elem())))
		}
	case reflect.String:
		v.SetString(m.words[m.n(len(m.words))])
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int32, reflect.Int64, reflect.Int:
		v.SetInt([]int64{0, 1, -1, 2, 5, 64, math.MaxInt32, math.MinInt32}[m.n(8)])
	}
}

var contents = []tss.MessageContent{
	&eckeygen.KGRound1Message{}, &eckeygen.KGRound2Message1{}, &eckeygen.KGRound2Message2{}, &eckeygen.KGRound3Message{},
	&ecsigning.SignRound1Message1{}, &ecsigning.SignRound1Message2{}, &ecsigning.SignRound2Message{}, &ecsigning.SignRound3Message{},
	&ecsigning.SignRound4Message{}, &ecsigning.SignRound5Message{}, &ecsigning.SignRound6Message{}, &ecsigning.SignRound7Message{},
	&edkeygen.KGRound1Message{}, &edkeygen.KGRound2Message1{}, &edkeygen.KGRound2Message2{},
	&edsigning.SignRound1Message{}, &edsigning.SignRound2Message{}, &edsigning.SignRound3Message{},
}

// fill gives all fields some content.
func (m *mutator) fill(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Ptr:
		if depth > 4 {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		m.fill(v.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.PkgPath == "" && !strings.HasPrefix(f.Name, "XXX_") {
				m.fill(v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if m.n(4) == 0 {
				v.SetBytes(append([]byte{}, odd[m.n(len(odd))]...))
			} else {
				v.SetBytes(m.r.Bytes(1 + m.n(40)))
			}
			return
		}
		l := []int{0, 1, 2, 3, 4, 11, 13, 128}[m.n(8)]
		s := reflect.MakeSlice(v.Type(), l, l)
		for i := 0; i < l; i++ {
			m.fill(s.Index(i), depth+1)
		}
		v.Set(s)
	case reflect.Int32, reflect.Int64, reflect.Int, reflect.Bool, reflect.String:
		m.value(v, depth)
	}
}

// payload makes wire bytes of some protocol message.
func (m *mutator) payload() ([]byte, string) {
	c := proto.Clone(contents[m.n(len(contents))])
	v := reflect.ValueOf(c).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Type().Field(i); f.PkgPath == "" && !strings.HasPrefix(f.Name, "XXX_") {
			m.fill(v.Field(i), 1)
		}
	}
	a, err := ptypes.MarshalAny(c)
	if err != nil {
		return nil, proto.MessageName(c)
	}
	bz, _ := proto.Marshal(a)
	return bz, proto.MessageName(c)
}

// wire changes fields within the wire bytes of a protocol message.
func (m *mutator) wire(data []byte) []byte {
	a := &any.Any{}
	if proto.Unmarshal(data, a) != nil {
		return m.bytes(data)
	}
	if m.n(8) == 0 { // another type, the same fields
		a.TypeUrl = m.typeURL()
	} else {
		var d ptypes.DynamicAny
		if ptypes.UnmarshalAny(a, &d) != nil {
			return m.bytes(data)
		}
		for i := 1 + m.n(2); i > 0; i-- {
			m.value(reflect.ValueOf(d.Message).Elem(), 1)
		}
		b, err := ptypes.MarshalAny(d.Message)
		if err != nil {
			return m.bytes(data)
		}
		a = b
	}
	bz, err := proto.Marshal(a)
	if err != nil {
		return m.bytes(data)
	}
	return bz
}

func (m *mutator) typeURL() string {
	switch m.n(5) {
	case 0:
		return ""
	case 1:
		return "type.googleapis.com/google.protobuf.Any"
	case 2:
		return "x"
	}
	return "type.googleapis.com/" + proto.MessageName(contents[m.n(len(contents))])
}

// message changes a message; the result is still a message.
func (m *mutator) message(x *common.TssMessage) *common.TssMessage {
	if x == nil {
		x = &common.TssMessage{}
	}
	x = CloneTss(x)
	if len(x.UpdateMessages) > 0 && m.n(4) > 0 {
		u := x.UpdateMessages[m.n(len(x.UpdateMessages))]
		if u == nil {
			return x
		}
		switch m.n(6) {
		case 0:
			u.Data = m.bytes(u.Data)
		case 1:
			u.Data, u.Round = m.payload()
		case 2:
			u.Data, _ = m.payload()
		default:
			u.Data = m.wire(u.Data)
		}
		return x
	}
	for i := 1 + m.n(3); i > 0; i-- {
		m.value(reflect.ValueOf(x).Elem(), 1)
	}
	return x
}

// fresh makes a message out of nothing.
func (m *mutator) fresh() *common.TssMessage {
	x := &common.TssMessage{}
	v := reflect.ValueOf(x).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Type().Field(i); f.PkgPath == "" && !strings.HasPrefix(f.Name, "XXX_") && m.n(4) > 0 {
			m.fill(v.Field(i), 2)
		}
	}
	x.Type = common.TssMessage_Type(m.n(7) - 1)
	x.WorkId = m.words[m.n(len(m.words))]
	if len(x.UpdateMessages) > 6 {
		x.UpdateMessages = x.UpdateMessages[:m.n(6)]
	}
	for _, u := range x.UpdateMessages {
		if u != nil && m.n(3) > 0 {
			u.Data, u.Round = m.payload()
		}
	}
	return x
}

var rawTexts = []string{"", "null", "[]", "{}", "0", "\"\"", "{\"from\":1}", "{\"tss_message\":null}", "{\"TssMessage\":[]}", "{\"From\":\"\",\"TssMessage\":{}}", "{", "\x00", "\xff\xfe", strings.Repeat("[", 5000), strings.Repeat("{\"a\":", 3000)}

// Storm: one hostile member sends anything while works run; the others must survive it.
func Storm(p Proto) func(*pbt.T) {
	return func(t *pbt.T) {
		n := 2 + t.Weighted(2, 4, 1)
		if p == EcKeygenP || p == EcSigningP {
			n = 2 + t.Weighted(3, 1)
		}
		threshold := t.Int(1, n-1)
		d := DrawDealt(t, n, threshold)
		c := d.C
		hostile := t.Int(0, n-1)
		var works []*Work
		var ss setups
		nw := 1
		if p == EdSigning || p == EcPresigned {
			nw = t.Int(1, 3)
		}
		for i := 0; i < nw; i++ {
			var w *Work
			switch p {
			case EdKeygenP, EcKeygenP:
				w = &Work{ID: WorkID(t, i), Ed: p == EdKeygenP, Keygen: true, Threshold: threshold}
			default:
				w = DrawSigning(t, d, i, p == EdSigning)
				if p == EcPresigned {
					ss = append(ss, w.AddPresigns(t, c, seq(n)))
				}
			}
			if t.Bool() {
				w.ID = c.LedBy(w.ID, hostile)
			}
			works = append(works, w)
			t.Note("work %s", w)
		}
		m := &mutator{r: t.Rand(), count: map[string]int{}}
		m.words = []string{"", "x", "w__a__b__c", c.Members[hostile].ID(), strings.Repeat("y", 300), "\u0000", "é"}
		for i := range c.Members {
			m.words = append(m.words, c.Members[i].ID())
		}
		for _, w := range works {
			m.words = append(m.words, w.ID, w.ID)
			for _, k := range w.Kinds() {
				for i := range c.Members {
					m.words = append(m.words, w.ID+"__"+c.Members[i].ID()+"____binance.tsslib."+k)
				}
			}
		}
		cfg := FaultyLimits(t)
		if p == EcKeygenP || p == EcSigningP {
			cfg.KeygenJobTimeout, cfg.SigningJobTimeout = t.Limit(12*time.Second), t.Limit(12*time.Second)
		}
		rate := t.Int(0, 6) // of 16: how many of the hostile member's own messages are changed
		storm := t.Int(0, 60)
		if p == EcKeygenP || p == EcSigningP {
			rate = t.Int(0, 3)
		}
		t.Note("%d nodes, n%d is hostile: %d of 16 of its messages are changed, and it sends %d more", n, hostile, rate, storm)
		cl := NewCluster(t, c, cfg, ss.apply)
		var seen []*common.TssMessage
		cl.Net.SetDecide(func(x *Msg) Action {
			if x.Signed == nil {
				return Action{}
			}
			m.mu.Lock()
			defer m.mu.Unlock()
			if len(seen) < 300 {
				seen = append(seen, x.Signed.TssMessage)
			}
			if x.From == hostile && x.Origin == c.Members[hostile].ID() && m.n(16) < rate {
				m.count["changed"]++
				return Action{Data: c.SignBytes(hostile, m.message(x.Signed.TssMessage))}
			}
			return Action{}
		})
		stop := make(chan struct{})
		wg := &sync.WaitGroup{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < storm; i++ {
				select {
				case <-stop:
					return
				default:
				}
				m.mu.Lock()
				to := (hostile + 1 + m.n(n-1)) % n
				peer := c.Members[m.n(n)].ID()
				if m.n(10) == 0 {
					peer = "QmUnknown"
				}
				var data []byte
				switch k := m.n(10); {
				case k == 0:
					data = m.r.Bytes(m.n(300))
				case k == 1:
					data = []byte(rawTexts[m.n(len(rawTexts))])
				case k == 2 && len(seen) > 0: // a passed-on message, damaged
					data = m.bytes(c.SignBytes(hostile, seen[m.n(len(seen))]))
				case k < 6 && len(seen) > 0:
					x := m.message(seen[m.n(len(seen))])
					if m.n(4) > 0 {
						x.From = c.Members[hostile].ID()
						if x.To != "" {
							x.To = c.Members[to].ID()
						}
					}
					data = c.SignBytes(hostile, x)
				default:
					x := m.fresh()
					x.From = c.Members[hostile].ID()
					if m.n(2) == 0 {
						x.To = ""
					} else {
						x.To = c.Members[to].ID()
					}
					data = c.SignBytes(hostile, x)
				}
				wait := time.Duration(m.n(8)) * time.Millisecond
				m.mu.Unlock()
				cl.Net.DeliverAs(peer, to, data, 0)
				time.Sleep(wait)
			}
		}()
		var starts []Start
		for _, w := range works {
			for i := 0; i < n; i++ {
				starts = append(starts, Start{w, i, time.Duration(t.Int(0, 4)*10) * time.Millisecond})
			}
		}
		per := (cfg.SelectionMemberTimeout + cfg.SigningJobTimeout) / time.Duration(t.Limit(1))
		ok := cl.Run(starts, per*2+10*time.Second)
		close(stop)
		wg.Wait()
		if !ok {
			for _, w := range works {
				for i := 0; i < n; i++ {
					if !cl.Reported(w, i) {
						t.Stuckf("no-outcome", "n%d has reported nothing about %s", i, w)
					}
				}
			}
		}
		cl.AllHandled(10*time.Second, "handler-stuck")
		honest := []int{}
		for i := 0; i < n; i++ {
			if i != hostile {
				honest = append(honest, i)
			}
		}
		cl.Idle(10*time.Second, "slot-not-freed", seq(n)...)
		// What is reported as a success is right, even so.
		var signs []*Work
		for _, w := range works {
			if !w.Keygen {
				signs = append(signs, w)
			}
		}
		if len(signs) == len(works) {
			cl.checkResults(signs)
		}
		if m.count["changed"] > 0 || storm > 10 {
			t.NonTrivial()
		}
		if m.count["changed"] > 0 {
			t.Label("own messages changed")
		}
		cl.Net.SetDecide(nil)
		cl.later(d, n, threshold)
		t.Label("%s", p)
	}
}
