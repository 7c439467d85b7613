// Package pframe checks the message framing on streams.
package pframe

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"

	"dverif/pbt"

	"github.com/libp2p/go-libp2p/core/network"
	"github.com/sisu-network/dheart/p2p"
)

// fakeStream implements the byte transport; segments decides how many bytes each Read returns.
type fakeStream struct {
	network.Stream
	in      []byte
	segs    []int
	si      int
	end     error // returned when the bytes are used up
	dataEnd bool  // return the end error together with the last bytes
	out     bytes.Buffer
	failAt  int // writes fail once that many bytes were taken (-1: never)
	reads   int
}

func (s *fakeStream) Read(p []byte) (int, error) {
	s.reads++
	if len(s.in) == 0 {
		return 0, s.end
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if len(s.segs) > 0 {
		k := s.segs[s.si%len(s.segs)]
		s.si++
		if k < n {
			n = k
		}
	}
	if n < 1 {
		n = 1
	}
	if n > len(s.in) {
		n = len(s.in)
	}
	copy(p, s.in[:n])
	s.in = s.in[n:]
	if len(s.in) == 0 && s.dataEnd {
		return n, s.end
	}
	return n, nil
}

func (s *fakeStream) Write(p []byte) (int, error) {
	if s.failAt >= 0 && s.out.Len()+len(p) > s.failAt {
		k := s.failAt - s.out.Len()
		if k < 0 {
			k = 0
		}
		s.out.Write(p[:k])
		return k, errors.New("transport failed")
	}
	return s.out.Write(p)
}

func drawMsg(t *pbt.T) []byte {
	switch t.Weighted(4, 4, 3, 1) {
	case 0:
		return t.Bulk(t.Int(0, 8))
	case 1:
		return t.Bulk(t.Int(0, 400))
	case 2:
		return t.Bulk(t.Int(4085, 4110)) // around the usual buffer size
	}
	return t.Bulk(t.Int(0, 100000))
}

func drawSegs(t *pbt.T) []int {
	switch t.Weighted(2, 2, 3) {
	case 0:
		return nil // everything that is there
	case 1:
		return []int{t.Int(1, 9)}
	}
	n := t.Int(1, 8)
	s := make([]int, n)
	for i := range s {
		s[i] = t.Int(1, 60)
		if t.Prob(1, 4) {
			s[i] = t.Int(60, 9000)
		}
	}
	return s
}

// Frames: write messages, re-segment the bytes, read them back; optionally cut the stream.
func Frames(t *pbt.T) {
	n := t.Int(1, 8)
	w := &fakeStream{failAt: -1}
	var msgs [][]byte
	var ends []int
	sizes := ""
	for i := 0; i < n; i++ {
		m := drawMsg(t)
		keep := append([]byte{}, m...)
		if err := p2p.WriteStreamWithBuffer(m, w); err != nil {
			t.Failf("write", "writing %d bytes: %v", len(m), err)
		}
		if !bytes.Equal(m, keep) {
			t.Failf("write", "writing changed the caller's message")
		}
		msgs = append(msgs, m)
		ends = append(ends, w.out.Len())
		sizes += fmt.Sprint(" ", len(m))
	}
	wire := w.out.Bytes()
	cut := len(wire)
	if t.Prob(1, 3) {
		cut = t.Int(0, len(wire)-1)
		if t.Bool() { // near a message border
			cut = ends[t.Int(0, n-1)] + t.Int(-5, 5)
		}
		if cut < 0 {
			cut = 0
		}
		if cut > len(wire) {
			cut = len(wire)
		}
	}
	segs := drawSegs(t)
	end := error(io.EOF)
	if t.Prob(1, 3) {
		end = errors.New("stream reset")
	}
	r := &fakeStream{in: append([]byte{}, wire[:cut]...), segs: segs, end: end, dataEnd: t.Prob(1, 4)}
	t.Note("messages of%s bytes; %d of %d bytes arrive in segments %v (nil: as available), then %v", sizes, cut, len(wire), segs, end)
	var gots [][]byte
	defer func() {
		for i, got := range gots {
			if !bytes.Equal(got, msgs[i]) {
				t.Failf("frames", "message %d: it was read correctly but has changed after later reads", i)
			}
		}
	}()
	for i := 0; i < n; i++ {
		var got []byte
		var err error
		t.WithLimit(20e9, "read-hang", "reading a frame", func() { got, err = p2p.ReadStreamWithBuffer(r) })
		if ends[i] <= cut {
			if err != nil {
				t.Failf("frames", "message %d of %d was completely there, but reading gave: %v", i, n, err)
			}
			if !bytes.Equal(got, msgs[i]) {
				t.Failf("frames", "message %d: read %d bytes, differs from the %d written", i, len(got), len(msgs[i]))
			}
			gots = append(gots, got)
			continue
		}
		if err == nil {
			t.Failf("truncated", "message %d was cut (%d of %d bytes there), but reading gave %d bytes without error", i, cut, ends[i], len(got))
		}
		break
	}
	if cut == len(wire) {
		if got, err := p2p.ReadStreamWithBuffer(r); err == nil {
			t.Failf("truncated", "the ended stream gave a message of %d bytes", len(got))
		}
	} else {
		t.Label("cut")
	}
	if n > 1 {
		t.Label("several-messages")
		t.NonTrivial()
	}
}

// Oversize: limits on both sides.
func Oversize(t *pbt.T) {
	max := p2p.MaxPayload
	claim := uint32(max) + 1 + uint32(t.Int(0, 100))
	switch t.Int(0, 2) {
	case 1:
		claim = 0xffffffff - uint32(t.Int(0, 1000))
	case 2:
		claim = uint32(max) + uint32(t.Int(1, 2000000000))
	}
	hdr := make([]byte, 4)
	binary.LittleEndian.PutUint32(hdr, claim)
	r := &fakeStream{in: append(hdr, t.Bulk(t.Int(0, 5000))...), end: io.EOF}
	t.Note("frame header claims %d bytes (limit %d)", claim, max)
	if m, err := p2p.ReadStreamWithBuffer(r); err == nil {
		t.Failf("oversize", "a frame of %d bytes was accepted (%d bytes read)", claim, len(m))
	}
	if t.Prob(1, 4) {
		// The largest message passes, one byte more is refused on writing.
		extra := t.Int(0, 1)
		buf := make([]byte, max+extra)
		buf[0], buf[len(buf)-1] = 7, 9
		w := &fakeStream{failAt: -1}
		err := p2p.WriteStreamWithBuffer(buf, w)
		if extra == 0 {
			if err != nil {
				t.Failf("oversize", "a message of the maximal size was refused: %v", err)
			}
			got, err := p2p.ReadStreamWithBuffer(&fakeStream{in: w.out.Bytes(), end: io.EOF})
			if err != nil || !bytes.Equal(got, buf) {
				t.Failf("oversize", "a message of the maximal size was not read back: %v", err)
			}
			t.Label("max-size")
		} else {
			if err == nil {
				t.Failf("oversize", "a message of %d bytes (limit %d) was written without error", len(buf), max)
			}
			if w.out.Len() != 0 {
				t.Failf("oversize", "a refused message left %d bytes on the stream", w.out.Len())
			}
			t.Label("max-size+1")
		}
	}
	t.NonTrivial()
}

// WriteFailure: a transport error is reported to the writer.
func WriteFailure(t *pbt.T) {
	m := drawMsg(t)
	total := len(m) + 4
	at := t.Int(0, total-1)
	w := &fakeStream{failAt: at}
	t.Note("message of %d bytes, transport fails after %d", len(m), at)
	if err := p2p.WriteStreamWithBuffer(m, w); err == nil {
		t.Failf("write-error", "the transport failed after %d of %d bytes, but writing reported success", at, total)
	}
	t.NonTrivial()
}

// Garbage: arbitrary bytes never crash the reader and never yield a message that is not framed in them.
func Garbage(t *pbt.T) {
	b := t.Bulk(t.Int(0, 60))
	if t.Bool() && len(b) >= 4 {
		binary.LittleEndian.PutUint32(b, uint32(t.Int(0, 70)))
	}
	in := append([]byte{}, b...)
	r := &fakeStream{in: append([]byte{}, b...), segs: drawSegs(t), end: io.EOF}
	t.Note("bytes %x", b)
	for k := 0; k < 20; k++ {
		got, err := p2p.ReadStreamWithBuffer(r)
		if len(in) < 4 || uint64(binary.LittleEndian.Uint32(in))+4 > uint64(len(in)) {
			if err == nil {
				t.Failf("garbage", "no complete frame is left in %x, but %d bytes were read", in, len(got))
			}
			return
		}
		ln := int(binary.LittleEndian.Uint32(in))
		if err != nil || !bytes.Equal(got, in[4:4+ln]) {
			t.Failf("garbage", "frame of %d bytes read as %x, error %v", ln, got, err)
		}
		in = in[4+ln:]
		t.NonTrivial()
	}
}
