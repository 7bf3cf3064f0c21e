package props

import (
	"bytes"
	"fmt"
	"io"

	"verif/mc/kit"
)

// bad units (T04): the content of a PES packet breaks the structure of the format of its track. This is
// reported, nothing of it is delivered, and what is around it is.

// tsBad reads a stream of three samples on one track; the one in the middle is mid, of which exp is to be
// delivered (nil: nothing, and an error is reported).
func tsBad(w *kit.W, kind, variant int, mid *tsSample, exp [][]byte) {
	t := &tsTrack{kind: kind, variant: variant}
	good := func(pts int64, seed byte) *tsSample {
		return &tsSample{pts: pts, dts: pts, units: [][]byte{tsUnit(kind, variant, 40, 0, seed)}}
	}
	mid.pts += 93000
	mid.dts += 93000
	ss := []*tsSample{good(90000, 1), mid, good(96000, 2)}
	m := fgMuxer(w, []*tsTrack{t}, ss)
	w.Input = m.out
	res := tsRead(bytes.NewReader(m.out), 10000)
	w.Check(res.initErr == nil && res.readErr == io.EOF, "bad-unit-end", "%s: Initialize: %v, reading ended with %v", tsNames[kind], res.initErr, res.readErr)
	want := []tsGot{}
	for i, s := range ss {
		u := s.units
		if i == 1 {
			if exp == nil {
				continue
			}
			u = exp
		}
		g := tsGot{pts: s.pts, units: u}
		if kind <= kH265 {
			g.dts, g.hasDTS = s.dts, true
		}
		want = append(want, g)
	}
	got := res.got[t.wantPID]
	same := len(got) == len(want)
	for i := range got {
		same = same && tsGotEq(got[i], want[i])
	}
	w.Check(same, "bad-unit", "%s, second PES packet carries %x: %v is delivered, expected %v", tsNames[kind], mid.raw, got, want)
	w.Check((len(res.decErrs) > 0) == (exp == nil), "bad-unit-report", "%s, second PES packet carries %x: reported %v", tsNames[kind], mid.raw, res.decErrs)
	w.Ops(3)
	w.Step(kit.H(kind, variant, len(mid.raw), len(got), dump(exp)))
}

func tsBadUnits(c *kit.Ctx) {
	// of these the content tells where the units end
	closed := []int{kOpus, kAAC, kLATM, kMPA, kAC3, kKLVS}
	mk := func(kind, variant, n int) *tsSample {
		s := &tsSample{}
		for i := range n {
			s.units = append(s.units, tsUnit(kind, variant, []int{30, 1, 9}[i], 0, byte(10+i)))
		}
		tsMake([]*tsTrack{{kind: kind, variant: variant}})
		return s
	}
	payload := func(kind, variant int, s *tsSample) []byte {
		t := &tsTrack{kind: kind, variant: variant}
		tsMake([]*tsTrack{t})
		return tsPayload(t, s)
	}
	c.Explore("cut-units", kit.Opt{Bound: "one to three units of every format that tells where they end, cut at every byte or followed by 1 to 3 others: the units before the cut if it is between units, an error otherwise"}, func(w *kit.W) {
		kind := closed[w.Pick(len(closed))]
		variant := w.Pick(3)
		if kind == kOpus && variant == 2 {
			variant = 3
		}
		n := 1
		if tsMulti(kind) {
			n += w.Pick(3)
		}
		s := mk(kind, variant, n)
		raw := payload(kind, variant, s)
		ends := map[int]int{}
		for i := 1; i <= n; i++ {
			ends[len(payload(kind, variant, &tsSample{units: s.units[:i]}))] = i
		}
		k := 1 + w.Pick(len(raw)+9)
		if k <= len(raw) {
			raw = raw[:k]
		} else {
			x := k - len(raw) - 1
			raw = append(raw, bytes.Repeat([]byte{[]byte{0, 0xFF, 0x47}[x%3]}, x/3+1)...)
		}
		var exp [][]byte
		if i := ends[len(raw)]; i > 0 {
			exp = s.units[:i]
		}
		tsBad(w, kind, variant, &tsSample{raw: raw}, exp)
	})
	c.Explore("broken-units", kit.Opt{Bound: "every bit of the marks and lengths of each unit"}, func(w *kit.W) {
		kind := []int{kOpus, kAAC, kLATM, kMPA, kAC3, kEAC3, kH264, kH265}[w.Pick(8)]
		variant := w.Pick(2)
		n := 1
		if tsMulti(kind) {
			n += w.Pick(3)
		}
		s := mk(kind, variant, n)
		raw := payload(kind, variant, s)
		at := 0
		if n > 1 {
			at = len(payload(kind, variant, &tsSample{units: s.units[:n-1]}))
		}
		// bits by which every other value is an error
		var bits []int
		span := func(a, b int) {
			for i := a; i < b; i++ {
				bits = append(bits, i)
			}
		}
		switch kind {
		case kOpus:
			span(0, 11) // mark
			span(16, 24)
		case kAAC:
			span(0, 12)
			span(30, 43) // length
		case kLATM:
			span(0, 11)
			span(11, 24)
		case kMPA:
			span(0, 11)
		case kAC3:
			span(0, 16)
		case kEAC3:
			span(0, 16)
		default:
			at = 0
			span(0, 23) // the last bit of the third byte makes a short start code
			span(24, 32)
		}
		b := bits[w.Pick(len(bits))]
		raw[at+b/8] ^= 0x80 >> uint(b%8)
		tsBad(w, kind, variant, &tsSample{raw: raw}, nil)
	})
	c.Explore("klv-cells", kit.Opt{Bound: fmt.Sprintf("every sequence of up to %d metadata access unit cells: first sequence number 0, 7 or 255, the next ones consecutive or not, every fragment indication, empty or not", kit.T(c, 3, 4))}, func(w *kit.W) {
		seq := kit.Of(w, byte(0), 7, 255)
		n := 1 + w.Pick(kit.T(c, 3, 4))
		var raw, data []byte
		ok := true
		for i := range n {
			if i > 0 {
				d := kit.Of(w, byte(1), 0, 2)
				seq += d
				ok = ok && d == 1
			}
			frag := byte(w.Pick(4))
			want := byte(0)
			if i == 0 {
				want |= 2
			}
			if i == n-1 {
				want |= 1
			}
			ok = ok && frag == want
			le := kit.Of(w, 3, 0)
			raw = append(raw, 0, seq, frag<<6|0x1F, 0, byte(le))
			raw = append(raw, pat(le, seq)...)
			data = append(data, pat(le, seq)...)
		}
		var exp [][]byte
		if ok {
			exp = [][]byte{data}
		}
		tsBad(w, kKLVS, 0, &tsSample{raw: raw}, exp)
	})
	c.Explore("bad-times", kit.Opt{Bound: "audio samples of which the decoding time is not the presentation time, samples of every kind without timestamp: an error is reported, nothing is delivered"}, func(w *kit.W) {
		kind := w.Pick(kCount)
		s := mk(kind, 0, 1)
		s.raw = payload(kind, 0, s)
		if w.Bool() {
			if kind == kKLVA {
				w.Step(0)
				return
			}
			s.noTime = true
			tsBad(w, kind, 0, s, nil)
			return
		}
		s.pts = kit.Of(w, int64(1), 3600)
		switch kind {
		case kOpus, kAAC, kLATM, kMPA, kAC3, kEAC3:
			tsBad(w, kind, 0, s, nil)
		default:
			w.Step(0)
		}
	})
}
