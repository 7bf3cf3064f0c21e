package props

import (
	"bytes"
	"fmt"
	"io"

	"verif/mc/kit"
)

// T07: streams of another, independent multiplexer. Everything it does differently from mpegts.Writer is
// allowed by ISO 13818-1 and by the specifications of the carried formats.

type fgMux struct {
	w    *kit.W
	out  []byte
	cc   map[uint16]byte
	base int64 // of the clock references

	pmtPID, pcrPID uint16
	pat, pmt       []byte // sections
	alignPSI       bool   // stuff the last packet of tables with an adaptation field
	undeclared     bool   // there are samples of a PID that is not in the program map
	clocked        bool
	noClock        bool // the first timestamp is split over transport packets
	lateShort      bool // a PES packet whose end is known late is followed by one of a single transport packet
	prio           byte
}

// pkt emits a packet; af is the content of the adaptation field after its length (nil: none). It returns
// the number of bytes of payload it took.
func (m *fgMux) pkt(pid uint16, pusi bool, af []byte, payload []byte, max int, wantPayload bool) int {
	room := 184
	if af != nil {
		room -= 1 + len(af)
	}
	n := min(len(payload), room, max)
	if !wantPayload {
		n = 0
	}
	hasAF := af != nil
	if n < room { // stuffing
		need := room - n
		if !hasAF {
			hasAF = true
			need--
			af = []byte{}
		}
		if need > 0 {
			if len(af) == 0 {
				af = append(af, 0)
				need--
			}
			af = append(append([]byte{}, af...), bytes.Repeat([]byte{0xFF}, need)...)
		}
	}
	h := []byte{0x47, m.prio<<5 | byte(pid>>8), byte(pid), 0}
	if pusi {
		h[1] |= 0x40
	}
	if hasAF {
		h[3] |= 0x20
	}
	if wantPayload {
		h[3] |= 0x10
		m.cc[pid] = (m.cc[pid] + 1) & 15
	}
	h[3] |= m.cc[pid]
	if pid == 0x1FFF {
		h[3] = h[3]&0xF0 | 5
	}
	m.out = append(m.out, h...)
	if hasAF {
		m.out = append(m.out, byte(len(af)))
		m.out = append(m.out, af...)
	}
	m.out = append(m.out, payload[:n]...)
	if len(m.out)%188 != 0 {
		panic("foreign multiplexer: packet size")
	}
	return n
}

// psi emits sections that start in the same packet.
func (m *fgMux) psi(pid uint16, pointer int, secs ...[]byte) {
	b := []byte{byte(pointer)}
	b = append(b, bytes.Repeat([]byte{0xFF}, pointer)...)
	for _, s := range secs {
		b = append(b, s...)
	}
	if !m.alignPSI {
		for len(b)%184 != 0 {
			b = append(b, 0xFF)
		}
	}
	first := true
	for len(b) > 0 {
		n := m.pkt(pid, first, nil, b, 184, true)
		b = b[n:]
		first = false
	}
}

func fgSection(table byte, ext uint16, version byte, body []byte) []byte {
	n := 5 + len(body) + 4
	s := []byte{table, 0xB0 | byte(n>>8), byte(n), byte(ext >> 8), byte(ext), 0xC1 | version<<1, 0, 0}
	s = append(s, body...)
	c := crcMPEG2(s)
	return append(s, byte(c>>24), byte(c>>16), byte(c>>8), byte(c))
}

func fgClock(v int64, ext uint64) []byte {
	x := uint64(v&(ts33-1))<<15 | 0x3F<<9 | ext
	return []byte{byte(x >> 40), byte(x >> 32), byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)}
}

func fgTime(tag byte, v int64) []byte {
	v &= ts33 - 1
	return []byte{tag<<4 | byte(v>>30)<<1 | 1, byte(v >> 22), byte(v>>15)<<1 | 1, byte(v >> 7), byte(v)<<1 | 1}
}

func desc(tag byte, b ...byte) []byte { return append([]byte{tag, byte(len(b))}, b...) }

// entries of the program map whose codec is not supported: stream type and descriptors
var fgUnsupported = [][]byte{
	{0x06},
	append([]byte{0x06}, desc(0x6A, 0x80, 0x44)...),          // DVB AC-3
	append([]byte{0x06}, desc(0x56, 'e', 'n', 'g', 8, 0)...), // teletext
	append([]byte{0x06}, desc(0x05, 'B', 'S', 'S', 'D')...),  // SMPTE 302M
	append(append([]byte{0x06}, desc(0x05, 'K', 'L', 'V', 'A')...), desc(0x05, 'O', 'p', 'u', 's')...),
	append([]byte{0x05}, desc(0x5F, 0, 0, 0, 1)...),
	append([]byte{0x15}, desc(0x26, 0x01, 0x00, 0xFF, 'I', 'D', '3', ' ', 0x01, 0x0F)...),
	append(append([]byte{0x15}, desc(0x26, 0x01, 0x00, 0xFF, 'K', 'L', 'V', 'A', 0x00, 0x0F)...), desc(0x26, 0x01, 0x00, 0xFF, 'K', 'L', 'V', 'A', 0x01, 0x0F)...),
	append([]byte{0x15}, desc(0x26, 0x01, 0x00)...),
	{0x15},
	append([]byte{0x86}, desc(0x05, 'C', 'U', 'E', 'I')...),
	{0x33}, {0x21}, {0xEA}, {0xFF}, {0x00},
}

// fgES is the entry of a track in the program map.
func fgES(w *kit.W, t *tsTrack) []byte {
	typ := byte(0)
	if t.kind != kUnsup {
		typ = tsStreamTypes[t.kind]
	}
	if t.kind == kM1V && w.Dev(2) == 1 {
		typ = 0x01
	}
	var d []byte
	// the first ones are ignored by a reader that does not know them
	extra := [][]byte{nil, desc(0x52, 7), desc(0xF0), append(desc(0xE0, pat(40, 3)...), desc(0x03, 0x6F)...), desc(0x0E, 0xC0, 0x27, 0x10)}
	d = append(d, extra[w.Dev(len(extra))]...)
	switch t.kind {
	case kOpus:
		d = append(d, desc(0x05, 'O', 'p', 'u', 's')...)
		d = append(d, extra[w.Dev(3)]...)
		d = append(d, desc(0x7F, 0x80, []byte{2, 8, 2, 0x80}[t.variant%4])...)
		if t.variant%4 == 2 {
			panic("variant")
		}
	case kUnsup:
		u := fgUnsupported[t.variant]
		typ = u[0]
		d = append(d, u[1:]...)
	case kKLVA:
		d = append(d, desc(0x05, append([]byte("KLVA"), pat(w.Dev(3), 1)...)...)...)
	case kKLVS:
		switch w.Dev(4) {
		case 0:
			d = append(d, desc(0x26, 0x01, 0x00, 0xFF, 'K', 'L', 'V', 'A', 0x00, 0x0F)...)
		case 1: // another application format and service
			d = append(d, desc(0x26, 0x01, 0x01, 0xFF, 'K', 'L', 'V', 'A', 0x05, 0x0F)...)
		case 2: // private data after the fields
			d = append(d, desc(0x26, 0x01, 0x03, 0xFF, 'K', 'L', 'V', 'A', 0x00, 0x0F, 1, 2, 3)...)
		default: // a second, foreign metadata descriptor
			d = append(d, desc(0x26, 0x01, 0x00, 0xFF, 'I', 'D', '3', ' ', 0x01, 0x0F)...)
			d = append(d, desc(0x26, 0x01, 0x00, 0xFF, 'K', 'L', 'V', 'A', 0x00, 0x0F)...)
		}
		if w.Dev(2) == 0 {
			d = append(d, desc(0x27, 0xC0, 0, 0, 0xC0, 0, 0, 0xC0, 0, 0)...)
		}
	case kDVB:
		it := []byte{'i', 't', 'a', 0x10, 0, 1, 0, 2}
		if t.variant%2 == 1 {
			it = append(it, 'e', 'n', 'g', 0x24, 0xFF, 0xFF, 0x80, 0x01)
		}
		d = append(d, desc(0x59, it...)...)
	case kAC3:
		x := [][]byte{nil, desc(0x6A, 0x80, 0x44), desc(0x05, 'A', 'C', '-', '3')}
		d = append(d, x[w.Dev(3)]...)
	case kEAC3:
		x := [][]byte{nil, desc(0x7A, 0xC0, 0xC4, 0x10), desc(0x05, 'E', 'A', 'C', '3')}
		d = append(d, x[w.Dev(3)]...)
	case kH264:
		x := [][]byte{nil, desc(0x28, 0x64, 0, 0x28, 0xBF)}
		d = append(d, x[w.Dev(2)]...)
	case kH265:
		x := [][]byte{nil, desc(0x05, 'H', 'E', 'V', 'C')}
		d = append(d, x[w.Dev(2)]...)
	}
	switch w.Dev(4) {
	case 1:
		t.lang = "fra"
		d = append(d, desc(0x0A, 'f', 'r', 'a', 0)...)
	case 2:
		t.lang = "deu"
		d = append(desc(0x0A, 'd', 'e', 'u', 3), d...)
	case 3:
		t.lang = "spa"
		d = append(d, desc(0x0A, 's', 'p', 'a', 0, 'c', 'a', 't', 0)...)
	}
	d = append(d, extra[w.Dev(len(extra))]...)
	return append([]byte{typ, 0xE0 | byte(t.wantPID>>8), byte(t.wantPID), 0xF0 | byte(len(d)>>8), byte(len(d))}, d...)
}

// fgPayload is the elementary stream data of a sample.
func fgPayload(w *kit.W, t *tsTrack, s *tsSample) []byte {
	switch t.kind {
	case kH264, kH265:
		aud := []byte{9, 0x30}
		if t.kind == kH265 {
			aud = []byte{70, 1, 0x50}
		}
		sc := [][]byte{{0, 0, 0, 1}, {0, 0, 1}}
		style := w.Dev(4)
		var o []byte
		if w.Dev(2) == 0 {
			o = append(append(o, sc[style&1]...), aud...)
		}
		for i, u := range s.units {
			if i == 0 {
				o = append(o, sc[style>>1]...)
			} else {
				o = append(o, sc[style&1]...)
			}
			o = append(o, u...)
		}
		return o
	case kAAC:
		b := tsPayload(t, s)
		x := w.Dev(5)
		pos := 0
		for _, u := range s.units {
			h := b[pos:]
			switch x {
			case 1:
				h[1] |= 8 // MPEG-2
			case 2:
				h[5] &= 0xE0 // buffer fullness
				h[6] &= 3
			case 3:
				h[2] |= 2 // private bit
			case 4:
				h[3] |= 0x3C // original, home, copyright bits
			}
			pos += 7 + len(u)
		}
		return b
	case kOpus:
		x := w.Dev(5)
		var o []byte
		for i, u := range s.units {
			f := []byte{0xE0, 0xF0, 0xE8, 0xF8, 0xE4}[x]
			if i > 0 && x < 4 {
				f &^= 0x10 // the start is trimmed once
			}
			o = append(o, 0x7F, f)
			n := len(u)
			for n >= 255 {
				o = append(o, 255)
				n -= 255
			}
			o = append(o, byte(n))
			if f&0x10 != 0 {
				o = append(o, 0x01, 0x38)
			}
			if f&0x08 != 0 {
				o = append(o, 0x02, 0xF1)
			}
			if f&0x04 != 0 {
				o = append(o, 3, 9, 8, 7)
			}
			o = append(o, u...)
		}
		return o
	case kKLVS:
		d := s.units[0]
		cell := []int{65535, (len(d) + 1) / 2, 16, 1}[w.Dev(4)]
		cell = max(cell, 1)
		svc := []byte{0, 5}[w.Dev(2)]
		flags := []byte{0x1F, 0x0F}[w.Dev(2)] // random access or not
		// numbers increment modulo 256 across the cells of the stream (ISO 13818-1, 2.12.4.2)
		seq := []byte{0, 1, 255}[w.Dev(3)]
		var o []byte
		for first := true; len(d) > 0; first = false {
			n := min(len(d), cell)
			frag := byte(0)
			if first {
				frag |= 2
			}
			if n == len(d) {
				frag |= 1
			}
			o = append(o, svc, seq, frag<<6|flags, byte(n>>8), byte(n))
			o = append(o, d[:n]...)
			d = d[n:]
			seq++
		}
		return o
	}
	return tsPayload(t, s)
}

// fgPES is the PES packet of a sample.
func fgPES(w *kit.W, t *tsTrack, s *tsSample) []byte {
	data := s.raw
	if data == nil {
		data = fgPayload(w, t, s)
	}
	id := tsStreamID(t.kind)
	ids := map[byte][]byte{0xE0: {0xE1, 0xEF}, 0xC0: {0xC5, 0xDF}, 0xFC: {0xFC, 0xFC}, 0xBD: {0xBD, 0xBD}}[id]
	switch t.kind {
	case kAC3, kEAC3, kOpus:
		ids = []byte{0xBD, 0xFD}
	}
	if x := w.Dev(3); x > 0 {
		id = ids[x-1]
	}
	f1 := []byte{0x80, 0x84, 0x88, 0x8F}[w.Dev(4)]
	f2 := byte(0)
	var h []byte
	if t.kind != kKLVA && !s.noTime {
		same := w.Dev(2)
		if s.pts != s.dts || same == 1 {
			f2 = 0xC0
			h = append(h, fgTime(3, s.pts)...)
			h = append(h, fgTime(1, s.dts)...)
		} else {
			f2 = 0x80
			h = append(h, fgTime(2, s.pts)...)
		}
	}
	switch w.Dev(9) {
	case 1: // ESCR
		f2 |= 0x20
		e := uint64(s.dts & (ts33 - 1))
		x := e>>30<<43 | 1<<42 | (e>>15&0x7FFF)<<27 | 1<<26 | (e&0x7FFF)<<11 | 1<<10 | 200<<1 | 1 | 3<<46
		h = append(h, byte(x>>40), byte(x>>32), byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
	case 2: // ES rate
		f2 |= 0x10
		h = append(h, 0x80|0x12, 0x34, 0x56|1)
	case 3: // trick mode
		f2 |= 0x08
		h = append(h, 0x1F)
	case 4: // additional copy info
		f2 |= 0x04
		h = append(h, 0xAB)
	case 5: // CRC of the previous packet
		f2 |= 0x02
		h = append(h, 0xBE, 0xEF)
	case 6: // extension: private data
		f2 |= 0x01
		h = append(h, 0x8E)
		h = append(h, pat(16, 9)...)
	case 7: // extension: sequence counter, buffer size
		f2 |= 0x01
		h = append(h, 0x3E, 0x85, 0x80|10, 0x60, 0x10)
	case 8: // extension: extension field
		f2 |= 0x01
		h = append(h, 0x0F, 0x81, 0x76)
	}
	h = append(h, bytes.Repeat([]byte{0xFF}, []int{0, 1, 3, 31}[w.Dev(4)])...)
	le := 3 + len(h) + len(data)
	if le > 65535 || tsVideo(t.kind) && w.Dev(2) == 1 {
		le = 0
	}
	o := []byte{0, 0, 1, id, byte(le >> 8), byte(le), f1, f2, byte(len(h))}
	o = append(o, h...)
	return append(o, data...)
}

// fgMuxer makes the stream. The language of the tracks is filled in.
func fgMuxer(w *kit.W, trks []*tsTrack, ss []*tsSample) *fgMux {
	tsMake(trks)
	m := &fgMux{w: w, cc: map[uint16]byte{}}
	switch w.Dev(4) {
	case 0:
		for i, t := range trks {
			t.wantPID = uint16(256 + i)
		}
	case 1:
		for i, t := range trks {
			t.wantPID = uint16(0x50 - 7*i)
		}
	case 2:
		for i, t := range trks {
			t.wantPID = uint16(0x1FFE - i)
		}
	case 3:
		for i, t := range trks {
			t.wantPID = uint16(0x20 + 0x1000*(i%2) + i)
		}
	}
	m.pmtPID = kit.DevOf(w, uint16(0x1000), 0x30, 0x1FF0, 0xFF)
	m.pcrPID = trks[0].wantPID
	switch w.Dev(4) {
	case 1:
		m.pcrPID = trks[len(trks)-1].wantPID
	case 2:
		m.pcrPID = 0x777
	case 3:
		m.pcrPID = 0x1FFF
	}
	version := kit.DevOf(w, byte(0), 1, 31)
	prog := kit.DevOf(w, uint16(1), 2, 0xFFFF)
	// PAT
	e := func(n, pid uint16) []byte { return []byte{byte(n >> 8), byte(n), 0xE0 | byte(pid>>8), byte(pid)} }
	var pb []byte
	nit := w.Dev(3)
	second := w.Dev(4)
	if nit == 1 {
		pb = append(pb, e(0, 0x10)...)
	}
	if second == 1 {
		pb = append(pb, e(40, 0x999)...)
	}
	pb = append(pb, e(prog, m.pmtPID)...)
	if second >= 2 {
		pb = append(pb, e(41, 0x999)...)
	}
	if nit == 2 {
		pb = append(pb, e(0, 0x10)...)
	}
	if w.Dev(2) == 1 { // enough programs for more than one packet
		for i := range 60 {
			pb = append(pb, e(uint16(1000+i), uint16(0xA00+i))...)
		}
	}
	m.pat = fgSection(0, kit.DevOf(w, uint16(1), 0, 0xABCD), version, pb)
	// PMT
	var pd []byte
	switch w.Dev(4) {
	case 1:
		pd = desc(0x05, 'H', 'D', 'M', 'V')
	case 2:
		pd = append(desc(0xE1, pat(100, 1)...), desc(0xE2, pat(90, 2)...)...)
	case 3:
		for i := range 3 {
			pd = append(pd, desc(0xE3, pat(230, byte(i))...)...)
		}
	}
	mb := []byte{0xE0 | byte(m.pcrPID>>8), byte(m.pcrPID), 0xF0 | byte(len(pd)>>8), byte(len(pd))}
	mb = append(mb, pd...)
	for _, t := range trks {
		mb = append(mb, fgES(w, t)...)
	}
	m.pmt = fgSection(2, prog, version, mb)
	m.alignPSI = w.Dev(2) == 1
	pointer := kit.DevOf(w, 0, 1, 20)
	m.prio = byte(w.Dev(2))
	other := fgSection(2, 41, 0, append([]byte{0xE7, 0x78, 0xF0, 0}, []byte{0x1B, 0xE7, 0x78, 0xF0, 0}...))
	tables := func(kind int) {
		switch kind {
		case 1:
			m.psi(0, pointer, m.pat)
			m.psi(m.pmtPID, pointer, m.pmt)
			if second == 3 {
				m.psi(0x999, 0, other)
			}
		case 2:
			m.psi(m.pmtPID, 0, m.pmt)
		case 3:
			m.psi(0, 0, m.pat)
		}
	}
	for _, t := range trks {
		m.cc[t.wantPID] = byte(kit.DevOf(w, 15, 0, 13))
	}
	extra := func(x int, t *tsTrack) {
		switch x {
		case 1:
			tables(1)
		case 2:
			m.pkt(0x1FFF, false, nil, bytes.Repeat([]byte{0xFF}, 184), 184, true)
		case 3: // clock only
			m.pkt(t.wantPID, false, append([]byte{0x10}, fgClock(1000, 5)...), nil, 0, false)
		case 4: // clock on its own PID
			m.pkt(0x777, false, append([]byte{0x10}, fgClock(1000, 5)...), nil, 0, false)
		case 5: // service description
			m.psi(0x11, 0, fgSection(0x42, 1, 0, []byte{0, 1, 0xFF, 0, 1, 0xFC, 0x80, 0x0B, 0x48, 0x09, 0x01, 2, 'A', 'B', 4, 'n', 'a', 'm', 'e'}))
		case 7: // conditional access, after a pointer
			m.psi(0x01, 1, fgSection(0x01, 0xFFFF, 0, desc(0x09, 1, 2, 0xE3, 4)))
		case 6: // a PES packet of a PID that is not in the program map
			m.undeclared = true
			m.pkt(0x666, true, nil, []byte{0, 0, 1, 0xE0, 0, 13, 0x80, 0x80, 5, 0x21, 0, 1, 0, 1, 1, 2, 3, 4, 5}, 184, true)
		}
	}
	switch w.Dev(5) {
	case 0:
		tables(1)
	case 1:
		extra(2, trks[0])
		tables(1)
	case 2:
		tables(2)
		tables(1)
	case 3:
		tables(3)
		extra(4, trks[0])
		tables(2)
	case 4:
		extra(5, trks[0])
		tables(1)
		tables(1)
	}
	// samples
	type pending struct {
		trk   *tsTrack
		pes   []byte
		style int
		mid   int
		n     int
		late  bool
	}
	late := map[*tsTrack]bool{}
	emit := func(p *pending) {
		pid := p.trk.wantPID
		var af []byte
		mx := 184
		first := p.n == 0
		if first {
			switch p.style {
			case 0:
				if pid == m.pcrPID {
					af = append([]byte{0x10}, fgClock(m.base, 7)...)
				}
			case 1:
				af = []byte{}
			case 2:
				af = []byte{0x00}
			case 3: // clocks, splice, private data
				af = append([]byte{0x5E}, fgClock(m.base, 299)...)
				af = append(af, fgClock(m.base, 3)...)
				af = append(af, 0xFE, 3, 1, 2, 3)
			case 4: // extension: legal time window, piecewise rate, seamless splice
				af = []byte{0x61, 11, 0xFF, 0x80, 0x10, 0xC0, 0x12, 0x34, 0x21, 0, 1, 0, 1}
			case 5, 6, 7, 8, 9: // the header of the PES packet is split
				mx = []int{1, 6, 9, 13, 20}[p.style-5]
			case 16: // up to the PTS
				mx = 14
			case 10:
				af = []byte{0x40, 0xFF, 0xFF}
			case 11: // discontinuity of the clock
				af = append([]byte{0x90}, fgClock(m.base, 0)...)
			}
		} else {
			switch p.style {
			case 12:
				mx = 1
			case 13:
				af = []byte{}
			case 14:
				af = append([]byte{0x10}, fgClock(m.base, 9)...)
			case 15:
				af = []byte{0x80} // discontinuity without one
			}
		}
		if p.n == 1 {
			extra(p.mid, p.trk)
		}
		if first {
			p.late = bytes.Equal(p.pes[4:6], []byte{0, 0})
		}
		n := m.pkt(pid, first, af, p.pes, mx, true)
		if first {
			if n == len(p.pes) && !p.late && late[p.trk] {
				m.lateShort = true
			}
			late[p.trk] = p.late || n < 3
			if !m.clocked && p.trk.kind != kKLVA {
				m.clocked = n >= 14
				m.noClock = m.noClock || !m.clocked
			}
		}
		p.pes = p.pes[n:]
		p.n++
	}
	var q []*pending
	flush := func() {
		for len(q) > 0 {
			var left []*pending
			for _, p := range q {
				emit(p)
				if len(p.pes) > 0 {
					left = append(left, p)
				}
			}
			q = left
		}
	}
	inter := w.Dev(2) == 1
	for _, s := range ss {
		t := trks[s.trk]
		m.base = s.dts - 9000
		before := w.Dev(6)
		p := &pending{trk: t, pes: fgPES(w, t, s), style: w.Dev(17), mid: w.Dev(8)}
		if before > 0 {
			flush()
			if before < 4 {
				tables(before)
			} else {
				extra(before, t)
			}
		}
		for _, o := range q {
			if o.trk == t {
				flush()
				break
			}
		}
		q = append(q, p)
		if !inter {
			flush()
		}
	}
	flush()
	switch w.Dev(4) {
	case 1:
		tables(1)
	case 2:
		extra(2, trks[0])
	case 3:
		extra(3, trks[0])
	}
	return m
}

// fgCheck reads the stream; the silent track, if any, is read without a callback.
func fgCheck(w *kit.W, trks []*tsTrack, ss []*tsSample, m *fgMux, silent *tsTrack) {
	w.Input = m.out
	var skip []uint16
	if silent != nil {
		skip = append(skip, silent.wantPID)
	}
	res := tsRead(bytes.NewReader(m.out), 10000, skip...)
	w.Check(res.initErr == nil, "foreign-init", "Reader.Initialize: %v", res.initErr)
	tsCheckTracks(w, trks, res.tracks)
	w.Check(res.readErr == io.EOF, "foreign-end", "reading ended with %v", res.readErr)
	if !m.undeclared {
		w.Check(len(res.decErrs) == 0, "foreign-decode-error", "decode errors: %v", res.decErrs)
	}
	exp := make([][]tsGot, len(trks))
	pts := map[int64]bool{}
	for _, s := range ss {
		t := trks[s.trk]
		g := tsGot{pts: s.pts & (ts33 - 1), units: s.units}
		if t.kind == kH264 || t.kind == kH265 {
			g.dts, g.hasDTS = s.dts&(ts33-1), true
		}
		if t.kind != kKLVA {
			pts[g.pts] = true
		}
		exp[s.trk] = append(exp[s.trk], g)
	}
	for i, t := range trks {
		got := res.got[t.wantPID]
		if t.kind == kUnsup || t == silent {
			w.Check(len(got) == 0, "foreign-unsupported", "track %d (%s) delivers %d samples", i, tsNames[t.kind], len(got))
			continue
		}
		w.Check(!m.lateShort || len(got) >= len(exp[i]), "unbounded-then-short", "track %d (%s): %d samples, want %d: a PES packet without length, or of which the first transport packet holds less than 3 bytes, is lost when followed by one that fits into a single transport packet", i, tsNames[t.kind], len(got), len(exp[i]))
		if t.kind == kKLVA && m.noClock && len(got) < len(exp[i]) {
			exp[i] = exp[i][len(exp[i])-len(got):]
		}
		w.Check(len(got) == len(exp[i]), "foreign-count", "track %d (%s): %d samples, want %d", i, tsNames[t.kind], len(got), len(exp[i]))
		for j := range got {
			if t.kind == kKLVA {
				w.Check(pts[got[j].pts] || m.undeclared, "foreign-klv-pts", "asynchronous KLV sample %d has time %d, which no sample has", j, got[j].pts)
				exp[i][j].pts = got[j].pts
			}
			w.Check(tsGotEq(got[j], exp[i][j]), "foreign-sample", "track %d (%s) sample %d: %v, want %v", i, tsNames[t.kind], j, got[j], exp[i][j])
		}
	}
	w.Ops(int64(len(ss)))
	w.Step(kit.H(len(m.out), len(res.order), dump(res.order)))
}

func init() {
	kit.Register(&kit.Check{
		ID: "T07",
		Assumptions: []string{
			"the streams are conformant to ISO 13818-1 and to the carried formats, of one program (others may be announced), every PES packet holds the units of one time and has a timestamp (asynchronous KLV: none), packets arrive in order and unbroken",
			"of what the standards allow and the package documents or shows as out of scope: ADTS with a checksum or several blocks per frame, several AC-3 frames per PES packet, program maps that change, sections that start where another ends in a later packet",
			"an asynchronous KLV sample is given the time of some sample of the stream, and may be dropped as long as no timestamp has arrived whole in a transport packet; samples of PIDs that are not in the program map may be reported as decode errors",
		},
		Run: func(c *kit.Ctx) {
			run := func(w *kit.W, kinds []int, order []int, silent int) {
				g := &tsGen{clock: tsBases[w.Dev(len(tsBases))]}
				var trks []*tsTrack
				for _, k := range kinds {
					v := 0
					if k == kUnsup {
						v = w.Pick(len(fgUnsupported))
					} else {
						v = w.Dev(3)
					}
					if v == 2 && k == kOpus {
						v = 3
					}
					trks = append(trks, &tsTrack{kind: k, variant: v})
				}
				var ss []*tsSample
				for i, trk := range order {
					t := trks[trk]
					g.clock += []int64{3000, 1, 90000}[w.Dev(3)]
					s := &tsSample{trk: trk, pts: g.clock, dts: g.clock}
					if t.kind <= kH265 {
						s.pts += []int64{0, 6000}[w.Dev(2)]
					}
					size := []int{300, 1, 20, 165, 700}[w.Dev(5)]
					nu := 1
					if tsMulti(t.kind) {
						nu += w.Dev(3)
					}
					for k := range nu {
						s.units = append(s.units, tsUnit(t.kind, t.variant, size+k, i%2, byte(i*8+k)))
					}
					ss = append(ss, s)
				}
				m := fgMuxer(w, trks, ss)
				w.Trace("tracks %v samples %v", kinds, order)
				if silent >= 0 {
					fgCheck(w, trks, ss, m, trks[silent])
				} else {
					fgCheck(w, trks, ss, m, nil)
				}
			}
			c.Explore("one-track", kit.Opt{MaxDev: kit.T(c, 2, 3), Bound: "one track of every kind, 2 samples of one to five packets; deviations from a plain stream in: PIDs, table versions, network entry, other programs, tables over several packets, pointer field, table stuffing, descriptors, repetition and position of tables, clock PID, stream start, null packets, clock-only packets, foreign PIDs, adaptation field of first and following packets (17 shapes, header split over packets included), transport priority, continuity counter start, PES stream id, flags, optional fields (9 shapes), header stuffing, length given or not, timestamps, start code lengths, delimiters, ADTS header bits, Opus trims and extensions, KLV cell sizes and numbering"}, func(w *kit.W) {
				k := w.Pick(kCount)
				if k == kKLVA {
					w.Step(0)
					return
				}
				run(w, []int{k}, []int{0, 0}, -1)
			})
			c.Explore("two-tracks", kit.Opt{MaxDev: kit.T(c, 1, 2), Bound: "every ordered pair of kinds (the first one with timestamps), 4 samples in 3 orders, packets of different tracks interleaved or not; deviations as above"}, func(w *kit.W) {
				k1, k2 := w.Pick(kCount), w.Pick(kCount)
				if k1 == kKLVA {
					w.Step(0)
					return
				}
				run(w, []int{k1, k2}, [][]int{{0, 1, 0, 1}, {0, 0, 1, 1}, {0, 1, 1, 0}}[w.Pick(3)], -1)
			})
			c.Explore("unsupported", kit.Opt{MaxDev: 1, Bound: fmt.Sprintf("a track of every kind next to one, before or after it, of each of %d entries of the program map whose codec is not supported, with or without data; deviations as above", len(fgUnsupported))}, func(w *kit.W) {
				k := w.Pick(kCount)
				if k == kKLVA {
					w.Step(0)
					return
				}
				kinds, order := []int{k, kUnsup}, [][]int{{0, 1, 0}, {1, 0, 1}, {0, 0}}[w.Pick(3)]
				if w.Bool() {
					kinds = []int{kUnsup, k}
					for i := range order {
						order[i] = 1 - order[i]
					}
				}
				run(w, kinds, order, -1)
			})
			c.Explore("no-callback", kit.Opt{MaxDev: 1, Bound: "every ordered pair of kinds, one track is read without a callback: the other is delivered; deviations as above"}, func(w *kit.W) {
				k1, k2 := w.Pick(kCount), w.Pick(kCount)
				if k1 == kKLVA {
					w.Step(0)
					return
				}
				run(w, []int{k1, k2}, []int{0, 1, 0, 1}, w.Pick(2))
			})
		},
	})
}
