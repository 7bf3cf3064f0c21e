package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"slices"
	"sort"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/codecs"

	"verif/mc/kit"
)

var tsStreamTypes = [kCount]byte{0x1B, 0x24, 0x10, 0x02, 0x06, 0x0F, 0x11, 0x03, 0x81, 0x87, 0x15, 0x06, 0x06}

// tsNeedsData tells whether the reader takes the parameters of the track from its samples.
func tsNeedsData(kind int) bool { return kind == kAAC || kind == kAC3 || kind == kEAC3 }

var tsBases = []int64{90000, 0, 9000, ts33 - 1, ts33 - 9000, ts33 - 3001, ts33 + 5, 3*ts33 - 3000, 1 << 32, 1<<32 - 1}

// tsGen builds tracks and samples; p decides structure, v deviations.
type tsGen struct {
	clock int64
	n     int
}

func (g *tsGen) sample(t *tsTrack, trk int, v func(n int) int) *tsSample {
	g.n++
	g.clock += []int64{3000, 0, 1, 90000, 1 << 30}[v(5)]
	size := []int{40, 1, 2, 150, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 184, 345, 500, 2000}[v(28)]
	fl := v(4)
	nu := 1
	if tsMulti(t.kind) {
		nu = []int{1, 2, 3}[v(3)]
	}
	s := &tsSample{trk: trk, pts: g.clock, dts: g.clock}
	if t.kind == kH264 || t.kind == kH265 {
		s.pts += []int64{0, 3000, 1, 90000, -1, 1 << 20}[v(6)]
	}
	for k := range nu {
		u := tsUnit(t.kind, t.variant, size+k, fl, byte(g.n*8+k))
		s.units = append(s.units, u)
	}
	if (t.kind == kH264 || t.kind == kH265) && v(2) == 1 { // the AUD is already there
		aud := map[int][]byte{kH264: {9, 0x10}, kH265: {70, 1, 0x50}}[t.kind]
		s.units = append([][]byte{aud}, s.units...)
	}
	return s
}

func tsTracks(kinds []int, v func(n int) int) []*tsTrack {
	var o []*tsTrack
	for i, k := range kinds {
		t := &tsTrack{kind: k, variant: v(4)}
		switch v(3) {
		case 1:
			t.pid = uint16(0x20 + 100*i)
		case 2:
			t.pid = uint16(0x1FFE - i)
		}
		if v(2) == 1 {
			t.lang = []string{"eng", "ita", "deu"}[i%3]
		}
		o = append(o, t)
	}
	return o
}

// tsComplete appends a sample to every track whose parameters come from its samples and that has none.
func (g *tsGen) complete(trks []*tsTrack, ss []*tsSample) []*tsSample {
	zero := func(int) int { return 0 }
	for i, t := range trks {
		if !tsNeedsData(t.kind) {
			continue
		}
		has := false
		for _, s := range ss {
			has = has || s.trk == i
		}
		if !has {
			ss = append(ss, g.sample(t, i, zero))
		}
	}
	return ss
}

// tsDescriptors returns the descriptors that have to be in the PMT for a track (component types of AC-3 set to zero).
func tsDescriptors(t *tsTrack) []string {
	var out []string
	add := func(tag byte, b ...byte) { out = append(out, string(append([]byte{tag, byte(len(b))}, b...))) }
	switch t.kind {
	case kOpus: // "Opus", opus_audio_descriptor
		add(0x05, 'O', 'p', 'u', 's')
		switch t.variant % 4 {
		case 0:
			add(0x7F, 0x80, 2)
		case 1:
			add(0x7F, 0x80, 8)
		case 2:
			// family 255; 3 channels: stream_count_minus_one on 2 bits, coupled_stream_count on 2 bits, mappings on 2 bits
			b := (&bitw{}).u(0x80, 8).u(0x81, 8).u(3, 8).u(255, 8).u(1, 2).u(1, 2).u(0, 2).u(2, 2).u(1, 2)
			for len(b.b)%8 != 0 {
				b.u(0, 1)
			}
			add(0x7F, b.out()...)
		default:
			add(0x7F, 0x80, 0x80)
		}
	case kAC3:
		add(0x6A, 0xCF, 0, 8)
	case kEAC3:
		add(0x7A, 0xC0, 0, 16)
	case kKLVS: // metadata_descriptor, metadata_STD_descriptor
		add(0x26, 0x01, 0x00, 0xFF, 'K', 'L', 'V', 'A', 0, 0x0F)
		add(0x27, 0xC0, 0, 0, 0xC0, 0, 0, 0xC0, 0, 0)
	case kKLVA:
		add(0x05, 'K', 'L', 'V', 'A')
	case kDVB: // subtitling_descriptor
		b := []byte{'i', 't', 'a', 0x10, 0, 1, 0, 2}
		if t.variant%2 == 1 {
			b = append(b, 'e', 'n', 'g', 0x24, 0xFF, 0xFF, 0x80, 0x01)
		}
		add(0x59, b...)
	}
	if t.lang != "" {
		add(0x0A, t.lang[0], t.lang[1], t.lang[2], 0)
	}
	return out
}

// tsDecode33 checks one stream on the wire, packet by packet.
func tsCheckWire(w *kit.W, trks []*tsTrack, ss []*tsSample, out []byte, starts []int, tableOps map[int]bool) []*tsPkt {
	ps, err := tsParse(out)
	w.Check(err == nil, "ts-packets", "%v", err)
	cc := map[uint16]int{}
	byPID := map[uint16]*tsTrack{}
	for _, t := range trks {
		byPID[t.wantPID] = t
	}
	var pmtSec []byte
	var pcrPID uint16
	var lastPCR int64
	hasPCR := false
	sinceTables, sincePCR := 0, 0
	var leading *tsTrack
	if len(ss) > 0 {
		leading = trks[ss[0].trk]
	}
	for i, p := range ps {
		want, seen := cc[p.pid]
		if seen {
			if p.hasPL {
				want = (want + 1) & 15
			}
			w.Check(int(p.cc) == want, "ts-cc", "packet %d PID %d: continuity counter %d, want %d", i, p.pid, p.cc, want)
		}
		cc[p.pid] = int(p.cc)
	}
	tables := func(i int) int {
		w.Check(i+1 < len(ps) && ps[i].pid == 0 && ps[i+1].pid == 0x1000, "ts-tables", "packet %d: PAT without a PMT after it", i)
		for j, want := range []byte{0, 2} {
			p := ps[i+j]
			w.Check(p.pusi && p.hasPL && !p.hasPCR, "ts-table-packet", "packet %d", i+j)
			sec, serr := tsSection(p.payload, want)
			w.Check(serr == nil, "ts-table", "packet %d: %v", i+j, serr)
			w.Check(sec[5]&0xC1 == 0xC1 && sec[6] == 0 && sec[7] == 0, "ts-table-head", "packet %d: %x", i+j, sec[:8])
			if j == 0 {
				w.Check(len(sec) == 12 && sec[8] == 0 && sec[9] == 1 && sec[10] == 0xF0 && sec[11] == 0, "ts-pat", "%x", sec)
				continue
			}
			w.Check(sec[3] == 0 && sec[4] == 1, "ts-pmt-program", "%x", sec[3:5])
			if pmtSec != nil && sec[5] == pmtSec[5] {
				w.Check(bytes.Equal(sec, pmtSec), "ts-pmt-version", "PMT changed without a new version: %x -> %x", pmtSec, sec)
			}
			pmtSec = sec
			pcrPID = uint16(sec[8]&0x1F)<<8 | uint16(sec[9])
			w.Check(byPID[pcrPID] != nil, "ts-pcr-pid", "PCR PID %d is not a track", pcrPID)
			pos := 12 + (int(sec[10]&15)<<8 | int(sec[11]))
			for k, t := range trks {
				w.Check(pos+5 <= len(sec), "ts-pmt-short", "%x", sec)
				w.Check(sec[pos] == tsStreamTypes[t.kind], "ts-stream-type", "track %d (%s): %x", k, tsNames[t.kind], sec[pos])
				pid := uint16(sec[pos+1]&0x1F)<<8 | uint16(sec[pos+2])
				w.Check(pid == t.wantPID, "ts-pmt-pid", "track %d: %d, want %d", k, pid, t.wantPID)
				n := int(sec[pos+3]&15)<<8 | int(sec[pos+4])
				pos += 5
				end := pos + n
				lang := ""
				var descs []string
				for pos < end {
					w.Check(pos+2 <= end && pos+2+int(sec[pos+1]) <= end, "ts-descriptors", "track %d: %x", k, sec)
					if sec[pos] == 0x0A && sec[pos+1] >= 4 {
						lang = string(sec[pos+2 : pos+5])
					}
					d := clone(sec[pos : pos+2+int(sec[pos+1])])
					if (d[0] == 0x6A || d[0] == 0x7A) && len(d) >= 4 {
						d[3] = 0 // component type, see the exploration "components"
					}
					descs = append(descs, string(d))
					pos += len(d)
				}
				w.Check(lang == t.lang, "ts-pmt-language", "track %d: %q, want %q", k, lang, t.lang)
				want := tsDescriptors(t)
				sort.Strings(descs)
				sort.Strings(want)
				w.Check(slices.Equal(descs, want), "ts-pmt-descriptors", "track %d (%s, variant %d): %x, want %x", k, tsNames[t.kind], t.variant, descs, want)
			}
			w.Check(pos == len(sec), "ts-pmt-length", "%d bytes left", len(sec)-pos)
		}
		sinceTables = 0
		return i + 2
	}
	i := 0
	for si, s := range ss {
		t := trks[s.trk]
		w.Check(starts[si] == i*188, "ts-sample-start", "sample %d starts at %d, packet %d", si, starts[si], i)
		isRA := true
		switch t.kind {
		case kH264:
			isRA = false
			for _, u := range s.units {
				isRA = isRA || u[0]&31 == 5
			}
		case kH265:
			isRA = false
			for _, u := range s.units {
				ty := u[0] >> 1 & 63
				isRA = isRA || ty >= 19 && ty <= 21
			}
		case kM4V:
			isRA = bytes.Contains(s.units[0], []byte{0, 0, 1, 0xB3})
		case kM1V:
			isRA = bytes.Contains(s.units[0], []byte{0, 0, 1, 0xB8})
		}
		had := false
		for i < len(ps) && ps[i].pid == 0 {
			i = tables(i)
			had = true
		}
		if si == 0 || t == leading && isRA || tableOps[si] {
			w.Check(had, "ts-tables-missing", "no tables before sample %d", si)
		}
		sinceTables++
		w.Check(sinceTables <= 40, "ts-tables-late", "no tables for %d samples", sinceTables)
		w.Check(pcrPID == leading.wantPID, "ts-pcr-leading", "PCR PID %d, the leading track is %d", pcrPID, leading.wantPID)
		var pes []byte
		first := i
		for i < len(ps) && (i == first || !ps[i].pusi) && ps[i].pid == t.wantPID {
			p := ps[i]
			p.sample = si
			w.Check(p.hasPL, "ts-no-payload", "packet %d", i)
			pes = append(pes, p.payload...)
			if i > first {
				w.Check(!p.hasPCR && !p.rai, "ts-af-flags", "packet %d is not the first of its sample", i)
			}
			i++
		}
		w.Check(i > first && ps[first].pusi, "ts-unit-start", "sample %d: no payload start", si)
		ps[first].pesStart = true
		ps[i-1].last = true
		end := len(out)
		if si+1 < len(starts) {
			end = starts[si+1]
		}
		w.Check(i*188 == end, "ts-sample-end", "sample %d ends at %d, want %d", si, i*188, end)
		w.Check(ps[first].rai == isRA, "ts-rai", "sample %d (%s): random access indicator %v", si, tsNames[t.kind], ps[first].rai)
		// PES packet
		w.Check(len(pes) >= 9 && bytes.Equal(pes[:3], []byte{0, 0, 1}) && pes[3] == tsStreamID(t.kind), "ts-pes", "sample %d: %x", si, pes[:min(len(pes), 9)])
		le := int(pes[4])<<8 | int(pes[5])
		switch {
		case le == 0:
			w.Check(tsVideo(t.kind) || len(pes)-6 > 0xFFFF, "ts-pes-length", "sample %d: unbounded PES packet", si)
		default:
			w.Check(le == len(pes)-6, "ts-pes-length", "sample %d: PES length %d, carries %d", si, le, len(pes)-6)
		}
		w.Check(pes[6] == 0x80, "ts-pes-flags", "%x", pes[6])
		hl := int(pes[8])
		h := pes[9:]
		w.Check(len(h) >= hl, "ts-pes-header", "header length %d", hl)
		dts := s.dts
		switch pes[7] {
		case 0x00:
			w.Check(t.kind == kKLVA && hl == 0, "ts-pes-pts", "sample %d has no PTS", si)
			dts = 0
		case 0x80:
			w.Check(hl == 5, "ts-pes-header", "header length %d", hl)
			v, e := parse33(h, 2)
			w.Check(e == nil && v == s.pts&(ts33-1), "ts-pts", "sample %d: PTS %d %v, want %d", si, v, e, s.pts&(ts33-1))
			w.Check(s.pts == s.dts, "ts-dts-missing", "sample %d", si)
		case 0xC0:
			w.Check(hl == 10, "ts-pes-header", "header length %d", hl)
			v, e := parse33(h, 3)
			w.Check(e == nil && v == s.pts&(ts33-1), "ts-pts", "sample %d: PTS %d %v, want %d", si, v, e, s.pts&(ts33-1))
			v, e = parse33(h[5:], 1)
			w.Check(e == nil && v == s.dts&(ts33-1), "ts-dts", "sample %d: DTS %d %v, want %d", si, v, e, s.dts&(ts33-1))
		default:
			w.Fail("ts-pes-flags", "sample %d: %x", si, pes[7])
		}
		want := tsPayload(t, s)
		w.Check(bytes.Equal(h[hl:], want), "ts-payload", "sample %d (%s): %s, want %s", si, tsNames[t.kind], hx(h[hl:]), hx(want))
		// clock
		if t == leading {
			sincePCR++
			if ps[first].hasPCR {
				pcr := ps[first].pcr
				if t.kind != kKLVA {
					w.Check((dts-pcr)&(ts33-1) < 1<<32, "ts-pcr-late", "sample %d: PCR %d after DTS %d", si, pcr, dts)
				}
				if hasPCR {
					w.Check((pcr-lastPCR)&(ts33-1) < 1<<32, "ts-pcr-back", "sample %d: PCR goes from %d to %d", si, lastPCR, pcr)
				}
				lastPCR, hasPCR, sincePCR = pcr, true, 0
			}
			w.Check(hasPCR && sincePCR < 4, "ts-pcr-missing", "sample %d: no PCR for %d samples of the leading track", si, sincePCR)
		} else {
			w.Check(!ps[first].hasPCR, "ts-pcr-foreign", "sample %d has a PCR and is not on the leading track", si)
		}
	}
	w.Check(i == len(ps) || ps[i].pid == 0, "ts-trailing", "%d packets after the last sample", len(ps)-i)
	for i < len(ps) {
		i = tables(i)
	}
	w.Ops(int64(len(ps)))
	return ps
}

// tsScenario returns a fixed stream for the delivery and damage checks.
func tsScenario(w *kit.W, n int) ([]*tsTrack, []*tsSample) {
	sc := tsScenarios[n]
	zero := func(int) int { return 0 }
	trks := tsTracks(sc.kinds, zero)
	g := &tsGen{clock: sc.base}
	var ss []*tsSample
	for _, x := range sc.samples {
		trk, size, fl := x[0], x[1], x[2]
		t := trks[trk]
		g.n++
		g.clock += 3000
		s := &tsSample{trk: trk, pts: g.clock, dts: g.clock, units: [][]byte{tsUnit(t.kind, 0, size, fl, byte(g.n))}}
		if t.kind == kH264 && fl == 1 {
			s.pts += 6000
		}
		ss = append(ss, s)
	}
	return trks, ss
}

type tsScen struct {
	kinds   []int
	base    int64
	samples [][3]int // track, size, flavour
}

var tsScenarios = []tsScen{
	{[]int{kH264, kAAC, kKLVA}, 90000, [][3]int{{0, 300, 0}, {1, 30, 0}, {2, 50, 0}, {0, 100, 1}, {1, 400, 0}, {0, 168, 1}, {2, 300, 0}, {1, 20, 0}, {0, 20, 0}, {1, 21, 0}, {0, 500, 1}}},
	{[]int{kM1V, kAC3}, ts33 - 9000, [][3]int{{0, 700, 2}, {1, 0, 0}, {0, 500, 3}, {0, 30, 2}, {1, 1, 0}, {0, 900, 2}, {1, 2, 0}}},
	{[]int{kOpus, kKLVS, kDVB}, 5000, [][3]int{{1, 200, 0}, {0, 10, 0}, {2, 30, 0}, {0, 700, 0}, {1, 30, 0}, {2, 400, 0}, {0, 180, 0}, {0, 20, 0}}},
	{[]int{kH265, kLATM, kMPA, kEAC3}, 90000, [][3]int{{0, 200, 0}, {1, 30, 0}, {2, 0, 0}, {3, 300, 0}, {0, 400, 1}, {2, 1, 0}, {1, 250, 0}, {3, 20, 0}, {0, 17, 1}, {0, 10, 0}}},
	{[]int{kM4V}, 90000, [][3]int{{0, 161, 0}, {0, 162, 1}, {0, 1500, 3}, {0, 345, 2}, {0, 10, 1}, {0, 4000, 3}, {0, 20, 0}}},
}

func init() {
	kit.Register(&kit.Check{
		ID: "T01",
		Assumptions: []string{
			"units are not empty, NAL units contain no start code, codec frames are well-formed, access unit delimiters in front are dropped by the reader",
			"tracks whose parameters are in the samples (MPEG-4 Audio, AC-3, E-AC-3) have at least one sample; PIDs are distinct and not those of the tables; languages have three letters; the program map fits one packet",
			"an asynchronous KLV unit has no timestamp: the reader gives it that of the last timestamped sample before it and drops it if there is none",
			"units of at most 200 kB (the dependency's reassembly is quadratic)",
		},
		Run: func(c *kit.Ctx) {
			zero := func(int) int { return 0 }
			maxSize := uint64(kit.T(c, 600, 1500))
			c.Range("sizes", kCount*4*maxSize, fmt.Sprintf("every kind of track, every unit size from 1 to %d, each flavour of content, PTS equal to DTS or not; 2 samples", maxSize), func(w *kit.W) {
				x := w.Index
				kind := int(x % kCount)
				x /= kCount
				fl := int(x % 4)
				size := int(x/4) + 1
				trks := tsTracks([]int{kind}, zero)
				ss := []*tsSample{
					{pts: 90000, dts: 90000, units: [][]byte{tsUnit(kind, 0, size, fl, 1)}},
					{pts: 93000, dts: 93000, units: [][]byte{tsUnit(kind, 0, size, fl+1, 2)}},
				}
				if kind <= kH265 && fl >= 2 {
					ss[0].pts += 9000
					ss[1].pts += 3000
				}
				out, _ := tsWrite(w, trks, ss)
				tsCheckAll(w, trks, ss, tsRead(bytes.NewReader(out), 10000))
			})
			big := []int{8183, 8184, 16383, 30000, 65000, 65502, 65503, 65504, 65505, 65506, 65507, 65508, 65509, 65510, 65511, 65512, 65513, 65514, 65515, 65516, 65517, 65518, 65519, 65520, 65521, 65522, 65523, 65524, 65525, 65526, 65527, 65528, 65529, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 65537, 65540, 70000, 131069, 131070, 131071, 200000}
			c.Range("large", uint64(kCount*len(big)*2), "every kind of track, units of 8 kB to 200 kB around the 16-bit PES length and metadata cell limits; followed by a sample of one or two packets", func(w *kit.W) {
				kind := int(w.Index % kCount)
				size := big[w.Index/kCount/2]
				second := []int{50, 200}[w.Index/kCount%2]
				switch kind {
				case kAAC:
					size = min(size, 5120)
				case kLATM:
					size = min(size, 8184)
				}
				if kind == kMPA || kind == kAC3 || kind == kEAC3 {
					return
				}
				trks := tsTracks([]int{kind, kM1V}, zero)
				ss := []*tsSample{
					{trk: 1, pts: 1000, dts: 1000, units: [][]byte{tsUnit(kM1V, 0, 30, 0, 9)}},
					{pts: 90000, dts: 90000, units: [][]byte{tsUnit(kind, 0, size, 0, 1)}},
					{pts: 93000, dts: 93000, units: [][]byte{tsUnit(kind, 0, second, 1, 2)}},
				}
				if kind == kKLVA && size > 65535-3 {
					ss = ss[:2] // the end of an unbounded packet is known late, when the clock may have moved
				}
				out, _ := tsWrite(w, trks, ss)
				res := tsRead(bytes.NewReader(out), 10000)
				if got := res.got[256]; !tsVideo(kind) && second == 50 && len(tsPayload(trks[0], ss[1])) > 65535-8 && len(ss) == 3 && len(got) == 1 {
					w.Check(!tsGotEq(got[0], tsExpect(trks, ss)[0][1]), "unbounded-then-short", "%s sample of %d bytes (PES length 0) lost when followed by one of %d bytes on its track", tsNames[kind], size, second)
				}
				tsCheckAll(w, trks, ss, res)
			})
			counts := []int{2, 3, 7, 8, 15, 16, 17, 21, 31, 32, 33, 45, 46, 47, 48, 49, 50, 63, 64, 65, 66, 90, 91, 127, 128, 129, 200, 255, 256, 257, 600, 655, 656, 657, 700, 1000, 1023, 1024, 1025, 2000}
			usizes := []int{1, 20, 99, 100, 254, 255, 256, 1000, 1440, 4000}
			c.Range("many-units", uint64(kCount*len(counts)*len(usizes)), "every kind of track that takes several units at once: 2 to 2000 units of 10 sizes in one sample (up to 400 kB), twice", func(w *kit.W) {
				kind := int(w.Index % kCount)
				n, size := counts[w.Index/kCount%uint64(len(counts))], usizes[w.Index/kCount/uint64(len(counts))]
				if !tsMulti(kind) || n*size > 400000 || kind == kH264 && n > 49 || kind == kH265 && n > 20 {
					return
				}
				trks := tsTracks([]int{kM1V, kind}, zero)
				ss := []*tsSample{{pts: 1000, dts: 1000, units: [][]byte{tsUnit(kM1V, 0, 30, 0, 9)}}}
				for k := range 2 {
					s := &tsSample{trk: 1, pts: 90000 + int64(k)*3600000, dts: 90000 + int64(k)*3600000}
					for i := range n {
						s.units = append(s.units, tsUnit(kind, 0, size, 0, byte(i+k)))
					}
					ss = append(ss, s)
				}
				out, _ := tsWrite(w, trks, ss)
				tsCheckAll(w, trks, ss, tsRead(bytes.NewReader(out), 100000))
			})
			run := func(w *kit.W, kinds []int, nsamp int) {
				trks := tsTracks(kinds, w.Dev)
				g := &tsGen{clock: tsBases[w.Dev(len(tsBases))]}
				var ss []*tsSample
				for range nsamp {
					trk := w.Pick(len(kinds))
					ss = append(ss, g.sample(trks[trk], trk, w.Dev))
				}
				ss = g.complete(trks, ss)
				out, _ := tsWrite(w, trks, ss)
				w.Trace("tracks %v samples %v", kinds, ss)
				src := &byteSource{b: out}
				if w.Dev(2) == 1 {
					src.with = true
				}
				tsCheckAll(w, trks, ss, tsRead(src, 10000))
			}
			c.Explore("one-track", kit.Opt{MaxDev: kit.T(c, 2, 3), Bound: "one track of every kind, 3 samples, deviations in variant, PID, language, start time (including around the 33-bit wrap), time steps, PTS offset, unit size (28 values), unit count, flavour, AUD"}, func(w *kit.W) {
				run(w, []int{w.Pick(kCount)}, 3)
			})
			c.Explore("two-tracks", kit.Opt{MaxDev: kit.T(c, 1, 2), Bound: "every ordered pair of kinds, every interleaving of 4 samples, deviations as above"}, func(w *kit.W) {
				run(w, []int{w.Pick(kCount), w.Pick(kCount)}, 4)
			})
			c.Explore("three-tracks", kit.Opt{MaxDev: kit.T(c, 0, 1), Bound: "every ordered triple of kinds, every interleaving of 3 samples"}, func(w *kit.W) {
				run(w, []int{w.Pick(kCount), w.Pick(kCount), w.Pick(kCount)}, 3)
			})
			c.Explore("long", kit.Opt{MaxDev: 2, Bound: "100 samples on two tracks: continuity counter, table repetition and clock wrap many times"}, func(w *kit.W) {
				kinds := []int{w.Pick(kCount), w.Pick(kCount)}
				trks := tsTracks(kinds, zero)
				g := &tsGen{clock: ts33 - 150000}
				var ss []*tsSample
				period := w.Pick(4) + 2
				for i := range 100 {
					trk := 0
					if i%period == 0 {
						trk = 1
					}
					g.n++
					g.clock += 3000
					ss = append(ss, &tsSample{trk: trk, pts: g.clock, dts: g.clock, units: [][]byte{tsUnit(kinds[trk], 0, 50+i*7%300, i%3, byte(i))}})
				}
				out, _ := tsWrite(w, trks, ss)
				tsCheckAll(w, trks, ss, tsRead(bytes.NewReader(out), 10000))
			})
		},
	})

	kit.Register(&kit.Check{
		ID: "T02",
		Assumptions: []string{
			"as T01; decoding times do not decrease on the leading track; the leading track is the one of the first sample",
			"clock references of an asynchronous KLV leading track are compared with nothing (its samples have no time)",
		},
		Run: func(c *kit.Ctx) {
			zero := func(int) int { return 0 }
			run := func(w *kit.W, kinds []int, nsamp int) {
				trks := tsTracks(kinds, w.Dev)
				g := &tsGen{clock: tsBases[w.Dev(len(tsBases))]}
				var buf bytes.Buffer
				mw := &mpegts.Writer{W: &buf, Tracks: tsMake(trks)}
				err := mw.Initialize()
				w.Check(err == nil, "ts-init", "%v", err)
				var ss []*tsSample
				var starts []int
				ops := map[int]bool{}
				for i := range nsamp {
					starts = append(starts, buf.Len())
					if w.Dev(2) == 1 {
						n0 := buf.Len()
						n, terr := mw.WriteTables()
						w.Check(terr == nil && n == buf.Len()-n0 && n == 376, "ts-write-tables", "%d %v", n, terr)
						ops[i] = true
					}
					trk := w.Pick(len(kinds))
					s := g.sample(trks[trk], trk, w.Dev)
					err = tsWriteOne(mw, trks[trk], s)
					w.Check(err == nil, "ts-write", "%v", err)
					ss = append(ss, s)
				}
				w.Trace("tracks %v", kinds)
				tsCheckWire(w, trks, ss, buf.Bytes(), starts, ops)
				w.Step(kit.H(buf.Len(), len(ss)))
			}
			c.Explore("one-track", kit.Opt{MaxDev: kit.T(c, 2, 3), Bound: "one track of every kind, 3 samples and explicit tables, deviations in variant, PID, language, start time, time steps, PTS offset, unit size, unit count, flavour"}, func(w *kit.W) {
				run(w, []int{w.Pick(kCount)}, 3)
			})
			c.Explore("two-tracks", kit.Opt{MaxDev: kit.T(c, 1, 2), Bound: "every ordered pair of kinds, every interleaving of 4 samples and explicit tables"}, func(w *kit.W) {
				run(w, []int{w.Pick(kCount), w.Pick(kCount)}, 4)
			})
			maxSize := uint64(kit.T(c, 600, 1500))
			c.Range("sizes", kCount*4*maxSize, "every kind, every unit size, each flavour", func(w *kit.W) {
				x := w.Index
				kind := int(x % kCount)
				x /= kCount
				fl := int(x % 4)
				size := int(x/4) + 1
				trks := tsTracks([]int{kind}, zero)
				var ss []*tsSample
				for i := range 2 {
					s := &tsSample{pts: 90000, dts: 90000, units: [][]byte{tsUnit(kind, 0, size, fl+i, 1)}}
					if kind <= kH265 && fl >= 2 {
						s.pts += 1
					}
					ss = append(ss, s)
				}
				out, starts := tsWrite(w, trks, ss)
				tsCheckWire(w, trks, ss, out, starts, nil)
			})
			spos := []int{0, 1, 2, 3, 4, 5, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 160, 184, 188, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1500, 2047, 2048, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 8191, 8192, 10000, 16384, 32768, 65532, 65533, 65534, 65535, 65536, 70000, 100000}
			send := []int{0, 1, 2, 3, 10, 1000, 5000, 70000}
			c.Range("sync-points", uint64(2*len(spos)*len(send)*4), "MPEG-4 and MPEG-1 video: the start code that marks a random access point, or another one, at each of 50 positions up to 100 kB of the second frame, at each of 8 distances from its end up to 70 kB", func(w *kit.W) {
				x := w.Index
				kind := []int{kM4V, kM1V}[x%2]
				x /= 2
				code := map[int][]byte{kM4V: {0xB3, 0xB3, 0xB8, 0xB2}, kM1V: {0xB8, 0xB8, 0xB3, 0xB9}}[kind][x%4]
				first := x%4 == 1
				x /= 4
				pos, end := spos[x%uint64(len(spos))], send[x/uint64(len(spos))]
				u := nz(pos+4+end, 3)
				for i := range u {
					if u[i] == 0xB3 || u[i] == 0xB8 {
						u[i] = 0x57
					}
				}
				copy(u[pos:], []byte{0, 0, 1, code})
				if first && pos >= 5 { // behind another start code
					copy(u, []byte{0, 0, 1, 0xB5, 0x77})
				}
				trks := tsTracks([]int{kind}, zero)
				ss := []*tsSample{
					{pts: 90000, dts: 90000, units: [][]byte{tsUnit(kind, 0, 30, 0, 1)}},
					{pts: 93000, dts: 93000, units: [][]byte{u}},
				}
				out, starts := tsWrite(w, trks, ss)
				tsCheckWire(w, trks, ss, out, starts, nil)
			})
			c.Range("sync-units", 2*50*50*2, "H.264 and H.265: the only random access unit at each position of access units of 1 to 50 units of 2 or 300 bytes", func(w *kit.W) {
				x := w.Index
				kind := []int{kH264, kH265}[x%2]
				n, pos, size := int(x/2%50)+1, int(x/100%50), []int{2, 300}[x/5000]
				if kind == kH265 && n > 21 {
					return
				}
				var us [][]byte
				for i := range n {
					fl := 1
					if i == pos {
						fl = 0
					}
					us = append(us, tsUnit(kind, 0, size, fl, byte(i)))
				}
				trks := tsTracks([]int{kind}, zero)
				ss := []*tsSample{
					{pts: 90000, dts: 90000, units: [][]byte{tsUnit(kind, 0, 30, 0, 1)}},
					{pts: 93000, dts: 93000, units: us},
				}
				out, starts := tsWrite(w, trks, ss)
				tsCheckWire(w, trks, ss, out, starts, nil)
			})
			c.Explore("long", kit.Opt{Bound: "130 samples on two tracks of every pair of kinds, the second one every 1, 2, 3, 50 samples or never"}, func(w *kit.W) {
				kinds := []int{w.Pick(kCount), w.Pick(kCount)}
				trks := tsTracks(kinds, zero)
				clock := ts33 - 150000
				var ss []*tsSample
				period := kit.Of(w, 1, 2, 3, 50, 1000)
				fl := w.Pick(2)
				for i := range 130 {
					trk := 0
					if i%period == period-1 {
						trk = 1
					}
					clock += 3000
					f := 1 // not randomly accessible
					if i == 0 || fl == 0 && i%7 == 0 {
						f = 0
					}
					ss = append(ss, &tsSample{trk: trk, pts: clock, dts: clock, units: [][]byte{tsUnit(kinds[trk], 0, 50+i*7%300, f, byte(i))}})
				}
				out, starts := tsWrite(w, trks, ss)
				tsCheckWire(w, trks, ss, out, starts, nil)
			})
			c.Explore("shared-tracks", kit.Opt{Bound: "two writers with the same two tracks of every ordered pair of kinds, every interleaving of one sample of the first and five of the second writer on either track, the second writer made before or after the first one is used"}, func(w *kit.W) {
				kinds := []int{w.Pick(kCount), w.Pick(kCount)}
				trks := tsTracks(kinds, zero)
				made := tsMake(trks)
				var bufs [2]bytes.Buffer
				var ws [2]*mpegts.Writer
				var ss [2][]*tsSample
				var starts [2][]int
				make := func(k int) {
					if ws[k] == nil {
						ws[k] = &mpegts.Writer{W: &bufs[k], Tracks: made}
						err := ws[k].Initialize()
						w.Check(err == nil, "ts-init", "%v", err)
					}
				}
				if w.Bool() {
					make(0)
					make(1)
				}
				left := [2]int{1, 5}
				for left[0]+left[1] > 0 {
					k := 0
					if left[0] == 0 || left[1] > 0 && w.Bool() {
						k = 1
					}
					left[k]--
					make(k)
					n := len(ss[k])
					s := &tsSample{trk: w.Pick(2), pts: 90000 + int64(n)*3000, dts: 90000 + int64(n)*3000}
					s.units = [][]byte{tsUnit(kinds[s.trk], 0, 40+n, n&1, byte(n*8+k))}
					starts[k] = append(starts[k], bufs[k].Len())
					err := tsWriteOne(ws[k], trks[s.trk], s)
					w.Check(err == nil, "ts-write", "%v", err)
					ss[k] = append(ss[k], s)
				}
				for k := range 2 {
					tsCheckWire(w, trks, ss[k], bufs[k].Bytes(), starts[k], nil)
				}
				w.Step(kit.H(bufs[0].Len(), bufs[1].Len(), kinds))
			})
			c.Explore("components", kit.Opt{Bound: "AC-3 and E-AC-3 tracks of 1 to 8 channels: the component type of their descriptor (ETSI EN 300 468, table D.1) names the number of channels"}, func(w *kit.W) {
				n := w.Pick(8) + 1
				e := w.Pick(2)
				t := &mpegts.Track{Codec: &codecs.AC3{SampleRate: 48000, ChannelCount: n}}
				if e == 1 {
					t.Codec = &codecs.EAC3{SampleRate: 48000, ChannelCount: n}
				}
				var buf bytes.Buffer
				mw := &mpegts.Writer{W: &buf, Tracks: []*mpegts.Track{t}}
				err := mw.Initialize()
				w.Check(err == nil, "ts-init", "%v", err)
				_, err = mw.WriteTables()
				w.Check(err == nil, "ts-write-tables", "%v", err)
				tag := []byte{0x6A, 0x7A}[e]
				d := bytes.Index(buf.Bytes(), []byte{tag, 3})
				w.Check(d >= 0, "ts-pmt-descriptors", "no descriptor")
				got := buf.Bytes()[d+3]
				w.Step(kit.H(got, n, e))
				// enhanced_ac-3 flag, full_service_flag, service type 0, number of channels
				ok := got&0xF8 == []byte{0x40, 0xC0}[e]
				switch k := got & 7; {
				case n == 1:
					ok = ok && k == 0
				case n == 2:
					ok = ok && k >= 1 && k <= 3
				case n <= 6:
					ok = ok && k == 4
				default:
					ok = ok && (k == 4 || k == 5)
				}
				w.Check(ok, fmt.Sprintf("component-type-%02x-%dch-%02x", tag, n, got), "descriptor 0x%02x, %d channels: component type 0x%02x", tag, n, got)
			})
			c.Explore("many-tracks", kit.Opt{Bound: "1 to 60 tracks of every kind: either the tables fit one packet and everything is written, or the first write fails"}, func(w *kit.W) {
				kind := w.Pick(kCount)
				n := w.Pick(60) + 1
				kinds := make([]int, n)
				for i := range kinds {
					kinds[i] = kind
				}
				trks := tsTracks(kinds, zero)
				var buf bytes.Buffer
				mw := &mpegts.Writer{W: &buf, Tracks: tsMake(trks)}
				err := mw.Initialize()
				w.Check(err == nil, "ts-init", "%v", err)
				s := &tsSample{trk: n - 1, pts: 90000, dts: 90000, units: [][]byte{tsUnit(kind, 0, 30, 0, 1)}}
				err = tsWriteOne(mw, trks[n-1], s)
				if err != nil {
					w.Check(n > 4, "ts-many", "%d tracks of kind %s: %v", n, tsNames[kind], err)
					return
				}
				tsCheckWire(w, trks, []*tsSample{s}, buf.Bytes(), []int{0}, nil)
			})
			for n := range tsScenarios {
				// number of writes of the scenario
				var total uint64
				c.Range(fmt.Sprintf("count-%d", n), 1, "number of write calls of the scenario", func(w *kit.W) {
					total = uint64(tsFaultWrite(w, n, -1, true))
				})
				c.Range(fmt.Sprintf("write-failure-%d", n), 2*total, "every write call of the output fails, once or from then on: the call during which it happens reports it", func(w *kit.W) {
					tsFaultWrite(w, n, int(w.Index/2), w.Index%2 == 0)
				})
			}
		},
	})

	kit.Register(&kit.Check{
		ID: "T03",
		Assumptions: []string{
			"a source that failed keeps failing, or fails once (seen by the reader unless it came together with data while the tables were searched); io.ErrUnexpectedEOF from the source counts as the end of the stream",
			"a sample is complete when its last packet arrived and its end is known from its PES length or from the start of the next sample of its track; at the end of the stream every sample is complete",
		},
		Run: func(c *kit.Ctx) {
			type pre struct {
				trks []*tsTrack
				ss   []*tsSample
				out  []byte
				ps   []*tsPkt
			}
			pres := make([]pre, len(tsScenarios))
			c.Range("streams", uint64(len(tsScenarios)), "the streams themselves are read back", func(w *kit.W) {
				n := int(w.Index)
				trks, ss := tsScenario(w, n)
				out, starts := tsWrite(w, trks, ss)
				ps := tsCheckWire(w, trks, ss, out, starts, nil)
				tsCheckAll(w, trks, ss, tsRead(bytes.NewReader(out), 10000))
				pres[n] = pre{trks, ss, out, ps}
			})
			chunks := []int{}
			for i := 1; i <= kit.T(c, 400, 1400); i++ {
				chunks = append(chunks, i)
			}
			chunks = append(chunks, 1315, 1316, 1317, 1880, 4096)
			c.Range("chunks", uint64(len(pres)*len(chunks)*2), "every constant read size, end of file with or after the last bytes", func(w *kit.W) {
				x := int(w.Index)
				p := pres[x%len(pres)]
				x /= len(pres)
				src := &byteSource{b: p.out, chunk: chunks[x/2], with: x%2 == 1}
				tsCheckAll(w, p.trks, p.ss, tsRead(src, 10000))
			})
			c.Explore("short-reads", kit.Opt{MaxDev: kit.T(c, 2, 3), Bound: "any 2 (3) reads of the source are short (1, 2, 187, 188, 189, 940 bytes or none), end of file with or after the last bytes"}, func(w *kit.W) {
				p := pres[w.Pick(len(pres))]
				src := &menuSource{w: w, b: p.out, end: io.EOF, with: w.Bool()}
				tsCheckAll(w, p.trks, p.ss, tsRead(src, 10000))
			})
			c.Range("garbage", uint64(len(pres)*400*3*2), "0 to 399 bytes without a sync byte before the first packet, zeros, ones or a pattern, reads of full size or 100 bytes", func(w *kit.W) {
				x := int(w.Index)
				p := pres[x%len(pres)]
				x /= len(pres)
				fill := x % 3
				x /= 3
				ch := []int{0, 100}[x%2]
				g := pat(x/2, 5)
				for i := range g {
					switch {
					case fill == 0:
						g[i] = 0
					case fill == 1:
						g[i] = 0xFF
					case g[i] == 0x47:
						g[i] = 0x46
					}
				}
				res := tsRead(&byteSource{b: append(g, p.out...), chunk: ch}, 10000)
				w.Check(len(g) == 0 || res.initErr == nil, "ts-garbage", "%d bytes of garbage: %v", len(g), res.initErr)
				res.decErrs = nil
				tsCheckAll(w, p.trks, p.ss, res)
			})
			// garbage after any packet (including the last one), with which the source loses the alignment
			lens := []int{1, 2, 3, 4, 5, 93, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 300, 372, 373, 374, 375, 376, 377, 564, 1315, 1316, 1317}
			var cum []int
			packets := 0
			for _, p := range pres {
				cum = append(cum, packets)
				packets += len(p.out)/188 + 1
			}
			c.Range("garbage-between", uint64(packets*len(lens)*3*2), "27 lengths of garbage without a sync byte before or after every packet of the streams, zeros, ones or a pattern, reads of full size or 100 bytes", func(w *kit.W) {
				x := int(w.Index)
				at := x % packets
				x /= packets
				n := len(pres) - 1
				for cum[n] > at {
					n--
				}
				p := pres[n]
				at = (at - cum[n]) * 188
				fill := x % 3
				x /= 3
				ch := []int{0, 100}[x%2]
				g := pat(lens[x/2], 5)
				for i := range g {
					switch {
					case fill == 0:
						g[i] = 0
					case fill == 1:
						g[i] = 0xFF
					case g[i] == 0x47:
						g[i] = 0x46
					}
				}
				in := append(append(append([]byte{}, p.out[:at]...), g...), p.out[at:]...)
				res := tsRead(&byteSource{b: in, chunk: ch}, 10000)
				w.Check(res.initErr == nil, "ts-garbage", "%d bytes of garbage after %d bytes: %v", len(g), at, res.initErr)
				w.Check(at == len(p.out) || at == 0 || len(res.decErrs) > 0, "ts-garbage-silent", "%d bytes of garbage after %d bytes are skipped without a decode error", len(g), at)
				res.decErrs = nil
				tsCheckAll(w, p.trks, p.ss, res)
			})
			// packets in datagrams: every sequence of datagram sizes up to a bound, through a BufferedReader
			c.Explore("buffered-reader", kit.Opt{MaxDev: kit.T(c, 3, 4), Bound: "BufferedReader: up to 12 packets of 188 bytes in datagrams of 1 to 7 packets, up to 3 (4) of them of another size (possibly not a multiple of 188, or empty), error with or after the last bytes, five read sizes of the consumer"}, func(w *kit.W) {
				total := []int{0, 1, 2, 7, 12}[w.Pick(5)]
				grain := 1 + w.Pick(7)
				with := w.Bool()
				end := []error{io.EOF, errSrc}[w.Pick(2)]
				rd := []int{1, 100, 188, 1316, 4096}[w.Pick(5)]
				b := pat(total*188, 9)
				src := &datagramSource{w: w, b: b, grain: grain * 188, end: end, with: with}
				br := mpegts.NewBufferedReader(src)
				var out []byte
				var err error
				for i := 0; i < 10*(len(b)+10); i++ {
					buf := make([]byte, rd)
					var n int
					n, err = br.Read(buf)
					out = append(out, buf[:n]...)
					if err != nil {
						break
					}
				}
				want := b
				if src.bad >= 0 {
					// a datagram whose size is not a multiple of 188 is refused
					want = b[:src.bad]
					w.Check(err != nil && (err != end || src.badEnd), "ts-buffered-size", "a datagram of a wrong size gives %v", err)
				} else {
					w.Check(err == end, "ts-buffered-error", "the source ends with %v, the reader with %v", end, err)
				}
				w.Check(bytes.Equal(out, want), "ts-buffered-data", "%d bytes of %d are returned", len(out), len(want))
			})
			c.Range("buffered-streams", uint64(len(pres)*7*2), "the streams in datagrams of 1 to 7 packets through a BufferedReader, end of file with or after the last bytes", func(w *kit.W) {
				x := int(w.Index)
				p := pres[x%len(pres)]
				x /= len(pres)
				src := &byteSource{b: p.out, chunk: (1 + x%7) * 188, with: x/7 == 1}
				tsCheckAll(w, p.trks, p.ss, tsRead(mpegts.NewBufferedReader(src), 10000))
			})
			errs := []error{errSrc, fmt.Errorf("wrapped: %w", io.EOF), fmt.Errorf("wrapped: %w", io.ErrUnexpectedEOF), io.ErrNoProgress}
			var offs []uint64
			tot := uint64(0)
			for _, p := range pres {
				offs = append(offs, tot)
				tot += uint64(len(p.out) + 1)
			}
			c.Range("failures", tot*uint64(len(errs))*4, "the source fails after every number of bytes, with 4 errors (plain, wrapping the end of file, ...), with or after the last bytes, once or forever", func(w *kit.W) {
				x := w.Index
				e := errs[x%uint64(len(errs))]
				x /= uint64(len(errs))
				mode := x % 4
				x /= 4
				n := len(pres) - 1
				for offs[n] > x {
					n--
				}
				p := pres[n]
				cut := int(x - offs[n])
				var src io.Reader
				if mode&2 == 0 {
					src = &byteSource{b: p.out[:cut], err: e, with: mode&1 == 1, limit: 5000}
				} else {
					src = &onceSource{b: p.out, at: cut, err: e, with: mode&1 == 1}
				}
				var res *tsResult
				res = tsRead(src, 10000)
				got := res.initErr
				if got == nil {
					got = res.readErr
				}
				// a failure that is not repeated and comes with data while the stream is probed is not seen again
				if o, ok := src.(*onceSource); !ok || !o.doneAtInit || res.initErr != nil {
					w.Check(errors.Is(got, e) || sameText(got, e), "ts-source-error", "stream %d fails after %d bytes with %v: reported %v", n, cut, e, got)
				}
				if res.initErr != nil {
					return
				}
				if o, ok := src.(*onceSource); ok && o.doneAtInit {
					tsCheckAll(w, p.trks, p.ss, res)
					return
				}
				must, may := tsDeliverable(p.trks, p.ss, p.ps, cut/188)
				tsCheckPartial(w, p.trks, res, must, may)
			})
			c.Range("truncation", tot, "the stream ends after every number of bytes: everything complete is delivered", func(w *kit.W) {
				x := w.Index
				n := len(pres) - 1
				for offs[n] > x {
					n--
				}
				p := pres[n]
				cut := int(x - offs[n])
				res := tsRead(&byteSource{b: p.out[:cut], limit: 5000}, 10000)
				if res.initErr != nil {
					w.Check(res.initErr == io.EOF, "ts-truncated", "Initialize on a stream of %d bytes: %v", cut, res.initErr)
					return
				}
				w.Check(res.readErr == io.EOF, "ts-truncated", "Read on a stream of %d bytes: %v", cut, res.readErr)
				must, _ := tsDeliverable(p.trks, p.ss, p.ps, cut/188)
				tsCheckPartial(w, p.trks, res, must, nil)
			})
		},
	})
}

// tsFaultWrite writes a scenario with the k-th write call failing; it returns the number of write calls.
func tsFaultWrite(w *kit.W, n, k int, sticky bool) int {
	trks, ss := tsScenario(w, n)
	fw := &failWriter{at: k, sticky: sticky}
	mw := &mpegts.Writer{W: fw, Tracks: tsMake(trks)}
	err := mw.Initialize()
	if fw.failed {
		w.Check(err != nil, "ts-write-failure", "Initialize swallowed the failure of write %d", k)
		return fw.n
	}
	w.Check(err == nil, "ts-init", "%v", err)
	for i, s := range ss {
		err = tsWriteOne(mw, trks[s.trk], s)
		if fw.failed {
			key := "ts-write-failure"
			if !sticky {
				key = "ts-write-failure-once"
			}
			w.Check(err != nil, key, "write %d failed during sample %d (%s) and nothing was reported", k, i, tsNames[trks[s.trk].kind])
			w.Check(errors.Is(err, errSink), "ts-write-failure-kind", "write %d failed with another error: %v", k, err)
			return fw.n
		}
		w.Check(err == nil, "ts-write", "%v", err)
	}
	return fw.n
}

var errSink = errors.New("sink failure")

type failWriter struct {
	n      int
	at     int
	sticky bool
	failed bool
	bytes  int
}

func (f *failWriter) Write(p []byte) (int, error) {
	i := f.n
	f.n++
	if f.at >= 0 && (i == f.at || f.sticky && i > f.at) {
		f.failed = true
		return 0, errSink
	}
	f.bytes += len(p)
	return len(p), nil
}

func sameText(a, b error) bool { return a != nil && a.Error() == b.Error() }

// menuSource answers reads with a bounded number of deviations.
type menuSource struct {
	w    *kit.W
	b    []byte
	pos  int
	end  error
	with bool
}

func (s *menuSource) Read(p []byte) (int, error) {
	rem := len(s.b) - s.pos
	if rem == 0 {
		return 0, s.end
	}
	n := []int{1 << 20, 1, 2, 187, 188, 189, 940, 0}[s.w.Dev(8)]
	n = min(n, rem, len(p))
	copy(p, s.b[s.pos:s.pos+n])
	for i := n; i < len(p); i++ {
		p[i] = 0x47
	}
	s.pos += n
	if s.pos == len(s.b) && s.with {
		return n, s.end
	}
	return n, nil
}

// datagramSource returns whole datagrams, some of which deviate from the common size.
type datagramSource struct {
	w      *kit.W
	b      []byte
	pos    int
	grain  int
	end    error
	with   bool
	bad    int // position of the first datagram whose size is not a multiple of 188
	badEnd bool
	inited bool
}

func (s *datagramSource) Read(p []byte) (int, error) {
	if !s.inited {
		s.inited = true
		s.bad = -1
	}
	rem := len(s.b) - s.pos
	if rem == 0 {
		return 0, s.end
	}
	n := s.grain
	switch d := s.w.Dev(6); {
	case d == 1:
		n = 0
	case d == 2:
		n = 187
	case d == 3:
		n = 1315
	case d >= 4:
		n = (d - 3) * 188
	}
	n = min(n, rem, len(p))
	if n%188 != 0 && s.bad < 0 {
		s.bad = s.pos
		s.badEnd = s.pos+n == len(s.b) && s.with
	}
	copy(p, s.b[s.pos:s.pos+n])
	for i := n; i < len(p); i++ {
		p[i] = 0x47
	}
	s.pos += n
	if s.pos == len(s.b) && s.with {
		return n, s.end
	}
	return n, nil
}

// onceSource fails once after at bytes, then continues with the rest of the stream.
type onceSource struct {
	b    []byte
	pos  int
	at   int
	err  error
	with bool
	done bool

	doneAtInit bool
}

func (s *onceSource) Read(p []byte) (int, error) {
	n := len(p)
	if !s.done {
		n = min(n, s.at-s.pos)
		if n == 0 {
			s.done = true
			return 0, s.err
		}
	}
	n = copy(p[:n], s.b[s.pos:])
	s.pos += n
	if !s.done && s.with && s.pos == s.at {
		s.done = true
		return n, s.err
	}
	if n == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

// tsDeliverable returns, per track, the samples that must and may have been delivered when the source fails
// after k packets.
func tsDeliverable(trks []*tsTrack, ss []*tsSample, ps []*tsPkt, k int) ([][]tsGot, [][]tsGot) {
	k = min(k, len(ps))
	exp := tsExpect(trks, ss)
	// index of each sample within the expectations of its track
	must := make([][]tsGot, len(trks))
	may := make([][]tsGot, len(trks))
	pos := make([]int, len(trks))
	seen := false
	for si, s := range ss {
		t := trks[s.trk]
		if t.kind == kKLVA && !seen {
			continue
		}
		if t.kind != kKLVA {
			seen = true
		}
		g := exp[s.trk][pos[s.trk]]
		pos[s.trk]++
		lastPkt, next := -1, -1
		for i, p := range ps {
			if p.sample == si {
				lastPkt = i
			} else if lastPkt >= 0 && next < 0 && p.pid == t.wantPID {
				next = i
			}
		}
		if lastPkt >= k {
			continue
		}
		may[s.trk] = append(may[s.trk], g)
		if !tsVideo(t.kind) || next >= 0 && next < k {
			must[s.trk] = append(must[s.trk], g)
		}
	}
	return must, may
}

// tsCheckPartial: the delivered samples of every track start with must; if may is given they are within it.
func tsCheckPartial(w *kit.W, trks []*tsTrack, res *tsResult, must, may [][]tsGot) {
	for i, t := range trks {
		got := res.got[t.wantPID]
		w.Check(len(got) >= len(must[i]), "ts-partial-missing", "track %d (%s): %d samples delivered, %d were complete", i, tsNames[t.kind], len(got), len(must[i]))
		for j := range must[i] {
			w.Check(tsGotEq(got[j], must[i][j]), "ts-partial-sample", "track %d (%s) sample %d: %v, want %v", i, tsNames[t.kind], j, got[j], must[i][j])
		}
		if may != nil {
			w.Check(len(got) <= len(may[i]), "ts-partial-extra", "track %d (%s): %d samples delivered, %d arrived", i, tsNames[t.kind], len(got), len(may[i]))
			for j := range got {
				w.Check(tsGotEq(got[j], may[i][j]), "ts-partial-sample", "track %d (%s) sample %d: %v, want %v", i, tsNames[t.kind], j, got[j], may[i][j])
			}
		}
	}
	w.Ops(int64(len(res.order)))
	w.Step(kit.H(dump(res.order)))
}
