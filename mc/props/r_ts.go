package props

import (
	"bytes"
	"errors"
	"io"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"

	"verif/mc/kit"
)

// tsBase is a valid stream in parts.
type tsBase struct {
	kind, variant int
	raw           []byte
	pat, pmt      []byte // sections, with checksum
	pmtPID        uint16
	pid           uint16
	pes           [][]byte // PES packets
}

// tsSplit parts a stream of one track.
func tsSplit(w *kit.W, kind, variant int, raw []byte, pid uint16) *tsBase {
	b := &tsBase{kind: kind, variant: variant, raw: raw, pid: pid}
	ps, err := tsParse(raw)
	w.Check(err == nil, "r-split", "%v", err)
	for _, p := range ps {
		switch {
		case p.pid == 0 && b.pat == nil:
			s, err := tsSection(p.payload, 0)
			w.Check(err == nil, "r-split", "%v", err)
			b.pat = s[:len(s)+4]
			b.pmtPID = uint16(s[10]&0x1F)<<8 | uint16(s[11])
		case p.pid == b.pmtPID && b.pmt == nil:
			s, err := tsSection(p.payload, 2)
			w.Check(err == nil, "r-split", "%v", err)
			b.pmt = s[:len(s)+4]
		case p.pid == pid:
			if p.pusi {
				b.pes = append(b.pes, nil)
			}
			b.pes[len(b.pes)-1] = append(b.pes[len(b.pes)-1], p.payload...)
		}
	}
	w.Check(b.pat != nil && b.pmt != nil && len(b.pes) > 0, "r-split", "tables or data not found")
	return b
}

// tsPack splits a unit into packets; tables are padded with 0xFF, PES packets with adaptation fields.
func tsPack(pid uint16, unit []byte, table bool, cc *byte) []byte {
	var out []byte
	if table {
		unit = append([]byte{0}, unit...)
		for len(unit)%184 != 0 {
			unit = append(unit, 0xFF)
		}
	}
	for first := true; first || len(unit) > 0; first = false {
		p := []byte{0x47, byte(pid >> 8), byte(pid), 0x10 | *cc}
		*cc = (*cc + 1) & 15
		if first {
			p[1] |= 0x40
		}
		n := min(len(unit), 184)
		if n < 184 {
			p[3] |= 0x20
			p = append(p, byte(183-n))
			if n < 183 {
				p = append(p, 0)
				for len(p) < 188-n {
					p = append(p, 0xFF)
				}
			}
		}
		out = append(append(out, p...), unit[:n]...)
		unit = unit[n:]
	}
	return out
}

// build is the stream with other parts.
func (b *tsBase) build(pat, pmt []byte, pes [][]byte) []byte {
	var cc [3]byte
	out := tsPack(0, pat, true, &cc[0])
	out = append(out, tsPack(b.pmtPID, pmt, true, &cc[1])...)
	for _, p := range pes {
		out = append(out, tsPack(b.pid, p, false, &cc[2])...)
	}
	return out
}

// tsBases1 are streams of one track of every kind and variant; size selects short or multi-packet samples.
func tsBaseOf(w *kit.W, kind, variant, size int) *tsBase {
	zero := func(int) int { return 0 }
	t := &tsTrack{kind: kind, variant: variant}
	if variant == 1 {
		t.lang = "eng"
	}
	trks := []*tsTrack{t}
	g := &tsGen{clock: 90000}
	var ss []*tsSample
	for k := range 2 {
		s := g.sample(t, 0, zero)
		s.units = nil
		for range map[bool]int{false: 1, true: 2}[tsMulti(kind)] {
			s.units = append(s.units, tsUnit(kind, variant, size+k, k, byte(k+1)))
		}
		if k == 1 && kind <= kH265 {
			s.pts += 6000
		}
		ss = append(ss, s)
	}
	raw, _ := tsWrite(w, trks, ss)
	return tsSplit(w, kind, variant, raw, t.wantPID)
}

func tsVariants(kind int) int {
	switch kind {
	case kOpus, kAAC:
		return 4
	case kAC3, kEAC3:
		return 3
	case kDVB:
		return 2
	}
	return 2 // with and without language
}

// tsSurvive reads anything.
func tsSurvive(w *kit.W, b []byte, chunk int) {
	n := len(b)
	lim := 2*(n/188) + 20
	src := &byteSource{b: b, chunk: chunk, limit: 4*n + 100}
	res := &tsResult{}
	r := &mpegts.Reader{R: src}
	if res.initErr = r.Initialize(); res.initErr != nil {
		return
	}
	nerr, ncb := 0, 0
	r.OnDecodeError(func(err error) {
		nerr++
		if nerr > n+20 {
			w.Fail("r03-errors", "more decode errors than bytes: %v", err)
		}
		_ = err.Error()
	})
	tsHook(r, func(_ uint16, g tsGot) {
		ncb++
		if ncb > n+20 {
			w.Fail("r03-samples", "more samples than bytes")
		}
		sum := 0
		for _, u := range g.units {
			sum += len(u)
		}
		if sum > n {
			w.Fail("r03-bytes", "a sample of %d bytes out of a stream of %d", sum, n)
		}
	})
	for i := 0; ; i++ {
		if err := r.Read(); err != nil {
			if !errors.Is(err, io.EOF) {
				w.Fail("r03-end", "the end of the source was not reported as such: %v", err)
			}
			break
		}
		if i > lim {
			w.Fail("r03-stuck", "%d calls of Read on a stream of %d bytes without reaching its end", i, n)
		}
	}
	if err := r.Read(); !errors.Is(err, io.EOF) {
		w.Fail("r03-again", "Read after the end: %v", err)
	}
}

type tsBatch struct {
	w    *kit.W
	bs   [][]byte
	n    int
	part int // of tsParts, -1: all
}

// the work on a stream is shared out in parts
const tsParts = 16

func newBatch(w *kit.W) *tsBatch { return &tsBatch{w: w, part: w.Pick(tsParts)} }

func (t *tsBatch) mine() bool {
	t.n++
	return t.part < 0 || t.n%tsParts == t.part
}

func (t *tsBatch) put(b []byte) {
	t.bs = append(t.bs, b)
	if len(t.bs) >= 256 {
		t.flush()
	}
}

func (t *tsBatch) flush() {
	w := t.w
	w.BoundedBatch(len(t.bs), 64<<10, func(i int) uint64 { return rLimit(len(t.bs[i])) }, rTime, func(i int) {
		w.Input = t.bs[i]
		tsSurvive(w, t.bs[i], 0)
	})
	w.Ops(int64(len(t.bs)))
	w.Input = nil
	w.Alive()
	t.bs = t.bs[:0]
}

func fixCRC(s []byte) []byte {
	if len(s) < 4 {
		return s
	}
	c := crcMPEG2(s[:len(s)-4])
	copy(s[len(s)-4:], []byte{byte(c >> 24), byte(c >> 16), byte(c >> 8), byte(c)})
	return s
}

// tsSections are variants of a mutated section: as it is, with the checksum made right, with length and checksum
// made right.
func tsSections(s []byte, f func(s []byte)) {
	f(clone(s))
	f(fixCRC(clone(s)))
	if len(s) >= 7 {
		// checksum where the section length says
		x := clone(s)
		if n := 3 + (int(x[1]&15)<<8 | int(x[2])); n >= 4 && n < len(x) {
			fixCRC(x[:n])
			f(x)
		}
		x = clone(s)
		x[1] = x[1]&0xF0 | byte((len(x)-3)>>8)&15
		x[2] = byte(len(x) - 3)
		f(fixCRC(x))
	}
}

func tsKindVariant(w *kit.W) (int, int) {
	k := w.Pick(kCount)
	return k, w.Pick(tsVariants(k))
}

func init() {
	kit.Register(&kit.Check{
		ID: "R03",
		Assumptions: []string{
			"the source follows the contract of io.Reader and does not return (0, nil) forever",
			"allocations are bounded by 1 MiB plus 1000 bytes per byte of input, a reading by 3 seconds (measured again alone before reporting)",
		},
		Run: func(c *kit.Ctx) {
			sizes := []int{200, 3}
			c.Explore("bytes", kit.Opt{Bound: "streams of each of 13 kinds of track (thorough: and their variants, also with shorter samples): every truncation, every byte of the first 24 of each packet with all values and of the rest with boundary values and flipped bits, removals and insertions of 1 to 5 bytes everywhere, wider boundary values everywhere"}, func(w *kit.W) {
				kind, v := tsKindVariant(w)
				if v > 0 && !c.Thorough() {
					return
				}
				b := tsBaseOf(w, kind, v, sizes[w.Pick(kit.T(c, 1, 2))])
				tb := newBatch(w)
				rMutateSome(b.raw, 0, tb.mine, tb.put)
				for i := range b.raw {
					if i%188 < 24 {
						for v := 1; v < 256; v++ {
							if tb.mine() {
								x := clone(b.raw)
								x[i] ^= byte(v)
								tb.put(x)
							}
						}
					}
				}
				tb.flush()
				w.Step(kit.H(uint64(kind), uint64(v)))
			})
			c.Explore("headers", kit.Opt{Bound: "the same streams: every pair of the first 12 bytes of each packet with boundary values"}, func(w *kit.W) {
				kind, v := tsKindVariant(w)
				if v > 0 && !c.Thorough() {
					return
				}
				b := tsBaseOf(w, kind, v, sizes[w.Pick(kit.T(c, 1, 2))])
				n := len(b.raw) / 188
				p := w.Pick(n)
				tb := newBatch(w)
				for i := range 12 {
					for j := range i {
						for _, u := range rMenu[:8] {
							for _, v := range rMenu[:8] {
								if tb.mine() {
									x := clone(b.raw)
									x[188*p+i], x[188*p+j] = u, v
									tb.put(x)
								}
							}
						}
					}
				}
				tb.flush()
				w.Step(kit.H(uint64(kind), uint64(v)))
			})
			c.Explore("tables", kit.Opt{Bound: "PAT and PMT sections of every kind of track: all truncations, removals, insertions, boundary values, all pairs of boundary values and of bits, with checksum and section length left broken and made right, put back into packets"}, func(w *kit.W) {
				kind, v := tsKindVariant(w)
				which := w.Pick(2)
				b := tsBaseOf(w, kind, v, 3)
				if which == 0 && (kind > 0 || v > 0) {
					return
				}
				tb := newBatch(w)
				s := b.pat
				if which == 1 {
					s = b.pmt
				}
				// the pairs of long descriptors are left to the thorough tier
				body := s[:len(s)-4]
				rMutateSome(body, kit.T(c, 1, 2), tb.mine, func(x []byte) {
					x = append(clone(x), s[len(s)-4:]...)
					tsSections(x, func(x []byte) {
						if which == 0 {
							tb.put(b.build(x, b.pmt, b.pes))
						} else {
							tb.put(b.build(b.pat, x, b.pes))
						}
					})
				})
				tb.flush()
				w.Step(kit.H(uint64(kind), uint64(v), uint64(which)))
			})
			c.Explore("pes", kit.Opt{Bound: "first, second PES packet of every kind of track: all truncations, removals, insertions, boundary values, all values of every byte, all pairs of boundary values and of bits, put back into packets"}, func(w *kit.W) {
				kind, v := tsKindVariant(w)
				k := w.Pick(2)
				b := tsBaseOf(w, kind, v, 3)
				tb := newBatch(w)
				s := b.pes[k]
				tail := []byte(nil)
				if len(s) > 60 { // large frames: the pairs in the beginning
					rMutateSome(s[:min(len(s), 400)], 0, tb.mine, func(x []byte) {
						pes := [][]byte{b.pes[0], b.pes[1]}
						pes[k] = append(clone(x), s[min(len(s), 400):]...)
						tb.put(b.build(b.pat, b.pmt, pes))
					})
					s, tail = s[:kit.T(c, 32, 60)], s[kit.T(c, 32, 60):]
				}
				rMutateSome(s, 1, tb.mine, func(x []byte) {
					pes := [][]byte{b.pes[0], b.pes[1]}
					pes[k] = append(clone(x), tail...)
					tb.put(b.build(b.pat, b.pmt, pes))
				})
				tb.flush()
				w.Step(kit.H(uint64(kind), uint64(v), uint64(k)))
			})

			// all sequences of packets
			zero := func(int) int { return 0 }
			c.Explore("sequences", kit.Opt{Bound: "all sequences of up to " + kit.T(c, "4", "5") + " items among 20 (tables, other tables, parts of PES packets of a video, an AAC and a KLV track, empty and full adaptation fields, packets without payload, null packets, garbage, partial packets, PES packets without data), read whole and in chunks of 1 and 7 bytes, with tables first or not"}, func(w *kit.W) {
				trks := tsTracks([]int{kH264, kAAC, kKLVA}, zero)
				g := &tsGen{clock: 90000}
				var ss []*tsSample
				for i, t := range trks {
					s := g.sample(t, i, zero)
					s.units = [][]byte{tsUnit(t.kind, 0, 250, 0, byte(i+1))}
					ss = append(ss, s)
				}
				raw, _ := tsWrite(w, trks, ss)
				ps, err := tsParse(raw)
				w.Check(err == nil, "r-split", "%v", err)
				var pat, pmt []byte
				var items [][]byte
				for _, p := range ps {
					switch {
					case p.pid == 0:
						pat = p.raw
					case p.pid < 256 || p.pid == 4096:
						pmt = p.raw
					default:
						items = append(items, p.raw)
					}
				}
				w.Check(pat != nil && pmt != nil && len(items) == 6, "r-split", "%d packets", len(items))
				pid := trks[0].wantPID
				mk := func(pid uint16, flags byte, rest ...byte) []byte {
					p := append([]byte{0x47, byte(pid >> 8), byte(pid), flags}, rest...)
					for len(p) < 188 {
						p = append(p, 0xFF)
					}
					return p
				}
				items = append(items, pat, pmt,
					mk(pid, 0x20, 183, 0),               // adaptation field only
					mk(pid, 0x30, 183, 0),               // no room for the payload that is declared
					mk(pid, 0x30, 0),                    // empty adaptation field
					mk(pid, 0x00),                       // neither
					mk(pid|0x4000, 0x10, 0, 0, 1, 0xE0), // PES start with stuffing as header
					tsPack(pid, []byte{0, 0, 1, 0xE0, 0, 0, 0x80, 0x80, 5, 0x21, 0, 1, 0, 1}, false, new(byte)), // no data
					tsPack(trks[1].wantPID, []byte{0, 0, 1, 0xC0, 0, 8, 0x80, 0x80, 5, 0x21, 0, 1, 0, 1}, false, new(byte)),
					tsPack(trks[1].wantPID, []byte{0, 0, 1}, false, new(byte)),
					mk(0x1FFF, 0x10),
					mk(0x4000|0, 0x11, 0, 0, 0xB0, 0x09), // PAT cut
					bytes.Repeat([]byte{0xAA}, 188),
					bytes.Repeat([]byte{0x47}, 7),
				)
				n := kit.T(c, 4, 5)
				pre := w.Pick(2)
				first := items[w.Pick(len(items))]
				second := items[w.Pick(len(items))]
				tb := &tsBatch{w: w, part: -1}
				var rec func(s []byte, d int)
				rec = func(s []byte, d int) {
					tb.put(s[:len(s):len(s)])
					if d == n {
						return
					}
					for _, x := range items {
						rec(append(clone(s), x...), d+1)
					}
				}
				var s []byte
				if pre == 1 {
					s = append(clone(pat), pmt...)
				}
				tb.put(append(clone(s), first...))
				s = append(append(clone(s), first...), second...)
				rec(s, 2)
				tb.flush()
				for _, ch := range []int{1, 7} {
					w.Input = s
					tsSurvive(w, s, ch)
				}
				w.Step(kit.H(uint64(pre)))
			})

			// descriptors
			c.Explore("descriptors", kit.Opt{Bound: "PMTs with every stream type; with every descriptor tag and every extension tag, of 0 to 24 bytes of 4 contents, with the declared length right, off by one or too large, alone, after or before a registration of Opus or of KLV, in the program or in the stream; with up to 200 streams"}, func(w *kit.W) {
				b := tsBaseOf(w, kH264, 0, 3)
				tb := newBatch(w)
				pmt := func(prog, es []byte, types ...byte) {
					s := []byte{2, 0xB0, 0, 0, 1, 0xC1, 0, 0, 0xE1, 0, 0xF0 | byte(len(prog)>>8), byte(len(prog))}
					s = append(s, prog...)
					for i, t := range types {
						pid := 256 + i
						s = append(s, t, 0xE0|byte(pid>>8), byte(pid), 0xF0|byte(len(es)>>8), byte(len(es)))
						s = append(s, es...)
					}
					n := len(s) + 4 - 3
					s[1], s[2] = 0xB0|byte(n>>8), byte(n)
					tb.put(b.build(b.pat, fixCRC(append(s, 0, 0, 0, 0)), b.pes))
				}
				content := func(k, n int) []byte {
					switch k {
					case 0:
						return make([]byte, n)
					case 1:
						return bytes.Repeat([]byte{0xFF}, n)
					case 2:
						return pat(n, 1)
					}
					return append([]byte("KLVA\x01\x02\x80\x05"), make([]byte, n)...)[:n]
				}
				switch what := w.Pick(3); what {
				case 0:
					for t := range 256 {
						for n := range 4 {
							for _, es := range [][]byte{nil, {5, 4, 'O', 'p', 'u', 's'}, {5, 4, 'K', 'L', 'V', 'A'}, {0x59, 8, 'e', 'n', 'g', 0x10, 0, 1, 0, 2}, {0x59, 0}, {0x26, 9, 1, 0, 0xFF, 'K', 'L', 'V', 'A', 0, 0}} {
								for _, prog := range [][]byte{nil, es} {
									if tb.mine() {
										types := []byte{byte(t), 0x0F, 0x81, 0x87}[:n+1]
										pmt(prog, es, types...)
									}
								}
							}
						}
					}
					for _, n := range []int{2, 10, 50, 100, 199} {
						for _, t := range []byte{6, 0x0F, 0x15, 0x1B, 0x81, 0x87} {
							if tb.mine() {
								pmt(nil, nil, bytes.Repeat([]byte{t}, n)...)
							}
						}
					}
				default:
					regs := [][]byte{nil, {5, 4, 'O', 'p', 'u', 's'}, {5, 4, 'K', 'L', 'V', 'A'}}
					for tag := range 256 {
						for n := range 25 {
							for k := range 4 {
								for _, off := range []int{0, -1, 1, 5, 255} {
									d := append([]byte{byte(tag), byte(n + off)}, content(k, n)...)
									if what == 2 {
										d = append([]byte{0x7F, byte(n + 1 + off), byte(tag)}, content(k, n)...)
									}
									for ri, r := range regs {
										for _, t := range []byte{6, 0x15} {
											if t == 0x15 && ri > 0 {
												continue
											}
											if tb.mine() {
												pmt(nil, append(clone(r), d...), t)
											}
											if ri > 0 && tb.mine() {
												pmt(nil, append(clone(d), r...), t)
											}
										}
									}
									if tb.mine() {
										pmt(d, nil, 0x1B)
									}
								}
							}
						}
					}
				}
				tb.flush()
			})

			// growth
			c.Explore("growth", kit.Opt{Bound: "streams of every kind with a part repeated until they have 3000 packets: every packet, every pair of packets, alone and after the tables; bytes of memory and time against the size"}, func(w *kit.W) {
				kind, v := tsKindVariant(w)
				if v > 0 {
					return
				}
				b := tsBaseOf(w, kind, v, sizes[0])
				n := len(b.raw) / 188
				i := w.Pick(n)
				j := w.Pick(n + 1)
				pre := w.Pick(3)
				var s []byte
				if pre >= 1 {
					s = clone(b.raw[:2*188])
				}
				if pre == 2 {
					s = clone(b.raw)
				}
				for k := byte(0); len(s) < 3000*188; k++ {
					p := clone(b.raw[188*i : 188*i+188])
					p[3] = p[3]&0xF0 | k&15
					s = append(s, p...)
					if j < n {
						p = clone(b.raw[188*j : 188*j+188])
						p[3] = p[3]&0xF0 | k&15
						s = append(s, p...)
					}
				}
				w.Input = nil
				w.Bounded(rLimit(len(s)), rTime, func() { tsSurvive(w, s, 0) })
				w.Step(kit.H(uint64(kind), uint64(pre)))
			})
		},
	})
}
