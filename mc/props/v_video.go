package props

import (
	"bytes"
	"fmt"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/av1"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/jpeg"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4video"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/vp9"

	"verif/mc/kit"
)

// refLEB encodes v with n bytes (clause 4.10.5 of the AV1 specification).
func refLEB(v uint64, n int) []byte {
	var o []byte
	for i := 0; i < n; i++ {
		b := byte(v>>uint(7*i)) & 0x7F
		if i < n-1 {
			b |= 0x80
		}
		o = append(o, b)
	}
	return o
}

func refLEBLen(v uint64) int {
	n := 1
	for v>>uint(7*n) != 0 {
		n++
	}
	return n
}

// refLEBDecode returns the value and the number of bytes, or ok = false.
func refLEBDecode(b []byte) (uint64, int, bool) {
	var v uint64
	for i := 0; i < 8; i++ {
		if i >= len(b) {
			return 0, 0, false
		}
		v |= uint64(b[i]&0x7F) << uint(7*i)
		if b[i]&0x80 == 0 {
			return v, i + 1, v <= 0xFFFFFFFF
		}
	}
	return 0, 0, false
}

func init() {
	kit.Register(&kit.Check{
		ID: "V01",
		Assumptions: []string{
			"OBUs to encode are not empty, do not use the extension flag (documented as unsupported) and have no size field, or a correct one",
		},
		Run: func(c *kit.Ctx) {
			vals := []uint64{0, 1, 2, 63, 64, 126, 127, 128, 129, 255, 256, 16383, 16384, 1<<21 - 1, 1 << 21, 1<<28 - 1, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1}
			c.Explore("leb128-values", kit.Opt{Bound: "boundary values in every legal spelling of 1-8 bytes, followed by anything or truncated; all values below 2^16"}, func(w *kit.W) {
				v := vals[w.Pick(len(vals))]
				n := 1 + w.Pick(8)
				if n < refLEBLen(v) {
					return
				}
				enc := refLEB(v, n)
				for extra := 0; extra < 3; extra++ {
					l := av1.LEB128(0xDEADBEEF) // what it held before does not count
					got, err := l.Unmarshal(append(clone(enc), []byte{0xFF, 0x00}[:extra]...))
					w.Check(err == nil && got == n && uint64(l) == v, "leb128-decode", "LEB128 %x: value %d, %d bytes, %v; want %d, %d bytes", enc, l, got, err, v, n)
				}
				for k := 0; k < n; k++ {
					l := av1.LEB128(0xDEADBEEF) // what it held before does not count
					_, err := l.Unmarshal(enc[:k])
					w.Check(err != nil, "leb128-truncated", "truncated LEB128 %x accepted", enc[:k])
				}
				m := refLEBLen(v)
				out := make([]byte, m)
				w.Check(av1.LEB128(v).MarshalSize() == m, "leb128-size", "MarshalSize(%d) = %d, want %d", v, av1.LEB128(v).MarshalSize(), m)
				w.Check(av1.LEB128(v).MarshalTo(out) == m && bytes.Equal(out, refLEB(v, m)), "leb128-encode", "LEB128(%d) encoded as %x", v, out)
				w.Step(kit.H(enc))
				w.Sample("%d in %d bytes: %x", v, n, enc)
			})
			c.Range("leb128-small", 1<<16, "all values below 2^16", func(w *kit.W) {
				v := w.Index
				m := refLEBLen(v)
				out := make([]byte, m)
				l := av1.LEB128(0xDEADBEEF) // what it held before does not count
				n1 := av1.LEB128(v).MarshalTo(out)
				n2, err := l.Unmarshal(out)
				w.Check(n1 == m && bytes.Equal(out, refLEB(v, m)) && err == nil && n2 == m && uint64(l) == v, "leb128-roundtrip", "%d: %x (%d), back %d (%d, %v)", v, out, n1, l, n2, err)
				w.Step(v)
			})
			alpha := []byte{0x00, 0x01, 0x0F, 0x10, 0x7F, 0x80, 0x81, 0xFF}
			c.Explore("leb128-strings", kit.Opt{Bound: "all strings of up to " + fmt.Sprint(kit.T(c, 6, 7)) + " bytes over 00 01 0F 10 7F 80 81 FF, and of 8-9 bytes over 00 01 80 FF"}, func(w *kit.W) {
				var b []byte
				if w.Bool() {
					n := 8 + w.Pick(2)
					for i := 0; i < n; i++ {
						b = append(b, []byte{0x00, 0x01, 0x80, 0xFF}[w.Pick(4)])
					}
				} else {
					n := w.Pick(kit.T(c, 6, 7) + 1)
					for i := 0; i < n; i++ {
						b = append(b, alpha[w.Pick(len(alpha))])
					}
				}
				l := av1.LEB128(0xDEADBEEF) // what it held before does not count
				n, err := l.Unmarshal(b)
				rv, rn, ok := refLEBDecode(b)
				w.Check(ok == (err == nil), "leb128-accept", "LEB128 %x: accepted %v, want %v", b, err == nil, ok)
				if ok {
					w.Check(uint64(l) == rv && n == rn, "leb128-decode", "LEB128 %x: %d in %d bytes, want %d in %d", b, l, n, rv, rn)
				}
				w.Step(kit.H(b))
			})
			c.Range("obu-headers", 1<<16, "all pairs of bytes as OBU header and size", func(w *kit.W) {
				h, s := byte(w.Index>>8), byte(w.Index)
				var oh av1.OBUHeader
				err := oh.Unmarshal([]byte{h})
				ok := h&0x80 == 0 && h&4 == 0
				w.Check((err == nil) == ok, "obu-header", "OBU header %x: %v", h, err)
				if ok {
					w.Check(byte(oh.Type) == h>>3 && oh.HasSize == (h&2 != 0), "obu-header", "OBU header %x: %+v", h, oh)
				}
				for have := 0; have < 5; have++ {
					buf := append([]byte{h, s}, pat(have, h)...)
					var bs av1.Bitstream
					err := bs.Unmarshal(buf)
					if ok && h&2 != 0 && s < 128 && int(s) == have {
						w.Check(err == nil && len(bs) == 1 && bytes.Equal(bs[0], append([]byte{h &^ 2}, buf[2:]...)), "obu-decode", "bitstream %x: %x, %v", buf, bs, err)
					} else if !ok || h&2 == 0 || int(s) > have && s < 128 {
						w.Check(err != nil, "obu-accept", "malformed bitstream %x accepted as %x", buf, bs)
					}
				}
				w.Step(kit.H(h, s))
			})
			sizes := []int{0, 1, 2, 125, 126, 127, 128, 129, 300, 16382, 16383, 16384, 16385}
			c.Explore("temporal-units", kit.Opt{Bound: "every list of 1-2 OBUs over 13 sizes and 4 headers; 3 OBUs of 6 sizes; each size field in its shortest, 1 and 2 bytes longer, or 8 byte spelling"}, func(w *kit.W) {
				n := 1 + w.Pick(3)
				sz := sizes
				if n == 3 {
					sz = []int{0, 1, 127, 128, 16383, 16384}
				}
				var tu [][]byte
				var enc []byte
				shortest := true
				var canon []byte
				for i := 0; i < n; i++ {
					h := []byte{0x08, 0x10, 0x31, 0x78}[w.Pick(4)]
					l := sz[w.Pick(len(sz))]
					p := pat(l, h+byte(i))
					tu = append(tu, append([]byte{h}, p...))
					m := refLEBLen(uint64(l))
					k := 0
					if n < 3 {
						k = []int{0, 1, 2, 8 - m}[w.Pick(4)]
					}
					shortest = shortest && k == 0
					enc = append(append(append(enc, h|2), refLEB(uint64(l), m+k)...), p...)
					canon = append(append(append(canon, h|2), refLEB(uint64(l), m)...), p...)
				}
				in := clone(enc)
				var bs av1.Bitstream
				err := bs.Unmarshal(in)
				w.Check(err == nil && deepEq([][]byte(bs), tu), "tu-decode", "temporal unit of %d OBUs is not decoded to what was encoded: %v", n, err)
				w.Check(bytes.Equal(in, enc), "tu-input", "decoding changed its input")
				cp := make([][]byte, len(tu))
				for i := range tu {
					cp[i] = clone(tu[i])
				}
				out, err := av1.Bitstream(cp).Marshal()
				w.Check(err == nil && bytes.Equal(out, canon), "tu-encode", "temporal unit encoded as %s (%v), want %s", hx(out), err, hx(canon))
				w.Check(deepEq(cp, tu), "tu-value", "encoding changed the OBUs")
				// OBUs that carry a size field already are kept as they are
				if shortest {
					var sized [][]byte
					for _, o := range tu {
						sized = append(sized, append(append([]byte{o[0] | 2}, refLEB(uint64(len(o)-1), refLEBLen(uint64(len(o)-1)))...), o[1:]...))
					}
					out, err := av1.Bitstream(sized).Marshal()
					w.Check(err == nil && bytes.Equal(out, canon), "tu-encode-sized", "temporal unit with size fields encoded as %s (%v)", hx(out), err)
				}
				w.Step(kit.H(n, len(enc), enc[0], shortest))
			})
			c.Range("long-units", 4*400, "4 to 400 OBUs, and 1000, 5000 and 20000 OBUs, of sizes 0-6, 120-130, mixed, or one OBU of 2 MiB + 5 among them", func(w *kit.W) {
				n, mode := 4+int(w.Index/4), int(w.Index%4)
				if n > 400 {
					n = []int{1000, 5000, 20000}[n-401]
				}
				var tu [][]byte
				var enc []byte
				for i := 0; i < n; i++ {
					l := []int{i % 7, 120 + i%11, i * 37 % 300, i % 3}[mode]
					if mode == 3 && i == n/2 && n%50 == 0 {
						l = 2<<20 + 5
					}
					p := pat(l, byte(i))
					tu = append(tu, append([]byte{0x30}, p...))
					enc = append(append(append(enc, 0x32), refLEB(uint64(l), refLEBLen(uint64(l)))...), p...)
				}
				var bs av1.Bitstream
				err := bs.Unmarshal(clone(enc))
				w.Check(err == nil && deepEq([][]byte(bs), tu), "tu-decode", "temporal unit of %d OBUs: %v, %d OBUs", n, err, len(bs))
				out, err := av1.Bitstream(tu).Marshal()
				w.Check(err == nil && bytes.Equal(out, enc), "tu-encode", "temporal unit of %d OBUs: %v, %d bytes instead of %d", n, err, len(out), len(enc))
				w.Step(kit.H(n, mode, len(enc)))
			})
			c.Explore("truncations", kit.Opt{Bound: "every truncation of every list of 1-3 OBUs of sizes 0, 1, 5, 130: an error unless the cut is between OBUs"}, func(w *kit.W) {
				n := 1 + w.Pick(3)
				var enc []byte
				ends := map[int]int{}
				for i := 0; i < n; i++ {
					l := []int{0, 1, 5, 130}[w.Pick(4)]
					m := refLEBLen(uint64(l)) + w.Pick(2)
					enc = append(append(append(enc, 0x0A), refLEB(uint64(l), m)...), pat(l, 9)...)
					ends[len(enc)] = i + 1
				}
				for k := 0; k <= len(enc); k++ {
					var bs av1.Bitstream
					err := bs.Unmarshal(enc[:k:k])
					cnt, ok := ends[k]
					w.Check((err == nil) == ok && (!ok || len(bs) == cnt), "tu-truncated", "temporal unit %s cut to %d bytes: %d OBUs, %v", hx(enc), k, len(bs), err)
				}
				w.Step(kit.H(enc))
			})
			c.Explore("bad-obus", kit.Opt{Bound: "encoding a list with an OBU that is empty, has the forbidden bit or the extension flag set, at every position"}, func(w *kit.W) {
				n := 1 + w.Pick(3)
				p := w.Pick(n)
				var bs av1.Bitstream
				for i := 0; i < n; i++ {
					bs = append(bs, []byte{0x30, 1, 2})
				}
				bs[p] = [][]byte{{}, nil, {0x88, 1}, {0x0C, 0, 1}}[w.Pick(4)]
				_, err := bs.Marshal()
				w.Check(err != nil, "tu-encode-bad", "a list with the invalid OBU %x was encoded", bs[p])
				w.Step(kit.H(n, p, bs[p]))
			})
		},
	})

	kit.Register(&kit.Check{
		ID: "V02",
		Assumptions: []string{
			"the reference encoder writes the syntax of clauses 5.5.1-5.5.3 of the AV1 specification; decoder model info and initial display delay are unsupported and must be rejected",
		},
		Run: func(c *kit.Ctx) {
			run := func(w *kit.W, pick func(int) int, v valFn, cuts bool) {
				want, b, unsupported := av1encSeq(pick, v)
				raw := b.out()
				obu := append([]byte{0x08}, raw...)
				if unsupported {
					var got av1.SequenceHeader
					w.Check(got.Unmarshal(clone(obu)) != nil, "av1-seq-unsupported", "sequence header %x with unsupported features accepted", obu)
					w.Step(kit.H(obu))
					return
				}
				forms := [][]byte{obu, append([]byte{0x08}, (&bitw{b: append([]byte(nil), b.b...)}).rbspTrailing().out()...)}
				forms = append(forms, append(append([]byte{0x0A}, refLEB(uint64(len(raw)), 1)...), raw...))
				forms = append(forms, append(append([]byte{0x0A}, refLEB(uint64(len(raw)), 3)...), raw...))
				for _, f := range forms {
					var got av1.SequenceHeader
					err := got.Unmarshal(clone(f))
					w.Check(err == nil, "av1-seq-reject", "conformant sequence header %x rejected: %v", f, err)
					w.Check(deepEq(&got, want), "av1-seq-field", "sequence header %x: %s", f, diff(&got, want))
					w.Check(got.Width() == int(want.MaxFrameWidthMinus1)+1 && got.Height() == int(want.MaxFrameHeightMinus1)+1, "av1-seq-size", "%dx%d", got.Width(), got.Height())
				}
				w.Step(kit.H(obu))
				w.Sample("%x", obu)
				if cuts {
					for k := 0; k < len(obu); k++ {
						var got av1.SequenceHeader
						w.Check(got.Unmarshal(obu[:k:k]) != nil, "av1-seq-truncated", "sequence header %x cut to %d bytes accepted", obu, k)
						if k > 0 {
							sz := append(append([]byte{0x0A}, refLEB(uint64(len(raw)), 1)...), raw[:k-1]...)
							w.Check(got.Unmarshal(sz) != nil, "av1-seq-size-mismatch", "sequence header %x accepted", sz)
						}
					}
					w.Ops(int64(len(obu)))
					var got av1.SequenceHeader
					sz := append(append([]byte{0x0A}, refLEB(uint64(len(raw)-1), 1)...), raw...)
					w.Check(got.Unmarshal(sz) != nil, "av1-seq-size-mismatch", "sequence header %x accepted", sz)
				}
			}
			def := func(d uint64, alts ...uint64) uint64 { return d }
			c.Explore("structures", kit.Opt{Bound: "every combination of optional sections, with and without size field and trailing bits"}, func(w *kit.W) {
				run(w, w.Pick, def, false)
			})
			c.Explore("values", kit.Opt{MaxDev: kit.T(c, 3, 4), Bound: "up to 3 (4) deviations in structure or value from a plain header, every truncation"}, func(w *kit.W) {
				run(w, w.Dev, devVals(w), true)
			})
			c.Explore("reuse", kit.Opt{MaxDev: kit.T(c, 2, 3), Bound: "every pair of headers with up to 2 (3) deviations in all, decoded into the same value"}, func(w *kit.W) {
				w1, b1, u1 := av1encSeq(w.Dev, devVals(w))
				w2, b2, u2 := av1encSeq(w.Dev, devVals(w))
				if u1 || u2 {
					return
				}
				var got av1.SequenceHeader
				w.Check(got.Unmarshal(append([]byte{8}, b1.out()...)) == nil && deepEq(&got, w1), "av1-seq-field", "first header: %s", diff(&got, w1))
				w.Check(got.Unmarshal(append([]byte{8}, b2.out()...)) == nil && deepEq(&got, w2), "av1-seq-reuse", "a header decoded into a used value: %s", diff(&got, w2))
				w.Step(kit.H(b1.out(), b2.out()))
			})
			c.Range("obu-types", 256, "every OBU header byte in front of a valid sequence header", func(w *kit.W) {
				h := byte(w.Index)
				_, b, _ := av1encSeq(func(int) int { return 0 }, def)
				var got av1.SequenceHeader
				err := got.Unmarshal(append([]byte{h}, b.out()...))
				if h&0x84 != 0 || h>>3 != 1 {
					w.Check(err != nil, "av1-seq-type", "OBU header %x accepted as sequence header", h)
				} else if h&2 == 0 {
					w.Check(err == nil, "av1-seq-type", "OBU header %x: %v", h, err)
				}
				w.Step(kit.H(h))
			})
		},
	})

	kit.Register(&kit.Check{
		ID: "V03",
		Assumptions: []string{
			"the reference encoder writes the syntax of clause 6.2 of the VP9 specification; color space 7 (RGB) is used in profiles 1 and 3 only",
		},
		Run: func(c *kit.Ctx) {
			gen := func(w *kit.W, sizes []uint64) (*vp9.Header, *bitw) {
				h := &vp9.Header{Profile: uint8(w.Pick(4))}
				b := (&bitw{}).u(2, 2).u(uint64(h.Profile&1), 1).u(uint64(h.Profile>>1), 1)
				if h.Profile == 3 {
					b.u(0, 1)
				}
				h.ShowExistingFrame = w.Bool()
				b.flag(h.ShowExistingFrame)
				if h.ShowExistingFrame {
					h.FrameToShowMapIdx = uint8(w.Pick(8))
					b.u(uint64(h.FrameToShowMapIdx), 3)
					return h, b
				}
				h.NonKeyFrame, h.ShowFrame, h.ErrorResilientMode = w.Bool(), w.Bool(), w.Bool()
				b.flag(h.NonKeyFrame).flag(h.ShowFrame).flag(h.ErrorResilientMode)
				if h.NonKeyFrame {
					return h, b
				}
				b.u(0x498342, 24)
				cc := &vp9.Header_ColorConfig{BitDepth: 8}
				h.ColorConfig = cc
				if h.Profile >= 2 {
					cc.TenOrTwelveBit = w.Bool()
					cc.BitDepth = 10
					if cc.TenOrTwelveBit {
						cc.BitDepth = 12
					}
					b.flag(cc.TenOrTwelveBit)
				}
				odd := h.Profile&1 == 1
				n := 7
				if odd {
					n = 8
				}
				cc.ColorSpace = uint8(w.Pick(n))
				b.u(uint64(cc.ColorSpace), 3)
				switch {
				case cc.ColorSpace == 7:
					cc.ColorRange = true
					b.u(0, 1)
				case odd:
					cc.ColorRange, cc.SubsamplingX, cc.SubsamplingY = w.Bool(), w.Bool(), w.Bool()
					b.flag(cc.ColorRange).flag(cc.SubsamplingX).flag(cc.SubsamplingY).u(0, 1)
				default:
					cc.ColorRange = w.Bool()
					cc.SubsamplingX, cc.SubsamplingY = true, true
					b.flag(cc.ColorRange)
				}
				h.FrameSize = &vp9.Header_FrameSize{FrameWidthMinus1: uint16(sizes[w.Pick(len(sizes))]), FrameHeightMinus1: uint16(sizes[w.Pick(len(sizes))])}
				b.u(uint64(h.FrameSize.FrameWidthMinus1), 16).u(uint64(h.FrameSize.FrameHeightMinus1), 16)
				return h, b
			}
			check := func(w *kit.W, got *vp9.Header, err error, want *vp9.Header, raw []byte, key string) {
				w.Check(err == nil && deepEq(got, want), key, "header %x: %v, %s", raw, err, diff(got, want))
				rw, rh, cs := 0, 0, uint8(1)
				if want.FrameSize != nil {
					rw, rh = int(want.FrameSize.FrameWidthMinus1)+1, int(want.FrameSize.FrameHeightMinus1)+1
				}
				if cc := want.ColorConfig; cc != nil {
					switch {
					case !cc.SubsamplingX && !cc.SubsamplingY:
						cs = 3
					case cc.SubsamplingX && !cc.SubsamplingY:
						cs = 2
					}
				}
				w.Check(got.Width() == rw && got.Height() == rh && got.ChromaSubsampling() == cs, "vp9-derived", "header %x: %dx%d chroma %d, want %dx%d chroma %d", raw, got.Width(), got.Height(), got.ChromaSubsampling(), rw, rh, cs)
			}
			c.Explore("headers", kit.Opt{Bound: "every combination of flags, profiles, color configurations and 6 boundary widths and heights; every truncation; every wrong marker and sync byte bit"}, func(w *kit.W) {
				want, b := gen(w, []uint64{0, 1, 0xFF, 0x100, 1919, 0xFFFF})
				raw := b.out()
				for _, tail := range [][]byte{nil, {0xFF}, {0, 0, 0}} {
					var got vp9.Header
					in := append(clone(raw), tail...)
					err := got.Unmarshal(in)
					check(w, &got, err, want, in, "vp9-field")
				}
				for k := 0; k < len(raw); k++ {
					var got vp9.Header
					w.Check(got.Unmarshal(raw[:k:k]) != nil, "vp9-truncated", "header %x cut to %d bytes accepted", raw, k)
				}
				bad := []int{0, 1}
				if want.FrameSize != nil {
					at := 8
					if want.Profile == 3 {
						at = 9
					}
					for i := 0; i < 24; i++ {
						bad = append(bad, at+i)
					}
				}
				for _, i := range bad {
					x := clone(raw)
					x[i/8] ^= 0x80 >> uint(i%8)
					var got vp9.Header
					w.Check(got.Unmarshal(x) != nil, "vp9-marker", "header %x with a wrong marker or sync code accepted", x)
				}
				w.Ops(int64(len(raw) + len(bad)))
				w.Step(kit.H(raw))
				w.Sample("%x", raw)
			})
			c.Explore("reuse", kit.Opt{Bound: "every pair of headers (one size), decoded into the same value"}, func(w *kit.W) {
				w1, b1 := gen(w, []uint64{639})
				w2, b2 := gen(w, []uint64{1079})
				var got vp9.Header
				check(w, &got, got.Unmarshal(b1.out()), w1, b1.out(), "vp9-field")
				check(w, &got, got.Unmarshal(b2.out()), w2, b2.out(), "vp9-reuse")
				w.Step(kit.H(b1.out(), b2.out()))
			})
		},
	})

	kit.Register(&kit.Check{
		ID: "V04",
		Assumptions: []string{
			"quantization tables to encode have 8-bit precision and 64 entries; a DQT segment fits 65535 bytes; JPEG component identifiers and table selectors are those of RFC 2435",
			"an MPEG-4 Video configuration is a visual object sequence start code followed by visual object, video object, video object layer and user data units, with at least one video object and one video object layer; an incomplete start code at the very end is not a unit",
		},
		Run: func(c *kit.Ctx) {
			c.Explore("jpeg-dqt", kit.Opt{Bound: "every list of 0-4 tables over 4 ids; every truncation; every precision"}, func(w *kit.W) {
				n := w.Pick(5)
				var m jpeg.DefineQuantizationTable
				ref := []byte{0xFF, 0xDB, byte((2 + 65*n) >> 8), byte(2 + 65*n)}
				for i := 0; i < n; i++ {
					id := []uint8{0, 1, 3, 15}[w.Pick(4)]
					d := pat(64, id+byte(i))
					m.Tables = append(m.Tables, jpeg.QuantizationTable{ID: id, Data: d})
					ref = append(append(ref, id), d...)
				}
				out := m.Marshal(nil)
				w.Check(bytes.Equal(out, ref), "dqt-encode", "DQT of %d tables encoded as %s, want %s", n, hx(out), hx(ref))
				pre := m.Marshal([]byte{1, 2, 3})
				w.Check(bytes.Equal(pre, append([]byte{1, 2, 3}, ref...)), "dqt-append", "Marshal does not append to the given buffer")
				var got jpeg.DefineQuantizationTable
				err := got.Unmarshal(clone(ref[4:]))
				w.Check(err == nil && deepEq(got, m), "dqt-decode", "DQT %s: %v %s", hx(ref), err, diff(got, m))
				for k := 0; k < len(ref)-4; k++ {
					var got jpeg.DefineQuantizationTable
					err := got.Unmarshal(ref[4 : 4+k : 4+k])
					w.Check((err == nil) == (k%65 == 0), "dqt-truncated", "DQT cut to %d bytes: %v", k, err)
				}
				for i := 0; i < n; i++ {
					x := clone(ref[4:])
					x[65*i] |= byte(16 * (1 + i))
					var got jpeg.DefineQuantizationTable
					w.Check(got.Unmarshal(x) != nil, "dqt-precision", "16-bit or reserved precision accepted")
				}
				w.Ops(int64(len(ref)))
				w.Step(kit.H(ref))
			})
			dims := []int{0, 1, 255, 256, 1080, 65535}
			c.Explore("jpeg-sof", kit.Opt{Bound: "types 0-255 x boundary sizes x 0-2 tables; every length 0-20; every bit of the constant fields"}, func(w *kit.W) {
				m := jpeg.StartOfFrame1{Type: uint8(w.Pick(256)), Width: dims[w.Pick(6)], Height: dims[w.Pick(6)], QuantizationTableCount: uint8(w.Pick(3))}
				s0, q := byte(0x22), byte(0)
				if m.Type&0x3F == 0 {
					s0 = 0x21
				}
				if m.QuantizationTableCount == 2 {
					q = 1
				}
				ref := []byte{0xFF, 0xC0, 0, 17, 8, byte(m.Height >> 8), byte(m.Height), byte(m.Width >> 8), byte(m.Width), 3, 0, s0, 0, 1, 0x11, q, 2, 0x11, q}
				out := m.Marshal([]byte{9})
				w.Check(bytes.Equal(out, append([]byte{9}, ref...)), "sof-encode", "%+v encoded as %x, want %x", m, out[1:], ref)
				got := jpeg.StartOfFrame1{Type: 77, Width: 5, Height: 6}
				err := got.Unmarshal(ref[4:])
				wt := uint8(1)
				if s0 == 0x21 {
					wt = 0
				}
				w.Check(err == nil && got.Type == wt && got.Width == m.Width && got.Height == m.Height, "sof-decode", "SOF %x: %+v %v", ref, got, err)
				for k := 0; k <= 20; k++ {
					if k != 15 {
						w.Check(got.Unmarshal(append(clone(ref[4:]), 0, 0, 0, 0, 0)[:k]) != nil, "sof-length", "SOF of %d bytes accepted", k)
					}
				}
				for _, i := range []int{0, 5, 10, 13, 7} {
					for bit := 0; bit < 8; bit++ {
						x := clone(ref[4:])
						x[i] ^= 1 << uint(bit)
						if i == 7 && (x[i] == 0x21 || x[i] == 0x22) {
							continue
						}
						w.Check(got.Unmarshal(x) != nil, "sof-constant", "SOF %x accepted", x)
					}
				}
				w.Step(kit.H(ref))
			})
			c.Range("jpeg-dri", 1<<16, "all intervals; lengths 0-4", func(w *kit.W) {
				b := []byte{byte(w.Index >> 8), byte(w.Index), 1, 2}
				for k := 0; k <= 4; k++ {
					var m jpeg.DefineRestartInterval
					err := m.Unmarshal(b[:k])
					w.Check((err == nil) == (k == 2) && (k != 2 || uint64(m.Interval) == w.Index), "dri", "DRI %x: %+v %v", b[:k], m, err)
				}
				w.Step(w.Index)
			})
			c.Explore("jpeg-sos-dht-soi", kit.Opt{Bound: "SOS lengths 0-20; huffman tables of all classes and numbers with 16 code counts and 0-255 symbols"}, func(w *kit.W) {
				for k := 0; k <= 20; k++ {
					w.Check((jpeg.StartOfScan{}.Unmarshal(make([]byte, k)) == nil) == (k == 10), "sos-length", "SOS of %d bytes", k)
				}
				out := jpeg.StartOfScan{}.Marshal([]byte{7})
				w.Check(bytes.Equal(out, []byte{7, 0xFF, 0xDA, 0, 12, 3, 0, 0, 1, 0x11, 2, 0x11, 0, 63, 0}), "sos-encode", "SOS encoded as %x", out)
				w.Check(jpeg.StartOfScan{}.Unmarshal(out[5:]) == nil, "sos-decode", "own SOS rejected")
				w.Check(bytes.Equal(jpeg.StartOfImage{}.Marshal(nil), []byte{0xFF, 0xD8}), "soi-encode", "SOI")
				m := jpeg.DefineHuffmanTable{TableClass: w.Pick(2), TableNumber: w.Pick(4), Codes: pat(16, 1), Symbols: pat([]int{0, 1, 12, 162, 255}[w.Pick(5)], 2)}
				n := 3 + 16 + len(m.Symbols)
				ref := append(append([]byte{0xFF, 0xC4, byte(n >> 8), byte(n), byte(m.TableClass<<4 | m.TableNumber)}, m.Codes...), m.Symbols...)
				w.Check(bytes.Equal(m.Marshal(nil), ref), "dht-encode", "DHT encoded as %x, want %x", m.Marshal(nil), ref)
				w.Step(kit.H(ref))
			})
			// MPEG-4 Video
			check := func(w *kit.W, b []byte) {
				got := mpeg4video.IsValidConfig(clone(b)) == nil
				want := refM4V(b)
				w.Check(got == want, "m4v-config", "configuration %x: valid %v, want %v", b, got, want)
				w.Step(kit.H(b))
			}
			m := kit.T(c, 8, 9)
			c.Explore("m4v-strings", kit.Opt{Bound: fmt.Sprintf("a visual object sequence start code, or 2 other beginnings, followed by every string of up to %d bytes over 00 01 20 B5 B6", m)}, func(w *kit.W) {
				b := [][]byte{{0, 0, 1, 0xB0}, {0, 0, 1, 0xB0, 0, 0, 1, 0x05}, {0, 0, 1, 0xB0, 0, 0, 1, 0x20}, {0, 0, 1, 0xB5}, {0, 0, 1}}[w.Pick(5)]
				b = clone(b)
				n := w.Pick(m + 1)
				for i := 0; i < n; i++ {
					b = append(b, []byte{0x00, 0x01, 0x20, 0xB5, 0xB6}[w.Pick(5)])
				}
				check(w, b)
			})
			c.Explore("m4v-units", kit.Opt{Bound: "every sequence of up to 3 units over all 256 start codes at one position and 10 at the others, payloads ending with 0-3 zero bytes, every truncation of the end"}, func(w *kit.W) {
				b := append([]byte{0, 0, 1, 0xB0}, [][]byte{{}, {1}, {0}, {0, 0}}[w.Pick(4)]...)
				n := w.Pick(4)
				full := -1
				if n > 0 {
					full = w.Pick(n)
				}
				for i := 0; i < n; i++ {
					code := byte(0)
					if i == full {
						code = byte(w.Pick(256))
					} else {
						code = []byte{0x00, 0x1F, 0x20, 0x2F, 0x30, 0xB0, 0xB2, 0xB3, 0xB5, 0xB6}[w.Pick(10)]
					}
					b = append(append(b, 0, 0, 1, code), [][]byte{{}, {0x89}, {0, 0, 0}}[w.Pick(3)]...)
				}
				check(w, b)
				for k := 1; k <= 4 && k <= len(b); k++ {
					check(w, b[:len(b)-k])
				}
			})
			c.Explore("m4v-long", kit.Opt{Bound: "configurations with user data around 256 and 65536 bytes, before or after the layer, optionally followed by a picture"}, func(w *kit.W) {
				n := []int{240, 65500, 1 << 20}[w.Pick(3)] + w.Pick(50)
				ud := append([]byte{0, 0, 1, 0xB2}, bytes.Repeat([]byte{0x55}, n)...)
				b := []byte{0, 0, 1, 0xB0, 0x01, 0, 0, 1, 0xB5, 0x89}
				units := [][]byte{{0, 0, 1, 0x05}, {0, 0, 1, 0x25, 0x77, 0x66}}
				at := w.Pick(3)
				for i := 0; i <= 2; i++ {
					if i == at {
						b = append(b, ud...)
					}
					if i < 2 {
						b = append(b, units[i]...)
					}
				}
				if w.Bool() {
					b = append(b, 0, 0, 1, 0xB6, 0x10)
				}
				check(w, b)
			})
		},
	})
}

// refM4V: the start-code-delimited units, found one byte at a time.
func refM4V(b []byte) bool {
	if len(b) < 4 || b[0] != 0 || b[1] != 0 || b[2] != 1 || b[3] != 0xB0 {
		return false
	}
	vo, vol := false, false
	for i := 4; i+3 < len(b); {
		if !(b[i] == 0 && b[i+1] == 0 && b[i+2] == 1) {
			i++
			continue
		}
		switch s := b[i+3]; {
		case s <= 0x1F:
			vo = true
		case s <= 0x2F:
			vol = true
		case s == 0xB5 || s == 0xB2:
		default:
			return false
		}
		i += 4
	}
	return vo && vol
}

// av1encSeq writes a sequence header (without OBU header) and returns what a decoder must produce.
func av1encSeq(pick func(int) int, v valFn) (*av1.SequenceHeader, *bitw, bool) {
	h := &av1.SequenceHeader{}
	b := &bitw{}
	fl := func(def uint64) bool { x := v(def, 1-def); b.u(x, 1); return x == 1 }
	bv := func(n int, def uint64, alts ...uint64) uint64 { x := v(def, alts...); b.u(x, n); return x }
	unsupported := false
	h.SeqProfile = uint8(pick(3))
	b.u(uint64(h.SeqProfile), 3)
	h.ReducedStillPictureHeader = pick(2) == 1
	h.StillPicture = h.ReducedStillPictureHeader || v(0, 1) == 1
	b.flag(h.StillPicture).flag(h.ReducedStillPictureHeader)
	reduced := h.ReducedStillPictureHeader
	if reduced {
		h.OperatingPointIdc = []uint16{0}
		h.SeqLevelIdx = []uint8{uint8(bv(5, 8, 0, 31))}
		h.SeqTier, h.DecoderModelPresentForThisOp, h.InitialDisplayPresentForThisOp = []bool{false}, []bool{false}, []bool{false}
	} else {
		timing := pick(5)
		b.flag(timing > 0)
		if timing > 0 {
			t := &av1.SequenceHeader_TimingInfo{}
			h.TimingInfo = t
			t.NumUnitsInDisplayTick = uint32(bv(32, 1001, 1, 0xFFFFFFFF))
			t.TimeScale = uint32(bv(32, 30000, 1, 0xFFFFFFFF))
			t.EqualPictureInterval = timing > 1
			b.flag(t.EqualPictureInterval)
			if timing > 1 {
				t.NumTicksPerPictureMinus1 = uint32([]uint64{0, 5, 0xFFFFFFFE}[timing-2])
				b.ue(uint64(t.NumTicksPerPictureMinus1))
			}
			if x := v(0, 1); x == 1 { // decoder_model_info_present_flag
				b.u(1, 1)
				b.u(0, 200)
				return h, b, true
			}
			b.u(0, 1)
		}
		if v(0, 1) == 1 { // initial_display_delay_present_flag
			b.u(1, 1).u(0, 200)
			return h, b, true
		}
		b.u(0, 1)
		n := []int{1, 2, 32}[pick(3)]
		h.OperatingPointsCntMinus1 = uint8(n - 1)
		b.u(uint64(n-1), 5)
		for i := 0; i < n; i++ {
			idc := uint16(uint64(i*0x101) & 0xFFF)
			lvl := uint8(i*5) & 31
			if i < 2 {
				idc = uint16(bv(12, uint64(idc), 0xFFF))
				lvl = uint8(bv(5, uint64(lvl), 7, 8, 31))
			} else {
				b.u(uint64(idc), 12).u(uint64(lvl), 5)
			}
			tier := false
			if lvl > 7 {
				tier = i%2 == 0
				b.flag(tier)
			}
			h.OperatingPointIdc = append(h.OperatingPointIdc, idc)
			h.SeqLevelIdx = append(h.SeqLevelIdx, lvl)
			h.SeqTier = append(h.SeqTier, tier)
			h.DecoderModelPresentForThisOp = append(h.DecoderModelPresentForThisOp, false)
			h.InitialDisplayPresentForThisOp = append(h.InitialDisplayPresentForThisOp, false)
			h.InitialDisplayDelayMinus1 = append(h.InitialDisplayDelayMinus1, 0)
		}
	}
	wb := int(v(11, 1, 2, 16))
	hb := int(v(11, 1, 5, 16))
	b.u(uint64(wb-1), 4).u(uint64(hb-1), 4)
	mx := func(n int, def uint64) uint64 {
		m := uint64(1)<<uint(n) - 1
		if def > m {
			def = m
		}
		return v(def, 0, m)
	}
	h.MaxFrameWidthMinus1 = uint32(mx(wb, 1919))
	h.MaxFrameHeightMinus1 = uint32(mx(hb, 803))
	b.u(uint64(h.MaxFrameWidthMinus1), wb).u(uint64(h.MaxFrameHeightMinus1), hb)
	if !reduced {
		h.FrameIDNumbersPresentFlag = pick(2) == 1
		b.flag(h.FrameIDNumbersPresentFlag)
		if h.FrameIDNumbersPresentFlag {
			h.DeltaFrameIDLengthMinus2 = uint8(bv(4, 9, 0, 15))
			h.AdditionalFrameIDLengthMinus1 = uint8(bv(3, 2, 0, 7))
		}
	}
	h.Use128x128Superblock, h.EnableFilterIntra, h.EnableIntraEdgeFilter = fl(1), fl(0), fl(1)
	if reduced {
		h.SeqForceScreenContentTools = 2
		h.SeqForceIntegerMv = 2
	} else {
		h.EnableInterintraCompound, h.EnableMaskedCompound, h.EnableWarpedMotion, h.EnableDualFilter = fl(0), fl(1), fl(0), fl(1)
		h.EnableOrderHint = pick(2) == 1
		b.flag(h.EnableOrderHint)
		if h.EnableOrderHint {
			h.EnableJntComp, h.EnableRefFrameMvs = fl(1), fl(0)
		}
		switch pick(3) {
		case 0:
			h.SeqChooseScreenContentTools = true
			h.SeqForceScreenContentTools = 2
			b.u(1, 1)
		case 1:
			b.u(0, 1).u(0, 1)
		default:
			h.SeqForceScreenContentTools = 1
			b.u(0, 1).u(1, 1)
		}
		h.SeqForceIntegerMv = 2
		if h.SeqForceScreenContentTools > 0 {
			switch pick(3) {
			case 0:
				h.SeqChooseIntegerMv = true
				b.u(1, 1)
			case 1:
				h.SeqForceIntegerMv = 0
				b.u(0, 1).u(0, 1)
			default:
				h.SeqForceIntegerMv = 1
				b.u(0, 1).u(1, 1)
			}
		}
		if h.EnableOrderHint {
			h.OrderHintBitsMinus1 = uint8(bv(3, 6, 0, 7))
		}
	}
	h.EnableSuperRes, h.EnableCdef, h.EnableRestoration = fl(0), fl(1), fl(0)
	// color_config
	cc := &h.ColorConfig
	cc.HighBitDepth = pick(2) == 1
	b.flag(cc.HighBitDepth)
	cc.BitDepth = 8
	if cc.HighBitDepth {
		cc.BitDepth = 10
		if h.SeqProfile == 2 {
			cc.TwelveBit = pick(2) == 1
			b.flag(cc.TwelveBit)
			if cc.TwelveBit {
				cc.BitDepth = 12
			}
		}
	}
	if h.SeqProfile != 1 {
		cc.MonoChrome = pick(2) == 1
		b.flag(cc.MonoChrome)
	}
	desc := pick(6)
	cc.ColorDescriptionPresentFlag = desc > 0
	b.flag(desc > 0)
	cc.ColorPrimaries, cc.TransferCharacteristics, cc.MatrixCoefficients = 2, 2, 2
	if desc > 0 {
		x := [][3]uint64{{1, 13, 0}, {9, 16, 9}, {1, 13, 1}, {1, 1, 0}, {255, 13, 0}}[desc-1]
		cc.ColorPrimaries, cc.TransferCharacteristics, cc.MatrixCoefficients = av1.SequenceHeader_ColorPrimaries(x[0]), av1.SequenceHeader_TransferCharacteristics(x[1]), av1.SequenceHeader_MatrixCoefficients(x[2])
		b.u(x[0], 8).u(x[1], 8).u(x[2], 8)
	}
	switch {
	case cc.MonoChrome:
		cc.ColorRange = fl(0)
		cc.SubsamplingX, cc.SubsamplingY = true, true
	case desc == 1:
		cc.ColorRange = true
		fl(0) // separate_uv_delta_q
	default:
		cc.ColorRange = fl(0)
		switch {
		case h.SeqProfile == 0:
			cc.SubsamplingX, cc.SubsamplingY = true, true
		case h.SeqProfile == 1:
		case cc.BitDepth == 12:
			cc.SubsamplingX = pick(2) == 1
			b.flag(cc.SubsamplingX)
			if cc.SubsamplingX {
				cc.SubsamplingY = pick(2) == 1
				b.flag(cc.SubsamplingY)
			}
		default:
			cc.SubsamplingX = true
		}
		if cc.SubsamplingX && cc.SubsamplingY {
			cc.ChromaSamplePosition = av1.SequenceHeader_ChromaSamplePosition(bv(2, 0, 1, 2, 3))
		}
		fl(0) // separate_uv_delta_q
	}
	h.FilmGrainParamsPresent = fl(0)
	return h, b, unsupported
}
