package props

import (
	"bytes"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"

	"verif/mc/kit"
)

// refAnnexB is the reference splitter: scan byte by byte for 00 00 01, with one
// optional zero byte before it belonging to the delimiter.
func refAnnexB(b []byte) ([][]byte, bool) {
	start := -1
	if bytes.HasPrefix(b, []byte{0, 0, 1}) {
		start = 3
	} else if bytes.HasPrefix(b, []byte{0, 0, 0, 1}) {
		start = 4
	} else {
		return nil, false
	}
	var out [][]byte
	add := func(s, e int) {
		if e > s {
			out = append(out, b[s:e])
		}
	}
	for i := start; i < len(b); {
		if i+3 <= len(b) && b[i] == 0 && b[i+1] == 0 && b[i+2] == 1 {
			e := i
			if e > start && b[e-1] == 0 {
				e--
			}
			add(start, e)
			i += 3
			start = i
			continue
		}
		i++
	}
	add(start, len(b))
	return out, len(out) > 0
}

func refAVCC(b []byte) ([][]byte, bool) {
	var out [][]byte
	for {
		if len(b) < 4 {
			return nil, false
		}
		l := int(b[0])<<24 | int(b[1])<<16 | int(b[2])<<8 | int(b[3])
		b = b[4:]
		if l > len(b) {
			return nil, false
		}
		if l > 0 {
			out = append(out, b[:l])
		}
		b = b[l:]
		if len(b) == 0 {
			return out, len(out) > 0
		}
	}
}

func sameUnits(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func init() {
	kit.Register(&kit.Check{
		ID: "H01",
		Assumptions: []string{
			"NAL units that are framed obey the specification: not empty, no start code inside, not ending with a zero byte (Annex-B only)",
			"at most one zero byte before a start code is a delimiter byte; further trailing zero bytes are returned with the unit",
		},
		Run: func(c *kit.Ctx) {
			maxLen := kit.T(c, 10, 12)
			alpha := []byte{0, 1, 0x65, 3}
			c.Explore("annexb-all-strings", kit.Opt{Bound: "every byte string over {00,01,65} up to the bound after either start code, decoded and compared with a reference splitter"}, func(w *kit.W) {
				var b []byte
				switch w.Pick(4) {
				case 0:
					b = []byte{0, 0, 1}
				case 1:
					b = []byte{0, 0, 0, 1}
				case 2:
					b = []byte{}
				default:
					b = []byte{0, 0, 0, 0, 1}
				}
				n := w.Pick(maxLen + 1)
				for i := 0; i < n; i++ {
					b = append(b, alpha[w.Pick(3)])
				}
				b = clone(b)
				in := clone(b)
				var a h264.AnnexB
				err := a.Unmarshal(b)
				want, ok := refAnnexB(in)
				w.Check((err == nil) == ok, "annexb-accept", "Annex-B %x: err=%v, reference ok=%v units=%x", b, err, ok, want)
				w.Check(bytes.Equal(b, in), "annexb-input", "input changed")
				if ok {
					w.Check(sameUnits(a, want), "annexb-units", "Annex-B %x gives %x, want %x", b, [][]byte(a), want)
				}
				w.Step(kit.H(len(want), ok, b))
				w.Sample("%x", b)
			})
			c.Explore("avcc-all-strings", kit.Opt{Bound: "every byte string over {00,01,02,65} up to the bound"}, func(w *kit.W) {
				n := w.Pick(kit.T(c, 9, 11) + 1)
				b := make([]byte, 0, n)
				for i := 0; i < n; i++ {
					b = append(b, []byte{0, 1, 2, 0x65}[w.Pick(4)])
				}
				var a h264.AVCC
				err := a.Unmarshal(b)
				want, ok := refAVCC(b)
				w.Check((err == nil) == ok, "avcc-accept", "AVCC %x: err=%v, reference ok=%v", b, err, ok)
				if ok {
					w.Check(sameUnits(a, want), "avcc-units", "AVCC %x gives %x, want %x", b, [][]byte(a), want)
				}
				w.Step(kit.H(b, ok))
			})
			c.Explore("avcc-structured", kit.Opt{Bound: "up to 4 length fields among 0,1,2,3,255,256,65536,2^24,2^31,2^32-1 with 0-3 bytes missing or in excess"}, func(w *kit.W) {
				n := 1 + w.Pick(3)
				var b []byte
				for i := 0; i < n; i++ {
					l := []int{0, 1, 2, 3, 255, 256, 65536, 1 << 24, 1 << 31, 1<<32 - 1}[w.Pick(kit.T(c, 9, 10))]
					b = append(b, byte(l>>24), byte(l>>16), byte(l>>8), byte(l))
					if l <= 65536 {
						b = append(b, pat(l, byte(i))...)
					}
				}
				d := w.Pick(7) - 3
				if d < 0 {
					b = b[:len(b)+d]
				} else {
					b = append(b, make([]byte, d)...)
				}
				b = clone(b)
				var a h264.AVCC
				err := a.Unmarshal(b)
				want, ok := refAVCC(b)
				w.Check((err == nil) == ok, "avcc-accept", "AVCC %s: err=%v, reference ok=%v", hx(b), err, ok)
				if ok {
					w.Check(sameUnits(a, want), "avcc-units", "AVCC %s gives %d units", hx(b), len(a))
				}
				w.Step(kit.H(b, ok))
			})
			c.Explore("round-trip", kit.Opt{Bound: "lists of up to 3 NAL units among all conformant strings of up to 4 bytes over {00,01,65,03} plus sizes 100, 255-257, 65535-65537"}, func(w *kit.W) {
				n := 1 + w.Pick(3)
				var au [][]byte
				for i := 0; i < n; i++ {
					var u []byte
					if w.Bool() {
						u = pat([]int{100, 255, 256, 257, 65535, 65536, 65537}[w.Pick(7)], byte(i))
						for j := range u {
							u[j] |= 4
						}
					} else {
						l := 1 + w.Pick(kit.T(c, 3, 4))
						for j := 0; j < l; j++ {
							u = append(u, alpha[w.Pick(4)])
						}
						if u[len(u)-1] == 0 {
							u[len(u)-1] = 0x65
						}
						if bytes.Contains(u, []byte{0, 0, 1}) || bytes.Contains(u, []byte{0, 0, 0}) {
							continue
						}
					}
					au = append(au, u)
				}
				if len(au) == 0 {
					return
				}
				b, err := h264.AnnexB(au).Marshal()
				w.Check(err == nil, "annexb-marshal", "%v", err)
				var ref []byte
				for _, u := range au {
					ref = append(ref, 0, 0, 0, 1)
					ref = append(ref, u...)
				}
				w.Check(bytes.Equal(b, ref), "annexb-marshal", "Annex-B of %d units is %s, want %s", len(au), hx(b), hx(ref))
				var a h264.AnnexB
				w.Check(a.Unmarshal(b) == nil && sameUnits(a, au), "annexb-roundtrip", "Annex-B round trip of %x gives %x", au, [][]byte(a))
				w.Step(kit.H(b))
				// 3-byte delimiters
				var b3 []byte
				for _, u := range au {
					b3 = append(b3, 0, 0, 1)
					b3 = append(b3, u...)
				}
				a = nil
				w.Check(a.Unmarshal(b3) == nil && sameUnits(a, au), "annexb-roundtrip3", "with 3-byte start codes, %x gives %x", au, [][]byte(a))
				b, err = h264.AVCC(au).Marshal()
				w.Check(err == nil, "avcc-marshal", "%v", err)
				want, ok := refAVCC(b)
				w.Check(ok && sameUnits(want, au), "avcc-marshal", "AVCC encoding of %x is %s", au, hx(b))
				var v h264.AVCC
				w.Check(v.Unmarshal(b) == nil && sameUnits(v, au), "avcc-roundtrip", "AVCC round trip")
				w.Step(kit.H(b))
				w.Sample("%d units, first %s", len(au), hx(au[0]))
			})
			c.Explore("limits", kit.Opt{Bound: "unit counts 49-51 (and with empty units in between), total sizes 8 MiB -1, +0, +1 in 1-3 units"}, func(w *kit.W) {
				var au [][]byte
				wantOK := true
				avcc := w.Bool()
				four := w.Bool()
				if w.Bool() {
					n := []int{1, 2, 49, 50, 51, 100}[w.Pick(6)]
					gap := w.Pick(3)
					for i := 0; i < n; i++ {
						au = append(au, []byte{0x65, byte(i) | 0x80})
						for g := 0; g < gap; g++ {
							au = append(au, nil)
						}
					}
					wantOK = n <= 50
				} else {
					total := h264.MaxAccessUnitSize - 1 + w.Pick(3)
					parts := 1 + w.Pick(3)
					body := bytes.Repeat([]byte{0x65}, total)
					for i := 0; i < parts; i++ {
						s := total / parts
						if i == parts-1 {
							s = len(body)
						}
						au = append(au, body[:s])
						body = body[s:]
					}
					wantOK = total <= h264.MaxAccessUnitSize
				}
				var b []byte
				for _, u := range au {
					switch {
					case avcc:
						b = append(b, byte(len(u)>>24), byte(len(u)>>16), byte(len(u)>>8), byte(len(u)))
					case four:
						b = append(b, 0, 0, 0, 1)
					default:
						b = append(b, 0, 0, 1)
					}
					b = append(b, u...)
				}
				var got [][]byte
				var err error
				if avcc {
					var v h264.AVCC
					err = v.Unmarshal(b)
					got = v
				} else {
					var v h264.AnnexB
					err = v.Unmarshal(b)
					got = v
				}
				w.Check((err == nil) == wantOK, "limits", "avcc=%v units=%d bytes=%d: err=%v, want ok=%v", avcc, len(au), len(b), err, wantOK)
				if wantOK {
					var want [][]byte
					for _, u := range au {
						if len(u) > 0 {
							want = append(want, u)
						}
					}
					w.Check(sameUnits(got, want), "limits-units", "avcc=%v units=%d bytes=%d", avcc, len(au), len(b))
				}
				w.Step(kit.H(len(au), len(b), err == nil))
			})
		},
	})
	kit.Register(&kit.Check{
		ID:          "H02",
		Assumptions: []string{"byte values other than 00-04 and FF behave like FF (the rule only compares with 0, 1, 2 and 3)"},
		Run: func(c *kit.Ctx) {
			alpha := []byte{0, 1, 2, 3, 4, 0xFF}
			n := kit.T(c, 9, 10)
			tot := uint64(1)
			for i := 0; i < n; i++ {
				tot *= 6
			}
			c.Range("all-payloads", tot, "every payload over {00,01,02,03,04,FF} up to the bound length (9 quick, 10 thorough)", func(w *kit.W) {
				x := w.Index
				// lengths: strings are numbers in base 6 without their leading digits equal to 0xFF (digit 5)
				b := make([]byte, 0, 12)
				for i := 0; i < n; i++ {
					b = append(b, alpha[x%6])
					x /= 6
				}
				for len(b) > 0 && b[0] == 4 { // shorter strings
					b = b[1:]
				}
				checkEPB(w, b)
			})
			c.Range("long-runs", 1<<20, "20-byte payloads of zeros with every placement of 03 bytes", func(w *kit.W) {
				b := make([]byte, 20)
				for i := range b {
					if w.Index>>uint(i)&1 == 1 {
						b[i] = 3
					}
				}
				checkEPB(w, b)
			})
			counts := make([]int, 0, 700)
			for i := 0; i <= 600; i++ {
				counts = append(counts, i)
			}
			counts = append(counts, 1023, 1024, 1025, 4095, 4096, 4097, 32768, 65535, 65536, 65537)
			pats := 4 + 16 + 64 + 256
			c.Range("repeated", uint64(len(counts)*pats), "every pattern of 1-4 bytes over {00,01,03,FF} repeated 0 to 600 times, and 1 Ki, 4 Ki, 32 Ki and 64 Ki times", func(w *kit.W) {
				n, x := counts[w.Index/uint64(pats)], int(w.Index%uint64(pats))
				l := 1
				for s := 4; x >= s; s *= 4 {
					x -= s
					l++
				}
				p := make([]byte, l)
				for i := range p {
					p[i] = []byte{0, 1, 3, 0xFF}[x>>uint(2*i)&3]
				}
				checkEPB(w, append(append([]byte{0x65}, bytes.Repeat(p, n)...), 0x80))
			})
			c.Range("raw-strings", tot/6, "every string decoded as is, compared with a reference remover", func(w *kit.W) {
				x := w.Index
				b := make([]byte, 0, 12)
				for i := 0; i < n-1; i++ {
					b = append(b, alpha[x%6])
					x /= 6
				}
				for len(b) > 0 && b[0] == 4 {
					b = b[1:]
				}
				var want []byte
				z := 0
				for _, v := range b {
					if z >= 2 && v == 3 {
						z = 0
						continue
					}
					want = append(want, v)
					if v == 0 {
						z++
					} else {
						z = 0
					}
				}
				in := clone(b)
				got := h264.EmulationPreventionRemove(in)
				w.Check(bytes.Equal(got, want), "epb-raw", "removing from %x gives %x, want %x", b, got, want)
				w.Check(bytes.Equal(in, b), "epb-input", "input changed")
				w.Step(kit.H(got))
			})
			c.Range("every-byte-value", 256*256, "00 00 03 XX YY for every XX, YY: a 03 after two zero bytes is removed and nothing else", func(w *kit.W) {
				x, y := byte(w.Index>>8), byte(w.Index)
				for _, p := range [][]byte{{x, y}, {0, x, y}, {0, 0, x, y}, {x, 0, 0, y}, {0, 0, 3, x, y}, {x, y, 0, 0, 1}} {
					checkEPB(w, p)
				}
			})
		},
	})
}

func checkEPB(w *kit.W, b []byte) {
	e := clone(emulate(b))
	in := clone(e)
	got := h264.EmulationPreventionRemove(e)
	w.Check(bytes.Equal(got, b), "epb", "payload %s encoded as %s gives %s back", hx(b), hx(e), hx(got))
	w.Check(bytes.Equal(in, e), "epb-input", "input changed")
	w.Step(kit.H(e))
	w.Sample("%s -> %s", hx(b), hx(e))
}
