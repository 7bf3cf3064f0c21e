package props

import (
	"bytes"
	"fmt"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/av1"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/vp8"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/vp9"

	"verif/mc/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID: "H07",
		Assumptions: []string{
			"H.264 and H.265 access units contain no empty NAL units",
			"a VP9 frame is a key frame when its uncompressed header is a well-formed key frame header; a frame that shows an existing frame is not one",
		},
		Run: func(c *kit.Ctx) {
			lens := []int{1, 2, 3, 20}
			type codec struct {
				name string
				f    func(au [][]byte) bool
				ra   func(h byte) bool
			}
			codecs := []codec{
				{"h264", h264.IsRandomAccess, func(h byte) bool { return h&0x1F == 5 }},
				{"h265", h265.IsRandomAccess, func(h byte) bool { t := h >> 1 & 63; return t == 19 || t == 20 || t == 21 }},
				{"av1", av1.IsRandomAccess2, func(h byte) bool { return h>>3&15 == 1 }},
				{"av1-deprecated", func(au [][]byte) bool {
					v, err := av1.IsRandomAccess(au)
					if len(au) == 0 {
						return err == nil
					}
					if err != nil {
						panic(err)
					}
					return v
				}, func(h byte) bool { return h>>3&15 == 1 }},
			}
			for _, k := range codecs {
				k := k
				check := func(w *kit.W, hs []byte, au [][]byte) {
					want := false
					for _, h := range hs {
						want = want || k.ra(h)
					}
					if k.name == "av1-deprecated" {
						want = len(hs) > 0 && k.ra(hs[0])
					}
					got := k.f(au)
					w.Check(got == want, "random-access", "%s: access unit with headers %x: random access %v, want %v", k.name, hs, got, want)
					w.Step(kit.H(k.name, hs, got))
				}
				c.Range(k.name+"-pairs", 256*256, "every pair of header bytes, units of 1 and 3 bytes", func(w *kit.W) {
					a, b := byte(w.Index>>8), byte(w.Index)
					check(w, []byte{a, b}, [][]byte{{a}, {b, 0x26, 0x65}})
					check(w, []byte{a, b}, [][]byte{{a, 0x65, 0x0A}, {b}})
				})
				c.Explore(k.name+"-positions", kit.Opt{Bound: "every header byte at each position of access units of 0-5 units of 1, 2, 3 or 20 bytes among units that are not random access points"}, func(w *kit.W) {
					n := w.Pick(6)
					if n == 0 {
						check(w, nil, nil)
						check(w, nil, [][]byte{})
						return
					}
					pos, h, l := w.Pick(n), byte(w.Pick(256)), kit.Of(w, lens...)
					filler := kit.Of(w, byte(0x02), byte(0x41), byte(0x32))
					var hs []byte
					var au [][]byte
					for i := 0; i < n; i++ {
						x := filler
						if i == pos {
							x = h
						}
						hs = append(hs, x)
						au = append(au, append([]byte{x}, pat(l-1, byte(i))...))
					}
					check(w, hs, au)
				})
				c.Range(k.name+"-many", 260*260, "the only random access unit at each position of, or nowhere in, access units of 1 to 260 units of 1, 2 or 3 bytes", func(w *kit.W) {
					n, pos := int(w.Index%260)+1, int(w.Index/260)
					filler, key := byte(0x02), map[string]byte{"h264": 0x65, "h265": 0x26}[k.name]
					if key == 0 {
						filler, key = 0x32, 0x0A
					}
					if pos > n {
						return
					}
					hs := bytes.Repeat([]byte{filler}, n)
					if pos < n {
						hs[pos] = key
					}
					var au [][]byte
					for i, h := range hs {
						au = append(au, []byte{h, 1, 2}[:1+i%3])
					}
					check(w, hs, au)
				})
			}
			c.Range("av1-empty-obus", 256*4, "every header byte with empty OBUs around", func(w *kit.W) {
				h := byte(w.Index)
				tu := [][][]byte{{{}, {h}}, {{h}, {}}, {{}, {h, 1}, {}}, {nil, {h}}}[w.Index>>8]
				w.Check(av1.IsRandomAccess2(tu) == (h>>3&15 == 1), "random-access", "av1: temporal unit %x", tu)
				w.Step(kit.H(tu))
			})
			c.Range("vp8", 1<<16, "every pair of first bytes, and no byte", func(w *kit.W) {
				a, b := byte(w.Index>>8), byte(w.Index)
				w.Check(vp8.IsRandomAccess([]byte{a, b}) == (a&1 == 0), "random-access", "vp8 frame %x %x", a, b)
				w.Check(vp8.IsRandomAccess([]byte{a}) == (a&1 == 0), "random-access", "vp8 frame %x", a)
				w.Check(!vp8.IsRandomAccess(nil), "random-access", "empty vp8 frame")
				w.Step(kit.H(a, b))
			})
			c.Range("vp9", 1<<16, "every pair of first bytes followed by a key frame header, with the sync code intact, each byte of it wrong, or truncated at each byte", func(w *kit.W) {
				a, b := byte(w.Index>>8), byte(w.Index)
				for variant := 0; variant < 24; variant++ {
					// keep the first 16 bits and put a well-formed rest after the flags
					prof := a>>5&1 | a>>4&1<<1
					bw := (&bitw{}).u(uint64(a)<<8|uint64(b), 16)
					flags := 4
					if prof == 3 {
						flags = 5
					}
					bw.b = bw.b[:flags+4]
					show := bw.b[flags] == 1
					key := bw.b[flags+1] == 0
					sync := uint64(0x498342)
					if variant >= 1 && variant <= 3 {
						sync ^= 1 << uint(8*(variant-1)+3)
					}
					if show {
						bw = (&bitw{}).u(uint64(a)<<8|uint64(b), 16).u(sync, 24).u(0, 48)
					} else {
						bw.u(sync, 24)
						if prof >= 2 {
							bw.u(0, 1)
						}
						bw.u(2, 3).u(0, 1)
						if prof == 1 || prof == 3 {
							bw.u(0, 2).u(0, 1)
						}
						bw.u(1919, 16).u(1079, 16)
					}
					need := len(bw.b)
					frame := bw.align().out()
					if variant >= 4 {
						if variant-4 > len(frame) {
							continue
						}
						frame = frame[:variant-4]
					}
					want := a>>6 == 2 && !show && key && !(variant >= 1 && variant <= 3) && len(frame)*8 >= need
					got := vp9.IsRandomAccess(clone(frame))
					w.Check(got == want, "random-access", "vp9 frame %x (%s): random access %v, want %v", frame, fmt.Sprintf("show existing %v, key %v", show, key), got, want)
					w.Step(kit.H(frame))
				}
			})
		},
	})
}
