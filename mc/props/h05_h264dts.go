package props

import (
	"fmt"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"

	"verif/mc/kit"
)

// miniGOP is a group of pictures in decoding order: display offset from the previous anchor
// and whether the picture is used as reference.
type miniPic struct {
	off int
	ref bool
	b   bool
}

var miniGOPs = []struct {
	name string
	pics []miniPic
}{
	{"P", []miniPic{{1, true, false}}},
	{"PB", []miniPic{{2, true, false}, {1, false, true}}},
	{"PBB", []miniPic{{3, true, false}, {1, false, true}, {2, false, true}}},
	{"PbB", []miniPic{{3, true, false}, {2, true, true}, {1, false, true}}},
	{"PbBB", []miniPic{{4, true, false}, {2, true, true}, {1, false, true}, {3, false, true}}},
	{"PBBB", []miniPic{{4, true, false}, {1, false, true}, {2, false, true}, {3, false, true}}},
	{"pyramid8", []miniPic{{8, true, false}, {4, true, true}, {2, true, true}, {1, false, true}, {3, false, true}, {6, true, true}, {5, false, true}, {7, false, true}}},
}

type modelPic struct {
	idr     bool
	cra     bool
	leading bool // displayed before the CRA it follows
	disp    int
	ref, b  bool
	poc     int   // display distance from the last IDR
	extra   int64 // added to the PTS
}

// gaps are pauses between pictures.
var gaps = []int64{1, 90000, 1<<24 + 1, 1<<31 - 1, 1 << 31, 1<<32 + 77, 1 << 33, 1 << 40}

// withGap delays every picture displayed at or after one of the pictures of a stream.
func withGap(pics []modelPic, at int, gap int64) {
	for i := range pics {
		if pics[i].disp >= at {
			pics[i].extra += gap
		}
	}
}

// buildStream expands a list of mini GOPs (index len(miniGOPs) = IDR, +1 = CRA group) into pictures in decoding order.
func buildStream(seq []int) []modelPic {
	out := []modelPic{{idr: true, ref: true}}
	disp, idrDisp := 0, 0
	for _, m := range seq {
		if m == len(miniGOPs) {
			disp++
			idrDisp = disp
			out = append(out, modelPic{idr: true, ref: true, disp: disp})
			continue
		}
		if m == len(miniGOPs)+1 {
			// open GOP: CRA displayed after one leading picture
			out = append(out, modelPic{cra: true, ref: true, disp: disp + 2, poc: disp + 2 - idrDisp})
			out = append(out, modelPic{leading: true, b: true, disp: disp + 1, poc: disp + 1 - idrDisp})
			disp += 2
			continue
		}
		mx := 0
		for _, p := range miniGOPs[m].pics {
			out = append(out, modelPic{disp: disp + p.off, ref: p.ref, b: p.b, poc: disp + p.off - idrDisp})
			if p.off > mx {
				mx = p.off
			}
		}
		disp += mx
	}
	return out
}

func seqName(seq []int) string {
	s := "IDR"
	for _, m := range seq {
		switch {
		case m < len(miniGOPs):
			s += " " + miniGOPs[m].name
		case m == len(miniGOPs):
			s += " IDR"
		default:
			s += " CRA+B"
		}
	}
	return s
}

// reorderDepth is how many pictures a decoder must hold back at most.
func reorderDepth(pics []modelPic) int {
	r := 0
	for n, p := range pics {
		if n-p.disp > r {
			r = n - p.disp
		}
	}
	return r
}

// ptsBases are start times around the limits of integer types and of the 33-bit clock.
var ptsBases = []int64{0, 1<<31 - 5000, 1 << 31, 1<<32 - 5000, 1 << 32, 1<<33 - 5000, 1 << 33, 1<<40 - 5000, 1 << 40, 1 << 62, -1, -5000, -1 << 31, -1<<31 - 5000, -1 << 32, -1 << 33, -1 << 62}

type h264StreamCfg struct {
	log2poc, log2fn int
	sliceType       uint64
	ppsID           uint64
	sepPlanes       bool
	pre             int // NAL units before the slice: 0 none, 1 AUD, 2 AUD+SEI
	inc             int
	idrPOC          int
	spsVariant      int
	idrPicID        int
}

func h264dtsSPS(cfg h264StreamCfg, pocType uint32, fmo bool) []byte {
	sh := spsShape{profile: 66, chroma: 1, poc: pocType, fmo: fmo}
	if cfg.sepPlanes {
		sh.profile, sh.chroma, sh.sep = 244, 3, true
	}
	b := (&bitw{}).u(uint64(sh.profile), 8).u(0, 8).u(31, 8).ue(0)
	if cfg.sepPlanes {
		b.ue(3).u(1, 1).ue(0).ue(0).u(0, 1).u(0, 1)
	}
	b.ue(uint64(cfg.log2fn - 4)).ue(uint64(pocType))
	switch pocType {
	case 0:
		b.ue(uint64(cfg.log2poc - 4))
	case 1:
		b.u(0, 1).se(0).se(0).ue(0)
	}
	b.ue(4).u(0, 1).ue(uint64(19 + cfg.spsVariant)).ue(14)
	if fmo {
		b.u(1, 1)
	} else {
		b.u(0, 1).u(0, 1)
	}
	b.u(1, 1).u(0, 1).u(0, 1)
	return append([]byte{0x67}, emulate(b.rbspTrailing().out())...)
}

func h264slice(cfg h264StreamCfg, p modelPic, frameNum int) []byte {
	b := (&bitw{}).ue(0).ue(cfg.sliceType).ue(cfg.ppsID)
	if cfg.sepPlanes {
		b.u(2, 2) // colour_plane_id
	}
	b.u(uint64(frameNum)&(1<<uint(cfg.log2fn)-1), cfg.log2fn)
	hdr := byte(1)
	if p.idr {
		hdr = 5
		b.ue(uint64(cfg.idrPicID))
	}
	if p.ref {
		hdr |= 0x60
	}
	poc := p.poc*cfg.inc + cfg.idrPOC
	b.u(uint64(poc)&(1<<uint(cfg.log2poc)-1), cfg.log2poc)
	b.u(0x155, 9).rbspTrailing()
	return append([]byte{hdr}, emulate(append(b.out(), 0x88, 0x84, 0x21))...)
}

func h264AU(cfg h264StreamCfg, p modelPic, n int, sps []byte) [][]byte {
	var au [][]byte
	if cfg.pre > 0 {
		au = append(au, []byte{0x09, 0xF0})
	}
	if p.idr {
		au = append(au, clone(sps), []byte{0x68, 0xCE, 0x38, 0x80})
	}
	if cfg.pre > 1 {
		au = append(au, []byte{0x06, 0x05, 0x01, 0x00, 0x80})
	}
	s := h264slice(cfg, p, n)
	au = append(au, s)
	if cfg.pre > 1 {
		au = append(au, s)
	}
	return au
}

// runDTS feeds the pictures to extract and checks the guarantees: a DTS for every picture, never going back, not later
// than the PTS once strict(n) holds, within hold of it before; when steady is not zero, the DTSs of the last
// pictures are spaced by exactly one frame duration.
func runDTS(w *kit.W, name string, pics []modelPic, base, T int64, hold int64, strict func(n int) bool, steady int,
	extract func(p modelPic, n int, pts int64) (int64, error),
) {
	prev, filled := int64(0), false
	for n, p := range pics {
		pts := base + int64(p.disp)*T + p.extra
		dts, err := extract(p, n, pts)
		w.Trace("%d: display %d pts-base=%d dts-base=%d err=%v", n, p.disp, pts-base, dts-base, err)
		w.Check(err == nil, "dts-error", "%s: picture %d (display %d, T=%d): %v", name, n, p.disp, T, err)
		if filled {
			w.Check(dts >= prev, "dts-monotonic", "%s: DTS of picture %d goes back from %d to %d", name, n, prev-base, dts-base)
		}
		if strict(n) {
			w.Check(dts <= pts, "dts-after-pts", "%s: picture %d (display %d): DTS %d is later than PTS %d", name, n, p.disp, dts-base, pts-base)
		} else {
			w.Check(dts <= pts+hold, "dts-after-pts", "%s: picture %d (display %d): DTS %d is later than PTS %d by more than the hold-back", name, n, p.disp, dts-base, pts-base)
		}
		if steady != 0 && n >= len(pics)-steady {
			d := dts - prev - T
			w.Check(d >= -2 && d <= 2, "dts-spacing", "%s: picture %d: DTS advances by %d in the steady state of a stream with frame duration %d", name, n, dts-prev, T)
		}
		prev, filled = dts, true
		w.Step(kit.H(n, dts-base, pts-base, T))
	}
}

func init() {
	kit.Register(&kit.Check{
		ID: "H05",
		Assumptions: []string{
			"streams are progressive, of constant frame rate (at most 120 fps), save for pauses before an IDR, with a picture order count that advances by 2 per frame from one IDR to the next (by 1 in the poc-increment-1 explorations, where the first 24 pictures, decoded before the increment and the depth are known, may have DTSs later than their PTSs); mini GOPs as listed in the harness",
			"access units contain no empty NAL units",
			"while a reordering depth deeper than any seen before is being discovered, the extractor deliberately holds DTSs back by 90 ticks per picture, which may exceed the PTS (skipChecks in the code)",
		},
		Run: func(c *kit.Ctx) {
			depth := kit.T(c, 6, 7)
			all := h264StreamCfg{log2poc: 8, log2fn: 4, inc: 2}
			runPics := func(w *kit.W, cfg h264StreamCfg, seq []int, pics []modelPic, base, T int64, steady int) {
				R := reorderDepth(pics)
				sps := h264dtsSPS(cfg, 0, true)
				d := &h264.DTSExtractor{}
				d.Initialize()
				if len(seq)%2 == 1 {
					d = h264.NewDTSExtractor() // deprecated
				}
				// depth is known R pictures after the first picture that needs it
				first := len(pics)
				for n, p := range pics {
					if n-p.disp == R {
						first = n
						break
					}
				}
				name := fmt.Sprintf("%s (poc bits %d)", seqName(seq[:min(len(seq), 100)]), cfg.log2poc)
				runDTS(w, name, pics, base, T, 90*16, func(n int) bool { return n > first+R }, steady, func(p modelPic, n int, pts int64) (int64, error) {
					return d.Extract(h264AU(cfg, p, n, sps), pts)
				})
				w.Sample("%s T=%d base=%d depth=%d pictures=%d", name, T, base, R, len(pics))
			}
			run := func(w *kit.W, cfg h264StreamCfg, seq []int, base, T int64, steady int) {
				runPics(w, cfg, seq, buildStream(seq), base, T, steady)
			}
			c.Explore("gop-structures", kit.Opt{Bound: fmt.Sprintf("every sequence of %d mini GOPs (P, PB, PBB, PbB, PbBB, PBBB, 8-pyramid, IDR) x frame durations 3003, 1501, 750, 18000", depth)}, func(w *kit.W) {
				T := []int64{3003, 1501, 750, 18000}[w.Pick(4)]
				var seq []int
				for i := 0; i < depth; i++ {
					seq = append(seq, w.Pick(len(miniGOPs)+1))
				}
				run(w, all, seq, 900000, T, 0)
			})
			c.Explore("uniform-long", kit.Opt{Bound: "40 repetitions of every pair of mini GOPs (POC wrap-around for 4-16 bits), every slice header layout"}, func(w *kit.W) {
				cfg := h264StreamCfg{inc: 2}
				cfg.log2poc = []int{4, 5, 6, 8, 12, 16}[w.Pick(6)]
				cfg.log2fn = []int{4, 9, 16}[w.Pick(3)]
				cfg.sliceType = []uint64{0, 7}[w.Pick(2)]
				cfg.ppsID = []uint64{0, 255}[w.Pick(2)]
				cfg.sepPlanes = w.Bool()
				cfg.pre = w.Pick(3)
				cfg.idrPicID = map[int]int{4: 0, 9: 300, 16: 65535}[cfg.log2fn]
				a, b := w.Pick(len(miniGOPs)), w.Pick(len(miniGOPs))
				for _, m := range []int{a, b} {
					// pictures further apart than half of the POC range are not decodable
					for _, p := range miniGOPs[m].pics {
						if p.off*2 >= 1<<uint(cfg.log2poc-1) {
							return
						}
					}
				}
				var seq []int
				for i := 0; i < 40; i++ {
					seq = append(seq, a, b)
				}
				run(w, cfg, seq, -50000, 3000, 20)
			})
			c.Explore("very-long", kit.Opt{Bound: "every mini GOP repeated for 70000 pictures without any other IDR, 4, 8 and 16 bits of POC (two wrap-arounds of the longest)"}, func(w *kit.W) {
				cfg := h264StreamCfg{inc: 2, log2fn: 4}
				cfg.log2poc = []int{5, 8, 16}[w.Pick(3)]
				m := w.Pick(len(miniGOPs))
				for _, p := range miniGOPs[m].pics {
					if p.off*2 >= 1<<uint(cfg.log2poc-1) {
						return
					}
				}
				var seq []int
				for i := 0; i < 70000/len(miniGOPs[m].pics); i++ {
					seq = append(seq, m)
				}
				run(w, cfg, seq, 0, 3000, 60000)
			})
			c.Explore("bases", kit.Opt{Bound: "streams that start at 17 times around the limits of 31, 32, 33, 40 and 62 bits, positive and negative; every triple of mini GOPs"}, func(w *kit.W) {
				seq := []int{w.Pick(len(miniGOPs) + 1), w.Pick(len(miniGOPs) + 1), w.Pick(len(miniGOPs) + 1)}
				run(w, all, seq, kit.Of(w, ptsBases...), 3003, 0)
			})
			c.Explore("gaps", kit.Opt{Bound: "every sequence of 2 mini GOPs, IDR, 2 mini GOPs, IDR and the first 2 mini GOPs again, with one of 8 pauses (1 tick to 2^40) or none before each IDR but the first"}, func(w *kit.W) {
				m := func() int { return w.Pick(len(miniGOPs)) }
				a, b, idr := m(), m(), len(miniGOPs)
				seq := []int{a, b, idr, m(), m(), idr, a, b}
				pics := buildStream(seq)
				g := append([]int64{0}, gaps...)
				for _, p := range pics[1:] {
					if p.idr {
						withGap(pics, p.disp, kit.Of(w, g...))
					}
				}
				runPics(w, all, seq, pics, 900000, 3003, 0)
			})
			c.Explore("idr-poc", kit.Opt{Bound: "non-zero POC of the IDR 2, 4, 8, every sequence of 3 mini GOPs"}, func(w *kit.W) {
				cfg := all
				cfg.idrPOC = []int{2, 4, 8}[w.Pick(3)]
				var seq []int
				for i := 0; i < 3; i++ {
					seq = append(seq, w.Pick(len(miniGOPs)+1))
				}
				run(w, cfg, seq, 1<<33, 3600, 0)
			})
			c.Explore("poc-increment-1-4", kit.Opt{Bound: "streams without reordering whose POC advances by 1 or 4 per frame: every 6-tuple of groups of P pictures and IDRs, PTS jitter"}, func(w *kit.W) {
				cfg := h264StreamCfg{log2poc: []int{8, 16}[w.Pick(2)], log2fn: 4, inc: []int{1, 4}[w.Pick(2)]}
				var seq []int
				for i := 0; i < 6; i++ {
					for k := 0; k < 3; k++ {
						seq = append(seq, 0)
					}
					if w.Bool() {
						seq = append(seq, 7)
					}
				}
				pics := buildStream(seq)
				d := &h264.DTSExtractor{}
				d.Initialize()
				sps := h264dtsSPS(cfg, 0, true)
				runDTS(w, seqName(seq), pics, 0, 3000, 90*16, func(n int) bool { return true }, 3, func(p modelPic, n int, pts int64) (int64, error) {
					return d.Extract(h264AU(cfg, p, n, sps), pts)
				})
			})
			// the increment is assumed to be 2 until an odd POC is met: DTSs of the pictures before it are too late
			inc1 := func(w *kit.W, bits int, seq []int, T int64, steady int, key string) {
				cfg := h264StreamCfg{log2poc: bits, log2fn: 4, inc: 1}
				pics := buildStream(seq)
				d := &h264.DTSExtractor{}
				d.Initialize()
				sps := h264dtsSPS(cfg, 0, true)
				hold := 90*16 + 8*T
				runDTS(w, seqName(seq[:min(len(seq), 20)]), pics, 900000, T, hold, func(n int) bool { return n > 24 }, steady, func(p modelPic, n int, pts int64) (int64, error) {
					dts, err := d.Extract(h264AU(cfg, p, n, sps), pts)
					if key != "" {
						w.Check(err == nil, key, "%s with a POC increment of 1: picture %d: %v", seqName(seq[:min(len(seq), 20)]), n, err)
					}
					return dts, err
				})
			}
			c.Explore("poc-increment-1-reordering", kit.Opt{Bound: "streams whose POC advances by 1 per frame: every pair and every 4-tuple of mini GOPs repeated, 4 to 16 POC bits; not those that start with PBBB (see poc-increment-1-pbbb)"}, func(w *kit.W) {
				var pat []int
				for n := []int{2, 4}[w.Pick(2)]; n > 0; n-- {
					pat = append(pat, w.Pick(len(miniGOPs)))
				}
				if pat[0] == 5 {
					return
				}
				var seq []int
				for len(seq) < 40 {
					seq = append(seq, pat...)
				}
				inc1(w, []int{6, 8, 16}[w.Pick(3)], seq, []int64{3003, 18000}[w.Pick(2)], 16, "")
			})
			c.Explore("poc-increment-1-pbbb", kit.Opt{Bound: "streams whose POC advances by 1 per frame and start with PBBB"}, func(w *kit.W) {
				inc1(w, 8, []int{5, w.Pick(len(miniGOPs)), 5, 0, 1}, 3003, 0, "poc1-pbbb")
			})
			c.Explore("no-reordering-types", kit.Opt{Bound: "POC type 2 and interlaced streams without reordering: DTS is the PTS; POC type 1 is an error"}, func(w *kit.W) {
				pt := uint32(w.Pick(3))
				fmo := w.Bool()
				cfg := all
				d := &h264.DTSExtractor{}
				d.Initialize()
				sps := h264dtsSPS(cfg, pt, fmo)
				for n, p := range buildStream([]int{0, 0, 7, 0, 0}) {
					pts := int64(1000 + n*3000)
					dts, err := d.Extract(h264AU(cfg, p, n, sps), pts)
					w.Step(kit.H(dts, pt, fmo))
					if pt == 1 && fmo {
						w.Check(err != nil, "dts-poc1", "POC type 1 accepted")
						continue
					}
					w.Check(err == nil, "dts-error", "POC type %d, frame_mbs_only %v: %v", pt, fmo, err)
					w.Check(dts == pts || (n < 2 && dts <= pts), "dts-no-reorder", "POC type %d, frame_mbs_only %v: picture %d has DTS %d, PTS %d", pt, fmo, n, dts, pts)
				}
			})
			c.Explore("sps-change", kit.Opt{Bound: "every pair of sequences of 2 mini GOPs, the first cut after every picture, with different SPSs, or a repeated SPS, in between; all access units in the same, reused buffers"}, func(w *kit.W) {
				var s1, s2 []int
				for i := 0; i < 2; i++ {
					s1 = append(s1, w.Pick(len(miniGOPs)+1))
				}
				for i := 0; i < 2; i++ {
					s2 = append(s2, w.Pick(len(miniGOPs)+1))
				}
				change := w.Pick(4)
				cfg1, cfg2 := all, all
				if change >= 1 {
					cfg2.spsVariant = 5
				}
				if change >= 2 {
					cfg2.log2poc, cfg2.log2fn = 6, 8
				}
				pocType2 := uint32(0)
				if change == 3 {
					pocType2 = 2
					s2 = []int{0, 0}
				}
				p1 := buildStream(append(s1, 7))
				// the first stream can end at any picture
				p1 = p1[:1+w.Pick(len(p1))]
				p2 := buildStream(s2)
				fresh := &h264.DTSExtractor{}
				fresh.Initialize()
				d := &h264.DTSExtractor{}
				d.Initialize()
				sps1, sps2 := padTo(h264dtsSPS(cfg1, 0, true), h264dtsSPS(cfg2, pocType2, true))
				var mem nalArena
				last := 0
				for _, p := range p1 {
					last = max(last, p.disp)
				}
				prev := int64(-1 << 60)
				for n, p := range append(p1, p2...) {
					cfg, sps := cfg1, sps1
					if n >= len(p1) {
						cfg, sps = cfg2, sps2
						p.disp += last + 1
					}
					pts := int64(p.disp) * 3000
					dts, err := d.Extract(mem.put(h264AU(cfg, p, n, sps)), pts)
					w.Trace("%d: pts=%d dts=%d %v", n, pts, dts, err)
					w.Check(err == nil, "dts-error", "%s then (change %d) %s: picture %d: %v", seqName(s1), change, seqName(s2), n, err)
					w.Check(dts >= prev, "dts-monotonic", "DTS goes back from %d to %d", prev, dts)
					w.Check(dts <= pts+90*16, "dts-after-pts", "DTS %d PTS %d", dts, pts)
					prev = dts
					w.Step(kit.H(n, dts, pts))
					if n >= len(p1) && change >= 1 {
						fd, ferr := fresh.Extract(h264AU(cfg, p, n, sps), pts)
						w.Check((err == nil) == (ferr == nil) && dts == fd, "dts-new-stream", "%s, cut after %d pictures, then (change %d) %s: picture %d (PTS %d) has DTS %d, %d when the stream starts there",
							seqName(s1), len(p1), change, seqName(s2), n-len(p1), pts, dts, fd)
					}
				}
			})
			c.Explore("arbitrary-histories", kit.Opt{Bound: fmt.Sprintf("every sequence of %d access units from a menu of 16 (IDR, non-IDR with odd, far and wrapped POCs, SPSs of every kind, SEI only, truncated slices) with 3 PTS steps", kit.T(c, 4, 5))}, func(w *kit.W) {
				d := &h264.DTSExtractor{}
				d.Initialize()
				started := false
				prev, filled := int64(0), false
				pts := int64(9000)
				n := kit.T(c, 4, 5)
				var hist []int
				spsSeen, randomSeen, gated := false, false, false
				for i := 0; i < n; i++ {
					k := w.Pick(16)
					hist = append(hist, k)
					if i > 0 {
						pts += []int64{3000, -3000, 0}[w.Pick(3)]
					}
					sl := func(idr bool, poc int) []byte {
						return h264slice(all, modelPic{idr: idr, ref: true, poc: poc}, i)
					}
					var au [][]byte
					switch k {
					case 0:
						au = [][]byte{h264dtsSPS(all, 0, true), sl(true, 0)}
					case 1:
						au = [][]byte{sl(false, 1)}
					case 2:
						au = [][]byte{sl(false, 2)}
					case 3:
						au = [][]byte{sl(false, 3)}
					case 4:
						au = [][]byte{sl(false, 9)}
					case 5:
						au = [][]byte{sl(false, 60)}
					case 6:
						au = [][]byte{sl(true, 0)}
					case 7:
						au = [][]byte{h264dtsSPS(all, 0, true)}
					case 8:
						au = [][]byte{h264dtsSPS(all, 2, true), sl(true, 0)}
					case 9:
						au = [][]byte{h264dtsSPS(all, 1, true), sl(true, 0)}
					case 10:
						au = [][]byte{h264dtsSPS(h264StreamCfg{log2poc: 16, log2fn: 16}, 0, true), sl(false, 0)}
					case 11:
						au = [][]byte{{0x06, 0x05, 0x01, 0x00, 0x80}}
					case 12:
						au = [][]byte{{0x65}}
					case 13:
						au = [][]byte{{0x41, 0xFF}}
					case 14:
						au = [][]byte{{0x67, 66, 0, 31}}
					default:
						au = [][]byte{{0x67, 66, 0, 31, 0xFF, 0x00, 0x00, 0x03, 0x00, 0x00, 0x03, 0x00, 0x1F, 0xFF, 0xFF, 0xFF, 0xFF}, sl(true, 0)}
					}
					dts, err := d.Extract(au, pts)
					w.Trace("au kind %d pts=%d: dts=%d err=%v", k, pts, dts, err)
					w.Step(kit.H(k, dts, pts, err == nil))
					switch k {
					case 0, 8, 9, 10:
						spsSeen = true
						started = false
						gated = k == 0 || k == 10
						randomSeen = k == 0
					case 7:
						if !spsSeen || !gated {
							randomSeen = false
						}
						spsSeen, gated = true, true
					case 15:
						// the SPS of this entry parses
						spsSeen, randomSeen, gated = true, true, false
					case 6:
						if spsSeen && gated {
							randomSeen = true
						}
					}
					_ = started
					if !spsSeen {
						w.Check(err != nil, "dts-before-sps", "history %v: a DTS was returned before any SPS", hist)
					}
					if k >= 1 && k <= 5 && spsSeen && gated && !randomSeen && !containsAny(hist, 7, 9, 10, 14, 15, 12) {
						w.Check(err != nil, "dts-before-idr", "history %v: a DTS was returned before any IDR", hist)
					}
					if err == nil {
						if filled {
							w.Check(dts >= prev, "dts-monotonic", "history %v: DTS goes back from %d to %d", hist, prev, dts)
						}
						prev, filled = dts, true
					} else {
						w.Check(dts == 0, "dts-with-error", "a DTS was returned together with an error")
					}
				}
			})
		},
	})
}

func containsAny(h []int, xs ...int) bool {
	for _, v := range h {
		for _, x := range xs {
			if v == x {
				return true
			}
		}
	}
	return false
}
