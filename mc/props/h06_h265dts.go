package props

import (
	"fmt"
	"sort"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"

	"verif/mc/kit"
)

// H.265 stream groups: the mini GOPs, an IDR, and CRAs with zero to three leading pictures.
const (
	hgIDR = iota + 100
	hgCRA1
	hgCRA3
	hgCRA0
)

type hpic struct {
	typ      h265.NALUType
	sliceTyp uint64 // 0 B, 1 P, 2 I
	disp     int
	poc      int
	neg, pos []int // reference picture set: distances
}

func hgName(g int) string {
	switch g {
	case hgIDR:
		return "IDR"
	case hgCRA0:
		return "CRA"
	case hgCRA1:
		return "CRA+1"
	case hgCRA3:
		return "CRA+3"
	}
	return miniGOPs[g].name
}

// buildH265 expands groups into pictures in decoding order, with the reference picture set of each:
// the maxNeg nearest reference pictures displayed before it and all decoded reference pictures displayed after it.
func buildH265(groups []int, maxNeg int, firstCRA bool, gpb bool) []hpic {
	var out []hpic
	var refs []int // display positions of reference pictures since the last IDR
	disp, idr := 0, 0
	add := func(p hpic, ref bool) {
		p.poc = p.disp - idr
		irap := p.typ == h265.NALUType_IDR_W_RADL || p.typ == h265.NALUType_IDR_N_LP
		if irap {
			refs = nil
			idr = p.disp
			p.poc = 0
		} else {
			sort.Ints(refs)
			for i := len(refs) - 1; i >= 0; i-- {
				if refs[i] < p.disp && len(p.neg) < maxNeg {
					p.neg = append(p.neg, p.disp-refs[i])
				}
			}
			for _, r := range refs {
				if r > p.disp {
					p.pos = append(p.pos, r-p.disp)
				}
			}
		}
		if ref {
			refs = append(refs, p.disp)
		}
		out = append(out, p)
	}
	anchor := uint64(1)
	if gpb {
		anchor = 0
	}
	mini := func(pics []miniPic, leading bool) {
		mx := 0
		for i, p := range pics {
			h := hpic{disp: disp + p.off}
			switch {
			case i == 0 && leading:
				h.typ, h.sliceTyp = h265.NALUType_CRA_NUT, 2
			case i == 0:
				h.typ, h.sliceTyp = h265.NALUType_TRAIL_R, anchor
			case leading && p.ref:
				h.typ = h265.NALUType_RASL_R
			case leading:
				h.typ = h265.NALUType_RASL_N
			case p.ref:
				h.typ = h265.NALUType_TRAIL_R
			default:
				h.typ = h265.NALUType_TRAIL_N
			}
			add(h, p.ref)
			if p.off > mx {
				mx = p.off
			}
		}
		disp += mx
	}
	_ = firstCRA
	add(hpic{typ: h265.NALUType_IDR_W_RADL, sliceTyp: 2}, true)
	for _, g := range groups {
		switch g {
		case hgIDR:
			disp++
			add(hpic{typ: h265.NALUType_IDR_N_LP, sliceTyp: 2, disp: disp}, true)
		case hgCRA0:
			mini(miniGOPs[0].pics, true)
		case hgCRA1:
			mini(miniGOPs[1].pics, true)
		case hgCRA3:
			mini(miniGOPs[4].pics, true)
		default:
			mini(miniGOPs[g].pics, false)
		}
	}
	return out
}

type h265Cfg struct {
	log2poc  int
	sep      bool
	maxSub   int
	subOrder bool
	reorder  int
	timing   bool
	T        int64
	extra    int
	outFlag  bool
	ppsID    int
	rpsMode  int // 0 explicit in the slice, 1 from the SPS, 2 predicted in the slice from a set of the SPS, 3 explicit except for a single set in the SPS
	layers   int // NAL units before the slice
	spsID    int
	far      int // distance between further references that are kept, up to 15
}

type coded struct{ neg, pos []int }

func rpsKey(c coded) string { return fmt.Sprint(c.neg, c.pos) }

func explicitShape(c coded) rpsShape {
	sh := rpsShape{used: 0xFFFFFFFF}
	prev := 0
	for _, d := range c.neg {
		sh.neg = append(sh.neg, uint32(d-prev-1))
		prev = d
	}
	prev = 0
	for _, d := range c.pos {
		sh.pos = append(sh.pos, uint32(d-prev-1))
		prev = d
	}
	return sh
}

// predictedShape codes c as a prediction from ref, when possible.
func predictedShape(c coded, ref *h265.SPS_ShortTermRefPicSet) (rpsShape, bool) {
	want := map[int32]bool{}
	for _, d := range c.neg {
		want[int32(-d)] = true
	}
	for _, d := range c.pos {
		want[int32(d)] = true
	}
	var cand []int32
	cand = append(cand, ref.DeltaPocS0...)
	cand = append(cand, ref.DeltaPocS1...)
	cand = append(cand, 0)
	for _, delta := range []int32{-1, 1, -2, 2, -3, 3, -4, 4, 5, -5, 6, -6, 7, -7, 8, -8} {
		got := map[int32]bool{}
		sh := rpsShape{inter: true, sign: delta < 0}
		if delta < 0 {
			sh.absDelta = uint32(-delta - 1)
		} else {
			sh.absDelta = uint32(delta - 1)
		}
		for j, x := range cand {
			if want[x+delta] {
				got[x+delta] = true
				// alternate between "used" and "kept but not used"
				if j%2 == 0 {
					sh.used |= 1 << uint(j)
				} else {
					sh.useDelta |= 1 << uint(j)
				}
			}
		}
		if len(got) == len(want) {
			return sh, true
		}
	}
	return rpsShape{}, false
}

func h265dtsSPS(cfg h265Cfg, sets []coded) ([]byte, []*h265.SPS_ShortTermRefPicSet) {
	b := &bitw{}
	b.u(0, 4).u(uint64(cfg.maxSub), 3).u(1, 1)
	b.u(0, 2).u(0, 1).u(1, 5).u(0x60000000, 32).u(0x9, 4).u(0, 43).u(0, 1).u(93, 8)
	if cfg.maxSub > 0 {
		b.u(0, cfg.maxSub*2).u(0, (8-cfg.maxSub)*2)
	}
	b.ue(uint64(cfg.spsID))
	if cfg.sep {
		b.ue(3).u(1, 1)
	} else {
		b.ue(1)
	}
	b.ue(1920).ue(1080).u(0, 1).ue(0).ue(0).ue(uint64(cfg.log2poc - 4))
	b.flag(cfg.subOrder)
	start := cfg.maxSub
	if cfg.subOrder {
		start = 0
	}
	for i := start; i <= cfg.maxSub; i++ {
		r := cfg.reorder
		if i < cfg.maxSub {
			r = 0
		}
		b.ue(uint64(r + 1)).ue(uint64(r)).ue(0)
	}
	b.ue(0).ue(3).ue(0).ue(3).ue(0).ue(0).u(0, 1).u(1, 1).u(1, 1).u(0, 1)
	b.ue(uint64(len(sets)))
	var vals []*h265.SPS_ShortTermRefPicSet
	for i, s := range sets {
		vals = append(vals, encodeRPS(b, explicitShape(s), i, len(sets), vals, 0))
	}
	b.u(0, 1).u(1, 1).u(1, 1)
	b.flag(cfg.timing)
	if cfg.timing {
		b.u(0, 4).u(0, 3).u(0, 1)
		b.u(1, 1).u(uint64(cfg.T), 32).u(90000, 32).u(0, 1).u(0, 1)
		b.u(0, 1)
	}
	b.u(0, 1)
	return append([]byte{0x42, 0x01}, emulate(b.rbspTrailing().out())...), vals
}

func h265dtsPPS(cfg h265Cfg) []byte {
	b := (&bitw{}).ue(uint64(cfg.ppsID)).ue(uint64(cfg.spsID)).u(0, 1).flag(cfg.outFlag).u(uint64(cfg.extra), 3)
	b.u(0, 2).ue(0).ue(0).se(0).u(0, 3).se(0).se(0).u(0, 6).u(0, 4).ue(0).u(0, 2)
	return append([]byte{0x44, 0x01}, emulate(b.rbspTrailing().out())...)
}

func h265slice(cfg h265Cfg, p hpic, sets []coded, vals []*h265.SPS_ShortTermRefPicSet) []byte {
	b := (&bitw{}).u(1, 1)
	if p.typ >= 16 && p.typ <= 23 {
		b.u(0, 1)
	}
	b.ue(uint64(cfg.ppsID)).u(0x55, cfg.extra).ue(p.sliceTyp)
	if cfg.outFlag {
		b.u(1, 1)
	}
	if cfg.sep {
		b.u(2, 2)
	}
	if p.typ != h265.NALUType_IDR_W_RADL && p.typ != h265.NALUType_IDR_N_LP {
		b.u(uint64(p.poc)&(1<<uint(cfg.log2poc)-1), cfg.log2poc)
		me := coded{p.neg, p.pos}
		idx := -1
		for i, s := range sets {
			if rpsKey(s) == rpsKey(me) {
				idx = i
			}
		}
		pred := false
		if cfg.rpsMode == 2 {
			for i := range vals {
				if sh, ok := predictedShape(me, vals[i]); ok {
					b.u(0, 1)
					encodeRPS(b, sh, len(vals), len(vals), vals, uint32(len(vals)-1-i))
					pred = true
					break
				}
			}
		}
		switch {
		case pred:
		case idx >= 0:
			b.u(1, 1)
			n := 0
			for 1<<uint(n) < len(sets) {
				n++
			}
			b.u(uint64(idx), n)
		default:
			b.u(0, 1)
			encodeRPS(b, explicitShape(me), len(vals), len(vals), vals, 0)
		}
	}
	b.u(0x2B5, 10).rbspTrailing()
	return append([]byte{byte(p.typ) << 1, 1}, emulate(append(b.out(), 0x88, 0x84, 0x21))...)
}

func h265AU(cfg h265Cfg, p hpic, sps, pps []byte, sets []coded, vals []*h265.SPS_ShortTermRefPicSet, params bool) [][]byte {
	var au [][]byte
	if cfg.layers > 0 {
		au = append(au, []byte{0x46, 0x01, 0x50})
	}
	if params {
		au = append(au, []byte{0x40, 0x01, 0x0C, 0x01}, clone(sps), clone(pps))
	}
	if cfg.layers > 1 {
		au = append(au, []byte{0x4E, 0x01, 0x05, 0x01, 0x00, 0x80})
	}
	au = append(au, h265slice(cfg, p, sets, vals))
	if cfg.layers > 1 {
		au = append(au, []byte{0x50, 0x01, 0x84, 0x01, 0x00, 0x80})
	}
	return au
}

func (p hpic) params() bool {
	return p.typ == h265.NALUType_IDR_W_RADL || p.typ == h265.NALUType_IDR_N_LP || p.typ == h265.NALUType_CRA_NUT
}

// setsFor lists the distinct reference picture sets, for the SPS.
func setsFor(cfg h265Cfg, pics []hpic) []coded {
	if cfg.rpsMode == 0 {
		return nil
	}
	var out []coded
	seen := map[string]bool{}
	for _, p := range pics {
		c := coded{p.neg, p.pos}
		if len(p.neg)+len(p.pos) == 0 || seen[rpsKey(c)] {
			continue
		}
		seen[rpsKey(c)] = true
		out = append(out, c)
		if cfg.rpsMode == 2 && len(out) == 2 || cfg.rpsMode == 3 {
			break
		}
	}
	return out
}

func h265Depth(pics []hpic) int {
	r := 0
	for n, p := range pics {
		if n-p.disp > r {
			r = n - p.disp
		}
	}
	return r
}

func init() {
	kit.Register(&kit.Check{
		ID: "H06",
		Assumptions: []string{
			"streams are progressive and of constant frame rate; pictures are IDR, CRA, TRAIL or RASL (TSA, STSA, RADL and BLA pictures are not supported by the extractor and give an error)",
			"sps_max_num_reorder_pics of the highest sub-layer is the reordering depth of the stream or one more; without VUI timing the reordering delay plus 90 ticks per picture is at most 9000 ticks (the default initial offset)",
			"the reference picture set of a picture holds every decoded reference picture that is displayed after it and at least the nearest one displayed before it",
			"access units contain no empty NAL units",
		},
		Run: func(c *kit.Ctx) {
			groups := []int{0, 1, 2, 3, 4, 5, 6, hgIDR, hgCRA0, hgCRA1, hgCRA3}
			run := func(w *kit.W, cfg h265Cfg, seq []int, maxNeg int, gpb bool, more int, base int64, steady int, pauses ...int64) {
				pics := buildH265(seq, maxNeg, false, gpb)
				for i := range pics {
					p := &pics[i]
					for n := len(p.neg); cfg.far != 0 && n > 0 && n+len(p.pos) < 15; n++ {
						if p.neg[n-1]+cfg.far < 1<<15 {
							p.neg = append(p.neg, p.neg[n-1]+cfg.far)
						}
					}
				}
				R := h265Depth(pics) + more
				cfg.reorder = R
				sets := setsFor(cfg, pics)
				if len(sets) > 64 {
					return
				}
				sps, vals := h265dtsSPS(cfg, sets)
				pps := h265dtsPPS(cfg)
				name := ""
				for _, g := range seq[:min(len(seq), 100)] {
					name += " " + hgName(g)
				}
				name = fmt.Sprintf("%s (negative refs %d, depth %d, rps mode %d)", name, maxNeg, R, cfg.rpsMode)
				d := &h265.DTSExtractor{}
				d.Initialize()
				if len(seq)%2 == 1 {
					d = h265.NewDTSExtractor() // deprecated
				}
				prev := int64(0)
				for n, p := range pics {
					if n > 0 && p.typ == h265.NALUType_IDR_N_LP && len(pauses) > 0 {
						base += pauses[0]
						pauses = pauses[1:]
					}
					pts := base + int64(p.disp)*cfg.T
					dts, err := d.Extract(h265AU(cfg, p, sps, pps, sets, vals, p.params()), pts)
					w.Trace("%d: type %d slice %d display %d rps -%v +%v: pts=%d dts=%d err=%v", n, p.typ, p.sliceTyp, p.disp, p.neg, p.pos, pts-base, dts-base, err)
					w.Check(err == nil, "dts-error", "%s: picture %d (type %d, display %d): %v", name, n, p.typ, p.disp, err)
					w.Check(n == 0 || dts >= prev, "dts-monotonic", "%s: DTS of picture %d goes back from %d to %d", name, n, prev-base, dts-base)
					w.Check(dts <= pts, "dts-after-pts", "%s: picture %d: DTS %d is later than PTS %d", name, n, dts-base, pts-base)
					if steady != 0 && n >= len(pics)-steady {
						df := dts - prev - cfg.T
						w.Check(df >= -2 && df <= 2, "dts-spacing", "%s: picture %d: DTS advances by %d in the steady state of a stream with frame duration %d", name, n, dts-prev, cfg.T)
						slot := base + int64(n-R)*cfg.T
						w.Check(dts-slot >= -int64(R)*2-2 && dts-slot <= int64(R)*2+2, "dts-not-slot", "%s: picture %d: DTS %d, its decoding slot is %d", name, n, dts-base, slot-base)
					}
					prev = dts
					w.Step(kit.H(n, dts-base, pts-base, cfg.T, R))
				}
				w.Sample("%s T=%d pictures=%d", name, cfg.T, len(pics))
			}
			std := h265Cfg{log2poc: 8, T: 3003}
			depth := kit.T(c, 3, 4)
			c.Explore("gop-structures", kit.Opt{Bound: fmt.Sprintf("every sequence of %d groups (7 mini GOPs, IDR, CRA with 0, 1, 3 leading pictures) x 1, 2 or 4 negative references x explicit, SPS, predicted, single-SPS RPS x P or B anchors x timing in the VUI or not x depth exact or one more", depth)}, func(w *kit.W) {
				cfg := std
				cfg.rpsMode = w.Pick(4)
				cfg.timing = w.Bool()
				maxNeg := []int{1, 2, 4}[w.Pick(3)]
				gpb := w.Bool()
				more := w.Pick(2)
				var seq []int
				for i := 0; i < depth; i++ {
					seq = append(seq, kit.Of(w, groups...))
				}
				T := []int64{3003, 1501}[w.Pick(2)]
				cfg.T = T
				if !cfg.timing && T == 3003 {
					pics := buildH265(seq, maxNeg, false, gpb)
					if int64(h265Depth(pics)+more)*(T+90) > 9000 {
						cfg.T = 1800
					}
				}
				run(w, cfg, seq, maxNeg, gpb, more, 900000, 0)
			})
			c.Explore("bases", kit.Opt{Bound: "streams that start at 17 times around the limits of 31, 32, 33, 40 and 62 bits, positive and negative; every pair of groups twice, timing in the VUI or not"}, func(w *kit.W) {
				cfg := h265Cfg{log2poc: 8, T: 1500, timing: w.Bool()}
				a, b := kit.Of(w, groups...), kit.Of(w, groups...)
				run(w, cfg, []int{a, b, a, b}, 2, w.Bool(), 0, kit.Of(w, ptsBases...), 0)
			})
			c.Explore("gaps", kit.Opt{Bound: "every sequence of 2 mini GOPs, IDR, mini GOP, IDR and the first 2 mini GOPs again, with one of 8 pauses (1 tick to 2^40) or none before each IDR but the first; timing in the VUI or not"}, func(w *kit.W) {
				cfg := h265Cfg{log2poc: 8, T: 1500, timing: w.Bool()}
				m := func() int { return w.Pick(7) }
				a, b := m(), m()
				g := append([]int64{0}, gaps...)
				run(w, cfg, []int{a, b, hgIDR, m(), hgIDR, a, b}, 2, w.Bool(), 0, 900000, 0, kit.Of(w, g...), kit.Of(w, g...))
			})
			c.Explore("slice-headers", kit.Opt{Bound: "every header layout (POC bits 4-16, extra bits 0-7, output flag, colour planes, PPS id 0/63, sub-layers 0/1/6 with or without ordering info, NAL units around the slice, RPS mode, 1-8 negative references) x 60 pictures of each of 5 GOP patterns"}, func(w *kit.W) {
				cfg := h265Cfg{T: 1500}
				cfg.log2poc = []int{5, 16}[w.Pick(2)]
				cfg.extra = []int{0, 1, 7}[w.Pick(3)]
				cfg.outFlag = w.Bool()
				cfg.sep = w.Bool()
				cfg.ppsID = []int{0, 63}[w.Pick(2)]
				cfg.maxSub = []int{0, 1, 6}[w.Pick(3)]
				cfg.subOrder = w.Bool()
				cfg.layers = w.Pick(3)
				cfg.rpsMode = w.Pick(4)
				cfg.timing = true
				maxNeg := []int{1, 4, 8}[w.Pick(3)]
				pat := [][]int{{0}, {1}, {4}, {6}, {hgCRA3, 4}}[w.Pick(5)]
				var seq []int
				for i := 0; i < 20; i++ {
					seq = append(seq, pat...)
				}
				run(w, cfg, seq, maxNeg, w.Bool(), 0, -70000, 10)
			})
			c.Explore("very-long", kit.Opt{Bound: "every mini GOP repeated for 70000 pictures (16 bits of POC) or 7000 (5 and 8 bits) without any other random access point, RPS in the slice or predicted"}, func(w *kit.W) {
				cfg := h265Cfg{T: 1500, timing: true}
				cfg.log2poc = []int{5, 8, 16}[w.Pick(3)]
				cfg.rpsMode = []int{0, 2}[w.Pick(2)]
				m := w.Pick(7)
				var seq []int
				n := 70000
				if cfg.log2poc != 16 {
					n = 7000
				}
				for i := 0; i < n/len(miniGOPs[m].pics); i++ {
					seq = append(seq, m)
				}
				run(w, cfg, seq, 2, true, 0, 0, n-10000*(n/70000)-1000)
			})
			c.Explore("far-references", kit.Opt{Bound: "every picture that has references keeps 15 of them, the farther ones at steps of 2, 32, 512, 2047, 2048 or 2184 pictures (slice headers of up to 60 bytes, with emulation prevention), in the slice or in the SPS, every sequence of 2 groups, 5 sizes of the fields before them"}, func(w *kit.W) {
				cfg := h265Cfg{T: 1500, timing: true, log2poc: 16}
				cfg.far = kit.Of(w, 2, 32, 512, 2047, 2048, 2184)
				cfg.rpsMode = w.Pick(2)
				switch w.Pick(5) {
				case 1:
					cfg.extra = 1
				case 2:
					cfg.extra, cfg.outFlag = 7, true
				case 3:
					cfg.ppsID, cfg.sep, cfg.log2poc = 63, true, 15
				case 4:
					cfg.ppsID, cfg.log2poc, cfg.layers = 63, 9, 2
				}
				run(w, cfg, []int{kit.Of(w, groups...), kit.Of(w, groups...)}, []int{1, 4}[w.Pick(2)], w.Bool(), 0, 0, 0)
			})
			c.Explore("sps-change", kit.Opt{Bound: "every pair of sequences of 2 groups with a repeated or a different SPS (depth, RPS lists, PPS layout) in between; all access units in the same, reused buffers"}, func(w *kit.W) {
				g2 := groups
				if !c.Thorough() {
					g2 = []int{0, 1, 4, 6, hgIDR, hgCRA3}
				}
				s1 := []int{kit.Of(w, g2...), kit.Of(w, g2...)}
				s2 := []int{kit.Of(w, groups...), kit.Of(w, g2...)}
				c1, c2 := std, std
				c1.rpsMode, c2.rpsMode = w.Pick(kit.T(c, 2, 4)), w.Pick(kit.T(c, 3, 4))
				c1.timing = true
				c1.T, c2.T = 1800, 1800
				c2.timing = w.Bool()
				c2.extra, c2.outFlag = w.Pick(2)*3, w.Bool()
				c2.spsID = w.Pick(2)
				p1, p2 := buildH265(s1, 2, false, false), buildH265(s2, 2, false, true)
				c1.reorder, c2.reorder = h265Depth(p1), h265Depth(p2)
				t1, t2 := setsFor(c1, p1), setsFor(c2, p2)
				sps1, v1 := h265dtsSPS(c1, t1)
				sps2, v2 := h265dtsSPS(c2, t2)
				pps1, pps2 := padTo(h265dtsPPS(c1), h265dtsPPS(c2))
				sps1, sps2 = padTo(sps1, sps2)
				var mem nalArena
				if eq(sps1, sps2) && h265Depth(p1) != h265Depth(p2) {
					panic("harness")
				}
				// the first stream can end after its first pictures
				p1 = p1[:len(p1)-w.Pick(kit.T(c, 2, len(p1)))%len(p1)]
				fresh := &h265.DTSExtractor{}
				fresh.Initialize()
				synced := false
				d := &h265.DTSExtractor{}
				d.Initialize()
				prev := int64(-1 << 60)
				last := 0
				for _, p := range p1 {
					if p.disp > last {
						last = p.disp
					}
				}
				for n, p := range append(append([]hpic{}, p1...), p2...) {
					var au [][]byte
					if n < len(p1) {
						au = h265AU(c1, p, sps1, pps1, t1, v1, p.params())
					} else {
						au = h265AU(c2, p, sps2, pps2, t2, v2, p.params())
						p.disp += last + 1
					}
					pts := int64(p.disp) * 1800
					dts, err := d.Extract(mem.put(au), pts)
					w.Trace("%d: type %d display %d pts=%d dts=%d %v", n, p.typ, p.disp, pts, dts, err)
					w.Check(err == nil, "dts-error", "%v then %v: picture %d: %v", s1, s2, n, err)
					w.Check(dts >= prev, "dts-monotonic", "DTS goes back from %d to %d", prev, dts)
					w.Check(dts <= pts, "dts-after-pts", "DTS %d PTS %d", dts, pts)
					prev = dts
					w.Step(kit.H(n, dts, pts))
					if m := n - len(p1); m >= 0 && !eq(sps1, sps2) {
						fd, _ := fresh.Extract(au, pts)
						// from the first picture that is displayed as soon as decoded, nothing remains of what was before
						if m >= 1 && m >= c2.reorder && p.disp-last-1-m+c2.reorder == 0 {
							synced = true
						}
						w.Check(!synced || dts == fd, "dts-new-stream", "%v, %d pictures, then %v: picture %d (PTS %d) has DTS %d, %d when the stream starts there", s1, len(p1), s2, m, pts, dts, fd)
					}
				}
			})
			hn := kit.T(c, 4, 5)
			c.Explore("arbitrary-histories", kit.Opt{Bound: fmt.Sprintf("every sequence of %d access units from a menu of 16 (parameter sets of several kinds, IDR, CRA, TRAIL and RASL with every RPS kind, unsupported types, truncated slices) with 3 PTS steps", hn)}, func(w *kit.W) {
				cfg := h265Cfg{log2poc: 8, reorder: 2, timing: true, T: 3000, rpsMode: 1}
				sets := []coded{{[]int{1}, nil}, {[]int{4}, nil}, {[]int{2}, []int{2}}, {[]int{1}, []int{1, 3}}, {nil, []int{1}}}
				sps, vals := h265dtsSPS(cfg, sets)
				other := cfg
				other.reorder = 0
				sps0, vals0 := h265dtsSPS(other, nil)
				pps := h265dtsPPS(cfg)
				ppsx := h265dtsPPS(h265Cfg{extra: 7, outFlag: true})
				tr := h265.NALUType_TRAIL_R
				sl := func(t h265.NALUType, st uint64, i int) []byte {
					return h265slice(cfg, hpic{typ: t, sliceTyp: st, poc: 3, neg: sets[i].neg, pos: sets[i].pos}, sets, vals)
				}
				d := &h265.DTSExtractor{}
				d.Initialize()
				prev, filled := int64(0), false
				pts := int64(9000)
				var hist []int
				cur, ppsOK, random := 0, false, false
				for i := 0; i < hn; i++ {
					k := w.Pick(16)
					hist = append(hist, k)
					if i > 0 {
						pts += []int64{3000, -3000, 0}[w.Pick(3)]
					}
					var au [][]byte
					idr := h265slice(cfg, hpic{typ: h265.NALUType_IDR_W_RADL, sliceTyp: 2}, sets, vals)
					switch k {
					case 0:
						au = [][]byte{sps, pps, idr}
					case 1:
						au = [][]byte{sps, pps, sl(h265.NALUType_CRA_NUT, 2, 1)}
					case 2:
						au = [][]byte{sl(tr, 1, 0)}
					case 3:
						au = [][]byte{sl(tr, 1, 1)}
					case 4:
						au = [][]byte{sl(tr, 0, 2)}
					case 5:
						au = [][]byte{sl(h265.NALUType_TRAIL_N, 0, 3)}
					case 6:
						au = [][]byte{sl(h265.NALUType_RASL_N, 0, 4)}
					case 7:
						au = [][]byte{sl(h265.NALUType_RASL_R, 0, 4)}
					case 8:
						au = [][]byte{idr}
					case 9:
						au = [][]byte{pps}
					case 10:
						au = [][]byte{sps}
					case 11:
						au = [][]byte{sps0, h265slice(other, hpic{typ: tr, sliceTyp: 1, neg: []int{1}}, nil, vals0)}
					case 12:
						au = [][]byte{ppsx, sl(tr, 1, 0)}
					case 13:
						au = [][]byte{sl(h265.NALUType_TSA_N, 0, 0)}
					case 14:
						au = [][]byte{{0x02, 0x01}}
					default:
						au = [][]byte{{0x42, 0x01, 0xFF}, idr}
					}
					dts, err := d.Extract(au, pts)
					w.Trace("au kind %d pts=%d: dts=%d err=%v", k, pts, dts, err)
					w.Step(kit.H(k, dts, pts, err == nil))
					// reference: which SPS is current, and was a random access point met since it changed
					set := func(x int) {
						if cur != x {
							cur, random = x, false
						}
					}
					switch k {
					case 0, 1:
						set(1)
						ppsOK, random = true, true
					case 8:
						random = random || cur != 0 && ppsOK
					case 9:
						ppsOK = true
					case 12:
						ppsOK = true
					case 10:
						set(1)
					case 11:
						set(2)
					}
					w.Check(err != nil || cur != 0 && ppsOK && random, "dts-before-random-access", "history %v: a DTS was returned before a random access point with its parameter sets", hist)
					if err == nil {
						w.Check(dts <= pts, "dts-after-pts", "history %v: DTS %d is later than PTS %d", hist, dts, pts)
						w.Check(!filled || dts >= prev, "dts-monotonic", "history %v: DTS goes back from %d to %d", hist, prev, dts)
						prev, filled = dts, true
					} else {
						w.Check(dts == 0, "dts-with-error", "a DTS was returned together with an error")
					}
				}
			})
		},
	})
}
