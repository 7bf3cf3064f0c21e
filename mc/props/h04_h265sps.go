package props

import (
	"bytes"
	"sort"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"

	"verif/mc/kit"
)

type rpsShape struct {
	inter    bool
	sign     bool
	absDelta uint32
	neg, pos []uint32 // explicit: coded delta_poc_sX_minus1
	used     uint32   // bit mask of used flags, in coding order
	useDelta uint32   // for inter: use_delta_flag of entries that are not used
}

// encodeRPS writes one set (clause 7.3.7) and returns the value a decoder must produce.
func encodeRPS(b *bitw, sh rpsShape, idx, num int, prev []*h265.SPS_ShortTermRefPicSet, deltaIdxMinus1 uint32) *h265.SPS_ShortTermRefPicSet {
	r := &h265.SPS_ShortTermRefPicSet{}
	if idx != 0 {
		b.flag(sh.inter)
		r.InterRefPicSetPredictionFlag = sh.inter
	}
	if !sh.inter {
		b.ue(uint64(len(sh.neg))).ue(uint64(len(sh.pos)))
		r.NumNegativePics, r.NumPositivePics = uint32(len(sh.neg)), uint32(len(sh.pos))
		bit := 0
		acc := int32(0)
		for _, d := range sh.neg {
			u := sh.used>>uint(bit)&1 == 1
			bit++
			b.ue(uint64(d)).flag(u)
			acc -= int32(d) + 1
			r.DeltaPocS0 = append(r.DeltaPocS0, acc)
			r.UsedByCurrPicS0Flag = append(r.UsedByCurrPicS0Flag, u)
		}
		acc = 0
		for _, d := range sh.pos {
			u := sh.used>>uint(bit)&1 == 1
			bit++
			b.ue(uint64(d)).flag(u)
			acc += int32(d) + 1
			r.DeltaPocS1 = append(r.DeltaPocS1, acc)
			r.UsedByCurrPicS1Flag = append(r.UsedByCurrPicS1Flag, u)
		}
		return r
	}
	if idx == num {
		b.ue(uint64(deltaIdxMinus1))
		r.DeltaIdxMinus1 = deltaIdxMinus1
	}
	b.flag(sh.sign).ue(uint64(sh.absDelta))
	r.DeltaRpsSign = sh.sign
	r.AbsDeltaRpsMinus1 = sh.absDelta
	delta := int32(sh.absDelta) + 1
	if sh.sign {
		delta = -delta
	}
	ref := prev[idx-int(deltaIdxMinus1)-1]
	// the candidates: every entry of the reference set and the reference picture itself,
	// moved by delta; kept when its use_delta_flag is set, dropped when it falls on the
	// current picture, sorted by distance on each side (what 7-61 and 7-62 amount to)
	var cand []int32
	cand = append(cand, ref.DeltaPocS0...)
	cand = append(cand, ref.DeltaPocS1...)
	cand = append(cand, 0)
	type e struct {
		poc  int32
		used bool
	}
	var s0, s1 []e
	for j, c := range cand {
		u := sh.used>>uint(j%32)&1 == 1
		keep := true
		b.flag(u)
		if !u {
			keep = sh.useDelta>>uint(j%32)&1 == 1
			b.flag(keep)
		}
		p := c + delta
		if keep && p < 0 {
			s0 = append(s0, e{p, u})
		} else if keep && p > 0 {
			s1 = append(s1, e{p, u})
		}
	}
	sort.Slice(s0, func(i, j int) bool { return s0[i].poc > s0[j].poc })
	sort.Slice(s1, func(i, j int) bool { return s1[i].poc < s1[j].poc })
	for _, x := range s0 {
		r.DeltaPocS0 = append(r.DeltaPocS0, x.poc)
		r.UsedByCurrPicS0Flag = append(r.UsedByCurrPicS0Flag, x.used)
	}
	for _, x := range s1 {
		r.DeltaPocS1 = append(r.DeltaPocS1, x.poc)
		r.UsedByCurrPicS1Flag = append(r.UsedByCurrPicS1Flag, x.used)
	}
	r.NumNegativePics, r.NumPositivePics = uint32(len(s0)), uint32(len(s1))
	return r
}

type h265Shape struct {
	maxSub    uint8
	chroma    uint32
	sep       bool
	window    bool
	subOrder  bool
	scaling   int // 0 off, 1 default lists, 2 all predicted, 3 all explicit, 4 mixed
	pcm       bool
	rps       []rpsShape
	longTerm  bool
	vui       bool
	aspect    int
	overscan  int
	signal    int
	chromaLoc bool
	defWin    bool
	timing    int // 0 no, 1, 2 with poc proportional
	idc       uint8
	compat    int // compatibility flag set in addition
}

type valFn func(def uint64, alts ...uint64) uint64

func h265encSPS(sh h265Shape, v valFn) (*h265.SPS, *bitw) {
	s := &h265.SPS{}
	b := &bitw{}
	bitsv := func(n int, def uint64, alts ...uint64) uint64 { x := v(def, alts...); b.u(x, n); return x }
	ue := func(def uint64, alts ...uint64) uint32 { x := v(def, alts...); b.ue(x); return uint32(x) }
	fl := func(def uint64) bool { x := v(def, 1-def); b.u(x, 1); return x == 1 }

	s.VPSID = uint8(bitsv(4, 0, 1, 15))
	b.u(uint64(sh.maxSub), 3)
	s.MaxSubLayersMinus1 = sh.maxSub
	s.TemporalIDNestingFlag = fl(1)
	p := &s.ProfileTierLevel
	p.GeneralProfileSpace = uint8(bitsv(2, 0, 3))
	p.GeneralTierFlag = uint8(bitsv(1, 0, 1))
	b.u(uint64(sh.idc), 5)
	p.GeneralProfileIdc = sh.idc
	for j := 0; j < 32; j++ {
		f := j == int(sh.idc) || j == sh.compat
		b.flag(f)
		p.GeneralProfileCompatibilityFlag[j] = f
	}
	p.GeneralProgressiveSourceFlag = fl(1)
	p.GeneralInterlacedSourceFlag = fl(0)
	p.GeneralNonPackedConstraintFlag = fl(0)
	p.GeneralFrameOnlyConstraintFlag = fl(1)
	p.GeneralMax12bitConstraintFlag = fl(0)
	p.GeneralMax10bitConstraintFlag = fl(1)
	p.GeneralMax8bitConstraintFlag = fl(0)
	p.GeneralMax422ChromeConstraintFlag = fl(1)
	p.GeneralMax420ChromaConstraintFlag = fl(0)
	p.GeneralMaxMonochromeConstraintFlag = fl(0)
	p.GeneralIntraConstraintFlag = fl(1)
	p.GeneralOnePictureOnlyConstraintFlag = fl(0)
	p.GeneralLowerBitRateConstraintFlag = fl(0)
	if f := func(x uint8) bool { return p.GeneralProfileIdc == x || p.GeneralProfileCompatibilityFlag[x] }; f(5) || f(9) || f(10) || f(11) {
		p.GeneralMax14BitConstraintFlag = fl(1)
		b.u(0, 34)
	} else {
		b.u(0, 35)
	}
	p.GeneralLevelIdc = uint8(bitsv(8, 93, 0, 255))
	if sh.maxSub > 0 {
		p.SubLayerProfilePresentFlag = make([]bool, sh.maxSub)
		p.SubLayerLevelPresentFlag = make([]bool, sh.maxSub)
		b.u(0, int(sh.maxSub)*2)
		b.u(0, (8-int(sh.maxSub))*2)
	}
	s.ID = uint8(ue(0, 1, 15))
	b.ue(uint64(sh.chroma))
	s.ChromaFormatIdc = sh.chroma
	if sh.chroma == 3 {
		b.flag(sh.sep)
		s.SeparateColourPlaneFlag = sh.sep
	}
	s.PicWidthInLumaSamples = ue(1920, 64, 65535, 8192)
	s.PicHeightInLumaSamples = ue(1088, 64, 65535, 4320)
	win := func() *h265.SPS_Window {
		return &h265.SPS_Window{LeftOffset: ue(1, 0, 5), RightOffset: ue(2, 0, 6), TopOffset: ue(0, 3), BottomOffset: ue(4, 0, 7)}
	}
	b.flag(sh.window)
	if sh.window {
		s.ConformanceWindow = win()
	}
	s.BitDepthLumaMinus8 = ue(0, 2, 8)
	s.BitDepthChromaMinus8 = ue(0, 4, 8)
	s.Log2MaxPicOrderCntLsbMinus4 = ue(4, 0, 12)
	b.flag(sh.subOrder)
	s.SubLayerOrderingInfoPresentFlag = sh.subOrder
	start := int(sh.maxSub)
	if sh.subOrder {
		start = 0
	}
	s.MaxDecPicBufferingMinus1 = make([]uint32, sh.maxSub+1)
	s.MaxNumReorderPics = make([]uint32, sh.maxSub+1)
	s.MaxLatencyIncreasePlus1 = make([]uint32, sh.maxSub+1)
	for i := start; i <= int(sh.maxSub); i++ {
		s.MaxDecPicBufferingMinus1[i] = ue(uint64(4+i), 0, 15)
		s.MaxNumReorderPics[i] = ue(uint64(2+i), 0, 15)
		s.MaxLatencyIncreasePlus1[i] = ue(uint64(5-i/2), 0, 0xFFFFFFFE)
	}
	s.Log2MinLumaCodingBlockSizeMinus3 = ue(0, 1, 3)
	s.Log2DiffMaxMinLumaCodingBlockSize = ue(3, 0, 2)
	s.Log2MinLumaTransformBlockSizeMinus2 = ue(0, 1, 3)
	s.Log2DiffMaxMinLumaTransformBlockSize = ue(3, 0)
	s.MaxTransformHierarchyDepthInter = ue(1, 0, 4)
	s.MaxTransformHierarchyDepthIntra = ue(2, 0, 4)
	b.flag(sh.scaling > 0)
	s.ScalingListEnabledFlag = sh.scaling > 0
	if sh.scaling > 0 {
		b.flag(sh.scaling > 1)
		if sh.scaling > 1 {
			d := &h265.SPS_ScalingListData{}
			s.ScalingListData = d
			k := 0
			for sizeID := 0; sizeID < 4; sizeID++ {
				step := 1
				if sizeID == 3 {
					step = 3
				}
				for m := 0; m < 6; m += step {
					explicit := sh.scaling == 3 || sh.scaling == 4 && (sizeID+m)%2 == 0
					k++
					b.flag(explicit)
					d.ScalingListPredModeFlag[sizeID][m] = explicit
					if !explicit {
						x := uint32(m / step)
						b.ue(uint64(x))
						d.ScalingListPredmatrixIDDelta[sizeID][m] = x
						continue
					}
					n := 64
					if sizeID == 0 {
						n = 16
					}
					if sizeID > 1 {
						dc := int32(k*7%255) - 7
						b.se(int64(dc))
						d.ScalingListDcCoefMinus8[sizeID-2][m] = dc
					}
					for i := 0; i < n; i++ {
						b.se(int64((i*k)%256 - 128))
					}
				}
			}
		}
	}
	s.AmpEnabledFlag = fl(1)
	s.SampleAdaptiveOffsetEnabledFlag = fl(0)
	b.flag(sh.pcm)
	s.PcmEnabledFlag = sh.pcm
	if sh.pcm {
		s.PcmSampleBitDepthLumaMinus1 = uint8(bitsv(4, 7, 0, 15))
		s.PcmSampleBitDepthChromaMinus1 = uint8(bitsv(4, 6, 0, 15))
		s.Log2MinPcmLumaCodingBlockSizeMinus3 = ue(1, 0, 2)
		s.Log2DiffMaxMinPcmLumaCodingBlockSize = ue(2, 0, 1)
		s.PcmLoopFilterDisabledFlag = fl(1)
	}
	b.ue(uint64(len(sh.rps)))
	for i, r := range sh.rps {
		s.ShortTermRefPicSets = append(s.ShortTermRefPicSets, encodeRPS(b, r, i, len(sh.rps), s.ShortTermRefPicSets, 0))
	}
	b.flag(sh.longTerm)
	s.LongTermRefPicsPresentFlag = sh.longTerm
	if sh.longTerm {
		b.ue(0)
	}
	s.TemporalMvpEnabledFlag = fl(1)
	s.StrongIntraSmoothingEnabledFlag = fl(0)
	b.flag(sh.vui)
	if sh.vui {
		x := &h265.SPS_VUI{}
		s.VUI = x
		b.flag(sh.aspect > 0)
		if sh.aspect > 0 {
			x.AspectRatioInfoPresentFlag = true
			if sh.aspect == 1 {
				x.AspectRatioIdc = uint8(bitsv(8, 1, 0, 16, 254))
			} else {
				b.u(255, 8)
				x.AspectRatioIdc = 255
				x.SarWidth = uint16(bitsv(16, 4, 0, 65535))
				x.SarHeight = uint16(bitsv(16, 3, 0, 65535))
			}
		}
		b.flag(sh.overscan > 0)
		if sh.overscan > 0 {
			x.OverscanInfoPresentFlag = true
			b.flag(sh.overscan == 2)
			x.OverscanAppropriateFlag = sh.overscan == 2
		}
		b.flag(sh.signal > 0)
		if sh.signal > 0 {
			x.VideoSignalTypePresentFlag = true
			x.VideoFormat = uint8(bitsv(3, 5, 0, 7))
			x.VideoFullRangeFlag = fl(1)
			b.flag(sh.signal == 2)
			if sh.signal == 2 {
				x.ColourDescriptionPresentFlag = true
				x.ColourPrimaries = uint8(bitsv(8, 9, 1, 255))
				x.TransferCharacteristics = uint8(bitsv(8, 16, 2, 254))
				x.MatrixCoefficients = uint8(bitsv(8, 10, 0, 253))
			}
		}
		b.flag(sh.chromaLoc)
		if sh.chromaLoc {
			x.ChromaLocInfoPresentFlag = true
			x.ChromaSampleLocTypeTopField = ue(2, 0, 5)
			x.ChromaSampleLocTypeBottomField = ue(3, 0, 5)
		}
		x.NeutralChromaIndicationFlag = fl(0)
		x.FieldSeqFlag = fl(1)
		x.FrameFieldInfoPresentFlag = fl(0)
		b.flag(sh.defWin)
		if sh.defWin {
			x.DefaultDisplayWindow = win()
		}
		b.flag(sh.timing > 0)
		if sh.timing > 0 {
			t := &h265.SPS_TimingInfo{}
			x.TimingInfo = t
			t.NumUnitsInTick = uint32(bitsv(32, 1001, 1, 0xFFFFFFFF))
			t.TimeScale = uint32(bitsv(32, 60000, 1, 0xFFFFFFFF, 0x01000003))
			t.POCProportionalToTimingFlag = sh.timing == 2
			b.flag(sh.timing == 2)
			if sh.timing == 2 {
				t.NumTicksPOCDiffOneMinus1 = ue(3, 0, 0xFFFFFFFE)
			}
		}
	}
	return s, b
}

func h265refDims(s *h265.SPS) (int, int, float64) {
	subW, subH := 1, 1
	switch s.ChromaFormatIdc {
	case 1:
		subW, subH = 2, 2
	case 2:
		subW = 2
	}
	w, h := int(s.PicWidthInLumaSamples), int(s.PicHeightInLumaSamples)
	if c := s.ConformanceWindow; c != nil {
		w -= subW * int(c.LeftOffset+c.RightOffset)
		h -= subH * int(c.TopOffset+c.BottomOffset)
	}
	fps := 0.0
	if s.VUI != nil && s.VUI.TimingInfo != nil {
		fps = float64(s.VUI.TimingInfo.TimeScale) / float64(s.VUI.TimingInfo.NumUnitsInTick)
	}
	return w, h, fps
}

func checkH265SPS(w *kit.W, want *h265.SPS, b *bitw, cuts bool) {
	syntaxBits := len(b.b)
	// what follows the parsed part of the VUI: hrd, restriction, extension flags
	rb := &bitw{b: append([]byte(nil), b.b...)}
	if want.VUI != nil {
		rb.u(0, 2)
	}
	rbsp := rb.u(0, 1).rbspTrailing().out()
	nalu := append([]byte{0x42, 0x01}, emulate(rbsp)...)
	in := clone(nalu)
	var got h265.SPS
	err := got.Unmarshal(in)
	w.Check(err == nil, "h265-sps-reject", "conformant SPS %x rejected: %v", nalu, err)
	start := 0
	if !want.SubLayerOrderingInfoPresentFlag {
		start = int(want.MaxSubLayersMinus1)
	}
	norm := func(g *h265.SPS) {
		// entries below the coded ones are inferred; whether they are filled in is not specified here
		for i := 0; i < start && i < len(g.MaxDecPicBufferingMinus1); i++ {
			g.MaxDecPicBufferingMinus1[i], g.MaxNumReorderPics[i], g.MaxLatencyIncreasePlus1[i] = 0, 0, 0
		}
	}
	norm(&got)
	w.Check(deepEq(&got, want), "h265-sps-field", "SPS %x: %s", nalu, diff(&got, want))
	rw, rh, rf := h265refDims(want)
	if rw > 0 && rh > 0 {
		w.Check(got.Width() == rw, "h265-sps-width", "SPS %x: width %d, want %d", nalu, got.Width(), rw)
		w.Check(got.Height() == rh, "h265-sps-height", "SPS %x: height %d, want %d", nalu, got.Height(), rh)
		w.Check(got.FPS() == rf, "h265-sps-fps", "SPS %x: fps %v, want %v", nalu, got.FPS(), rf)
	}
	w.Step(kit.H(nalu))
	w.Sample("%s -> %dx%d %.2f", hx(nalu), rw, rh, rf)
	if cuts {
		for n := 0; n <= len(rbsp); n++ {
			nalu := append([]byte{0x42, 0x01}, emulate(rbsp[:n])...)
			var got h265.SPS
			err := got.Unmarshal(clone(nalu))
			w.Ops(1)
			if n*8 < syntaxBits {
				w.Check(err != nil, "h265-sps-truncated", "SPS cut to %d bytes of %x accepted", n, rbsp)
			} else {
				norm(&got)
				w.Check(err == nil && deepEq(&got, want), "h265-sps-cut-complete", "SPS with complete syntax in %d bytes of %x: err %v", n, rbsp, err)
			}
		}
		for typ := 0; typ < 64; typ++ {
			nalu := append([]byte{byte(typ << 1), 0x01}, emulate(rbsp)...)
			var got h265.SPS
			w.Check((got.Unmarshal(nalu) == nil) == (typ == 33), "h265-sps-type", "NAL unit type %d accepted or type 33 rejected", typ)
		}
	}
}

func pickRPSList(w *kit.W, pick func(int) int, max int) []rpsShape {
	n := pick(max + 1)
	var out []rpsShape
	num := 0 // entries of the previous set, an upper bound
	for i := 0; i < n; i++ {
		var r rpsShape
		if i > 0 && pick(2) == 1 {
			r.inter = true
			r.sign = pick(2) == 1
			r.absDelta = uint32([]int{0, 1, 3}[pick(3)])
			m := pick(6)
			r.used = []uint32{0xFFFFFFFF, 0, 0x55555555, 0xAAAAAAAA, 1, 0x0E}[m]
			r.useDelta = []uint32{0, 0xFFFFFFFF, 0x33333333, 0x99999999, 6, 0}[m]
			num++
		} else {
			k := pick(8)
			r.neg = [][]uint32{{0}, {}, {0, 0}, {1, 0, 2}, {}, {3}, {0, 1, 0, 5}, {65, 0}}[k]
			r.pos = [][]uint32{{}, {0}, {0}, {}, {}, {0, 1}, {2, 0, 0}, {0, 127}}[k]
			r.used = []uint32{0xFFFFFFFF, 0x55555555, 0xAAAAAAAA}[pick(3)]
		}
		out = append(out, r)
	}
	return out
}

func pickH265Shape(w *kit.W, pick func(int) int, maxRPS int) h265Shape {
	var sh h265Shape
	sh.idc = []uint8{1, 2, 3, 4, 5, 9, 10, 11, 31}[pick(9)]
	sh.compat = []int{-1, 5, 9, 10, 11, 31}[pick(6)]
	sh.maxSub = []uint8{0, 1, 2, 6}[pick(4)]
	sh.chroma = []uint32{1, 0, 2, 3}[pick(4)]
	if sh.chroma == 3 {
		sh.sep = pick(2) == 1
	}
	sh.window = pick(2) == 1
	sh.subOrder = pick(2) == 0
	sh.scaling = pick(5)
	sh.pcm = pick(2) == 1
	sh.rps = pickRPSList(w, pick, maxRPS)
	sh.longTerm = pick(2) == 1
	sh.vui = pick(2) == 1
	if sh.vui {
		sh.aspect = pick(3)
		sh.overscan = pick(3)
		sh.signal = pick(3)
		sh.chromaLoc = pick(2) == 1
		sh.defWin = pick(2) == 1
		sh.timing = pick(3)
	}
	return sh
}

func init() {
	kit.Register(&kit.Check{
		ID: "H04",
		Assumptions: []string{
			"the reference encoder writes the syntax of clauses 7.3.2.2, 7.3.2.3, 7.3.3, 7.3.4, 7.3.7 and Annex E from its own reading of the specification",
			"unsupported features (sub-layer profiles and levels, long-term pictures in the SPS) are not part of the alphabet of accepted streams",
			"sub-layer ordering values that are inferred rather than coded are not compared",
		},
		Run: func(c *kit.Ctx) {
			def := func(d uint64, _ ...uint64) uint64 { return d }
			c.Explore("all-shapes", kit.Opt{Bound: "every combination of structural flags (plain profile, one reference picture set), default values"}, func(w *kit.W) {
				i := 0
				sh := pickH265Shape(w, func(n int) int {
					i++
					if i <= 2 {
						return 0
					}
					return w.Pick(n)
				}, 0)
				sh.rps = []rpsShape{{neg: []uint32{0, 1}, used: 1}}
				s, b := h265encSPS(sh, def)
				checkH265SPS(w, s, b, false)
			})
			c.Explore("reference-picture-sets", kit.Opt{Bound: "every list of up to 3 sets, explicit (8 layouts x 3 masks) or predicted (sign x 3 distances x 6 masks)"}, func(w *kit.W) {
				sh := h265Shape{idc: 1, compat: -1, chroma: 1, subOrder: true}
				sh.rps = pickRPSList(w, w.Pick, kit.T(c, 3, 4))
				s, b := h265encSPS(sh, def)
				checkH265SPS(w, s, b, false)
			})
			c.Explore("long-sets", kit.Opt{Bound: "1-64 sets, each predicted from the previous or explicit, 0-16 pictures"}, func(w *kit.W) {
				n := []int{1, 2, 16, 63, 64}[w.Pick(5)]
				k := w.Pick(4)
				pics := []int{0, 1, 8, 16}[w.Pick(4)]
				sh := h265Shape{idc: 1, compat: -1, chroma: 1, subOrder: true}
				for i := 0; i < n; i++ {
					r := rpsShape{used: 0xF0F0F0F0 ^ uint32(i), useDelta: 0x0FF0F00F}
					if i > 0 && (k == 1 || k == 2 && i%2 == 1) {
						r.inter, r.sign, r.absDelta = true, i%3 == 0, uint32(i%4)
					} else {
						for j := 0; j < pics; j++ {
							r.neg = append(r.neg, uint32(j%3))
							if k == 3 {
								r.pos = append(r.pos, uint32(j%2))
							}
						}
					}
					sh.rps = append(sh.rps, r)
				}
				s, b := h265encSPS(sh, def)
				for _, r := range s.ShortTermRefPicSets {
					if r.NumNegativePics+r.NumPositivePics > 31 {
						return // masks of the reference encoder are 32 bits wide
					}
				}
				checkH265SPS(w, s, b, false)
			})
			c.Explore("profiles", kit.Opt{MaxDev: 1, Bound: "every profile idc and compatibility flag, each flag deviating"}, func(w *kit.W) {
				sh := h265Shape{chroma: 1, subOrder: true}
				sh.idc = uint8(w.Pick(32))
				sh.compat = w.Pick(33) - 1
				s, b := h265encSPS(sh, func(d uint64, alts ...uint64) uint64 {
					k := w.Dev(len(alts) + 1)
					if k == 0 {
						return d
					}
					return alts[k-1]
				})
				checkH265SPS(w, s, b, false)
			})
			c.Explore("field-values", kit.Opt{MaxDev: kit.T(c, 2, 2), Bound: "shapes with everything present, up to 2 fields away from their default"}, func(w *kit.W) {
				shapes := []h265Shape{
					{idc: 4, compat: 5, maxSub: 2, chroma: 3, sep: true, window: true, subOrder: true, scaling: 4, pcm: true, rps: []rpsShape{{neg: []uint32{0}, used: 1}, {inter: true, used: 1}}, longTerm: true, vui: true, aspect: 2, overscan: 2, signal: 2, chromaLoc: true, defWin: true, timing: 2},
					{idc: 1, compat: 2, chroma: 1, window: true, subOrder: false, scaling: 1, vui: true, aspect: 1, timing: 1},
					{idc: 2, compat: -1, chroma: 2, window: true, subOrder: true, maxSub: 1},
					{idc: 9, compat: -1, chroma: 0, window: true, subOrder: true},
				}
				s, b := h265encSPS(shapes[w.Pick(len(shapes))], func(d uint64, alts ...uint64) uint64 {
					k := w.Dev(len(alts) + 1)
					if k == 0 {
						return d
					}
					return alts[k-1]
				})
				checkH265SPS(w, s, b, false)
			})
			c.Explore("shapes-and-values", kit.Opt{MaxDev: kit.T(c, 2, 3), Bound: "up to 2 (3) deviations in structure or value from a plain SPS; every truncation; every NAL unit type"}, func(w *kit.W) {
				sh := pickH265Shape(w, w.Dev, 2)
				s, b := h265encSPS(sh, func(d uint64, alts ...uint64) uint64 {
					k := w.Dev(len(alts) + 1)
					if k == 0 {
						return d
					}
					return alts[k-1]
				})
				checkH265SPS(w, s, b, true)
			})
			c.Explore("malformed-codes", kit.Opt{MaxDev: 2, Bound: "up to 2 deviations in structure from a plain and a full SPS; every Exp-Golomb code with 33, 40, 64 and 200 zeros more"}, func(w *kit.W) {
				sh := h265Shape{idc: 4, compat: 5, maxSub: 2, chroma: 3, sep: true, window: true, subOrder: true, scaling: 4, pcm: true, rps: []rpsShape{{neg: []uint32{0}, used: 1}, {inter: true, used: 1}}, longTerm: true, vui: true, aspect: 2, overscan: 2, signal: 2, chromaLoc: true, defWin: true, timing: 2}
				if w.Pick(2) == 1 {
					sh = pickH265Shape(w, w.Dev, 2)
				}
				_, b := h265encSPS(sh, def)
				b.overlong(func(i int, rbsp []byte) {
					var got h265.SPS
					err := got.Unmarshal(append([]byte{0x42, 0x01}, emulate(rbsp)...))
					w.Ops(1)
					w.Check(err != nil, "h265-sps-overlong", "SPS %x, Exp-Golomb code %d malformed: accepted as %s", rbsp, i, dump(got))
				})
				w.Step(kit.H(b.b))
			})
			c.Range("short-profiles", 256*13*2, "profile, tier and level cut to 0-11 bytes, all of them of any value", func(w *kit.W) {
				i := w.Index
				maxSub := byte(i % 2)
				n := int(i / 2 % 13)
				v := byte(i / 26)
				var got h265.SPS
				w.Ops(1)
				if n < 12 {
					err := got.Unmarshal(append([]byte{0x42, 0x01, maxSub<<1 | 1}, emulate(bytes.Repeat([]byte{v}, n))...))
					w.Check(err != nil, "h265-sps-short", "SPS with %d bytes %#x of profile, tier and level accepted", n, v)
				}
				w.Step(kit.H(byte(i), byte(i>>8)))
			})
			c.Explore("pps", kit.Opt{Bound: "all flags, extra bits, boundary ids; every truncation; every NAL unit type"}, func(w *kit.W) {
				ids := []uint64{0, 1, 2, 62, 63, 255, 1 << 20}
				want := h265.PPS{ID: uint32(ids[w.Pick(len(ids))]), SPSID: uint32(ids[w.Pick(len(ids))])}
				want.DependentSliceSegmentsEnabledFlag = w.Bool()
				want.OutputFlagPresentFlag = w.Bool()
				want.NumExtraSliceHeaderBits = uint8(w.Pick(8))
				b := (&bitw{}).ue(uint64(want.ID)).ue(uint64(want.SPSID)).flag(want.DependentSliceSegmentsEnabledFlag).
					flag(want.OutputFlagPresentFlag).u(uint64(want.NumExtraSliceHeaderBits), 3)
				bits := len(b.b)
				rbsp := b.u(0x0AB00, 20).rbspTrailing().out()
				tid := byte(1 + w.Pick(7))
				nalu := append([]byte{0x44, tid}, emulate(rbsp)...)
				for n := 0; n <= len(rbsp); n++ {
					var got h265.PPS
					err := got.Unmarshal(append([]byte{0x44, tid}, emulate(rbsp[:n])...))
					if n*8 < bits {
						w.Check(err != nil, "pps-truncated", "PPS cut to %d bytes accepted", n)
					} else {
						w.Check(err == nil && got == want, "pps-field", "PPS %x: %+v (%v), want %+v", nalu, got, err, want)
					}
					w.Step(kit.H(rbsp[:n], dump(got)))
				}
				for typ := 0; typ < 64; typ++ {
					var got h265.PPS
					w.Check((got.Unmarshal(append([]byte{byte(typ << 1), tid}, emulate(rbsp)...)) == nil) == (typ == 34), "pps-type", "NAL unit type %d", typ)
				}
				w.Sample("%x", nalu)
			})
		},
	})
}
