package props

import (
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"

	"verif/mc/kit"
)

// spsShape says which optional parts of an H.264 SPS are present.
type spsShape struct {
	profile    uint8
	chroma     uint32
	sep        bool
	scaling    int // 0 none, 1 flag set but no list, 2.. some lists
	poc        uint32
	fmo, mbaff bool
	crop       bool
	vui        bool
	aspect     int // 0 no, 1 table, 2 extended
	overscan   int // 0 no, 1 off, 2 on
	signal     int // 0 no, 1 without colours, 2 with
	chromaLoc  bool
	timing     bool
	nal, vcl   bool
	restr      bool
}

// h264encSPS builds an SPS of this shape with values chosen through v (name, candidates) and
// returns both the value a decoder must produce and the coded bits.
func h264encSPS(sh spsShape, v func(def uint64, alts ...uint64) uint64) (*h264.SPS, *bitw) {
	s := &h264.SPS{}
	b := &bitw{}
	u8 := func(def uint64, alts ...uint64) uint8 { x := v(def, alts...); b.u(x, 8); return uint8(x) }
	ue := func(def uint64, alts ...uint64) uint32 { x := v(def, alts...); b.ue(x); return uint32(x) }
	se := func(def uint64, alts ...uint64) int32 { x := int64(int32(v(def, alts...))); b.se(x); return int32(x) }
	fl := func(def uint64) bool { x := v(def, 1-def); b.u(x, 1); return x == 1 }
	neg := func(x int32) uint64 { return uint64(uint32(x)) }

	b.u(uint64(sh.profile), 8)
	s.ProfileIdc = sh.profile
	s.ConstraintSet0Flag = fl(0)
	s.ConstraintSet1Flag = fl(1)
	s.ConstraintSet2Flag = fl(0)
	s.ConstraintSet3Flag = fl(0)
	s.ConstraintSet4Flag = fl(0)
	s.ConstraintSet5Flag = fl(0)
	b.u(0, 2)
	s.LevelIdc = u8(31, 0, 255)
	s.ID = ue(0, 1, 31)
	switch sh.profile {
	case 100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135:
		b.ue(uint64(sh.chroma))
		s.ChromaFormatIdc = sh.chroma
		if sh.chroma == 3 {
			b.flag(sh.sep)
			s.SeparateColourPlaneFlag = sh.sep
		}
		s.BitDepthLumaMinus8 = ue(0, 1, 6)
		s.BitDepthChromaMinus8 = ue(0, 2, 6)
		s.QpprimeYZeroTransformBypassFlag = fl(0)
		b.flag(sh.scaling > 0)
		if sh.scaling > 0 {
			lim := 8
			if sh.chroma == 3 {
				lim = 12
			}
			for i := 0; i < lim; i++ {
				present := false
				switch sh.scaling {
				case 2:
					present = true
				case 3:
					present = i%2 == 0
				case 4:
					present = i == lim-1
				case 5:
					present = i >= 3
				}
				b.flag(present)
				if !present {
					continue
				}
				size := 16
				if i >= 6 {
					size = 64
				}
				list := make([]int32, size)
				useDef := false
				kind := (i + sh.scaling) % 5
				stop := size // from here on the list repeats its last value
				switch kind {
				case 0: // use default
					useDef = true
					stop = 0
				case 1: // flat 16
					for j := range list {
						list[j] = 16
					}
				case 2: // ramp with wrap-around
					for j := range list {
						list[j] = int32((j*37+5)%255) + 1
					}
				case 3: // constant tail
					for j := range list {
						list[j] = int32(10 + j)
						if j >= 5 {
							list[j] = 14
						}
					}
					stop = 5
				case 4: // extremes
					for j := range list {
						list[j] = []int32{255, 1, 128, 127}[j%4]
					}
				}
				last := int32(8)
				for j := 0; j < size; j++ {
					next := int32(0)
					if j < stop {
						next = list[j]
					}
					d := next - last
					for d > 127 {
						d -= 256
					}
					for d < -128 {
						d += 256
					}
					b.se(int64(d))
					if next == 0 {
						break
					}
					last = next
				}
				if useDef {
					for j := range list {
						list[j] = 8
					}
				}
				if i < 6 {
					s.ScalingList4x4 = append(s.ScalingList4x4, list)
					s.UseDefaultScalingMatrix4x4Flag = append(s.UseDefaultScalingMatrix4x4Flag, useDef)
				} else {
					s.ScalingList8x8 = append(s.ScalingList8x8, list)
					s.UseDefaultScalingMatrix8x8Flag = append(s.UseDefaultScalingMatrix8x8Flag, useDef)
				}
			}
		}
	default:
		s.ChromaFormatIdc = 1
	}
	s.Log2MaxFrameNumMinus4 = ue(0, 5, 12)
	b.ue(uint64(sh.poc))
	s.PicOrderCntType = sh.poc
	switch sh.poc {
	case 0:
		s.Log2MaxPicOrderCntLsbMinus4 = ue(2, 0, 12)
	case 1:
		s.DeltaPicOrderAlwaysZeroFlag = fl(0)
		s.OffsetForNonRefPic = se(neg(-1), 0, 1, neg(-2147483647), 2147483647)
		s.OffsetForTopToBottomField = se(1, neg(-1), 0, neg(-2147483647))
		n := ue(2, 0, 1, 255)
		s.OffsetForRefFrames = make([]int32, n)
		for i := range s.OffsetForRefFrames {
			x := int32(i)*3 - 4
			b.se(int64(x))
			s.OffsetForRefFrames[i] = x
		}
	}
	s.MaxNumRefFrames = ue(4, 0, 16)
	s.GapsInFrameNumValueAllowedFlag = fl(0)
	s.PicWidthInMbsMinus1 = ue(119, 0, 1, 543, 4095)
	s.PicHeightInMapUnitsMinus1 = ue(67, 0, 1, 543, 2303)
	b.flag(sh.fmo)
	s.FrameMbsOnlyFlag = sh.fmo
	if !sh.fmo {
		b.flag(sh.mbaff)
		s.MbAdaptiveFrameFieldFlag = sh.mbaff
	}
	s.Direct8x8InferenceFlag = fl(1)
	b.flag(sh.crop)
	if sh.crop {
		s.FrameCropping = &h264.SPS_FrameCropping{
			LeftOffset: ue(1, 0, 7), RightOffset: ue(2, 0, 6), TopOffset: ue(0, 3), BottomOffset: ue(4, 0, 1),
		}
	}
	b.flag(sh.vui)
	if sh.vui {
		x := &h264.SPS_VUI{}
		s.VUI = x
		b.flag(sh.aspect > 0)
		if sh.aspect > 0 {
			x.AspectRatioInfoPresentFlag = true
			if sh.aspect == 1 {
				x.AspectRatioIdc = u8(1, 0, 16, 254)
			} else {
				b.u(255, 8)
				x.AspectRatioIdc = 255
				x.SarWidth = uint16(v(4, 0, 65535))
				x.SarHeight = uint16(v(3, 0, 65535))
				b.u(uint64(x.SarWidth), 16).u(uint64(x.SarHeight), 16)
			}
		}
		b.flag(sh.overscan > 0)
		if sh.overscan > 0 {
			x.OverscanInfoPresentFlag = true
			b.flag(sh.overscan == 2)
			x.OverscanAppropriateFlag = sh.overscan == 2
		}
		b.flag(sh.signal > 0)
		if sh.signal > 0 {
			x.VideoSignalTypePresentFlag = true
			x.VideoFormat = uint8(v(5, 0, 7))
			b.u(uint64(x.VideoFormat), 3)
			x.VideoFullRangeFlag = fl(1)
			b.flag(sh.signal == 2)
			if sh.signal == 2 {
				x.ColourDescriptionPresentFlag = true
				x.ColourPrimaries = u8(9, 1, 255)
				x.TransferCharacteristics = u8(16, 2, 254)
				x.MatrixCoefficients = u8(10, 0, 253)
			}
		}
		b.flag(sh.chromaLoc)
		if sh.chromaLoc {
			x.ChromaLocInfoPresentFlag = true
			x.ChromaSampleLocTypeTopField = ue(2, 0, 5)
			x.ChromaSampleLocTypeBottomField = ue(3, 0, 5)
		}
		b.flag(sh.timing)
		if sh.timing {
			x.TimingInfo = &h264.SPS_TimingInfo{}
			x.TimingInfo.NumUnitsInTick = uint32(v(1001, 1, 0xFFFFFFFF))
			x.TimingInfo.TimeScale = uint32(v(60000, 1, 0xFFFFFFFF, 0x01000003))
			b.u(uint64(x.TimingInfo.NumUnitsInTick), 32).u(uint64(x.TimingInfo.TimeScale), 32)
			x.TimingInfo.FixedFrameRateFlag = fl(1)
		}
		hrd := func(cnt uint64) *h264.SPS_HRD {
			h := &h264.SPS_HRD{}
			h.CpbCntMinus1 = ue(cnt, 0, 31)
			n := int(h.CpbCntMinus1) + 1
			h.BitRateScale = uint8(v(4, 0, 15))
			h.CpbSizeScale = uint8(v(2, 0, 15))
			b.u(uint64(h.BitRateScale), 4).u(uint64(h.CpbSizeScale), 4)
			for i := 0; i < n; i++ {
				br, cs := uint32(15624+i), uint32(1000*i)
				if i == n-1 {
					br, cs = uint32(v(77, 0, 0xFFFFFFFE)), uint32(v(99, 0, 0xFFFFFFFE))
				}
				b.ue(uint64(br)).ue(uint64(cs)).flag(i%2 == 0)
				h.BitRateValueMinus1 = append(h.BitRateValueMinus1, br)
				h.CpbSizeValueMinus1 = append(h.CpbSizeValueMinus1, cs)
				h.CbrFlag = append(h.CbrFlag, i%2 == 0)
			}
			h.InitialCpbRemovalDelayLengthMinus1 = uint8(v(23, 0, 31))
			h.CpbRemovalDelayLengthMinus1 = uint8(v(15, 0, 31))
			h.DpbOutputDelayLengthMinus1 = uint8(v(5, 0, 31))
			h.TimeOffsetLength = uint8(v(24, 0, 31))
			b.u(uint64(h.InitialCpbRemovalDelayLengthMinus1), 5).u(uint64(h.CpbRemovalDelayLengthMinus1), 5)
			b.u(uint64(h.DpbOutputDelayLengthMinus1), 5).u(uint64(h.TimeOffsetLength), 5)
			return h
		}
		b.flag(sh.nal)
		if sh.nal {
			x.NalHRD = hrd(0)
		}
		b.flag(sh.vcl)
		if sh.vcl {
			x.VclHRD = hrd(1)
		}
		if sh.nal || sh.vcl {
			x.LowDelayHrdFlag = fl(1)
		}
		x.PicStructPresentFlag = fl(1)
		b.flag(sh.restr)
		if sh.restr {
			r := &h264.SPS_BitstreamRestriction{}
			x.BitstreamRestriction = r
			r.MotionVectorsOverPicBoundariesFlag = fl(1)
			r.MaxBytesPerPicDenom = ue(2, 0, 16)
			r.MaxBitsPerMbDenom = ue(1, 0, 16)
			r.Log2MaxMvLengthHorizontal = ue(11, 0, 15)
			r.Log2MaxMvLengthVertical = ue(10, 0, 15)
			r.MaxNumReorderFrames = ue(2, 0, 16)
			r.MaxDecFrameBuffering = ue(4, 0, 16)
		}
	}
	return s, b
}

func h264refDims(s *h264.SPS) (int, int, float64) {
	// clause 7.4.2.1.1
	subW, subH := 1, 1
	switch s.ChromaFormatIdc {
	case 1:
		subW, subH = 2, 2
	case 2:
		subW, subH = 2, 1
	}
	chromaArrayType := int(s.ChromaFormatIdc)
	if s.SeparateColourPlaneFlag {
		chromaArrayType = 0
	}
	fmo := 0
	if s.FrameMbsOnlyFlag {
		fmo = 1
	}
	cux, cuy := 1, 2-fmo
	if chromaArrayType != 0 {
		cux, cuy = subW, subH*(2-fmo)
	}
	w := (int(s.PicWidthInMbsMinus1) + 1) * 16
	h := (2 - fmo) * (int(s.PicHeightInMapUnitsMinus1) + 1) * 16
	if c := s.FrameCropping; c != nil {
		w -= cux * int(c.LeftOffset+c.RightOffset)
		h -= cuy * int(c.TopOffset+c.BottomOffset)
	}
	fps := 0.0
	if s.VUI != nil && s.VUI.TimingInfo != nil {
		fps = float64(s.VUI.TimingInfo.TimeScale) / (2 * float64(s.VUI.TimingInfo.NumUnitsInTick))
	}
	return w, h, fps
}

func checkH264SPS(w *kit.W, want *h264.SPS, b *bitw, cuts bool) {
	syntaxBits := len(b.b)
	rbsp := (&bitw{b: append([]byte(nil), b.b...)}).rbspTrailing().out()
	for hdr := byte(0x67); ; hdr = 0x27 {
		nalu := append([]byte{hdr}, emulate(rbsp)...)
		in := clone(nalu)
		var got h264.SPS
		err := got.Unmarshal(in)
		w.Check(err == nil, "h264-sps-reject", "conformant SPS %x rejected: %v", nalu, err)
		w.Check(deepEq(&got, want), "h264-sps-field", "SPS %x: %s", nalu, diff(&got, want))
		rw, rh, rf := h264refDims(want)
		if rw <= 0 || rh <= 0 {
			break // cropping that exceeds the picture is not conformant
		}
		w.Check(got.Width() == rw, "h264-sps-width", "SPS %x: width %d, want %d", nalu, got.Width(), rw)
		w.Check(got.Height() == rh, "h264-sps-height", "SPS %x: height %d, want %d", nalu, got.Height(), rh)
		w.Check(got.FPS() == rf, "h264-sps-fps", "SPS %x: fps %v, want %v", nalu, got.FPS(), rf)
		w.Step(kit.H(nalu))
		w.Sample("%x -> %dx%d %.2f", nalu, rw, rh, rf)
		if hdr == 0x27 {
			break
		}
	}
	if cuts {
		for n := 0; n <= len(rbsp); n++ {
			nalu := append([]byte{0x67}, emulate(rbsp[:n])...)
			var got h264.SPS
			err := got.Unmarshal(clone(nalu))
			w.Ops(1)
			if n*8 < syntaxBits {
				w.Check(err != nil, "h264-sps-truncated", "SPS cut to %d bytes of %x accepted", n, rbsp)
			} else {
				w.Check(err == nil && deepEq(&got, want), "h264-sps-cut-complete", "SPS with complete syntax in %d bytes of %x: err %v", n, rbsp, err)
			}
		}
		for typ := 0; typ < 32; typ++ {
			nalu := append([]byte{byte(0x60 | typ)}, emulate(rbsp)...)
			var got h264.SPS
			w.Check((got.Unmarshal(nalu) == nil) == (typ == 7), "h264-sps-type", "NAL unit type %d accepted or type 7 rejected", typ)
		}
	}
}

func pickH264Shape(w *kit.W, pick func(n int) int) spsShape {
	var sh spsShape
	sh.profile = []uint8{66, 100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135, 77, 88}[pick(16)]
	sh.chroma = 1
	sh.scaling = 0
	switch sh.profile {
	case 66, 77, 88:
	default:
		sh.chroma = []uint32{1, 0, 2, 3}[pick(4)]
		if sh.chroma == 3 {
			sh.sep = pick(2) == 1
		}
		sh.scaling = pick(6)
	}
	sh.poc = uint32(pick(3))
	sh.fmo = pick(2) == 0
	if !sh.fmo {
		sh.mbaff = pick(2) == 1
	}
	sh.crop = pick(2) == 1
	sh.vui = pick(2) == 1
	if sh.vui {
		sh.aspect = pick(3)
		sh.overscan = pick(3)
		sh.signal = pick(3)
		sh.chromaLoc = pick(2) == 1
		sh.timing = pick(2) == 1
		sh.nal = pick(2) == 1
		sh.vcl = pick(2) == 1
		sh.restr = pick(2) == 1
	}
	return sh
}

func init() {
	kit.Register(&kit.Check{
		ID: "H03",
		Assumptions: []string{
			"the reference encoder writes the syntax of clause 7.3.2.1.1 and Annex E from its own reading of the specification",
			"of the profiles without chroma information only 66, 77 and 88 are enumerated",
		},
		Run: func(c *kit.Ctx) {
			// all shapes, default values (quick: profiles collapse to 66/100/244)
			c.Explore("all-shapes", kit.Opt{Bound: "every combination of optional sections and structural flags, default values"}, func(w *kit.W) {
				first := true
				sh := pickH264Shape(w, func(n int) int {
					if first {
						first = false
						if !c.Thorough() {
							return []int{0, 1, 4}[w.Pick(3)]
						}
					}
					return w.Pick(n)
				})
				s, b := h264encSPS(sh, func(def uint64, _ ...uint64) uint64 { return def })
				checkH264SPS(w, s, b, false)
			})
			// every field at every boundary value, pairs of deviations, for shapes that contain everything
			c.Explore("field-values", kit.Opt{MaxDev: kit.T(c, 2, 2), Bound: "shapes with everything present, up to 2 fields (thorough: in more shapes) away from their default, and every profile"}, func(w *kit.W) {
				shapes := []spsShape{
					{profile: 100, chroma: 1, poc: 1, fmo: false, mbaff: true, crop: true, vui: true, aspect: 2, overscan: 2, signal: 2, chromaLoc: true, timing: true, nal: true, vcl: true, restr: true},
					{profile: 244, chroma: 3, sep: true, poc: 0, fmo: true, crop: true, vui: true, aspect: 1, timing: true, restr: true},
					{profile: 66, chroma: 1, poc: 2, fmo: true, crop: true},
					{profile: 122, chroma: 2, poc: 0, fmo: false, crop: true, vui: true, vcl: true},
					{profile: 110, chroma: 0, poc: 0, fmo: true, crop: true, vui: true, nal: true},
				}
				sh := shapes[w.Pick(len(shapes))]
				s, b := h264encSPS(sh, func(def uint64, alts ...uint64) uint64 {
					k := w.Dev(len(alts) + 1)
					if k == 0 {
						return def
					}
					return alts[k-1]
				})
				checkH264SPS(w, s, b, false)
			})
			c.Explore("malformed-codes", kit.Opt{MaxDev: 2, Bound: "every profile, up to 2 deviations in structure from a plain and a full SPS; every Exp-Golomb code with 33, 40, 64 and 200 zeros more"}, func(w *kit.W) {
				sh := spsShape{profile: 244, chroma: 3, sep: true, poc: 1, fmo: false, mbaff: true, crop: true, vui: true, aspect: 2, overscan: 2, signal: 2, chromaLoc: true, timing: true, nal: true, vcl: true, restr: true}
				if w.Pick(2) == 1 {
					first := true
					sh = pickH264Shape(w, func(n int) int {
						if first {
							first = false
							return w.Pick(n)
						}
						return w.Dev(n)
					})
				}
				_, b := h264encSPS(sh, func(def uint64, _ ...uint64) uint64 { return def })
				b.overlong(func(i int, rbsp []byte) {
					var got h264.SPS
					err := got.Unmarshal(append([]byte{0x67}, emulate(rbsp)...))
					w.Ops(1)
					w.Check(err != nil, "h264-sps-overlong", "SPS %x, Exp-Golomb code %d malformed: accepted as %s", rbsp, i, dump(got))
				})
				w.Step(kit.H(b.b))
			})
			c.Explore("shapes-and-values", kit.Opt{MaxDev: kit.T(c, 2, 3), Bound: "every profile; up to 2 (3) deviations in structure or value from a plain SPS; every truncation; every NAL unit type"}, func(w *kit.W) {
				first := true
				sh := pickH264Shape(w, func(n int) int {
					if first {
						first = false
						return w.Pick(n)
					}
					return w.Dev(n)
				})
				s, b := h264encSPS(sh, func(def uint64, alts ...uint64) uint64 {
					k := w.Dev(len(alts) + 1)
					if k == 0 {
						return def
					}
					return alts[k-1]
				})
				checkH264SPS(w, s, b, true)
			})
		},
	})
}
