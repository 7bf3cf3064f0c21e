package props

import (
	"bytes"
	"fmt"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"

	"verif/mc/kit"
)

var aacRates = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}

func aacRateIndex(r int) int {
	for i, v := range aacRates {
		if v == r {
			return i
		}
	}
	return 15
}

func putRate(b *bitw, r int, explicit bool) {
	i := aacRateIndex(r)
	if explicit || i == 15 {
		b.u(15, 4).u(uint64(r), 24)
	} else {
		b.u(uint64(i), 4)
	}
}

// putASC writes an AudioSpecificConfig as ISO 14496-3 table 1.15 does.
func putASC(b *bitw, c *mpeg4audio.AudioSpecificConfig, explicit, extExplicit bool) {
	if c.ExtensionType != 0 {
		b.u(uint64(c.ExtensionType), 5)
	} else {
		b.u(uint64(c.Type), 5)
	}
	putRate(b, c.SampleRate, explicit)
	b.u(uint64(c.ChannelConfig), 4)
	if c.ExtensionType != 0 {
		putRate(b, c.ExtensionSampleRate, extExplicit)
		b.u(uint64(c.Type), 5)
	}
	b.flag(c.FrameLengthFlag).flag(c.DependsOnCoreCoder)
	if c.DependsOnCoreCoder {
		b.u(uint64(c.CoreCoderDelay), 14)
	}
	b.u(0, 1)
}

func aacChannels(cfg uint8) int {
	if cfg == 7 {
		return 8
	}
	return int(cfg)
}

var aacRateMenu = append(append([]int{}, aacRates...), 0, 1, 44101, 16777215)

// genASC is a valid configuration; v chooses field values.
func genASC(pick func(n int) int, rates []int) *mpeg4audio.AudioSpecificConfig {
	c := &mpeg4audio.AudioSpecificConfig{Type: 2}
	c.ExtensionType = []mpeg4audio.ObjectType{0, 5, 29}[pick(3)]
	c.SampleRate = rates[pick(len(rates))]
	c.ChannelConfig = uint8(pick(8)+2) % 8
	c.ChannelCount = aacChannels(c.ChannelConfig)
	if c.ExtensionType != 0 {
		c.ExtensionSampleRate = rates[pick(len(rates))]
	}
	c.FrameLengthFlag = pick(2) == 1
	k := pick(5)
	c.DependsOnCoreCoder = k > 0
	c.CoreCoderDelay = []uint16{0, 0, 1, 8192, 16383}[k]
	return c
}

func usedASC() *mpeg4audio.AudioSpecificConfig {
	return &mpeg4audio.AudioSpecificConfig{Type: 7, SampleRate: 5, ChannelConfig: 3, ChannelCount: 9, ExtensionType: 29, ExtensionSampleRate: 777, FrameLengthFlag: true, DependsOnCoreCoder: true, CoreCoderDelay: 99}
}

type pceShape struct {
	tag, typ, sfi          uint64
	front, side, back, lfe int
	assoc, cc              uint64
	mono, stereo, matrix   bool
	cpe                    uint64 // is_cpe bits
	comment                int
}

// putPCE writes a program_config_element (ISO 14496-3 table 4.2) and returns the bit position after the last channel
// element (relative to the beginning of b) and the number of channels.
func putPCE(b *bitw, p pceShape) (int, int) {
	b.u(p.tag, 4).u(p.typ, 2).u(p.sfi, 4).u(uint64(p.front), 4).u(uint64(p.side), 4).u(uint64(p.back), 4).u(uint64(p.lfe), 2).u(p.assoc, 3).u(p.cc, 4)
	for i, x := range []bool{p.mono, p.stereo, p.matrix} {
		b.flag(x)
		if x {
			if i < 2 {
				b.u(0xF, 4)
			} else {
				b.u(7, 3)
			}
		}
	}
	n := 0
	for i := 0; i < p.front+p.side+p.back; i++ {
		is := p.cpe >> uint(i%8) & 1
		b.u(is, 1).u(uint64(i), 4)
		n += 1 + int(is)
	}
	for i := 0; i < p.lfe; i++ {
		b.u(0xF, 4)
		n++
	}
	end := len(b.b)
	for i := uint64(0); i < p.assoc; i++ {
		b.u(i, 4)
	}
	for i := uint64(0); i < p.cc; i++ {
		b.u(1, 1).u(i, 4)
	}
	b.align()
	b.u(uint64(p.comment), 8).bytes(pat(p.comment, 3))
	return end, n
}

func genPCE(v valFn) pceShape {
	return pceShape{
		tag: v(0, 1, 15), typ: v(1, 0, 2, 3), sfi: v(4, 0, 3, 15),
		front: int(v(1, 0, 2, 3, 15)), side: int(v(0, 1, 2, 15)), back: int(v(1, 0, 2, 15)), lfe: int(v(1, 0, 2, 3)),
		assoc: v(0, 1, 7), cc: v(0, 1, 15),
		mono: v(0, 1) == 1, stereo: v(0, 1) == 1, matrix: v(0, 1) == 1,
		cpe: v(0xFE, 0, 0xFF, 0x55, 0xAA, 1), comment: int(v(0, 1, 40)),
	}
}

// putSMC writes a StreamMuxConfig (ISO 14496-3 table 1.42) and returns the bit positions that follow each
// AudioSpecificConfig (where the library accepts the end of the data).
func putSMC(b *bitw, c *mpeg4audio.StreamMuxConfig, lenBytes int) []int {
	var cuts []int
	b.u(0, 1).u(1, 1).u(uint64(c.NumSubFrames), 6).u(uint64(len(c.Programs)-1), 4)
	for pi, p := range c.Programs {
		b.u(uint64(len(p.Layers)-1), 3)
		for li, l := range p.Layers {
			if pi != 0 || li != 0 {
				b.flag(l.AudioSpecificConfig == nil)
			}
			if l.AudioSpecificConfig != nil {
				putASC(b, l.AudioSpecificConfig, false, false)
			}
			cuts = append(cuts, len(b.b))
			b.u(uint64(l.FrameLengthType), 3)
			switch l.FrameLengthType {
			case 0:
				b.u(uint64(l.LatmBufferFullness), 8)
			case 1:
				b.u(uint64(l.FrameLength), 9)
			case 3, 4, 5:
				b.u(uint64(l.CELPframeLengthTableIndex), 6)
			case 6, 7:
				b.flag(l.HVXCframeLengthTableIndex)
			}
		}
	}
	b.flag(c.OtherDataPresent)
	if c.OtherDataPresent {
		n := 1
		for x := c.OtherDataLenBits >> 8; x > 0; x >>= 8 {
			n++
		}
		if lenBytes > n {
			n = lenBytes
		}
		for i := n - 1; i >= 0; i-- {
			b.flag(i > 0)
			if i < 4 {
				b.u(uint64(c.OtherDataLenBits>>uint(8*i)), 8)
			} else {
				b.u(0, 8)
			}
		}
	}
	b.flag(c.CRCCheckPresent)
	if c.CRCCheckPresent {
		b.u(uint64(c.CRCCheckSum), 8)
	}
	return cuts
}

func genSMC(v valFn, onlyType0 bool) *mpeg4audio.StreamMuxConfig {
	c := &mpeg4audio.StreamMuxConfig{NumSubFrames: uint(v(0, 1, 2, 63))}
	np := int(v(1, 2, 3, 16))
	small := []int{44100, 48000, 8000, 44101}
	for p := 0; p < np; p++ {
		pr := &mpeg4audio.StreamMuxConfigProgram{}
		nl := 1
		if p < 2 {
			nl = int(v(1, 2, 8))
		}
		for l := 0; l < nl; l++ {
			la := &mpeg4audio.StreamMuxConfigLayer{}
			pick := func(n int) int { return 0 }
			if p < 2 && l < 2 {
				pick = func(n int) int {
					alts := make([]uint64, n-1)
					for i := range alts {
						alts[i] = uint64(i + 1)
					}
					return int(v(0, alts...))
				}
			}
			if p == 0 && l == 0 || pick(2) == 0 {
				la.AudioSpecificConfig = genASC(pick, small)
				if la.AudioSpecificConfig.ChannelConfig == 0 {
					// followed by a program config element: not supported inside of a StreamMuxConfig
					la.AudioSpecificConfig.ChannelConfig, la.AudioSpecificConfig.ChannelCount = 7, 8
				}
			}
			if !onlyType0 {
				la.FrameLengthType = uint(pick(8))
			}
			k := uint64(0)
			if p < 2 && l < 2 {
				k = v(0, 1, 2)
			}
			switch la.FrameLengthType {
			case 0:
				la.LatmBufferFullness = []uint{255, 0, 129}[k]
			case 1:
				la.FrameLength = []uint{0, 511, 257}[k]
			case 3, 4, 5:
				la.CELPframeLengthTableIndex = []uint{0, 63, 33}[k]
			case 6, 7:
				la.HVXCframeLengthTableIndex = k == 1
			}
			pr.Layers = append(pr.Layers, la)
		}
		c.Programs = append(c.Programs, pr)
	}
	if !onlyType0 {
		if k := v(0, 1, 2, 3, 4, 5, 6, 7); k > 0 {
			c.OtherDataPresent = true
			c.OtherDataLenBits = []uint32{0, 1, 255, 256, 65535, 65536, 1<<32 - 1}[k-1]
		}
	}
	if k := v(0, 1, 2, 3); k > 0 {
		c.CRCCheckPresent = true
		c.CRCCheckSum = []uint8{0, 255, 0x81}[k-1]
	}
	return c
}

func usedSMC() *mpeg4audio.StreamMuxConfig {
	return &mpeg4audio.StreamMuxConfig{NumSubFrames: 9, Programs: []*mpeg4audio.StreamMuxConfigProgram{{}, {}}, OtherDataPresent: true, OtherDataLenBits: 77, CRCCheckPresent: true, CRCCheckSum: 9}
}

func init() {
	kit.Register(&kit.Check{
		ID: "A01",
		Assumptions: []string{
			"supported AudioSpecificConfigs: AAC-LC with optional explicit hierarchical SBR or PS signalling, extensionFlag 0; ChannelConfig and the deprecated ChannelCount agree, or one of them is zero",
			"a StreamMuxConfig that ends directly after an AudioSpecificConfig is accepted on purpose (\"support truncated configs\" in the code)",
		},
		Run: func(c *kit.Ctx) {
			c.Explore("audio-specific-config", kit.Opt{Bound: "every combination of extension type, 17 sample rates (table and explicit), 8 channel configurations, 17 extension rates, frame length flag, core coder delays; explicit spelling of every rate; fresh and used destination; every truncation"}, func(w *kit.W) {
				a := genASC(w.Pick, aacRateMenu)
				sp := w.Pick(4)
				b := &bitw{}
				putASC(b, a, sp&1 != 0, sp&2 != 0)
				ref := b.out()
				var got mpeg4audio.AudioSpecificConfig
				if w.Bool() {
					got = *usedASC()
				}
				err := got.Unmarshal(append(clone(ref), 0xFF, 0x55)[:len(ref)+2*w.Pick(2)])
				w.Check(err == nil, "asc-reject", "valid AudioSpecificConfig %s (%x) rejected: %v", dump(a), ref, err)
				w.Check(eq(&got, a), "asc-decode", "%x decodes to %s, coded was %s", ref, dump(got), dump(a))
				w.Step(kit.H(ref))
				// the deprecated method, at a position that is not aligned
				lead := len(ref)%8 + 1
				b2 := (&bitw{}).u(0x155>>1, lead)
				putASC(b2, a, sp&1 != 0, sp&2 != 0)
				end := len(b2.b)
				pos := lead
				got = *usedASC()
				err = got.UnmarshalFromPos(append(b2.out(), 0xAA, 0xAA), &pos)
				w.Check(err == nil && eq(&got, a) && pos == end, "asc-from-pos", "%x at bit %d decodes to %s, %v and ends at %d, coded was %s until %d", b2.out(), lead, dump(got), err, pos, dump(a), end)
				if sp == 0 {
					in := *a
					switch w.Pick(3) {
					case 1:
						in.ChannelCount = 0
					case 2:
						if in.ChannelCount != 0 {
							in.ChannelConfig = 0
						}
					}
					enc, err := in.Marshal()
					w.Check(err == nil && eq(enc, ref), "asc-encode", "%s encodes to %x (%v), expected %x", dump(in), enc, err, ref)
				}
				for n := 0; n < len(ref); n++ {
					var t mpeg4audio.AudioSpecificConfig
					w.Check(t.Unmarshal(clone(ref[:n])) != nil, "asc-truncated", "%x cut after %d bytes is accepted", ref, n)
				}
			})
			c.Explore("audio-specific-config-unsupported", kit.Opt{Bound: "every object type, sample rate index, channel configuration, extension rate index, inner object type and extension flag, one out of range at a time"}, func(w *kit.W) {
				f := []uint64{2, 4, 2, 0, 0, 0, 0}
				max := []int{32, 16, 16, 16, 32, 2}
				k := w.Pick(len(max))
				ext := w.Bool() || k == 3 || k == 4
				if ext {
					f[0], f[3], f[4] = 5, 3, 2
				}
				f[k] = uint64(w.Pick(max[k]))
				if k == 0 && !ext && (f[0] == 5 || f[0] == 29) {
					return
				}
				b := (&bitw{}).u(f[0], 5).u(f[1], 4)
				if f[1] == 15 {
					b.u(44100, 24)
				}
				b.u(f[2], 4)
				if f[0] == 5 || f[0] == 29 {
					b.u(f[3], 4)
					if f[3] == 15 {
						b.u(96000, 24)
					}
					b.u(f[4], 5)
				}
				b.u(0, 2).u(f[5], 1).bytes([]byte{0, 0, 0, 0})
				ok := false
				switch k {
				case 0:
					ok = f[0] == 5 || f[0] == 29 || f[0] == 2
				case 1:
					ok = f[1] != 13 && f[1] != 14
				case 2:
					ok = f[2] < 8
				case 3:
					ok = f[3] != 13 && f[3] != 14
				case 4:
					ok = f[4] == 2
				case 5:
					ok = f[5] == 0
				}
				var got mpeg4audio.AudioSpecificConfig
				err := got.Unmarshal(b.out())
				w.Step(kit.H(k, f[k], ext))
				w.Check((err == nil) == ok, "asc-unsupported", "object type %d, rate %d, channels %d, ext rate %d, inner type %d, extension flag %d: error %v, expected accepted=%v", f[0], f[1], f[2], f[3], f[4], f[5], err, ok)
			})
			c.Explore("channel-count-encode", kit.Opt{Bound: "ChannelCount -1..10 without ChannelConfig"}, func(w *kit.W) {
				n := w.Pick(12) - 1
				a := mpeg4audio.AudioSpecificConfig{Type: 2, SampleRate: 48000, ChannelCount: n}
				enc, err := a.Marshal()
				valid := n >= 0 && n <= 6 || n == 8
				w.Check((err == nil) == valid, "asc-channels", "ChannelCount %d: error %v", n, err)
				if valid {
					var g mpeg4audio.AudioSpecificConfig
					w.Check(g.Unmarshal(enc) == nil && g.ChannelCount == n, "asc-channels", "ChannelCount %d comes back as %d", n, g.ChannelCount)
				}
			})
			c.Explore("stream-mux-config", kit.Opt{MaxDev: kit.T(c, 3, 4), Bound: fmt.Sprintf("up to %d deviations from a minimal StreamMuxConfig: subframes 0-63, programs 1-16, layers 1-8, shared or own configs, every frame length type, other data lengths, CRC; fresh and used destination; every truncation", kit.T(c, 3, 4))}, func(w *kit.W) {
				v := devVals(w)
				s := genSMC(v, false)
				pad := 0
				if s.OtherDataPresent {
					pad = int(v(0, 2, 4, 5, 8))
				}
				b := &bitw{}
				cuts := putSMC(b, s, pad)
				ref := b.out()
				got := &mpeg4audio.StreamMuxConfig{}
				if v(0, 1) == 1 {
					got = usedSMC()
				}
				err := got.Unmarshal(clone(ref))
				w.Check(err == nil, "smc-reject", "valid StreamMuxConfig %x rejected: %v", ref, err)
				w.Check(deepEq(got, s), "smc-decode", "%x: %s", ref, diff(got, s))
				w.Step(kit.H(ref))
				if pad == 0 {
					enc, err := s.Marshal()
					w.Check(err == nil && eq(enc, ref), "smc-encode", "encoded as %x (%v), expected %x", enc, err, ref)
				}
				err = new(mpeg4audio.StreamMuxConfig).Unmarshal(append(clone(ref), 0))
				w.Check(err != nil, "smc-trailing", "trailing byte accepted")
				for n := 0; n < len(ref); n++ {
					lenient := false
					last := 0
					for i, p := range cuts {
						if d := 8*n - p; d >= 0 && d < 3 {
							lenient, last = true, i
						}
					}
					t := &mpeg4audio.StreamMuxConfig{}
					err := t.Unmarshal(clone(ref[:n]))
					w.Check((err == nil) == lenient, "smc-truncated", "%x cut after %d bytes: error %v", ref, n, err)
					if lenient { // everything up to the configuration of the last layer, with defaults after it
						want := &mpeg4audio.StreamMuxConfig{NumSubFrames: s.NumSubFrames}
						for _, p := range s.Programs {
							if last < 0 {
								break
							}
							pr := &mpeg4audio.StreamMuxConfigProgram{}
							for _, l := range p.Layers {
								if last > 0 {
									pr.Layers = append(pr.Layers, l)
								} else if last == 0 {
									pr.Layers = append(pr.Layers, &mpeg4audio.StreamMuxConfigLayer{AudioSpecificConfig: l.AudioSpecificConfig, LatmBufferFullness: 255})
								}
								last--
							}
							want.Programs = append(want.Programs, pr)
						}
						w.Check(deepEq(t, want), "smc-truncated", "%x cut after %d bytes: %s", ref, n, diff(t, want))
					}
				}
			})
			c.Explore("stream-mux-config-unsupported", kit.Opt{Bound: "audioMuxVersion 1, allStreamsSameTimeFraming 0, other data lengths beyond 32 bits"}, func(w *kit.W) {
				s := genSMC(func(d uint64, _ ...uint64) uint64 { return d }, false)
				b := &bitw{}
				putSMC(b, s, 0)
				switch w.Pick(3) {
				case 0:
					b.b[0] = 1
				case 1:
					b.b[1] = 0
				default:
					b.b = b.b[:len(b.b)-2]
					b.u(1, 1).u(1, 1).u(1, 8)
					for i := 0; i < 3+w.Pick(3); i++ {
						b.u(1, 1).u(0, 8)
					}
					b.u(0, 1).u(5, 8).u(0, 1)
				}
				err := new(mpeg4audio.StreamMuxConfig).Unmarshal(b.out())
				w.Check(err != nil, "smc-unsupported", "%x accepted", b.out())
			})
			c.Explore("stream-mux-config-pce", kit.Opt{Bound: "a StreamMuxConfig whose AudioSpecificConfig has channel configuration 0 and therefore carries a program config element"}, func(w *kit.W) {
				b := (&bitw{}).u(0, 1).u(1, 1).u(0, 6).u(0, 4).u(0, 3)
				b.u(2, 5).u(4, 4).u(0, 4).u(0, 3)
				putPCE(b, pceShape{typ: 1, sfi: 4, front: 1, cpe: 1})
				b.u(0, 3).u(129, 8).u(0, 2)
				s := &mpeg4audio.StreamMuxConfig{}
				err := s.Unmarshal(b.out())
				w.Check(err == nil && s.Programs[0].Layers[0].LatmBufferFullness == 129, "smc-pce", "a StreamMuxConfig whose AudioSpecificConfig contains a program config element (%x) is not decoded (the element is not skipped): %v", b.out(), err)
			})
			c.Explore("program-config-element", kit.Opt{MaxDev: kit.T(c, 3, 4), Bound: fmt.Sprintf("up to %d deviations in the fields of a PCE: element counts, pairs, mixdowns, tags; every truncation", kit.T(c, 3, 4))}, func(w *kit.W) {
				p := genPCE(devVals(w))
				b := (&bitw{}).u(5, 3)
				end, n := putPCE(b, p)
				ref := b.out()
				got, err := mpeg4audio.ParsePCEFromRawDataBlock(clone(ref))
				w.Step(kit.H(ref))
				if n == 0 {
					w.Check(err != nil, "pce-empty", "PCE without channels accepted")
					return
				}
				w.Check(err == nil, "pce-reject", "valid PCE %x rejected: %v", ref, err)
				want := &mpeg4audio.ProgramConfigElement{
					ElementInstanceTag: uint8(p.tag), ObjectType: uint8(p.typ), SamplingFrequencyIndex: uint8(p.sfi),
					NumFrontChannelElements: uint8(p.front), NumSideChannelElements: uint8(p.side), NumBackChannelElements: uint8(p.back),
					NumLFEChannelElements: uint8(p.lfe), NumAssocDataElements: uint8(p.assoc), NumValidCCElements: uint8(p.cc), ChannelCount: n,
				}
				w.Check(eq(got, want), "pce-decode", "%x: %s", ref, diff(got, want))
				for k := 0; 8*k < end; k++ {
					_, err := mpeg4audio.ParsePCEFromRawDataBlock(clone(ref[:k]))
					w.Check(err != nil, "pce-truncated", "%x cut after %d bytes accepted", ref, k)
				}
				id := uint64(w.Dev(8))
				if id != 0 {
					b.b[0], b.b[1], b.b[2] = byte(id-1)>>2&1, byte(id-1)>>1&1, byte(id-1)&1
					_, err := mpeg4audio.ParsePCEFromRawDataBlock(b.out())
					w.Check((err == nil) == (id-1 == 5), "pce-id", "element id %d: %v", id-1, err)
				}
			})
		},
	})

	kit.Register(&kit.Check{
		ID:          "A02",
		Assumptions: []string{"access units are not empty; the documented maximum size of an access unit applies when decoding"},
		Run: func(c *kit.Ctx) {
			type pkt struct {
				typ, idx, cfg, size int
			}
			build := func(p pkt, k int) *mpeg4audio.ADTSPacket {
				return &mpeg4audio.ADTSPacket{Type: mpeg4audio.ObjectType(p.typ), SampleRate: aacRates[p.idx], ChannelConfig: uint8(p.cfg), ChannelCount: aacChannels(uint8(p.cfg)), AU: pat(p.size, byte(k+p.size))}
			}
			// the ADTS header of ISO 14496-3 table 1.A.5-1.A.8; x varies the bits that carry nothing
			header := func(b *bitw, p pkt, x int, fullness uint64) {
				b.u(0xFFF, 12).u(uint64(x&1), 1).u(0, 2).u(1, 1).u(uint64(p.typ-1), 2).u(uint64(p.idx), 4).u(uint64(x>>1&1), 1).u(uint64(p.cfg), 3).
					u(uint64(x>>2&1), 1).u(uint64(x>>3&1), 1).u(uint64(x>>4&1), 1).u(uint64(x>>5&1), 1).u(uint64(p.size+7), 13).u(fullness, 11).u(0, 2)
			}
			c.Explore("headers", kit.Opt{Bound: "4 object types x 13 rates x 8 channel configurations x 11 sizes; 64 values of the free header bits, 4 buffer fullness values"}, func(w *kit.W) {
				p := pkt{1 + w.Pick(4), w.Pick(13), w.Pick(8), kit.Of(w, 1, 2, 7, 8, 248, 249, 2040, 2041, 4096, 5119, 5120)}
				ps := mpeg4audio.ADTSPackets{build(p, 0)}
				b := &bitw{}
				header(b, p, 0, 0x7FF)
				ref := append(b.out(), ps[0].AU...)
				enc, err := ps.Marshal()
				w.Check(err == nil && eq(enc, ref), "adts-encode", "%+v encoded as %s (%v), expected %s", p, hx(enc), err, hx(ref))
				for x := 0; x < 64; x++ {
					h := &bitw{}
					header(h, p, x, []uint64{0, 1, 0x400, 0x7FF}[x%4])
					in := append(h.out(), ps[0].AU...)
					var got mpeg4audio.ADTSPackets
					err := got.Unmarshal(in)
					w.Check(err == nil && deepEq(got, ps), "adts-decode", "%+v: %x: error %v, %s", p, in[:7], err, diff(got, ps))
				}
				w.Step(kit.H(enc))
			})
			c.Explore("lists", kit.Opt{Bound: "every list of 1-4 packets from a menu of 6, channel layout given by configuration or by the deprecated count, fresh and used destination; every truncation"}, func(w *kit.W) {
				menu := []pkt{{2, 4, 2, 1}, {2, 3, 1, 5}, {1, 12, 7, 9}, {4, 0, 0, 8}, {3, 6, 6, 300}, {2, 4, 2, 2}}
				n := 1 + w.Pick(4)
				var ps, in mpeg4audio.ADTSPackets
				b := &bitw{}
				var ends []int
				mode := w.Pick(3)
				for i := 0; i < n; i++ {
					p := kit.Of(w, menu...)
					q := build(p, i)
					ps = append(ps, q)
					q2 := *q
					switch {
					case mode == 1:
						q2.ChannelCount = 0
					case mode == 2 && p.cfg != 0:
						q2.ChannelConfig = 0
					}
					in = append(in, &q2)
					header(b, p, 0, 0x7FF)
					b.bytes(q.AU)
					ends = append(ends, len(b.b)/8)
				}
				ref := b.out()
				enc, err := in.Marshal()
				w.Check(err == nil && eq(enc, ref), "adts-encode", "encoded as %s (%v), expected %s", hx(enc), err, hx(ref))
				got := mpeg4audio.ADTSPackets{}
				if w.Bool() {
					got = mpeg4audio.ADTSPackets{build(pkt{2, 3, 3, 30}, 9)}
				}
				err = got.Unmarshal(clone(ref))
				w.Check(err == nil && deepEq(got, ps), "adts-decode", "%s: error %v, %s", hx(ref), err, diff(got, ps))
				w.Step(kit.H(enc))
				for k := 0; k < len(ref); k++ {
					var t mpeg4audio.ADTSPackets
					err := t.Unmarshal(clone(ref[:k]))
					whole := 0
					at := false
					for _, e := range ends {
						if e <= k {
							whole++
						}
						at = at || e == k
					}
					w.Check((err == nil) == at, "adts-truncated", "%d of %d bytes: error %v", k, len(ref), err)
					w.Check(len(t) <= whole && deepEq(t, ps[:len(t)]), "adts-truncated-data", "%d of %d bytes: %d packets are returned, %d are complete", k, len(ref), len(t), whole)
				}
			})
			c.Range("long-lists", 400, "lists of 5 to 402 packets, and of 1000 and 70000 packets, of sizes 1 to 11", func(w *kit.W) {
				n := 5 + int(w.Index)
				if w.Index >= 398 {
					n = []int{1000, 70000}[w.Index-398]
				}
				var ps mpeg4audio.ADTSPackets
				b := &bitw{}
				for i := 0; i < n; i++ {
					p := pkt{2, 4, 2, 1 + i%11}
					ps = append(ps, build(p, i))
					header(b, p, 0, 0x7FF)
					b.bytes(ps[i].AU)
				}
				ref := b.out()
				enc, err := ps.Marshal()
				w.Check(err == nil && eq(enc, ref), "adts-encode", "list of %d packets: %v", n, err)
				var got mpeg4audio.ADTSPackets
				err = got.Unmarshal(clone(ref))
				w.Check(err == nil && deepEq(got, ps), "adts-decode", "list of %d packets: error %v, %d packets", n, err, len(got))
				w.Step(kit.H(n, len(ref)))
			})
			c.Explore("invalid", kit.Opt{Bound: "every sync word bit, CRC, every rate index and frame length 0-7, block counts, in the 1st, 2nd or 3rd packet; unsupported encoder input; access units of 8183 to 16400 bytes"}, func(w *kit.W) {
				switch w.Pick(3) {
				case 0:
					good := pkt{2, 4, 2, 5}
					b := &bitw{}
					at := w.Pick(3)
					for i := 0; i < 3; i++ {
						s := len(b.b)
						header(b, good, 0, 0x7FF)
						b.bytes([]byte{1, 2, 3, 4, 5})
						if i != at {
							continue
						}
						switch w.Pick(5) {
						case 0:
							b.b[s+w.Pick(12)] ^= 1
						case 1:
							b.b[s+15] = 0
						case 2:
							x := 13 + w.Pick(3)
							for j := 0; j < 4; j++ {
								b.b[s+18+j] = byte(x >> uint(3-j) & 1)
							}
						case 3:
							x := w.Pick(8)
							for j := 0; j < 13; j++ {
								b.b[s+30+j] = byte(x >> uint(12-j) & 1)
							}
						default:
							x := 1 + w.Pick(3)
							b.b[s+54], b.b[s+55] = byte(x>>1), byte(x&1)
						}
					}
					var got mpeg4audio.ADTSPackets
					err := got.Unmarshal(b.out())
					w.Step(kit.H(b.out()))
					w.Check(err != nil, "adts-invalid", "%x accepted", b.out())
					for i, g := range got {
						w.Check(i < at && eq(g.AU, []byte{1, 2, 3, 4, 5}), "adts-invalid-data", "packet %d of an invalid stream is returned as %s", i, dump(g))
					}
				case 1:
					q := build(pkt{2, 4, 2, 5}, 0)
					k := w.Pick(9)
					switch k {
					case 0:
						q.Type = 0
					case 1:
						q.Type = 5
					case 2:
						q.Type = 29
					case 3:
						q.SampleRate = 0
					case 4:
						q.SampleRate = 44101
					case 5:
						q.ChannelConfig, q.ChannelCount = 0, 7
					case 6:
						q.ChannelConfig, q.ChannelCount = 0, 9
					case 7:
						q.ChannelConfig, q.ChannelCount = 0, -1
					case 8:
						q.ChannelConfig, q.ChannelCount = 8, 0
					}
					enc, err := mpeg4audio.ADTSPackets{build(pkt{2, 4, 2, 5}, 0), q}.Marshal()
					w.Check(err != nil, "adts-unsupported", "%s is encoded to %x", dump(q), enc)
				default:
					n := kit.Of(w, 8183, 8184, 8185, 8192, 10000, 16384, 16400)
					ps := mpeg4audio.ADTSPackets{build(pkt{2, 4, 2, 5}, 0), build(pkt{2, 4, 2, n}, 0), build(pkt{2, 4, 2, 5}, 0)}
					enc, err := ps.Marshal()
					w.Step(kit.H(n, err == nil))
					if n > 8184 {
						w.Check(err != nil, "adts-too-big", "an access unit of %d bytes does not fit the 13-bit frame length but is encoded", n)
						return
					}
					b := &bitw{}
					for _, q := range ps {
						header(b, pkt{2, 4, 2, len(q.AU)}, 0, 0x7FF)
						b.bytes(q.AU)
					}
					w.Check(err == nil && eq(enc, b.out()), "adts-encode", "access unit of %d bytes: %v", n, err)
				}
			})
		},
	})

	kit.Register(&kit.Check{
		ID:          "A03",
		Assumptions: []string{"frame length type 0 (the only one whose payload length is coded) and no other data, as the code states; the payload lists match the configuration"},
		Run: func(c *kit.Ctx) {
			putElement := func(b *bitw, e *mpeg4audio.AudioMuxElement) {
				if e.MuxConfigPresent {
					b.flag(e.UseSameStreamMux)
					if !e.UseSameStreamMux {
						putSMC(b, e.StreamMuxConfig, 0)
					}
				}
				for _, sf := range e.Payloads {
					for _, p := range sf {
						for _, l := range p {
							for n := len(l); ; n -= 255 {
								if n < 255 {
									b.u(uint64(n), 8)
									break
								}
								b.u(255, 8)
							}
						}
					}
					for _, p := range sf {
						for _, l := range p {
							b.bytes(l)
						}
					}
				}
			}
			c.Explore("mux-elements", kit.Opt{MaxDev: kit.T(c, 3, 4), Bound: fmt.Sprintf("config in band, kept or out of band x up to %d deviations in configuration (subframes 1-64, programs 1-16, layers 1-8, CRC) and payload lengths (0 to 1021, around every multiple of 255); every truncation", kit.T(c, 3, 4))}, func(w *kit.W) {
				v := devVals(w)
				mode := w.Pick(3)
				e := &mpeg4audio.AudioMuxElement{MuxConfigPresent: mode != 0, UseSameStreamMux: mode == 2}
				e.StreamMuxConfig = genSMC(v, true)
				k := 0
				for i := uint(0); i <= e.StreamMuxConfig.NumSubFrames; i++ {
					var sf [][][]byte
					for _, p := range e.StreamMuxConfig.Programs {
						var pl [][]byte
						for range p.Layers {
							n := 3
							if k < 4 {
								n = int(v(3, 0, 1, 254, 255, 256, 509, 510, 511, 1020, 1021))
							}
							pl = append(pl, pat(n, byte(k)))
							k++
						}
						sf = append(sf, pl)
					}
					e.Payloads = append(e.Payloads, sf)
				}
				b := &bitw{}
				putElement(b, e)
				ref := b.out()
				enc, err := e.Marshal()
				w.Check(err == nil && eq(enc, ref), "latm-encode", "mode %d: encoded as %s (%v), expected %s", mode, hx(enc), err, hx(ref))
				dec := func(in []byte) (*mpeg4audio.AudioMuxElement, error) {
					d := &mpeg4audio.AudioMuxElement{MuxConfigPresent: e.MuxConfigPresent}
					if mode != 1 {
						d.StreamMuxConfig = e.StreamMuxConfig
					} else if v(0, 1) == 1 {
						d.StreamMuxConfig = usedSMC()
						d.Payloads = [][][][]byte{{{{1}}}}
						d.UseSameStreamMux = true
					}
					return d, d.Unmarshal(in)
				}
				got, err := dec(clone(ref))
				w.Check(err == nil && deepEq(got, e), "latm-decode", "mode %d, %s: error %v, %s", mode, hx(ref), err, diff(got, e))
				w.Step(kit.H(ref))
				_, err = dec(append(clone(ref), 0))
				w.Check(err != nil, "latm-trailing", "trailing byte accepted")
				if len(ref) < 200 {
					for n := 0; n < len(ref); n++ {
						_, err := dec(clone(ref[:n]))
						w.Check(err != nil, "latm-truncated", "%x cut after %d bytes is accepted", ref, n)
					}
				}
			})
			big := []int{8191, 8192, 32768, 65279, 65280, 65281, 65534, 65535, 65536, 65537, 70000, 200000}
			c.Explore("long-payloads", kit.Opt{Bound: fmt.Sprintf("config in band, kept or out of band, 1 or 2 layers, every pair of payload lengths out of 5 and %v", big)}, func(w *kit.W) {
				mode := w.Pick(3)
				layers := w.Pick(2) + 1
				e := &mpeg4audio.AudioMuxElement{MuxConfigPresent: mode != 0, UseSameStreamMux: mode == 2}
				e.StreamMuxConfig = &mpeg4audio.StreamMuxConfig{Programs: []*mpeg4audio.StreamMuxConfigProgram{{}}}
				sf := [][][]byte{nil}
				for i := range layers {
					l := &mpeg4audio.StreamMuxConfigLayer{LatmBufferFullness: 255}
					if i == 0 {
						l.AudioSpecificConfig = &mpeg4audio.AudioSpecificConfig{Type: 2, SampleRate: 48000, ChannelConfig: 2, ChannelCount: 2}
					}
					e.StreamMuxConfig.Programs[0].Layers = append(e.StreamMuxConfig.Programs[0].Layers, l)
					n := 5
					if k := w.Pick(len(big) + 1); k > 0 {
						n = big[k-1]
					}
					sf[0] = append(sf[0], pat(n, byte(i)))
				}
				e.Payloads = [][][][]byte{sf}
				b := &bitw{}
				putElement(b, e)
				ref := b.out()
				enc, err := e.Marshal()
				w.Check(err == nil && bytes.Equal(enc, ref), "latm-encode", "mode %d, %d layers: encoded as %s (%v), expected %s", mode, layers, hx(enc), err, hx(ref))
				got := &mpeg4audio.AudioMuxElement{MuxConfigPresent: e.MuxConfigPresent}
				if mode != 1 {
					got.StreamMuxConfig = e.StreamMuxConfig
				}
				err = got.Unmarshal(ref)
				w.Check(err == nil && deepEq(got, e), "latm-decode", "mode %d, %s: error %v", mode, hx(ref), err)
				w.Step(kit.H(mode, layers, len(ref)))
			})
			c.Explore("kept-configuration", kit.Opt{Bound: "every sequence of 4 elements that carry one of 3 configurations or keep the previous one, decoded one after another"}, func(w *kit.W) {
				cfgs := []*mpeg4audio.StreamMuxConfig{}
				for i := 0; i < 3; i++ {
					l := func(rate int) *mpeg4audio.StreamMuxConfigLayer {
						return &mpeg4audio.StreamMuxConfigLayer{AudioSpecificConfig: &mpeg4audio.AudioSpecificConfig{Type: 2, SampleRate: rate, ChannelConfig: 2, ChannelCount: 2}, LatmBufferFullness: 255}
					}
					s := &mpeg4audio.StreamMuxConfig{NumSubFrames: uint(i & 1), Programs: []*mpeg4audio.StreamMuxConfigProgram{{Layers: []*mpeg4audio.StreamMuxConfigLayer{l(48000)}}}}
					if i == 2 {
						s.Programs[0].Layers = append(s.Programs[0].Layers, l(8000))
					}
					cfgs = append(cfgs, s)
				}
				var cur, prevDec *mpeg4audio.StreamMuxConfig
				for i := 0; i < 4; i++ {
					k := w.Pick(4)
					e := &mpeg4audio.AudioMuxElement{MuxConfigPresent: true, UseSameStreamMux: k == 3}
					if k < 3 {
						cur = cfgs[k]
					}
					d := &mpeg4audio.AudioMuxElement{MuxConfigPresent: true, StreamMuxConfig: prevDec}
					if cur == nil {
						w.Check(d.Unmarshal([]byte{0x80, 0x80}) != nil, "latm-no-config", "element without any configuration accepted")
						continue
					}
					e.StreamMuxConfig = cur
					for s := uint(0); s <= cur.NumSubFrames; s++ {
						var pl [][]byte
						for j := range cur.Programs[0].Layers {
							pl = append(pl, pat(2+i, byte(i+j)))
						}
						e.Payloads = append(e.Payloads, [][][]byte{pl})
					}
					enc, err := e.Marshal()
					w.Check(err == nil, "latm-encode", "%v", err)
					err = d.Unmarshal(enc)
					w.Check(err == nil && deepEq(d, e), "latm-decode", "element %d: %v %s", i, err, diff(d, e))
					prevDec = d.StreamMuxConfig
					w.Step(kit.H(i, enc))
				}
			})
			c.Explore("unsupported-lengths", kit.Opt{Bound: "every frame length type other than 0, in the 1st or 2nd layer, config in band or not, encode and decode"}, func(w *kit.W) {
				t := uint(1 + w.Pick(7))
				l := func() *mpeg4audio.StreamMuxConfigLayer {
					return &mpeg4audio.StreamMuxConfigLayer{AudioSpecificConfig: &mpeg4audio.AudioSpecificConfig{Type: 2, SampleRate: 48000, ChannelConfig: 2, ChannelCount: 2}}
				}
				s := &mpeg4audio.StreamMuxConfig{Programs: []*mpeg4audio.StreamMuxConfigProgram{{Layers: []*mpeg4audio.StreamMuxConfigLayer{l(), l()}}}}
				s.Programs[0].Layers[w.Pick(2)].FrameLengthType = t
				e := mpeg4audio.AudioMuxElement{MuxConfigPresent: w.Bool(), StreamMuxConfig: s, Payloads: [][][][]byte{{{{1, 2}, {3, 4}}}}}
				enc, err := e.Marshal()
				w.Check(err != nil, "latm-unsupported", "frame length type %d is encoded to %x", t, enc)
				b := &bitw{}
				putElement(b, &e)
				d := &mpeg4audio.AudioMuxElement{MuxConfigPresent: e.MuxConfigPresent, StreamMuxConfig: s}
				w.Check(d.Unmarshal(b.out()) != nil, "latm-unsupported", "frame length type %d is decoded", t)
				w.Step(kit.H(t))
			})
			c.Explore("sync-stream", kit.Opt{Bound: "every list of 1-3 elements of 0, 1, 2, 255, 256, 8190, 8191, 8192, 8193, 16384 bytes; every truncation, sync word corruption"}, func(w *kit.W) {
				n := 1 + w.Pick(3)
				var s mpeg4audio.AudioSyncStream
				b := []byte{}
				ends := []int{}
				big := false
				for i := 0; i < n; i++ {
					l := kit.Of(w, 0, 1, 2, 255, 256, 8190, 8191, 8192, 8193, 16384)
					el := pat(l, byte(l+i))
					s.AudioMuxElements = append(s.AudioMuxElements, el)
					h := (&bitw{}).u(0x2B7, 11).u(uint64(l), 13)
					b = append(b, h.out()...)
					b = append(b, el...)
					ends = append(ends, len(b))
					big = big || l > 8191
				}
				enc, err := s.Marshal()
				w.Step(kit.H(len(enc), n))
				if big {
					w.Check(err != nil, "loas-too-big", "an element over 8191 bytes is encoded")
					return
				}
				w.Check(err == nil && eq(enc, b), "loas-encode", "encoded as %s (%v), expected %s", hx(enc), err, hx(b))
				var got mpeg4audio.AudioSyncStream
				if w.Bool() {
					got.AudioMuxElements = [][]byte{{1, 2, 3}}
				}
				err = got.Unmarshal(clone(b))
				w.Check(err == nil && deepEq(got, s), "loas-decode", "error %v, %s", err, diff(got, s))
				var cuts []int
				for _, e := range ends {
					for d := -5; d <= 5; d++ {
						if e+d >= 0 && e+d < len(b) {
							cuts = append(cuts, e+d)
						}
					}
				}
				for _, k := range append(cuts, 0, 1, 2) {
					if k >= len(b) {
						continue
					}
					var t mpeg4audio.AudioSyncStream
					err := t.Unmarshal(clone(b[:k]))
					at := false
					for _, e := range ends {
						at = at || e == k
					}
					w.Check((err == nil) == at, "loas-truncated", "%d of %d bytes: error %v", k, len(b), err)
				}
				for bit := 0; bit < 11; bit++ {
					x := clone(b)
					o := 0
					if n > 1 {
						o = ends[n-2]
					}
					x[o+bit/8] ^= 0x80 >> uint(bit%8)
					var t mpeg4audio.AudioSyncStream
					w.Check(t.Unmarshal(x) != nil, "loas-sync", "sync word %x accepted", x[o:o+2])
				}
			})
			c.Range("sync-stream-long", 400, "4 to 401 elements, and 1000 and 70000 elements, of sizes 0 to 10", func(w *kit.W) {
				n := 4 + int(w.Index)
				if w.Index >= 398 {
					n = []int{1000, 70000}[w.Index-398]
				}
				var s mpeg4audio.AudioSyncStream
				var b []byte
				for i := 0; i < n; i++ {
					l := i % 11
					s.AudioMuxElements = append(s.AudioMuxElements, pat(l, byte(i)))
					b = append(append(b, (&bitw{}).u(0x2B7, 11).u(uint64(l), 13).out()...), pat(l, byte(i))...)
				}
				enc, err := s.Marshal()
				w.Check(err == nil && eq(enc, b), "loas-encode", "%d elements: %v", n, err)
				var got mpeg4audio.AudioSyncStream
				err = got.Unmarshal(clone(b))
				w.Check(err == nil && deepEq(got, s), "loas-decode", "%d elements: error %v, %d elements", n, err, len(got.AudioMuxElements))
				w.Step(kit.H(n, len(b)))
			})
		},
	})

	kit.Register(&kit.Check{
		ID:          "A09",
		Assumptions: []string{"a single, pair or LFE element ends the count (the code documents that it cannot skip them), so the count of a block without PCE is that of its first channel element"},
		Run: func(c *kit.Ctx) {
			depth := kit.T(c, 3, 4)
			c.Explore("raw-data-blocks", kit.Opt{MaxDev: kit.T(c, 1, 2), Bound: fmt.Sprintf("every sequence of up to %d fill elements (7 sizes) and data elements (3 sizes, 6 in the thorough run, aligned or not) followed by a single, pair, LFE, coupling, PCE or end element or by nothing; every truncation", depth)}, func(w *kit.W) {
				b := &bitw{}
				n := w.Pick(depth + 1)
				var desc []string
				for i := 0; i < n; i++ {
					k := w.Pick(kit.T(c, 13, 19))
					switch {
					case k < 7:
						cnt := []int{0, 1, 2, 14, 15, 16, 269}[k]
						desc = append(desc, fmt.Sprintf("FIL(%d)", cnt))
						b.u(6, 3)
						if cnt < 15 {
							b.u(uint64(cnt), 4)
						} else {
							b.u(15, 4).u(uint64(cnt-14), 8)
						}
						b.bytes(pat(cnt, 7))
					default:
						al := k%2 == 1
						cnt := []int{0, 1, 510, 255, 3, 254}[(k-7)/2]
						desc = append(desc, fmt.Sprintf("DSE(%d,%v)", cnt, al))
						b.u(4, 3).u(uint64(i), 4).flag(al)
						if cnt < 255 {
							b.u(uint64(cnt), 8)
						} else {
							b.u(255, 8).u(uint64(cnt-255), 8)
						}
						if al {
							b.align()
						}
						b.bytes(pat(cnt, 9))
					}
				}
				k := w.Pick(7)
				want, end := 0, 0
				desc = append(desc, []string{"SCE", "CPE", "CCE", "LFE", "PCE", "END", "nothing"}[k])
				switch k {
				case 0, 1, 3:
					b.u(uint64(k), 3).u(uint64(w.Pick(2)*15), 4)
					want = []int{1, 2, 0, 1}[k]
					end = len(b.b)
				case 2:
					b.u(2, 3)
				case 4:
					b.u(5, 3)
					end, want = putPCE(b, genPCE(devVals(w)))
				case 5:
					b.u(7, 3)
				}
				if k != 6 {
					// the rest of the block (here no element follows that would count)
					b.u(0x1FF, 9)
				} else {
					for len(b.b)%8 != 0 {
						b.u(1, 1)
					}
				}
				ref := b.out()
				w.Step(kit.H(ref))
				for l := len(ref); l >= 0; l-- {
					got, err := mpeg4audio.CountChannelsFromRawDataBlock(clone(ref[:l]))
					if want > 0 && 8*l >= end {
						w.Check(err == nil && got == want, "aac-count", "%v in %d bytes: %d channels (%v), expected %d", desc, l, got, err, want)
					} else {
						w.Check(err != nil && got == 0, "aac-count-truncated", "%v in %d of %d bytes: %d channels, expected an error", desc, l, len(ref), got)
					}
				}
			})
			c.Explore("many-elements", kit.Opt{Bound: "every sequence of 4-8 fill elements (empty, or of 14, 15 or 16 bytes) and data elements (empty, aligned or not), so that elements begin at every bit offset, with contents 0 or 1, followed by a pair or a single element; every truncation"}, func(w *kit.W) {
				b := &bitw{}
				n := 4 + w.Pick(kit.T(c, 4, 5))
				fill := uint64(w.Pick(2))
				var desc []string
				for i := 0; i < n; i++ {
					switch w.Pick(kit.T(c, 4, 5)) {
					case 0:
						desc = append(desc, "FIL(0)")
						b.u(6, 3).u(0, 4)
					case 1:
						desc = append(desc, "FIL(15)")
						b.u(6, 3).u(15, 4).u(1, 8).u(-fill, 15*8)
					case 2:
						desc = append(desc, "DSE(0)")
						b.u(4, 3).u(0, 4).u(0, 1).u(0, 8)
					case 3:
						desc = append(desc, "DSE(1,aligned)")
						b.u(4, 3).u(0, 4).u(1, 1).u(1, 8).align().u(-fill, 8)
					default:
						desc = append(desc, "FIL(14)")
						b.u(6, 3).u(14, 4).u(-fill, 14*8)
					}
				}
				k := w.Pick(2)
				b.u(uint64(k), 3).u(0, 4)
				end := len(b.b)
				ref := b.u(0, 9).out()
				w.Step(kit.H(ref))
				for l := len(ref); l >= 0; l-- {
					got, err := mpeg4audio.CountChannelsFromRawDataBlock(clone(ref[:l]))
					if 8*l >= end {
						w.Check(err == nil && got == k+1, "aac-count", "%v in %d bytes: %d channels (%v), expected %d", desc, l, got, err, k+1)
					} else {
						w.Check(err != nil && got == 0, "aac-count-truncated", "%v cut after %d of %d bytes: %d channels, expected an error", desc, l, len(ref), got)
					}
				}
			})
			c.Range("short-blocks", 1<<24, "every block of 3 bytes: terminates with an error or a count between 1 and 8", func(w *kit.W) {
				i := w.Index
				got, err := mpeg4audio.CountChannelsFromRawDataBlock([]byte{byte(i >> 16), byte(i >> 8), byte(i)})
				w.Check((err == nil) == (got > 0), "aac-count-short", "%06x: %d %v", i, got, err)
			})
			c.Explore("configurations", kit.Opt{Bound: "ADTS and AudioSpecificConfig: every channel configuration and every channel count from -1 to 17, in both directions"}, func(w *kit.W) {
				adts := w.Bool()
				if w.Bool() {
					cfg := uint8(w.Pick(8))
					var n int
					var back uint8
					if adts {
						h := (&bitw{}).u(0xFFF1, 16).u(1, 2).u(4, 4).u(0, 1).u(uint64(cfg), 3).u(0, 4).u(9, 13).u(0, 13).u(0x1234, 16)
						var ps mpeg4audio.ADTSPackets
						err := ps.Unmarshal(h.out())
						w.Check(err == nil, "aac-config", "configuration %d: %v", cfg, err)
						n, back = ps[0].ChannelCount, ps[0].ChannelConfig
					} else {
						h := (&bitw{}).u(2, 5).u(4, 4).u(uint64(cfg), 4).u(0, 3)
						var a mpeg4audio.AudioSpecificConfig
						err := a.Unmarshal(h.out())
						w.Check(err == nil, "aac-config", "configuration %d: %v", cfg, err)
						n, back = a.ChannelCount, a.ChannelConfig
					}
					w.Step(kit.H(adts, cfg))
					w.Check(back == cfg && n == aacChannels(cfg), "aac-config", "configuration %d is decoded as configuration %d, %d channels", cfg, back, n)
					return
				}
				n := w.Pick(19) - 1
				var cfg byte
				var err error
				var enc []byte
				if adts {
					enc, err = mpeg4audio.ADTSPackets{{Type: 2, SampleRate: 44100, ChannelCount: n, AU: []byte{1}}}.Marshal()
					if err == nil {
						cfg = enc[2]&1<<2 | enc[3]>>6
					}
				} else {
					enc, err = mpeg4audio.AudioSpecificConfig{Type: 2, SampleRate: 44100, ChannelCount: n}.Marshal()
					if err == nil {
						cfg = enc[1] >> 3 & 15
					}
				}
				valid := n >= 0 && n <= 6 || n == 8
				if !adts { // the same configuration inside of LATM
					smc := &mpeg4audio.StreamMuxConfig{Programs: []*mpeg4audio.StreamMuxConfigProgram{{Layers: []*mpeg4audio.StreamMuxConfigLayer{{
						AudioSpecificConfig: &mpeg4audio.AudioSpecificConfig{Type: 2, SampleRate: 44100, ChannelCount: n}, LatmBufferFullness: 255,
					}}}}}
					_, merr := smc.Marshal()
					w.Check((merr == nil) == valid, "aac-config", "StreamMuxConfig of %d channels: %v", n, merr)
					el := &mpeg4audio.AudioMuxElement{MuxConfigPresent: true, StreamMuxConfig: smc, Payloads: [][][][]byte{{{{1, 2, 3}}}}}
					_, merr = el.Marshal()
					w.Check((merr == nil) == valid, "aac-config", "AudioMuxElement of %d channels: %v", n, merr)
				}
				w.Step(kit.H(adts, n))
				w.Check((err == nil) == valid && (!valid || aacChannels(cfg) == n), "aac-config", "%d channels are encoded as configuration %d (%v)", n, cfg, err)
			})
		},
	})
}
