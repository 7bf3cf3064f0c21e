package props

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"github.com/bluenviron/mediacommon/v2/pkg/bits"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/ac3"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/av1"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/eac3"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/flac"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/g711"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/jpeg"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg1audio"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4video"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/opus"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/vp8"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/vp9"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/substructs"

	"verif/mc/kit"
)

// rTarget is a decoder, with its encoder if there is one.
type rTarget struct {
	name string
	// seed gives a valid encoding (nil: nothing for these choices)
	seed func(w *kit.W, pick func(int) int, v valFn) []byte
	// fresh gives a variable to decode into, used one that has been used already
	fresh, used func() any
	// dec decodes b into x and uses whatever can be asked of the result
	dec func(x any, b []byte) error
	enc func(x any) ([]byte, error)
	// len gives the number of bytes read, for decoders of prefixes
	len func(x any) int
	// norm removes what is not coded
	norm func(x any)
}

// rVal is a decoded value that is not a struct of the library.
type rVal struct {
	v any
	n int
}

func rDec[T any](f func(x *T, b []byte) error) func(any, []byte) error {
	return func(x any, b []byte) error { return f(x.(*T), b) }
}

func rEnc[T any](f func(x *T) ([]byte, error)) func(any) ([]byte, error) {
	return func(x any) ([]byte, error) { return f(x.(*T)) }
}

func rNew[T any]() func() any { return func() any { return new(T) } }

func rUsed[T any](f func() *T) func() any { return func() any { return f() } }

// rPure is a function without a value to decode into.
func rPure(name string, f func(b []byte) (any, error), seed func(w *kit.W, pick func(int) int, v valFn) []byte) *rTarget {
	return &rTarget{name: name, seed: seed, fresh: rNew[rVal](), dec: func(x any, b []byte) error {
		var err error
		x.(*rVal).v, err = f(b)
		return err
	}}
}

func rUnits(v valFn) [][]byte {
	var u [][]byte
	for i := range int(v(2, 1, 3)) {
		n := int(v(4, 1, 2, 127, 128))
		b := pat(n, byte(i*60+1))
		b[0] = byte(v(0x65, 0x01, 0x67, 0x42, 0x26, 0x0A, 0x12, 0xFF))
		for j := range b {
			if b[j] < 4 {
				b[j] = 0x80
			}
		}
		u = append(u, b)
	}
	return u
}

func must(b []byte, err error) []byte {
	if err != nil {
		panic(err)
	}
	return b
}

func vp9Seed(pick func(int) int, v valFn) []byte {
	b := (&bitw{}).u(2, 2)
	prof := pick(4)
	b.u(uint64(prof&1), 1).u(uint64(prof>>1), 1)
	if prof == 3 {
		b.u(0, 1)
	}
	if v(0, 1) == 1 {
		return b.u(1, 1).u(0, 3).out()
	}
	b.u(0, 1)
	nonKey := v(0, 1)
	b.u(nonKey, 1).u(v(1, 0), 1).u(v(0, 1), 1)
	if nonKey == 1 {
		return b.u(0, 8).out()
	}
	b.u(0x498342, 24)
	if prof >= 2 {
		b.u(v(0, 1), 1)
	}
	cs := v(2, 7, 0)
	b.u(cs, 3)
	if cs != 7 {
		b.u(v(0, 1), 1)
		if prof&1 == 1 {
			b.u(v(2, 0, 1), 2).u(0, 1)
		}
	} else if prof&1 == 1 {
		b.u(0, 1)
	}
	b.u(v(1919, 0, 65535), 16).u(v(1079, 0, 65535), 16)
	return b.u(0, 8).out()
}

func rTargets() []*rTarget {
	var out []*rTarget
	add := func(t *rTarget) { out = append(out, t) }

	// ---- bits
	add(rPure("bits", func(b []byte) (any, error) {
		var l []any
		for n := range 65 {
			for p := range len(b)*8 + 2 {
				pos := p
				x, err := bits.ReadBits(b, &pos, n)
				l = append(l, x, err == nil, pos)
			}
		}
		for p := range len(b)*8 + 2 {
			pos := p
			x, err := bits.ReadGolombUnsigned(b, &pos)
			l = append(l, x, err == nil, pos)
			pos = p
			y, err := bits.ReadGolombSigned(b, &pos)
			l = append(l, y, err == nil, pos)
			pos = p
			z, err := bits.ReadFlag(b, &pos)
			l = append(l, z, err == nil, pos, bits.HasSpace(b, p, 3) == nil)
		}
		return l, nil
	}, func(_ *kit.W, _ func(int) int, v valFn) []byte { return []byte{byte(v(0, 1, 0x80)), 1} }))

	// ---- AV1
	add(&rTarget{name: "av1-sequence-header", seed: func(_ *kit.W, pick func(int) int, v valFn) []byte {
		_, b, _ := av1encSeq(pick, v)
		return append([]byte{0x08}, b.out()...)
	}, fresh: rNew[av1.SequenceHeader](), dec: rDec(func(x *av1.SequenceHeader, b []byte) error {
		err := x.Unmarshal(b)
		x.Width()
		x.Height()
		return err
	})})
	tu := func(_ *kit.W, _ func(int) int, v valFn) []byte {
		var u [][]byte
		for i := range int(v(2, 1, 3)) {
			n := int(v(3, 1, 2, 127, 128))
			b := pat(n, byte(i)*50)
			b[0] = byte(v(0x08, 0x12, 0x22, 0x32, 0x7A)) &^ 2
			u = append(u, b)
		}
		return must(av1.Bitstream(u).Marshal())
	}
	add(&rTarget{name: "av1-bitstream", seed: tu, fresh: rNew[av1.Bitstream](), used: rUsed(func() *av1.Bitstream { return &av1.Bitstream{{1}, {2}} }), dec: rDec(func(x *av1.Bitstream, b []byte) error {
		err := x.Unmarshal(b)
		av1.IsRandomAccess2(*x)
		av1.IsRandomAccess(*x) //nolint:errcheck
		return err
	}), enc: rEnc(func(x *av1.Bitstream) ([]byte, error) { return x.Marshal() })})
	add(&rTarget{name: "av1-leb128", seed: func(_ *kit.W, _ func(int) int, v valFn) []byte {
		return refLEB(v(300, 0, 127, 128, 1<<32-1, 1<<32, 1<<56-1), int(v(0, 8, 9)))
	}, fresh: rNew[rVal](), dec: rDec(func(x *rVal, b []byte) error {
		l, _ := x.v.(av1.LEB128)
		n, err := l.Unmarshal(b)
		*x = rVal{l, n}
		return err
	}), enc: rEnc(func(x *rVal) ([]byte, error) {
		l := x.v.(av1.LEB128)
		b := make([]byte, l.MarshalSize())
		if n := l.MarshalTo(b); n != len(b) {
			return nil, fmt.Errorf("size %d, written %d", len(b), n)
		}
		return b, nil
	}), norm: func(x any) { x.(*rVal).n = 0 }})
	add(&rTarget{name: "av1-obu-header", seed: func(_ *kit.W, _ func(int) int, v valFn) []byte {
		return []byte{byte(v(0x0A, 0x0E, 0x80, 0x08, 0x12))}
	}, fresh: rNew[av1.OBUHeader](), dec: rDec(func(x *av1.OBUHeader, b []byte) error { return x.Unmarshal(b) })})
	add(rPure("av1-random-access", func(b []byte) (any, error) {
		r := av1.IsRandomAccess2([][]byte{b, {}, nil})
		_, err := av1.IsRandomAccess([][]byte{b})
		av1.IsRandomAccess([][]byte{{}, b}) //nolint:errcheck
		return r, err
	}, func(_ *kit.W, _ func(int) int, v valFn) []byte { return []byte{byte(v(0x0A, 0x0E, 0x80)), 1, 2} }))

	// ---- VP8, VP9
	add(rPure("vp8-random-access", func(b []byte) (any, error) { return vp8.IsRandomAccess(b), nil }, func(_ *kit.W, _ func(int) int, v valFn) []byte {
		return []byte{byte(v(0x10, 0x11)), 2, 0, 0x9D, 1, 0x2A, 0x40, 0, 0x30, 0}
	}))
	vp9s := func(_ *kit.W, pick func(int) int, v valFn) []byte { return vp9Seed(pick, v) }
	add(&rTarget{name: "vp9-header", seed: vp9s, fresh: rNew[vp9.Header](), dec: rDec(func(x *vp9.Header, b []byte) error {
		err := x.Unmarshal(b)
		x.Width()
		x.Height()
		x.ChromaSubsampling()
		return err
	})})
	add(rPure("vp9-random-access", func(b []byte) (any, error) { return vp9.IsRandomAccess(b), nil }, vp9s))

	// ---- H264, H265
	add(&rTarget{name: "h264-sps", seed: func(w *kit.W, pick func(int) int, v valFn) []byte {
		_, b := h264encSPS(pickH264Shape(w, pick), v)
		return append([]byte{0x67}, emulate(b.out())...)
	}, fresh: rNew[h264.SPS](), dec: rDec(func(x *h264.SPS, b []byte) error {
		err := x.Unmarshal(b)
		if err == nil {
			x.Width()
			x.Height()
			x.FPS()
		}
		return err
	})})
	add(&rTarget{name: "h265-sps", seed: func(w *kit.W, pick func(int) int, v valFn) []byte {
		_, b := h265encSPS(pickH265Shape(w, pick, 2), v)
		return append([]byte{0x42, 0x01}, emulate(b.out())...)
	}, fresh: rNew[h265.SPS](), dec: rDec(func(x *h265.SPS, b []byte) error {
		err := x.Unmarshal(b)
		if err == nil {
			x.Width()
			x.Height()
			x.FPS()
		}
		return err
	})})
	add(&rTarget{name: "h265-pps", seed: func(_ *kit.W, _ func(int) int, v valFn) []byte {
		b := (&bitw{}).ue(v(0, 1, 63)).ue(v(0, 1, 15)).u(v(0, 1), 1).u(v(0, 1), 1).u(v(0, 1, 7), 3).u(0, 5)
		return append([]byte{0x44, 0x01}, emulate(b.out())...)
	}, fresh: rNew[h265.PPS](), dec: rDec(func(x *h265.PPS, b []byte) error { return x.Unmarshal(b) })})
	add(&rTarget{name: "h264-annexb", seed: func(_ *kit.W, _ func(int) int, v valFn) []byte {
		b := must(h264.AnnexB(rUnits(v)).Marshal())
		return b[v(0, 1):]
	}, fresh: rNew[h264.AnnexB](), used: rUsed(func() *h264.AnnexB { return &h264.AnnexB{{1}, {2}} }), dec: rDec(func(x *h264.AnnexB, b []byte) error {
		err := x.Unmarshal(b)
		h264.IsRandomAccess(*x)
		h265.IsRandomAccess(*x)
		return err
	}), enc: rEnc(func(x *h264.AnnexB) ([]byte, error) { return x.Marshal() })})
	add(&rTarget{name: "h264-avcc", seed: func(_ *kit.W, _ func(int) int, v valFn) []byte { return must(h264.AVCC(rUnits(v)).Marshal()) },
		fresh: rNew[h264.AVCC](), used: rUsed(func() *h264.AVCC { return &h264.AVCC{{1}, {2}} }), dec: rDec(func(x *h264.AVCC, b []byte) error {
			err := x.Unmarshal(b)
			h264.IsRandomAccess(*x)
			h265.IsRandomAccess(*x)
			return err
		}), enc: rEnc(func(x *h264.AVCC) ([]byte, error) { return x.Marshal() })})
	add(rPure("h26x-units", func(b []byte) (any, error) {
		var l []any
		for _, au := range [][][]byte{{b}, {b, {0x65}}, {nil, b}} {
			l = append(l, h264.IsRandomAccess(au), h265.IsRandomAccess(au))
		}
		return append(l, h264.EmulationPreventionRemove(b)), nil
	}, func(_ *kit.W, _ func(int) int, v valFn) []byte { return []byte{0x67, 0, 0, 3, byte(v(1, 0, 3))} }))
	// DTS extraction: one unit of a stream is replaced
	h4 := h264StreamCfg{log2poc: 5, log2fn: 4, sliceType: 5, inc: 2}
	h4p := buildStream([]int{0, 1, 2})
	if len(h4p) > 3 {
		h4p = h4p[:3]
	}
	h4sps := h264dtsSPS(h4, 0, false)
	for _, k := range []string{"sps", "idr", "slice"} {
		add(rPure("h264-dts-"+k, func(b []byte) (any, error) {
			var e h264.DTSExtractor
			e.Initialize()
			var l []any
			for n, p := range h4p {
				au := h264AU(h4, p, n, h4sps)
				switch {
				case k == "sps" && n == 0:
					au[0] = b
				case k == "idr" && n == 0, k == "slice" && n == 1:
					au[len(au)-1] = b
				}
				d, err := e.Extract(au, int64(p.disp)*3000)
				l = append(l, d, err == nil)
			}
			return l, nil
		}, func(w *kit.W, pick func(int) int, v valFn) []byte {
			switch k {
			case "sps":
				c := h4
				c.sepPlanes = v(0, 1) == 1
				return h264dtsSPS(c, uint32(v(0, 1, 2)), v(0, 1) == 1)
			case "idr":
				return h264slice(h4, h4p[0], 0)
			}
			return h264slice(h4, h4p[1], 1)
		}))
	}
	groups := []int{0, 1, 2}
	h5p := buildH265(groups, 2, false, false)
	if len(h5p) > 3 {
		h5p = h5p[:3]
	}
	var h5 h265Cfg
	h5sets := setsFor(h5, h5p)
	h5sps, h5vals := h265dtsSPS(h5, h5sets)
	h5pps := h265dtsPPS(h5)
	for _, k := range []string{"sps", "pps", "idr", "slice"} {
		add(rPure("h265-dts-"+k, func(b []byte) (any, error) {
			var e h265.DTSExtractor
			e.Initialize()
			var l []any
			for n, p := range h5p {
				au := h265AU(h5, p, h5sps, h5pps, h5sets, h5vals, n == 0)
				for i, u := range au {
					typ := u[0] >> 1 & 63
					switch {
					case k == "sps" && typ == 33, k == "pps" && typ == 34, k == "idr" && n == 0 && typ < 32, k == "slice" && n == 1 && typ < 32:
						au[i] = b
					}
				}
				d, err := e.Extract(au, int64(n)*3000)
				l = append(l, d, err == nil)
			}
			return l, nil
		}, func(w *kit.W, pick func(int) int, v valFn) []byte {
			c := h5
			switch k {
			case "sps":
				return clone(h5sps)
			case "pps":
				return h265dtsPPS(c)
			case "idr":
				return h265slice(h5, h5p[0], h5sets, h5vals)
			}
			return h265slice(h5, h5p[1], h5sets, h5vals)
		}))
	}

	// ---- MPEG-4 audio
	add(&rTarget{name: "mpeg4audio-config", seed: func(_ *kit.W, pick func(int) int, v valFn) []byte {
		b := &bitw{}
		c := genASC(pick, aacRateMenu)
		putASC(b, c, v(0, 1) == 1, v(0, 1) == 1)
		if c.ChannelConfig == 0 {
			putPCE(b, genPCE(v))
		}
		return b.align().out()
	}, fresh: rNew[mpeg4audio.AudioSpecificConfig](), used: rUsed(usedASC), dec: rDec(func(x *mpeg4audio.AudioSpecificConfig, b []byte) error { return x.Unmarshal(b) }),
		enc: rEnc(func(x *mpeg4audio.AudioSpecificConfig) ([]byte, error) { return x.Marshal() })})
	add(&rTarget{name: "mpeg4audio-adts", seed: func(_ *kit.W, _ func(int) int, v valFn) []byte {
		var l mpeg4audio.ADTSPackets
		for i := range int(v(2, 1, 3)) {
			cfg := uint8(v(2, 1, 7))
			au := append([]byte{0x21}, pat(int(v(3, 0, 1, 300)), byte(i))...)
			l = append(l, &mpeg4audio.ADTSPacket{Type: mpeg4audio.ObjectType(v(2, 1, 4)), SampleRate: aacRates[v(4, 0, 12)], ChannelConfig: cfg, ChannelCount: aacChannels(cfg), AU: au})
		}
		return must(l.Marshal())
	}, fresh: rNew[mpeg4audio.ADTSPackets](), used: rUsed(func() *mpeg4audio.ADTSPackets { return &mpeg4audio.ADTSPackets{{SampleRate: 5}} }), dec: rDec(func(x *mpeg4audio.ADTSPackets, b []byte) error { return x.Unmarshal(b) }),
		enc: rEnc(func(x *mpeg4audio.ADTSPackets) ([]byte, error) { return x.Marshal() })})
	add(rPure("mpeg4audio-pce", func(b []byte) (any, error) { return mpeg4audio.ParsePCEFromRawDataBlock(b) }, func(_ *kit.W, _ func(int) int, v valFn) []byte {
		b := (&bitw{}).u(5, 3)
		putPCE(b, genPCE(v))
		return b.out()
	}))
	add(&rTarget{name: "mpeg4audio-stream-mux-config", seed: func(_ *kit.W, _ func(int) int, v valFn) []byte {
		return must(genSMC(v, false).Marshal())
	}, fresh: rNew[mpeg4audio.StreamMuxConfig](), used: rUsed(usedSMC), dec: rDec(func(x *mpeg4audio.StreamMuxConfig, b []byte) error { return x.Unmarshal(b) }),
		enc: rEnc(func(x *mpeg4audio.StreamMuxConfig) ([]byte, error) { return x.Marshal() })})
	ame := func(c *mpeg4audio.StreamMuxConfig, v valFn) [][][][]byte {
		var pl [][][][]byte
		for sf := range int(c.NumSubFrames) + 1 {
			var ps [][][]byte
			for p, pr := range c.Programs {
				var ls [][]byte
				for l, la := range pr.Layers {
					n := int(v(3, 0, 255, 256))
					if la.FrameLengthType == 1 {
						n = int(la.FrameLength) + 20
					}
					ls = append(ls, pat(n, byte(sf*30+p*10+l)))
				}
				ps = append(ps, ls)
			}
			pl = append(pl, ps)
		}
		return pl
	}
	smc0 := func(i int) *mpeg4audio.StreamMuxConfig {
		return []*mpeg4audio.StreamMuxConfig{genSMC(mvDef, true), genSMC(func(d uint64, a ...uint64) uint64 {
			if d == 0 && len(a) == 3 && a[2] == 63 {
				return 1
			}
			return d
		}, true)}[i]
	}
	for i := range 3 {
		present := i == 2
		f := func() *mpeg4audio.AudioMuxElement {
			if present {
				return &mpeg4audio.AudioMuxElement{MuxConfigPresent: true}
			}
			return &mpeg4audio.AudioMuxElement{StreamMuxConfig: smc0(i)}
		}
		add(&rTarget{name: "mpeg4audio-mux-element-" + fmt.Sprint(i), seed: func(_ *kit.W, _ func(int) int, v valFn) []byte {
			e := f()
			if present {
				e.StreamMuxConfig = genSMC(v, true)
			}
			e.Payloads = ame(e.StreamMuxConfig, v)
			b, err := e.Marshal()
			if err != nil {
				return nil
			}
			return b
		}, fresh: rUsed(f), used: rUsed(func() *mpeg4audio.AudioMuxElement {
			e := f()
			e.Payloads = [][][][]byte{{{{1}}}}
			if present {
				e.StreamMuxConfig = usedSMC()
			}
			return e
		}), dec: rDec(func(x *mpeg4audio.AudioMuxElement, b []byte) error { return x.Unmarshal(b) }),
			enc: rEnc(func(x *mpeg4audio.AudioMuxElement) ([]byte, error) { return x.Marshal() })})
	}
	add(&rTarget{name: "mpeg4audio-sync-stream", seed: func(_ *kit.W, _ func(int) int, v valFn) []byte {
		return must(mpeg4audio.AudioSyncStream{AudioMuxElements: rUnits(v)}.Marshal())
	}, fresh: rNew[mpeg4audio.AudioSyncStream](), used: rUsed(func() *mpeg4audio.AudioSyncStream {
		return &mpeg4audio.AudioSyncStream{AudioMuxElements: [][]byte{{1}}}
	}), dec: rDec(func(x *mpeg4audio.AudioSyncStream, b []byte) error { return x.Unmarshal(b) }),
		enc: rEnc(func(x *mpeg4audio.AudioSyncStream) ([]byte, error) { return x.Marshal() })})

	// ---- other audio
	add(&rTarget{name: "mpeg1audio-header", seed: func(_ *kit.W, _ func(int) int, v valFn) []byte {
		return []byte{0xFF, byte(v(0xFB, 0xFD, 0xF3, 0xF5)), byte(v(0x92, 0x10, 0xE8)), byte(v(0x44, 0xC4)), 0}
	}, fresh: rNew[mpeg1audio.FrameHeader](), used: rUsed(func() *mpeg1audio.FrameHeader {
		return &mpeg1audio.FrameHeader{MPEG2: true, Layer: 3, Bitrate: 5, SampleRate: 6, Padding: true, ChannelMode: 3}
	}), dec: rDec(func(x *mpeg1audio.FrameHeader, b []byte) error {
		err := x.Unmarshal(b)
		if err == nil {
			x.FrameLen()
			x.SampleCount()
		}
		return err
	})})
	add(&rTarget{name: "ac3-sync-info", seed: func(_ *kit.W, _ func(int) int, v valFn) []byte {
		return []byte{0x0B, 0x77, 1, 2, byte(v(0x1E, 0x40, 0x9B)), 0x40, 0}
	}, fresh: rNew[ac3.SyncInfo](), used: rUsed(func() *ac3.SyncInfo { return &ac3.SyncInfo{Fscod: 1, Frmsizecod: 9} }), dec: rDec(func(x *ac3.SyncInfo, b []byte) error {
		err := x.Unmarshal(b)
		if err == nil {
			x.FrameSize()
			x.SampleRate()
		}
		return err
	})})
	add(&rTarget{name: "ac3-bsi", seed: func(_ *kit.W, _ func(int) int, v valFn) []byte {
		return []byte{byte(v(0x40, 0x30)), byte(v(0x44, 0xE1)), 0}
	}, fresh: rNew[ac3.BSI](), used: rUsed(func() *ac3.BSI { return &ac3.BSI{Bsid: 3, Bsmod: 3, Acmod: 3, LfeOn: true} }), dec: rDec(func(x *ac3.BSI, b []byte) error {
		err := x.Unmarshal(b)
		if err == nil {
			x.ChannelCount()
		}
		return err
	})})
	add(&rTarget{name: "eac3-sync-info", seed: func(_ *kit.W, _ func(int) int, v valFn) []byte {
		return []byte{0x0B, 0x77, 3, byte(v(0xFF, 0)), byte(v(0x3F, 0xC5)), 0x86, 0, 0}
	}, fresh: rNew[eac3.SyncInfo](), used: rUsed(func() *eac3.SyncInfo { return &eac3.SyncInfo{1, 2, 3, 3, 2, 1, 4, true, 5} }), dec: rDec(func(x *eac3.SyncInfo, b []byte) error {
		err := x.Unmarshal(b)
		if err == nil {
			x.FrameSize()
			x.SampleRate()
			x.ChannelCount()
			x.NumBlocks()
		}
		return err
	})})
	add(&rTarget{name: "flac-stream-info", seed: func(_ *kit.W, _ func(int) int, v valFn) []byte {
		return must(flac.StreamInfo{MinBlockSize: 4096, MaxBlockSize: 4096, SampleRate: uint32(v(44100, 655350)), ChannelCount: uint8(v(2, 8)), BitDepth: uint8(v(16, 32)), TotalSamples: v(5, 1<<36-1)}.Marshal())
	}, fresh: rNew[flac.StreamInfo](), used: rUsed(func() *flac.StreamInfo { return &flac.StreamInfo{1, 2, 3, 4, 5, 6, 7, 8, [16]byte{9, 9}} }), dec: rDec(func(x *flac.StreamInfo, b []byte) error { return x.Unmarshal(b) }),
		enc: rEnc(func(x *flac.StreamInfo) ([]byte, error) { return x.Marshal() })})
	add(&rTarget{name: "opus-id-header", seed: func(_ *kit.W, _ func(int) int, v valFn) []byte {
		return must(opus.IDHeader{Version: 1, ChannelCount: uint8(v(2, 0, 255)), PreSkip: 312, InputSampleRate: 48000, ChannelMappingFamily: uint8(v(0, 1)), ChannelMappingTable: pat(int(v(0, 1, 4)), 1)}.Marshal())
	}, fresh: rNew[opus.IDHeader](), used: rUsed(func() *opus.IDHeader {
		return &opus.IDHeader{Version: 9, ChannelCount: 9, PreSkip: 9, ChannelMappingTable: []byte{1, 2, 3}}
	}), dec: rDec(func(x *opus.IDHeader, b []byte) error { return x.Unmarshal(b) }),
		enc: rEnc(func(x *opus.IDHeader) ([]byte, error) { return x.Marshal() })})
	add(rPure("opus-duration", func(b []byte) (any, error) {
		return []any{opus.PacketDuration2(b), opus.PacketDuration(b)}, nil
	}, func(_ *kit.W, _ func(int) int, v valFn) []byte { return []byte{byte(v(0xFC, 0xFF)), 3, 1} }))
	add(&rTarget{name: "g711-alaw", seed: func(_ *kit.W, _ func(int) int, v valFn) []byte { return pat(int(v(4, 1)), 1) }, fresh: rNew[g711.Alaw](), used: rUsed(func() *g711.Alaw { return &g711.Alaw{1, 2} }),
		dec: rDec(func(x *g711.Alaw, b []byte) error { x.Unmarshal(b); return nil }), enc: rEnc(func(x *g711.Alaw) ([]byte, error) { return x.Marshal() })})
	add(&rTarget{name: "g711-mulaw", seed: func(_ *kit.W, _ func(int) int, v valFn) []byte { return pat(int(v(4, 1)), 1) }, fresh: rNew[g711.Mulaw](), used: rUsed(func() *g711.Mulaw { return &g711.Mulaw{1, 2} }),
		dec: rDec(func(x *g711.Mulaw, b []byte) error { x.Unmarshal(b); return nil }), enc: rEnc(func(x *g711.Mulaw) ([]byte, error) { return x.Marshal() })})

	// ---- video
	add(rPure("mpeg4video-config", func(b []byte) (any, error) { return nil, mpeg4video.IsValidConfig(b) }, func(_ *kit.W, _ func(int) int, v valFn) []byte {
		return []byte{0, 0, 1, 0xB0, 1, 0, 0, 1, byte(v(0xB5, 0)), 9, 0, 0, 1, 0, 0, 0, 1, 0x20, 0, 0x84}
	}))
	add(&rTarget{name: "jpeg-dqt", seed: func(_ *kit.W, _ func(int) int, v valFn) []byte {
		var m jpeg.DefineQuantizationTable
		for i := range int(v(2, 1, 4)) {
			m.Tables = append(m.Tables, jpeg.QuantizationTable{ID: uint8(i), Data: pat(64, byte(i))})
		}
		return m.Marshal(nil)[4:]
	}, fresh: rNew[jpeg.DefineQuantizationTable](), used: rUsed(func() *jpeg.DefineQuantizationTable {
		return &jpeg.DefineQuantizationTable{Tables: []jpeg.QuantizationTable{{ID: 3}}}
	}), dec: rDec(func(x *jpeg.DefineQuantizationTable, b []byte) error { return x.Unmarshal(b) }),
		enc: rEnc(func(x *jpeg.DefineQuantizationTable) ([]byte, error) { return x.Marshal(nil)[4:], nil })})
	add(&rTarget{name: "jpeg-sof1", seed: func(_ *kit.W, _ func(int) int, v valFn) []byte {
		return jpeg.StartOfFrame1{Type: uint8(v(0, 1)), Width: 640, Height: 480, QuantizationTableCount: uint8(v(1, 2))}.Marshal(nil)[4:]
	}, fresh: rNew[jpeg.StartOfFrame1](), used: rUsed(func() *jpeg.StartOfFrame1 { return &jpeg.StartOfFrame1{Type: 9, Width: 1, Height: 1} }), dec: rDec(func(x *jpeg.StartOfFrame1, b []byte) error { return x.Unmarshal(b) }),
		enc: rEnc(func(x *jpeg.StartOfFrame1) ([]byte, error) { return x.Marshal(nil)[4:], nil })})
	add(&rTarget{name: "jpeg-dri", seed: func(_ *kit.W, _ func(int) int, v valFn) []byte { return []byte{1, 2} }, fresh: rNew[jpeg.DefineRestartInterval](),
		used: rUsed(func() *jpeg.DefineRestartInterval { return &jpeg.DefineRestartInterval{Interval: 9} }), dec: rDec(func(x *jpeg.DefineRestartInterval, b []byte) error { return x.Unmarshal(b) })})
	add(&rTarget{name: "jpeg-sos", seed: func(_ *kit.W, _ func(int) int, v valFn) []byte { return jpeg.StartOfScan{}.Marshal(nil)[4:] }, fresh: rNew[jpeg.StartOfScan](),
		dec: rDec(func(x *jpeg.StartOfScan, b []byte) error { return x.Unmarshal(b) })})

	// ---- MPEG-TS structures
	add(&rTarget{name: "ts-opus-descriptor", seed: func(_ *kit.W, _ func(int) int, v valFn) []byte {
		d := &substructs.OpusAudioDescriptor{ChannelConfigCode: uint8(v(0x81, 2, 0x80, 0x82))}
		if d.ChannelConfigCode == 0x81 {
			d.ExplicitChannelCount = int(v(3, 1, 2, 255))
			d.MappingFamily = int(v(255, 1))
			d.StreamCount, d.CoupledStreamCount = int(v(2, 255)), 1
			d.ChannelMapping = make([]uint8, d.ExplicitChannelCount)
			for i := range d.ChannelMapping {
				d.ChannelMapping[i] = uint8(i) % 3
			}
		}
		return refOpusDesc(d)
	}, fresh: rNew[substructs.OpusAudioDescriptor](), used: rUsed(func() *substructs.OpusAudioDescriptor {
		return &substructs.OpusAudioDescriptor{ChannelConfigCode: 3, ExplicitChannelCount: 9, MappingFamily: 2, StreamCount: 7, CoupledStreamCount: 1, ChannelMapping: []byte{1, 2}}
	}), dec: rDec(func(x *substructs.OpusAudioDescriptor, b []byte) error {
		err := x.Unmarshal(b)
		x.ChannelCount()
		return err
	}), enc: rEnc(func(x *substructs.OpusAudioDescriptor) ([]byte, error) { return x.Marshal() })})
	add(&rTarget{name: "ts-metadata-descriptor", seed: func(_ *kit.W, _ func(int) int, v valFn) []byte {
		d := substructs.MetadataDescriptor{MetadataApplicationFormat: uint16(v(0x100, 0xFFFF)), MetadataApplicationFormatIdentifier: 9, MetadataFormat: uint8(v(0xFF, 1)), MetadataFormatIdentifier: 7, DecoderConfigFlags: uint8(v(0, 1, 4)), DSMCCFlag: v(0, 1) == 1}
		if d.DSMCCFlag {
			d.ServiceIdentification = pat(int(v(2, 0)), 1)
		}
		b, err := d.Marshal()
		if err != nil {
			return nil
		}
		return b
	}, fresh: rNew[substructs.MetadataDescriptor](), used: rUsed(func() *substructs.MetadataDescriptor {
		return &substructs.MetadataDescriptor{DSMCCFlag: true, ServiceIdentification: []byte{1}, PrivateData: []byte{4}, DecoderConfig: []byte{3}}
	}), dec: rDec(func(x *substructs.MetadataDescriptor, b []byte) error { return x.Unmarshal(b) }), enc: rEnc(func(x *substructs.MetadataDescriptor) ([]byte, error) { return x.Marshal() })})
	add(&rTarget{name: "ts-metadata-std-descriptor", seed: func(_ *kit.W, _ func(int) int, v valFn) []byte {
		return must(substructs.MetadataSTDDescriptor{MetadataInputLeakRate: uint32(v(1, 1<<22-1)), MetadataBufferSize: 5, MetadataOutputLeakRate: 6}.Marshal())
	}, fresh: rNew[substructs.MetadataSTDDescriptor](), used: rUsed(func() *substructs.MetadataSTDDescriptor {
		return &substructs.MetadataSTDDescriptor{MetadataInputLeakRate: 1, MetadataBufferSize: 2, MetadataOutputLeakRate: 3}
	}), dec: rDec(func(x *substructs.MetadataSTDDescriptor, b []byte) error { return x.Unmarshal(b) }), enc: rEnc(func(x *substructs.MetadataSTDDescriptor) ([]byte, error) { return x.Marshal() })})
	type opusAU struct {
		substructs.OpusAccessUnit
		n int
	}
	add(&rTarget{name: "ts-opus-access-unit", seed: func(_ *kit.W, _ func(int) int, v valFn) []byte {
		n := int(v(3, 0, 254, 255, 256))
		au := substructs.OpusAccessUnit{ControlHeader: substructs.OpusControlHeader{PayloadSize: n, StartTrimFlag: v(0, 1) == 1, EndTrimFlag: v(0, 1) == 1}, Packet: pat(n, 1)}
		if au.ControlHeader.StartTrimFlag {
			au.ControlHeader.StartTrim = uint16(v(1, 0x1FFF))
		}
		if au.ControlHeader.EndTrimFlag {
			au.ControlHeader.EndTrim = uint16(v(1, 0x1FFF))
		}
		b := make([]byte, au.MarshalSize())
		_, err := au.MarshalTo(b)
		return must(b, err)
	}, fresh: rNew[opusAU](), used: rUsed(func() *opusAU {
		return &opusAU{substructs.OpusAccessUnit{ControlHeader: substructs.OpusControlHeader{PayloadSize: 3, StartTrimFlag: true, StartTrim: 4, EndTrimFlag: true, EndTrim: 5}, Packet: []byte{1, 2, 3}}, 0}
	}), dec: rDec(func(x *opusAU, b []byte) error {
		var err error
		x.n, err = x.Unmarshal(b)
		return err
	}), enc: rEnc(func(x *opusAU) ([]byte, error) {
		b := make([]byte, x.MarshalSize())
		n, err := x.MarshalTo(b)
		if err == nil && n != len(b) {
			return nil, fmt.Errorf("size %d, written %d", len(b), n)
		}
		return b, err
	}), len: func(x any) int { return x.(*opusAU).n }, norm: func(x any) { x.(*opusAU).n = 0 }})
	type cell struct {
		substructs.MetadataAUCell
		n int
	}
	add(&rTarget{name: "ts-metadata-au-cell", seed: func(_ *kit.W, _ func(int) int, v valFn) []byte {
		c := substructs.MetadataAUCell{MetadataServiceID: 1, SequenceNumber: 2, CellFragmentIndication: uint8(v(3, 0)), DecoderConfigFlag: v(0, 1) == 1, AUCellData: pat(int(v(3, 0, 256)), 1)}
		b := make([]byte, 5+len(c.AUCellData))
		_, err := c.MarshalTo(b)
		return must(b, err)
	}, fresh: rNew[cell](), used: rUsed(func() *cell {
		return &cell{substructs.MetadataAUCell{MetadataServiceID: 9, DecoderConfigFlag: true, RandomAccessIndicator: true, AUCellData: []byte{1}}, 0}
	}), dec: rDec(func(x *cell, b []byte) error {
		var err error
		x.n, err = x.Unmarshal(b)
		return err
	}), enc: rEnc(func(x *cell) ([]byte, error) {
		b := make([]byte, 5+len(x.AUCellData))
		n, err := x.MarshalTo(b)
		if err == nil && n != len(b) {
			return nil, fmt.Errorf("size %d, written %d", len(b), n)
		}
		return b, err
	}), len: func(x any) int { return x.(*cell).n }, norm: func(x any) { x.(*cell).n = 0 }})

	// ---- fragmented MP4 samples
	add(rPure("fmp4-sample", func(b []byte) (any, error) {
		s := fmp4.Sample{Payload: b}
		a, e1 := s.GetAV1()
		h, e2 := s.GetH264()
		g, e3 := s.GetH265()
		return []any{a, h, g, e1 == nil, e2 == nil, e3 == nil}, nil
	}, func(w *kit.W, p func(int) int, v valFn) []byte {
		if v(0, 1) == 0 {
			return tu(w, p, v)
		}
		return must(h264.AVCC(rUnits(v)).Marshal())
	}))
	return out
}

// rMenu are boundary values of a byte.
var rMenu = []byte{0, 1, 2, 0x7F, 0x80, 0xFE, 0xFF, 3, 0x10, 0x40}

// rMutate calls f with mutations of s. The slice given to f has no spare capacity.
func rMutate(s []byte, level int, f func(b []byte)) {
	rMutateSome(s, level, func() bool { return true }, f)
}

// rMutateSome is rMutate for the mutations for which want says so.
func rMutateSome(s []byte, level int, want func() bool, f func(b []byte)) {
	give := func(b []byte) { f(b[:len(b):len(b)]) }
	join := func(parts ...[]byte) {
		if want() {
			give(bytes.Join(parts, nil))
		}
	}
	join(s)
	L := len(s)
	for n := range L {
		join(s[:n])
	}
	with := func(g func(x []byte)) {
		if want() {
			x := clone(s)
			g(x)
			give(x)
		}
	}
	for i := range L {
		if L <= 100 {
			for v := 1; v < 256; v++ {
				with(func(x []byte) { x[i] ^= byte(v) })
			}
		} else {
			for _, v := range rMenu {
				with(func(x []byte) { x[i] = v })
			}
			for k := range 8 {
				with(func(x []byte) { x[i] ^= 1 << k })
			}
			with(func(x []byte) { x[i]++ })
			with(func(x []byte) { x[i]-- })
		}
		for n := 1; n <= 4 && i+n <= L; n++ {
			join(s[:i], s[i+n:])
		}
		if i+2 <= L {
			for _, v := range [][2]byte{{0, 0}, {0, 1}, {0x7F, 0xFF}, {0x80, 0}, {0xFF, 0xFF}, {0xFF, 0xFE}} {
				with(func(x []byte) { copy(x[i:], v[:]) })
			}
		}
		if i+4 <= L {
			for _, v := range [][4]byte{{}, {0, 0, 0, 1}, {0x7F, 0xFF, 0xFF, 0xFF}, {0x80}, {0xFF, 0xFF, 0xFF, 0xFF}, {0xFF, 0xFF, 0xFF, 0xFE}, {0, 0, 1, 0}} {
				with(func(x []byte) { copy(x[i:], v[:]) })
			}
		}
	}
	for i := 0; i <= L; i++ {
		for _, v := range rMenu[:7] {
			join(s[:i], []byte{v}, s[i:])
		}
		for _, v := range []byte{0, 0xFF} {
			join(s[:i], []byte{v, v, v, v, v}, s[i:])
		}
	}
	if level < 1 {
		return
	}
	// substitutions of truncations, pairs of substitutions, pairs of bits
	small := rMenu[:7]
	if L > 120 {
		return
	}
	for n := 1; n < L; n++ {
		for i := range n {
			for _, v := range small {
				if want() {
					x := clone(s[:n])
					x[i] = v
					give(x)
				}
			}
		}
	}
	if L > 60 && level < 2 {
		return
	}
	for i := range L {
		for j := range i {
			for _, v := range small {
				for _, u := range small {
					with(func(x []byte) { x[i], x[j] = v, u })
				}
			}
		}
	}
	for i := range L * 8 {
		for j := range i {
			with(func(x []byte) { x[i/8] ^= 0x80 >> (i % 8); x[j/8] ^= 0x80 >> (j % 8) })
		}
	}
}

// rAllStrings gives the string number n of all strings in order of length.
func rAllStrings(n uint64) []byte {
	for l, c := 0, uint64(1); ; l, c = l+1, c<<8 {
		if n < c {
			b := make([]byte, l)
			for i := range b {
				b[l-1-i] = byte(n)
				n >>= 8
			}
			return b
		}
		n -= c
	}
}

// rSeeds runs f on the seeds of every target.
func rSeeds(c *kit.Ctx, ts []*rTarget, name string, dev int, bound string, f func(w *kit.W, t *rTarget, s []byte, n int)) {
	c.Explore(name, kit.Opt{MaxDev: dev, Bound: bound}, func(w *kit.W) {
		t := ts[w.Pick(len(ts))]
		n := 0
		dv := func(k int) int { x := w.Dev(k); n += min(x, 1); return x }
		s := t.seed(w, dv, func(d uint64, alts ...uint64) uint64 {
			if k := dv(len(alts) + 1); k > 0 {
				return alts[k-1]
			}
			return d
		})
		if s != nil {
			f(w, t, s, n)
		}
	})
}

// rCodes calls f with versions of a NAL unit in which an Exp-Golomb code of a boundary value starts at some bit,
// in place of the code that is there, if there is one, and before it.
func rCodes(t *rTarget, s []byte, part, parts int, f func(b []byte)) {
	head := 1
	if strings.HasPrefix(t.name, "h265") {
		head = 2
	}
	var bits []byte
	z := 0
	for _, x := range s[head:] {
		if z >= 2 && x == 3 {
			z = 0
			continue
		}
		z++
		if x != 0 {
			z = 0
		}
		for i := range 8 {
			bits = append(bits, x>>uint(7-i)&1)
		}
	}
	var vals []uint64
	for _, k := range []int{0, 1, 2, 4, 5, 6, 7, 8, 12, 13, 16, 20, 24, 27, 28, 29, 30, 31, 32, 33} {
		vals = append(vals, 1<<uint(k)-1, 1<<uint(k))
	}
	vals = append(vals, 1<<32-2, 1<<31-2)
	for at := part; at < len(bits); at += parts {
		end := at
		for end < len(bits) && bits[end] == 0 {
			end++
		}
		end += end - at + 1
		for _, v := range vals {
			for _, from := range []int{end, at} {
				if from > len(bits) || from == at && at%8 != 0 && v < 1<<27 {
					continue
				}
				b := &bitw{b: append(make([]byte, 0, len(bits)+80), bits[:at]...)}
				b.ue(v)
				b.b = append(b.b, bits[from:]...)
				o := append(append([]byte{}, s[:head]...), emulate(b.out())...)
				f(o[:len(o):len(o)])
			}
		}
	}
}

// rLimit is how many bytes may be allocated for an input.
func rLimit(n int) uint64 { return 1<<20 + uint64(n)*1000 }

const rTime = 3 * time.Second
