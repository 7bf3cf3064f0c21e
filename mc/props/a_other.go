package props

import (
	"fmt"
	"time"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/ac3"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/eac3"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/flac"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/g711"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg1audio"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/opus"

	"verif/mc/kit"
)

// ITU-T G.711 table 1a/2a: value of an A-law or mu-law character, scaled to 16 bits.
func refAlaw(c byte) int {
	c ^= 0x55
	seg := int(c >> 4 & 7)
	v := int(c&15)<<1 | 1 // in units of half a step
	if seg > 0 {
		v = (v + 32) << uint(seg-1)
	}
	v *= 8 // 13 bits to 16 bits
	if c&0x80 == 0 {
		return -v
	}
	return v
}

func refMulaw(c byte) int {
	c = ^c
	seg := uint(c >> 4 & 7)
	v := (int(c&15)*2+33)<<seg - 33
	v *= 4 // 14 bits to 16 bits
	if c&0x80 != 0 {
		return -v
	}
	return v
}

func init() {
	kit.Register(&kit.Check{
		ID:          "A05",
		Assumptions: []string{"layer 1, free format and MPEG-2.5 are not supported, as the code states"},
		Run: func(c *kit.Ctx) {
			kbps := [2][2][]int{
				{{32, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384}, {32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320}},
				{{8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160}, {8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160}},
			}
			rates := [2][]int{{44100, 48000, 32000}, {22050, 24000, 16000}}
			c.Range("headers", 1<<20, "all 2^20 headers with a valid sync word, followed by 0, 1 or 4 bytes, decoded into a fresh and a used value", func(w *kit.W) {
				i := uint32(w.Index)
				h := []byte{0xFF, 0xF0 | byte(i>>16), byte(i >> 8), byte(i), 0, 0xFF, 0x80, 0x12}
				mpeg2 := i>>19&1 == 0
				layer := 4 - int(i>>17&3)
				bi, si := int(i>>12&15), int(i>>10&3)
				valid := (layer == 2 || layer == 3) && bi >= 1 && bi <= 14 && si < 3
				var fh mpeg1audio.FrameHeader
				if i&1 == 1 {
					fh = mpeg1audio.FrameHeader{MPEG2: true, Layer: 3, Bitrate: 5, SampleRate: 6, Padding: true, ChannelMode: 3}
				}
				err := fh.Unmarshal(h[:5+3*int(i&1)])
				if !valid {
					w.Check(err != nil, "mpa-accept", "invalid header %x accepted", h[:4])
					return
				}
				m := int(b2u(mpeg2))
				br, sr := kbps[m][layer-2][bi-1]*1000, rates[m][si]
				want := mpeg1audio.FrameHeader{MPEG2: mpeg2, Layer: uint8(layer), Bitrate: br, SampleRate: sr, Padding: i>>9&1 == 1, ChannelMode: mpeg1audio.ChannelMode(i >> 6 & 3)}
				w.Check(err == nil, "mpa-reject", "valid header %x rejected: %v", h[:4], err)
				w.Check(fh == want, "mpa-fields", "header %x decodes to %+v, expected %+v", h[:4], fh, want)
				samples := 1152
				if mpeg2 && layer == 3 {
					samples = 576
				}
				// slots of one byte: samples / 8 * bitrate / sample rate, rounded down, plus padding
				l := samples/8*br/sr + int(i>>9&1)
				w.Check(fh.SampleCount() == samples, "mpa-samples", "header %x: %d samples, expected %d", h[:4], fh.SampleCount(), samples)
				w.Check(fh.FrameLen() == l, "mpa-length", "header %x (MPEG-2 %v, layer %d, %d bit/s, %d Hz): frame length %d, expected %d", h[:4], mpeg2, layer, br, sr, fh.FrameLen(), l)
			})
			c.Range("sync", 1<<16, "all first 2 bytes; all lengths from 0 to 4", func(w *kit.W) {
				h := []byte{byte(w.Index >> 8), byte(w.Index), 0x52, 0x04, 0}
				l := 4 - int(w.Index>>1&3)
				sync := w.Index>>4 == 0xFFF
				var fh mpeg1audio.FrameHeader
				w.Check((fh.Unmarshal(h) == nil) == (sync && (l == 2 || l == 3)), "mpa-sync", "%x", h)
				for n := 0; n < 4; n++ {
					w.Check(fh.Unmarshal(clone(h[:n])) != nil, "mpa-short", "%d bytes accepted", n)
				}
			})
		},
	})

	kit.Register(&kit.Check{
		ID:          "A06",
		Assumptions: []string{"an E-AC-3 frame is recognised by sync word, bsid 16 and a defined sample rate code"},
		Run: func(c *kit.Ctx) {
			kbps := []int{32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384, 448, 512, 576, 640}
			c.Range("ac3-sync-info", 256*3, "every fifth byte with 3 CRC values, fresh and used value, every truncation and sync word corruption", func(w *kit.W) {
				x := byte(w.Index)
				k := byte(w.Index / 256)
				f := []byte{0x0B, 0x77, k * 0x7F, k * 0x55, x, 0x40, 0xFF}
				s := ac3.SyncInfo{Fscod: k, Frmsizecod: k * 20}
				err := s.Unmarshal(f[:5+int(k)])
				fscod, code := int(x>>6), int(x&63)
				if fscod == 3 || code >= 38 {
					w.Check(err != nil, "ac3-accept", "invalid sync info %x accepted", f)
					return
				}
				w.Check(err == nil && int(s.Fscod) == fscod && int(s.Frmsizecod) == code, "ac3-fields", "%x: %+v %v", f, s, err)
				sr := []int{48000, 44100, 32000}[fscod]
				words := kbps[code/2] * 1000 * 1536 / sr / 16
				if fscod == 1 {
					words += code & 1
				}
				w.Check(s.SampleRate() == sr, "ac3-rate", "%x: rate %d, expected %d", f, s.SampleRate(), sr)
				w.Check(s.FrameSize() == 2*words, "ac3-size", "%x: size %d, expected %d", f, s.FrameSize(), 2*words)
				for n := 0; n < 5; n++ {
					w.Check(s.Unmarshal(clone(f[:n])) != nil, "ac3-short", "%d bytes accepted", n)
				}
				for b := 0; b < 16; b++ {
					g := clone(f)
					g[b/8] ^= 1 << uint(b%8)
					w.Check(s.Unmarshal(g) != nil, "ac3-sync", "%x accepted", g)
				}
			})
			c.Range("ac3-bsi", 65536, "every 2 bytes of bit stream information", func(w *kit.W) {
				f := []byte{byte(w.Index >> 8), byte(w.Index)}
				b := ac3.BSI{Bsid: 3, Bsmod: 3, Acmod: 3, LfeOn: true}
				err := b.Unmarshal(f)
				if f[0]>>3 > 8 {
					w.Check(err != nil, "ac3-accept", "bsid %d accepted", f[0]>>3)
					return
				}
				acmod := f[1] >> 5
				pos := 3
				if acmod&1 != 0 && acmod != 1 {
					pos += 2
				}
				if acmod&4 != 0 {
					pos += 2
				}
				if acmod == 2 {
					pos += 2
				}
				lfe := f[1]>>uint(7-pos)&1 == 1
				want := ac3.BSI{Bsid: f[0] >> 3, Bsmod: f[0] & 7, Acmod: acmod, LfeOn: lfe}
				w.Check(err == nil && b == want, "ac3-bsi", "%x: %+v (%v), expected %+v", f, b, err, want)
				n := []int{2, 1, 2, 3, 3, 4, 4, 5}[acmod] + int(b2u(lfe))
				w.Check(b.ChannelCount() == n, "ac3-channels", "%x: %d channels, expected %d", f, b.ChannelCount(), n)
				w.Check(b.Unmarshal(f[:1]) != nil && b.Unmarshal(nil) != nil, "ac3-short", "truncated BSI accepted")
			})
			c.Range("eac3-sync-info", 65536*12, "every value of bytes 3-4 with 6 values of bytes 5-6 and every value of bytes 5-6 with 6 values of bytes 3-4; fresh and used value; every truncation and sync word corruption", func(w *kit.W) {
				v, k := uint16(w.Index), int(w.Index>>16)
				menu := []uint16{0x0080, 0x3482, 0x7F85, 0xC480, 0xFF80, 0x2586}
				menu2 := []uint16{0x0000, 0xFFFF, 0x07FF, 0x0400, 0x5555, 0x8001}
				a, b := v, uint16(0)
				if k < 6 {
					b = menu[k]
				} else {
					a, b = menu2[k-6], v
				}
				f := []byte{0x0B, 0x77, byte(a >> 8), byte(a), byte(b >> 8), byte(b), 1, 2, 3}
				fscod, cod2 := uint8(b>>14), uint8(b>>12&3)
				var s eac3.SyncInfo
				if k&1 == 1 {
					s = eac3.SyncInfo{1, 2, 3, 3, 2, 1, 4, true, 5}
				}
				err := s.Unmarshal(f[:8+k&1])
				bsid := uint8(b >> 3 & 31)
				if bsid != 16 || fscod == 3 && cod2 == 3 {
					w.Check(err != nil, "eac3-accept", "%x accepted", f)
					return
				}
				want := eac3.SyncInfo{Strmtyp: uint8(a >> 14), Substreamid: uint8(a >> 11 & 7), Frmsiz: a & 0x7FF, Fscod: fscod, Acmod: uint8(b >> 9 & 7), Lfeon: b>>8&1 == 1, Bsid: bsid}
				sr := 0
				if fscod == 3 {
					want.Fscod2, want.Numblkscod = cod2, 3
					sr = []int{24000, 22050, 16000}[cod2]
				} else {
					want.Numblkscod = cod2
					sr = []int{48000, 44100, 32000}[fscod]
				}
				w.Check(err == nil && s == want, "eac3-fields", "%x: %+v (%v), expected %+v", f, s, err, want)
				w.Check(s.FrameSize() == 2*(int(a&0x7FF)+1), "eac3-size", "%x: size %d", f, s.FrameSize())
				w.Check(s.SampleRate() == sr, "eac3-rate", "%x: rate %d, expected %d", f, s.SampleRate(), sr)
				n := []int{2, 1, 2, 3, 3, 4, 4, 5}[want.Acmod] + int(b2u(want.Lfeon))
				w.Check(s.ChannelCount() == n, "eac3-channels", "%x: %d channels, expected %d", f, s.ChannelCount(), n)
				w.Check(s.NumBlocks() == []int{1, 2, 3, 6}[want.Numblkscod], "eac3-blocks", "%x: %d blocks", f, s.NumBlocks())
				if v%64 == 0 {
					for n := 0; n < 8; n++ {
						w.Check(s.Unmarshal(clone(f[:n])) != nil, "eac3-short", "%d bytes accepted", n)
					}
					for b := 0; b < 16; b++ {
						g := clone(f)
						g[b/8] ^= 1 << uint(b%8)
						w.Check(s.Unmarshal(g) != nil, "eac3-sync", "%x accepted", g)
					}
				}
			})
		},
	})

	kit.Register(&kit.Check{
		ID:          "A07",
		Assumptions: []string{"16-bit samples are considered at the 14-bit resolution of the encoder (the two low bits are dropped)"},
		Run: func(c *kit.Ctx) {
			law := func(mu bool) (func(b []byte) []byte, func(s []byte) ([]byte, error), func(b byte) int) {
				if mu {
					return func(b []byte) []byte { var m g711.Mulaw; m.Unmarshal(b); return m }, func(s []byte) ([]byte, error) { return g711.Mulaw(s).Marshal() }, refMulaw
				}
				return func(b []byte) []byte { var m g711.Alaw; m.Unmarshal(b); return m }, func(s []byte) ([]byte, error) { return g711.Alaw(s).Marshal() }, refAlaw
			}
			c.Range("decode", 512, "every byte of both laws, alone and in a list", func(w *kit.W) {
				mu := w.Index >= 256
				b := byte(w.Index)
				dec, enc, ref := law(mu)
				for n := 1; n < 4; n++ {
					in := []byte{0x12, 0xFE, b}[3-n:]
					out := dec(in)
					w.Check(len(out) == 2*n, "g711-length", "%d bytes decode to %d bytes", n, len(out))
					for i := range in {
						got := int(int16(uint16(out[2*i])<<8 | uint16(out[2*i+1])))
						w.Check(got == ref(in[i]), "g711-decode", "mu %v: byte %02x decodes to %d, expected %d", mu, in[i], got, ref(in[i]))
					}
					back, err := enc(out)
					w.Check(err == nil && len(back) == n, "g711-length", "%d samples encode to %d bytes", n, len(back))
					for i := range in {
						w.Check(back[i] == in[i] || ref(back[i]) == ref(in[i]), "g711-roundtrip", "mu %v: byte %02x is encoded again as %02x", mu, in[i], back[i])
					}
				}
				if mu {
					w.Check(eq(g711.DecodeMulaw([]byte{b}), dec([]byte{b})), "g711-deprecated", "DecodeMulaw")
				} else {
					w.Check(eq(g711.DecodeAlaw([]byte{b}), dec([]byte{b})), "g711-deprecated", "DecodeAlaw")
				}
			})
			c.Range("encode", 2*65536, "every 16-bit sample of both laws", func(w *kit.W) {
				mu := w.Index >= 65536
				s := int(int16(w.Index))
				_, enc, ref := law(mu)
				out, err := enc([]byte{byte(uint16(s) >> 8), byte(s)})
				w.Check(err == nil && len(out) == 1, "g711-length", "%v", err)
				t := s &^ 3
				best, got := 1<<30, 0
				for i := 0; i < 256; i++ {
					d := ref(byte(i)) - t
					if d < 0 {
						d = -d
					}
					if d < best {
						best = d
					}
					if byte(i) == out[0] {
						got = d
					}
				}
				w.Check(got == best, "g711-encode", "mu %v: sample %d is encoded as %02x (%d), %d away instead of %d", mu, s, out[0], ref(out[0]), got, best)
			})
			c.Range("long-lists", 2*1100, "lists of 5 to 1100 samples, and of 65535, 65536, 65537 and 262144 samples", func(w *kit.W) {
				n := 5 + int(w.Index/2)
				if n > 1100 {
					n = []int{65535, 65536, 65537, 262144}[n-1101]
				}
				dec, enc, ref := law(w.Index%2 == 1)
				in := pat(n, 5)
				keep := clone(in)
				lin := dec(in)
				w.Check(len(lin) == 2*n && eq(in, keep), "g711-long", "%d bytes decode to %d", n, len(lin))
				for i, b := range in {
					w.Check(int(int16(uint16(lin[2*i])<<8|uint16(lin[2*i+1]))) == ref(b), "g711-long", "byte %d of %d", i, n)
				}
				out, err := enc(lin)
				w.Check(err == nil && len(out) == n, "g711-long", "%d samples encode to %d bytes, %v", n, len(out), err)
				for i := range out {
					w.Check(ref(out[i]) == ref(in[i]), "g711-long", "sample %d of %d", i, n)
				}
				w.Step(kit.H(n, out))
			})
			c.Explore("lists", kit.Opt{Bound: "every list of 0-4 samples from a menu of 7 and odd lengths"}, func(w *kit.W) {
				mu := w.Bool()
				_, enc, _ := law(mu)
				n := w.Pick(5)
				var in, want []byte
				for i := 0; i < n; i++ {
					s := kit.Of(w, 0, 1, -1, 32767, -32768, 1000, -12345)
					p := []byte{byte(uint16(s) >> 8), byte(s)}
					one, _ := enc(p)
					in, want = append(in, p...), append(want, one...)
				}
				odd := w.Bool()
				if odd {
					in = append(in, 1)
				}
				keep := clone(in)
				out, err := enc(in)
				w.Step(kit.H(in, mu))
				w.Check((err != nil) == odd, "g711-odd", "%d bytes: %v", len(in), err)
				w.Check(odd || eq(out, want) || len(out) == 0 && n == 0, "g711-list", "%x encodes to %x, expected %x", in, out, want)
				w.Check(len(in) == 0 || eq(in, keep), "g711-input", "input modified")
			})
		},
	})

	kit.Register(&kit.Check{
		ID:          "A08",
		Assumptions: []string{"an Opus identification header has version 1, as the code requires; its mapping table is everything after the mapping family, uninterpreted"},
		Run: func(c *kit.Ctx) {
			c.Range("opus-duration", 256*257, "every first byte and every (or no) second byte, 1-4 bytes long", func(w *kit.W) {
				toc, k := byte(w.Index/257), int(w.Index%257)
				p := []byte{toc}
				if k < 256 {
					p = append(p, byte(k), 7, 9)[:2+k%3]
				}
				// RFC 6716 table 2, in 1/48000 s
				cfg := int(toc >> 3)
				var fr int
				switch {
				case cfg < 12:
					fr = []int{480, 960, 1920, 2880}[cfg%4]
				case cfg < 16:
					fr = []int{480, 960}[cfg%2]
				default:
					fr = []int{120, 240, 480, 960}[cfg%4]
				}
				n := 0
				switch toc & 3 {
				case 0:
					n = 1
				case 1, 2:
					n = 2
				default:
					if len(p) > 1 {
						n = int(p[1] & 63)
					}
				}
				w.Check(opus.PacketDuration2(p) == int64(fr*n), "opus-duration", "packet %x: duration %d, expected %d", p, opus.PacketDuration2(p), fr*n)
				w.Check(opus.PacketDuration(p) == time.Duration(fr*n)*time.Second/48000, "opus-duration", "packet %x: PacketDuration %v", p, opus.PacketDuration(p))
				w.Check(opus.PacketDuration2(nil) == 0, "opus-duration", "empty packet")
			})
			// the layout of the identification header; le is that of RFC 7845
			idh := func(h opus.IDHeader, le bool) []byte {
				put := func(v uint64, n int) []byte {
					o := make([]byte, n)
					for i := range o {
						s := uint(8 * (n - 1 - i))
						if le {
							s = uint(8 * i)
						}
						o[i] = byte(v >> s)
					}
					return o
				}
				b := append([]byte("OpusHead"), 1, h.ChannelCount)
				b = append(b, put(uint64(h.PreSkip), 2)...)
				b = append(b, put(uint64(h.InputSampleRate), 4)...)
				b = append(b, put(uint64(h.OutputGain), 2)...)
				b = append(b, h.ChannelMappingFamily)
				return append(b, h.ChannelMappingTable...)
			}
			gen := func(w *kit.W) opus.IDHeader {
				v := devVals(w)
				return opus.IDHeader{
					Version: 1, ChannelCount: uint8(v(2, 0, 1, 8, 255)), PreSkip: uint16(v(0x0138, 0, 0xABCD, 0xFFFF, 0x00FF, 0x0100)),
					InputSampleRate: uint32(v(48000, 0, 44100, 0xFFFFFFFF, 0x01020304, 0x80000000)), OutputGain: uint16(v(0, 0x0100, 0xFF80, 0x1234)),
					ChannelMappingFamily: uint8(v(0, 1, 255)), ChannelMappingTable: pat(int(v(0, 1, 2, 8, 257)), 5),
				}
			}
			c.Explore("opus-id-header", kit.Opt{MaxDev: 7, Bound: "every combination of 5 channel counts, 6 pre-skips, 6 rates, 4 gains, 3 families, 5 table sizes; every truncation; every signature and version corruption"}, func(w *kit.W) {
				h := gen(w)
				// the byte order of the multi-byte fields is a separate matter: see "opus-id-header-byte-order"
				be, le := idh(h, false), idh(h, true)
				enc, err := h.Marshal()
				w.Check(err == nil && (eq(enc, be) || eq(enc, le)), "opusid-encode", "%+v encodes to %x (%v)", h, enc, err)
				var got opus.IDHeader
				if h.ChannelCount == 1 {
					got = opus.IDHeader{Version: 9, ChannelCount: 9, PreSkip: 9, ChannelMappingTable: []byte{1, 2, 3}}
				}
				err = got.Unmarshal(clone(enc))
				w.Check(err == nil && deepEq(got, h), "opusid-decode", "%x: %v, %s", enc, err, diff(got, h))
				w.Step(kit.H(enc))
				for n := 0; n < 19; n++ {
					w.Check(got.Unmarshal(clone(enc[:n])) != nil, "opusid-short", "%d bytes accepted", n)
				}
				for i := 0; i < 72; i++ {
					x := clone(enc)
					x[i/8] ^= 1 << uint(i%8)
					w.Check(got.Unmarshal(x) != nil, "opusid-magic", "%x accepted", x)
				}
			})
			c.Explore("opus-id-header-byte-order", kit.Opt{Bound: "byte order of pre-skip, input sample rate and output gain"}, func(w *kit.W) {
				h := opus.IDHeader{Version: 1, ChannelCount: 2, PreSkip: 312, InputSampleRate: 48000}
				enc, err := h.Marshal()
				w.Check(err == nil && eq(enc, idh(h, true)), "opusid-byte-order", "the identification header is written and read in big-endian order (%x), RFC 7845 section 5.1 prescribes little-endian (%x)", enc, idh(h, true))
			})
			c.Explore("flac-limits", kit.Opt{MaxDev: 7, Bound: "every combination of the first and last value that fits each packed field and of the first ones that do not"}, func(w *kit.W) {
				v := devVals(w)
				s := flac.StreamInfo{
					MinBlockSize: 4096, MaxBlockSize: 4096,
					MinFrameSize: uint32(v(14, 0xFFFFFF, 0x1000000, 0xFFFFFFFF)), MaxFrameSize: uint32(v(15, 0xFFFFFF, 0x1000000, 0xFFFFFFFF)),
					SampleRate: uint32(v(44100, 0, 0xFFFFF, 0x100000, 0xFFFFFFFF)), ChannelCount: uint8(v(2, 0, 1, 8, 9, 255)),
					BitDepth: uint8(v(16, 0, 1, 32, 33, 255)), TotalSamples: v(0, 1<<36-1, 1<<36, 1<<63),
				}
				fits := s.MinFrameSize < 1<<24 && s.MaxFrameSize < 1<<24 && s.SampleRate < 1<<20 && s.ChannelCount >= 1 && s.ChannelCount <= 8 &&
					s.BitDepth >= 1 && s.BitDepth <= 32 && s.TotalSamples < 1<<36
				enc, err := s.Marshal()
				w.Check((err == nil) == fits, "flac-limits", "%+v: encoding gives %x, %v", s, enc, err)
				if err == nil {
					var got flac.StreamInfo
					w.Check(got.Unmarshal(enc) == nil && got == s, "flac-limits", "%+v comes back as %+v", s, got)
				}
				w.Step(kit.H(fmt.Sprintf("%+v", s)))
			})
			c.Explore("flac-stream-info", kit.Opt{MaxDev: kit.T(c, 4, 6), Bound: fmt.Sprintf("up to %d deviations: block sizes, frame sizes, every boundary of the packed rate, channel, depth and sample count fields; every truncation; trailing bytes", kit.T(c, 4, 6))}, func(w *kit.W) {
				v := devVals(w)
				s := flac.StreamInfo{
					MinBlockSize: uint16(v(4096, 16, 65535, 0x0100, 0x00FF)), MaxBlockSize: uint16(v(4096, 16, 65535, 0x0201)),
					MinFrameSize: uint32(v(14, 0, 0xFFFFFF, 0x010203)), MaxFrameSize: uint32(v(0x3456, 0, 0xFFFFFF, 0x800000)),
					SampleRate: uint32(v(44100, 0, 1, 15, 16, 0xFFFFF, 0x12345, 655350)), ChannelCount: uint8(v(2, 1, 3, 4, 5, 6, 7, 8)),
					BitDepth: uint8(v(16, 1, 4, 15, 17, 24, 31, 32)), TotalSamples: v(0x123456789, 0, 1, 0xFFFFFFFFF, 0x800000000, 0xFFFFFFFF),
				}
				copy(s.MD5[:], pat(16, byte(v(1, 2, 3))))
				b := (&bitw{}).u(uint64(s.MinBlockSize), 16).u(uint64(s.MaxBlockSize), 16).u(uint64(s.MinFrameSize), 24).u(uint64(s.MaxFrameSize), 24).
					u(uint64(s.SampleRate), 20).u(uint64(s.ChannelCount-1), 3).u(uint64(s.BitDepth-1), 5).u(s.TotalSamples, 36).bytes(s.MD5[:])
				enc, err := s.Marshal()
				w.Check(err == nil && eq(enc, b.out()), "flac-encode", "%+v encodes to %x (%v), expected %x", s, enc, err, b.out())
				got := flac.StreamInfo{}
				if v(0, 1) == 1 {
					got = flac.StreamInfo{1, 2, 3, 4, 5, 6, 7, 8, [16]byte{9, 9}}
				}
				err = got.Unmarshal(append(clone(enc), 1, 2)[:34+2*int(v(0, 1))])
				w.Check(err == nil && got == s, "flac-decode", "%x: %+v (%v), expected %+v", enc, got, err, s)
				w.Step(kit.H(enc))
				for n := 0; n < 34; n++ {
					w.Check(got.Unmarshal(clone(enc[:n])) != nil, "flac-short", "%d bytes accepted", n)
				}
			})
		},
	})
}
