package props

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/flac"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mp4/codecs"

	"verif/mc/kit"
)

// mbox is a box found by the independent parser.
type mbox struct {
	typ  string
	off  int
	size int
	data []byte // after the header
	kids []*mbox
}

var mboxSkip = map[string]int{
	"moov": 0, "trak": 0, "mdia": 0, "minf": 0, "stbl": 0, "dinf": 0, "mvex": 0, "moof": 0, "traf": 0, "edts": 0, "udta": 0,
	"stsd": 8, "dref": 8,
	"av01": 78, "vp09": 78, "hvc1": 78, "avc1": 78, "mp4v": 78,
	"Opus": 28, "fLaC": 28, "mp4a": 28, "ac-3": 28, "ec-3": 28, "ipcm": 28,
}

func mboxParse(b []byte, base int) ([]*mbox, error) {
	var out []*mbox
	for p := 0; p < len(b); {
		if len(b)-p < 8 {
			return nil, fmt.Errorf("%d bytes after the last box at %d", len(b)-p, base+p)
		}
		sz := int(binary.BigEndian.Uint32(b[p:]))
		if sz < 8 || sz > len(b)-p {
			return nil, fmt.Errorf("box size %d at %d, %d available", sz, base+p, len(b)-p)
		}
		x := &mbox{typ: string(b[p+4 : p+8]), off: base + p, size: sz, data: b[p+8 : p+sz]}
		if n, ok := mboxSkip[x.typ]; ok {
			if len(x.data) < n {
				return nil, fmt.Errorf("box %s too short", x.typ)
			}
			var err error
			x.kids, err = mboxParse(x.data[n:], base+p+8+n)
			if err != nil {
				return nil, fmt.Errorf("%s: %w", x.typ, err)
			}
		}
		out = append(out, x)
		p += sz
	}
	return out, nil
}

// find returns the boxes at a path.
func mfind(l []*mbox, path ...string) []*mbox {
	var out []*mbox
	for _, x := range l {
		if x.typ == path[0] || path[0] == "*" {
			if len(path) == 1 {
				out = append(out, x)
			} else {
				out = append(out, mfind(x.kids, path[1:]...)...)
			}
		}
	}
	return out
}

func mone(w *kit.W, l []*mbox, path ...string) *mbox {
	r := mfind(l, path...)
	if len(r) != 1 {
		w.Fail("mp4-box-count", "%d boxes at %v", len(r), path)
	}
	return r[0]
}

func be16(b []byte, o int) int    { return int(b[o])<<8 | int(b[o+1]) }
func be32(b []byte, o int) uint32 { return binary.BigEndian.Uint32(b[o:]) }
func be64(b []byte, o int) uint64 { return binary.BigEndian.Uint64(b[o:]) }

// mpTrk is a codec with what must be found in a file that holds it.
type mpTrk struct {
	codec  codecs.Codec
	entry  string
	video  bool
	w, h   int
	ch, ss int
	rate   int
	cfgTyp string
	cfg    []byte
	esds   bool
	oti    byte
	spec   []byte
	late   []string // known deviations found: key, message
}

const (
	mAV1 = iota
	mVP9
	mH265
	mH264
	mM4V
	mM1V
	mMJPEG
	mOpus
	mFLAC
	mAAC
	mMP1A
	mAC3
	mEAC3
	mLPCM
	mKinds
)

var mNames = [mKinds]string{"AV1", "VP9", "H265", "H264", "MPEG4Video", "MPEG1Video", "MJPEG", "Opus", "FLAC", "MPEG4Audio", "MPEG1Audio", "AC3", "EAC3", "LPCM"}

var mDims = []uint64{640, 1, 2, 255, 256, 65535}

// acChannels is the channel count of an audio coding mode of (E-)AC-3.
func acChannels(acmod uint8, lfe bool) int {
	n := []int{2, 1, 2, 3, 3, 4, 4, 5}[acmod]
	if lfe {
		n++
	}
	return n
}

// mpCodec returns a codec of a kind, its structure chosen by pick and its values by v.
func mpCodec(kind int, pick func(int) int, v valFn) *mpTrk {
	m := &mpTrk{}
	dim := func() int { return int(v(mDims[0], mDims[1:]...)) }
	blob := func(first ...byte) []byte {
		n := int(v(9, 1, 2, 127, 128, 16383, 16384, 65535)) - len(first)
		if n < 0 {
			return clone(first[:len(first)+n])
		}
		return append(clone(first), pat(n, 3)...)
	}
	rate := func(rates ...uint64) int { return int(v(rates[0], rates[1:]...)) }
	switch kind {
	case mAV1:
		m.entry, m.cfgTyp = "av01", "av1C"
		h, b, unsup := av1encSeq(pick, v)
		if unsup {
			return nil
		}
		b.rbspTrailing()
		obu := append([]byte{0x08}, b.out()...)
		m.codec = &codecs.AV1{SequenceHeader: obu}
		m.w, m.h = h.Width(), h.Height()
		c := &bitw{}
		cc := h.ColorConfig
		c.u(0x81, 8).u(uint64(h.SeqProfile), 3).u(uint64(h.SeqLevelIdx[0]), 5)
		c.flag(h.SeqTier[0]).flag(cc.HighBitDepth).flag(cc.TwelveBit).flag(cc.MonoChrome).flag(cc.SubsamplingX).flag(cc.SubsamplingY)
		c.u(uint64(cc.ChromaSamplePosition), 2).u(0, 8)
		c.u(uint64(obu[0]|2), 8)
		c.bytes(refLEB(uint64(len(obu)-1), refLEBLen(uint64(len(obu)-1)))).bytes(obu[1:])
		m.cfg = c.out()
	case mVP9:
		m.entry, m.cfgTyp = "vp09", "vpcC"
		x := &codecs.VP9{Width: dim(), Height: dim(), Profile: uint8(v(0, 1, 2, 3)), BitDepth: uint8(v(8, 10, 12)), ChromaSubsampling: uint8(v(1, 0, 2, 3)), ColorRange: v(0, 1) == 1}
		m.codec, m.w, m.h = x, x.Width, x.Height
		c := &bitw{}
		c.u(1, 8).u(0, 24).u(uint64(x.Profile), 8).u(10, 8).u(uint64(x.BitDepth), 4).u(uint64(x.ChromaSubsampling), 3).flag(x.ColorRange).u(0, 24).u(0, 16)
		m.cfg = c.out()
	case mH265:
		m.entry, m.cfgTyp = "hvc1", "hvcC"
		sh := h265Shape{idc: []uint8{1, 2, 4, 31}[pick(4)], compat: -1, maxSub: []uint8{0, 1, 6}[pick(3)], chroma: []uint32{1, 0, 2, 3}[pick(4)], window: pick(2) == 1, subOrder: true}
		s, b := h265encSPS(sh, v)
		b.rbspTrailing()
		rbsp := b.out()
		sps := append([]byte{0x42, 0x01}, emulate(rbsp)...)
		x := &codecs.H265{VPS: blob(0x40, 0x01), SPS: sps, PPS: blob(0x44, 0x01)}
		m.codec, m.w, m.h = x, s.Width(), s.Height()
		c := &bitw{}
		c.u(1, 8).bytes(rbsp[1:6]).bytes(rbsp[6:12]).bytes(rbsp[12:13])
		c.u(0xF000, 16).u(0xFC, 8).u(0xFC|uint64(s.ChromaFormatIdc), 8).u(0xF8|uint64(s.BitDepthLumaMinus8), 8).u(0xF8|uint64(s.BitDepthChromaMinus8), 8)
		c.u(0, 16).u(0x0B, 8).u(3, 8) // 1 temporal layer, lengths of 4 bytes
		for i, n := range [][]byte{x.VPS, x.SPS, x.PPS} {
			c.u(uint64(32+i), 8).u(1, 16).u(uint64(len(n)), 16).bytes(n)
		}
		m.cfg = c.out()
	case mH264:
		m.entry, m.cfgTyp = "avc1", "avcC"
		sh := spsShape{profile: []uint8{66, 100, 77, 244}[pick(4)], chroma: 1, poc: uint32(pick(3)), fmo: pick(2) == 0, crop: pick(2) == 1, vui: pick(2) == 1}
		if sh.profile == 244 {
			sh.chroma = 3
		}
		s, b := h264encSPS(sh, v)
		b.rbspTrailing()
		x := &codecs.H264{SPS: append([]byte{0x67}, emulate(b.out())...), PPS: blob(0x68)}
		m.codec, m.w, m.h = x, s.Width(), s.Height()
		c := &bitw{}
		c.u(1, 8).bytes(x.SPS[1:4]).u(0xFF, 8).u(0xE1, 8).u(uint64(len(x.SPS)), 16).bytes(x.SPS).u(1, 8).u(uint64(len(x.PPS)), 16).bytes(x.PPS)
		m.cfg = c.out()
	case mM4V:
		m.entry, m.cfgTyp, m.esds, m.oti = "mp4v", "esds", true, 0x20
		x := &codecs.MPEG4Video{Config: blob(0, 0, 1, 0xB0, 1)}
		m.codec, m.w, m.h, m.spec = x, 800, 600, x.Config
	case mM1V:
		m.entry, m.cfgTyp, m.esds, m.oti = "mp4v", "esds", true, 0x61
		x := &codecs.MPEG1Video{Config: blob(0, 0, 1, 0xB3)}
		m.codec, m.w, m.h, m.spec = x, 800, 600, x.Config
	case mMJPEG:
		m.entry, m.cfgTyp, m.esds, m.oti = "mp4v", "esds", true, 0x6C
		x := &codecs.MJPEG{Width: dim(), Height: dim()}
		m.codec, m.w, m.h = x, x.Width, x.Height
	case mOpus:
		m.entry, m.cfgTyp = "Opus", "dOps"
		x := &codecs.Opus{ChannelCount: rate(2, 1, 6, 8, 255)}
		m.codec, m.ch, m.ss, m.rate = x, x.ChannelCount, 16, 48000
		c := &bitw{}
		c.u(0, 8).u(uint64(x.ChannelCount), 8).u(312, 16).u(48000, 32).u(0, 16).u(0, 8)
		m.cfg = c.out()
	case mFLAC:
		m.entry, m.cfgTyp = "fLaC", "dfLa"
		si := &flac.StreamInfo{
			MinBlockSize: uint16(v(4096, 16, 65535)), MaxBlockSize: uint16(v(4096, 16, 65535)),
			MinFrameSize: uint32(v(0, 14, 1<<24-1)), MaxFrameSize: uint32(v(0, 1<<24-1)),
			SampleRate: uint32(v(48000, 1, 44100, 65535, 65536, 96000, 192000, 1<<20-1)), ChannelCount: uint8(v(2, 1, 8)), BitDepth: uint8(v(16, 4, 24, 32)),
			TotalSamples: v(0, 1, 1<<32, 1<<36-1),
		}
		copy(si.MD5[:], pat(16, byte(v(1, 200))))
		m.codec, m.ch, m.ss, m.rate = &codecs.FLAC{StreamInfo: si}, int(si.ChannelCount), int(si.BitDepth), int(si.SampleRate)
		c := &bitw{}
		c.u(0, 32).u(0x80000022, 32).u(uint64(si.MinBlockSize), 16).u(uint64(si.MaxBlockSize), 16).u(uint64(si.MinFrameSize), 24).u(uint64(si.MaxFrameSize), 24)
		c.u(uint64(si.SampleRate), 20).u(uint64(si.ChannelCount-1), 3).u(uint64(si.BitDepth-1), 5).u(si.TotalSamples, 36).bytes(si.MD5[:])
		m.cfg = c.out()
	case mAAC:
		m.entry, m.cfgTyp, m.esds, m.oti = "mp4a", "esds", true, 0x40
		a := genASC(pick, []int{48000, 44100, 96000, 7350, 1, 44101, 65535, 65536, 16777215})
		if a.ChannelConfig == 0 {
			return nil
		}
		b := &bitw{}
		a.Type = mpeg4audio.ObjectType(v(2, 2))
		putASC(b, a, aacRateIndex(a.SampleRate) < 0, a.ExtensionType != 0 && aacRateIndex(a.ExtensionSampleRate) < 0)
		m.codec, m.ch, m.ss, m.rate, m.spec = &codecs.MPEG4Audio{Config: *a}, a.ChannelCount, 16, a.SampleRate, b.align().out()
	case mMP1A:
		m.entry, m.cfgTyp, m.esds, m.oti = "mp4a", "esds", true, 0x6B
		x := &codecs.MPEG1Audio{SampleRate: rate(48000, 44100, 32000, 16000), ChannelCount: rate(2, 1)}
		m.codec, m.ch, m.ss, m.rate = x, x.ChannelCount, 16, x.SampleRate
	case mAC3:
		m.entry, m.cfgTyp = "ac-3", "dac3"
		i := v(0, 1, 2)
		x := &codecs.AC3{
			SampleRate: []int{48000, 44100, 32000}[i], Fscod: uint8(i), Bsid: uint8(v(8, 6, 31)), Bsmod: uint8(v(0, 1, 7)),
			Acmod: uint8(v(7, 0, 1, 2, 3, 4, 5, 6)), LfeOn: v(1, 0) == 1, BitRateCode: uint8(v(7, 0, 18, 31)),
		}
		x.ChannelCount = acChannels(x.Acmod, x.LfeOn)
		m.codec, m.ch, m.ss, m.rate = x, x.ChannelCount, 16, x.SampleRate
		c := &bitw{}
		c.u(i, 2).u(uint64(x.Bsid), 5).u(uint64(x.Bsmod), 3).u(uint64(x.Acmod), 3).flag(x.LfeOn).u(uint64(x.BitRateCode), 5).u(0, 5)
		m.cfg = c.out()
	case mEAC3:
		m.entry, m.cfgTyp = "ec-3", "dec3"
		i := v(0, 1, 2)
		x := &codecs.EAC3{
			SampleRate: []int{48000, 44100, 32000}[i], ChannelCount: rate(6, 1, 2, 8), DataRate: uint16(v(192, 0, 1, 8191)), Asvc: v(0, 1) == 1, Bsmod: uint8(v(0, 1, 7)),
			Acmod: uint8(v(7, 0, 1, 2, 3, 4, 5, 6)), LfeOn: v(1, 0) == 1, NumDepSub: uint8(pick(3) * 7),
		}
		if x.NumDepSub == 0 {
			x.ChannelCount = acChannels(x.Acmod, x.LfeOn)
		}
		if x.NumDepSub != 0 {
			x.NumDepSub++
			x.ChanLoc = uint16(v(1, 0, 256, 511))
		}
		m.codec, m.ch, m.ss, m.rate = x, x.ChannelCount, 16, x.SampleRate
		c := &bitw{}
		c.u(uint64(x.DataRate), 13).u(0, 3).u(i, 2).u(16, 5).u(0, 1).flag(x.Asvc).u(uint64(x.Bsmod), 3).u(uint64(x.Acmod), 3).flag(x.LfeOn).u(0, 3).u(uint64(x.NumDepSub), 4)
		if x.NumDepSub != 0 {
			c.u(uint64(x.ChanLoc), 9)
		} else {
			c.u(0, 1)
		}
		m.cfg = c.out()
	case mLPCM:
		m.entry, m.cfgTyp = "ipcm", "pcmC"
		x := &codecs.LPCM{LittleEndian: v(0, 1) == 1, BitDepth: rate(16, 8, 24, 32), SampleRate: rate(48000, 8000, 1, 65535, 65536, 96000, 192000), ChannelCount: rate(2, 1, 6, 255, 65535)}
		m.codec, m.ch, m.ss, m.rate = x, x.ChannelCount, x.BitDepth, x.SampleRate
		c := &bitw{}
		c.u(0, 32).u(b2u(x.LittleEndian), 8).u(uint64(x.BitDepth), 8)
		m.cfg = c.out()
	}
	m.video = kind <= mMJPEG
	if m.esds {
		c := &bitw{}
		st := uint64(5)
		if m.video {
			st = 4
		}
		sz := func(n int) { c.u(0x808080, 24).u(uint64(n), 8) }
		if len(m.spec) > 80 {
			sz = func(n int) {
				c.u(0x80|uint64(n>>21), 8).u(0x80|uint64(n>>14&127), 8).u(0x80|uint64(n>>7&127), 8).u(uint64(n&127), 8)
			}
		}
		n := 0
		if m.spec != nil {
			n = 5 + len(m.spec)
		}
		c.u(0, 32).u(3, 8)
		sz(3 + 5 + 13 + n + 6)
		c.u(0, 16).u(0, 8).u(4, 8) // ESID, filled by the caller
		sz(13 + n)
		c.u(uint64(m.oti), 8).u(st<<2|1, 8).u(0, 24).u(0, 64) // bitrates, filled by the caller
		if n > 0 {
			c.u(5, 8)
			sz(len(m.spec))
			c.bytes(m.spec)
		}
		c.u(6, 8)
		sz(1)
		c.u(2, 8)
		m.cfg = c.out()
	}
	return m
}

func mpDef(int) int                      { return 0 }
func mvDef(d uint64, _ ...uint64) uint64 { return d }

// mpCheckTrak checks the parts of a trak box that describe a track.
func mpCheckTrak(w *kit.W, trak *mbox, m *mpTrk, id, timeScale, maxBR, avgBR uint32) {
	k := trak.kids
	tkhd := mone(w, k, "tkhd").data
	w.Check(be32(tkhd, 0) == 3 && be32(tkhd, 12) == id, "mp4-tkhd", "tkhd flags or track ID: %s", hx(tkhd))
	if m.video {
		w.Check(be32(tkhd, 76) == uint32(m.w)<<16 && be32(tkhd, 80) == uint32(m.h)<<16, "mp4-tkhd-size", "tkhd size %x %x, want %dx%d", be32(tkhd, 76), be32(tkhd, 80), m.w, m.h)
	} else {
		w.Check(be16(tkhd, 36) == 256, "mp4-tkhd-volume", "volume %x", be16(tkhd, 36))
	}
	mdhd := mone(w, k, "mdia", "mdhd").data
	o := 12
	if mdhd[0] == 1 {
		o = 20
	}
	w.Check(be32(mdhd, o) == timeScale, "mp4-timescale", "time scale %d, want %d", be32(mdhd, o), timeScale)
	hd := string(mone(w, k, "mdia", "hdlr").data[8:12])
	w.Check(hd == map[bool]string{true: "vide", false: "soun"}[m.video], "mp4-hdlr", "handler %s", hd)
	mone(w, k, "mdia", "minf", map[bool]string{true: "vmhd", false: "smhd"}[m.video])
	dref := mone(w, k, "mdia", "minf", "dinf", "dref")
	w.Check(be32(dref.data, 4) == 1 && len(dref.kids) == 1 && dref.kids[0].typ == "url " && be32(dref.kids[0].data, 0) == 1, "mp4-dref", "dref")
	stsd := mone(w, k, "mdia", "minf", "stbl", "stsd")
	w.Check(be32(stsd.data, 4) == 1 && len(stsd.kids) == 1 && stsd.kids[0].typ == m.entry, "mp4-stsd", "sample entries: %s", hx(stsd.data))
	e := stsd.kids[0]
	w.Check(be16(e.data, 6) == 1, "mp4-entry-dref", "data reference index %d", be16(e.data, 6))
	if m.video {
		if m.w < 65536 && m.h < 65536 {
			w.Check(be16(e.data, 24) == m.w && be16(e.data, 26) == m.h, "mp4-entry-size", "sample entry size %dx%d, want %dx%d", be16(e.data, 24), be16(e.data, 26), m.w, m.h)
		}
	} else {
		w.Check(be16(e.data, 16) == m.ch && be16(e.data, 18) == m.ss, "mp4-entry-audio", "sample entry: channels %d, sample size %d; want %d, %d", be16(e.data, 16), be16(e.data, 18), m.ch, m.ss)
		if m.rate < 65536 {
			w.Check(be32(e.data, 24) == uint32(m.rate)<<16, "mp4-entry-rate", "sample entry rate %x, want %d", be32(e.data, 24), m.rate)
		}
	}
	w.Check(len(e.kids) >= 1 && e.kids[0].typ == m.cfgTyp, "mp4-config-box", "configuration box missing")
	got, want := clone(e.kids[0].data), clone(m.cfg)
	if m.esds {
		want[9], want[10] = byte(id>>8), byte(id)
		binary.BigEndian.PutUint32(want[22:], maxBR)
		binary.BigEndian.PutUint32(want[26:], avgBR)
	}
	if x, ok := m.codec.(*codecs.H265); ok && len(got) > 12 && !bytes.Equal(got[6:12], want[6:12]) && bytes.Equal(got[6:12], x.SPS[7:13]) {
		m.late = []string{"hvcC-constraints", fmt.Sprintf("general constraint indicator flags of hvcC: %x, the SPS has %x", got[6:12], want[6:12])}
		copy(got[6:12], want[6:12])
	}
	if m.entry == "hvc1" && len(got) > 21 {
		got[21] &= 0xC3
		want[21] &= 0xC3 // without the number of temporal layers and their nesting
	}
	w.Check(bytes.Equal(got, want), "mp4-config", "%s: %s, want %s", m.cfgTyp, hx(got), hx(want))
}
