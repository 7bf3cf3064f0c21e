package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"slices"

	"github.com/asticode/go-astits"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/codecs"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/substructs"

	"verif/mc/kit"
)

const ts33 = int64(1) << 33

// kinds of MPEG-TS tracks
const (
	kH264 = iota
	kH265
	kM4V
	kM1V
	kOpus
	kAAC
	kLATM
	kMPA
	kAC3
	kEAC3
	kKLVS
	kKLVA
	kDVB
	kCount
	kUnsup = kCount // a codec the package does not support
)

var tsNames = [kCount + 1]string{"H264", "H265", "MPEG4Video", "MPEG1Video", "Opus", "MPEG4Audio", "LATM", "MPEG1Audio", "AC3", "EAC3", "KLVsync", "KLVasync", "DVBSubtitle", "unsupported"}

type tsTrack struct {
	kind    int
	variant int
	pid     uint16 // 0: assigned by the writer
	lang    string
	t       *mpegts.Track // as given to the writer
	wantPID uint16
}

type tsSample struct {
	trk      int
	pts, dts int64
	units    [][]byte
	raw      []byte // what the PES packet carries instead of the units
	noTime   bool   // the PES packet has no timestamp
}

func tsVideo(kind int) bool { return kind <= kM1V }

func tsStreamID(kind int) byte {
	switch {
	case tsVideo(kind):
		return 0xE0
	case kind == kKLVS:
		return 0xFC
	case kind == kKLVA, kind == kDVB:
		return 0xBD
	}
	return 0xC0
}

// tsCodec returns the codec handed to the writer and the one expected from the reader.
func tsCodec(kind, variant int) (codecs.Codec, codecs.Codec) {
	mk := func() codecs.Codec {
		switch kind {
		case kH264:
			return &codecs.H264{}
		case kH265:
			return &codecs.H265{}
		case kM4V:
			return &codecs.MPEG4Video{}
		case kM1V:
			return &codecs.MPEG1Video{}
		case kAAC:
			cfg := []mpeg4audio.Config{
				{Type: 2, SampleRate: 48000, ChannelConfig: 2, ChannelCount: 2},
				{Type: 2, SampleRate: 96000, ChannelConfig: 1, ChannelCount: 1},
				{Type: 2, SampleRate: 7350, ChannelConfig: 7, ChannelCount: 8},
				{Type: 2, SampleRate: 44100, ChannelConfig: 6, ChannelCount: 6},
			}
			return &codecs.MPEG4Audio{Config: cfg[variant%len(cfg)]}
		case kLATM:
			return &codecs.MPEG4AudioLATM{}
		case kMPA:
			return &codecs.MPEG1Audio{}
		case kAC3:
			return &codecs.AC3{SampleRate: []int{48000, 44100, 32000}[variant%3], ChannelCount: []int{2, 6, 1}[variant%3]}
		case kEAC3:
			return &codecs.EAC3{SampleRate: []int{48000, 44100, 24000}[variant%3], ChannelCount: []int{2, 6, 1}[variant%3]}
		case kKLVS:
			return &codecs.KLV{Synchronous: true}
		case kKLVA:
			return &codecs.KLV{}
		case kDVB:
			it := []*astits.DescriptorSubtitlingItem{{Language: []byte("ita"), Type: 0x10, CompositionPageID: 1, AncillaryPageID: 2}}
			if variant%2 == 1 {
				it = append(it, &astits.DescriptorSubtitlingItem{Language: []byte("eng"), Type: 0x24, CompositionPageID: 0xFFFF, AncillaryPageID: 0x8001})
			}
			return &codecs.DVBSubtitle{Items: it}
		case kUnsup:
			return &codecs.Unsupported{}
		}
		return nil
	}
	if kind == kAAC {
		// the writer is given the channels in either or both of two fields
		a, b := mk().(*codecs.MPEG4Audio), mk()
		switch variant % 4 {
		case 1:
			a.ChannelCount = 0
		case 2:
			a.ChannelConfig = 0
		}
		return a, b
	}
	if kind == kOpus {
		switch variant % 4 {
		case 0:
			return &codecs.Opus{ChannelCount: 2}, &codecs.Opus{ChannelCount: 2, Desc: &substructs.OpusAudioDescriptor{ChannelConfigCode: 2}}
		case 1:
			return &codecs.Opus{ChannelCount: 8}, &codecs.Opus{ChannelCount: 8, Desc: &substructs.OpusAudioDescriptor{ChannelConfigCode: 8}}
		case 2:
			d := func() *substructs.OpusAudioDescriptor {
				return &substructs.OpusAudioDescriptor{
					ChannelConfigCode: 0x81, ExplicitChannelCount: 3, MappingFamily: 255,
					StreamCount: 2, CoupledStreamCount: 1, ChannelMapping: []byte{0, 2, 1},
				}
			}
			return &codecs.Opus{Desc: d()}, &codecs.Opus{Desc: d(), ChannelCount: 3}
		default:
			return &codecs.Opus{Desc: &substructs.OpusAudioDescriptor{ChannelConfigCode: 0x80}}, &codecs.Opus{Desc: &substructs.OpusAudioDescriptor{ChannelConfigCode: 0x80}, ChannelCount: 2}
		}
	}
	return mk(), mk()
}

// nz returns n non-zero pattern bytes.
func nz(n int, seed byte) []byte {
	b := pat(n, seed)
	for i := range b {
		if b[i] == 0 {
			b[i] = 0x55
		}
	}
	return b
}

var ac3Sizes48 = []struct{ code, size int }{{0, 128}, {4, 192}, {8, 256}, {30, 1792}, {36, 2560}}

// tsUnit makes a unit of the given kind, of the given size where the kind allows any. fl alters its content
// (random access or not, start codes inside).
func tsUnit(kind, variant, size, fl int, seed byte) []byte {
	size = max(size, 1)
	switch kind {
	case kH264:
		b := nz(size, seed)
		b[0] = []byte{0x65, 0x41, 0x06}[fl%3]
		return b
	case kH265:
		b := nz(size, seed)
		b[0] = []byte{19 << 1, 1 << 1, 39 << 1}[fl%3]
		return b
	case kM4V, kM1V:
		b := nz(size, seed)
		if fl%2 == 0 { // random access
			copy(b, []byte{0, 0, 1, map[int]byte{kM4V: 0xB3, kM1V: 0xB8}[kind]})
		}
		if fl >= 2 { // start codes everywhere, which look like PES headers
			for i := 4; i < len(b); i++ {
				b[i] = []byte{0, 0, 1, 0xE0, 0, 0, 0x80, 0x80, 5, 0x21, 0, 1, 0, 1}[i%14]
			}
		}
		return b
	case kMPA:
		h := [][]byte{{0xFF, 0xFB, 0x14, 0x00}, {0xFF, 0xFB, 0xE8, 0xC4}, {0xFF, 0xFD, 0x48, 0x00}}
		le := []int{96, 1440, 288}
		b := nz(le[size%3], seed)
		copy(b, h[size%3])
		return b
	case kAC3:
		var b []byte
		fscod := variant % 3
		switch fscod {
		case 0:
			s := ac3Sizes48[size%len(ac3Sizes48)]
			b = nz(s.size, seed)
			b[4] = byte(s.code)
		case 1:
			b = nz(69*2, seed)
			b[4] = 1<<6 | 0
		default:
			b = nz(96*2, seed)
			b[4] = 2<<6 | 0
		}
		b[0], b[1] = 0x0B, 0x77
		b[5] = 8 << 3
		b[6] = []byte{0b010_00_000, 0b111_00_00_1, 0b001_0_0000}[variant%3]
		return b
	case kEAC3:
		n := max(size, 8)
		n += n % 2
		n = min(n, 4096)
		b := nz(n, seed)
		v := variant % 3
		b[0], b[1] = 0x0B, 0x77
		fs := n/2 - 1
		b[2], b[3] = byte(fs>>8), byte(fs)
		bw := &bitw{}
		switch v {
		case 0:
			bw.u(0, 2).u(3, 2).u(2, 3).u(0, 1)
		case 1:
			bw.u(1, 2).u(3, 2).u(7, 3).u(1, 1)
		default:
			bw.u(3, 2).u(0, 2).u(1, 3).u(0, 1) // fscod2 = 0: 24 kHz
		}
		bw.u(16, 5).u(0, 3)
		copy(b[4:], bw.out())
		return b
	default:
		return nz(size, seed)
	}
}

// tsPayload is what the PES packet of the sample carries, by an independent encoder.
func tsPayload(t *tsTrack, s *tsSample) []byte {
	var o []byte
	switch t.kind {
	case kH264, kH265:
		aud := []byte{9, 240}
		if t.kind == kH265 {
			aud = []byte{35 << 1, 1, 0x50}
		}
		if s.units[0][0] != aud[0] {
			o = append(o, 0, 0, 0, 1)
			o = append(o, aud...)
		}
		for _, u := range s.units {
			o = append(o, 0, 0, 0, 1)
			o = append(o, u...)
		}
	case kOpus:
		for _, u := range s.units {
			o = append(o, 0x7F, 0xE0)
			n := len(u)
			for n >= 255 {
				o = append(o, 255)
				n -= 255
			}
			o = append(o, byte(n))
			o = append(o, u...)
		}
	case kAAC:
		_, x := tsCodec(t.kind, t.variant)
		c := x.(*codecs.MPEG4Audio)
		for _, u := range s.units {
			w := &bitw{}
			w.u(0xFFF, 12).u(0, 1).u(0, 2).u(1, 1).u(uint64(c.Type-1), 2).u(uint64(aacRateIndex(c.SampleRate)), 4)
			w.u(0, 1).u(uint64(c.ChannelConfig), 3).u(0, 4).u(uint64(len(u)+7), 13).u(0x7FF, 11).u(0, 2)
			o = append(o, w.out()...)
			o = append(o, u...)
		}
	case kLATM:
		for _, u := range s.units {
			o = append(o, 0x56, 0xE0|byte(len(u)>>8), byte(len(u)))
			o = append(o, u...)
		}
	case kKLVS:
		d := s.units[0]
		for i := 0; len(d) > 0; i++ {
			n := min(len(d), 65535)
			first, last := i == 0, n == len(d)
			frag := map[[2]bool]byte{{true, true}: 3, {true, false}: 2, {false, true}: 1, {false, false}: 0}[[2]bool{first, last}]
			o = append(o, 0, byte(i), frag<<6|0x1F, byte(n>>8), byte(n))
			o = append(o, d[:n]...)
			d = d[n:]
		}
	default:
		for _, u := range s.units {
			o = append(o, u...)
		}
	}
	return o
}

func tsMulti(kind int) bool {
	switch kind {
	case kH264, kH265, kOpus, kAAC, kLATM, kMPA:
		return true
	}
	return false
}

// tsMake fills in the mpegts.Track values.
func tsMake(trks []*tsTrack) []*mpegts.Track {
	next := uint16(256)
	var o []*mpegts.Track
	for _, t := range trks {
		wc, _ := tsCodec(t.kind, t.variant)
		t.t = &mpegts.Track{PID: t.pid, Language: t.lang, Codec: wc}
		t.wantPID = t.pid
		if t.pid == 0 {
			t.wantPID = next
			next++
		}
		o = append(o, t.t)
	}
	return o
}

func tsWriteOne(w *mpegts.Writer, t *tsTrack, s *tsSample) error {
	switch t.kind {
	case kH264:
		return w.WriteH264(t.t, s.pts, s.dts, s.units)
	case kH265:
		return w.WriteH265(t.t, s.pts, s.dts, s.units)
	case kM4V:
		return w.WriteMPEG4Video(t.t, s.pts, s.units[0])
	case kM1V:
		return w.WriteMPEG1Video(t.t, s.pts, s.units[0])
	case kOpus:
		return w.WriteOpus(t.t, s.pts, s.units)
	case kAAC:
		return w.WriteMPEG4Audio(t.t, s.pts, s.units)
	case kLATM:
		return w.WriteMPEG4AudioLATM(t.t, s.pts, s.units)
	case kMPA:
		return w.WriteMPEG1Audio(t.t, s.pts, s.units)
	case kAC3:
		return w.WriteAC3(t.t, s.pts, s.units[0])
	case kEAC3:
		return w.WriteEAC3(t.t, s.pts, s.units[0])
	case kKLVS, kKLVA:
		return w.WriteKLV(t.t, s.pts, s.units[0])
	case kDVB:
		return w.WriteDVBSubtitle(t.t, s.pts, s.units[0])
	}
	panic("kind")
}

// tsWrite writes the samples; it returns the bytes and the offset at which each sample starts.
func tsWrite(w *kit.W, trks []*tsTrack, ss []*tsSample) ([]byte, []int) {
	var buf bytes.Buffer
	var mw *mpegts.Writer
	var err error
	if len(ss)%2 == 1 { // the deprecated constructor
		mw = mpegts.NewWriter(&buf, tsMake(trks))
	} else {
		mw = &mpegts.Writer{W: &buf, Tracks: tsMake(trks)}
		err = mw.Initialize()
	}
	w.Check(err == nil, "ts-init", "Writer.Initialize: %v", err)
	var starts []int
	for i, s := range ss {
		starts = append(starts, buf.Len())
		err = tsWriteOne(mw, trks[s.trk], s)
		w.Check(err == nil, "ts-write", "sample %d (%s): %v", i, tsNames[trks[s.trk].kind], err)
	}
	return buf.Bytes(), starts
}

type tsGot struct {
	pts, dts int64
	hasDTS   bool
	units    [][]byte
}

type tsResult struct {
	initErr error
	tracks  []*mpegts.Track
	got     map[uint16][]tsGot
	order   []uint16
	readErr error
	decErrs []error
}

var errStuck = errors.New("verif: stuck")

func cloneUnits(u [][]byte) [][]byte {
	o := make([][]byte, len(u))
	for i := range u {
		o[i] = append([]byte{}, u[i]...)
	}
	return o
}

// tsRead reads a stream to its end with callbacks for every track but those of skip.
func tsRead(src io.Reader, limit int, skip ...uint16) *tsResult {
	res := &tsResult{got: map[uint16][]tsGot{}}
	var r *mpegts.Reader
	if br, ok := src.(*bytes.Reader); ok && (br.Len()/188)%2 == 1 { // the deprecated constructor
		r, res.initErr = mpegts.NewReader(src)
	} else {
		r = &mpegts.Reader{R: src}
		res.initErr = r.Initialize()
	}
	if res.initErr != nil {
		return res
	}
	if o, ok := src.(*onceSource); ok {
		o.doneAtInit = o.done
	}
	res.tracks = r.Tracks()
	nerr := 0
	r.OnDecodeError(func(err error) {
		nerr++
		if nerr > limit {
			panic("decode errors without end: " + err.Error())
		}
		res.decErrs = append(res.decErrs, err)
	})
	tsHook(r, func(pid uint16, g tsGot) {
		res.got[pid] = append(res.got[pid], g)
		res.order = append(res.order, pid)
	}, skip...)
	for i := 0; ; i++ {
		if err := r.Read(); err != nil {
			res.readErr = err
			return res
		}
		if i > limit {
			res.readErr = errStuck
			return res
		}
	}
}

// tsHook sets the callback of every track.
func tsHook(r *mpegts.Reader, f func(pid uint16, g tsGot), skip ...uint16) {
	hasDTS := map[uint16]bool{}
	for _, t := range r.Tracks() {
		switch t.Codec.(type) {
		case *codecs.H264, *codecs.H265:
			hasDTS[t.PID] = true
		}
	}
	tsHookRaw(r, func(pid uint16, pts, dts int64, u [][]byte) error {
		f(pid, tsGot{pts: pts, dts: dts, hasDTS: hasDTS[pid], units: cloneUnits(u)})
		return nil
	}, skip...)
}

// tsHookRaw sets the callback of every track but those of skip; what is delivered is not copied.
func tsHookRaw(r *mpegts.Reader, f func(pid uint16, pts, dts int64, u [][]byte) error, skip ...uint16) {
	for _, t := range r.Tracks() {
		if slices.Contains(skip, t.PID) {
			continue
		}
		pid := t.PID
		one := func(pts int64, d []byte) error {
			return f(pid, pts, 0, [][]byte{d})
		}
		many := func(pts int64, d [][]byte) error {
			return f(pid, pts, 0, d)
		}
		video := func(pts, dts int64, d [][]byte) error {
			return f(pid, pts, dts, d)
		}
		switch t.Codec.(type) {
		case *codecs.H264:
			r.OnDataH264(t, video)
		case *codecs.H265:
			r.OnDataH265(t, video)
		case *codecs.MPEG4Video, *codecs.MPEG1Video:
			r.OnDataMPEGxVideo(t, one)
		case *codecs.Opus:
			r.OnDataOpus(t, many)
		case *codecs.MPEG4Audio:
			r.OnDataMPEG4Audio(t, many)
		case *codecs.MPEG4AudioLATM:
			r.OnDataMPEG4AudioLATM(t, many)
		case *codecs.MPEG1Audio:
			r.OnDataMPEG1Audio(t, many)
		case *codecs.AC3:
			r.OnDataAC3(t, one)
		case *codecs.EAC3:
			r.OnDataEAC3(t, one)
		case *codecs.KLV:
			r.OnDataKLV(t, one)
		case *codecs.DVBSubtitle:
			r.OnDataDVBSubtitle(t, one)
		}
	}
}

// tsExpect returns what the reader has to deliver for the samples, in order, per track index; the entry of
// an asynchronous KLV unit that precedes any timestamp is absent.
func tsExpect(trks []*tsTrack, ss []*tsSample) [][]tsGot {
	o := make([][]tsGot, len(trks))
	last, has := int64(0), false
	for _, s := range ss {
		t := trks[s.trk]
		g := tsGot{pts: s.pts & (ts33 - 1), units: s.units}
		switch t.kind {
		case kH264, kH265:
			g.dts, g.hasDTS = s.dts&(ts33-1), true
			if s.units[0][0] == map[int]byte{kH264: 9, kH265: 70}[t.kind] {
				g.units = s.units[1:]
			}
		case kKLVA:
			if !has {
				continue
			}
			g.pts = last
		}
		if t.kind != kKLVA {
			last, has = g.pts, true
		}
		o[s.trk] = append(o[s.trk], g)
	}
	return o
}

func tsGotEq(a, b tsGot) bool {
	if a.pts != b.pts || a.hasDTS != b.hasDTS || a.dts != b.dts || len(a.units) != len(b.units) {
		return false
	}
	for i := range a.units {
		if !bytes.Equal(a.units[i], b.units[i]) {
			return false
		}
	}
	return true
}

func (g tsGot) String() string {
	s := fmt.Sprintf("pts=%d dts=%d", g.pts, g.dts)
	for _, u := range g.units {
		s += fmt.Sprintf(" [%d]%s", len(u), hx(u[:min(len(u), 12)]))
	}
	return s
}

// tsCheckTracks compares the tracks found by the reader with those given to the writer.
func tsCheckTracks(w *kit.W, trks []*tsTrack, got []*mpegts.Track) {
	w.Check(len(got) == len(trks), "ts-tracks", "%d tracks, want %d", len(got), len(trks))
	for i, t := range trks {
		_, want := tsCodec(t.kind, t.variant)
		w.Check(got[i].PID == t.wantPID, "ts-pid", "track %d: PID %d, want %d", i, got[i].PID, t.wantPID)
		w.Check(got[i].Language == t.lang, "ts-language", "track %d: language %q, want %q", i, got[i].Language, t.lang)
		w.Check(deepEq(got[i].Codec, want), "ts-codec", "track %d: codec %s", i, diff(got[i].Codec, want))
	}
}

// tsCheckAll is the round trip: everything is back and nothing else.
func tsCheckAll(w *kit.W, trks []*tsTrack, ss []*tsSample, res *tsResult) {
	w.Check(res.initErr == nil, "ts-reader-init", "Reader.Initialize: %v", res.initErr)
	tsCheckTracks(w, trks, res.tracks)
	w.Check(res.readErr == io.EOF, "ts-end", "reading ended with %v", res.readErr)
	w.Check(len(res.decErrs) == 0, "ts-decode-error", "decode errors: %v", res.decErrs)
	exp := tsExpect(trks, ss)
	n := 0
	for i, t := range trks {
		got := res.got[t.wantPID]
		n += len(got)
		for j := range min(len(got), len(exp[i])) {
			w.Check(tsGotEq(got[j], exp[i][j]), "ts-sample", "track %d (%s) sample %d: %v, want %v", i, tsNames[t.kind], j, got[j], exp[i][j])
		}
		w.Check(len(got) == len(exp[i]), "ts-count", "track %d (%s): %d samples, want %d", i, tsNames[t.kind], len(got), len(exp[i]))
	}
	w.Check(n == len(res.order), "ts-foreign", "samples on undeclared PIDs")
	w.Ops(int64(len(ss)))
	w.Step(kit.H(len(ss), len(res.order), dump(res.order)))
}

// ---- independent transport stream parser

type tsPkt struct {
	pid      uint16
	pusi     bool
	payload  []byte
	af       []byte // content after the length byte; nil if absent
	hasAF    bool
	cc       byte
	hasPL    bool
	pcr      int64
	hasPCR   bool
	rai      bool
	raw      []byte
	pesStart bool
	sample   int // index of the sample it belongs to, -1 for tables
	last     bool
}

func tsParse(b []byte) ([]*tsPkt, error) {
	if len(b)%188 != 0 {
		return nil, fmt.Errorf("%d bytes are not a number of packets", len(b))
	}
	var o []*tsPkt
	for i := 0; i < len(b); i += 188 {
		r := b[i : i+188]
		if r[0] != 0x47 {
			return nil, fmt.Errorf("packet %d: sync byte %x", i/188, r[0])
		}
		if r[1]&0x80 != 0 {
			return nil, fmt.Errorf("packet %d: transport error indicator", i/188)
		}
		if r[3]&0xC0 != 0 {
			return nil, fmt.Errorf("packet %d: scrambled", i/188)
		}
		p := &tsPkt{raw: r, pid: uint16(r[1]&0x1F)<<8 | uint16(r[2]), pusi: r[1]&0x40 != 0, cc: r[3] & 15, hasPL: r[3]&0x10 != 0, hasAF: r[3]&0x20 != 0, sample: -1}
		pos := 4
		if p.hasAF {
			le := int(r[4])
			if p.hasPL && le > 182 || !p.hasPL && le != 183 {
				return nil, fmt.Errorf("packet %d: adaptation field length %d", i/188, le)
			}
			p.af = r[5 : 5+le]
			pos = 5 + le
			if le > 0 {
				f := p.af[0]
				p.rai = f&0x40 != 0
				if f&0x80 != 0 {
					return nil, fmt.Errorf("packet %d: discontinuity indicator", i/188)
				}
				q := 1
				if f&0x10 != 0 {
					if le < 7 {
						return nil, fmt.Errorf("packet %d: PCR does not fit", i/188)
					}
					p.hasPCR = true
					var v uint64
					for _, x := range p.af[1:7] {
						v = v<<8 | uint64(x)
					}
					p.pcr = int64(v >> 15)
					if v>>9&0x3F != 0x3F {
						return nil, fmt.Errorf("packet %d: PCR reserved bits", i/188)
					}
					q = 7
				}
				if f&0x0F != 0 {
					return nil, fmt.Errorf("packet %d: unexpected adaptation field flags %x", i/188, f)
				}
				for _, x := range p.af[q:] {
					if x != 0xFF {
						return nil, fmt.Errorf("packet %d: stuffing byte %x", i/188, x)
					}
				}
			}
		}
		if p.hasPL {
			p.payload = r[pos:]
			if len(p.payload) == 0 {
				return nil, fmt.Errorf("packet %d: empty payload", i/188)
			}
		}
		o = append(o, p)
	}
	return o, nil
}

func crcMPEG2(b []byte) uint32 {
	c := uint32(0xFFFFFFFF)
	for _, x := range b {
		c ^= uint32(x) << 24
		for range 8 {
			if c&0x80000000 != 0 {
				c = c<<1 ^ 0x04C11DB7
			} else {
				c <<= 1
			}
		}
	}
	return c
}

// tsSection extracts the section of a one-packet table.
func tsSection(p []byte, table byte) ([]byte, error) {
	if len(p) < 1 || int(p[0])+4 > len(p) {
		return nil, fmt.Errorf("short table")
	}
	s := p[1+int(p[0]):]
	if s[0] != table {
		return nil, fmt.Errorf("table %x, want %x", s[0], table)
	}
	n := int(s[1]&15)<<8 | int(s[2])
	if s[1]&0xF0 != 0xB0 {
		return nil, fmt.Errorf("section flags %x", s[1])
	}
	if 3+n > len(s) || n < 9 {
		return nil, fmt.Errorf("section length %d", n)
	}
	if crcMPEG2(s[:3+n]) != 0 {
		return nil, fmt.Errorf("wrong section checksum")
	}
	for _, x := range s[3+n:] {
		if x != 0xFF {
			return nil, fmt.Errorf("table stuffing %x", x)
		}
	}
	return s[:3+n-4], nil
}

func parse33(b []byte, tag byte) (int64, error) {
	if b[0]>>4 != tag || b[0]&1 != 1 || b[2]&1 != 1 || b[4]&1 != 1 {
		return 0, fmt.Errorf("bad timestamp markers %x, want tag %x", b[:5], tag)
	}
	return int64(b[0]>>1&7)<<30 | int64(b[1])<<22 | int64(b[2]>>1)<<15 | int64(b[3])<<7 | int64(b[4]>>1), nil
}

// byteSource is a simple in-memory source with a read limit.
type byteSource struct {
	b     []byte
	pos   int
	chunk int
	err   error
	with  bool // report the end with the last bytes
	reads int
	limit int
}

func (s *byteSource) Read(p []byte) (int, error) {
	s.reads++
	if s.limit != 0 && s.reads > s.limit {
		panic("the source was read too many times")
	}
	end := s.err
	if end == nil {
		end = io.EOF
	}
	n := len(p)
	if s.chunk != 0 {
		n = min(n, s.chunk)
	}
	n = copy(p[:n], s.b[s.pos:])
	s.pos += n
	if n == 0 && len(p) > 0 || s.with && s.pos == len(s.b) {
		return n, end
	}
	return n, nil
}
