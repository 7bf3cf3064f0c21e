package props

import (
	"bytes"
	"encoding/binary"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mp4/codecs"

	"verif/mc/kit"
)

// M06: fragmented MP4 of another, independent writer.

func u32b(v ...uint32) []byte {
	var o []byte
	for _, x := range v {
		o = binary.BigEndian.AppendUint32(o, x)
	}
	return o
}

func leaf(typ string, pre ...[]byte) *bnode {
	return &bnode{typ: typ, pre: bytes.Join(pre, nil)}
}

// fgExtra gives boxes that a reader has to skip: nothing for 0.
func fgExtra(k int) []*bnode {
	switch k {
	case 1:
		return []*bnode{leaf("free")}
	case 2:
		return []*bnode{leaf("free", pat(9, 1)), leaf("skip", pat(1000, 2))}
	case 3:
		return []*bnode{leaf("uuid", []byte("0123456789abcdef"), pat(20, 3))}
	case 4:
		return []*bnode{leaf("zzzz", pat(13, 4))}
	case 5: // full of boxes that mean something elsewhere
		return []*bnode{{typ: "yyyy", kids: []*bnode{leaf("tfhd", pat(8, 1)), leaf("trun", pat(20, 1)), leaf("mdat", pat(4, 1)), leaf("tkhd", pat(84, 2))}}}
	case 6:
		n := leaf("free", pat(5, 6))
		n.large = true
		return []*bnode{n}
	}
	return nil
}

const fgExtras = 7

type fgPart struct {
	part *fmp4.Part
	b    []byte
}

// fgParts makes a segment and says what it carries.
func fgParts(w *kit.W, nParts, nTracks, nRuns, nSamples func() int) (fmp4.Parts, []byte) {
	root := &bnode{}
	before := [][]*bnode{
		nil,
		{leaf("styp", []byte("msdh"), u32b(0), []byte("msdhmsix"))},
		{leaf("styp", []byte("msdh"), u32b(0), []byte("msdhmsix")), leaf("sidx", u32b(0, 1, 90000, 0, 0, 1, 1000, 90000, 0x90000000))},
		{leaf("prft", u32b(0, 1, 1, 2, 3))},
		{leaf("emsg", u32b(0), []byte("urn\x00v\x00"), u32b(1, 2, 3, 4), pat(30, 1))},
		{leaf("ftyp", []byte("iso6"), u32b(1), []byte("iso6dash")), {typ: "moov", kids: []*bnode{leaf("mvhd", u32b(0, 0, 0, 1000, 0), pat(80, 0))}}},
	}
	var want fmp4.Parts
	var out []byte
	seed := byte(1)
	np := nParts()
	for range np {
		k := w.Dev(len(before) + fgExtras - 1)
		if k < len(before) {
			root.kids = append(root.kids, before[k]...)
		} else {
			root.kids = append(root.kids, fgExtra(k-len(before)+1)...)
		}
		p := &fmp4.Part{SequenceNumber: DevOfU(w, 1, 0, 1<<32-1)}
		want = append(want, p)
		moof := &bnode{typ: "moof", kids: []*bnode{leaf("mfhd", u32b(0, p.SequenceNumber))}}
		moof.large = w.Dev(2) == 1
		moof.kids = append(moof.kids, fgExtra(w.Dev(fgExtras))...)
		var data []byte
		type fix struct {
			n   *bnode
			at  int
			pos int
		}
		var fixes []fix
		lead := []int{0, 0, 7, 100}[w.Dev(4)] // bytes of mdat that belong to no sample
		data = append(data, pat(lead, 77)...)
		for ti := range nTracks() {
			t := &fmp4.PartTrack{ID: int(DevOfU(w, uint32(ti)+1, 300, 1<<32-1))}
			p.Tracks = append(p.Tracks, t)
			traf := &bnode{typ: "traf"}
			var defDur, defSize, defFlags uint32
			fl := uint32(0x020000)
			var tf []byte
			if w.Dev(2) == 1 {
				fl |= 2
				tf = append(tf, u32b(1)...)
			}
			hasDur, hasSize, hasFlags := w.Dev(3), w.Dev(2) == 1, w.Dev(3)
			if hasDur > 0 {
				fl |= 8
				defDur = []uint32{0, 1001, 1<<32 - 1}[hasDur]
				tf = append(tf, u32b(defDur)...)
			}
			if hasSize {
				fl |= 0x10
				defSize = 11
				tf = append(tf, u32b(defSize)...)
			}
			if hasFlags > 0 {
				fl |= 0x20
				defFlags = []uint32{0, 0x01010000, 0x02000000}[hasFlags]
				tf = append(tf, u32b(defFlags)...)
			}
			if ti == 0 && w.Dev(2) == 1 {
				fl &^= 0x020000 // the base of the first track is the moof box anyway
			}
			traf.kids = append(traf.kids, leaf("tfhd", u32b(fl, uint32(t.ID)), tf))
			traf.kids = append(traf.kids, fgExtra(w.Dev(fgExtras))...)
			switch w.Dev(4) {
			case 0:
				t.BaseTime = 90000
				traf.kids = append(traf.kids, leaf("tfdt", u32b(1<<24, 0, 90000)))
			case 1:
				t.BaseTime = 1<<40 + 5
				traf.kids = append(traf.kids, leaf("tfdt", u32b(1<<24, 1<<8, 5)))
			case 2:
				t.BaseTime = 1<<32 - 1
				traf.kids = append(traf.kids, leaf("tfdt", u32b(0, 1<<32-1)))
			case 3:
				traf.kids = append(traf.kids, leaf("tfdt", u32b(0, 0)))
			}
			switch w.Dev(3) {
			case 1:
				traf.kids = append(traf.kids, leaf("sdtp", u32b(0), pat(3, 1)), leaf("saiz", u32b(0, 1<<24|8)), leaf("saio", u32b(0, 1, 50)))
			case 2:
				traf.kids = append(traf.kids, leaf("sbgp", u32b(0), []byte("roll"), u32b(1, 1, 1)), leaf("subs", u32b(0, 0)))
			}
			for range nRuns() {
				ver := []byte{1, 0}[w.Dev(2)]
				fDur, fSize := hasDur == 0 || w.Dev(2) == 1, !hasSize || w.Dev(2) == 1
				flagMode := w.Dev(4) // per sample, default only, first sample and default, per sample with other bits
				if hasFlags == 0 && (flagMode == 1 || flagMode == 2) {
					// the defaults are those of the init segment, unknown to Parts
					if flagMode == 1 {
						return nil, nil
					}
					defFlags = 0
				}
				cts := w.Dev(2) == 1
				rf := uint32(1)
				if fDur {
					rf |= 0x100
				}
				if fSize {
					rf |= 0x200
				}
				if flagMode == 0 || flagMode == 3 {
					rf |= 0x400
				}
				if cts {
					rf |= 0x800
				}
				if flagMode == 2 {
					rf |= 4
				}
				n := nSamples()
				body := u32b(uint32(ver)<<24|rf, uint32(n), 0)
				firstFlags := []uint32{0x02000000, 0x01010000, 0}[0]
				if flagMode == 2 {
					firstFlags = []uint32{0x02000000, 0x01010000}[w.Dev(2)]
					body = append(body, u32b(firstFlags)...)
				}
				pos := len(data)
				for si := range n {
					s := &fmp4.Sample{Duration: defDur}
					if fDur {
						s.Duration = DevOfU(w, 3000, 0, 1<<32-1)
						body = append(body, u32b(s.Duration)...)
					}
					size := defSize
					if fSize {
						size = DevOfU(w, 5, 0, 300)
						body = append(body, u32b(size)...)
					}
					s.Payload = pat(int(size), seed)
					seed += 31
					data = append(data, s.Payload...)
					f := defFlags
					switch flagMode {
					case 0, 3:
						f = []uint32{0, 1 << 16}[w.Dev(2)]
						if flagMode == 3 {
							f |= 0x0FFE_FFFF & 0x01FE_1234
						}
						body = append(body, u32b(f)...)
					case 2:
						if si == 0 {
							f = firstFlags
						}
					}
					s.IsNonSyncSample = f&(1<<16) != 0
					if cts {
						o := []uint32{6000, 0, 1<<31 - 1, 1<<32 - 100}[w.Dev(4)]
						if ver == 0 && o > 1<<31 {
							o = 1
						}
						s.PTSOffset = int32(o)
						body = append(body, u32b(o)...)
					}
					t.Samples = append(t.Samples, s)
				}
				data = append(data, pat([]int{0, 3}[w.Dev(2)], 99)...) // a hole between runs
				r := leaf("trun", body)
				fixes = append(fixes, fix{r, 8, pos})
				traf.kids = append(traf.kids, r)
				traf.kids = append(traf.kids, fgExtra(w.Dev(fgExtras))...)
			}
			moof.kids = append(moof.kids, traf)
		}
		root.kids = append(root.kids, moof)
		mid := fgExtra(w.Dev(fgExtras))
		root.kids = append(root.kids, mid...)
		mdat := leaf("mdat", data)
		mdat.large = w.Dev(2) == 1
		at := len(moof.bytes())
		for _, m := range mid {
			at += len(m.bytes())
		}
		at += 8
		if mdat.large {
			at += 8
		}
		for _, f := range fixes {
			copy(f.n.pre[f.at:], u32b(uint32(at+f.pos)))
		}
		root.kids = append(root.kids, mdat)
	}
	switch k := w.Dev(fgExtras + 1); {
	case k < fgExtras:
		root.kids = append(root.kids, fgExtra(k)...)
	default:
		root.kids = append(root.kids, &bnode{typ: "mfra", kids: []*bnode{leaf("tfra", u32b(1<<24, 1, 0, 0)), leaf("mfro", u32b(0, 40))}})
	}
	out = bfile{root}.bytes()
	return want, out
}

// fgInitTree is an init segment as a tree; the codec boxes are those of the package, checked by M01.
func fgInitTree(w *kit.W, tr []*mpTrk) bfile {
	in := &fmp4.Init{}
	for i, m := range tr {
		in.Tracks = append(in.Tracks, &fmp4.InitTrack{ID: 5 + i, TimeScale: uint32(1000 + i), Codec: m.codec})
	}
	var buf seekablebuffer.Buffer
	err := in.Marshal(&buf)
	w.Check(err == nil, "foreign-marshal", "%v", err)
	l, err := mboxParse(buf.Bytes(), 0)
	w.Check(err == nil, "foreign-parse", "%v", err)
	return bfile{&bnode{kids: bnodes(l)}}
}

func (n *bnode) insert(i int, k ...*bnode) {
	n.kids = append(n.kids[:i:i], append(k, n.kids[i:]...)...)
}

func (n *bnode) index(typ string) int {
	for i, k := range n.kids {
		if k.typ == typ {
			return i
		}
	}
	return -1
}

// fgDescr is a descriptor of ISO 14496-1 with a length of n bytes.
func fgDescr(tag byte, n int, b ...[]byte) []byte {
	body := bytes.Join(b, nil)
	o := []byte{tag}
	for i := n - 1; i >= 0; i-- {
		x := byte(len(body)>>(7*i)) & 0x7F
		if i > 0 {
			x |= 0x80
		}
		o = append(o, x)
	}
	return append(o, body...)
}

func fgInit(w *kit.W, tr []*mpTrk, few bool, captions int) ([]byte, []string) {
	extras, uds := []int{1, 2, 3, 4, 5, 6}, []int{1, 2, 3, 4, 5, 6}
	if few {
		extras, uds = []int{5}, []int{3, 4}
	}
	var ud []string
	t := fgInitTree(w, tr)
	moov := t.root.kids[1]
	// extra boxes inside the containers that a reader goes through
	for _, p := range t.list() {
		first := 0
		switch p.n.typ {
		case "moov", "trak": // after the header
			first = 1
		case "mdia", "minf", "stbl", "mvex", "dinf":
		case "avc1", "hvc1", "vp09", "av01", "mp4v", "mp4a", "Opus", "fLaC", "ac-3", "ec-3", "ipcm":
		default:
			continue
		}
		n := len(p.n.kids)
		if k := w.Dev((n-first+1)*len(extras) + 1); k > 0 {
			k--
			p.n.insert(first+k/len(extras), fgExtra(extras[k%len(extras)])...)
		}
	}
	meta := func() *bnode {
		return &bnode{typ: "meta", pre: u32b(0), kids: []*bnode{leaf("hdlr", u32b(0, 0), []byte("mdir"), make([]byte, 13)), {typ: "ilst", kids: []*bnode{{typ: "\xa9too", kids: []*bnode{leaf("data", u32b(1, 0), []byte("muxer"))}}}}}}
	}
	// user data
	udta := func(k int) []*bnode {
		return [][]*bnode{
			nil,
			{{typ: "udta"}},
			{{typ: "udta", kids: []*bnode{leaf("name", []byte("track"))}}},
			{{typ: "udta", kids: []*bnode{leaf("cprt", u32b(0), []byte{0x55, 0xC4}, []byte("me\x00"))}}},
			{{typ: "udta", kids: []*bnode{meta()}}},
			{{typ: "udta", kids: []*bnode{leaf("zzzz", pat(5, 1)), leaf("free")}}},
			{meta()},
		}[k]
	}
	if k := w.Dev(len(moov.kids)*len(uds) + 1); k > 0 {
		k--
		x := udta(uds[k%len(uds)])
		moov.insert(1+k/len(uds), x...)
		if x[0].typ == "udta" {
			for _, y := range x[0].kids {
				ud = append(ud, y.typ)
			}
		}
	}
	for _, k := range moov.kids {
		if k.typ == "trak" {
			if x := w.Dev(len(k.kids)*len(uds) + 1); x > 0 {
				x--
				k.insert(1+x/len(uds), udta(uds[x%len(uds)])...)
			}
		}
	}
	// movie extends box before the tracks
	if w.Dev(2) == 1 {
		i := moov.index("mvex")
		x := moov.kids[i]
		moov.kids = append(moov.kids[:i:i], moov.kids[i+1:]...)
		x.insert(0, leaf("mehd", u32b(1<<24, 0, 0)))
		moov.insert(1, x)
	}
	if w.Dev(2) == 1 {
		moov.insert(1, leaf("iods", u32b(0), []byte{0x10, 0x80, 0x80, 0x80, 0x07, 0, 0x4F, 0xFF, 0xFF, 0x0F, 0x7F, 0xFF}))
	}
	if w.Dev(2) == 1 {
		moov.kids = append(moov.kids, leaf("pssh", u32b(0), pat(16, 1), u32b(4, 0)))
	}
	// 64-bit versions of the headers
	if w.Dev(2) == 1 {
		m := moov.kids[moov.index("mvhd")]
		m.pre = append(append(u32b(1<<24, 0, 1, 0, 2), m.pre[12:16]...), append(u32b(0, 0), m.pre[20:]...)...)
	}
	trk := -1
	for i, p := range moov.kids {
		if p.typ != "trak" {
			continue
		}
		trk++
		if w.Dev(2) == 1 {
			k := p.kids[0]
			k.pre = append(append(u32b(1<<24|3, 0, 1, 0, 2), k.pre[12:20]...), append(u32b(0, 0), k.pre[24:]...)...)
		}
		mdia := p.kids[p.index("mdia")]
		if w.Dev(2) == 1 {
			k := mdia.kids[mdia.index("mdhd")]
			k.pre = append(append(u32b(1<<24, 0, 1, 0, 2), k.pre[12:16]...), append(u32b(0, 77), k.pre[20:]...)...)
		}
		if w.Dev(2) == 1 { // handler name
			k := mdia.kids[mdia.index("hdlr")]
			k.pre = append(k.pre[:24:24], "another name of a handler\x00"...)
		}
		if w.Dev(2) == 1 { // the handler comes before the header
			a, b := mdia.index("mdhd"), mdia.index("hdlr")
			mdia.kids[a], mdia.kids[b] = mdia.kids[b], mdia.kids[a]
		}
		if w.Dev(2) == 1 {
			p.insert(1, &bnode{typ: "edts", kids: []*bnode{leaf("elst", u32b(0, 1, 0, 1024, 0x10000))}})
		}
		minf := mdia.kids[mdia.index("minf")]
		stbl := minf.kids[minf.index("stbl")]
		if w.Dev(2) == 1 { // 64-bit chunk offsets
			stbl.kids[stbl.index("stco")].typ = "co64"
		}
		if w.Dev(2) == 1 {
			stbl.kids = append(stbl.kids, leaf("sgpd", u32b(1<<24), []byte("roll"), u32b(2, 0)))
		}
		entry := stbl.kids[stbl.index("stsd")].kids[0]
		if m := tr[trk]; m.video {
			if w.Dev(2) == 1 { // compressor name
				copy(entry.pre[42:], "\x0bsome writer")
			}
			switch tr[trk].codec.(type) {
			case *codecs.H264, *codecs.H265, *codecs.AV1, *codecs.MPEG4Video, *codecs.MPEG1Video: // the size is in the configuration
				if w.Dev(2) == 1 {
					binary.BigEndian.PutUint32(entry.pre[24:], 0)
				}
			}
		} else {
			var alts [][3]int // channels, bits, rate
			switch x := m.codec.(type) {
			case *codecs.MPEG4Audio, *codecs.Opus, *codecs.FLAC: // parameters are in the configuration
				alts = [][3]int{{2, 16, 0}, {0, 0, 0}, {1, 8, 44100}}
			case *codecs.AC3:
				alts = [][3]int{{2, 16, x.SampleRate}, {0, 0, x.SampleRate}, {1, 8, 0}}
			case *codecs.EAC3:
				n := x.ChannelCount
				if x.NumDepSub == 0 {
					n = 2
				}
				alts = [][3]int{{n, 16, x.SampleRate}, {n, 0, 0}, {n, 16, 24000}, {n, 16, 22050}, {n, 16, 16000}}
			case *codecs.LPCM:
				alts = [][3]int{{x.ChannelCount, 16, x.SampleRate}, {x.ChannelCount, 0, x.SampleRate}}
			}
			if k := w.Dev(len(alts) + 1); k > 0 {
				a := alts[k-1]
				binary.BigEndian.PutUint16(entry.pre[16:], uint16(a[0]))
				binary.BigEndian.PutUint16(entry.pre[18:], uint16(a[1]))
				binary.BigEndian.PutUint16(entry.pre[24:], uint16(a[2]))
				if x, ok := m.codec.(*codecs.EAC3); ok && k > 2 { // reduced sample rates
					y := *x
					y.SampleRate = a[2]
					m.codec = &y
					entry.kids[entry.index("dec3")].pre[2] |= 0xC0
				}
			}
		}
		// what surrounds the configuration
		ext := []*bnode{leaf("pasp", u32b(1, 1)), leaf("colr", []byte("nclx"), []byte{0, 1, 0, 1, 0, 1, 0}), leaf("btrt", u32b(0, 1000, 1000)), leaf("chnl", pat(12, 1)), leaf("fiel", []byte{1, 0})}
		if k := w.Dev(len(ext)*2 + 1); k > 0 {
			k--
			if k%2 == 0 {
				entry.insert(0, ext[k/2])
			} else {
				entry.kids = append(entry.kids, ext[k/2])
			}
		}
		if k := entry.index("btrt"); k >= 0 && w.Dev(2) == 1 {
			entry.kids = append(entry.kids[:k:k], entry.kids[k+1:]...)
		}
		if entry.typ == "hvc1" && w.Dev(2) == 1 {
			entry.typ = "hev1"
		}
		if k := entry.index("esds"); k >= 0 {
			ln := []int{4, 1, 2, 3}[w.Dev(4)]
			var spec []byte
			m := tr[trk]
			if len(m.spec) > 0 {
				spec = fgDescr(5, max(ln, map[bool]int{true: 2, false: 1}[len(m.spec) > 127]), m.spec)
			}
			st := byte(5)
			if m.video {
				st = 4
			}
			dc := fgDescr(4, max(ln, map[bool]int{true: 2, false: 1}[13+len(spec) > 127]), []byte{m.oti, st<<2 | 1, 0, 6, 0}, u32b(320000, 128000), spec)
			sl := fgDescr(6, ln, []byte{2})
			if w.Dev(2) == 1 {
				sl = fgDescr(6, ln, append([]byte{0, 0x40}, pat(14, 1)...))
			}
			var es []byte
			switch w.Dev(4) {
			case 0:
				es = []byte{0, byte(i), 0}
			case 1: // depends on another stream
				es = []byte{0, byte(i), 0x9F, 0, 1}
			case 2: // URL
				es = append([]byte{0, byte(i), 0x40, 3}, "abc"...)
			case 3: // clock of another stream
				es = []byte{0, byte(i), 0x20, 0, 9}
			}
			body := bytes.Join([][]byte{es, dc, sl}, nil)
			entry.kids[k].pre = append(u32b(0), fgDescr(3, max(ln, map[bool]int{true: 2, false: 1}[len(body) > 127]), body)...)
		}
	}
	if captions >= 0 {
		n := 0
		for _, p := range t.list() {
			if p.n.typ == "stsd" {
				if n == captions {
					p.n.kids = []*bnode{leaf("c608", u32b(0, 1))}
				}
				n++
			}
		}
	}
	// 64-bit sizes
	big := t.list()
	if k := w.Dev(len(big) + 1); k > 0 {
		big[k-1].n.large = true
	}
	switch w.Dev(4) {
	case 1:
		t.root.kids = append(t.root.kids, fgExtra(2)...)
	case 2:
		t.root.insert(1, fgExtra(3)...)
	case 3:
		t.root.kids[0].pre = append([]byte("iso6"), append(u32b(0), "iso6cmfcdash"...)...)
	}
	return t.bytes(), ud
}

func init() {
	kit.Register(&kit.Check{
		ID: "M06",
		Assumptions: []string{
			"data offsets are given for every run and relative to the moof box (default-base-is-moof, as CMAF and HLS require), every moof is followed by its only mdat, each track fragment has a decode time, defaults are in the track fragment (those of the init segment are not known to Parts)",
			"init segments: one sample entry per track of the codecs the package supports, one SPS, PPS and VPS per H264 and H265 track; headers (ftyp, mvhd, tkhd) come first in their container",
		},
		Run: func(c *kit.Ctx) {
			parts := func(w *kit.W, np, nt, nr, ns func() int) {
				want, b := fgParts(w, np, nt, nr, ns)
				w.Ops(1)
				if b == nil {
					w.Step(0)
					return
				}
				w.Input = b
				var got fmp4.Parts
				err := got.Unmarshal(b)
				w.Step(kit.H(b))
				w.Check(err == nil, "foreign-parts", "Parts.Unmarshal: %v", err)
				partsEq(w, "foreign-parts-value", got, want)
			}
			one := func() int { return 1 }
			c.Explore("parts", kit.Opt{MaxDev: kit.T(c, 3, 4), Bound: "one moof, one track, one run of 2 samples; deviations from a plain layout in: boxes before, inside and after the fragment, 64-bit sizes, sequence number, track ID, defaults of duration, size and flags, base, decode time version, sample tables, run version, optional fields, first sample flags, sample values, unused bytes"}, func(w *kit.W) {
				parts(w, one, one, one, func() int { return 2 })
			})
			c.Explore("parts-structure", kit.Opt{MaxDev: kit.T(c, 2, 3), Bound: "1-2 moofs, 1-2 tracks, 1-2 runs of 0-2 samples each; deviations as above"}, func(w *kit.W) {
				np, nt, nr := w.Pick(2)+1, w.Pick(2)+1, w.Pick(2)+1
				if np+nt+nr > 5 {
					w.Step(0)
					return
				}
				parts(w, func() int { return np }, func() int { return nt }, func() int { return nr }, func() int { return []int{1, 0, 2}[w.Dev(3)] })
			})
			c.Explore("missing-boxes", kit.Opt{Bound: "1-2 moofs, 1-3 tracks, 1-2 runs: the sequence number, the track header or the decode time of each of them is missing: an error"}, func(w *kit.W) {
				np, nt, nr := w.Pick(2)+1, w.Pick(3)+1, w.Pick(2)+1
				_, b := fgParts(w, func() int { return np }, func() int { return nt }, func() int { return nr }, func() int { return 1 })
				typ := []string{"mfhd", "tfhd", "tfdt"}[w.Pick(3)]
				at := 0
				for range w.Pick(bytes.Count(b, []byte(typ))) + 1 {
					at += bytes.Index(b[at:], []byte(typ)) + 4
				}
				copy(b[at-4:], "free")
				w.Input = b
				var got fmp4.Parts
				err := got.Unmarshal(b)
				w.Ops(1)
				w.Step(kit.H(b))
				w.Check(err != nil, "foreign-missing", "%s is missing: read as %s", typ, dump(got))
			})
			// captions is the index of a track whose codec is not supported (CEA-608 captions), or -1
			inits := func(w *kit.W, few bool, captions int, kinds ...int) {
				var tr []*mpTrk
				for _, k := range kinds {
					tr = append(tr, mpCodec(k, mpDef, mvDef))
				}
				b, ud := fgInit(w, tr, few, captions)
				ids := make([]int, len(tr))
				for i := range ids {
					ids[i] = i
				}
				if captions >= 0 {
					tr = append(tr[:captions:captions], tr[captions+1:]...)
					ids = append(ids[:captions:captions], ids[captions+1:]...)
				}
				w.Input = b
				var got fmp4.Init
				err := got.Unmarshal(bytes.NewReader(b))
				w.Ops(1)
				w.Step(kit.H(b))
				w.Check(err == nil, "foreign-init", "Init.Unmarshal (%v): %v", kinds, err)
				w.Check(len(got.Tracks) == len(tr), "foreign-tracks", "%d tracks, want %d", len(got.Tracks), len(tr))
				for i, m := range tr {
					g := got.Tracks[i]
					w.Check(g.ID == 5+ids[i] && g.TimeScale == uint32(1000+ids[i]), "foreign-track", "track %d: ID %d, time scale %d", i, g.ID, g.TimeScale)
					mpSameCodec(w, m, g.Codec)
				}
				for _, u := range got.UserData {
					typ := u.GetType().String()
					for len(ud) > 0 && ud[0] != typ && ud[0] != "meta" && ud[0] != "cprt" {
						ud = ud[1:] // of an unknown type
					}
					w.Check(len(ud) > 0 && ud[0] == typ, "foreign-udta", "user data %s, in the movie: %v", typ, ud)
					ud = ud[1:]
				}
				for _, u := range ud {
					w.Check(u != "meta" && u != "cprt", "foreign-udta", "user data %s is missing", u)
				}
			}
			c.Explore("init", kit.Opt{MaxDev: 2, Bound: "one track of every codec; deviations from a plain layout in: skippable boxes (6 kinds) at every position of every container, user data and metadata boxes (6 kinds) at every position of movie and track, movie extends first, header versions, handler names and order, edit lists, 64-bit chunk offsets, sample groups, boxes around the codec configuration, compressor name, sizes, channel counts and rates of sample entries whose codec configuration tells them, reduced sample rates, bitrate box, hev1, descriptor length sizes, optional fields of the elementary stream descriptor, 64-bit box sizes, brands"}, func(w *kit.W) {
				inits(w, false, -1, w.Pick(mKinds))
			})
			c.Explore("init-two", kit.Opt{MaxDev: 1, Bound: "every ordered pair of codecs; deviations as above"}, func(w *kit.W) {
				inits(w, false, -1, w.Pick(mKinds), w.Pick(mKinds))
			})
			c.Explore("init-unsupported", kit.Opt{MaxDev: 1, Bound: "one of two or three tracks has CEA-608 captions, which are not supported: the others, of every codec, are read; deviations as above"}, func(w *kit.W) {
				n := w.Pick(2) + 2
				k := w.Pick(n)
				kinds := make([]int, n)
				x := w.Pick(mKinds)
				for i := range kinds {
					kinds[i] = (x + i*5) % mKinds
				}
				inits(w, false, k, kinds...)
			})
			if c.Thorough() {
				c.Explore("init-few", kit.Opt{MaxDev: 3, Bound: "one track of every codec; deviations as above, with one kind of skippable box and two of user data"}, func(w *kit.W) {
					inits(w, true, -1, w.Pick(mKinds))
				})
				c.Explore("init-two-few", kit.Opt{MaxDev: 2, Bound: "every ordered pair of codecs; deviations as in init-few"}, func(w *kit.W) {
					inits(w, true, -1, w.Pick(mKinds), w.Pick(mKinds))
				})
			}
		},
	})
}
