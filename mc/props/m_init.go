package props

import (
	"bytes"

	amp4 "github.com/abema/go-mp4"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/flac"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mp4/codecs"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"

	"verif/mc/kit"
)

// mpSameCodec compares a codec that was read with the one that was written.
func mpSameCodec(w *kit.W, m *mpTrk, got codecs.Codec) {
	if x, ok := m.codec.(*codecs.LPCM); ok && x.SampleRate > 65535 {
		if g, ok := got.(*codecs.LPCM); ok && g.SampleRate == x.SampleRate&0xFFFF {
			y := *g
			y.SampleRate = x.SampleRate
			got = &y
			m.late = []string{"lpcm-rate", "LPCM with a sample rate above 65535 is read back with another one"}
		}
	}
	w.Check(deepEq(got, m.codec), "mp4-codec", "codec: %s", diff(got, m.codec))
}

func initCheck(w *kit.W, tr []*mpTrk, ids []uint32, ts []uint32, br [][2]uint32, ud []amp4.IBox) {
	in := &fmp4.Init{UserData: ud}
	for i, m := range tr {
		in.Tracks = append(in.Tracks, &fmp4.InitTrack{ID: int(ids[i]), TimeScale: ts[i], MaxBitrate: br[i][0], AvgBitrate: br[i][1], Codec: m.codec})
	}
	before := dump(in)
	var buf seekablebuffer.Buffer
	err := in.Marshal(&buf)
	w.Check(err == nil, "init-marshal", "Init.Marshal: %v", err)
	w.Check(dump(in) == before, "init-marshal-changes", "Init.Marshal changed the value")
	byts := clone(buf.Bytes())

	// independent reader
	l, err := mboxParse(byts, 0)
	w.Check(err == nil, "init-boxes", "%v", err)
	w.Check(len(l) == 2 && l[0].typ == "ftyp" && l[1].typ == "moov", "init-layout", "top boxes")
	moov := l[1].kids
	w.Check(be32(mone(w, moov, "mvhd").data, 12) != 0, "init-mvhd", "time scale 0")
	traks := mfind(moov, "trak")
	trex := mfind(moov, "mvex", "trex")
	w.Check(len(traks) == len(tr) && len(trex) == len(tr), "init-traks", "%d trak, %d trex", len(traks), len(trex))
	for i, m := range tr {
		mx, av := br[i][0], br[i][1]
		def := uint32(128825)
		if m.video {
			def = 1000000
		}
		if mx == 0 {
			mx = def
		}
		if av == 0 {
			av = def
		}
		mpCheckTrak(w, traks[i], m, ids[i], ts[i], mx, av)
		btrt := mone(w, traks[i].kids, "mdia", "minf", "stbl", "stsd", "*", "btrt").data
		w.Check(be32(btrt, 4) == mx && be32(btrt, 8) == av, "init-btrt", "btrt %s", hx(btrt))
		for _, n := range []string{"stts", "stsc", "stco"} {
			w.Check(be32(mone(w, traks[i].kids, "mdia", "minf", "stbl", n).data, 4) == 0, "init-tables", "%s is not empty", n)
		}
		w.Check(be32(mone(w, traks[i].kids, "mdia", "minf", "stbl", "stsz").data, 8) == 0, "init-tables", "stsz is not empty")
		w.Check(be32(trex[i].data, 4) == ids[i] && be32(trex[i].data, 8) == 1, "init-trex", "trex %s", hx(trex[i].data))
	}

	var out fmp4.Init
	err = out.Unmarshal(bytes.NewReader(byts))
	w.Check(err == nil, "init-unmarshal", "Init.Unmarshal: %v", err)
	w.Check(len(out.Tracks) == len(tr), "init-tracks", "%d tracks", len(out.Tracks))
	same := true
	for i, m := range tr {
		g := out.Tracks[i]
		w.Check(uint32(g.ID) == ids[i] && g.TimeScale == ts[i], "init-track", "ID %d, time scale %d", g.ID, g.TimeScale)
		mpSameCodec(w, m, g.Codec)
		same = same && br[i] == [2]uint32{} && len(m.late) == 0
	}
	w.Check(len(out.UserData) == len(ud), "init-udta", "%d user data boxes, %d written", len(out.UserData), len(ud))
	for i := range ud {
		w.Check(deepEq(out.UserData[i], ud[i]), "init-udta", "user data: %s", diff(out.UserData[i], ud[i]))
	}
	if same {
		var buf2 seekablebuffer.Buffer
		err = out.Marshal(&buf2)
		w.Check(err == nil && bytes.Equal(buf2.Bytes(), byts), "init-again", "writing the result again gives something else (%v)", err)
	}
	w.Ops(3)
	w.Step(kit.H(byts))
	for _, m := range tr {
		if m.late != nil {
			w.Fail(m.late[0], "%s", m.late[1])
		}
	}
}

func init() {
	kit.Register(&kit.Check{
		ID: "M01",
		Assumptions: []string{
			"bitrates are only written; they are compared on the wire",
			"configuration records are those of ISO 14496-15, 14496-14, 23003-5, ETSI TS 102 366, the AV1, VP9, Opus and FLAC mappings with the constants the library uses where the codec does not carry the value (VP9 level 1, Opus pre-skip 312 and mapping family 0, 800x600 for MPEG-1/4 video); the temporal layers noted in hvcC are not checked",
			"sample rates above 65535 do not fit into a sample entry; for codecs that code their rate elsewhere the field is not checked",
		},
		Run: func(c *kit.Ctx) {
			one := func(w *kit.W, m *mpTrk, id, ts uint32, br [2]uint32) {
				initCheck(w, []*mpTrk{m}, []uint32{id}, []uint32{ts}, [][2]uint32{br}, nil)
			}
			c.Explore("parameters", kit.Opt{MaxDev: kit.T(c, 2, 3), Bound: "every codec, every field away from its default (up to the stated number at once) at every boundary value, IDs, time scales, bitrates"}, func(w *kit.W) {
				m := mpCodec(w.Pick(mKinds), w.Dev, devVals(w))
				if m == nil {
					return
				}
				id := DevOfU(w, 1, 2, 255, 65535, 65536, 1<<31, 1<<32-1)
				ts := DevOfU(w, 90000, 1, 1000, 1<<31, 1<<32-1)
				br := [2]uint32{DevOfU(w, 0, 1, 1<<32-1), DevOfU(w, 0, 1, 1<<32-1)}
				one(w, m, id, ts, br)
			})
			// products over all values of the small codecs
			full := func(kind int) {
				c.Explore("all-"+mNames[kind], kit.Opt{Bound: "every combination of the boundary values"}, func(w *kit.W) {
					m := mpCodec(kind, w.Pick, func(d uint64, alts ...uint64) uint64 {
						k := w.Pick(len(alts) + 1)
						if k == 0 {
							return d
						}
						return alts[k-1]
					})
					if m != nil {
						one(w, m, 1, 90000, [2]uint32{})
					}
				})
			}
			for _, k := range []int{mVP9, mMJPEG, mOpus, mAAC, mMP1A, mAC3, mLPCM, mM4V, mM1V} {
				full(k)
			}
			if c.Thorough() {
				full(mEAC3)
				full(mFLAC)
			}
			n := kit.T(c, 2, 3)
			c.Explore("several", kit.Opt{Bound: "every list of up to 2 tracks (3 in the thorough run) of every codec with their IDs in any order"}, func(w *kit.W) {
				var tr []*mpTrk
				var ids, ts []uint32
				var br [][2]uint32
				for i := range w.Pick(n) + 1 {
					tr = append(tr, mpCodec(w.Pick(mKinds), mpDef, mvDef))
					ids = append(ids, []uint32{2, 1, 7}[i])
					ts = append(ts, []uint32{90000, 48000, 1000}[i])
					br = append(br, [2]uint32{})
				}
				initCheck(w, tr, ids, ts, br, nil)
			})
			c.Range("many-tracks", 80*4, "1 to 80 tracks of all codecs in turn, 4 starting codecs", func(w *kit.W) {
				var tr []*mpTrk
				var ids, ts []uint32
				var br [][2]uint32
				for i := range int(w.Index/4) + 1 {
					tr = append(tr, mpCodec((i+int(w.Index%4)*5)%mKinds, mpDef, mvDef))
					ids = append(ids, uint32(i)*3+1)
					ts = append(ts, uint32(i)*1000+1)
					br = append(br, [2]uint32{})
				}
				initCheck(w, tr, ids, ts, br, nil)
			})
			c.Explore("user-data", kit.Opt{Bound: "every list of up to 3 user data boxes after every codec"}, func(w *kit.W) {
				m := mpCodec(w.Pick(mKinds), mpDef, mvDef)
				var ud []amp4.IBox
				for range w.Pick(4) {
					data := Of3(w)
					switch w.Pick(3) {
					case 0:
						ud = append(ud, &amp4.Free{Data: data})
					case 1:
						ud = append(ud, &amp4.Udta3GppString{AnyTypeBox: amp4.AnyTypeBox{Type: amp4.StrToBoxType("titl")}, Language: [3]byte{5, 14, 7}, Data: data})
					case 2:
						ud = append(ud, &amp4.Udta3GppString{AnyTypeBox: amp4.AnyTypeBox{Type: amp4.StrToBoxType("cprt")}, Language: [3]byte{21, 14, 4}, Data: data})
					}
				}
				initCheck(w, []*mpTrk{m}, []uint32{1}, []uint32{90000}, [][2]uint32{{}}, ud)
			})
			mis := []fmp4.InitTrack{}
			add := func(c codecs.Codec) { mis = append(mis, fmp4.InitTrack{ID: 1, TimeScale: 90000, Codec: c}) }
			h := mpCodec(mH264, mpDef, mvDef).codec.(*codecs.H264)
			h5 := mpCodec(mH265, mpDef, mvDef).codec.(*codecs.H265)
			asc := mpCodec(mAAC, mpDef, mvDef).codec.(*codecs.MPEG4Audio).Config
			big := pat(65536, 1)
			add(nil)
			add(&codecs.AV1{})
			add(&codecs.VP9{})
			add(&codecs.VP9{Width: 65536, Height: 2, BitDepth: 8})
			add(&codecs.VP9{Width: 2, Height: 65536, BitDepth: 8})
			add(&codecs.VP9{Width: 2, BitDepth: 8})
			add(&codecs.MJPEG{})
			add(&codecs.MJPEG{Width: 65536, Height: 2})
			add(&codecs.MJPEG{Width: 2, Height: 65536})
			add(&codecs.MJPEG{Width: 2})
			add(&codecs.H264{SPS: h.SPS})
			add(&codecs.H264{PPS: h.PPS})
			add(&codecs.H264{SPS: h.SPS, PPS: big})
			add(&codecs.H265{VPS: h5.VPS, SPS: h5.SPS})
			add(&codecs.H265{VPS: h5.VPS, PPS: h5.PPS})
			add(&codecs.H265{SPS: h5.SPS, PPS: h5.PPS})
			add(&codecs.H265{VPS: big, SPS: h5.SPS, PPS: h5.PPS})
			add(&codecs.H265{VPS: h5.VPS, SPS: h5.SPS, PPS: big})
			add(&codecs.H264{SPS: append(clone(h.SPS), make([]byte, 65536-len(h.SPS))...), PPS: h.PPS})
			add(&codecs.H265{VPS: h5.VPS, SPS: append(clone(h5.SPS), make([]byte, 65536-len(h5.SPS))...), PPS: h5.PPS})
			for i := range h.SPS {
				add(&codecs.H264{SPS: h.SPS[:i], PPS: h.PPS})
			}
			for i := range h5.SPS {
				add(&codecs.H265{VPS: h5.VPS, SPS: h5.SPS[:i], PPS: h5.PPS})
			}
			add(&codecs.H264{SPS: h.PPS, PPS: h.SPS})
			add(&codecs.H265{VPS: h5.VPS, SPS: h5.PPS, PPS: h5.SPS})
			add(&codecs.AV1{SequenceHeader: []byte{0x0A}})
			add(&codecs.MPEG4Video{})
			add(&codecs.MPEG1Video{})
			add(&codecs.Opus{ChannelCount: 256})
			add(&codecs.Opus{ChannelCount: 0x10002})
			add(&codecs.FLAC{})
			add(&codecs.FLAC{StreamInfo: &flac.StreamInfo{SampleRate: 1 << 20, ChannelCount: 2, BitDepth: 16}})
			add(&codecs.LPCM{BitDepth: 272, SampleRate: 48000, ChannelCount: 2})
			add(&codecs.LPCM{BitDepth: 16, SampleRate: 48000, ChannelCount: 65537})
			add(&codecs.MPEG1Audio{SampleRate: 48000, ChannelCount: 65537})
			add(&codecs.AC3{SampleRate: 48000, ChannelCount: 65537})
			add(&codecs.AC3{SampleRate: 96000, ChannelCount: 2})
			add(&codecs.EAC3{SampleRate: 96000, ChannelCount: 2})
			add(&codecs.EAC3{SampleRate: 48000, ChannelCount: 65537})
			for _, f := range []func(a *mpeg4audio.AudioSpecificConfig){
				func(a *mpeg4audio.AudioSpecificConfig) { a.ChannelConfig, a.ChannelCount = 0, 0 },
				func(a *mpeg4audio.AudioSpecificConfig) { a.ChannelConfig, a.ChannelCount = 8, 0 },
				func(a *mpeg4audio.AudioSpecificConfig) { a.ChannelCount = 9 },
			} {
				a := asc
				f(&a)
				add(&codecs.MPEG4Audio{Config: a})
			}
			c.Range("misfits", uint64(len(mis)), "parameters that are missing or do not fit into their fields: an error, or the same parameters back", func(w *kit.W) {
				t := mis[w.Index]
				var buf seekablebuffer.Buffer
				err := fmp4.Init{Tracks: []*fmp4.InitTrack{&t}}.Marshal(&buf)
				w.Ops(1)
				w.Step(kit.H(int(w.Index), err != nil))
				if err != nil {
					return
				}
				var out fmp4.Init
				err = out.Unmarshal(bytes.NewReader(buf.Bytes()))
				w.Check(err == nil, "init-misfit-unreadable", "%s: written without error, reading: %v", dump(t.Codec), err)
				w.Check(deepEq(out.Tracks[0].Codec, t.Codec), "init-misfit-altered", "written without error, %s", diff(out.Tracks[0].Codec, t.Codec))
			})
			c.Explore("aac-channels", kit.Opt{Bound: "MPEG-4 audio with every number of channels given as configuration, count or both: the same file"}, func(w *kit.W) {
				cfg := uint8(w.Pick(7) + 1)
				at := func(a mpeg4audio.AudioSpecificConfig) ([]byte, []byte) {
					var buf seekablebuffer.Buffer
					err := fmp4.Init{Tracks: []*fmp4.InitTrack{{ID: 1, TimeScale: 48000, Codec: &codecs.MPEG4Audio{Config: a}}}}.Marshal(&buf)
					w.Check(err == nil, "init-channels", "Init.Marshal with %+v: %v", a, err)
					var buf2 bytes.Buffer
					err = pmp4.Presentation{Tracks: []*pmp4.Track{{ID: 1, TimeScale: 48000, Codec: &codecs.MPEG4Audio{Config: a}}}}.Marshal(&buf2)
					w.Check(err == nil, "init-channels", "Presentation.Marshal with %+v: %v", a, err)
					return clone(buf.Bytes()), buf2.Bytes()
				}
				a := asc
				a.ChannelConfig, a.ChannelCount = cfg, aacChannels(cfg)
				want, want2 := at(a)
				if w.Bool() {
					a.ChannelConfig = 0
				} else {
					a.ChannelCount = 0
				}
				got, got2 := at(a)
				w.Ops(4)
				w.Step(kit.H(got))
				w.Check(bytes.Equal(got, want), "init-channels", "Init: %+v is written differently than with both fields", a)
				w.Check(bytes.Equal(got2, want2), "init-channels", "Presentation: %+v is written differently than with both fields", a)
			})
		},
	})
}

// DevOfU picks one of the values; the first is the default.
func DevOfU(w *kit.W, vals ...uint32) uint32 { return vals[w.Dev(len(vals))] }

// Of3 picks one of three byte strings.
func Of3(w *kit.W) []byte { return [][]byte{{}, {1}, pat(300, 5)}[w.Pick(3)] }
