package props

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/av1"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"

	"verif/mc/kit"
)

func partsDump(ps fmp4.Parts) string {
	var s strings.Builder
	for _, p := range ps {
		fmt.Fprintf(&s, "part %v\n", p.SequenceNumber)
		for _, t := range p.Tracks {
			fmt.Fprintf(&s, "track %v %v\n", t.ID, t.BaseTime)
			for _, x := range t.Samples {
				fmt.Fprintf(&s, "%v %v %v %v\n", x.Duration, x.PTSOffset, x.IsNonSyncSample, kit.H(x.Payload))
			}
		}
	}
	return s.String()
}

// partsIndependent reads parts following the offsets in the file.
func partsIndependent(w *kit.W, b []byte) fmp4.Parts {
	l, err := mboxParse(b, 0)
	w.Check(err == nil, "parts-boxes", "%v", err)
	w.Check(len(l)%2 == 0, "parts-layout", "%d boxes", len(l))
	var out fmp4.Parts
	for i := 0; i < len(l); i += 2 {
		moof, mdat := l[i], l[i+1]
		w.Check(moof.typ == "moof" && mdat.typ == "mdat", "parts-layout", "boxes %s, %s", moof.typ, mdat.typ)
		p := &fmp4.Part{SequenceNumber: be32(mone(w, moof.kids, "mfhd").data, 4)}
		w.Check(moof.kids[0].typ == "mfhd", "parts-mfhd", "mfhd is not the first box")
		used := mdat.off + 8
		for _, tf := range mfind(moof.kids, "traf") {
			t := &fmp4.PartTrack{}
			tfhd := mone(w, tf.kids, "tfhd").data
			w.Check(be32(tfhd, 0) == 0x020000, "parts-tfhd", "tfhd flags %x", be32(tfhd, 0))
			t.ID = int(be32(tfhd, 4))
			tfdt := mone(w, tf.kids, "tfdt").data
			if tfdt[0] == 1 {
				t.BaseTime = be64(tfdt, 4)
			} else {
				t.BaseTime = uint64(be32(tfdt, 4))
			}
			for _, tr := range mfind(tf.kids, "trun") {
				d := tr.data
				fl := be32(d, 0) & 0xFFFFFF
				n := int(be32(d, 4))
				w.Check(fl&1 != 0 && fl&^uint32(0xF01) == 0, "parts-trun", "trun flags %x", fl)
				pos := moof.off + int(int32(be32(d, 8)))
				o := 12
				next := func() uint32 { v := be32(d, o); o += 4; return v }
				for range n {
					s := &fmp4.Sample{}
					if fl&0x100 != 0 {
						s.Duration = next()
					}
					sz := 0
					if fl&0x200 != 0 {
						sz = int(next())
					}
					if fl&0x400 != 0 {
						s.IsNonSyncSample = next()&0x10000 != 0
					}
					if fl&0x800 != 0 {
						v := next()
						w.Check(d[0] == 1 || int32(v) >= 0, "parts-cts", "negative offset in a version 0 trun")
						s.PTSOffset = int32(v)
					}
					w.Check(pos >= mdat.off+8 && pos+sz <= mdat.off+mdat.size, "parts-offset", "sample at %d+%d, mdat holds %d+%d", pos, sz, mdat.off+8, mdat.size-8)
					w.Check(pos == used, "parts-overlap", "sample at %d, previous data ends at %d", pos, used)
					s.Payload = b[pos : pos+sz]
					pos += sz
					used = pos
					t.Samples = append(t.Samples, s)
				}
				w.Check(o == len(d), "parts-trun", "%d bytes after the entries of trun", len(d)-o)
			}
			p.Tracks = append(p.Tracks, t)
		}
		w.Check(used == mdat.off+mdat.size, "parts-mdat", "mdat ends at %d, its data at %d", mdat.off+mdat.size, used)
		out = append(out, p)
	}
	return out
}

func partsEq(w *kit.W, key string, got, want fmp4.Parts) {
	w.Check(len(got) == len(want), key, "%d parts, want %d", len(got), len(want))
	for i := range want {
		w.Check(deepEq(got[i], want[i]), key, "part %d: %s", i, diff(got[i], want[i]))
	}
}

func partsCheck(w *kit.W, ps fmp4.Parts) {
	before := partsDump(ps)
	var buf seekablebuffer.Buffer
	err := ps.Marshal(&buf)
	w.Check(err == nil, "parts-marshal", "Parts.Marshal: %v", err)
	w.Check(partsDump(ps) == before, "parts-marshal-changes", "Marshal changed the value")
	byts := clone(buf.Bytes())
	partsEq(w, "parts-independent", partsIndependent(w, byts), ps)

	var cat []byte
	for _, p := range ps {
		var b seekablebuffer.Buffer
		err = p.Marshal(&b)
		w.Check(err == nil, "part-marshal", "Part.Marshal: %v", err)
		cat = append(cat, b.Bytes()...)
	}
	w.Check(bytes.Equal(cat, byts), "parts-concat", "parts written one at a time differ from parts written together")

	var out fmp4.Parts
	err = out.Unmarshal(byts)
	w.Check(err == nil, "parts-unmarshal", "Parts.Unmarshal: %v", err)
	partsEq(w, "parts-roundtrip", out, ps)
	w.Ops(3)
	w.Step(kit.H(byts))
}

// headWriter keeps the first bytes of what is written.
type headWriter struct {
	head [1 << 16]byte
	pos  int64
	size int64
}

func (h *headWriter) Write(p []byte) (int, error) {
	if h.pos < int64(len(h.head)) {
		copy(h.head[h.pos:], p)
	}
	h.pos += int64(len(p))
	h.size = max(h.size, h.pos)
	return len(p), nil
}

func (h *headWriter) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += h.pos
	case io.SeekEnd:
		off += h.size
	}
	h.pos = off
	return off, nil
}

func init() {
	kit.Register(&kit.Check{
		ID: "M02",
		Assumptions: []string{
			"at most 19200 samples per track and part, the limit of the reader",
			"an independent reader follows data offsets relative to the moof box (default-base-is-moof) and takes absent optional fields as zero",
		},
		Run: func(c *kit.Ctx) {
			sizes := []int{3, 0, 1, 255, 256, 65536}
			sample := func(w *kit.W, n byte) *fmp4.Sample {
				s := &fmp4.Sample{Duration: 90, Payload: pat(sizes[w.Dev(len(sizes))], n)}
				s.Duration = DevOfU(w, 90, 0, 1, 1<<31, 1<<32-1)
				s.PTSOffset = int32(DevOfU(w, 0, 1, 1<<32-1, 1<<31-1, 1<<31))
				s.IsNonSyncSample = w.Dev(2) == 1
				return s
			}
			run := func(name string, dev, np, nt, ns int) {
				c.Explore(name, kit.Opt{MaxDev: dev, Bound: "every number of parts, tracks and samples; every field at every boundary value, up to the stated number of fields at once"}, func(w *kit.W) {
					var ps fmp4.Parts
					seed := byte(1)
					for range w.Pick(np) + 1 {
						p := &fmp4.Part{SequenceNumber: DevOfU(w, 5, 0, 1<<31, 1<<32-1)}
						for ti := range w.Pick(nt + 1) {
							t := &fmp4.PartTrack{ID: int(DevOfU(w, uint32(ti)+1, 0, 7, 1<<32-1))}
							t.BaseTime = []uint64{90000, 0, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1<<64 - 1}[w.Dev(6)]
							for range w.Pick(ns + 1) {
								t.Samples = append(t.Samples, sample(w, seed))
								seed += 40
							}
							p.Tracks = append(p.Tracks, t)
						}
						ps = append(ps, p)
					}
					partsCheck(w, ps)
				})
			}
			run("fields", kit.T(c, 2, 3), 1, 2, 3)
			run("structure", kit.T(c, 1, 2), 2, 2, 2)
			c.Explore("all-kinds", kit.Opt{Bound: "one track, every list of up to 4 samples out of 8 kinds (sync or not, with and without offset, empty or not)"}, func(w *kit.W) {
				t := &fmp4.PartTrack{ID: 1}
				for range w.Pick(5) {
					k := w.Pick(8)
					t.Samples = append(t.Samples, &fmp4.Sample{Duration: uint32(k), IsNonSyncSample: k&1 != 0, PTSOffset: int32(k&2) * -50, Payload: pat(k>>2*7, byte(k))})
				}
				partsCheck(w, fmp4.Parts{{SequenceNumber: 1, Tracks: []*fmp4.PartTrack{t}}})
			})
			many := []int{255, 256, 1000, 19199, 19200}
			c.Range("many", uint64(len(many)*2), "numbers of samples up to the limit of the reader, with and without payload", func(w *kit.W) {
				t := &fmp4.PartTrack{ID: 1}
				for i := range many[w.Index/2] {
					t.Samples = append(t.Samples, &fmp4.Sample{Duration: uint32(i), IsNonSyncSample: i%3 != 0, PTSOffset: int32(i % 5), Payload: pat(int(w.Index%2)*(i%4), byte(i))})
				}
				partsCheck(w, fmp4.Parts{{SequenceNumber: 1, Tracks: []*fmp4.PartTrack{t}}, {SequenceNumber: 2, Tracks: []*fmp4.PartTrack{t, t}}})
			})
			longs := []int{300, 1100, 5000, 19200}
			c.Explore("one-differs", kit.Opt{Bound: fmt.Sprintf("%v samples of which one, at 9 positions, differs from all others in one field (sync or not sync, offset, duration, size)", longs)}, func(w *kit.W) {
				n := longs[w.Pick(len(longs))]
				at := []int{0, 1, 255, 256, 257, n / 2, n - 257, n - 2, n - 1}[w.Pick(9)]
				kind := w.Pick(7)
				t := &fmp4.PartTrack{ID: 1}
				for i := range n {
					s := &fmp4.Sample{Duration: 3000, IsNonSyncSample: kind == 0, Payload: pat(i%3, byte(i))}
					if i == at {
						switch kind {
						case 0, 1:
							s.IsNonSyncSample = !s.IsNonSyncSample
						case 2:
							s.PTSOffset = -5
						case 3:
							s.Duration = 1 << 16
						case 4:
							s.Duration = 0
						case 5:
							s.Payload = pat(65537, 9)
						case 6:
							s.Duration, s.PTSOffset, s.IsNonSyncSample = 3001, 1, true
						}
					}
					t.Samples = append(t.Samples, s)
				}
				partsCheck(w, fmp4.Parts{{SequenceNumber: 1, Tracks: []*fmp4.PartTrack{t, {ID: 2, Samples: []*fmp4.Sample{{Duration: 1, Payload: []byte{1}}}}}}})
			})
			const block = 1 << 26
			zeros := make([]byte, block)
			edge := []int{-1, 0, 1, 1 << 20, -1 << 10}
			c.Explore("limits", kit.Opt{Serial: true, Bound: "two tracks, the data of the second one is up to 1 KiB before or 1 MiB beyond 2^31-1 bytes from the beginning of the part: it is at the offset given, or an error is returned; one track of 2^31 bytes (thorough: and more than 2^32)"}, func(w *kit.W) {
				k := w.Pick(len(edge) + kit.T(c, 1, 2))
				first := &fmp4.PartTrack{ID: 1}
				second := &fmp4.PartTrack{ID: 2, Samples: []*fmp4.Sample{{Duration: 1, Payload: []byte{1, 2, 3}}}}
				if k >= len(edge) {
					second.Samples[0].Payload = nil
				}
				// number of samples does not depend on the size, and so neither does that of moof
				fill := func(n int) {
					first.Samples = nil
					for range 65 {
						m := min(n, block)
						first.Samples = append(first.Samples, &fmp4.Sample{Duration: 1, Payload: zeros[:m]})
						n -= m
					}
				}
				part := func() *fmp4.Part { return &fmp4.Part{Tracks: []*fmp4.PartTrack{first, second}} }
				if k >= len(edge) {
					part = func() *fmp4.Part { return &fmp4.Part{Tracks: []*fmp4.PartTrack{second, first}} }
				}
				fill(0)
				var buf seekablebuffer.Buffer
				err := part().Marshal(&buf)
				w.Check(err == nil, "parts-marshal", "Part.Marshal: %v", err)
				moof := int(be32(buf.Bytes(), 0))
				n := []int{1 << 31, 65 * block}[max(k-len(edge), 0)]
				if k < len(edge) {
					n = 1<<31 - 1 - moof - 8 + edge[k]
				}
				fill(n)
				var out headWriter
				err = part().Marshal(&out)
				w.Ops(2)
				w.Step(kit.H(k))
				if k < len(edge) && edge[k] > 0 || n > 1<<32 {
					w.Check(err != nil, "parts-too-big", "data %d bytes from the beginning of the part written without error", n+moof+8)
					return
				}
				w.Check(err == nil, "parts-marshal", "%d bytes: Part.Marshal: %v", n, err)
				l, err := mboxParse(out.head[:moof], 0)
				w.Check(err == nil && len(l) == 1, "parts-boxes", "%v", err)
				pos := []int{moof + 8, moof + 8 + n}
				if k >= len(edge) {
					pos[1] = moof + 8
				}
				for i, tr := range mfind(l[0].kids, "traf") {
					d := mone(w, tr.kids, "trun").data
					w.Check(int(be32(d, 8)) == pos[i], "parts-offset", "track %d: data offset %d, data at %d", i, be32(d, 8), pos[i])
				}
			})
			c.Range("many-parts", 300+300, "1 to 300 parts of one track, one part of 1 to 300 tracks", func(w *kit.W) {
				n := int(w.Index%300) + 1
				var ps fmp4.Parts
				for i := range n {
					t := &fmp4.PartTrack{ID: i%5 + 1, BaseTime: uint64(i) * 3000}
					if w.Index >= 300 {
						t.ID = i + 1
					}
					for k := range i % 4 {
						t.Samples = append(t.Samples, &fmp4.Sample{Duration: uint32(i + k), IsNonSyncSample: k > 0, Payload: pat(k+i%3, byte(i))})
					}
					if w.Index < 300 || i == 0 {
						ps = append(ps, &fmp4.Part{SequenceNumber: uint32(i)})
					}
					p := ps[len(ps)-1]
					p.Tracks = append(p.Tracks, t)
				}
				partsCheck(w, ps)
			})
			c.Explore("access-units", kit.Opt{Bound: "every access unit of up to 3 units out of every NAL unit type or OBU type, filled into a sample and taken out again"}, func(w *kit.W) {
				kind := w.Pick(3)
				n := kit.T(c, 2, 3)
				var au [][]byte
				for i := range w.Pick(n) + 1 {
					switch kind {
					case 0:
						au = append(au, append([]byte{byte(w.Pick(32)) | 0x60}, pat(i*3, 9)...))
					case 1:
						au = append(au, append([]byte{byte(w.Pick(64) << 1), 1}, pat(i*3, 9)...))
					case 2:
						au = append(au, append([]byte{byte(w.Pick(16) << 3)}, []byte{0x10, 0x00, 0x5A}[w.Pick(3)]))
						au[i] = append(au[i], pat(i*2, 7)...)
					}
				}
				in := cloneUnits(au)
				off := []int32{0, 1, -1, 1<<31 - 1, -1 << 31}[w.Pick(5)]
				s := &fmp4.Sample{Duration: 77, PTSOffset: 5, IsNonSyncSample: true}
				var err error
				var got [][]byte
				ra := false
				switch kind {
				case 0:
					err = s.FillH264(off, au)
					ra = h264.IsRandomAccess(au)
					if err == nil {
						got, err = s.GetH264()
					}
				case 1:
					err = s.FillH265(off, au)
					ra = h265.IsRandomAccess(au)
					if err == nil {
						got, err = s.GetH265()
					}
				case 2:
					off = 5
					err = s.FillAV1(au)
					ra = av1.IsRandomAccess2(au)
					if err == nil {
						got, err = s.GetAV1()
					}
				}
				w.Ops(2)
				w.Step(kit.H(s.Payload, s.IsNonSyncSample, int(s.PTSOffset)))
				w.Check(err == nil, "sample-fill", "%v", err)
				w.Check(eq(in, au), "sample-fill-input", "the access unit was changed")
				w.Check(eq(got, in), "sample-get", "got %x, filled with %x", got, in)
				// the deprecated constructors
				var old *fmp4.Sample
				oldOff := off
				switch kind {
				case 0:
					old, err = fmp4.NewSampleH264(off, au)
				case 1:
					old, err = fmp4.NewSampleH265(off, au)
				case 2:
					old, err = fmp4.NewSampleAV12(au)
					oldOff = 0
				}
				w.Check(err == nil && eq(old, &fmp4.Sample{PTSOffset: oldOff, IsNonSyncSample: !ra, Payload: s.Payload}), "sample-new", "the deprecated constructor returns %+v %v, Fill gave %+v", old, err, s)
				w.Check(s.Duration == 77 && s.PTSOffset == off && s.IsNonSyncSample == !ra, "sample-fields", "sample fields: %d %d %v", s.Duration, s.PTSOffset, s.IsNonSyncSample)
			})
		},
	})
}
