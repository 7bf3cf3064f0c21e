package props

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"sort"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/mp4/codecs"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"

	"verif/mc/kit"
)

type presSample struct {
	dur     uint32
	pts     int32
	nonSync bool
	data    []byte
	same    int // index+1 of the previous sample of the track whose object is used again
}

type presTrack struct {
	m   *mpTrk
	id  uint32
	ts  uint32
	off int32
	ss  []presSample
}

func (t *presTrack) sum() uint64 {
	n := uint64(0)
	for _, s := range t.ss {
		n += uint64(s.dur)
	}
	return n
}

// tooLong tells whether durations of the track in milliseconds need more than 32 bits.
func (t *presTrack) tooLong() bool {
	n := new(big.Int).SetUint64(t.sum())
	n.Add(n, big.NewInt(max(int64(t.off), -int64(t.off))))
	n.Mul(n, big.NewInt(1000))
	return n.Div(n, big.NewInt(int64(t.ts))).BitLen() > 32
}

func presMake(tr []*presTrack, called *[][2]int) *pmp4.Presentation {
	p := &pmp4.Presentation{}
	for i, t := range tr {
		x := &pmp4.Track{ID: int(t.id), TimeScale: t.ts, TimeOffset: t.off, Codec: t.m.codec}
		for j, s := range t.ss {
			if s.same > 0 {
				x.Samples = append(x.Samples, x.Samples[s.same-1])
				continue
			}
			x.Samples = append(x.Samples, &pmp4.Sample{
				Duration: s.dur, PTSOffset: s.pts, IsNonSyncSample: s.nonSync, PayloadSize: uint32(len(s.data)),
				GetPayload: func() ([]byte, error) {
					if called != nil {
						*called = append(*called, [2]int{i, j})
					}
					return s.data, nil
				},
			})
		}
		p.Tracks = append(p.Tracks, x)
	}
	return p
}

// presIndependent follows the tables of the file.
func presIndependent(w *kit.W, b []byte, tr []*presTrack) {
	l, err := mboxParse(b, 0)
	w.Check(err == nil, "pres-boxes", "%v", err)
	w.Check(len(l) == 3 && l[0].typ == "ftyp" && l[1].typ == "moov" && l[2].typ == "mdat", "pres-layout", "top boxes")
	mdat := l[2]
	mvhd := mone(w, l[1].kids, "mvhd").data
	movieTS := uint64(be32(mvhd, 12))
	w.Check(mvhd[0] == 0 && movieTS != 0, "pres-mvhd", "mvhd %s", hx(mvhd))
	traks := mfind(l[1].kids, "trak")
	w.Check(len(traks) == len(tr), "pres-traks", "%d trak", len(traks))
	type placed struct{ trk, n, off, size int }
	var all []placed
	longest := uint64(0)
	for i, t := range tr {
		k := traks[i].kids
		avg := uint32(128825)
		if t.m.video {
			avg = 1000000
		}
		mpCheckTrak(w, traks[i], t.m, t.id, t.ts, avg, avg)
		shown := new(big.Int).SetUint64(t.sum())
		shown.Add(shown, big.NewInt(int64(t.off)))
		if shown.Sign() >= 0 {
			mdhd := mone(w, k, "mdia", "mdhd").data
			have := uint64(be32(mdhd, 16))
			if mdhd[0] == 1 {
				have = be64(mdhd, 24)
			}
			w.Check(have == shown.Uint64(), "pres-mdhd", "duration in mdhd %d, want %d", have, shown.Uint64())
			ms := shown.Uint64() * movieTS / uint64(t.ts)
			tkhd := mone(w, k, "tkhd").data
			w.Check(tkhd[0] == 0 && uint64(be32(tkhd, 20)) == ms, "pres-tkhd", "duration in tkhd %d, want %d", be32(tkhd, 20), ms)
			longest = max(longest, ms)
			elst := mone(w, k, "edts", "elst").data
			if t.off > 0 {
				w.Check(be32(elst, 4) == 2, "pres-elst", "elst %s", hx(elst))
				w.Check(uint64(be32(elst, 8)) == uint64(t.off)*movieTS/uint64(t.ts) && be32(elst, 12) == 1<<32-1 && be32(elst, 16) == 0x10000, "pres-elst-pause", "empty edit %s, offset %d", hx(elst[8:20]), t.off)
				w.Check(uint64(be32(elst, 20)) == t.sum()*movieTS/uint64(t.ts) && be32(elst, 24) == 0 && be32(elst, 28) == 0x10000, "pres-elst-media", "edit %s", hx(elst[20:32]))
			} else {
				w.Check(be32(elst, 4) == 1 && int64(int32(be32(elst, 12))) == -int64(t.off) && be32(elst, 16) == 0x10000, "pres-elst-media", "edit %s, offset %d", hx(elst[8:20]), t.off)
				w.Check(uint64(be32(elst, 8)) >= ms, "pres-elst-short", "edit duration %d, %d of media", be32(elst, 8), ms)
			}
		}
		tab := func(n string) []byte { return mone(w, k, "mdia", "minf", "stbl", n).data }
		var dur, off []uint32
		d := tab("stts")
		for e := range int(be32(d, 4)) {
			w.Check(uint64(len(dur))+uint64(be32(d, 8+e*8)) <= uint64(len(t.ss)), "pres-stts", "stts describes more than %d samples", len(t.ss))
			for range be32(d, 8+e*8) {
				dur = append(dur, be32(d, 12+e*8))
			}
		}
		d = tab("ctts")
		for e := range int(be32(d, 4)) {
			w.Check(uint64(len(off))+uint64(be32(d, 8+e*8)) <= uint64(len(t.ss)), "pres-ctts", "ctts describes more than %d samples", len(t.ss))
			for range be32(d, 8+e*8) {
				off = append(off, be32(d, 12+e*8))
			}
			w.Check(d[0] == 1, "pres-ctts", "ctts version %d", d[0])
		}
		sync := map[int]bool{}
		if x := mfind(k, "mdia", "minf", "stbl", "stss"); len(x) != 0 {
			last := uint32(0)
			for e := range int(be32(x[0].data, 4)) {
				n := be32(x[0].data, 8+e*4)
				w.Check(n > last && int(n) <= len(t.ss), "pres-stss", "sample %d in stss", n)
				last = n
				sync[int(n)-1] = true
			}
		} else {
			for n := range t.ss {
				sync[n] = true
			}
		}
		stsz := tab("stsz")
		w.Check(len(dur) == len(t.ss) && len(off) == len(t.ss) && int(be32(stsz, 8)) == len(t.ss) && be32(stsz, 4) == 0, "pres-counts", "%d samples: stts %d, ctts %d, stsz %d", len(t.ss), len(dur), len(off), be32(stsz, 8))
		stsc, stco := tab("stsc"), tab("stco")
		nc, ne := int(be32(stco, 4)), int(be32(stsc, 4))
		n := 0
		for c := 1; c <= nc; c++ {
			per := -1
			for e := range ne {
				if int(be32(stsc, 8+e*12)) <= c {
					per = int(be32(stsc, 12+e*12))
					w.Check(be32(stsc, 16+e*12) == 1, "pres-stsc", "sample description index")
				}
				if e > 0 {
					w.Check(be32(stsc, 8+e*12) > be32(stsc, 8+e*12-12) && int(be32(stsc, 8+e*12)) <= nc, "pres-stsc", "first chunks of stsc not increasing or beyond the last chunk")
				} else {
					w.Check(be32(stsc, 8) == 1, "pres-stsc", "first chunk %d", be32(stsc, 8))
				}
			}
			w.Check(per > 0, "pres-stsc", "chunk %d has %d samples", c, per)
			pos := int(be32(stco, 4+c*4))
			for range per {
				w.Check(n < len(t.ss), "pres-stsc", "chunks hold more than %d samples", len(t.ss))
				sz := int(be32(stsz, 12+n*4))
				s := t.ss[n]
				w.Check(pos >= mdat.off+8 && pos+sz <= mdat.off+mdat.size && bytes.Equal(b[pos:pos+sz], s.data), "pres-data", "track %d sample %d at %d size %d is not the one written", i, n, pos, sz)
				w.Check(dur[n] == s.dur && int32(off[n]) == s.pts && sync[n] == !s.nonSync, "pres-sample", "track %d sample %d: duration %d, offset %d, sync %v; want %d, %d, %v", i, n, dur[n], int32(off[n]), sync[n], s.dur, s.pts, !s.nonSync)
				all = append(all, placed{i, n, pos, sz})
				pos += sz
				n++
			}
		}
		w.Check(n == len(t.ss), "pres-stsc", "chunks hold %d samples of %d", n, len(t.ss))
	}
	w.Check(uint64(be32(mvhd, 16)) == longest, "pres-mvhd", "duration in mvhd %d, want %d", be32(mvhd, 16), longest)
	// samples in the file: no gap, no overlap, in decoding order
	sort.SliceStable(all, func(a, b int) bool { return all[a].off < all[b].off })
	pos := mdat.off + 8
	var order []placed
	for _, a := range all {
		if a.size > 0 {
			w.Check(a.off == pos, "pres-layout", "data at %d, previous data ends at %d", a.off, pos)
			pos += a.size
			order = append(order, a)
		}
	}
	w.Check(pos == mdat.off+mdat.size, "pres-mdat", "mdat ends at %d, its data at %d", mdat.off+mdat.size, pos)
	starts := make([][]int64, len(tr))
	for i, t := range tr {
		v := int64(t.off)
		for _, s := range t.ss {
			starts[i] = append(starts[i], v)
			v += int64(s.dur)
		}
	}
	time := func(a placed) *big.Rat { return big.NewRat(starts[a.trk][a.n], int64(tr[a.trk].ts)) }
	for i := 1; i < len(order); i++ {
		a, b := time(order[i-1]), time(order[i])
		w.Check(a.Cmp(new(big.Rat).Add(b, big.NewRat(1, 1000000000))) < 0, "pres-order", "track %d sample %d (decoded at %v) is before track %d sample %d (decoded at %v)", order[i-1].trk, order[i-1].n, a, order[i].trk, order[i].n, b)
	}
}

func presRead(w *kit.W, b []byte, tr []*presTrack) *pmp4.Presentation {
	var out pmp4.Presentation
	err := out.Unmarshal(bytes.NewReader(b))
	w.Check(err == nil, "pres-unmarshal", "Presentation.Unmarshal: %v", err)
	w.Check(len(out.Tracks) == len(tr), "pres-tracks", "%d tracks", len(out.Tracks))
	for i, t := range tr {
		g := out.Tracks[i]
		w.Check(uint32(g.ID) == t.id && g.TimeScale == t.ts && g.TimeOffset == t.off, "pres-track", "track %d: ID %d, time scale %d, offset %d; want %d, %d, %d", i, g.ID, g.TimeScale, g.TimeOffset, t.id, t.ts, t.off)
		mpSameCodec(w, t.m, g.Codec)
		w.Check(len(g.Samples) == len(t.ss), "pres-samples", "track %d: %d samples, want %d", i, len(g.Samples), len(t.ss))
	}
	// payloads, in two orders
	for round := range 2 {
		for i := range tr {
			for j := range tr[i].ss {
				ii, jj := i, j
				if round == 1 {
					ii = len(tr) - 1 - i
					jj = len(tr[ii].ss) - 1 - j
					if jj < 0 {
						continue
					}
				}
				g, s := out.Tracks[ii].Samples[jj], tr[ii].ss[jj]
				w.Check(g.Duration == s.dur && g.PTSOffset == s.pts && g.IsNonSyncSample == s.nonSync && int(g.PayloadSize) == len(s.data), "pres-read-sample", "track %d sample %d: %d %d %v %d", ii, jj, g.Duration, g.PTSOffset, g.IsNonSyncSample, g.PayloadSize)
				d, err := g.GetPayload()
				w.Check(err == nil && bytes.Equal(d, s.data), "pres-read-payload", "track %d sample %d: payload %s (%v), want %s", ii, jj, hx(d), err, hx(s.data))
			}
		}
	}
	return &out
}

func presCheck(w *kit.W, tr []*presTrack) {
	var called [][2]int
	p := presMake(tr, &called)
	var buf bytes.Buffer
	err := p.Marshal(&buf)
	for _, t := range tr {
		if t.tooLong() {
			w.Check(err != nil && buf.Len() == 0, "pres-too-long", "%d + %d units of 1/%d s written in 32 bits of milliseconds (%v)", t.sum(), t.off, t.ts, err)
			w.Step(1)
			return
		}
	}
	w.Check(err == nil, "pres-marshal", "Presentation.Marshal: %v", err)
	presIndependent(w, buf.Bytes(), tr)
	n := 0
	for _, t := range tr {
		n += len(t.ss)
	}
	w.Check(len(called) == n, "pres-calls", "%d payloads requested for %d samples", len(called), n)
	b := clone(buf.Bytes())
	out := presRead(w, b, tr)
	var buf2 bytes.Buffer
	err = out.Marshal(&buf2)
	late := false
	for _, t := range tr {
		late = late || t.m.late != nil
	}
	w.Check(err == nil, "pres-again", "writing what was read: %v", err)
	w.Check(late || bytes.Equal(buf2.Bytes(), b), "pres-again", "writing what was read gives something else")
	buf2.Reset()
	err = p.Marshal(&buf2)
	w.Check(err == nil && bytes.Equal(buf2.Bytes(), b), "pres-repeat", "writing the same presentation again gives something else (%v)", err)
	w.Ops(int64(n) + 4)
	w.Step(kit.H(b))
	for _, t := range tr {
		if t.m.late != nil && t.m.late[0] == "lpcm-rate" {
			w.Fail(t.m.late[0], "%s", t.m.late[1])
		}
	}
}

// sparseFile keeps references to the large buffers written to it.
type sparseFile struct {
	seg  [][]byte
	off  []int64
	size int64
}

func (s *sparseFile) Write(p []byte) (int, error) {
	q := p
	if len(p) < 1<<15 {
		q = clone(p)
	}
	s.seg = append(s.seg, q)
	s.off = append(s.off, s.size)
	s.size += int64(len(p))
	return len(p), nil
}

func (s *sparseFile) ReadAt(p []byte, at int64) (int, error) {
	n := 0
	for n < len(p) && at+int64(n) < s.size {
		i := sort.Search(len(s.off), func(i int) bool { return s.off[i] > at+int64(n) }) - 1
		n += copy(p[n:], s.seg[i][at+int64(n)-s.off[i]:])
	}
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

type countWriter struct{ n int64 }

func (c *countWriter) Write(p []byte) (int, error) { c.n += int64(len(p)); return len(p), nil }

func init() {
	kit.Register(&kit.Check{
		ID: "M03",
		Assumptions: []string{
			"movie durations fit into 32 bits of milliseconds and data into 32-bit offsets, beyond which writing is checked to give an error",
			"the media duration holds the time offset, as the reader of the library expects; the duration of the edit of a track with a negative offset is checked not to be too short only",
			"the order of samples is checked with a tolerance of one nanosecond",
		},
		Run: func(c *kit.Ctx) {
			vals := func(w *kit.W) presSample {
				n := []int{3, 0, 1, 256}[w.Dev(4)]
				return presSample{
					dur: DevOfU(w, 3000, 0, 1, 1<<31, 1<<32-1), pts: int32(DevOfU(w, 0, 1, 1<<32-1, 1<<31-1, 1<<31)), nonSync: w.Dev(2) == 1,
					data: pat(n, byte(w.Index)),
				}
			}
			seedFix := func(tr []*presTrack) {
				s := byte(1)
				for _, t := range tr {
					for i := range t.ss {
						if t.ss[i].same == 0 {
							t.ss[i].data = pat(len(t.ss[i].data), s)
							s += 37
						}
					}
				}
			}
			c.Explore("fields", kit.Opt{MaxDev: kit.T(c, 2, 3), Bound: "up to 2 tracks of up to 3 samples; every field at every boundary value, up to the stated number of fields at once; samples used twice"}, func(w *kit.W) {
				var tr []*presTrack
				for i := range w.Pick(2) + 1 {
					t := &presTrack{m: mpCodec([]int{mH264, mOpus}[i], mpDef, mvDef), id: DevOfU(w, uint32(i)+1, 0, 9, 1<<32-1), ts: DevOfU(w, []uint32{90000, 48000}[i], 1000, 999, 1<<31, 1<<32-1)}
					t.off = []int32{0, 1, -1, 45000, -3000, 1<<31 - 1, -1<<31 + 1}[w.Dev(7)]
					for j := range w.Pick(4) {
						t.ss = append(t.ss, vals(w))
						if j > 0 && w.Dev(2) == 1 {
							t.ss[j] = t.ss[0]
							t.ss[j].same = 1
						}
					}
					tr = append(tr, t)
				}
				seedFix(tr)
				for _, t := range tr {
					for j := range t.ss {
						if t.ss[j].same > 0 {
							t.ss[j].data = t.ss[0].data
						}
					}
				}
				presCheck(w, tr)
			})
			k := kit.T(c, 4, 5)
			c.Explore("interleaving", kit.Opt{Bound: fmt.Sprintf("two tracks of up to %d samples each (three of up to 2), every combination of durations out of short, long and zero and of sizes out of empty and not, tracks starting together or not", k)}, func(w *kit.W) {
				nt := w.Pick(3) + 1
				var tr []*presTrack
				for i := range nt {
					t := &presTrack{m: mpCodec([]int{mMJPEG, mLPCM, mOpus}[i], mpDef, mvDef), id: uint32(i) + 1, ts: []uint32{10, 20, 1000}[i]}
					if i > 0 {
						t.off = []int32{0, 20, -20}[w.Pick(3)]
					}
					m := k
					if nt > 1 {
						m = k - nt
					}
					for range w.Pick(m + 1) {
						x := w.Pick(6)
						t.ss = append(t.ss, presSample{dur: []uint32{10, 35, 0}[x%3] * uint32(t.ts/10), data: pat(x/3*2, 1)})
					}
					tr = append(tr, t)
				}
				seedFix(tr)
				presCheck(w, tr)
			})
			c.Explore("tables", kit.Opt{Bound: fmt.Sprintf("one track, every list of up to %d samples out of 8 kinds (2 durations, 2 offsets, sync or not), next to a track that splits it into chunks in any way", kit.T(c, 3, 4))}, func(w *kit.W) {
				a := &presTrack{m: mpCodec(mM4V, mpDef, mvDef), id: 1, ts: 1000}
				b := &presTrack{m: mpCodec(mOpus, mpDef, mvDef), id: 2, ts: 1000, off: 1}
				pause := uint32(0)
				for range w.Pick(kit.T(c, 4, 5)) {
					x := w.Pick(8)
					s := presSample{dur: 10 + uint32(x&1), pts: int32(x>>1&1) * -7, nonSync: x&4 != 0, data: pat(2, 1)}
					a.ss = append(a.ss, s)
					pause += s.dur
					if w.Bool() {
						if len(b.ss) > 0 {
							b.ss[len(b.ss)-1].dur = pause
						} else {
							b.off = int32(pause) - 5
						}
						pause = 0
						b.ss = append(b.ss, presSample{dur: 1, data: pat(1, 1)})
					}
				}
				tr := []*presTrack{a, b}
				seedFix(tr)
				presCheck(w, tr)
			})
			c.Explore("unsupported", kit.Opt{Bound: "one of two or three tracks has captions in a format that is not supported: the others, of up to 2 samples each, are read"}, func(w *kit.W) {
				var tr []*presTrack
				for i := range w.Pick(2) + 2 {
					t := &presTrack{m: mpCodec([]int{mH264, mLPCM, mOpus}[i], mpDef, mvDef), id: uint32(i) + 4, ts: uint32(1000 * (i + 1)), off: []int32{0, 20}[w.Pick(2)]}
					for k := range w.Pick(3) {
						t.ss = append(t.ss, presSample{dur: uint32(10 + i), data: pat(k+2, byte(i)), nonSync: k == 1})
					}
					tr = append(tr, t)
				}
				seedFix(tr)
				var called [][2]int
				var buf bytes.Buffer
				err := presMake(tr, &called).Marshal(&buf)
				w.Check(err == nil, "pres-marshal", "Presentation.Marshal: %v", err)
				b, at := clone(buf.Bytes()), 0
				k := w.Pick(len(tr))
				for range k + 1 {
					at += bytes.Index(b[at:], []byte("stsd")) + 4
				}
				copy(b[at+12:], "c608")
				presRead(w, b, append(tr[:k:k], tr[k+1:]...))
				w.Ops(2)
				w.Step(kit.H(b))
			})
			many := []int{255, 256, 5000}
			c.Range("many", uint64(len(many)*4), "many samples, tables compressed or not, chunks split or not", func(w *kit.W) {
				a := &presTrack{m: mpCodec(mH265, mpDef, mvDef), id: 1, ts: 90000}
				b := &presTrack{m: mpCodec(mAAC, mpDef, mvDef), id: 2, ts: 44100, off: 10}
				for i := range many[w.Index/4] {
					s := presSample{dur: 3000, data: pat(i%5, byte(i))}
					if w.Index&1 != 0 {
						s.dur += uint32(i % 7)
						s.pts = int32(i % 3)
						s.nonSync = i%4 != 0
					}
					a.ss = append(a.ss, s)
					if w.Index&2 != 0 {
						b.ss = append(b.ss, presSample{dur: 1024 + uint32(i%2)*900, data: pat(i%3, byte(i))})
					}
				}
				presCheck(w, []*presTrack{a, b})
			})
			longs := []uint32{300, 1100, 5000, 70000}
			c.Explore("one-differs", kit.Opt{Bound: fmt.Sprintf("%v samples of which one, at 9 positions, differs from all others in one field (sync or not sync, offset, duration, size); alone or next to another track", longs)}, func(w *kit.W) {
				n := longs[w.Pick(len(longs))]
				at := []uint32{0, 1, 255, 256, 257, n / 2, 65535, n - 2, n - 1}[w.Pick(9)] % n
				kind := w.Pick(7)
				two := w.Bool()
				a := &presTrack{m: mpCodec(mH264, mpDef, mvDef), id: 1, ts: 90000}
				for i := range n {
					s := presSample{dur: 3000, nonSync: kind == 0, data: pat(int(i)%3, byte(i))}
					if i == at {
						switch kind {
						case 0, 1:
							s.nonSync = !s.nonSync
						case 2:
							s.pts = -5
						case 3:
							s.dur = 1 << 16
						case 4:
							s.dur = 0
						case 5:
							s.data = pat(65537, 9)
						case 6:
							s.dur, s.pts, s.nonSync = 3001, 1, true
						}
					}
					a.ss = append(a.ss, s)
				}
				tr := []*presTrack{a}
				if two { // splits the first one into three chunks
					b := &presTrack{m: mpCodec(mOpus, mpDef, mvDef), id: 2, ts: 90000, off: int32(at) * 3000 % 210_000_000}
					b.ss = []presSample{{dur: 1, data: []byte{1}}, {dur: 5, data: []byte{2, 3}}}
					tr = append(tr, b)
				}
				presCheck(w, tr)
			})
			c.Explore("long-durations", kit.Opt{Bound: "two tracks of up to 4 and 3 samples of up to 2^32-1 units (hours to weeks), every combination of 3 (thorough: 4) durations and of 3 x 3 time scales"}, func(w *kit.W) {
				var tr []*presTrack
				for i := range 2 {
					t := &presTrack{m: mpCodec([]int{mMJPEG, mLPCM}[i], mpDef, mvDef), id: uint32(i) + 1, ts: [][]uint32{{90000, 10_000_000, 1<<32 - 1}, {48000, 90000, 1<<32 - 1}}[i][w.Pick(3)]}
					for range 4 - i {
						d := []uint32{1<<32 - 1, 3_000_000_000, 5, 1 << 31}[w.Pick(kit.T(c, 3, 4))]
						t.ss = append(t.ss, presSample{dur: d, data: pat(1, 1)})
					}
					tr = append(tr, t)
				}
				seedFix(tr)
				presCheck(w, tr)
			})
			c.Range("many-tracks", 60*2, "1 to 60 tracks of up to 4 samples, starting together or one after another", func(w *kit.W) {
				var tr []*presTrack
				for i := range int(w.Index/2) + 1 {
					t := &presTrack{m: mpCodec([]int{mMJPEG, mLPCM, mOpus, mH264, mAAC}[i%5], mpDef, mvDef), id: uint32(i) + 1, ts: 1000}
					if w.Index&1 != 0 {
						t.off = int32(i) * 5
					}
					for k := range i%4 + 1 {
						t.ss = append(t.ss, presSample{dur: uint32(10 + i%3), data: pat(k+1, 1)})
					}
					tr = append(tr, t)
				}
				seedFix(tr)
				presCheck(w, tr)
			})
			c.Explore("codecs", kit.Opt{MaxDev: kit.T(c, 1, 2), Bound: "every codec with every field away from its default"}, func(w *kit.W) {
				m := mpCodec(w.Pick(mKinds), w.Dev, devVals(w))
				if m == nil {
					return
				}
				presCheck(w, []*presTrack{{m: m, id: 1, ts: 90000, ss: []presSample{{dur: 10, data: pat(4, 1)}}}})
			})
			sizes := []int{65535 - 8, 65536 - 8, 65535, 65536, 1 << 16 * 3, 1<<17 + 1}
			if c.Thorough() {
				sizes = append(sizes, 1<<24-9, 1<<24-8, 1<<24, 1<<24+1<<16)
			}
			c.Range("large", uint64(len(sizes)*len(sizes)*2), fmt.Sprintf("payloads of every pair of sizes out of %v next to small ones, one or two tracks", sizes), func(w *kit.W) {
				x := int(w.Index)
				a := &presTrack{m: mpCodec(mH264, mpDef, mvDef), id: 1, ts: 1000}
				b := &presTrack{m: mpCodec(mOpus, mpDef, mvDef), id: 2, ts: 1000, off: 5}
				a.ss = append(a.ss, presSample{dur: 10, data: pat(3, 1)}, presSample{dur: 10, data: pat(sizes[x%len(sizes)], 2)}, presSample{dur: 10, data: pat(2, 3)})
				o := b
				if x /= len(sizes); x >= len(sizes) {
					o = a
				}
				o.ss = append(o.ss, presSample{dur: 10, data: pat(sizes[x%len(sizes)], 4)}, presSample{dur: 10, data: pat(1, 5)})
				presCheck(w, []*presTrack{a, b})
			})
			// files up to the limit of 32-bit offsets: large payloads are not copied, but referenced by the output
			zeros := make([]byte, 1<<30)
			c.Explore("far", kit.Opt{Serial: true, Bound: "up to 4 payloads of 64 KiB to 1 GiB (13 combinations, up to 9000 bytes below 4 GiB in total) before, between and after distinct small ones of one or two tracks; optionally followed by a box of 5 GiB that is to be skipped"}, func(w *kit.W) {
				fill := [][]int{{1<<16 - 300}, {1 << 16}, {1 << 24}, {1<<30 - 1}, {1 << 30}, {1 << 30, 1<<30 - 2000}, {1 << 30, 1<<30 - 8}, {1 << 30, 1 << 30}, {1 << 30, 1 << 30, 1 << 29}, {1 << 30, 1 << 30, 1 << 30, 1 << 20}, {1 << 30, 1 << 30, 1 << 30, 1<<30 - 1<<16}, {1 << 30, 1 << 30, 1 << 30, 1<<30 - 1<<14}, {1 << 30, 1 << 30, 1 << 30, 1<<30 - 9000}}[w.Pick(13)]
				two := w.Bool()
				p := &pmp4.Presentation{Tracks: []*pmp4.Track{{ID: 1, TimeScale: 1000, Codec: mpCodec(mOpus, mpDef, mvDef).codec}}}
				if two {
					p.Tracks = append(p.Tracks, &pmp4.Track{ID: 2, TimeScale: 1000, Codec: mpCodec(mAAC, mpDef, mvDef).codec})
				}
				add := func(trk int, b []byte) {
					t := p.Tracks[trk%len(p.Tracks)]
					t.Samples = append(t.Samples, &pmp4.Sample{Duration: 20, PayloadSize: uint32(len(b)), GetPayload: func() ([]byte, error) { return b, nil }})
				}
				total := uint64(0)
				add(0, pat(4, 1))
				for i, f := range fill {
					add(1, zeros[:f])
					add(i, pat(5+i, byte(2+i)))
					total += uint64(f) + uint64(5+i)
				}
				add(1, pat(7, 9))
				var out sparseFile
				err := p.Marshal(&out)
				w.Check(err == nil, "pres-far", "%v: %v", fill, err)
				// boxes
				var h [8]byte
				pos := int64(0)
				for _, typ := range []string{"ftyp", "moov", "mdat"} {
					_, err = out.ReadAt(h[:], pos)
					w.Check(err == nil && string(h[4:]) == typ, "pres-layout", "%q at %d, want %q", h[4:], pos, typ)
					pos += int64(be32(h[:], 0))
					if typ == "mdat" {
						w.Check(uint64(be32(h[:], 0)) == total+8+4+7, "pres-mdat", "mdat of %d bytes holds %d", be32(h[:], 0), total+11)
					}
				}
				w.Check(pos == out.size, "pres-layout", "last box ends at %d, file at %d", pos, out.size)
				if w.Bool() { // a box of 5 GiB to be skipped
					const n = 5 << 30
					out.Write([]byte{0, 0, 0, 1, 'f', 'r', 'e', 'e', 0, 0, 0, n >> 32, n >> 24 & 255, n >> 16 & 255, n >> 8 & 255, n & 255})
					for left := n - 16; left > 0; left -= min(left, len(zeros)) {
						out.Write(zeros[:min(left, len(zeros))])
					}
				}
				var got pmp4.Presentation
				err = got.Unmarshal(io.NewSectionReader(&out, 0, out.size))
				w.Check(err == nil && len(got.Tracks) == len(p.Tracks), "pres-unmarshal", "%v", err)
				for i, t := range p.Tracks {
					w.Check(len(got.Tracks[i].Samples) == len(t.Samples), "pres-samples", "%d", len(got.Tracks[i].Samples))
					for j, s := range t.Samples {
						g := got.Tracks[i].Samples[j]
						w.Check(g.PayloadSize == s.PayloadSize && g.Duration == s.Duration, "pres-read-sample", "%d %d: %d", i, j, g.PayloadSize)
						if s.PayloadSize < 100 {
							want, _ := s.GetPayload()
							b, rerr := g.GetPayload()
							w.Check(rerr == nil && bytes.Equal(b, want), "pres-read-payload", "%v: track %d sample %d: %s %v", fill, i, j, hx(b), rerr)
						}
					}
				}
				w.Ops(int64(len(fill)*2 + 2))
				w.Step(kit.H(total, two))
			})
			c.Explore("limits", kit.Opt{Bound: "sizes and durations at and beyond what the tables can hold: nothing is written and an error is returned, or what is written is right"}, func(w *kit.W) {
				m := mpCodec(mOpus, mpDef, mvDef)
				switch k := w.Pick(5); k {
				case 0, 1: // total size
					n := uint32(1 << 30)
					last := []uint32{1<<30 - 10000, 1<<30 - 8, 1 << 30, 1<<32 - 1}[w.Pick(4)]
					p := &pmp4.Presentation{}
					fail := fmt.Errorf("verif: too far")
					for t := range k + 1 {
						x := &pmp4.Track{ID: t + 1, TimeScale: 1000, Codec: m.codec}
						for range 4 / (k + 1) {
							x.Samples = append(x.Samples, &pmp4.Sample{Duration: 10, PayloadSize: n, GetPayload: func() ([]byte, error) { return nil, fail }})
						}
						p.Tracks = append(p.Tracks, x)
					}
					l := p.Tracks[k].Samples
					l[len(l)-1].PayloadSize = last
					cw := &countWriter{}
					err := p.Marshal(cw)
					w.Check(err != nil, "pres-fail", "no error although payloads cannot be read")
					total := 3*uint64(n) + uint64(last)
					w.Check(total < 1<<32-9000 || cw.n == 0, "pres-too-big", "%d bytes of data: header written although its offsets do not fit (%v)", total, err)
					w.Check(total >= 1<<32-9000 || err == fail, "pres-fail", "%v", err)
				case 2: // durations
					t := &presTrack{m: m, id: 1, ts: []uint32{1, 999, 1000, 90000}[w.Pick(4)]}
					for range w.Pick(3) + 1 {
						t.ss = append(t.ss, presSample{dur: []uint32{1<<32 - 1, 1 << 31, 4294967}[w.Pick(3)], data: []byte{1}})
					}
					var buf bytes.Buffer
					err := presMake([]*presTrack{t}, nil).Marshal(&buf)
					w.Check((err != nil) == t.tooLong(), "pres-too-long", "%v", err)
					if err == nil {
						presIndependent(w, buf.Bytes(), []*presTrack{t})
						presRead(w, buf.Bytes(), []*presTrack{t})
					} else {
						w.Check(buf.Len() == 0, "pres-too-long", "%d bytes written", buf.Len())
					}
				case 3: // payload of another size
					d := w.Pick(3)
					p := presMake([]*presTrack{{m: m, id: 1, ts: 1000, ss: []presSample{{dur: 1, data: pat(4, 1)}, {dur: 1, data: pat(4, 2)}}}}, nil)
					p.Tracks[0].Samples[w.Pick(2)].PayloadSize = []uint32{3, 4, 5}[d]
					err := p.Marshal(io.Discard)
					w.Check((err == nil) == (d == 1), "pres-size-lie", "payload of 4 bytes announced as %d: %v", d+3, err)
				case 4:
					p := presMake([]*presTrack{{m: m, id: 1, ts: 0, ss: []presSample{{dur: 1, data: pat(4, 1)}}}}, nil)
					if w.Bool() {
						p.Tracks[0].TimeScale = 1000
						p.Tracks[0].Codec = codecs.Codec(nil)
					}
					err := p.Marshal(io.Discard)
					w.Check(err != nil, "pres-fail", "track without time scale or codec accepted")
				}
				w.Step(1)
			})
		},
	})
}
