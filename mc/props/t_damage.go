package props

import (
	"bytes"
	"fmt"
	"io"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/codecs"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/substructs"

	"verif/mc/kit"
)

// tsStream is a stream with its ground truth.
type tsStream struct {
	trks []*tsTrack
	ss   []*tsSample
	ps   []*tsPkt
	exp  []*tsGot // by sample; nil: not delivered
	prev []int    // previous sample of the same track, -1 if none
	next []int
}

func tsPrepare(w *kit.W, n int) *tsStream {
	s := &tsStream{}
	s.trks, s.ss = tsScenario(w, n)
	out, starts := tsWrite(w, s.trks, s.ss)
	s.ps = tsCheckWire(w, s.trks, s.ss, out, starts, nil)
	tsCheckAll(w, s.trks, s.ss, tsRead(bytes.NewReader(out), 10000))
	exp := tsExpect(s.trks, s.ss)
	pos := make([]int, len(s.trks))
	last := make([]int, len(s.trks))
	for i := range last {
		last[i] = -1
	}
	s.next = make([]int, len(s.ss))
	for i, x := range s.ss {
		s.exp = append(s.exp, &exp[x.trk][pos[x.trk]])
		pos[x.trk]++
		s.prev = append(s.prev, last[x.trk])
		s.next[i] = -1
		if last[x.trk] >= 0 {
			s.next[last[x.trk]] = i
		}
		last[x.trk] = i
	}
	return s
}

func (s *tsStream) track(pid uint16) int {
	for i, t := range s.trks {
		if t.wantPID == pid {
			return i
		}
	}
	return -1
}

// tsVerdict is what may happen to the samples.
type tsVerdict struct {
	lost    map[int]bool // a part is missing: must not be delivered
	spoiled map[int]bool // may be missing or, within the limit of its track, altered
	loose   map[int]int  // track: number of altered deliveries accepted
	initErr bool         // the parameters of a track may be damaged
	anyOrd  bool
}

func newVerdict() *tsVerdict {
	return &tsVerdict{lost: map[int]bool{}, spoiled: map[int]bool{}, loose: map[int]int{}}
}

// drop notes the loss of a packet.
func (s *tsStream) drop(v *tsVerdict, i int) {
	p := s.ps[i]
	if p.sample < 0 {
		return
	}
	v.lost[p.sample] = true
	if pr := s.prev[p.sample]; p.pesStart && pr >= 0 && tsVideo(s.trks[s.ss[pr].trk].kind) {
		v.spoiled[pr] = true // its end is not known
	}
}

// tails: a truncated unbounded sample at the end of the stream cannot be told from a complete one.
func (s *tsStream) tails(v *tsVerdict, gone map[int]bool) {
	for trk, t := range s.trks {
		if !tsVideo(t.kind) {
			continue
		}
		lastPkt, cut := -1, false
		for i, p := range s.ps {
			if p.sample >= 0 && p.pid == t.wantPID {
				if gone[i] {
					cut = true
				} else {
					lastPkt = i
					cut = false
				}
			}
		}
		if cut && lastPkt >= 0 {
			// the last sample with something left has lost its tail, or it is complete and the ones after it are gone
			if smp := s.ps[lastPkt].sample; v.lost[smp] {
				v.loose[trk]++
			}
		}
	}
}

// touch notes that a packet has any other content from its header on, and may be on another PID.
func (s *tsStream) touch(v *tsVerdict, i int, pid uint16) {
	p := s.ps[i]
	s.touched(v, i)
	s.progress(v, i, p.pid)
	if p.sample >= 0 {
		v.spoiled[p.sample] = true
		if s.prev[p.sample] < 0 && tsNeedsData(s.trks[s.ss[p.sample].trk].kind) {
			v.initErr = true
		}
	}
	if pid != p.pid {
		s.progress(v, i, pid)
		if t := s.track(pid); t >= 0 && tsNeedsData(s.trks[t].kind) {
			v.initErr = true // a foreign packet may be taken for the first sample
		}
	}
}

// progress spoils the last sample started on the PID before packet i.
func (s *tsStream) progress(v *tsVerdict, i int, pid uint16) {
	t := s.track(pid)
	if t < 0 {
		return
	}
	v.loose[t] += 2
	for j := i - 1; j >= 0; j-- {
		if s.ps[j].pid == pid && s.ps[j].pesStart {
			smp := s.ps[j].sample
			complete := !tsVideo(s.trks[t].kind)
			for k := i; k < len(s.ps); k++ {
				if s.ps[k].sample == smp {
					complete = false
				}
			}
			if !complete {
				v.spoiled[smp] = true
			}
			return
		}
	}
}

func (s *tsStream) check(w *kit.W, pkts [][]byte, v *tsVerdict) {
	var in []byte
	for _, p := range pkts {
		in = append(in, p...)
	}
	res := tsRead(&byteSource{b: in, limit: 100000}, 10000)
	if res.initErr != nil {
		w.Check(v.initErr, "ts-damage-init", "Reader.Initialize: %v", res.initErr)
		w.Step(kit.H(0))
		return
	}
	w.Check(res.readErr == io.EOF, "ts-damage-end", "reading ended with %v", res.readErr)
	w.Check(len(res.tracks) == len(s.trks), "ts-damage-tracks", "%d tracks", len(res.tracks))
	if !v.initErr {
		tsCheckTracks(w, s.trks, res.tracks)
	}
	n := 0
	for trk, t := range s.trks {
		got := res.got[t.wantPID]
		n += len(got)
		done := map[int]bool{}
		from, strange := -1, 0
		for gi, g := range got {
			found := -1
			for k, x := range s.ss {
				if x.trk != trk || done[k] || !v.anyOrd && k <= from {
					continue
				}
				e := *s.exp[k]
				if t.kind == kKLVA {
					e.pts = g.pts // taken from other tracks
				}
				if tsGotEq(g, e) {
					found = k
					break
				}
			}
			if found < 0 {
				strange++
				w.Check(strange <= v.loose[trk], "ts-damage-altered", "track %d (%s): delivery %d was not written, or is repeated or late: %v", trk, tsNames[t.kind], gi, g)
				continue
			}
			w.Check(!v.lost[found], "ts-damage-incomplete", "track %d (%s): sample %d was delivered although a packet of it is missing", trk, tsNames[t.kind], found)
			done[found] = true
			from = found
		}
		for k, x := range s.ss {
			if x.trk == trk && !done[k] && !v.lost[k] && !v.spoiled[k] {
				w.Fail("ts-damage-missing", "track %d (%s): sample %d is intact and was not delivered (%d delivered)", trk, tsNames[t.kind], k, len(got))
			}
		}
	}
	w.Check(n == len(res.order), "ts-damage-foreign", "samples on undeclared PIDs")
	w.Ops(int64(len(pkts)))
	w.Step(kit.H(len(res.decErrs), dump(res.order)))
}

func (s *tsStream) raw() [][]byte {
	var o [][]byte
	for _, p := range s.ps {
		o = append(o, p.raw)
	}
	return o
}

func init() {
	kit.Register(&kit.Check{
		ID: "T04",
		Assumptions: []string{
			"a damaged packet may spoil the sample it belongs to and the one in progress on its PID and on the PID it claims to have; losses of a multiple of 16 packets in a row on one PID cannot be noticed",
			"the end of a video sample (whose packets have no length) is known from the next packet of its PID only; at the end of the stream its loss cannot be noticed",
			"asynchronous KLV units have no timestamp of their own, which is not compared here",
			"damaged sync bytes are in packets that contain no other byte with that value",
		},
		Run: func(c *kit.Ctx) {
			st := make([]*tsStream, len(tsScenarios))
			c.Range("streams", uint64(len(st)), "the streams themselves", func(w *kit.W) {
				st[w.Index] = tsPrepare(w, int(w.Index))
			})
			for _, s := range st {
				if s == nil {
					return
				}
			}
			tsBadUnits(c)
			dropping := func(k int) func(w *kit.W) {
				return func(w *kit.W) {
					s := st[w.Pick(len(st))]
					gone := map[int]bool{}
					v := newVerdict()
					from := 0
					for range k {
						if from >= len(s.ps) {
							break
						}
						i := from + w.Pick(len(s.ps)-from)
						gone[i] = true
						s.drop(v, i)
						from = i + 1
					}
					s.tails(v, gone)
					s.lastTables(v, gone)
					w.Trace("lost %v", gone)
					var o [][]byte
					for i, p := range s.ps {
						if !gone[i] {
							o = append(o, p.raw)
						}
					}
					s.check(w, o, v)
				}
			}
			c.Explore("loss", kit.Opt{Bound: fmt.Sprintf("every loss of up to %d packets of every stream", kit.T(c, 3, 4))}, dropping(kit.T(c, 3, 4)))
			c.Explore("burst", kit.Opt{Bound: "every two losses of up to 12 packets in a row"}, func(w *kit.W) {
				s := st[w.Pick(len(st))]
				gone := map[int]bool{}
				v := newVerdict()
				from := 0
				for range 2 {
					if from >= len(s.ps) {
						break
					}
					i := from + w.Pick(len(s.ps)-from)
					n := w.Pick(12) + 1
					if i+n > len(s.ps) {
						return
					}
					for j := i; j < i+n; j++ {
						gone[j] = true
						s.drop(v, j)
					}
					from = i + n
				}
				row := map[uint16]int{}
				for i, p := range s.ps {
					if !gone[i] {
						row[p.pid] = 0
						continue
					}
					row[p.pid]++
					if row[p.pid] == 16 {
						return
					}
				}
				s.tails(v, gone)
				var o [][]byte
				for i, p := range s.ps {
					if !gone[i] {
						o = append(o, p.raw)
					}
				}
				s.lastTables(v, gone)
				s.check(w, o, v)
			})
			c.Explore("duplicates", kit.Opt{Bound: fmt.Sprintf("up to %d packets sent twice, the copy at once or after 1 or 2 packets of other PIDs: nothing changes", kit.T(c, 2, 3))}, func(w *kit.W) {
				s := st[w.Pick(len(st))]
				o := [][]byte{}
				dup := map[int]int{}
				from := 0
				for range kit.T(c, 2, 3) {
					if from >= len(s.ps) {
						break
					}
					i := from + w.Pick(len(s.ps)-from)
					dup[i] = w.Pick(3) + 1
					from = i + 1
				}
				type due struct {
					at int
					p  *tsPkt
				}
				var pend []due
				flush := func(pid int) {
					for k := 0; k < len(pend); k++ {
						if pend[k].at <= 0 || pid == int(pend[k].p.pid) {
							o = append(o, pend[k].p.raw)
							pend = append(pend[:k], pend[k+1:]...)
							k--
						}
					}
				}
				for i, p := range s.ps {
					flush(int(p.pid))
					o = append(o, p.raw)
					for k := range pend {
						pend[k].at--
					}
					if d := dup[i]; d > 0 {
						pend = append(pend, due{d - 1, p})
					}
					flush(-1)
				}
				for _, d := range pend {
					o = append(o, d.p.raw)
				}
				s.check(w, o, newVerdict())
			})
			c.Explore("swaps", kit.Opt{Bound: fmt.Sprintf("up to %d swaps of adjacent packets: packets of different PIDs change nothing, those of one PID spoil their samples", kit.T(c, 2, 3))}, func(w *kit.W) {
				s := st[w.Pick(len(st))]
				v := newVerdict()
				v.anyOrd = true
				o := s.raw()
				from := 0
				order := make([]int, len(s.ps))
				for i := range order {
					order[i] = i
				}
				for range kit.T(c, 2, 3) {
					if from+1 >= len(s.ps) {
						break
					}
					i := from + w.Pick(len(s.ps)-from-1)
					o[i], o[i+1] = o[i+1], o[i]
					a, b := s.ps[i], s.ps[i+1]
					order[i], order[i+1] = i+1, i
					if a.pid == b.pid && a.sample >= 0 {
						for _, p := range []*tsPkt{a, b} {
							v.spoiled[p.sample] = true
							if pr := s.prev[p.sample]; pr >= 0 {
								v.spoiled[pr] = true
							}
							if s.prev[p.sample] < 0 && tsNeedsData(s.trks[s.ss[p.sample].trk].kind) {
								v.initErr = true
							}
							if s.next[p.sample] < 0 {
								v.loose[s.ss[p.sample].trk]++ // at the end of the stream
							}
						}
					}
					from = i + 2
				}
				s.startup(v, order)
				s.check(w, o, v)
			})
			flip := func(w *kit.W, s *tsStream, v *tsVerdict, o [][]byte, i, b int) bool {
				r := append([]byte{}, o[i]...)
				r[b/8] ^= 0x80 >> (b % 8)
				o[i] = r
				if b < 8 {
					if bytes.IndexByte(r[1:], 0x47) >= 0 {
						return false
					}
				}
				s.touch(v, i, uint16(r[1]&0x1F)<<8|uint16(r[2]))
				return true
			}
			var offs []uint64
			tot := uint64(0)
			for _, s := range st {
				offs = append(offs, tot)
				tot += uint64(len(s.ps))
			}
			at := func(x uint64) (*tsStream, int) {
				n := len(st) - 1
				for offs[n] > x {
					n--
				}
				return st[n], int(x - offs[n])
			}
			c.Range("header-bits", tot*32, "every bit of the header of every packet inverted", func(w *kit.W) {
				s, i := at(w.Index / 32)
				v := newVerdict()
				o := s.raw()
				if flip(w, s, v, o, i, int(w.Index%32)) {
					s.check(w, o, v)
				}
			})
			if c.Thorough() {
				for n, s := range st {
					k := uint64(len(s.ps)) * 32
					c.Range(fmt.Sprintf("header-bit-pairs-%d", n), k*k, "every pair of header bits of the stream inverted", func(w *kit.W) {
						a, b := w.Index/k, w.Index%k
						if a >= b {
							return
						}
						v := newVerdict()
						o := s.raw()
						if flip(w, s, v, o, int(a/32), int(a%32)) && flip(w, s, v, o, int(b/32), int(b%32)) {
							s.touched(v, int(a/32), int(b/32))
							s.check(w, o, v)
						}
					})
				}
			}
			c.Range("bytes", tot*187*10, "every byte after the sync byte of every packet, each of its bits inverted, all ones, zero", func(w *kit.W) {
				x := w.Index
				m := int(x % 10)
				x /= 10
				b := int(x%187) + 1
				s, i := at(x / 187)
				v := newVerdict()
				o := s.raw()
				r := append([]byte{}, o[i]...)
				switch m {
				case 8:
					r[b] = 0xFF
				case 9:
					r[b] = 0
				default:
					r[b] ^= 1 << m
				}
				if r[b] == o[i][b] {
					return
				}
				o[i] = r
				s.touch(v, i, uint16(r[1]&0x1F)<<8|uint16(r[2]))
				s.check(w, o, v)
			})
		},
	})

	kit.Register(&kit.Check{
		ID:          "T05",
		Assumptions: []string{"consecutive times are less than half the clock range (2^32 ticks) apart"},
		Run: func(c *kit.Ctx) {
			steps := []int64{0, 1, -1, 3000, -3000, 90000, 1 << 31, -(1 << 31), 1<<32 - 1, -(1<<32 - 1), 1<<32 - 2, -(1<<32 - 2), 3003, 1<<31 + 1}
			starts := []int64{0, 1, ts33 - 1, ts33 - 3000, 1 << 32, 1<<32 - 1, 1<<32 + 1, 1 << 31, 12345}
			mk := func(w *kit.W) *mpegts.TimeDecoder {
				if w.Bool() {
					return mpegts.NewTimeDecoder()
				}
				d := &mpegts.TimeDecoder{}
				d.Initialize()
				return d
			}
			depth := kit.T(c, 4, 6)
			c.Explore("steps", kit.Opt{Bound: fmt.Sprintf("every sequence of %d steps out of %d, in both directions, from %d starting points", depth, len(steps), len(starts))}, func(w *kit.W) {
				d := mk(w)
				t0 := kit.Of(w, starts...)
				t := t0
				w.Check(d.Decode(t&(ts33-1)) == 0, "time-first", "first time is not zero (start %d)", t0)
				for range depth {
					t += kit.Of(w, steps...)
					got := d.Decode(t & (ts33 - 1))
					w.Check(got == t-t0, "time-step", "start %d: time %d decoded as %d, want %d", t0, t&(ts33-1), got, t-t0)
					w.Ops(1)
				}
				w.Step(kit.H(t - t0))
			})
			c.Explore("wraps", kit.Opt{Bound: "1000 equal steps, up to 500 wraps in either direction, then back; a second decoder in between"}, func(w *kit.W) {
				d, d2 := mk(w), mk(w)
				t0 := kit.Of(w, starts...)
				st := kit.Of(w, steps...)
				t := t0
				d.Decode(t & (ts33 - 1))
				d2.Decode(5)
				for i := range 2000 {
					if i < 1000 {
						t += st
					} else {
						t -= st
					}
					got := d.Decode(t & (ts33 - 1))
					w.Check(got == t-t0, "time-step", "start %d step %d: %d, want %d", t0, st, got, t-t0)
					got = d2.Decode((5 + int64(i+1)*7) & (ts33 - 1))
					w.Check(got == int64(i+1)*7, "time-independent", "%d", got)
					w.Ops(2)
				}
				w.Check(d.Decode(t0&(ts33-1)) == 0, "time-return", "back at the start")
			})
			// every pair of times around the boundaries of the 33-bit range
			var grid []int64
			for _, b := range []int64{0, 1 << 31, 1 << 32, 3 << 31, ts33 / 4, ts33 - 1} {
				for e := int64(-12); e <= 12; e++ {
					grid = append(grid, (b+e)&(ts33-1))
				}
			}
			n := uint64(len(grid))
			c.Range("pairs", n*n*uint64(len(steps)), "every pair of times out of a grid at every boundary of the range, after any first step", func(w *kit.W) {
				x := w.Index
				st := steps[x%uint64(len(steps))]
				x /= uint64(len(steps))
				a, b := grid[x%n], grid[x/n]
				df := (b - a) & (ts33 - 1)
				if df == 1<<32 {
					return
				}
				if df > 1<<32 {
					df -= ts33
				}
				d := &mpegts.TimeDecoder{}
				d.Decode((a - st) & (ts33 - 1))
				d.Decode(a)
				got := d.Decode(b)
				w.Check(got == st+df, "time-pair", "step %d then %d -> %d: %d, want %d", st, a, b, got, st+df)
			})
		},
	})

	kit.Register(&kit.Check{
		ID: "T06",
		Assumptions: []string{
			"fields are within the width the syntax gives them; wider values are checked to give an error",
			"Opus channel layouts have at most 255 streams plus coupled streams; decoder configuration flags 5 and 6 are not supported, as the code states",
		},
		Run: tsSubstructs,
	})
}

// startup: the reader starts when it has both tables and, after them, the parameters of every track.
func (s *tsStream) startup(v *tsVerdict, order []int) {
	pat, pmt := false, -1
	for at, i := range order {
		if pmt >= 0 {
			break
		}
		if s.ps[i].pid == 0 {
			pat = true
		}
		if s.ps[i].pid == 0x1000 && pat {
			pmt = at
		}
	}
	if pmt < 0 {
		v.initErr = true
		return
	}
	size, got, last := map[int]int{}, map[int]int{}, map[int]int{}
	for _, p := range s.ps {
		size[p.sample]++
	}
	for _, i := range order[pmt:] {
		p := s.ps[i]
		if p.sample >= 0 && last[p.sample] <= i {
			last[p.sample] = i
			got[p.sample]++
		}
	}
	for trk, t := range s.trks {
		if !tsNeedsData(t.kind) {
			continue
		}
		any := false
		for smp := range s.ss {
			any = any || s.ss[smp].trk == trk && size[smp] == got[smp] && !v.spoiled[smp]
		}
		if !any {
			v.initErr = true
		}
	}
}

// touched notes what depends on damaged packets, including tables that a damaged counter turns into repetitions.
func (s *tsStream) touched(v *tsVerdict, is ...int) {
	gone := map[int]bool{}
	for _, i := range is {
		gone[i] = true
		for j := i + 1; j < len(s.ps) && s.ps[i].sample < 0; j++ {
			if s.ps[j].pid == s.ps[i].pid {
				gone[j] = true
				break
			}
		}
	}
	s.lastTables(v, gone)
}

// lastTables notes what depends on things before it.
func (s *tsStream) lastTables(v *tsVerdict, gone map[int]bool) {
	var order []int
	for i := range s.ps {
		if !gone[i] {
			order = append(order, i)
		}
	}
	s.startup(v, order)
	// a KLV unit without a timestamp before it is dropped
	clock := false
	for i, p := range s.ps {
		if p.sample < 0 || !p.pesStart {
			continue
		}
		if s.trks[s.ss[p.sample].trk].kind != kKLVA {
			clock = clock || !gone[i]
		} else if !clock {
			v.spoiled[p.sample] = true
		}
	}
}

func refOpusDesc(d *substructs.OpusAudioDescriptor) []byte {
	b := &bitw{}
	b.u(uint64(d.ChannelConfigCode), 8)
	if d.ChannelConfigCode == 0x81 {
		b.u(uint64(d.ExplicitChannelCount), 8).u(uint64(d.MappingFamily), 8)
		if d.MappingFamily != 0 {
			nb := func(n int) int { // bits needed for values below n
				k := 0
				for 1<<k < n {
					k++
				}
				return k
			}
			b.u(uint64(d.StreamCount-1), nb(d.ExplicitChannelCount))
			b.u(uint64(d.CoupledStreamCount), nb(d.StreamCount+1))
			for _, m := range d.ChannelMapping {
				b.u(uint64(m), nb(d.StreamCount+d.CoupledStreamCount+1))
			}
		}
	}
	return b.align().out()
}

func tsSubstructs(c *kit.Ctx) {
	// ---- Opus descriptor
	opus := func(w *kit.W, d *substructs.OpusAudioDescriptor) {
		want := refOpusDesc(d)
		enc, err := d.Marshal()
		w.Check(err == nil && bytes.Equal(enc, want), "opusdesc-encode", "%+v: %x %v, want %x", *d, enc, err, want)
		used := substructs.OpusAudioDescriptor{ChannelConfigCode: 3, ExplicitChannelCount: 9, MappingFamily: 2, StreamCount: 7, CoupledStreamCount: 1, ChannelMapping: []byte{1, 2}}
		for _, o := range []substructs.OpusAudioDescriptor{{}, used} {
			err = o.Unmarshal(enc)
			w.Check(err == nil && deepEq(&o, d), "opusdesc-decode", "%x: %v %s", enc, err, diff(&o, d))
		}
		if d.ChannelConfigCode == 0x81 && d.MappingFamily != 0 { // decoders ignore padding and what follows
			for _, v := range []byte{0x01, 0x55, 0xAA, 0xFF} {
				used := 0
				for _, n := range []int{d.ExplicitChannelCount, d.StreamCount + 1} {
					for k := 1; k < n; k *= 2 {
						used++
					}
				}
				for k := 1; k < d.StreamCount+d.CoupledStreamCount+1; k *= 2 {
					used += d.ExplicitChannelCount
				}
				in := clone(enc)
				if used%8 != 0 {
					in[len(in)-1] |= v & (0xFF >> (used % 8))
				}
				in = append(in, v)
				var o substructs.OpusAudioDescriptor
				err = o.Unmarshal(in)
				w.Check(err == nil && deepEq(&o, d), "opusdesc-reserved", "%x: %v %s", in, err, diff(&o, d))
			}
		}
		for i := range enc {
			var o substructs.OpusAudioDescriptor
			w.Check(o.Unmarshal(enc[:i]) != nil, "opusdesc-truncated", "%x accepted", enc[:i])
		}
		cc := d.ExplicitChannelCount
		if d.ChannelConfigCode != 0x81 {
			cc = map[uint8]int{0: 2, 0x80: 2}[d.ChannelConfigCode]
			if cc == 0 {
				if d.ChannelConfigCode < 9 {
					cc = int(d.ChannelConfigCode)
				} else {
					cc = int(d.ChannelConfigCode) - 0x81
				}
			}
		}
		w.Check(d.ChannelCount() == cc, "opusdesc-channels", "%+v: %d, want %d", *d, d.ChannelCount(), cc)
		w.Step(kit.H(len(enc)))
	}
	c.Range("opus-codes", 256, "every channel configuration code", func(w *kit.W) {
		code := uint8(w.Index)
		d := &substructs.OpusAudioDescriptor{ChannelConfigCode: code}
		if code <= 8 || code == 0x80 || code >= 0x82 && code <= 0x88 {
			opus(w, d)
			return
		}
		w.Check(code == 0x81 || d.Unmarshal([]byte{code}) != nil, "opusdesc-accept", "code %x accepted", code)
		w.Check(d.ChannelCount() == 0 || code == 0x81, "opusdesc-channels", "code %x", code)
	})
	c.Range("opus-family0", 4*256, "every channel count of mapping families 0 and with zero channels", func(w *kit.W) {
		ch := int(w.Index % 256)
		fam := []byte{0, 1, 255, 2}[w.Index/256]
		var o substructs.OpusAudioDescriptor
		if fam == 0 && (ch == 1 || ch == 2) {
			opus(w, &substructs.OpusAudioDescriptor{ChannelConfigCode: 0x81, ExplicitChannelCount: ch})
			return
		}
		if fam == 0 || ch == 0 {
			w.Check(o.Unmarshal([]byte{0x81, byte(ch), fam, 0, 0, 0, 0}) != nil, "opusdesc-accept", "family %d, %d channels accepted", fam, ch)
		}
	})
	chans := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 170, 171, 254, 255}
	c.Explore("opus-layouts", kit.Opt{Bound: "25 channel counts, 3 families, every stream and coupled count up to 17 and around powers of two, mappings at every boundary"}, func(w *kit.W) {
		d := &substructs.OpusAudioDescriptor{ChannelConfigCode: 0x81, ExplicitChannelCount: kit.Of(w, chans...), MappingFamily: kit.Of(w, 1, 255, 2)}
		var sc []int
		for n := 1; n <= d.ExplicitChannelCount; n++ {
			if n <= 17 || n&(n-1) == 0 || (n+1)&n == 0 || n == d.ExplicitChannelCount {
				sc = append(sc, n)
			}
		}
		d.StreamCount = kit.Of(w, sc...)
		sc = nil
		for n := 0; n <= d.StreamCount && n+d.StreamCount <= 255; n++ {
			if t := n + d.StreamCount; n <= 5 || t&(t-1) == 0 || (t+1)&t == 0 || n == d.StreamCount {
				sc = append(sc, n)
			}
		}
		d.CoupledStreamCount = kit.Of(w, sc...)
		top := 1
		for top < d.StreamCount+d.CoupledStreamCount+1 {
			top *= 2
		}
		mode := w.Pick(4)
		for i := range d.ExplicitChannelCount {
			d.ChannelMapping = append(d.ChannelMapping, byte([]int{0, top - 1, i % top, (top - 1 - i%top)}[mode]))
		}
		opus(w, d)
	})
	c.Explore("opus-invalid", kit.Opt{MaxDev: 2, Bound: "descriptors with one or two fields out of range: an error, never a panic or a descriptor that reads back differently"}, func(w *kit.W) {
		d := substructs.OpusAudioDescriptor{ChannelConfigCode: kit.DevOf(w, uint8(0x81), 9, 0x7F, 0x89, 0xFF), ExplicitChannelCount: kit.DevOf(w, 3, 0, -1, 256, 255, 1), MappingFamily: kit.DevOf(w, 1, 0, 256, -1),
			StreamCount: kit.DevOf(w, 2, 0, -1, 4, 5, 256), CoupledStreamCount: kit.DevOf(w, 1, -1, 3, 4, 256), ChannelMapping: kit.DevOf(w, []byte{0, 1, 2}, nil, []byte{0}, []byte{0, 1, 4}, []byte{0, 1, 2, 3})}
		enc, err := d.Marshal()
		if err == nil {
			var o substructs.OpusAudioDescriptor
			err = o.Unmarshal(enc)
			w.Check(err == nil, "opusdesc-invalid", "%+v encoded as %x, which is rejected: %v", d, enc, err)
			if d.MappingFamily != 0 {
				w.Check(deepEq(&o, &d), "opusdesc-invalid", "%+v encoded as %x: %s", d, enc, diff(&o, &d))
			}
		}
	})
	// ---- metadata descriptor
	mdRef := func(d *substructs.MetadataDescriptor) []byte {
		b := &bitw{}
		b.u(uint64(d.MetadataApplicationFormat), 16)
		if d.MetadataApplicationFormat == 0xFFFF {
			b.u(uint64(d.MetadataApplicationFormatIdentifier), 32)
		}
		b.u(uint64(d.MetadataFormat), 8)
		if d.MetadataFormat == 0xFF {
			b.u(uint64(d.MetadataFormatIdentifier), 32)
		}
		b.u(uint64(d.MetadataServiceID), 8).u(uint64(d.DecoderConfigFlags), 3).flag(d.DSMCCFlag).u(15, 4)
		if d.DSMCCFlag {
			b.u(uint64(len(d.ServiceIdentification)), 8).bytes(d.ServiceIdentification)
		}
		switch d.DecoderConfigFlags {
		case 1:
			b.u(uint64(len(d.DecoderConfig)), 8).bytes(d.DecoderConfig)
		case 3:
			b.u(uint64(len(d.DecConfigIdentification)), 8).bytes(d.DecConfigIdentification)
		case 4:
			b.u(uint64(d.DecoderConfigMetadataServiceID), 8)
		}
		return b.bytes(d.PrivateData).out()
	}
	lens := []int{0, 1, 2, 127, 254, 255}
	c.Explore("metadata-descriptor", kit.Opt{Bound: "every application format and format class, decoder configuration flag, DSM-CC flag, lengths 0 to 255, private data"}, func(w *kit.W) {
		d := &substructs.MetadataDescriptor{MetadataApplicationFormat: kit.Of(w, uint16(0x0100), 0xFFFF, 0xFFFE, 0xFF), MetadataFormat: kit.Of(w, uint8(0xFF), 0, 0xFE, 0x10),
			MetadataServiceID: kit.Of(w, uint8(0), 255, 0x42), DecoderConfigFlags: kit.Of(w, uint8(0), 1, 2, 3, 4, 7), DSMCCFlag: w.Bool()}
		if d.MetadataApplicationFormat == 0xFFFF {
			d.MetadataApplicationFormatIdentifier = kit.Of(w, uint32(0x4B4C5641), 0xFFFFFFFF, 0, 0x01020304)
		}
		if d.MetadataFormat == 0xFF {
			d.MetadataFormatIdentifier = kit.Of(w, uint32(0x4B4C5641), 0xFFFFFFFF, 0, 0x01020304)
		}
		if d.DSMCCFlag {
			d.ServiceIdentification = pat(kit.Of(w, lens...), 1)
		}
		switch d.DecoderConfigFlags {
		case 1:
			d.DecoderConfig = pat(kit.Of(w, lens...), 2)
		case 3:
			d.DecConfigIdentification = pat(kit.Of(w, lens...), 3)
		case 4:
			d.DecoderConfigMetadataServiceID = kit.Of(w, uint8(0), 255, 7)
		}
		d.PrivateData = pat(kit.Of(w, 0, 1, 40), 4)
		want := mdRef(d)
		enc, err := d.Marshal()
		w.Check(err == nil && bytes.Equal(enc, want), "metadata-encode", "%s: %x %v, want %x", dump(d), enc, err, want)
		used := substructs.MetadataDescriptor{MetadataApplicationFormatIdentifier: 5, MetadataFormatIdentifier: 6, ServiceIdentification: []byte{1}, DecoderConfig: []byte{2}, DecConfigIdentification: []byte{3}, DecoderConfigMetadataServiceID: 4, PrivateData: []byte{9}}
		for _, o := range []substructs.MetadataDescriptor{{}, used} {
			err = o.Unmarshal(enc)
			w.Check(err == nil && deepEq(&o, d), "metadata-decode", "%x: %v %s", enc, err, diff(&o, d))
		}
		flags := 4
		if d.MetadataApplicationFormat == 0xFFFF {
			flags += 4
		}
		if d.MetadataFormat == 0xFF {
			flags += 4
		}
		for r := range 15 { // decoders ignore reserved bits
			in := clone(enc)
			in[flags] = in[flags]&0xF0 | byte(r)
			var o substructs.MetadataDescriptor
			err = o.Unmarshal(in)
			w.Check(err == nil && deepEq(&o, d), "metadata-reserved", "%x: %v %s", in, err, diff(&o, d))
		}
		fixed := len(enc) - len(d.PrivateData)
		for i := range enc {
			var o substructs.MetadataDescriptor
			err = o.Unmarshal(enc[:i])
			if i < fixed {
				w.Check(err != nil, "metadata-truncated", "%x accepted", enc[:i])
			} else {
				w.Check(err == nil && len(o.PrivateData) == i-fixed, "metadata-private", "%x: %v", enc[:i], err)
			}
		}
		w.Step(kit.H(len(enc)))
	})
	c.Explore("metadata-invalid", kit.Opt{Bound: "fields that do not fit: an error or a descriptor that reads back equal"}, func(w *kit.W) {
		d := substructs.MetadataDescriptor{MetadataApplicationFormat: 0x100, MetadataFormat: 0x10, DecoderConfigFlags: uint8(w.Pick(256)), DSMCCFlag: w.Bool()}
		n := kit.Of(w, 0, 255, 256, 257, 300)
		if d.DSMCCFlag {
			d.ServiceIdentification = pat(n, 1)
		}
		switch d.DecoderConfigFlags {
		case 1:
			d.DecoderConfig = pat(n, 2)
		case 3:
			d.DecConfigIdentification = pat(n, 2)
		}
		enc, err := d.Marshal()
		if err == nil {
			var o substructs.MetadataDescriptor
			err = o.Unmarshal(enc)
			w.Check(err == nil && deepEq(&o, &d), "metadata-invalid", "%s encoded as %x: %v %s", dump(d), enc, err, diff(&o, &d))
		}
	})
	// ---- metadata STD descriptor
	v22 := []uint32{0, 1, 0xFF, 0x100, 0xFFFF, 0x10000, 0x3FFFFF, 0x200000, 0x123456}
	big := []uint32{0x400000, 0x800000, 0xFFFFFFFF, 0x1000000}
	c.Explore("metadata-std", kit.Opt{Bound: "9 values and 4 oversized values in each of the three fields; reserved bits of every value"}, func(w *kit.W) {
		all := append(append([]uint32{}, v22...), big...)
		d := substructs.MetadataSTDDescriptor{MetadataInputLeakRate: kit.Of(w, all...), MetadataBufferSize: kit.Of(w, all...), MetadataOutputLeakRate: kit.Of(w, all...)}
		enc, err := d.Marshal()
		if d.MetadataInputLeakRate >= 1<<22 || d.MetadataBufferSize >= 1<<22 || d.MetadataOutputLeakRate >= 1<<22 {
			w.Check(err != nil, "metadatastd-invalid", "%+v encoded as %x", d, enc)
			return
		}
		want := (&bitw{}).u(3, 2).u(uint64(d.MetadataInputLeakRate), 22).u(3, 2).u(uint64(d.MetadataBufferSize), 22).u(3, 2).u(uint64(d.MetadataOutputLeakRate), 22).out()
		w.Check(err == nil && bytes.Equal(enc, want), "metadatastd-encode", "%+v: %x %v, want %x", d, enc, err, want)
		for _, o := range []substructs.MetadataSTDDescriptor{{}, {MetadataInputLeakRate: 1, MetadataBufferSize: 2, MetadataOutputLeakRate: 3}} {
			err = o.Unmarshal(enc)
			w.Check(err == nil && o == d, "metadatastd-decode", "%x: %v %+v", enc, err, o)
		}
		for r := range 64 { // decoders ignore reserved bits
			in := clone(enc)
			for k := range 3 {
				in[3*k] = in[3*k]&0x3F | byte(r>>(2*k))<<6
			}
			var o substructs.MetadataSTDDescriptor
			err = o.Unmarshal(in)
			w.Check(err == nil && o == d, "metadatastd-reserved", "%x: %v %+v, want %+v", in, err, o, d)
		}
		for i := 0; i <= len(enc)+1; i++ {
			if i != len(enc) {
				var o substructs.MetadataSTDDescriptor
				w.Check(o.Unmarshal(append(clone(enc), 0)[:min(i, 10)]) != nil, "metadatastd-length", "%d bytes accepted", i)
			}
		}
	})
	// ---- metadata cell
	cells := []int{0, 1, 2, 254, 255, 256, 257, 65534, 65535, 65536, 70000}
	c.Explore("metadata-cell", kit.Opt{Bound: "every service ID and sequence boundary, fragment indication, flags, sizes 0 to 65535 and beyond, followed by other bytes or nothing; every truncation around the ends; reserved bits of every value"}, func(w *kit.W) {
		d := substructs.MetadataAUCell{MetadataServiceID: kit.Of(w, uint8(0), 1, 255), SequenceNumber: kit.Of(w, uint8(0), 1, 127, 255), CellFragmentIndication: uint8(w.Pick(5)), DecoderConfigFlag: w.Bool(), RandomAccessIndicator: w.Bool()}
		d.AUCellData = pat(kit.Of(w, cells...), 7)
		buf := make([]byte, 5+len(d.AUCellData))
		n, err := d.MarshalTo(buf)
		if d.CellFragmentIndication > 3 || len(d.AUCellData) > 65535 {
			w.Check(err != nil, "cell-invalid", "encoded with indication %d and %d bytes", d.CellFragmentIndication, len(d.AUCellData))
			return
		}
		want := (&bitw{}).u(uint64(d.MetadataServiceID), 8).u(uint64(d.SequenceNumber), 8).u(uint64(d.CellFragmentIndication), 2).flag(d.DecoderConfigFlag).flag(d.RandomAccessIndicator).u(15, 4).u(uint64(len(d.AUCellData)), 16).bytes(d.AUCellData).out()
		w.Check(err == nil && n == len(want) && bytes.Equal(buf, want), "cell-encode", "%d %v, want %d", n, err, len(want))
		in := append(clone(want), pat(3*w.Pick(2), 9)...)
		for _, o := range []substructs.MetadataAUCell{{}, {MetadataServiceID: 9, SequenceNumber: 9, CellFragmentIndication: 2, DecoderConfigFlag: true, RandomAccessIndicator: true, AUCellData: []byte{1}}} {
			n, err = o.Unmarshal(in)
			w.Check(err == nil && n == len(want) && deepEq(&o, &d), "cell-decode", "%d %v %s", n, err, diff(&o, &d))
		}
		for r := range 16 { // decoders ignore reserved bits
			in[2] = in[2]&0xF0 | byte(r)
			var o substructs.MetadataAUCell
			n, err = o.Unmarshal(in)
			w.Check(err == nil && n == len(want) && deepEq(&o, &d), "cell-reserved", "reserved %x: %d %v %s", r, n, err, diff(&o, &d))
		}
		for i := range want {
			if i > 8 && i < len(want)-3 {
				continue
			}
			var o substructs.MetadataAUCell
			_, err = o.Unmarshal(want[:i])
			w.Check(err != nil, "cell-truncated", "%d of %d bytes accepted", i, len(want))
		}
	})
	// ---- Opus access unit
	c.Explore("opus-unit", kit.Opt{Bound: "every flag combination, trims 0 to 8191 and beyond, extension lengths 0 to 255, payload sizes around every multiple of 255 up to 1275, 61k and 100k, followed by other bytes or nothing; truncations around the ends; reserved bits of every value"}, func(w *kit.W) {
		h := substructs.OpusControlHeader{StartTrimFlag: w.Bool(), EndTrimFlag: w.Bool(), ControlExtensionFlag: w.Bool()}
		h.PayloadSize = kit.Of(w, 0, 1, 2, 254, 255, 256, 509, 510, 511, 764, 765, 766, 1275, 1276, 61440, 100000)
		trims := []uint16{0, 1, 255, 256, 0x1FFF, 0x1000, 0x2000, 0xFFFF}
		bad := false
		if h.StartTrimFlag {
			h.StartTrim = kit.Of(w, trims...)
			bad = h.StartTrim > 0x1FFF
		}
		if h.EndTrimFlag {
			h.EndTrim = kit.Of(w, trims...)
			bad = bad || h.EndTrim > 0x1FFF
		}
		if h.ControlExtensionFlag {
			h.ControlExtensionLength = kit.Of(w, uint8(0), 1, 200, 255)
		}
		au := &substructs.OpusAccessUnit{ControlHeader: h, Packet: pat(h.PayloadSize, 3)}
		size := au.MarshalSize()
		buf := make([]byte, size)
		n, err := au.MarshalTo(buf)
		if bad {
			w.Check(err != nil, "opusunit-invalid", "%+v encoded", h)
			return
		}
		b := (&bitw{}).u(0x3FF, 11).flag(h.StartTrimFlag).flag(h.EndTrimFlag).flag(h.ControlExtensionFlag).u(0, 2)
		r := h.PayloadSize
		for ; r >= 255; r -= 255 {
			b.u(255, 8)
		}
		b.u(uint64(r), 8)
		if h.StartTrimFlag {
			b.u(0, 3).u(uint64(h.StartTrim), 13)
		}
		if h.EndTrimFlag {
			b.u(0, 3).u(uint64(h.EndTrim), 13)
		}
		if h.ControlExtensionFlag {
			b.u(uint64(h.ControlExtensionLength), 8).bytes(make([]byte, h.ControlExtensionLength))
		}
		head := len(b.out())
		want := append(clone(b.out()), au.Packet...)
		w.Check(size == len(want) && n == size && err == nil && bytes.Equal(buf, want), "opusunit-encode", "%+v: size %d, wrote %d, %v, want %d: %s, want %s", h, size, n, err, len(want), hx(buf), hx(want))
		in := append(clone(want), pat(5*w.Pick(2), 9)...)
		for _, o := range []substructs.OpusAccessUnit{{}, {ControlHeader: substructs.OpusControlHeader{PayloadSize: 3, StartTrimFlag: true, EndTrimFlag: true, ControlExtensionFlag: true, StartTrim: 4, EndTrim: 5, ControlExtensionLength: 6}, Packet: []byte{1}}} {
			n, err = o.Unmarshal(in)
			w.Check(err == nil && n == len(want) && deepEq(&o, au), "opusunit-decode", "%+v: %d %v %s", h, n, err, diff(&o, au))
		}
		for r := 1; r < 8; r++ { // decoders ignore reserved bits
			in := clone(in)
			in[1] |= byte(r) & 3
			at := head - 1
			if h.ControlExtensionFlag {
				for i := range int(h.ControlExtensionLength) {
					in[head-1-i] = byte(r + i)
				}
				at -= int(h.ControlExtensionLength) + 1
			}
			for _, fl := range []bool{h.EndTrimFlag, h.StartTrimFlag} {
				if fl {
					in[at-1] |= byte(r) << 5
					at -= 2
				}
			}
			var o substructs.OpusAccessUnit
			n, err = o.Unmarshal(in)
			w.Check(err == nil && n == len(want) && deepEq(&o, au), "opusunit-reserved", "%+v, reserved bits %d: %d %v %s", h, r, n, err, diff(&o, au))
		}
		for i := range want {
			if i > head+2 && i < len(want)-2 {
				continue
			}
			var o substructs.OpusAccessUnit
			_, err = o.Unmarshal(want[:i])
			w.Check(err != nil, "opusunit-truncated", "%d of %d bytes accepted", i, len(want))
		}
		au.Packet = append(au.Packet, 0)
		_, err = au.MarshalTo(make([]byte, size+1))
		w.Check(err != nil, "opusunit-size", "a packet larger than its header says was encoded")
		w.Step(kit.H(size))
	})
	c.Range("opus-prefix", 1<<16, "every first two bytes of an Opus access unit", func(w *kit.W) {
		in := append([]byte{byte(w.Index >> 8), byte(w.Index)}, make([]byte, 8)...)
		var o substructs.OpusAccessUnit
		n, err := o.Unmarshal(in)
		f := int(w.Index)
		ok := f>>5 == 0x3FF
		w.Check((err == nil) == ok, "opusunit-prefix", "%x: %v", in[:2], err)
		if ok {
			want := 3 + 2*(f>>4&1) + 2*(f>>3&1) + f>>2&1
			w.Check(n == want, "opusunit-consumed", "%x: %d, want %d", in[:2], n, want)
		}
	})
	// ---- codec kinds
	c.Range("video", 1, "which codecs are video", func(w *kit.W) {
		for k := range kCount {
			cd, _ := tsCodec(k, 0)
			w.Check(cd.IsVideo() == tsVideo(k), "codec-video", "%s: IsVideo %v", tsNames[k], cd.IsVideo())
		}
		w.Check(!(&codecs.Unsupported{}).IsVideo(), "codec-video", "unsupported codec")
	})
}
