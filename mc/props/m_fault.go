package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	amp4 "github.com/abema/go-mp4"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"

	"verif/mc/kit"
)

var errInjected = errors.New("verif: injected failure")

// ioFault tells what happens at each call.
type ioFault struct {
	at     []int // calls that fail, in order
	sticky bool  // every later call fails too
	half   bool  // half of the data is transferred before failing
	err    error
	short  int // transfer at most so many bytes per read, without failing (0: no limit)

	n   int
	hit bool
}

func (f *ioFault) next() bool {
	k := f.n
	f.n++
	for _, a := range f.at {
		if k == a || (f.sticky && k > a) {
			f.hit = true
			return true
		}
	}
	return false
}

// faultWS is an in-memory destination.
type faultWS struct {
	f   *ioFault
	b   []byte
	pos int
}

func (w *faultWS) Write(p []byte) (int, error) {
	q := p
	bad := w.f.next()
	if bad {
		q = q[:0]
		if w.f.half {
			q = p[:len(p)/2]
		}
	}
	if need := w.pos + len(q); need > len(w.b) {
		w.b = append(w.b, make([]byte, need-len(w.b))...)
	}
	copy(w.b[w.pos:], q)
	w.pos += len(q)
	if bad {
		return len(q), w.f.err
	}
	return len(q), nil
}

func (w *faultWS) Seek(off int64, whence int) (int64, error) {
	if w.f.next() {
		return 0, w.f.err
	}
	w.pos = int(off) + []int{0, w.pos, len(w.b)}[whence]
	return int64(w.pos), nil
}

// faultRS is an in-memory source.
type faultRS struct {
	f   *ioFault
	r   *bytes.Reader
	eof bool // the end is reported together with the last data
}

func (s *faultRS) Read(p []byte) (int, error) {
	bad := s.f.next()
	if bad {
		if !s.f.half {
			return 0, s.f.err
		}
		p = p[:len(p)/2]
	}
	if s.f.short > 0 && len(p) > s.f.short {
		p = p[:s.f.short]
	}
	n, err := s.r.Read(p)
	if bad {
		return n, s.f.err
	}
	if s.eof && err == nil && s.r.Len() == 0 {
		return n, io.EOF
	}
	return n, err
}

func (s *faultRS) Seek(off int64, whence int) (int64, error) {
	if s.f.next() {
		return 0, s.f.err
	}
	return s.r.Seek(off, whence)
}

// faultFile is something that can be written and read.
type faultFile struct {
	name  string
	write func(w *faultWS) error
	// read gives a description of what was read
	read func(r io.ReadSeeker) (string, error)
}

func faultPres(k int) *pmp4.Presentation {
	mk := func(kind int, id int, off int32, sizes ...int) *presTrack {
		t := &presTrack{m: mpCodec(kind, mpDef, mvDef), id: uint32(id), ts: 1000, off: off}
		for i, n := range sizes {
			t.ss = append(t.ss, presSample{dur: uint32(10 + i), pts: int32(i), nonSync: i%2 == 1, data: pat(n, byte(id*50+i*7))})
		}
		return t
	}
	if k == 0 {
		return presMake([]*presTrack{mk(mH264, 1, 0, 5, 0, 9), mk(mAAC, 2, 12, 3, 3, 3, 700)}, nil)
	}
	return presMake([]*presTrack{mk(k-1, 3, -5, 4, 4)}, nil)
}

func presPayloads(p *pmp4.Presentation) (string, error) {
	var sb strings.Builder
	var first error
	for i, t := range p.Tracks {
		for j, s := range t.Samples {
			d, err := s.GetPayload()
			if err != nil {
				if first == nil {
					first = err
				}
				continue
			}
			if first == nil {
				fmt.Fprintf(&sb, "%d/%d %d %d %v %x\n", i, j, s.Duration, s.PTSOffset, s.IsNonSyncSample, d)
			}
		}
	}
	return sb.String(), first
}

func faultFiles() []*faultFile {
	var out []*faultFile
	addInit := func(name string, in *fmp4.Init) {
		out = append(out, &faultFile{name: name, write: func(w *faultWS) error { return in.Marshal(w) }, read: func(r io.ReadSeeker) (string, error) {
			var x fmp4.Init
			err := x.Unmarshal(r)
			s := fmt.Sprintf("%d", len(x.UserData))
			for _, t := range x.Tracks {
				s += fmt.Sprintf("%d %d %s\n", t.ID, t.TimeScale, deepDump(t.Codec))
			}
			for _, b := range x.UserData {
				s += fmt.Sprintf("%T %s\n", b, dump(b))
			}
			return s, err
		}})
	}
	for k := range mKinds {
		addInit("init-"+mNames[k], &fmp4.Init{Tracks: []*fmp4.InitTrack{{ID: 1, TimeScale: 90000, Codec: mpCodec(k, mpDef, mvDef).codec}}})
	}
	addInit("init-two", &fmp4.Init{
		Tracks:   []*fmp4.InitTrack{{ID: 1, TimeScale: 90000, Codec: mpCodec(mH265, mpDef, mvDef).codec}, {ID: 2, TimeScale: 48000, Codec: mpCodec(mFLAC, mpDef, mvDef).codec}},
		UserData: []amp4.IBox{&amp4.Free{Data: []byte{1, 2}}},
	})
	pt := func(id int, n int) *fmp4.PartTrack {
		t := &fmp4.PartTrack{ID: id, BaseTime: uint64(id) << 33}
		for i := range n {
			t.Samples = append(t.Samples, &fmp4.Sample{Duration: uint32(10 + i), PTSOffset: int32(i) - 1, IsNonSyncSample: i > 0, Payload: pat(i*3, byte(i))})
		}
		return t
	}
	for k, ps := range []fmp4.Parts{
		{{SequenceNumber: 1}},
		{{SequenceNumber: 1, Tracks: []*fmp4.PartTrack{pt(1, 3), pt(2, 2)}}},
		{{SequenceNumber: 1, Tracks: []*fmp4.PartTrack{pt(1, 0)}}, {SequenceNumber: 2, Tracks: []*fmp4.PartTrack{pt(1, 1), pt(2, 4)}}},
	} {
		out = append(out, &faultFile{name: fmt.Sprintf("parts-%d", k), write: func(w *faultWS) error { return ps.Marshal(w) }})
	}
	for k := range mKinds + 1 {
		out = append(out, &faultFile{name: fmt.Sprintf("presentation-%d", k), write: func(w *faultWS) error { return faultPres(k).Marshal(w) }, read: func(r io.ReadSeeker) (string, error) {
			var x pmp4.Presentation
			err := x.Unmarshal(r)
			if err != nil {
				return "", err
			}
			s := ""
			for _, t := range x.Tracks {
				s += fmt.Sprintf("%d %d %d %s\n", t.ID, t.TimeScale, t.TimeOffset, deepDump(t.Codec))
			}
			pl, err := presPayloads(&x)
			return s + pl, err
		}})
	}
	return out
}

func init() {
	kit.Register(&kit.Check{
		ID: "M05",
		Assumptions: []string{
			"a failing call transfers nothing or half of the data; the position of the source or destination does not move when seeking fails",
			"a failure that happens once may be ignored when reading if the result is complete and right (the MP4 library asks the size of the source again and again); one that persists must give an error",
			"destinations that accept part of the data without giving an error break the contract of io.Writer and are not injected",
		},
		Run: func(c *kit.Ctx) {
			files := faultFiles()
			type point struct {
				f    *faultFile
				call int
				two  int
			}
			var wr, rd []point
			golden := map[string][]byte{}
			goldenRead := map[string]string{}
			refused := map[string]string{}
			for _, f := range files {
				ff := &ioFault{}
				ws := &faultWS{f: ff}
				if err := f.write(ws); err != nil {
					refused[f.name] = "writing: " + err.Error()
					continue
				}
				golden[f.name] = ws.b
				for k := range ff.n {
					wr = append(wr, point{f: f, call: k, two: -1})
				}
				if f.read == nil {
					continue
				}
				ff = &ioFault{}
				s, err := f.read(&faultRS{f: ff, r: bytes.NewReader(ws.b)})
				if err != nil {
					refused[f.name] = "reading: " + err.Error()
					continue
				}
				goldenRead[f.name] = s
				for k := range ff.n {
					rd = append(rd, point{f: f, call: k, two: -1})
				}
			}
			c.Range("clean", uint64(len(files)), "the same files without failures are written and read", func(w *kit.W) {
				f := files[w.Index]
				w.Check(refused[f.name] == "", "clean", "%s: refused without any failure, %s", f.name, refused[f.name])
				w.Ops(1)
				w.Step(kit.H(f.name))
			})
			c.Range("write", uint64(len(wr)*4), "files of every codec and layout; every write and seek call of the destination fails, once or for good, with nothing or half of the data accepted", func(w *kit.W) {
				p := wr[w.Index/4]
				ff := &ioFault{at: []int{p.call}, sticky: w.Index&1 != 0, half: w.Index&2 != 0, err: errInjected}
				ws := &faultWS{f: ff}
				err := p.f.write(ws)
				w.Check(ff.hit, "unreached", "%s: call %d not reached", p.f.name, p.call)
				w.Check(err != nil, "write-lost", "%s: failure of call %d lost, error is %v", p.f.name, p.call, err)
				w.Ops(int64(ff.n))
				w.Step(kit.H(p.f.name, ws.b, ff.n))
			})
			errs := []error{errInjected, io.ErrUnexpectedEOF}
			c.Range("read", uint64(len(rd)*8), "files of every codec and layout; every read and seek call of the source fails, once or for good, with nothing or half of the data delivered, while reading the file and fetching every payload", func(w *kit.W) {
				p := rd[w.Index/8]
				ff := &ioFault{at: []int{p.call}, sticky: w.Index&1 != 0, half: w.Index&2 != 0, err: errs[w.Index>>2&1]}
				s, err := p.f.read(&faultRS{f: ff, r: bytes.NewReader(golden[p.f.name])})
				w.Check(ff.hit, "unreached", "%s: call %d not reached", p.f.name, p.call)
				if ff.sticky && !(ff.half && ff.n == p.call+1) {
					w.Check(err != nil, "read-lost", "%s: failure of call %d and of all that follow lost", p.f.name, p.call)
				}
				w.Check(err != nil || s == goldenRead[p.f.name], "read-wrong", "%s: failure of call %d gives no error and a wrong result: %s", p.f.name, p.call, diff(s, goldenRead[p.f.name]))
				w.Ops(int64(ff.n))
				w.Step(kit.H(p.f.name, s, ff.n))
			})
			// legal sources
			var read []*faultFile
			for _, f := range files {
				if f.read != nil && refused[f.name] == "" {
					read = append(read, f)
				}
			}
			c.Range("slow", uint64(len(read)*10), "sources that deliver 1, 2, 3, 7 bytes at a time, that report the end with the last data or not", func(w *kit.W) {
				f := read[w.Index/10]
				k := int(w.Index % 10)
				s, err := f.read(&faultRS{f: &ioFault{short: []int{0, 1, 2, 3, 7}[k/2]}, r: bytes.NewReader(golden[f.name]), eof: k&1 != 0})
				w.Check(err == nil && s == goldenRead[f.name], "slow", "%s: %v, %s", f.name, err, diff(s, goldenRead[f.name]))
				w.Ops(1)
				w.Step(kit.H(f.name, k))
			})
			// payloads: fail, then recover
			npres := mKinds + 1
			pw := make([]int, npres)
			total := 0
			idx := [][2]int{}
			for k := range npres {
				n := 0
				for _, t := range faultPres(k).Tracks {
					n += len(t.Samples)
				}
				pw[k] = n
				for j := range n * 2 {
					idx = append(idx, [2]int{k, j})
				}
				total += n
			}
			c.Range("payload", uint64(len(idx)*8), "one call of the source fails while a payload is fetched; then all payloads are fetched again, the failed one first or last", func(w *kit.W) {
				k, j := idx[w.Index/8][0], idx[w.Index/8][1]
				name := fmt.Sprintf("presentation-%d", k)
				ff := &ioFault{half: w.Index&1 != 0, err: errInjected}
				var x pmp4.Presentation
				err := x.Unmarshal(&faultRS{f: ff, r: bytes.NewReader(golden[name])})
				w.Check(err == nil, "payload-unmarshal", "%v", err)
				want, err := presPayloads(faultPres(k))
				w.Check(err == nil, "payload-want", "%v", err)
				var all []*pmp4.Sample
				for _, t := range x.Tracks {
					all = append(all, t.Samples...)
				}
				// move the source somewhere else first
				_, err = all[(j/2+1)%len(all)].GetPayload()
				w.Check(err == nil, "payload-other", "%v", err)
				ff.at = []int{ff.n + j%2}
				ff.sticky = w.Index&2 != 0
				ff.hit = false
				d, err := all[j/2].GetPayload()
				// reading an empty payload may take one call only
				w.Check(err != nil || (!ff.hit && len(d) == int(all[j/2].PayloadSize)), "payload-lost", "track sample %d: failure of call %d lost, %d bytes returned", j/2, j%2, len(d))
				if ff.hit {
					w.Check(errors.Is(err, errInjected), "payload-error", "%v", err)
				}
				ff.at = nil
				if w.Index&4 != 0 {
					_, err = all[j/2].GetPayload()
					w.Check(err == nil, "payload-again", "%v", err)
				}
				got, err := presPayloads(&x)
				w.Check(err == nil && got == want, "payload-recovery", "after a failure: %v, %s", err, diff(got, want))
				w.Ops(int64(ff.n))
				w.Step(kit.H(name, j, int(w.Index%8)))
			})
			c.Range("shrunk", uint64(total), "the source is cut at the start of, inside or at the end of a payload after the file was read", func(w *kit.W) {
				k, j := 0, int(w.Index)
				for j >= pw[k] {
					j -= pw[k]
					k++
				}
				b := golden[fmt.Sprintf("presentation-%d", k)]
				rs := &faultRS{f: &ioFault{}, r: bytes.NewReader(b)}
				var x pmp4.Presentation
				err := x.Unmarshal(rs)
				w.Check(err == nil, "payload-unmarshal", "%v", err)
				var all []*pmp4.Sample
				for _, t := range x.Tracks {
					all = append(all, t.Samples...)
				}
				s := all[j]
				full, err := s.GetPayload()
				w.Check(err == nil, "payload-want", "%v", err)
				end, _ := rs.r.Seek(0, io.SeekCurrent)
				for cut := range len(full) {
					rs.r = bytes.NewReader(b[:int(end)-len(full)+cut])
					d, err := s.GetPayload()
					w.Check(err != nil, "shrunk-lost", "payload of %d bytes cut to %d: %d bytes returned without error", len(full), cut, len(d))
				}
				w.Ops(int64(len(full)))
				w.Step(w.Index)
			})
			// payload callbacks of the user
			c.Range("callback", uint64(total*2), "the payload callback of each sample fails while a presentation is written, with or without data", func(w *kit.W) {
				k, j := 0, int(w.Index/2)
				for j >= pw[k] {
					j -= pw[k]
					k++
				}
				p := faultPres(k)
				for _, t := range p.Tracks {
					if j < len(t.Samples) {
						old := t.Samples[j].GetPayload
						t.Samples[j].GetPayload = func() ([]byte, error) {
							d, _ := old()
							if w.Index&1 == 0 {
								d = nil
							}
							return d, errInjected
						}
						break
					}
					j -= len(t.Samples)
				}
				err := p.Marshal(io.Discard)
				w.Check(errors.Is(err, errInjected), "callback-lost", "error of a payload callback lost: %v", err)
				w.Ops(1)
				w.Step(w.Index)
			})
			if c.Thorough() {
				var pairs []point
				for i, p := range rd {
					for j := i + 1; j < len(rd) && rd[j].f == p.f; j++ {
						pairs = append(pairs, point{p.f, p.call, rd[j].call})
					}
				}
				c.Range("read-two", uint64(len(pairs)*2), "every two calls of the source fail once", func(w *kit.W) {
					p := pairs[w.Index/2]
					ff := &ioFault{at: []int{p.call, p.two}, half: w.Index&1 != 0, err: errInjected}
					s, err := p.f.read(&faultRS{f: ff, r: bytes.NewReader(golden[p.f.name])})
					w.Check(err != nil || s == goldenRead[p.f.name], "read-wrong", "%s: failures of calls %d and %d give no error and a wrong result: %s", p.f.name, p.call, p.two, diff(s, goldenRead[p.f.name]))
					w.Ops(int64(ff.n))
					w.Step(kit.H(p.f.name, s, ff.n))
				})
			}
		},
	})
}
