package props

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"sync"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"

	"verif/mc/kit"
)

// rSeedMenu lists the encodings with at most dev fields away from their default, the default one first.
func rSeedMenu(w *kit.W, t *rTarget, dev int) [][]byte {
	seen := map[string]bool{}
	var out [][]byte
	var rec func(prefix []int, dev int)
	rec = func(prefix []int, dev int) {
		n := 0
		var arity []int
		choose := func(k int) int {
			x := 0
			if n < len(prefix) {
				x = prefix[n]
			}
			n++
			arity = append(arity, k)
			return x
		}
		s := t.seed(w, choose, func(d uint64, alts ...uint64) uint64 {
			if k := choose(len(alts) + 1); k > 0 {
				return alts[k-1]
			}
			return d
		})
		if s != nil && !seen[string(s)] {
			seen[string(s)] = true
			out = append(out, s)
		}
		if dev == 0 {
			return
		}
		for i := len(prefix); i < len(arity); i++ {
			for a := 1; a < arity[i]; a++ {
				p := append(append([]int{}, prefix...), make([]int, i-len(prefix))...)
				rec(append(p, a), dev-1)
			}
		}
	}
	rec(nil, dev)
	return out
}

// pInput is an input with the result it must have.
type pInput struct {
	b    []byte
	err  bool
	text string
	enc  []byte
	encE bool
}

type pMenu struct {
	ins []*pInput // valid encodings, then broken ones
	nv  int
}

// spare gives a copy with some bytes of spare capacity, and a check that nothing was changed.
func spare(b []byte) ([]byte, func() bool) {
	x := append(append(make([]byte, 0, len(b)+16), b...), bytes.Repeat([]byte{0xA5}, 16)...)
	return x[:len(b)], func() bool {
		return bytes.Equal(x[:len(b)], b) && bytes.Equal(x[len(b):], bytes.Repeat([]byte{0xA5}, 16))
	}
}

func pMenuOf(w *kit.W, t *rTarget, dev int) *pMenu {
	m := &pMenu{}
	add := func(b []byte) {
		in := &pInput{b: b}
		x := t.fresh()
		in.err = t.dec(x, clone(b)) != nil
		if !in.err {
			if t.norm != nil {
				t.norm(x)
			}
			in.text = deepText(x)
			if t.enc != nil {
				e, err := t.enc(x)
				in.encE = err != nil
				in.enc = clone(e)
			}
		}
		m.ins = append(m.ins, in)
	}
	for _, s := range rSeedMenu(w, t, dev) {
		add(s)
	}
	m.nv = len(m.ins)
	s := m.ins[0].b
	for n := range min(len(s), 64) {
		add(s[:n])
	}
	for i := range min(len(s), 64) {
		for _, v := range []byte{0xFF, 1, 0x80} {
			x := clone(s)
			x[i] ^= v
			add(x)
		}
	}
	return m
}

// shallow copies the variable to which x points.
func shallow(x any) any {
	p := reflect.New(reflect.TypeOf(x).Elem())
	p.Elem().Set(reflect.ValueOf(x).Elem())
	return p.Interface()
}

// pRun decodes the inputs in turn into the same variable, encoding after each.
func pRun(w *kit.W, t *rTarget, ins ...*pInput) {
	x := t.fresh()
	type old struct {
		val  any
		text string
		out  []byte
		outc []byte
		same func() bool
		in   *pInput
	}
	var olds []old
	check := func() {
		for _, o := range olds {
			w.Check(o.same(), t.name+"-input", "the input %x was changed", o.in.b)
			if o.val != nil {
				if s := deepText(o.val); s != o.text {
					w.Fail(t.name+"-earlier", "the result of decoding %x, that was %s, has become %s", o.in.b, o.text, s)
				}
			}
			w.Check(bytes.Equal(o.out, o.outc), t.name+"-output", "the result of encoding %s, that was %x, has become %x", o.text, o.outc, o.out)
		}
	}
	context := strings.HasPrefix(t.name, "mpeg4audio-mux-element")
	for _, in := range ins {
		b, same := spare(in.b)
		err := t.dec(x, b)
		w.Ops(1)
		o := old{same: same, in: in}
		if in.err {
			// an audio mux element can refer to the configuration of the previous one
			w.Check(err != nil || context, t.name+"-reuse", "%x, which is refused, is accepted after %x", in.b, prev(ins, in))
		} else {
			w.Check(err == nil, t.name+"-reuse", "%x, which is accepted, gives the error %v after %x", in.b, err, prev(ins, in))
			if t.norm != nil {
				t.norm(x)
			}
			o.text = deepText(x)
			w.Check(o.text == in.text, t.name+"-reuse", "%x is decoded as %s, but as %s after %x", in.b, in.text, o.text, prev(ins, in))
			o.val = shallow(x)
			if t.enc != nil {
				o.out, err = t.enc(x)
				o.outc = clone(o.out)
				w.Check((err != nil) == in.encE && bytes.Equal(o.out, in.enc), t.name+"-encode", "%s is encoded as %x, then as %x (%v)", o.text, in.enc, o.out, err)
				w.Check(deepText(x) == o.text, t.name+"-value", "encoding changed %s to %s", o.text, deepText(x))
			}
		}
		olds = append(olds, o)
		check()
		w.Step(kit.H(t.name, o.text))
	}
	// the outputs belong to the caller
	for _, o := range olds {
		for i := range o.out {
			o.out[i] ^= 0x5A
		}
	}
	for _, o := range olds {
		w.Check(o.same(), t.name+"-alias", "writing to what encoding has returned changed the input %x", o.in.b)
		if o.val != nil {
			w.Check(deepText(o.val) == o.text, t.name+"-alias", "writing to what encoding has returned changed the value %s", o.text)
		}
	}
}

func prev(ins []*pInput, in *pInput) []byte {
	for i, x := range ins {
		if x == in && i > 0 {
			return ins[i-1].b
		}
	}
	return nil
}

// pFile decodes a file of some kind into x.
type pFile struct {
	name  string
	fresh func() any
	dec   func(x any, b []byte) error
	text  func(x any) string
	enc   func(x any) ([]byte, error)
	// results obtained through x
	more func(x any) [][]byte
}

func pFiles() []*pFile {
	return []*pFile{
		{
			name: "init", fresh: func() any { return &fmp4.Init{} },
			dec:  func(x any, b []byte) error { return x.(*fmp4.Init).Unmarshal(bytes.NewReader(b)) },
			text: func(x any) string { return deepText(x) },
			enc: func(x any) ([]byte, error) {
				var buf seekablebuffer.Buffer
				err := x.(*fmp4.Init).Marshal(&buf)
				return buf.Bytes(), err
			},
			more: func(any) [][]byte { return nil },
		},
		{
			name: "parts", fresh: func() any { return &fmp4.Parts{} },
			dec:  func(x any, b []byte) error { return x.(*fmp4.Parts).Unmarshal(b) },
			text: func(x any) string { return deepText(x) },
			enc: func(x any) ([]byte, error) {
				var buf seekablebuffer.Buffer
				err := x.(*fmp4.Parts).Marshal(&buf)
				return buf.Bytes(), err
			},
			more: func(x any) [][]byte {
				var out [][]byte
				for _, p := range *x.(*fmp4.Parts) {
					for _, t := range p.Tracks {
						for _, s := range t.Samples {
							for _, f := range []func() ([][]byte, error){s.GetAV1, s.GetH264, s.GetH265} {
								u, err := f()
								if err == nil {
									out = append(out, u...)
								}
							}
						}
					}
				}
				return out
			},
		},
		{
			name: "presentation", fresh: func() any { return &pmp4.Presentation{} },
			dec: func(x any, b []byte) error { return x.(*pmp4.Presentation).Unmarshal(bytes.NewReader(b)) },
			text: func(x any) string {
				v, ok := presValue(x.(*pmp4.Presentation))
				return deepText(v) + fmt.Sprint(ok)
			},
			enc: func(x any) ([]byte, error) {
				var buf bytes.Buffer
				err := x.(*pmp4.Presentation).Marshal(&buf)
				return buf.Bytes(), err
			},
			more: func(x any) [][]byte {
				var out [][]byte
				for _, t := range x.(*pmp4.Presentation).Tracks {
					for _, s := range t.Samples {
						b, err := s.GetPayload()
						if err == nil {
							out = append(out, b)
						}
					}
				}
				return out
			},
		},
	}
}

// pFileRun is pRun for files.
func pFileRun(w *kit.W, t *pFile, files ...[]byte) {
	x := t.fresh()
	type old struct {
		val       any
		text      string
		out, outc []byte
		more      [][]byte
		moreText  string
		b, in     []byte
	}
	var olds []*old
	check := func() {
		for _, o := range olds {
			w.Check(bytes.Equal(o.b, o.in), t.name+"-input", "the input %x was changed", o.in)
			if o.val != nil {
				if s := t.text(o.val); s != o.text {
					w.Fail(t.name+"-earlier", "the result of decoding %x, that was %s, has become %s", o.in, o.text, s)
				}
			}
			w.Check(bytes.Equal(o.out, o.outc), t.name+"-output", "the result of encoding %s, that was %x, has become %x", o.text, o.outc, o.out)
			w.Check(deepText(o.more) == o.moreText, t.name+"-payload", "payloads %s have become %s", o.moreText, deepText(o.more))
		}
	}
	for i, f := range files {
		y := t.fresh()
		errY := t.dec(y, clone(f))
		o := &old{in: f}
		o.b = append(append(make([]byte, 0, len(f)+16), f...), make([]byte, 16)...)[:len(f)]
		err := t.dec(x, o.b)
		w.Ops(2)
		var pv []byte
		if i > 0 {
			pv = files[i-1]
		}
		w.Check((err != nil) == (errY != nil), t.name+"-reuse", "%x gives the error %v, but %v after %x", f, errY, err, pv)
		if err == nil {
			want := t.text(y)
			o.text = t.text(x)
			w.Check(o.text == want, t.name+"-reuse", "%x is decoded as %s, but as %s after %x", f, want, o.text, pv)
			o.val = shallow(x)
			o.more = t.more(x)
			o.moreText = deepText(o.more)
			w.Check(deepText(t.more(y)) == o.moreText, t.name+"-more", "different payloads: %s, %s", o.moreText, deepText(t.more(y)))
			e, errE := t.enc(y)
			o.out, err = t.enc(x)
			o.outc = clone(o.out)
			w.Check((err != nil) == (errE != nil) && bytes.Equal(e, o.out), t.name+"-encode", "%s is encoded as %x, then as %x (%v, %v)", want, e, o.out, errE, err)
			w.Check(t.text(x) == want, t.name+"-value", "encoding changed %s to %s", want, t.text(x))
			w.Step(kit.H(t.name, want))
		}
		o.moreText = deepText(o.more)
		olds = append(olds, o)
		check()
	}
	for _, o := range olds {
		for i := range o.out {
			o.out[i] ^= 0x5A
		}
		if t.name == "presentation" { // payloads belong to the caller; those of parts are slices of the file
			for _, m := range o.more {
				for i := range m {
					m[i] ^= 0x5A
				}
			}
		}
	}
	for _, o := range olds {
		w.Check(bytes.Equal(o.b, o.in), t.name+"-alias", "writing to results changed the input %x", o.in)
		if o.val != nil {
			w.Check(t.text(o.val) == o.text, t.name+"-alias", "writing to results changed the value %s", o.text)
		}
	}
}

// spareUnits gives copies of units with spare capacity, inside a list with spare capacity.
func spareUnits(us [][]byte) ([][]byte, func() bool) {
	out := make([][]byte, 0, len(us)+4)
	var checks []func() bool
	for _, u := range us {
		x, f := spare(u)
		out = append(out, x)
		checks = append(checks, f)
	}
	mark := []byte{0x77}
	full := append(out, mark, mark, mark, mark)
	n := len(us)
	return full[:n], func() bool {
		for i, f := range checks {
			if !f() || len(full[i]) != len(us[i]) {
				return false
			}
		}
		for i := n; i < n+4; i++ {
			if len(full[i]) != 1 || &full[i][0] != &mark[0] {
				return false
			}
		}
		return true
	}
}

// tsKeep reads a stream keeping what is delivered as it is, and copies.
func tsKeep(w *kit.W, b []byte) (step func() bool, check func(), got *[]tsGot) {
	var kept, copies []tsGot
	r := &mpegts.Reader{R: bytes.NewReader(b)}
	err := r.Initialize()
	w.Check(err == nil, "ts-keep", "%v", err)
	add := func(pid uint16, pts, dts int64, u [][]byte) error {
		kept = append(kept, tsGot{pts: pts, dts: dts, units: u})
		copies = append(copies, tsGot{pts: pts, dts: dts, units: cloneUnits(u)})
		return nil
	}
	r.OnDecodeError(func(err error) { w.Fail("ts-keep", "%v", err) })
	tsHookRaw(r, add)
	return func() bool { return r.Read() == nil }, func() {
		for i := range kept {
			w.Check(tsGotEq(kept[i], copies[i]), "ts-delivered", "the sample %v, delivered before, has become %v", copies[i], kept[i])
		}
	}, &copies
}

func init() {
	kit.Register(&kit.Check{
		ID: "R05",
		Assumptions: []string{
			"results may refer to the buffer they were decoded from, which the caller leaves as it is",
			"the content of a variable after an error is unspecified, but decoding into it again must work",
			"an audio mux element that refers to the configuration of the previous one depends on it by definition",
		},
		Run: func(c *kit.Ctx) {
			ts := rTargets()
			menus := make([]*pMenu, len(ts))
			once := make([]sync.Once, len(ts))
			menu := func(w *kit.W, i int) *pMenu {
				once[i].Do(func() {
					dev := 2
					if !c.Thorough() || len(rSeedMenu(w, ts[i], 2)) > 3000 {
						dev = 1
					}
					menus[i] = pMenuOf(w, ts[i], dev)
				})
				return menus[i]
			}
			c.Explore("pairs", kit.Opt{Bound: "every decoder and encoder of the codecs and of MPEG-TS structures: every ordered pair out of a menu of valid encodings (every field away from its default; thorough: and every pair of fields, if that gives at most 3000) and broken ones (every truncation, bytes changed), decoded into one variable and encoded"}, func(w *kit.W) {
				ti := w.Pick(len(ts))
				t := ts[ti]
				m := menu(w, ti)
				first := m.ins[w.Pick(len(m.ins))]
				w.Alive()
				for _, in := range m.ins {
					pRun(w, t, first, in)
				}
			})
			n3 := kit.T(c, 24, 60)
			c.Explore("triples", kit.Opt{Bound: fmt.Sprintf("every ordered triple out of %d encodings, valid and broken, decoded into one variable and encoded", n3)}, func(w *kit.W) {
				ti := w.Pick(len(ts))
				t := ts[ti]
				m := menu(w, ti)
				var ins []*pInput
				for k := range n3 {
					i := k * len(m.ins) / n3
					if k < n3/2 {
						i = k * m.nv / (n3 / 2)
					}
					if len(ins) == 0 || ins[len(ins)-1] != m.ins[i] {
						ins = append(ins, m.ins[i])
					}
				}
				a := ins[w.Pick(len(ins))]
				b := ins[w.Pick(len(ins))]
				w.Alive()
				for _, x := range ins {
					pRun(w, t, a, b, x)
				}
			})

			// files
			fs := rFiles()
			kinds := pFiles()
			var menuF [3][][]byte
			for _, f := range fs {
				k := strings.IndexByte("ifp", map[string]byte{"init": 'i', "part": 'f', "pres": 'p'}[f.name[:4]])
				menuF[k] = append(menuF[k], f.b)
			}
			for k := range menuF {
				full := menuF[k]
				for _, b := range [][]byte{full[0], full[len(full)-1]} {
					for _, n := range []int{0, 4, len(b) / 4, len(b) / 2, len(b) * 5 / 8, len(b) * 3 / 4, len(b) * 7 / 8, len(b) - 1} {
						menuF[k] = append(menuF[k], b[:n])
					}
				}
				menuF[k] = append(menuF[k], menuF[(k+1)%3][0])
			}
			nf := 3
			c.Explore("files", kit.Opt{Bound: fmt.Sprintf("every sequence of %d among initialization segments, parts or presentations with every codec, truncated ones and those of another kind, decoded into one variable, encoded, and payloads fetched", nf)}, func(w *kit.W) {
				k := w.Pick(3)
				var seq [][]byte
				for range nf {
					seq = append(seq, menuF[k][w.Pick(len(menuF[k]))])
				}
				pFileRun(w, kinds[k], seq...)
			})

			// samples from units
			c.Explore("samples", kit.Opt{MaxDev: 3, Bound: "fMP4 samples made from every list of up to 3 units of several sizes, with spare capacity behind each: the units stay as they are and so do samples made before"}, func(w *kit.W) {
				mk := func() [][]byte {
					var u [][]byte
					for i := range 1 + w.Pick(3) {
						b := pat([]int{2, 1, 5, 127, 128, 300}[w.Dev(6)], byte(i*40+1))
						b[0] = []byte{0x65, 0x12, 0x0A, 0x67, 0x26, 0x32, 0x09, 0x46}[w.Dev(8)]
						u = append(u, b)
					}
					return u
				}
				a, sameA := spareUnits(mk())
				b, sameB := spareUnits(mk())
				f := func(u [][]byte) (*fmp4.Sample, error) { return fmp4.NewSampleAV12(u) }
				switch w.Pick(3) {
				case 1:
					f = func(u [][]byte) (*fmp4.Sample, error) { return fmp4.NewSampleH264(10, u) }
				case 2:
					f = func(u [][]byte) (*fmp4.Sample, error) { return fmp4.NewSampleH265(10, u) }
				}
				s1, err1 := f(a)
				t1 := deepText(s1)
				s2, err2 := f(b)
				s3, err3 := f(a)
				w.Check(sameA() && sameB(), "samples-input", "making a sample changed its units or what follows them")
				w.Check(deepText(s1) == t1, "samples-earlier", "%s has become %s", t1, deepText(s1))
				w.Check(deepText(s3) == t1 && (err1 != nil) == (err3 != nil), "samples-again", "%s, the second time %s", t1, deepText(s3))
				if err1 == nil {
					for i := range s1.Payload {
						s1.Payload[i] ^= 0x5A
					}
					w.Check(sameA(), "samples-alias", "writing to the sample changed its units")
				}
				_, _ = s2, err2
			})
			c.Explore("dts", kit.Opt{Bound: "H264 and H265 DTS extraction of access units with spare capacity: units stay as they are; two extractors on different streams, every interleaving of 6 and 6 calls, give what each gives alone"}, func(w *kit.W) {
				kind := w.Pick(2)
				type ex func(au [][]byte, pts int64) (int64, error)
				mk := func(which int) (ex, [][][]byte, []int64) {
					if kind == 0 {
						cfg := h264StreamCfg{log2poc: 8, log2fn: 4, inc: 2}
						x := h264.NewDTSExtractor()
						pics := buildStream([][]int{{0, 0, 0, 0}, {2, 2}}[which])
						sps := h264dtsSPS(cfg, 0, true)
						var aus [][][]byte
						var pts []int64
						for i, p := range pics {
							if i >= 6 {
								break
							}
							aus = append(aus, h264AU(cfg, p, i, sps))
							pts = append(pts, 900000+int64(p.disp)*3003)
						}
						return x.Extract, aus, pts
					}
					cfg := h265Cfg{log2poc: 8, T: 3003}
					x := h265.NewDTSExtractor()
					pics := buildH265([][]int{{0, 0, 0, 0, 0, 0}, {2, 2}}[which], 2, false, false)
					cfg.reorder = h265Depth(pics)
					sets := setsFor(cfg, pics)
					sps, vals := h265dtsSPS(cfg, sets)
					pps := h265dtsPPS(cfg)
					var aus [][][]byte
					var pts []int64
					for i, p := range pics {
						if i >= 6 {
							break
						}
						aus = append(aus, h265AU(cfg, p, sps, pps, sets, vals, i == 0))
						pts = append(pts, 900000+int64(p.disp)*3003)
					}
					return x.Extract, aus, pts
				}
				var want [2][]string
				for k := range 2 {
					f, aus, pts := mk(k)
					for i := range aus {
						d, err := f(aus[i], pts[i])
						w.Check(err == nil, "dts-alone", "access unit %d: %v", i, err)
						want[k] = append(want[k], fmt.Sprint(d, err))
					}
				}
				var f [2]ex
				var aus [2][][][]byte
				var pts [2][]int64
				var pos [2]int
				for k := range 2 {
					f[k], aus[k], pts[k] = mk(k)
				}
				for pos[0] < len(aus[0]) || pos[1] < len(aus[1]) {
					k := 0
					switch {
					case pos[0] == len(aus[0]):
						k = 1
					case pos[1] < len(aus[1]):
						k = w.Pick(2)
					}
					i := pos[k]
					pos[k]++
					u, same := spareUnits(aus[k][i])
					d, err := f[k](u, pts[k][i])
					got := fmt.Sprint(d, err)
					w.Check(same(), "dts-input", "the access unit was changed")
					w.Check(got == want[k][i], "dts-independent", "access unit %d of stream %d: %s, alone %s", i, k, got, want[k][i])
				}
			})

			// MPEG-TS
			zero := func(int) int { return 0 }
			c.Explore("ts-write", kit.Opt{Bound: "two MPEG-TS writers, of every pair of kinds of tracks, every interleaving of 3 and 3 samples of one or more units with spare capacity: each output is what it is alone, samples stay as they are"}, func(w *kit.W) {
				kinds := [2]int{w.Pick(kCount), w.Pick(kCount)}
				size := []int{30, 200}[w.Pick(2)]
				type st struct {
					trks []*tsTrack
					ss   []*tsSample
					buf  bytes.Buffer
					mw   *mpegts.Writer
					pos  int
				}
				var x [2]*st
				var want [2][]byte
				for k := range 2 {
					mk := func() *st {
						s := &st{}
						s.trks = tsTracks([]int{kinds[k]}, zero)
						for i := range 3 {
							smp := &tsSample{pts: 90000 + int64(i)*3000, dts: 90000 + int64(i)*3000}
							for j := range map[bool]int{false: 1, true: 2}[tsMulti(kinds[k])] {
								smp.units = append(smp.units, tsUnit(kinds[k], 0, size+j, i, byte(i*2+j+k*9)))
							}
							s.ss = append(s.ss, smp)
						}
						return s
					}
					s := mk()
					want[k], _ = tsWrite(w, s.trks, s.ss)
					x[k] = mk()
					x[k].mw = &mpegts.Writer{W: &x[k].buf, Tracks: tsMake(x[k].trks)}
				}
				for k := range 2 {
					err := x[k].mw.Initialize()
					w.Check(err == nil, "ts-write", "%v", err)
				}
				for x[0].pos < 3 || x[1].pos < 3 {
					k := 0
					switch {
					case x[0].pos == 3:
						k = 1
					case x[1].pos < 3:
						k = w.Pick(2)
					}
					s := *x[k].ss[x[k].pos]
					x[k].pos++
					var same func() bool
					s.units, same = spareUnits(s.units)
					err := tsWriteOne(x[k].mw, x[k].trks[0], &s)
					w.Check(err == nil, "ts-write", "%v", err)
					w.Check(same(), "ts-write-input", "writing changed a sample of %s", tsNames[kinds[k]])
				}
				for k := range 2 {
					w.Check(bytes.Equal(x[k].buf.Bytes(), want[k]), "ts-write-independent", "the stream of %s depends on another writer", tsNames[kinds[k]])
				}
			})
			c.Explore("ts-read", kit.Opt{Bound: "two MPEG-TS readers, of every pair of kinds of tracks, every interleaving of their first 6 reads: each gives what it gives alone, the stream stays as it is, samples delivered before stay as they are"}, func(w *kit.W) {
				kinds := [2]int{w.Pick(kCount), w.Pick(kCount)}
				size := []int{30, 200}[w.Pick(2)]
				var bs [2][]byte
				var step [2]func() bool
				var check [2]func()
				var got [2]*[]tsGot
				var want [2]string
				for k := range 2 {
					b := tsBaseOf(w, kinds[k], 0, size+k)
					st, _, g := tsKeep(w, b.raw)
					for st() {
					}
					want[k] = fmt.Sprint(*g)
					bs[k] = clone(b.raw)
					step[k], check[k], got[k] = tsKeep(w, b.raw)
					defer func() { w.Check(bytes.Equal(b.raw, bs[k]), "ts-read-input", "reading changed the stream") }()
				}
				more := [2]bool{true, true}
				for n := 0; more[0] || more[1]; n++ {
					k := 0
					switch {
					case !more[0]:
						k = 1
					case more[1]:
						if n < 6 {
							k = w.Pick(2)
						} else {
							k = n % 2
						}
					}
					more[k] = step[k]()
					check[0]()
					check[1]()
				}
				for k := range 2 {
					w.Check(fmt.Sprint(*got[k]) == want[k], "ts-read-independent", "the samples of %s depend on another reader: %v, alone %s", tsNames[kinds[k]], *got[k], want[k])
				}
			})
			c.Explore("ts-scenarios", kit.Opt{Bound: "MPEG-TS streams of several tracks: samples delivered stay as they are until the end of the stream"}, func(w *kit.W) {
				trks, ss := tsScenario(w, w.Pick(len(tsScenarios)))
				raw, _ := tsWrite(w, trks, ss)
				keep := clone(raw)
				step, check, _ := tsKeep(w, raw)
				for step() {
					check()
				}
				check()
				w.Check(bytes.Equal(raw, keep), "ts-read-input", "reading changed the stream")
			})
		},
	})
}
