package props

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"runtime"
	"strings"
	"sync"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts"
	"github.com/bluenviron/mediacommon/v2/pkg/rewindablereader"

	"verif/mc/kit"
)

// The scheduler, present when the program was built with the overlay.
var (
	schedRun     func(max int, plan []int, fs ...func()) (int, bool)
	schedRestore func()
	schedInfo    func() (statements, globals int, points int64, disabled string)
)

// sOp is an operation on values of its own; mk prepares it, what it returns runs it and gives its results.
type sOp struct {
	name string
	mk   func(variant int) func() string
	// heavy ones execute thousands of statements; rep are those that represent the others
	heavy, rep bool
}

func sOps(w *kit.W) []*sOp {
	var ops []*sOp
	add := func(name string, mk func(v int) func() string) {
		ops = append(ops, &sOp{name: name, mk: mk})
	}
	zero := func(int) int { return 0 }
	for _, t := range rTargets() {
		menu := rSeedMenu(w, t, 1)
		// the default, the most different one, a broken one
		far, best := menu[0], -1
		for _, s := range menu {
			d := 0
			for i := range max(len(s), len(menu[0])) {
				if i >= len(s) || i >= len(menu[0]) || s[i] != menu[0][i] {
					d++
				}
			}
			if d > best && len(s) < 600 {
				far, best = s, d
			}
		}
		in := [][]byte{menu[0], far, menu[0][:len(menu[0])/2]}
		add(t.name, func(v int) func() string {
			b := clone(in[v])
			return func() string {
				x := t.fresh()
				err := t.dec(x, b)
				if err != nil {
					return "error " + err.Error()
				}
				if t.norm != nil {
					t.norm(x)
				}
				s := deepText(x)
				if t.enc != nil {
					e, err := t.enc(x)
					s += fmt.Sprintf(" %x %v", e, err)
				}
				return s
			}
		})
	}
	fs := rFiles()
	for k, t := range pFiles() {
		var fl [][]byte
		for _, f := range fs {
			if f.name[:4] == []string{"init", "part", "pres"}[k] {
				fl = append(fl, f.b)
			}
		}
		for j := range fl {
			defer func(n int) {
				ops[n].heavy = true
				ops[n].rep = j == 0 || k == 1 || (k == 0 && j == len(fl)-1)
			}(len(ops))
			add(fmt.Sprint(t.name, j), func(v int) func() string {
				b := clone(fl[(j+v)%len(fl)])
				if v == 2 {
					b = b[:len(b)*3/4]
				}
				return func() string {
					x := t.fresh()
					if err := t.dec(x, b); err != nil {
						return "error " + err.Error()
					}
					s := t.text(x) + fmt.Sprint(t.more(x))
					e, err := t.enc(x)
					return s + fmt.Sprintf(" %x %v", e, err)
				}
			})
		}
	}
	for kind := range kCount {
		add("ts-write-"+tsNames[kind], func(v int) func() string {
			t := &tsTrack{kind: kind, variant: min(v, 1)}
			g := &tsGen{clock: 90000 * int64(1+v)}
			var ss []*tsSample
			for k := range 2 {
				s := g.sample(t, 0, zero)
				s.units = nil
				for range map[bool]int{false: 1, true: 2}[tsMulti(kind)] {
					s.units = append(s.units, tsUnit(kind, t.variant, 30+v*170+k, k, byte(k+1+v*7)))
				}
				ss = append(ss, s)
			}
			return func() string {
				raw, _ := tsWrite(w, []*tsTrack{t}, ss)
				return fmt.Sprintf("%x", raw)
			}
		})
		add("ts-read-"+tsNames[kind], func(v int) func() string {
			b := clone(tsBaseOf(w, kind, min(v, 1), 30+v*170).raw)
			return func() string {
				r := tsRead(bytes.NewReader(b), 1000)
				s := fmt.Sprint(r.initErr, r.readErr, r.decErrs, r.order)
				for _, t := range r.tracks {
					s += deepText(t)
				}
				for _, p := range r.order {
					s += fmt.Sprint(r.got[p])
				}
				return s
			}
		})
	}
	add("ts-scenario", func(v int) func() string {
		trks, ss := tsScenario(w, v)
		return func() string {
			raw, _ := tsWrite(w, trks, ss)
			r := tsRead(bytes.NewReader(raw), 1000)
			s := fmt.Sprint(r.initErr, r.readErr, r.decErrs, r.order)
			for _, p := range r.order {
				s += fmt.Sprint(r.got[p])
			}
			return s
		}
	})
	add("h264-dts", func(v int) func() string {
		cfg := h264StreamCfg{log2poc: 8, log2fn: 4, inc: 2}
		sps := h264dtsSPS(cfg, 0, true)
		var aus [][][]byte
		var pts []int64
		for i, p := range buildStream([][]int{{2, 2}, {0, 0, 0, 0}, {1, 2}}[v]) {
			aus = append(aus, h264AU(cfg, p, i, sps))
			pts = append(pts, 900000*int64(v+1)+int64(p.disp)*3003)
		}
		return func() string {
			x := h264.NewDTSExtractor()
			s := ""
			for i := range aus {
				d, err := x.Extract(aus[i], pts[i])
				s += fmt.Sprint(d, err, " ")
			}
			return s
		}
	})
	add("h265-dts", func(v int) func() string {
		cfg := h265Cfg{log2poc: 8, T: 3003}
		pics := buildH265([][]int{{2, 2}, {0, 0, 0, 0, 0, 0}, {1, 2}}[v], 2, false, false)
		cfg.reorder = h265Depth(pics)
		sets := setsFor(cfg, pics)
		sps, vals := h265dtsSPS(cfg, sets)
		pps := h265dtsPPS(cfg)
		var aus [][][]byte
		var pts []int64
		for i, p := range pics {
			aus = append(aus, h265AU(cfg, p, sps, pps, sets, vals, i == 0))
			pts = append(pts, 900000*int64(v+1)+int64(p.disp)*3003)
		}
		return func() string {
			x := h265.NewDTSExtractor()
			s := ""
			for i := range aus {
				d, err := x.Extract(aus[i], pts[i])
				s += fmt.Sprint(d, err, " ")
			}
			return s
		}
	})
	for i, name := range []string{"av1", "h264", "h265"} {
		add("sample-"+name, func(v int) func() string {
			var u [][]byte
			for j := range 2 + v {
				b := pat(5+40*v+j, byte(j*40+1+v))
				b[0] = []byte{0x32, 0x65, 0x26}[i]
				u = append(u, b)
			}
			return func() string {
				var smp *fmp4.Sample
				var err error
				switch i {
				case 0:
					smp, err = fmp4.NewSampleAV12(u)
				case 1:
					smp, err = fmp4.NewSampleH264(10, u)
				default:
					smp, err = fmp4.NewSampleH265(10, u)
				}
				if err != nil {
					return err.Error()
				}
				s := deepText(smp)
				switch i {
				case 0:
					u2, err := smp.GetAV1()
					return s + fmt.Sprint(u2, err)
				case 1:
					u2, err := smp.GetH264()
					return s + fmt.Sprint(u2, err)
				}
				u2, err := smp.GetH265()
				return s + fmt.Sprint(u2, err)
			}
		})
	}
	add("rewindablereader", func(v int) func() string {
		b := pat(40+v*20, byte(v))
		return func() string {
			r := &rewindablereader.Reader{R: bytes.NewReader(b)}
			p := make([]byte, 7+v)
			n, err := io.ReadFull(r, p)
			s := fmt.Sprint(n, err, p)
			r.Rewind()
			q, err := io.ReadAll(r)
			return s + fmt.Sprint(q, err)
		}
	})
	add("seekablebuffer", func(v int) func() string {
		b := pat(20+v*20, byte(v))
		return func() string {
			var k seekablebuffer.Buffer
			k.Write(b)                                 //nolint:errcheck
			n, err := k.Seek(int64(5+v), io.SeekStart) //nolint:errcheck
			k.Write(b[:10])                            //nolint:errcheck
			m, err2 := k.Seek(int64(30+v), io.SeekEnd) //nolint:errcheck
			k.Write(b[:3])                             //nolint:errcheck
			return fmt.Sprint(n, err, m, err2, k.Bytes())
		}
	})
	add("timedecoder", func(v int) func() string {
		return func() string {
			var d mpegts.TimeDecoder
			d.Initialize()
			s := ""
			for i := range 6 {
				s += fmt.Sprint(d.Decode((int64(v)*90000+int64(i)*3_000_000_000)&(1<<33-1)), " ")
			}
			return s
		}
	})
	return ops
}

func raceLog() string {
	p := os.Getenv("MC_RACELOG")
	if p == "" {
		return ""
	}
	b, _ := os.ReadFile(fmt.Sprintf("%s.%d", p, os.Getpid()))
	return string(b)
}

func init() {
	kit.Register(&kit.Check{
		ID: "R06",
		Assumptions: []string{
			"a statement is executed without interruption, except inside the functions it calls; code outside of the repository is executed without interruption",
			"the order in which conflicting accesses are executed within one statement is covered by the conflict analysis of the second harness only",
		},
		Run: func(c *kit.Ctx) {
			var ops []*sOp
			alone := map[[2]int]string{}
			var names []string
			if schedRestore == nil {
				fmt.Fprintln(os.Stderr, "R06 needs the overlay: use check.sh")
				os.Exit(2)
			}
			schedRestore() // what variables contain now is what they contain before any use
			w0 := &kit.W{}
			ops = sOps(w0)
			for _, o := range ops {
				names = append(names, o.name)
			}
			n := len(ops)
			st, gl, _, dis := schedInfo()
			note := fmt.Sprintf("%d operations (%s ... %s), %d statements instrumented, %d package variables reset before each schedule", n, names[0], names[n-1], st, gl)
			if dis != "" {
				note += "; statement-level schedules are off since the code starts goroutines or uses channels at " + dis
			}
			// result of an operation alone
			result := func(i, v int) string {
				k := [2]int{i, v}
				if s, ok := alone[k]; ok {
					return s
				}
				f := ops[i].mk(v)
				schedRestore()
				alone[k] = f()
				return alone[k]
			}
			short := func(s string) string {
				if len(s) > 300 {
					return s[:300] + "..."
				}
				return s
			}
			family := func(i int) string {
				f, _, _ := strings.Cut(names[i], "-")
				return f
			}
			// schedules of two operations
			explore := func(w *kit.W, i, j, vi, vj, occ, bound, part, parts int) {
				want := [2]string{result(i, vi), result(j, vj)}
				run := func(plan ...int) int {
					var got [2]string
					f, g := ops[i].mk(vi), ops[j].mk(vj)
					schedRestore()
					sw, ended := schedRun(occ, plan, func() { got[0] = f() }, func() { got[1] = g() })
					w.Schedules(1)
					if !ended {
						w.Fail("deadlock", "%s and %s block each other when preempted at %v", names[i], names[j], plan)
					}
					for k, s := range got {
						if s != want[k] {
							x, y := i, j
							if k == 1 {
								x, y = j, i
							}
							w.Fail("interference-"+family(x), "%s, interleaved with %s (preemptions %v), gives %s, alone %s", names[x], names[y], plan, short(s), short(want[k]))
						}
					}
					return sw
				}
				_, _, p0, _ := schedInfo()
				count := 0
				for a := part; ; a += parts {
					if run(a) < 1 {
						break
					}
					count++
					for b := 0; bound > 1; b++ {
						if run(a, b) < 2 {
							break
						}
						count++
						for d := a + 1; bound > 2; d++ {
							if run(a, b, d) < 3 {
								break
							}
							count++
						}
					}
				}
				_, _, p1, _ := schedInfo()
				w.Ops(p1 - p0)
				w.Step(kit.H(names[i], names[j], vi, vj, part, count))
			}
			type unit struct{ i, j, vi, vj, occ, bound, part, parts int }
			harness := func(name string, us []unit, bound string) {
				c.RangeProc(name, uint64(len(us)), "", nil, 0, bound, func(w *kit.W) {
					u := us[w.Index]
					explore(w, u.i, u.j, u.vi, u.vj, u.occ, u.bound, u.part, u.parts)
				})
			}
			// the long ones first
			order := func(f func(i, j int)) {
				for _, heavy := range []bool{true, false} {
					for i := range n {
						for j := range n {
							if (ops[i].heavy || ops[j].heavy) == heavy {
								f(i, j)
							}
						}
					}
				}
			}
			var us []unit
			order(func(i, j int) {
				heavy := ops[i].heavy || ops[j].heavy
				switch {
				case !c.Thorough() && i != j && (ops[i].heavy && !ops[i].rep || ops[j].heavy && !ops[j].rep):
				case !c.Thorough() && heavy:
					us = append(us, unit{i, j, 0, 1, 1, 1, 0, 1})
				case !c.Thorough():
					us = append(us, unit{i, j, 0, 1, 2, 1, 0, 1})
				case heavy:
					for p := range 4 {
						us = append(us, unit{i, j, 0, 1, 0, 1, p, 4})
					}
				default:
					for _, v := range [][2]int{{0, 1}, {1, 0}, {0, 2}, {2, 0}} {
						us = append(us, unit{i, j, v[0], v[1], 0, 1, 0, 1})
					}
				}
			})
			harness("schedules-1", us, note+"; every ordered pair of operations on different inputs (files: every file with a different one of the same kind, and 5 files with every other operation; thorough: all), the first one preempted before "+
				kit.T(c, "the first two executions (files: the first one) of every statement", "every execution of every statement")+" to run the second one to its end")
			us = nil
			order(func(i, j int) {
				heavy := ops[i].heavy || ops[j].heavy
				switch {
				case !c.Thorough() && (i != j || heavy):
				case heavy && i != j:
				case heavy:
					for p := range 32 {
						us = append(us, unit{i, j, 0, 1, 1, 2, p, 32})
					}
				case c.Thorough() && family(i) != family(j):
					us = append(us, unit{i, j, 0, 1, 1, 2, 0, 1})
				default:
					for p := range 4 {
						us = append(us, unit{i, j, 0, 1, kit.T(c, 1, 2), 2, p, 4})
					}
				}
			})
			harness("schedules-2", us, kit.T(c, "pairs of equal operations, except files, on different inputs, with two preemptions, each before the first execution of every statement",
				"pairs of operations on different inputs, with two preemptions, each before the first execution of every statement (same codec or format: the first two); files: only with another file of the same kind"))
			// three preemptions, for short operations
			if c.Thorough() {
				us = nil
				for i := range n {
					if !ops[i].heavy {
						for p := range 16 {
							us = append(us, unit{i, i, 0, 1, 1, 3, p, 16})
						}
					}
				}
				harness("schedules-3", us, "pairs of equal operations, except files, on different inputs, with three preemptions, each before the first execution of every statement")
			}
			if bin := os.Getenv("MC_RACE_BIN"); bin != "" || os.Getenv("MC_RACELOG") != "" {
				dir, err := os.MkdirTemp("", "mcrace")
				if err != nil {
					panic(err)
				}
				defer os.RemoveAll(dir)
				log := dir + "/log"
				env := []string{"MC_RACELOG=" + log, "GORACE=log_path=" + log + " halt_on_error=0 exitcode=0 history_size=3"}
				c.RangeProc("conflicts", uint64(n), bin, env, 0, "every pair of operations run in two goroutines without any synchronization under happens-before analysis of all memory accesses: without conflicting accesses all interleavings are equivalent to the one that was run", func(w *kit.W) {
					i := int(w.Index)
					for j := i; j < n; j++ {
						for v := range 2 {
							f, g := ops[i].mk(0), ops[j].mk(1)
							schedRestore()
							var r [2]string
							var wg sync.WaitGroup
							wg.Add(2)
							go func() {
								r[0] = f()
								wg.Done()
							}()
							if v == 1 {
								runtime.Gosched()
							}
							go func() {
								r[1] = g()
								wg.Done()
							}()
							wg.Wait()
							w.Schedules(1)
							w.Ops(2)
						}
						if l := raceLog(); l != "" {
							w.Fail("conflict-"+family(i), "%s and %s access the same memory without synchronization: %s", names[i], names[j], strings.Join(strings.Split(l, "\n")[:min(40, strings.Count(l, "\n"))], "\n"))
						}
						w.Step(kit.H(i, j))
					}
				})
			}
		},
	})
}
