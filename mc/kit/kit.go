// Package kit is a small stateless explorer: it enumerates every sequence of
// choices a harness can make (up to stated bounds), runs each one on the real
// code, and records what was covered.
package kit

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check is one property check.
type Check struct {
	ID          string
	Assumptions []string
	Run         func(c *Ctx)
}

// Registry holds the registered checks.
var Registry = map[string]*Check{}

// Register adds a check.
func Register(c *Check) { Registry[c.ID] = c }

const shards = 64

type hashSet struct {
	mu [shards]sync.Mutex
	m  [shards]map[uint64]struct{}
	n  atomic.Int64
}

const hashSetCap = 3_000_000

func (s *hashSet) add(h uint64) {
	i := (h ^ (h >> 17)) % shards
	s.mu[i].Lock()
	if s.m[i] == nil {
		s.m[i] = make(map[uint64]struct{})
	}
	if _, ok := s.m[i][h]; !ok && s.n.Load() < hashSetCap {
		s.m[i][h] = struct{}{}
		s.n.Add(1)
	}
	s.mu[i].Unlock()
}

// Replay is a replayable violation.
type Replay struct {
	Property string   `json:"property"`
	Harness  string   `json:"harness"`
	Choices  []int    `json:"choices,omitempty"`
	Index    *uint64  `json:"index,omitempty"`
	Key      string   `json:"key"`
	Message  string   `json:"message"`
	Repro    string   `json:"reproduced"`
	Trace    []string `json:"trace,omitempty"`
}

type part struct {
	Name        string   `json:"harness"`
	Executions  int64    `json:"executions"`
	Operations  int64    `json:"operations"`
	States      int64    `json:"distinct_states"`
	Bound       string   `json:"bound,omitempty"`
	Exhaustive  bool     `json:"exhaustive"`
	WallS       float64  `json:"wall_s"`
	Samples     []string `json:"-"`
	seenSamples atomic.Int64
}

// Ctx is the context of one check run.
type Ctx struct {
	ID       string
	Tier     string
	Seed     int64
	Workers  int
	deadline time.Time
	start    time.Time

	mu         sync.Mutex
	parts      []*part
	viols      map[string]*Replay
	known      map[string]string
	knownHit   map[string]bool
	replay     *Replay
	replayDone bool
	replayHit  bool
	stop       atomic.Bool
	verifDir   string
	child      map[string]func(w *W) // in processes that run units for another one

	// CPUSlots are the running executions, for the watchdog.
	slots []slot

	excl sync.RWMutex
}

type slot struct {
	startNS atomic.Int64
	desc    atomic.Value // *runDesc
}

type runDesc struct {
	harness string
	choices []int
	index   *uint64
}

// Thorough reports whether the thorough tier was asked for.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// T picks the quick or the thorough value.
func T[V any](c *Ctx, quick, thorough V) V {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// violation is thrown by harnesses.
type violation struct{ key, msg string }

type divergence struct{ msg string }

// W is what an execution sees: choices and recording.
type W struct {
	ctx     *Ctx
	part    *part
	states  *hashSet
	ops     int64
	execs   int64
	choices []int
	arity   []int
	dev     []bool
	prefix  []int
	trace   []string
	tracing bool
	Index   uint64

	// Input is what the running call was given, shown when it panics.
	Input []byte

	metric []metrics.Sample
	slot   *slot
}

// Alive tells the watchdog that the execution makes progress.
func (w *W) Alive() {
	if w.slot != nil {
		w.slot.startNS.Store(time.Now().UnixNano())
	}
}

func (w *W) allocated() uint64 {
	if w.metric == nil {
		w.metric = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	}
	metrics.Read(w.metric)
	return w.metric[0].Value.Uint64()
}

// Bounded runs f, which must allocate at most limit bytes and take at most maxTime. Allocations are counted for the
// whole process; what exceeds the bounds is measured again (f is run again) while no other bounded call runs.
func (w *W) Bounded(limit uint64, maxTime time.Duration, f func()) {
	n, d := w.measure(f)
	if n > limit || d > maxTime {
		n, d = w.measureAlone(limit, maxTime, f)
	}
	w.Check(n <= limit, "memory", "%d bytes allocated, more than %d, for the input %s", n, limit, w.input())
	w.Check(d <= maxTime, "time", "%v taken for the input %s", d, w.input())
}

// BoundedBatch runs f on 0 <= i < n, which together must respect the bounds of a single call plus what is typical of
// a call, for each and for those of the other workers, and half of the time; if they do not, each of them must respect
// the bounds of a single call.
func (w *W) BoundedBatch(n int, typical uint64, limit func(i int) uint64, maxTime time.Duration, f func(i int)) {
	if n == 0 {
		return
	}
	a, d := w.measure(func() {
		for i := range n {
			f(i)
		}
	})
	if a <= limit(0)+uint64(n*w.ctx.Workers)*typical && d <= maxTime/2 {
		return
	}
	for i := range n {
		w.Bounded(limit(i), maxTime, func() { f(i) })
	}
}

func (w *W) measure(f func()) (uint64, time.Duration) {
	w.ctx.excl.RLock()
	defer w.ctx.excl.RUnlock()
	t0 := time.Now()
	a := w.allocated()
	f()
	return w.allocated() - a, time.Since(t0)
}

// measureAlone gives the least of some measures taken while nothing else is measured.
func (w *W) measureAlone(limit uint64, maxTime time.Duration, f func()) (uint64, time.Duration) {
	w.ctx.excl.Lock()
	defer w.ctx.excl.Unlock()
	n, d := uint64(1)<<63, time.Duration(1)<<62
	for try := 0; try < 10 && (n > limit || d > maxTime); try++ {
		if try > 2 {
			time.Sleep(time.Duration(try) * 10 * time.Millisecond)
		}
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		t0 := time.Now()
		f()
		d = min(d, time.Since(t0))
		runtime.ReadMemStats(&m1)
		n = min(n, m1.TotalAlloc-m0.TotalAlloc)
	}
	return n, d
}

func (w *W) input() string {
	if len(w.Input) > 4096 {
		return fmt.Sprintf("%x... (%d bytes)", w.Input[:64], len(w.Input))
	}
	return fmt.Sprintf("%x", w.Input)
}

// Fail reports that the property is broken in this execution.
func (w *W) Fail(key, format string, a ...any) {
	panic(&violation{key: key, msg: fmt.Sprintf(format, a...)})
}

// Check fails unless ok.
func (w *W) Check(ok bool, key, format string, a ...any) {
	if !ok {
		w.Fail(key, format, a...)
	}
}

func (w *W) pick(n int, dev bool) int {
	if n <= 0 {
		panic("kit: pick of zero alternatives")
	}
	i := len(w.choices)
	v := 0
	if i < len(w.prefix) {
		v = w.prefix[i]
		if v >= n {
			panic(&divergence{fmt.Sprintf("choice %d out of range %d at point %d", v, n, i)})
		}
	}
	w.choices = append(w.choices, v)
	w.arity = append(w.arity, n)
	w.dev = append(w.dev, dev)
	return v
}

// Pick chooses one of n alternatives; all of them are explored.
func (w *W) Pick(n int) int { return w.pick(n, false) }

// Bool chooses a boolean.
func (w *W) Bool() bool { return w.pick(2, false) == 1 }

// Dev chooses among n alternatives, of which 0 is the default and every
// other one costs one deviation.
func (w *W) Dev(n int) int { return w.pick(n, true) }

// Of picks one of the values.
func Of[V any](w *W, vals ...V) V { return vals[w.Pick(len(vals))] }

// DevOf picks one of the values; the first is the default.
func DevOf[V any](w *W, vals ...V) V { return vals[w.Dev(len(vals))] }

// Step records an operation executed on the real code and the state it led to.
func (w *W) Step(state uint64) {
	w.ops++
	w.states.add(state)
}

// Ops records n operations without state.
func (w *W) Ops(n int64) { w.ops += n }

// Trace adds to the replayed trace.
func (w *W) Trace(format string, a ...any) {
	if w.tracing {
		w.trace = append(w.trace, fmt.Sprintf(format, a...))
	}
}

// Sample records a case of this run (a few per harness are kept).
func (w *W) Sample(format string, a ...any) {
	n := w.part.seenSamples.Add(1)
	// keep the 1st, 10th, 1000th and 100000th case
	if n == 1 || n == 10 || n == 1000 || n == 100000 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		w.ctx.mu.Lock()
		w.part.Samples = append(w.part.Samples, s)
		w.ctx.mu.Unlock()
	}
}

// H hashes the arguments.
func H(a ...any) uint64 {
	h := fnv.New64a()
	for _, v := range a {
		switch v := v.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		case int:
			h.Write([]byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24), byte(v >> 32), byte(v >> 40), byte(v >> 48), byte(v >> 56)})
		case int64:
			h.Write([]byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24), byte(v >> 32), byte(v >> 40), byte(v >> 48), byte(v >> 56)})
		case uint64:
			h.Write([]byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24), byte(v >> 32), byte(v >> 40), byte(v >> 48), byte(v >> 56)})
		case bool:
			if v {
				h.Write([]byte{1})
			} else {
				h.Write([]byte{0})
			}
		default:
			fmt.Fprintf(h, "%v", v)
		}
		h.Write([]byte{0xfe})
	}
	return h.Sum64()
}

// Opt bounds an exploration.
type Opt struct {
	MaxDev  int    // deviations allowed (Dev choices different from 0)
	MaxExec int64  // cap on executions; 0 = none
	Bound   string // human-readable statement of the bound
	Serial  bool
}

func panicSite() string {
	// the first frame that is in the code under test or its dependencies
	pcs := make([]uintptr, 64)
	n := runtime.Callers(4, pcs)
	frames := runtime.CallersFrames(pcs[:n])
	first := ""
	for {
		f, more := frames.Next()
		if strings.HasPrefix(f.Function, "runtime.") || f.Function == "" {
			if !more {
				break
			}
			continue
		}
		if first == "" {
			first = f.Function
		}
		if strings.Contains(f.Function, "bluenviron/mediacommon") {
			return f.Function
		}
		if !more {
			break
		}
	}
	return first
}

func (c *Ctx) runOne(w *W, f func(w *W)) (viol *violation) {
	w.Input = nil
	defer func() {
		if r := recover(); r != nil {
			switch v := r.(type) {
			case *violation:
				viol = v
			case *divergence:
				viol = &violation{key: "divergence", msg: v.msg}
			default:
				site := panicSite()
				msg := fmt.Sprintf("panic: %v", r)
				if w.Input != nil {
					msg += " with input " + w.input()
				}
				if w.tracing {
					msg += "\n" + string(debug.Stack())
				}
				viol = &violation{key: "panic@" + site, msg: msg}
			}
		}
	}()
	f(w)
	return nil
}

func (c *Ctx) newPart(name string, bound string) *part {
	p := &part{Name: name, Bound: bound, Exhaustive: true}
	c.mu.Lock()
	c.parts = append(c.parts, p)
	c.mu.Unlock()
	return p
}

// Explore enumerates every choice sequence of f.
func (c *Ctx) Explore(name string, opt Opt, f func(w *W)) {
	if c.child != nil {
		return
	}
	if c.replay != nil {
		if c.replay.Harness != name || c.replay.Index != nil {
			return
		}
		c.doReplay(name, f)
		return
	}
	if c.stop.Load() {
		return
	}
	if opt.MaxDev > 0 && opt.Bound == "" {
		opt.Bound = fmt.Sprintf("at most %d deviations from the default environment", opt.MaxDev)
	}
	p := c.newPart(name, opt.Bound)
	t0 := time.Now()
	states := &hashSet{}

	type item struct{ prefix []int }
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	stack := []item{{nil}}
	active := 0
	var execs, ops atomic.Int64
	capped := false

	workers := c.Workers
	if opt.Serial {
		workers = 1
	}
	var wg sync.WaitGroup
	for wi := 0; wi < workers; wi++ {
		wg.Add(1)
		go func(wi int) {
			defer wg.Done()
			var buf W
			for {
				mu.Lock()
				for len(stack) == 0 && active > 0 {
					cond.Wait()
				}
				if len(stack) == 0 || c.stop.Load() {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				if (opt.MaxExec > 0 && execs.Load() >= opt.MaxExec) || time.Now().After(c.deadline) {
					capped = true
					stack = nil
					mu.Unlock()
					cond.Broadcast()
					return
				}
				// take a small batch
				nb := 1
				if len(stack) > 64 {
					nb = 8
				}
				batch := make([]item, nb)
				copy(batch, stack[len(stack)-nb:])
				stack = stack[:len(stack)-nb]
				active++
				mu.Unlock()

				var news []item
				// depth-first below this batch up to a local budget
				local := batch
				budget := 256
				t1 := time.Now()
				for len(local) > 0 && budget > 0 && (budget == 256 || time.Since(t1) < 10*time.Millisecond) {
					budget--
					it := local[len(local)-1]
					local = local[:len(local)-1]
					w := &buf
					*w = W{ctx: c, part: p, states: states, slot: &c.slots[wi], prefix: it.prefix, choices: w.choices[:0], arity: w.arity[:0], dev: w.dev[:0]}
					d := &runDesc{harness: name, choices: it.prefix}
					c.slots[wi].desc.Store(d)
					c.slots[wi].startNS.Store(time.Now().UnixNano())
					v := c.runOne(w, f)
					c.slots[wi].startNS.Store(0)
					execs.Add(1)
					ops.Add(w.ops)
					if v != nil {
						c.report(name, append([]int(nil), w.choices...), nil, v, f)
						if c.stop.Load() {
							break
						}
					}
					nd := 0
					for i := 0; i < len(w.choices); i++ {
						if i >= len(it.prefix) {
							if !(w.dev[i] && nd >= opt.MaxDev) {
								for alt := w.arity[i] - 1; alt >= 1; alt-- {
									np := make([]int, i+1)
									copy(np, w.choices[:i])
									np[i] = alt
									local = append(local, item{np})
								}
							}
						}
						if w.dev[i] && w.choices[i] != 0 {
							nd++
						}
					}
				}
				news = local
				mu.Lock()
				stack = append(stack, news...)
				active--
				mu.Unlock()
				cond.Broadcast()
			}
		}(wi)
	}
	wg.Wait()
	p.Executions = execs.Load()
	p.Operations = ops.Load()
	p.States = states.n.Load()
	p.Exhaustive = !capped && !c.stop.Load()
	p.WallS = time.Since(t0).Seconds()
}

// Range runs f for every index below n.
func (c *Ctx) Range(name string, n uint64, bound string, f func(w *W)) {
	if c.child != nil {
		return
	}
	if c.replay != nil {
		if c.replay.Harness != name || c.replay.Index == nil {
			return
		}
		c.doReplay(name, f)
		return
	}
	if c.stop.Load() {
		return
	}
	p := c.newPart(name, bound)
	t0 := time.Now()
	states := &hashSet{}
	var next, execs, ops atomic.Uint64
	var capped atomic.Bool
	chunk := n/uint64(c.Workers*64) + 1
	if chunk > 4096 {
		chunk = 4096
	}
	var wg sync.WaitGroup
	for wi := 0; wi < c.Workers; wi++ {
		wg.Add(1)
		go func(wi int) {
			defer wg.Done()
			w := &W{ctx: c, part: p, states: states, slot: &c.slots[wi]}
			for {
				lo := next.Add(chunk) - chunk
				if lo >= n {
					return
				}
				if c.stop.Load() || time.Now().After(c.deadline) {
					capped.Store(true)
					return
				}
				hi := lo + chunk
				if hi > n {
					hi = n
				}
				c.slots[wi].desc.Store(&runDesc{harness: name, index: &lo})
				c.slots[wi].startNS.Store(time.Now().UnixNano())
				w.ops = 0
				for i := lo; i < hi; {
					from := i
					v := func() (viol *violation) {
						return c.runOne(w, func(w *W) {
							for ; i < hi; i++ {
								if i&63 == 0 {
									c.slots[wi].startNS.Store(time.Now().UnixNano())
								}
								w.Index = i
								f(w)
							}
						})
					}()
					execs.Add(i - from)
					if v != nil {
						idx := i
						c.report(name, nil, &idx, v, f)
						if c.stop.Load() {
							break
						}
						i++
						execs.Add(1)
					}
				}
				ops.Add(uint64(w.ops))
				c.slots[wi].startNS.Store(0)
			}
		}(wi)
	}
	wg.Wait()
	p.Executions = int64(execs.Load())
	p.Operations = int64(ops.Load())
	if p.Operations == 0 {
		p.Operations = p.Executions // one transition of the code from each
	}
	p.States = states.n.Load()
	if p.States == 0 {
		p.States = p.Executions // every point of the range is a distinct initial state
	}
	p.Exhaustive = !capped.Load() && !c.stop.Load()
	p.WallS = time.Since(t0).Seconds()
}

func (c *Ctx) rerun(name string, choices []int, index *uint64, f func(w *W), tracing bool) (*violation, *W) {
	w := &W{ctx: c, part: &part{}, states: &hashSet{}, prefix: choices, tracing: tracing}
	if index != nil {
		w.Index = *index
	}
	return c.runOne(w, f), w
}

// maxViolations ends the exploration (MC_FIRST: the first one does).
var maxViolations = func() int {
	if os.Getenv("MC_FIRST") != "" {
		return 1
	}
	return 5
}()

func (c *Ctx) report(name string, choices []int, index *uint64, v *violation, f func(w *W)) {
	c.mu.Lock()
	k := v.key
	if _, ok := c.known[k]; ok {
		c.knownHit[k] = true
		c.mu.Unlock()
		return
	}
	if _, ok := c.viols[k]; ok || len(c.viols) >= maxViolations {
		c.mu.Unlock()
		return
	}
	r := &Replay{Property: c.ID, Harness: name, Choices: choices, Index: index, Key: k, Message: v.msg}
	c.viols[k] = r
	c.mu.Unlock()

	same := 0
	var tr []string
	for i := 0; i < 5; i++ {
		v2, w := c.rerun(name, choices, index, f, i == 0)
		if v2 != nil && v2.key == k {
			same++
		}
		if i == 0 {
			tr = w.trace
			if v2 != nil {
				r.Message = v2.msg
			}
		}
	}
	c.mu.Lock()
	r.Repro = fmt.Sprintf("%d/5", same)
	r.Trace = tr
	if len(c.viols) >= maxViolations {
		c.stop.Store(true)
	}
	c.mu.Unlock()
	if k == "divergence" {
		fmt.Fprintf(os.Stderr, "harness divergence in %s: %s\n", name, v.msg)
	}
}

func (c *Ctx) doReplay(name string, f func(w *W)) {
	c.replayDone = true
	v, w := c.rerun(name, c.replay.Choices, c.replay.Index, f, true)
	for _, l := range w.trace {
		fmt.Println("  ", l)
	}
	if v != nil {
		c.replayHit = true
		fmt.Printf("reproduced: %s: %s\n", v.key, v.msg)
	} else {
		fmt.Println("not reproduced: the property holds on this execution")
	}
}

func (c *Ctx) watchdog(done chan struct{}) {
	t := time.NewTicker(time.Second)
	defer t.Stop()
	for {
		select {
		case <-done:
			return
		case <-t.C:
		}
		now := time.Now().UnixNano()
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		for i := range c.slots {
			st := c.slots[i].startNS.Load()
			if st == 0 {
				continue
			}
			el := time.Duration(now - st)
			key := ""
			if el > 100*time.Second {
				key = "hang"
			} else if ms.HeapAlloc > 14<<30 && el > 2*time.Second {
				key = "memory"
			}
			if key == "" {
				continue
			}
			d, _ := c.slots[i].desc.Load().(*runDesc)
			stacks := make([]byte, 1<<20)
			stacks = stacks[:runtime.Stack(stacks, true)]
			where := ""
			for _, g := range strings.Split(string(stacks), "\n\n") {
				if strings.Contains(g, "bluenviron/mediacommon") {
					if len(g) > 2500 {
						g = g[:2500]
					}
					where += "\n" + g
				}
			}
			c.mu.Lock()
			r := &Replay{
				Property: c.ID, Harness: d.harness, Choices: d.choices, Index: d.index, Key: key,
				Message: fmt.Sprintf("execution running for %v with %d MiB of heap does not end%s", el, ms.HeapAlloc>>20, where), Repro: "not re-run",
			}
			c.viols[key] = r
			c.mu.Unlock()
			os.Exit(c.finish())
		}
	}
}

// loadKnown reads known_findings.txt.
// Lines: "finding: property=<id> key=<key> <text>" or "fixed: ...".
func loadKnown(path, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+id+" key=")
		k, txt, _ := strings.Cut(rest, " ")
		out[k] = txt
	}
	return out
}

func (c *Ctx) finish() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	chk := Registry[c.ID]
	var states, ops, execs int64
	exhaustive := true
	samples := []any{}
	for _, p := range c.parts {
		states += p.States
		ops += p.Operations
		execs += p.Executions
		if !p.Exhaustive {
			exhaustive = false
		}
		sort.Strings(p.Samples)
		for _, s := range p.Samples {
			samples = append(samples, map[string]string{"harness": p.Name, "case": s})
		}
	}
	keys := []string{}
	for k := range c.viols {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	kh := []string{}
	for k := range c.knownHit {
		kh = append(kh, k)
	}
	sort.Strings(kh)
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": "model_checking",
		"coverage": map[string]any{
			"states":                        states,
			"transitions":                   ops,
			"traces_validated_against_impl": execs,
			"exhaustive":                    exhaustive,
			"samples":                       samples,
			"harnesses":                     c.parts,
			"known_findings_hit":            kh,
			"rule": "states: distinct states/outcomes observed on the real code (hash-deduplicated per harness, capped at 3M per harness); " +
				"transitions: operations executed on the real code; traces: complete executions compared step by step with the reference model",
		},
		"assumptions": chk.Assumptions,
		"wall_s":      time.Since(c.start).Seconds(),
		"violations":  len(c.viols),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(c.verifDir, "evidence")
	os.MkdirAll(filepath.Join(dir, "replay"), 0o755)
	os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0o644)

	for _, p := range c.parts {
		fmt.Printf("%s %-34s executions=%d operations=%d states=%d exhaustive=%v %.1fs %s\n", c.ID, p.Name, p.Executions, p.Operations, p.States, p.Exhaustive, p.WallS, p.Bound)
	}
	for k, txt := range c.known {
		_ = k
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, txt)
	}
	if len(keys) == 0 {
		fmt.Printf("%s ok: states=%d transitions=%d traces=%d exhaustive=%v wall=%.1fs\n", c.ID, states, ops, execs, exhaustive, time.Since(c.start).Seconds())
		return 0
	}
	for i, k := range keys {
		r := c.viols[k]
		b, _ := json.MarshalIndent(r, "", " ")
		path := filepath.Join(dir, "replay", c.ID+"-"+strconv.Itoa(i)+".json")
		os.WriteFile(path, append(b, '\n'), 0o644)
		fmt.Printf("%s in %s: %s [%s]: %s\n", c.ID, r.Harness, k, r.Repro, firstLines(r.Message, 30))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
	}
	return 1
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

var ballast []byte

// Main runs one check: mc <ID> quick|thorough, or mc replay <file>.
func Main() {
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	if len(os.Args) < 3 {
		ids := []string{}
		for id := range Registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Fprintf(os.Stderr, "usage: mc ID quick|thorough | mc replay FILE\nchecks: %s\n", strings.Join(ids, " "))
		os.Exit(2)
	}
	// memory that is reserved and never touched, so that collections are rare
	if os.Getenv("MC_CHILD") == "" {
		ballast = make([]byte, 1<<30)
	} else {
		ballast = make([]byte, 1<<27)
	}
	debug.SetGCPercent(100)
	if pf := os.Getenv("MC_CPUPROFILE"); pf != "" {
		f, err := os.Create(pf)
		if err == nil {
			pprof.StartCPUProfile(f) //nolint:errcheck
			time.AfterFunc(25*time.Second, pprof.StopCPUProfile)
		}
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	c := &Ctx{
		Seed: seed, start: time.Now(), viols: map[string]*Replay{}, knownHit: map[string]bool{}, verifDir: verif,
	}
	c.Workers = runtime.GOMAXPROCS(0)
	c.slots = make([]slot, c.Workers)
	if os.Args[1] == "replay" {
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var r Replay
		if err := json.Unmarshal(b, &r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		c.ID, c.Tier, c.replay = r.Property, "thorough", &r
		c.deadline = time.Now().Add(time.Hour)
		Registry[r.Property].Run(c)
		if !c.replayDone {
			c.Tier = "quick"
			Registry[r.Property].Run(c)
		}
		if c.replayHit {
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, os.Args[2])
			os.Exit(1)
		}
		os.Exit(0)
	}
	c.ID, c.Tier = os.Args[1], os.Args[2]
	chk, ok := Registry[c.ID]
	if !ok {
		fmt.Fprintf(os.Stderr, "unknown check %s\n", c.ID)
		os.Exit(2)
	}
	if os.Getenv("MC_CHILD") != "" {
		c.deadline = time.Now().Add(24 * time.Hour)
		c.serveChild()
		return
	}
	budget := 400 * time.Second
	if c.Thorough() {
		budget = 2 * time.Hour
	}
	if s := os.Getenv("MC_BUDGET_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	c.deadline = c.start.Add(budget)
	c.known = loadKnown(filepath.Join(verif, "known_findings.txt"), c.ID)
	done := make(chan struct{})
	go c.watchdog(done)
	chk.Run(c)
	close(done)
	os.Exit(c.finish())
}
