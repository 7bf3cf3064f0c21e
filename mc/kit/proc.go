package kit

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sync"
	"sync/atomic"
	"time"
)

// Units of work that need a process of their own, because what they control is global to the process.

type procReq struct {
	H string
	I uint64
	T bool
}

type procRes struct {
	Execs, Ops, States int64
	Key, Msg           string
	Trace              []string
}

type proc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Scanner
	res    *os.File
	stderr bytes.Buffer
}

func (c *Ctx) startProc(bin string, env []string) (*proc, error) {
	p := &proc{}
	p.cmd = exec.Command(bin, c.ID, c.Tier)
	p.cmd.Env = append(append(os.Environ(), "MC_CHILD=1"), env...)
	p.cmd.Stderr = &p.stderr
	r, w, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	defer w.Close()
	p.res = r
	p.cmd.ExtraFiles = []*os.File{w}
	p.in, err = p.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	p.out = bufio.NewScanner(r)
	p.out.Buffer(make([]byte, 1<<16), 64<<20)
	return p, nil
}

func (p *proc) end() {
	p.in.Close()
	t := time.AfterFunc(5*time.Second, func() { p.cmd.Process.Kill() }) //nolint:errcheck
	p.cmd.Wait()                                                        //nolint:errcheck
	t.Stop()
	p.res.Close()
}

// do runs one unit; a process that dies or does not answer gives a violation.
func (p *proc) do(q procReq) *procRes {
	b, _ := json.Marshal(q)
	var hung atomic.Bool
	t := time.AfterFunc(150*time.Second, func() { hung.Store(true); p.cmd.Process.Kill() }) //nolint:errcheck
	defer t.Stop()
	_, err := p.in.Write(append(b, '\n'))
	if err == nil && p.out.Scan() {
		var r procRes
		if err := json.Unmarshal(p.out.Bytes(), &r); err == nil {
			return &r
		}
	}
	p.cmd.Wait() //nolint:errcheck
	if hung.Load() {
		return &procRes{Key: "hang", Msg: "no answer within 150 s"}
	}
	msg := p.stderr.String()
	if len(msg) > 3000 {
		msg = msg[:3000]
	}
	return &procRes{Key: "crash", Msg: "the process ended: " + msg}
}

// Schedules counts executions inside a unit of RangeProc.
func (w *W) Schedules(n int64) { w.execs += n }

// RangeProc runs f on each index below n, in processes running bin (empty: this program).
// A process handles up to perProc units.
func (c *Ctx) RangeProc(name string, n uint64, bin string, env []string, perProc int, bound string, f func(w *W)) {
	if c.child != nil {
		c.child[name] = f
		return
	}
	if bin == "" {
		bin, _ = os.Executable()
	}
	if c.replay != nil {
		if c.replay.Harness != name || c.replay.Index == nil {
			return
		}
		c.replayDone = true
		p, err := c.startProc(bin, env)
		if err != nil {
			fmt.Println(err)
			return
		}
		r := p.do(procReq{H: name, I: *c.replay.Index, T: true})
		p.end()
		for _, l := range r.Trace {
			fmt.Println("  ", l)
		}
		if r.Key != "" {
			c.replayHit = true
			fmt.Printf("reproduced: %s: %s\n", r.Key, r.Msg)
		} else {
			fmt.Println("not reproduced: the property holds on this execution")
		}
		return
	}
	if c.stop.Load() {
		return
	}
	p := c.newPart(name, bound)
	t0 := time.Now()
	var next, execs, ops, states atomic.Int64
	var capped atomic.Bool
	var wg sync.WaitGroup
	for range c.Workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var pr *proc
			used := 0
			for {
				i := uint64(next.Add(1) - 1)
				if i >= n || c.stop.Load() {
					break
				}
				if time.Now().After(c.deadline) {
					capped.Store(true)
					break
				}
				if pr == nil {
					var err error
					pr, err = c.startProc(bin, env)
					if err != nil {
						fmt.Fprintln(os.Stderr, err)
						os.Exit(2)
					}
					used = 0
				}
				r := pr.do(procReq{H: name, I: i})
				used++
				execs.Add(r.Execs)
				ops.Add(r.Ops)
				states.Add(r.States)
				if r.Key != "" {
					pr.end()
					pr = nil
					c.reportProc(name, i, bin, env, r)
				} else if perProc > 0 && used >= perProc {
					pr.end()
					pr = nil
				}
			}
			if pr != nil {
				pr.end()
			}
		}()
	}
	wg.Wait()
	p.Executions, p.Operations, p.States = execs.Load(), ops.Load(), states.Load()
	p.Exhaustive = !capped.Load() && !c.stop.Load()
	p.WallS = time.Since(t0).Seconds()
}

func (c *Ctx) reportProc(name string, i uint64, bin string, env []string, v *procRes) {
	c.mu.Lock()
	if _, ok := c.known[v.Key]; ok {
		c.knownHit[v.Key] = true
		c.mu.Unlock()
		return
	}
	if _, ok := c.viols[v.Key]; ok || len(c.viols) >= maxViolations {
		c.mu.Unlock()
		return
	}
	r := &Replay{Property: c.ID, Harness: name, Index: &i, Key: v.Key, Message: v.Msg}
	c.viols[v.Key] = r
	c.mu.Unlock()
	same, runs := 0, 5
	if v.Key == "hang" {
		runs = 1
	}
	var tr []string
	for k := range runs {
		p, err := c.startProc(bin, env)
		if err != nil {
			break
		}
		x := p.do(procReq{H: name, I: i, T: k == 0})
		p.end()
		if x.Key == v.Key {
			same++
		}
		if k == 0 {
			tr = x.Trace
		}
	}
	c.mu.Lock()
	r.Repro = fmt.Sprintf("%d/%d", same, runs)
	r.Trace = tr
	if len(c.viols) >= maxViolations {
		c.stop.Store(true)
	}
	c.mu.Unlock()
}

// serveChild answers requests.
func (c *Ctx) serveChild() {
	c.child = map[string]func(w *W){}
	Registry[c.ID].Run(c)
	out := os.NewFile(3, "results")
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		var q procReq
		if json.Unmarshal(sc.Bytes(), &q) != nil {
			return
		}
		w := &W{ctx: c, part: &part{}, states: &hashSet{}, Index: q.I, tracing: q.T}
		v := c.runOne(w, c.child[q.H])
		r := procRes{Execs: max(w.execs, 1), Ops: max(w.ops, 1), States: max(w.states.n.Load(), 1), Trace: w.trace}
		if v != nil {
			r.Key, r.Msg = v.key, v.msg
		}
		b, _ := json.Marshal(r)
		if _, err := out.Write(append(b, '\n')); err != nil {
			return
		}
	}
}
