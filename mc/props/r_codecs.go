package props

import (
	"fmt"
	"verif/mc/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID: "R01",
		Assumptions: []string{
			"allocations are bounded by 1 MiB plus 1000 bytes per byte of input, a call by 3 seconds (measured again alone before reporting)",
			"inputs are given without spare capacity, so that reading past their end panics",
			"accessors of the result (size, frame rate, duration) are called on what was decoded",
		},
		Run: func(c *kit.Ctx) {
			ts := rTargets()
			step := func(w *kit.W, t *rTarget, err error) {
				h := ""
				if err != nil {
					h = err.Error()
				}
				w.Step(kit.H(t.name, h))
			}
			run := func(w *kit.W, t *rTarget, b []byte) {
				w.Alive()
				w.Input = b
				var err error
				w.Bounded(rLimit(len(b)), rTime, func() { err = t.dec(t.fresh(), b) })
				w.Ops(1)
				step(w, t, err)
			}
			runAll := func(w *kit.W, t *rTarget, bs [][]byte) {
				w.Alive()
				errs := make([]error, len(bs))
				w.BoundedBatch(len(bs), 2048, func(i int) uint64 { return rLimit(len(bs[i])) }, rTime, func(i int) {
					w.Input = bs[i]
					errs[i] = t.dec(t.fresh(), bs[i])
				})
				w.Ops(int64(len(bs)))
				for _, err := range errs {
					step(w, t, err)
				}
			}
			const n = (1 + 256 + 65536) / 257
			c.Range("short", n*uint64(len(ts)), "every string of up to 2 bytes for every decoder", func(w *kit.W) {
				var bs [][]byte
				for i := range uint64(257) {
					bs = append(bs, rAllStrings(w.Index%n*257+i))
				}
				runAll(w, ts[w.Index/n], bs)
			})
			if c.Thorough() {
				var few []*rTarget
				for _, t := range ts {
					if t.name != "bits" {
						few = append(few, t)
					}
				}
				c.Range("short-3", 1<<24*uint64(len(few)), "every string of 3 bytes for every decoder", func(w *kit.W) {
					b := []byte{byte(w.Index >> 16), byte(w.Index >> 8), byte(w.Index)}
					w.Input = b
					few[w.Index>>24].dec(few[w.Index>>24].fresh(), b[:3:3]) //nolint:errcheck
				})
			}
			// pairs of substitutions for the encodings with few fields away from their default
			level := func(n int) int {
				if n < kit.T(c, 1, 2) {
					return 1
				}
				return 0
			}
			rSeeds(c, ts, "mutations", kit.T(c, 1, 2), "valid encodings with up to the stated number of fields away from their default; every truncation, every value of every byte (boundary values and bits for encodings longer than 100 bytes), every insertion and deletion of a few bytes, every 2- and 4-byte boundary value at every offset; for encodings with less fields away from their default every substitution of every truncation, every pair of substitutions and of bits", func(w *kit.W, t *rTarget, s []byte, n int) {
				var bs [][]byte
				rMutate(s, level(n), func(b []byte) {
					bs = append(bs, b)
					if len(bs) == 256 {
						runAll(w, t, bs)
						bs = bs[:0]
					}
				})
				runAll(w, t, bs)
			})
			var nals []*rTarget
			for _, t := range ts {
				switch t.name {
				case "h264-sps", "h265-sps", "h265-pps", "h264-dts-sps", "h264-dts-idr", "h264-dts-slice", "h265-dts-sps", "h265-dts-pps", "h265-dts-idr", "h265-dts-slice":
					nals = append(nals, t)
				}
			}
			c.Explore("codes", kit.Opt{MaxDev: kit.T(c, 0, 1), Bound: fmt.Sprintf("parameter sets and slices with no, all and some optional parts and up to %d fields away from that: an Exp-Golomb code of a value around every power of two up to 2^33, in place of the one at every bit position or before it", kit.T(c, 0, 1))}, func(w *kit.W) {
				t := nals[w.Pick(len(nals))]
				base := w.Pick(3)
				part := w.Pick(4)
				s := t.seed(w, func(k int) int {
					return (base*(k-1)/2 + w.Dev(k)) % k
				}, func(d uint64, alts ...uint64) uint64 {
					if k := w.Dev(len(alts) + 1); k > 0 {
						return alts[k-1]
					}
					return d
				})
				if s == nil {
					return
				}
				var bs [][]byte
				rCodes(t, s, part, 4, func(b []byte) {
					bs = append(bs, b)
					if len(bs) == 256 {
						runAll(w, t, bs)
						bs = bs[:0]
					}
				})
				runAll(w, t, bs)
			})
			pats := [][]byte{{0}, {0xFF}, {0, 0, 1}, {0, 0, 3}, {0, 0, 0, 1}, {0x80}, {1}, {0xFF, 0xF1, 0x50, 0x80, 1, 0x1F, 0xFC, 0}, {0x56, 0xE0, 1, 5}, {0x56, 0xE0, 0}, {0, 0, 0, 1, 5}, {0x12, 0}, {0xAA}, {0x40}, {0x7F, 0xE0, 0}, {0, 0, 1, 0x67, 0x42, 0xFF}}
			sizes := []int{1 << 16, 1 << 18}
			c.Range("long", uint64(len(ts)*len(pats)*len(sizes)*2), "repeated patterns of 64 KiB and 256 KiB, alone and after a valid beginning", func(w *kit.W) {
				i := int(w.Index)
				t := ts[i%len(ts)]
				i /= len(ts)
				p := pats[i%len(pats)]
				i /= len(pats)
				n := sizes[i%2]
				if t.name == "bits" {
					return // reads at every position: not meant for long inputs
				}
				var b []byte
				if i/2 == 1 {
					b = append(b, t.seed(w, mpDef, mvDef)...)
				}
				for len(b) < n {
					b = append(b, p...)
				}
				w.Trace("%s: %x repeated %d times", t.name, p, n/len(p))
				run(w, t, b[:len(b):len(b)])
			})
		},
	})

	kit.Register(&kit.Check{
		ID: "R04",
		Assumptions: []string{
			"MP4: what the writer declares not to support may be refused: MPEG-4 audio with channel configuration 0, E-AC-3 with reduced sample rates, presentations whose durations in milliseconds exceed 32 bits",
			"what is not coded by design (the count of quantization tables in a start of frame) is not compared",
		},
		Run: func(c *kit.Ctx) {
			var ts []*rTarget
			for _, t := range rTargets() {
				if t.enc != nil {
					ts = append(ts, t)
				}
			}
			run := func(w *kit.W, t *rTarget, b []byte) {
				w.Alive()
				w.Input = b
				x := t.fresh()
				err := t.dec(x, b)
				w.Ops(1)
				if err != nil {
					return
				}
				key := t.name
				n := -1
				if t.len != nil {
					n = t.len(x)
					w.Check(n >= 0 && n <= len(b), key+"-length", "%x: %d bytes read", b, n)
				}
				if t.norm != nil {
					t.norm(x)
				}
				before := deepText(x)
				e, err := t.enc(x)
				w.Check(err == nil, key+"-encode", "%x is decoded as %s, which cannot be encoded: %v", b, before, err)
				w.Check(deepText(x) == before, key+"-changed", "encoding changed the value from %s to %s", before, deepText(x))
				y := t.fresh()
				err = t.dec(y, e)
				if t.len != nil && err == nil {
					w.Check(t.len(y) == len(e), key+"-length", "%x: %d bytes read of %x", b, t.len(y), e)
				}
				if t.norm != nil {
					t.norm(y)
				}
				w.Check(err == nil && deepEq(x, y), key+"-again", "%x is decoded as %s, encoded as %x and decoded as %s (%v)", b, before, e, deepText(y), err)
				f, err := t.enc(y)
				w.Check(err == nil && eq(e, f), key+"-stable", "%x: encoded as %x, then as %x (%v)", b, e, f, err)
				w.Step(kit.H(t.name, e))
			}
			n := uint64(1 + 256 + 65536)
			c.Range("short", n*uint64(len(ts)), "every string of up to 2 bytes for every format", func(w *kit.W) {
				run(w, ts[w.Index/n], rAllStrings(w.Index%n))
			})
			// pairs of substitutions for the encodings with few fields away from their default
			level := func(n int) int {
				if n < kit.T(c, 1, 2) {
					return 1
				}
				return 0
			}
			rSeeds(c, ts, "mutations", kit.T(c, 1, 2), "everything that is accepted among the mutations of valid encodings (those of R01)", func(w *kit.W, t *rTarget, s []byte, n int) {
				rMutate(s, level(n), func(b []byte) { run(w, t, b) })
			})
			rMP4(c, rMP4Fix)
		},
	})
}
