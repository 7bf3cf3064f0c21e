package props

import (
	"bytes"
	"errors"
	"io"

	"github.com/bluenviron/mediacommon/v2/pkg/rewindablereader"

	"verif/mc/kit"
)

var errSrc = errors.New("source failure")

// envReader is a source whose every answer is chosen by the explorer.
type envReader struct {
	w        *kit.W
	data     []byte
	pos      int
	end      error // returned at the end
	withData bool  // the end is reported together with the last bytes
	reads    int
	empties  int
}

func (e *envReader) Read(p []byte) (int, error) {
	e.reads++
	if e.reads > 10000 {
		e.w.Fail("livelock", "the source was read 10000 times")
	}
	rem := len(e.data) - e.pos
	if rem == 0 {
		return 0, e.end
	}
	max := min(len(p), rem)
	if max == 0 {
		return 0, nil
	}
	// 0: as much as possible; i: i bytes; last: nothing
	n := max
	k := e.w.Dev(max + 1)
	switch {
	case k == 0:
	case k < max:
		n = k
	default:
		if e.empties >= 2 {
			n = max
		} else {
			e.empties++
			return 0, nil
		}
	}
	copy(p, e.data[e.pos:e.pos+n])
	// poison what follows, as a real reader may
	for i := n; i < len(p); i++ {
		p[i] = 0xEE
	}
	e.pos += n
	if e.pos == len(e.data) && e.withData {
		return n, e.end
	}
	return n, nil
}

func init() {
	kit.Register(&kit.Check{
		ID: "B02",
		Assumptions: []string{
			"the source repeats its final error on every later read, as io.Reader sources do",
			"sources of up to 9 bytes, plus sizes around the 1 MiB recording limit",
		},
		Run: func(c *kit.Ctx) {
			sizes := []int{1, 2, 3, 5, 16, 0}
			c.Explore("read-rewind-read", kit.Opt{MaxDev: kit.T(c, 3, 5), Bound: "sources of 0-7 bytes, up to 3 reads before the rewind, read sizes 0,1,2,3,5,16, EOF or failure with or after the last bytes, bounded short/empty reads"}, func(w *kit.W) {
				l := w.Pick(8)
				src := &envReader{w: w, data: pat(l, 7), end: io.EOF}
				if w.Bool() {
					src.end = errSrc
				}
				src.withData = w.Bool()
				r := &rewindablereader.Reader{R: src}
				nr := w.Pick(4)
				var got []byte
				for i := 0; i < nr; i++ {
					buf := make([]byte, sizes[w.Pick(len(sizes))])
					n, err := r.Read(buf)
					w.Check(n >= 0 && n <= len(buf), "count", "read returned %d for a buffer of %d", n, len(buf))
					got = append(got, buf[:n]...)
					for j := range buf {
						buf[j] = 0xCC // the caller reuses its buffer
					}
					w.Trace("read(%d) -> %d %v", len(buf), n, err)
					w.Step(kit.H(got, src.pos, i))
					if err != nil {
						w.Check(err == src.end && len(got) == l, "first-error", "error %v after %d bytes of %d", err, len(got), l)
					}
				}
				w.Check(bytes.Equal(got, src.data[:len(got)]), "recording-read", "bytes before the rewind are %x, source is %x", got, src.data)
				w.Check(len(got) == src.pos, "recording-read", "reads before the rewind returned %d bytes out of %d taken from the source", len(got), src.pos)
				r.Rewind()
				got = nil
				sz := sizes[w.Pick(len(sizes)-1)]
				mix := w.Bool()
				for i := 0; ; i++ {
					if i > 1000 {
						w.Fail("livelock", "reading after the rewind does not end")
					}
					s := sz
					if mix && i%2 == 1 {
						s = 1
					}
					if mix && i == 2 {
						s = 0
					}
					buf := make([]byte, s)
					n, err := r.Read(buf)
					got = append(got, buf[:n]...)
					for j := range buf {
						buf[j] = 0xDD
					}
					w.Trace("after rewind: read(%d) -> %d %v", len(buf), n, err)
					w.Step(kit.H(got, src.pos, i))
					if err != nil {
						w.Check(err == src.end, "final-error", "final error is %v, the source's is %v", err, src.end)
						break
					}
				}
				w.Check(bytes.Equal(got, src.data), "replay", "after the rewind the reader gives %x, the source is %x", got, src.data)
				w.Sample("source of %d bytes, %d reads before the rewind, size %d after", l, nr, sz)
			})
			c.Range("many-reads", 6*400, "recordings made of 1 to 397 reads, and of 1000, 65537 and 300000 reads, of 1 or 3 bytes, replayed with reads of 1, 2 or 4096 bytes", func(w *kit.W) {
				n := 1 + int(w.Index/6)
				if n > 397 {
					n = []int{1000, 65537, 300000}[n-398]
				}
				rec, rep := []int{1, 3}[w.Index%2], []int{1, 2, 4096}[w.Index/2%3]
				all := pat(n*rec+1000, 3)
				r := &rewindablereader.Reader{R: bytes.NewReader(all)}
				buf := make([]byte, 4096)
				for i := 0; i < n; i++ {
					k, err := r.Read(buf[:rec])
					w.Check(k == rec && err == nil && bytes.Equal(buf[:k], all[i*rec:i*rec+k]), "recording-read", "read %d of %d: %d bytes, %v", i, n, k, err)
				}
				r.Rewind()
				got := make([]byte, 0, len(all))
				for {
					k, err := r.Read(buf[:rep])
					got = append(got, buf[:k]...)
					if err != nil {
						w.Check(err == io.EOF, "final-error", "final error is %v", err)
						break
					}
				}
				w.Check(bytes.Equal(got, all), "replay", "%d reads of %d bytes are replayed with reads of %d as %d bytes, the source has %d", n, rec, rep, len(got), len(all))
				w.Step(kit.H(n, rec, rep))
			})
			c.Explore("recording-limit", kit.Opt{Bound: "recordings of 1 MiB -1, +0, +1 in chunks of 64 KiB, 1 MiB, and one read"}, func(w *kit.W) {
				const lim = 1 << 20
				total := lim - 1 + w.Pick(3)
				extra := w.Pick(2) * 100
				src := bytes.NewReader(pat(total+extra, 9))
				all := pat(total+extra, 9)
				chunk := []int{65536, lim, lim + 1, 100003}[w.Pick(4)]
				r := &rewindablereader.Reader{R: src}
				var got []byte
				failed := false
				for len(got) < total {
					buf := make([]byte, min(chunk, total-len(got)))
					n, err := r.Read(buf)
					got = append(got, buf[:n]...)
					if err != nil {
						failed = true
						break
					}
				}
				w.Check(failed == (total > lim), "limit", "recording %d bytes: failed=%v", total, failed)
				w.Step(kit.H(total, chunk, failed))
				if failed {
					return
				}
				r.Rewind()
				rest, err := io.ReadAll(r)
				w.Check(err == nil && bytes.Equal(rest, all), "replay-large", "replay of %d bytes gives %d bytes, err %v", len(all), len(rest), err)
				w.Sample("total=%d chunk=%d", total, chunk)
			})
		},
	})
}
