package props

import (
	"bytes"
	"io"
	"strings"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"

	"verif/mc/kit"
)

// skFile is an in-memory file.
type skFile struct {
	b   []byte
	pos int
}

func (f *skFile) write(p []byte) {
	f.pos = min(f.pos, len(f.b))
	for len(f.b) < f.pos+len(p) {
		f.b = append(f.b, 0)
	}
	copy(f.b[f.pos:], p)
	f.pos += len(p)
}

func (f *skFile) seek(off, whence int) bool {
	f.pos = min(f.pos, len(f.b))
	n := off + []int{0, f.pos, len(f.b)}[whence]
	if n < 0 {
		return false
	}
	f.pos = n
	for len(f.b) < n {
		f.b = append(f.b, 0)
	}
	return true
}

var skSizes = []int{0, 1, 3, 70}

var skSeeks = [][2]int{
	{-1, io.SeekStart}, {0, io.SeekStart}, {1, io.SeekStart}, {5, io.SeekStart},
	{-2, io.SeekCurrent}, {-1, io.SeekCurrent}, {0, io.SeekCurrent}, {2, io.SeekCurrent},
	{-2, io.SeekEnd}, {-1, io.SeekEnd}, {0, io.SeekEnd}, {2, io.SeekEnd}, {-500, io.SeekEnd},
}

// skReader gives data in pieces, the end alone or with the last piece.
type skReader struct {
	b    []byte
	with bool
}

func (r *skReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p[:min(2, len(p))], r.b)
	r.b = r.b[n:]
	if len(r.b) == 0 && r.with {
		return n, io.EOF
	}
	return n, nil
}

func init() {
	const kinds = 4 + 13 + 11
	op := func(w *kit.W, k int, b *seekablebuffer.Buffer, f *skFile, mark *byte) {
		data := func(n int) []byte {
			p := make([]byte, n)
			for i := range p {
				*mark++
				if *mark >= 0x80 {
					*mark = 1
				}
				p[i] = *mark
			}
			return p
		}
		wrote := func(n int, err error, want int) {
			w.Check(n == want && err == nil, "write", "wrote %d of %d (%v)", n, want, err)
		}
		switch {
		case k < 4:
			p := data(skSizes[k])
			q := clone(p)
			n, err := b.Write(p)
			wrote(n, err, len(p))
			w.Check(bytes.Equal(p, q), "write-input", "Write changed its input")
			for i := range p {
				p[i] = 0xEE // the buffer must not keep it
			}
			f.write(q)
			w.Trace("Write(%d)", len(q))
		case k < 17:
			s := skSeeks[k-4]
			n, err := b.Seek(int64(s[0]), s[1])
			ok := f.seek(s[0], s[1])
			w.Check((err == nil) == ok && (!ok || n == int64(f.pos)), "seek", "Seek(%d, %d) = %d, %v; want %d, success %v", s[0], s[1], n, err, f.pos, ok)
			w.Trace("Seek(%d, %d)", s[0], s[1])
		default:
			switch k - 17 {
			case 0:
				b.Reset()
				*f = skFile{}
				w.Trace("Reset")
			case 1:
				p := data(2)
				n, err := b.WriteString(string(p))
				wrote(n, err, 2)
				f.write(p)
				w.Trace("WriteString(2)")
			case 2:
				p := data(1)
				err := b.WriteByte(p[0])
				wrote(1, err, 1)
				f.write(p)
				w.Trace("WriteByte")
			case 3:
				r := []rune{'a', 'é', '世'}[len(f.b)%3]
				n, err := b.WriteRune(r)
				wrote(n, err, len(string(r)))
				f.write([]byte(string(r)))
				w.Trace("WriteRune(%c)", r)
			case 4, 5:
				p := data(5)
				n, err := b.ReadFrom(&skReader{b: clone(p), with: k-17 == 5})
				wrote(int(n), err, 5)
				f.write(p)
				w.Trace("ReadFrom(5)")
			case 6:
				p := data(4)
				n, err := io.Copy(b, strings.NewReader(string(p)))
				wrote(int(n), err, 4)
				f.write(p)
				w.Trace("io.Copy(4)")
			case 7:
				if len(f.b) >= 1 {
					b.Truncate(1)
					f.b = f.b[:1]
				}
				w.Trace("Truncate(1)")
			case 8:
				b.Grow(100)
				w.Trace("Grow(100)")
			case 9:
				p := data(1)
				n, err := b.Write(append(b.AvailableBuffer(), p...))
				wrote(n, err, 1)
				f.write(p)
				w.Trace("Write(AvailableBuffer)")
			case 10:
				n, err := b.Seek(0, 3)
				w.Check(err != nil, "seek-whence", "Seek(0, 3) = %d, %v", n, err)
				w.Trace("Seek(0, 3)")
			}
		}
		w.Check(b.Len() == len(f.b) && bytes.Equal(b.Bytes(), f.b) && b.String() == string(f.b), "content", "content %s, want %s", hx(b.Bytes()), hx(f.b))
		w.Ops(1)
	}
	kit.Register(&kit.Check{
		ID: "M04",
		Assumptions: []string{
			"seeking past the end extends the buffer with zeros at once; a position beyond the end (after Truncate) is moved to the end",
			"reading methods promoted from bytes.Buffer, which consume the content, are out of scope, except draining the buffer with WriteTo",
		},
		Run: func(c *kit.Ctx) {
			n := kit.T(c, 4, 5)
			c.Explore("operations", kit.Opt{Bound: "every sequence of operations up to the bound out of 28: writes of 0, 1, 3 and 70 bytes by every writing method, seeks from start, position and end (also before the start and past the end), resets, truncations"}, func(w *kit.W) {
				var b seekablebuffer.Buffer
				var f skFile
				mark := byte(0)
				for range n {
					op(w, w.Pick(kinds), &b, &f, &mark)
				}
				// the position shows in the next write
				op(w, 5, &b, &f, &mark) // restart
				w.Step(kit.H(b.Bytes()))
			})
			c.Explore("position", kit.Opt{Bound: "every sequence of up to 3 operations followed by a write of 2 bytes and by each seek"}, func(w *kit.W) {
				var b seekablebuffer.Buffer
				var f skFile
				mark := byte(0)
				for range kit.T(c, 2, 3) {
					op(w, w.Pick(kinds), &b, &f, &mark)
				}
				op(w, 17+1, &b, &f, &mark)
				op(w, 4+w.Pick(13), &b, &f, &mark)
				op(w, 1, &b, &f, &mark)
				w.Step(kit.H(b.Bytes()))
			})
			c.Range("cycles", kinds*kinds*kinds, "every sequence of 3 operations repeated 40 times, the buffers growing to several KiB", func(w *kit.W) {
				var b seekablebuffer.Buffer
				var f skFile
				mark := byte(0)
				x := int(w.Index)
				for range 40 {
					for _, k := range []int{x / kinds / kinds, x / kinds % kinds, x % kinds} {
						op(w, k, &b, &f, &mark)
					}
				}
				w.Step(kit.H(b.Bytes()))
			})
			c.Explore("large", kit.Opt{Bound: "every sequence of 3 operations out of writes of 1 and 65537 bytes and seeks to 10 places around 255, 65536 and 256 KiB from the start, the position or the end, then every operation once"}, func(w *kit.W) {
				var b seekablebuffer.Buffer
				var f skFile
				mark := byte(0)
				for i := range 3 {
					k := w.Pick(12)
					if k < 2 {
						p := pat([]int{1, 65537}[k], byte(3*i+1))
						n, err := b.Write(clone(p))
						w.Check(err == nil && n == len(p), "write", "Write(%d) = %d, %v", len(p), n, err)
						f.write(p)
						continue
					}
					x := [][2]int{{255, 0}, {65535, 0}, {65536, 0}, {65538, 1}, {-65537, 1}, {-1, 2}, {-65536, 2}, {256, 1}, {1 << 18, 0}, {-1 << 18, 1}}[k-2]
					n, err := b.Seek(int64(x[0]), x[1])
					ok := f.seek(x[0], x[1])
					w.Check((err == nil) == ok && (!ok || n == int64(f.pos)), "seek", "Seek(%d, %d) = %d, %v; want %d, success %v", x[0], x[1], n, err, f.pos, ok)
				}
				op(w, w.Pick(kinds), &b, &f, &mark)
				op(w, 18, &b, &f, &mark)
				w.Step(kit.H(len(b.Bytes()), f.pos))
			})
			c.Explore("drain", kit.Opt{Bound: "every sequence of up to 3 operations, the content moved elsewhere, 2 more operations"}, func(w *kit.W) {
				var b seekablebuffer.Buffer
				var f skFile
				mark := byte(0)
				for range kit.T(c, 1, 2) {
					op(w, w.Pick(kinds), &b, &f, &mark)
				}
				var out bytes.Buffer
				nn, err := b.WriteTo(&out)
				w.Check(err == nil && int(nn) == len(f.b) && bytes.Equal(out.Bytes(), f.b), "drain", "WriteTo: %d bytes of %d, %v", nn, len(f.b), err)
				f.b = nil
				for range 2 {
					op(w, w.Pick(kinds), &b, &f, &mark)
				}
				w.Step(kit.H(b.Bytes()))
			})
		},
	})
}
