package props

import (
	"bytes"
	"fmt"

	"github.com/bluenviron/mediacommon/v2/pkg/bits"

	"verif/mc/kit"
)

// naive bit list of a buffer.
func bitList(buf []byte) []byte {
	o := make([]byte, 0, len(buf)*8)
	for _, b := range buf {
		for i := 7; i >= 0; i-- {
			o = append(o, (b>>uint(i))&1)
		}
	}
	return o
}

func refRead(bl []byte, pos, n int) (uint64, bool) {
	if n > len(bl)-pos {
		return 0, false
	}
	v := uint64(0)
	for i := 0; i < n; i++ {
		v = v<<1 | uint64(bl[pos+i])
	}
	return v, true
}

// refUE decodes a code by the text of clause 9.1: count zeros, read that many bits.
// ok=false when bits are missing or the value does not fit in 32 bits.
func refUE(bl []byte, pos int) (uint64, int, bool) {
	z := 0
	for {
		if pos >= len(bl) {
			return 0, pos, false
		}
		b := bl[pos]
		pos++
		if b == 1 {
			break
		}
		z++
		if z > 40 {
			return 0, pos, false
		}
	}
	if z > 32 || len(bl)-pos < z {
		return 0, pos, false
	}
	v := uint64(1)
	for i := 0; i < z; i++ {
		v = v<<1 | uint64(bl[pos])
		pos++
	}
	v--
	if v > 0xFFFFFFFF {
		return 0, pos, false
	}
	return v, pos, true
}

var b01bufs = [][]byte{
	{}, {0xA5}, {0x80, 0x01}, {0x00, 0x7F, 0xFE}, {0xDE, 0xAD, 0xBE, 0xEF, 0x01},
	{0x12, 0x34, 0x56, 0x78, 0x9A, 0xBC, 0xDE, 0xF0, 0x0F, 0xC3, 0x5A, 0x81},
	{0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF},
	{0x00, 0x00, 0x00, 0x00, 0x01, 0xFF, 0xFF, 0xFF, 0xFF, 0x00, 0x80},
}

func init() {
	kit.Register(&kit.Check{
		ID: "B01",
		Assumptions: []string{
			"buffers up to 12 bytes from 8 patterns plus every 3-byte buffer; positions from 0 to the end",
			"the *Unsafe functions are used only within their documented space precondition",
		},
		Run: func(c *kit.Ctx) {
			// every buffer pattern x position x width
			type job struct{ buf, pos, n int }
			var jobs []job
			for b := range b01bufs {
				for pos := 0; pos <= len(b01bufs[b])*8; pos++ {
					for n := 0; n <= 66; n++ {
						jobs = append(jobs, job{b, pos, n})
					}
				}
			}
			c.Range("read-width-position", uint64(len(jobs)), "every position and width 0..66 of 8 buffers", func(w *kit.W) {
				j := jobs[w.Index]
				buf := clone(b01bufs[j.buf])
				bl := bitList(buf)
				pos := j.pos
				if j.n <= 64 {
					v, err := bits.ReadBits(buf, &pos, j.n)
					rv, ok := refRead(bl, j.pos, j.n)
					w.Check((err == nil) == ok, "readbits-error", "ReadBits(buf=%x pos=%d n=%d) err=%v, reference ok=%v", buf, j.pos, j.n, err, ok)
					if ok {
						w.Check(v == rv && pos == j.pos+j.n, "readbits-value", "ReadBits(buf=%x pos=%d n=%d)=%x pos=%d want %x pos=%d", buf, j.pos, j.n, v, pos, rv, j.pos+j.n)
					} else {
						w.Check(pos == j.pos, "readbits-errpos", "failed ReadBits moved the position from %d to %d", j.pos, pos)
					}
					w.Step(kit.H(v, pos, ok))
				}
				w.Check((bits.HasSpace(buf, j.pos, j.n) == nil) == (j.n <= len(bl)-j.pos), "hasspace", "HasSpace(len=%d pos=%d n=%d)", len(buf), j.pos, j.n)
				if j.n == 1 {
					pos = j.pos
					f, err := bits.ReadFlag(buf, &pos)
					rv, ok := refRead(bl, j.pos, 1)
					w.Check((err == nil) == ok && (!ok || f == (rv == 1) && pos == j.pos+1), "readflag", "ReadFlag(buf=%x pos=%d)", buf, j.pos)
					w.Ops(1)
				}
				w.Sample("buf=%x pos=%d n=%d", buf, j.pos, j.n)
			})

			// every 3-byte buffer: golomb codes from every position 0..3
			c.Range("golomb-all-3-bytes", 1<<24, "every buffer of 3 bytes, bit offset 0..7", func(w *kit.W) {
				buf := []byte{byte(w.Index >> 16), byte(w.Index >> 8), byte(w.Index)}
				bl := bitList(buf)
				p0 := int(w.Index>>3) % 8
				checkGolomb(w, buf, bl, p0)
			})

			// codes of every size: zeros count z (0..34) x pattern of the rest x offset x truncation
			c.Explore("golomb-large-codes", kit.Opt{Bound: "0..34 leading zeros, 12 suffix patterns, bit offsets 0..7, every truncation"}, func(w *kit.W) {
				off := w.Pick(8)
				z := w.Pick(35)
				var suffix uint64
				switch k := w.Pick(12); k {
				case 0:
					suffix = 0
				case 1:
					suffix = ^uint64(0)
				case 2:
					suffix = 1
				case 3:
					suffix = 2
				case 4:
					suffix = 0x5555555555555555
				case 5:
					suffix = 0xAAAAAAAAAAAAAAAA
				case 6:
					suffix = ^uint64(0) - 1
				case 7:
					suffix = 1 << 31
				case 8:
					suffix = 1<<31 - 1
				case 9:
					suffix = 1 << 30
				default:
					suffix = 0x123456789ABCDEF << uint(k)
				}
				bw := (&bitw{}).u(0x55, off).u(0, z).u(1, 1).u(suffix, z)
				full := len(bw.b)
				bw.u(0x2A, 7)
				buf := bw.out()
				cut := w.Pick(len(buf) + 1)
				if cut > 0 {
					buf = buf[:len(buf)-cut]
				}
				if off > len(buf)*8 {
					return
				}
				_ = full
				checkGolomb(w, clone(buf), bitList(buf), off)
				w.Sample("offset=%d zeros=%d buf=%x", off, z, buf)
			})

			// write/read sequences of fields
			widths := []int{0, 1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 48, 57, 63, 64}
			c.Explore("write-read-sequences", kit.Opt{Bound: fmt.Sprintf("sequences of %d fields, widths %v, 5 values each", kit.T(c, 3, 4), widths)}, func(w *kit.W) {
				n := kit.T(c, 3, 4)
				type fld struct {
					v uint64
					n int
				}
				var fs []fld
				total := 0
				lead := w.Pick(8)
				fs = append(fs, fld{uint64(0x6D) & (1<<uint(lead) - 1), lead})
				total += lead
				for i := 0; i < n; i++ {
					wd := widths[w.Pick(len(widths))]
					mask := ^uint64(0)
					if wd < 64 {
						mask = 1<<uint(wd) - 1
					}
					var v uint64
					if i == 0 {
						v = []uint64{0, mask, 1, 0xA5A5A5A5A5A5A5A5}[w.Pick(4)] & mask
					} else {
						v = []uint64{0xDEADBEEFCAFEF00D, 0x5A5A5A5A5A5A5A5A, 0x8000000000000001, 0xFFFFFFFFFFFFFFFF}[i%4] & mask
					}
					fs = append(fs, fld{v, wd})
					total += wd
				}
				size := (total + 7) / 8
				buf := make([]byte, size)
				ref := &bitw{}
				pos := 0
				for _, f := range fs {
					if f.n == 1 && f.v&1 == 1 {
						bits.WriteFlagUnsafe(buf, &pos, true)
					} else if f.n == 1 {
						bits.WriteFlagUnsafe(buf, &pos, false)
					} else {
						bits.WriteBitsUnsafe(buf, &pos, f.v, f.n)
					}
					ref.u(f.v, f.n)
					w.Ops(1)
				}
				w.Check(pos == total, "write-pos", "after writing %v position is %d, want %d", fs, pos, total)
				want := append(ref.out(), make([]byte, size)...)[:size]
				w.Check(bytes.Equal(buf, want), "write-bits", "writing %v gives %x, want %x", fs, buf, want)
				pos = 0
				for _, f := range fs {
					v, err := bits.ReadBits(buf, &pos, f.n)
					w.Check(err == nil && v == f.v, "read-back", "reading back %v gives %x (%v)", f, v, err)
					w.Step(kit.H(buf, pos))
				}
				w.Sample("fields %v -> %x", fs, buf)
			})

			// mixed read sequences
			c.Explore("mixed-read-sequences", kit.Opt{Bound: "5 reads among bits(0,1,3,8,13,32,64)/flag/ue/se from 8 buffers; stops at the first error"}, func(w *kit.W) {
				buf := clone(b01bufs[w.Pick(len(b01bufs))])
				bl := bitList(buf)
				pos := 0
				for i := 0; i < kit.T(c, 5, 6); i++ {
					p0 := pos
					switch k := w.Pick(10); {
					case k < 7:
						n := []int{0, 1, 3, 8, 13, 32, 64}[k]
						v, err := bits.ReadBits(buf, &pos, n)
						rv, ok := refRead(bl, p0, n)
						w.Check((err == nil) == ok && (!ok || v == rv && pos == p0+n), "seq-read", "ReadBits(%d) at %d of %x", n, p0, buf)
						w.Step(kit.H(buf, pos, ok))
						if !ok {
							return
						}
					case k == 7:
						f, err := bits.ReadFlag(buf, &pos)
						rv, ok := refRead(bl, p0, 1)
						w.Check((err == nil) == ok && (!ok || f == (rv == 1) && pos == p0+1), "seq-flag", "ReadFlag at %d of %x", p0, buf)
						w.Step(kit.H(buf, pos, ok))
						if !ok {
							return
						}
					case k == 8:
						v, err := bits.ReadGolombUnsigned(buf, &pos)
						rv, rp, ok := refUE(bl, p0)
						w.Check((err == nil) == ok && (!ok || uint64(v) == rv && pos == rp), "seq-ue", "ue at %d of %x: %d,%v want %d,%v", p0, buf, v, err, rv, ok)
						w.Step(kit.H(buf, pos, ok))
						if !ok {
							return
						}
					default:
						v, err := bits.ReadGolombSigned(buf, &pos)
						rv, rp, ok := refUE(bl, p0)
						if ok && rv == 0xFFFFFFFF {
							ok = false
						}
						w.Check((err == nil) == ok && (!ok || int64(v) == refSigned(rv) && pos == rp), "seq-se", "se at %d of %x: %d,%v want %d,%v", p0, buf, v, err, refSigned(rv), ok)
						w.Step(kit.H(buf, pos, ok))
						if !ok {
							return
						}
					}
				}
			})
		},
	})
}

func refSigned(k uint64) int64 {
	// Table 9-3: (-1)^(k+1) * ceil(k/2)
	if k%2 == 1 {
		return int64(k+1) / 2
	}
	return -int64(k / 2)
}

func checkGolomb(w *kit.W, buf, bl []byte, p0 int) {
	pos := p0
	v, err := bits.ReadGolombUnsigned(buf, &pos)
	rv, rp, ok := refUE(bl, p0)
	w.Check((err == nil) == ok, "ue-error", "unsigned Golomb of %x at bit %d: err=%v value=%d, reference value=%d ok=%v", buf, p0, err, v, rv, ok)
	if ok {
		w.Check(uint64(v) == rv && pos == rp, "ue-value", "unsigned Golomb of %x at bit %d: %d pos=%d, want %d pos=%d", buf, p0, v, pos, rv, rp)
	} else {
		w.Check(pos <= len(bl), "ue-errpos", "failed read left the position past the end")
	}
	pos = p0
	s, err := bits.ReadGolombSigned(buf, &pos)
	if ok && rv == 0xFFFFFFFF {
		ok = false // +2^31 does not fit
	}
	w.Check((err == nil) == ok, "se-error", "signed Golomb of %x at bit %d: err=%v value=%d, reference value=%d ok=%v", buf, p0, err, s, refSigned(rv), ok)
	if ok {
		w.Check(int64(s) == refSigned(rv) && pos == rp, "se-value", "signed Golomb of %x at bit %d: %d pos=%d, want %d pos=%d", buf, p0, s, pos, refSigned(rv), rp)
	}
	w.Ops(1)
	w.Step(kit.H(uint64(v), pos, ok))
}
