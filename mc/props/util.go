package props

import (
	"fmt"
	"reflect"
	"strings"

	"verif/mc/kit"
)

// bitw is a deliberately naive bit writer: a slice of bits.
type bitw struct {
	b      []byte
	golomb []int // where Exp-Golomb codes start
}

func (w *bitw) u(v uint64, n int) *bitw {
	for i := n - 1; i >= 0; i-- {
		if i < 64 && (v>>uint(i))&1 == 1 {
			w.b = append(w.b, 1)
		} else {
			w.b = append(w.b, 0)
		}
	}
	return w
}

func (w *bitw) flag(v bool) *bitw {
	if v {
		return w.u(1, 1)
	}
	return w.u(0, 1)
}

// ue writes an unsigned Exp-Golomb code (clause 9.1 of ITU-T H.264).
func (w *bitw) ue(v uint64) *bitw {
	x := v + 1
	n := 0
	for t := x; t > 1; t >>= 1 {
		n++
	}
	w.golomb = append(w.golomb, len(w.b))
	w.u(0, n)
	return w.u(x, n+1)
}

// se writes a signed Exp-Golomb code.
func (w *bitw) se(v int64) *bitw {
	if v > 0 {
		return w.ue(uint64(2*v - 1))
	}
	return w.ue(uint64(-2 * v))
}

// overlong calls f with every version of the content that has one Exp-Golomb code with too many leading zeros.
func (w *bitw) overlong(f func(at int, rbsp []byte)) {
	for i, at := range w.golomb {
		for _, n := range []int{33, 40, 64, 200} {
			x := &bitw{b: append([]byte(nil), w.b[:at]...)}
			x.u(0, n)
			x.b = append(x.b, w.b[at:]...)
			x.u(1, 1).u(^uint64(0), 64)
			f(i, x.rbspTrailing().out())
		}
	}
}

func (w *bitw) bytes(p []byte) *bitw {
	for _, x := range p {
		w.u(uint64(x), 8)
	}
	return w
}

func (w *bitw) align() *bitw {
	for len(w.b)%8 != 0 {
		w.b = append(w.b, 0)
	}
	return w
}

// out packs the bits; the last byte is zero-padded.
func (w *bitw) out() []byte {
	o := make([]byte, (len(w.b)+7)/8)
	for i, x := range w.b {
		o[i/8] |= x << (7 - uint(i%8))
	}
	return o
}

// nalArena holds access units one after the other in the same memory, as a caller that reuses its buffers does.
type nalArena [8][256]byte

func (a *nalArena) put(au [][]byte) [][]byte {
	var o [][]byte
	for i, n := range au {
		if len(n) > len(a[i]) {
			panic("harness")
		}
		k := copy(a[i][:], n)
		o = append(o, a[i][:k:k])
	}
	return o
}

// padTo appends zero bytes (trailing_zero_8bits) to both of two NAL units so that they have the same size.
func padTo(a, b []byte) ([]byte, []byte) {
	n := max(len(a), len(b))
	return append(clone(a), make([]byte, n-len(a))...), append(clone(b), make([]byte, n-len(b))...)
}

// rbspTrailing appends the stop bit and aligns.
func (w *bitw) rbspTrailing() *bitw {
	w.u(1, 1)
	return w.align()
}

// emulate inserts emulation prevention bytes (clause 7.4.1 of ITU-T H.264).
func emulate(p []byte) []byte {
	var o []byte
	z := 0
	for _, b := range p {
		if z == 2 && b <= 3 {
			o = append(o, 3)
			z = 0
		}
		o = append(o, b)
		if b == 0 {
			z++
		} else {
			z = 0
		}
	}
	return o
}

func pat(n int, seed byte) []byte {
	o := make([]byte, n)
	x := uint32(seed)*2654435761 + 12345
	for i := range o {
		x = x*1664525 + 1013904223
		o[i] = byte(x >> 24)
	}
	return o
}

func hx(b []byte) string {
	if len(b) > 64 {
		return fmt.Sprintf("%x...(%d)", b[:64], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// clone returns a copy with no spare capacity.
func clone(b []byte) []byte {
	if b == nil {
		return nil
	}
	o := make([]byte, len(b))
	copy(o, b)
	return o[:len(o):len(o)]
}

func eq(a, b any) bool { return reflect.DeepEqual(a, b) }

func dump(v any) string { return strings.ReplaceAll(fmt.Sprintf("%+v", deref(v)), "\n", " ") }

func deref(v any) any {
	r := reflect.ValueOf(v)
	if r.Kind() == reflect.Ptr && !r.IsNil() {
		return r.Elem().Interface()
	}
	return v
}

// deepEq is reflect.DeepEqual except that nil and empty slices are the same.
func deepEq(a, b any) bool { return deepEqV(reflect.ValueOf(a), reflect.ValueOf(b)) }

func deepEqV(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !deepEqV(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !deepEqV(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !deepEqV(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return deepEqV(a.Elem(), b.Elem())
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float()
	case reflect.Func:
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if !b.MapIndex(k).IsValid() || !deepEqV(a.MapIndex(k), b.MapIndex(k)) {
				return false
			}
		}
		return true
	}
	panic("deepEq: " + a.Kind().String())
}

// diff names the first difference, for messages.
func diff(a, b any) string { return diffV("", reflect.ValueOf(a), reflect.ValueOf(b)) }

func diffV(path string, a, b reflect.Value) string {
	if a.IsValid() && b.IsValid() && a.Type() == b.Type() {
		switch a.Kind() {
		case reflect.Ptr, reflect.Interface:
			if !a.IsNil() && !b.IsNil() {
				return diffV(path, a.Elem(), b.Elem())
			}
		case reflect.Struct:
			for i := 0; i < a.NumField(); i++ {
				if !deepEqV(a.Field(i), b.Field(i)) {
					return diffV(path+"."+a.Type().Field(i).Name, a.Field(i), b.Field(i))
				}
			}
			return ""
		case reflect.Slice, reflect.Array:
			if a.Len() == b.Len() {
				for i := 0; i < a.Len(); i++ {
					if !deepEqV(a.Index(i), b.Index(i)) {
						return diffV(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i))
					}
				}
				return ""
			}
		}
	}
	s := fmt.Sprintf("%s: got %+v, want %+v", path, a, b)
	if len(s) > 400 {
		s = s[:400]
	}
	return s
}

// devVals returns fields at their default or, as a deviation, at an alternative value.
func devVals(w *kit.W) valFn {
	return func(d uint64, alts ...uint64) uint64 {
		k := w.Dev(len(alts) + 1)
		if k == 0 {
			return d
		}
		return alts[k-1]
	}
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// deepDump is dump that follows the pointers among the fields.
func deepDump(v any) string {
	s := dump(v)
	r := reflect.ValueOf(deref(v))
	if r.Kind() == reflect.Struct {
		for i := range r.NumField() {
			if f := r.Field(i); f.Kind() == reflect.Ptr && !f.IsNil() {
				s = fmt.Sprintf("%T %s", v, f.Type()) + " " + dump(f.Interface())
				for j := range r.NumField() {
					if j != i {
						s += " " + dump(r.Field(j).Interface())
					}
				}
			}
		}
	}
	return s
}

// deepText prints a value following its pointers.
func deepText(v any) string {
	var sb strings.Builder
	deepWrite(&sb, reflect.ValueOf(v), 0)
	return sb.String()
}

func deepWrite(sb *strings.Builder, v reflect.Value, depth int) {
	if depth > 12 {
		sb.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		sb.WriteString("nil")
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Ptr {
			sb.WriteByte('&')
		}
		deepWrite(sb, v.Elem(), depth+1)
	case reflect.Struct:
		sb.WriteString(v.Type().Name())
		sb.WriteByte('{')
		for i := range v.NumField() {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(v.Type().Field(i).Name)
			sb.WriteByte(':')
			deepWrite(sb, v.Field(i), depth+1)
		}
		sb.WriteByte('}')
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if v.Kind() == reflect.Slice {
				fmt.Fprintf(sb, "%x", v.Bytes())
				return
			}
		}
		sb.WriteByte('[')
		for i := range v.Len() {
			if i > 0 {
				sb.WriteByte(' ')
			}
			deepWrite(sb, v.Index(i), depth+1)
		}
		sb.WriteByte(']')
	case reflect.Func:
		sb.WriteString("func")
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(sb, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(sb, v.Uint())
	case reflect.Float64:
		fmt.Fprint(sb, v.Float())
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	default:
		fmt.Fprintf(sb, "?%s", v.Kind())
	}
}
