package main

// Independent reference codec. Shares no code with the library: it walks the
// schema, works on byte slices with explicit shifts, and never looks at the
// library's helpers.

import (
	"fmt"
	"math"
	"math/bits"
	"reflect"
	"sort"
	"unicode/utf8"

	bin "github.com/gagliardetto/binary"
)

type refErr struct{ msg string }

func (e *refErr) Error() string { return e.msg }

func rfail(f string, a ...any) { panic(&refErr{fmt.Sprintf(f, a...)}) }

// W is the reference encoder state.
type W struct {
	out   []byte
	enc   bin.Encoding
	guide []byte // observed bytes: fixes the free choice of map order in Bin/CompactU16
	steps int64
}

func (w *W) uN(v uint64, n int, big bool) {
	w.steps++
	for i := 0; i < n; i++ {
		sh := uint(8 * i)
		if big {
			sh = uint(8 * (n - 1 - i))
		}
		w.out = append(w.out, byte(v>>sh))
	}
}

func (w *W) leb(v uint64) {
	w.steps++
	for v >= 0x80 {
		w.out = append(w.out, byte(v&0x7f|0x80))
		v >>= 7
	}
	w.out = append(w.out, byte(v))
}

func (w *W) length(n int) {
	switch w.enc {
	case bin.EncodingBin:
		w.leb(uint64(n))
	case bin.EncodingBorsh:
		w.uN(uint64(n), 4, false)
	case bin.EncodingCompactU16:
		if n > 65535 {
			rfail("compact-u16 length %d", n)
		}
		w.leb(uint64(n))
	}
}

func zigzag(v int64) uint64 { return uint64(v<<1) ^ uint64(v>>63) }

func isNaNBits(b uint64, n int) bool {
	if n == 4 {
		return b&0x7f800000 == 0x7f800000 && b&0x7fffff != 0
	}
	return b&0x7ff0000000000000 == 0x7ff0000000000000 && b&0xfffffffffffff != 0
}

func f32bits(v reflect.Value) uint64 {
	if v.CanAddr() {
		return uint64(math.Float32bits(*(*float32)(v.Addr().UnsafePointer())))
	}
	return uint64(math.Float32bits(float32(v.Float())))
}

func intWidth(k Kind) int {
	switch k {
	case KU8, KI8:
		return 1
	case KU16, KI16:
		return 2
	case KU32, KI32:
		return 4
	}
	return 8
}

func (w *W) put(t *T, v reflect.Value, big bool, sized bool) {
	borsh := w.enc == bin.EncodingBorsh
	pbig := big && !borsh // plain scalars ignore the order tag in Borsh
	switch t.K {
	case KBool, KLBool:
		if v.Bool() {
			w.uN(1, 1, false)
		} else {
			w.uN(0, 1, false)
		}
	case KU8, KU16, KU32, KU64:
		w.uN(v.Uint(), intWidth(t.K), pbig)
	case KI8, KI16, KI32, KI64:
		w.uN(uint64(v.Int()), intWidth(t.K), pbig)
	case KF32:
		b := f32bits(v)
		if borsh && isNaNBits(b, 4) {
			rfail("NaN")
		}
		w.uN(b, 4, pbig)
	case KF64:
		b := math.Float64bits(v.Float())
		if borsh && isNaNBits(b, 8) {
			rfail("NaN")
		}
		w.uN(b, 8, pbig)
	case KJSONF64:
		b := math.Float64bits(v.Float())
		if borsh && isNaNBits(b, 8) {
			rfail("NaN")
		}
		w.uN(b, 8, big)
	case KLI64:
		w.uN(uint64(v.Int()), 8, big)
	case KLU64:
		w.uN(v.Uint(), 8, big)
	case KU128:
		lo, hi := v.Field(0).Uint(), v.Field(1).Uint()
		if big {
			w.uN(hi, 8, true)
			w.uN(lo, 8, true)
		} else {
			w.uN(lo, 8, false)
			w.uN(hi, 8, false)
		}
	case KVaruint16, KVaruint32:
		w.leb(v.Uint())
	case KVarint16, KVarint32:
		w.leb(zigzag(v.Int()))
	case KStr:
		s := v.String()
		if w.enc == bin.EncodingBin {
			w.uN(uint64(len(s)), 8, false)
		} else {
			w.length(len(s))
		}
		w.out = append(w.out, s...)
	case KSafeStr:
		s := v.String()
		w.length(len(s))
		w.out = append(w.out, s...)
	case KHex:
		w.length(v.Len())
		w.out = append(w.out, v.Bytes()...)
	case KArr:
		w.elems(t, v, t.N)
	case KSlice:
		if !sized {
			w.length(v.Len())
		}
		w.elems(t, v, v.Len())
	case KMap:
		w.putMap(t, v)
	case KPtr:
		if v.IsNil() {
			rfail("nil required pointer")
		}
		w.put(t.Elem, v.Elem(), big, sized)
	case KStruct:
		w.putStruct(t, v)
	case KCust:
		t.C.put(w, v, big)
	default:
		panic("ref: kind")
	}
}

func (w *W) elems(t *T, v reflect.Value, n int) {
	if k := fastElem(t.Elem); k != KBool {
		for i := 0; i < n; i++ {
			w.uN(v.Index(i).Uint(), intWidth(k), false)
		}
		return
	}
	for i := 0; i < n; i++ {
		w.put(t.Elem, v.Index(i), false, false)
	}
}

func refLess(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.Uint() < b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() < b.Float()
	case reflect.String:
		x, y := a.String(), b.String()
		for i := 0; i < len(x) && i < len(y); i++ {
			if x[i] != y[i] {
				return x[i] < y[i]
			}
		}
		return len(x) < len(y)
	case reflect.Bool:
		return !a.Bool() && b.Bool()
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if refLess(a.Index(i), b.Index(i)) {
				return true
			}
			if refLess(b.Index(i), a.Index(i)) {
				return false
			}
		}
		return false
	}
	return fmt.Sprint(a.Interface()) < fmt.Sprint(b.Interface()) // unsupported kinds (C21): any order
}

func (w *W) putMap(t *T, v reflect.Value) {
	w.length(v.Len())
	keys := v.MapKeys()
	if w.enc == bin.EncodingBorsh || w.guide == nil {
		sort.Slice(keys, func(i, j int) bool { return refLess(keys[i], keys[j]) })
		for _, k := range keys {
			w.put(t.Key, addressable(k), false, false)
			w.put(t.Elem, addressable(v.MapIndex(k)), false, false)
		}
		return
	}
	// guided: pick the entry whose key encoding is what comes next in the
	// guide; key encodings of one type are prefix-free
	type ent struct {
		enc  string
		k    reflect.Value
		used bool
	}
	es := make([]ent, len(keys))
	longest := 0
	for i, k := range keys {
		start := len(w.out)
		w.put(t.Key, addressable(k), false, false)
		es[i] = ent{enc: string(w.out[start:]), k: k}
		longest = max(longest, len(es[i].enc))
		w.out = w.out[:start]
	}
	sort.Slice(es, func(i, j int) bool { return es[i].enc < es[j].enc })
	for n := 0; n < len(es); n++ {
		rest := ""
		if len(w.out) < len(w.guide) {
			rest = string(w.guide[len(w.out):min(len(w.guide), len(w.out)+longest)])
		}
		i := sort.Search(len(es), func(i int) bool { return es[i].enc > rest }) - 1
		if i < 0 || es[i].used || !(len(rest) >= len(es[i].enc) && rest[:len(es[i].enc)] == es[i].enc) {
			i = -1
			for j := range es { // the guide is cut short here, or the bytes are wrong
				if es[j].used {
					continue
				}
				if m := min(len(rest), len(es[j].enc)); rest[:m] == es[j].enc[:m] {
					i = j
					break
				}
			}
			for j := 0; i < 0; j++ {
				if !es[j].used {
					i = j // no entry fits: the comparison will fail
				}
			}
		}
		es[i].used = true
		w.out = append(w.out, es[i].enc...)
		w.put(t.Elem, addressable(v.MapIndex(es[i].k)), false, false)
	}
}

func addressable(v reflect.Value) reflect.Value {
	p := reflect.New(v.Type()).Elem()
	p.Set(v)
	return p
}

// refZero: the field holds its zero value (what makes an optional absent).
func refZero(t *T, v reflect.Value) bool {
	switch t.K {
	case KPtr:
		return v.IsNil()
	case KSlice, KHex, KMap:
		return v.IsNil()
	case KStr, KSafeStr:
		return v.Len() == 0
	case KArr:
		for i := 0; i < v.Len(); i++ {
			if !refZero(t.Elem, v.Index(i)) {
				return false
			}
		}
		return true
	case KStruct:
		for i, f := range t.Fields {
			if !refZero(f.T, v.Field(i)) {
				return false
			}
		}
		return true
	case KU128:
		return v.Field(0).Uint() == 0 && v.Field(1).Uint() == 0
	case KCust:
		return v.IsZero()
	case KF32, KF64, KJSONF64:
		return v.Float() == 0
	case KBool, KLBool:
		return !v.Bool()
	}
	if v.CanInt() {
		return v.Int() == 0
	}
	return v.Uint() == 0
}

func (w *W) flag(present bool, co bool) {
	b := uint64(0)
	if present {
		b = 1
	}
	if co || w.enc == bin.EncodingBin {
		w.uN(b, 4, false)
	} else {
		w.uN(b, 1, false)
	}
}

func (w *W) putStruct(t *T, v reflect.Value) {
	borsh := w.enc == bin.EncodingBorsh
	if t.Enum && borsh {
		idx := int(v.Field(0).Uint())
		w.uN(uint64(idx), 1, false)
		if idx+1 >= len(t.Fields) {
			rfail("enum index %d", idx)
		}
		w.put(t.Fields[idx+1].T, v.Field(idx+1), false, false)
		return
	}
	sized := map[string]bool{}
	for i := range t.Fields {
		f := &t.Fields[i]
		if f.Skip || f.Hidden {
			continue
		}
		if f.SizeOf != "" {
			sized[f.SizeOf] = true
		}
		fv := v.Field(i)
		if f.Opt {
			z := refZero(f.T, fv)
			w.flag(!z, false)
			if z {
				continue
			}
		}
		if f.COpt && borsh {
			z := refZero(f.T, fv)
			w.flag(!z, true)
			if z {
				continue
			}
		}
		w.put(f.T, fv, f.Big, sized[f.Name])
	}
}

// refEncode returns the reference bytes, or an error if the value must be refused.
func refEncode(t *T, v reflect.Value, enc bin.Encoding, guide []byte) (out []byte, steps int64, err error) {
	w := &W{enc: enc, guide: guide}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(*refErr); ok {
				out, steps, err = w.out, w.steps, e
				return
			}
			panic(r)
		}
	}()
	if !v.CanAddr() {
		v = addressable(v)
	}
	w.put(t, v, false, false)
	return w.out, w.steps, nil
}

// R is the reference decoder state.
type R struct {
	b     []byte
	pos   int
	enc   bin.Encoding
	steps int64
	amb   bool // the input's meaning is not specified (negative or overflowing sizeof count)
}

func (r *R) uN(n int, big bool) uint64 {
	r.steps++
	if len(r.b)-r.pos < n {
		rfail("need %d bytes at %d of %d", n, r.pos, len(r.b))
	}
	var v uint64
	for i := 0; i < n; i++ {
		c := uint64(r.b[r.pos+i])
		if big {
			v = v<<8 | c
		} else {
			v |= c << (8 * i)
		}
	}
	r.pos += n
	return v
}

// leb64 reads a LEB128 number of at most 64 bits (10 bytes).
func (r *R) leb64() uint64 {
	r.steps++
	var v uint64
	for i := 0; ; i++ {
		if r.pos+i >= len(r.b) {
			rfail("varint cut short")
		}
		c := r.b[r.pos+i]
		if i == 9 && c > 1 || i > 9 {
			rfail("varint overflow")
		}
		v |= uint64(c&0x7f) << (7 * i)
		if c < 0x80 {
			r.pos += i + 1
			return v
		}
	}
}

func unzig(u uint64) int64 { return int64(u>>1) ^ -int64(u&1) }

// refCompact decodes the canonical compact-u16 at the start of b.
func refCompact(b []byte) (val, size int, ok bool) {
	for size = 1; size <= 3 && size <= len(b); size++ {
		if b[size-1]&0x80 == 0 {
			for i := 0; i < size; i++ {
				val |= int(b[i]&0x7f) << (7 * i)
			}
			// canonical: minimal number of groups, and in range
			if val > 65535 || (size > 1 && bits.Len(uint(val)) <= 7*(size-1)) {
				return 0, 0, false
			}
			return val, size, true
		}
	}
	return 0, 0, false
}

func (r *R) length() int {
	switch r.enc {
	case bin.EncodingBin:
		n := r.leb64()
		if n > math.MaxInt32 {
			rfail("length %d", n)
		}
		return int(n)
	case bin.EncodingBorsh:
		n := r.uN(4, false)
		if n > math.MaxInt32 {
			rfail("length %d", n)
		}
		return int(n)
	default:
		v, n, ok := refCompact(r.b[r.pos:])
		if !ok {
			rfail("bad compact-u16")
		}
		r.steps++
		r.pos += n
		return v
	}
}

func (r *R) bytes(n int) []byte {
	r.steps++
	if n < 0 || len(r.b)-r.pos < n {
		rfail("need %d bytes", n)
	}
	out := append([]byte{}, r.b[r.pos:r.pos+n]...)
	r.pos += n
	return out
}

func refSafe(b []byte) string {
	var out []byte
	for len(b) > 0 {
		c, n := utf8.DecodeRune(b)
		if c == utf8.RuneError && n <= 1 {
			out = append(out, "\uFFFD"...)
		} else {
			out = append(out, b[:n]...)
		}
		b = b[n:]
	}
	return string(out)
}

func setF32(v reflect.Value, bits uint64) {
	*(*float32)(v.Addr().UnsafePointer()) = math.Float32frombits(uint32(bits))
}

func (r *R) get(t *T, v reflect.Value, big bool, sized *int) {
	borsh := r.enc == bin.EncodingBorsh
	pbig := big && !borsh
	switch t.K {
	case KBool, KLBool:
		v.SetBool(r.uN(1, false) != 0)
	case KU8, KU16, KU32, KU64:
		v.SetUint(r.uN(intWidth(t.K), pbig))
	case KI8:
		v.SetInt(int64(int8(r.uN(1, false))))
	case KI16:
		v.SetInt(int64(int16(r.uN(2, pbig))))
	case KI32:
		v.SetInt(int64(int32(r.uN(4, pbig))))
	case KI64:
		v.SetInt(int64(r.uN(8, pbig)))
	case KF32:
		b := r.uN(4, pbig)
		if borsh && isNaNBits(b, 4) {
			rfail("NaN")
		}
		setF32(v, b)
	case KF64, KJSONF64:
		o := pbig
		if t.K == KJSONF64 {
			o = big
		}
		b := r.uN(8, o)
		if borsh && isNaNBits(b, 8) {
			rfail("NaN")
		}
		v.SetFloat(math.Float64frombits(b))
	case KLI64:
		v.SetInt(int64(r.uN(8, big)))
	case KLU64:
		v.SetUint(r.uN(8, big))
	case KU128:
		if len(r.b)-r.pos < 16 {
			rfail("need 16")
		}
		a, b := r.uN(8, big), r.uN(8, big)
		if big {
			a, b = b, a
		}
		v.Field(0).SetUint(a)
		v.Field(1).SetUint(b)
		v.Field(2).SetZero()
	case KVaruint16, KVaruint32:
		n := r.leb64()
		if t.K == KVaruint16 && n > math.MaxUint16 || n > math.MaxUint32 {
			rfail("varuint range")
		}
		v.SetUint(n)
	case KVarint16, KVarint32:
		n := unzig(r.leb64())
		if t.K == KVarint16 && n != int64(int16(n)) || n != int64(int32(n)) {
			rfail("varint range")
		}
		v.SetInt(n)
	case KStr:
		var n int
		if r.enc == bin.EncodingBin {
			l := r.uN(8, false)
			if l > math.MaxInt32 {
				rfail("length")
			}
			n = int(l)
		} else {
			n = r.length()
		}
		v.SetString(string(r.bytes(n)))
	case KSafeStr:
		v.SetString(refSafe(r.bytes(r.length())))
	case KHex:
		v.SetBytes(r.bytes(r.length()))
	case KArr:
		for i := 0; i < t.N; i++ {
			r.elem(t.Elem, v.Index(i))
		}
	case KSlice:
		var n int
		if sized != nil {
			n = *sized
		} else {
			n = r.length()
		}
		if n > len(r.b)-r.pos {
			rfail("slice length %d", n)
		}
		v.Set(reflect.MakeSlice(t.RT, n, n))
		for i := 0; i < n; i++ {
			r.elem(t.Elem, v.Index(i))
		}
	case KMap:
		n := r.length()
		v.Set(reflect.MakeMap(t.RT))
		for i := 0; i < n; i++ {
			k := reflect.New(t.Key.RT).Elem()
			r.get(t.Key, k, false, nil)
			e := reflect.New(t.Elem.RT).Elem()
			r.get(t.Elem, e, false, nil)
			v.SetMapIndex(k, e)
		}
	case KPtr:
		if v.IsNil() {
			v.Set(reflect.New(t.Elem.RT))
		}
		r.get(t.Elem, v.Elem(), big, sized)
	case KStruct:
		r.getStruct(t, v)
	case KCust:
		t.C.get(r, v, big)
	default:
		panic("ref: kind")
	}
}

func (r *R) elem(t *T, v reflect.Value) {
	if k := fastElem(t); k != KBool {
		v.SetUint(r.uN(intWidth(k), false))
		return
	}
	r.get(t, v, false, nil)
}

func (r *R) getStruct(t *T, v reflect.Value) {
	borsh := r.enc == bin.EncodingBorsh
	if t.Enum && borsh {
		idx := int(r.uN(1, false))
		if idx+1 >= len(t.Fields) {
			rfail("enum index")
		}
		v.Field(0).SetUint(uint64(idx))
		r.get(t.Fields[idx+1].T, v.Field(idx+1), false, nil)
		return
	}
	sizes := map[string]int{}
	for i := range t.Fields {
		f := &t.Fields[i]
		if f.Skip || f.Hidden {
			continue
		}
		if f.Ext && r.pos >= len(r.b) {
			continue
		}
		fv := v.Field(i)
		absent := false
		if f.Opt {
			w := 1
			if r.enc == bin.EncodingBin {
				w = 4
			}
			absent = r.uN(w, false) == 0
		}
		if !absent && f.COpt && borsh {
			x := r.uN(4, false)
			if x > 1 {
				rfail("coption %d", x)
			}
			absent = x == 0
		}
		if absent {
			fv.SetZero()
		} else {
			var sz *int
			if n, ok := sizes[f.Name]; ok {
				sz = &n
			}
			r.get(f.T, fv, f.Big, sz)
		}
		if f.SizeOf != "" {
			n := 0
			if fv.CanInt() {
				n = int(fv.Int())
			} else {
				n = int(fv.Uint())
			}
			if n < 0 {
				n, r.amb = 0, true
			}
			sizes[f.SizeOf] = n
		}
	}
}

// refDecode decodes b; ok=false means the input must be refused.
func refDecode(t *T, b []byte, enc bin.Encoding) (v reflect.Value, n int, steps int64, err error) {
	return refDecodeInto(t, reflect.New(t.RT).Elem(), b, enc)
}

// refDecodeAmb also reports whether the input met an unspecified construct.
func refDecodeAmb(t *T, b []byte, enc bin.Encoding) (v reflect.Value, n int, steps int64, err error, amb bool) {
	r := &R{b: b, enc: enc}
	v = reflect.New(t.RT).Elem()
	defer func() {
		if x := recover(); x != nil {
			if e, ok := x.(*refErr); ok {
				n, steps, err, amb = r.pos, r.steps, e, r.amb
				return
			}
			panic(x)
		}
	}()
	r.get(t, v, false, nil)
	return v, r.pos, r.steps, nil, r.amb
}

func refDecodeInto(t *T, into reflect.Value, b []byte, enc bin.Encoding) (v reflect.Value, n int, steps int64, err error) {
	r := &R{b: b, enc: enc}
	defer func() {
		if x := recover(); x != nil {
			if e, ok := x.(*refErr); ok {
				n, steps, err = r.pos, r.steps, e
				return
			}
			panic(x)
		}
	}()
	r.get(t, into, false, nil)
	return into, r.pos, r.steps, nil
}

// eq compares two Go values of schema t, ignoring what the format does not
// carry (skipped and unexported fields, nil vs empty, endianness markers,
// inactive enum payloads).
func eq(t *T, a, b reflect.Value, enc bin.Encoding) bool {
	switch t.K {
	case KBool, KLBool:
		return a.Bool() == b.Bool()
	case KU8, KU16, KU32, KU64, KLU64, KVaruint16, KVaruint32:
		return a.Uint() == b.Uint()
	case KI8, KI16, KI32, KI64, KLI64, KVarint16, KVarint32:
		return a.Int() == b.Int()
	case KF32:
		x, y := f32bits(a), f32bits(b)
		// a signalling NaN may be quieted by conversions through float64
		return x == y || isNaNBits(x, 4) && isNaNBits(y, 4) && x|0x400000 == y|0x400000
	case KF64, KJSONF64:
		x, y := math.Float64bits(a.Float()), math.Float64bits(b.Float())
		return x == y || isNaNBits(x, 8) && isNaNBits(y, 8) && x|1<<51 == y|1<<51
	case KU128:
		return a.Field(0).Uint() == b.Field(0).Uint() && a.Field(1).Uint() == b.Field(1).Uint()
	case KStr, KSafeStr:
		return a.String() == b.String()
	case KHex:
		return string(a.Bytes()) == string(b.Bytes())
	case KArr, KSlice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !eq(t.Elem, a.Index(i), b.Index(i), enc) {
				return false
			}
		}
		return true
	case KMap:
		if a.Len() != b.Len() {
			return false
		}
		it := a.MapRange()
		for it.Next() {
			k := it.Key()
			y := b.MapIndex(k)
			if k.CanFloat() && k.Float() != k.Float() {
				continue // NaN keys cannot be looked up; the sizes agree
			}
			if !y.IsValid() || !eq(t.Elem, it.Value(), y, enc) {
				return false
			}
		}
		return true
	case KPtr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return eq(t.Elem, a.Elem(), b.Elem(), enc)
	case KStruct:
		if t.Enum && enc == bin.EncodingBorsh {
			i := int(a.Field(0).Uint())
			if i != int(b.Field(0).Uint()) {
				return false
			}
			if i+1 >= len(t.Fields) {
				return true
			}
			return eq(t.Fields[i+1].T, a.Field(i+1), b.Field(i+1), enc)
		}
		for i := range t.Fields {
			f := &t.Fields[i]
			if f.Skip || f.Hidden {
				continue
			}
			if !eq(f.T, a.Field(i), b.Field(i), enc) {
				return false
			}
		}
		return true
	case KCust:
		return t.C.eq(a, b)
	}
	panic("eq")
}
