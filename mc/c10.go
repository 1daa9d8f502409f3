package main

import (
	"bytes"
	"fmt"
	"math"
	"reflect"

	bin "github.com/gagliardetto/binary"
)

func init() {
	register("C10", &Check{Level: "model_checking",
		Rule:        "state = distinct (map type, encoding, key set); transition = one insertion, deletion or encode; trace = one construction history (insertion order with deletions) encoded and compared with the reference ordering",
		Assumptions: []string{"key sets: all subsets of size 0..5 (quick) / 0..6 (thorough) of boundary domains of 7-14 keys per key type; string keys sharing every prefix length 0..299 and array keys of up to 129 elements differing at every position; all insertion orders up to size 4", "key kinds: integers, floats (no NaN), strings, bools, arrays of these, named and library types of those kinds; 128-bit keys are outside the contract"},
		Promote:     true,
		Run:         runC10})
}

// keyDomain: boundary keys of a type, chosen to separate wrong orderings
// (signedness, byte order, length-first, lexicographic-on-decimal ...).
func keyDomain(t *T) []reflect.Value {
	var out []reflect.Value
	conv := func(xs ...any) {
		for _, x := range xs {
			out = append(out, rv(x, t.RT))
		}
	}
	switch t.RT.Kind() {
	case reflect.Bool:
		conv(true, false)
	case reflect.Uint8:
		conv(0, 1, 2, 10, 127, 128, 200, 255)
	case reflect.Uint16:
		conv(0, 1, 9, 255, 256, 0x0100+1, 0x7fff, 0x8000, 0xffff)
	case reflect.Uint32:
		conv(0, 1, 255, 256, 1<<16, 1<<31-1, uint32(1<<31), uint32(1<<32-1))
	case reflect.Uint64:
		conv(0, 1, 255, 256, uint64(1<<32), uint64(1<<53+1), uint64(1<<53), uint64(1<<63-1), uint64(1<<63), uint64(math.MaxUint64), uint64(math.MaxUint64-1))
	case reflect.Int8:
		conv(-128, -2, -1, 0, 1, 2, 100, 127)
	case reflect.Int16:
		conv(-32768, -256, -255, -1, 0, 1, 255, 256, 32767)
	case reflect.Int32:
		conv(math.MinInt32, -65536, -1, 0, 1, 256, 65536, math.MaxInt32)
	case reflect.Int64:
		conv(int64(math.MinInt64), int64(math.MinInt64+1), -1<<33, -1, 0, 1, 1<<33, int64(1<<53), int64(1<<53+1), int64(math.MaxInt64-1), int64(math.MaxInt64))
	case reflect.Float32:
		conv(float32(math.Inf(-1)), float32(-2.5), float32(-1), float32(-math.SmallestNonzeroFloat32), float32(0), float32(math.SmallestNonzeroFloat32), float32(0.5), float32(2), float32(math.Inf(1)))
	case reflect.Float64:
		conv(math.Inf(-1), -2.5, -1.0, -math.SmallestNonzeroFloat64, 0.0, math.SmallestNonzeroFloat64, 0.5, 2.0, 2.0000000000000004, math.Inf(1))
	case reflect.String:
		conv("", "\x00", "a", "a\x00", "ab", "aa", "b", "B", "é", "\xff", "aaaaaaaa", "10", "9", "€")
	case reflect.Array:
		d := keyDomain(t.Elem)
		if len(d) > 3 {
			d = []reflect.Value{d[0], d[len(d)/2], d[len(d)-1]}
		}
		n := t.N
		if n > 3 {
			n = 3
		}
		idx := make([]int, n)
		for {
			v := reflect.New(t.RT).Elem()
			for i := 0; i < t.N; i++ {
				if i < 1 {
					v.Index(i).Set(d[idx[0]])
				} else if i == t.N-1 && n > 1 {
					v.Index(i).Set(d[idx[n-1]])
				} else if i == 1 && n > 2 {
					v.Index(i).Set(d[idx[1]])
				} else {
					v.Index(i).Set(d[0])
				}
			}
			out = append(out, v)
			k := n - 1
			for ; k >= 0; k-- {
				idx[k]++
				if idx[k] < len(d) {
					break
				}
				idx[k] = 0
			}
			if k < 0 {
				break
			}
		}
		if len(out) > 9 {
			var o []reflect.Value
			for i := 0; i < len(out); i += len(out)/9 + 1 {
				o = append(o, out[i])
			}
			out = append(o, out[len(out)-1])
		}
	default:
		panic("keyDomain " + t.Name)
	}
	return out
}

func keyTypes() []*T {
	return []*T{tBool, tU8, tU16, tU32, tU64, tI8, tI16, tI32, tI64, tF32, tF64, tStr,
		tNBool, tNU8, tNU16, tNU32, tNU64, tNI8, tNI16, tNI32, tNI64, tNF32, tNF64, tNStr,
		tLU64, tLI64, tVaruint16, tVaruint32, tVarint16, tVarint32, tSafeStr, tJSONF64, tLBool, tBEnum, tUI32, tUStr, tUU64, tUU16, tUU8, tUU32,
		ArrT(2, tU8), ArrT(3, tU8), ArrT(32, tU8), ArrT(2, tI8), ArrT(2, tU16), ArrT(2, tI64), ArrT(2, tStr), ArrT(2, tF64), ArrT(2, tBool), ArrT(2, ArrT(2, tU8)), ArrT(1, tNI32), tTypeID}
}

func runC10(c *Ctx) {
	maxSub := 4
	if c.Thorough {
		maxSub = 5
	}
	if c.Extra {
		maxSub = 6
	}
	vts := []*T{tU16, tStr}
	for _, kt := range keyTypes() {
		dom := keyDomain(kt)
		for vi, vt := range vts {
			mt := MapT(kt, vt)
			c.Group("subsets:" + mt.Name)
			forSubsets(len(dom), maxSub, func(sub []int) {
				if !c.Next() {
					return
				}
				forPerms(len(sub), func(perm []int) bool {
					return mapHistory(c, mt, vi, dom, sub, perm)
				})
				c.Res.States += 3
			})
		}
	}
	// larger maps built in several orders, with deletions and growth
	sizes := []int{5, 8, 9, 16, 17, 33, 64, 100, 300}
	if c.Thorough {
		sizes = append(sizes, 1000, 5000)
	}
	for _, kt := range []*T{tU8, tI8, tU16, tI16, tU32, tI32, tU64, tI64, tStr, tNU64, tNI64, tF64, ArrT(2, tU8), ArrT(2, tI16)} {
		mt := MapT(kt, tU32)
		c.Group("big:" + mt.Name)
		for _, n := range sizes {
			for mode := 0; mode < 4; mode++ {
				if c.Next() {
					bigMap(c, mt, n, mode)
				}
			}
		}
	}
	longKeys(c)
	// values of every kind, nested maps, maps inside structs, slices, enums
	var nested []*T
	in := MapT(tI16, tStr)
	nested = append(nested, MapT(tStr, in), MapT(tU8, MapT(tNU64, MapT(tI8, tU8))), SliceT(in), ArrT(2, in), S(tU8, in, tU16), S(PtrT(in), tU8),
		MapT(tU8, S(tU8, in)), MapT(tU8, PtrT(in)), MapT(tU8, SliceT(in)), StructT(fld("M", in, "optional"), fld("Z", in, "")), StructT(fld("M", PtrT(in), "coption"), fld("Z", tU8, "")), EnumT(`borsh_enum:"true"`, in, tU8), tUNest, tUMap)
	for _, vt := range append(allLeaves(), userLeaves()...) {
		nested = append(nested, MapT(tI8, vt), MapT(tStr, SliceT(vt)), MapT(tU64, S(vt, tU8)))
	}
	for _, t := range nested {
		c.Group("nested:" + clip(t.Name, 120))
		encs := encodingsFor(t)
		for _, v := range vals(t, 2, 1) {
			if !c.Next() {
				continue
			}
			for _, enc := range encs {
				if refOK(t, v, enc) {
					encodeStable(c, t, v, enc)
				}
			}
		}
	}
}

func encodeStable(c *Ctx, t *T, v reflect.Value, enc bin.Encoding) bool {
	var first []byte
	for i := 0; i < 3; i++ {
		x := v
		if i == 2 {
			x = deepCopy(v) // equal value, different memory
		}
		b, err, p := marshal(enc, x.Interface())
		c.Res.Transitions++
		if p != "" || err != nil {
			c.Fail("%s %s %s: %v %s", enc, t.Name, show(v), err, p)
			return false
		}
		ref, _, _ := refEncode(t, v, enc, nonNil(b))
		if !bytes.Equal(ref, b) {
			c.Fail("%s %s %s: encodes to\n  %s, reference order gives\n  %s", enc, t.Name, show(v), hx(b), hx(ref))
			return false
		}
		if i == 0 {
			first = b
		} else if enc == bin.EncodingBorsh && !bytes.Equal(first, b) {
			c.Fail("Borsh %s %s: two encodes differ: %s / %s", t.Name, show(v), hx(first), hx(b))
			return false
		}
	}
	c.Res.Traces++
	c.State(hash(t.Name, enc.String(), string(first)))
	return true
}

func forSubsets(n, max int, f func([]int)) {
	var rec func(start int, cur []int)
	rec = func(start int, cur []int) {
		f(cur)
		if len(cur) == max {
			return
		}
		for i := start; i < n; i++ {
			rec(i+1, append(cur[:len(cur):len(cur)], i))
		}
	}
	rec(0, nil)
}

func forPerms(n int, f func([]int) bool) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	if n > 4 { // identity, reverse and rotations only
		for r := 0; r < n; r++ {
			q := make([]int, n)
			for i := range q {
				q[i] = (i + r) % n
			}
			if !f(q) {
				return
			}
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				q[i], q[j] = q[j], q[i]
			}
			if !f(q) {
				return
			}
		}
		return
	}
	var rec func(k int) bool
	rec = func(k int) bool {
		if k == n {
			return f(p)
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			if !rec(k + 1) {
				return false
			}
			p[k], p[i] = p[i], p[k]
		}
		return true
	}
	rec(0)
}

func mapHistory(c *Ctx, mt *T, vi int, dom []reflect.Value, sub, perm []int) bool {
	for _, withDel := range []bool{false, true} {
		m := reflect.MakeMap(mt.RT)
		if withDel { // insert everything, then delete what does not belong
			for i, k := range dom {
				m.SetMapIndex(k, vals(mt.Elem, 0, 50+i)[0])
			}
			inSub := map[int]bool{}
			for _, s := range sub {
				inSub[s] = true
			}
			for i, k := range dom {
				if !inSub[i] {
					m.SetMapIndex(k, reflect.Value{})
				}
			}
		}
		for _, pi := range perm {
			m.SetMapIndex(dom[sub[pi]], vals(mt.Elem, 0, sub[pi]+1)[0])
		}
		c.Res.Transitions += int64(len(perm))
		v := reflect.New(mt.RT).Elem()
		v.Set(m)
		for _, enc := range allEnc {
			b, err, p := marshal(enc, v.Interface())
			c.Res.Transitions++
			c.Res.Traces++
			ref, _, rerr := refEncode(mt, v, enc, nonNil(b))
			if rerr != nil {
				continue
			}
			if p != "" || err != nil || !bytes.Equal(b, ref) {
				c.Fail("%s %s with keys %v inserted in order %v (deletions: %v): %v %s\n  library  %s\n  expected %s", enc, mt.Name, show(v), perm, withDel, err, p, hx(b), hx(ref))
				return false
			}
		}
	}
	if c.Res.Traces%4001 < 6 {
		c.Sample("%s keys %v order %v", mt.Name, sub, perm)
	}
	return true
}

func bigMap(c *Ctx, mt *T, n, mode int) {
	m := reflect.MakeMap(mt.RT)
	key := func(i int) reflect.Value {
		x := uint64(i) * 0x9E3779B97F4A7C15 >> 3
		k := reflect.New(mt.Key.RT).Elem()
		switch {
		case k.CanInt():
			k.SetInt(int64(x) ^ int64(i)<<40)
		case k.CanUint():
			k.SetUint(x)
		case k.CanFloat():
			k.SetFloat(float64(int64(x)) / 7)
		case k.Kind() == reflect.String:
			k.SetString(fmt.Sprint(x % 99991))
		default:
			for j := 0; j < k.Len(); j++ {
				if e := k.Index(j); e.CanInt() {
					e.SetInt(int64(int16(x >> (16 * j))))
				} else {
					e.SetUint(uint64(byte(x >> (8 * j))))
				}
			}
		}
		return k
	}
	switch mode {
	case 0:
		for i := 0; i < n; i++ {
			m.SetMapIndex(key(i), reflect.ValueOf(uint32(i)))
		}
	case 1:
		for i := n - 1; i >= 0; i-- {
			m.SetMapIndex(key(i), reflect.ValueOf(uint32(i)))
		}
	case 2:
		for i := 0; i < 3*n; i++ {
			m.SetMapIndex(key(i), reflect.ValueOf(uint32(i)))
		}
		for i := n; i < 3*n; i++ {
			m.SetMapIndex(key(i), reflect.Value{})
		}
	case 3:
		for i := 0; i < n; i++ {
			m.SetMapIndex(key(i), reflect.ValueOf(uint32(7)))
			m.SetMapIndex(key(i/2), reflect.ValueOf(uint32(i)))
		}
	}
	v := reflect.New(mt.RT).Elem()
	v.Set(m)
	for _, enc := range allEnc {
		if refOK(mt, v, enc) && !encodeStable(c, mt, v, enc) {
			return
		}
	}
}

// longKeys: keys that differ only far from their start.
func longKeys(c *Ctx) {
	check := func(mt *T, keys []reflect.Value) bool {
		for _, rev := range []bool{false, true} {
			m := reflect.MakeMap(mt.RT)
			for i := range keys {
				k := i
				if rev {
					k = len(keys) - 1 - i
				}
				m.SetMapIndex(keys[k], reflect.ValueOf(uint8(k+1)))
			}
			v := reflect.New(mt.RT).Elem()
			v.Set(m)
			c.Res.Transitions += int64(len(keys))
			for _, enc := range allEnc {
				if refOK(mt, v, enc) && !encodeStable(c, mt, v, enc) {
					return false
				}
			}
		}
		return true
	}
	for _, kt := range []*T{tStr, tNStr, tSafeStr} {
		mt := MapT(kt, tU8)
		c.Group("longstr:" + mt.Name)
		for n := 0; n < 300; n++ {
			if !c.Next() {
				continue
			}
			p := string(bytes.Repeat([]byte("kq"), n)[:n])
			var keys []reflect.Value
			for _, s := range []string{"", "a", "b", "aa", "ab", "\x00", "\xff", "a\x00"} {
				keys = append(keys, rv(p+s, kt.RT))
			}
			if !check(mt, keys) {
				return
			}
		}
	}
	// one map holding every short string: any two of them out of order show
	for _, kt := range []*T{tStr, tNStr, tSafeStr} {
		mt := MapT(kt, tU8)
		c.Group("allstr:" + mt.Name)
		for first := -1; first < 256; first++ {
			if !c.Next() {
				continue
			}
			var keys []reflect.Value
			if first < 0 {
				for _, s := range []string{"é", "e\u0301", "\ue000", "\ufffd", "\U00010000", "\U0010ffff", "ß", "SS", "ss", "İ", "i", "I", "ı", "K", "k", "K", "ﬀ", "ff", "\xed\xa0\x80", "\xf0\x9f\x98\x80", "\xf0\x9f", "\xef\xbf\xbd\x00", "\xef\xbf\xbe", "1", "2", "10", "02", "a b", "a-b", "a_b"} {
					keys = append(keys, rv(s, kt.RT), rv("p"+s, kt.RT), rv(s+"\xff", kt.RT))
				}
			} else {
				// all strings that start with this byte, and all single bytes
				for b := 0; b < 256; b++ {
					keys = append(keys, rv(string([]byte{byte(b)}), kt.RT), rv(string([]byte{byte(first), byte(b)}), kt.RT))
					for _, x := range []byte{0, 'a', 0x80, 0xbd, 0xbf, 0xff} {
						keys = append(keys, rv(string([]byte{byte(first), byte(b), x}), kt.RT))
					}
				}
			}
			if !check(mt, keys) {
				return
			}
		}
	}
	for _, et := range []*T{tU8, tI8, tU16, tI16, tU32, tU64, tI64, tF64, tBool, tStr, ArrT(2, tU8)} {
		for _, n := range []int{4, 5, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100, 128, 129} {
			kt := ArrT(n, et)
			mt := MapT(kt, tU8)
			d := keyDomain(et)
			lo, mid, hi := d[0], d[len(d)/2], d[len(d)-1]
			c.Group("longarr:" + mt.Name)
			for p := 0; p < n; p++ {
				if !c.Next() {
					continue
				}
				mk := func(x reflect.Value, q int, y reflect.Value) reflect.Value {
					v := reflect.New(kt.RT).Elem()
					for i := 0; i < n; i++ {
						v.Index(i).Set(mid)
					}
					if q < n {
						v.Index(q).Set(y)
					}
					v.Index(p).Set(x)
					return v
				}
				keys := []reflect.Value{mk(mid, n, mid), mk(lo, n, mid), mk(hi, n, mid), mk(lo, p+1, hi), mk(hi, p+1, lo), mk(lo, n-1, hi), mk(hi, n-1, lo), mk(lo, 0, hi)}
				if !check(mt, keys) {
					return
				}
			}
		}
	}
}
