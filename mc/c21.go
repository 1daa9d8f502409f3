package main

import (
	"fmt"
	"reflect"
	"unsafe"

	bin "github.com/gagliardetto/binary"
)

func init() {
	register("C21", &Check{Level: "model_checking",
		Rule:        "state = distinct (type, value, encoding) or (target, buffer, position, encoding); transition = one encode or decode; trace = one value holding unsupported kinds encoded (all entry points must return an error) and the bytes its supported twin would have decoded into it (an error whenever an unsupported element is reached, success otherwise), or one unusable target offered at every position of a buffer",
		Assumptions: []string{"unsupported kinds: int, uint, uintptr, complex64, complex128, chan, func, unsafe.Pointer and named versions of them, in every position of the position list (two levels); interface-typed fields, misplaced binary_extension tags and sizeof on non-integers are outside the contract"},
		Promote:     true,
		Run:         runC21})
}

type (
	nInt  int
	nUint uint
	nFn   func(int) string
	nCh   chan uint8
)

// badPuts counts how often the reference meets an unsupported element.
var badPuts int

func badLeaf(x ...any) *T {
	rt := reflect.TypeOf(x[0])
	t := mk(KCust, rt, rt.String())
	t.C = &Cust{
		put: func(w *W, v reflect.Value, big bool) { badPuts++; w.uN(0x0102030405060708, 8, big) },
		get: func(r *R, v reflect.Value, big bool) { badPuts++; r.uN(8, big) },
		eq:  func(a, b reflect.Value) bool { return true },
		dom: func(int) []any { return x },
	}
	return t
}

func badLeaves() []*T {
	var z int
	return []*T{
		badLeaf(int(5), int(0), int(-1), int(1<<40)),
		badLeaf(uint(5), uint(0), uint(1<<40)),
		badLeaf(uintptr(7), uintptr(0)),
		badLeaf(complex64(complex(1, 2)), complex64(0)),
		badLeaf(complex(1, 2), complex128(0)),
		badLeaf(make(chan int, 1), (chan int)(nil)),
		badLeaf(func() {}, (func())(nil)),
		badLeaf(unsafe.Pointer(&z), unsafe.Pointer(nil)),
		badLeaf(nInt(5), nInt(0)),
		badLeaf(nUint(5), nUint(0)),
		badLeaf(nFn(func(int) string { return "" }), nFn(nil)),
		badLeaf(nCh(make(chan uint8)), nCh(nil)),
	}
}

func runC21(c *Ctx) {
	max := 60
	if c.Thorough {
		max = 400
	}
	if c.Extra {
		max = 4000
	}
	for _, l := range badLeaves() {
		k := l.RT.Kind() != reflect.Func
		ts := custPositions(l, k)
		if l.RT.Kind() == reflect.Int || l.RT.Kind() == reflect.Uint {
			ts = append(ts, StructT(fld("N", l, "sizeof=L"), fld("L", SliceT(tU16), ""), fld("Z", tU8, "")))
		}
		n := len(ts)
		for _, t := range ts[:n] {
			if t.Enum || t.K == KPtr {
				continue
			}
			ts = append(ts, S(t, tU8), SliceT(t), MapT(tU8, t))
			if c.Thorough {
				ts = append(ts, S(PtrT(t), tU16), ArrT(2, t), StructT(fld("A", PtrT(t), "optional"), fld("Z", tU8, "")), StructT(fld("A", PtrT(t), "coption"), fld("Z", tU8, "")), EnumT(`borsh_enum:"true"`, tU8, t), S(tU8, S(tU8, t)))
			}
		}
		for _, t := range ts {
			c.Group("kind:" + clip(t.Name, 150))
			vs := spread(t, vals(t, 1, 2), max)
			for _, v := range vs {
				for _, enc := range encodingsFor(t) {
					if c.Next() {
						badCase(c, t, v, enc)
					}
				}
			}
		}
	}
	// a value that cannot be encoded after a lot of output
	bad := badLeaves()[0]
	for _, l := range badLeaves() {
		if l.RT.Kind() == reflect.Int {
			bad = l
		}
	}
	t := StructT(fld("A", tStr, ""), fld("B", tStr, ""), fld("C", tStr, ""), fld("Z", bad, ""))
	c.Group("late:" + t.Name)
	for n := 0; n <= 65535; n++ {
		if n > 300 && n%1021 != 0 && n&(n-1) != 0 && n&(n+1) != 0 || !c.Next() {
			continue
		}
		v := reflect.New(t.RT).Elem()
		for i := 0; i < 3; i++ {
			v.Field(i).SetString(fill(n, i))
		}
		for _, enc := range allEnc {
			badCase(c, t, v, enc)
		}
	}
	runTargets(c)
}

func badCase(c *Ctx, t *T, v reflect.Value, enc bin.Encoding) bool {
	badPuts = 0
	b, _, rerr := refEncode(t, v, enc, nil)
	if rerr != nil {
		return true
	}
	c.Res.Traces++
	c.State(hash(t.Name, string(b), string(rune(enc))))
	reached := badPuts
	pv := reflect.New(t.RT)
	pv.Elem().Set(v)
	for form, x := range []any{v.Interface(), pv.Interface()} {
		out, err, p := encodeTo(enc, x)
		out2, err2, p2 := marshal(enc, x)
		var err3 error
		p3 := catch(func() {
			switch enc {
			case bin.EncodingBin:
				_, err3 = bin.BinByteCount(x)
			case bin.EncodingBorsh:
				_, err3 = bin.BorshByteCount(x)
			default:
				_, err3 = bin.CompactU16ByteCount(x)
			}
		})
		c.Res.Transitions += 3
		if p != "" || p2 != "" || p3 != "" {
			c.Fail("%s %s enc %d form %d: encoding panics: %s%s%s", t.Name, show(v), enc, form, p, p2, p3)
			return false
		}
		if reached > 0 && (err == nil || err2 == nil || err3 == nil) {
			c.Fail("%s %s enc %d form %d: holds %d values of an unsupported kind, yet encoding gives %s / %s with %v / %v / %v", t.Name, show(v), enc, form, reached, hx(out), hx(out2), err, err2, err3)
			return false
		}
		if reached == 0 && (err != nil || err2 != nil || err3 != nil) {
			c.Fail("%s %s enc %d form %d: nothing unsupported is encoded, yet it fails: %v", t.Name, show(v), enc, form, err)
			return false
		}
	}
	// decode: the twin's bytes, every truncation and a long tail
	for cut := 0; cut <= len(b)+1; cut++ {
		if len(b) > 2000 && cut > 20 && cut < len(b)-20 && cut%(len(b)/7) != 0 {
			continue
		}
		in := b
		if cut <= len(b) {
			in = b[:cut]
		} else {
			in = append(append([]byte{}, b...), make([]byte, 64)...)
		}
		badPuts = 0
		_, _, _, derr := refDecode(t, in, enc)
		hit := badPuts > 0 || derr != nil
		got := reflect.New(t.RT)
		pos, err, p := decodePos(enc, got.Interface(), in)
		c.Res.Transitions++
		if p != "" {
			c.Fail("%s enc %d: decoding %s panics: %s", t.Name, enc, hx(in), p)
			return false
		}
		if pos < 0 || pos > len(in) {
			c.Fail("%s enc %d: decoding %s leaves position %d", t.Name, enc, hx(in), pos)
			return false
		}
		if hit && err == nil {
			c.Fail("%s enc %d: decoding %s into unsupported kinds reports success, value %s", t.Name, enc, hx(in), show(got.Elem()))
			return false
		}
		if !hit && err != nil {
			c.Fail("%s enc %d: decoding %s reaches nothing unsupported, yet fails: %v", t.Name, enc, hx(in), err)
			return false
		}
	}
	if reached > 0 {
		c.Sample("%s %s enc %d refused both ways", t.Name, show(v), enc)
	}
	return true
}

func runTargets(c *Ctx) {
	type target struct {
		name string
		v    any
	}
	ts := []target{{"nil", nil}}
	var seen []*T
	seen = append(seen, allLeaves()...)
	seen = append(seen, userLeaves()...)
	seen = append(seen, tUPtr, tTypeID, tEmpty, tUnit, SliceT(tU8), SliceT(tStr), ArrT(2, tU16), MapT(tU8, tStr), S(tU8, tStr), PtrT(tU8), PtrT(PtrT(tU8)), SliceT(tUStruct))
	seen = append(seen, staticTypes()...)
	seen = append(seen, enumTypes(false)[:20]...)
	for _, t := range append(seen, badLeaves()...) {
		if t.RT.Kind() != reflect.Ptr { // non-pointer values, zero and not
			ts = append(ts, target{"value " + t.Name, reflect.New(t.RT).Elem().Interface()})
			for i, v := range vals(t, 1, 1) {
				if i < 12 {
					ts = append(ts, target{"value " + t.Name + " " + clip(show(v), 40), v.Interface()})
				}
			}
		}
		ts = append(ts, target{"nil *" + t.Name, reflect.Zero(reflect.PtrTo(t.RT)).Interface()})
		ts = append(ts, target{"nil **" + t.Name, reflect.Zero(reflect.PtrTo(reflect.PtrTo(t.RT))).Interface()})
	}
	var ni *any
	var ne *error
	ts = append(ts, target{"nil *any", ni}, target{"nil *error", ne}, target{"[]any", []any{1}}, target{"typed nil decoder", (*bin.Decoder)(nil)})
	for _, v := range []any{map[string]any{}, map[string]any{"a": 1}, map[uint8]uint8{}, []uint16{}, make([]byte, 0, 8), make([]byte, 8), [0]uint8{}, struct{}{}, make(chan int, 1), func() {}, make([]*uint8, 2), []any{}, "", true, false, 0.0} {
		ts = append(ts, target{fmt.Sprintf("value %T", v), v})
	}
	bufs := [][]byte{nil, {}, {0}, {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18}, make([]byte, 24), {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0xB0, 1, 2, 3, 4}, {0xB1, 1, 2, 3, 4}, {0xBC, 1, 2, 3}}
	for _, t := range ts {
		c.Group("target:" + clip(t.name, 150))
		for _, enc := range allEnc {
			if !c.Next() {
				continue
			}
			for _, b := range bufs {
				if err, p := unmarshal(enc, t.v, b); p != "" || err == nil {
					c.Fail("unmarshalling %x into %s enc %d: %v %s", b, t.name, enc, err, p)
					return
				}
				for pos := 0; pos <= len(b); pos++ {
					d := newDecoder(enc, b)
					if pos > 0 {
						if err := d.SkipBytes(uint(pos)); err != nil {
							c.Fail("SkipBytes(%d) of %d fails: %v", pos, len(b), err)
							return
						}
					}
					before, rem := d.Position(), d.Remaining()
					var err error
					p := catch(func() { err = d.Decode(t.v) })
					c.Res.Transitions++
					c.Res.States++
					if p != "" || err == nil {
						c.Fail("decoding %x at %d into %s enc %d: %v %s", b, pos, t.name, enc, err, p)
						return
					}
					if d.Position() != before || d.Remaining() != rem {
						c.Fail("decoding %x at %d into %s enc %d fails (%v) but moves the position to %d", b, pos, t.name, enc, err, d.Position())
						return
					}
					// the decoder still works
					var u uint8
					p = catch(func() { err = d.Decode(&u) })
					if p != "" || (err == nil) != (pos < len(b)) || (err == nil && u != b[pos]) {
						c.Fail("after refusing %s, decoding a byte of %x at %d gives %d, %v %s", t.name, b, pos, u, err, p)
						return
					}
				}
			}
			c.Res.Traces++
		}
	}
}
