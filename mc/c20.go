package main

import (
	"bytes"
	"errors"
	"reflect"

	bin "github.com/gagliardetto/binary"
)

func init() {
	tMixBig = FromGo(reflect.TypeOf(mixBig{}))
	tMixOpt = FromGo(reflect.TypeOf([]mixOpt{}))
	register("C20", &Check{Level: "model_checking",
		Rule:        "state = distinct (type, value, encoding, failing call); transition = one encode or decode with a monitored custom method; trace = one value encoded through the library, compared byte for byte with the reference (in which only the custom methods can produce the marker bytes), decoded again, then repeated with the n-th custom call failing, for every n",
		Assumptions: []string{"custom types of every reflect kind the library supports (marshal on the value or held by pointer, unmarshal on the pointer), plus all library types; every position of the position list, nested one level deeper", "known finding uint-kind-element: elements of slices and arrays whose kind is uint8/16/32/64"},
		Promote:     true,
		Run:         runC20})
}

// UDeleg delegates to the library's own 64-bit type: that is how user code
// sees the byte order of the field it is in.
type UDeleg struct{ X uint64 }

func (u UDeleg) MarshalWithEncoder(e *bin.Encoder) error {
	if err := wMark(e); err != nil {
		return err
	}
	return bin.Uint64(u.X).MarshalWithEncoder(e)
}
func (u *UDeleg) UnmarshalWithDecoder(d *bin.Decoder) error {
	if err := rMark(d); err != nil {
		return err
	}
	var x bin.Uint64
	if err := x.UnmarshalWithDecoder(d); err != nil {
		return err
	}
	u.X = uint64(x)
	return nil
}

// UDeep codes a nested value of a custom type through the coder it is given.
type UDeep struct {
	A UI32
	L []UStr
}

func (u UDeep) MarshalWithEncoder(e *bin.Encoder) error {
	if err := wMark(e); err != nil {
		return err
	}
	if err := e.Encode(u.A); err != nil {
		return err
	}
	return e.Encode(u.L)
}
func (u *UDeep) UnmarshalWithDecoder(d *bin.Decoder) error {
	if err := rMark(d); err != nil {
		return err
	}
	if err := d.Decode(&u.A); err != nil {
		return err
	}
	return d.Decode(&u.L)
}

// UMix codes values of its own through the coder it is given, and between them
// delegates to the library's 64-bit type: the byte order of the field it is in
// stays visible throughout.
type UMix struct{ X, Y, Z uint64 }

type mixBig struct {
	A uint16     `bin:"big"`
	B bin.Uint64 `bin:"big"`
}
type mixOpt struct {
	A bin.Uint64 `bin:"optional"`
}

func (u UMix) MarshalWithEncoder(e *bin.Encoder) error {
	if err := wMark(e); err != nil {
		return err
	}
	for _, v := range []any{bin.Uint64(u.X), mixBig{7, 8}, bin.Uint64(u.Y), []mixOpt{{9}}, bin.Uint64(u.Z), struct{ A int8 }{3}, bin.Int64(u.X)} {
		var err error
		switch x := v.(type) {
		case bin.Uint64:
			err = x.MarshalWithEncoder(e)
		case bin.Int64:
			err = x.MarshalWithEncoder(e)
		default:
			err = e.Encode(x)
		}
		if err != nil {
			return err
		}
	}
	return nil
}

var errMix = errors.New("mixed payload differs")

func (u *UMix) UnmarshalWithDecoder(d *bin.Decoder) error {
	if err := rMark(d); err != nil {
		return err
	}
	var x, y, z bin.Uint64
	var w bin.Int64
	var big mixBig
	var opt []mixOpt
	var a struct{ A int8 }
	for _, f := range []func() error{
		func() error { return x.UnmarshalWithDecoder(d) }, func() error { return d.Decode(&big) },
		func() error { return y.UnmarshalWithDecoder(d) }, func() error { return d.Decode(&opt) },
		func() error { return z.UnmarshalWithDecoder(d) }, func() error { return d.Decode(&a) },
		func() error { return w.UnmarshalWithDecoder(d) }} {
		if err := f(); err != nil {
			return err
		}
	}
	if big != (mixBig{7, 8}) || len(opt) != 1 || opt[0].A != 9 || a.A != 3 || uint64(w) != uint64(x) {
		return errMix
	}
	*u = UMix{uint64(x), uint64(y), uint64(z)}
	return nil
}

var (
	tMixBig, tMixOpt *T
	tUMix            = custLeaf[UMix](&Cust{
		put: func(w *W, v reflect.Value, big bool) {
			w.mark()
			w.uN(v.Field(0).Uint(), 8, big)
			w.put(tMixBig, reflect.ValueOf(mixBig{7, 8}), false, false)
			w.uN(v.Field(1).Uint(), 8, big)
			w.put(tMixOpt, reflect.ValueOf([]mixOpt{{9}}), false, false)
			w.uN(v.Field(2).Uint(), 8, big)
			w.uN(3, 1, false)
			w.uN(v.Field(0).Uint(), 8, big)
		},
		get: func(r *R, v reflect.Value, big bool) {
			r.mark()
			v.Field(0).SetUint(r.uN(8, big))
			b, o := reflect.New(tMixBig.RT).Elem(), reflect.New(tMixOpt.RT).Elem()
			r.get(tMixBig, b, false, nil)
			v.Field(1).SetUint(r.uN(8, big))
			r.get(tMixOpt, o, false, nil)
			v.Field(2).SetUint(r.uN(8, big))
			a := r.uN(1, false)
			if w := r.uN(8, big); a != 3 || w != v.Field(0).Uint() || b.Interface() != (mixBig{7, 8}) || o.Len() != 1 || o.Interface().([]mixOpt)[0].A != 9 {
				rfail("mixed payload")
			}
		},
		eq: func(a, b reflect.Value) bool { return a.Interface() == b.Interface() },
		dom: func(s int) []any {
			return []any{UMix{0x0102030405060708 + uint64(s), 0x1112131415161718, 0x2122232425262728}, UMix{}}
		},
	})
)

var (
	tUDeleg = custLeaf[UDeleg](&Cust{
		put: func(w *W, v reflect.Value, big bool) { w.mark(); w.uN(v.Field(0).Uint(), 8, big) },
		get: func(r *R, v reflect.Value, big bool) { r.mark(); v.Field(0).SetUint(r.uN(8, big)) },
		eq:  func(a, b reflect.Value) bool { return a.Field(0).Uint() == b.Field(0).Uint() },
		dom: func(s int) []any {
			return []any{UDeleg{0x0102030405060708 + uint64(s)}, UDeleg{}, UDeleg{1 << 63}}
		},
	})
	tUDeep = custLeaf[UDeep](&Cust{
		put: func(w *W, v reflect.Value, _ bool) {
			w.mark()
			w.put(tUI32, v.Field(0), false, false)
			w.put(SliceT(tUStr), v.Field(1), false, false)
		},
		get: func(r *R, v reflect.Value, _ bool) {
			r.mark()
			r.get(tUI32, v.Field(0), false, nil)
			r.get(SliceT(tUStr), v.Field(1), false, nil)
		},
		eq: func(a, b reflect.Value) bool {
			return eq(tUI32, a.Field(0), b.Field(0), 0) && eq(SliceT(tUStr), a.Field(1), b.Field(1), 0)
		},
		dom: func(s int) []any {
			return []any{UDeep{UI32(5 + s), []UStr{"q", "rs"}}, UDeep{}, UDeep{A: -1, L: []UStr{""}}}
		},
	})
)

// custPositions: every way a type can occur in an encoded value.
func custPositions(l *T, keyable bool) []*T {
	var out []*T
	p := PtrT(l)
	add := func(ts ...*T) { out = append(out, ts...) }
	add(p, PtrT(p), S(p, tU8), S(tU16, p, tU16), SliceT(p), ArrT(2, p), MapT(tU8, p), S(SliceT(p)), S(PtrT(p)),
		StructT(fld("A", p, "optional"), fld("Z", tU16, "")), StructT(fld("A", p, "optional big"), fld("Z", tLU64, "")),
		StructT(fld("A", p, "coption"), fld("Z", tU16, "")), StructT(fld("A", p, "coption big"), fld("Z", tLU64, "")),
		StructT(fld("A", p, "big"), fld("Z", tLU64, "")), StructT(fld("A", p, "binary_extension")),
		StructT(fld("N", tU8, "sizeof=L"), fld("L", SliceT(p), ""), fld("Z", tU8, "")),
		StructT(fld("A", p, "-"), fld("Z", tU16, "")),
		EnumT(`borsh_enum:"true"`, tU8, p, tU16))
	if l != tUPtr {
		add(l, S(l), S(l, tU8), S(tU16, l, tU16), S(l, l), SliceT(l), ArrT(3, l), ArrT(1, l), MapT(tStr, l), MapT(tU8, l), SliceT(S(l, tU8)), SliceT(SliceT(l)), MapT(tU8, SliceT(l)), SliceT(MapT(tU8, l)),
			S(S(l), tU8), S(PtrT(S(l)), l), PtrT(SliceT(l)), PtrT(ArrT(2, l)), PtrT(MapT(tU8, l)), ArrT(2, ArrT(2, l)),
			StructT(fld("A", l, "optional"), fld("Z", tU16, "")), StructT(fld("A", l, "optional big"), fld("Z", tLU64, "")),
			StructT(fld("A", l, "coption"), fld("Z", tU16, "")), StructT(fld("A", l, "coption big"), fld("Z", tLU64, "")),
			StructT(fld("A", l, "big"), fld("B", l, "little"), fld("C", l, ""), fld("Z", tLU64, "")), StructT(fld("P", tU8, ""), fld("A", l, "binary_extension"), fld("B", p, "binary_extension")),
			StructT(fld("A", SliceT(l), "big"), fld("B", l, "")), StructT(fld("A", MapT(tU8, l), "big"), fld("B", l, "big")), StructT(fld("A", S(l, tU8), "big"), fld("B", l, "")),
			StructT(fld("A", SliceT(l), "optional"), fld("B", tU8, "")), StructT(fld("A", PtrT(ArrT(2, l)), "coption"), fld("B", tU8, "")),
			StructT(fld("N", tU16, "sizeof=L"), fld("L", SliceT(l), ""), fld("Z", tU8, "")),
			StructT(fld("A", l, "skip"), fld("Z", tU16, "")), StructT(fld("A", l, `borsh_skip:"true"`), fld("Z", tU16, "")),
			EnumT(`borsh_enum:"true"`, l, tU16), EnumT(`bin:"enum"`, tEmpty, S(tU8, l), l), SliceT(EnumT(`borsh_enum:"true"`, tU8, l)))
		if keyable {
			add(MapT(l, tU8), MapT(l, l), MapT(l, p), S(MapT(l, tStr), tU8), SliceT(MapT(l, tU16)), MapT(ArrT(2, l), tU8))
		}
	}
	return out
}

func runC20(c *Ctx) {
	leaves := append(userLeaves(), tUPtr)
	max := 100
	if c.Thorough {
		max = 400
	}
	if c.Extra {
		max = 4000
	}
	keyable := func(l *T) bool {
		switch l.RT.Kind() {
		case reflect.Slice, reflect.Map, reflect.Struct:
			return false
		}
		return true
	}
	for _, l := range append(leaves, libLeaves...) {
		if l.RT.Kind() == reflect.Interface {
			continue
		}
		ts := custPositions(l, keyable(l))
		if c.Thorough && l.K == KCust && l != tUPtr {
			for _, t := range custPositions(l, keyable(l)) {
				if t.Enum || t.K == KPtr {
					continue
				}
				ts = append(ts, S(t, tU8), SliceT(t), S(PtrT(t)), MapT(tU8, t), EnumT(`borsh_enum:"true"`, tU8, t))
			}
		}
		for _, t := range ts {
			c.Group("pos:" + clip(t.Name, 150))
			vs := spread(t, vals(t, 1, 2), max)
			for _, v := range vs {
				for _, enc := range encodingsFor(t) {
					if c.Next() {
						custCase(c, t, v, enc)
					}
				}
			}
		}
	}
	// the known finding, each call site separately
	c.Group("uint-kind-element")
	for _, l := range []*T{tUU8, tUU16, tUU32, tUU64, tVaruint16, tVaruint32, tLU64} {
		for _, t := range []*T{SliceT(l), ArrT(2, l)} {
			for _, enc := range allEnc {
				if c.Next() {
					bypass(c, l, t, enc)
				}
			}
		}
	}
}

func encodeTo(enc bin.Encoding, x any) (b []byte, err error, p string) {
	var buf bytes.Buffer
	e := newEncoder(enc, &buf)
	p = catch(func() { err = e.Encode(x) })
	return buf.Bytes(), err, p
}

func custCase(c *Ctx, t *T, v reflect.Value, enc bin.Encoding) bool {
	if !refOK(t, v, enc) {
		return true
	}
	defer func() { custHook = nil }()
	calls, failAt, after := 0, 0, 0
	hook := func() error {
		calls++
		if failAt > 0 && calls > failAt {
			after++
		}
		if calls == failAt {
			return errCust
		}
		return nil
	}
	pv := reflect.New(t.RT)
	pv.Elem().Set(v)
	var last []byte
	for form, x := range []any{v.Interface(), pv.Interface()} {
		calls, failAt = 0, 0
		custHook = hook
		b, err, p := encodeTo(enc, x)
		custHook = nil
		total := calls
		want, st, _ := refEncode(t, v, enc, b)
		c.Res.Transitions += st
		c.State(hash(t.Name, string(want), string(rune(enc))))
		if p != "" || err != nil {
			c.Fail("%s %s enc %d form %d: encode fails: %v %s", t.Name, show(v), enc, form, err, p)
			return false
		}
		if !bytes.Equal(b, want) {
			c.Fail("%s %s enc %d form %d: encodes to %s; with the types' own methods it is %s", t.Name, show(v), enc, form, hx(b), hx(want))
			return false
		}
		last = b
		for n := 1; n <= total; n++ {
			calls, failAt, after = 0, n, 0
			custHook = hook
			b, err, p := encodeTo(enc, x)
			custHook = nil
			c.Res.Transitions++
			c.State(hash(t.Name, string(want), string(rune(enc)), "e", string(rune(n))))
			if p != "" {
				c.Fail("%s %s enc %d: custom call %d/%d fails, encode panics: %s", t.Name, show(v), enc, n, total, p)
				return false
			}
			if err == nil || !carries(err) {
				c.Fail("%s %s enc %d: custom marshal call %d/%d returned an error; Encode returned %v and wrote %s", t.Name, show(v), enc, n, total, err, hx(b))
				return false
			}
			if after > 0 {
				c.Fail("%s %s enc %d: custom marshal call %d/%d returned an error; %d more calls followed", t.Name, show(v), enc, n, total, after)
				return false
			}
			full, _, _ := refEncode(t, v, enc, b)
			if !bytes.HasPrefix(full, b) {
				c.Fail("%s %s enc %d: custom marshal call %d/%d returned an error; wrote %s, not a prefix of %s", t.Name, show(v), enc, n, total, hx(b), hx(full))
				return false
			}
		}
	}
	// decode
	calls, failAt = 0, 0
	custHook = hook
	got := reflect.New(t.RT)
	d := newDecoder(enc, last)
	var err error
	p := catch(func() { err = d.Decode(got.Interface()) })
	custHook = nil
	total := calls
	c.Res.Transitions++
	ref, n, _, rerr := refDecode(t, last, enc)
	if rerr != nil {
		panic("harness: reference refuses its own bytes: " + rerr.Error())
	}
	if p != "" || err != nil {
		c.Fail("%s enc %d: decoding %s fails: %v %s", t.Name, enc, hx(last), err, p)
		return false
	}
	if int(d.Position()) != n || !eq(t, got.Elem(), ref, enc) {
		c.Fail("%s enc %d: decoding %s gives %s at %d; with the types' own methods it is %s at %d", t.Name, enc, hx(last), show(got.Elem()), d.Position(), show(ref), n)
		return false
	}
	for n := 1; n <= total; n++ {
		for _, used := range []bool{false, true} {
			calls, failAt, after = 0, n, 0
			tgt := reflect.New(t.RT)
			if used {
				dirtyFill(t, tgt.Elem(), 9, 0)
			}
			d := newDecoder(enc, last)
			custHook = hook
			p := catch(func() { err = d.Decode(tgt.Interface()) })
			custHook = nil
			c.Res.Transitions++
			c.State(hash(t.Name, string(last), string(rune(enc)), "d", string(rune(n))))
			if p != "" || err == nil || !carries(err) {
				c.Fail("%s enc %d: custom unmarshal call %d/%d returned an error while decoding %s; Decode returned %v %s", t.Name, enc, n, total, hx(last), err, p)
				return false
			}
			if after > 0 || int(d.Position()) > len(last) {
				c.Fail("%s enc %d: custom unmarshal call %d/%d returned an error; %d more calls followed, position %d", t.Name, enc, n, total, after, d.Position())
				return false
			}
		}
	}
	c.Res.Traces++
	c.MaxOf("custom_calls_in_one_value", int64(total))
	if total > 0 {
		c.Sample("%s = %s enc %d -> %s (%d custom calls, each failed in turn)", t.Name, show(v), enc, hx(last), total)
	}
	return true
}

// carries: the custom method's error reached the caller.
func carries(err error) bool {
	return errors.Is(err, errCust)
}

// bypass: elements whose kind is uint8/16/32/64 are written as plain integers.
func bypass(c *Ctx, l, t *T, enc bin.Encoding) {
	for _, v := range vals(t, 1, 1) {
		n := v.Len()
		if n == 0 {
			continue
		}
		b, err, p := encodeTo(enc, v.Interface())
		c.Res.Transitions++
		if p != "" || err != nil {
			c.Fail("%s enc %d: %v %s", t.Name, enc, err, p)
			return
		}
		// what the types' own methods give
		w := &W{enc: enc}
		if t.K == KSlice {
			w.length(n)
		}
		for i := 0; i < n; i++ {
			w.put(l, v.Index(i), false, false)
		}
		plain, _, _ := refEncode(t, v, enc, b)
		c.Res.Traces++
		if bytes.Equal(b, w.out) {
			continue
		}
		if bytes.Equal(b, plain) {
			c.FailKey("uint-kind-element", "%s %s enc %d: elements are written as plain integers %s, their own methods give %s", t.Name, show(v), enc, hx(b), hx(w.out))
			continue
		}
		c.Fail("%s %s enc %d: encodes to %s; neither %s nor %s", t.Name, show(v), enc, hx(b), hx(w.out), hx(plain))
		return
	}
}
