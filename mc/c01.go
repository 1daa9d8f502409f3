package main

import (
	"bytes"
	"fmt"
	"reflect"

	bin "github.com/gagliardetto/binary"
)

// Corpus: every (type, value) of the bounded catalogue, in a fixed order.
// cb is called only for cases of this worker.
func corpus(c *Ctx, groups map[string]bool, cb func(t *T, v reflect.Value, encs []bin.Encoding)) {
	corpus2(c, groups, 1<<30, cb)
}

// corpus2 counts a value as a case only if keep says so.
func corpus2(c *Ctx, groups map[string]bool, max int, cb func(t *T, v reflect.Value, encs []bin.Encoding)) {
	depth := 2
	if c.Thorough {
		depth = 3
	}
	run := func(g string, t *T, lvl int) {
		if groups != nil && !groups[g] {
			return
		}
		c.Group(g + ":" + clip(t.Name, 120))
		encs := encodingsFor(t)
		for _, v := range spread(t, vals(t, lvl, 1), max) {
			if c.Next() {
				cb(t, v, encs)
			}
		}
	}
	up := 0
	if c.Thorough {
		up = 1
	}
	for _, tv := range catalogue(depth) {
		l := tv.Lvl
		if tv.grp == "pair" || tv.grp == "deep2" {
			l += up
		}
		run(tv.grp, tv.T, l)
	}
	for _, t := range taggedTypes(c.Thorough) {
		run("tag", t, 1)
	}
	for _, t := range enumTypes(c.Thorough) {
		run("enum", t, 1)
	}
	// deep recursion
	if groups == nil || groups["rec"] {
		c.Group("rec")
		t := FromGo(reflect.TypeOf(Node{}))
		for _, n := range []int{1, 2, 3, 10, 100, 1000} {
			if c.Next() {
				var h *Node
				for i := 0; i < n; i++ {
					h = &Node{uint16(i + 1), h}
				}
				cb(t, reflect.ValueOf(h).Elem(), allEnc)
			}
		}
	}
	// values that share memory with themselves: sharing leaves no trace
	if groups == nil || groups["alias"] {
		c.Group("alias")
		in := S(tU16, tStr)
		for _, v := range vals(in, 1, 4) {
			p := reflect.New(in.RT)
			p.Elem().Set(v)
			t := StructT(fld("A", PtrT(in), ""), fld("B", PtrT(in), "optional"), fld("C", SliceT(PtrT(in)), ""), fld("D", MapT(tU8, PtrT(in)), ""), fld("E", PtrT(in), "coption"), fld("F", ArrT(2, PtrT(in)), ""))
			if !c.Next() {
				continue
			}
			x := reflect.New(t.RT).Elem()
			x.Field(0).Set(p)
			x.Field(1).Set(p)
			x.Field(2).Set(reflect.Append(x.Field(2), p, p, p))
			x.Field(3).Set(reflect.MakeMap(t.Fields[3].T.RT))
			x.Field(3).SetMapIndex(reflect.ValueOf(uint8(1)), p)
			x.Field(4).Set(p)
			x.Field(5).Index(0).Set(p)
			x.Field(5).Index(1).Set(p)
			cb(t, x, allEnc)
		}
		for _, e := range []*T{tU8, tU16, tStr, PtrT(tU32), tUStruct, S(tU8, SliceT(tU8))} {
			t := S(SliceT(e), SliceT(e), SliceT(SliceT(e)), MapT(tStr, SliceT(e)))
			if !c.Next() {
				continue
			}
			s := sizedVal(SliceT(e), 6)
			x := reflect.New(t.RT).Elem()
			x.Field(0).Set(s.Slice(0, 4))
			x.Field(1).Set(s.Slice(2, 6))
			x.Field(2).Set(reflect.Append(x.Field(2), s, s.Slice(1, 3), s))
			x.Field(3).Set(reflect.MakeMap(t.Fields[3].T.RT))
			x.Field(3).SetMapIndex(reflect.ValueOf("k"), s)
			cb(t, x, allEnc)
		}
	}
	// every value of every leaf in every element position
	if groups == nil || groups["elem"] {
		for _, e := range append(allLeaves(), userLeaves()...) {
			c.Group("elem:" + e.Name)
			ts := []*T{ArrT(1, e), ArrT(3, e), S(tU8, e, tU16), S(S(e), tU8), PtrT(e), StructT(fld("A", PtrT(e), "optional"), fld("Z", tU8, "")), StructT(fld("A", e, "big"), fld("Z", tU16, "")),
				SliceT(e), SliceT(S(e, tU8)), SliceT(SliceT(e)), MapT(tU8, e), MapT(tStr, SliceT(e))}
			for ti, t := range ts {
				encs := encodingsFor(t)
				for i, x := range vals(e, 2, 3) {
					if c.Next() {
						cb(t, plant(t, e, x, i+ti), encs)
					}
				}
			}
			if !keyable(e) {
				continue
			}
			t := MapT(e, tU16)
			encs := encodingsFor(t)
			for i, x := range vals(e, 2, 3) {
				if x.Interface() != x.Interface() {
					continue
				}
				if c.Next() {
					m := reflect.New(t.RT).Elem()
					m.Set(reflect.MakeMap(t.RT))
					m.SetMapIndex(x, vals(tU16, 0, i)[0])
					m.SetMapIndex(vals(e, 0, 7)[0], vals(tU16, 0, i+1)[0])
					cb(t, m, encs)
				}
			}
		}
	}
	// tagged fields far from the first one
	if groups == nil || groups["wide"] {
		c.Group("wide")
		for _, w := range wideTagged(c.Thorough) {
			if c.Next() {
				for _, v := range wideVals(w) {
					cb(w, v, allEnc)
				}
			}
		}
	}
	// length sweeps
	if groups == nil || groups["len"] {
		lens := []int{}
		for i := 0; i <= 300; i++ {
			lens = append(lens, i)
		}
		dense := func(t *T) bool { // every length up to 1100: internal buffer boundaries
			return t.K == KStr || t.K == KSafeStr || t.K == KHex || t.K == KSlice && leafBits(t.Elem.K) > 0
		}
		lens = append(lens, 511, 512, 513, 1000, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 16382, 16383, 16384, 16385, 20000, 32767, 32768, 65534, 65535)
		big := []int{65536, 65537, 70000, 131072}
		if c.Thorough {
			lens = nil
			for i := 0; i <= 2100; i++ {
				lens = append(lens, i)
			}
			for i := 4000; i < 66000; i += 997 {
				lens = append(lens, i)
			}
			lens = append(lens, 16382, 16383, 16384, 16385, 32767, 32768, 65534, 65535)
			big = append(big, 1<<21-1, 1<<21, 1<<21+1)
		}
		lt := []*T{tStr, tSafeStr, tHex, SliceT(tU8), SliceT(tNU8), SliceT(tU16), SliceT(tU32), SliceT(tU64), SliceT(tBool), SliceT(tI8), SliceT(tStr), SliceT(S(tU8, tU16)), SliceT(tVarint32)}
		for _, t := range lt {
			c.Group("len:" + t.Name)
			if !c.Thorough && dense(t) {
				for n := 301; n <= 1100; n++ {
					if c.Next() {
						cb(t, sizedVal(t, n), allEnc)
					}
				}
			}
			for _, n := range lens {
				if c.Next() {
					cb(t, sizedVal(t, n), allEnc)
				}
			}
			for _, n := range big {
				if c.Next() {
					cb(t, sizedVal(t, n), []bin.Encoding{bin.EncodingBin, bin.EncodingBorsh})
				}
			}
		}
		// sequences of elements that own memory or code themselves
		for _, e := range []*T{PtrT(tU16), PtrT(tStr), PtrT(tLU64), PtrT(PtrT(tU16)), PtrT(S(tU16, tStr)), PtrT(tUStruct), SliceT(tU8), SliceT(tU16), SliceT(tStr), SliceT(PtrT(tU8)), MapT(tU8, tU16), MapT(tStr, tU8), ArrT(2, tU8), ArrT(3, tU16), ArrT(2, tStr),
			S(tU16, PtrT(tU8)), S(tStr, SliceT(tU8)), StructT(fld("A", PtrT(tU16), "optional"), fld("B", tU8, "")), StructT(fld("A", tU16, "big"), fld("B", tLU64, "big")), tU128, tLU64, tLI64, tLBool, tF32, tF64, tI16, tI32, tI64, tHex, tSafeStr, tVaruint16, tVarint16, tUStruct, tUStr, tUI32} {
			c.Group("len:of:" + e.Name)
			st := SliceT(e)
			for n := 0; n <= 300; n++ {
				if n > 70 && n != 127 && n != 128 && n != 129 && n != 255 && n != 256 && n != 257 && n != 300 || !c.Next() {
					continue
				}
				cb(st, sizedVal(st, n), encodingsFor(st))
				if n <= 20 || n%16 <= 1 {
					t := ArrT(n, e)
					v := reflect.New(t.RT).Elem()
					reflect.Copy(v, sizedVal(st, n))
					cb(t, v, encodingsFor(t))
					mt := MapT(tU16, e)
					m := reflect.New(mt.RT).Elem()
					m.Set(reflect.MakeMap(mt.RT))
					sv := sizedVal(st, n)
					for i := 0; i < n; i++ {
						m.SetMapIndex(reflect.ValueOf(uint16(i*40503)), sv.Index(i))
					}
					cb(mt, m, encodingsFor(mt))
				}
			}
		}
		mt := MapT(tU32, tU8)
		c.Group("len:map")
		mapLens := []int{126, 127, 128, 129, 255, 256, 300, 16383, 16384}
		for n := 0; n <= 70; n++ {
			mapLens = append(mapLens, n)
		}
		for _, n := range mapLens {
			if c.Next() {
				v := reflect.New(mt.RT).Elem()
				v.Set(reflect.MakeMap(mt.RT))
				for i := 0; i < n; i++ {
					v.SetMapIndex(reflect.ValueOf(uint32(i*2654435761)), reflect.ValueOf(uint8(i)))
				}
				cb(mt, v, allEnc)
			}
		}
		// fixed arrays of many lengths
		c.Group("len:array")
		for n := 0; n <= 70; n++ {
			for _, e := range []*T{tU8, tU16, tU32, tU64, tNU8, tNU16, tNU32, tNU64, tBool, tI16, tI32, tF64, tStr, tVarint32} {
				if c.Next() {
					t := ArrT(n, e)
					v := reflect.New(t.RT).Elem()
					for i := 0; i < n; i++ {
						v.Index(i).Set(vals(e, 0, i)[0])
					}
					cb(t, v, allEnc)
				}
			}
		}
		c.Group("len:bigarray")
		for _, n := range []int{127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537} {
			for _, e := range []*T{tU8, tU16, tU32, tU64, tNU8, tNU16, tNU32, tNU64, tBool, tI16, tStr} {
				if c.Next() {
					t := ArrT(n, e)
					v := reflect.New(t.RT).Elem()
					for i := 0; i < n; i++ {
						v.Index(i).Set(vals(e, 0, i%41)[0])
					}
					cb(t, v, allEnc)
				}
			}
		}
		// towers of one container
		c.Group("len:tower")
		for n := 1; n <= 12; n++ {
			for k := 0; k < 5; k++ {
				if !c.Next() || n > 5 && k != 1 && k != 2 {
					continue
				}
				t := tU16
				for i := 0; i < n; i++ {
					switch (k + i*(k/4)) % 4 {
					case 0:
						t = SliceT(t)
					case 1:
						t = PtrT(t)
					case 2:
						t = S(tU8, t)
					case 3:
						t = MapT(tU8, t)
					}
				}
				for _, v := range vals(t, 0, n) {
					cb(t, v, allEnc)
				}
			}
		}
		// wide structs
		c.Group("len:struct")
		ls := allLeaves()
		widths := []int{63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 300}
		for n := 0; n <= 40; n++ {
			widths = append(widths, n)
		}
		for _, n := range widths {
			if c.Next() {
				var ts []*T
				for i := 0; i < n; i++ {
					ts = append(ts, ls[(i*7+n)%len(ls)])
				}
				t := S(ts...)
				v := reflect.New(t.RT).Elem()
				for i := range ts {
					v.Field(i).Set(vals(ts[i], 0, i)[0])
				}
				cb(t, v, allEnc)
			}
		}
	}
}

// huge: a few values far beyond every length-prefix boundary.
func huge(c *Ctx, cb func(t *T, v reflect.Value, encs []bin.Encoding)) {
	encs := []bin.Encoding{bin.EncodingBin, bin.EncodingBorsh}
	ns := []int{1<<20 - 1, 1<<20 + 1, 1<<24 - 1, 1 << 24, 1<<24 + 1}
	if c.Extra {
		ns = append(ns, 1<<26+1, 1<<28+1)
	}
	for _, t := range []*T{tStr, tSafeStr, tHex, SliceT(tU8)} {
		c.Group("huge:" + t.Name)
		for _, n := range ns {
			if c.Next() {
				cb(t, sizedVal(t, n), encs)
			}
		}
	}
	for _, t := range []*T{SliceT(tNU8), SliceT(tU16), SliceT(tU32), SliceT(tU64), SliceT(tBool), SliceT(tI32), SliceT(tStr), SliceT(S(tU8, tU16))} {
		c.Group("huge:" + t.Name)
		for _, n := range []int{1<<18 + 1, 1<<20 + 1} {
			if c.Next() {
				cb(t, sizedVal(t, n), encs)
			}
		}
	}
	mt := MapT(tU32, tU8)
	c.Group("huge:map")
	for _, n := range []int{65535, 65536, 65537, 1<<18 + 1} {
		if c.Next() {
			v := reflect.New(mt.RT).Elem()
			v.Set(reflect.MakeMap(mt.RT))
			for i := 0; i < n; i++ {
				v.SetMapIndex(reflect.ValueOf(uint32(i*2654435761)), reflect.ValueOf(uint8(i)))
			}
			cb(mt, v, encs)
		}
	}
}

// sizedVal: a value of t with exactly n elements.
func sizedVal(t *T, n int) reflect.Value {
	v := reflect.New(t.RT).Elem()
	switch t.K {
	case KStr, KSafeStr:
		v.SetString(fill(n, n))
	case KHex:
		v.SetBytes(fillAny(n, n))
	default:
		v.Set(reflect.MakeSlice(t.RT, n, n))
		if t.Elem.K == KU8 {
			for i, b := range fillAny(n, n) {
				v.Index(i).SetUint(uint64(b))
			}
			return v
		}
		pool := poolOf(t.Elem)
		for i := 0; i < n; i++ {
			v.Index(i).Set(pool[(i*5+i/13+n)%len(pool)])
		}
	}
	return v
}

var pools = map[*T][]reflect.Value{}

func poolOf(e *T) []reflect.Value {
	if p := pools[e]; p != nil {
		return p
	}
	var pool []reflect.Value
	for i := 0; i < 13; i++ {
		pool = append(pool, vals(e, 0, i)[0])
	}
	if len(e.Fields) == 0 && e.Elem == nil && e.K != KStr {
		pool = append(pool, vals(e, 2, 5)...)
	}
	pools[e] = pool
	return pool
}

// fillAny: n bytes in which every byte value appears once n is large enough.
func fillAny(n, salt int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*5 + salt*3 + i/256 + 0x7b)
	}
	return b
}

// plant: a value of t in which x sits at some position where t holds an e.
func plant(t, e *T, x reflect.Value, salt int) reflect.Value {
	v := reflect.New(t.RT).Elem()
	if t == e {
		v.Set(x)
		return v
	}
	switch t.K {
	case KArr, KSlice:
		n := t.N
		if t.K == KSlice {
			n = 1 + salt%3
			v.Set(reflect.MakeSlice(t.RT, n, n))
		}
		for i := 0; i < n; i++ {
			if i == salt%n {
				v.Index(i).Set(plant(t.Elem, e, x, salt/2))
			} else {
				v.Index(i).Set(vals(t.Elem, 0, salt+i)[0])
			}
		}
	case KPtr:
		p := reflect.New(t.Elem.RT)
		p.Elem().Set(plant(t.Elem, e, x, salt))
		v.Set(p)
	case KMap:
		v.Set(reflect.MakeMap(t.RT))
		for i, k := range vals(t.Key, 0, salt) {
			if i == salt%2 {
				v.SetMapIndex(k, plant(t.Elem, e, x, salt))
			} else {
				v.SetMapIndex(k, vals(t.Elem, 0, salt+i)[0])
			}
		}
	case KStruct:
		for i, f := range t.Fields {
			if i == 0 && len(t.Fields) == 2 || i == 1 && len(t.Fields) == 3 || len(t.Fields) == 1 {
				v.Field(i).Set(plant(f.T, e, x, salt))
			} else {
				v.Field(i).Set(vals(f.T, 0, salt+i)[0])
			}
		}
	}
	return v
}

// wideTagged: structs with a tag at every field index up to 140 (and some
// beyond), everything around it untagged.
func wideTagged(thorough bool) []*T {
	type ft struct {
		t   *T
		tag string
	}
	fts := []ft{{tU32, "big"}, {PtrT(tU16), "optional"}, {PtrT(tLU64), "coption"}, {tU32, "skip"}, {tLI64, "optional big"}, {SliceT(tU16), "optional"}, {tU64, `borsh_skip:"true"`}}
	var out []*T
	at := []int{}
	for i := 0; i <= 140; i++ {
		at = append(at, i)
	}
	at = append(at, 254, 255, 256, 257, 300, 511, 512, 513)
	for _, p := range at {
		for k, x := range fts {
			if p > 140 && k > 3 {
				continue
			}
			var fs []F
			for i := 0; i < p; i++ {
				fs = append(fs, fld(fname(i), []*T{tU8, tU16}[i&1], ""))
			}
			fs = append(fs, fld(fname(p), x.t, x.tag), fld(fname(p+1), tLU64, ""), fld(fname(p+2), tU16, ""))
			if k == 4 { // a second one far behind
				for i := p + 3; i < p+35; i++ {
					fs = append(fs, fld(fname(i), tU8, ""))
				}
				fs = append(fs, fld(fname(p+35), PtrT(tU8), "optional"), fld(fname(p+36), tU16, "big"))
			}
			out = append(out, StructT(fs...))
		}
		if p <= 140 { // a count p fields before the slice, another p fields in
			var fs []F
			fs = append(fs, fld("N", tU8, "sizeof=L"))
			for i := 0; i < p; i++ {
				fs = append(fs, fld(fname(i), tU8, ""))
			}
			fs = append(fs, fld("L", SliceT(tU16), ""), fld("M", tU16, "big sizeof=K"), fld("K", SliceT(tU8), ""), fld("Z", tU16, ""))
			out = append(out, StructT(fs...))
			// every field tagged
			fs = nil
			for i := 0; i <= p; i++ {
				x := fts[i%len(fts)]
				fs = append(fs, fld(fname(i), x.t, x.tag))
			}
			out = append(out, StructT(append(fs, fld("Z", tLU64, ""))...))
		}
	}
	return out
}

func fname(i int) string { return fmt.Sprintf("F%d", i) }

// wideVals: two values: tagged fields set, tagged fields zero.
func wideVals(t *T) []reflect.Value {
	var out []reflect.Value
	for k := 0; k < 2; k++ {
		v := reflect.New(t.RT).Elem()
		for i, f := range t.Fields {
			if f.Tag != "" && f.SizeOf == "" && k == 1 {
				continue
			}
			v.Field(i).Set(vals(f.T, 0, i%60)[0])
		}
		fixCounts(t, v)
		out = append(out, v)
	}
	return out
}

func valueHash(t *T, v reflect.Value, enc bin.Encoding, b []byte) uint64 {
	return hash(t.Name, enc.String(), string(b))
}

func init() {
	register("C01", &Check{Level: "model_checking",
		Rule:        "state = distinct (type, encoding, encoded value); transition = one library encode or decode compared with the model; trace = one encode-decode history (value -> bytes -> value) replayed on the library by value, by pointer and through a fresh coder",
		Assumptions: []string{"types and values are bounded: nesting depth 2 (quick) / 3 (thorough), boundary domains per scalar, lengths 0..300 and the prefix-size boundaries", "element types with an empty encoding are outside the contract inside slices and maps"},
		Run:         runC01})
}

func runC01(c *Ctx) {
	one := func(t *T, v reflect.Value, encs []bin.Encoding) {
		for _, enc := range encs {
			if !refOK(t, v, enc) {
				c.Add("outside_contract", 1)
				continue
			}
			roundTrip(c, t, v, enc)
		}
	}
	corpus(c, nil, one)
	huge(c, one)
}

func roundTrip(c *Ctx, t *T, v reflect.Value, enc bin.Encoding) {
	desc := func() string { return fmt.Sprintf("%s %s value %s", enc, t.Name, show(v)) }
	b, err, p := marshal(enc, v.Interface())
	c.Res.Transitions++
	if p != "" {
		c.Fail("%s: encode panics: %s", desc(), p)
		return
	}
	if err != nil {
		c.Fail("%s: encode error: %v", desc(), err)
		return
	}
	c.State(valueHash(t, v, enc, b))
	check := func(how string, got reflect.Value, pos int, err error, p string, b []byte) bool {
		c.Res.Transitions++
		switch {
		case p != "":
			c.Fail("%s: %s decode of %s panics: %s", desc(), how, hx(b), p)
		case err != nil:
			c.Fail("%s: %s decode of %s fails: %v", desc(), how, hx(b), err)
		case pos >= 0 && pos != len(b):
			c.Fail("%s: %s decode consumed %d of %d bytes", desc(), how, pos, len(b))
		case !eq(t, v, got, enc):
			c.Fail("%s: %s decode of %s gives %s", desc(), how, hx(b), show(got))
		default:
			return true
		}
		return false
	}
	// 1. Unmarshal* into a fresh variable
	p1 := reflect.New(t.RT)
	err, pp := unmarshal(enc, p1.Interface(), b)
	ok := check("unmarshal", p1.Elem(), -1, err, pp, b)
	// 2. decoder, with position
	p2 := reflect.New(t.RT)
	pos, err, pp := decodePos(enc, p2.Interface(), b)
	ok = check("decoder", p2.Elem(), pos, err, pp, b) && ok
	// 3. encode through a pointer and a fresh encoder; decode through a nil pointer-to-pointer
	if ok {
		var buf bytes.Buffer
		e := bin.NewEncoderWithEncoding(&buf, enc)
		pp := catch(func() { err = e.Encode(v.Addr().Interface()) })
		c.Res.Transitions++
		if pp != "" || err != nil {
			c.Fail("%s: encode by pointer: %v %s", desc(), err, pp)
			return
		}
		p3 := reflect.New(reflect.PtrTo(t.RT))
		d := bin.NewDecoderWithEncoding(buf.Bytes(), enc)
		pp = catch(func() { err = d.Decode(p3.Interface()) })
		if pp == "" && err == nil && p3.Elem().IsNil() {
			c.Fail("%s: decode through **T left it nil", desc())
			return
		}
		if pp != "" || err != nil {
			check("pointer", reflect.Value{}, -1, err, pp, buf.Bytes())
			return
		}
		check("pointer", p3.Elem().Elem(), int(d.Position()), err, pp, buf.Bytes())
	}
	c.Res.Traces++
	if c.Res.Traces%997 == 1 {
		c.Sample("%s %s = %s -> %s", enc, t.Name, show(v), hx(b))
	}
}
