package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"strings"

	bin "github.com/gagliardetto/binary"
)

func init() {
	register("C13", &Check{Level: "model_checking",
		Rule:        "state = distinct (definition, id, input bytes); transition = one id lookup, conversion or variant decode; trace = one decode replayed on the real code and compared with id table + reference payload decoder",
		Assumptions: []string{"definitions of 1..300 variants (at most 256 for one-byte ids), names distinct (all ordered pairs of 84 short, long and non-alphanumeric names); all inputs over an alphabet up to a length bound after every id; TypeID conversions: all 8-bit, all 16-bit and a 32-bit lattice (all 2^32 in the thorough tier)"},
		Run:         runC13})
}

var idEncs = []bin.TypeIDEncoding{bin.Uvarint32TypeIDEncoding, bin.Uint32TypeIDEncoding, bin.Uint8TypeIDEncoding, bin.AnchorTypeIDEncoding, bin.NoTypeIDEncoding}
var idEncNames = []string{"uvarint32", "uint32", "uint8", "anchor", "none"}

// refID: the id bytes of variant i.
func refID(e bin.TypeIDEncoding, i int, name string) []byte {
	w := &W{}
	switch e {
	case bin.Uvarint32TypeIDEncoding:
		w.leb(uint64(i))
	case bin.Uint32TypeIDEncoding:
		w.uN(uint64(i), 4, false)
	case bin.Uint8TypeIDEncoding:
		w.out = []byte{byte(i)}
	case bin.AnchorTypeIDEncoding:
		h := refSHA256([]byte("global:" + name))
		w.out = h[:8]
	}
	return w.out
}

func pad8(b []byte) (t bin.TypeID) {
	copy(t[:], b)
	return
}

type vdef struct {
	enc   bin.TypeIDEncoding
	names []string
	ts    []*T
	ptr   []bool
	def   *bin.VariantDefinition
	byID  map[bin.TypeID]int
	proto []any
	snap  []reflect.Value
}

func (d *vdef) String() string {
	s := idEncNames[d.enc] + "["
	for i := range d.ts {
		if i == 5 {
			s += fmt.Sprintf("...%d", len(d.ts))
			break
		}
		if d.ptr[i] {
			s += "*"
		}
		s += clip(d.ts[i].Name, 40) + " "
	}
	return s + "]"
}

func mkDef(e bin.TypeIDEncoding, names []string, ts []*T, ptr []bool) *vdef {
	d := &vdef{enc: e, names: names, ts: ts, ptr: ptr, byID: map[bin.TypeID]int{}}
	var vt []bin.VariantType
	for i, t := range ts {
		var p any
		if ptr[i] {
			x := reflect.New(t.RT)
			dirtyFill(t, x.Elem(), 9, 0)
			d.snap = append(d.snap, fullCopy(t, x.Elem()))
			p = x.Interface()
		} else {
			p = reflect.Zero(t.RT).Interface()
			d.snap = append(d.snap, reflect.Value{})
		}
		d.proto = append(d.proto, p)
		vt = append(vt, bin.VariantType{Name: names[i], Type: p})
		d.byID[pad8(refID(e, i, names[i]))] = i
	}
	d.def = bin.NewVariantDefinition(e, vt)
	// the caller's list is the caller's: reusing it must not matter
	for i := range vt {
		vt[i] = bin.VariantType{Name: "reused", Type: uint8(0)}
	}
	return d
}

// ids: every name has its id.
func (d *vdef) ids(c *Ctx) bool {
	seen := map[bin.TypeID]string{}
	for i, n := range d.names {
		c.Res.Transitions++
		want := pad8(refID(d.enc, i, n))
		var got bin.TypeID
		if p := catch(func() { got = d.def.TypeID(n) }); p != "" {
			c.Fail("%s: TypeID(%q) panics: %s", d, n, p)
			return false
		}
		if got != want {
			c.Fail("%s: TypeID(%q) = %x, want %x", d, n, got, want)
			return false
		}
		if o, dup := seen[got]; dup && o != n {
			c.Fail("%s: names %q and %q share id %x", d, o, n, got)
			return false
		}
		seen[got] = n
		bv := &bin.BaseVariant{}
		bv.Assign(got, i)
		id, nm, impl := bv.Obtain(d.def)
		if id != got || nm != n || impl != i {
			c.Fail("%s: Obtain after Assign(%x, %d) = %x, %q, %v", d, got, i, id, nm, impl)
			return false
		}
		bv.Assign(got, nil)
		if id, nm, impl := bv.Obtain(d.def); id != got || nm != n || impl != nil {
			c.Fail("%s: Obtain after Assign(%x, nil) = %x, %q, %v", d, got, id, nm, impl)
			return false
		}
		c.State(hash(d.String(), n))
	}
	c.Res.Traces++
	return true
}

// refVariant: index and bytes of the id, or an error.
func (d *vdef) parseID(in []byte) (i, n int, ok bool) {
	var key []byte
	switch d.enc {
	case bin.Uvarint32TypeIDEncoding:
		var v uint64
		for n = 0; ; n++ {
			if n >= len(in) || n >= 10 {
				return 0, 0, false
			}
			if n < 9 {
				v |= uint64(in[n]&0x7f) << (7 * n)
			} else if in[n] > 1 {
				return 0, 0, false
			} else {
				v |= uint64(in[n]) << 63
			}
			if in[n] < 0x80 {
				n++
				break
			}
		}
		if v > 1<<32-1 {
			return 0, 0, false
		}
		w := &W{}
		w.leb(v)
		key = w.out
	case bin.Uint32TypeIDEncoding:
		n = 4
	case bin.Uint8TypeIDEncoding:
		n = 1
	case bin.AnchorTypeIDEncoding:
		n = 8
	default:
		return 0, 0, true
	}
	if n > len(in) {
		return 0, 0, false
	}
	if key == nil {
		key = in[:n]
	}
	i, ok = d.byID[pad8(key)]
	return i, n, ok
}

func (d *vdef) decode(c *Ctx, in []byte, enc bin.Encoding, bv *bin.BaseVariant) bool {
	c.Res.Transitions++
	i, n, ok := d.parseID(in)
	var want reflect.Value
	var wn int
	if ok {
		var err error
		var amb bool
		want, wn, _, err, amb = refDecodeAmb(d.ts[i], in[n:], enc)
		if amb {
			return true
		}
		ok = err == nil
	}
	orig := string(in)
	dec := newDecoder(enc, in)
	// what this variant held before is somebody's value now
	var prevT *T
	var prev, prevSnap reflect.Value
	if pv := reflect.ValueOf(bv.Impl); pv.IsValid() && pv.Kind() == reflect.Ptr && !pv.IsNil() {
		for k, t := range d.ts {
			if d.ptr[k] && reflect.PtrTo(t.RT) == pv.Type() {
				prevT, prev, prevSnap = t, pv.Elem(), fullCopy(t, pv.Elem())
				break
			}
		}
	}
	var err error
	if p := catch(func() { err = bv.UnmarshalBinaryVariant(dec, d.def) }); p != "" {
		c.Fail("%s %s: decoding %s panics: %s", enc, d, hx(in), p)
		return false
	}
	if string(in) != orig {
		c.Fail("%s %s: decoding changed its input", enc, d)
		return false
	}
	if int(dec.Position()) > len(in) {
		c.Fail("%s %s: position %d outside the %d input bytes", enc, d, dec.Position(), len(in))
		return false
	}
	if prevT != nil && !fullEq(prevT, prev, prevSnap, enc) {
		c.Fail("%s %s: decoding %s changed the value an earlier decode of this variant returned: %s, was %s", enc, d, hx(in), show(prev), show(prevSnap))
		return false
	}
	c.Res.Traces++
	if ok != (err == nil) {
		c.Fail("%s %s: decoding %s: error is %v, the id and payload are valid: %v", enc, d, hx(in), err, ok)
		return false
	}
	if !ok {
		return true
	}
	id, name, impl := bv.Obtain(d.def)
	if id != pad8(refID(d.enc, i, d.names[i])) || name != d.names[i] || bv.TypeID != id {
		c.Fail("%s %s: decoding %s gives id %x name %q, want variant %d %q", enc, d, hx(in), id, name, i, d.names[i])
		return false
	}
	g := reflect.ValueOf(impl)
	wt := d.ts[i].RT
	if d.ptr[i] {
		wt = reflect.PtrTo(wt)
	}
	if !g.IsValid() || g.Type() != wt {
		c.Fail("%s %s: decoding %s gives a %T, want %s", enc, d, hx(in), impl, wt)
		return false
	}
	if d.ptr[i] {
		if g.IsNil() {
			c.Fail("%s %s: decoding %s gives a nil pointer", enc, d, hx(in))
			return false
		}
		if d.proto[i] == impl && d.ts[i].RT.Size() > 0 {
			c.Fail("%s %s: decoding %s returns the prototype of the definition", enc, d, hx(in))
			return false
		}
		if !fullEq(d.ts[i], reflect.ValueOf(d.proto[i]).Elem(), d.snap[i], enc) {
			c.Fail("%s %s: decoding %s changed the prototype of the definition", enc, d, hx(in))
			return false
		}
		g = g.Elem()
	}
	if !fullEq(d.ts[i], want, g, enc) {
		c.Fail("%s %s: decoding %s gives %s, want %s", enc, d, hx(in), show(g), show(want))
		return false
	}
	if int(dec.Position()) != n+wn {
		c.Fail("%s %s: decoding %s consumes %d bytes, id and payload have %d", enc, d, hx(in), dec.Position(), n+wn)
		return false
	}
	return true
}

func variantPool() []*T {
	return []*T{S(tU16, tStr), tU64, tEmpty, custLeafByName("UStruct"), S(SliceT(tU16), PtrT(tU8)), tStr,
		StructT(fld("A", tU32, "big"), fld("B", tU16, "optional"), fld("c", tU8, ""), fld("D", tU8, "-")), tLU64, SliceT(tU8), MapT(tU8, tU8), ArrT(3, tI16), tU128, tBool, S(tU16), S(tStr)}
}

func custLeafByName(n string) *T {
	for _, t := range userLeaves() {
		if t.RT.Name() == n {
			return t
		}
	}
	panic(n)
}

func runC13(c *Ctx) {
	pool := variantPool()
	mkNames := func(n int) (out []string) {
		for i := 0; i < n; i++ {
			out = append(out, fmt.Sprintf("ix_%d", i))
		}
		return
	}
	max := 300
	// ids of every size of definition
	for ei, e := range idEncs {
		c.Group("ids:" + idEncNames[ei])
		for n := 1; n <= max; n++ {
			if !c.Next() {
				continue
			}
			if e == bin.Uint8TypeIDEncoding && n > 256 || e == bin.NoTypeIDEncoding && n > 1 {
				if e == bin.NoTypeIDEncoding {
					// "only one variant": anything else is refused loudly
					if p := catch(func() { bin.NewVariantDefinition(e, make([]bin.VariantType, n)) }); p == "" {
						c.Fail("a definition without type ids accepts %d variants", n)
					}
				}
				continue
			}
			ts, ptr := make([]*T, n), make([]bool, n)
			for i := range ts {
				ts[i], ptr[i] = pool[i%len(pool)], i%3 == 1
			}
			d := mkDef(e, mkNames(n), ts, ptr)
			if !d.ids(c) {
				continue
			}
			// decode through every id (all sizes up to 40, then the boundaries)
			if n > 40 && n != 127 && n != 128 && n != 129 && n != 200 && n != 255 && n != 256 && n != 257 && n != 300 {
				continue
			}
			bv := &bin.BaseVariant{}
			for _, enc := range allEnc {
				for i := -1; i < n+3; i++ {
					k := i
					if i < 0 {
						k = 1<<31 + 5
					}
					nm := fmt.Sprintf("ix_%d", k)
					id := refID(e, k, nm)
					t := pool[((k%len(pool))+len(pool))%len(pool)]
					for _, v := range vals(t, 0, 3) {
						b, _, err := refEncode(t, v, enc, nil)
						if err != nil {
							continue
						}
						in := append(append([]byte{}, id...), b...)
						if !d.decode(c, in, enc, &bin.BaseVariant{}) || !d.decode(c, in, enc, bv) || !d.decode(c, append(in, 7, 8), enc, bv) {
							return
						}
						if n <= 20 {
							for k := 0; k < len(in); k++ {
								if !d.decode(c, in[:k:k], enc, &bin.BaseVariant{}) || !d.decode(c, in[:k:k], enc, bv) {
									return
								}
							}
						}
						c.State(hash(d.String(), enc.String(), string(in)))
					}
				}
			}
		}
	}
	// small definitions: all type assignments, all inputs over an alphabet
	alpha := []byte{0, 1, 2, 3, 0x7f, 0x80, 0xff}
	depth := 4
	if c.Thorough {
		depth = 6
	}
	for ei, e := range idEncs {
		for n := 1; n <= 3; n++ {
			if e == bin.NoTypeIDEncoding && n > 1 {
				continue
			}
			for rot := 0; rot < len(pool); rot++ {
				for pm := 0; pm < 1<<n; pm++ {
					c.Group(fmt.Sprintf("in:%s:%d:%d:%d", idEncNames[ei], n, rot, pm))
					if !c.Next() {
						continue
					}
					ts, ptr := make([]*T, n), make([]bool, n)
					for i := range ts {
						ts[i], ptr[i] = pool[(rot+i*(1+rot%2))%len(pool)], pm>>i&1 == 1
					}
					d := mkDef(e, mkNames(n), ts, ptr)
					if !d.ids(c) {
						return
					}
					for _, enc := range allEnc {
						bv := &bin.BaseVariant{}
						var heads [][]byte
						switch e {
						case bin.Uvarint32TypeIDEncoding, bin.Uint8TypeIDEncoding, bin.NoTypeIDEncoding:
							heads = [][]byte{nil}
						default:
							for i := 0; i <= n; i++ {
								id := refID(e, i, fmt.Sprintf("ix_%d", i))
								for k := 0; k <= len(id); k++ {
									heads = append(heads, id[:k])
								}
								for k := range id {
									for _, x := range []byte{0x01, 0x80} {
										m := append([]byte{}, id...)
										m[k] ^= x
										heads = append(heads, m)
									}
								}
							}
						}
						for _, h := range heads {
							dep := depth
							if len(h) > 0 {
								if _, _, ok := d.parseID(h); !ok {
									dep = 1
								} else if !c.Thorough {
									dep = 3
								}
							}
							buf := append([]byte{}, h...)
							base := len(h)
							var rec func() bool
							rec = func() bool {
								if !d.decode(c, append([]byte{}, buf...), enc, bv) {
									return false
								}
								c.Res.States++
								if len(buf)-base == dep {
									return true
								}
								for _, a := range alpha {
									buf = append(buf, a)
									ok := rec()
									buf = buf[:len(buf)-1]
									if !ok {
										return false
									}
								}
								return true
							}
							if !rec() {
								return
							}
							c.Tick()
						}
					}
					c.Sample("%s all inputs to depth %d", d, depth)
				}
			}
		}
	}
	// names are opaque: every pair of short names over an alphabet, and long ones
	c.Group("names")
	al := []string{"a", "A", "_", " ", "0", "é", "-", ":"}
	nm := []string{"", strings.Repeat("x", 55), strings.Repeat("x", 56), strings.Repeat("x", 57), strings.Repeat("x", 300), "doSomething", "do_something", "DoSomething", "initialize", "Initialize", "\x00", "a\x00"}
	for _, x := range al {
		nm = append(nm, x)
		for _, y := range al {
			nm = append(nm, x+y)
		}
	}
	for _, x := range nm {
		for _, y := range nm {
			if x == y || !c.Next() {
				continue
			}
			for _, e := range idEncs[:4] {
				d := mkDef(e, []string{x, y}, []*T{tU8, tU16}, []bool{false, true})
				if !d.ids(c) {
					return
				}
				for i := range d.ts {
					if !d.decode(c, append(refID(e, i, d.names[i]), 1, 2), bin.EncodingBorsh, &bin.BaseVariant{}) {
						return
					}
				}
			}
		}
	}
	// uvarint ids of every byte length around the 32-bit limit
	c.Group("wideid")
	for _, v := range lattice(64) {
		if !c.Next() {
			continue
		}
		d := mkDef(bin.Uvarint32TypeIDEncoding, mkNames(3), []*T{tU8, tU16, tU8}, []bool{false, true, true})
		w := &W{}
		w.leb(v)
		for _, enc := range allEnc {
			if !d.decode(c, append(w.out[:len(w.out):len(w.out)], 1, 2, 3), enc, &bin.BaseVariant{}) {
				return
			}
		}
		c.Res.States++
	}
	// two results of one definition are independent
	c.Group("fresh")
	if c.Next() {
		for _, ptr := range []bool{true, false} {
			d := mkDef(bin.Uint8TypeIDEncoding, mkNames(1), []*T{S(SliceT(tU16), tU8, MapT(tU8, tU8))}, []bool{ptr})
			for _, enc := range allEnc {
				t := d.ts[0]
				vs := vals(t, 1, 1)
				for _, v1 := range vs {
					for _, v2 := range vs {
						b1, _, _ := refEncode(t, v1, enc, nil)
						b2, _, _ := refEncode(t, v2, enc, nil)
						var a, b bin.BaseVariant
						if !d.decode(c, append([]byte{0}, b1...), enc, &a) || !d.decode(c, append([]byte{0}, b2...), enc, &b) {
							return
						}
						g := reflect.Indirect(reflect.ValueOf(a.Impl))
						if !eq(t, v1, g, enc) {
							c.Fail("%s %s: a later decode changed an earlier result to %s, was %s", enc, d, show(g), show(v1))
							return
						}
						c.Res.Traces++
					}
				}
			}
		}
	}
	typeIDConv(c)
}

func typeIDConv(c *Ctx) {
	bad := func(f string, a ...any) bool { c.Fail(f, a...); return false }
	u32 := func(v uint32) bool {
		c.Res.Transitions += 8
		c.Res.States++
		w := &W{}
		w.leb(uint64(v))
		var le, be bin.TypeID
		binary.LittleEndian.PutUint32(le[:], v)
		binary.BigEndian.PutUint32(be[:], v)
		lv := pad8(w.out)
		if g := bin.TypeIDFromUvarint32(v); g != lv {
			return bad("TypeIDFromUvarint32(%d) = %x, want %x", v, g, lv)
		}
		if g := bin.TypeIDFromUint32(v, binary.LittleEndian); g != le {
			return bad("TypeIDFromUint32(%d, LE) = %x", v, g)
		}
		if g := bin.TypeIDFromUint32(v, binary.BigEndian); g != be {
			return bad("TypeIDFromUint32(%d, BE) = %x", v, g)
		}
		if bin.Uvarint32FromTypeID(lv) != v || lv.Uvarint32() != v {
			return bad("uvarint32 of %x = %d/%d, want %d", lv, bin.Uvarint32FromTypeID(lv), lv.Uvarint32(), v)
		}
		if bin.Uint32FromTypeID(le, binary.LittleEndian) != v || le.Uint32() != v {
			return bad("uint32 of %x != %d", le, v)
		}
		if bin.Uint32FromTypeID(be, binary.BigEndian) != v {
			return bad("big-endian uint32 of %x != %d", be, v)
		}
		return true
	}
	c.Group("conv8")
	if c.Next() {
		for v := 0; v < 256; v++ {
			want := bin.TypeID{byte(v)}
			if g := bin.TypeIDFromUint8(byte(v)); g != want || g.Uint8() != byte(v) || bin.Uint8FromTypeID(g) != byte(v) {
				bad("TypeIDFromUint8(%d) = %x", v, g)
				break
			}
			c.Res.States++
			c.Res.Transitions++
		}
	}
	c.Group("conv32")
	if c.Thorough {
		for hi := uint32(0); hi < 1<<12; hi++ {
			if !c.Next() {
				continue
			}
			for lo := uint32(0); lo < 1<<20; lo++ {
				if !u32(hi<<20 | lo) {
					return
				}
			}
			c.Tick()
		}
	} else {
		for hi := uint32(0); hi < 64; hi++ {
			if !c.Next() {
				continue
			}
			for lo := uint32(0); lo < 4096; lo++ {
				if !u32(hi<<12 | lo) {
					return
				}
			}
		}
		for _, v := range lattice(32) {
			if c.Next() && !u32(uint32(v)) {
				return
			}
		}
	}
	c.Group("convbytes")
	for n := 0; n <= 8; n++ {
		for _, p := range []byte{0, 1, 0x80, 0xff} {
			if !c.Next() {
				continue
			}
			for k := 0; k <= n; k++ {
				b := bytes.Repeat([]byte{p}, n)
				if k < n {
					b[k] = 0x5a
				}
				want := pad8(b)
				g := bin.TypeIDFromBytes(b)
				h := bin.TypeIDFromSighash(b)
				if g != want || h != want {
					bad("TypeIDFromBytes(%x) = %x", b, g)
					return
				}
				if !bytes.Equal(g.Bytes(), want[:]) || !g.Equal(want[:]) {
					bad("TypeID %x: Bytes %x", want, g.Bytes())
					return
				}
				if n < 8 && g.Equal(b) || g.Equal(append(want[:], 0)) || g.Equal(nil) {
					bad("TypeID %x equals bytes of another length", g)
					return
				}
				for j := range want {
					o := want
					o[j] ^= 1
					if g.Equal(o[:]) {
						bad("TypeID %x equals %x", g, o)
						return
					}
				}
				// the id read by a decoder
				d := bin.NewBinDecoder(append(want[:], 1))
				pk, e1 := d.PeekDiscriminator()
				id, e2 := d.ReadTypeID()
				if e1 != nil || e2 != nil || pk != want || id != want || d.Position() != 8 {
					bad("a decoder reads id %x/%x from %x (%v %v)", pk, id, want, e1, e2)
					return
				}
				c.Res.States++
				c.Res.Transitions += 12
			}
		}
	}
}
