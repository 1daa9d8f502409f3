package main

import (
	"reflect"

	bin "github.com/gagliardetto/binary"
)

func init() {
	register("C04", &Check{Level: "model_checking",
		Rule:        "state = distinct (type, encoding, bytes, cut position or suffix); transition = one library decode; trace = one valid encoding with all its cuts and suffixes replayed",
		Assumptions: []string{"bounded types and values as in C01; encodings longer than 400 bytes are cut only near both ends (4 to 72 positions)", "types with trailing extension fields are excluded (absence is legal there)"},
		Run:         runC04})
}

// quickVals limits the number of values per type in the quick tier.
func corpusCapped(c *Ctx, max int, groups map[string]bool, cb func(t *T, v reflect.Value, encs []bin.Encoding)) {
	corpus2(c, groups, max, cb)
}

var suffixes = [][]byte{{0}, {0xff}, {1, 0, 0, 0, 0, 0, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f, 0x7f}, {0x80, 0x80, 1}}

func runC04(c *Ctx) {
	max := 12
	if c.Thorough {
		max = 1 << 30
	}
	corpusCapped(c, max, nil, func(t *T, v reflect.Value, encs []bin.Encoding) {
		for _, enc := range encs {
			if !refOK(t, v, enc) {
				continue
			}
			b, err, p := marshal(enc, v.Interface())
			if err != nil || p != "" {
				continue // C01's business
			}
			cuts(c, t, v, enc, b)
			tails(c, t, v, enc, b)
			c.Res.Traces++
		}
	})
	pairs(c)
}

func cuts(c *Ctx, t *T, v reflect.Value, enc bin.Encoding, b []byte) {
	edge := 24
	if len(b) > 4000 {
		edge = 4
	}
	if c.Thorough {
		edge *= 3
	}
	for k := 0; k < len(b); k++ {
		if len(b) > 400 && k == edge {
			k = len(b) - edge
		}
		c.Tick()
		exact := append(make([]byte, 0, k), b[:k]...)
		for i, in := range [][]byte{exact[:k:k], b[:k]} { // b[:k] keeps the missing bytes in its capacity
			out := reflect.New(t.RT)
			pos, err, p := decodePos(enc, out.Interface(), in)
			c.Res.Transitions++
			if p != "" {
				c.Fail("%s %s: decoding %d of %d bytes of %s panics: %s", enc, t.Name, k, len(b), hx(b), p)
				return
			}
			if err == nil {
				c.Fail("%s %s: decoding only %d of the %d bytes of %s succeeds (capacity beyond: %v) and gives %s", enc, t.Name, k, len(b), hx(b), i == 1, show(out.Elem()))
				return
			}
			if pos < 0 || pos > k {
				c.Fail("%s %s: after failing on a %d-byte prefix of %s position is %d", enc, t.Name, k, hx(b), pos)
				return
			}
		}
		out := reflect.New(t.RT)
		if err, p := unmarshal(enc, out.Interface(), exact); err == nil || p != "" {
			c.Fail("%s %s: Unmarshal of %d of %d bytes of %s: %v %s", enc, t.Name, k, len(b), hx(b), err, p)
			return
		}
		c.Res.Transitions++
		if len(b) <= 400 {
			c.State(hash(t.Name, enc.String(), string(b[:k]), "cut"))
		}
	}
}

func tails(c *Ctx, t *T, v reflect.Value, enc bin.Encoding, b []byte) {
	ss := suffixes
	if len(b) > 400 {
		ss = ss[:2]
	}
	if len(b) > 0 && len(b) <= 400 {
		ss = append(append([][]byte{}, ss...), b)
	}
	for _, s := range ss {
		in := append(append([]byte{}, b...), s...)
		d := newDecoder(enc, in)
		out := reflect.New(t.RT)
		var err error
		p := catch(func() { err = d.Decode(out.Interface()) })
		c.Res.Transitions++
		if p != "" || err != nil || !eq(t, v, out.Elem(), enc) || int(d.Position()) != len(b) {
			c.Fail("%s %s: decoding %s followed by %s: err %v %s position %d value %s", enc, t.Name, hx(b), hx(s), err, p, d.Position(), show(out.Elem()))
			return
		}
		rest, err := d.ReadNBytes(len(s))
		if err != nil || string(rest) != string(s) || d.HasRemaining() {
			c.Fail("%s %s: bytes after %s read back as %s (%v), want %s", enc, t.Name, hx(b), hx(rest), err, hx(s))
			return
		}
		out2 := reflect.New(t.RT)
		err, p = unmarshal(enc, out2.Interface(), in)
		if p != "" || err != nil || !eq(t, v, out2.Elem(), enc) {
			c.Fail("%s %s: Unmarshal of %s followed by %s: %v %s %s", enc, t.Name, hx(b), hx(s), err, p, show(out2.Elem()))
			return
		}
		c.State(hash(t.Name, enc.String(), string(b), string(s)))
	}
}

// pairTypes: one representative of every construct.
func pairTypes() []*T {
	out := []*T{tBool, tU8, tU16, tI32, tU64, tF32, tF64, tStr, tNU16, tNStr}
	out = append(out, libLeaves...)
	out = append(out, tUStruct, tUI32, tUStr, tUNest,
		ArrT(2, tU16), ArrT(3, tU8), ArrT(2, tStr), SliceT(tU8), SliceT(tU16), SliceT(tU64), SliceT(tStr), SliceT(tBool), SliceT(S(tU8, tU16)), SliceT(SliceT(tU8)),
		MapT(tU8, tU16), MapT(tStr, SliceT(tU8)), S(tU8, tStr, tU16), S(PtrT(tU32), tU8), tUnit,
		StructT(fld("A", tU32, "big"), fld("B", tLU64, "")),
		StructT(fld("A", PtrT(tU32), "optional"), fld("B", tU16, "")),
		StructT(fld("A", tU128, "big"), fld("B", tU16, "optional big")),
		StructT(fld("A", PtrT(tU32), "coption"), fld("B", tU16, "")),
		StructT(fld("N", tU8, "sizeof=L"), fld("L", SliceT(tU16), "")),
		StructT(fld("N", tU8, "-"), fld("L", tLI64, "big")),
	)
	out = append(out, staticTypes()...)
	return out
}

// pairs: every ordered pair of types decoded back to back from one buffer.
func pairs(c *Ctx) {
	ts := pairTypes()
	for i, a := range ts {
		for j, b := range ts {
			c.Group("pair:" + clip(a.Name, 60) + "," + clip(b.Name, 60))
			if !c.Next() {
				continue
			}
			va, vb := vals(a, 0, i), vals(b, 0, j+3)
			if len(va) > 3 && !c.Thorough {
				va = va[:3]
			}
			if len(vb) > 3 && !c.Thorough {
				vb = vb[:3]
			}
			for _, x := range va {
				for _, y := range vb {
					for _, enc := range allEnc {
						if !refOK(a, x, enc) || !refOK(b, y, enc) {
							continue
						}
						bx, e1, p1 := marshal(enc, x.Interface())
						by, e2, p2 := marshal(enc, y.Interface())
						if e1 != nil || e2 != nil || p1 != "" || p2 != "" {
							continue
						}
						in := append(append([]byte{}, bx...), by...)
						d := newDecoder(enc, in)
						ox, oy := reflect.New(a.RT), reflect.New(b.RT)
						p := catch(func() { e1 = d.Decode(ox.Interface()) })
						pos := int(d.Position())
						if p == "" {
							p = catch(func() { e2 = d.Decode(oy.Interface()) })
						}
						c.Res.Transitions += 2
						if p != "" || e1 != nil || e2 != nil || pos != len(bx) || int(d.Position()) != len(in) || !eq(a, x, ox.Elem(), enc) || !eq(b, y, oy.Elem(), enc) {
							c.Fail("%s: back to back %s %s then %s %s: errors %v, %v %s positions %d, %d of %d; got %s then %s", enc, a.Name, show(x), b.Name, show(y), e1, e2, p, pos, d.Position(), len(in), show(ox.Elem()), show(oy.Elem()))
							return
						}
						c.Res.Traces++
						c.State(hash("pair", a.Name, b.Name, enc.String(), string(in)))
					}
				}
			}
		}
	}
}
