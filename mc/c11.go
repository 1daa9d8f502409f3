package main

import (
	"fmt"
	"reflect"

	bin "github.com/gagliardetto/binary"
)

func init() {
	register("C11", &Check{Level: "model_checking",
		Rule:        "state = distinct (struct type with tags, encoding, field values); transition = one encode or one decode (into a fresh target, into a target full of other data, from a cut input for extension fields); trace = one value taken through all of them against the reference codec",
		Assumptions: []string{"tag assignments: all single tags x all leaf and container types, all ordered pairs of tagged fields over a type catalogue, triples; 40 values per type (thorough 400), nested tagged structs, count fields of every integer type", "a float field holding -0.0 under a value-typed optional is outside the contract"},
		Promote:     true,
		Run:         runC11})
}

func rawFld(name string, t *T, tag string) F {
	f := F{Name: name, T: t, Tag: tag}
	f.parse()
	return f
}

// moreTagged: unexported and skipped neighbours, tag spellings, triples.
func moreTagged(thorough bool) []*T {
	var out []*T
	ls := []*T{tU8, tU32, tStr, tLU64, tU128, SliceT(tU16), PtrT(tU32), MapT(tU8, tU8), S(tU8, tLU64), tUStruct, ArrT(2, tU16)}
	for _, a := range ls {
		for _, b := range ls {
			out = append(out,
				StructT(fld("A", a, ""), fld("hid", b, ""), fld("Z", tU16, "big")),
				StructT(fld("hid", b, "big"), fld("A", a, "optional"), fld("Z", tLU64, "")),
				StructT(fld("A", a, ""), fld("Sk", b, "-"), fld("Z", tU16, "")),
				StructT(fld("Sk", b, "skip optional"), fld("A", a, "big"), fld("hid", tU8, ""), fld("Z", tLU64, "")),
				StructT(rawFld("Sk", b, `borsh_skip:"true" bin:"big"`), fld("A", a, ""), fld("Z", tLU64, "")))
		}
	}
	for _, a := range ls {
		for _, tg := range []string{`bin:"big optional"`, `bin:"optional  big"`, `bin:"little optional"`, `bin:" big"`, `bin:"big little"`, `bin:"unknown big"`, `json:"x" bin:"big"`, `bin:"big" json:"-"`, `borsh_skip:" true "`, `borsh_skip:"false"`, `json:"-"`, `bin:""`, `bin:"optional" borsh_skip:"true"`, `bin:"coption little"`, `bin:"enum"`, `bin:"enum big"`, `borsh_enum:"true"`, `bin:"optional" borsh_enum:"true"`, `bin:"sizeof=Nope"`} {
			if tg == `bin:"sizeof=Nope"` && !(a == tU8 || a == tU32) {
				continue
			}
			out = append(out, StructT(rawFld("A", a, tg), fld("Z", tLU64, "")), StructT(fld("Y", tU16, "big"), rawFld("A", a, tg), fld("Z", tU16, "")))
		}
	}
	// a skipped count or an unexported count sizes nothing; a count may be optional or big
	for _, n := range []*T{tU8, tU16, tI32, tU64, tLU64} {
		for _, tg := range []string{"sizeof=L", "big sizeof=L", "sizeof=L little"} {
			out = append(out, StructT(fld("N", n, tg), fld("hid", tU8, ""), fld("L", SliceT(tU16), ""), fld("Z", SliceT(tU8), "")),
				StructT(fld("N", n, tg), fld("L", SliceT(tStr), "big"), fld("L2", SliceT(tStr), "")))
		}
	}
	if thorough {
		tl := []*T{tU16, tLU64, tU128, PtrT(tU32), SliceT(tU16), S(tU16, tLI64)}
		tt := []string{"", "big", "optional", "coption big", "-"}
		for _, a := range tl {
			for _, b := range tl {
				for _, d := range tl {
					for _, x := range tt {
						for _, y := range tt {
							for _, z := range tt {
								if x == y && y == z {
									continue
								}
								out = append(out, StructT(fld("A", a, x), fld("B", b, y), fld("C", d, z), fld("Z", tLU64, "")))
							}
						}
					}
				}
			}
		}
	}
	return out
}

// fieldAny gives settable access to a field, exported or not.
func fieldAny(v reflect.Value, i int) reflect.Value {
	f := v.Field(i)
	if f.CanSet() || !f.CanAddr() {
		return f
	}
	return reflect.NewAt(f.Type(), f.Addr().UnsafePointer()).Elem()
}

// dirtyFill puts non-zero data in every field, including the ones the format
// leaves alone.
func dirtyFill(t *T, v reflect.Value, salt int, depth int) {
	switch t.K {
	case KStruct:
		for i, f := range t.Fields {
			if depth < 4 {
				dirtyFill(f.T, fieldAny(v, i), salt+i, depth+1)
			}
		}
	case KPtr:
		if depth < 4 {
			p := reflect.New(t.Elem.RT)
			dirtyFill(t.Elem, p.Elem(), salt, depth+1)
			v.Set(p)
		}
	case KArr:
		for i := 0; i < t.N; i++ {
			dirtyFill(t.Elem, v.Index(i), salt+i, depth+1)
		}
	case KSlice:
		s := reflect.MakeSlice(t.RT, 3, 5)
		for i := 0; i < 3; i++ {
			dirtyFill(t.Elem, s.Index(i), salt+i, depth+1)
		}
		v.Set(s)
	case KMap:
		m := reflect.MakeMap(t.RT)
		for i, k := range distinctKeys(t.Key, salt) {
			if i == 3 {
				break
			}
			e := reflect.New(t.Elem.RT).Elem()
			dirtyFill(t.Elem, e, salt+i, depth+1)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	default:
		v.Set(vals(t, 0, salt)[0])
	}
}

// fullEq: eq, and the skipped and unexported fields agree too.
func fullEq(t *T, a, b reflect.Value, enc bin.Encoding) bool {
	return eq(t, a, b, enc) && restEq(t, a, b, enc)
}

func restEq(t *T, a, b reflect.Value, enc bin.Encoding) bool {
	switch t.K {
	case KPtr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return restEq(t.Elem, a.Elem(), b.Elem(), enc)
	case KArr, KSlice:
		for i := 0; i < a.Len() && i < b.Len(); i++ {
			if !restEq(t.Elem, a.Index(i), b.Index(i), enc) {
				return false
			}
		}
	case KStruct:
		for i, f := range t.Fields {
			fa, fb := fieldAny(a, i), fieldAny(b, i)
			skip := f.Skip || f.Hidden || t.Enum && enc == bin.EncodingBorsh && i > 0 && uint64(i) != a.Field(0).Uint()+1
			if skip {
				if !eq(f.T, fa, fb, enc) || !restEq(f.T, fa, fb, enc) {
					return false
				}
			} else if !restEq(f.T, fa, fb, enc) {
				return false
			}
		}
	}
	return true
}

// fullCopy copies all fields, including unexported ones.
func fullCopy(t *T, v reflect.Value) reflect.Value {
	out := reflect.New(t.RT).Elem()
	out.Set(v)
	fullFix(t, out)
	return out
}

func fullFix(t *T, v reflect.Value) {
	switch t.K {
	case KStruct:
		for i, f := range t.Fields {
			fullFix(f.T, fieldAny(v, i))
		}
	case KPtr:
		if !v.IsNil() {
			p := reflect.New(t.Elem.RT)
			p.Elem().Set(v.Elem())
			fullFix(t.Elem, p.Elem())
			v.Set(p)
		}
	case KArr:
		for i := 0; i < t.N; i++ {
			fullFix(t.Elem, v.Index(i))
		}
	case KSlice, KMap, KHex, KCust:
		fixCopy(v)
	}
}

// decodeInto decodes b into a copy of start and compares with the reference.
func decodeInto(c *Ctx, what string, t *T, start reflect.Value, b []byte, enc bin.Encoding) bool {
	want := fullCopy(t, start)
	want, wpos, steps, werr := refDecodeInto(t, want, b, enc)
	c.Res.Transitions += steps
	got := fullCopy(t, start).Addr()
	pos, err, p := decodePos(enc, got.Interface(), b)
	c.Res.Traces++
	switch {
	case p != "":
		c.Fail("%s %s: decoding %s %s panics: %s", enc, t.Name, hx(b), what, p)
	case (err == nil) != (werr == nil):
		c.Fail("%s %s: decoding %s %s: library %v, format %v", enc, t.Name, hx(b), what, err, werr)
	case err == nil && pos != wpos:
		c.Fail("%s %s: decoding %s %s consumes %d, format %d", enc, t.Name, hx(b), what, pos, wpos)
	case err == nil && !fullEq(t, want, got.Elem(), enc):
		c.Fail("%s %s: decoding %s %s\n  from  %s\n  gives %s\n  want  %s", enc, t.Name, hx(b), what, show(start), show(got.Elem()), show(want))
	default:
		return true
	}
	return false
}

func tagCase(c *Ctx, t *T, v reflect.Value, enc bin.Encoding) bool {
	if !refOK(t, v, enc) {
		return true
	}
	n0 := len(c.Res.Viols)
	wire(c, t, v, enc)
	if len(c.Res.Viols) > n0 {
		return false
	}
	b, _, _ := refEncode(t, v, enc, nil)
	if !decodeInto(c, "into a fresh target", t, reflect.New(t.RT).Elem(), b, enc) {
		return false
	}
	for _, s := range []int{40, 90} {
		d := reflect.New(t.RT).Elem()
		dirtyFill(t, d, s, 0)
		if !decodeInto(c, "into a used target", t, d, b, enc) {
			return false
		}
	}
	return true
}

func runC11(c *Ctx) {
	types := append(taggedTypes(c.Thorough), moreTagged(c.Thorough)...)
	max := 14
	if c.Thorough {
		max = 40
	}
	if c.Extra {
		max = 400
	}
	for _, t := range types {
		c.Group("tag:" + clip(t.Name, 150))
		vs := spread(t, vals(t, 1, 1), max)
		for _, v := range vs {
			if !c.Next() {
				continue
			}
			for i, f := range t.Fields { // unexported fields hold data too
				if f.Hidden {
					dirtyFill(f.T, fieldAny(v, i), 60+i, 0)
				}
			}
			for _, enc := range allEnc {
				if !tagCase(c, t, v, enc) {
					break
				}
			}
		}
	}
	c.Group("wide")
	for _, t := range wideTagged(c.Thorough) {
		if !c.Next() {
			continue
		}
		for _, v := range wideVals(t) {
			for _, enc := range allEnc {
				if !tagCase(c, t, v, enc) {
					return
				}
			}
		}
	}
	// a tag on an extension field far from the first field
	for p := 0; p <= 140; p++ {
		if !c.Next() {
			continue
		}
		var fs []F
		for i := 0; i < p; i++ {
			fs = append(fs, fld(fname(i), tU8, ""))
		}
		t := StructT(append(fs, fld("X", tU16, "binary_extension big"), fld("Y", tU8, "binary_extension"))...)
		for _, enc := range allEnc {
			v := wideVals(t)[0]
			b, _, _ := refEncode(t, v, enc, nil)
			for k := p; k <= len(b); k++ {
				if !decodeInto(c, fmt.Sprintf("cut to %d of %d bytes,", k, len(b)), t, reflect.New(t.RT).Elem(), b[:k:k], enc) {
					return
				}
			}
		}
	}
	// extension fields: every cut
	for _, t := range extTypes() {
		c.Group("ext:" + clip(t.Name, 150))
		for _, v := range vals(t, 1, 1) {
			if !c.Next() {
				continue
			}
			for _, enc := range allEnc {
				if !refOK(t, v, enc) || !tagCase(c, t, v, enc) {
					break
				}
				b, _, _ := refEncode(t, v, enc, nil)
				dirty := reflect.New(t.RT).Elem()
				dirtyFill(t, dirty, 33, 0)
				for k := 0; k <= len(b); k++ {
					cut := append([]byte{}, b[:k]...)
					if !decodeInto(c, fmt.Sprintf("cut to %d of %d bytes, fresh target,", k, len(b)), t, reflect.New(t.RT).Elem(), cut, enc) ||
						!decodeInto(c, fmt.Sprintf("cut to %d of %d bytes, used target,", k, len(b)), t, dirty, cut, enc) {
						return
					}
					c.State(hash("ext", t.Name, enc.String(), string(cut)))
				}
			}
		}
	}
}
