package main

import (
	"bytes"
	"fmt"
	"math"
	"reflect"

	bin "github.com/gagliardetto/binary"
)

func init() {
	register("C18", &Check{Level: "model_checking",
		Rule:        "state = distinct history (sequence of coder operations on one target, decoder or encoder); transition = one operation; trace = one history replayed on the real code, its last result compared with the reference result of that operation alone",
		Assumptions: []string{"histories of 2 operations over the full catalogue and of 3 over a reduced one; operations: successful and failing decodes (every cut of short encodings, foreign bytes), successful and failing encodes, primitive calls, Reset, seek to the start, SetEncoding, one-shot Marshal/Unmarshal/ByteCount"},
		Run:         runC18})
}

// two distinct types that share a name
func sameNameA() reflect.Type {
	type Rec struct {
		A uint16
		B uint32 `bin:"big"`
		C *uint8 `bin:"optional"`
	}
	return reflect.TypeOf(Rec{})
}
func sameNameB() reflect.Type {
	type Rec struct {
		A uint16 `bin:"big"`
		B uint32
		C *uint8
	}
	return reflect.TypeOf(Rec{})
}
func sameNameC() reflect.Type {
	type Rec struct {
		A uint16 `bin:"optional"`
		B uint32 `bin:"-"`
		C *uint8 `bin:"coption"`
	}
	return reflect.TypeOf(Rec{})
}

func histTypes() []*T {
	ts := pairTypes()
	ts = append(ts, FromGo(sameNameA()), FromGo(sameNameB()), FromGo(sameNameC()),
		SliceT(PtrT(S(tU8, tStr))), SliceT(MapT(tU8, SliceT(tU16))), MapT(tU8, PtrT(tU16)), ArrT(2, SliceT(tU8)), ArrT(2, PtrT(tU8)), SliceT(ArrT(2, tU8)),
		StructT(fld("A", MapT(tU8, tU8), ""), fld("B", SliceT(tStr), ""), fld("C", PtrT(SliceT(tU8)), "optional"), fld("d", tU8, ""), fld("E", tU8, "-")),
		StructT(fld("A", SliceT(tU8), "optional"), fld("B", MapT(tStr, tU8), "optional"), fld("C", tStr, "coption")),
		StructT(fld("A", tU16, "optional"), fld("B", tU32, "big"), fld("C", tU8, "coption"), fld("D", PtrT(tU16), "option")),
		StructT(rawFld("A", tU16, `bin:"optional" borsh_skip:"true"`), rawFld("B", tU32, `bin:"big" borsh_skip:"true"`), fld("C", tU8, "coption"), rawFld("D", PtrT(tU16), `json:"x" bin:"option"`)),
		StructT(rawFld("A", tU16, `json:"optional" bin:"big"`), rawFld("B", tU32, `json:"big"`), rawFld("C", tU8, `bin:"coption" borsh_skip:"true"`), rawFld("D", PtrT(tU16), `borsh_skip:"false" bin:"option"`)),
		StructT(fld("N", tU8, "sizeof=L"), fld("M", tU16, "sizeof=K"), fld("L", SliceT(tU16), ""), fld("K", SliceT(tStr), ""), fld("Z", SliceT(tU8), "")))
	// the same field names with other tags or none, at the top and nested
	lk := StructT(fld("N", tU8, ""), fld("L", SliceT(tU16), ""), fld("K", SliceT(tStr), ""))
	ts = append(ts, lk, StructT(fld("L", SliceT(tU8), ""), fld("Z", tU8, "")), StructT(fld("K", SliceT(tU32), "optional"), fld("L", PtrT(SliceT(tU8)), "optional"), fld("N", tU8, "big")),
		StructT(fld("M", tU8, "sizeof=L"), fld("L", SliceT(tU8), ""), fld("K", lk, "")), StructT(fld("L", tStr, ""), fld("K", MapT(tU8, tU8), "")), SliceT(lk), MapT(tU8, lk))
	// enums with more variants, of pointer payloads too
	tag := `borsh_enum:"true"`
	en := EnumT(tag, tU8, PtrT(tU16), tEmpty, SliceT(tU16), PtrT(S(tU8, tStr)), PtrT(tStr), MapT(tU8, tU8), tStr, PtrT(SliceT(tU8)))
	ts = append(ts, en, S(en, tU8), SliceT(EnumT(tag, PtrT(tStr), tU32)), StructT(fld("A", PtrT(en), "optional"), fld("Z", tU8, "")))
	return ts
}

// spread picks max of the values, the first ones and others evenly spaced
// behind them; of an enum, one value of every variant besides.
func spread(t *T, vs []reflect.Value, max int) []reflect.Value {
	if len(vs) <= max {
		return vs
	}
	pick := map[int]bool{}
	for k := 0; k < (max+1)/2; k++ {
		pick[k] = true
	}
	for k := 1; len(pick) < max; k++ {
		pick[len(vs)-1-(k-1)*len(vs)/max] = true
		if k > 2*max {
			break
		}
	}
	if t.Enum {
		seen := map[uint64]bool{}
		for k, v := range vs {
			if n := v.Field(0).Uint(); !seen[n] && len(seen) < 16 {
				seen[n] = true
				pick[k] = true
			}
		}
	}
	if t.K == KStruct && !t.Enum { // every field both absent (zero) and present
		for i, f := range t.Fields {
			if f.Hidden {
				continue
			}
			first := [2]int{-1, -1}
			has := [2]bool{}
			for k, v := range vs {
				z := 0
				if fieldAny(v, i).IsZero() {
					z = 1
				}
				if first[z] < 0 {
					first[z] = k
				}
				has[z] = has[z] || pick[k]
			}
			for z := range first {
				if !has[z] && first[z] >= 0 {
					pick[first[z]] = true
				}
			}
		}
	}
	var out []reflect.Value
	for k := range vs {
		if pick[k] {
			out = append(out, vs[k])
		}
	}
	return out
}

type hop struct { // one decode operation of a history
	t    *T
	b    []byte
	want reflect.Value
	ok   bool
	name string
}

func histOps(ts []*T, enc bin.Encoding, nv int) (good, bad []hop) {
	for i, t := range ts {
		if enc != bin.EncodingBorsh && enumOnlyBorsh(t) {
			continue
		}
		vs := spread(t, vals(t, 0, i+1), nv)
		for k, v := range vs {
			b, _, err := refEncode(t, v, enc, nil)
			if err != nil {
				continue
			}
			good = append(good, hop{t, b, v, true, "decode " + clip(t.Name, 60)})
			if k == 0 {
				for _, cut := range []int{0, len(b) / 3, len(b) / 2, len(b) - 1} {
					if cut >= 0 && cut < len(b) {
						bad = append(bad, hop{t, b[:cut:cut], v, false, fmt.Sprintf("decode %s cut to %d", clip(t.Name, 60), cut)})
					}
				}
				ff := bytes.Repeat([]byte{0xff}, 24)
				bad = append(bad, hop{t, ff, v, false, "decode 0xff.. as " + clip(t.Name, 60)})
			}
		}
	}
	return
}

// run decodes op on d (already positioned) into target p.
func (o *hop) run(d *bin.Decoder, p reflect.Value) (err error, pan string) {
	pan = catch(func() { err = d.Decode(p.Interface()) })
	return
}

// directOps: well-formed inputs for the types with their own methods, as they
// read on a decoder that is not inside any field.
func directOps(enc bin.Encoding) (out []hop) {
	for i, t := range append(allLeaves(), userLeaves()...) {
		if _, ok := reflect.New(t.RT).Interface().(bin.BinaryUnmarshaler); !ok {
			continue
		}
		if enc != bin.EncodingBorsh && enumOnlyBorsh(t) {
			continue
		}
		vs := vals(t, 0, i+1)
		if len(vs) > 4 {
			vs = vs[len(vs)-4:]
		}
		for _, v := range vs {
			if b, _, err := refEncode(t, v, enc, nil); err == nil {
				out = append(out, hop{t, b, v, true, "direct " + t.Name})
			}
		}
	}
	return
}

// directEncOps: the values of directOps, encoded by their own method on an
// encoder that is not inside any field; 128-bit values with their own marker.
func directEncOps(enc bin.Encoding) (out []eop) {
	add := func(name string, m bin.BinaryMarshaler, want []byte) {
		out = append(out, eop{name: "direct " + name, ok: true, want: want, prim: func(e *bin.Encoder) error { return m.MarshalWithEncoder(e) }})
	}
	for _, o := range directOps(enc) {
		if m, ok := o.want.Interface().(bin.BinaryMarshaler); ok {
			add(o.t.Name+" "+clip(show(o.want), 60), m, o.b)
		}
	}
	be := []byte{0xf1, 0xf2, 0xf3, 0xf4, 0xf5, 0xf6, 0xf7, 0xf8, 1, 2, 3, 4, 5, 6, 7, 8}
	le := append([]byte{}, be...)
	bin.ReverseBytes(le)
	for i, o := range markers {
		want := le
		if i == 2 {
			want = be
		}
		u := bin.Uint128{Hi: 0xf1f2f3f4f5f6f7f8, Lo: 0x0102030405060708, Endianness: o}
		add(fmt.Sprintf("Uint128 marked %v", o), u, want)
		add(fmt.Sprintf("Int128 marked %v", o), bin.Int128(u), want)
		add(fmt.Sprintf("Float128 marked %v", o), bin.Float128(u), want)
	}
	return
}

func runC18(c *Ctx) {
	c18Targets(c)
	c18Decoders(c)
	c18Encoders(c)
	c18OneShot(c)
	c18Long(c)
}

// c18Long: one coder for thousands of values; every operation of the alphabet
// comes first once, and meets the coder after every number of bytes.
func c18Long(c *Ctx) {
	n := 1500
	if c.Thorough {
		n = 6000
	}
	for _, enc := range allEnc {
		good, bad := histOps(histTypes(), enc, 2)
		eops := encOps(histTypes(), enc, 2)
		c.Group("long:" + enc.String())
		for i := range good {
			if !c.Next() {
				continue
			}
			at := func(k int) *hop { return &good[(i+k*(1+i%7))%len(good)] }
			// A header byte in front of the stream, of another value each time.
			all := []byte{byte(255 - i)}
			for k := 0; k < n; k++ {
				all = append(all, at(k).b...)
			}
			d, r := newDecoder(enc, all), newDecoder(enc, nil)
			pos := 1
			if err := d.SkipBytes(1); err != nil {
				c.Fail("%s: SkipBytes(1) of %d: %v", enc, len(all), err)
				return
			}
			for k := 0; k < n; k++ {
				h := at(k)
				out := reflect.New(h.t.RT)
				err, p := h.run(d, out)
				pos += len(h.b)
				c.Res.Transitions += 2
				if p != "" || err != nil || !eq(h.t, h.want, out.Elem(), enc) || int(d.Position()) != pos {
					c.Fail("%s: value %d of a stream starting with %s: %s gives %s, %v %s, position %d; want %s, position %d", enc, k, good[i].name, h.name, show(out.Elem()), err, p, d.Position(), show(h.want), pos)
					return
				}
				if k%5 == 4 {
					f := &bad[(i+k)%len(bad)]
					r.Reset(f.b)
					f.run(r, reflect.New(f.t.RT))
				}
				r.Reset(h.b)
				out = reflect.New(h.t.RT)
				err, p = h.run(r, out)
				if p != "" || err != nil || !eq(h.t, h.want, out.Elem(), enc) || int(r.Position()) != len(h.b) {
					c.Fail("%s: reset number %d of a decoder that started with %s: %s gives %s, %v %s, position %d; want %s", enc, k, good[i].name, h.name, show(out.Elem()), err, p, r.Position(), show(h.want))
					return
				}
			}
			c.Res.Traces += 2
			c.Res.States += int64(n)
		}
		for i := range eops {
			if !c.Next() {
				continue
			}
			var w bytes.Buffer
			e := newEncoder(enc, &w)
			for k := 0; k < n; k++ {
				h := &eops[(i+k*(1+i%7))%len(eops)]
				at := w.Len()
				err, p := h.run(e)
				c.Res.Transitions++
				if p != "" || (err == nil) != h.ok || h.ok && !bytes.Equal(w.Bytes()[at:], h.want) || e.Written() != w.Len() {
					c.Fail("%s: value %d of an encoder that started with %s, after %d bytes: %s emits %s, %v %s, Written %d of %d; want %s", enc, k, eops[i].name, at, h.name, hx(w.Bytes()[at:]), err, p, e.Written(), w.Len(), hx(h.want))
					return
				}
			}
			c.Res.Traces++
			c.Res.States += int64(n)
		}
	}
}

// A. used targets
func c18Targets(c *Ctx) {
	max := 5
	if c.Thorough {
		max = 14
	}
	var ts []*T
	ts = append(ts, histTypes()...)
	for _, tv := range catalogue(2) {
		switch tv.grp {
		case "leaf", "cont", "key", "static", "deep2":
			ts = append(ts, tv.T)
		}
	}
	ts = append(ts, taggedTypes(c.Thorough)...)
	ts = append(ts, enumTypes(c.Thorough)...)
	for _, t := range ts {
		vs := spread(t, vals(t, 1, 1), max)
		c.Group("tgt:" + clip(t.Name, 150))
		for _, v1 := range vs {
			for k2, v2 := range vs {
				if !c.Next() {
					continue
				}
				for _, enc := range encodingsFor(t) {
					b1, _, e1 := refEncode(t, v1, enc, nil)
					b2, _, e2 := refEncode(t, v2, enc, nil)
					if e1 != nil || e2 != nil {
						continue
					}
					// a target filled by a successful decode
					tgt := reflect.New(t.RT)
					if k2 == 0 {
						dirtyFill(t, tgt.Elem(), 7, 0)
					}
					if err, p := unmarshal(enc, tgt.Interface(), b1); err != nil || p != "" {
						continue // C01's business
					}
					c.Res.Transitions++
					if !decodeInto(c, "after decoding "+hx(b1)+" into the same target", t, tgt.Elem(), b2, enc) {
						return
					}
					// a target half filled by a failing decode
					n := len(b1)
					if n > 40 {
						n = 40
					}
					for cut := 0; cut < n; cut++ {
						if k2 != 0 && cut%3 != 0 && !c.Thorough {
							continue
						}
						tg := reflect.New(t.RT)
						if _, p := unmarshal(enc, tg.Interface(), b1[:cut:cut]); p != "" {
							continue
						}
						c.Res.Transitions++
						if !decodeInto(c, fmt.Sprintf("after failing on %d bytes of %s into the same target", cut, hx(b1)), t, tg.Elem(), b2, enc) {
							return
						}
					}
					c.State(hash(t.Name, enc.String(), string(b1), string(b2)))
				}
			}
		}
	}
}

// B. used decoders
func c18Decoders(c *Ctx) {
	ts := histTypes()
	nv := 2
	if c.Thorough {
		nv = 4
	}
	for _, enc := range allEnc {
		good, bad := histOps(ts, enc, nv)
		first := append(append([]hop{}, good...), bad...)
		for i := range first {
			a := &first[i]
			c.Group(fmt.Sprintf("dec:%s:%s", enc, clip(a.name, 150)))
			for j := range good {
				if !c.Next() {
					continue
				}
				b := &good[j]
				for mode := 0; mode < 5; mode++ {
					var d *bin.Decoder
					in := append([]byte{}, b.b...)
					check := true
					switch mode {
					case 0: // reset to the next buffer
						d = newDecoder(enc, a.b)
						a.run(d, reflect.New(a.t.RT))
						d.Reset(in)
					case 1: // decode foreign bytes, then rewind
						d = newDecoder(enc, in)
						a.run(d, reflect.New(a.t.RT))
						if len(in) > 0 && d.SetPosition(0) != nil {
							c.Fail("%s: cannot seek to the start of %d bytes", enc, len(in))
							return
						}
					case 2: // primitives with other byte orders, then reset
						d = newDecoder(enc, a.b)
						catch(func() {
							d.ReadUint16(bin.BE)
							d.ReadUint64(bin.BE)
							d.ReadString()
							d.ReadUint128(bin.BE)
							d.Peek(3)
						})
						d.Reset(in)
					case 3: // continue after it in the same buffer
						d = newDecoder(enc, append(append([]byte{}, a.b...), in...))
						err, p := a.run(d, reflect.New(a.t.RT))
						if err != nil || p != "" {
							// a failed decode: go to where the next value is
							if d.SetPosition(uint(len(a.b))) != nil {
								check = false
							}
						} else if !a.ok {
							check = false // cut off by the next value's bytes
						}
					case 4: // used with another encoding before
						d = newDecoder(allEnc[(int(enc)+1)%3], a.b)
						a.run(d, reflect.New(a.t.RT))
						d.SetEncoding(enc)
						d.Reset(in)
					}
					if !check {
						continue
					}
					start := int(d.Position())
					out := reflect.New(b.t.RT)
					err, p := b.run(d, out)
					c.Res.Transitions += 2
					if p != "" || err != nil || !eq(b.t, b.want, out.Elem(), enc) || int(d.Position())-start != len(b.b) {
						c.Fail("%s: history [%s; mode %d], then %s of %s: error %v %s, got %s, want %s, position %d", enc, a.name, mode, b.name, hx(b.b), err, p, show(out.Elem()), show(b.want), d.Position())
						return
					}
					c.Res.Traces++
					c.State(hash("dec", enc.String(), a.name, string(a.b), b.name, string(b.b), fmt.Sprint(mode)))
				}
			}
		}
		// reset, then an input that a fresh decoder refuses or half accepts
		for i := range first {
			a := &first[i]
			c.Group(fmt.Sprintf("rej:%s:%s", enc, clip(a.name, 150)))
			if !c.Next() {
				continue
			}
			for j := range bad {
				b := &bad[j]
				f := newDecoder(enc, b.b)
				fo := reflect.New(b.t.RT)
				ferr, fp := b.run(f, fo)
				d := newDecoder(enc, a.b)
				a.run(d, reflect.New(a.t.RT))
				d.Reset(b.b)
				out := reflect.New(b.t.RT)
				err, p := b.run(d, out)
				c.Res.Transitions += 2
				if (p == "") != (fp == "") || (err == nil) != (ferr == nil) || d.Position() != f.Position() || d.Remaining() != f.Remaining() || !reflect.DeepEqual(dumpOf(fo.Elem(), false), dumpOf(out.Elem(), false)) {
					c.Fail("%s: history [%s; Reset], then %s: error %v %s, got %s, position %d; a fresh decoder: error %v %s, got %s, position %d", enc, a.name, b.name, err, p, show(out.Elem()), d.Position(), ferr, fp, show(fo.Elem()), f.Position())
					return
				}
				c.Res.Traces++
				c.Res.States++
			}
		}
		// reset or not, then types that decode themselves, called directly
		for i := range first {
			a := &first[i]
			c.Group(fmt.Sprintf("dir:%s:%s", enc, clip(a.name, 150)))
			if !c.Next() {
				continue
			}
			for _, b := range directOps(enc) {
				for mode := 0; mode < 2; mode++ {
					var d *bin.Decoder
					start, how := 0, "Reset"
					if mode == 0 {
						d = newDecoder(enc, a.b)
						a.run(d, reflect.New(a.t.RT))
						d.Reset(append([]byte{}, b.b...))
					} else { // go on behind it in the same buffer
						start, how = len(a.b), "continue"
						d = newDecoder(enc, append(append([]byte{}, a.b...), b.b...))
						a.run(d, reflect.New(a.t.RT))
						if d.SetPosition(uint(start)) != nil {
							continue
						}
					}
					out := reflect.New(b.t.RT)
					var err error
					p := catch(func() { err = out.Interface().(bin.BinaryUnmarshaler).UnmarshalWithDecoder(d) })
					c.Res.Transitions += 2
					if p != "" || err != nil || !eq(b.t, b.want, out.Elem(), enc) || int(d.Position()) != start+len(b.b) {
						c.Fail("%s: history [%s; %s], then %s directly on %s: error %v %s, got %s, want %s, position %d", enc, a.name, how, b.t.Name, hx(b.b), err, p, show(out.Elem()), show(b.want), d.Position())
						return
					}
					c.Res.Traces++
					c.State(hash("dir", enc.String(), a.name, string(a.b), b.name, string(b.b), how))
				}
			}
		}
		// histories of three
		short := append([]*T{}, ts...)
		if !c.Thorough {
			short = nil
			for i := 0; i < len(ts); i += 3 {
				short = append(short, ts[i])
			}
			short = append(short, ts[len(ts)-12:]...)
		}
		good, bad = histOps(short, enc, 1)
		first = append(append([]hop{}, good...), bad...)
		for i := range first {
			a := &first[i]
			c.Group(fmt.Sprintf("dec3:%s:%s", enc, clip(a.name, 150)))
			for j := range first {
				if !c.Next() {
					continue
				}
				m := &first[j]
				for k := range good {
					b := &good[k]
					d := newDecoder(enc, a.b)
					a.run(d, reflect.New(a.t.RT))
					d.Reset(m.b)
					m.run(d, reflect.New(m.t.RT))
					d.Reset(b.b)
					out := reflect.New(b.t.RT)
					err, p := b.run(d, out)
					c.Res.Transitions += 3
					if p != "" || err != nil || !eq(b.t, b.want, out.Elem(), enc) || int(d.Position()) != len(b.b) {
						c.Fail("%s: history [%s; %s], then %s of %s: error %v %s, got %s, want %s", enc, a.name, m.name, b.name, hx(b.b), err, p, show(out.Elem()), show(b.want))
						return
					}
					c.Res.Traces++
					c.Res.States++
				}
			}
		}
	}
}

type eop struct {
	name string
	v    any
	want []byte // nil: fails
	ok   bool
	prim func(e *bin.Encoder) error
}

func encOps(ts []*T, enc bin.Encoding, nv int) (out []eop) {
	for i, t := range ts {
		if enc != bin.EncodingBorsh && enumOnlyBorsh(t) {
			continue
		}
		vs := spread(t, vals(t, 0, i+1), nv)
		for _, v := range vs {
			if enc != bin.EncodingBorsh && mapBig(v) {
				continue // entry order is free; see below
			}
			b, _, err := refEncode(t, v, enc, nil)
			if err != nil {
				continue
			}
			out = append(out, eop{name: "encode " + clip(t.Name, 60) + " " + clip(show(v), 60), v: v.Interface(), want: b, ok: true})
		}
	}
	fail := []any{FailOn{}, struct {
		A uint32 `bin:"big"`
		F FailOn `bin:"big"`
	}{}, []FailOn{{}}, struct {
		A uint64    `bin:"big"`
		C chan int  `bin:"optional"`
		D complex64 `bin:"big"`
	}{C: make(chan int)}, func() {}, map[string]FailOn{"a": {}}, struct {
		O *FailOn `bin:"optional big"`
	}{&FailOn{}}}
	if enc == bin.EncodingBorsh {
		fail = append(fail, math.NaN(), struct {
			A float32 `bin:"big"`
		}{float32(math.NaN())})
	}
	if enc == bin.EncodingCompactU16 {
		fail = append(fail, make([]byte, 70000))
	}
	for _, f := range fail {
		out = append(out, eop{name: fmt.Sprintf("encode failing %T", f), v: f})
	}
	out = append(out,
		eop{name: "WriteUint64 BE", ok: true, want: []byte{1, 2, 3, 4, 5, 6, 7, 8}, prim: func(e *bin.Encoder) error { return e.WriteUint64(0x0102030405060708, bin.BE) }},
		eop{name: "WriteUint128 BE", ok: true, want: append(make([]byte, 8), 1, 2, 3, 4, 5, 6, 7, 8), prim: func(e *bin.Encoder) error { return e.WriteUint128(bin.Uint128{Lo: 0x0102030405060708}, bin.BE) }},
		eop{name: "WriteByte", ok: true, want: []byte{9}, prim: func(e *bin.Encoder) error { return e.WriteByte(9) }},
		eop{name: "WriteCompactU16 refused", prim: func(e *bin.Encoder) error { return e.WriteCompactU16(70000) }})
	return
}

// mapBig: some map in v has more than one entry.
func mapBig(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Map:
		if v.Len() > 1 {
			return true
		}
		for _, k := range v.MapKeys() {
			if mapBig(v.MapIndex(k)) {
				return true
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if mapBig(v.Index(i)) {
				return true
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if mapBig(v.Field(i)) {
				return true
			}
		}
	case reflect.Ptr:
		return !v.IsNil() && mapBig(v.Elem())
	}
	return false
}

func (o *eop) run(e *bin.Encoder) (err error, p string) {
	p = catch(func() {
		if o.prim != nil {
			err = o.prim(e)
		} else {
			err = e.Encode(o.v)
		}
	})
	return
}

// C. used encoders
func c18Encoders(c *Ctx) {
	ts := histTypes()
	for _, enc := range allEnc {
		ops := encOps(ts, enc, 2)
		hist := func(hs ...*eop) bool {
			var w bytes.Buffer
			e := newEncoder(enc, &w)
			for i, h := range hs {
				at := w.Len()
				err, p := h.run(e)
				c.Res.Transitions++
				var names []string
				for _, x := range hs[:i+1] {
					names = append(names, x.name)
				}
				switch {
				case p != "":
					c.Fail("%s: history %q panics: %s", enc, names, p)
					return false
				case (err == nil) != h.ok:
					c.Fail("%s: history %q: last error %v", enc, names, err)
					return false
				case h.ok && !bytes.Equal(w.Bytes()[at:], h.want):
					c.Fail("%s: history %q: last emits %s, alone it emits %s", enc, names, hx(w.Bytes()[at:]), hx(h.want))
					return false
				case e.Written() != w.Len():
					c.Fail("%s: history %q: Written %d, buffer %d", enc, names, e.Written(), w.Len())
					return false
				}
			}
			c.Res.Traces++
			c.Res.States++
			return true
		}
		for i := range ops {
			c.Group(fmt.Sprintf("enc:%s:%s", enc, clip(ops[i].name, 150)))
			for j := range ops {
				if c.Next() && !hist(&ops[i], &ops[j]) {
					return
				}
			}
		}
		// then types that encode themselves, called directly
		direct := directEncOps(enc)
		for i := range ops {
			c.Group(fmt.Sprintf("edir:%s:%s", enc, clip(ops[i].name, 150)))
			if !c.Next() {
				continue
			}
			for j := range direct {
				if !hist(&ops[i], &direct[j]) || !hist(&direct[j], &ops[i]) || !hist(&ops[i], &direct[j], &direct[(j+1)%len(direct)]) {
					return
				}
			}
		}
		short := ts
		if !c.Thorough {
			short = nil
			for i := 0; i < len(ts); i += 2 {
				short = append(short, ts[i])
			}
		}
		ops = encOps(short, enc, 1)
		for i := range ops {
			c.Group(fmt.Sprintf("enc3:%s:%s", enc, clip(ops[i].name, 150)))
			for j := range ops {
				if !c.Next() {
					continue
				}
				for k := range ops {
					if !hist(&ops[i], &ops[j], &ops[k]) {
						return
					}
				}
			}
		}
	}
}

// D. one-shot functions: nothing carries over between calls, in any order of
// encodings; earlier results stay intact.
func c18OneShot(c *Ctx) {
	ts := histTypes()
	type call struct {
		name string
		enc  bin.Encoding
		kind int
		v    any
		t    *T
		want []byte
		ok   bool
	}
	var calls []call
	for _, enc := range allEnc {
		for _, o := range encOps(ts, enc, 1) {
			if o.prim != nil {
				continue
			}
			calls = append(calls, call{"marshal " + enc.String() + " " + o.name, enc, 0, o.v, nil, o.want, o.ok},
				call{"count " + enc.String() + " " + o.name, enc, 1, o.v, nil, o.want, o.ok})
		}
		good, bad := histOps(ts, enc, 1)
		for _, o := range append(good, bad...) {
			calls = append(calls, call{"unmarshal " + enc.String() + " " + o.name, enc, 2, o.want.Interface(), o.t, o.b, o.ok})
		}
	}
	do := func(x *call) (got []byte, out reflect.Value, n uint64, err error, p string) {
		switch x.kind {
		case 0:
			got, err, p = marshal(x.enc, x.v)
		case 1:
			n, err, p = byteCount(x.enc, x.v)
		case 2:
			o := reflect.New(x.t.RT)
			err, p = unmarshal(x.enc, o.Interface(), x.want)
			out = o.Elem()
		}
		c.Res.Transitions++
		return
	}
	judge := func(pre string, x *call) bool {
		got, out, n, err, p := do(x)
		switch {
		case p != "":
			c.Fail("after [%s], %s panics: %s", pre, x.name, p)
		case x.kind == 2 && !x.ok:
			return true // judged in C03 and C04
		case (err == nil) != x.ok:
			c.Fail("after [%s], %s: error %v", pre, x.name, err)
		case x.ok && x.kind == 0 && !bytes.Equal(got, x.want):
			c.Fail("after [%s], %s gives %s, want %s", pre, x.name, hx(got), hx(x.want))
		case x.ok && x.kind == 1 && n != uint64(len(x.want)):
			c.Fail("after [%s], %s gives %d, want %d", pre, x.name, n, len(x.want))
		case x.ok && x.kind == 2 && !eq(x.t, reflect.ValueOf(x.v), out, x.enc):
			c.Fail("after [%s], %s gives %s, want %s", pre, x.name, show(out), show(reflect.ValueOf(x.v)))
		default:
			return true
		}
		return false
	}
	for i := range calls {
		a := &calls[i]
		c.Group("one:" + clip(a.name, 170))
		step := 7
		if c.Thorough {
			step = 1
		}
		if !c.Next() {
			continue
		}
		for j := i % step; j < len(calls); j += step {
			b := &calls[j]
			first, fout, _, ferr, _ := do(a)
			snap := append([]byte{}, first...)
			var osnap reflect.Value
			if fout.IsValid() && ferr == nil {
				osnap = fullCopy(a.t, fout)
			}
			if !judge(a.name, b) {
				return
			}
			if !bytes.Equal(first, snap) {
				c.Fail("%s changed the bytes returned earlier by %s", b.name, a.name)
				return
			}
			if osnap.IsValid() && !eq(a.t, osnap, fout, a.enc) {
				c.Fail("%s changed the value decoded earlier by %s", b.name, a.name)
				return
			}
			c.Res.Traces++
			c.Res.States++
		}
		c.Tick()
	}
}
