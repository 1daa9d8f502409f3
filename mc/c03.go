package main

import (
	"reflect"
	"runtime/metrics"
	"strconv"

	bin "github.com/gagliardetto/binary"
)

func init() {
	register("C03", &Check{Level: "model_checking",
		Rule:        "state = distinct (type, encoding, input bytes); transition = one read step of the reference decoder; trace = one library decode compared with the reference decoder's verdict, value and position",
		Assumptions: []string{"inputs: all strings over {00,01,02,7f,80,ff} up to length 6 (quick) / 7 (thorough), all single-byte corruptions and length splices of bounded valid encodings", "allocation bound: 256 KiB plus 64 times the input for inputs up to 1 KiB"},
		Run:         runC03})
}

func hostileTypes() []*T {
	out := append(allLeaves(), userLeaves()...)
	for _, e := range []*T{tBool, tU8, tU16, tU32, tU64, tNU8, tNU64, tI16, tF32, tF64, tStr, tVarint32, tVaruint16, tU128, tLU64, tHex, tSafeStr, tUStruct, tUStr, S(tU8, tBool), PtrT(tU16), SliceT(tU8), MapT(tU8, tU8)} {
		out = append(out, ArrT(2, e), SliceT(e), MapT(tU8, e), S(tU8, e))
	}
	for _, k := range []*T{tBool, tU16, tStr, tI64, tF64, ArrT(2, tU8), tVarint32, tNU32, tUI32} {
		out = append(out, MapT(k, tU8), MapT(k, tBool))
	}
	for _, e := range []*T{tU8, tU16, tF32, tStr, tLU64, tU128, tVarint16, SliceT(tU16), PtrT(tU32), PtrT(tStr), S(tU8, tU16), MapT(tU8, tU8), tUStruct} {
		out = append(out,
			StructT(fld("A", e, "optional"), fld("B", tU8, "")),
			StructT(fld("A", e, "coption"), fld("B", tU8, "")),
			StructT(fld("A", e, "big"), fld("B", tU16, "")),
			StructT(fld("A", e, "optional big")),
			StructT(fld("S", e, "-"), fld("B", tU8, "")))
	}
	for _, n := range []*T{tU8, tI8, tU16, tI32, tU64, tI64, tVaruint16, tVarint16} {
		out = append(out, StructT(fld("N", n, "sizeof=L"), fld("L", SliceT(tU8), ""), fld("Z", tU8, "")),
			StructT(fld("N", n, "sizeof=L"), fld("L", SliceT(tU16), "")),
			StructT(fld("N", n, "sizeof=L"), fld("L", SliceT(tU64), "")),
			StructT(fld("N", n, "sizeof=L"), fld("L", SliceT(tStr), "")))
	}
	out = append(out, SliceT(SliceT(SliceT(tU8))), MapT(tStr, SliceT(tStr)), SliceT(MapT(tU8, SliceT(tU16))), MapT(tU8, MapT(tU8, tU8)), SliceT(ArrT(2, tU16)), tTypeID, tUnit, ArrT(0, tU8), ArrT(40, tU8), ArrT(40, tI32), ArrT(33, tU16), ArrT(20, tStr), ArrT(17, PtrT(tU8)),
		SliceT(S(tU64, tU64, tU64, tU64, ArrT(200, tU8))), MapT(tU32, ArrT(200, tU8)))
	out = append(out, staticTypes()...)
	return out
}

func hostileEnums() []*T {
	var out []*T
	tag := `borsh_enum:"true"`
	for i, p := range enumPayloads() {
		q := enumPayloads()[(i+7)%len(enumPayloads())]
		out = append(out, EnumT(tag, p, tEmpty, q))
	}
	e := EnumT(tag, tU8, tStr)
	out = append(out, SliceT(e), MapT(tU8, e), S(PtrT(e), tU8), StructT(fld("O", e, "optional"), fld("B", tU8, "")), StructT(fld("O", PtrT(e), "coption")), EnumT(tag, e, SliceT(e)))
	return out
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

var alphabet = []byte{0x00, 0x01, 0x02, 0x7f, 0x80, 0xff}

// hostile decodes one input and compares with the reference.
func hostile(c *Ctx, t *T, enc bin.Encoding, in []byte, measure bool) bool {
	c.Res.Traces++
	rv, rpos, steps, rerr, amb := refDecodeAmb(t, in, enc)
	c.Res.Transitions += steps
	out := reflect.New(t.RT)
	var before uint64
	if measure {
		before = allocated()
	}
	pos, err, p := decodePos(enc, out.Interface(), in)
	if measure {
		limit := uint64(256<<10 + 64*len(in))
		used := allocated() - before
		for k := 0; used > limit && k < 4; k++ { // confirm: rule out harness noise
			o2 := reflect.New(t.RT)
			b2 := allocated()
			decodePos(enc, o2.Interface(), in)
			if u := allocated() - b2; u < used {
				used = u
			}
		}
		c.MaxOf("alloc_bytes", int64(used))
		if used > limit {
			c.Fail("%s %s: decoding the %d bytes %s allocates %d bytes (limit %d)", enc, t.Name, len(in), hx(in), used, limit)
			return false
		}
	}
	switch {
	case p != "":
		c.Fail("%s %s: decoding %s panics: %s", enc, t.Name, hx(in), p)
	case pos < 0 || pos > len(in):
		c.Fail("%s %s: decoding %s leaves position %d outside the %d-byte buffer", enc, t.Name, hx(in), pos, len(in))
	case amb:
		c.Add("unspecified_inputs", 1)
		return true
	case (err == nil) != (rerr == nil):
		if err == nil {
			c.Fail("%s %s: accepts malformed %s (%v) as %s", enc, t.Name, hx(in), rerr, show(out.Elem()))
		} else {
			c.Fail("%s %s: refuses well-formed %s (%s): %v", enc, t.Name, hx(in), show(rv), err)
		}
	case err != nil:
		c.Add("refused", 1)
		return true
	case !eq(t, rv, out.Elem(), enc):
		c.Fail("%s %s: decodes %s to %s, it denotes %s", enc, t.Name, hx(in), show(out.Elem()), show(rv))
	case pos != rpos:
		c.Fail("%s %s: decoding %s consumes %d bytes, the value has %d", enc, t.Name, hx(in), pos, rpos)
	default:
		c.Add("accepted", 1)
		return true
	}
	return false
}

func runC03(c *Ctx) {
	maxLen := 6
	if c.Thorough {
		maxLen = 7
	}
	all := append(hostileTypes(), hostileEnums()...)
	// 1. every string over the alphabet
	for _, t := range all {
		for _, enc := range encodingsFor(t) {
			c.Group("str:" + enc.String() + ":" + clip(t.Name, 120))
			for first := -1; first < len(alphabet); first++ { // one case per leading byte
				if !c.Next() {
					continue
				}
				if first < 0 {
					hostile(c, t, enc, nil, false)
					hostile(c, t, enc, []byte{}, true)
					c.State(hash(t.Name, enc.String(), "str", "empty"))
					continue
				}
				buf := []byte{alphabet[first]}
				var rec func() bool
				rec = func() bool {
					c.Tick()
					if !hostile(c, t, enc, buf[:len(buf):len(buf)], false) {
						return false
					}
					c.Res.States++ // distinct by construction
					if len(buf) == maxLen {
						return true
					}
					for _, a := range alphabet {
						buf = append(buf, a)
						ok := rec()
						buf = buf[:len(buf)-1]
						if !ok {
							return false
						}
					}
					return true
				}
				rec()
			}
		}
	}
	// 2. single-byte corruptions of valid encodings; 3. length splices
	repl := func(x byte) []byte { return []byte{0, 1, 2, 0x7f, 0x80, 0xff, x ^ 1, x + 1, x - 1, x ^ 0x80} }
	max, maxBytes := 3, 48
	if c.Thorough {
		max, maxBytes = 40, 96
	}
	corrupt := func(t *T, v reflect.Value, encs []bin.Encoding) {
		for _, enc := range encs {
			b, _, err := refEncode(t, v, enc, nil)
			if err != nil {
				continue
			}
			if len(b) > maxBytes {
				b = b[:maxBytes] // truncated: still a legitimate hostile input
			}
			for k := range b {
				for _, r := range repl(b[k]) {
					if r == b[k] {
						continue
					}
					in := append([]byte{}, b...)
					in[k] = r
					if !hostile(c, t, enc, in, false) {
						return
					}
					c.State(hash(t.Name, enc.String(), string(in)))
				}
			}
		}
	}
	corpusCapped(c, max, map[string]bool{"leaf": true, "cont": true, "key": true, "static": true, "deep2": true, "deep3": true, "tag": true, "enum": true}, corrupt)
	lens := lengthPatterns()
	for _, t := range all {
		for _, enc := range encodingsFor(t) {
			c.Group("splice:" + enc.String() + ":" + clip(t.Name, 120))
			vs := spread(t, vals(t, 1, 1), max)
			for _, v := range vs {
				if !c.Next() {
					continue
				}
				b, _, err := refEncode(t, v, enc, nil)
				if err != nil {
					continue
				}
				if len(b) > maxBytes {
					b = b[:maxBytes]
				}
				step := 1
				for k := 0; k <= len(b); k += step {
					for _, l := range lens {
						for _, tail := range []int{0, 1, 40} { // bytes after the claimed length
							in := append(append([]byte{}, b[:k]...), l...)
							in = append(in, b[k:]...)
							for i := 0; i < tail; i++ {
								in = append(in, byte(i*37+1))
							}
							if !hostile(c, t, enc, in, true) {
								return
							}
							c.State(hash(t.Name, enc.String(), string(in)))
						}
					}
				}
				c.Sample("splice %s %s base %s", enc, t.Name, hx(b))
			}
		}
	}
	// 4. long inputs with plausible but wrong lengths
	longInputs(c, all)
	// 5. well-formed inputs far longer than any test's, whole and one byte short
	big := func(t *T, v reflect.Value, encs []bin.Encoding) {
		for _, enc := range encs {
			b, _, err := refEncode(t, v, enc, nil)
			if err != nil {
				continue
			}
			for _, in := range [][]byte{b[:len(b):len(b)], b[: len(b)-1 : len(b)-1], append(b[:len(b):len(b)], 0xff)} {
				if !hostile(c, t, enc, in, false) {
					return
				}
				c.State(hash(t.Name, enc.String(), "big", string(in)))
			}
		}
	}
	huge(c, big)
	for _, t := range all {
		if t.K != KSlice && t.K != KMap && t.K != KStr && t.K != KSafeStr && t.K != KHex {
			continue
		}
		if t.Elem != nil && (t.Elem.K == KMap || t.Elem.K == KSlice) {
			continue
		}
		c.Group("big:" + clip(t.Name, 120))
		ns := []int{127, 128, 255, 256, 257, 1000, 4097, 16383, 16384}
		for _, n := range append(ns, 65535) {
			if t.K == KMap && n > 256 && t.Key.K != KU32 && t.Key.K != KU16 && t.Key.K != KI64 && t.Key.K != KStr {
				continue
			}
			if c.Next() {
				if t.K == KMap {
					big(t, wideMap(t, n), encodingsFor(t))
				} else if n < 20000 || t.Elem == nil || t.Elem.K != KStruct {
					big(t, sizedVal(t, n), encodingsFor(t))
				}
			}
		}
	}
}

// wideMap: a map of up to n entries (fewer if the key type has fewer values).
func wideMap(t *T, n int) reflect.Value {
	v := reflect.New(t.RT).Elem()
	v.Set(reflect.MakeMap(t.RT))
	kp, ep := poolOf(t.Key), poolOf(t.Elem)
	for i := 0; i < n; i++ {
		k := reflect.New(t.Key.RT).Elem()
		switch k.Kind() {
		case reflect.String:
			k.SetString(fill(i%9, i) + strconv.Itoa(i))
		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			k.SetUint(uint64(i*40503) & (1<<k.Type().Bits() - 1))
		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			k.SetInt(int64(int8(i)) + int64(i)>>8<<8&(1<<(k.Type().Bits()-1)-1))
		case reflect.Float32, reflect.Float64:
			k.SetFloat(float64(i*7-999) / 8)
		default:
			k.Set(kp[i%len(kp)])
		}
		v.SetMapIndex(k, ep[(i*5+i/13)%len(ep)])
	}
	return v
}

// lengthPatterns: claimed lengths in every prefix flavour.
func lengthPatterns() [][]byte {
	return [][]byte{
		{0xff, 0xff, 0xff, 0xff}, {0xff, 0xff, 0xff, 0x7f}, {0xff, 0xff, 0xff, 0x7f, 0, 0, 0, 0}, {0, 0, 0, 0x80}, {0, 0, 0, 0x40}, {0, 0, 0, 0x20}, {0, 0, 0, 0x10}, {0, 0, 0x10, 0}, {0, 0, 1, 0}, {0x29, 0, 0, 0},
		{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, {0, 0, 0, 0, 0, 0, 0, 0x80}, {0, 0, 0, 0, 1, 0, 0, 0}, {0, 0, 0, 0x80, 0, 0, 0, 0}, {2, 0, 0, 0, 0, 0, 0, 0x80},
		{0xff, 0xff, 0x03}, {0x80, 0x80, 0x04}, {0x80, 0x00}, {0xff, 0xff, 0x7f}, {0xff, 0x7f}, {0x80, 0x80, 0x80, 0x01},
		{0xff, 0xff, 0xff, 0xff, 0x07}, {0x80, 0x80, 0x80, 0x80, 0x08}, {0x80, 0x80, 0x80, 0x80, 0x10}, {0xff, 0xff, 0xff, 0xff, 0x0f}, {0x80, 0x80, 0x80, 0x80, 0x80, 0x01},
		{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}, {0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x02}, {0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01},
		{0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01},
	}
}

// longInputs: kilobyte inputs; every element count around what fits.
func longInputs(c *Ctx, all []*T) {
	for _, t := range all {
		if t.K != KSlice && t.K != KMap && t.K != KStr && t.K != KSafeStr && t.K != KHex {
			continue
		}
		for _, enc := range encodingsFor(t) {
			c.Group("long:" + enc.String() + ":" + clip(t.Name, 120))
			for _, size := range []int{100, 1000, 5000} {
				for _, claim := range []int{size / 200, size / 16, size/16 + 1, size / 8, size/8 + 1, size / 4, size/4 + 1, size / 2, size/2 + 1, size - 1, size, size + 1, 2 * size, 4 * size, 8 * size, 65535} {
					for _, fillB := range []byte{0, 1} {
						if !c.Next() {
							continue
						}
						w := &W{enc: enc}
						if t.K == KStr && enc == bin.EncodingBin {
							w.uN(uint64(claim), 8, false)
						} else {
							w.length(claim)
						}
						in := w.out
						for i := 0; i < size; i++ {
							in = append(in, fillB)
						}
						rel := hostile(c, t, enc, in[:len(in):len(in)], false)
						if rel {
							c.State(hash(t.Name, enc.String(), string(in)))
						}
					}
				}
			}
		}
	}
}
