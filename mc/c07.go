package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"strings"

	bin "github.com/gagliardetto/binary"
)

func init() {
	register("C07", &Check{Level: "model_checking",
		Rule:        "state = distinct (primitive, byte order, encoding, value); transition = one library write or read; trace = one write-then-read history compared with the reference bytes and value",
		Assumptions: []string{"8- and 16-bit values complete; 32-bit complete in the thorough tier (in one encoding; all NaNs in Borsh in both tiers); 64- and 128-bit over the boundary lattice", "byte orders: binary.LittleEndian and binary.BigEndian"},
		Run:         runC07})
}

type prim struct {
	name  string
	bits  int // width of the value domain
	fixed bool
	write func(e *bin.Encoder, x, y uint64, o binary.ByteOrder) error
	read  func(d *bin.Decoder, o binary.ByteOrder) (uint64, uint64, error)
	bytes func(x, y uint64, big bool, enc bin.Encoding) ([]byte, bool) // canonical bytes, false = must be refused
}

func be(v uint64, n int, big bool) []byte {
	w := &W{}
	w.uN(v, n, big)
	return w.out
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func prims() []prim {
	fix := func(n int) func(x, y uint64, big bool, enc bin.Encoding) ([]byte, bool) {
		return func(x, y uint64, big bool, enc bin.Encoding) ([]byte, bool) { return be(x, n, big), true }
	}
	w128 := func(x, y uint64, big bool, enc bin.Encoding) ([]byte, bool) {
		if big {
			return append(be(y, 8, true), be(x, 8, true)...), true
		}
		return append(be(x, 8, false), be(y, 8, false)...), true
	}
	flo := func(n int) func(x, y uint64, big bool, enc bin.Encoding) ([]byte, bool) {
		return func(x, y uint64, big bool, enc bin.Encoding) ([]byte, bool) {
			return be(x, n, big), !(enc == bin.EncodingBorsh && isNaNBits(x, n))
		}
	}
	sx := func(x uint64, bits uint) uint64 { return uint64(int64(x<<(64-bits)) >> (64 - bits)) }
	_ = sx
	return []prim{
		{"byte", 8, false, func(e *bin.Encoder, x, y uint64, o binary.ByteOrder) error { return e.WriteByte(byte(x)) }, func(d *bin.Decoder, o binary.ByteOrder) (uint64, uint64, error) {
			v, err := d.ReadByte()
			return uint64(v), 0, err
		}, fix(1)},
		{"uint8", 8, false, func(e *bin.Encoder, x, y uint64, o binary.ByteOrder) error { return e.WriteUint8(uint8(x)) }, func(d *bin.Decoder, o binary.ByteOrder) (uint64, uint64, error) {
			v, err := d.ReadUint8()
			return uint64(v), 0, err
		}, fix(1)},
		{"int8", 8, false, func(e *bin.Encoder, x, y uint64, o binary.ByteOrder) error { return e.WriteInt8(int8(x)) }, func(d *bin.Decoder, o binary.ByteOrder) (uint64, uint64, error) {
			v, err := d.ReadInt8()
			return uint64(uint8(v)), 0, err
		}, fix(1)},
		{"bool", 1, false, func(e *bin.Encoder, x, y uint64, o binary.ByteOrder) error { return e.WriteBool(x != 0) }, func(d *bin.Decoder, o binary.ByteOrder) (uint64, uint64, error) {
			v, err := d.ReadBool()
			return b2u(v), 0, err
		}, fix(1)},
		{"option", 1, false, func(e *bin.Encoder, x, y uint64, o binary.ByteOrder) error { return e.WriteOption(x != 0) }, func(d *bin.Decoder, o binary.ByteOrder) (uint64, uint64, error) {
			v, err := d.ReadOption()
			return b2u(v), 0, err
		}, fix(1)},
		{"coption", 1, false, func(e *bin.Encoder, x, y uint64, o binary.ByteOrder) error { return e.WriteCOption(x != 0) }, func(d *bin.Decoder, o binary.ByteOrder) (uint64, uint64, error) {
			v, err := d.ReadCOption()
			return b2u(v), 0, err
		}, func(x, y uint64, big bool, enc bin.Encoding) ([]byte, bool) { return be(x, 4, false), true }},
		{"uint16", 16, true, func(e *bin.Encoder, x, y uint64, o binary.ByteOrder) error { return e.WriteUint16(uint16(x), o) }, func(d *bin.Decoder, o binary.ByteOrder) (uint64, uint64, error) {
			v, err := d.ReadUint16(o)
			return uint64(v), 0, err
		}, fix(2)},
		{"int16", 16, true, func(e *bin.Encoder, x, y uint64, o binary.ByteOrder) error { return e.WriteInt16(int16(x), o) }, func(d *bin.Decoder, o binary.ByteOrder) (uint64, uint64, error) {
			v, err := d.ReadInt16(o)
			return uint64(uint16(v)), 0, err
		}, fix(2)},
		{"uint32", 32, true, func(e *bin.Encoder, x, y uint64, o binary.ByteOrder) error { return e.WriteUint32(uint32(x), o) }, func(d *bin.Decoder, o binary.ByteOrder) (uint64, uint64, error) {
			v, err := d.ReadUint32(o)
			return uint64(v), 0, err
		}, fix(4)},
		{"int32", 32, true, func(e *bin.Encoder, x, y uint64, o binary.ByteOrder) error { return e.WriteInt32(int32(x), o) }, func(d *bin.Decoder, o binary.ByteOrder) (uint64, uint64, error) {
			v, err := d.ReadInt32(o)
			return uint64(uint32(v)), 0, err
		}, fix(4)},
		{"float32", 32, true, func(e *bin.Encoder, x, y uint64, o binary.ByteOrder) error {
			return e.WriteFloat32(math.Float32frombits(uint32(x)), o)
		}, func(d *bin.Decoder, o binary.ByteOrder) (uint64, uint64, error) {
			v, err := d.ReadFloat32(o)
			return uint64(math.Float32bits(v)), 0, err
		}, flo(4)},
		{"uint64", 64, true, func(e *bin.Encoder, x, y uint64, o binary.ByteOrder) error { return e.WriteUint64(x, o) }, func(d *bin.Decoder, o binary.ByteOrder) (uint64, uint64, error) {
			v, err := d.ReadUint64(o)
			return v, 0, err
		}, fix(8)},
		{"int64", 64, true, func(e *bin.Encoder, x, y uint64, o binary.ByteOrder) error { return e.WriteInt64(int64(x), o) }, func(d *bin.Decoder, o binary.ByteOrder) (uint64, uint64, error) {
			v, err := d.ReadInt64(o)
			return uint64(v), 0, err
		}, fix(8)},
		{"float64", 64, true, func(e *bin.Encoder, x, y uint64, o binary.ByteOrder) error {
			return e.WriteFloat64(math.Float64frombits(x), o)
		}, func(d *bin.Decoder, o binary.ByteOrder) (uint64, uint64, error) {
			v, err := d.ReadFloat64(o)
			return math.Float64bits(v), 0, err
		}, flo(8)},
		{"uint128", 128, true, func(e *bin.Encoder, x, y uint64, o binary.ByteOrder) error {
			return e.WriteUint128(bin.Uint128{Lo: x, Hi: y}, o)
		}, func(d *bin.Decoder, o binary.ByteOrder) (uint64, uint64, error) {
			v, err := d.ReadUint128(o)
			return v.Lo, v.Hi, err
		}, w128},
		{"int128", 128, true, func(e *bin.Encoder, x, y uint64, o binary.ByteOrder) error {
			return e.WriteInt128(bin.Int128{Lo: x, Hi: y}, o)
		}, func(d *bin.Decoder, o binary.ByteOrder) (uint64, uint64, error) {
			v, err := d.ReadInt128(o)
			return v.Lo, v.Hi, err
		}, w128},
		{"float128", 128, true, func(e *bin.Encoder, x, y uint64, o binary.ByteOrder) error {
			return e.WriteUint128(bin.Uint128{Lo: x, Hi: y}, o)
		}, func(d *bin.Decoder, o binary.ByteOrder) (uint64, uint64, error) {
			v, err := d.ReadFloat128(o)
			return v.Lo, v.Hi, err
		}, w128},
	}
}

// primCase: one value through one primitive.
func primCase(c *Ctx, p *prim, x, y uint64, big bool, enc bin.Encoding, buf *bytes.Buffer, scratch []byte) bool {
	var o binary.ByteOrder = binary.LittleEndian
	if big {
		o = binary.BigEndian
	}
	want, ok := p.bytes(x, y, big, enc)
	buf.Reset()
	e := newEncoder(enc, buf)
	err := p.write(e, x, y, o)
	c.Res.Transitions++
	if (err == nil) != ok || ok && (!bytes.Equal(buf.Bytes(), want) || e.Written() != len(want)) || !ok && buf.Len() != 0 {
		c.Fail("%s %s big=%v: write of %#x,%#x emits %x (count %d), err %v; want %x ok=%v", enc, p.name, big, x, y, buf.Bytes(), e.Written(), err, want, ok)
		return false
	}
	// read at an offset inside a larger buffer, and at the exact end
	for _, tail := range []int{0, 5} {
		in := append(append(scratch[:0], 0xEE, 0x11, 0xEE), want...)
		for i := 0; i < tail; i++ {
			in = append(in, 0x99)
		}
		d := newDecoder(enc, in)
		d.SkipBytes(3)
		gx, gy, err := p.read(d, o)
		c.Res.Transitions++
		if (err == nil) != ok || ok && (gx != x || gy != y || int(d.Position()) != 3+len(want)) {
			c.Fail("%s %s big=%v: read of %x gives %#x,%#x position %d err %v; want %#x,%#x ok=%v", enc, p.name, big, want, gx, gy, int(d.Position())-3, err, x, y, ok)
			return false
		}
	}
	c.Res.States++
	c.Res.Traces++
	return true
}

// sweep32: the 65536 values with one upper half, written by one encoder and
// read back by one decoder.
func sweep32(c *Ctx, p *prim, hi uint64, big bool, enc bin.Encoding, buf *bytes.Buffer) (good bool) {
	c.Tick()
	var o binary.ByteOrder = binary.LittleEndian
	if big {
		o = binary.BigEndian
	}
	pn := catch(func() {
		buf.Reset()
		e := newEncoder(enc, buf)
		for lo := uint64(0); lo < 1<<16; lo++ {
			if err := p.write(e, hi<<16|lo, 0, o); err != nil || e.Written() != int(lo+1)*4 {
				c.Fail("%s %s big=%v: write of %#x as number %d: error %v, count %d", enc, p.name, big, hi<<16|lo, lo, err, e.Written())
				return
			}
		}
		c.Res.Transitions += 1 << 17
		b := buf.Bytes()
		for lo := 0; lo < 1<<16; lo++ {
			w := [4]byte{byte(lo), byte(lo >> 8), byte(hi), byte(hi >> 8)}
			if big {
				w = [4]byte{w[3], w[2], w[1], w[0]}
			}
			if len(b) != 1<<18 || *(*[4]byte)(b[4*lo:]) != w {
				c.Fail("%s %s big=%v: writes of %#x.. emit %d bytes, %x at %d; want %x", enc, p.name, big, hi<<16, len(b), b[4*lo:4*lo+4], 4*lo, w)
				return
			}
		}
		d := newDecoder(enc, b)
		for lo := uint64(0); lo < 1<<16; lo++ {
			if x, _, err := p.read(d, o); err != nil || x != hi<<16|lo || int(d.Position()) != int(lo+1)*4 {
				c.Fail("%s %s big=%v: read of %x gives %#x, %v, position %d", enc, p.name, big, b[4*lo:4*lo+4], x, err, d.Position())
				return
			}
		}
		good = true
	})
	if pn != "" {
		c.Fail("%s %s big=%v values %#x..: %s", enc, p.name, big, hi<<16, pn)
	}
	c.Res.States += 1 << 16
	c.Res.Traces += 1 << 16
	return good
}

func runC07(c *Ctx) {
	// the published widths are those of the primitives
	c.Group("widths")
	if c.Next() {
		t := bin.TypeSize
		got := []int{t.Byte, t.Bool, t.Int8, t.Int16, t.Uint8, t.Uint16, t.Uint32, t.Uint64, t.Uint128, t.Float32, t.Float64}
		if want := []int{1, 1, 1, 2, 1, 2, 4, 8, 16, 4, 8}; !reflect.DeepEqual(got, want) {
			c.Fail("TypeSize (byte bool i8 i16 u8 u16 u32 u64 u128 f32 f64) is %v, the primitives take %v", got, want)
		}
	}
	var buf bytes.Buffer
	scratch := make([]byte, 0, 64)
	for _, p := range prims() {
		p := p
		for _, enc := range allEnc {
			for _, big := range []bool{false, true} {
				if big && !p.fixed {
					continue
				}
				c.Group(fmt.Sprintf("%s:%s:%v", p.name, enc, big))
				run := func(xs []uint64) {
					if !c.Next() {
						return
					}
					c.Tick()
					for _, x := range xs {
						y := uint64(0)
						if p.bits == 128 {
							y = pattern(int(x), 8)
						}
						var ok bool
						if pn := catch(func() { ok = primCase(c, &p, x, y, big, enc, &buf, scratch) }); pn != "" {
							c.Fail("%s %s big=%v value %#x panics: %s", enc, p.name, big, x, pn)
							return
						}
						if !ok {
							return
						}
					}
				}
				switch {
				case p.bits <= 16:
					var xs []uint64
					for i := uint64(0); i < 1<<p.bits; i++ {
						xs = append(xs, i)
						if len(xs) == 4096 {
							run(xs)
							xs = xs[:0]
						}
					}
					run(xs)
				case p.bits == 32:
					run(lattice(32))
					run(nanPatterns(4))
					for hi := uint64(0); hi < 1<<16; hi++ { // every upper half with boundary lower halves, and the converse
						run([]uint64{hi << 16, hi<<16 | 0xffff, hi, 0xffff0000 | hi, 0x12340000 | hi, hi<<16 | 0x5678})
					}
					if p.name == "float32" && enc == bin.EncodingBorsh { // every NaN
						for hi := uint64(0); hi < 1<<8; hi++ {
							xs := make([]uint64, 0, 1<<15)
							for lo := uint64(0); lo < 1<<15; lo++ {
								x := (hi<<15|lo)&0x7fffff | 0x7f800000
								xs = append(xs, x, x|0x80000000)
							}
							run(xs)
						}
					}
					if c.Thorough && enc == bin.EncodingBin {
						for hi := uint64(0); hi < 1<<16; hi++ {
							if c.Next() && !sweep32(c, &p, hi, big, enc, &buf) {
								return
							}
						}
					}
				case p.bits == 64:
					l := append(lattice(64), nanPatterns(8)...)
					run(l)
					for _, a := range l { // pairs of lattice points
						var xs []uint64
						for _, b := range l {
							xs = append(xs, a^b)
						}
						run(xs)
					}
				case p.bits == 128:
					l := lattice(64)
					for _, a := range l {
						if !c.Next() {
							continue
						}
						for _, b := range l {
							var ok bool
							if pn := catch(func() { ok = primCase(c, &p, a, b, big, enc, &buf, scratch) }); pn != "" || !ok {
								if pn != "" {
									c.Fail("%s %s big=%v value %#x,%#x panics: %s", enc, p.name, big, a, b, pn)
								}
								return
							}
						}
					}
				}
			}
		}
	}
	varints(c)
	stringsC07(c)
}

func nanPatterns(n int) []uint64 {
	var out []uint64
	if n == 4 {
		for i := 0; i < 23; i++ {
			out = append(out, 0x7f800000|1<<i, 0xff800000|1<<i, 0x7fc00000|1<<i)
		}
		return append(out, 0x7f800000, 0xff800000, 0x80000000, 1, 0x80000001, 0x7fffffff)
	}
	for i := 0; i < 52; i++ {
		out = append(out, 0x7ff0000000000000|1<<i, 0xfff0000000000000|1<<i, 0x7ff8000000000000|1<<i)
	}
	return append(out, 0x7ff0000000000000, 0xfff0000000000000, 1<<63, 1, 1<<63|1, math.MaxUint64>>1)
}

func varints(c *Ctx) {
	var vs []uint64
	seen := map[uint64]bool{}
	add := func(x uint64) {
		if !seen[x] {
			seen[x] = true
			vs = append(vs, x)
		}
	}
	n := 70000
	if c.Thorough {
		n = 3 << 20
	}
	for i := 0; i < n; i++ {
		add(uint64(i))
		add(uint64(-i))
	}
	for _, x := range lattice(64) {
		add(x)
	}
	for i := 7; i < 64; i += 7 {
		for d := -3; d <= 3; d++ {
			add(uint64(1)<<i + uint64(d))
			add(-(uint64(1) << i) + uint64(d))
			add(uint64(1)<<(i-1) + uint64(d))
			add(-(uint64(1) << (i - 1)) + uint64(d))
		}
	}
	for _, enc := range allEnc {
		c.Group("varint:" + enc.String())
		for i := 0; i < len(vs); i += 500 {
			if !c.Next() {
				continue
			}
			for j := i; j < i+500 && j < len(vs); j++ {
				if !varintCase(c, vs[j], enc) {
					return
				}
			}
		}
	}
}

func varintCase(c *Ctx, x uint64, enc bin.Encoding) bool {
	ok := true
	p := catch(func() {
		var buf bytes.Buffer
		e := newEncoder(enc, &buf)
		w := &W{}
		w.leb(x)
		if err := e.WriteUVarInt(int(x)); err != nil || !bytes.Equal(buf.Bytes(), w.out) || e.Written() != len(w.out) {
			c.Fail("%s WriteUVarInt(%d) = %x, %v; want %x", enc, int(x), buf.Bytes(), err, w.out)
			ok = false
			return
		}
		ub := append([]byte{}, w.out...)
		buf.Reset()
		w.out = w.out[:0]
		w.leb(zigzag(int64(x)))
		if err := e.WriteVarInt(int(x)); err != nil || !bytes.Equal(buf.Bytes(), w.out) {
			c.Fail("%s WriteVarInt(%d) = %x, %v; want %x", enc, int(x), buf.Bytes(), err, w.out)
			ok = false
			return
		}
		sb := w.out
		s := int64(x)
		chk := func(name string, in []byte, fits bool, want uint64, f func(d *bin.Decoder) (uint64, error)) {
			for _, tail := range []string{"", "\x81\x80"} {
				d := newDecoder(enc, append(append([]byte{0x80}, in...), tail...))
				d.SkipBytes(1)
				got, err := f(d)
				c.Res.Transitions++
				if (err == nil) != fits || fits && (got != want || int(d.Position()) != 1+len(in)) {
					c.Fail("%s %s of %x (value %d / %d) = %d, %v, position %d; must fit=%v", enc, name, in, x, s, got, err, int(d.Position())-1, fits)
					ok = false
				}
			}
		}
		chk("ReadUvarint64", ub, true, x, func(d *bin.Decoder) (uint64, error) { return d.ReadUvarint64() })
		chk("ReadUvarint32", ub, x <= math.MaxUint32, x, func(d *bin.Decoder) (uint64, error) { v, e := d.ReadUvarint32(); return uint64(v), e })
		chk("ReadUvarint16", ub, x <= math.MaxUint16, x, func(d *bin.Decoder) (uint64, error) { v, e := d.ReadUvarint16(); return uint64(v), e })
		chk("ReadVarint64", sb, true, uint64(s), func(d *bin.Decoder) (uint64, error) { v, e := d.ReadVarint64(); return uint64(v), e })
		chk("ReadVarint32", sb, s == int64(int32(s)), uint64(s), func(d *bin.Decoder) (uint64, error) { v, e := d.ReadVarint32(); return uint64(int64(v)), e })
		chk("ReadVarint16", sb, s == int64(int16(s)), uint64(s), func(d *bin.Decoder) (uint64, error) { v, e := d.ReadVarint16(); return uint64(int64(v)), e })
		// the library's variable-length types
		chk("Varuint32", ub, x <= math.MaxUint32, x, func(d *bin.Decoder) (uint64, error) { var v bin.Varuint32; e := d.Decode(&v); return uint64(v), e })
		chk("Varuint16", ub, x <= math.MaxUint16, x, func(d *bin.Decoder) (uint64, error) { var v bin.Varuint16; e := d.Decode(&v); return uint64(v), e })
		chk("Varint32", sb, s == int64(int32(s)), uint64(s), func(d *bin.Decoder) (uint64, error) {
			var v bin.Varint32
			e := d.Decode(&v)
			return uint64(int64(v)), e
		})
		chk("Varint16", sb, s == int64(int16(s)), uint64(s), func(d *bin.Decoder) (uint64, error) {
			var v bin.Varint16
			e := d.Decode(&v)
			return uint64(int64(v)), e
		})
	})
	if p != "" {
		c.Fail("%s varint %d panics: %s", enc, int64(x), p)
		return false
	}
	c.Res.States++
	c.Res.Traces++
	return ok
}

func stringsC07(c *Ctx) {
	var ss []string
	ss = append(ss, "", "a", "\x00", "\xff", "\xc3\xa9", "\xc3", "€", "\U0001F600", "\xed\xa0\x80", "a\xffb", "\uFFFD", "\xf4\x90\x80\x80", "\xc0\x80", "e\u0301", "\xef\xbb\xbfx")
	// all strings of up to 3 bytes over an UTF-8 boundary alphabet
	al := "\x00a\x7f\x80\xa9\xbf\xc3\xe2\x82\xed\xf0\x9f\xff"
	for i := 0; i < len(al); i++ {
		for j := 0; j < len(al); j++ {
			ss = append(ss, al[i:i+1]+al[j:j+1])
			for k := 0; k < len(al); k++ {
				ss = append(ss, al[i:i+1]+al[j:j+1]+al[k:k+1])
			}
		}
	}
	for _, n := range []int{126, 127, 128, 129, 255, 256, 257, 1000, 16383, 16384, 65535} {
		ss = append(ss, fill(n, n))
	}
	for _, n := range []int{4, 8, 16, 31, 32, 33, 64, 127, 128, 129, 200, 300} { // one odd byte sequence in every place
		for p := 0; p < n; p++ {
			for _, x := range []string{"\xff", "\xc3", "é"} {
				ss = append(ss, fill(p, n)+x+fill(n-1-p, n))
			}
		}
	}
	long := []string{fill(65536, 1), fill(70000, 2)}
	type sp struct {
		name  string
		write func(e *bin.Encoder, s string) error
		read  func(d *bin.Decoder, s string) (string, error)
		pre   func(w *W, n int)
		post  func(string) string
	}
	id := func(s string) string { return s }
	pl := func(w *W, n int) { w.length(n) }
	no := func(w *W, n int) {}
	sps := []sp{
		{"String", func(e *bin.Encoder, s string) error { return e.WriteString(s) }, func(d *bin.Decoder, s string) (string, error) { return d.ReadString() }, pl, id},
		{"SafeUTF8", func(e *bin.Encoder, s string) error { return e.WriteString(s) }, func(d *bin.Decoder, s string) (string, error) { return d.SafeReadUTF8String() }, pl, func(s string) string { return refSafe([]byte(s)) }},
		{"RustString", func(e *bin.Encoder, s string) error { return e.WriteRustString(s) }, func(d *bin.Decoder, s string) (string, error) { return d.ReadRustString() }, func(w *W, n int) { w.uN(uint64(n), 8, false) }, id},
		{"Bytes+len", func(e *bin.Encoder, s string) error { return e.WriteBytes([]byte(s), true) }, func(d *bin.Decoder, s string) (string, error) { b, err := d.ReadByteSlice(); return string(b), err }, pl, id},
		{"Bytes", func(e *bin.Encoder, s string) error { return e.WriteBytes([]byte(s), false) }, func(d *bin.Decoder, s string) (string, error) { b, err := d.ReadNBytes(len(s)); return string(b), err }, no, id},
		{"Write/Read", func(e *bin.Encoder, s string) error {
			n, err := e.Write([]byte(s))
			if err == nil && n != len(s) {
				return fmt.Errorf("Write returned %d", n)
			}
			return err
		}, func(d *bin.Decoder, s string) (string, error) {
			b := make([]byte, len(s))
			n, err := d.Read(b)
			return string(b[:n]), err
		}, no, id},
		{"Length", func(e *bin.Encoder, s string) error { return e.WriteLength(len(s)) }, func(d *bin.Decoder, s string) (string, error) {
			n, err := d.ReadLength()
			if n != len(s) {
				return "wrong length", err
			}
			return s, err
		}, pl, id},
	}
	for _, p := range sps {
		for _, enc := range allEnc {
			c.Group("str:" + p.name + ":" + enc.String())
			dom := ss
			if enc != bin.EncodingCompactU16 {
				dom = append(append([]string{}, ss...), long...)
			}
			for _, s := range dom {
				if !c.Next() {
					continue
				}
				var buf bytes.Buffer
				var err error
				e := newEncoder(enc, &buf)
				pn := catch(func() { err = p.write(e, s) })
				w := &W{enc: enc}
				p.pre(w, len(s))
				if p.name != "Length" {
					w.out = append(w.out, s...)
				}
				c.Res.Transitions++
				if pn != "" || err != nil || !bytes.Equal(buf.Bytes(), w.out) || e.Written() != len(w.out) {
					c.Fail("%s write %s of %q: %s, %v %s; want %s", enc, p.name, clip(s, 60), hx(buf.Bytes()), err, pn, hx(w.out))
					continue
				}
				for _, tail := range []string{"", "\x01zz"} {
					d := newDecoder(enc, append(append([]byte{7}, w.out...), tail...))
					d.SkipBytes(1)
					var got string
					pn = catch(func() { got, err = p.read(d, s) })
					c.Res.Transitions++
					if pn != "" || err != nil || got != p.post(s) || int(d.Position()) != 1+len(w.out) {
						c.Fail("%s read %s of %q: %q, %v %s position %d", enc, p.name, clip(s, 60), clip(got, 60), err, pn, d.Position())
					}
				}
				// the same after other output
				for _, k := range []int{1, 100, 1000} {
					if len(s) > 300 && k == 100 {
						continue
					}
					var buf bytes.Buffer
					e := newEncoder(enc, &buf)
					pn := catch(func() {
						if err = e.WriteBytes(make([]byte, k), false); err == nil {
							err = p.write(e, s)
						}
					})
					c.Res.Transitions++
					if pn != "" || err != nil || buf.Len() < k || !bytes.Equal(buf.Bytes()[k:], w.out) || e.Written() != k+len(w.out) {
						c.Fail("%s write %s of %q after %d bytes: %s, %v %s; want %s", enc, p.name, clip(s, 60), k, hx(buf.Bytes()), err, pn, hx(w.out))
						break
					}
				}
				c.Res.States++
				c.Res.Traces++
			}
		}
	}
	// lengths far beyond what is worth filling
	for _, enc := range allEnc {
		c.Group("length:" + enc.String())
		for _, x := range lattice(31) {
			n := int(x & 0x7fffffff)
			if enc == bin.EncodingCompactU16 {
				n &= 0xffff
			}
			if !c.Next() {
				continue
			}
			var buf bytes.Buffer
			var err error
			var got int
			e := newEncoder(enc, &buf)
			w := &W{enc: enc}
			w.length(n)
			pn := catch(func() { err = e.WriteLength(n) })
			c.Res.Transitions += 2
			c.Res.States++
			c.Res.Traces++
			if pn != "" || err != nil || !bytes.Equal(buf.Bytes(), w.out) {
				c.Fail("%s WriteLength(%d): %s, %v %s; want %s", enc, n, hx(buf.Bytes()), err, pn, hx(w.out))
				continue
			}
			d := newDecoder(enc, append(append([]byte{}, w.out...), 1, 2))
			pn = catch(func() { got, err = d.ReadLength() })
			if pn != "" || err != nil || got != n || int(d.Position()) != len(w.out) {
				c.Fail("%s ReadLength of %s: %d, %v %s", enc, hx(w.out), got, err, pn)
			}
		}
	}
	c.Sample("strings over %q, lengths to 65535", strings.ToValidUTF8(al, "?"))
}
