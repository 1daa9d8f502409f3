package main

import (
	"bytes"
	"io"
	"math"
	"reflect"

	bin "github.com/gagliardetto/binary"
)

func init() {
	register("C05", &Check{Level: "model_checking",
		Rule:        "state = one integer or one byte string; transition = one library encode/decode step compared with the reference bijection; trace = one complete encode (or decode) of an integer (or string) through every entry point",
		Assumptions: []string{"integers -300000..5000000 (thorough -2e7..6e7) and word boundaries; all byte strings of length 0..3; length 4 over a 16-byte alphabet", "a stream decoder cannot un-read, so 'nothing consumed' is checked on the slice and decoder forms"},
		Promote:     true,
		Run:         runC05})
}

// refCompactEnc: written from the format description, not from the library.
func refCompactEnc(n int) []byte {
	switch {
	case n < 0 || n > 65535:
		return nil
	case n < 1<<7:
		return []byte{byte(n)}
	case n < 1<<14:
		return []byte{byte(n%128 + 128), byte(n / 128)}
	}
	return []byte{byte(n%128 + 128), byte(n/128%128 + 128), byte(n / 16384)}
}

func c05Int(c *Ctx, n int) {
	want := refCompactEnc(n)
	ok := want != nil
	// free function, appending to existing content with and without spare capacity
	for i, pre := range [][]byte{nil, {}, {0xAA, 0xBB}, append(make([]byte, 0, 64), 0xCC)} {
		buf := pre[:len(pre):cap(pre)]
		var err error
		p := catch(func() { err = bin.EncodeCompactU16Length(&buf, n) })
		c.Res.Transitions++
		exp := append(append([]byte{}, pre...), want...)
		if p != "" || (err == nil) != ok || !bytes.Equal(buf, exp) {
			c.Fail("EncodeCompactU16Length(buf%d %x, %d) = %x, %v %s; want %x ok=%v", i, pre, n, buf, err, p, exp, ok)
			return
		}
	}
	type wf struct {
		name string
		f    func(e *bin.Encoder) error
	}
	for _, w := range []wf{
		{"WriteCompactU16", func(e *bin.Encoder) error { return e.WriteCompactU16(n) }},
		{"WriteCompactU16Length", func(e *bin.Encoder) error { return e.WriteCompactU16Length(n) }},
		{"WriteLength", func(e *bin.Encoder) error { return e.WriteLength(n) }},
	} {
		var out bytes.Buffer
		e := bin.NewCompactU16Encoder(&out)
		var err error
		p := catch(func() { err = w.f(e) })
		c.Res.Transitions++
		if p != "" || (err == nil) != ok || !bytes.Equal(out.Bytes(), want) || e.Written() != len(want) {
			c.Fail("%s(%d) wrote %x (count %d), err %v %s; want %x ok=%v", w.name, n, out.Bytes(), e.Written(), err, p, want, ok)
			return
		}
		if w.name != "WriteLength" { // same bytes whatever the encoding of the encoder
			for _, enc := range allEnc {
				out.Reset()
				e := newEncoder(enc, &out)
				p := catch(func() { err = w.f(e) })
				if p != "" || (err == nil) != ok || !bytes.Equal(out.Bytes(), want) {
					c.Fail("%s(%d) on a %s encoder wrote %x, err %v %s; want %x ok=%v", w.name, n, enc, out.Bytes(), err, p, want, ok)
					return
				}
			}
		}
	}
	if ok {
		c05Bytes(c, want)
	}
	c.Res.States++
	c.Res.Traces++
}

type countReader struct {
	b   []byte
	pos int
	err error // at end
}

func (r *countReader) ReadByte() (byte, error) {
	if r.pos >= len(r.b) {
		return 0, r.err
	}
	r.pos++
	return r.b[r.pos-1], nil
}

// c05Bytes: all decoders on one string.
func c05Bytes(c *Ctx, b []byte) bool {
	val, size, ok := refCompact(b)
	bad := func(how string, v, n int, err error, p string) bool {
		c.Fail("%s on %x: value %d consumed %d err %v %s; format says value %d size %d valid %v", how, b, v, n, err, p, val, size, ok)
		return false
	}
	var v, n int
	var err error
	p := catch(func() { v, n, err = bin.DecodeCompactU16(b) })
	if p != "" || (err == nil) != ok || v != val || n != size {
		return bad("DecodeCompactU16", v, n, err, p)
	}
	r := &countReader{b: b, err: io.EOF}
	p = catch(func() { v, err = bin.DecodeCompactU16LengthFromByteReader(r) })
	if p != "" || (err == nil) != ok || ok && (v != val || r.pos != size) || !ok && v != 0 {
		return bad("DecodeCompactU16LengthFromByteReader", v, r.pos, err, p)
	}
	d := bin.NewCompactU16Decoder(b)
	p = catch(func() { v, err = d.ReadCompactU16() })
	if p != "" || (err == nil) != ok || v != val || int(d.Position()) != size {
		return bad("ReadCompactU16", v, int(d.Position()), err, p)
	}
	d.Reset(b)
	p = catch(func() { v, err = d.ReadCompactU16Length() })
	if p != "" || (err == nil) != ok || v != val || int(d.Position()) != size {
		return bad("ReadCompactU16Length", v, int(d.Position()), err, p)
	}
	d.Reset(b)
	p = catch(func() { v, err = d.ReadLength() })
	if p != "" || (err == nil) != ok || v != val || int(d.Position()) != size {
		return bad("ReadLength", v, int(d.Position()), err, p)
	}
	c.Res.Transitions += 5
	return true
}

// c05Prefixed: readers and writers of length-prefixed data.
func c05Prefixed(c *Ctx, prefix []byte, ts []*T) {
	val, size, ok := refCompact(prefix)
	var data []byte
	if ok {
		data = append(append([]byte{}, prefix[:size]...), make([]byte, val)...)
	} else {
		data = append(append([]byte{}, prefix...), 0, 0, 0, 0, 0)
		if v2, _, ok2 := refCompact(data); ok2 && len(prefix) < 3 {
			_ = v2
			return // the filler completed it: covered elsewhere
		}
	}
	d := bin.NewCompactU16Decoder(data)
	var got []byte
	var err error
	p := catch(func() { got, err = d.ReadByteSlice() })
	c.Res.Transitions++
	if p != "" || (err == nil) != ok || ok && (len(got) != val || int(d.Position()) != len(data)) || !ok && d.Position() != 0 {
		c.Fail("ReadByteSlice on prefix %x: %d bytes, position %d, err %v %s; format says length %d valid %v", prefix, len(got), d.Position(), err, p, val, ok)
		return
	}
	for _, t := range ts {
		out := reflect.New(t.RT)
		pos, err, p := decodePos(bin.EncodingCompactU16, out.Interface(), data)
		c.Res.Transitions++
		if p != "" || (err == nil) != ok || ok && (out.Elem().Len() != val || pos != len(data)) || !ok && pos != 0 {
			c.Fail("decoding %s with length prefix %x: length %d position %d err %v %s; format says length %d valid %v", t.Name, prefix, out.Elem().Len(), pos, err, p, val, ok)
			return
		}
	}
	c.Res.States++
	c.Res.Traces++
}

func runC05(c *Ctx) {
	c.Group("int")
	lo, hi := -70000, 140000
	if c.Thorough {
		lo, hi = -300000, 5000000
	}
	if c.Extra {
		lo, hi = -20000000, 60000000
	}
	for n := lo; n <= hi; n += 250 {
		if c.Next() {
			for k := n; k < n+250; k++ {
				c05Int(c, k)
			}
		}
	}
	c.Group("intbound")
	for i := 17; i < 64; i++ {
		for d := -2; d <= 2; d++ {
			if c.Next() {
				c05Int(c, 1<<i+d)
				c05Int(c, -(1<<i)+d)
				c05Int(c, 1<<i+65535+d)
				c05Int(c, 1<<i|127)
			}
		}
	}
	if c.Next() {
		c05Int(c, math.MaxInt)
		c05Int(c, math.MinInt)
		c05Int(c, math.MaxInt32)
		c05Int(c, math.MinInt32)
	}
	// appended to content of every length up to 300, with every spare capacity up to 4
	c.Group("append")
	for pl := 0; pl <= 300; pl++ {
		if !c.Next() {
			continue
		}
		for spare := 0; spare <= 4; spare++ {
			for _, n := range []int{-1, 0, 1, 127, 128, 129, 255, 256, 16383, 16384, 16385, 32768, 65534, 65535, 65536} {
				pre := fillAny(pl, n)
				buf := append(make([]byte, 0, pl+spare), pre...)
				want := append(append([]byte{}, pre...), refCompactEnc(n)...)
				var err error
				p := catch(func() { err = bin.EncodeCompactU16Length(&buf, n) })
				c.Res.Transitions++
				if p != "" || (err == nil) != (refCompactEnc(n) != nil) || !bytes.Equal(buf, want) {
					c.Fail("EncodeCompactU16Length on a buffer of %d bytes (capacity %d), %d: %s, %v %s; want %s", pl, pl+spare, n, hx(buf), err, p, hx(want))
					return
				}
				// the same behind what an encoder has already written
				var out bytes.Buffer
				e := bin.NewCompactU16Encoder(&out)
				p = catch(func() { e.WriteBytes(pre, false); err = e.WriteCompactU16Length(n) })
				if p != "" || (err == nil) != (refCompactEnc(n) != nil) || !bytes.Equal(out.Bytes(), want) || e.Written() != len(want) {
					c.Fail("WriteCompactU16Length(%d) behind %d bytes: %s (count %d), %v %s; want %s", n, pl, hx(out.Bytes()), e.Written(), err, p, hx(want))
					return
				}
				if len(want) == pl {
					continue
				}
				// and read back behind them
				d := bin.NewCompactU16Decoder(want)
				d.SkipBytes(uint(pl))
				var got int
				p = catch(func() { got, err = d.ReadCompactU16Length() })
				if p != "" || err != nil || got != n || int(d.Position()) != len(want) {
					c.Fail("ReadCompactU16Length of %d behind %d bytes: %d, position %d, %v %s", n, pl, got, d.Position(), err, p)
					return
				}
				c.Res.States++
				c.Res.Traces++
			}
		}
	}
	c.Group("str3")
	for i := 0; i < 256; i++ {
		if !c.Next() {
			continue
		}
		if i == 0 {
			c05Bytes(c, nil)
			c05Bytes(c, []byte{})
		}
		c05Bytes(c, []byte{byte(i)})
		b := [3]byte{byte(i)}
		for j := 0; j < 256; j++ {
			b[1] = byte(j)
			if !c05Bytes(c, b[:2:2]) {
				return
			}
			for k := 0; k < 256; k++ {
				b[2] = byte(k)
				if !c05Bytes(c, b[:]) {
					return
				}
			}
			c.Tick()
		}
		c.Res.States += 1 + 256 + 65536
		c.Res.Traces += 1 + 256 + 65536
	}
	c.Group("str4")
	al := []byte{0, 1, 2, 3, 4, 5, 0x3f, 0x40, 0x7e, 0x7f, 0x80, 0x81, 0x83, 0x84, 0xfe, 0xff}
	for _, a := range al {
		if !c.Next() {
			continue
		}
		for _, b := range al {
			for _, d := range al {
				for _, e := range al {
					c05Bytes(c, []byte{a, b, d, e})
					c.Res.States++
					c.Res.Traces++
				}
			}
		}
	}
	ts := []*T{tHex, SliceT(tU8), SliceT(tNU8), tStr, tSafeStr}
	big := []*T{SliceT(tBool), SliceT(tI8), tHex}
	c.Group("prefixed")
	for i := 0; i < 256; i++ {
		if c.Next() {
			c05Prefixed(c, []byte{byte(i)}, append(ts, big...))
		}
		for j := 0; j < 256; j++ {
			if c.Next() {
				c05Prefixed(c, []byte{byte(i), byte(j)}, ts)
			}
		}
	}
	for _, a := range al {
		for _, b := range al {
			for k := 0; k < 256; k++ {
				if c.Next() {
					c05Prefixed(c, []byte{a, b, byte(k)}, ts)
				}
			}
		}
	}
	// length-prefixed writers around the limit
	c.Group("writers")
	for _, n := range []int{0, 1, 2, 126, 127, 128, 129, 16382, 16383, 16384, 16385, 65534, 65535, 65536, 65537, 65663, 70000, 131072, 131073, 196608} {
		for _, t := range []*T{tHex, SliceT(tU8), SliceT(tU16), SliceT(tBool), tStr, tSafeStr, SliceT(S(tU8)), SliceT(tStr)} {
			if !c.Next() {
				continue
			}
			v := sizedVal(t, n)
			var out bytes.Buffer
			e := bin.NewCompactU16Encoder(&out)
			var err error
			p := catch(func() { err = e.Encode(v.Interface()) })
			c.Res.Transitions++
			want := refCompactEnc(n)
			if p != "" || (err == nil) != (want != nil) || want != nil && !bytes.HasPrefix(out.Bytes(), want) || want == nil && out.Len() != 0 {
				c.Fail("encoding %s of length %d: err %v %s, %d bytes written", t.Name, n, err, p, out.Len())
			}
			c.Res.States++
			c.Res.Traces++
		}
		if c.Next() {
			var out bytes.Buffer
			e := bin.NewCompactU16Encoder(&out)
			b := make([]byte, n)
			want := refCompactEnc(n)
			for k, f := range map[string]func() error{"WriteBytes": func() error { return e.WriteBytes(b, true) }, "WriteString": func() error { return e.WriteString(string(b)) }} {
				out.Reset()
				err := f()
				if (err == nil) != (want != nil) || want == nil && out.Len() != 0 || want != nil && !bytes.Equal(out.Bytes(), append(want, b...)) {
					c.Fail("%s of %d bytes: err %v, %d bytes written", k, n, err, out.Len())
				}
				c.Res.Transitions++
			}
		}
		if c.Next() {
			m := map[uint32]bool{}
			for i := 0; i < n; i++ {
				m[uint32(i)] = true
			}
			var out bytes.Buffer
			e := bin.NewCompactU16Encoder(&out)
			var err error
			p := catch(func() { err = e.Encode(m) })
			want := refCompactEnc(n)
			c.Res.Transitions++
			if p != "" || (err == nil) != (want != nil) || want == nil && out.Len() != 0 || want != nil && (!bytes.HasPrefix(out.Bytes(), want) || out.Len() != len(want)+5*n) {
				c.Fail("encoding a map of %d entries: err %v %s, %d bytes written", n, err, p, out.Len())
			}
		}
	}
	c.Sample("65535 -> %x; ffff04 rejected", refCompactEnc(65535))
}
