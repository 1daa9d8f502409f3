package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"reflect"

	bin "github.com/gagliardetto/binary"
)

func init() {
	register("C08", &Check{Level: "model_checking",
		Rule:        "state = distinct (type, encoding, value, fault kind, fault point); transition = one library write call observed by the faulty writer; trace = one encode run under one injected fault",
		Assumptions: []string{"single faults: permanent failure at each write call, permanent failure at each byte offset (partial acceptance), transient failure at each call, failure after full acceptance at each call, a short write (with and without an error) at each call; each again with a second fault kind on primitive writers", "encodes with more than 700 write calls or bytes are faulted at the first and last 80 points and around the multiples of 64 (1024 from 20000 on)"},
		Run:         runC08})
}

var errDisk = errors.New("injected write failure")

type faultKind int

const (
	failCall  faultKind = iota // from call k on, nothing is accepted
	failByte                   // k bytes in total are accepted
	transient                  // call k fails, later calls succeed
	fullError                  // call k accepts everything and still fails; later calls succeed
	halfOnce                   // call k accepts half and fails; later calls succeed
	shortNil                   // call k accepts half and reports no error; later calls succeed
	nFaults
)

var faultNames = []string{"permanent failure at call", "failure at byte", "transient failure at call", "error after full write at call", "transient partial write at call", "short write without an error at call"}

type faultyWriter struct {
	kind  faultKind
	k     int
	calls int
	got   []byte
	fired bool
}

func (w *faultyWriter) Write(b []byte) (int, error) {
	i := w.calls
	w.calls++
	switch w.kind {
	case failCall:
		if i >= w.k {
			w.fired = true
			return 0, errDisk
		}
	case failByte:
		if len(w.got)+len(b) > w.k {
			n := w.k - len(w.got)
			if n < 0 {
				n = 0
			}
			w.got = append(w.got, b[:n]...)
			w.fired = true
			return n, errDisk
		}
	case transient:
		if i == w.k {
			w.fired = true
			return 0, errDisk
		}
	case fullError:
		if i == w.k {
			w.fired = true
			w.got = append(w.got, b...)
			return len(b), errDisk
		}
	case halfOnce:
		if i == w.k {
			w.fired = true
			w.got = append(w.got, b[:len(b)/2]...)
			return len(b) / 2, errDisk
		}
	case shortNil:
		if i == w.k && len(b) > 0 {
			w.fired = true
			w.got = append(w.got, b[:len(b)/2]...)
			return len(b) / 2, nil
		}
	}
	w.got = append(w.got, b...)
	return len(b), nil
}

type callCounter struct {
	n   int
	out bytes.Buffer
}

func (w *callCounter) Write(b []byte) (int, error) { w.n++; return w.out.Write(b) }

// faultRun encodes with one fault; full(guide) gives the undisturbed bytes.
func faultRun(c *Ctx, what func() string, enc bin.Encoding, do func(e *bin.Encoder) error, full func(guide []byte) []byte, kind faultKind, k int) bool {
	w := &faultyWriter{kind: kind, k: k}
	e := bin.NewEncoderWithEncoding(w, enc)
	var err error
	p := catch(func() { err = do(e) })
	c.Res.Transitions += int64(w.calls)
	c.Res.Traces++
	d := func() string { return fmt.Sprintf("%s %s, %s %d", enc, what(), faultNames[kind], k) }
	switch {
	case p != "":
		c.Fail("%s: panics: %s", d(), p)
	case w.fired && err == nil:
		c.Fail("%s: the encode call reports success; writer has %s", d(), hx(w.got))
	case e.Written() != len(w.got):
		c.Fail("%s: Written() = %d, the writer accepted %d bytes", d(), e.Written(), len(w.got))
	default:
		ref := full(w.got)
		if !w.fired {
			if err != nil || !bytes.Equal(ref, w.got) {
				c.Fail("%s: fault never met, yet %v %s", d(), err, hx(w.got))
				return false
			}
			return true
		}
		if !bytes.HasPrefix(ref, w.got) {
			c.Fail("%s: writer accepted %s, not a prefix of %s", d(), hx(w.got), hx(ref))
			return false
		}
		return true
	}
	return false
}

// points: fault points 0..n-1; when n is large both ends and the
// neighbourhoods of the multiples of 64.
func points(n, all int) []int {
	var out []int
	for i := 0; i < n; i++ {
		if n > all && i > 80 && i < n-80 {
			if m := i % 64; (m > 1 && m < 63) || (n > 20000 && i%1024 > 1 && i%1024 < 1023) {
				continue
			}
		}
		out = append(out, i)
	}
	return out
}

func faults(c *Ctx, what func() string, enc bin.Encoding, do func(e *bin.Encoder) error, full func([]byte) []byte) bool {
	cc := &callCounter{}
	e := bin.NewEncoderWithEncoding(cc, enc)
	var err error
	p := catch(func() { err = do(e) })
	if p != "" || err != nil {
		return true // C01's business
	}
	if !bytes.Equal(full(cc.out.Bytes()), cc.out.Bytes()) {
		c.Fail("%s %s: undisturbed encode gives %s, expected %s", enc, what(), hx(cc.out.Bytes()), hx(full(cc.out.Bytes())))
		return false
	}
	for _, kind := range []faultKind{failCall, transient, fullError, halfOnce, shortNil} {
		for _, k := range points(cc.n, 700) {
			if !faultRun(c, what, enc, do, full, kind, k) {
				return false
			}
			c.State(hash(what(), enc.String(), string(cc.out.Bytes()[:min(cc.out.Len(), 500)]), fmt.Sprint(kind, k)))
		}
	}
	for _, k := range points(cc.out.Len()+1, 700) {
		if !faultRun(c, what, enc, do, full, failByte, k) {
			return false
		}
		c.State(hash(what(), enc.String(), string(cc.out.Bytes()[:min(cc.out.Len(), 500)]), fmt.Sprint("b", k)))
	}
	c.MaxOf("write_calls", int64(cc.n))
	return true
}

func runC08(c *Ctx) {
	max := 3
	if c.Thorough {
		max = 60
	}
	run := func(t *T, v reflect.Value, encs []bin.Encoding) {
		c.Tick()
		for _, enc := range encs {
			if !refOK(t, v, enc) {
				continue
			}
			enc := enc
			ok := faults(c, func() string { return t.Name + " " + show(v) }, enc, func(e *bin.Encoder) error { return e.Encode(v.Interface()) },
				func(g []byte) []byte { r, _, _ := refEncode(t, v, enc, nonNil(g)); return r })
			if !ok {
				return
			}
		}
	}
	corpusCapped(c, max, map[string]bool{"leaf": true, "cont": true, "key": true, "static": true, "deep2": true, "deep3": true, "tag": true, "enum": true, "pair": c.Thorough}, run)
	for _, t := range extTypes() {
		c.Group("ext:" + clip(t.Name, 120))
		for _, v := range vals(t, 0, 1) {
			if c.Next() {
				run(t, v, allEnc)
			}
		}
	}
	// long encodes: every write call still matters
	for _, t := range []*T{tStr, tHex, SliceT(tU8), SliceT(tNU8), SliceT(tU16), SliceT(tU32), SliceT(tU64), SliceT(tI32), SliceT(tBool), SliceT(tStr), SliceT(S(tU8, tVarint32)), MapT(tStr, tU8), MapT(tU32, tU64)} {
		c.Group("long:" + t.Name)
		for _, n := range []int{50, 130, 300, 600, 1100} {
			if c.Next() {
				if t.K == KMap {
					v := reflect.MakeMap(t.RT)
					for i := 0; i < n; i++ {
						if t.Key.K == KStr {
							v.SetMapIndex(reflect.ValueOf(fmt.Sprint(i)), reflect.ValueOf(byte(i)))
						} else {
							v.SetMapIndex(reflect.ValueOf(uint32(i*77)), reflect.ValueOf(uint64(i)))
						}
					}
					run(t, addressable(v), allEnc)
					continue
				}
				run(t, sizedVal(t, n), allEnc)
			}
		}
	}
	// very long ones, in case output is chunked
	for _, t := range []*T{tStr, tHex, SliceT(tU8), SliceT(tU16), SliceT(tU32), SliceT(tU64), SliceT(tI64)} {
		c.Group("vlong:" + t.Name)
		for _, n := range []int{5000, 20000} {
			if c.Next() {
				run(t, sizedVal(t, n), allEnc)
			}
		}
	}
	// every primitive writer
	le, beo := binary.ByteOrder(binary.LittleEndian), binary.ByteOrder(binary.BigEndian)
	_ = le
	type pw struct {
		name string
		f    func(e *bin.Encoder) error
	}
	ps := []pw{
		{"WriteByte", func(e *bin.Encoder) error { return e.WriteByte(7) }},
		{"WriteBool", func(e *bin.Encoder) error { return e.WriteBool(true) }},
		{"WriteOption", func(e *bin.Encoder) error { return e.WriteOption(true) }},
		{"WriteCOption", func(e *bin.Encoder) error { return e.WriteCOption(true) }},
		{"WriteUint8", func(e *bin.Encoder) error { return e.WriteUint8(7) }},
		{"WriteInt8", func(e *bin.Encoder) error { return e.WriteInt8(-7) }},
		{"WriteUint16", func(e *bin.Encoder) error { return e.WriteUint16(7, beo) }},
		{"WriteInt16", func(e *bin.Encoder) error { return e.WriteInt16(7, le) }},
		{"WriteUint32", func(e *bin.Encoder) error { return e.WriteUint32(7, beo) }},
		{"WriteInt32", func(e *bin.Encoder) error { return e.WriteInt32(7, le) }},
		{"WriteUint64", func(e *bin.Encoder) error { return e.WriteUint64(7, beo) }},
		{"WriteInt64", func(e *bin.Encoder) error { return e.WriteInt64(7, le) }},
		{"WriteUint128LE", func(e *bin.Encoder) error { return e.WriteUint128(bin.Uint128{Lo: 1, Hi: 2}, le) }},
		{"WriteUint128BE", func(e *bin.Encoder) error { return e.WriteUint128(bin.Uint128{Lo: 1, Hi: 2}, beo) }},
		{"WriteInt128LE", func(e *bin.Encoder) error { return e.WriteInt128(bin.Int128{Lo: 1, Hi: 2}, le) }},
		{"WriteInt128BE", func(e *bin.Encoder) error { return e.WriteInt128(bin.Int128{Lo: 1, Hi: 2}, beo) }},
		{"WriteFloat32", func(e *bin.Encoder) error { return e.WriteFloat32(1.5, le) }},
		{"WriteFloat64", func(e *bin.Encoder) error { return e.WriteFloat64(1.5, beo) }},
		{"WriteString", func(e *bin.Encoder) error { return e.WriteString("hello") }},
		{"WriteRustString", func(e *bin.Encoder) error { return e.WriteRustString("hello") }},
		{"WriteBytes+len", func(e *bin.Encoder) error { return e.WriteBytes([]byte("hello"), true) }},
		{"WriteBytes", func(e *bin.Encoder) error { return e.WriteBytes([]byte("hello"), false) }},
		{"Write", func(e *bin.Encoder) error { _, err := e.Write([]byte("hello")); return err }},
		{"WriteLength", func(e *bin.Encoder) error { return e.WriteLength(300) }},
		{"WriteUVarInt", func(e *bin.Encoder) error { return e.WriteUVarInt(1 << 40) }},
		{"WriteVarInt", func(e *bin.Encoder) error { return e.WriteVarInt(-1 << 40) }},
		{"WriteCompactU16", func(e *bin.Encoder) error { return e.WriteCompactU16(40000) }},
		{"WriteCompactU16Length", func(e *bin.Encoder) error { return e.WriteCompactU16Length(40000) }},
	}
	c.Group("prim")
	for _, enc := range allEnc {
		for i, p := range ps {
			for j := range append(ps, pw{}) {
				if !c.Next() {
					continue
				}
				do := p.f
				name := p.name
				if j < len(ps) { // a two-call history
					q := ps[j]
					name += "," + q.name
					do = func(e *bin.Encoder) error {
						if err := p.f(e); err != nil {
							return err
						}
						return q.f(e)
					}
				}
				var buf bytes.Buffer
				if e := do(bin.NewEncoderWithEncoding(&buf, enc)); e != nil {
					c.Fail("%s %s fails: %v", enc, name, e)
					continue
				}
				faults(c, func() string { return name }, enc, do, func([]byte) []byte { return buf.Bytes() })
				_ = i
			}
		}
	}
	// the counting writer behind the byte counts, io.Discard
	c.Group("discard")
	if c.Next() {
		e := bin.NewBinEncoder(io.Discard)
		if err := e.Encode(uint64(1)); err != nil || e.Written() != 8 {
			c.Fail("io.Discard: %v %d", err, e.Written())
		}
		c.Res.Traces++
	}
	c.Sample("fault kinds: %v", faultNames)
}

func nonNil(b []byte) []byte {
	if b == nil {
		return []byte{}
	}
	return b
}
