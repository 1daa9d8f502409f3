package main

import (
	"bytes"
	"math"
	"reflect"

	bin "github.com/gagliardetto/binary"
)

func init() {
	register("C09", &Check{Level: "model_checking",
		Rule:        "state = distinct (type, encoding, value); transition = one size query, encode or count observation; trace = one value taken through marshal, byte count, panicking byte count and a reused encoder",
		Assumptions: []string{"bounded types and values as in C01, plus values whose encoding fails"},
		Run:         runC09})
}

func byteCount(enc bin.Encoding, v any) (n uint64, err error, p string) {
	p = catch(func() {
		switch enc {
		case bin.EncodingBin:
			n, err = bin.BinByteCount(v)
		case bin.EncodingBorsh:
			n, err = bin.BorshByteCount(v)
		default:
			n, err = bin.CompactU16ByteCount(v)
		}
	})
	return
}

func mustCount(enc bin.Encoding, v any) (n uint64, p string) {
	p = catch(func() {
		switch enc {
		case bin.EncodingBin:
			n = bin.MustBinByteCount(v)
		case bin.EncodingBorsh:
			n = bin.MustBorshByteCount(v)
		default:
			n = bin.MustCompactU16ByteCount(v)
		}
	})
	return
}

type reused struct {
	e   *bin.Encoder
	buf *bytes.Buffer
}

func sizeCase(c *Ctx, name string, v any, enc bin.Encoding, ru map[bin.Encoding]*reused) bool {
	b, err, p := marshal(enc, v)
	n, cerr, cp := byteCount(enc, v)
	m, mp := mustCount(enc, v)
	c.Res.Transitions += 3
	c.Res.Traces++
	if p != "" {
		return true // C21
	}
	d := func() string { return enc.String() + " " + name + " " + show(reflect.ValueOf(v)) }
	switch {
	case cp != "":
		c.Fail("%s: byte count panics: %s", d(), cp)
	case (err == nil) != (cerr == nil):
		c.Fail("%s: marshal says %v, byte count says %v", d(), err, cerr)
	case (err == nil) != (mp == ""):
		c.Fail("%s: marshal says %v, panicking byte count: %q", d(), err, mp)
	case err == nil && (n != uint64(len(b)) || m != n):
		c.Fail("%s: %d bytes marshalled, byte count %d, panicking form %d", d(), len(b), n, m)
	case err != nil:
		c.Add("failing_values", 1)
		return true
	default:
		if want, ok := sizeFloor(c, v); ok && uint64(len(b)) < want {
			c.Fail("%s: marshalled to only %d bytes", d(), len(b))
			return false
		}
		r := ru[enc]
		if r == nil || r.buf.Len() > 1<<20 {
			buf := &bytes.Buffer{}
			r = &reused{newEncoder(enc, buf), buf}
			ru[enc] = r
		}
		w0, l0 := r.e.Written(), r.buf.Len()
		var eerr error
		if p := catch(func() { eerr = r.e.Encode(v) }); p != "" || eerr != nil {
			c.Fail("%s: reused encoder: %v %s", d(), eerr, p)
			return false
		}
		c.Res.Transitions++
		if r.e.Written()-w0 != len(b) || r.buf.Len()-l0 != len(b) {
			c.Fail("%s: reused encoder's count grew by %d, its writer got %d, marshal gives %d", d(), r.e.Written()-w0, r.buf.Len()-l0, len(b))
			return false
		}
		c.State(hash(name, enc.String(), string(b)))
		return true
	}
	return false
}

func sizeFloor(c *Ctx, v any) (uint64, bool) { return 0, false }

func runC09(c *Ctx) {
	ru := map[bin.Encoding]*reused{}
	do := func(t *T, v reflect.Value, encs []bin.Encoding) {
		for _, enc := range encs {
			if !sizeCase(c, t.Name, v.Interface(), enc, ru) {
				return
			}
			// the reference length settles it independently of both
			if r, _, err := refEncode(t, v, enc, nil); err == nil {
				if n, _, _ := byteCount(enc, v.Interface()); n != uint64(len(r)) {
					c.Fail("%s %s %s: byte count %d, format needs %d", enc, t.Name, show(v), n, len(r))
					return
				}
				if v.CanAddr() {
					if n, err, p := byteCount(enc, v.Addr().Interface()); n != uint64(len(r)) || err != nil || p != "" {
						c.Fail("%s *%s %s: byte count by pointer %d %v %s, format needs %d", enc, t.Name, show(v), n, err, p, len(r))
						return
					}
				}
			}
		}
	}
	corpus(c, nil, do)
	huge(c, do)
	for _, t := range extTypes() {
		c.Group("ext:" + clip(t.Name, 120))
		for _, v := range vals(t, 1, 1) {
			if c.Next() {
				do(t, v, allEnc)
			}
		}
	}
	// values whose encoding fails, alone and inside containers
	c.Group("failing")
	nan32 := math.Float32frombits(0x7fc00000)
	bad := []any{
		math.NaN(), nan32, []float64{1, math.NaN()}, struct{ A, B float32 }{1, nan32}, map[string]float64{"a": math.NaN()}, bin.JSONFloat64(math.NaN()),
		make([]byte, 65536), make([]byte, 70000), string(make([]byte, 65536)), make([]uint16, 65536), struct {
			A uint8
			B []byte
		}{1, make([]byte, 65536)}, make([]string, 65536), make([]struct{ X uint8 }, 65537),
		struct {
			Enum bin.BorshEnum `borsh_enum:"true"`
			A    uint8
		}{1, 0}, struct {
			Enum bin.BorshEnum `borsh_enum:"true"`
			A    uint8
		}{255, 0},
		make(chan int), func() {}, complex(1, 2), int(5), uint(5), uintptr(5),
		struct {
			A uint8
			B chan int
		}{1, make(chan int)}, []func(){func() {}}, [2]complex64{1, 2}, map[string]int{"a": 1}, struct{ A, B any }{1, 2}, nil,
		FailOn{}, []FailOn{{}, {}}, struct {
			A uint32
			F FailOn
			B uint32
		}{}, map[uint8]FailOn{1: {}}, struct {
			P *FailOn `bin:"optional"`
		}{&FailOn{}}, [1]FailOn{},
	}
	for _, v := range bad {
		for _, enc := range allEnc {
			if c.Next() {
				sizeCase(c, reflect.TypeOf(&v).String(), v, enc, ru)
			}
		}
	}
	c.Sample("failing values: %d", len(bad))
}

// FailOn is a type whose own marshalling fails after writing something.
type FailOn struct{}

func (FailOn) MarshalWithEncoder(e *bin.Encoder) error {
	if err := e.WriteUint16(0xAAAA, bin.LE); err != nil {
		return err
	}
	return errCust
}
func (*FailOn) UnmarshalWithDecoder(d *bin.Decoder) error { return errCust }
