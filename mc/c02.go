package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"reflect"
	"strings"

	bin "github.com/gagliardetto/binary"
)

func init() {
	register("C02", &Check{Level: "model_checking",
		Rule:        "state = distinct (type, encoding, emitted bytes); transition = one emission step (scalar, length or flag) of the reference encoder; trace = one library encode compared byte for byte with the reference encoder's run",
		Assumptions: []string{"bounded types and boundary values as in C01", "the reference encoder is pinned by hand-written golden vectors", "map order in Bin/CompactU16 is free (the reference follows the library's choice)"},
		Promote:     true,
		Run:         runC02})
}

type golden struct {
	v   any
	enc bin.Encoding
	hex string
}

// Hand-written vectors; they pin the reference model itself.
func goldens() []golden {
	u16 := uint16(7)
	var np *uint16
	B, R, C := bin.EncodingBin, bin.EncodingBorsh, bin.EncodingCompactU16
	return []golden{
		{uint16(0x0102), B, "0201"}, {uint16(0x0102), R, "0201"}, {uint16(0x0102), C, "0201"},
		{int32(-2), B, "feffffff"}, {uint64(1), R, "0100000000000000"}, {true, C, "01"},
		{float32(1), B, "0000803f"}, {float64(-2), R, "00000000000000c0"},
		{"hi", B, "02000000000000006869"}, {"hi", R, "020000006869"}, {"hi", C, "026869"},
		{[]byte{1, 2}, B, "020102"}, {[]byte{1, 2}, R, "020000000102"}, {[]byte{1, 2}, C, "020102"},
		{make([]byte, 128), B, "8001" + strings.Repeat("00", 128)}, {make([]byte, 128), C, "8001" + strings.Repeat("00", 128)},
		{[2]uint16{1, 2}, B, "01000200"}, {[]uint16{1, 2}, R, "0200000001000200"},
		{map[uint8]uint16{2: 3, 1: 4}, R, "02000000010400020300"},
		{map[string]uint8{"b": 1, "a": 2}, R, "02000000010000006102010000006201"},
		{struct {
			A uint16 `bin:"big"`
			B uint16
		}{1, 2}, B, "00010200"},
		{struct {
			A uint16 `bin:"big"`
			B uint16
		}{1, 2}, R, "01000200"},
		{struct {
			A *uint16 `bin:"optional"`
			B uint8
		}{&u16, 9}, B, "01000000070009"},
		{struct {
			A *uint16 `bin:"optional"`
			B uint8
		}{np, 9}, B, "0000000009"},
		{struct {
			A *uint16 `bin:"optional"`
			B uint8
		}{&u16, 9}, R, "01070009"},
		{struct {
			A *uint16 `bin:"optional"`
			B uint8
		}{np, 9}, C, "0009"},
		{struct {
			A *uint16 `bin:"coption"`
			B uint8
		}{&u16, 9}, R, "01000000070009"},
		{struct {
			A *uint16 `bin:"coption"`
			B uint8
		}{np, 9}, R, "0000000009"},
		{struct {
			A uint8
			B uint32 `bin:"-"`
			C uint8
		}{1, 2, 3}, B, "0103"},
		{struct {
			Enum bin.BorshEnum `borsh_enum:"true"`
			A    uint8
			B    string
		}{1, 5, "x"}, R, "010100000078"},
		{struct {
			N uint8 `bin:"sizeof=L"`
			L []uint16
		}{2, []uint16{1, 2}}, B, "0201000200"},
		{bin.Varint32(-2), B, "03"}, {bin.Varuint16(300), C, "ac02"}, {bin.Varint16(64), R, "8001"},
		{bin.Uint64(1), B, "0100000000000000"},
		{bin.Uint128{Lo: 1, Hi: 2}, R, "01000000000000000200000000000000"},
		{bin.SafeString("hi"), B, "026869"}, {bin.HexBytes{1}, R, "0100000001"},
		{bin.TypeID{1, 2, 3, 4, 5, 6, 7, 8}, C, "0102030405060708"},
	}
}

func runC02(c *Ctx) {
	c.Group("golden")
	for _, g := range goldens() {
		if !c.Next() {
			continue
		}
		v := reflect.ValueOf(g.v)
		t := FromGo(v.Type())
		ref, _, err := refEncode(t, v, g.enc, nil)
		if err != nil || hex.EncodeToString(ref) != g.hex {
			fmt.Fprintf(os.Stderr, "HARNESS: reference disagrees with golden vector %v %s: %x %v\n", g.v, g.enc, ref, err)
			os.Exit(2)
		}
		wire(c, t, v, g.enc)
	}
	do := func(t *T, v reflect.Value, encs []bin.Encoding) {
		for _, enc := range encs {
			wire(c, t, v, enc)
		}
	}
	corpus(c, nil, do)
	huge(c, do)
	for _, t := range extTypes() {
		c.Group("ext:" + clip(t.Name, 120))
		for _, v := range vals(t, 1, 1) {
			if c.Next() {
				do(t, v, allEnc)
			}
		}
	}
}

// wire compares the library's bytes with the reference encoder's.
func wire(c *Ctx, t *T, v reflect.Value, enc bin.Encoding) {
	b, err, p := marshal(enc, v.Interface())
	ref, steps, rerr := refEncode(t, v, enc, b)
	if rerr != nil {
		c.Add("refused_by_format", 1)
		return // C08/C09/C12 look at refusals
	}
	c.Res.Transitions += steps
	switch {
	case p != "":
		c.Fail("%s %s %s: encode panics: %s", enc, t.Name, show(v), p)
		return
	case err != nil:
		c.Fail("%s %s %s: encode error: %v", enc, t.Name, show(v), err)
		return
	case !bytes.Equal(b, ref):
		c.Fail("%s %s %s:\n  library %s\n  format  %s", enc, t.Name, show(v), hx(b), hx(ref))
		return
	}
	c.State(valueHash(t, v, enc, b))
	c.Res.Traces++
	// by pointer, through an encoder
	if v.CanAddr() {
		var buf bytes.Buffer
		e := newEncoder(enc, &buf)
		p = catch(func() { err = e.Encode(v.Addr().Interface()) })
		ref2, _, _ := refEncode(t, v, enc, buf.Bytes())
		if p != "" || err != nil || !bytes.Equal(buf.Bytes(), ref2) {
			c.Fail("%s %s %s by pointer:\n  library %s (%v %s)\n  format  %s", enc, t.Name, show(v), hx(buf.Bytes()), err, p, hx(ref2))
			return
		}
		c.Res.Traces++
	}
	if c.Res.Traces%1999 == 1 {
		c.Sample("%s %s = %s -> %s", enc, t.Name, show(v), hx(b))
	}
}
