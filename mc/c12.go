package main

import (
	"bytes"
	"fmt"
	"reflect"

	bin "github.com/gagliardetto/binary"
)

func init() {
	register("C12", &Check{Level: "model_checking",
		Rule:        "state = distinct (enum type, variant index, payload); transition = one encode or decode; trace = one enum value encoded, compared with tag-plus-payload, and decoded into fresh and used targets, or one index byte 0..255 refused or accepted on both sides",
		Assumptions: []string{"enums of 1..255 variants; every payload type of the catalogue alone, first, last and next to others; placements: top level, field, pointer, optional, c-option, slice, array, map value, nested enum"},
		Promote:     true,
		Run:         runC12})
}

type Simple bin.BorshEnum

func runC12(c *Ctx) {
	enc := bin.EncodingBorsh
	max := 300
	if c.Thorough {
		max = 1000
	}
	for _, t := range enumTypes(c.Thorough) {
		c.Group("enum:" + clip(t.Name, 150))
		vs := spread(t, vals(t, 1, 1), max)
		for _, v := range vs {
			if c.Next() {
				enumCase(c, t, v)
			}
		}
		// the other variants' fields hold data: it must not be written
		if t.Enum {
			for i := 1; i < len(t.Fields); i++ {
				if !c.Next() {
					continue
				}
				v := reflect.New(t.RT).Elem()
				dirtyFill(t, v, 3, 0)
				v.Field(0).SetUint(uint64(i - 1))
				if refOK(t, v, enc) {
					enumCase(c, t, v)
				}
			}
			// every index byte on both sides
			if c.Next() {
				allIndices(c, t)
			}
		}
	}
	// wide enums
	c.Group("wide")
	for _, n := range []int{1, 2, 3, 10, 100, 127, 128, 129, 200, 254, 255, 256} {
		if !c.Next() {
			continue
		}
		var ps []*T
		pool := []*T{tU8, tEmpty, tU32, tStr, tLU64, SliceT(tU8), PtrT(tU16)}
		for i := 0; i < n; i++ {
			ps = append(ps, pool[i%len(pool)])
		}
		t := EnumT(`borsh_enum:"true"`, ps...)
		for _, v := range vals(t, 0, 1) {
			enumCase(c, t, v)
		}
		allIndices(c, t)
	}
	// simple enums: one byte
	c.Group("simple")
	if c.Next() {
		type colour struct {
			A bin.BorshEnum
			B uint8
			C []bin.BorshEnum
			D map[bin.BorshEnum]bin.BorshEnum
			E *bin.BorshEnum `bin:"optional"`
		}
		for i := 0; i < 256; i++ {
			x := bin.BorshEnum(i)
			b, err, p := marshal(enc, x)
			var y bin.BorshEnum
			if p != "" || err != nil || !bytes.Equal(b, []byte{byte(i)}) {
				c.Fail("simple enum %d encodes to %x, %v %s", i, b, err, p)
			} else if err, p := unmarshal(enc, &y, b); err != nil || p != "" || y != x {
				c.Fail("simple enum %d decodes to %d, %v %s", i, y, err, p)
			}
			v := colour{x, 7, []bin.BorshEnum{x, x + 1}, map[bin.BorshEnum]bin.BorshEnum{x: x + 3}, &x}
			want := []byte{byte(i), 7, 2, 0, 0, 0, byte(i), byte(i + 1), 1, 0, 0, 0, byte(i), byte(i + 3), 1, byte(i)}
			b, err, p = marshal(enc, v)
			if p != "" || err != nil || !bytes.Equal(b, want) {
				c.Fail("struct of simple enums %d encodes to %x, %v %s; want %x", i, b, err, p, want)
			}
			var w colour
			if err, p := unmarshal(enc, &w, want); err != nil || p != "" || !reflect.DeepEqual(v, w) {
				c.Fail("struct of simple enums decodes to %+v, %v %s", w, err, p)
			}
			c.Res.States++
			c.Res.Transitions += 4
			c.Res.Traces += 2
		}
	}
}

func enumCase(c *Ctx, t *T, v reflect.Value) bool {
	enc := bin.EncodingBorsh
	if !refOK(t, v, enc) {
		return true
	}
	n0 := len(c.Res.Viols)
	wire(c, t, v, enc)
	if len(c.Res.Viols) > n0 {
		return false
	}
	b, _, _ := refEncode(t, v, enc, nil)
	// tag byte, then exactly the payload's own encoding
	if t.Enum {
		i := int(v.Field(0).Uint())
		pb, err, p := marshal(enc, v.Field(i+1).Interface())
		c.Res.Transitions++
		if p == "" && err == nil {
			pref, _, _ := refEncode(t.Fields[i+1].T, v.Field(i+1), enc, nil)
			if !bytes.Equal(pb, pref) || !bytes.Equal(b, append([]byte{byte(i)}, pb...)) {
				c.Fail("%s %s: encodes to %s, payload alone to %s", t.Name, show(v), hx(b), hx(pb))
				return false
			}
		}
	}
	if !decodeInto(c, "into a fresh target", t, reflect.New(t.RT).Elem(), b, enc) {
		return false
	}
	for _, s := range []int{40, 90} {
		d := reflect.New(t.RT).Elem()
		dirtyFill(t, d, s, 0)
		if !decodeInto(c, "into a used target", t, d, b, enc) {
			return false
		}
	}
	// followed by other data
	if !decodeInto(c, "followed by more bytes", t, reflect.New(t.RT).Elem(), append(append([]byte{}, b...), 1, 2, 3, 255), enc) {
		return false
	}
	return true
}

func allIndices(c *Ctx, t *T) {
	enc := bin.EncodingBorsh
	for i := 0; i < 256; i++ {
		inRange := i+1 < len(t.Fields)
		// decode: index byte followed by various tails
		for _, tail := range [][]byte{nil, {0}, {1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, bytes.Repeat([]byte{0}, 40), bytes.Repeat([]byte{0xff}, 40), bytes.Repeat([]byte{byte(i)}, 12)} {
			if !hostile(c, t, enc, append([]byte{byte(i)}, tail...), false) {
				return
			}
		}
		// encode
		v := reflect.New(t.RT).Elem()
		dirtyFill(t, v, 5, 0)
		v.Field(0).SetUint(uint64(i))
		b, err, p := marshal(enc, v.Interface())
		c.Res.Transitions++
		c.Res.States++
		if p != "" {
			c.Fail("%s: encoding index %d panics: %s", t.Name, i, p)
			return
		}
		if !inRange && err == nil {
			c.Fail("%s: encoding index %d, which has no variant, succeeds with %s", t.Name, i, hx(b))
			return
		}
		if inRange && refOK(t, v, enc) && err != nil {
			c.Fail("%s: encoding index %d fails: %v", t.Name, i, err)
			return
		}
		c.Res.Traces++
	}
	c.Sample("%s: all 256 index bytes", fmt.Sprint(clip(t.Name, 200)))
}
