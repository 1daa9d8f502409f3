package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	bin "github.com/gagliardetto/binary"
)

func init() {
	register("C14", &Check{Level: "model_checking",
		Rule:        "state = distinct (bit pattern, endianness marker) or (JSON text, target); transition = one conversion; trace = all conversions of one state executed on the real code and compared with math/big arithmetic on the pattern",
		Assumptions: []string{"all ordered pairs of the 64-bit boundary lattice as (high, low) halves, three endianness markers; texts: all strings over a 10-letter alphabet up to a bound, all numbers 2^k+{-2..2} for k<=131, all one-letter corruptions of 32-digit hex", "texts whose meaning the documentation leaves open (leading zeros, underscores, signs, 0b/0o, short hex, unquoted numbers, null) may be refused or accepted, but must not panic or corrupt"},
		Promote:     true,
		Run:         runC14})
}

var two128 = new(big.Int).Lsh(big.NewInt(1), 128)

func pat(hi, lo uint64) *big.Int {
	x := new(big.Int).SetUint64(hi)
	x.Lsh(x, 64)
	return x.Or(x, new(big.Int).SetUint64(lo))
}

var markers = []binary.ByteOrder{nil, binary.LittleEndian, binary.BigEndian}

func markName(o binary.ByteOrder) string {
	if o == nil {
		return "none"
	}
	return o.String()
}

func conv128(c *Ctx, hi, lo uint64, m binary.ByteOrder) bool {
	ok := true
	bad := func(f string, a ...any) {
		if ok {
			c.Fail("pattern %016x%016x marker %s: %s", hi, lo, markName(m), fmt.Sprintf(f, a...))
		}
		ok = false
	}
	num := pat(hi, lo)
	dec := num.String()
	signed := new(big.Int).Set(num)
	if hi>>63 == 1 {
		signed.Sub(signed, two128)
	}
	var be, le [16]byte
	binary.BigEndian.PutUint64(be[:], hi)
	binary.BigEndian.PutUint64(be[8:], lo)
	for i := range be {
		le[15-i] = be[i]
	}
	u := bin.Uint128{Lo: lo, Hi: hi, Endianness: m}
	i := bin.Int128(u)
	f := bin.Float128(u)
	if p := catch(func() {
		if g := u.BigInt(); g.Cmp(num) != 0 {
			bad("unsigned integer value %s", g)
		}
		if g := i.BigInt(); g.Cmp(signed) != 0 {
			bad("signed integer value %s, want %s", g, signed)
		}
		if g := u.DecimalString(); g != dec {
			bad("decimal string %q", g)
		}
		if g := u.String(); g != dec {
			bad("string %q", g)
		}
		if g := i.DecimalString(); g != signed.String() {
			bad("signed decimal string %q", g)
		}
		if g := i.String(); g != dec && g != signed.String() {
			bad("signed string %q", g)
		}
		if g := u.HexString(); g != "0x"+hex.EncodeToString(be[:]) {
			bad("hex string %q", g)
		}
		if g := u.Bytes(); !bytes.Equal(g, be[:]) {
			bad("bytes %x", g)
		}
		g1, g2 := u.Bytes(), u.Bytes()
		g1[0] ^= 0xff
		if !bytes.Equal(g2, be[:]) || !bytes.Equal(u.Bytes(), be[:]) {
			bad("two calls of Bytes share memory")
		}
		if u.Lo != lo || u.Hi != hi {
			bad("conversion changed the value")
		}
	}); p != "" {
		bad("conversion panics: %s", p)
		return false
	}
	c.Res.Transitions += 8
	// JSON and back, into targets with every marker holding other data
	type jt struct {
		name string
		v    any
		back func(data []byte, o binary.ByteOrder, direct bool) (uint64, uint64, error)
	}
	for _, x := range []jt{
		{"Uint128", u, func(d []byte, o binary.ByteOrder, direct bool) (uint64, uint64, error) {
			t := bin.Uint128{Lo: 0x1111, Hi: 0x2222, Endianness: o}
			if direct {
				err := t.UnmarshalJSON(d)
				return t.Hi, t.Lo, err
			}
			err := json.Unmarshal(d, &t)
			return t.Hi, t.Lo, err
		}},
		{"Int128", i, func(d []byte, o binary.ByteOrder, direct bool) (uint64, uint64, error) {
			t := bin.Int128{Lo: 0x1111, Hi: 0x2222, Endianness: o}
			if direct {
				err := t.UnmarshalJSON(d)
				return t.Hi, t.Lo, err
			}
			err := json.Unmarshal(d, &t)
			return t.Hi, t.Lo, err
		}},
		{"Float128", f, func(d []byte, o binary.ByteOrder, direct bool) (uint64, uint64, error) {
			t := bin.Float128{Lo: 0x1111, Hi: 0x2222, Endianness: o}
			if direct {
				err := t.UnmarshalJSON(d)
				return t.Hi, t.Lo, err
			}
			err := json.Unmarshal(d, &t)
			return t.Hi, t.Lo, err
		}},
	} {
		var j []byte
		var err error
		if p := catch(func() { j, err = json.Marshal(x.v) }); p != "" || err != nil {
			bad("%s JSON: %v %s", x.name, err, p)
			return false
		}
		if string(j) != `"`+dec+`"` {
			bad("%s JSON %s, want %q", x.name, j, dec)
			return false
		}
		for k, o := range markers {
			h := "0x" + hex.EncodeToString(be[:])
			for ti, text := range []string{string(j), `"` + h + `"`, `"` + strings.ToUpper(h) + `"`} {
				if ti == 2 && k == 1 {
					continue
				}
				var gh, gl uint64
				if p := catch(func() { gh, gl, err = x.back([]byte(text), o, k == 1) }); p != "" {
					bad("%s: parsing %s panics: %s", x.name, text, p)
					return false
				}
				c.Res.Transitions++
				if err != nil {
					bad("%s: parsing %s fails: %v", x.name, text, err)
					return false
				}
				if gh != hi || gl != lo {
					bad("%s: parsing %s gives %016x%016x (target marker %s)", x.name, text, gh, gl, markName(o))
					return false
				}
			}
		}
	}
	// binary, both orders, primitives
	for oi, o := range []binary.ByteOrder{binary.LittleEndian, binary.BigEndian} {
		want := [][16]byte{le, be}[oi]
		for k := 0; k < 3; k++ {
			var w bytes.Buffer
			e := bin.NewBinEncoder(&w)
			var err, err2 error
			var got bin.Uint128
			d := bin.NewBinDecoder(want[:])
			if p := catch(func() {
				switch k {
				case 0:
					err = e.WriteUint128(u, o)
					got, err2 = d.ReadUint128(o)
				case 1:
					err = e.WriteInt128(i, o)
					var g bin.Int128
					g, err2 = d.ReadInt128(o)
					got = bin.Uint128(g)
				case 2:
					err = e.WriteUint128(bin.Uint128(f), o)
					var g bin.Float128
					g, err2 = d.ReadFloat128(o)
					got = bin.Uint128(g)
				}
			}); p != "" || err != nil || err2 != nil {
				bad("binary %s: %v %v %s", o, err, err2, p)
				return false
			}
			c.Res.Transitions += 2
			if !bytes.Equal(w.Bytes(), want[:]) {
				bad("binary %s form %x", o, w.Bytes())
			}
			if got.Hi != hi || got.Lo != lo || got.BigInt().Cmp(num) != 0 || d.Position() != 16 {
				bad("reading its binary %s form gives %016x%016x = %s", o, got.Hi, got.Lo, got.BigInt())
			}
			if g := bin.Int128(got).BigInt(); g.Cmp(signed) != 0 {
				bad("reading its binary %s form gives signed %s", o, g)
			}
		}
	}
	// marshalling methods used directly on a fresh coder follow the marker
	for k := 0; k < 3; k++ {
		want := le
		if m == binary.BigEndian {
			want = be
		}
		var w bytes.Buffer
		var err, err2 error
		var gh, gl uint64
		if p := catch(func() {
			e, d := bin.NewBinEncoder(&w), bin.NewBinDecoder(want[:])
			switch k {
			case 0:
				err = u.MarshalWithEncoder(e)
				t := bin.Uint128{Lo: 5, Hi: 6, Endianness: m}
				err2 = t.UnmarshalWithDecoder(d)
				gh, gl = t.Hi, t.Lo
			case 1:
				err = i.MarshalWithEncoder(e)
				t := bin.Int128{Lo: 5, Hi: 6, Endianness: m}
				err2 = t.UnmarshalWithDecoder(d)
				gh, gl = t.Hi, t.Lo
			case 2:
				err = f.MarshalWithEncoder(e)
				t := bin.Float128{Lo: 5, Hi: 6, Endianness: m}
				err2 = t.UnmarshalWithDecoder(d)
				gh, gl = t.Hi, t.Lo
			}
		}); p != "" || err != nil || err2 != nil {
			bad("direct marshalling: %v %v %s", err, err2, p)
			return false
		}
		c.Res.Transitions += 2
		if !bytes.Equal(w.Bytes(), want[:]) || gh != hi || gl != lo {
			bad("direct marshalling gives %x, reads back %016x%016x", w.Bytes(), gh, gl)
		}
	}
	c.Res.States++
	c.Res.Traces++
	return ok
}

// meaning of the text inside the quotes: 1 must parse to n, -1 must be
// refused, 0 open.
func textMeaning(s string) (int, *big.Int) {
	if s == "" {
		return -1, nil
	}
	digits, canon := true, s[0] != '0' || s == "0"
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			digits = false
		}
	}
	if digits {
		n, _ := new(big.Int).SetString(s, 10)
		if !canon {
			if n.BitLen() > 140 {
				return -1, nil
			}
			return 0, nil
		}
		if n.BitLen() > 128 {
			return -1, nil
		}
		return 1, n
	}
	if s[0] == '-' {
		rest := strings.TrimLeft(strings.ReplaceAll(s[1:], "_", ""), "0xXbBoO")
		if rest == "" {
			return 0, nil
		}
		return -1, nil // negative or not a number
	}
	if len(s) > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') {
		n, ok := new(big.Int).SetString(s[2:], 16)
		if !ok || s[2] == '-' || s[2] == '+' {
			if strings.Contains(s, "_") {
				return 0, nil
			}
			return -1, nil
		}
		if n.BitLen() > 128 {
			return -1, nil
		}
		if len(s) == 34 && !strings.Contains(s, "_") {
			return 1, n
		}
		return 0, nil
	}
	for i := 0; i < len(s); i++ {
		if !strings.ContainsRune("0123456789abcdefABCDEFxXoO_+", rune(s[i])) {
			return -1, nil // cannot be a number in any notation
		}
	}
	if strings.ContainsAny(s[:1], "abcdefABCDEFxXoO") {
		return -1, nil
	}
	if strings.Contains(s, "_") || s[0] == '0' || s[0] == '+' {
		return 0, nil
	}
	return -1, nil // digits followed by letters
}

func parse128(c *Ctx, raw string, inner string, quoted bool) bool {
	want, n := 0, (*big.Int)(nil)
	if quoted {
		want, n = textMeaning(inner)
	}
	for typ := 0; typ < 3; typ++ {
		for _, m := range markers {
			for via := 0; via < 2; via++ {
				u := bin.Uint128{Lo: 0x0123456789abcdef, Hi: 0xfedcba9876543210, Endianness: m}
				i, f := bin.Int128(u), bin.Float128(u)
				var err error
				p := catch(func() {
					var t interface {
						UnmarshalJSON([]byte) error
					}
					switch typ {
					case 0:
						t = &u
					case 1:
						t = &i
					case 2:
						t = &f
					}
					if via == 0 {
						err = t.UnmarshalJSON([]byte(raw))
					} else {
						err = json.Unmarshal([]byte(raw), t)
					}
				})
				c.Res.Transitions++
				name := []string{"Uint128", "Int128", "Float128"}[typ]
				if p != "" {
					c.Fail("%s: parsing %s panics: %s", name, raw, p)
					return false
				}
				switch typ {
				case 1:
					u = bin.Uint128(i)
				case 2:
					u = bin.Uint128(f)
				}
				if err != nil {
					if want == 1 {
						c.Fail("%s: valid text %s is refused: %v", name, raw, err)
						return false
					}
					if u.Lo != 0x0123456789abcdef || u.Hi != 0xfedcba9876543210 || u.Endianness != m {
						c.Fail("%s: refusing %s changed the value to %016x%016x", name, raw, u.Hi, u.Lo)
						return false
					}
					continue
				}
				if want == -1 {
					c.Fail("%s: text %s is accepted as %s", name, raw, u.BigInt())
					return false
				}
				if want == 1 && (pat(u.Hi, u.Lo).Cmp(n) != 0 || u.BigInt().Cmp(n) != 0) {
					c.Fail("%s: text %s parses to %s", name, raw, pat(u.Hi, u.Lo))
					return false
				}
				c.Add("texts_accepted", 1)
			}
		}
	}
	c.Res.States++
	c.Res.Traces++
	return true
}

func runC14(c *Ctx) {
	lat := lattice(64)
	c.Group("pattern")
	for _, hi := range lat {
		for _, lo := range lat {
			if !c.Next() {
				continue
			}
			for _, m := range markers {
				if !conv128(c, hi, lo, m) {
					return
				}
			}
			if hi == lat[3] {
				c.Sample("pattern %016x%016x, 3 markers", hi, lo)
			}
		}
	}
	if c.Thorough {
		// every pair of bits, every byte at every place with every neighbour
		c.Group("bits")
		for a := 0; a < 128; a++ {
			for b := 0; b < 128; b++ {
				for inv := 0; inv < 2; inv++ {
					if !c.Next() {
						continue
					}
					x := [2]uint64{}
					x[a/64] |= 1 << (a % 64)
					x[b/64] |= 1 << (b % 64)
					if inv == 1 {
						x[0], x[1] = ^x[0], ^x[1]
					}
					for _, m := range markers {
						if !conv128(c, x[0], x[1], m) {
							return
						}
					}
				}
			}
		}
		c.Group("bytes")
		for pos := 0; pos < 15; pos++ {
			for v := 0; v < 65536; v++ {
				if !c.Next() {
					continue
				}
				var b [16]byte
				b[pos], b[pos+1] = byte(v), byte(v>>8)
				if !conv128(c, binary.LittleEndian.Uint64(b[:]), binary.LittleEndian.Uint64(b[8:]), markers[v%3]) {
					return
				}
			}
		}
	}
	c.Group("small")
	for v := uint64(0); v < 2000; v++ {
		if c.Next() && (!conv128(c, 0, v, nil) || !conv128(c, ^uint64(0), ^v, nil)) {
			return
		}
	}
	// decimal texts around every power of two and of ten
	c.Group("pow")
	for k := uint(0); k <= 131; k++ {
		for base := int64(2); base <= 10; base += 8 {
			x := new(big.Int).Exp(big.NewInt(base), big.NewInt(int64(k)), nil)
			for d := int64(-2); d <= 2; d++ {
				if !c.Next() {
					continue
				}
				y := new(big.Int).Add(x, big.NewInt(d))
				for _, s := range []string{y.String(), "-" + y.String(), y.String() + "0", y.String() + "x", " " + y.String(), y.String() + ".0", y.String() + "e1",
					"0x" + y.Text(16), fmt.Sprintf("0x%032s", y.Text(16)), fmt.Sprintf("0X%032s", strings.ToUpper(y.Text(16))), fmt.Sprintf("0x%033s", y.Text(16)), fmt.Sprintf("0x%031s", y.Text(16))} {
					if strings.HasPrefix(s, "--") {
						continue
					}
					if !parse128(c, `"`+s+`"`, s, true) {
						return
					}
				}
			}
		}
	}
	// hex: one corrupted digit at each place
	c.Group("hexbad")
	for pos := 0; pos < 34; pos++ {
		for _, ch := range []byte("gGzx-+_ .,\\/:;@`{}[]()'#~=?!*^%$&|<>\x7f") {
			if !c.Next() {
				continue
			}
			s := []byte("0x0123456789abcdefFEDCBA9876543210")
			s[pos] = ch
			if ch == '\\' {
				continue
			}
			if pos == 0 && (ch == '-' || ch == '+') {
				continue
			}
			if !parse128(c, `"`+string(s)+`"`, string(s), true) {
				return
			}
		}
	}
	// all texts over an alphabet
	n := 4
	if c.Thorough {
		n = 6
	}
	if c.Extra {
		n = 7
	}
	alpha := "01589xfb-_ "
	var words func(pre string, f func(string) bool) bool
	words = func(pre string, f func(string) bool) bool {
		if !f(pre) {
			return false
		}
		if len(pre) == n {
			return true
		}
		for i := 0; i < len(alpha); i++ {
			if !words(pre+alpha[i:i+1], f) {
				return false
			}
		}
		return true
	}
	c.Group("text")
	words("", func(s string) bool {
		if !c.Next() {
			return true
		}
		return parse128(c, `"`+s+`"`, s, true)
	})
	// raw documents: anything may come in
	alpha = `"01nul{}[]\x- `
	n = 3
	if c.Thorough {
		n = 4
	}
	if c.Extra {
		n = 6
	}
	c.Group("raw")
	words("", func(s string) bool {
		if !c.Next() {
			return true
		}
		if len(s) >= 2 && s[0] == '"' && s[len(s)-1] == '"' && !strings.ContainsAny(s[1:len(s)-1], "\"\\") {
			return parse128(c, s, s[1:len(s)-1], true)
		}
		if strings.TrimSpace(s) == "null" {
			return true
		}
		return parse128(c, s, "", false)
	})
}
