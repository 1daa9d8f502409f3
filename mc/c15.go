package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	bin "github.com/gagliardetto/binary"
)

func init() {
	register("C15", &Check{Level: "model_checking",
		Rule:        "state = distinct value or JSON text; transition = one marshal or unmarshal; trace = one value round-tripped through its JSON, or one text parsed by the real code directly and through encoding/json and compared with an independent grammar + math/big evaluation",
		Assumptions: []string{"values: all of a small range, neighbourhoods of 2^31, 2^32, 2^53, 2^63, 2^64, the 64-bit lattice; floats finite; texts: all strings over a 9-letter alphabet up to a bound, quoted and unquoted, plus decimals around every power of two and ten", "texts whose standing is not documented (leading zeros or '+' in quotes, escapes, null, integers written with exponents) may be refused or accepted with their plain meaning"},
		Promote:     true,
		Run:         runC15})
}

type jsonTgt interface{ UnmarshalJSON([]byte) error }

// both parses text directly and through encoding/json.
func jparse(c *Ctx, what, text string, mkTgt func() jsonTgt) (vs [2]jsonTgt, errs [2]error, ok bool) {
	for via := 0; via < 2; via++ {
		t := mkTgt()
		vs[via] = t
		c.Res.Transitions++
		p := catch(func() {
			if via == 0 {
				errs[0] = t.UnmarshalJSON([]byte(text))
			} else {
				errs[1] = json.Unmarshal([]byte(text), t)
			}
		})
		if p != "" {
			c.Fail("%s: parsing %s panics: %s", what, text, p)
			return vs, errs, false
		}
	}
	return vs, errs, true
}

var (
	reInt    = regexp.MustCompile(`^-?(0|[1-9][0-9]*)$`)
	reIntLax = regexp.MustCompile(`^[+-]?[0-9]+$`)
	reNum    = regexp.MustCompile(`^-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?$`)
	reNumLax = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$`)
)

// numMeaning: exact value of a decimal number text (bounded exponent).
func numMeaning(s string) *big.Rat {
	if strings.HasPrefix(s, "+") {
		s = s[1:]
	}
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		return nil
	}
	return r
}

// verdict for an integer text: 1 accept as n, -1 refuse, 0 open (n may be nil).
func intVerdict(s string, quoted bool, lo, hi *big.Int) (int, *big.Int) {
	if reIntLax.MatchString(s) {
		n, _ := new(big.Int).SetString(s, 10)
		in := n.Cmp(lo) >= 0 && n.Cmp(hi) <= 0
		if !in {
			return -1, nil
		}
		if reInt.MatchString(s) {
			if s == "-0" {
				return 0, n
			}
			return 1, n
		}
		if !quoted {
			return -1, nil // not JSON
		}
		return 0, n
	}
	if reNumLax.MatchString(s) {
		if !quoted && !reNum.MatchString(s) {
			return -1, nil
		}
		if r := numMeaning(s); r != nil && r.IsInt() {
			n := r.Num()
			if n.Cmp(lo) >= 0 && n.Cmp(hi) <= 0 {
				return 0, n // an integer written as 1.0 or 1e2
			}
		}
		return -1, nil
	}
	return -1, nil
}

// split finds the payload of a document: quoted or not; open when escapes or
// null are involved.
func split(doc string) (inner string, quoted, open bool) {
	d := strings.Trim(doc, " \t\r\n")
	if d == "null" || strings.Contains(d, "\\") {
		return "", false, true
	}
	if len(d) >= 2 && d[0] == '"' && d[len(d)-1] == '"' && !strings.Contains(d[1:len(d)-1], `"`) {
		return d[1 : len(d)-1], true, false
	}
	return d, false, false
}

var (
	i64lo, i64hi = big.NewInt(math.MinInt64), big.NewInt(math.MaxInt64)
	u64lo, u64hi = big.NewInt(0), new(big.Int).SetUint64(math.MaxUint64)
)

func intDoc(c *Ctx, doc string) bool {
	inner, quoted, open := split(doc)
	padded := doc != strings.Trim(doc, " \t\r\n")
	for typ := 0; typ < 2; typ++ {
		lo, hi, name := i64lo, i64hi, "Int64"
		mkT := func() jsonTgt { v := bin.Int64(-77); return &v }
		if typ == 1 {
			lo, hi, name = u64lo, u64hi, "Uint64"
			mkT = func() jsonTgt { v := bin.Uint64(77); return &v }
		}
		want, n := intVerdict(inner, quoted, lo, hi)
		if open {
			want, n = 0, nil
		}
		vs, errs, ok := jparse(c, name, doc, mkT)
		if !ok {
			return false
		}
		for via := range vs {
			w := want
			if via == 0 && padded && w == 1 {
				w = 0 // encoding/json never hands padded text to the method
			}
			var got *big.Int
			switch t := vs[via].(type) {
			case *bin.Int64:
				got = big.NewInt(int64(*t))
			case *bin.Uint64:
				got = new(big.Int).SetUint64(uint64(*t))
			}
			switch {
			case errs[via] != nil && w == 1:
				c.Fail("%s: %s is refused: %v", name, doc, errs[via])
				return false
			case errs[via] == nil && w == -1:
				c.Fail("%s: %s is accepted as %s", name, doc, got)
				return false
			case errs[via] == nil && n != nil && got.Cmp(n) != 0:
				c.Fail("%s: %s parses to %s", name, doc, got)
				return false
			}
			if errs[via] == nil {
				c.Add("accepted", 1)
			}
		}
	}
	c.Res.States++
	c.Res.Traces++
	return true
}

func ratFloat(r *big.Rat) (f float64, over bool) {
	f, _ = r.Float64()
	return f, math.IsInf(f, 0)
}

func floatDoc(c *Ctx, doc string) bool {
	inner, quoted, open := split(doc)
	padded := doc != strings.Trim(doc, " \t\r\n")
	want, val := -1, math.NaN()
	switch {
	case open:
		want = 0
	case reNumLax.MatchString(inner):
		if e := expOf(inner); e > 400 || e < -400 {
			want = 0
			break
		}
		r := numMeaning(inner)
		if r == nil {
			want = 0
			break
		}
		f, over := ratFloat(r)
		if strings.HasPrefix(inner, "-") && f == 0 {
			f = math.Copysign(0, -1)
		}
		val = f
		switch {
		case over:
			want, val = -1, math.NaN()
		case reNum.MatchString(inner):
			want = 1
		case quoted:
			want = 0
		}
	case quoted && strings.ContainsAny(inner, "iInNxXpP_"):
		want = 0 // inf, nan, hexadecimal floats: strconv forms
	}
	vs, errs, ok := jparse(c, "JSONFloat64", doc, func() jsonTgt { v := bin.JSONFloat64(-77); return &v })
	if !ok {
		return false
	}
	for via := range vs {
		w := want
		if via == 0 && padded && w == 1 {
			w = 0
		}
		got := float64(*vs[via].(*bin.JSONFloat64))
		switch {
		case errs[via] != nil && w == 1:
			c.Fail("JSONFloat64: %s is refused: %v", doc, errs[via])
			return false
		case errs[via] == nil && w == -1:
			c.Fail("JSONFloat64: %s is accepted as %v", doc, got)
			return false
		case errs[via] == nil && val == val && math.Float64bits(got) != math.Float64bits(val):
			c.Fail("JSONFloat64: %s parses to %v (%x), want %v", doc, got, math.Float64bits(got), val)
			return false
		}
	}
	c.Res.States++
	c.Res.Traces++
	return true
}

func expOf(s string) int {
	i := strings.IndexAny(s, "eE")
	if i < 0 {
		return 0
	}
	n, err := strconv.Atoi(strings.TrimPrefix(s[i+1:], "+"))
	if err != nil {
		return 1 << 20
	}
	return n
}

func boolDoc(c *Ctx, doc string) bool {
	inner, quoted, open := split(doc)
	want, val := -1, false
	switch {
	case open, quoted:
		want = 0
	case inner == "true" || inner == "false":
		want, val = 1, inner == "true"
	case reInt.MatchString(inner):
		n, _ := new(big.Int).SetString(inner, 10)
		want, val = 1, n.Sign() != 0
		if n.BitLen() > 63 {
			want = 0
		}
	case reNum.MatchString(inner):
		want = 0
		if e := expOf(inner); e < 400 && e > -400 {
			val = numMeaning(inner).Sign() != 0
		} else {
			return true
		}
	}
	vs, errs, ok := jparse(c, "Bool", doc, func() jsonTgt { v := bin.Bool(!val); return &v })
	if !ok {
		return false
	}
	for via := range vs {
		got := bool(*vs[via].(*bin.Bool))
		switch {
		case errs[via] != nil && want == 1:
			c.Fail("Bool: %s is refused: %v", doc, errs[via])
			return false
		case errs[via] == nil && want == -1:
			c.Fail("Bool: %s is accepted as %v", doc, got)
			return false
		case errs[via] == nil && want == 1 && got != val:
			c.Fail("Bool: %s parses to %v", doc, got)
			return false
		}
	}
	c.Res.States++
	c.Res.Traces++
	return true
}

func hexDoc(c *Ctx, doc string) bool {
	inner, quoted, open := split(doc)
	want := -1
	var val []byte
	if open {
		want = 0
	} else if quoted && len(inner)%2 == 0 {
		want = 1
		for i := 0; i < len(inner); i++ {
			d := strings.IndexByte("0123456789abcdef", lower(inner[i]))
			if d < 0 {
				want, val = -1, nil
				break
			}
			if i%2 == 0 {
				val = append(val, byte(d<<4))
			} else {
				val[i/2] |= byte(d)
			}
		}
	}
	old := bin.HexBytes{9, 9, 9, 9}
	vs, errs, ok := jparse(c, "HexBytes", doc, func() jsonTgt { v := old; return &v })
	if !ok {
		return false
	}
	for via := range vs {
		got := []byte(*vs[via].(*bin.HexBytes))
		padded := via == 0 && doc != strings.Trim(doc, " \t\r\n")
		switch {
		case errs[via] != nil && want == 1 && !padded:
			c.Fail("HexBytes: %s is refused: %v", doc, errs[via])
			return false
		case errs[via] == nil && want == -1:
			c.Fail("HexBytes: %s is accepted as %x", doc, got)
			return false
		case errs[via] == nil && want == 1 && string(got) != string(val):
			c.Fail("HexBytes: %s parses to %x", doc, got)
			return false
		}
	}
	if string(old) != "\x09\x09\x09\x09" {
		c.Fail("HexBytes: parsing %s wrote into the old value's memory", doc)
		return false
	}
	c.Res.States++
	c.Res.Traces++
	return true
}

func lower(b byte) byte {
	if b >= 'A' && b <= 'Z' {
		return b + 32
	}
	return b
}

type jsonBox struct {
	I  bin.Int64
	U  bin.Uint64
	P  *bin.Int64
	Q  *bin.Uint64
	S  []bin.Uint64
	M  map[string]bin.Int64
	F  bin.JSONFloat64
	B  bin.Bool
	H  bin.HexBytes
	HH []bin.HexBytes
}

func intVal(c *Ctx, w uint64) bool {
	i, u := bin.Int64(w), bin.Uint64(w)
	for typ := 0; typ < 2; typ++ {
		var j []byte
		var err error
		want := strconv.FormatInt(int64(w), 10)
		quoted := int64(w) > 0xffffffff || int64(w) < -0xffffffff
		name := "Int64"
		var v any = i
		if typ == 1 {
			want, quoted, name, v = strconv.FormatUint(w, 10), w > 0xffffffff, "Uint64", u
		}
		plain := want
		if quoted {
			want = `"` + want + `"`
		}
		for via := 0; via < 2; via++ {
			p := catch(func() {
				if via == 0 {
					j, err = v.(json.Marshaler).MarshalJSON()
				} else {
					j, err = json.Marshal(v)
				}
			})
			c.Res.Transitions++
			if p != "" || err != nil || string(j) != want {
				c.Fail("%s %s: JSON %s, want %s (%v %s)", name, plain, j, want, err, p)
				return false
			}
		}
	}
	// quoted and unquoted forms of both readings are accepted alike
	for _, s := range []string{strconv.FormatInt(int64(w), 10), strconv.FormatUint(w, 10)} {
		if !intDoc(c, s) || !intDoc(c, `"`+s+`"`) {
			return false
		}
	}
	// inside a document
	pi, pu := i, u
	box := jsonBox{I: i, U: u, P: &pi, Q: &pu, S: []bin.Uint64{u, 1, u}, M: map[string]bin.Int64{"a": i}, H: bin.HexBytes{byte(w)}, B: w&1 == 1, HH: []bin.HexBytes{{}, {byte(w >> 8)}}}
	var back jsonBox
	var err error
	if p := catch(func() {
		var j []byte
		if j, err = json.Marshal(box); err == nil {
			err = json.Unmarshal(j, &back)
		}
	}); p != "" || err != nil {
		c.Fail("document with %d: %v %s", w, err, p)
		return false
	}
	if back.I != i || back.U != u || back.P == nil || *back.P != i || back.Q == nil || *back.Q != u || fmt.Sprint(back.S) != fmt.Sprint(box.S) || back.M["a"] != i || string(back.H) != string(box.H) || back.B != box.B || len(back.HH) != 2 || string(back.HH[1]) != string(box.HH[1]) {
		c.Fail("document %+v reads back as %+v", box, back)
		return false
	}
	c.Res.States++
	c.Res.Traces++
	return true
}

func floatVal(c *Ctx, bits uint64) bool {
	f := math.Float64frombits(bits)
	v := bin.JSONFloat64(f)
	var j []byte
	var err error
	p := catch(func() { j, err = json.Marshal(v) })
	c.Res.Transitions++
	if math.IsNaN(f) || math.IsInf(f, 0) {
		if p != "" {
			c.Fail("JSONFloat64 %v: marshalling panics: %s", f, p)
			return false
		}
		return true // JSON has no such number
	}
	if p != "" || err != nil || !json.Valid(j) {
		c.Fail("JSONFloat64 %v: JSON %s (%v %s)", f, j, err, p)
		return false
	}
	for _, doc := range []string{string(j), `"` + string(j) + `"`} {
		if strings.HasPrefix(string(j), `"`) && doc != string(j) {
			continue
		}
		vs, errs, ok := jparse(c, "JSONFloat64", doc, func() jsonTgt { x := bin.JSONFloat64(1); return &x })
		if !ok {
			return false
		}
		for via := range vs {
			got := float64(*vs[via].(*bin.JSONFloat64))
			if errs[via] != nil || math.Float64bits(got) != bits {
				c.Fail("JSONFloat64 %v (%x): JSON %s parses to %v (%v)", f, bits, doc, got, errs[via])
				return false
			}
		}
	}
	c.Res.States++
	c.Res.Traces++
	return true
}

func hexValue(c *Ctx, b []byte) bool {
	v := bin.HexBytes(b)
	var j []byte
	var err error
	p := catch(func() { j, err = json.Marshal(v) })
	if p != "" || err != nil || string(j) != `"`+hex.EncodeToString(b)+`"` {
		c.Fail("HexBytes %x: JSON %s (%v %s)", b, j, err, p)
		return false
	}
	if v.String() != hex.EncodeToString(b) {
		c.Fail("HexBytes %x: String %s", b, v.String())
		return false
	}
	c.Res.Transitions += 2
	return hexDoc(c, string(j)) && hexDoc(c, strings.ToUpper(string(j)))
}

func runC15(c *Ctx) {
	small := 20000
	if c.Thorough {
		small = 300000
	}
	if c.Extra {
		small = 20000000
	}
	c.Group("small")
	for i := 0; i < small; i++ {
		if !c.Next() {
			continue
		}
		if !intVal(c, uint64(i)) || !intVal(c, -uint64(i)) {
			return
		}
	}
	c.Group("around")
	rad := 64
	if c.Thorough {
		rad = 4096
	}
	for _, base := range []uint64{1 << 31, 1 << 32, 1 << 53, 1 << 62, 1 << 63, ^uint64(1<<31) + 1, ^uint64(1<<32) + 1, ^uint64(1<<53) + 1, ^uint64(1<<62) + 1, 0} {
		for d := -rad; d <= rad; d++ {
			if c.Next() && !intVal(c, base+uint64(int64(d))) {
				return
			}
		}
	}
	c.Group("lattice")
	for _, v := range lattice(64) {
		for d := -1; d <= 1; d++ {
			if !c.Next() {
				continue
			}
			if !intVal(c, v+uint64(int64(d))) || !floatVal(c, v+uint64(int64(d))) {
				return
			}
		}
	}
	c.Group("floats")
	for e := 0; e < 2047; e++ {
		if !c.Next() {
			continue
		}
		for _, m := range []uint64{0, 1, 1<<52 - 1, 1 << 51, 0x5555555555555, 0x123456789abcd} {
			for s := uint64(0); s < 2; s++ {
				if !floatVal(c, s<<63|uint64(e)<<52|m) {
					return
				}
			}
		}
	}
	for i := 0; i < small/4; i++ {
		if c.Next() && (!floatVal(c, math.Float64bits(float64(i)/10)) || !floatVal(c, math.Float64bits(-float64(i)*1e17))) {
			return
		}
	}
	// numbers around powers, as texts
	c.Group("pow")
	for _, base := range []int64{2, 10} {
		for k := int64(0); k <= 70; k++ {
			x := new(big.Int).Exp(big.NewInt(base), big.NewInt(k), nil)
			for d := int64(-2); d <= 2; d++ {
				if !c.Next() {
					continue
				}
				s := new(big.Int).Add(x, big.NewInt(d)).String()
				for _, sg := range []string{"", "-"} {
					for _, suf := range []string{"", ".0", ".5", "e0", "e1", "e-1", "E+2", " ", "x"} {
						for _, q := range []string{"", `"`} {
							doc := q + sg + s + suf + q
							if strings.HasPrefix(s, "-") && sg == "-" {
								continue
							}
							if !intDoc(c, doc) || !floatDoc(c, doc) || !boolDoc(c, doc) {
								return
							}
						}
					}
				}
			}
		}
	}
	c.Group("fpow")
	for k := -340; k <= 320; k++ {
		for _, m := range []string{"1", "-1", "4.9", "5", "1.7976931348623157", "1.7976931348623159", "2.2250738585072011", "9007199254740993", "0"} {
			if !c.Next() {
				continue
			}
			s := fmt.Sprintf("%se%d", m, k)
			if !floatDoc(c, s) || !floatDoc(c, `"`+s+`"`) {
				return
			}
		}
	}
	// every text over an alphabet
	n := 6
	if c.Thorough {
		n = 7
	}
	short := 4
	if c.Extra {
		n, short = 8, 5
	}
	run := func(g, alpha string, n int, f func(string) bool) bool {
		c.Group(g)
		var rec func(pre string) bool
		rec = func(pre string) bool {
			if c.Next() && !f(pre) {
				return false
			}
			if len(pre) == n {
				return true
			}
			for i := 0; i < len(alpha); i++ {
				if !rec(pre + alpha[i:i+1]) {
					return false
				}
			}
			return true
		}
		return rec("")
	}
	quoteToo := func(f func(*Ctx, string) bool) func(string) bool {
		return func(s string) bool { return f(c, s) && f(c, `"`+s+`"`) }
	}
	if !run("inttext", `019-+.e "`, n, quoteToo(intDoc)) {
		return
	}
	if !run("floattext", `015-+.eE"`, n, quoteToo(floatDoc)) {
		return
	}
	if !run("floatword", `INFinfaxp0_`, short, quoteToo(floatDoc)) {
		return
	}
	if !run("booltext", `01-.e"tn `, short, quoteToo(boolDoc)) {
		return
	}
	if !run("hextext", `09aFgG"x `, n, quoteToo(hexDoc)) {
		return
	}
	if !run("raw", `{}[]:,"1nul\t`, short-1, func(s string) bool {
		return intDoc(c, s) && floatDoc(c, s) && boolDoc(c, s) && hexDoc(c, s)
	}) {
		return
	}
	c.Group("words")
	for _, s := range []string{"true", "false", "True", "TRUE", "tru", "truee", "falsey", `"true"`, " true ", "null", "[true]", "{}", "[1]", "1 2", "1,", "", " ", `""`, `"`, `" 1"`, `"1 "`, " 1", "1 ", "\t1\n", "0x10", `"0x10"`, "1_000", `"1_000"`, "NaN", "Infinity", "\x00", "1\x00", "é", `"é"`, `"１"`, "１", strings.Repeat("9", 500), `"` + strings.Repeat("9", 500) + `"`, strings.Repeat("[", 20000), strings.Repeat("0", 30), `"` + strings.Repeat("0", 30) + `"`, "-", `"-"`, "--1", `"--1"`, `"ab`, `ab"`, `"0g"`, `"0"`, `"0a0"`, `"0A"`} {
		if !c.Next() {
			continue
		}
		if !intDoc(c, s) || !floatDoc(c, s) || !boolDoc(c, s) || !hexDoc(c, s) {
			return
		}
	}
	// hex bytes: every byte in every place
	c.Group("hexval")
	for i := 0; i < 256; i++ {
		if !c.Next() {
			continue
		}
		if !hexValue(c, []byte{byte(i)}) || !hexValue(c, []byte{1, byte(i), 0xfe}) {
			return
		}
		for _, n := range []int{0, 1, 2, 31, 32, 33, 64, 100, 1000} {
			b := make([]byte, n)
			for k := range b {
				b[k] = byte(k*7 + i)
			}
			if !hexValue(c, b) {
				return
			}
		}
	}
	// long texts: every length, one wrong character in every place
	c.Group("long")
	for n := 0; n <= 400; n++ {
		if !c.Next() {
			continue
		}
		hx := make([]byte, n)
		dg := make([]byte, n)
		for k := range hx {
			hx[k] = "0123456789abcdefABCDEF"[(k*5+n)%22]
			dg[k] = "1234567890"[(k*3+n)%10]
		}
		if n > 0 && dg[0] == '0' {
			dg[0] = '7'
		}
		docs := []string{string(hx), string(dg), "0." + string(dg), "-" + string(dg), string(dg) + "e-" + fmt.Sprint(n), "1e" + fmt.Sprint(n), "-1e-" + fmt.Sprint(n), string(dg) + ".0"}
		for p := 0; p < n && n <= 140; p++ {
			for _, bad := range []byte{'g', ' ', '-', '.'} {
				if (p+n)%4 != 0 && p > 2 && p < n-3 && bad != 'g' {
					continue
				}
				b := append([]byte{}, hx...)
				b[p] = bad
				d := append([]byte{}, dg...)
				d[p] = bad
				docs = append(docs, string(b), string(d))
			}
		}
		for _, s := range docs {
			for _, s := range []string{s, `"` + s + `"`} {
				if !intDoc(c, s) || !floatDoc(c, s) || !hexDoc(c, s) {
					return
				}
			}
		}
	}
	if c.Next() {
		hexValue(c, nil)
		for _, b := range []bool{true, false} {
			j, err := json.Marshal(bin.Bool(b))
			if err != nil || string(j) != fmt.Sprint(b) {
				c.Fail("Bool %v: JSON %s %v", b, j, err)
			}
			boolDoc(c, string(j))
		}
	}
	if c.Thorough {
		c.Group("hex2")
		for i := 0; i < 65536; i++ {
			if c.Next() && !hexValue(c, []byte{byte(i), byte(i >> 8)}) {
				return
			}
		}
	}
}
