package main

// Value domains and the type catalogue.

import (
	"math"
	"reflect"

	bin "github.com/gagliardetto/binary"
)

func rv(x any, rt reflect.Type) reflect.Value {
	v := reflect.New(rt).Elem()
	v.Set(reflect.ValueOf(x).Convert(rt))
	return v
}

// lattice64: boundary lattice of an n-bit word: every single bit, its
// complement, every low run, every high run, byte patterns, +-1 around.
func lattice(n int) []uint64 {
	mask := uint64(math.MaxUint64)
	if n < 64 {
		mask = 1<<n - 1
	}
	seen := map[uint64]bool{}
	var out []uint64
	add := func(v uint64) {
		v &= mask
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	add(0x0102030405060708)
	add(0)
	add(mask)
	for i := 0; i < n; i++ {
		b := uint64(1) << i
		add(b)
		add(b - 1)
		add(b + 1)
		add(^b)
		add(^(b - 1))
	}
	for i := 0; i+8 <= n; i += 8 {
		for _, p := range []uint64{0x7f, 0x80, 0xff, 0xa5} {
			add(p << i)
			add(^(p << i))
		}
	}
	for i := 0; i+7 <= n; i += 7 {
		add(0x7f << i)
		add(0x55 << i)
	}
	add(0x8182838485868788)
	add(0xfedcba9876543210)
	return out
}

// pattern: a byte-asymmetric value that differs per salt.
func pattern(salt int, n int) uint64 {
	var v uint64
	for i := 0; i < n; i++ {
		v = v<<8 | uint64(byte(0x11*(i+1)+salt*7+3))
	}
	return v
}

func leafBits(k Kind) int {
	switch k {
	case KU8, KI8:
		return 8
	case KU16, KI16, KVarint16, KVaruint16:
		return 16
	case KU32, KI32, KVarint32, KVaruint32:
		return 32
	}
	return 64
}

// vals enumerates values of t. lvl 0: two values; 1: a few; 2: full lattice
// for scalars. salt makes sibling positions distinguishable. The first value
// is never the zero value.
func vals(t *T, lvl int, salt int) []reflect.Value {
	var out []reflect.Value
	switch t.K {
	case KBool, KLBool:
		return []reflect.Value{rv(true, t.RT), rv(false, t.RT)}
	case KU8, KU16, KU32, KU64, KLU64, KVaruint16, KVaruint32, KI8, KI16, KI32, KI64, KLI64, KVarint16, KVarint32:
		n := leafBits(t.K)
		var ws []uint64
		switch {
		case lvl >= 2 && n == 8:
			for i := 0; i < 256; i++ {
				ws = append(ws, uint64(i))
			}
		case lvl >= 2:
			ws = append([]uint64{pattern(salt, n/8)}, lattice(n)...)
		case lvl == 1:
			ws = []uint64{pattern(salt, n/8), 0, math.MaxUint64, 1 << (n - 1), 0x80}
		default:
			ws = []uint64{pattern(salt, n/8), 0}
		}
		for _, w := range ws {
			v := reflect.New(t.RT).Elem()
			if v.CanInt() {
				v.SetInt(int64(w<<(64-n)) >> (64 - n))
			} else {
				v.SetUint(w << (64 - n) >> (64 - n))
			}
			out = append(out, v)
		}
		return out
	case KF32:
		bs := []uint32{0x3f9d70a4 + uint32(salt), 0}
		if lvl >= 1 {
			bs = append(bs, 0xbf800001, 0x7f800000, 0x00000001, 0x7f7fffff)
		}
		if lvl >= 2 {
			for _, x := range lattice(32) {
				bs = append(bs, uint32(x))
			}
		}
		for _, b := range bs {
			if isNaNBits(uint64(b), 4) {
				b |= 0x400000 // quiet
			}
			v := reflect.New(t.RT).Elem()
			setF32(v, uint64(b))
			out = append(out, v)
		}
		return out
	case KF64, KJSONF64:
		bs := []uint64{0x3ff3ae147ae147ae + uint64(salt), 0}
		if lvl >= 1 {
			bs = append(bs, 0xbff0000000000001, 0x7ff0000000000000, 1, 0x7fefffffffffffff)
		}
		if lvl >= 2 {
			bs = append(bs, lattice(64)...)
		}
		for _, b := range bs {
			if isNaNBits(b, 8) {
				b |= 1 << 51
			}
			out = append(out, rv(math.Float64frombits(b), t.RT))
		}
		return out
	case KU128:
		type p struct{ lo, hi uint64 }
		ps := []p{{pattern(salt, 8), pattern(salt+1, 8)}, {0, 0}}
		if lvl >= 1 {
			ps = append(ps, p{math.MaxUint64, 0}, p{0, 1}, p{0, 1 << 63}, p{math.MaxUint64, math.MaxUint64})
		}
		if lvl >= 2 {
			for _, x := range lattice(64) {
				ps = append(ps, p{x, 0x0102030405060708}, p{0x8070605040302010, x})
			}
		}
		for _, x := range ps {
			v := reflect.New(t.RT).Elem()
			v.Field(0).SetUint(x.lo)
			v.Field(1).SetUint(x.hi)
			out = append(out, v)
		}
		return out
	case KStr, KSafeStr:
		ss := []string{"ab" + string(rune('c'+salt%20)), ""}
		if lvl >= 1 {
			ss = append(ss, "\x00", "héé€\U0001F600")
		}
		if lvl >= 2 {
			if t.K == KStr {
				ss = append(ss, "\xff\xfe", "a\x80", "\xc3", "\xed\xa0\x80")
				for i := 0; i < 256; i++ { // content is opaque: nothing trimmed, nothing replaced
					ss = append(ss, string([]byte{byte(i)}), string([]byte{'a', byte(i)}), string([]byte{byte(i), 'a'}))
				}
			} else {
				for i := 0; i < 128; i++ {
					ss = append(ss, string([]byte{byte(i)}), string([]byte{'a', byte(i)}), string([]byte{byte(i), 'a'}))
				}
			}
			ss = append(ss, "\ufeffx", "x\ufffd", "\u2028", "a\u0301", "\u00a0")
			for _, n := range []int{1, 2, 7, 8, 9, 31, 32, 33, 126, 127, 128, 129, 255, 256, 257, 300} {
				ss = append(ss, fill(n, salt))
			}
		}
		for _, s := range ss {
			out = append(out, rv(s, t.RT))
		}
		return out
	case KHex:
		bs := [][]byte{{0xde, 0xad, byte(salt)}, nil}
		if lvl >= 1 {
			bs = append(bs, []byte{0}, []byte{}, []byte{0xff, 0x00, 0x80, 0x7f})
		}
		if lvl >= 2 {
			for _, n := range []int{1, 2, 31, 32, 127, 128, 255, 256} {
				bs = append(bs, []byte(fill(n, salt)))
			}
		}
		for _, b := range bs {
			v := reflect.New(t.RT).Elem()
			if b != nil {
				v.SetBytes(b)
			}
			out = append(out, v)
		}
		return out
	case KArr:
		if t.N == 0 {
			return []reflect.Value{reflect.New(t.RT).Elem()}
		}
		for _, tup := range tuples(t.Elem, t.N, lvl, salt) {
			v := reflect.New(t.RT).Elem()
			for i, x := range tup {
				v.Index(i).Set(x)
			}
			out = append(out, v)
		}
		return out
	case KSlice:
		ns := []int{2, 0}
		if lvl >= 1 {
			ns = []int{2, 0, 1, 3}
		}
		if lvl >= 2 {
			ns = []int{2, 0, 1, 3, 4, 5, 7, 8}
		}
		for _, n := range ns {
			if n == 0 {
				out = append(out, reflect.New(t.RT).Elem()) // nil
				if lvl >= 1 {
					v := reflect.New(t.RT).Elem()
					v.Set(reflect.MakeSlice(t.RT, 0, 0))
					out = append(out, v)
				}
				continue
			}
			for _, tup := range tuples(t.Elem, n, lvl-1, salt) {
				v := reflect.New(t.RT).Elem()
				v.Set(reflect.MakeSlice(t.RT, n, n))
				for i, x := range tup {
					v.Index(i).Set(x)
				}
				out = append(out, v)
			}
		}
		return out
	case KMap:
		ks := distinctKeys(t.Key, salt)
		vs := vals(t.Elem, lvl-1, salt+1)
		ns := []int{2, 0}
		if lvl >= 1 {
			ns = []int{2, 0, 1, 3}
		}
		if lvl >= 2 {
			ns = []int{2, 0, 1, 3, 4}
		}
		for _, n := range ns {
			if n > len(ks) {
				continue
			}
			v := reflect.New(t.RT).Elem()
			if n > 0 {
				v.Set(reflect.MakeMap(t.RT))
				for i := 0; i < n; i++ {
					v.SetMapIndex(ks[i], vs[i%len(vs)])
				}
			}
			out = append(out, v)
		}
		if lvl >= 1 {
			v := reflect.New(t.RT).Elem()
			v.Set(reflect.MakeMap(t.RT)) // empty, not nil
			out = append(out, v)
		}
		return out
	case KPtr:
		for _, x := range vals(t.Elem, lvl, salt) {
			p := reflect.New(t.Elem.RT)
			p.Elem().Set(x)
			v := reflect.New(t.RT).Elem()
			v.Set(p)
			out = append(out, v)
		}
		return out
	case KStruct:
		return structVals(t, lvl, salt)
	case KCust:
		for _, x := range t.C.dom(salt) {
			out = append(out, rv(x, t.RT))
		}
		if lvl < 1 && len(out) > 2 {
			out = out[:2]
		}
		return out
	}
	panic("vals")
}

func fill(n, salt int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('!' + (i*7+salt+i/64)%90)
	}
	return string(b)
}

func distinctKeys(t *T, salt int) []reflect.Value {
	var out []reflect.Value
	for _, v := range vals(t, 1, salt) {
		dup := false
		for _, o := range out {
			if o.Interface() == v.Interface() {
				dup = true
			}
		}
		if !dup {
			out = append(out, v)
		}
	}
	return out
}

// tuples of n element values: all-first pattern, each alternative at each
// position, and for small n the full product of the two-value domain.
func tuples(e *T, n, lvl, salt int) [][]reflect.Value {
	var dom [][]reflect.Value
	for i := 0; i < n; i++ {
		dom = append(dom, vals(e, lvl, salt+i))
	}
	return combos(dom)
}

func combos(dom [][]reflect.Value) [][]reflect.Value {
	total := 1
	for _, d := range dom {
		total *= len(d)
		if total > 40 {
			break
		}
	}
	var out [][]reflect.Value
	if total <= 40 {
		idx := make([]int, len(dom))
		for {
			row := make([]reflect.Value, len(dom))
			for i := range dom {
				row[i] = dom[i][idx[i]]
			}
			out = append(out, row)
			k := len(dom) - 1
			for ; k >= 0; k-- {
				idx[k]++
				if idx[k] < len(dom[k]) {
					break
				}
				idx[k] = 0
			}
			if k < 0 {
				return out
			}
		}
	}
	base := make([]reflect.Value, len(dom))
	for i := range dom {
		base[i] = dom[i][0]
	}
	out = append(out, base)
	for i := range dom {
		for j := 1; j < len(dom[i]); j++ {
			row := append([]reflect.Value{}, base...)
			row[i] = dom[i][j]
			out = append(out, row)
		}
	}
	for j := 1; j < 3; j++ { // all positions at alternative j
		row := make([]reflect.Value, len(dom))
		for i := range dom {
			row[i] = dom[i][j%len(dom[i])]
		}
		out = append(out, row)
	}
	return out
}

var recursionDepth int

// recursive: the type contains itself.
func recursive(t *T) bool {
	var walk func(x *T, path map[*T]bool) bool
	walk = func(x *T, path map[*T]bool) bool {
		if x == nil {
			return false
		}
		if path[x] {
			return true
		}
		path[x] = true
		defer delete(path, x)
		if walk(x.Elem, path) || walk(x.Key, path) {
			return true
		}
		for _, f := range x.Fields {
			if walk(f.T, path) {
				return true
			}
		}
		return false
	}
	return walk(t, map[*T]bool{})
}

func structVals(t *T, lvl, salt int) []reflect.Value {
	if t.Enum {
		return enumVals(t, lvl, salt)
	}
	recursionDepth++
	defer func() { recursionDepth-- }()
	var dom [][]reflect.Value
	var idx []int
	v0 := reflect.New(t.RT).Elem()
	sizer := map[string]int{} // sized field -> index of count field
	for i, f := range t.Fields {
		if f.SizeOf != "" && !f.Skip && v0.FieldByName(f.SizeOf).IsValid() {
			sizer[f.SizeOf] = i
		}
	}
	for i, f := range t.Fields {
		if f.Hidden {
			continue
		}
		if _, ok := sizer[f.SizeOf]; ok && f.SizeOf != "" {
			continue // set from the slice below
		}
		l := lvl
		if len(t.Fields) > 1 && l > 1 {
			l = 1
		}
		var d []reflect.Value
		if recursionDepth > 3 && (f.T.K == KPtr || f.T.K == KSlice || f.T.K == KMap) && recursive(f.T) {
			d = []reflect.Value{reflect.New(f.T.RT).Elem()}
		} else {
			d = vals(f.T, l, salt+i)
			if f.Opt || f.COpt {
				if f.T.K == KPtr { // plus absent
					d = append(d, reflect.New(f.T.RT).Elem())
				} else if f.T.K == KF32 || f.T.K == KF64 || f.T.K == KJSONF64 {
					d = dropNegZero(d)
				}
			}
		}
		dom = append(dom, d)
		idx = append(idx, i)
	}
	if len(dom) == 0 && len(sizer) == 0 {
		return []reflect.Value{reflect.New(t.RT).Elem()}
	}
	var out []reflect.Value
	for _, row := range combos(dom) {
		v := reflect.New(t.RT).Elem()
		for j, x := range row {
			v.Field(idx[j]).Set(x)
		}
		for name, ci := range sizer {
			n := sliceLen(v.FieldByName(name))
			if cv := v.Field(ci); cv.CanInt() {
				cv.SetInt(int64(n))
			} else {
				cv.SetUint(uint64(n))
			}
		}
		out = append(out, v)
	}
	return out
}

// sliceLen: the length of a slice, be it behind pointers.
func sliceLen(v reflect.Value) int {
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return 0
		}
		v = v.Elem()
	}
	return v.Len()
}

func dropNegZero(d []reflect.Value) []reflect.Value {
	var o []reflect.Value
	for _, v := range d {
		if f := v.Float(); f == 0 && math.Signbit(f) {
			continue
		}
		o = append(o, v)
	}
	return o
}

func enumVals(t *T, lvl, salt int) []reflect.Value {
	var out []reflect.Value
	for i := 1; i < len(t.Fields); i++ {
		for _, x := range vals(t.Fields[i].T, lvl, salt+i) {
			v := reflect.New(t.RT).Elem()
			// required pointers of the other payloads stay nil: not encoded
			v.Field(0).SetUint(uint64(i - 1))
			v.Field(i).Set(x)
			out = append(out, v)
		}
	}
	return out
}

// hasNaN / usable: which encodings a value is in the contract of.
func enumOnlyBorsh(t *T) bool { return containsEnum(t, map[*T]bool{}) }

func containsEnum(t *T, seen map[*T]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	if t.Enum {
		return true
	}
	if containsEnum(t.Elem, seen) || containsEnum(t.Key, seen) {
		return true
	}
	for _, f := range t.Fields {
		if containsEnum(f.T, seen) {
			return true
		}
	}
	return false
}

func encodingsFor(t *T) []bin.Encoding {
	if enumOnlyBorsh(t) {
		return []bin.Encoding{bin.EncodingBorsh}
	}
	return allEnc
}

// static types -------------------------------------------------------------

type Node struct {
	V    uint16
	Next *Node `bin:"optional"`
}

type Inner struct {
	A uint8
	B uint32 `bin:"big"`
}
type Embeds struct {
	Inner
	C    string
	priv uint64
	D    int16
}
type Tree struct {
	Name string
	Kids []Tree
	Attr map[string][]byte
}
type Account struct {
	Disc     bin.TypeID
	Owner    [32]byte
	Lamports bin.Uint64
	Supply   bin.Uint128
	Delta    bin.Int64 `bin:"big"`
	Name     string
	Data     []byte
	Deleg    *[4]byte `bin:"optional"`
	Auth     *[4]byte `bin:"coption"`
	Flags    [3]bool
	Rates    []float64
	Skip     uint64 `bin:"-"`
	Meta     map[string]uint32
	Nested   []Inner
	Ptr      *Inner
	Last     uint8
}

// Odd: blank, embedded-pointer, unexported embedded and shadowed fields, and
// recursion through maps and pointers.
type hiddenEmb struct{ A, B uint16 }
type Odd struct {
	_ uint32
	*Inner
	hiddenEmb
	A uint16 `bin:"big"`
	_ [3]byte
	M map[uint8]*Odd
	L []*Inner
	Z uint8
}

// Embedded fields: pointers, single-field and field-less structs, tagged,
// skipped, nested, and named types that are no structs.
type One struct{ V uint32 }
type OneStr struct {
	S string `bin:"optional"`
}
type Three struct {
	X uint8
	Y *uint16 `bin:"optional"`
	W []uint16
}
type Blank struct{}
type NamedList []uint16
type NamedArr [3]uint16
type EmbA struct {
	*One
	B uint8
}
type EmbB struct {
	A uint8
	OneStr
	*Three
}
type EmbC struct {
	*One   `bin:"optional"`
	*Three `bin:"optional"`
	OneStr `bin:"big"`
	Z      uint16
}
type EmbD struct {
	One    `bin:"-"`
	*Three `bin:"skip"`
	Blank
	NU16 `bin:"big"`
	NamedList
	Z uint8
}
type EmbE struct {
	*EmbA
	EmbB
	NamedArr
	N uint8 `bin:"sizeof=NamedList"`
	NamedList
}

func staticTypes() []*T {
	return []*T{
		FromGo(reflect.TypeOf(One{})),
		FromGo(reflect.TypeOf(EmbA{})),
		FromGo(reflect.TypeOf(EmbB{})),
		FromGo(reflect.TypeOf(EmbC{})),
		FromGo(reflect.TypeOf(EmbD{})),
		FromGo(reflect.TypeOf(EmbE{})),
		FromGo(reflect.TypeOf(Odd{})),
		FromGo(reflect.TypeOf(Node{})),
		FromGo(reflect.TypeOf(Embeds{})),
		FromGo(reflect.TypeOf(Tree{})),
		FromGo(reflect.TypeOf(Account{})),
	}
}

var reducedLeaves = []*T{tBool, tU8, tU16, tI64, tF32, tStr, tNU8, tNU32, tVarint32, tVaruint16, tLU64, tU128, tHex, tUStruct}

// containers applied to e; ptr is used as a struct field.
func containers(e *T) []*T {
	c := []*T{
		ArrT(2, e),
		SliceT(e),
		MapT(tU16, e),
		S(PtrT(e), tU8),
		S(tI16, e),
	}
	return c
}

// TV is one (type, values) entry of the catalogue.
type TV struct {
	T   *T
	Lvl int
	grp string
}

func mapKeys() []*T {
	return append(append([]*T{}, plainLeaves...), tNBool, tNU8, tNU16, tNU32, tNU64, tNI8, tNI16, tNI32, tNI64, tNF32, tNF64, tNStr, ArrT(3, tU8), ArrT(2, tI16), tTypeID, tLU64, tLI64, tVarint32, tVaruint16, tSafeStr, tUI32, tUStr, tUU64, tLBool)
}

func keyable(e *T) bool {
	for _, k := range mapKeys() {
		if k == e {
			return true
		}
	}
	return false
}

// fixCounts sets the sizeof counts of a struct from its slices.
func fixCounts(t *T, v reflect.Value) {
	for i, f := range t.Fields {
		if f.SizeOf == "" || f.Skip || !v.FieldByName(f.SizeOf).IsValid() {
			continue
		}
		n := sliceLen(v.FieldByName(f.SizeOf))
		if cv := v.Field(i); cv.CanInt() {
			cv.SetInt(int64(n))
		} else {
			cv.SetUint(uint64(n))
		}
	}
}

// catalogue of types. depth 1..3.
func catalogue(depth int) []TV {
	var out []TV
	add := func(g string, lvl int, ts ...*T) {
		for _, t := range ts {
			out = append(out, TV{t, lvl, g})
		}
	}
	leaves := append(allLeaves(), userLeaves()...)
	add("leaf", 2, leaves...)
	add("leaf", 1, tTypeID, tEmpty, tUnit)
	for _, e := range leaves {
		add("cont", 1, ArrT(0, e), ArrT(1, e), ArrT(3, e), SliceT(e), MapT(tStr, e), S(e), S(PtrT(e)), SliceT(S(e, tU8)), SliceT(PtrT(e)), MapT(tU8, PtrT(e)), ArrT(2, PtrT(e)))
	}
	add("cont", 1, S(PtrT(tUPtr)), SliceT(PtrT(tUPtr)), MapT(tU8, PtrT(tUPtr)), ArrT(2, PtrT(tUPtr)))
	keys := mapKeys()
	for _, k := range keys {
		add("key", 1, MapT(k, tU8), MapT(k, tStr), SliceT(MapT(k, S(tU16, tBool))))
	}
	for _, a := range leaves {
		for _, b := range leaves {
			add("pair", 0, S(a, b))
		}
	}
	add("static", 1, staticTypes()...)
	for _, e := range reducedLeaves {
		for _, c := range containers(e) {
			for _, d := range containers(c) {
				add("deep2", 1, d)
				if depth >= 3 {
					for _, g := range containers(d) {
						add("deep3", 0, g)
					}
				}
			}
		}
	}
	if depth >= 3 {
		for _, a := range reducedLeaves {
			for _, b := range reducedLeaves {
				for _, c := range reducedLeaves {
					add("triple", 0, S(a, b, c))
				}
			}
		}
	}
	return out
}
