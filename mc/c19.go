package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	bin "github.com/gagliardetto/binary"
)

func init() {
	register("C19", &Check{Level: "model_checking",
		Rule:        "state = distinct (type, encoding, bytes); transition = one encode, decode, slice mutation or re-read; trace = one value encoded and decoded with deep snapshots (including spare capacity) compared after every step and after mutating every decoded slice, the input and the output in turn",
		Assumptions: []string{"types and values as in C01 (values capped per type; encodings up to 3000 bytes); every decoded slice mutated over its whole capacity; re-decoding over every value with up to 3 others, with and without spare capacity; all sequences of 3 byte-returning decoder calls; all sequences of up to 4 recorded writes"},
		Promote:     true,
		Run:         runC19})
}

// dump lists every leaf of a value with its path. With spare, slices are
// listed up to their capacity.
type dumper struct {
	spare bool
	noStr bool
	out   map[string]string
	// slices met, by path
	slices map[string]reflect.Value
	nobyte bool // leave out byte slices
}

func (d *dumper) walk(p string, v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			d.out[p] = "nil"
			return
		}
		d.walk(p+"*", v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			d.out[p] = "nil"
			return
		}
		d.walk(p, v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			d.walk(p+"."+v.Type().Field(i).Name, v.Field(i))
		}
	case reflect.Array:
		d.elems(p, v, v.Len())
	case reflect.Slice:
		if v.IsNil() {
			d.out[p] = "nil"
			return
		}
		if d.slices != nil {
			d.slices[p] = v
		}
		if d.nobyte && v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		d.out[p+"#"] = fmt.Sprint(v.Len())
		if d.spare {
			v = v.Slice(0, v.Cap())
		}
		d.elems(p, v, v.Len())
	case reflect.Map:
		if v.IsNil() {
			d.out[p] = "nil"
			return
		}
		d.out[p+"#"] = fmt.Sprint(v.Len())
		for _, k := range v.MapKeys() {
			d.walk(p+"["+leafRepr(k)+"]", v.MapIndex(k))
		}
	default:
		d.out[p] = leafRepr(v)
	}
}

func (d *dumper) elems(p string, v reflect.Value, n int) {
	if k := v.Type().Elem().Kind(); k == reflect.Uint8 || k == reflect.Bool {
		var b strings.Builder
		for i := 0; i < n; i++ {
			if k == reflect.Bool {
				fmt.Fprint(&b, v.Index(i).Bool())
			} else {
				b.WriteByte(byte(v.Index(i).Uint()))
			}
		}
		d.out[p+"[]"] = b.String()
		return
	}
	for i := 0; i < n; i++ {
		d.walk(fmt.Sprintf("%s[%d]", p, i), v.Index(i))
	}
}

func leafRepr(v reflect.Value) string {
	switch {
	case v.Kind() == reflect.String:
		return strings.Clone(v.String())
	case v.Kind() == reflect.Bool:
		return fmt.Sprint(v.Bool())
	case v.CanInt():
		return fmt.Sprint(v.Int())
	case v.CanUint():
		return fmt.Sprint(v.Uint())
	case v.CanFloat():
		return fmt.Sprintf("%x", math.Float64bits(v.Float()))
	case v.Kind() == reflect.Array:
		var s []string
		for i := 0; i < v.Len(); i++ {
			s = append(s, leafRepr(v.Index(i)))
		}
		return strings.Join(s, ",")
	case v.Kind() == reflect.Struct:
		var s []string
		for i := 0; i < v.NumField(); i++ {
			s = append(s, leafRepr(v.Field(i)))
		}
		return strings.Join(s, ",")
	}
	return v.Kind().String()
}

func dumpOf(v reflect.Value, spare bool) map[string]string {
	d := &dumper{spare: spare, out: map[string]string{}}
	d.walk("$", v)
	return d.out
}

// diff: first differing path outside the excluded prefix.
func diff(a, b map[string]string, except string) string {
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		if except != "" && (strings.HasPrefix(k, except+"[") || k == except+"#") {
			continue
		}
		if x, y := a[k], b[k]; x != y {
			return fmt.Sprintf("%s: %q -> %q", k, clip(x, 80), clip(y, 80))
		}
	}
	return ""
}

// slack gives every slice spare capacity holding recognisable data.
func slack(t *T, v reflect.Value, depth int) {
	switch t.K {
	case KPtr:
		if !v.IsNil() && depth < 8 {
			slack(t.Elem, v.Elem(), depth+1)
		}
	case KStruct:
		for i, f := range t.Fields {
			if !f.Hidden && depth < 8 {
				slack(f.T, v.Field(i), depth+1)
			}
		}
	case KArr:
		for i := 0; i < t.N && depth < 8; i++ {
			slack(t.Elem, v.Index(i), depth+1)
		}
	case KSlice, KHex:
		if v.IsNil() {
			return
		}
		n := v.Len()
		s := reflect.MakeSlice(v.Type(), n+8, n+8)
		reflect.Copy(s, v)
		for i := n; i < n+8; i++ {
			if e := s.Index(i); e.Kind() == reflect.Uint8 {
				e.SetUint(uint64(0xE0 + i - n))
			} else if t.K == KSlice && t.Elem.K != KStruct && t.Elem.K != KPtr {
				dirtyFill(t.Elem, e, 50+i, 0)
			}
		}
		if t.K == KSlice {
			for i := 0; i < n && depth < 8; i++ {
				slack(t.Elem, s.Index(i), depth+1)
			}
		}
		v.Set(s.Slice(0, n))
	}
}

func hasNaNKey(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if k.CanFloat() && k.Float() != k.Float() || hasNaNKey(v.MapIndex(k)) {
				return true
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			switch v.Type().Elem().Kind() {
			case reflect.Map, reflect.Slice, reflect.Array, reflect.Struct, reflect.Ptr:
				if hasNaNKey(v.Index(i)) {
					return true
				}
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if hasNaNKey(v.Field(i)) {
				return true
			}
		}
	case reflect.Ptr:
		return !v.IsNil() && hasNaNKey(v.Elem())
	}
	return false
}

// scribble changes every element of s.
func scribble(s reflect.Value) {
	for i := 0; i < s.Len(); i++ {
		e := s.Index(i)
		switch {
		case e.Kind() == reflect.Bool:
			e.SetBool(!e.Bool())
		case e.CanInt():
			e.SetInt(^e.Int())
		case e.CanUint():
			e.SetUint(^e.Uint())
		case e.CanFloat():
			e.SetFloat(-e.Float() - 1)
		case e.Kind() == reflect.String:
			e.SetString("scribble")
		default:
			e.Set(reflect.Zero(e.Type()))
		}
	}
}

func aliasCase(c *Ctx, t *T, v0 reflect.Value, enc bin.Encoding) bool {
	bad := func(f string, a ...any) bool {
		c.Fail("%s %s value %s: %s", enc, t.Name, show(v0), fmt.Sprintf(f, a...))
		return false
	}
	// ---- encoding leaves the value alone
	x := reflect.New(t.RT)
	x.Elem().Set(fullCopy(t, v0))
	slack(t, x.Elem(), 0)
	before := dumpOf(x.Elem(), true)
	b, err, p := marshal(enc, x.Interface())
	if err != nil || p != "" {
		return true // C01's business
	}
	if len(b) > 3000 {
		return true
	}
	if d := diff(before, dumpOf(x.Elem(), true), ""); d != "" {
		return bad("encoding through a pointer changed it at %s", d)
	}
	b2, err, p := marshal(enc, x.Elem().Interface())
	if err != nil || p != "" {
		return true
	}
	if d := diff(before, dumpOf(x.Elem(), true), ""); d != "" {
		return bad("encoding it changed it at %s", d)
	}
	if _, err, p := byteCount(enc, x.Interface()); err == nil && p == "" {
		if d := diff(before, dumpOf(x.Elem(), true), ""); d != "" {
			return bad("counting its bytes changed it at %s", d)
		}
	}
	var w bytes.Buffer
	e := newEncoder(enc, &w)
	catch(func() { e.Encode(x.Interface()); e.Encode(x.Interface()) })
	if d := diff(before, dumpOf(x.Elem(), true), ""); d != "" {
		return bad("a reused encoder changed it at %s", d)
	}
	c.Res.Transitions += 5
	// ---- outputs share no memory with each other or with the value
	keep, keep2 := string(b), string(b2)
	full := b[:cap(b)]
	for i := range full {
		full[i] ^= 0xff
	}
	if string(b2) != keep2 {
		return bad("two encodings of it share memory")
	}
	if d := diff(before, dumpOf(x.Elem(), true), ""); d != "" {
		return bad("the encoding shares memory with it at %s", d)
	}
	d0 := &dumper{out: map[string]string{}, slices: map[string]reflect.Value{}}
	d0.walk("$", x.Elem())
	for _, s := range d0.slices {
		if settable(s) {
			scribble(s)
		}
	}
	if string(b2) != keep2 {
		return bad("the encoding shares memory with it")
	}
	// ---- decoding leaves the input alone, also beyond its end
	enc1 := []byte(keep)
	mkIn := func(tail string) (in, all []byte) {
		all = append(append([]byte{}, enc1...), tail...)
		n := len(all)
		for i := 0; i < 16; i++ {
			all = append(all, byte(0xC0+i))
		}
		return all[:n], all
	}
	in, all := mkIn("")
	snap := string(all)
	out := reflect.New(t.RT)
	if err, p := unmarshal(enc, out.Interface(), in); err != nil || p != "" {
		return true // C01's business
	}
	if string(all) != snap {
		return bad("decoding changed its input")
	}
	for _, cut := range []int{len(enc1) / 2, len(enc1) - 1} {
		if cut < 0 {
			continue
		}
		o := reflect.New(t.RT)
		unmarshal(enc, o.Interface(), in[:cut])
		if string(all) != snap {
			return bad("a failing decode (%d bytes) changed its input", cut)
		}
	}
	c.Res.Transitions += 3
	// ---- every decoded slice in turn
	next := "\x11\x22\x33\x44\x55"
	paths := &dumper{out: map[string]string{}, slices: map[string]reflect.Value{}}
	paths.walk("$", out.Elem())
	var names []string
	for k := range paths.slices {
		names = append(names, k)
	}
	sort.Strings(names)
	if len(names) > 12 {
		names = names[:12]
	}
	for _, name := range names {
		in, all := mkIn(next)
		snap := string(all)
		o := reflect.New(t.RT)
		dec := newDecoder(enc, in)
		if err := dec.Decode(o.Interface()); err != nil {
			return bad("decoding it with bytes after it fails: %v", err)
		}
		dd := &dumper{out: map[string]string{}, slices: map[string]reflect.Value{}}
		dd.walk("$", o.Elem())
		s, ok := dd.slices[name]
		if !ok || !settable(s) {
			continue
		}
		was := dumpOf(o.Elem(), false)
		// fill the spare capacity, as appending does
		sp := s.Slice(0, s.Cap()).Slice(s.Len(), s.Cap())
		scribble(sp)
		reflect.Append(s, reflect.Zero(s.Type().Elem()))
		c.Res.Transitions++
		if string(all) != snap {
			return bad("appending to decoded %s changed the input %s to %s", name, hx([]byte(snap)), hx(all))
		}
		if d := diff(was, dumpOf(o.Elem(), false), ""); d != "" {
			return bad("appending to decoded %s changed the value at %s", name, d)
		}
		if rest, err := dec.ReadNBytes(len(next)); err != nil || string(rest) != next {
			return bad("after appending to decoded %s the decoder reads %x next (%v)", name, rest, err)
		}
		// overwrite its elements
		scribble(s)
		c.Res.Transitions++
		if s.Type().Elem().Kind() != reflect.Uint8 && string(all) != snap {
			return bad("writing to decoded %s changed the input", name)
		}
		if d := diff(was, dumpOf(o.Elem(), false), name); d != "" {
			return bad("writing to decoded %s changed another part of the value: %s", name, d)
		}
	}
	// ---- only byte slices may follow later changes of the input
	in, all = mkIn("")
	o := reflect.New(t.RT)
	if err, p := unmarshal(enc, o.Interface(), in); err != nil || p != "" {
		return true
	}
	m1 := &dumper{out: map[string]string{}, nobyte: true}
	m1.walk("$", o.Elem())
	for i := range all {
		all[i] ^= 0xff
	}
	m2 := &dumper{out: map[string]string{}, nobyte: true}
	m2.walk("$", o.Elem())
	if d := diff(m1.out, m2.out, ""); d != "" {
		return bad("changing the input after decoding changed %s", d)
	}
	c.Res.Transitions += 2
	// ---- decoding again into a variable leaves the slices and maps it held alone
	others := otherVals(t)
	for i, w := range others {
		bw, _, err := refEncode(t, w, enc, nil)
		if err != nil || len(bw) > 3000 {
			continue
		}
		for mode := 0; mode < 2; mode++ {
			tgt := reflect.New(t.RT)
			if mode == 0 { // held data made by an earlier decode
				in, _ := mkIn("")
				if err, p := unmarshal(enc, tgt.Interface(), in); err != nil || p != "" {
					return true
				}
			} else { // held data made by the user, with spare capacity
				tgt.Elem().Set(fullCopy(t, v0))
				slack(t, tgt.Elem(), 0)
			}
			held := heldBy(tgt.Elem())
			if err, p := unmarshal(enc, tgt.Interface(), bw); err != nil || p != "" {
				break // C18's business
			}
			c.Res.Transitions++
			for k, h := range held {
				if d := diff(h.was, dumpOf(h.v, true), ""); d != "" {
					return bad("decoding %s into a variable holding it changed the slice or map it held before (no %d of %d, mode %d) at %s", show(others[i]), k, len(held), mode, d)
				}
			}
		}
	}
	c.Res.Traces++
	c.State(hash(t.Name, enc.String(), keep))
	return true
}

type heldRef struct {
	v   reflect.Value
	was map[string]string
}

// heldBy: the outermost slices and maps of v (through pointers, which decoding
// fills in place), as another reference to them would see them.
func heldBy(v reflect.Value) (out []heldRef) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			return heldBy(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				out = append(out, heldBy(v.Field(i))...)
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len() && i < 4; i++ {
			out = append(out, heldBy(v.Index(i))...)
		}
	case reflect.Slice, reflect.Map:
		if !v.IsNil() {
			k := reflect.New(v.Type()).Elem()
			k.Set(v)
			out = append(out, heldRef{k, dumpOf(k, true)})
		}
	}
	return
}

var otherMemo = map[*T][]reflect.Value{}

// otherVals: a few values to decode over an earlier one.
func otherVals(t *T) []reflect.Value {
	if o, ok := otherMemo[t]; ok {
		return o
	}
	var o []reflect.Value
	vs := vals(t, 0, 40)
	for i := 0; i < len(vs) && len(o) < 3; i++ {
		if !hasNaNKey(vs[i]) && hasHeld(vs[i]) {
			o = append(o, vs[i])
		}
	}
	if len(otherMemo) > 2000 {
		clear(otherMemo)
	}
	otherMemo[t] = o
	return o
}

func hasHeld(v reflect.Value) bool {
	x := reflect.New(v.Type()).Elem()
	x.Set(v)
	return len(heldBy(x)) > 0
}

func settable(s reflect.Value) bool { return s.Len() == 0 || s.Index(0).CanSet() }

func runC19(c *Ctx) {
	max := 6
	if c.Thorough {
		max = 60
	}
	if c.Extra {
		max = 400
	}
	corpusCapped(c, max, map[string]bool{"leaf": true, "cont": true, "key": true, "static": true, "deep2": true, "deep3": true, "tag": true, "enum": true, "pair": true}, func(t *T, v reflect.Value, encs []bin.Encoding) {
		if hasNaNKey(v) {
			return
		}
		for _, enc := range encs {
			if refOK(t, v, enc) && !aliasCase(c, t, v, enc) {
				return
			}
		}
	})
	// several byte slices and strings side by side
	bs := []*T{SliceT(tU8), tHex, SliceT(tNU8), tStr, tSafeStr, SliceT(tU16), SliceT(SliceT(tU8)), SliceT(tStr), PtrT(SliceT(tU8)), ArrT(2, SliceT(tU8)), MapT(tStr, SliceT(tU8)), ArrT(4, tU8), PtrT(tHex), SliceT(tHex), SliceT(ArrT(2, tU8)), tUStr, tUStruct, SliceT(tBool), SliceT(tU32), SliceT(tU64), SliceT(tI8)}
	for _, a := range bs {
		for _, b := range bs {
			c.Group("side:" + clip(a.Name, 60) + "," + clip(b.Name, 60))
			for _, t := range []*T{S(a, b), StructT(fld("A", a, "optional"), fld("B", b, "optional")), S(a, tU8, b, a)} {
				vs := spread(t, vals(t, 1, 1), max)
				for _, v := range vs {
					if !c.Next() {
						continue
					}
					for _, enc := range allEnc {
						if refOK(t, v, enc) && !aliasCase(c, t, v, enc) {
							return
						}
					}
				}
			}
		}
	}
	c19Decoder(c)
	c19Writer(c)
	c19Helpers(c)
}

// c19Helpers: what the byte-returning helpers gave for one value survives
// their use for another, and changing it changes nothing the library says later.
func c19Helpers(c *Ctx) {
	type helper struct {
		name string
		f    func(x uint64) []byte
	}
	st := func(x uint64) S19 { return S19{uint32(x), string(rune('a' + x%26)), []byte{byte(x), byte(x >> 8)}} }
	hs := []helper{
		{"TypeID.Bytes", func(x uint64) []byte { return bin.TypeIDFromUint32(uint32(x), binary.LittleEndian).Bytes() }},
		{"Uint128.Bytes", func(x uint64) []byte { return bin.Uint128{Lo: x, Hi: ^x}.Bytes() }},
		{"Sighash", func(x uint64) []byte { return bin.Sighash("n", fmt.Sprint(x)) }},
		{"SighashInstruction", func(x uint64) []byte { return bin.SighashInstruction(fmt.Sprint("i", x)) }},
		{"SighashAccount", func(x uint64) []byte { return bin.SighashAccount(fmt.Sprint("A", x)) }},
		{"EncodeCompactU16Length", func(x uint64) []byte {
			var b []byte
			bin.EncodeCompactU16Length(&b, int(x&0xffff))
			return b
		}},
		{"Uint128.MarshalJSON", func(x uint64) []byte { b, _ := bin.Uint128{Lo: x}.MarshalJSON(); return b }},
		{"Int128.MarshalJSON", func(x uint64) []byte { b, _ := bin.Int128{Lo: x}.MarshalJSON(); return b }},
		{"Float128.MarshalJSON", func(x uint64) []byte { b, _ := bin.Float128{Lo: x}.MarshalJSON(); return b }},
		{"Int64.MarshalJSON", func(x uint64) []byte { b, _ := bin.Int64(x).MarshalJSON(); return b }},
		{"Uint64.MarshalJSON", func(x uint64) []byte { b, _ := bin.Uint64(x).MarshalJSON(); return b }},
		{"HexBytes.MarshalJSON", func(x uint64) []byte { b, _ := bin.HexBytes{byte(x), byte(x >> 8)}.MarshalJSON(); return b }},
		{"HexBytes.UnmarshalJSON", func(x uint64) []byte {
			var h bin.HexBytes
			h.UnmarshalJSON([]byte(fmt.Sprintf("\"%016x\"", x)))
			return h
		}},
		{"Uint128.BigInt", func(x uint64) []byte { return []byte(bin.Uint128{Lo: x, Hi: x}.BigInt().String()) }},
		{"Int128.BigInt", func(x uint64) []byte { return []byte(bin.Int128{Lo: x, Hi: ^x}.BigInt().String()) }},
		{"MarshalBin", func(x uint64) []byte { b, _ := bin.MarshalBin(st(x)); return b }},
		{"MarshalBorsh", func(x uint64) []byte { b, _ := bin.MarshalBorsh(st(x)); return b }},
		{"MarshalCompactU16", func(x uint64) []byte { b, _ := bin.MarshalCompactU16(st(x)); return b }},
		{"MarshalBin []byte", func(x uint64) []byte { b, _ := bin.MarshalBin([]byte{byte(x), byte(x >> 8)}); return b }},
		{"MarshalBorsh []byte", func(x uint64) []byte { b, _ := bin.MarshalBorsh([]byte{byte(x), byte(x >> 8)}); return b }},
	}
	xs := []uint64{0, 1, 127, 128, 255, 65535, 1 << 31, 1<<32 + 5, 1<<63 + 9, ^uint64(0)}
	for i := range hs {
		c.Group("helper:" + hs[i].name)
		for j := range hs {
			for _, x := range xs {
				if !c.Next() {
					continue
				}
				for _, y := range xs {
					a := hs[i].f(x)
					sa := append([]byte{}, a...)
					b := hs[j].f(y)
					sb := append([]byte{}, b...)
					if !bytes.Equal(a, sa) {
						c.Fail("the result %x of %s(%d) becomes %x when %s(%d) is called", sa, hs[i].name, x, a, hs[j].name, y)
						return
					}
					for k := range a[:cap(a)] {
						a[:cap(a)][k] ^= 0xff
					}
					if !bytes.Equal(b, sb) {
						c.Fail("changing the result of %s(%d) changes that of %s(%d) from %x to %x", hs[i].name, x, hs[j].name, y, sb, b)
						return
					}
					if g := hs[j].f(y); !bytes.Equal(g, sb) {
						c.Fail("after changing the result of %s(%d), %s(%d) gives %x instead of %x", hs[i].name, x, hs[j].name, y, g, sb)
						return
					}
					c.Res.Transitions += 3
					c.Res.Traces++
				}
				c.State(hash("helper", hs[i].name, hs[j].name, fmt.Sprint(x)))
			}
		}
	}
}

type S19 struct {
	A uint32
	B string
	C []byte
}

// all sequences of byte-returning decoder calls
func c19Decoder(c *Ctx) {
	type call struct {
		name string
		f    func(d *bin.Decoder) ([]byte, error)
	}
	calls := []call{
		{"ReadNBytes(2)", func(d *bin.Decoder) ([]byte, error) { return d.ReadNBytes(2) }},
		{"ReadNBytes(0)", func(d *bin.Decoder) ([]byte, error) { return d.ReadNBytes(0) }},
		{"ReadBytes(3)", func(d *bin.Decoder) ([]byte, error) { return d.ReadBytes(3) }},
		{"Peek(2)", func(d *bin.Decoder) ([]byte, error) { return d.Peek(2) }},
		{"Peek(all)", func(d *bin.Decoder) ([]byte, error) { return d.Peek(d.Remaining()) }},
		{"ReadByteSlice", func(d *bin.Decoder) ([]byte, error) { return d.ReadByteSlice() }},
		{"ReadTypeID", func(d *bin.Decoder) ([]byte, error) { id, err := d.ReadTypeID(); return id.Bytes(), err }},
		{"Decode []byte", func(d *bin.Decoder) ([]byte, error) { var b []byte; err := d.Decode(&b); return b, err }},
		{"Decode HexBytes", func(d *bin.Decoder) ([]byte, error) { var b bin.HexBytes; err := d.Decode(&b); return b, err }},
		{"HexBytes.UnmarshalWithDecoder", func(d *bin.Decoder) ([]byte, error) {
			var b bin.HexBytes
			err := b.UnmarshalWithDecoder(d)
			return b, err
		}},
		{"PeekDiscriminator", func(d *bin.Decoder) ([]byte, error) { id, err := d.PeekDiscriminator(); return id.Bytes(), err }},
	}
	for _, enc := range allEnc {
		for i := range calls {
			for j := range calls {
				c.Group("calls:" + enc.String() + ":" + calls[i].name + "," + calls[j].name)
				for k := range calls {
					if !c.Next() {
						continue
					}
					for _, unit := range [][]byte{{2, 0, 0, 0, 7, 8}, {1, 5}, {0}, {3, 1, 2, 3}} {
						all := bytes.Repeat(unit, 12)
						for q := 0; q < 16; q++ {
							all = append(all, byte(0xC0+q))
						}
						n := len(all) - 16
						ref := append([]byte{}, all...)
						d1, d2 := newDecoder(enc, all[:n]), newDecoder(enc, ref[:n:n])
						var prev, snap [][]byte
						for _, x := range []call{calls[i], calls[j], calls[k]} {
							var g1, g2 []byte
							var e1, e2 error
							if p := catch(func() { g1, e1 = x.f(d1); g2, e2 = x.f(d2) }); p != "" {
								c.Fail("%s: %s on %x panics: %s", enc, x.name, ref[:n], p)
								return
							}
							c.Res.Transitions++
							if (e1 == nil) != (e2 == nil) || !bytes.Equal(g1, g2) || d1.Position() != d2.Position() {
								c.Fail("%s: history %s,%s,%s: after appending to earlier results %s gives %x (%v), otherwise %x (%v)", enc, calls[i].name, calls[j].name, calls[k].name, x.name, g1, e1, g2, e2)
								return
							}
							for q := len(g1); q < cap(g1); q++ {
								g1[:cap(g1)][q] ^= 0xff // what append would do
							}
							prev, snap = append(prev, g1), append(snap, append([]byte{}, g2...))
							for q := range prev {
								if !bytes.Equal(prev[q], snap[q]) {
									c.Fail("%s: history %s,%s,%s: result %d was %x and is %x after later calls", enc, calls[i].name, calls[j].name, calls[k].name, q, snap[q], prev[q])
									return
								}
							}
							if !bytes.Equal(all, ref) {
								c.Fail("%s: appending to the result of %s changes the input %x to %x", enc, x.name, ref, all)
								return
							}
						}
						c.Res.Traces++
						c.State(hash("calls", enc.String(), calls[i].name, calls[j].name, calls[k].name, string(unit)))
					}
				}
			}
		}
	}
}

// the recording writer
func c19Writer(c *Ctx) {
	c.Group("wbw")
	var seqs [][]int
	for a := 0; a <= 3; a++ {
		seqs = append(seqs, []int{a})
		for b := 0; b <= 3; b++ {
			seqs = append(seqs, []int{a, b})
			for d := 0; d <= 3; d++ {
				seqs = append(seqs, []int{a, b, d})
				for e := 0; e <= 3; e++ {
					seqs = append(seqs, []int{a, b, d, e})
				}
			}
		}
	}
	// every length up to 300, the powers of two, and long sequences
	for n := 0; n <= 300; n++ {
		seqs = append(seqs, []int{n}, []int{3, n}, []int{n, 2, n})
	}
	for k := 9; k <= 17; k++ {
		for _, d := range []int{-1, 0, 1} {
			seqs = append(seqs, []int{1<<k + d}, []int{1<<k + d, 5, 1 << k})
		}
	}
	for _, n := range []int{5, 8, 9, 16, 17, 33, 64, 65, 129, 257} {
		var s []int
		for i := 0; i < n; i++ {
			s = append(s, (i*7+n)%23)
		}
		seqs = append(seqs, s)
	}
	for _, s := range seqs {
		if !c.Next() {
			continue
		}
		w := bin.NewWriteByWrite("x")
		size := 8
		for _, n := range s {
			if n > size {
				size = n
			}
		}
		buf := make([]byte, size)
		var want []byte
		for i, n := range s {
			for k := range buf {
				buf[k] = byte(16*i + k + k>>8 + 1)
			}
			got, err := w.Write(buf[:n])
			want = append(want, buf[:n]...)
			if got != n || err != nil {
				c.Fail("recording writer: write of %d returns %d, %v", n, got, err)
				return
			}
			if b := w.Bytes(); !bytes.Equal(b, want) {
				c.Fail("recording writer: sequence %v with one reused buffer records %x, want %x", s[:i+1], b, want)
				return
			}
			c.Res.Transitions++
		}
		for k := range buf {
			buf[k] = 0xEE
		}
		b1 := w.Bytes()
		if !bytes.Equal(b1, want) {
			c.Fail("recording writer: reusing the buffer after %v changes the record to %x, want %x", s, b1, want)
			return
		}
		for k := range b1[:cap(b1)] {
			b1[:cap(b1)][k] = 0xDD
		}
		if b := w.Bytes(); !bytes.Equal(b, want) {
			c.Fail("recording writer: changing what Bytes returned after %v changes the record to %x, want %x", s, b, want)
			return
		}
		if p := catch(func() { _ = w.String() }); p != "" {
			c.Fail("recording writer: String panics: %s", p)
			return
		}
		c.Res.Traces++
		c.State(hash("wbw", fmt.Sprint(s)))
	}
	// encodings recorded through it are the marshalled bytes
	for i, t := range histTypes() {
		for _, enc := range allEnc {
			if !c.Next() {
				continue
			}
			v := vals(t, 0, i)[0]
			if mapBig(v) {
				continue
			}
			b, err, p := marshal(enc, v.Interface())
			if err != nil || p != "" {
				continue
			}
			w := bin.NewWriteByWrite("x")
			e := bin.NewEncoderWithEncoding(w, enc)
			e.Encode(v.Interface())
			first := w.Bytes()
			e.Encode(v.Interface())
			if !bytes.Equal(w.Bytes(), append(append([]byte{}, b...), b...)) || !bytes.Equal(first, b) {
				c.Fail("recording writer: %s %s records %x, want %x twice", enc, t.Name, w.Bytes(), b)
				return
			}
			c.Res.Traces++
		}
	}
}
