package main

// User-defined types with their own marshalling, over every reflect kind.
// Each writes a marker byte that depends on the encoding it sees, then its
// payload in a layout the reflection path would never produce.

import (
	"encoding/binary"
	"errors"
	"reflect"

	bin "github.com/gagliardetto/binary"
)

type Cust struct {
	put func(w *W, v reflect.Value, big bool)
	get func(r *R, v reflect.Value, big bool)
	eq  func(a, b reflect.Value) bool
	dom func(salt int) []any
}

var errCust = errors.New("custom-marshaller-sentinel")

// custHook, when set, is called at the start of every custom method.
var custHook func() error

func custCall() error {
	if custHook != nil {
		return custHook()
	}
	return nil
}

func encMark(isBin, isBorsh, isCompact bool) byte {
	switch {
	case isBin && !isBorsh && !isCompact:
		return 0xB1
	case isBorsh && !isBin && !isCompact:
		return 0xB0
	case isCompact && !isBin && !isBorsh:
		return 0xBC
	}
	return 0xEE
}

func refMark(e bin.Encoding) byte {
	return encMark(e == bin.EncodingBin, e == bin.EncodingBorsh, e == bin.EncodingCompactU16)
}

var errMark = errors.New("bad marker")

func wMark(e *bin.Encoder) error {
	if err := custCall(); err != nil {
		return err
	}
	return e.WriteByte(encMark(e.IsBin(), e.IsBorsh(), e.IsCompactU16()))
}
func rMark(d *bin.Decoder) error {
	if err := custCall(); err != nil {
		return err
	}
	b, err := d.ReadByte()
	if err != nil {
		return err
	}
	if b != encMark(d.IsBin(), d.IsBorsh(), d.IsCompactU16()) {
		return errMark
	}
	return nil
}

// wBE/rBE: n-byte big-endian payloads through the public primitives.
func wBE(e *bin.Encoder, v uint64, n int) error {
	if err := wMark(e); err != nil {
		return err
	}
	switch n {
	case 1:
		return e.WriteByte(byte(v))
	case 2:
		return e.WriteUint16(uint16(v), binary.BigEndian)
	case 4:
		return e.WriteUint32(uint32(v), binary.BigEndian)
	}
	return e.WriteUint64(v, binary.BigEndian)
}
func rBE(d *bin.Decoder, n int) (uint64, error) {
	if err := rMark(d); err != nil {
		return 0, err
	}
	switch n {
	case 1:
		b, err := d.ReadByte()
		return uint64(b), err
	case 2:
		b, err := d.ReadUint16(binary.BigEndian)
		return uint64(b), err
	case 4:
		b, err := d.ReadUint32(binary.BigEndian)
		return uint64(b), err
	}
	return d.ReadUint64(binary.BigEndian)
}
func wBytes(e *bin.Encoder, b []byte) error {
	if err := wBE(e, uint64(len(b)), 1); err != nil {
		return err
	}
	return e.WriteBytes(b, false)
}
func rBytes(d *bin.Decoder) ([]byte, error) {
	n, err := rBE(d, 1)
	if err != nil {
		return nil, err
	}
	return d.ReadNBytes(int(n))
}

type UStruct struct {
	A uint16
	B string
}

func (u UStruct) MarshalWithEncoder(e *bin.Encoder) error {
	if err := wBE(e, uint64(u.A), 2); err != nil {
		return err
	}
	if err := e.WriteByte(byte(len(u.B))); err != nil {
		return err
	}
	_, err := e.Write([]byte(u.B))
	return err
}
func (u *UStruct) UnmarshalWithDecoder(d *bin.Decoder) error {
	a, err := rBE(d, 2)
	if err != nil {
		return err
	}
	n, err := d.ReadByte()
	if err != nil {
		return err
	}
	b := make([]byte, n)
	if _, err := d.Read(b); err != nil {
		return err
	}
	u.A, u.B = uint16(a), string(b)
	return nil
}

// UPtr has pointer receivers only: it is used behind pointers.
type UPtr struct{ X uint32 }

func (u *UPtr) MarshalWithEncoder(e *bin.Encoder) error { return wBE(e, uint64(u.X), 4) }
func (u *UPtr) UnmarshalWithDecoder(d *bin.Decoder) error {
	x, err := rBE(d, 4)
	u.X = uint32(x)
	return err
}

// UNest delegates to the coder for its content, like generated code does.
type UNest struct {
	A uint32
	L []uint16
	P *uint8
}

func (u UNest) MarshalWithEncoder(e *bin.Encoder) error {
	if err := wMark(e); err != nil {
		return err
	}
	if err := e.Encode(u.A); err != nil {
		return err
	}
	if err := e.Encode(u.L); err != nil {
		return err
	}
	if u.P == nil {
		return e.WriteOption(false)
	}
	if err := e.WriteOption(true); err != nil {
		return err
	}
	return e.Encode(u.P)
}
func (u *UNest) UnmarshalWithDecoder(d *bin.Decoder) error {
	if err := rMark(d); err != nil {
		return err
	}
	if err := d.Decode(&u.A); err != nil {
		return err
	}
	if err := d.Decode(&u.L); err != nil {
		return err
	}
	ok, err := d.ReadOption()
	if err != nil {
		return err
	}
	u.P = nil
	if ok {
		return d.Decode(&u.P)
	}
	return nil
}

type UI32 int32

func (u UI32) MarshalWithEncoder(e *bin.Encoder) error { return wBE(e, uint64(uint32(u)), 4) }
func (u *UI32) UnmarshalWithDecoder(d *bin.Decoder) error {
	x, err := rBE(d, 4)
	*u = UI32(int32(uint32(x)))
	return err
}

type UU64 uint64

func (u UU64) MarshalWithEncoder(e *bin.Encoder) error { return wBE(e, uint64(u), 8) }
func (u *UU64) UnmarshalWithDecoder(d *bin.Decoder) error {
	x, err := rBE(d, 8)
	*u = UU64(x)
	return err
}

type UU32 uint32

func (u UU32) MarshalWithEncoder(e *bin.Encoder) error { return wBE(e, uint64(u), 4) }
func (u *UU32) UnmarshalWithDecoder(d *bin.Decoder) error {
	x, err := rBE(d, 4)
	*u = UU32(x)
	return err
}

type UU16 uint16

func (u UU16) MarshalWithEncoder(e *bin.Encoder) error { return wBE(e, uint64(u), 2) }
func (u *UU16) UnmarshalWithDecoder(d *bin.Decoder) error {
	x, err := rBE(d, 2)
	*u = UU16(x)
	return err
}

type UU8 uint8

func (u UU8) MarshalWithEncoder(e *bin.Encoder) error { return wBE(e, uint64(u), 1) }
func (u *UU8) UnmarshalWithDecoder(d *bin.Decoder) error {
	x, err := rBE(d, 1)
	*u = UU8(x)
	return err
}

type UBool bool

func (u UBool) MarshalWithEncoder(e *bin.Encoder) error {
	x := uint64(0x0F)
	if u {
		x = 0xF0
	}
	return wBE(e, x, 1)
}
func (u *UBool) UnmarshalWithDecoder(d *bin.Decoder) error {
	x, err := rBE(d, 1)
	*u = x == 0xF0
	return err
}

type UStr string

func (u UStr) MarshalWithEncoder(e *bin.Encoder) error { return wBytes(e, []byte(u)) }
func (u *UStr) UnmarshalWithDecoder(d *bin.Decoder) error {
	b, err := rBytes(d)
	*u = UStr(b)
	return err
}

type UArr [2]byte

func (u UArr) MarshalWithEncoder(e *bin.Encoder) error { return wBytes(e, u[:]) }
func (u *UArr) UnmarshalWithDecoder(d *bin.Decoder) error {
	b, err := rBytes(d)
	if err == nil && len(b) != 2 {
		return errMark
	}
	copy(u[:], b)
	return err
}

type USlice []uint16

func (u USlice) MarshalWithEncoder(e *bin.Encoder) error {
	if err := wBE(e, uint64(len(u)), 1); err != nil {
		return err
	}
	for _, x := range u {
		if err := e.WriteUint16(x, binary.BigEndian); err != nil {
			return err
		}
	}
	return nil
}
func (u *USlice) UnmarshalWithDecoder(d *bin.Decoder) error {
	n, err := rBE(d, 1)
	if err != nil {
		return err
	}
	*u = nil
	for i := 0; i < int(n); i++ {
		x, err := d.ReadUint16(binary.BigEndian)
		if err != nil {
			return err
		}
		*u = append(*u, x)
	}
	return nil
}

type UMap map[uint8]uint8

func (u UMap) MarshalWithEncoder(e *bin.Encoder) error {
	if err := wBE(e, uint64(len(u)), 1); err != nil {
		return err
	}
	for i := 0; i < 256; i++ {
		if v, ok := u[uint8(i)]; ok {
			if _, err := e.Write([]byte{byte(i), v}); err != nil {
				return err
			}
		}
	}
	return nil
}
func (u *UMap) UnmarshalWithDecoder(d *bin.Decoder) error {
	n, err := rBE(d, 1)
	if err != nil {
		return err
	}
	*u = UMap{}
	for i := 0; i < int(n); i++ {
		b, err := d.ReadNBytes(2)
		if err != nil {
			return err
		}
		(*u)[b[0]] = b[1]
	}
	return nil
}

func (w *W) mark() { w.out = append(w.out, refMark(w.enc)) }
func (r *R) mark() {
	if byte(r.uN(1, false)) != refMark(r.enc) {
		rfail("marker")
	}
}

func uintCust(n int, vals ...any) *Cust {
	return &Cust{
		put: func(w *W, v reflect.Value, _ bool) {
			w.mark()
			if v.CanInt() {
				w.uN(uint64(v.Int()), n, true)
			} else {
				w.uN(v.Uint(), n, true)
			}
		},
		get: func(r *R, v reflect.Value, _ bool) {
			r.mark()
			x := r.uN(n, true)
			if v.CanInt() {
				v.SetInt(int64(int32(x)))
			} else {
				v.SetUint(x)
			}
		},
		eq: func(a, b reflect.Value) bool {
			if a.CanInt() {
				return a.Int() == b.Int()
			}
			return a.Uint() == b.Uint()
		},
		dom: func(int) []any { return vals },
	}
}

func custLeaf[X any](c *Cust) *T {
	t := leaf[X](KCust)
	t.C = c
	return t
}

var (
	tUStruct = custLeaf[UStruct](&Cust{
		put: func(w *W, v reflect.Value, _ bool) {
			w.mark()
			w.uN(v.Field(0).Uint(), 2, true)
			w.uN(uint64(v.Field(1).Len()), 1, false)
			w.out = append(w.out, v.Field(1).String()...)
		},
		get: func(r *R, v reflect.Value, _ bool) {
			r.mark()
			a := r.uN(2, true)
			s := r.bytes(int(r.uN(1, false)))
			v.Field(0).SetUint(a)
			v.Field(1).SetString(string(s))
		},
		eq: func(a, b reflect.Value) bool {
			return a.Field(0).Uint() == b.Field(0).Uint() && a.Field(1).String() == b.Field(1).String()
		},
		dom: func(s int) []any { return []any{UStruct{0x0102 + uint16(s), "xy"}, UStruct{}, UStruct{0xFFFF, ""}} },
	})
	tUPtr = custLeaf[UPtr](&Cust{
		put: func(w *W, v reflect.Value, _ bool) { w.mark(); w.uN(v.Field(0).Uint(), 4, true) },
		get: func(r *R, v reflect.Value, _ bool) { r.mark(); v.Field(0).SetUint(r.uN(4, true)) },
		eq:  func(a, b reflect.Value) bool { return a.Field(0).Uint() == b.Field(0).Uint() },
		dom: func(s int) []any { return []any{UPtr{0x01020304 + uint32(s)}, UPtr{}, UPtr{0xFFFFFFFF}} },
	})
	tUNestInner = S(tU32, SliceT(tU16))
	tUNest      = custLeaf[UNest](&Cust{
		put: func(w *W, v reflect.Value, _ bool) {
			w.mark()
			w.put(tU32, v.Field(0), false, false)
			w.put(SliceT(tU16), v.Field(1), false, false)
			if v.Field(2).IsNil() {
				w.uN(0, 1, false)
			} else {
				w.uN(1, 1, false)
				w.put(tU8, v.Field(2).Elem(), false, false)
			}
		},
		get: func(r *R, v reflect.Value, _ bool) {
			r.mark()
			r.get(tU32, v.Field(0), false, nil)
			r.get(SliceT(tU16), v.Field(1), false, nil)
			v.Field(2).SetZero()
			if r.uN(1, false) != 0 {
				r.get(PtrT(tU8), v.Field(2), false, nil)
			}
		},
		eq: func(a, b reflect.Value) bool {
			return eq(tU32, a.Field(0), b.Field(0), 0) && eq(SliceT(tU16), a.Field(1), b.Field(1), 0) && eq(PtrT(tU8), a.Field(2), b.Field(2), 0)
		},
		dom: func(s int) []any {
			p := uint8(7)
			return []any{UNest{0x01020304 + uint32(s), []uint16{1, 0x203}, &p}, UNest{}, UNest{A: 0xFFFFFFFF, P: &p}}
		},
	})
	tUI32  = custLeaf[UI32](uintCust(4, UI32(0x01020304), UI32(0), UI32(-2)))
	tUU64  = custLeaf[UU64](uintCust(8, UU64(0x0102030405060708), UU64(0), UU64(1<<63)))
	tUU32  = custLeaf[UU32](uintCust(4, UU32(0x01020304), UU32(0), UU32(1<<31)))
	tUU16  = custLeaf[UU16](uintCust(2, UU16(0x0102), UU16(0), UU16(0xFF00)))
	tUU8   = custLeaf[UU8](uintCust(1, UU8(0x42), UU8(0), UU8(0xFF)))
	tUBool = custLeaf[UBool](&Cust{
		put: func(w *W, v reflect.Value, _ bool) {
			w.mark()
			if v.Bool() {
				w.uN(0xF0, 1, false)
			} else {
				w.uN(0x0F, 1, false)
			}
		},
		get: func(r *R, v reflect.Value, _ bool) { r.mark(); v.SetBool(r.uN(1, false) == 0xF0) },
		eq:  func(a, b reflect.Value) bool { return a.Bool() == b.Bool() },
		dom: func(int) []any { return []any{UBool(true), UBool(false)} },
	})
	tUStr = custLeaf[UStr](&Cust{
		put: func(w *W, v reflect.Value, _ bool) {
			w.mark()
			w.uN(uint64(v.Len()), 1, false)
			w.out = append(w.out, v.String()...)
		},
		get: func(r *R, v reflect.Value, _ bool) { r.mark(); v.SetString(string(r.bytes(int(r.uN(1, false))))) },
		eq:  func(a, b reflect.Value) bool { return a.String() == b.String() },
		dom: func(int) []any { return []any{UStr("héllo"), UStr(""), UStr("z")} },
	})
	tUArr = custLeaf[UArr](&Cust{
		put: func(w *W, v reflect.Value, _ bool) {
			w.mark()
			w.uN(2, 1, false)
			w.uN(v.Index(0).Uint(), 1, false)
			w.uN(v.Index(1).Uint(), 1, false)
		},
		get: func(r *R, v reflect.Value, _ bool) {
			r.mark()
			b := r.bytes(int(r.uN(1, false)))
			if len(b) != 2 {
				rfail("len")
			}
			v.Index(0).SetUint(uint64(b[0]))
			v.Index(1).SetUint(uint64(b[1]))
		},
		eq:  func(a, b reflect.Value) bool { return a.Interface() == b.Interface() },
		dom: func(int) []any { return []any{UArr{1, 2}, UArr{}, UArr{0xFF, 0}} },
	})
	tUSlice = custLeaf[USlice](&Cust{
		put: func(w *W, v reflect.Value, _ bool) {
			w.mark()
			w.uN(uint64(v.Len()), 1, false)
			for i := 0; i < v.Len(); i++ {
				w.uN(v.Index(i).Uint(), 2, true)
			}
		},
		get: func(r *R, v reflect.Value, _ bool) {
			r.mark()
			n := int(r.uN(1, false))
			v.SetZero()
			for i := 0; i < n; i++ {
				v.Set(reflect.Append(v, reflect.ValueOf(uint16(r.uN(2, true)))))
			}
		},
		eq: func(a, b reflect.Value) bool {
			if a.Len() != b.Len() {
				return false
			}
			for i := 0; i < a.Len(); i++ {
				if a.Index(i).Uint() != b.Index(i).Uint() {
					return false
				}
			}
			return true
		},
		dom: func(int) []any { return []any{USlice{0x0102, 3}, USlice(nil), USlice{9}} },
	})
	tUMap = custLeaf[UMap](&Cust{
		put: func(w *W, v reflect.Value, _ bool) {
			w.mark()
			w.uN(uint64(v.Len()), 1, false)
			m := v.Interface().(UMap)
			for i := 0; i < 256; i++ {
				if x, ok := m[uint8(i)]; ok {
					w.out = append(w.out, byte(i), x)
				}
			}
		},
		get: func(r *R, v reflect.Value, _ bool) {
			r.mark()
			n := int(r.uN(1, false))
			m := UMap{}
			for i := 0; i < n; i++ {
				b := r.bytes(2)
				m[b[0]] = b[1]
			}
			v.Set(reflect.ValueOf(m))
		},
		eq: func(a, b reflect.Value) bool {
			x, y := a.Interface().(UMap), b.Interface().(UMap)
			if len(x) != len(y) {
				return false
			}
			for k, v := range x {
				if w, ok := y[k]; !ok || v != w {
					return false
				}
			}
			return true
		},
		dom: func(int) []any { return []any{UMap{1: 2, 200: 3}, UMap(nil), UMap{0: 0}} },
	})
)

func userLeaves() []*T {
	return []*T{tUStruct, tUNest, tUI32, tUU64, tUU32, tUU16, tUU8, tUBool, tUStr, tUArr, tUSlice, tUMap, tUDeleg, tUDeep, tUMix}
}
