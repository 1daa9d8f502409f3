package main

// Schemas: a tree that drives (1) the Go type handed to the library and
// (2) the independent reference codec of ref.go.

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	bin "github.com/gagliardetto/binary"
)

type Kind uint8

const (
	KBool Kind = iota
	KU8
	KU16
	KU32
	KU64
	KI8
	KI16
	KI32
	KI64
	KF32
	KF64
	KStr
	KArr
	KSlice
	KMap
	KStruct
	KPtr
	// library types with their own marshalling
	KLBool
	KSafeStr
	KHex
	KVarint16
	KVaruint16
	KVaruint32
	KVarint32
	KJSONF64
	KLI64
	KLU64
	KU128 // also Int128, Float128: same layout
	// user types with their own marshalling (types_user.go)
	KCust
)

type T struct {
	K      Kind
	RT     reflect.Type
	Name   string
	Elem   *T
	Key    *T
	N      int
	Fields []F
	Enum   bool // borsh complex enum: Fields[0] is the tag
	C      *Cust
	id     uint64
}

type F struct {
	Name   string
	T      *T
	Tag    string // full struct tag
	Opt    bool
	COpt   bool
	Skip   bool
	Ext    bool
	Big    bool
	SizeOf string
	Hidden bool // unexported
}

var typeIDs uint64

func mk(k Kind, rt reflect.Type, name string) *T {
	typeIDs++
	return &T{K: k, RT: rt, Name: name, id: typeIDs}
}

func leaf[X any](k Kind) *T {
	rt := reflect.TypeOf((*X)(nil)).Elem()
	return mk(k, rt, rt.String())
}

type (
	NBool bool
	NU8   uint8
	NU16  uint16
	NU32  uint32
	NU64  uint64
	NI8   int8
	NI16  int16
	NI32  int32
	NI64  int64
	NF32  float32
	NF64  float64
	NStr  string
)

var (
	tBool = leaf[bool](KBool)
	tU8   = leaf[uint8](KU8)
	tU16  = leaf[uint16](KU16)
	tU32  = leaf[uint32](KU32)
	tU64  = leaf[uint64](KU64)
	tI8   = leaf[int8](KI8)
	tI16  = leaf[int16](KI16)
	tI32  = leaf[int32](KI32)
	tI64  = leaf[int64](KI64)
	tF32  = leaf[float32](KF32)
	tF64  = leaf[float64](KF64)
	tStr  = leaf[string](KStr)

	tNBool = leaf[NBool](KBool)
	tNU8   = leaf[NU8](KU8)
	tNU16  = leaf[NU16](KU16)
	tNU32  = leaf[NU32](KU32)
	tNU64  = leaf[NU64](KU64)
	tNI8   = leaf[NI8](KI8)
	tNI16  = leaf[NI16](KI16)
	tNI32  = leaf[NI32](KI32)
	tNI64  = leaf[NI64](KI64)
	tNF32  = leaf[NF32](KF32)
	tNF64  = leaf[NF64](KF64)
	tNStr  = leaf[NStr](KStr)
	tBEnum = leaf[bin.BorshEnum](KU8)

	tLBool     = leaf[bin.Bool](KLBool)
	tSafeStr   = leaf[bin.SafeString](KSafeStr)
	tHex       = leaf[bin.HexBytes](KHex)
	tVarint16  = leaf[bin.Varint16](KVarint16)
	tVaruint16 = leaf[bin.Varuint16](KVaruint16)
	tVaruint32 = leaf[bin.Varuint32](KVaruint32)
	tVarint32  = leaf[bin.Varint32](KVarint32)
	tJSONF64   = leaf[bin.JSONFloat64](KJSONF64)
	tLI64      = leaf[bin.Int64](KLI64)
	tLU64      = leaf[bin.Uint64](KLU64)
	tU128      = leaf[bin.Uint128](KU128)
	tI128      = leaf[bin.Int128](KU128)
	tF128      = leaf[bin.Float128](KU128)

	tTypeID = named(ArrT(8, tU8), reflect.TypeOf(bin.TypeID{}))
	tEmpty  = &T{K: KStruct, RT: reflect.TypeOf(bin.EmptyVariant{}), Name: "EmptyVariant"}
	tUnit   = StructT()
)

var plainLeaves = []*T{tBool, tU8, tU16, tU32, tU64, tI8, tI16, tI32, tI64, tF32, tF64, tStr}
var namedLeaves = []*T{tNBool, tNU8, tNU16, tNU32, tNU64, tNI8, tNI16, tNI32, tNI64, tNF32, tNF64, tNStr, tBEnum}
var libLeaves = []*T{tLBool, tSafeStr, tHex, tVarint16, tVaruint16, tVaruint32, tVarint32, tJSONF64, tLI64, tLU64, tU128, tI128, tF128}

func allLeaves() []*T {
	out := append([]*T{}, plainLeaves...)
	out = append(out, namedLeaves...)
	return append(out, libLeaves...)
}

// uint-kind element types whose own marshalling the library bypasses inside
// slices and arrays (known finding of C20); the reference follows the bytes
// the library has always produced there.
func fastElem(t *T) Kind {
	switch t.RT.Kind() {
	case reflect.Uint8:
		return KU8
	case reflect.Uint16:
		return KU16
	case reflect.Uint32:
		return KU32
	case reflect.Uint64:
		return KU64
	}
	return KBool
}

func named(t *T, rt reflect.Type) *T {
	c := *t
	typeIDs++
	c.id = typeIDs
	c.RT = rt
	c.Name = rt.String()
	return &c
}

func ArrT(n int, e *T) *T {
	t := mk(KArr, reflect.ArrayOf(n, e.RT), fmt.Sprintf("[%d]%s", n, e.Name))
	t.N, t.Elem = n, e
	return t
}
func SliceT(e *T) *T {
	t := mk(KSlice, reflect.SliceOf(e.RT), "[]"+e.Name)
	t.Elem = e
	return t
}
func MapT(k, e *T) *T {
	t := mk(KMap, reflect.MapOf(k.RT, e.RT), fmt.Sprintf("map[%s]%s", k.Name, e.Name))
	t.Key, t.Elem = k, e
	return t
}
func PtrT(e *T) *T {
	t := mk(KPtr, reflect.PtrTo(e.RT), "*"+e.Name)
	t.Elem = e
	return t
}

// fld builds a field from a bin tag value ("" = none).
func fld(name string, t *T, tag string) F {
	f := F{Name: name, T: t}
	if tag != "" {
		if strings.HasPrefix(tag, "borsh_") {
			f.Tag = tag
		} else {
			f.Tag = `bin:"` + tag + `"`
		}
	}
	f.parse()
	return f
}

// parse interprets the tag independently of the library.
func (f *F) parse() {
	st := reflect.StructTag(f.Tag)
	for _, w := range strings.Fields(st.Get("bin")) {
		switch {
		case w == "big":
			f.Big = true
		case w == "little":
			f.Big = false
		case w == "optional" || w == "option":
			f.Opt = true
		case w == "coption":
			f.COpt = true
		case w == "binary_extension":
			f.Ext = true
		case w == "-" || w == "skip":
			f.Skip = true
		case strings.HasPrefix(w, "sizeof="):
			f.SizeOf = w[len("sizeof="):]
		}
	}
	if strings.TrimSpace(st.Get("borsh_skip")) == "true" {
		f.Skip = true
	}
	if f.Name != "" && f.Name[0] >= 'a' && f.Name[0] <= 'z' {
		f.Hidden = true
	}
}

func StructT(fs ...F) *T {
	var sf []reflect.StructField
	var nm []string
	for _, f := range fs {
		x := reflect.StructField{Name: f.Name, Type: f.T.RT, Tag: reflect.StructTag(f.Tag)}
		if f.Hidden {
			x.PkgPath = "main"
		}
		sf = append(sf, x)
		s := f.Name + " " + f.T.Name
		if f.Tag != "" {
			s += " `" + f.Tag + "`"
		}
		nm = append(nm, s)
	}
	t := mk(KStruct, reflect.StructOf(sf), "struct{"+strings.Join(nm, "; ")+"}")
	t.Fields = fs
	return t
}

// S builds a struct with fields F0,F1,... without tags.
func S(ts ...*T) *T {
	var fs []F
	for i, t := range ts {
		fs = append(fs, fld("F"+strconv.Itoa(i), t, ""))
	}
	return StructT(fs...)
}

func EnumT(tag string, payloads ...*T) *T {
	fs := []F{{Name: "Enum", T: tBEnum, Tag: tag}}
	for i, p := range payloads {
		fs = append(fs, fld("V"+strconv.Itoa(i), p, ""))
	}
	t := StructT(fs...)
	t.Enum = true
	t.Name = "enum" + t.Name[len("struct"):]
	return t
}

// FromGo derives a schema from a Go type (static types of the harness).
func FromGo(rt reflect.Type) *T { return fromGo(rt, map[reflect.Type]*T{}) }

var leafByType map[reflect.Type]*T

func fromGo(rt reflect.Type, seen map[reflect.Type]*T) *T {
	if leafByType == nil {
		leafByType = map[reflect.Type]*T{}
		for _, l := range append(allLeaves(), userLeaves()...) {
			leafByType[l.RT] = l
		}
		leafByType[tEmpty.RT] = tEmpty
	}
	if l, ok := leafByType[rt]; ok {
		return l
	}
	if t, ok := seen[rt]; ok {
		return t
	}
	t := mk(0, rt, rt.String())
	seen[rt] = t
	switch rt.Kind() {
	case reflect.Array:
		t.K, t.N, t.Elem = KArr, rt.Len(), fromGo(rt.Elem(), seen)
	case reflect.Slice:
		t.K, t.Elem = KSlice, fromGo(rt.Elem(), seen)
	case reflect.Map:
		t.K, t.Key, t.Elem = KMap, fromGo(rt.Key(), seen), fromGo(rt.Elem(), seen)
	case reflect.Ptr:
		t.K, t.Elem = KPtr, fromGo(rt.Elem(), seen)
	case reflect.Struct:
		t.K = KStruct
		for i := 0; i < rt.NumField(); i++ {
			sf := rt.Field(i)
			f := F{Name: sf.Name, Tag: string(sf.Tag)}
			f.parse()
			f.Hidden = !sf.IsExported()
			f.T = fromGo(sf.Type, seen)
			if i == 0 && sf.Type == tBEnum.RT && (sf.Tag.Get("borsh_enum") == "true" || strings.Contains(sf.Tag.Get("bin"), "enum")) {
				t.Enum = true
			}
			t.Fields = append(t.Fields, f)
		}
	default:
		panic("fromGo: " + rt.String())
	}
	return t
}

// canBeEmpty: the type has a zero-byte encoding (such element types are
// outside the round-trip contract inside slices and maps).
func canBeEmpty(t *T, enc bin.Encoding) bool {
	switch t.K {
	case KArr:
		return t.N == 0 || canBeEmpty(t.Elem, enc)
	case KStruct:
		if t.Enum && enc == bin.EncodingBorsh {
			return false
		}
		for _, f := range t.Fields {
			if f.Skip || f.Hidden || f.Ext {
				continue
			}
			if f.Opt || (f.COpt && enc == bin.EncodingBorsh) {
				return false
			}
			if f.T.K == KSlice && sizedBy(t, f.Name) {
				continue
			}
			if !canBeEmpty(f.T, enc) {
				return false
			}
		}
		return true
	case KPtr:
		return canBeEmpty(t.Elem, enc)
	}
	return false
}

func sizedBy(t *T, name string) bool {
	for _, f := range t.Fields {
		if f.SizeOf == name && !f.Skip && !f.Hidden {
			return true
		}
	}
	return false
}

var allEnc = []bin.Encoding{bin.EncodingBin, bin.EncodingBorsh, bin.EncodingCompactU16}
