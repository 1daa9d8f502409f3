package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"reflect"
	"sort"
	"strings"

	bin "github.com/gagliardetto/binary"
)

func hash(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

func hx(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%s...(%d bytes)", hex.EncodeToString(b[:200]), len(b))
	}
	return hex.EncodeToString(b)
}

func marshal(enc bin.Encoding, v any) (b []byte, err error, p string) {
	p = catch(func() {
		switch enc {
		case bin.EncodingBin:
			b, err = bin.MarshalBin(v)
		case bin.EncodingBorsh:
			b, err = bin.MarshalBorsh(v)
		default:
			b, err = bin.MarshalCompactU16(v)
		}
	})
	return
}

func unmarshal(enc bin.Encoding, ptr any, b []byte) (err error, p string) {
	p = catch(func() {
		switch enc {
		case bin.EncodingBin:
			err = bin.UnmarshalBin(ptr, b)
		case bin.EncodingBorsh:
			err = bin.UnmarshalBorsh(ptr, b)
		default:
			err = bin.UnmarshalCompactU16(ptr, b)
		}
	})
	return
}

func newDecoder(enc bin.Encoding, b []byte) *bin.Decoder {
	switch enc {
	case bin.EncodingBin:
		return bin.NewBinDecoder(b)
	case bin.EncodingBorsh:
		return bin.NewBorshDecoder(b)
	}
	return bin.NewCompactU16Decoder(b)
}

func newEncoder(enc bin.Encoding, w *bytes.Buffer) *bin.Encoder {
	switch enc {
	case bin.EncodingBin:
		return bin.NewBinEncoder(w)
	case bin.EncodingBorsh:
		return bin.NewBorshEncoder(w)
	}
	return bin.NewCompactU16Encoder(w)
}

// decode with a decoder, reporting position.
func decodePos(enc bin.Encoding, ptr any, b []byte) (pos int, err error, p string) {
	d := newDecoder(enc, b)
	p = catch(func() { err = d.Decode(ptr) })
	pos = int(d.Position())
	return
}

// show prints a value deterministically (follows pointers).
func show(v reflect.Value) string { return clip(showN(v, 0), 700) }

func showN(v reflect.Value, d int) string {
	if d > 6 {
		return "…"
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + showN(v.Elem(), d+1)
	case reflect.Struct:
		var s []string
		for i := 0; i < v.NumField(); i++ {
			s = append(s, v.Type().Field(i).Name+":"+showN(v.Field(i), d+1))
		}
		return "{" + strings.Join(s, " ") + "}"
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return "nil[]"
		}
		var s []string
		for i := 0; i < v.Len() && i < 40; i++ {
			s = append(s, showN(v.Index(i), d+1))
		}
		if v.Len() > 40 {
			s = append(s, fmt.Sprintf("...%d", v.Len()))
		}
		return "[" + strings.Join(s, " ") + "]"
	case reflect.Map:
		if v.IsNil() {
			return "nilmap"
		}
		var s []string
		for _, k := range v.MapKeys() {
			s = append(s, showN(k, d+1)+":"+showN(v.MapIndex(k), d+1))
		}
		sort.Strings(s)
		return "map[" + strings.Join(s, " ") + "]"
	case reflect.String:
		return fmt.Sprintf("%q", clip(v.String(), 80))
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return showN(v.Elem(), d+1)
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Float32, reflect.Float64:
		return fmt.Sprint(v.Float())
	}
	if v.CanInt() {
		return fmt.Sprint(v.Int())
	}
	if v.CanUint() {
		return fmt.Sprintf("%#x", v.Uint())
	}
	return v.Kind().String()
}

// deepCopy makes an independent copy (exported settable parts).
func deepCopy(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	out.Set(v)
	fixCopy(out)
	return out
}

func fixCopy(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() && v.CanSet() {
			p := reflect.New(v.Type().Elem())
			p.Elem().Set(v.Elem())
			fixCopy(p.Elem())
			v.Set(p)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				fixCopy(v.Field(i))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fixCopy(v.Index(i))
		}
	case reflect.Slice:
		if !v.IsNil() {
			s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
			reflect.Copy(s, v)
			for i := 0; i < s.Len(); i++ {
				fixCopy(s.Index(i))
			}
			v.Set(s)
		}
	case reflect.Map:
		if !v.IsNil() {
			m := reflect.MakeMap(v.Type())
			for _, k := range v.MapKeys() {
				m.SetMapIndex(k, deepCopy(v.MapIndex(k)))
			}
			v.Set(m)
		}
	}
}

// nanIn reports whether the value holds a float NaN (outside Borsh).
func refOK(t *T, v reflect.Value, enc bin.Encoding) bool {
	_, _, err := refEncode(t, v, enc, nil)
	return err == nil
}
