package main

import "strings"

// taggedTypes: struct types over tag assignments.
func taggedTypes(thorough bool) []*T {
	var out []*T
	leaves := append(allLeaves(), userLeaves()...)
	tags := []string{"big", "little", "optional", "option", "optional big", "coption", "coption big", "big optional", "big coption", "option little", "little coption", "- big", "optional skip", "-", "skip", `borsh_skip:"true"`}
	for _, l := range leaves {
		for _, tg := range tags {
			out = append(out, StructT(fld("A", l, tg), fld("B", tU16, "")))
			out = append(out, StructT(fld("A", PtrT(l), tg), fld("B", tLU64, "")))
			out = append(out, StructT(fld("A", PtrT(PtrT(l)), tg), fld("B", tLU64, "")))
		}
	}
	conts := []*T{ArrT(2, tU16), SliceT(tU16), SliceT(tU8), SliceT(tI16), SliceT(tStr), MapT(tU8, tU16), S(tU16, tStr), PtrT(S(tU16, tStr)), PtrT(SliceT(tU64)), ArrT(2, tLU64), SliceT(tLI64), SliceT(tU128), MapT(tU16, tLU64), PtrT(MapT(tU8, tU8)), PtrT(tUPtr), PtrT(PtrT(tUPtr)), PtrT(PtrT(PtrT(tLI64))), PtrT(PtrT(S(tU16, tStr))), PtrT(PtrT(SliceT(tU16))), PtrT(ArrT(2, tLU64)), SliceT(PtrT(PtrT(tLU64))), MapT(tU8, PtrT(PtrT(tU16))), ArrT(2, PtrT(PtrT(tU128)))}
	for _, l := range conts {
		for _, tg := range tags {
			out = append(out, StructT(fld("A", l, tg), fld("B", tU32, "")))
		}
	}
	// ordered pairs of tagged fields, followed by an untagged witness
	pl := []*T{tU16, tI64, tF32, tStr, tLU64, tU128, tJSONF64, SliceT(tU16), PtrT(tU32), PtrT(tLI64), S(tU16, tLU64), SliceT(S(tLU64)), tUStruct}
	pt := []string{"", "big", "optional", "optional big", "coption", "-"}
	if !thorough {
		pl = []*T{tU16, tF64, tLU64, tU128, SliceT(tU16), PtrT(tU32), PtrT(tLI64), S(tU16, tLU64), tUStruct}
		pt = []string{"", "big", "optional big", "coption big", "-"}
	}
	for _, a := range pl {
		for _, ta := range pt {
			for _, b := range pl {
				for _, tb := range pt {
					if ta == "" && tb == "" {
						continue
					}
					out = append(out, StructT(fld("A", a, ta), fld("B", b, tb), fld("C", tLU64, ""), fld("D", tU16, "")))
				}
			}
		}
	}
	// nested structs under and around tagged fields
	for _, tg := range pt {
		in := StructT(fld("X", tU16, tg), fld("Y", tLU64, ""))
		for _, tg2 := range pt {
			out = append(out, StructT(fld("A", in, tg2), fld("B", tU32, "big"), fld("C", tLU64, "")))
			out = append(out, StructT(fld("P", PtrT(in), tg2), fld("B", tLI64, "")))
			out = append(out, StructT(fld("L", SliceT(in), tg2), fld("B", tLI64, "")))
			out = append(out, StructT(fld("M", MapT(tU16, in), tg2), fld("B", tU32, "")))
			out = append(out, StructT(fld("R", ArrT(2, in), tg2), fld("B", tU32, "")))
		}
	}
	// sizeof
	cnt := []*T{tU8, tU16, tU32, tU64, tI8, tI16, tI32, tI64, tNU8, tNI16, tVaruint16, tVarint16, tLU64, tLI64, tUU8}
	els := []*T{tU8, tU16, tU32, tU64, tNU8, tI16, tStr, tBool, S(tU16, tU8), PtrT(tU16), tVarint32, tUStruct}
	for _, cn := range cnt {
		for _, el := range els {
			out = append(out, StructT(fld("N", cn, "sizeof=L"), fld("L", SliceT(el), ""), fld("Z", tU16, "")))
		}
		for _, el := range []*T{tU8, tU16, tStr, S(tU16, tU8), PtrT(tU16), tLU64} {
			out = append(out, StructT(fld("N", cn, "sizeof=L"), fld("L", PtrT(SliceT(el)), ""), fld("Z", tU16, "")),
				StructT(fld("N", cn, "sizeof=L"), fld("L", PtrT(PtrT(SliceT(el))), "big"), fld("Z", SliceT(tU16), "")),
				StructT(fld("N", cn, "sizeof=L"), fld("L", SliceT(el), "optional"), fld("Z", SliceT(tU16), "")),
				StructT(fld("N", cn, "sizeof=L"), fld("L", PtrT(SliceT(el)), "optional"), fld("Z", SliceT(tU16), "")),
				StructT(fld("N", cn, "sizeof=L"), fld("L", PtrT(SliceT(el)), "coption"), fld("Z", tU16, "")))
		}
		out = append(out, StructT(fld("N", cn, "sizeof=L big"), fld("X", SliceT(tU8), ""), fld("L", SliceT(tU16), ""), fld("Z", SliceT(tU16), "")))
		out = append(out, StructT(fld("N", cn, "sizeof=L"), fld("M", tU8, "sizeof=K"), fld("K", SliceT(tU16), ""), fld("L", SliceT(tU8), ""), fld("Z", tU16, "big")))
	}
	// a sized slice inside a nested struct does not leak outwards or inwards
	sz := StructT(fld("N", tU8, "sizeof=L"), fld("L", SliceT(tU16), ""))
	out = append(out,
		StructT(fld("A", sz, ""), fld("L", SliceT(tU16), ""), fld("B", sz, "")),
		StructT(fld("L", SliceT(tU16), ""), fld("A", SliceT(sz), "")),
		StructT(fld("N", tU16, "sizeof=L"), fld("A", S(SliceT(tU8)), ""), fld("L", SliceT(SliceT(tU8)), "")),
		StructT(fld("N", tU8, "sizeof=Q"), fld("In", StructT(fld("Q", SliceT(tU8), "")), ""), fld("Q", SliceT(tU8), "")),
	)
	return out
}

// extTypes: structs ending in binary_extension fields.
func extTypes() []*T {
	var out []*T
	els := []*T{tU8, tU16, tStr, SliceT(tU16), PtrT(tU32), tLU64, S(tU16, tU8), MapT(tU8, tU8), tUStruct}
	for _, a := range els {
		out = append(out, StructT(fld("A", tU16, ""), fld("X", a, "binary_extension")))
		out = append(out, StructT(fld("X", a, "binary_extension")))
		for _, b := range els {
			out = append(out, StructT(fld("A", tU8, ""), fld("X", a, "binary_extension"), fld("Y", b, "binary_extension")))
			out = append(out, StructT(fld("A", tU8, ""), fld("X", a, "binary_extension optional"), fld("Y", b, "binary_extension big")))
		}
	}
	return out
}

// enumTypes: Borsh complex enums.
func enumTypes(thorough bool) []*T {
	tag := `borsh_enum:"true"`
	pay := enumPayloads()
	var out []*T
	for _, p := range pay {
		out = append(out, EnumT(tag, p), EnumT(`bin:"enum"`, tEmpty, p), EnumT(tag, p, tU16))
	}
	for i, p := range pay {
		q := pay[(i+5)%len(pay)]
		r := pay[(i+11)%len(pay)]
		e := EnumT(tag, p, tEmpty, q, r)
		out = append(out, e)
		if i%3 == 0 || thorough {
			out = append(out, S(e, tU8), SliceT(e), S(PtrT(e), tU16), MapT(tU8, e), ArrT(2, e),
				StructT(fld("O", e, "optional"), fld("Z", tU8, "")), StructT(fld("O", PtrT(e), "optional"), fld("Z", tLU64, "")),
				StructT(fld("O", PtrT(e), "coption"), fld("Z", tU8, "")), EnumT(tag, e, tU8), EnumT(tag, S(e, tU16), PtrT(e)))
		}
	}
	return out
}

func enumPayloads() []*T {
	pay := append([]*T{}, plainLeaves...)
	pay = append(pay, namedLeaves...)
	pay = append(pay, libLeaves...)
	pay = append(pay, userLeaves()...)
	pay = append(pay, tEmpty, tUnit, PtrT(tEmpty), PtrT(tU32), PtrT(tStr), PtrT(tLU64), PtrT(tUPtr), PtrT(S(tU8, tU16)),
		SliceT(tU8), SliceT(tU16), SliceT(tStr), SliceT(S(tU8)), ArrT(3, tU8), ArrT(2, tU32), ArrT(2, tStr), MapT(tU8, tU16), MapT(tStr, tStr),
		S(tU8, tStr), StructT(fld("A", tU16, "optional"), fld("B", PtrT(tU8), "coption"), fld("S", tU64, "-"), fld("C", tLU64, "big")))
	return pay
}

func hasTag(t *T, s string) bool {
	for _, f := range t.Fields {
		if strings.Contains(f.Tag, s) {
			return true
		}
	}
	return false
}
