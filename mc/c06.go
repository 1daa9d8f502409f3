package main

import (
	"encoding/binary"
	"fmt"
	"math"

	bin "github.com/gagliardetto/binary"
)

func init() {
	register("C06", &Check{Level: "model_checking",
		Rule:        "state = (buffer, encoding, cursor) of the reference cursor, reached through the library; transition = one decoder method call compared with the reference cursor (result, error, new position, queries); trace = one operation sequence replayed from a fresh decoder",
		Assumptions: []string{"buffers of length 0..24 with eight fill patterns, and 35 lengths up to 131073 with every operation from every boundary position; argument domains {min,-1,0,1,2,5,8,remaining,remaining+1,2^31-1,2^31,max}", "sequences: all of length 1 from every position, all of length 2, length 3 over the full and a reduced alphabet, length 4 over a reduced alphabet (four buffers; thorough: all)", "after a failing variable-length read the cursor may be anywhere between its start and the end of the buffer; seeking to exactly the end may succeed or fail"},
		Promote:     true,
		Run:         runC06})
}

// mcur is the model state.
type mcur struct {
	b   []byte
	pos int
	enc bin.Encoding
}

// res is an observable result.
type res struct {
	u, v uint64
	s    string
	err  bool
}

// exp is the model's verdict: result and where the cursor may be afterwards.
type exp struct {
	r        res
	lo, hi   int  // allowed position range
	anyErr   bool // success or failure both allowed (with the given positions)
	okPos    int
	anyValue bool
}

type cop struct {
	name  string
	impl  func(d *bin.Decoder, m *mcur) res
	model func(m *mcur) exp
	core  bool // part of the reduced alphabet
}

func (m *mcur) rem() int { return len(m.b) - m.pos }

func fixedOp(name string, n int, val func(b []byte) res, refuse func(m *mcur, b []byte) bool, impl func(d *bin.Decoder) (res, error)) cop {
	return cop{name: name, impl: func(d *bin.Decoder, m *mcur) res {
		r, err := impl(d)
		if err != nil {
			return res{err: true}
		}
		return r
	}, model: func(m *mcur) exp {
		if m.rem() < n {
			return exp{r: res{err: true}, lo: m.pos, hi: m.pos}
		}
		b := m.b[m.pos : m.pos+n]
		if refuse != nil && refuse(m, b) {
			return exp{r: res{err: true}, lo: m.pos, hi: m.pos}
		}
		return exp{r: val(b), lo: m.pos + n, hi: m.pos + n}
	}}
}

func rdN(b []byte, n int, big bool) uint64 {
	r := &R{b: b}
	return r.uN(n, big)
}

// varOp: runs f on a reference reader; failing leaves the cursor free in [pos, len].
func varOp(name string, stay bool, f func(r *R) res, impl func(d *bin.Decoder) (res, error)) cop {
	return cop{name: name, impl: func(d *bin.Decoder, m *mcur) res {
		r, err := impl(d)
		if err != nil {
			return res{err: true}
		}
		return r
	}, model: func(m *mcur) (e exp) {
		r := &R{b: m.b, pos: m.pos, enc: m.enc}
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(*refErr); !ok {
					panic(x)
				}
				e = exp{r: res{err: true}, lo: m.pos, hi: len(m.b)}
				if stay {
					e.hi = m.pos
				}
			}
		}()
		out := f(r)
		return exp{r: out, lo: r.pos, hi: r.pos}
	}}
}

type argN struct {
	name string
	f    func(m *mcur) int
}

func argDomain() []argN {
	k := func(n int) argN { return argN{fmt.Sprint(n), func(*mcur) int { return n }} }
	return []argN{k(0), k(1), k(2), k(5), k(8), {"rem", func(m *mcur) int { return m.rem() }}, {"rem+1", func(m *mcur) int { return m.rem() + 1 }},
		{"len", func(m *mcur) int { return len(m.b) }},
		k(-1), k(math.MinInt), k(math.MaxInt), k(math.MaxInt32), k(math.MaxInt32 + 1), {"max-pos", func(m *mcur) int { return math.MaxInt - m.pos }}, {"max-pos+1", func(m *mcur) int { return math.MaxInt - m.pos + 1 }}}
}

func cursorOps(args []argN) []cop {
	var ops []cop
	add := func(core bool, o cop) { o.core = core; ops = append(ops, o) }
	orders := []struct {
		n   string
		o   binary.ByteOrder
		big bool
	}{{"LE", binary.LittleEndian, false}, {"BE", binary.BigEndian, true}}
	u := func(x uint64) res { return res{u: x} }
	add(true, fixedOp("ReadByte", 1, func(b []byte) res { return u(uint64(b[0])) }, nil, func(d *bin.Decoder) (res, error) { x, e := d.ReadByte(); return u(uint64(x)), e }))
	add(false, fixedOp("ReadUint8", 1, func(b []byte) res { return u(uint64(b[0])) }, nil, func(d *bin.Decoder) (res, error) { x, e := d.ReadUint8(); return u(uint64(x)), e }))
	add(false, fixedOp("ReadInt8", 1, func(b []byte) res { return u(uint64(int64(int8(b[0])))) }, nil, func(d *bin.Decoder) (res, error) { x, e := d.ReadInt8(); return u(uint64(int64(x))), e }))
	bo := func(b bool) res {
		if b {
			return u(1)
		}
		return u(0)
	}
	add(false, fixedOp("ReadBool", 1, func(b []byte) res { return bo(b[0] != 0) }, nil, func(d *bin.Decoder) (res, error) { x, e := d.ReadBool(); return bo(x), e }))
	add(false, fixedOp("ReadOption", 1, func(b []byte) res { return bo(b[0] != 0) }, nil, func(d *bin.Decoder) (res, error) { x, e := d.ReadOption(); return bo(x), e }))
	add(false, fixedOp("ReadCOption", 4, func(b []byte) res { return bo(rdN(b, 4, false) != 0) }, func(m *mcur, b []byte) bool { return rdN(b, 4, false) > 1 }, func(d *bin.Decoder) (res, error) { x, e := d.ReadCOption(); return bo(x), e }))
	for _, o := range orders {
		o := o
		add(true, fixedOp("ReadUint16"+o.n, 2, func(b []byte) res { return u(rdN(b, 2, o.big)) }, nil, func(d *bin.Decoder) (res, error) { x, e := d.ReadUint16(o.o); return u(uint64(x)), e }))
		add(false, fixedOp("ReadInt16"+o.n, 2, func(b []byte) res { return u(uint64(int64(int16(rdN(b, 2, o.big))))) }, nil, func(d *bin.Decoder) (res, error) { x, e := d.ReadInt16(o.o); return u(uint64(int64(x))), e }))
		add(o.big, fixedOp("ReadUint32"+o.n, 4, func(b []byte) res { return u(rdN(b, 4, o.big)) }, nil, func(d *bin.Decoder) (res, error) { x, e := d.ReadUint32(o.o); return u(uint64(x)), e }))
		add(false, fixedOp("ReadInt32"+o.n, 4, func(b []byte) res { return u(uint64(int64(int32(rdN(b, 4, o.big))))) }, nil, func(d *bin.Decoder) (res, error) { x, e := d.ReadInt32(o.o); return u(uint64(int64(x))), e }))
		add(!o.big, fixedOp("ReadUint64"+o.n, 8, func(b []byte) res { return u(rdN(b, 8, o.big)) }, nil, func(d *bin.Decoder) (res, error) { x, e := d.ReadUint64(o.o); return u(x), e }))
		add(false, fixedOp("ReadInt64"+o.n, 8, func(b []byte) res { return u(rdN(b, 8, o.big)) }, nil, func(d *bin.Decoder) (res, error) { x, e := d.ReadInt64(o.o); return u(uint64(x)), e }))
		w := func(b []byte) res {
			x, y := rdN(b, 8, o.big), rdN(b[8:], 8, o.big)
			if o.big {
				x, y = y, x
			}
			return res{u: x, v: y}
		}
		add(o.big, fixedOp("ReadUint128"+o.n, 16, w, nil, func(d *bin.Decoder) (res, error) { x, e := d.ReadUint128(o.o); return res{u: x.Lo, v: x.Hi}, e }))
		add(false, fixedOp("ReadInt128"+o.n, 16, w, nil, func(d *bin.Decoder) (res, error) { x, e := d.ReadInt128(o.o); return res{u: x.Lo, v: x.Hi}, e }))
		add(false, fixedOp("ReadFloat128"+o.n, 16, w, nil, func(d *bin.Decoder) (res, error) { x, e := d.ReadFloat128(o.o); return res{u: x.Lo, v: x.Hi}, e }))
		add(false, fixedOp("ReadFloat32"+o.n, 4, func(b []byte) res { return u(rdN(b, 4, o.big)) }, func(m *mcur, b []byte) bool { return m.enc == bin.EncodingBorsh && isNaNBits(rdN(b, 4, o.big), 4) }, func(d *bin.Decoder) (res, error) {
			x, e := d.ReadFloat32(o.o)
			return u(uint64(math.Float32bits(x))), e
		}))
		add(false, fixedOp("ReadFloat64"+o.n, 8, func(b []byte) res { return u(rdN(b, 8, o.big)) }, func(m *mcur, b []byte) bool { return m.enc == bin.EncodingBorsh && isNaNBits(rdN(b, 8, o.big), 8) }, func(d *bin.Decoder) (res, error) {
			x, e := d.ReadFloat64(o.o)
			return u(math.Float64bits(x)), e
		}))
	}
	id := func(b []byte) res { return res{s: string(b)} }
	add(true, fixedOp("ReadTypeID", 8, id, nil, func(d *bin.Decoder) (res, error) { x, e := d.ReadTypeID(); return res{s: string(x[:])}, e }))
	add(false, fixedOp("ReadDiscriminator", 8, id, nil, func(d *bin.Decoder) (res, error) { x, e := d.ReadDiscriminator(); return res{s: string(x[:])}, e }))
	add(true, cop{name: "PeekDiscriminator", impl: func(d *bin.Decoder, m *mcur) res {
		x, e := d.PeekDiscriminator()
		if e != nil {
			return res{err: true}
		}
		return res{s: string(x[:])}
	}, model: func(m *mcur) exp {
		if m.rem() < 8 {
			return exp{r: res{err: true}, lo: m.pos, hi: m.pos}
		}
		return exp{r: res{s: string(m.b[m.pos : m.pos+8])}, lo: m.pos, hi: m.pos}
	}})
	// varints
	add(true, varOp("ReadUvarint64", true, func(r *R) res { return u(r.leb64()) }, func(d *bin.Decoder) (res, error) { x, e := d.ReadUvarint64(); return u(x), e }))
	add(false, varOp("ReadVarint64", true, func(r *R) res { return u(uint64(unzig(r.leb64()))) }, func(d *bin.Decoder) (res, error) { x, e := d.ReadVarint64(); return u(uint64(x)), e }))
	lim := func(max uint64) func(r *R) res {
		return func(r *R) res {
			x := r.leb64()
			if x > max {
				rfail("range")
			}
			return u(x)
		}
	}
	slim := func(bits uint) func(r *R) res {
		return func(r *R) res {
			x := unzig(r.leb64())
			if x < -(1<<(bits-1)) || x >= 1<<(bits-1) {
				rfail("range")
			}
			return u(uint64(x))
		}
	}
	add(false, varOp("ReadUvarint32", false, lim(math.MaxUint32), func(d *bin.Decoder) (res, error) { x, e := d.ReadUvarint32(); return u(uint64(x)), e }))
	add(false, varOp("ReadUvarint16", false, lim(math.MaxUint16), func(d *bin.Decoder) (res, error) { x, e := d.ReadUvarint16(); return u(uint64(x)), e }))
	add(false, varOp("ReadVarint32", false, slim(32), func(d *bin.Decoder) (res, error) { x, e := d.ReadVarint32(); return u(uint64(int64(x))), e }))
	add(true, varOp("ReadVarint16", false, slim(16), func(d *bin.Decoder) (res, error) { x, e := d.ReadVarint16(); return u(uint64(int64(x))), e }))
	cmp := func(r *R) res {
		v, n, ok := refCompact(r.b[r.pos:])
		if !ok {
			rfail("compact")
		}
		r.pos += n
		return u(uint64(v))
	}
	add(true, varOp("ReadCompactU16", true, cmp, func(d *bin.Decoder) (res, error) { x, e := d.ReadCompactU16(); return u(uint64(x)), e }))
	add(false, varOp("ReadCompactU16Length", true, cmp, func(d *bin.Decoder) (res, error) { x, e := d.ReadCompactU16Length(); return u(uint64(x)), e }))
	add(true, varOp("ReadLength", false, func(r *R) res { return u(uint64(r.length())) }, func(d *bin.Decoder) (res, error) { x, e := d.ReadLength(); return u(uint64(x)), e }))
	bs := func(r *R) res { return res{s: string(r.bytes(r.length()))} }
	add(true, varOp("ReadByteSlice", false, bs, func(d *bin.Decoder) (res, error) { x, e := d.ReadByteSlice(); return res{s: string(x)}, e }))
	add(false, varOp("ReadString", false, bs, func(d *bin.Decoder) (res, error) { x, e := d.ReadString(); return res{s: x}, e }))
	add(false, varOp("SafeReadUTF8String", false, func(r *R) res { return res{s: refSafe(r.bytes(r.length()))} }, func(d *bin.Decoder) (res, error) { x, e := d.SafeReadUTF8String(); return res{s: x}, e }))
	add(true, varOp("ReadRustString", false, func(r *R) res {
		n := r.uN(8, false)
		if n > math.MaxInt32 {
			rfail("len")
		}
		return res{s: string(r.bytes(int(n)))}
	}, func(d *bin.Decoder) (res, error) { x, e := d.ReadRustString(); return res{s: x}, e }))
	// counted operations
	for _, a := range args {
		a := a
		core := a.name == "1" || a.name == "rem+1" || a.name == "rem" || a.name == "-1"
		model := func(move bool) func(m *mcur) exp {
			return func(m *mcur) exp {
				n := a.f(m)
				if n < 0 || n > m.rem() {
					return exp{r: res{err: true}, lo: m.pos, hi: m.pos}
				}
				e := exp{r: res{s: string(m.b[m.pos : m.pos+n])}, lo: m.pos, hi: m.pos}
				if move {
					e.lo, e.hi = m.pos+n, m.pos+n
				}
				return e
			}
		}
		noVal := func(f func(m *mcur) exp) func(m *mcur) exp {
			return func(m *mcur) exp { e := f(m); e.r.s = ""; return e }
		}
		by := func(f func(d *bin.Decoder, n int) ([]byte, error)) func(d *bin.Decoder, m *mcur) res {
			return func(d *bin.Decoder, m *mcur) res {
				x, e := f(d, a.f(m))
				if e != nil {
					return res{err: true}
				}
				return res{s: string(x)}
			}
		}
		add(core, cop{name: "ReadNBytes(" + a.name + ")", impl: by(func(d *bin.Decoder, n int) ([]byte, error) { return d.ReadNBytes(n) }), model: model(true)})
		add(false, cop{name: "ReadBytes(" + a.name + ")", impl: by(func(d *bin.Decoder, n int) ([]byte, error) { return d.ReadBytes(n) }), model: model(true)})
		add(core, cop{name: "Peek(" + a.name + ")", impl: by(func(d *bin.Decoder, n int) ([]byte, error) { return d.Peek(n) }), model: model(false)})
		add(core, cop{name: "Discard(" + a.name + ")", impl: by(func(d *bin.Decoder, n int) ([]byte, error) { return nil, d.Discard(n) }), model: noVal(model(true))})
		add(core, cop{name: "SkipBytes(" + a.name + ")", impl: by(func(d *bin.Decoder, n int) ([]byte, error) { return nil, d.SkipBytes(uint(n)) }), model: noVal(model(true))})
		add(core, cop{name: "SetPosition(" + a.name + ")", impl: by(func(d *bin.Decoder, n int) ([]byte, error) { return nil, d.SetPosition(uint(n)) }), model: func(m *mcur) exp {
			n := a.f(m)
			if n < 0 || n > len(m.b) {
				return exp{r: res{err: true}, lo: m.pos, hi: m.pos}
			}
			if n == len(m.b) {
				return exp{anyErr: true, okPos: n, lo: m.pos, hi: m.pos}
			}
			return exp{lo: n, hi: n}
		}})
		if n := a.name; n == "0" || n == "1" || n == "5" || n == "rem" || n == "rem+1" || n == "len" || n[0] == '#' {
			add(core, cop{name: "Read(" + a.name + ")", impl: by(func(d *bin.Decoder, n int) ([]byte, error) {
				buf := make([]byte, n)
				k, e := d.Read(buf)
				if e == nil && k != n {
					return []byte(fmt.Sprintf("short %d", k)), nil
				}
				return buf, e
			}), model: model(true)})
		}
	}
	// decoding through the same cursor
	add(true, cop{name: "Decode(u16,str)", impl: func(d *bin.Decoder, m *mcur) res {
		var x struct {
			A uint16
			S []uint8
		}
		if d.Decode(&x) != nil {
			return res{err: true}
		}
		return res{u: uint64(x.A), s: string(x.S)}
	}, model: varOp("", false, func(r *R) res { a := r.uN(2, false); return res{u: a, s: string(r.bytes(r.length()))} }, nil).model})
	// resets and encoding changes
	for i, nb := range [][]byte{nil, {1, 2, 3}, {0x83, 1, 0xff, 0, 0, 0, 0, 0, 7, 8}} {
		nb := nb
		add(i > 0, cop{name: fmt.Sprintf("Reset(%x)", nb), impl: func(d *bin.Decoder, m *mcur) res { d.Reset(nb); return res{} }, model: func(m *mcur) exp {
			m.b, m.pos = nb, 0
			return exp{}
		}})
	}
	for _, e := range allEnc {
		e := e
		add(false, cop{name: "SetEncoding(" + e.String() + ")", impl: func(d *bin.Decoder, m *mcur) res { d.SetEncoding(e); return res{} }, model: func(m *mcur) exp {
			m.enc = e
			return exp{lo: m.pos, hi: m.pos}
		}})
	}
	return ops
}

// step applies one operation to library and model; false on disagreement.
func (o *cop) step(d *bin.Decoder, m *mcur) string {
	before := *m
	var got res
	p := catch(func() { got = o.impl(d, &before) })
	if p != "" {
		return "panics: " + p
	}
	e := o.model(m)
	pos := int(d.Position())
	if e.anyErr {
		if !got.err {
			if pos != e.okPos {
				return fmt.Sprintf("succeeds but position is %d, want %d", pos, e.okPos)
			}
		} else if pos != e.lo {
			return fmt.Sprintf("fails and moves the cursor to %d", pos)
		}
	} else {
		if got != e.r {
			return fmt.Sprintf("gives %+v, want %+v", got, e.r)
		}
		if pos < e.lo || pos > e.hi {
			return fmt.Sprintf("leaves position %d, want %d..%d", pos, e.lo, e.hi)
		}
	}
	m.pos = pos
	if d.Len() != len(m.b) || d.Remaining() != len(m.b)-pos || d.HasRemaining() != (pos < len(m.b)) || int(d.Position()) != pos {
		return fmt.Sprintf("then queries disagree: Len %d Remaining %d HasRemaining %v Position %d (buffer %d)", d.Len(), d.Remaining(), d.HasRemaining(), d.Position(), len(m.b))
	}
	if d.IsBin() != (m.enc == bin.EncodingBin) || d.IsBorsh() != (m.enc == bin.EncodingBorsh) || d.IsCompactU16() != (m.enc == bin.EncodingCompactU16) {
		return "then the encoding queries disagree"
	}
	return ""
}

func cursorBuffers() [][]byte {
	var out [][]byte
	for n := 0; n <= 24; n++ {
		for k := 0; k < 8; k++ {
			b := make([]byte, n)
			for i := range b {
				switch k {
				case 1:
					b[i] = 1
				case 2:
					b[i] = 0xff
				case 3:
					b[i] = byte(i + 1)
				case 4:
					b[i] = 0x80 + byte(i)
				case 5: // u32 lengths 3, 0
					b[i] = []byte{3, 0, 0, 0, 'a', 0xc3, 'b', 0}[i%8]
				case 6: // u64 length 5
					b[i] = []byte{5, 0, 0, 0, 0, 0, 0, 0, 'h', 0xe2, 0x82, 0xac, 'o'}[i%13]
				case 7:
					b[i] = []byte{0x80, 0x01, 0xc0, 0x7f, 0x7f, 0xc0, 0xff, 0xff, 0xff, 0xff, 0x0f}[i%11]
				}
			}
			if n == 0 && k > 0 {
				continue
			}
			out = append(out, b)
		}
	}
	return out
}

func runC06(c *Ctx) {
	ops := cursorOps(argDomain())
	c.MaxOf("operations", int64(len(ops)))
	bufs := cursorBuffers()
	// explicit-state search: from every reachable (buffer, encoding, position)
	for bi, b := range bufs {
		for _, enc := range allEnc {
			c.Group(fmt.Sprintf("bfs:%s:%d:%x", enc, len(b), b))
			if !c.Next() {
				continue
			}
			bfs(c, ops, b, enc, bi)
		}
	}
	bigCursors(c)
	// sequences from a fresh decoder
	var pick [][]byte
	for i, b := range bufs {
		if len(b) == 0 || len(b) == 1 && i%8 == 3 || (len(b) == 9 || len(b) == 17) || len(b) == 20 && i%3 == 0 {
			pick = append(pick, b)
		}
	}
	var reduced []cop
	for _, o := range ops {
		if o.core {
			reduced = append(reduced, o)
		}
	}
	seqs := func(name string, alpha []cop, depth int, bufs [][]byte) {
		for _, b := range bufs {
			for _, enc := range allEnc {
				c.Group(fmt.Sprintf("%s:%s:%x", name, enc, b))
				for i := range alpha {
					if !c.Next() {
						continue
					}
					idx := make([]int, depth)
					idx[0] = i
					for {
						if !runSeq(c, alpha, idx, b, enc) {
							return
						}
						k := depth - 1
						for ; k >= 1; k-- {
							idx[k]++
							if idx[k] < len(alpha) {
								break
							}
							idx[k] = 0
						}
						if k < 1 {
							break
						}
						if k == 1 {
							c.Tick()
						}
					}
				}
			}
		}
	}
	seqs("seq2", ops, 2, pick)
	seqs("seq3", reduced, 3, pick)
	if c.Thorough {
		seqs("seq3full", ops, 3, pick)
	} else {
		seqs("seq3full", ops, 3, [][]byte{pick[0], pick[len(pick)-2]})
	}
	if c.Extra {
		seqs("seq4", reduced, 4, pick)
	} else if c.Thorough {
		seqs("seq4", reduced, 4, pick[:4])
	}
}

// bigCursors: every operation from every boundary position of large buffers,
// reached in three ways, with amounts around every boundary.
func bigCursors(c *Ctx) {
	lens := []int{33, 64, 100, 127, 128, 129, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1024, 1025, 4095, 4096, 4097, 5000, 8192, 8193, 16384, 16385, 20000, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131072, 131073}
	if c.Extra {
		lens = append(lens, 1<<20+1, 1<<24+1)
	}
	for _, n := range lens {
		for k := 0; k < 3; k++ {
			c.Group(fmt.Sprintf("big:%d:%d", n, k))
			b := make([]byte, n)
			for i := range b {
				switch k {
				case 0:
					b[i] = byte(i*7 + i>>8*3 + i>>16)
				case 1: // lengths that fit
					b[i] = []byte{0x90, 2, 0, 0, 0, 0, 0, 0, 'a'}[i%9]
				case 2:
					b[i] = []byte{0x81, 0x01, 0, 0, 7}[i%5]
				}
			}
			at := map[int]bool{}
			var points []int
			point := func(i int) {
				if i >= 0 && i <= n && !at[i] {
					at[i] = true
					points = append(points, i)
				}
			}
			for i := 0; i < 3; i++ {
				point(i)
				point(n - i)
				point(n/2 + i)
			}
			for _, w := range []int{4, 8, 16} {
				point(n - w)
				point(n - w + 1)
			}
			for p := 16; p <= n; p *= 2 {
				point(p - 1)
				point(p)
				point(p + 1)
			}
			args := argDomain()
			for _, p := range points {
				p := p
				if p > 8 {
					args = append(args, argN{fmt.Sprintf("#%d", p), func(*mcur) int { return p }})
				}
			}
			ops := cursorOps(args)
			byName := map[string]*cop{}
			for i := range ops {
				byName[ops[i].name] = &ops[i]
			}
			for pi, p := range points {
				for wi, way := range []string{"SetPosition", "SkipBytes", "ReadNBytes", "Discard"} {
					if !c.Next() {
						continue
					}
					enc := allEnc[(pi+wi+k)%len(allEnc)]
					to := byName[fmt.Sprintf("%s(#%d)", way, p)]
					if to == nil {
						to = byName[fmt.Sprintf("%s(%d)", way, p)]
					}
					for i := range ops {
						d := newDecoder(enc, b)
						m := &mcur{b: b, enc: enc}
						if to != nil {
							if msg := to.step(d, m); msg != "" {
								c.Fail("%s decoder over %d bytes (fill %d): %s %s", enc, n, k, to.name, clip(msg, 300))
								return
							}
						}
						from := m.pos
						c.Res.Transitions++
						if msg := ops[i].step(d, m); msg != "" {
							c.Fail("%s decoder over %d bytes (fill %d), %s to %d: %s %s", enc, n, k, way, from, ops[i].name, clip(msg, 300))
							return
						}
						c.Res.Traces++
					}
					c.Res.States++
					c.Tick()
				}
			}
		}
	}
}

func bfs(c *Ctx, ops []cop, b []byte, enc bin.Encoding, seed int) {
	keep := string(b)
	seen := map[int][]int{0: nil} // position -> op path
	todo := []int{0}
	for len(todo) > 0 {
		pos := todo[0]
		todo = todo[1:]
		c.Res.States++
		for i := range ops {
			d := newDecoder(enc, b)
			m := &mcur{b: b, enc: enc}
			for _, k := range seen[pos] { // replay the path on the real decoder
				if msg := ops[k].step(d, m); msg != "" {
					c.Fail("replay diverged: %s", msg)
					return
				}
			}
			if m.pos != pos {
				c.Fail("replay of %v reaches %d, recorded %d", seen[pos], m.pos, pos)
				return
			}
			msg := ops[i].step(d, m)
			c.Res.Transitions++
			if msg != "" {
				c.Fail("%s decoder over %x at %d: %s %s", enc, b, pos, ops[i].name, msg)
				return
			}
			if string(b) != keep {
				c.Fail("%s over %s changed the buffer to %x", ops[i].name, keep, b)
				return
			}
			if len(m.b) == len(b) && m.enc == enc && (len(b) == 0 || &m.b[0] == &b[0]) {
				if _, ok := seen[m.pos]; !ok {
					seen[m.pos] = append(append([]int{}, seen[pos]...), i)
					todo = append(todo, m.pos)
				}
			}
		}
	}
	c.Res.Traces += int64(len(seen) * len(ops))
	if seed%40 == 3 {
		c.Sample("buffer %x %s: %d reachable positions x %d operations", b, enc, len(seen), len(ops))
	}
}

func runSeq(c *Ctx, ops []cop, idx []int, b []byte, enc bin.Encoding) bool {
	d := newDecoder(enc, b)
	m := &mcur{b: b, enc: enc}
	for n, k := range idx {
		c.Res.Transitions++
		if msg := ops[k].step(d, m); msg != "" {
			var names []string
			for _, j := range idx[:n+1] {
				names = append(names, ops[j].name)
			}
			c.Fail("%s decoder over %x, sequence %v: last operation %s", enc, b, names, msg)
			return false
		}
	}
	c.Res.Traces++
	return true
}
