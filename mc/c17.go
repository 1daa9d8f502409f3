//go:build sched && race

package main

// Controlled-scheduler exploration. The library is built with a yield before
// every statement (instr) and the race detector; thread switches happen only
// at yields, as a plan says. Hand-offs are hidden from the race detector, so
// they create no happens-before edges and any unsynchronised sharing between
// the threads is reported whatever the schedule.

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	bin "github.com/gagliardetto/binary"
)

func init() {
	register("C17", &Check{Level: "model_checking",
		Rule:        "state = distinct (program, schedule); transition = one statement-level scheduling point executed; trace = one complete schedule run on the real (instrumented) code under the race detector, every thread's result compared with the result it obtains alone and the shared inputs compared with their snapshot",
		Assumptions: []string{"programs: all unordered pairs of operations, without preemption and, for operations on the same type or module, with 1 preemption at every scheduling point; three threads running one operation of at most 600 scheduling points with 1 preemption (quick); all pairs with 1, related pairs with 2 preemptions and related triples with 1 (thorough, time limit 2 h recorded as capped); scheduling points before every statement of the library; tracing disabled", "a thread blocked on a lock is detected by a watchdog and the lock holder resumed"},
		Hang:        60 * time.Second,
		Run:         runC17})
}

type preempt struct{ at, to int }

type sched struct {
	mu       sync.Mutex
	on       bool
	slow     bool
	cur      int
	n        int
	step     int
	next     int
	pi       int
	plan     []preempt
	tok      []chan struct{}
	finished []bool
	blocked  []bool
	goid     []string
	finPick  int
	fins     int
	useful   int // last step at which more than one thread was alive
	jobs     []chan job
	done     chan int
}

type job struct {
	f   func() []any
	out *[]any
	p   *string
}

var sc *sched

//go:norace
func hook() {
	s := sc
	if !s.on {
		return
	}
	s.step++
	if !s.slow && s.step != s.next {
		return
	}
	runtime.RaceDisable()
	s.yield()
	runtime.RaceEnable()
}

//go:norace
func (s *sched) me() int {
	if !s.slow {
		return s.cur
	}
	g := goid()
	for i, x := range s.goid {
		if x == g {
			return i
		}
	}
	return -1
}

func goid() string {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	f := strings.Fields(string(b[:n]))
	return f[1]
}

//go:norace
func (s *sched) yield() {
	s.mu.Lock()
	me := s.me()
	if me < 0 {
		s.mu.Unlock()
		return
	}
	if me != s.cur {
		s.blocked[me] = false
		if s.cur == -1 {
			s.cur = me
			s.mu.Unlock()
			return
		}
		s.mu.Unlock()
		<-s.tok[me]
		return
	}
	if s.pi < len(s.plan) && s.step >= s.next {
		to := s.plan[s.pi].to
		s.pi++
		s.next = -1
		if s.pi < len(s.plan) {
			s.next = s.plan[s.pi].at
		}
		if to != me && !s.finished[to] && !s.blocked[to] {
			s.cur = to
			s.mu.Unlock()
			s.tok[to] <- struct{}{}
			<-s.tok[me]
			return
		}
	}
	s.mu.Unlock()
}

//go:norace
func (s *sched) finish(me int) {
	runtime.RaceDisable()
	s.mu.Lock()
	s.step++
	s.finished[me] = true
	left := 0
	for i := 0; i < s.n; i++ {
		if !s.finished[i] {
			left++
		}
	}
	if left == 1 {
		s.useful = s.step
	}
	if s.cur == me {
		s.handOff()
	}
	s.mu.Unlock()
	runtime.RaceEnable()
}

// handOff gives the token to a runnable thread (mu held).
//
//go:norace
func (s *sched) handOff() bool {
	var c []int
	for i := 0; i < s.n; i++ {
		if !s.finished[i] && !s.blocked[i] {
			c = append(c, i)
		}
	}
	if len(c) == 0 {
		s.cur = -1
		return false
	}
	k := 0
	if s.fins == 0 {
		k = s.finPick % len(c)
	}
	s.fins++
	s.cur = c[k]
	s.tok[c[k]] <- struct{}{}
	return true
}

//go:norace
func (s *sched) watch() {
	runtime.RaceDisable()
	last := -1
	for {
		time.Sleep(time.Millisecond)
		if !s.on {
			last = -1
			continue
		}
		if s.step != last {
			last = s.step
			continue
		}
		s.mu.Lock()
		if s.on && s.step == last && s.cur >= 0 && !s.finished[s.cur] {
			other := false
			for i := 0; i < s.n; i++ {
				if i != s.cur && !s.finished[i] && !s.blocked[i] {
					other = true
				}
			}
			if other {
				s.slow = true
				s.blocked[s.cur] = true
				s.handOff()
				blockedRuns++
			}
		}
		s.mu.Unlock()
		last = -1
	}
}

var blockedRuns int64

const maxThreads = 3

func newSched() *sched {
	s := &sched{done: make(chan int, maxThreads)}
	for i := 0; i < maxThreads; i++ {
		s.tok = append(s.tok, make(chan struct{}, 1))
		s.jobs = append(s.jobs, make(chan job))
		s.finished = append(s.finished, true)
		s.blocked = append(s.blocked, false)
		s.goid = append(s.goid, "")
	}
	ready := make(chan bool)
	for i := 0; i < maxThreads; i++ {
		go s.thread(i, ready)
		<-ready
	}
	go s.watch()
	return s
}

func (s *sched) thread(i int, ready chan bool) {
	s.goid[i] = goid()
	ready <- true
	for j := range s.jobs[i] {
		s.await(i)
		*j.p = catch(func() { *j.out = j.f() })
		s.finish(i)
		s.done <- i
	}
}

//go:norace
func (s *sched) await(i int) {
	runtime.RaceDisable()
	<-s.tok[i]
	runtime.RaceEnable()
}

//go:norace
func (s *sched) prepare(n, first, finPick int, plan []preempt) {
	s.n, s.cur, s.step, s.pi, s.plan, s.slow, s.finPick, s.fins = n, first, 0, 0, plan, false, finPick, 0
	s.next = -1
	if len(plan) > 0 {
		s.next = plan[0].at
	}
	for i := 0; i < n; i++ {
		s.finished[i], s.blocked[i] = false, false
	}
	s.on = true
}

// run executes one schedule; it returns the number of scheduling points.
func (s *sched) run(ops []*cthread, first, finPick int, plan []preempt) (res [][]any, ps []string, steps int) {
	n := len(ops)
	res, ps = make([][]any, n), make([]string, n)
	s.prepare(n, first, finPick, plan)
	for i := range ops {
		s.jobs[i] <- job{ops[i].run, &res[i], &ps[i]}
	}
	s.start(first)
	for range ops {
		<-s.done
	}
	return res, ps, s.stop()
}

//go:norace
func (s *sched) start(first int) {
	runtime.RaceDisable()
	s.tok[first] <- struct{}{}
	runtime.RaceEnable()
}

//go:norace
func (s *sched) stop() int {
	s.on = false
	runtime.RaceDisable()
	s.mu.Lock()
	for i := range s.tok { // a token sent to a thread that finished meanwhile
		select {
		case <-s.tok[i]:
		default:
		}
	}
	s.mu.Unlock()
	runtime.RaceEnable()
	return s.step
}

// cthread is one thread's operation.
type cthread struct {
	name string
	fam  string // operations of one family share more than the code
	run  func() []any
	want string
	n    int  // scheduling points alone
	long bool // many operations; in the quick tier it is not itself preempted
}

// render turns raw results into text (after the threads are done).
func render(r []any, p string) string {
	var s []string
	for _, x := range r {
		switch v := x.(type) {
		case nil:
			s = append(s, "nil")
		case []byte:
			s = append(s, hx(v))
		case error:
			s = append(s, "error: "+v.Error())
		case string:
			s = append(s, strconv.Quote(v))
		case reflect.Value:
			s = append(s, show(v))
		default:
			s = append(s, fmt.Sprintf("%v", v))
		}
	}
	if p != "" {
		s = append(s, "panic: "+p)
	}
	return strings.Join(s, " | ")
}

type sharedIn struct {
	name string
	v    reflect.Value
	b    []byte
	snap string
}

func (x *sharedIn) text() string {
	if x.v.IsValid() {
		return show(x.v)
	}
	return hx(x.b)
}

var sharedIns []*sharedIn

func share(name string, v reflect.Value, b []byte) {
	x := &sharedIn{name: name, v: v, b: b}
	x.snap = x.text()
	sharedIns = append(sharedIns, x)
}

func c17Types() []*T {
	tagged := StructT(fld("N", tU8, "sizeof=L"), fld("A", tU32, "big"), fld("O", PtrT(tU16), "optional"), fld("C", PtrT(tLU64), "coption big"), fld("S", tU64, "-"), fld("L", SliceT(tU16), ""), fld("V", tLI64, "big"), fld("W", tLI64, ""), fld("X", tVaruint32, "binary_extension"))
	return []*T{
		tagged,
		FromGo(reflect.TypeOf(Embeds{})),
		FromGo(reflect.TypeOf(Node{})),
		S(tStr, SliceT(tI16), ArrT(3, tU32), tF64, tBool),
		MapT(tStr, S(tU16, SliceT(tU8))),
		S(tUStruct, SliceT(tUI32), PtrT(tUPtr), tUDeep),
		tUNest,
		S(tHex, tSafeStr, tVarint16, tU128, tI128, tJSONF64, tLBool, tTypeID),
		EnumT(`borsh_enum:"true"`, tU8, S(tU16, tStr), PtrT(tEmpty), SliceT(tU32)),
		c17Big, c17Bytes,
	}
}

// big values: paths taken only from some size on
var c17Big = S(SliceT(tU64), SliceT(tNU16), MapT(tU16, tStr), ArrT(17, tU32))
var c17Bytes = S(tStr, SliceT(tU8), tHex, tSafeStr, ArrT(33, tU8))

func bigVal(t *T, enc bin.Encoding) reflect.Value {
	v := reflect.New(t.RT).Elem()
	for i, f := range t.Fields {
		switch f.T.K {
		case KArr:
			v.Field(i).Set(vals(f.T, 0, 3)[0])
		case KMap:
			n := 13
			if enc != bin.EncodingBorsh {
				n = 1
			}
			m := reflect.MakeMap(f.T.RT)
			for k := 0; k < n; k++ {
				m.SetMapIndex(reflect.ValueOf(uint16(k*2654)), reflect.ValueOf(fill(k, k)))
			}
			v.Field(i).Set(m)
		default:
			n := 17 + i
			if f.T.K == KStr {
				n = 5000
			}
			v.Field(i).Set(sizedVal(f.T, n))
		}
	}
	return v
}

func cops() []*cthread {
	var out []*cthread
	add := func(fam, name string, f func() []any) { out = append(out, &cthread{name: name, fam: fam, run: f}) }
	for ti, t := range c17Types() {
		for _, enc := range encodingsFor(t) {
			t, enc := t, enc
			var v reflect.Value
			for _, x := range vals(t, 1, ti+1) {
				if refOK(t, x, enc) && (enc == bin.EncodingBorsh || !mapBig(x)) && (t.K != KMap || x.Len() > 0) {
					v = x
					break
				}
			}
			if t == c17Big || t == c17Bytes {
				v = bigVal(t, enc)
			}
			if !v.IsValid() {
				panic("harness: no value for " + t.Name)
			}
			b, _, err := refEncode(t, v, enc, nil)
			if err != nil {
				panic(err)
			}
			x := v.Interface()
			pv := reflect.New(t.RT)
			pv.Elem().Set(v)
			px := pv.Interface()
			fam := "type" + strconv.Itoa(ti)
			if t == c17Big {
				fam += enc.String()
			}
			nm := fmt.Sprintf("%s/enc%d", clip(t.Name, 60), enc)
			share(nm+" value", pv, nil)
			share(nm+" bytes", reflect.Value{}, b)
			add(fam, "encode "+nm, func() []any {
				var buf bytes.Buffer
				e := newEncoder(enc, &buf)
				err := e.Encode(x)
				return []any{buf.Bytes(), err, e.Written()}
			})
			add(fam, "decode "+nm, func() []any {
				o := reflect.New(t.RT)
				d := newDecoder(enc, b)
				err := d.Decode(o.Interface())
				return []any{o, err, d.Position()}
			})
			if ti < 2 || t.Enum {
				add(fam, "decode cut "+nm, func() []any {
					o := reflect.New(t.RT)
					d := newDecoder(enc, b[:len(b)-len(b)/3-1])
					err := d.Decode(o.Interface())
					return []any{o, err, d.Position()}
				})
				add(fam, "size "+nm, func() []any {
					var n uint64
					var err error
					switch enc {
					case bin.EncodingBin:
						n, err = bin.BinByteCount(px)
					case bin.EncodingBorsh:
						n, err = bin.BorshByteCount(px)
					default:
						n, err = bin.CompactU16ByteCount(px)
					}
					return []any{n, err}
				})
			}
		}
	}
	// variants over shared definitions
	vts := []*T{tU16, S(tU8, tStr), tUStruct}
	for _, e := range idEncs {
		e := e
		ts, names, ptr := vts, []string{"alpha", "beta_two", "gamma"}, []bool{false, true, false}
		if e == bin.NoTypeIDEncoding {
			ts, names, ptr = vts[1:2], names[:1], ptr[:1]
		}
		d := mkDef(e, names, ts, ptr)
		for k := range ts {
			id := refID(e, k, names[k])
			pv := vals(ts[k], 1, 3)[0]
			pay, _, _ := refEncode(ts[k], pv, bin.EncodingBin, nil)
			in := append(append([]byte{}, id...), pay...)
			share("variant bytes", reflect.Value{}, in)
			add("variant", fmt.Sprintf("variant decode %s %d", idEncNames[e], k), func() []any {
				bv := &bin.BaseVariant{}
				dec := bin.NewBinDecoder(in)
				err := bv.UnmarshalBinaryVariant(dec, d.def)
				id, n, impl := bv.Obtain(d.def)
				return []any{id, n, reflect.ValueOf(impl), err, dec.Position()}
			})
		}
		add("variant", "variant ids "+idEncNames[e], func() []any {
			var r []any
			for _, n := range names {
				r = append(r, d.def.TypeID(n))
			}
			return r
		})
		add("variant", "define "+idEncNames[e], func() []any {
			var vt []bin.VariantType
			for i := range ts {
				vt = append(vt, bin.VariantType{Name: names[i], Type: d.proto[i]})
			}
			def := bin.NewVariantDefinition(e, vt)
			var r []any
			for _, n := range names {
				r = append(r, def.TypeID(n))
			}
			return r
		})
	}
	add("name", "sighash", func() []any {
		return []any{bin.SighashInstruction("InitMint2HTTPServer"), bin.SighashAccount("my_acc"), bin.SighashTypeID("global", "x_y"), bin.ToSnakeForSighash("aBé_C")}
	})
	add("name", "case", func() []any {
		return []any{bin.ToPascalCase("foo_barBAZ9"), bin.ToSnakeForSighash("FOOBar-baz"), bin.ToRustSnakeCase("XMLHttpReq")}
	})
	add("json", "json write", func() []any {
		i, e1 := json.Marshal(bin.Int64(-1 << 40))
		u, e2 := json.Marshal(bin.Uint64(1 << 63))
		x, e3 := json.Marshal(bin.Uint128{Lo: 5, Hi: 1 << 63})
		h, e4 := json.Marshal(bin.HexBytes{1, 0xff})
		f, e5 := json.Marshal(bin.JSONFloat64(1.25))
		n := bin.Int128{Lo: 1, Hi: 1 << 63}
		return []any{i, u, x, h, f, e1, e2, e3, e4, e5, n.String(), bin.Uint128{Lo: 7, Hi: 9}.HexString(), bin.Uint128{Lo: 7, Hi: 9}.DecimalString()}
	})
	add("json", "json read", func() []any {
		var i bin.Int64
		var u bin.Uint64
		var x, y bin.Uint128
		var h bin.HexBytes
		e1 := json.Unmarshal([]byte(`"-123456789012"`), &i)
		e2 := json.Unmarshal([]byte(`18446744073709551615`), &u)
		e3 := json.Unmarshal([]byte(`"340282366920938463463374607431768211455"`), &x)
		e4 := json.Unmarshal([]byte(`"0x000102030405060708090a0b0c0d0e0f"`), &y)
		e5 := json.Unmarshal([]byte(`"00ff"`), &h)
		return []any{int64(i), uint64(u), x.String(), y.HexString(), []byte(h), e1, e2, e3, e4, e5}
	})
	add("prim", "compact-u16", func() []any {
		var b []byte
		e1 := bin.EncodeCompactU16Length(&b, 300)
		e2 := bin.EncodeCompactU16Length(&b, 65535)
		n, s, e3 := bin.DecodeCompactU16(b)
		m, e4 := bin.DecodeCompactU16LengthFromByteReader(bytes.NewReader(b))
		return []any{b, e1, e2, n, s, e3, m, e4}
	})
	add("prim", "write primitives", func() []any {
		var buf bytes.Buffer
		e := bin.NewBinEncoder(&buf)
		r := []any{
			e.WriteUVarInt(1 << 20), e.WriteVarInt(-77777), e.WriteUint16(0x0102, binary.BigEndian), e.WriteUint32(3, binary.LittleEndian),
			e.WriteInt64(-5, binary.BigEndian), e.WriteUint128(bin.Uint128{Lo: 1, Hi: 2}, binary.BigEndian), e.WriteFloat32(1.5, binary.LittleEndian),
			e.WriteString("abc"), e.WriteRustString("de"), e.WriteBytes([]byte{1, 2}, true), e.WriteOption(true), e.WriteCompactU16(200), e.WriteLength(9),
		}
		return append(r, buf.Bytes(), e.Written())
	})
	pb := []byte{0x80, 0x80, 0x40, 0x01, 0x02, 3, 0, 0, 0, 3, 'a', 0xff, 'c', 2, 0, 0, 0, 0, 0, 0, 0, 'd', 'e', 1, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0, 1, 2, 3, 4, 5, 6, 7, 8}
	share("primitive bytes", reflect.Value{}, pb)
	add("prim", "read primitives", func() []any {
		d := bin.NewBinDecoder(pb)
		var r []any
		a, e1 := d.ReadUvarint64()
		b, e2 := d.ReadUint16(binary.BigEndian)
		c, e3 := d.ReadUint32(binary.LittleEndian)
		s, e4 := d.SafeReadUTF8String()
		t, e5 := d.ReadRustString()
		k, e6 := d.Peek(3)
		n, e7 := d.ReadNBytes(2)
		w, e8 := d.ReadUint128(binary.LittleEndian)
		return append(r, a, b, c, s, t, k, n, w.String(), e1, e2, e3, e4, e5, e6, e7, e8, d.Position())
	})
	add("prim", "write many", func() []any {
		var buf bytes.Buffer
		e := bin.NewBorshEncoder(&buf)
		var errs []any
		for i := 0; i < 70; i++ {
			for _, err := range []error{e.WriteByte(byte(i)), e.WriteUint16(uint16(i), binary.BigEndian), e.WriteUint32(uint32(i), binary.LittleEndian), e.WriteUint64(uint64(i), binary.BigEndian),
				e.WriteUint128(bin.Uint128{Lo: uint64(i)}, binary.BigEndian), e.WriteInt128(bin.Int128{Hi: uint64(i)}, binary.LittleEndian), e.WriteFloat32(float32(i), binary.BigEndian), e.WriteFloat64(float64(i), binary.LittleEndian),
				e.WriteUVarInt(i), e.WriteVarInt(-i), e.WriteString("s"), e.WriteRustString("t"), e.WriteLength(i), e.WriteCompactU16(i), e.WriteOption(true), e.WriteCOption(true), e.WriteBytes([]byte{byte(i)}, true),
				e.Encode([]uint16{uint16(i)}), e.Encode([]uint32{uint32(i)}), e.Encode([]uint64{uint64(i)}), e.Encode([2]byte{byte(i)})} {
				if err != nil {
					errs = append(errs, err)
				}
			}
		}
		return append(errs, buf.Bytes(), e.Written())
	})
	out[len(out)-1].long = true
	mb := bytes.Repeat([]byte{1, 0, 0, 0, 7}, 1200)
	share("many bytes", reflect.Value{}, mb)
	add("prim", "read many", func() []any {
		d := bin.NewBorshDecoder(mb)
		var r []any
		for i := 0; i < 70; i++ {
			d.SetPosition(uint(5 * i))
			a, e1 := d.ReadString()
			b, e2 := d.ReadByteSlice()
			x, e3 := d.ReadUint128(binary.BigEndian)
			y, e4 := d.ReadUint64(binary.LittleEndian)
			var s []uint16
			d.SetPosition(uint(5 * i))
			e5 := d.Decode(&s)
			z, e6 := d.ReadFloat64(binary.BigEndian)
			k, e7 := d.SafeReadUTF8String()
			if i%8 == 0 {
				r = append(r, a, b, x.Lo, y, len(s), z, k)
			}
			for _, e := range []error{e1, e2, e3, e4, e5, e6, e7} {
				if e != nil {
					r = append(r, e)
				}
			}
		}
		return append(r, d.Position())
	})
	out[len(out)-1].long = true
	add("prim", "recorder", func() []any {
		w := bin.NewWriteByWrite("n")
		e := bin.NewBorshEncoder(w)
		e1 := e.Encode(S1{7, "x", []uint16{1, 2}})
		return []any{e1, w.Bytes(), w.String(), bin.FormatByteSlice([]byte{1, 2}), bin.FormatDiscriminator([8]byte{1})}
	})
	return out
}

type S1 struct {
	A uint8
	B string
	C []uint16
}

// cold runs one program in a fresh process, before anything else used the
// library, so that state the library sets up lazily is set up concurrently.
func cold(spec string) {
	var i, j, first int
	fmt.Sscanf(spec, "%d,%d,%d", &i, &j, &first)
	sc = newSched()
	ops := cops()
	bin.VerifHook = hook
	pr := []*cthread{ops[i], ops[j]}
	res, ps, steps := sc.run(pr, first, 0, nil)
	for k, o := range pr {
		r, p, _ := sc.run([]*cthread{o}, 0, 0, nil)
		if a, b := render(res[k], ps[k]), render(r[0], p[0]); a != b {
			fmt.Printf("%s || %s in a fresh process: thread %d obtains %s; alone it obtains %s\n", pr[0].name, pr[1].name, k, a, b)
			os.Exit(1)
		}
	}
	fmt.Println("steps", steps)
}

func init() { coldRun = cold }

func runCold(c *Ctx, ops []*cthread, i, j int) bool {
	for first := 0; first < 2; first++ {
		if first == 1 && i == j {
			continue
		}
		cmd := exec.Command(os.Args[0])
		cmd.Env = append(os.Environ(), fmt.Sprintf("MC_COLD=%d,%d,%d", i, j, first))
		out, err := cmd.CombinedOutput()
		c.Res.Traces++
		c.Res.States++
		c.Add("schedules_in_fresh_processes", 1)
		if err != nil {
			code := cmd.ProcessState.ExitCode()
			switch {
			case code == 66:
				c.Fail("%s || %s in a fresh process: data race:\n%s", ops[i].name, ops[j].name, clip(string(out), 2500))
			case code == 1 || strings.Contains(string(out), "fatal error: concurrent map"):
				c.Fail("%s", clip(string(out), 2500))
			default:
				fmt.Fprintf(os.Stderr, "HARNESS: cold run: %v %s\n", err, out)
				os.Exit(2)
			}
			return false
		}
	}
	return true
}

var freshN int

// freshOps: operations on a struct type no one has used before.
func freshOps(enc bin.Encoding, kind int) []*cthread {
	freshN++
	n := strconv.Itoa(freshN)
	x := ` json:"x` + n + `"`
	f := func(name string, t *T, tag string) F {
		g := F{Name: name + n, T: t, Tag: tag + x}
		g.parse()
		return g
	}
	in := StructT(f("P", tU16, `bin:"big"`), f("Q", PtrT(tU8), `bin:"optional"`))
	t := StructT(f("A", tU32, `bin:"big"`), f("N", tU8, `bin:"sizeof=L`+n+`"`), f("S", tU64, `bin:"-"`), f("O", tU16, `bin:"optional"`), f("L", SliceT(in), ""), f("M", MapT(tStr, tU8), ""), f("W", tLI64, `bin:"big"`), f("I", in, ""))
	v := reflect.New(t.RT).Elem()
	for _, y := range vals(t, 0, 3) {
		if !mapBig(y) {
			v = y
			break
		}
	}
	b, _, err := refEncode(t, v, enc, nil)
	if err != nil {
		panic(err)
	}
	want, _, _, err := refDecode(t, b, enc)
	if err != nil {
		panic(err)
	}
	val := v.Interface()
	e := &cthread{name: "encode fresh struct", run: func() []any {
		var buf bytes.Buffer
		en := newEncoder(enc, &buf)
		err := en.Encode(val)
		return []any{buf.Bytes(), err, en.Written()}
	}, want: render([]any{b, nil, len(b)}, "")}
	d := &cthread{name: "decode fresh struct", run: func() []any {
		o := reflect.New(t.RT)
		de := newDecoder(enc, b)
		err := de.Decode(o.Interface())
		if err == nil && !eq(t, o.Elem(), want, enc) {
			return []any{o, err, de.Position()}
		}
		return []any{nil, err, de.Position()}
	}, want: render([]any{nil, nil, len(b)}, "")}
	switch kind {
	case 0:
		return []*cthread{e, e}
	case 1:
		return []*cthread{e, d}
	}
	return []*cthread{d, d}
}

// exploreFresh: every schedule with at most one preemption, each on its own
// new type.
func exploreFresh(c *Ctx, enc bin.Encoding, kind int) bool {
	for first := 0; first < 2; first++ {
		if first == 1 && kind != 1 {
			continue
		}
		steps := 0
		for at := 0; at <= steps; at++ {
			ops := freshOps(enc, kind)
			var plan []preempt
			if at > 0 {
				plan = []preempt{{at, 1 - first}}
			}
			res, ps, n := sc.run(ops, first, 0, plan)
			if at == 0 {
				steps = n
			}
			c.Tick()
			c.Res.Traces++
			c.Res.States++
			c.Res.Transitions += int64(n)
			c.Add("schedules_on_never_used_types", 1)
			for i, o := range ops {
				if got := render(res[i], ps[i]); got != o.want {
					c.Fail("%s || %s enc %d on a type never used before: first %d, preempted at %d: thread %d obtains %s; alone it obtains %s", ops[0].name, ops[1].name, enc, first, at, i, got, o.want)
					return false
				}
			}
		}
	}
	return true
}

func runC17(c *Ctx) {
	sc = newSched()
	ops := cops()
	bin.VerifHook = hook
	c.Group("fresh")
	for _, enc := range allEnc {
		for kind := 0; kind < 3; kind++ {
			if c.Next() {
				if !exploreFresh(c, enc, kind) {
					return
				}
			}
		}
	}
	bin.VerifHook = nil
	c.Group("cold")
	for i := range ops {
		for j := i; j < len(ops); j++ {
			if ops[i].fam == ops[j].fam && c.Next() {
				if !runCold(c, ops, i, j) {
					return
				}
			}
		}
	}
	for _, o := range ops {
		r, ps, n := sc.run([]*cthread{o}, 0, 0, nil)
		o.want, o.n = render(r[0], ps[0]), n
	}
	bin.VerifHook = hook
	for _, o := range ops { // and once more, counting scheduling points
		r, ps, n := sc.run([]*cthread{o}, 0, 0, nil)
		o.n = n
		if w := render(r[0], ps[0]); w != o.want {
			c.Fail("%s gives %s alone, then %s alone again", o.name, o.want, w)
			return
		}
		c.MaxOf("scheduling_points_of_one_operation", int64(n))
	}
	if ops[0].n < 10 && os.Getenv("MC_NOYIELD") == "" {
		panic("HARNESS: the library is not instrumented")
	}
	deadline = time.Now().Add(400 * time.Second)
	if c.Thorough {
		deadline = time.Now().Add(2 * time.Hour)
	}
	maxN := func(o *cthread) bool { return !c.Thorough && o.n > 600 }
	related := func(a, b *cthread) bool { return a.fam == b.fam }
	c.Group("pair")
	for i := range ops {
		for j := i; j < len(ops); j++ {
			// unrelated operations: both orders without preemption in the quick
			// tier (unsynchronised sharing shows in any schedule)
			bound := 0
			if c.Thorough || related(ops[i], ops[j]) {
				bound = 1
			}
			if c.Next() {
				if !explore(c, []*cthread{ops[i], ops[j]}, bound) {
					return
				}
			}
		}
	}
	if c.Thorough {
		c.Group("pair2")
		for i := range ops {
			for j := i; j < len(ops); j++ {
				if related(ops[i], ops[j]) && ops[i].n+ops[j].n < 700 && c.Next() {
					if !explore(c, []*cthread{ops[i], ops[j]}, 2) {
						return
					}
				}
			}
		}
	}
	c.Group("triple")
	for i := range ops {
		for j := i; j < len(ops); j++ {
			for k := j; k < len(ops); k++ {
				same := i == j && j == k
				if maxN(ops[i]) || !same && !(c.Thorough && related(ops[i], ops[j]) && related(ops[j], ops[k])) {
					continue
				}
				if c.Next() {
					if !explore(c, []*cthread{ops[i], ops[j], ops[k]}, 1) {
						return
					}
				}
			}
		}
	}
	c.Add("schedules_with_a_blocked_thread", blockedRuns)
}

var deadline time.Time

func explore(c *Ctx, ops []*cthread, bound int) bool {
	names := ops[0].name
	for _, o := range ops[1:] {
		names += " || " + o.name
	}
	var dfs func(first, fin int, plan []preempt) bool
	dfs = func(first, fin int, plan []preempt) bool {
		if time.Now().After(deadline) {
			if len(c.Res.Capped) == 0 {
				c.Res.Capped = append(c.Res.Capped, "time limit reached at "+c.caseID()+" ("+names+")")
			}
			return true
		}
		res, ps, steps := sc.run(ops, first, fin, plan)
		c.Tick()
		c.Res.Traces++
		c.Res.States++
		c.Res.Transitions += int64(steps)
		for i, o := range ops {
			if got := render(res[i], ps[i]); got != o.want {
				c.Fail("%s: first %d, preemptions (at scheduling point, to thread) %v: thread %d obtains %s; alone it obtains %s", names, first, plan, i, got, o.want)
				return false
			}
		}
		if len(plan) == bound || ops[first].long && !c.Thorough {
			return true
		}
		if len(ops) > 1 && sc.useful < steps { // from then on one thread is left: nothing to switch to
			steps = sc.useful
		}
		last := 0
		if len(plan) > 0 {
			last = plan[len(plan)-1].at
		}
		for s := last + 1; s <= steps; s++ {
			for to := range ops {
				// a switch to the running thread is no switch; the scheduler ignores it
				if len(ops) == 2 && to != 1-owner(first, plan) {
					continue
				}
				if len(ops) > 2 && to == owner(first, plan) {
					continue
				}
				np := append(append([]preempt{}, plan...), preempt{s, to})
				if !dfs(first, fin, np) {
					return false
				}
			}
		}
		return true
	}
	for first := range ops {
		if first > 0 && ops[first].name == ops[first-1].name {
			continue
		}
		for fin := 0; fin < len(ops)-1; fin++ {
			if !dfs(first, fin, nil) {
				return false
			}
		}
	}
	for _, x := range sharedIns {
		if t := x.text(); t != x.snap {
			c.Fail("%s: the shared %s changed from %s to %s", names, x.name, x.snap, t)
			return false
		}
	}
	c.Sample("%s: every schedule with at most %d preemptions", names, bound)
	return true
}

// owner: the thread running after the plan's switches (if none finished).
func owner(first int, plan []preempt) int {
	if len(plan) == 0 {
		return first
	}
	return plan[len(plan)-1].to
}
