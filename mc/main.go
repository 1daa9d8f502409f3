package main

// Supervisor and worker driver.
//
//	mc CHECK -tier quick|thorough            run all shards, write evidence
//	mc CHECK -replay FILE                    re-run the one case in FILE
//	mc CHECK -child i/n ...                  internal: one shard

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type Viol struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Case     string `json:"case"` // group#index
	Detail   string `json:"detail"`
	Key      string `json:"key,omitempty"`
}

type Result struct {
	States      int64            `json:"states"`
	Transitions int64            `json:"transitions"`
	Traces      int64            `json:"traces"`
	Evals       int64            `json:"evals"`
	Nontrivial  int64            `json:"nontrivial"`
	Extra       map[string]int64 `json:"extra"`
	Max         map[string]int64 `json:"max"`
	Samples     []string         `json:"samples"`
	Viols       []Viol           `json:"viols"`
	Known       map[string]int64 `json:"known"`
	KnownText   map[string]string
	Capped      []string `json:"capped"`
	Done        bool     `json:"done"`
}

type Ctx struct {
	Prop, Tier string
	Thorough   bool // thorough bounds (in the quick tier too, where Promote is set)
	Extra      bool // thorough tier only
	shard, n   int
	group      string
	idx        uint64
	total      uint64
	only       string
	crumb      []byte
	seen       map[uint64]struct{}
	known      map[string]bool
	Res        Result
}

// Group starts a named family of cases.
func (c *Ctx) Group(g string) {
	c.group, c.idx = g, 0
	if c.crumb != nil {
		n := copy(c.crumb[16:200], g)
		c.crumb[15] = byte(n)
	}
}

// Next advances to the next case and says whether this worker runs it.
func (c *Ctx) Next() bool {
	c.idx++
	c.total++
	if c.only != "" {
		return c.caseID() == c.only
	}
	if int(c.total%uint64(c.n)) != c.shard {
		return false
	}
	if c.crumb != nil {
		binary.LittleEndian.PutUint64(c.crumb, c.total)
		binary.LittleEndian.PutUint32(c.crumb[8:], uint32(c.idx))
	}
	return true
}

var ticks uint64

// Tick tells the supervisor the worker is alive inside a long case.
func (c *Ctx) Tick() {
	if c.crumb != nil {
		ticks++
		binary.LittleEndian.PutUint64(c.crumb[200:], ticks)
	}
}

func (c *Ctx) caseID() string { return c.group + "#" + strconv.FormatUint(c.idx, 10) }

// State counts a distinct model state (deduplicated by hash within the worker;
// workers have disjoint cases).
func (c *Ctx) State(h uint64) {
	if _, ok := c.seen[h]; !ok {
		c.seen[h] = struct{}{}
		c.Res.States++
	}
}
func (c *Ctx) Add(k string, n int64) { c.Res.Extra[k] += n }
func (c *Ctx) MaxOf(k string, n int64) {
	if n > c.Res.Max[k] {
		c.Res.Max[k] = n
	}
}
func (c *Ctx) Sample(f string, a ...any) {
	if len(c.Res.Samples) < 6 {
		c.Res.Samples = append(c.Res.Samples, clip(fmt.Sprintf(f, a...), 400))
	}
}
func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type tooMany struct{}

func (c *Ctx) Fail(f string, a ...any) { c.FailKey("", f, a...) }

// FailKey reports a violation; a key listed in known_findings.json makes it a
// known finding instead.
func (c *Ctx) FailKey(key, f string, a ...any) {
	d := clip(fmt.Sprintf(f, a...), 3000)
	if key != "" && c.known[key] {
		c.Res.Known[key]++
		return
	}
	c.Res.Viols = append(c.Res.Viols, Viol{c.Prop, c.Tier, c.caseID(), d, key})
	if len(c.Res.Viols) >= 12 {
		panic(tooMany{})
	}
}

// catch runs f and returns the panic text, if any.
func catch(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(tooMany); ok {
				panic(r)
			}
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			p = clip(fmt.Sprintf("%v", r), 300) + " @ " + clip(frames(st), 300)
		}
	}()
	f()
	return ""
}

func frames(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "/") && !strings.Contains(l, "/src/runtime/") && !strings.Contains(l, "/src/reflect/") {
			l = strings.SplitN(l, " ", 2)[0]
			out = append(out, filepath.Base(l))
			if len(out) == 4 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

type Check struct {
	Level       string
	Run         func(*Ctx)
	Rule        string
	Assumptions []string
	Hang        time.Duration
	Workers     int
	Promote     bool // the quick tier uses the Thorough bounds; Extra goes further
}

var checks = map[string]*Check{}

func register(id string, ch *Check) { checks[id] = ch }

type finding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	Status   string `json:"status"` // known | fixed
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

func loadFindings(dir, prop string) (map[string]bool, map[string]string) {
	k, txt := map[string]bool{}, map[string]string{}
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.json"))
	if err != nil {
		return k, txt
	}
	var fs struct {
		Findings []finding `json:"findings"`
	}
	if err := json.Unmarshal(b, &fs); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(2)
	}
	for _, f := range fs.Findings {
		if f.Property == prop && f.Status == "known" {
			k[f.Key] = true
			txt[f.Key] = f.What
		}
	}
	return k, txt
}

// coldRun handles a fresh-process program of C17 (set in that build only).
var coldRun func(string)

func main() {
	if spec := os.Getenv("MC_COLD"); spec != "" && coldRun != nil {
		coldRun(spec)
		return
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc CHECK ...")
		os.Exit(2)
	}
	prop := os.Args[1]
	fs := flag.NewFlagSet("mc", flag.ExitOnError)
	tier := fs.String("tier", "quick", "")
	child := fs.String("child", "", "")
	crumb := fs.String("crumb", "", "")
	outp := fs.String("out", "", "")
	dir := fs.String("dir", "/verif", "")
	only := fs.String("only", "", "")
	replay := fs.String("replay", "", "")
	workers := fs.Int("workers", 0, "")
	fs.Parse(os.Args[2:])
	ch := checks[prop]
	if ch == nil {
		fmt.Fprintln(os.Stderr, "unknown check", prop)
		os.Exit(2)
	}
	if *child != "" {
		runChild(prop, ch, *tier, *child, *crumb, *outp, *dir, *only)
		return
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var v Viol
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		*tier, *only = v.Tier, v.Case
		*workers = 1
	}
	os.Exit(supervise(prop, ch, *tier, *dir, *only, *workers))
}

func runChild(prop string, ch *Check, tier, child, crumb, outp, dir, only string) {
	var i, n int
	fmt.Sscanf(child, "%d/%d", &i, &n)
	c := &Ctx{Prop: prop, Tier: tier, Thorough: tier == "thorough" || ch.Promote, Extra: tier == "thorough", shard: i, n: n, only: only,
		seen: map[uint64]struct{}{}}
	c.Res.Extra, c.Res.Max, c.Res.Known = map[string]int64{}, map[string]int64{}, map[string]int64{}
	c.known, _ = loadFindings(dir, prop)
	f, err := os.OpenFile(crumb, os.O_RDWR, 0)
	if err == nil {
		c.crumb, err = syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "crumb:", err)
		os.Exit(3)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(tooMany); ok {
					return
				}
				st := string(debug.Stack())
				if i := strings.LastIndex(st, "panic("); i >= 0 {
					st = st[i:]
				}
				if strings.Contains(st, "github.com/gagliardetto/binary.") {
					// the library panicked where the harness did not expect it
					c.Res.Viols = append(c.Res.Viols, Viol{c.Prop, c.Tier, c.caseID(), clip(fmt.Sprintf("panic: %v @ %s", r, frames(st)), 3000), ""})
					return
				}
				panic(r)
			}
		}()
		ch.Run(c)
	}()
	c.Res.Done = true
	b, _ := json.Marshal(&c.Res)
	if err := os.WriteFile(outp, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

func supervise(prop string, ch *Check, tier, dir, only string, workers int) int {
	start := time.Now()
	n := workers
	if n == 0 {
		n = ch.Workers
	}
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
	}
	tmp, err := os.MkdirTemp("", "mc-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	hang := ch.Hang
	if hang == 0 {
		hang = 120 * time.Second
	}
	results := make([]*Result, n)
	fatal := make([]*Viol, n)
	broken := make([]string, n)
	done := make(chan int, n)
	for i := 0; i < n; i++ {
		go func(i int) {
			defer func() { done <- i }()
			crumb := filepath.Join(tmp, fmt.Sprintf("crumb%d", i))
			out := filepath.Join(tmp, fmt.Sprintf("out%d", i))
			os.WriteFile(crumb, make([]byte, 4096), 0o644)
			cmd := exec.Command(os.Args[0], prop, "-tier", tier, "-child", fmt.Sprintf("%d/%d", i, n), "-crumb", crumb, "-out", out, "-dir", dir, "-only", only)
			var eb tailBuf
			cmd.Stderr = &eb
			cmd.Stdout = &eb
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single", "GOMEMLIMIT=3GiB", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
			runtime.LockOSThread() // Pdeathsig is per thread
			if err := cmd.Start(); err != nil {
				broken[i] = err.Error()
				return
			}
			exit := make(chan error, 1)
			go func() { exit <- cmd.Wait() }()
			var last string
			lastChange := time.Now()
			tk := time.NewTicker(500 * time.Millisecond)
			defer tk.Stop()
			var werr error
			hung, oom := false, false
		loop:
			for {
				select {
				case werr = <-exit:
					break loop
				case <-tk.C:
					b, _ := os.ReadFile(crumb)
					s := string(b)
					if s != last {
						last, lastChange = s, time.Now()
					} else if time.Since(lastChange) > hang {
						hung = true
						cmd.Process.Kill()
					}
					if rss(cmd.Process.Pid) > 6<<30 {
						oom = true
						cmd.Process.Kill()
					}
				}
			}
			cb, _ := os.ReadFile(crumb)
			cs := "?"
			if len(cb) > 200 {
				cs = string(cb[16:16+int(cb[15])]) + "#" + strconv.Itoa(int(binary.LittleEndian.Uint32(cb[8:])))
			}
			if b, err := os.ReadFile(out); err == nil {
				var r Result
				if json.Unmarshal(b, &r) == nil && r.Done {
					results[i] = &r
				}
			}
			code := -1
			if cmd.ProcessState != nil {
				code = cmd.ProcessState.ExitCode()
			}
			switch {
			case hung:
				fatal[i] = &Viol{prop, tier, cs, fmt.Sprintf("no progress for %s (hang)", hang), ""}
			case oom:
				fatal[i] = &Viol{prop, tier, cs, "memory use above 6 GiB", ""}
			case code == 66:
				fatal[i] = &Viol{prop, tier, cs, "data race:\n" + eb.String(), ""}
			case werr != nil && code == 2 && strings.Contains(eb.String(), "HARNESS:"):
				broken[i] = eb.String()
			case werr != nil:
				// a Go fatal error (stack overflow, concurrent map write, out of
				// memory) cannot be recovered in the worker
				t := eb.String()
				if (strings.Contains(t, "fatal error:") || strings.Contains(t, "goroutine stack exceeds")) && strings.Contains(t, "github.com/gagliardetto/binary.") {
					fatal[i] = &Viol{prop, tier, cs, "process died: " + t, ""}
				} else {
					broken[i] = fmt.Sprintf("worker %d at %s: %v: %s", i, cs, werr, t)
				}
			case results[i] == nil:
				broken[i] = "worker left no result"
			}
		}(i)
	}
	for i := 0; i < n; i++ {
		<-done
	}
	tot := Result{Extra: map[string]int64{}, Max: map[string]int64{}, Known: map[string]int64{}}
	for i := 0; i < n; i++ {
		if fatal[i] != nil {
			tot.Viols = append(tot.Viols, *fatal[i])
		}
		r := results[i]
		if r == nil {
			continue
		}
		tot.States += r.States
		tot.Transitions += r.Transitions
		tot.Traces += r.Traces
		tot.Evals += r.Evals
		tot.Nontrivial += r.Nontrivial
		for k, v := range r.Extra {
			tot.Extra[k] += v
		}
		for k, v := range r.Max {
			if v > tot.Max[k] {
				tot.Max[k] = v
			}
		}
		for k, v := range r.Known {
			tot.Known[k] += v
		}
		tot.Viols = append(tot.Viols, r.Viols...)
		tot.Capped = append(tot.Capped, r.Capped...)
		if len(tot.Samples) < 5 {
			tot.Samples = append(tot.Samples, r.Samples...)
		}
	}
	if len(tot.Samples) > 5 {
		tot.Samples = tot.Samples[:5]
	}
	bad := 0
	for i := range broken {
		if broken[i] != "" {
			if bad == 0 {
				fmt.Fprintf(os.Stderr, "HARNESS: %s\n", clip(broken[i], 1800))
			}
			bad++
		}
	}
	_, txt := loadFindings(dir, prop)
	keys := make([]string, 0)
	for k := range tot.Known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s (key %s, %d cases)\n", prop, txt[k], k, tot.Known[k])
	}
	if only != "" {
		for _, v := range tot.Viols {
			fmt.Printf("REPRODUCED property=%s case=%s\n%s\n", prop, v.Case, v.Detail)
		}
		if len(tot.Viols) > 0 {
			return 1
		}
		fmt.Println("not reproduced:", only)
		return 0
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if len(tot.Samples) == 0 {
		tot.Samples = []string{"(none)"}
	}
	cov := map[string]any{"samples": tot.Samples, "exhaustive": bad == 0 && len(tot.Viols) == 0 && len(tot.Capped) == 0}
	if ch.Level == "model_checking" {
		cov["states"], cov["transitions"], cov["traces_validated_against_impl"] = tot.States, tot.Transitions, tot.Traces
	} else {
		cov["evaluations"], cov["distinct_nontrivial"] = tot.Evals, tot.Nontrivial
	}
	cov["rule"] = ch.Rule
	for k, v := range tot.Extra {
		cov[k] = v
	}
	for k, v := range tot.Max {
		cov["max_"+k] = v
	}
	if len(tot.Capped) > 0 {
		cov["capped"] = tot.Capped
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": ch.Level, "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": len(tot.Viols), "assumptions": ch.Assumptions}
	os.MkdirAll(filepath.Join(dir, "evidence", "replay"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, "evidence", prop+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for i, v := range tot.Viols {
		if i >= 5 {
			fmt.Printf("... and %d more\n", len(tot.Viols)-i)
			break
		}
		p := filepath.Join(dir, "evidence", "replay", fmt.Sprintf("%s-%d.json", prop, i))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(p, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n  case %s: %s\n", prop, p, v.Case, clip(v.Detail, 1200))
	}
	if len(tot.Viols) > 0 {
		return 1
	}
	if bad > 0 {
		return 2
	}
	fmt.Printf("OK property=%s tier=%s states=%d transitions=%d traces=%d evals=%d %.1fs\n", prop, tier, tot.States, tot.Transitions, tot.Traces, tot.Evals, time.Since(start).Seconds())
	return 0
}

func rss(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	p, _ := strconv.ParseInt(f[1], 10, 64)
	return p * int64(os.Getpagesize())
}

type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	if len(t.b) < 6000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string { return clip(string(t.b), 5000) }
