// Package main is the exploration harness.  It is compiled inside the module under /repo through a build overlay.
package main

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// Check is one property's exploration.
type Check struct {
	ID    string
	Level string
	Rule  string
	Run   func(e *Env)
	// Configs lists the number of CPUs the workers see (0: all); the whole space is enumerated once per entry.
	Configs     []int
	Hang        time.Duration // no progress within a case for this long is a stall
	Shards      int           // default: number of CPUs
	MemLimit    uint64        // RLIMIT_AS of workers
	Assumptions []string
	// Threads lets the runtime use several Ps in a worker.
	Threads int
	// Deadline for the whole run (default by tier).
	Quick, Thorough time.Duration
	Explain         string
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Env is the state of one worker (shard).
type Env struct {
	Prop     string
	Tier     string
	NCPU     int // configured
	shard    int
	shards   int
	only     int64
	from     int64
	upto     int64
	idx      int64
	journal  []byte
	deadline time.Time
	stop     bool
	res      shardResult
	distinct map[uint64]struct{}
	states   map[uint64]struct{}
	groupN   map[string]int64
	group    string
	desc     bool
	verif    string
	known    map[string]int
	listed   int
}

// Quick reports whether the quick tier is running.
func (e *Env) Quick() bool { return e.Tier != "thorough" }

// Group names the family the next cases belong to.
func (e *Env) Group(g string) { e.group = g }

type failureRec struct {
	Idx    int64  `json:"idx"`
	NCPU   int    `json:"ncpu"`
	Key    string `json:"key"`
	Desc   string `json:"desc"`
	Detail string `json:"detail"`
	Shard  int    `json:"shard"`
	Shards int    `json:"shards"`
	Iso    string `json:"isolation,omitempty"`
}

type shardResult struct {
	Cases       int64            `json:"cases"`
	Evaluations int64            `json:"evaluations"`
	Distinct    []uint64         `json:"-"`
	States      []uint64         `json:"-"`
	Transitions int64            `json:"transitions"`
	Traces      int64            `json:"traces"`
	Groups      map[string]int64 `json:"groups"`
	Samples     []any            `json:"samples"`
	Failures    []failureRec     `json:"failures"`
	Capped      bool             `json:"capped"`
	Total       int64            `json:"total"`
	Notes       []string         `json:"notes"`
	Maxima      map[string]int64 `json:"maxima"`
	Done        bool             `json:"done"`
}

// T is handed to a running case.
type T struct {
	e      *Env
	desc   func() string
	nsampl int
}

type failure struct {
	key, detail string
}

// Failf reports a violation and ends the case.
func (t *T) Failf(key, format string, a ...any) {
	panic(failure{key, fmt.Sprintf(format, a...)})
}

// Finding reports a violation that may be a listed finding; if it is, it is recorded once and the case goes on.
func (t *T) Finding(key, format string, a ...any) {
	if t.e.known == nil {
		t.e.known = map[string]int{}
		for _, k := range loadKnown(t.e.verif) {
			if k.prop == t.e.Prop {
				t.e.known[k.key] = 0
			}
		}
	}
	n, ok := t.e.known[key]
	if !ok {
		t.Failf(key, format, a...)
	}
	t.e.known[key]++
	if n == 0 {
		t.e.res.Failures = append(t.e.res.Failures, failureRec{Idx: t.e.idx - 1, NCPU: t.e.NCPU, Key: key, Desc: t.desc(), Detail: fmt.Sprintf(format, a...), Shard: t.e.shard, Shards: t.e.shards})
		t.e.listed++
	}
}

// Eval counts executions.
func (t *T) Eval(n int) { t.e.res.Evaluations += int64(n); t.e.groupN[t.e.group] += int64(n) }

// Trans counts transitions.
func (t *T) Trans(n int) { t.e.res.Transitions += int64(n) }

// Trace counts a complete history executed on the implementation.
func (t *T) Trace(n int) { t.e.res.Traces += int64(n) }

// Outcome records a distinct observed outcome.
func (t *T) Outcome(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			_, _ = h.Write(v)
		case string:
			_, _ = h.Write([]byte(v))
		default:
			fmt.Fprint(h, v)
		}
		_, _ = h.Write([]byte{0xff})
	}
	t.OutcomeHash(h.Sum64())
}

// OutcomeHash records a distinct outcome by hash.
func (t *T) OutcomeHash(h uint64) {
	if len(t.e.distinct) < 4<<20 {
		t.e.distinct[h] = struct{}{}
	}
}

// State records a visited state.
func (t *T) State(h uint64) {
	if len(t.e.states) < 8<<20 {
		t.e.states[h] = struct{}{}
	}
}

// Beat tells that a long case makes progress.
func (t *T) Beat() {
	if t.e.journal != nil {
		t.e.journal[8]++
	}
}

// Max records the maximum of a measured quantity.
func (t *T) Max(name string, v int64) {
	if t.e.res.Maxima == nil {
		t.e.res.Maxima = map[string]int64{}
	}
	if v > t.e.res.Maxima[name] {
		t.e.res.Maxima[name] = v
	}
}

// Sample keeps a few actual cases for the evidence.
func (t *T) Sample(s any) {
	if len(t.e.res.Samples) < 4 && (t.e.res.Cases%97 == 1 || len(t.e.res.Samples) == 0) {
		t.e.res.Samples = append(t.e.res.Samples, s)
	}
}

// Note records a remark (once each) for the evidence.
func (e *Env) Note(s string) {
	for _, n := range e.res.Notes {
		if n == s {
			return
		}
	}
	if len(e.res.Notes) < 20 {
		e.res.Notes = append(e.res.Notes, s)
	}
}

// Case enumerates one case.  The order of calls must be deterministic.
func (e *Env) Case(desc func() string, f func(t *T)) {
	idx := e.idx
	e.idx++
	if e.stop {
		return
	}
	if e.only >= 0 {
		if idx != e.only {
			return
		}
	} else {
		if idx%int64(e.shards) != int64(e.shard) || idx < e.from || idx > e.upto {
			return
		}
		if e.res.Cases&15 == 0 && time.Now().After(e.deadline) {
			e.res.Capped = true
			e.stop = true
			return
		}
	}
	if e.journal != nil {
		binary.LittleEndian.PutUint64(e.journal[0:], uint64(idx)+1)
	}
	if e.desc {
		fmt.Println(desc())
	}
	e.res.Cases++
	t := &T{e: e, desc: desc}
	e.runCase(t, idx, f)
}

// noteFirst tells a developer's script of a failure as soon as it shows.
func noteFirst(key string) {
	if p := os.Getenv("VERIF_FIRST"); p != "" {
		_ = os.WriteFile(p, []byte(key), 0o600)
	}
}

func (e *Env) runCase(t *T, idx int64, f func(t *T)) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		rec := failureRec{Idx: idx, NCPU: e.NCPU, Desc: t.desc(), Shard: e.shard, Shards: e.shards}
		if fl, ok := r.(failure); ok {
			rec.Key, rec.Detail = fl.key, fl.detail
		} else {
			st := string(debug.Stack())
			rec.Key = "panic:" + panicSite(st)
			rec.Detail = fmt.Sprintf("panic: %v\n%s", r, trimStack(st))
		}
		e.res.Failures = append(e.res.Failures, rec)
		noteFirst(rec.Key)
		if len(e.res.Failures)-e.listed >= 12 {
			e.stop = true
			e.res.Capped = true
		}
	}()
	if slowLog != "" {
		start := time.Now()
		defer func() {
			if d := time.Since(start); d > time.Second {
				if f, err := os.OpenFile(slowLog, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o600); err == nil {
					fmt.Fprintf(f, "%6.1f s: case %d, shard %d, ncpu %d: %s\n", d.Seconds(), idx, e.shard, e.NCPU, t.desc())
					f.Close()
				}
			}
		}()
	}
	f(t)
}

// slowLog names a file for cases that take long (for tuning).
var slowLog = os.Getenv("VERIF_SLOW")

// panicSite names the innermost frame outside the runtime.
func panicSite(st string) string {
	lines := strings.Split(st, "\n")
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.goPanic") || strings.HasPrefix(l, "runtime.panic") {
			seen = true
			continue
		}
		if !seen || strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "runtime.") {
			continue
		}
		if i := strings.LastIndex(l, "("); i > 0 {
			l = l[:i]
		}
		return l[strings.LastIndex(l, "/")+1:]
	}
	return "?"
}

func trimStack(st string) string {
	if i := strings.Index(st, "panic("); i >= 0 {
		st = st[i:]
	}
	if len(st) > 3000 {
		st = st[:3000]
	}
	return st
}

// ---------------------------------------------------------------------------

func main() {
	var (
		prop    = flag.String("prop", "", "property")
		tier    = flag.String("tier", "quick", "tier")
		shard   = flag.Int("shard", -1, "worker: shard")
		shards  = flag.Int("shards", 0, "worker: shards")
		ncpu    = flag.Int("ncpu", 0, "worker: CPUs visible")
		only    = flag.Int64("only", -1, "worker: only this case")
		from    = flag.Int64("from", 0, "worker: first case")
		upto    = flag.Int64("upto", 1<<62, "worker: last case")
		out     = flag.String("out", "", "worker: result file")
		jour    = flag.String("journal", "", "worker: journal")
		until   = flag.Int64("until", 0, "worker: deadline (unix ns)")
		pinned  = flag.Bool("pinned", false, "worker: affinity already set")
		work    = flag.String("work", "", "scratch directory")
		verif   = flag.String("verif", "/verif", "verif directory")
		replay  = flag.String("replay", "", "replay file")
		descf   = flag.Bool("desc", false, "print case descriptions")
		seedF   = flag.Int("seed", 1, "seed (unused: nothing is sampled)")
		maxtime = flag.Duration("max", 0, "override deadline")
	)
	flag.Parse()
	scratch = *work
	repoDir = os.Getenv("VERIF_REPO")
	if repoDir == "" {
		repoDir = "/repo"
	}
	if *replay != "" {
		var r struct {
			Property string       `json:"property"`
			Tier     string       `json:"tier"`
			Failure  []failureRec `json:"failures"`
		}
		b, err := os.ReadFile(*replay)
		die(err)
		die(json.Unmarshal(b, &r))
		ok := true
		for _, f := range r.Failure {
			c := checks[r.Property]
			fmt.Printf("replaying %s case %d (ncpu %d): %s\n", r.Property, f.Idx, f.NCPU, f.Desc)
			p := &parent{c: c, tier: r.Tier, work: *work, verif: *verif}
			for _, g := range p.isolate(f, f.Iso == "shard") {
				ok = false
				fmt.Printf("  %s\n  %s\n", g.Key, strings.ReplaceAll(g.Detail, "\n", "\n  "))
			}
		}
		if !ok {
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, *replay)
			os.Exit(1)
		}
		fmt.Println("not reproduced")
		os.Exit(0)
	}
	c := checks[*prop]
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	if *shard >= 0 || *only >= 0 {
		worker(c, *tier, *verif, *shard, *shards, *ncpu, *only, *from, *upto, *out, *jour, *until, *pinned, *descf)
		return
	}
	p := &parent{c: c, tier: *tier, work: *work, verif: *verif, seed: *seedF, max: *maxtime}
	os.Exit(p.run())
}

var scratch, repoDir string

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		os.Exit(3)
	}
}

func setAffinity(n int) error {
	var mask [128]uint64
	_, _, e := syscall.RawSyscall(syscall.SYS_SCHED_GETAFFINITY, 0, unsafe.Sizeof(mask), uintptr(unsafe.Pointer(&mask)))
	if e != 0 {
		return e
	}
	var cpus []int
	for i := range len(mask) * 64 {
		if mask[i/64]>>(i%64)&1 == 1 {
			cpus = append(cpus, i)
		}
	}
	if len(cpus) <= n {
		return nil
	}
	off := os.Getpid() % len(cpus)
	var want [128]uint64
	for k := range n {
		i := cpus[(off+k)%len(cpus)]
		want[i/64] |= 1 << (i % 64)
	}
	_, _, e = syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, unsafe.Sizeof(want), uintptr(unsafe.Pointer(&want)))
	if e != 0 {
		return e
	}
	return nil
}

func worker(c *Check, tier, verif string, shard, shards, ncpu int, only, from, upto int64, out, jour string, until int64, pinned, desc bool) {
	if ncpu > 0 && !pinned && runtime.NumCPU() > ncpu {
		runtime.LockOSThread()
		if err := setAffinity(ncpu); err == nil {
			self, err := os.Executable()
			die(err)
			args := append([]string{self, "-pinned"}, os.Args[1:]...)
			die(syscall.Exec(self, args, os.Environ()))
		}
	}
	if c.MemLimit > 0 {
		lim := syscall.Rlimit{Cur: c.MemLimit, Max: c.MemLimit}
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	th := c.Threads
	if th == 0 {
		th = 1
	}
	runtime.GOMAXPROCS(th)
	debug.SetMaxStack(64 << 20)
	debug.SetMemoryLimit(1200 << 20)
	e := &Env{
		Prop: c.ID, Tier: tier, verif: verif, NCPU: ncpu, shard: shard, shards: shards, only: only, from: from, upto: upto, desc: desc,
		distinct: map[uint64]struct{}{}, states: map[uint64]struct{}{}, groupN: map[string]int64{},
		deadline: time.Unix(0, until),
	}
	if until == 0 {
		e.deadline = time.Now().Add(24 * time.Hour)
	}
	if jour != "" {
		f, err := os.OpenFile(jour, os.O_RDWR|os.O_CREATE, 0o600)
		die(err)
		die(f.Truncate(4096))
		e.journal, err = syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		die(err)
	}
	if pp := os.Getenv("VERIF_PROF"); pp != "" {
		f, err := os.Create(pp)
		die(err)
		die(pprof.StartCPUProfile(f))
		defer pprof.StopCPUProfile()
	}
	c.Run(e)
	pprof.StopCPUProfile()
	if pp := os.Getenv("VERIF_HEAP"); pp != "" {
		f, err := os.Create(pp)
		die(err)
		runtime.GC()
		die(pprof.WriteHeapProfile(f))
		die(f.Close())
	}
	e.res.Groups = e.groupN
	e.res.Total = e.idx
	e.res.Done = true
	if out == "" {
		b, _ := json.MarshalIndent(e.res, "", " ")
		fmt.Println(string(b))
		if len(e.res.Failures) > 0 {
			os.Exit(1)
		}
		return
	}
	writeSet(out+".distinct", e.distinct)
	writeSet(out+".states", e.states)
	b, err := json.Marshal(e.res)
	die(err)
	die(os.WriteFile(out+".tmp", b, 0o600))
	die(os.Rename(out+".tmp", out))
}

func writeSet(name string, m map[uint64]struct{}) {
	b := make([]byte, 0, 8*len(m))
	for k := range m {
		b = binary.LittleEndian.AppendUint64(b, k)
	}
	die(os.WriteFile(name, b, 0o600))
}

func readSet(name string, m map[uint64]struct{}) {
	b, err := os.ReadFile(name)
	if err != nil {
		return
	}
	for ; len(b) >= 8; b = b[8:] {
		m[binary.LittleEndian.Uint64(b)] = struct{}{}
	}
}

// ---------------------------------------------------------------------------

type parent struct {
	c     *Check
	tier  string
	work  string
	verif string
	seed  int
	max   time.Duration

	mu       sync.Mutex
	res      shardResult
	distinct map[uint64]struct{}
	states   map[uint64]struct{}
	fails    []failureRec
	stop     bool
	nproc    int
}

func (p *parent) hang() time.Duration {
	if p.c.Hang > 0 {
		return p.c.Hang
	}
	return 60 * time.Second
}

// spawn runs one worker and returns its result, or a crash/stall record.
func (p *parent) spawn(args []string, ncpu int, until time.Time) (*shardResult, *failureRec, string) {
	p.mu.Lock()
	p.nproc++
	n := p.nproc
	p.mu.Unlock()
	base := filepath.Join(p.work, fmt.Sprintf("w%d", n))
	self, err := os.Executable()
	die(err)
	a := []string{"-prop", p.c.ID, "-tier", p.tier, "-work", p.work, "-verif", p.verif, "-out", base + ".json", "-journal", base + ".j",
		"-ncpu", strconv.Itoa(ncpu), "-until", strconv.FormatInt(until.UnixNano(), 10)}
	cmd := exec.Command(self, append(a, args...)...)
	errf, err := os.Create(base + ".err")
	die(err)
	cmd.Stderr, cmd.Stdout = errf, errf
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	err = cmd.Start()
	die(err)
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	last, lastAt := uint64(0), time.Now()
	stalled, stopped := false, false
	tick := time.NewTicker(100 * time.Millisecond)
	defer tick.Stop()
	var werr error
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-tick.C:
			p.mu.Lock()
			st := p.stop
			p.mu.Unlock()
			if st && len(args) > 0 && args[0] == "-shard" {
				stopped = true
				_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				continue
			}
			cur := readJournal(base+".j", 0) ^ readJournal(base+".j", 8)<<40
			if cur != last {
				last, lastAt = cur, time.Now()
			} else if time.Since(lastAt) > p.hang() && !stalled {
				stalled = true
				_ = syscall.Kill(cmd.Process.Pid, syscall.SIGQUIT)
				time.Sleep(300 * time.Millisecond)
				_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			}
		}
	}
	errf.Close()
	if b, err := os.ReadFile(base + ".json"); err == nil && !stalled {
		var r shardResult
		if json.Unmarshal(b, &r) == nil && r.Done {
			return &r, nil, base + ".json"
		}
	}
	if stopped {
		return nil, nil, ""
	}
	cur := int64(readJournal(base+".j", 0)) - 1
	msg, _ := os.ReadFile(base + ".err")
	s := string(msg)
	rec := &failureRec{Idx: cur, NCPU: ncpu}
	switch {
	case stalled:
		rec.Key = "stall"
		rec.Detail = fmt.Sprintf("no progress for %v\n%s", p.hang(), clip(s, 3000))
	default:
		rec.Key = "crash:" + crashKind(s)
		rec.Detail = fmt.Sprintf("worker died (%v)\n%s", werr, clip(s, 3000))
	}
	if cur < 0 {
		fmt.Fprintf(os.Stderr, "harness error: worker died before its first case: %v\n%s\n", werr, clip(s, 3000))
		os.Exit(3)
	}
	return nil, rec, ""
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func crashKind(s string) string {
	for _, l := range strings.Split(s, "\n") {
		for _, p := range []string{"fatal error: ", "panic: ", "runtime: goroutine stack exceeds", "WARNING: DATA RACE"} {
			if strings.HasPrefix(l, p) {
				return strings.TrimSpace(clip(l, 80))
			}
		}
	}
	return "killed"
}

func readJournal(name string, off int64) uint64 {
	f, err := os.Open(name)
	if err != nil {
		return 0
	}
	defer f.Close()
	var b [8]byte
	if _, err := f.ReadAt(b[:], off); err != nil {
		return 0
	}
	return binary.LittleEndian.Uint64(b[:])
}

// isolate re-runs one failing case alone (or its shard up to it) and returns the failures seen.
func (p *parent) isolate(f failureRec, prefix bool) []failureRec {
	args := []string{"-only", strconv.FormatInt(f.Idx, 10)}
	if prefix {
		args = []string{"-shards", strconv.Itoa(f.Shards), "-upto", strconv.FormatInt(f.Idx, 10), "-shard", strconv.Itoa(f.Shard)}
	}
	r, crash, _ := p.spawn(args, f.NCPU, time.Now().Add(time.Hour))
	if crash != nil {
		crash.Desc = f.Desc
		return []failureRec{*crash}
	}
	if r == nil {
		return nil
	}
	var o []failureRec
	for _, g := range r.Failures {
		if g.Idx == f.Idx {
			o = append(o, g)
		}
	}
	return o
}

func (p *parent) shardLoop(shard, shards, ncpu int, until time.Time) {
	from := int64(0)
	crashes := 0
	for {
		r, crash, base := p.spawn([]string{"-shard", strconv.Itoa(shard), "-shards", strconv.Itoa(shards), "-from", strconv.FormatInt(from, 10)}, ncpu, until)
		p.mu.Lock()
		if r != nil {
			p.merge(r, base)
			for _, f := range r.Failures {
				f.Shard, f.Shards = shard, shards
				p.fails = append(p.fails, f)
			}
			p.mu.Unlock()
			return
		}
		if crash == nil {
			p.mu.Unlock()
			return
		}
		crash.Shard, crash.Shards = shard, shards
		p.fails = append(p.fails, *crash)
		noteFirst(crash.Key)
		p.res.Notes = append(p.res.Notes, fmt.Sprintf("shard %d restarted after case %d (%s); counts of the lost part are not included", shard, crash.Idx, crash.Key))
		crashes++
		if crashes >= 4 || len(p.fails) > 40 {
			p.res.Capped = true
			p.mu.Unlock()
			return
		}
		p.mu.Unlock()
		from = crash.Idx + 1
	}
}

func (p *parent) merge(r *shardResult, base string) {
	p.res.Cases += r.Cases
	p.res.Evaluations += r.Evaluations
	p.res.Transitions += r.Transitions
	p.res.Traces += r.Traces
	p.res.Capped = p.res.Capped || r.Capped
	if r.Total > p.res.Total {
		p.res.Total = r.Total
	}
	for k, v := range r.Groups {
		p.res.Groups[k] += v
	}
	for k, v := range r.Maxima {
		if v > p.res.Maxima[k] {
			p.res.Maxima[k] = v
		}
	}
	if len(p.res.Samples) < 10 {
		p.res.Samples = append(p.res.Samples, r.Samples...)
	}
	for _, n := range r.Notes {
		dup := false
		for _, m := range p.res.Notes {
			dup = dup || m == n
		}
		if !dup {
			p.res.Notes = append(p.res.Notes, n)
		}
	}
	readSet(base+".distinct", p.distinct)
	readSet(base+".states", p.states)
}

type known struct{ prop, key, text string }

func loadKnown(verif string) []known {
	b, err := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C07 key=[...] text
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property=")
		prop, rest, _ := strings.Cut(rest, " ")
		i, j := strings.Index(rest, "key=["), strings.Index(rest, "]")
		if i < 0 || j < i {
			continue
		}
		out = append(out, known{prop, rest[i+5 : j], strings.TrimSpace(rest[j+1:])})
	}
	return out
}

func unlisted(fails []failureRec, prop string, kn []known) bool {
next:
	for _, f := range fails {
		for _, k := range kn {
			if k.prop == prop && k.key == f.Key {
				continue next
			}
		}
		return true
	}
	return false
}

func (p *parent) run() int {
	start := time.Now()
	p.distinct, p.states = map[uint64]struct{}{}, map[uint64]struct{}{}
	p.res.Groups = map[string]int64{}
	p.res.Maxima = map[string]int64{}
	shards := p.c.Shards
	if shards == 0 {
		shards = max(2, runtime.NumCPU())
	}
	limit := p.c.Quick
	if limit == 0 {
		limit = 420 * time.Second
	}
	if p.tier == "thorough" {
		limit = p.c.Thorough
		if limit == 0 {
			limit = 60 * time.Minute
		}
	}
	if p.max > 0 {
		limit = p.max
	}
	until := start.Add(limit)
	configs := p.c.Configs
	if len(configs) == 0 {
		configs = []int{0}
	}
	total := int64(0)
	kn := loadKnown(p.verif)
	for _, n := range configs {
		var wg sync.WaitGroup
		for s := range shards {
			wg.Add(1)
			go func() { defer wg.Done(); p.shardLoop(s, shards, n, until) }()
		}
		wg.Wait()
		total += p.res.Total
		if unlisted(p.fails, p.c.ID, kn) {
			break
		}
	}
	// classify
	sort.SliceStable(p.fails, func(i, j int) bool { return p.fails[i].Idx < p.fails[j].Idx })
	var confirmed []failureRec
	seen := map[string]int{}
	printed := map[string]bool{}
	unrepro := 0
	for _, f := range p.fails {
		if seen[f.Key] >= 2 || len(confirmed) >= 4 {
			continue
		}
		seen[f.Key]++
		matched := false
		for _, k := range kn {
			if k.prop == p.c.ID && k.key == f.Key {
				matched = true
				if !printed[k.key] {
					printed[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", k.prop, k.text)
				}
			}
		}
		if matched {
			continue
		}
		hits := 0
		var got []failureRec
		tries := 5
		if f.Key == "stall" {
			tries = 1
		}
		for range tries {
			if g := p.isolate(f, false); len(g) > 0 {
				hits++
				got = g
			}
		}
		f.Iso = fmt.Sprintf("%d/%d", hits, tries)
		if hits == 0 && f.Key != "stall" {
			if g := p.isolate(f, true); len(g) > 0 {
				got = g
				f.Iso = "shard"
				hits = 1
			}
		}
		if hits == 0 {
			unrepro++
			p.res.Notes = append(p.res.Notes, fmt.Sprintf("not reproduced, not reported: case %d %s %s", f.Idx, f.Key, clip(f.Detail, 200)))
			continue
		}
		f.Key, f.Detail = got[0].Key, got[0].Detail
		if got[0].Desc != "" {
			f.Desc = got[0].Desc
		}
		// the isolated run may reveal a listed key
		again := false
		for _, k := range kn {
			if k.prop == p.c.ID && k.key == f.Key {
				again = true
				if !printed[k.key] {
					printed[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", k.prop, k.text)
				}
			}
		}
		if again {
			continue
		}
		confirmed = append(confirmed, f)
	}
	p.evidence(start, total, len(confirmed), shards, configs)
	if len(confirmed) == 0 {
		fmt.Printf("%s: held on everything explored: cases=%d evaluations=%d states=%d transitions=%d outcomes=%d exhaustive=%v (%.1fs)\n",
			p.c.ID, p.res.Cases, p.res.Evaluations, len(p.states), p.res.Transitions, len(p.distinct), !p.res.Capped && unrepro == 0, time.Since(start).Seconds())
		return 0
	}
	dir := filepath.Join(p.verif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	name := filepath.Join(dir, p.c.ID+".replay.json")
	b, _ := json.MarshalIndent(map[string]any{"property": p.c.ID, "tier": p.tier, "failures": confirmed}, "", " ")
	die(os.WriteFile(name, b, 0o644))
	for _, f := range confirmed {
		fmt.Printf("case %d (ncpu %d, reproduced %s): %s\n  %s\n  %s\n", f.Idx, f.NCPU, f.Iso, clip(f.Desc, 1500), f.Key, strings.ReplaceAll(clip(f.Detail, 2500), "\n", "\n  "))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.c.ID, name)
	return 1
}

func (p *parent) evidence(start time.Time, total int64, viol, shards int, configs []int) {
	cov := map[string]any{
		"cases":               p.res.Cases,
		"cases_in_space":      total,
		"evaluations":         p.res.Evaluations,
		"distinct_nontrivial": len(p.distinct),
		"rule":                p.c.Rule,
		"samples":             p.res.Samples,
		"exhaustive":          !p.res.Capped,
		"by_family":           p.res.Groups,
	}
	if len(p.res.Samples) == 0 {
		cov["samples"] = []any{"(none recorded)"}
	}
	if p.c.Level == "model_checking" {
		cov["states"] = len(p.states)
		cov["transitions"] = p.res.Transitions
		cov["traces_validated_against_impl"] = p.res.Traces
	}
	if len(p.res.Maxima) > 0 {
		cov["maxima"] = p.res.Maxima
	}
	if len(p.res.Notes) > 0 {
		cov["notes"] = p.res.Notes
	}
	if len(p.c.Configs) > 0 {
		cov["cpu_configurations"] = configs
	}
	if p.c.Explain != "" {
		cov["explanation"] = p.c.Explain
	}
	ev := map[string]any{
		"property": p.c.ID, "tier": p.tier, "seed": p.seed, "level": p.c.Level,
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": viol,
		"assumptions": append([]string{"the reference model and encoders of /verif/mc are correct", "Go runtime and third-party decoders are part of the system under test, not of the model"}, p.c.Assumptions...),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	die(err)
	dir := filepath.Join(p.verif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	die(os.WriteFile(filepath.Join(dir, p.c.ID+".json"), b, 0o644))
}

var errInjected = errors.New("injected fault")
