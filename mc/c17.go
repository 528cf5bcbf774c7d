package main

// C17: decoders are owned by one handle, closed at most once, and bounded.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/bodgit/sevenzip"
)

func init() {
	register(&Check{
		ID:      "C17",
		Level:   "model_checking",
		Configs: []int{1, 2, 0},
		Rule: "all histories of opens, reads and closes to a bounded depth, each repeated until any accumulation shows, without failures and with the n-th creation, the read at every byte or the n-th close of a decoder " +
			"failing; around every method, with probes on each of its inputs and on its output; with unusable properties; and for headers decoded by several coders, sound and damaged at every byte. An ownership automaton " +
			"follows every decoder instance: created for one handle, moved on only after that was closed, never read after closing, closed once at most; those not closed stay below the number of open handles plus a constant",
		Run:     runC17,
		Explain: "the real pool and readers run each history over probe decoders driven by an automaton; with 1, 2 and all CPUs, as the pool's size depends on it",
	})
}

type h17 struct {
	n    int
	open bool
}

type prb struct {
	pr    *prober
	id    int
	in    []io.ReadCloser
	kind  byte // the property byte: 0xff outermost, else the position
	done  bool
	owner *h17
}

type prober struct {
	mu        sync.Mutex
	made      int
	live      map[byte]int
	bad       string
	badKey    string
	cur       *h17
	open      int
	factFail  int // the n-th creation from now fails
	factKind  int // only of this kind, or -1
	readFail  int // reading fails after so many bytes
	readKind  int
	closeFail int // the n-th close from now fails; -2: all
	maxLive   int
}

var (
	pr17     *prober
	errProbe = errors.New("injected decoder failure")
	idProbe  = []byte{0x71, 0x17}
)

func (p *prober) fail(key, f string, a ...any) {
	if p.bad == "" {
		p.badKey, p.bad = key, fmt.Sprintf(f, a...)
	}
}

func (p *prober) noFaults() { p.factFail, p.readFail, p.closeFail = -1, -1, -1 }

func newProber() *prober {
	p := &prober{live: map[byte]int{}, factKind: -1, readKind: -1}
	p.noFaults()
	pr17 = p
	return p
}

func init() {
	sevenzip.RegisterDecompressor(idProbe, func(props []byte, _ uint64, in []io.ReadCloser) (io.ReadCloser, error) {
		p := pr17
		p.mu.Lock()
		defer p.mu.Unlock()
		if p.factFail >= 0 && (p.factKind < 0 || p.factKind == int(props[0])) {
			p.factFail--
			if p.factFail == -1 {
				return nil, errProbe
			}
		}
		d := &prb{pr: p, id: p.made, in: append([]io.ReadCloser{}, in...), kind: props[0], owner: p.cur}
		p.made++
		p.live[d.kind]++
		p.maxLive = max(p.maxLive, p.live[d.kind])
		return d, nil
	})
}

func (d *prb) Read(b []byte) (int, error) {
	p := d.pr
	p.mu.Lock()
	if d.done {
		p.fail("read-after-close", "decoder %d (kind %d) is read after it was closed", d.id, d.kind)
	}
	if d.kind == 0xff && p.cur != nil {
		if d.owner != p.cur && d.owner != nil && d.owner.open {
			p.fail("two-handles", "decoder %d serves handle %d while it belongs to handle %d, which is open", d.id, p.cur.n, d.owner.n)
		}
		d.owner = p.cur
	}
	limit := -1
	if p.readFail >= 0 && (p.readKind < 0 || p.readKind == int(d.kind)) {
		limit = p.readFail
	}
	p.mu.Unlock()
	if limit == 0 {
		return 0, errProbe
	}
	if limit > 0 && len(b) > limit {
		b = b[:limit]
	}
	n, err := d.in[0].Read(b)
	if limit > 0 {
		p.mu.Lock()
		p.readFail -= n
		p.mu.Unlock()
	}
	return n, err
}

func (d *prb) Close() error {
	p := d.pr
	p.mu.Lock()
	if d.done {
		p.fail("closed-twice", "decoder %d (kind %d) is closed twice", d.id, d.kind)
	} else {
		p.live[d.kind]--
	}
	if d.kind == 0xff && p.cur != nil && d.owner != nil && d.owner != p.cur && d.owner.open {
		p.fail("foreign-close", "decoder %d of handle %d, which is open, is closed by an operation on handle %d", d.id, d.owner.n, p.cur.n)
	}
	d.done = true
	var errs []error
	if p.closeFail >= 0 || p.closeFail == -2 {
		if p.closeFail == -2 {
			errs = append(errs, errProbe)
		} else {
			p.closeFail--
			if p.closeFail == -1 {
				errs = append(errs, errProbe)
			}
		}
	}
	p.mu.Unlock()
	for _, r := range d.in {
		errs = append(errs, r.Close())
	}
	return errors.Join(errs...)
}

// wrapProbes puts a probe at each packed stream and at the output of a folder.
func wrapProbes(f *Folder) *Folder {
	n := len(f.Packs)
	g := &Folder{Packs: f.Packs, Data: f.Data, CRC: f.CRC, NumSub: f.NumSub}
	for i := range n {
		g.Coders = append(g.Coders, Coder{ID: idProbe, In: 1, Out: 1, Props: []byte{byte(i)}})
		g.Sizes = append(g.Sizes, uint64(len(f.Packs[i])))
		g.Packed = append(g.Packed, i)
		in := 0
		if len(f.Packed) > i {
			in = f.Packed[i]
		}
		g.Bind = append(g.Bind, [2]int{n + in, i})
	}
	total, out := 0, 0
	for i, c := range f.Coders {
		if c.In == 0 {
			c.In, c.Out = 1, 1
		}
		g.Coders = append(g.Coders, c)
		g.Sizes = append(g.Sizes, f.Sizes[i])
		total += c.In
		out++
	}
	for _, b := range f.Bind {
		g.Bind = append(g.Bind, [2]int{b[0] + n, b[1] + n})
	}
	last := 0
	for o := range out {
		bound := false
		for _, b := range f.Bind {
			bound = bound || b[1] == o
		}
		if !bound {
			last = o
		}
	}
	g.Coders = append(g.Coders, Coder{ID: idProbe, In: 1, Out: 1, Props: []byte{0xff}})
	g.Sizes = append(g.Sizes, f.Sizes[last])
	g.Bind = append(g.Bind, [2]int{n + total, n + last})
	return g
}

func probeChain(n int) func(d []byte) *Folder {
	return func(d []byte) *Folder {
		f := &Folder{Packed: []int{0}, Packs: [][]byte{d}, Data: d, CRC: crcOf(d)}
		for i := range n {
			k := byte(i)
			if i == n-1 {
				k = 0xff
			}
			f.Coders = append(f.Coders, Coder{ID: idProbe, In: 1, Out: 1, Props: []byte{k}})
			f.Sizes = append(f.Sizes, uint64(len(d)))
			if i > 0 {
				f.Bind = append(f.Bind, [2]int{i, i - 1})
			}
		}
		return f
	}
}

// fault17 is injected anew in each repetition.
type fault17 struct {
	fact, factKind int
	read, readKind int
	close          int
}

var noFault17 = fault17{-1, -1, -1, -1, -1}

func (f fault17) String() string {
	switch {
	case f.fact >= 0:
		return fmt.Sprintf("creation %d of kind %d fails", f.fact, f.factKind)
	case f.read >= 0:
		return fmt.Sprintf("reading kind %d fails after %d bytes", f.readKind, f.read)
	case f.close == -2:
		return "every close fails"
	case f.close >= 0:
		return fmt.Sprintf("close %d fails", f.close)
	}
	return "no failures"
}

const idleMax = 9 // idle decoders per stream: any constant will do, repetitions exceed it

// run17 runs a history repeatedly.
func run17(t *T, ha *histArchive, streams int, h []hop, f fault17, reps, again int, async bool) {
	if async { // zstd only decodes in the background with several Ps
		runtime.GOMAXPROCS(4)
		defer runtime.GOMAXPROCS(1)
	}
	p := newProber()
	var where string
	verdict := func() {
		p.mu.Lock()
		bad, key := p.bad, p.badKey
		p.mu.Unlock()
		if bad != "" {
			t.Failf(key, "%s, %v, repetition %s: %s: %s", ha.name, f, where, histString(h), bad)
		}
	}
	r, err := open(ha.built.B, ha.pw)
	if err != nil {
		t.Failf("open", "%s: %v", ha.name, err)
	}
	handles := 0
	for rep := range reps {
		p.mu.Lock()
		p.noFaults()
		if again == 0 || rep%again == 0 {
			p.factFail, p.factKind = f.fact, f.factKind
			p.readFail, p.readKind = f.read, f.readKind
			p.closeFail = f.close
		}
		p.mu.Unlock()
		type rh struct {
			rc io.ReadCloser
			h  *h17
		}
		var hs []rh
		set := func(x *h17) {
			p.mu.Lock()
			p.cur = x
			p.mu.Unlock()
		}
		closeOne := func(i int) {
			x := hs[i]
			if x.rc == nil {
				return
			}
			set(x.h)
			_ = x.rc.Close()
			if x.h.open {
				p.mu.Lock()
				x.h.open = false
				p.open--
				p.mu.Unlock()
			}
			set(nil)
		}
		for s, o := range h {
			where = fmt.Sprintf("%d step %d", rep, s)
			switch o.kind {
			case 'o', 'O':
				x := &h17{n: handles, open: true}
				handles++
				set(x)
				var rc io.ReadCloser
				var err error
				if o.kind == 'O' {
					rc, err = r.Open(ha.entries[o.i].Name)
				} else {
					rc, err = r.File[o.i].Open()
				}
				if err != nil {
					x.open = false
					rc = nil
				} else {
					p.mu.Lock()
					p.open++
					p.mu.Unlock()
				}
				set(nil)
				hs = append(hs, rh{rc, x})
			case 'r', 'a', 'x':
				if x := hs[o.i]; x.rc != nil {
					set(x.h)
					if o.kind == 'a' {
						b := make([]byte, 64)
						for range 3000 {
							if _, err := x.rc.Read(b); err != nil {
								break
							}
						}
					} else {
						_, _ = readN(x.rc, o.k)
					}
					set(nil)
				}
			case 'c', 'd':
				closeOne(o.i)
			}
			t.Trans(1)
			p.mu.Lock()
			for k, n := range p.live {
				if n > p.open+streams*idleMax {
					p.fail("accumulate", "%d decoders (kind %d) are not closed, with %d handles open", n, k, p.open)
				}
			}
			p.mu.Unlock()
		}
		for i := range hs {
			where = fmt.Sprintf("%d end", rep)
			closeOne(i)
		}
		if async {
			for range 20 {
				runtime.Gosched()
			}
			time.Sleep(20 * time.Microsecond)
		}
		p.mu.Lock()
		stop := p.bad != ""
		for k, n := range p.live {
			if n > p.open+streams*idleMax {
				p.fail("accumulate", "%d decoders (kind %d) are not closed, with no handle open", n, k)
				stop = true
			}
		}
		p.mu.Unlock()
		if stop {
			break
		}
	}
	verdict()
	t.Max("decoders alive at once", int64(p.maxLive))
}

func runC17(e *Env) {
	d := 0
	if !e.Quick() {
		d = 1
	}
	reps := 20
	fam := func(ha *histArchive, streams int, s *histSpec, depth, pre int, faults []fault17, reps, again int, async bool) {
		m0 := &histModel{sizes: ha.sizes}
		for _, px := range histPrefixes(m0, s, pre) {
			e.Case(func() string {
				return fmt.Sprintf("%s, files %v: all histories of depth %d starting with: %s", ha.name, ha.sizes, depth, histString(px))
			}, func(t *T) {
				m := m0.clone()
				for _, o := range px {
					m.apply(o)
				}
				forHistories(m, s, px, depth, func(h []hop, m *histModel) {
					for _, f := range faults {
						run17(t, ha, streams, h, f, reps, again, async)
						t.Eval(1)
					}
					t.State(m.hash())
					t.OutcomeHash(m.hash())
				})
				t.Sample(histString(px) + " ...")
			})
		}
	}
	none := []fault17{noFault17}

	e.Group("histories")
	full := &histSpec{files: []int{0, 1, 2}, maxLive: 3, maxOpen: 9, reads: []int{1}, all: true}
	ha := histArch("probe", probeChain(1), "", []int{3, 4, 2})
	fam(ha, 1, full, 6+d, 3, none, reps, 0, false)
	seq := &histSpec{files: []int{0, 1, 2, 3}, maxLive: 1, maxOpen: 9, reads: []int{1, 2}}
	fam(histArch("probe", probeChain(1), "", []int{2, 2}, []int{2, 3}), 2, seq, 8+d, 3, none, reps, 0, false)
	wide := &histSpec{files: []int{0, 1, 2, 3}, maxLive: 4, maxOpen: 6, reads: []int{1}}
	fam(histArch("probe", probeChain(1), "", []int{1, 2, 1, 2}), 1, wide, 6+d, 3, none, reps, 0, false)
	one := &histSpec{files: []int{0, 1, 2}, maxLive: 3, maxOpen: 9, reads: []int{1}, all: true, fs: true}
	fam(histArch("probe", probeChain(2), "", []int{3}, []int{-1}, []int{2}), 2, one, 4+d, 2, none, reps, 0, false)
	dead := &histSpec{files: []int{0, 1}, maxLive: 2, maxOpen: 9, reads: []int{1}, all: true, fs: true, dead: true}
	fam(histArch("probe", probeChain(1), "", []int{3, 2, 3}, []int{4}), 2, dead, 5+d, 2, none, reps, 0, false)
	zero := &histSpec{files: []int{0, 1, 2}, maxLive: 3, maxOpen: 9, reads: []int{1}, all: true}
	fam(histArch("probe", probeChain(1), "", []int{2, 0, 3}), 1, zero, 5+d, 2, none, reps, 0, false)

	e.Group("histories with failures")
	var faults []fault17
	for n := range 5 {
		faults = append(faults, fault17{n, -1, -1, -1, -1}, fault17{-1, -1, -1, -1, n})
	}
	for b := range 9 {
		faults = append(faults, fault17{-1, -1, b, 0xff, -1})
		if b < 4 {
			faults = append(faults, fault17{-1, -1, b, 0, -1})
		}
	}
	faults = append(faults, fault17{-1, -1, -1, -1, -2}, fault17{0, 0xff, -1, -1, -1}, fault17{1, 0xff, -1, -1, -1}, fault17{0, 0, -1, -1, -2})
	ff := &histSpec{files: []int{0, 1, 2}, maxLive: 2, maxOpen: 9, reads: []int{1}, all: true, dead: true}
	fam(histArch("probes", probeChain(2), "", []int{3, 4, 2}), 1, ff, 4+d, 2, faults, reps, 0, false)
	fam(histArch("probes", probeChain(3), "", []int{3, 2}, []int{2}), 2, &histSpec{files: []int{0, 1, 2}, maxLive: 2, maxOpen: 9, reads: []int{2}, all: true}, 4+d, 2, faults, reps, 3, false)
	sf := &histSpec{files: []int{0, 1, 2}, maxLive: 1, maxOpen: 9, reads: []int{1}}
	fam(histArch("probes", probeChain(1), "", []int{2, 2, 2}), 1, sf, 7+d, 3, faults[:10], reps, 2, false)

	e.Group("every method")
	for _, z := range methodZoo() {
		mk := func(b []byte) *Folder { return wrapProbes(z.mk(b)) }
		var ha *histArchive
		async := strings.Contains(z.name, "zstd")
		sp := &histSpec{files: []int{0, 1, 2}, maxLive: 2, maxOpen: 9, reads: []int{3}, all: true}
		depth := 3 + d
		m0 := &histModel{sizes: []int{25, 20, 30}}
		for _, px := range histPrefixes(m0, sp, 1) {
			e.Case(func() string {
				return fmt.Sprintf("%s: histories starting with %s, reading fails at every byte", z.name, histString(px))
			}, func(t *T) {
				if ha == nil {
					ha = histArch(z.name, mk, z.pw, []int{25, 20, 30})
				}
				packs := 0
				m := m0.clone()
				for _, o := range px {
					m.apply(o)
				}
				n := 0
				forHistories(m, sp, px, depth, func(h []hop, m *histModel) {
					n++
					run17(t, ha, 1, h, noFault17, 12, 0, async)
					run17(t, ha, 1, h, fault17{-1, -1, -1, -1, -2}, 12, 0, async)
					t.Eval(2)
					if n%9 != 0 && e.Quick() {
						return
					}
					packs = max(1, packs)
					for b := 0; b < 90; b += 1 + n%3 {
						for k := range 2 {
							run17(t, ha, 1, h, fault17{-1, -1, b, k, -1}, 3, 0, async)
							t.Eval(1)
						}
					}
				})
				t.OutcomeHash(m.hash())
			})
		}
		e.Case(func() string { return z.name + ": creating decoders fails" }, func(t *T) {
			if ha == nil {
				ha = histArch(z.name, mk, z.pw, []int{25, 20, 30})
			}
			for n := range 6 {
				for _, h := range [][]hop{{{'o', 0, 0}, {'a', 0, 0}}, {{'o', 1, 0}, {'r', 0, 3}, {'o', 0, 0}, {'c', 0, 0}}} {
					for again := range 3 {
						run17(t, ha, 1, h, fault17{n, -1, -1, -1, -1}, 40, again, async)
						run17(t, ha, 1, h, fault17{n, -1, -1, -1, -2}, 40, again, async)
						t.Eval(2)
					}
				}
			}
			// properties and input that the method cannot use
			f := z.mk(zooContent(25))
			for ci := range f.Coders {
				for _, props := range [][]byte{nil, {0xff}, {0xff, 0xff, 0xff, 0xff, 0xff}, pattern(40, 3), {0}} {
					for _, keepData := range []bool{true, false} {
						g := *f
						g.Coders = append([]Coder{}, f.Coders...)
						g.Coders[ci].Props = props
						if isBig(g.Coders[ci].ID, props) {
							continue
						}
						if !keepData {
							g.Packs = nil
							for i, b := range f.Packs {
								g.Packs = append(g.Packs, pattern(len(b), uint32(i)))
							}
						}
						a := &Archive{}
						a.AddFolder(wrapProbes(&g), names(2), []int{5, len(g.Data) - 5})
						x := &histArchive{name: fmt.Sprintf("%s with properties %x of coder %d", z.name, props, ci), built: a.Build(), entries: a.Entries, pw: z.pw, sizes: []int{5, 20}}
						run17(t, x, 1, []hop{{'o', 0, 0}, {'a', 0, 0}, {'o', 1, 0}, {'a', 1, 0}, {'c', 0, 0}}, noFault17, 20, 0, async)
						t.Eval(1)
					}
				}
			}
		})
	}

	e.Group("headers")
	var hdrs []func(h []byte) *Folder
	for n := 1; n <= 3; n++ {
		hdrs = append(hdrs, probeChain(n))
	}
	for _, st := range [][]Stage{{sLZMA()}, {sLZMA2()}, {sLZMA(), sAES(aesQuick)}, {sDeflate()}, {sZstd()}, {sBCJ(), sLZMA()}, {sBzip2(1000)}, {sBrotli(true)}, {sLZ4()}} {
		hdrs = append(hdrs, func(h []byte) *Folder { return wrapProbes(Chain(h, st...)) })
	}
	for hi, enc := range hdrs {
		a := &Archive{}
		a.AddFolder(probeChain(1)(pattern(9, 1)), names(2), []int{4, 5})
		for _, withCRC := range []bool{true, false} {
			var base *Built
			build := func() *Built {
				a.Opts.Encode, a.Opts.EncodedCRC = enc, withCRC
				return a.Build()
			}
			many := func(t *T, b []byte, pw, what string, f fault17) {
				p := newProber()
				n := 40
				if hi == 9 { // bzip2 needs 4 MB each time
					n = idleMax + 3
				}
				for range n {
					p.mu.Lock()
					p.noFaults()
					p.factFail, p.factKind = f.fact, f.factKind
					p.readFail, p.readKind = f.read, f.readKind
					p.closeFail = f.close
					p.mu.Unlock()
					_, _ = open(b, pw)
				}
				if hi >= 3 {
					runtime.Gosched()
				}
				t.Eval(1)
				p.mu.Lock()
				defer p.mu.Unlock()
				for k, n := range p.live {
					if n > idleMax {
						p.fail("accumulate", "%d decoders (kind %d) of the header are not closed after opening the archive again and again", n, k)
					}
				}
				if p.bad != "" {
					t.Failf(p.badKey, "header %d, %s, %v: %s", hi, what, f, p.bad)
				}
			}
			e.Case(func() string { return fmt.Sprintf("header encoding %d (CRC %v): failures", hi, withCRC) }, func(t *T) {
				base = build()
				many(t, base.B, aesQuick.Password, "sound", noFault17)
				for n := range 5 {
					many(t, base.B, aesQuick.Password, "sound", fault17{n, -1, -1, -1, -1})
					many(t, base.B, aesQuick.Password, "sound", fault17{-1, -1, -1, -1, n})
				}
				many(t, base.B, aesQuick.Password, "sound", fault17{-1, -1, -1, -1, -2})
				many(t, base.B, "other", "wrong password", noFault17)
				for b := range 120 {
					many(t, base.B, aesQuick.Password, "sound", fault17{-1, -1, b, 0, -1})
					many(t, base.B, aesQuick.Password, "sound", fault17{-1, -1, b, 0xff, -1})
					many(t, base.B, aesQuick.Password, "sound", fault17{-1, -1, b, 0, -2})
				}
				t.Outcome(hi, withCRC)
			})
			e.Case(func() string { return fmt.Sprintf("header encoding %d (CRC %v): every byte altered", hi, withCRC) }, func(t *T) {
				base = build()
				for i := base.EncStart; i < base.EncEnd; i++ {
					for _, x := range []byte{0x01, 0x80, 0xff} {
						b := bytes.Clone(base.B)
						b[i] ^= x
						many(t, b, aesQuick.Password, fmt.Sprintf("byte %d altered by %02x", i, x), noFault17)
					}
				}
			})
			// headers cut short, extended, or invalid after decoding
			e.Case(func() string { return fmt.Sprintf("header encoding %d (CRC %v): invalid headers", hi, withCRC) }, func(t *T) {
				var plain []byte
				for cutAt := -1; cutAt < 400; cutAt++ {
					a.Opts.EncodedCRC = withCRC
					over := false
					a.Opts.Encode = func(h []byte) *Folder {
						plain = h
						if cutAt < 0 {
							return enc(append(bytes.Clone(h), 0, 0, 0))
						}
						if cutAt >= len(h) {
							over = true
							return enc(h)
						}
						if cutAt == 0 {
							return enc([]byte{0xee})
						}
						return enc(h[:cutAt])
					}
					b := a.Build()
					if over {
						break
					}
					many(t, b.B, aesQuick.Password, fmt.Sprintf("header of %d bytes cut short to %d", len(plain), cutAt), noFault17)
				}
				a.Opts.Encode = nil
			})
		}
	}
}

// isBig tells whether a decoder would want more memory than is explored.
func isBig(id, props []byte) bool {
	switch {
	case bytes.Equal(id, idLZMA), bytes.Equal(id, idPPMD):
		return len(props) >= 5 && props[4] > 1
	case bytes.Equal(id, idLZMA2):
		return len(props) > 0 && props[0] > 26 && props[0] <= 40
	case bytes.Equal(id, idAES):
		return len(props) > 0 && props[0]&0x3f > 10 && props[0]&0x3f <= 24
	}
	return false
}
