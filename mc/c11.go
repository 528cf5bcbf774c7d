package main

// C11: failing or truncated input is never passed off as complete content.

import (
	"bytes"
	"fmt"
	"io"
	iofs "io/fs"
	"strings"

	"github.com/bodgit/sevenzip"
)

func init() {
	register(&Check{
		ID:    "C11",
		Level: "fault_enumeration",
		Rule: "for every method layout, header form and extraction script: each ReadAt call made by the script fails, once or until the operation affected has reported it, with each of several errors " +
			"(arbitrary, unexpected EOF, EOF, wrapped EOF, with and without partial data); every packed stream ends after every possible prefix, both by the input ending there and by the header recording " +
			"it so. Every read that ends with io.EOF must have delivered exactly the recorded bytes, also if it is continued after an error, and once the fault is gone every file extracts correctly",
		Run: runC11,
		Assumptions: []string{
			"the underlying reader obeys io.ReaderAt except for the injected failures",
		},
		Explain: "every fault point of the enumerated scripts is exercised on the real code with a fault-injecting io.ReaderAt",
	})
}

type faultKind struct {
	name    string
	err     error
	partial int
}

var faultKinds = []faultKind{
	{"error", errInjected, 0},
	{"EOF", io.EOF, 0},
	{"error after 1 byte", errInjected, 1},
	{"unexpected EOF after 100 bytes", io.ErrUnexpectedEOF, 100},
	{"EOF after 37 bytes", io.EOF, 37},
	{"wrapped EOF", fmt.Errorf("device: %w", io.EOF), 0},
	{"unexpected EOF", io.ErrUnexpectedEOF, 0},
	{"error after 1000 bytes", errInjected, 1000},
	{"wrapped error", &iofs.PathError{Op: "read", Path: "x", Err: errInjected}, 0},
	{"not exist", iofs.ErrNotExist, 0},
	{"closed", iofs.ErrClosed, 0},
}

// c11Read reads a handle to its end, going on after errors, and checks what a clean end means.
// It returns the first error.
func c11Read(t *T, rc io.Reader, want []byte, chunk int, onErr func(), what string) error {
	var got []byte
	var first error
	buf := make([]byte, chunk)
	errs, idle := 0, 0
	for {
		n, err := rc.Read(buf)
		if n < 0 || n > len(buf) {
			t.Failf("read-count", "%s: Read returned %d for %d", what, n, len(buf))
		}
		got = append(got, buf[:n]...)
		if err == io.EOF { //nolint:errorlint
			if !bytes.Equal(got, want) {
				after := ""
				if first != nil {
					after = "-after-error"
				}
				t.Failf("short-clean"+after, "%s: io.EOF after %d of %d bytes, first difference at %d (earlier error: %v)", what, len(got), len(want), diffAt(got, want), first)
			}
			return first
		}
		if err != nil {
			if first == nil {
				first = err
				onErr()
			}
			if errs++; errs > 20 {
				return first
			}
			continue
		}
		if len(got) > len(want)+100 {
			t.Failf("too-much", "%s: more than the %d bytes recorded", what, len(want))
		}
		if n == 0 {
			if idle++; idle > 100 {
				t.Failf("no-progress", "%s: no progress", what)
			}
		} else {
			idle = 0
		}
	}
}

type c11Script struct {
	name string
	run  func(t *T, r *sevenzip.Reader, es []Entry, clear func(), note func(err error, what string))
}

func c11One(t *T, r *sevenzip.Reader, es []Entry, i, chunk int, fs bool, clear func(), note func(error, string)) {
	var rc io.ReadCloser
	var err error
	if fs {
		var f iofs.File
		f, err = r.Open(es[i].Name)
		rc = f
	} else {
		rc, err = r.File[i].Open()
	}
	what := fmt.Sprintf("file %d", i)
	if err != nil {
		clear()
		note(err, what)
		return
	}
	if err := c11Read(t, rc, es[i].Data, chunk, clear, what); err != nil {
		note(err, what)
	}
	if err := rc.Close(); err != nil {
		clear()
		note(err, what+" close")
	}
}

func c11Scripts() []c11Script {
	seq := func(name string, chunk int, fs bool, order func(n int) []int) c11Script {
		return c11Script{name, func(t *T, r *sevenzip.Reader, es []Entry, clear func(), note func(error, string)) {
			for _, i := range order(len(es)) {
				c11One(t, r, es, i, chunk, fs, clear, note)
			}
		}}
	}
	up := func(n int) (o []int) {
		for i := range n {
			o = append(o, i)
		}
		return
	}
	down := func(n int) (o []int) {
		for i := range n {
			o = append(o, n-1-i)
		}
		return
	}
	return []c11Script{
		seq("in order", 32768, false, up),
		seq("backwards in small reads", 37, true, down),
		{"two handles read alternately", func(t *T, r *sevenzip.Reader, es []Entry, clear func(), note func(error, string)) {
			for i := 0; i+1 < len(es); i++ {
				type h struct {
					rc   io.ReadCloser
					got  []byte
					done bool
					err  error
				}
				var hs [2]h
				for k := range 2 {
					rc, err := r.File[i+k].Open()
					if err != nil {
						clear()
						note(err, "open")
						hs[k].done = true
						continue
					}
					hs[k].rc = rc
				}
				buf := make([]byte, 1500)
				for n := 0; n < 2000 && (!hs[0].done || !hs[1].done); n++ {
					x := &hs[n%2]
					if x.done {
						continue
					}
					m, err := x.rc.Read(buf)
					x.got = append(x.got, buf[:m]...)
					if err == io.EOF { //nolint:errorlint
						x.done = true
						if w := es[i+n%2].Data; !bytes.Equal(x.got, w) {
							t.Failf("short-clean", "handles on %d and %d: file %d ends with io.EOF after %d of %d bytes", i, i+1, i+n%2, len(x.got), len(w))
						}
					} else if err != nil {
						clear()
						note(err, "read")
						x.done = true
					}
				}
				for k := range 2 {
					if hs[k].rc != nil {
						if !hs[k].done {
							t.Failf("no-progress", "no end")
						}
						if err := hs[k].rc.Close(); err != nil {
							clear()
							note(err, "close")
						}
					}
				}
			}
		}},
		{"partial reads, then in order", func(t *T, r *sevenzip.Reader, es []Entry, clear func(), note func(error, string)) {
			for i := range es {
				rc, err := r.File[i].Open()
				if err != nil {
					clear()
					note(err, "open")
					continue
				}
				buf := make([]byte, len(es[i].Data)/2+1)
				n, err := io.ReadFull(rc, buf)
				if !bytes.Equal(buf[:n], es[i].Data[:min(n, len(es[i].Data))]) && err == nil {
					t.Failf("content", "file %d: wrong first half", i)
				}
				if err != nil {
					clear()
					note(err, "read")
				}
				if err := rc.Close(); err != nil {
					clear()
					note(err, "close")
				}
			}
			for i := range es {
				c11One(t, r, es, i, 4096, false, clear, note)
			}
		}},
	}
}

var c11Hdr = []func(o *Opts){
	func(o *Opts) {},
	func(o *Opts) { o.EncodedCRC = true; o.Encode = func(h []byte) *Folder { return Chain(h, sLZMA()) } },
	func(o *Opts) { o.Encode = func(h []byte) *Folder { return Chain(h, sDeflate(), sAES(aesQuick)) } },
	func(o *Opts) { o.Encode = func(h []byte) *Folder { return Chain(h, sCopy()) } },
}

// c11Content mixes compressible, incompressible and code-like data.
func c11Content(n int) []byte {
	var b []byte
	for i := 0; len(b) < n; i++ {
		switch i % 3 {
		case 0:
			b = append(b, zooContent(700)...)
		case 1:
			b = append(b, pattern(3000, uint32(i))...)
		default:
			b = append(b, text(900, i)...)
		}
	}
	return b[:n]
}

func c11Archive(m namedFolder, hdr, n int) *Archive {
	a := &Archive{}
	d := c11Content(n)
	a.AddFolder(m.mk(d), []string{"x0", "x1", "x2"}, []int{n / 3, n / 2, n - n/3 - n/2})
	a.AddFolder(Chain(pattern(5000, 9), sCopy()), []string{"y0", "y1"}, []int{100, 4900})
	c11Hdr[hdr](&a.Opts)
	return a
}

func c11Size(m namedFolder, q bool) int {
	switch {
	case m.name == "ppmd":
		return 6000
	case strings.HasPrefix(m.name, "bzip2") || strings.Contains(m.name, "+bzip2"):
		return 6000
	}
	if q {
		return 9500
	}
	return 30000
}

func runC11(e *Env) {
	q := e.Quick()
	zoo := methodZoo()
	scripts := c11Scripts()
	kinds := faultKinds[:9]
	if !q {
		kinds = faultKinds
	}

	e.Group("read faults")
	for mi, m := range zoo {
		for hdr := range c11Hdr {
			if q && hdr > 0 && (mi+hdr)%5 != 0 {
				continue
			}
			for si, s := range scripts {
				if q && hdr > 0 && si > 1 {
					continue
				}
				e.Case(func() string {
					return fmt.Sprintf("%s, header form %d, script %q, every read failing", m.name, hdr, s.name)
				}, func(t *T) {
					a := c11Archive(m, hdr, c11Size(m, q))
					b := a.Build()
					want := names(0)
					_ = want
					pw := m.pw
					if hdr == 2 {
						pw = aesQuick.Password
					}
					run := func(fr *faultReaderAt, what string) {
						t.Eval(1)
						var errs []string
						clear := func() { fr.off = true }
						note := func(err error, w string) {
							errs = append(errs, w)
							if !fr.hit {
								t.Failf("spurious", "%s: %s fails without a fault: %v", what, w, err)
							}
						}
						r, err := sevenzip.NewReaderWithPassword(fr, int64(len(b.B)), pw)
						if err != nil {
							note(err, "archive")
							t.Outcome(m.name, hdr, s.name, "archive fails")
							return
						}
						if len(r.File) != len(a.Entries) {
							t.Failf("listing", "%s: %d entries instead of %d", what, len(r.File), len(a.Entries))
						}
						for i, x := range a.Entries {
							if r.File[i].Name != x.Name || r.File[i].UncompressedSize != x.Size {
								t.Failf("listing", "%s: entry %d", what, i)
							}
						}
						func() {
							defer func() {
								if p := recover(); p != nil {
									if f, ok := p.(failure); ok {
										f.detail = what + ": " + f.detail
										panic(f)
									}
									panic(p)
								}
							}()
							s.run(t, r, a.Entries, clear, note)
						}()
						// the fault is gone; what nobody has seen yet may be waiting in a buffer to be
						// reported once, but apart from that everything extracts
						fr.off = true
						pending := fr.hits - len(errs)
						for _, order := range [][]int{{0, 1, 2, 3, 4}, {4, 2, 3, 1, 0}, {1, 0, 4, 2, 3}} {
							for _, i := range order {
								g, err := extract(r.File[i])
								if err != nil && pending > 0 {
									pending--
									continue
								}
								if err != nil || !bytes.Equal(g, a.Entries[i].Data) {
									t.Failf("after-fault", "%s, failing then: %v; afterwards file %d: %v, %d of %d bytes, first difference at %d", what, errs, i, err, len(g), len(a.Entries[i].Data), diffAt(g, a.Entries[i].Data))
								}
							}
						}
						t.Outcome(m.name, hdr, s.name, errs)
					}
					base := &faultReaderAt{b: b.B, at: -1}
					run(base, "no fault")
					for k := 0; ; k++ {
						any := false
						for ki, kd := range kinds {
							for _, pers := range []bool{false, true} {
								if q && pers && ki%3 != k%3 {
									continue
								}
								fr := &faultReaderAt{b: b.B, at: k, err: kd.err, partial: kd.partial, persistent: pers}
								run(fr, fmt.Sprintf("read %d: %s, persistent %v", k, kd.name, pers))
								any = any || fr.hit
							}
						}
						if !any {
							t.Max("reads per script", int64(k))
							break
						}
					}
					t.Sample(fmt.Sprintf("%s/%d/%s", m.name, hdr, s.name))
				})
			}
		}
	}

	e.Group("fault regions")
	// any read touching one given byte of the packed data fails
	for _, m := range zoo {
		e.Case(func() string { return m.name + ": reads touching a given byte fail" }, func(t *T) {
			n := 700
			a := &Archive{}
			d := c11Content(n)
			a.AddFolder(m.mk(d), []string{"x0", "x1", "x2"}, []int{n / 3, n / 2, n - n/3 - n/2})
			b := a.Build()
			for pos := b.PackStart; pos < b.PackEnd; pos++ {
				for _, eof := range []bool{false, true} {
					t.Eval(1)
					hr := &holeReaderAt{b: b.B, from: int64(pos), to: int64(b.PackEnd), eof: eof}
					r, err := sevenzip.NewReaderWithPassword(hr, int64(len(b.B)), m.pw)
					if err != nil {
						// the search for the signature reads over the packed data, and tolerates an early end only
						if eof {
							t.Failf("open", "hole from %d: %v", pos, err)
						}
						hr.off = true
						if r, err = sevenzip.NewReaderWithPassword(hr, int64(len(b.B)), m.pw); err != nil {
							t.Failf("open", "%v", err)
						}
						hr.off = false
					}
					order := []int{0, 1, 2}
					if pos%2 == 1 {
						order = []int{2, 0, 1}
					}
					res := ""
					for _, i := range order {
						what := fmt.Sprintf("packed data unreadable from %d (EOF %v), file %d", pos, eof, i)
						rc, err := r.File[i].Open()
						if err != nil {
							res += "o"
							continue
						}
						if c11Read(t, rc, a.Entries[i].Data, 512, func() {}, what) != nil {
							res += "r"
						} else {
							res += "."
						}
						_ = rc.Close()
					}
					hr.off = true
					for pass := range 4 { // at most one unreported failure may wait in the buffer of each idle decoder
						ok := true
						for _, f := range r.File {
							_, err := extract(f)
							ok = ok && err == nil
						}
						if ok {
							break
						}
						if pass == 3 {
							t.Failf("after-fault", "packed data unreadable from %d (EOF %v): still failing after it has gone", pos, eof)
						}
					}
					wantAll(t, r, a.Entries)
					t.Outcome("hole", m.name, eof, res)
				}
			}
		})
	}

	e.Group("short packed streams")
	// the header records a packed stream that ends early
	for _, m := range zoo {
		for _, n := range []int{57, 700} {
			if n > 600 && q && len(m.name) > 12 {
				continue
			}
			e.Case(func() string { return fmt.Sprintf("%s, %d bytes: packed streams of every shorter length", m.name, n) }, func(t *T) {
				var d []byte
				if n == 57 {
					d = zooContent(n)
				} else {
					d = c11Content(n)
				}
				full := m.mk(d)
				sizes := []int{n / 3, n / 2, n - n/3 - n/2}
				for k := range full.Packs {
					for cut := 0; cut < len(full.Packs[k]); cut++ {
						f := *full
						f.Packs = append([][]byte{}, full.Packs...)
						f.Packs[k] = full.Packs[k][:cut]
						a := &Archive{}
						a.AddFolder(Chain(pattern(40, 9), sCopy()), []string{"y0", "y1"}, []int{10, 30})
						a.AddFolder(&f, []string{"x0", "x1", "x2"}, sizes)
						a.AddFolder(Chain(pattern(40, 10), sCopy()), []string{"z0", "z1"}, []int{10, 30})
						r, err := open(a.Build().B, m.pw)
						if err != nil {
							t.Failf("open", "%v", err)
						}
						t.Eval(1)
						order := []int{0, 1, 2, 3, 4, 5, 6}
						if cut%2 == 1 {
							order = []int{4, 6, 3, 0, 2, 5, 1}
						}
						res := ""
						for _, i := range order {
							what := fmt.Sprintf("packed stream %d has %d of %d bytes, file %d", k, cut, len(full.Packs[k]), i)
							rc, err := r.File[i].Open()
							if err == nil {
								err = c11Read(t, rc, a.Entries[i].Data, 64, func() {}, what)
								_ = rc.Close()
							}
							if err != nil && (i < 2 || i > 4) {
								t.Failf("other-stream", "%s: %v", what, err)
							}
							res += fmt.Sprint(err == nil)
						}
						t.Outcome("cut", m.name, n, res)
					}
				}
			})
		}
	}
	// the same under every filter, with the data split into files anywhere
	for _, st := range [][]Stage{{sBCJ()}, {sARM()}, {sARM64()}, {sPPC()}, {sSPARC()}, {sDelta(1)}, {sDelta(7)}, {sBCJ(), sDelta(3)}, {sDelta(2), sPPC()}, {sARM(), sSPARC()}, {sPPC(), sDeflate()}, {sBCJ(), sLZMA2()}} {
		for n := 4; n <= 26; n++ {
			e.Case(func() string {
				return fmt.Sprintf("%s, %d bytes: every shorter length, split into files anywhere", st[0].Name, n)
			}, func(t *T) {
				for _, d := range [][]byte{zooContent(n), bytes.Repeat([]byte{0x48, 0, 0, 0xeb}, 7)[:n], bytes.Repeat([]byte{0x94, 0, 0, 1, 0x94, 0x48, 1}, 7)[7-n%4:][:n], bytes.Repeat([]byte{0xe8, 0, 0, 0, 0}, 7)[5-n%5:][:n], bytes.Repeat([]byte{0x7f, 0xff, 1, 1}, 7)[:n]} {
					full := Chain(d, st...)
					for cut := range full.Packs[0] {
						for at := 1; at < n; at++ {
							f := *full
							f.Packs = [][]byte{full.Packs[0][:cut]}
							a := &Archive{}
							a.AddFolder(&f, []string{"a", "b"}, []int{at, n - at})
							r, err := open(a.Build().B, "")
							if err != nil {
								t.Failf("open", "%v", err)
							}
							t.Eval(1)
							res := ""
							for i := range 2 {
								what := fmt.Sprintf("%x split at %d, packed stream has %d of %d bytes, file %d", d, at, cut, len(full.Packs[0]), i)
								rc, err := r.File[i].Open()
								if err == nil {
									err = c11Read(t, rc, a.Entries[i].Data, 64, func() {}, what)
									_ = rc.Close()
								}
								res += fmt.Sprint(err == nil)
							}
							t.Outcome("split", n, cut, at, res)
						}
					}
				}
			})
		}
	}
	e.Group("truncated archives")
	for mi, m := range zoo {
		for hdr := range c11Hdr {
			if q && (mi+hdr)%4 != 0 {
				continue
			}
			e.Case(func() string { return fmt.Sprintf("%s, header form %d: archive cut short everywhere", m.name, hdr) }, func(t *T) {
				a := &Archive{}
				a.AddFolder(m.mk(zooContent(57)), []string{"x0", "x1", "x2"}, []int{7, 30, 20})
				c11Hdr[hdr](&a.Opts)
				b := a.Build()
				pw := m.pw
				if hdr == 2 {
					pw = aesQuick.Password
				}
				for n := 0; n < len(b.B); n++ {
					for v := range 2 {
						size := int64(n)
						if v == 1 {
							size = int64(len(b.B)) // the size claims more than there is
						}
						t.Eval(1)
						r, err := sevenzip.NewReaderWithPassword(bytes.NewReader(b.B[:n]), size, pw)
						if err != nil {
							t.Outcome("trunc", m.name, hdr, "fails")
							continue
						}
						// only possible if nothing that matters is gone
						if len(r.File) != len(a.Entries) {
							t.Failf("listing", "cut to %d of %d: opens with %d entries", n, len(b.B), len(r.File))
						}
						for i := range r.File {
							rc, err := r.File[i].Open()
							if err == nil {
								_ = c11Read(t, rc, a.Entries[i].Data, 64, func() {}, fmt.Sprintf("cut to %d of %d", n, len(b.B)))
								_ = rc.Close()
							}
						}
					}
				}
			})
		}
	}
}

// holeReaderAt cannot read a region.
type holeReaderAt struct {
	b        []byte
	from, to int64
	eof, off bool
}

func (h *holeReaderAt) ReadAt(p []byte, off int64) (int, error) {
	end := int64(len(h.b))
	err := io.EOF
	if !h.off && off < h.to && off+int64(len(p)) > h.from {
		end = max(off, h.from)
		if !h.eof {
			err = errInjected
		}
		n := 0
		if off < h.from {
			n = copy(p, h.b[off:h.from])
		}
		return n, err
	}
	if off >= end {
		return 0, err
	}
	n := copy(p, h.b[off:end])
	if n < len(p) {
		return n, err
	}
	return n, nil
}
