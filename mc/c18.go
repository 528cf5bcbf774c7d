package main

// C18: whatever was extracted before, a later extraction is not affected.

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"

	"github.com/bodgit/sevenzip"
)

func init() {
	register(&Check{
		ID:    "C18",
		Level: "model_checking",
		Rule: "all sequences of extractions to a bounded depth over archives that are sound, truncated, altered, or record more or less than there is, each completed, partial, abandoned, closed twice, cut off by a failing input " +
			"or only opened, for every method; all interleavings of overlapping ones; after each sequence, sound archives (alone, two at once, and through the reader used before) have to deliver their bytes, and damaged ones the " +
			"outcome of a process of their own; also after damage at every byte of a stream, every byte of a compressed header, every failing input operation, and over key derivations",
		Run:     runC18,
		Explain: "recycled decoders are dropped before each sequence and kept (no garbage collection) during it, so that the sequence alone determines them",
	})
}

// A child process extracts one archive and prints the outcome.
func init() {
	p := os.Getenv("VERIF_C18_FRESH")
	if p == "" {
		return
	}
	b, err := os.ReadFile(p)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	runtime.GOMAXPROCS(1)
	fmt.Print("outcome " + outcome18(b, os.Getenv("VERIF_C18_PW")))
	os.Exit(0)
}

// outcome18 is what extracting all of an archive yields.
func outcome18(b []byte, pw string) string {
	r, err := open(b, pw)
	if err != nil {
		return "open: " + err.Error()
	}
	return readAll18(r)
}

func readAll18(r *sevenzip.Reader) string {
	var s strings.Builder
	for i, f := range r.File {
		fmt.Fprintf(&s, "file %d: ", i)
		rc, err := f.Open()
		if err != nil {
			fmt.Fprintf(&s, "open: %v\n", err)
			continue
		}
		d, err := readBounded(rc, int(f.UncompressedSize))
		cerr := rc.Close()
		fmt.Fprintf(&s, "%d bytes %x, %v, close %v", len(d), sha256.Sum256(d), err, cerr)
		var re *sevenzip.ReadError
		if errors.As(err, &re) {
			fmt.Fprintf(&s, " encrypted=%v", re.Encrypted)
		}
		s.WriteByte('\n')
	}
	return s.String()
}

var fresh18n int

// fresh18 is the outcome in a process of its own.
func fresh18(b []byte, pw string) string {
	exe := must(os.Executable())
	dir := scratch
	if dir == "" {
		dir = os.TempDir()
	}
	fresh18n++
	p := filepath.Join(dir, fmt.Sprintf("c18-%d-%d.7z", os.Getpid(), fresh18n))
	must0(os.WriteFile(p, b, 0o600))
	defer os.Remove(p)
	c := exec.Command(exe)
	c.Env = append(os.Environ(), "VERIF_C18_FRESH="+p, "VERIF_C18_PW="+pw)
	out, err := c.CombinedOutput()
	o, ok := strings.CutPrefix(string(out), "outcome ")
	if err != nil || !ok {
		return fmt.Sprintf("process failed: %v %q", err, out[:min(len(out), 300)])
	}
	return o
}

// purge18 drops everything recycled.
func purge18() {
	runtime.GC()
	runtime.GC()
}

type subj18 struct {
	name    string
	b       []byte
	pw      string
	entries []Entry // nil if damaged
	n       int     // number of files
	want    string  // in a fresh process
	starts  []int   // packed streams
	end     int
}

// get is the expected outcome of the subject.
func (s *subj18) get() string {
	if s.want == "" {
		s.want = fresh18(s.b, s.pw)
	}
	return s.want
}

type meth18 struct {
	name  string
	pw    string
	mk    func(d []byte) *Folder
	large int
	subs  []*subj18
	quick bool // recycled decoders
}

func (m *meth18) data(n, seed int) []byte {
	if m.name == "ppmd" {
		return []byte(ppmdPlain[:min(n, len(ppmdPlain))])
	}
	b := append(pattern(n/3, uint32(seed)), text(n/3, seed)...)
	return append(b, zooContent(n)[:n-len(b)]...)
}

func split18(n int) []int { return []int{n / 2, n / 3, n - n/2 - n/3} }

// subjects builds the archives of a method: two sound ones come first.
func (m *meth18) subjects() []*subj18 {
	if m.subs != nil {
		return m.subs
	}
	add := func(name string, n, seed int, parts func(n int) []int, mod func(f *Folder), sound bool) {
		d := m.data(n, seed)
		f := m.mk(d)
		f.Packs = append([][]byte{}, f.Packs...)
		for i := range f.Packs {
			f.Packs[i] = bytes.Clone(f.Packs[i])
		}
		a := &Archive{}
		a.AddFolder(f, names(8), parts(len(d)))
		mod(f)
		bu := a.Build()
		s := &subj18{name: m.name + " " + name, b: bu.B, pw: m.pw, n: len(a.Entries), starts: bu.PackStarts, end: bu.PackEnd}
		if sound {
			s.entries = a.Entries
		}
		m.subs = append(m.subs, s)
	}
	none := func(*Folder) {}
	two := func(n int) []int { return []int{n / 4, n - n/4} }
	add("large", m.large, 1, split18, none, true)
	add("small", 31, 2, two, none, true)
	add("tiny", 1, 3, func(int) []int { return []int{1} }, none, true)
	add("large, cut in half", m.large, 4, split18, func(f *Folder) { f.Packs[0] = f.Packs[0][:len(f.Packs[0])/2] }, false)
	add("large, altered in the middle", m.large, 5, split18, func(f *Folder) { f.Packs[0][len(f.Packs[0])/2] ^= 0x55 }, false)
	add("small, altered at the start", 40, 6, two, func(f *Folder) { f.Packs[0][0] ^= 0xff }, false)
	add("small, altered", 40, 6, two, func(f *Folder) { f.Packs[0][len(f.Packs[0])*2/3] ^= 0x41 }, false)
	add("without packed data", 40, 8, two, func(f *Folder) { f.Packs[0] = nil }, false)
	add("large, followed by other data", m.large, 9, split18, func(f *Folder) { f.Packs[0] = append(f.Packs[0], pattern(200, 9)...) }, false)
	// less recorded than there is
	add("large, only half of it recorded", m.large, 10, split18, func(f *Folder) {
		h := uint64(m.large / 2)
		for i, s := range f.Sizes {
			if s == uint64(len(f.Data)) {
				f.Sizes[i] = h
			}
		}
		f.NumSub = 1
		f.CRC = nil
	}, false)
	return m.subs
}

var acts18 = []string{"full", "first exactly", "one byte", "no read", "half", "half, abandoned", "full, abandoned", "full, closed twice", "last only", "opened", "input fails soon", "input fails late", "fails, abandoned", "all open"}

// act18 performs one extraction of a history; open handles that are abandoned go to keep.
func act18(s *subj18, act int, keep *[]io.Closer) *sevenzip.Reader {
	fr := &faultReaderAt{b: s.b, at: 1 << 60, persistent: true}
	r, err := sevenzip.NewReaderWithPassword(fr, int64(len(s.b)), s.pw)
	if err != nil {
		return nil
	}
	drop := func(rc io.Closer) { *keep = append(*keep, rc) }
	switch act {
	case 9:
	case 0, 7, 6, 10, 11, 12:
		if act >= 10 {
			at := []int{1, 3, 2}[act-10]
			fr.at = fr.n + at
		}
		for _, f := range r.File {
			rc, err := f.Open()
			if err != nil {
				continue
			}
			_, err = readBounded(rc, int(f.UncompressedSize))
			if act == 12 || act == 6 {
				drop(rc)
				continue
			}
			_ = rc.Close()
			if act == 7 {
				_ = rc.Close()
			}
		}
		fr.off = true
	case 1, 2, 3, 4, 5:
		f := r.File[0]
		rc, err := f.Open()
		if err != nil {
			break
		}
		k := map[int]uint64{1: f.UncompressedSize, 2: 1, 3: 0, 4: f.UncompressedSize / 2, 5: f.UncompressedSize / 2}[act]
		_, _ = io.ReadFull(rc, make([]byte, k))
		if act == 5 {
			drop(rc)
			break
		}
		_ = rc.Close()
	case 8:
		_, _ = extract(r.File[len(r.File)-1])
	case 13:
		var rcs []io.ReadCloser
		for _, f := range r.File {
			if rc, err := f.Open(); err == nil {
				rcs = append(rcs, rc)
			}
		}
		for _, rc := range rcs {
			_, _ = io.ReadFull(rc, make([]byte, 3))
		}
		for _, rc := range rcs {
			_ = rc.Close()
		}
	}
	return r
}

// pair18 extracts two sound archives at once, alternating.
func pair18(t *T, what func() string, a, b *subj18) {
	type st struct {
		s    *subj18
		r    *sevenzip.Reader
		rc   io.ReadCloser
		i    int
		got  []byte
		done bool
	}
	var ss []*st
	for _, s := range []*subj18{a, b} {
		r, err := open(s.b, s.pw)
		if err != nil {
			t.Failf("sound", "%s: opening %s: %v", what(), s.name, err)
		}
		ss = append(ss, &st{s: s, r: r})
	}
	buf := make([]byte, 700)
	for !ss[0].done || !ss[1].done {
		for _, x := range ss {
			if x.done {
				continue
			}
			if x.rc == nil {
				rc, err := x.r.File[x.i].Open()
				if err != nil {
					t.Failf("sound", "%s: then two at once: opening file %d of %s: %v", what(), x.i, x.s.name, err)
				}
				x.rc, x.got = rc, nil
			}
			n, err := x.rc.Read(buf)
			x.got = append(x.got, buf[:n]...)
			want := x.s.entries[x.i].Data
			if err != nil && err != io.EOF { //nolint:errorlint
				t.Failf("sound", "%s: then two at once: reading file %d of %s: %v after %d of %d bytes", what(), x.i, x.s.name, err, len(x.got), len(want))
			}
			if err == io.EOF || len(x.got) > len(want) { //nolint:errorlint
				if !bytes.Equal(x.got, want) {
					t.Failf("sound", "%s: then two at once: file %d of %s has wrong content from offset %d on", what(), x.i, x.s.name, diffAt(x.got, want))
				}
				if err := x.rc.Close(); err != nil {
					t.Failf("sound", "%s: then two at once: closing file %d of %s: %v", what(), x.i, x.s.name, err)
				}
				x.rc = nil
				x.i++
				x.done = x.i == len(x.s.entries)
			}
		}
	}
}

// probe18 extracts a subject and compares.
func probe18(t *T, what func() string, s *subj18) {
	if got := outcome18(s.b, s.pw); got != s.get() {
		key := "damaged"
		if s.entries != nil {
			key = "sound"
		}
		t.Failf(key, "%s: then %s: got\n%s\nbut in a fresh process\n%s", what(), s.name, got, s.get())
	}
}

// sound18 checks a fresh process' outcome of sound subjects against their content.
func sound18(t *T, s *subj18) {
	var w strings.Builder
	for i, e := range s.entries {
		fmt.Fprintf(&w, "file %d: %d bytes %x, <nil>, close <nil>\n", i, len(e.Data), sha256.Sum256(e.Data))
	}
	if s.get() != w.String() {
		t.Failf("fresh", "%s in a fresh process: got\n%s\nwant\n%s", s.name, s.get(), w.String())
	}
}

func meths18(q bool) []*meth18 {
	var l []*meth18
	rec := map[string]bool{}
	ch := func(name string, recycled bool, st ...Stage) {
		l = append(l, &meth18{name: name, pw: aesQuick.Password, mk: func(d []byte) *Folder { return Chain(d, st...) }, quick: recycled})
		rec[name] = recycled
	}
	ch("deflate", true, sDeflate())
	ch("brotli", true, sBrotli(true))
	ch("plain brotli", true, sBrotli(false))
	ch("lz4", true, sLZ4())
	ch("zstd", true, sZstd())
	ch("deflate+deflate", true, sDeflate(), sDeflate())
	ch("zstd+aes", true, sZstd(), sAES(aesQuick))
	ch("bcj+lz4", true, sBCJ(), sLZ4())
	ch("copy", false, sCopy())
	ch("lzma", false, sLZMA())
	ch("lzma2+aes", false, sLZMA2(), sAES(aesQuick))
	ch("bzip2", false, sBzip2(900))
	ch("delta+arm64", false, sDelta(3), sARM64())
	l = append(l, &meth18{name: "bcj2", mk: func(d []byte) *Folder {
		return BCJ2Chain(d, func(int) bool { return true }, [4][]Stage{{sDeflate()}, {sLZMA()}, {sLZ4()}, {}})
	}, quick: true})
	ch("ppmd", false, sPPMD())
	for _, m := range l {
		m.large = 5000
		if m.quick {
			m.large = 70000
		}
		switch m.name {
		case "ppmd":
			m.large = min(len(ppmdPlain), 600)
		case "bcj2":
			m.large = 9000
		case "deflate+deflate":
			m.large = 20000
		}
	}
	return l
}

func runC18(e *Env) {
	q := e.Quick()
	ms := meths18(q)

	// seq runs a history, a function of the archives used.
	type step = step18
	seq := func(t *T, m *meth18, h []step, last func(what func() string, rs []*sevenzip.Reader)) {
		purge18()
		var keep []io.Closer
		var rs []*sevenzip.Reader
		for _, x := range h {
			rs = append(rs, act18(m.subjects()[x.sub], x.act, &keep))
		}
		what := func() string {
			var s []string
			for _, x := range h {
				s = append(s, fmt.Sprintf("%s: %s", m.subjects()[x.sub].name, acts18[x.act]))
			}
			return strings.Join(s, "; ")
		}
		last(what, rs)
		runtime.KeepAlive(keep)
		t.Eval(1)
		t.Trans(len(h) + 1)
	}
	noGC := func(f func(t *T)) func(t *T) {
		return func(t *T) {
			defer debug.SetGCPercent(debug.SetGCPercent(-1))
			f(t)
		}
	}
	again := func(t *T, m *meth18, what func() string, s *subj18, r *sevenzip.Reader) {
		if r == nil || s.entries == nil {
			return
		}
		if got := readAll18(r); got != s.get() {
			t.Failf("same-reader", "%s: then all of %s through the same reader: got\n%s\nwant\n%s", what(), s.name, got, s.get())
		}
	}

	e.Group("one extraction before")
	for _, m := range ms {
		for act := range acts18 {
			e.Case(func() string { return fmt.Sprintf("%s: any archive, %s", m.name, acts18[act]) }, noGC(func(t *T) {
				ss := m.subjects()
				for si, s := range ss {
					h := []step{{si, act}}
					for pi, p := range ss {
						if p.entries != nil {
							sound18(t, p)
						}
						seq(t, m, h, func(what func() string, _ []*sevenzip.Reader) { probe18(t, what, p) })
						t.Outcome(m.name, pi, p.get())
					}
					seq(t, m, h, func(what func() string, rs []*sevenzip.Reader) { again(t, m, what, s, rs[0]) })
					for _, pr := range [][2]int{{0, 0}, {0, 1}, {1, 0}, {1, 1}} {
						seq(t, m, h, func(what func() string, _ []*sevenzip.Reader) { pair18(t, what, ss[pr[0]], ss[pr[1]]) })
					}
				}
			}))
		}
	}

	e.Group("two and more extractions before")
	depth := 2
	for _, m := range ms {
		for a0 := range acts18 {
			for s0 := range 10 {
				e.Case(func() string { return fmt.Sprintf("%s: archive %d %s, then any", m.name, s0, acts18[a0]) }, noGC(func(t *T) {
					ss := m.subjects()
					var rec func(h []step)
					rec = func(h []step) {
						if len(h) == depth {
							if q && !m.quick {
								seq(t, m, h, func(what func() string, _ []*sevenzip.Reader) { probe18(t, what, ss[1]) })
								return
							}
							seq(t, m, h, func(what func() string, rs []*sevenzip.Reader) {
								pair18(t, what, ss[1], ss[0])
								again(t, m, what, ss[h[0].sub], rs[0])
							})
							if !q {
								for _, p := range ss {
									seq(t, m, h, func(what func() string, _ []*sevenzip.Reader) { probe18(t, what, p) })
								}
							}
							seq(t, m, h, func(what func() string, _ []*sevenzip.Reader) { probe18(t, what, ss[4]) })
							return
						}
						for si := range ss {
							for a := range acts18 {
								rec(append(h[:len(h):len(h)], step{si, a}))
							}
						}
					}
					rec([]step{{s0, a0}})
					t.State(uint64(s0)<<8 | uint64(a0)<<16 | hash18(m.name)<<24)
				}))
			}
		}
	}

	e.Group("methods in turn")
	// any two extractions, then one of each recycled method
	few := []step{{0, 0}, {0, 4}, {0, 5}, {3, 0}, {4, 0}, {5, 0}, {8, 1}, {0, 11}}
	for _, m1 := range ms {
		for _, m2 := range ms {
			if m1 == m2 || !m1.quick && !m2.quick {
				continue
			}
			e.Case(func() string { return fmt.Sprintf("%s, then %s, then any", m1.name, m2.name) }, noGC(func(t *T) {
				for _, x := range few {
					for _, y := range few {
						purge18()
						var keep []io.Closer
						act18(m1.subjects()[x.sub], x.act, &keep)
						act18(m2.subjects()[y.sub], y.act, &keep)
						what := func() string {
							return fmt.Sprintf("%s: %s; %s: %s", m1.subjects()[x.sub].name, acts18[x.act], m2.subjects()[y.sub].name, acts18[y.act])
						}
						pair18(t, what, m1.subjects()[1], m2.subjects()[1])
						pair18(t, what, m2.subjects()[0], m1.subjects()[0])
						for _, m3 := range ms {
							if m3.quick {
								probe18(t, what, m3.subjects()[1])
								probe18(t, what, m3.subjects()[2])
							}
						}
						runtime.KeepAlive(keep)
						t.Eval(1)
						t.Trans(4)
					}
				}
			}))
		}
	}

	e.Group("variants of one method")
	// the same decoder fed in different ways: every archive in any way, then every archive of the variant, and every beginning of its packed data
	fam := func(m *meth18) string {
		for _, f := range []string{"brotli", "deflate", "lz4", "zstd", "lzma"} {
			if strings.Contains(m.name, f) {
				return f
			}
		}
		return m.name
	}
	for _, m1 := range ms {
		for _, m2 := range ms {
			if fam(m1) != fam(m2) && m1.name != "bcj2" || !m1.quick || !m2.quick {
				continue
			}
			e.Case(func() string { return fmt.Sprintf("any archive of %s, then any of %s", m1.name, m2.name) }, noGC(func(t *T) {
				probes := m2.subjects()
				for _, k := range []int{1, 2} {
					s := m2.subjects()[k]
					n := s.end - s.starts[0]
					for c := 0; c < n; c++ {
						if q && c > 20 && c < n-4 {
							continue
						}
						bad := *s
						bad.name, bad.entries, bad.want = fmt.Sprintf("%s with its packed data after %d bytes zeroed", s.name, c), nil, ""
						bad.b = bytes.Clone(s.b)
						for i := s.starts[0] + c; i < s.end; i++ {
							bad.b[i] = 0
						}
						probes = append(probes[:len(probes):len(probes)], &bad)
					}
				}
				for c := range 24 {
					d := m2.data(31, 2)
					f := m2.mk(d)
					f.Packs = append([][]byte{}, f.Packs...)
					if c >= len(f.Packs[0]) {
						break
					}
					f.Packs[0] = f.Packs[0][:c]
					a := &Archive{}
					a.AddFolder(f, names(1), []int{31})
					probes = append(probes[:len(probes):len(probes)], &subj18{name: fmt.Sprintf("%s of which %d bytes of packed data are left", m2.name, c), b: a.Build().B, pw: m2.pw, n: 1})
				}
				for si := range m1.subjects() {
					for _, act := range []int{0, 2, 5, 10} {
						if q && si > 1 && act != 0 {
							continue
						}
						for _, p := range probes {
							seq(t, m1, []step18{{si, act}}, func(what func() string, _ []*sevenzip.Reader) { probe18(t, what, p) })
							t.OutcomeHash(hash18(p.get()))
						}
					}
				}
			}))
		}
	}

	e.Group("overlapping extractions")
	odepth := 5
	if !q {
		odepth = 6
	}
	for _, m := range ms {
		if q && !m.quick {
			continue
		}
		// handles of three archives, two of them sound
		type op struct {
			kind byte
			i    int
		}
		subs := []int{1, 0, 6}
		odepth := odepth
		if q && (m.name == "brotli" || strings.Contains(m.name, "+") || m.name == "bcj2") {
			odepth--
		}
		kinds := []byte("1hac") // one byte, half of the file, all of it, close
		var firsts [][]op
		for i := range subs {
			for j := range subs {
				firsts = append(firsts, []op{{'o', i}, {'o', j}})
			}
			for _, k := range kinds {
				firsts = append(firsts, []op{{'o', i}, {k, 0}})
			}
		}
		for _, px := range firsts {
			e.Case(func() string { return fmt.Sprintf("%s: all interleavings starting with %v", m.name, px) }, noGC(func(t *T) {
				ss := m.subjects()
				run := func(h []op) {
					purge18()
					type hd struct {
						s    *subj18
						rc   io.ReadCloser
						got  int
						want []byte
					}
					var hs []*hd
					what := func() string {
						var s []string
						for _, o := range h {
							if o.kind == 'o' {
								s = append(s, "open "+ss[subs[o.i]].name)
							} else {
								s = append(s, fmt.Sprintf("%s handle %d", map[byte]string{'1': "read 1 byte of", 'h': "read half of", 'a': "read all of", 'c': "close"}[o.kind], o.i))
							}
						}
						return strings.Join(s, "; ")
					}
					for _, o := range h {
						if o.kind == 'o' {
							s := ss[subs[o.i]]
							x := &hd{s: s}
							hs = append(hs, x)
							r, err := open(s.b, s.pw)
							if err == nil {
								x.rc, err = r.File[0].Open()
							}
							if err != nil {
								if s.entries != nil {
									t.Failf("sound", "%s: opening: %v", what(), err)
								}
								x.rc = nil
							}
							if s.entries != nil {
								x.want = s.entries[0].Data
							}
							continue
						}
						x := hs[o.i]
						if x.rc == nil {
							continue
						}
						switch o.kind {
						case 'c':
							if err := x.rc.Close(); err != nil && x.s.entries != nil {
								t.Failf("sound", "%s: closing: %v", what(), err)
							}
							x.rc = nil
						default:
							k := 1
							if o.kind == 'h' {
								k = max(1, len(x.want)/2)
							} else if o.kind == 'a' {
								k = 80000
							}
							b := make([]byte, k)
							n, err := io.ReadFull(x.rc, b)
							if x.s.entries == nil {
								continue
							}
							w := x.want[x.got:min(x.got+k, len(x.want))]
							if !bytes.Equal(b[:n], w) || err != nil && err != io.EOF && err != io.ErrUnexpectedEOF { //nolint:errorlint
								t.Failf("sound", "%s: reading handle %d gives %d bytes and %v, want %d, different from %d on", what(), o.i, n, err, len(w), diffAt(b[:n], w))
							}
							x.got += n
						}
					}
					for _, x := range hs {
						if x.rc != nil {
							_ = x.rc.Close()
						}
					}
					pair18(t, what, ss[1], ss[0])
					t.Eval(1)
					t.Trans(len(h))
				}
				var rec func(h []op, live []int, n int)
				rec = func(h []op, live []int, n int) {
					if len(h) == odepth {
						run(h)
						return
					}
					if n < 3 {
						for i := range subs {
							rec(append(h[:len(h):len(h)], op{'o', i}), append(live[:len(live):len(live)], n), n+1)
						}
					}
					for li, l := range live {
						for _, k := range kinds {
							lv := live
							if k == 'c' {
								lv = append(append([]int{}, live[:li]...), live[li+1:]...)
							}
							rec(append(h[:len(h):len(h)], op{k, l}), lv, n)
						}
					}
				}
				var live []int
				n := 0
				for _, o := range px {
					if o.kind == 'o' {
						live = append(live, n)
						n++
					} else if o.kind == 'c' {
						live = nil
					}
				}
				rec(px, live, n)
			}))
		}
	}

	e.Group("damage at every byte")
	xors := []byte{0x01, 0x80, 0xff}
	if !q {
		xors = []byte{1, 2, 4, 8, 16, 32, 64, 128, 255, 0x0f}
	}
	for _, m := range ms {
		e.Case(func() string { return m.name + ": small archive altered at every byte, then sound ones" }, noGC(func(t *T) {
			ss := m.subjects()
			for i := ss[1].starts[0]; i < ss[1].end; i++ {
				for _, x := range xors {
					bad := *ss[1]
					bad.b = bytes.Clone(bad.b)
					bad.b[i] ^= x
					for _, act := range []int{0, 2, 4, 6, 13} {
						purge18()
						var keep []io.Closer
						act18(&bad, act, &keep)
						what := func() string { return fmt.Sprintf("small archive with byte %d altered by %02x, %s", i, x, acts18[act]) }
						pair18(t, what, ss[1], ss[1])
						if act == 0 {
							purge18()
							act18(&bad, act, &keep)
							probe18(t, what, ss[0])
						}
						runtime.KeepAlive(keep)
						t.Eval(1)
						t.Trans(2)
					}
				}
			}
		}))
		e.Case(func() string { return m.name + ": extractions, then a small archive altered at every byte" }, noGC(func(t *T) {
			ss := m.subjects()
			inc := 1
			if q {
				inc = 3
			}
			for i := ss[1].starts[0]; i < ss[1].end; i += inc {
				bad := *ss[1]
				bad.name, bad.entries, bad.want = fmt.Sprintf("%s with byte %d altered", bad.name, i), nil, ""
				bad.b = bytes.Clone(bad.b)
				bad.b[i] ^= 0x80
				for _, x := range few {
					seq(t, m, []step18{{x.sub, x.act}}, func(what func() string, _ []*sevenzip.Reader) { probe18(t, what, &bad) })
				}
				t.OutcomeHash(hash18(bad.get()))
			}
		}))
		// the input fails at every call, delivering part of it or nothing
		e.Case(func() string { return m.name + ": input failing at every call" }, noGC(func(t *T) {
			ss := m.subjects()
			for si := range 2 {
				for _, partial := range []int{0, 1, 100} {
					for _, persistent := range []bool{true, false} {
						for n := 0; n < 60; n++ {
							purge18()
							s := ss[si]
							fr := &faultReaderAt{b: s.b, at: 1 << 60, persistent: persistent, partial: partial}
							r, err := sevenzip.NewReaderWithPassword(fr, int64(len(s.b)), s.pw)
							if err != nil {
								t.Failf("sound", "%s: %v", s.name, err)
							}
							fr.at = fr.n + n
							_ = readAll18(r)
							hit := fr.hit
							fr.off = true
							what := func() string {
								return fmt.Sprintf("%s, input fails at call %d (persistent %v, with %d bytes)", s.name, n, persistent, partial)
							}
							again(t, m, what, s, r)
							pair18(t, what, ss[0], ss[1])
							t.Eval(1)
							t.Trans(3)
							if !hit {
								break
							}
						}
					}
				}
			}
		}))
	}

	e.Group("compressed headers")
	for _, m := range ms {
		if m.name == "ppmd" {
			continue
		}
		for _, crc := range []bool{true, false} {
			e.Case(func() string {
				return fmt.Sprintf("%s: header (CRC %v) altered at every byte, then a sound one", m.name, crc)
			}, noGC(func(t *T) {
				ss := m.subjects()
				a := &Archive{}
				a.AddFolder(m.mk(m.data(31, 7)), names(2), []int{10, 21})
				a.Opts.Encode, a.Opts.EncodedCRC = m.mk, crc
				bu := a.Build()
				good := &subj18{name: m.name + " with a compressed header", b: bu.B, pw: m.pw, entries: a.Entries}
				sound18(t, good)
				try := func(b []byte, what func() string) {
					purge18()
					_ = outcome18(b, m.pw)
					probe18(t, what, good)
					purge18()
					for range 3 {
						_, _ = open(b, m.pw)
					}
					pair18(t, what, ss[1], good)
					t.Eval(1)
					t.Trans(2)
				}
				for i := bu.EncStart; i < bu.EncEnd; i++ {
					for _, x := range xors {
						b := bytes.Clone(bu.B)
						b[i] ^= x
						try(b, func() string {
							return fmt.Sprintf("header with byte %d of %d altered by %02x", i-bu.EncStart, bu.EncEnd-bu.EncStart, x)
						})
					}
				}
				// cut short, and with more recorded than there is
				enc := m.mk
				for n := 0; n < bu.EncEnd-bu.EncStart; n++ {
					a.Opts.Encode = func(h []byte) *Folder {
						f := enc(h)
						f.Packs = append([][]byte{}, f.Packs...)
						f.Packs[0] = f.Packs[0][:min(n, len(f.Packs[0]))]
						return f
					}
					try(a.Build().B, func() string { return fmt.Sprintf("header cut short to %d bytes", n) })
				}
			}))
		}
	}

	e.Group("keys")
	// archives of different keys in every order, with right and wrong passwords
	type kp struct {
		pw   string
		cyc  int
		salt int
		try  string
	}
	var kps []kp
	for _, pw := range []string{"a", "b", "ab"} {
		for _, cyc := range []int{0, 1, 0x3f} {
			for salt := range 2 {
				for _, tr := range []string{"a", "b", "ab"} {
					kps = append(kps, kp{pw, cyc, salt, tr})
				}
			}
		}
	}
	kdepth := 2
	if !q {
		kdepth = 3
	}
	evals := 0
	for ki, k0 := range kps {
		e.Case(func() string { return fmt.Sprintf("keys: all sequences of %d starting with %+v", kdepth, k0) }, func(t *T) {
			d := pattern(40, 3)
			var rec func(h []kp)
			rec = func(h []kp) {
				if len(h) < kdepth {
					for _, k := range kps {
						rec(append(h[:len(h):len(h)], k))
					}
					return
				}
				evals++
				// a salt never used before, as keys cannot be purged
				salts := [2][]byte{binary.BigEndian.AppendUint64([]byte{byte(ki)}, uint64(evals)), nil}
				salts[1] = append(bytes.Clone(salts[0]), 'a', 0)
				h = append(h[:len(h):len(h)], kp{h[0].pw, h[0].cyc, h[0].salt, h[0].pw})
				for i, k := range h {
					p := AESParams{Password: k.pw, Cycles: k.cyc, Salt: salts[k.salt], IV: []byte{1, 2, 3}}
					a := &Archive{}
					a.AddFolder(Chain(d, sAES(p)), names(1), []int{40})
					r, err := open(a.Build().B, k.try)
					if err != nil {
						t.Failf("keys", "%+v: step %d: %v", h, i, err)
					}
					got, err := extract(r.File[0])
					same := bytes.Equal(aesKey(p), aesKey(AESParams{Password: k.try, Cycles: p.Cycles, Salt: p.Salt}))
					if same && (err != nil || !bytes.Equal(got, d)) {
						t.Failf("keys", "%+v: step %d: right password, but %v", h, i, err)
					}
					if !same && err == nil && bytes.Equal(got, d) {
						t.Failf("keys", "%+v: step %d: the wrong password works", h, i)
					}
				}
				t.Eval(1)
				t.Trans(len(h))
			}
			rec([]kp{k0})
		})
	}

	e.Group("decoding in the background")
	for _, m := range ms {
		if !strings.Contains(m.name, "zstd") {
			continue
		}
		for a0 := range acts18 {
			e.Case(func() string { return fmt.Sprintf("%s with several CPUs: any archive %s", m.name, acts18[a0]) }, noGC(func(t *T) {
				runtime.GOMAXPROCS(4)
				defer runtime.GOMAXPROCS(1)
				ss := m.subjects()
				for si, s := range ss {
					for range 2 {
						for _, x := range few {
							seq(t, m, []step{{si, a0}, x}, func(what func() string, rs []*sevenzip.Reader) {
								pair18(t, what, ss[1], ss[0])
								again(t, m, what, s, rs[0])
							})
						}
					}
				}
			}))
		}
	}
}

type step18 = struct{ sub, act int }

func hash18(s string) uint64 {
	h := sha256.Sum256([]byte(s))
	return binary.LittleEndian.Uint64(h[:])
}
