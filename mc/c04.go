//go:build sched

package main

// C04: under every interleaving, up to a number of preemptions, each goroutine observes what it would observe alone.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	iofs "io/fs"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/bodgit/sevenzip"
	verifsync "verif.local/sched/vsync"
)

func init() {
	register(&Check{
		ID:    "C04",
		Level: "model_checking",
		Rule: "all interleavings, up to a number of preemptions, of two or three goroutines that open, read, close, look up and list the files of one archive, or of several archives, at every operation of package sync " +
			"(mutexes, once values, maps, recycled decoders, the key cache), every read of the input and every call of the API; each schedule runs under the race detector, which is blind to the scheduler's own synchronisation",
		Run:     runC04,
		Configs: []int{1, 2},
		Hang:    300 * time.Second,
		Assumptions: []string{"memory accesses that are ordered by the program's own synchronisation need no scheduling points of their own (races are looked for in every schedule)",
			"sync.Pool is replaced by one that never drops anything, the last one put first; goroutines started inside of third party decoders are not scheduled"},
		Explain: "package sync and sync/atomic of the module and of its LRU cache are replaced through a build overlay",
	})
}

// ptReader is the input, each read of it is a scheduling point.
type ptReader struct{ b []byte }

func (p *ptReader) ReadAt(buf []byte, off int64) (int, error) {
	verifsync.Point()
	if off >= int64(len(p.b)) {
		return 0, io.EOF
	}
	n := copy(buf, p.b[off:])
	if n < len(buf) {
		return n, io.EOF
	}
	return n, nil
}

// arch04 is an archive with several files in one stream, one in another, an empty file and a directory.
type arch04 struct {
	name  string
	b     []byte
	pw    string
	ents  []Entry
	names []string
	bad   bool
}

func mkArch04(name, pw string, mk func(d []byte) *Folder, seed int, lens ...int) *arch04 {
	total := 0
	for _, n := range lens {
		total += n
	}
	d := zooContent(total + seed)[seed:]
	if strings.Contains(name, "ppmd") {
		d = []byte(ppmdPlain[:total])
	}
	a := &Archive{}
	nm := []string{"x/a", "x/b", "c", "x/y/d", "e"}[:len(lens)]
	a.AddFolder(mk(d), nm, lens)
	a.Entries = append(a.Entries, Entry{Name: "x/empty", EmptyFile: true}, Entry{Name: "z", Attr: u32p04(0x10)})
	if second := zooContent(11 + seed)[seed:]; strings.Contains(name, "ppmd") {
		a.AddFolder(Chain(second, sCopy()), []string{"second"}, []int{11})
	} else {
		a.AddFolder(mk(second), []string{"second"}, []int{11})
	}
	bu := a.Build()
	return &arch04{name: name, b: bu.B, pw: pw, ents: a.Entries}
}

func (a *arch04) open() (*sevenzip.Reader, error) {
	return sevenzip.NewReaderWithPassword(&ptReader{a.b}, int64(len(a.b)), a.pw)
}

// log04 collects what a goroutine observes.
type log04 struct{ s []byte }

func (l *log04) add(s ...string) {
	for _, x := range s {
		l.s = append(l.s, x...)
	}
}

func (l *log04) err(op string, err error) {
	if err == nil {
		return
	}
	enc := ""
	var re *sevenzip.ReadError
	if errors.As(err, &re) && re.Encrypted {
		enc = " (encryption)"
	}
	l.add(op, ": ", err.Error(), enc, "\n")
}

// want04 logs what differs from the expected bytes.
func (l *log04) want(op string, got, want []byte) {
	if !bytes.Equal(got, want) {
		l.add(op, ": got ", strconv.Quote(string(got)), ", want ", strconv.Quote(string(want)), "\n")
	}
}

// h04 is what a script works on.
type h04 struct {
	a *arch04
	r *sevenzip.Reader
	*log04
}

func (h *h04) openFile(i int) io.ReadCloser {
	verifsync.Point()
	rc, err := h.r.File[i].Open()
	h.err("open "+strconv.Itoa(i), err)
	return rc
}

// read reads n bytes that follow the first off ones of file i; all of it and the end if n < 0.
func (h *h04) read(rc io.ReadCloser, i, off, n int) {
	if rc == nil {
		return
	}
	d := h.a.ents[i].Data[off:]
	eof := n < 0
	if eof {
		n = len(d)
	}
	n = min(n, len(d))
	buf := make([]byte, n)
	verifsync.Point()
	k, err := io.ReadFull(rc, buf)
	if n > 0 {
		h.err("read "+strconv.Itoa(i), err)
	}
	if h.a.bad {
		h.add("read ", strconv.Itoa(i), ": ", strconv.Quote(string(buf[:k])), "\n")
	} else {
		h.want("read "+strconv.Itoa(i), buf[:k], d[:n])
	}
	if eof && err == nil {
		verifsync.Point()
		k, err := rc.Read(make([]byte, 3))
		if k != 0 || err != io.EOF { //nolint:errorlint
			h.add("read at the end: ", strconv.Itoa(k), " bytes\n")
			h.err("read at the end", err)
		}
	}
}

func (h *h04) close(rc io.ReadCloser) {
	if rc == nil {
		return
	}
	verifsync.Point()
	h.err("close", rc.Close())
}

func (h *h04) file(i, n int) {
	rc := h.openFile(i)
	h.read(rc, i, 0, n)
	h.close(rc)
}

// script04 is what a goroutine does with a shared reader.
type script04 struct {
	name string
	f    func(h *h04)
}

func scripts04() []script04 {
	return []script04{
		{"all of file 0", func(h *h04) { h.file(0, -1) }},
		{"all of file 1", func(h *h04) { h.file(1, -1) }},
		{"half of file 0, then all of file 1", func(h *h04) { h.file(0, 3); h.file(1, -1) }},
		{"nothing of file 1, then all of file 2", func(h *h04) { h.file(1, 0); h.file(2, -1) }},
		{"half of file 1, then all of it", func(h *h04) { h.file(1, 2); h.file(1, -1) }},
		{"files 0 and 2 at once", func(h *h04) {
			a, b := h.openFile(0), h.openFile(2)
			h.read(a, 0, 0, 2)
			h.read(b, 2, 0, 2)
			h.close(a)
			h.read(b, 2, 2, -1)
			h.close(b)
		}},
		{"part of file 2, closed twice, then file 0", func(h *h04) {
			rc := h.openFile(2)
			h.read(rc, 2, 0, 1)
			h.close(rc)
			h.close(rc)
			h.file(0, -1)
		}},
		{"part of file 1, abandoned, then file 2", func(h *h04) {
			rc := h.openFile(1)
			h.read(rc, 1, 0, 1)
			h.file(2, -1)
		}},
		{"the second stream, then file 1", func(h *h04) { h.file(len(h.a.ents)-1, -1); h.file(1, -1) }},
		{"all in order", func(h *h04) {
			for i := range h.a.ents {
				h.file(i, -1)
			}
		}},
	}
}

// fsScripts04 use the filesystem view.
func fsScripts04() []script04 {
	ls := func(h *h04, dir, want string) {
		verifsync.Point()
		es, err := iofs.ReadDir(h.r, dir)
		h.err("list "+dir, err)
		var s []string
		for _, e := range es {
			n := e.Name()
			if e.IsDir() {
				n += "/"
			}
			s = append(s, n)
		}
		h.want("list "+dir, []byte(strings.Join(s, " ")), []byte(want))
	}
	rf := func(h *h04, name string) {
		verifsync.Point()
		b, err := iofs.ReadFile(h.r, name)
		h.err("read "+name, err)
		for _, e := range h.a.ents {
			if e.Name == name {
				h.want("read "+name, b, e.Data)
			}
		}
	}
	top := "c second x/ z/"
	return []script04{
		{"list the root", func(h *h04) { ls(h, ".", top) }},
		{"list x and the root", func(h *h04) { ls(h, "x", "a b empty y/"); ls(h, ".", top) }},
		{"read x/b", func(h *h04) { rf(h, "x/b") }},
		{"read x/y/d, list x/y", func(h *h04) { rf(h, "x/y/d"); ls(h, "x/y", "d") }},
		{"open what is not there", func(h *h04) {
			verifsync.Point()
			_, err := h.r.Open("x/nothing")
			if !errors.Is(err, iofs.ErrNotExist) {
				h.add("open x/nothing succeeds\n")
			}
			verifsync.Point()
			_, err = h.r.Open("../x")
			if !errors.Is(err, iofs.ErrInvalid) {
				h.add("open ../x succeeds\n")
			}
		}},
		{"walk", func(h *h04) {
			var s []string
			err := iofs.WalkDir(h.r, ".", func(p string, _ iofs.DirEntry, err error) error {
				verifsync.Point()
				s = append(s, p)
				return err
			})
			h.err("walk", err)
			h.want("walk", []byte(strings.Join(s, " ")), []byte(". c second x x/a x/b x/empty x/y x/y/d z"))
		}},
		{"list x in two steps", func(h *h04) {
			verifsync.Point()
			f, err := h.r.Open("x")
			h.err("open x", err)
			if d, ok := f.(iofs.ReadDirFile); ok {
				for _, want := range []string{"a b", "empty y"} {
					verifsync.Point()
					es, err := d.ReadDir(2)
					h.err("readdir", err)
					var s []string
					for _, e := range es {
						s = append(s, e.Name())
						fi, err := e.Info()
						h.err("info", err)
						if fi.Name() != e.Name() {
							h.add("info has the name ", fi.Name(), "\n")
						}
					}
					h.want("readdir", []byte(strings.Join(s, " ")), []byte(want))
				}
			}
			h.close(f)
		}},
		{"all in order, by index", func(h *h04) {
			for i := range h.a.ents {
				h.file(i, -1)
			}
		}},
	}
}

// explore04 runs threads under all schedules with at most bound preemptions; mk makes a fresh set of threads and what checks
// them afterwards.
func explore04(t *T, bound int, mk func() ([]func(), func() string)) (schedules int) {
	verifsync.Start()
	var prefix []int
	for {
		fs, check := mk()
		res := verifsync.Run(prefix, fs...)
		schedules++
		t.Eval(1)
		t.Trace(1)
		t.Trans(res.Points)
		t.Max("points of a schedule", int64(res.Points))
		h := uint64(14695981039346656037)
		for _, d := range res.Decisions {
			h = (h ^ uint64(d.Chosen) ^ uint64(d.N)<<8) * 1099511628211
		}
		t.State(h ^ uint64(t.e.idx)<<40)
		if res.Diverged {
			t.Max("schedules that diverged", 1)
		}
		if res.Outside {
			t.Max("schedules with waiting the scheduler does not control", 1)
		}
		sched := func() string {
			var s strings.Builder
			for _, d := range res.Decisions {
				fmt.Fprintf(&s, "%d", d.Chosen)
			}
			return "schedule " + s.String()
		}
		if len(res.Panics) > 0 {
			t.Failf("panic", "%s: %s", sched(), clip(res.Panics[0], 3000))
		}
		if res.Deadlock {
			t.Failf("deadlock", "%s: the goroutines wait forever", sched())
		}
		if d := check(); d != "" {
			t.Failf("observation", "%s: %s", sched(), d)
		}
		// next in lexicographic order
		cost := make([]int, len(res.Decisions)+1)
		for i, d := range res.Decisions {
			cost[i+1] = cost[i]
			if d.Preempt && d.Chosen > 0 {
				cost[i+1]++
			}
		}
		next := -1
		for i := len(res.Decisions) - 1; i >= 0; i-- {
			d := res.Decisions[i]
			c := cost[i]
			if d.Preempt {
				c++
			}
			if d.Chosen+1 < d.N && c <= bound {
				next = i
				break
			}
		}
		if next < 0 {
			t.Max("schedules of a scenario", int64(schedules))
			return schedules
		}
		p := make([]int, next+1)
		for i := range next {
			p[i] = res.Decisions[i].Chosen
		}
		p[next] = res.Decisions[next].Chosen + 1
		prefix = p
		if schedules&63 == 0 {
			t.e.journal04()
			if time.Now().After(t.e.deadline) {
				t.e.res.Capped = true
				return schedules
			}
		}
	}
}

// journal04 tells the parent that there is progress within a case.
func (e *Env) journal04() {
	if e.journal != nil {
		e.journal[8]++
	}
}

// shared04 explores scripts that share one reader of the archive.
func shared04(t *T, bound int, a *arch04, ss ...script04) {
	solo := make([]string, len(ss))
	for i, s := range ss {
		verifsync.Reset()
		r, err := a.open()
		if err != nil {
			t.Failf("open", "%s: %v", a.name, err)
		}
		l := &log04{}
		s.f(&h04{a, r, l})
		solo[i] = string(l.s)
		if solo[i] != "" && !a.bad {
			t.Failf("alone", "%s, alone: %s", s.name, solo[i])
		}
	}
	explore04(t, bound, func() ([]func(), func() string) {
		r, err := a.open()
		if err != nil {
			t.Failf("open", "%s: %v", a.name, err)
		}
		ls := make([]*log04, len(ss))
		fs := make([]func(), len(ss))
		for i, s := range ss {
			ls[i] = &log04{}
			fs[i] = func() { s.f(&h04{a, r, ls[i]}) }
		}
		return fs, func() string {
			for i, l := range ls {
				if string(l.s) != solo[i] {
					return fmt.Sprintf("goroutine %d (%s) observes:\n%s\nalone it observes:\n%s", i, ss[i].name, l.s, solo[i])
				}
			}
			return ""
		}
	})
}

// own04 is work on an archive of its own: opened and extracted.
func own04(a *arch04) func(l *log04) {
	return func(l *log04) {
		verifsync.Point()
		r, err := a.open()
		if err != nil {
			l.err("open "+a.name, err)
			return
		}
		h := &h04{a, r, l}
		for i := range a.ents {
			h.file(i, -1)
		}
	}
}

// partial04 opens an archive of its own, extracts part of a file, and then another one.
func partial04(a *arch04) func(l *log04) {
	return func(l *log04) {
		verifsync.Point()
		r, err := a.open()
		if err != nil {
			l.err("open "+a.name, err)
			return
		}
		h := &h04{a, r, l}
		h.file(1, 1)
		h.file(0, -1)
	}
}

// separate04 explores goroutines that work on archives of their own.
func separate04(t *T, bound int, what string, bad bool, fs ...func(l *log04)) {
	solo := make([]string, len(fs))
	for i, f := range fs {
		verifsync.Reset()
		l := &log04{}
		f(l)
		solo[i] = string(l.s)
		if solo[i] != "" && !bad {
			t.Failf("alone", "%s: goroutine %d, alone: %s", what, i, solo[i])
		}
	}
	explore04(t, bound, func() ([]func(), func() string) {
		ls := make([]*log04, len(fs))
		th := make([]func(), len(fs))
		for i, f := range fs {
			ls[i] = &log04{}
			th[i] = func() { f(ls[i]) }
		}
		return th, func() string {
			for i, l := range ls {
				if string(l.s) != solo[i] {
					return fmt.Sprintf("%s: goroutine %d observes:\n%s\nalone it observes:\n%s", what, i, l.s, solo[i])
				}
			}
			return ""
		}
	})
}

type meth04 struct {
	name string
	pw   string
	mk   func(d []byte) *Folder
}

func meths04() []meth04 {
	var l []meth04
	ch := func(name string, st ...Stage) {
		pw := ""
		if strings.Contains(name, "aes") {
			pw = aesQuick.Password
		}
		l = append(l, meth04{name, pw, func(d []byte) *Folder { return Chain(d, st...) }})
	}
	ch("copy", sCopy())
	ch("lzma2", sLZMA2())
	ch("deflate", sDeflate())
	ch("lz4", sLZ4())
	ch("aes", sAES(aesQuick))
	ch("brotli", sBrotli(true))
	ch("zstd", sZstd())
	ch("lzma", sLZMA())
	ch("bzip2", sBzip2(100))
	ch("delta", sDelta(2))
	ch("bcj+deflate+aes", sBCJ(), sDeflate(), sAES(aesQuick))
	l = append(l, meth04{"bcj2", "", func(d []byte) *Folder {
		return BCJ2Chain(d, func(int) bool { return true }, [4][]Stage{{sDeflate()}, {sLZ4()}, {}, {}})
	}})
	ch("ppmd", sPPMD())
	for _, f := range allFilters() {
		ch(f.Name, f)
	}
	return l
}

func runC04(e *Env) {
	q := e.Quick()
	ss := scripts04()
	fss := fsScripts04()
	ms := meths04()
	mk := func(m meth04, seed int) *arch04 { return mkArch04(m.name, m.pw, m.mk, seed, 6, 5, 7, 4) }

	e.Group("one archive, two goroutines")
	for mi, m := range ms {
		for i, s := range ss {
			for j := i; j < len(ss); j++ {
				long := i == len(ss)-1 || j == len(ss)-1
				bound := 2
				switch {
				case q && (mi >= 1 && long || mi >= 5 && mi < 13):
					bound = 1
				case q && mi >= 13:
					bound = 1
					if (i+j)%4 != 0 {
						continue
					}
				case !q && mi < 5 && !long:
					bound = 3
				}
				e.Case(func() string {
					return fmt.Sprintf("%s, %d preemptions: {%s} and {%s}", m.name, bound, s.name, ss[j].name)
				}, func(t *T) { shared04(t, bound, mk(m, 0), s, ss[j]) })
			}
		}
	}

	e.Group("one archive, three goroutines")
	for mi, m := range ms[:13] {
		for i := range ss[:9] {
			for j := i; j < 9; j++ {
				for k := j; k < 9; k++ {
					if q && (mi > 5 || (i+j+k)%3 != 0 || mi > 0 && (i*7+j*3+k)%5 != 0) {
						continue
					}
					bound := 1
					if !q && mi < 3 {
						bound = 2
					}
					e.Case(func() string {
						return fmt.Sprintf("%s, %d preemptions: {%s} and {%s} and {%s}", m.name, bound, ss[i].name, ss[j].name, ss[k].name)
					}, func(t *T) { shared04(t, bound, mk(m, 0), ss[i], ss[j], ss[k]) })
				}
			}
		}
	}

	e.Group("filesystem view")
	fb := 2
	if !q {
		fb = 3
	}
	for _, m := range []meth04{ms[0], ms[2], ms[4]} {
		for i := range fss {
			for j := i; j < len(fss); j++ {
				fb := fb
				if j == len(fss)-1 {
					fb--
				}
				e.Case(func() string {
					return fmt.Sprintf("%s, %d preemptions: {%s} and {%s}", m.name, fb, fss[i].name, fss[j].name)
				}, func(t *T) { shared04(t, fb, mk(m, 0), fss[i], fss[j]) })
			}
		}
	}
	for i := range fss {
		for j := i; j < len(fss); j++ {
			for k := j; k < len(fss); k++ {
				e.Case(func() string {
					return fmt.Sprintf("copy, %d preemptions: {%s} and {%s} and {%s}", fb-1, fss[i].name, fss[j].name, fss[k].name)
				}, func(t *T) { shared04(t, fb-1, mk(ms[0], 0), fss[i], fss[j], fss[k]) })
			}
		}
	}

	e.Group("archives of their own")
	for i, m := range ms {
		for j := i; j < len(ms); j++ {
			if q && j != i && (i > 6 || j > 6) {
				continue
			}
			for v := range 3 {
				e.Case(func() string {
					return fmt.Sprintf("%s and %s, %d preemptions, variant %d", m.name, ms[j].name, fb-1, v)
				}, func(t *T) {
					a, b := mk(m, 0), mk(ms[j], 3)
					fs := []func(l *log04){own04(a), own04(b)}
					switch v {
					case 1:
						fs = []func(l *log04){partial04(a), own04(b)}
					case 2:
						fs = []func(l *log04){partial04(a), partial04(b), partial04(a)}
					}
					separate04(t, fb-1, fmt.Sprintf("%s and %s", a.name, b.name), false, fs...)
				})
			}
		}
	}
	for _, m := range ms[:13] {
		for v := range 3 {
			e.Case(func() string {
				return fmt.Sprintf("%s, %d preemptions: damaged in way %d, and sound", m.name, fb, v)
			}, func(t *T) {
				b := mk(m, 0)
				a := mkArch04(m.name, m.pw, func(d []byte) *Folder {
					f := m.mk(d)
					f.Packs = append([][]byte{}, f.Packs...)
					f.Packs[0] = bytes.Clone(f.Packs[0])
					switch p := f.Packs[0]; v {
					case 0:
						f.Packs[0] = p[:len(p)/2]
					case 1:
						p[len(p)/2] ^= 0x55
					case 2:
						p[0] ^= 0xff
					}
					return f
				}, 0, 6, 5, 7, 4)
				a.bad = true
				separate04(t, fb-1, a.name, true, own04(a), own04(b))
			})
		}
	}

	e.Group("keys")
	pws := []string{"p", "q", ""}
	salts := [][]byte{nil, []byte("salt")}
	var keys []*arch04
	for _, pw := range pws {
		for _, s := range salts {
			for _, cy := range []int{1, 0x3f} {
				par := aesQuick
				par.Password, par.Salt, par.Cycles = pw, s, cy
				keys = append(keys, mkArch04(fmt.Sprintf("aes password %q salt %q cycles %d", pw, s, cy), pw, func(d []byte) *Folder { return Chain(d, sCopy(), sAES(par)) }, 1, 5, 3))
			}
		}
	}
	for i := range keys {
		for j := i; j < len(keys); j++ {
			e.Case(func() string { return fmt.Sprintf("%s and %s", keys[i].name, keys[j].name) }, func(t *T) {
				separate04(t, fb-1, "keys", false, partial04(keys[i]), partial04(keys[j]))
			})
			for k := j; k < len(keys); k++ {
				if q && (i+2*j+3*k)%5 != 0 {
					continue
				}
				e.Case(func() string { return fmt.Sprintf("%s and %s and %s", keys[i].name, keys[j].name, keys[k].name) }, func(t *T) {
					separate04(t, 1, "keys", false, partial04(keys[i]), partial04(keys[j]), partial04(keys[k]))
				})
			}
		}
	}
	// more keys than the cache holds
	e.Case(func() string { return "many keys" }, func(t *T) {
		all := func(off int) func(l *log04) {
			return func(l *log04) {
				for k := range keys {
					a := keys[(k+off)%len(keys)]
					r, err := a.open()
					if err != nil {
						l.err("open", err)
						continue
					}
					(&h04{a, r, l}).file(0, -1)
				}
			}
		}
		separate04(t, 1, "keys", false, all(0), all(6))
	})

	e.Group("registration")
	for v := range 4 {
		e.Case(func() string { return fmt.Sprintf("variant %d", v) }, func(t *T) {
			id := func(k byte) []byte { return []byte{0x71, 0x04, byte(v), k} }
			arch := func(k byte) *arch04 {
				return mkArch04("custom", "", func(d []byte) *Folder {
					return &Folder{Coders: []Coder{{ID: id(k), In: 1, Out: 1, Props: []byte{k}}}, Packed: []int{0}, Sizes: []uint64{uint64(len(d))}, Packs: [][]byte{d}, Data: d, CRC: crcOf(d)}
				}, 0, 6, 5)
			}
			dec := func(_ []byte, _ uint64, in []io.ReadCloser) (io.ReadCloser, error) { return in[0], nil }
			reg := func(k byte) func(l *log04) {
				return func(l *log04) {
					verifsync.Point()
					sevenzip.RegisterDecompressor(id(k), dec)
					own04(arch(k))(l)
				}
			}
			a := mk(ms[2], 0)
			switch v {
			case 0:
				separate04(t, fb, "registration", false, reg(1), own04(a))
			case 1:
				separate04(t, fb, "registration", false, reg(1), reg(2))
			case 2:
				separate04(t, fb, "registration", false, reg(1), reg(1))
			case 3:
				separate04(t, 1, "registration", false, reg(1), reg(2), own04(a))
			}
		})
	}

	e.Group("files on disk")
	for _, vol := range []int{0, 1, 3} {
		for _, m := range []meth04{ms[0], ms[2], ms[4]} {
			for i := range ss[:9] {
				for j := i; j < 9; j++ {
					if q && (i+j)%3 != 0 {
						continue
					}
					e.Case(func() string {
						return fmt.Sprintf("%s in %d volumes: {%s} and {%s}", m.name, vol, ss[i].name, ss[j].name)
					}, func(t *T) {
						a := mk(m, 0)
						dir := must(os.MkdirTemp(scratch, "c04"))
						defer os.RemoveAll(dir)
						name := filepath.Join(dir, "a.7z")
						if vol == 0 {
							must0(os.WriteFile(name, a.b, 0o600))
						} else {
							for v := range vol {
								must0(os.WriteFile(fmt.Sprintf("%s.%03d", name, v+1), a.b[v*len(a.b)/vol:(v+1)*len(a.b)/vol], 0o600))
							}
							name += ".001"
						}
						disk04(t, fb-1, a, name, ss[i], ss[j])
					})
				}
			}
		}
	}
}

// disk04 explores two goroutines that share a reader of volumes, and one that opens the volumes anew.
func disk04(t *T, bound int, a *arch04, name string, ss ...script04) {
	var rc *sevenzip.ReadCloser
	defer func() {
		if rc != nil {
			_ = rc.Close()
		}
	}()
	explore04(t, bound, func() ([]func(), func() string) {
		if rc != nil {
			_ = rc.Close()
		}
		var err error
		rc, err = sevenzip.OpenReaderWithPassword(name, a.pw)
		if err != nil {
			t.Failf("open", "%v", err)
		}
		ls := make([]*log04, len(ss)+1)
		fs := make([]func(), len(ss)+1)
		for i, s := range ss {
			ls[i] = &log04{}
			fs[i] = func() { s.f(&h04{a, &rc.Reader, ls[i]}) }
		}
		last := &log04{}
		ls[len(ss)] = last
		fs[len(ss)] = func() {
			verifsync.Point()
			o, err := sevenzip.OpenReaderWithPassword(name, a.pw)
			if err != nil {
				last.err("open", err)
				return
			}
			(&h04{a, &o.Reader, last}).file(1, -1)
			verifsync.Point()
			last.err("close", o.Close())
		}
		return fs, func() string {
			for i, l := range ls {
				if len(l.s) > 0 {
					return fmt.Sprintf("goroutine %d observes:\n%s", i, l.s)
				}
			}
			return ""
		}
	})
}
func u32p04(v uint32) *uint32 { return &v }
