package main

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"strings"

	"github.com/bodgit/sevenzip"
)

func init() {
	register(&Check{ID: "C03", Level: "model_checking", Configs: []int{1, 2, 0},
		Rule: "all histories of open / partial read / read to the end / close (double close, read after close, opening through the fs.FS view in the small families) up to a depth, over archives of solid streams with equal offsets, empty members and further streams, for decoder pools of 1, 2 and all CPUs; a history is one trace on the implementation, every operation is compared with a cursor model, afterwards every live handle is drained and every file is extracted again. States are (per-handle file and position, offsets handed back so far).",
		Run:  runC03})
}

type hop struct {
	kind byte // o open, O open through fs, r read k, a read to EOF, c close, d close again, x read after close
	i    int  // file (open) or handle
	k    int
}

func (h hop) String() string {
	switch h.kind {
	case 'o':
		return fmt.Sprintf("open(%d)", h.i)
	case 'O':
		return fmt.Sprintf("fsopen(%d)", h.i)
	case 'r':
		return fmt.Sprintf("h%d.read(%d)", h.i, h.k)
	case 'a':
		return fmt.Sprintf("h%d.readAll", h.i)
	case 'c':
		return fmt.Sprintf("h%d.close", h.i)
	case 'd':
		return fmt.Sprintf("h%d.close again", h.i)
	default:
		return fmt.Sprintf("h%d.read after close", h.i)
	}
}

func histString(h []hop) string {
	var s []string
	for _, o := range h {
		s = append(s, o.String())
	}
	return strings.Join(s, "; ")
}

// histSpec is the alphabet of a family of histories.
type histSpec struct {
	files   []int // files that may be opened
	maxLive int
	maxOpen int // in total
	reads   []int
	all     bool
	fs      bool
	dead    bool // operations on closed handles
	ordered bool // only the most recent handle is operated on (no overlap)
}

type mHandle struct {
	file, pos int
	open      bool
	deadOps   int
}

type histModel struct {
	h      []mHandle
	live   int
	puts   []int
	sizes  []int
	reopen bool
}

func (m *histModel) clone() *histModel {
	c := *m
	c.h = append([]mHandle{}, m.h...)
	c.puts = append([]int{}, m.puts...)
	return &c
}

func (m *histModel) enabled(s *histSpec) []hop {
	var ops []hop
	if m.live < s.maxLive && len(m.h) < s.maxOpen {
		for _, f := range s.files {
			ops = append(ops, hop{'o', f, 0})
			if s.fs {
				ops = append(ops, hop{'O', f, 0})
			}
		}
	}
	for i := range m.h {
		if m.h[i].open {
			for _, k := range s.reads {
				if k <= m.sizes[m.h[i].file]-m.h[i].pos {
					ops = append(ops, hop{'r', i, k})
				}
			}
			if s.all && m.h[i].pos <= m.sizes[m.h[i].file] {
				ops = append(ops, hop{'a', i, 0})
			}
			ops = append(ops, hop{'c', i, 0})
		} else if s.dead && m.h[i].deadOps < 2 {
			ops = append(ops, hop{'d', i, 0}, hop{'x', i, 1})
		}
	}
	return ops
}

func (m *histModel) apply(o hop) {
	switch o.kind {
	case 'o', 'O':
		m.h = append(m.h, mHandle{file: o.i, open: true})
		m.live++
	case 'r':
		m.h[o.i].pos += o.k
	case 'a':
		m.h[o.i].pos = m.sizes[m.h[o.i].file] + 1 // beyond: EOF seen
	case 'c':
		m.h[o.i].open = false
		m.live--
		m.puts = append(m.puts, m.h[o.i].file<<8|m.h[o.i].pos)
	default:
		m.h[o.i].deadOps++
	}
}

func (m *histModel) hash() uint64 {
	h := fnv.New64a()
	for _, x := range m.h {
		b := byte(0)
		if x.open {
			b = 1
		}
		_, _ = h.Write([]byte{byte(x.file), byte(x.pos), b})
	}
	_, _ = h.Write([]byte{0xff})
	for _, p := range m.puts {
		_, _ = h.Write([]byte{byte(p), byte(p >> 8)})
	}
	return h.Sum64()
}

// forHistories enumerates the maximal histories (length depth, or no operation enabled) extending prefix.
func forHistories(m *histModel, s *histSpec, prefix []hop, depth int, visit func(h []hop, m *histModel)) {
	ops := []hop(nil)
	if len(prefix) < depth {
		ops = m.enabled(s)
	}
	if len(ops) == 0 {
		visit(prefix, m)
		return
	}
	for _, o := range ops {
		c := m.clone()
		c.apply(o)
		forHistories(c, s, append(prefix[:len(prefix):len(prefix)], o), depth, visit)
	}
}

// prefixes enumerates the histories of length n (or shorter dead ends).
func histPrefixes(m *histModel, s *histSpec, n int) [][]hop {
	var out [][]hop
	forHistories(m, s, nil, n, func(h []hop, _ *histModel) { out = append(out, append([]hop{}, h...)) })
	return out
}

var errHist = errors.New("history")

// readN reads exactly k bytes.
func readN(rc io.Reader, k int) ([]byte, error) {
	buf := make([]byte, k)
	n, zero := 0, 0
	for n < k {
		m, err := rc.Read(buf[n:])
		n += m
		if err != nil {
			if n == k && err == io.EOF { //nolint:errorlint
				return buf, nil
			}
			return buf[:n], err
		}
		if m == 0 {
			if zero++; zero > 16 {
				return buf[:n], errNoProgress
			}
		}
	}
	return buf, nil
}

// runHistory executes the history on a fresh reader.
func runHistory(t *T, r *sevenzip.Reader, entries []Entry, h []hop, epilogue bool) {
	type rh struct {
		rc   io.ReadCloser
		file int
		pos  int
		open bool
	}
	var hs []*rh
	fail := func(step int, key, f string, a ...any) {
		t.Failf(key, "history: %s\nat step %d (%v): %s", histString(h), step, h[min(step, len(h)-1)], fmt.Sprintf(f, a...))
	}
	rest := func(step int, x *rh, i int) {
		want := entries[x.file].Data[min(x.pos, len(entries[x.file].Data)):]
		got, err := readBounded(x.rc, len(want))
		if err != nil || !bytes.Equal(got, want) {
			fail(step, "content", "handle %d of file %d from %d: got %q, %v; want %q", i, x.file, x.pos, clipB(got), err, clipB(want))
		}
		x.pos = len(entries[x.file].Data)
	}
	for s, o := range h {
		t.Trans(1)
		switch o.kind {
		case 'o', 'O':
			var (
				rc  io.ReadCloser
				err error
			)
			if o.kind == 'O' {
				rc, err = r.Open(entries[o.i].Name)
			} else {
				rc, err = r.File[o.i].Open()
			}
			if err != nil {
				fail(s, "open", "%v", err)
			}
			hs = append(hs, &rh{rc: rc, file: o.i, open: true})
		case 'r':
			x := hs[o.i]
			got, err := readN(x.rc, o.k)
			want := entries[x.file].Data[x.pos : x.pos+o.k]
			if err != nil || !bytes.Equal(got, want) {
				fail(s, "content", "handle %d of file %d at %d: got %q, %v; want %q", o.i, x.file, x.pos, clipB(got), err, clipB(want))
			}
			x.pos += o.k
		case 'a':
			rest(s, hs[o.i], o.i)
		case 'c':
			if err := hs[o.i].rc.Close(); err != nil {
				fail(s, "close", "%v", err)
			}
			hs[o.i].open = false
		case 'd':
			_ = hs[o.i].rc.Close()
		case 'x':
			var b [3]byte
			n, err := hs[o.i].rc.Read(b[:])
			if n != 0 || err == nil {
				fail(s, "read-closed", "n=%d err=%v", n, err)
			}
		}
	}
	if !epilogue {
		return
	}
	for i, x := range hs {
		if x.open {
			rest(len(h), x, i)
		}
	}
	for _, x := range hs {
		if x.open {
			if err := x.rc.Close(); err != nil {
				fail(len(h), "close", "%v", err)
			}
		}
	}
	for i := len(entries) - 1; i >= 0; i-- {
		got, err := extract(r.File[i])
		if err != nil || !bytes.Equal(got, entries[i].Data) {
			fail(len(h), "later", "extracting file %d afterwards: got %q, %v; want %q", i, clipB(got), err, clipB(entries[i].Data))
		}
	}
}

func clipB(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}

type histArchive struct {
	name    string
	built   *Built
	entries []Entry
	pw      string
	sizes   []int
}

// histArch builds an archive of the given streams (each a list of file sizes, with one method); -1 is an empty file.
func histArch(name string, mk func(d []byte) *Folder, pw string, streams ...[]int) *histArchive {
	a := &Archive{}
	n := 0
	for _, st := range streams {
		if len(st) == 1 && st[0] < 0 {
			a.Entries = append(a.Entries, Entry{Name: fmt.Sprintf("f%d", n), EmptyFile: true})
			n++
			continue
		}
		total := 0
		var nm []string
		for _, s := range st {
			total += s
			nm = append(nm, fmt.Sprintf("f%d", n))
			n++
		}
		a.AddFolder(mk(zooContent(total)), nm, st)
	}
	b := a.Build()
	ha := &histArchive{name: name, built: b, entries: a.Entries, pw: pw}
	for _, e := range a.Entries {
		ha.sizes = append(ha.sizes, len(e.Data))
	}
	return ha
}

func runHistFamily(e *Env, ha *histArchive, s *histSpec, depth, pre int) {
	m0 := &histModel{sizes: ha.sizes}
	for _, p := range histPrefixes(m0, s, pre) {
		e.Case(func() string {
			return fmt.Sprintf("%s, files %v: all histories of depth %d starting with: %s", ha.name, ha.sizes, depth, histString(p))
		}, func(t *T) {
			m := m0.clone()
			for _, o := range p {
				m.apply(o)
			}
			forHistories(m, s, p, depth, func(h []hop, m *histModel) {
				t.Eval(1)
				t.Trace(1)
				t.State(m.hash())
				t.OutcomeHash(m.hash())
				r, err := open(ha.built.B, ha.pw)
				if err != nil {
					t.Failf("open-archive", "%v", err)
				}
				runHistory(t, r, ha.entries, h, true)
			})
			t.Sample(histString(p) + " ...")
		})
	}
}

func runC03(e *Env) {
	d := 0
	if !e.Quick() {
		d = 1
	}
	cp := func(b []byte) *Folder { return Chain(b, sCopy()) }
	bcj := func(b []byte) *Folder { return Chain(b, sBCJ()) }
	full := &histSpec{files: []int{0, 1, 2}, maxLive: 3, maxOpen: 9, reads: []int{1}, all: true}
	e.Group("solid")
	runHistFamily(e, histArch("copy", cp, "", []int{3, 4, 2}), full, 7+d, 3)
	runHistFamily(e, histArch("copy", cp, "", []int{2, 0, 3}), full, 6+d, 3)
	runHistFamily(e, histArch("copy", cp, "", []int{0, 2, 0}), full, 6+d, 3)
	runHistFamily(e, histArch("bcj", bcj, "", []int{3, 9, 4}), full, 6+d, 3)

	hugeHistories(e)

	e.Group("sequential")
	seq := &histSpec{files: []int{0, 1, 2, 3}, maxLive: 1, maxOpen: 9, reads: []int{1, 2}, all: false}
	runHistFamily(e, histArch("copy", cp, "", []int{2, 2, 2, 2}), seq, 11+d, 4)
	runHistFamily(e, histArch("copy", cp, "", []int{2, 2}, []int{2, 2}), seq, 11+d, 4)

	e.Group("wide")
	wide := &histSpec{files: []int{0, 1, 2, 3}, maxLive: 4, maxOpen: 6, reads: []int{1}}
	runHistFamily(e, histArch("copy", cp, "", []int{1, 2, 1, 2}), wide, 7+d, 3)

	e.Group("dead-handles")
	dead := &histSpec{files: []int{0, 1, 3, 4}, maxLive: 2, maxOpen: 9, reads: []int{1}, all: true, fs: true, dead: true}
	runHistFamily(e, histArch("copy", cp, "", []int{3, 2, 3}, []int{4}, []int{-1}), dead, 5+d, 2)

	e.Group("methods")
	for _, z := range methodZoo() {
		sp := *full
		sp.files = []int{0, 1, 2, 3}
		dd := 5
		if z.name == "ppmd" || strings.Contains(z.name, "zstd") || strings.Contains(z.name, "bcj2") || strings.Contains(z.name, "bzip2") {
			dd = 4
		}
		runHistFamily(e, histArch(z.name, z.mk, z.pw, []int{5, 7, 6}, []int{3}), &sp, dd+d, 2)
	}
	// big members, so that seeking crosses the buffers
	e.Group("big")
	for _, z := range methodZoo() {
		if z.name == "ppmd" {
			continue
		}
		sp := *full
		sp.reads = []int{1, 4096}
		runHistFamily(e, histArch(z.name, z.mk, z.pw, []int{5000, 4096, 5003}), &sp, 3+d, 1)
	}
}
