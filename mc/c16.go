package main

// C16: extracting in archive order decodes each stream only once.

import (
	"bytes"
	"fmt"
	"io"
	"sort"

	"github.com/bodgit/sevenzip"
)

func init() {
	register(&Check{
		ID:      "C16",
		Level:   "model_checking",
		Configs: []int{1, 2, 0},
		Rule: "all in-order extraction histories: every split of a stream into up to four (thorough: five) files, every vector of read amounts (nothing, one byte, part, all but one, all without and with the end seen), files " +
			"left out, handles closed twice, both ways of opening; all interleavings, operation by operation, of two streams with two files each, and file by file of three streams; all schedules, up to three preemptions, of a goroutine per stream; for the method zoo and for counting " +
			"decoders; with 1, 2 and all CPUs. Each packed byte may be read once, in ascending order, one decoder instance may be created per stream and no more than the stream's size decoded",
		Run:     runC16,
		Explain: "the real pool and readers run each history while every read of the packed data and every decoder are counted",
	})
}

// point16 is a scheduling point, if there is a scheduler.
var point16 = func() {}

// concurrent16 explores concurrent extraction, if there is a scheduler.
var concurrent16 func(e *Env)

// packReader counts how often each byte of the packed streams is read, and in which order.
type packReader struct {
	b     []byte
	start []int // of the packed streams, ascending
	end   []int
	cnt   []uint8
	next  []int
	bad   string
	on    bool
}

func newPackReader(a *Archive, b *Built) *packReader {
	p := &packReader{b: b.B, cnt: make([]uint8, len(b.B))}
	k := 0
	for _, f := range a.Folders {
		for _, pk := range f.Packs {
			p.start = append(p.start, b.PackStarts[k])
			p.end = append(p.end, b.PackStarts[k]+len(pk))
			p.next = append(p.next, b.PackStarts[k])
			k++
		}
	}
	return p
}

func (p *packReader) ReadAt(buf []byte, off int64) (int, error) {
	point16()
	n, err := bytes.NewReader(p.b).ReadAt(buf, off)
	if p.on && n > 0 {
		lo, hi := int(off), int(off)+n
		for i := sort.SearchInts(p.end, lo+1); i < len(p.start) && p.start[i] < hi; i++ {
			x, y := max(lo, p.start[i]), min(hi, p.end[i])
			for j := x; j < y; j++ {
				if p.cnt[j]++; p.cnt[j] > 1 && p.bad == "" {
					p.bad = fmt.Sprintf("packed stream %d of %d bytes: byte %d is read again", i, p.end[i]-p.start[i], j-p.start[i])
				}
			}
			if x != p.next[i] && p.bad == "" {
				p.bad = fmt.Sprintf("packed stream %d: reading goes on at %d, not at %d", i, x-p.start[i], p.next[i]-p.start[i])
			}
			p.next[i] = max(p.next[i], y)
		}
	}
	return n, err
}

// countDec is a decoder that copies and counts.
type countStats struct {
	made    int
	decoded int
}

var cnt16 = map[byte]*countStats{}

type countDec struct {
	io.ReadCloser
	s *countStats
}

func (c *countDec) Read(p []byte) (int, error) {
	n, err := c.ReadCloser.Read(p)
	c.s.decoded += n
	return n, err
}

func init() {
	// The property byte tells the streams apart
	sevenzip.RegisterDecompressor([]byte{0x71, 0x16}, func(p []byte, _ uint64, in []io.ReadCloser) (io.ReadCloser, error) {
		s := cnt16[p[0]]
		if s == nil {
			s = &countStats{}
			cnt16[p[0]] = s
		}
		s.made++
		return &countDec{in[0], s}, nil
	})
}

func sCount(k int) func(d []byte) *Folder {
	return func(d []byte) *Folder {
		return &Folder{Coders: []Coder{{ID: []byte{0x71, 0x16}, In: 1, Out: 1, Props: []byte{byte(k)}}}, Packed: []int{0}, Sizes: []uint64{uint64(len(d))}, Packs: [][]byte{d}, Data: d, CRC: crcOf(d)}
	}
}

type order16 struct {
	name    string
	a       *Archive
	b       *Built
	pw      string
	streams [][]int // indices of the files of each stream
	counted bool
}

// mkOrder makes an archive whose k-th stream is made by mk[k%len] and split into the given files.
func mkOrder(name, pw string, mk []func(d []byte) *Folder, counted bool, streams ...[]int) *order16 {
	o := &order16{name: name, a: &Archive{}, pw: pw, counted: counted}
	for k, sizes := range streams {
		var idx []int
		var nm []string
		total := 0
		for _, s := range sizes {
			idx = append(idx, len(o.a.Entries)+len(nm))
			nm = append(nm, fmt.Sprintf("s%d-%d", k, len(nm)))
			total += s
		}
		o.a.AddFolder(mk[k%len(mk)](zooContent(total)), nm, sizes)
		o.streams = append(o.streams, idx)
		o.a.Entries = append(o.a.Entries, Entry{Name: fmt.Sprintf("empty%d", k), EmptyFile: true})
	}
	o.b = o.a.Build()
	return o
}

const (
	amtNone = iota
	amtOne
	amtPart
	amtButOne
	amtAll // every byte, the end not seen
	amtEOF
	amtSkip // not opened
	amts
)

type step16 struct {
	stream int
	file   int // within the stream
	op     int // 0 open, 1 read, 2 close, 3 all of it
}

type run16 struct {
	o     *order16
	t     *T
	p     *packReader
	r     *sevenzip.Reader
	h     map[[2]int]io.ReadCloser
	twice bool
	fs    bool
	what  func() string
}

func newRun16(t *T, o *order16, what func() string) *run16 {
	x := &run16{o: o, t: t, p: newPackReader(o.a, o.b), h: map[[2]int]io.ReadCloser{}, what: what}
	r, err := sevenzip.NewReaderWithPassword(x.p, int64(len(o.b.B)), o.pw)
	if err != nil {
		t.Failf("open", "%s: %v", o.name, err)
	}
	x.r = r
	x.p.on = true
	for k := range cnt16 {
		delete(cnt16, k)
	}
	return x
}

func (x *run16) open(s, f int) {
	i := x.o.streams[s][f]
	var rc io.ReadCloser
	var err error
	if x.fs {
		rc, err = x.r.Open(x.o.a.Entries[i].Name)
	} else {
		rc, err = x.r.File[i].Open()
	}
	if err != nil {
		x.t.Failf("open", "%s: %s: opening file %d of stream %d: %v", x.o.name, x.what(), f, s, err)
	}
	x.h[[2]int{s, f}] = rc
}

func (x *run16) read(s, f, amt int) {
	e := &x.o.a.Entries[x.o.streams[s][f]]
	rc := x.h[[2]int{s, f}]
	n := len(e.Data)
	switch amt {
	case amtNone:
		n = 0
	case amtOne:
		n = min(1, n)
	case amtPart:
		n = (n + 1) / 2
	case amtButOne:
		n = max(0, n-1)
	}
	b := make([]byte, n)
	if n > 0 {
		if _, err := io.ReadFull(rc, b); err != nil {
			x.t.Failf("read", "%s: %s: file %d of stream %d: %v", x.o.name, x.what(), f, s, err)
		}
		if !bytes.Equal(b, e.Data[:n]) {
			x.t.Failf("content", "%s: %s: file %d of stream %d: %s, want %s", x.o.name, x.what(), f, s, hexClip(b), hexClip(e.Data[:n]))
		}
	}
	if amt == amtEOF {
		if k, err := rc.Read(make([]byte, 5)); k != 0 || err != io.EOF { //nolint:errorlint
			x.t.Failf("read", "%s: %s: %d, %v at the end", x.o.name, x.what(), k, err)
		}
	}
}

func (x *run16) close(s, f int) {
	rc := x.h[[2]int{s, f}]
	if err := rc.Close(); err != nil {
		x.t.Failf("close", "%s: %s: %v", x.o.name, x.what(), err)
	}
	if x.twice {
		_ = rc.Close()
	}
}

func (x *run16) file(s, f, amt int) {
	if amt == amtSkip {
		return
	}
	x.open(s, f)
	x.read(s, f, amt)
	x.close(s, f)
}

func (x *run16) finish() {
	x.t.Eval(1)
	if x.p.bad != "" {
		x.t.Failf("packed-again", "%s: %s: %s", x.o.name, x.what(), x.p.bad)
	}
	if x.o.counted {
		for k, s := range cnt16 {
			if s.made > 1 {
				x.t.Failf("decoders", "%s: %s: %d decoders were created for stream %d", x.o.name, x.what(), s.made, k)
			}
			if size := int(x.o.a.Folders[int(k)].Unpack()); s.decoded > size {
				x.t.Failf("decoded-again", "%s: %s: %d bytes decoded of the %d of stream %d", x.o.name, x.what(), s.decoded, size, k)
			}
		}
	}
}

func runC16(e *Env) {
	cm := func(n int) []func(d []byte) *Folder {
		var l []func(d []byte) *Folder
		for i := range n {
			l = append(l, sCount(i))
		}
		return l
	}

	e.Group("one stream, all splits and read amounts")
	maxF := 4
	if !e.Quick() {
		maxF = 5
	}
	for nf := 1; nf <= maxF; nf++ {
		dims := make([]int, nf)
		for i := range dims {
			dims[i] = 3
		}
		forProduct(dims, func(v []int) {
			var sizes []int
			for _, k := range v {
				sizes = append(sizes, []int{1, 2, 7}[k])
			}
			o := mkOrder("counted", "", cm(1), true, sizes)
			e.Case(func() string { return fmt.Sprintf("files of %v bytes, all read amounts", sizes) }, func(t *T) {
				ad := make([]int, nf)
				for i := range ad {
					ad[i] = amts
				}
				forProduct(ad, func(am []int) {
					for variant := range 4 {
						x := newRun16(t, o, func() string { return fmt.Sprintf("read amounts %v, variant %d", am, variant) })
						x.twice, x.fs = variant&1 == 1, variant&2 == 2
						for f := range nf {
							x.file(0, f, am[f])
						}
						x.finish()
						t.Trans(nf)
					}
					h := uint64(nf)
					for _, a := range am {
						h = h*7 + uint64(a)
					}
					t.State(h)
				})
				t.Outcome(sizes)
			})
		})
	}

	e.Group("larger than the buffers")
	for _, sizes := range [][]int{{5000, 1, 9000, 4096, 3}, {4096, 4096, 4096}, {40000, 40000, 1}, {1, 100000, 5}, {8191, 1, 8193, 2}} {
		for _, z := range []struct {
			name string
			mk   func(d []byte) *Folder
			cnt  bool
		}{{"counted", sCount(0), true}, {"copy", func(d []byte) *Folder { return Chain(d, sCopy()) }, false}, {"lzma2", func(d []byte) *Folder { return Chain(d, sLZMA2()) }, false},
			{"deflate", func(d []byte) *Folder { return Chain(d, sDeflate()) }, false}, {"bcj+zstd", func(d []byte) *Folder { return Chain(d, sBCJ(), sZstd()) }, false},
			{"bcj2", func(d []byte) *Folder {
				return BCJ2Chain(d, func(int) bool { return true }, [4][]Stage{{sLZMA()}, {sLZMA()}, {}, {}})
			}, false}} {
			var o *order16
			for p := range amts - 1 {
				e.Case(func() string { return fmt.Sprintf("%s, files of %v bytes, first read amount %d", z.name, sizes, p) }, func(t *T) {
					if o == nil {
						o = mkOrder(z.name, "", []func(d []byte) *Folder{z.mk}, z.cnt, sizes)
					}
					ad := make([]int, len(sizes)-1)
					for i := range ad {
						ad[i] = amts
						if e.Quick() && len(sizes) > 4 {
							ad[i] = 4
						}
					}
					forProduct(ad, func(am []int) {
						x := newRun16(t, o, func() string { return fmt.Sprintf("read amounts %v", append([]int{p}, am...)) })
						x.file(0, 0, p)
						for f, a := range am {
							x.file(0, f+1, a)
						}
						x.finish()
					})
					t.Outcome(z.name, sizes, p)
				})
			}
		}
	}

	hugeInOrder(e)

	e.Group("every method")
	for _, z := range methodZoo() {
		for _, sizes := range [][]int{{20, 30, 25}, {1, 1, 60, 2}} {
			var o *order16
			for p := range amts {
				e.Case(func() string { return fmt.Sprintf("%s, files of %v bytes, first read amount %d", z.name, sizes, p) }, func(t *T) {
					if o == nil {
						o = mkOrder(z.name, z.pw, []func(d []byte) *Folder{z.mk}, false, sizes)
					}
					ad := make([]int, len(sizes)-1)
					for i := range ad {
						ad[i] = amts
					}
					forProduct(ad, func(am []int) {
						if e.Quick() && (am[0]+am[1]*2+p)%3 != 0 && len(am) > 2 {
							return
						}
						x := newRun16(t, o, func() string { return fmt.Sprintf("read amounts %v", append([]int{p}, am...)) })
						x.fs = p&1 == 1
						x.file(0, 0, p)
						for f, a := range am {
							x.file(0, f+1, a)
						}
						x.finish()
					})
					t.Outcome(z.name, sizes, p)
				})
			}
		}
	}

	e.Group("two streams interleaved")
	// every interleaving of open, read, close of two files in each of two streams
	var inter [][]int
	var rec func(a, b int, s []int)
	rec = func(a, b int, s []int) {
		if a == 6 && b == 6 {
			inter = append(inter, append([]int{}, s...))
			return
		}
		if a < 6 {
			rec(a+1, b, append(s, 0))
		}
		if b < 6 {
			rec(a, b+1, append(s, 1))
		}
	}
	rec(0, 0, nil)
	two := []*order16{mkOrder("counted", "", cm(2), true, []int{4, 5}, []int{3, 6})}
	two = append(two, mkOrder("lzma, zstd", "", []func(d []byte) *Folder{
		func(d []byte) *Folder { return Chain(d, sLZMA()) }, func(d []byte) *Folder { return Chain(d, sZstd()) }}, false, []int{40, 50}, []int{30, 60}))
	amtSet := []int{amtNone, amtPart, amtAll, amtEOF}
	for oi, o := range two {
		forProduct([]int{len(amtSet), len(amtSet), len(amtSet), len(amtSet)}, func(v []int) {
			if oi > 0 && e.Quick() && (v[0]+v[1]+v[2]+v[3])%5 != 0 {
				return
			}
			am := append([]int{}, v...)
			e.Case(func() string { return fmt.Sprintf("%s: two streams, read amounts %v, all interleavings", o.name, am) }, func(t *T) {
				for _, s := range inter {
					x := newRun16(t, o, func() string { return fmt.Sprintf("read amounts %v, interleaving %v", am, s) })
					var at [2]int
					for _, k := range s {
						f, op := at[k]/3, at[k]%3
						at[k]++
						switch op {
						case 0:
							x.open(k, f)
						case 1:
							x.read(k, f, amtSet[am[k*2+f]])
						case 2:
							x.close(k, f)
						}
					}
					x.finish()
					t.Trans(len(s))
				}
				t.Outcome(o.name, am)
			})
		})
	}

	e.Group("three streams interleaved")
	three := mkOrder("counted", "", cm(3), true, []int{4, 5, 2}, []int{3, 6}, []int{9, 1})
	var perm3 [][]int
	var rec3 func(c [3]int, s []int)
	rec3 = func(c [3]int, s []int) {
		if len(s) == 7 {
			perm3 = append(perm3, append([]int{}, s...))
			return
		}
		for k := range 3 {
			if c[k] < len(three.streams[k]) {
				c[k]++
				rec3(c, append(s, k))
				c[k]--
			}
		}
	}
	rec3([3]int{}, nil)
	nAmt := 3
	if !e.Quick() {
		nAmt = 5
	}
	for pi, s := range perm3 {
		e.Case(func() string { return fmt.Sprintf("three streams, order %v, all read amounts", s) }, func(t *T) {
			ad := make([]int, 7)
			for i := range ad {
				ad[i] = nAmt
			}
			forProduct(ad, func(am []int) {
				if e.Quick() && (am[0]+am[2]+am[4]+am[6]+pi)%3 != 0 {
					return
				}
				x := newRun16(t, three, func() string { return fmt.Sprintf("order %v, read amounts %v", s, am) })
				var at [3]int
				for i, k := range s {
					x.file(k, at[k], []int{amtPart, amtNone, amtEOF, amtAll, amtSkip}[am[i]])
					at[k]++
				}
				x.finish()
			})
			t.Outcome(s)
		})
	}

	e.Group("many files and streams")
	for _, n := range []int{10, 50, 300} {
		e.Case(func() string { return fmt.Sprintf("%d files in each of 5 streams, round robin", n) }, func(t *T) {
			var streams [][]int
			for k := range 5 {
				var s []int
				for i := range n {
					s = append(s, 1+(i*7+k)%5)
				}
				streams = append(streams, s)
			}
			o := mkOrder("counted", "", cm(5), true, streams...)
			for mode := range amts {
				for order := range 3 {
					x := newRun16(t, o, func() string { return fmt.Sprintf("%d files, mode %d, order %d", n, mode, order) })
					am := func(i, k int) int {
						if mode == amtSkip {
							return (i*3 + k) % amts
						}
						return mode
					}
					switch order {
					case 0: // one stream after the other
						for k := range 5 {
							for i := range n {
								x.file(k, i, am(i, k))
							}
						}
					case 1: // round robin
						for i := range n {
							for k := range 5 {
								x.file(k, i, am(i, k))
							}
						}
					case 2: // one handle of each stream is always open
						for i := range n {
							for k := range 5 {
								if i > 0 && am(i-1, k) != amtSkip {
									x.close(k, i-1)
								}
								if am(i, k) != amtSkip {
									x.open(k, i)
									x.read(k, i, am(i, k))
								}
							}
						}
					}
					x.finish()
				}
			}
			t.Outcome(n)
		})
	}

	if concurrent16 != nil {
		concurrent16(e)
	} else {
		e.Note("built without the scheduler: concurrent extraction was not explored")
	}
}
