package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/bodgit/sevenzip"
)

func init() {
	register(&Check{ID: "C02", Level: "exploration",
		Rule: "for every method chain and file layout: all compositions of the file size into Read sizes, with and without zero-length reads in between and with an oversized last read; all constant read sizes in a range and all pairs of alternating sizes on multi-buffer contents; below each filter and decompressor all compositions of the input into short reads (cuts bounded for long inputs), with the end reported together with the last data or separately. An outcome is a (chain, layout, sequence of returned lengths).",
		Run:  runC02})
}

// readPlan reads f with the given sizes (repeating the last one) and compares; zero inserts zero-length reads.
// It returns the sequence of delivered lengths.
func readPlan(t *T, rc io.Reader, want []byte, sizes []int, zero bool, buf []byte) []byte {
	var trace []byte
	pos, i, stuck := 0, 0, 0
	for {
		if zero {
			n, err := rc.Read(buf[:0])
			if n != 0 || (err != nil && !(err == io.EOF && pos == len(want))) { //nolint:errorlint
				t.Failf("zero-read", "sizes %v: zero-length Read at %d of %d: n=%d err=%v", clipInts(sizes), pos, len(want), n, err)
			}
		}
		k := sizes[min(i, len(sizes)-1)]
		i++
		p := buf[:k]
		for j := range p {
			p[j] = 0xa5
		}
		n, err := rc.Read(p)
		if n < 0 || n > k {
			t.Failf("overlong", "sizes %v: Read of %d at %d returned n=%d", clipInts(sizes), k, pos, n)
		}
		if pos+n > len(want) {
			t.Failf("too-much", "sizes %v: more than %d bytes delivered", clipInts(sizes), len(want))
		}
		if !bytes.Equal(p[:n], want[pos:pos+n]) {
			t.Failf("content", "sizes %v: Read of %d at %d returned %s, want %s", clipInts(sizes), k, pos, hexClip(p[:n]), hexClip(want[pos:pos+n]))
		}
		pos += n
		if len(trace) < 64 {
			trace = append(trace, byte(n), byte(n>>8))
		}
		if err != nil {
			if err != io.EOF { //nolint:errorlint
				t.Failf("error", "sizes %v: Read of %d at %d of %d: %v", clipInts(sizes), k, pos, len(want), err)
			}
			if pos != len(want) {
				t.Failf("early-eof", "sizes %v: io.EOF at %d of %d", clipInts(sizes), pos, len(want))
			}
			break
		}
		if n == 0 {
			if stuck++; stuck > 16 {
				t.Failf("no-progress", "sizes %v: no progress at %d of %d", clipInts(sizes), pos, len(want))
			}
		} else {
			stuck = 0
		}
	}
	for range 3 {
		n, err := rc.Read(buf[:7])
		if n != 0 || err != io.EOF { //nolint:errorlint
			t.Failf("after-eof", "sizes %v: Read after the end: n=%d err=%v", clipInts(sizes), n, err)
		}
	}
	return trace
}

func clipInts(s []int) string {
	if len(s) > 40 {
		return fmt.Sprint(s[:40]) + "..."
	}
	return fmt.Sprint(s)
}

func openFile(t *T, f *sevenzip.File) io.ReadCloser {
	rc, err := f.Open()
	if err != nil {
		t.Failf("open-file", "opening %q: %v", f.Name, err)
	}
	return rc
}

type namedFolder struct {
	name string
	mk   func(d []byte) *Folder
	pw   string
}

// methodZoo lists one folder constructor per method and relevant combination. content from mkContent only.
func methodZoo() []namedFolder {
	var z []namedFolder
	ch := func(name string, st ...Stage) {
		z = append(z, namedFolder{name, func(d []byte) *Folder { return Chain(d, st...) }, aesQuick.Password})
	}
	ch("copy", sCopy())
	ch("copy+copy", sCopy(), sCopy())
	for _, f := range allFilters() {
		ch(f.Name, f)
	}
	ch("delta256", sDelta(256))
	for _, c := range allCompressors()[1:] {
		ch(c.Name, c)
		ch("bcj+"+c.Name, sBCJ(), c)
		ch("delta3+arm64+"+c.Name, sDelta(3), sARM64(), c)
	}
	ch("lzma-eos", sLZMAp(lzmaDefault, 4096, true))
	for _, m := range pieceMethods() {
		switch m.name {
		case "zstd, frames with sizes", "lz4, frames with sizes", "brotli, frames with sizes":
			ch(strings.SplitN(m.name, ",", 2)[0]+"-frames", Stage{m.name, func(in []byte) (Coder, []byte) { return m.mk(inPieces(in, 3)) }})
		}
	}
	ch("aes", sAES(aesQuick))
	ch("lzma+aes", sLZMA(), sAES(aesQuick))
	ch("deflate+aes", sDeflate(), sAES(aesQuick))
	ch("ppc+aes", sPPC(), sAES(aesQuick))
	all := func(int) bool { return true }
	z = append(z,
		namedFolder{"bcj2", func(d []byte) *Folder { return BCJ2Chain(d, all, [4][]Stage{}) }, ""},
		namedFolder{"bcj2-lzma", func(d []byte) *Folder {
			return BCJ2Chain(d, all, [4][]Stage{{sLZMA()}, {sLZMA()}, {sLZMA()}, {}})
		}, ""},
		namedFolder{"bcj2-deflate", func(d []byte) *Folder {
			return BCJ2Chain(d, all, [4][]Stage{{sDeflate()}, {sDeflate()}, {sLZMA2()}, {sZstd()}})
		}, ""},
		namedFolder{"bcj2-aes", func(d []byte) *Folder {
			return BCJ2Chain(d, all, [4][]Stage{{sLZMA(), sAES(aesQuick)}, {sAES(aesQuick)}, {sAES(aesQuick)}, {sAES(aesQuick)}})
		}, aesQuick.Password})
	z = append(z, namedFolder{"ppmd", func(d []byte) *Folder { return Chain([]byte(ppmdPlain[:len(d)]), sPPMD()) }, ""})
	return z
}

// zooContent has something to convert for every filter within its first bytes.
func zooContent(n int) []byte {
	b := append([]byte{0xe8, 1, 2, 0, 0, 0x90, 0x4c, 7, 0, 0xeb, 0x48, 0, 1, 1, 0x0f, 0x84, 9, 0, 0, 0}, execContent(max(0, n-20))...)
	return b[:n]
}

func runC02(e *Env) {
	q := e.Quick()
	L := 10
	if !q {
		L = 15
	}
	zoo := methodZoo()

	e.Group("compositions")
	for _, m := range zoo {
		for _, lay := range [][]int{{L}, {3, L, 2}} {
			for _, chunk := range splitRange(1<<(L-1), 128) {
				e.Case(func() string {
					return fmt.Sprintf("%s, files of %v bytes, read-size compositions %d..%d", m.name, lay, chunk[0], chunk[1]-1)
				}, func(t *T) {
					total := 0
					for _, s := range lay {
						total += s
					}
					a := &Archive{}
					f := m.mk(zooContent(total))
					a.AddFolder(f, names(len(lay)), lay)
					b := a.Build()
					ti := len(lay) / 2
					want := a.Entries[ti].Data
					buf := make([]byte, 64)
					k := 0
					r, err := open(b.B, m.pw)
					if err != nil {
						t.Failf("open", "%v", err)
					}
					compositions(L, func(parts []int) {
						k++
						if k-1 < chunk[0] || k-1 >= chunk[1] {
							return
						}
						for v := range 3 {
							t.Eval(1)
							rc := openFile(t, r.File[ti])
							sz := parts
							if v == 2 { // ask for too much with the last read
								sz = append(append([]int{}, parts[:len(parts)-1]...), 40)
							}
							tr := readPlan(t, rc, want, sz, v == 1, buf)
							if err := rc.Close(); err != nil {
								t.Failf("close", "%v", err)
							}
							t.Outcome(m.name, len(lay), tr)
						}
					})
					t.Sample(fmt.Sprintf("%s %v: compositions %d..%d", m.name, lay, chunk[0], chunk[1]-1))
				})
			}
		}
	}

	e.Group("sizes")
	big := 9001
	consts := []int{}
	for k := 1; k <= 40; k++ {
		consts = append(consts, k)
	}
	consts = append(consts, 63, 64, 65, 255, 256, 257, 511, 512, 513, 1000, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 4098, 4099, 4100, 4101, 8190, 8191, 8192, 8193, 9000, 9001, 9002, 32768, 65535, 65536, 70000)
	if !q {
		for k := 41; k <= 300; k++ {
			consts = append(consts, k)
		}
		for k := 4050; k <= 4150; k++ {
			consts = append(consts, k)
		}
	}
	altMax := 8
	if !q {
		altMax = 20
	}
	for _, m := range zoo {
		n := big
		if m.name == "ppmd" {
			n = 6000
		}
		mk := func(t *T) (*sevenzip.Reader, *Archive) {
			a := &Archive{}
			f := m.mk(zooContent(n))
			a.AddFolder(f, names(3), []int{4090, n - 4090 - 500, 500})
			b := a.Build()
			r, err := open(b.B, m.pw)
			if err != nil {
				t.Failf("open", "%v", err)
			}
			return r, a
		}
		whole := func(t *T) (*sevenzip.Reader, *Archive) {
			a := &Archive{}
			f := m.mk(zooContent(n))
			a.AddFolder(f, names(1), []int{n})
			r, err := open(a.Build().B, m.pw)
			if err != nil {
				t.Failf("open", "%v", err)
			}
			return r, a
		}
		for _, ch := range splitRange(len(consts), 24) {
			e.Case(func() string { return fmt.Sprintf("%s: constant read sizes %v", m.name, consts[ch[0]:ch[1]]) }, func(t *T) {
				buf := make([]byte, 70000)
				r1, a1 := whole(t)
				r3, a3 := mk(t)
				for _, k := range consts[ch[0]:ch[1]] {
					t.Eval(4)
					rc := openFile(t, r1.File[0])
					t.Outcome(m.name, "w", k, readPlan(t, rc, a1.Entries[0].Data, []int{k}, false, buf))
					_ = rc.Close()
					for _, i := range []int{0, 1, 2} {
						rc := openFile(t, r3.File[i])
						t.Outcome(m.name, i, k, readPlan(t, rc, a3.Entries[i].Data, []int{k}, k%3 == 0, buf))
						_ = rc.Close()
					}
				}
			})
		}
		e.Case(func() string {
			return fmt.Sprintf("%s: alternating read sizes up to %d, after a first read of 0..5000 bytes", m.name, altMax)
		}, func(t *T) {
			buf := make([]byte, 70000)
			r3, a3 := mk(t)
			for x := 1; x <= altMax; x++ {
				for y := 1; y <= altMax; y++ {
					t.Eval(1)
					var s []int
					for range n {
						s = append(s, x, y)
					}
					rc := openFile(t, r3.File[2])
					t.Outcome(m.name, "alt", x, y, readPlan(t, rc, a3.Entries[2].Data, s, false, buf))
					_ = rc.Close()
				}
			}
			r1, a1 := whole(t)
			for _, first := range []int{1, 2, 3, 4, 5, 100, 4090, 4095, 4096, 4097, 5000} {
				for _, second := range []int{1, 2, 3, 4, 5, 6, 7, 8, 100, 4095, 4096, 4097} {
					t.Eval(1)
					rc := openFile(t, r1.File[0])
					t.Outcome(m.name, "fs", first, second, readPlan(t, rc, a1.Entries[0].Data, []int{first, second, 1 << 16}, false, buf))
					_ = rc.Close()
				}
			}
		})
	}

	e.Group("short-reads")
	short := shortReads()
	type under struct {
		name string
		mk   func(d []byte) *Folder
		n    int
		cuts int // at most so many cuts (0: all compositions)
	}
	var us []under
	sh := sShort()
	for _, f := range append(allFilters(), sDelta(2), sDelta(3), sDelta(5), sDelta(256), sCopy()) {
		us = append(us, under{f.Name, func(d []byte) *Folder { return Chain(d, f, sh) }, 11, 0})
		us = append(us, under{f.Name + "/long", func(d []byte) *Folder { return Chain(d, f, sh) }, 300, 2})
	}
	for _, c := range allCompressors()[1:] {
		us = append(us, under{c.Name, func(d []byte) *Folder { return Chain(d, c, sh) }, 30, 2})
	}
	us = append(us, under{"aes", func(d []byte) *Folder { return Chain(d, sAES(aesQuick), sh) }, 33, 3})
	for k := range 4 {
		for _, main := range []Stage{sCopy(), sDeflate()} {
			us = append(us, under{fmt.Sprintf("bcj2[%d] main %s", k, main.Name), func(d []byte) *Folder {
				var st [4][]Stage
				st[0] = []Stage{main}
				if k == 0 {
					st[0] = append(st[0], sh)
				} else {
					st[k] = []Stage{sh}
				}
				return BCJ2Chain(d, func(int) bool { return true }, st)
			}, 20, 2})
		}
	}
	if !q {
		for i := range us {
			if us[i].cuts > 0 && us[i].n < 100 {
				us[i].cuts++
			}
			if us[i].cuts == 0 {
				us[i].n = 14
			}
		}
	}
	for _, u := range us {
		for style := range 3 {
			for part := range 4 {
				e.Case(func() string {
					return fmt.Sprintf("%s over short reads, end reported %s, part %d", u.name, []string{"separately", "with the last data", "separately, after an empty read"}[style], part)
				}, func(t *T) {
					a := &Archive{}
					f := u.mk(zooContent(u.n))
					a.AddFolder(f, names(2), []int{u.n - 3, 3})
					r, err := open(a.Build().B, aesQuick.Password)
					if err != nil {
						t.Failf("open", "%v", err)
					}
					pn := 0
					for i, c := range f.Coders {
						if bytes.Equal(c.ID, idShort) {
							pn = int(f.Sizes[i])
						}
					}
					buf := make([]byte, 512)
					run := func(parts []int) {
						for _, sizes := range [][]int{{1}, {3}, {5}, {256}, {2, 1}} {
							t.Eval(1)
							*short = shortPlan{append([]int{}, parts...), style}
							rc := openFile(t, r.File[0])
							x := readPlan(t, rc, a.Entries[0].Data, sizes, false, buf)
							_ = rc.Close()
							rc = openFile(t, r.File[1])
							readPlan(t, rc, a.Entries[1].Data, sizes, false, buf)
							_ = rc.Close()
							t.Outcome(u.name, style, x)
						}
					}
					k := 0
					if u.cuts == 0 {
						compositions(pn, func(parts []int) {
							if k++; k%4 == part {
								run(parts)
							}
						})
					} else {
						cutSets(pn, u.cuts, func(parts []int) {
							if k++; k%4 == part {
								run(parts)
							}
						})
						// regular chopping
						for c := 1; c <= min(pn, 40); c++ {
							if c%4 != part {
								continue
							}
							var parts []int
							for s := pn; s > 0; s -= c {
								parts = append(parts, min(s, c))
							}
							run(parts)
						}
					}
				})
			}
		}
	}
}

// cutSets enumerates all ways to cut n into at most k+1 positive parts, thinning the positions of long inputs to the
// neighbourhood of multiples of four.
func cutSets(n, k int, f func(parts []int)) {
	var pos []int
	for i := 1; i < n; i++ {
		if n <= 64 || i < 20 || i > n-10 || (i > 250 && i < 262) {
			pos = append(pos, i)
		}
	}
	var rec func(start int, cuts []int)
	rec = func(start int, cuts []int) {
		var parts []int
		last := 0
		for _, c := range append(append([]int{}, cuts...), n) {
			if c > last {
				parts = append(parts, c-last)
			}
			last = c
		}
		f(parts)
		if len(cuts) == k {
			return
		}
		for i := start; i < len(pos); i++ {
			rec(i+1, append(append([]int{}, cuts...), pos[i]))
		}
	}
	rec(0, nil)
}

func splitRange(n, step int) [][2]int {
	var out [][2]int
	for i := 0; i < n; i += step {
		out = append(out, [2]int{i, min(n, i+step)})
	}
	return out
}

// a pass-through coder whose reads are short in a prescribed way
type shortPlan struct {
	parts []int
	style int // 0: EOF separately; 1: with the last data; 2: separately after one (0, nil)
}

var idShort = []byte{0x7f, 0x01}

var curShort *shortPlan

func shortReads() *shortPlan {
	if curShort != nil {
		return curShort
	}
	curShort = &shortPlan{}
	sevenzip.RegisterDecompressor(idShort, func(_ []byte, _ uint64, in []io.ReadCloser) (io.ReadCloser, error) {
		return &shortReader{in[0], *curShort, 0, 0}, nil
	})
	return curShort
}

func sShort() Stage {
	return Stage{"short", func(in []byte) (Coder, []byte) { return Coder{ID: idShort}, in }}
}

type shortReader struct {
	rc   io.ReadCloser
	plan shortPlan
	i    int
	used int
}

func (s *shortReader) Close() error { return s.rc.Close() }

func (s *shortReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if s.i >= len(s.plan.parts) {
		if s.plan.style == 2 && s.i == len(s.plan.parts) {
			s.i++
			return 0, nil
		}
		return 0, io.EOF
	}
	k := min(len(p), s.plan.parts[s.i]-s.used)
	n, err := io.ReadFull(s.rc, p[:k])
	if err != nil {
		return n, errors.New("harness: input shorter than planned")
	}
	s.used += n
	if s.used == s.plan.parts[s.i] {
		s.i++
		s.used = 0
	}
	if s.i == len(s.plan.parts) && s.plan.style == 1 {
		return n, io.EOF
	}
	return n, nil
}
