package main

// C19: opening an archive takes memory in proportion to the header data that is there.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"io/fs"
	"math/bits"
	"runtime"
	"strings"

	"github.com/bodgit/sevenzip"
)

func init() {
	register(&Check{
		ID: "C19", Level: "exploration", MemLimit: 24 << 30,
		Rule: "for archives covering every header record, plain and encoded by every method: every count and size field x every power of two and its neighbours and boundary values, unbacked (header ends there), as written, " +
			"and followed by up to 64 KB of data that looks like more of it; every pair of fields x claims; all header token strings up to a length with large claims among the tokens; start header fields; and sound headers with " +
			"up to 100,000 of every kind of record. The memory allocated while opening, and listing the root, is at most a constant (that the decoders of an encoded header need) plus 8 KiB per byte of header data present",
		Assumptions: []string{"dictionaries that an encoded header's method asks for are kept small"},
		Run:         runC19,
		Explain:     "allocation is what the runtime counts (TotalAlloc), not a sample of the memory in use",
	})
}

const (
	perByte19 = 8 << 10
	const19   = 256 << 10
)

// alloc19 is what opening and listing allocates.
func alloc19(b []byte, pw string) (uint64, *sevenzip.Reader, error) {
	rd := bytes.NewReader(b)
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	r, err := sevenzip.NewReaderWithPassword(rd, int64(len(b)), pw)
	if err == nil {
		_, _ = fs.ReadDir(r, ".")
	}
	runtime.ReadMemStats(&m1)
	return m1.TotalAlloc - m0.TotalAlloc, r, err
}

func runC19(e *Env) {
	q := e.Quick()
	limitDecoders()
	pw := aesQuick.Password
	// check: the header data amounts to hdr bytes, decoders need base
	check := func(t *T, b []byte, hdr int, base uint64, what func() string) bool {
		a, _, err := alloc19(b, pw)
		t.Eval(1)
		if limit := base + const19 + uint64(hdr)*perByte19; a > limit {
			again, _, _ := alloc19(b, pw)
			if again > limit {
				t.Failf("allocation", "%s: opening allocates %d bytes (%d the second time), with %d bytes of header (err: %v)", what(), a, again, hdr, err)
			}
		}
		if a > base+const19 {
			t.Max("allocated beyond the constant, per byte of header", int64((a-base-const19)/uint64(max(1, hdr))))
		}
		t.Max("allocated, of the permitted (percent)", int64(100*a/(base+const19+uint64(hdr)*perByte19)))
		return err == nil
	}

	var claims []uint64
	{
		seen := map[uint64]bool{}
		add := func(v uint64) {
			if !seen[v] {
				seen[v] = true
				claims = append(claims, v)
			}
		}
		for v := range uint64(20) {
			add(v)
		}
		for k := range 64 {
			add(1<<k - 1)
			add(1 << k)
			add(1<<k + 1)
		}
		for _, v := range boundary {
			add(v)
		}
		add(1000)
		add(1023)
		add(1025)
		add(1<<64 - 1)
	}

	for _, mb := range malBases() {
		base := mb.a.Build()
		num := map[int]int{}
		{
			k, enc := 0, false
			for i, f := range base.Fields {
				if f.Name == "id.encoded" {
					enc, k = true, 0
				}
				num[i] = k
				if enc {
					num[i] += 100000
				}
				k++
			}
		}
		// without encoding the constant alone has to do
		var need uint64
		if mb.a.Opts.Encode != nil {
			need, _, _ = alloc19(base.B, pw)
			need = 2*need + 1<<20
		}
		hdrLen := func(bu *Built) int {
			h := len(bu.B) - bu.HdrStart
			if mb.a.Opts.Encode != nil {
				h += len(bu.Plain)
			}
			return h
		}
		e.Group("every field")
		for i, f := range base.Fields {
			if f.Kind != 'n' && f.Kind != 'b' {
				continue
			}
			e.Case(func() string { return fmt.Sprintf("%s: field %d %s, every claim", mb.name, i, f.Name) }, func(t *T) {
				vals := claims
				if f.Kind == 'b' {
					vals = nil
					for v := range uint64(256) {
						vals = append(vals, v)
					}
				}
				for _, v := range vals {
					what := func() string { return fmt.Sprintf("%s, field %s is %d", mb.name, f.Name, v) }
					bu := mb.a.BuildWith(map[int]uint64{num[i]: v}, nil)
					check(t, bu.B, hdrLen(bu), need, what)
					// the header ends after the field, or goes on with other data
					hdr := bu.B[bu.HdrStart:]
					body := bu.B[32:bu.HdrStart]
					if num[i] < 100000 && mb.a.Opts.Encode != nil {
						continue
					}
					pos := bu.Fields[i].End
					if pos > len(hdr) {
						continue
					}
					tails := []int{0, 1, 8, 300, 5000}
					if !q {
						tails = append(tails, 2, 64, 1024, 1025, 64<<10)
					}
					for _, n := range tails {
						for _, c := range []byte{0, 1, 0xff, 0x80} {
							if n == 0 && c != 0 {
								continue
							}
							h := append(bytes.Clone(hdr[:pos]), bytes.Repeat([]byte{c}, n)...)
							check(t, Assemble(body, h), len(h)+len(base.Plain), need, func() string {
								return fmt.Sprintf("%s, then %d bytes %02x", what(), n, c)
							})
						}
					}
				}
				t.Outcome(mb.name, i)
			})
		}
		e.Group("pairs of fields")
		few := []uint64{0, 1, 2, 3, 200, 1024, 1 << 16, 1 << 20, 1 << 26, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63}
		if q {
			few = []uint64{0, 1, 2, 5000, 1 << 20, 1 << 28, 1<<32 - 1, 1 << 63}
		}
		for i, f := range base.Fields {
			if f.Kind != 'n' {
				continue
			}
			e.Case(func() string { return fmt.Sprintf("%s: field %d %s with every other", mb.name, i, f.Name) }, func(t *T) {
				for j := i + 1; j < len(base.Fields); j++ {
					g := base.Fields[j]
					second := few
					switch g.Kind {
					case 'b':
						second = []uint64{0, 1, 2, 5, 9, 10, 13, 0x19, 0xff}
					case 'r':
						continue
					}
					for _, v := range few {
						for _, w := range second {
							bu := mb.a.BuildWith(map[int]uint64{num[i]: v, num[j]: w}, nil)
							check(t, bu.B, hdrLen(bu), need, func() string {
								return fmt.Sprintf("%s, fields %s and %s are %d and %d", mb.name, f.Name, g.Name, v, w)
							})
						}
					}
				}
			})
		}
	}

	e.Group("start header")
	e.Case(func() string { return "claimed offset and size of the header, and of the input" }, func(t *T) {
		for _, mb := range malBases() {
			base := mb.a.Build()
			need, _, _ := alloc19(base.B, pw)
			for _, v := range claims {
				for _, w := range []uint64{uint64(len(base.B) - base.HdrStart), v, 1 << 40, 1<<63 - 1} {
					for _, off := range []uint64{uint64(base.HdrStart - 32), v} {
						b := withStart(base.B, off, w)
						check(t, b, len(b), 2*need+1<<20, func() string { return fmt.Sprintf("%s: header of %d bytes at %d", mb.name, w, off) })
					}
				}
			}
		}
	})

	e.Group("token strings")
	// numbers as tokens: small ones, and claims of 2^14, 2^20, 2^28 and 2^32-1
	toks := [][]byte{{0}, {1}, {2}, {3}, {5}, {6}, {7}, {8}, {9}, {10}, {11}, {12}, {13}, {14}, {15}, {17}, {20}, {21}, {25}, num7z(1<<14, 0), num7z(1<<20, 0), num7z(1<<28, 0), num7z(1<<32-1, 0)}
	pre := []struct {
		name string
		b    []byte
	}{
		{"header", []byte{1}}, {"pack info", []byte{1, 4, 6, 0}}, {"digests of packed streams", []byte{1, 4, 6, 0, 1, 9, 1, 10}},
		{"folders", []byte{1, 4, 6, 0, 1, 9, 1, 0, 7, 11}},
		{"coders", []byte{1, 4, 6, 0, 1, 9, 1, 0, 7, 11, 1, 0}},
		{"coder", []byte{1, 4, 6, 0, 1, 9, 1, 0, 7, 11, 1, 0, 1}},
		{"complex coder", []byte{1, 4, 6, 0, 1, 9, 1, 0, 7, 11, 1, 0, 1, 0x11, 0}},
		{"complex coder with properties", []byte{1, 4, 6, 0, 1, 9, 1, 0, 7, 11, 1, 0, 1, 0x31, 0}},
		{"two coders", []byte{1, 4, 6, 0, 1, 9, 1, 0, 7, 11, 1, 0, 2, 0x11, 0, 1, 1, 0x11, 0}},
		{"unpack sizes", []byte{1, 4, 6, 0, 1, 9, 1, 0, 7, 11, 1, 0, 1, 1, 0, 12}},
		{"substreams", []byte{1, 4, 6, 0, 1, 9, 3, 0, 7, 11, 1, 0, 1, 1, 0, 12, 3, 0, 8}},
		{"numbers of substreams", []byte{1, 4, 6, 0, 1, 9, 3, 0, 7, 11, 1, 0, 1, 1, 0, 12, 3, 0, 8, 13}},
		{"substreams of two folders", []byte{1, 4, 6, 0, 2, 9, 1, 1, 0, 7, 11, 2, 0, 1, 1, 0, 1, 1, 0, 12, 1, 1, 0, 8, 13}},
		{"digests of substreams", []byte{1, 4, 6, 0, 1, 9, 3, 0, 7, 11, 1, 0, 1, 1, 0, 12, 3, 0, 8, 13, 2, 9, 1, 10}},
		{"files", []byte{1, 5}}, {"files after streams", []byte{1, 4, 6, 0, 1, 9, 3, 0, 7, 11, 1, 0, 1, 1, 0, 12, 3, 0, 8, 13, 2, 9, 1, 0, 0, 5}},
	}
	for v := range 25 {
		for _, n := range [][]byte{{1}, {2}, num7z(1<<20, 0), num7z(1<<32-1, 0)} {
			pre = append(pre, struct {
				name string
				b    []byte
			}{fmt.Sprintf("files, %x of them, property %d", n, v), append(append([]byte{1, 5}, n...), byte(v))})
		}
	}
	depth := 3
	if !q {
		depth = 4
	}
	for pi, p := range pre {
		e.Case(func() string { return fmt.Sprintf("up to %d tokens after: %s", depth, p.name) }, func(t *T) {
			body := []byte{1, 4, 6}
			d := depth
			if pi >= 16 && q {
				d = 2
			}
			var rec func(h []byte, n int)
			rec = func(h []byte, n int) {
				check(t, Assemble(body, h), len(h), 0, func() string { return fmt.Sprintf("header %x", h) })
				for _, v := range []byte{0, 0xff} {
					h := append(h[:len(h):len(h)], bytes.Repeat([]byte{v}, 40)...)
					check(t, Assemble(body, h), len(h), 0, func() string { return fmt.Sprintf("header %x", h) })
				}
				if n == 0 {
					return
				}
				for _, k := range toks {
					rec(append(h[:len(h):len(h)], k...), n-1)
				}
			}
			rec(p.b, d)
			t.Outcome(p.name)
		})
	}

	e.Group("encoded headers")
	zoo := methodZoo()
	for _, z := range zoo {
		if z.name == "ppmd" {
			continue
		}
		e.Case(func() string { return z.name + ": claimed sizes of an encoded header" }, func(t *T) {
			a := &Archive{}
			a.AddFolder(rawFolder(3), []string{"a"}, []int{3})
			a.Opts.Encode = z.mk
			a.Opts.EncodedCRC = true
			bu := a.Build()
			need, _, err := alloc19(bu.B, pw)
			if err != nil {
				t.Failf("sound", "%s: %v", z.name, err)
			}
			for _, k := range claims {
				for mode := range 6 {
					a.Opts.Encode = func(h []byte) *Folder {
						f := z.mk(h)
						g := *f
						g.Sizes = append([]uint64{}, f.Sizes...)
						g.Packs = append([][]byte{}, f.Packs...)
						switch mode {
						case 0: // all of the sizes
							for i := range g.Sizes {
								g.Sizes[i] = k
							}
						case 1:
							g.Sizes[0] = k
						case 2:
							g.Sizes[len(g.Sizes)-1] = k
						case 3, 4: // without any, or half of the data
							for i := range g.Sizes {
								g.Sizes[i] = k
							}
							for i := range g.Packs {
								g.Packs[i] = g.Packs[i][:len(g.Packs[i])*(mode-3)/2]
							}
						case 5: // other data
							for i := range g.Sizes {
								g.Sizes[i] = k
							}
							for i := range g.Packs {
								g.Packs[i] = pattern(len(g.Packs[i]), uint32(k))
							}
						}
						return &g
					}
					b := a.Build()
					// altered data may decode to anything, but not more than the decoder's ratio allows
					base := 2*need + 1<<20
					if mode == 5 {
						base += 8 << 20 // the probabilities of an LZMA decoder with other parameters
					}
					check(t, b.B, len(b.B)+len(bu.Plain), base, func() string { return fmt.Sprintf("%s: sizes of %d, mode %d", z.name, k, mode) })
				}
			}
			t.Outcome(z.name)
		})
		// claims within the header that is decoded
		e.Case(func() string { return z.name + ": claims within an encoded header" }, func(t *T) {
			a := &Archive{}
			a.AddFolder(rawFolder(3), []string{"a", "b"}, []int{1, 2})
			a.Opts.Encode = z.mk
			bu := a.Build()
			need, _, _ := alloc19(bu.B, pw)
			for i, f := range bu.Fields {
				if f.Name == "id.encoded" {
					break
				}
				if f.Kind != 'n' {
					continue
				}
				for _, v := range []uint64{0, 1000, 1 << 16, 1 << 20, 1 << 26, 1<<32 - 1, 1 << 40, 1<<63 - 1} {
					b := a.BuildWith(map[int]uint64{i: v}, nil)
					check(t, b.B, len(b.B)+len(b.Plain), 2*need+1<<20, func() string { return fmt.Sprintf("%s: field %s is %d", z.name, f.Name, v) })
				}
			}
		})
	}

	e.Group("large sound headers")
	sizes := []int{1, 10, 100, 1000, 5000}
	if !q {
		sizes = append(sizes, 20000, 100000)
	}
	large := []struct {
		name string
		mk   func(n int) *Archive
	}{
		{"files of a folder", func(n int) *Archive {
			a := &Archive{}
			var s []int
			for range n {
				s = append(s, 1)
			}
			a.AddFolder(rawFolder(n), names(n), s)
			return a
		}},
		{"folders", func(n int) *Archive {
			a := &Archive{}
			for i := range n {
				a.AddFolder(rawFolder(1), []string{fmt.Sprint(i)}, []int{1})
			}
			return a
		}},
		{"empty files without names", func(n int) *Archive {
			a := &Archive{Entries: make([]Entry, n)}
			a.Opts.NoNames = true
			return a
		}},
		{"empty files with one letter names", func(n int) *Archive {
			a := &Archive{}
			for i := range n {
				a.Entries = append(a.Entries, Entry{Name: string(rune('a' + i%26)), EmptyFile: true})
			}
			return a
		}},
		{"files with everything", func(n int) *Archive {
			a := &Archive{}
			for i := range n {
				a.Entries = append(a.Entries, Entry{Name: fmt.Sprint(i), EmptyFile: true})
				meta(&a.Entries[i], i, 15)
			}
			return a
		}},
		{"files with every other one's times", func(n int) *Archive {
			a := &Archive{}
			for i := range n {
				a.Entries = append(a.Entries, Entry{Name: fmt.Sprint(i), EmptyFile: true})
				meta(&a.Entries[i], i, (i%2)*15)
			}
			return a
		}},
		{"a name of many letters", func(n int) *Archive {
			return &Archive{Entries: []Entry{{Name: strings.Repeat("x", n), EmptyFile: true}}}
		}},
		{"a name of many parts", func(n int) *Archive {
			n = min(n, 5000) // time is quadratic
			return &Archive{Entries: []Entry{{Name: strings.Repeat("x/", n) + "y", EmptyFile: true}}}
		}},
		{"a coder with many properties", func(n int) *Archive {
			a := &Archive{}
			f := rawFolder(1)
			f.Coders[0].Props = make([]byte, n)
			a.AddFolder(f, []string{"a"}, []int{1})
			return a
		}},
		{"a folder of many coders", func(n int) *Archive {
			n = min(n, 2000) // time is quadratic
			a := &Archive{}
			st := []Stage{}
			for range n {
				st = append(st, sCopy())
			}
			a.AddFolder(Chain([]byte{1}, st...), []string{"a"}, []int{1})
			return a
		}},
		{"padding", func(n int) *Archive {
			a := &Archive{Entries: []Entry{{Name: "a", EmptyFile: true}}}
			for range n {
				a.Opts.Dummies = append(a.Opts.Dummies, [2]int{1, 0})
			}
			return a
		}},
		{"padding of a length", func(n int) *Archive {
			a := &Archive{Entries: []Entry{{Name: "a", EmptyFile: true}}}
			a.Opts.Dummies = [][2]int{{1, n}}
			return a
		}},
	}
	for _, l := range large {
		for _, n := range sizes {
			e.Case(func() string { return fmt.Sprintf("%d times: %s", n, l.name) }, func(t *T) {
				a := l.mk(n)
				bu := a.Build()
				hdr := len(bu.B) - bu.HdrStart
				if !check(t, bu.B, hdr, 0, func() string { return fmt.Sprintf("%d times: %s", n, l.name) }) {
					t.Failf("sound", "%d times: %s is not accepted", n, l.name)
				}
				// cut short at some places
				for i := range 60 {
					c := hdr * i / 60
					h := bu.B[bu.HdrStart : bu.HdrStart+c]
					check(t, Assemble(bu.B[32:bu.HdrStart], h), c, 0, func() string { return fmt.Sprintf("%d times: %s, cut short to %d bytes", n, l.name, c) })
				}
				t.Outcome(l.name, bits.Len(uint(n)))
			})
		}
	}
}

// withStart sets the offset and size of the header.
func withStart(b []byte, off, size uint64) []byte {
	b = bytes.Clone(b)
	binary.LittleEndian.PutUint64(b[12:], off)
	binary.LittleEndian.PutUint64(b[20:], size)
	if lo, hi := off+32, off+32+size; lo <= hi && hi <= uint64(len(b)) {
		binary.LittleEndian.PutUint32(b[28:], crc32.ChecksumIEEE(b[lo:hi]))
	}
	binary.LittleEndian.PutUint32(b[8:], crc32.ChecksumIEEE(b[12:32]))
	return b
}
