package main

import (
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/bodgit/sevenzip"
)

func init() {
	register(&Check{ID: "C05", Level: "exploration",
		Rule: "all entry-kind sequences up to a length x partitions into streams (with streams of no files) x digest placement x header encodings; all definedness masks of times and attributes; all magnitudes of numbers in all encodings; every Unicode scalar value in names, surrogate pairs across buffer boundaries, long names; all property orders with padding records; every alignment of the header against the 4 KiB buffer; headers encoded by every method; file counts across number-encoding boundaries. The listing is compared field by field with the written model; an outcome is a distinct header.",
		Run:  runC05})
}

// expTime is the instant of a FILETIME.
func expTime(v *uint64) time.Time {
	if v == nil {
		return time.Time{}
	}
	return time.Unix(int64(*v/10000000)-11644473600, int64(*v%10000000)*100).UTC()
}

func expIsDir(attr uint32) bool {
	if attr&0xf0000000 != 0 {
		return attr>>28 == 4
	}
	return attr&0x10 != 0
}

// listExpect is what a listing must show.
type listExpect struct {
	Name    string
	Size    uint64
	CRC     uint32
	C, A, M time.Time
	Attr    uint32
	Stream  int
	Empty   bool
}

func expectList(a *Archive) []listExpect {
	var out []listExpect
	if a.Opts.NoFiles {
		return nil
	}
	fi, left := 0, 0
	next := func() int {
		for left == 0 {
			left = a.Folders[fi].NumSub
			fi++
		}
		left--
		return fi - 1
	}
	for i := range a.Entries {
		e := &a.Entries[i]
		x := listExpect{Name: e.Name, C: expTime(e.C), A: expTime(e.A), M: expTime(e.M), Empty: !e.HasStream}
		if a.Opts.NoNames {
			x.Name = ""
		}
		if e.Attr != nil {
			x.Attr = *e.Attr
		}
		if expIsDir(x.Attr) && !strings.HasSuffix(x.Name, "/") {
			x.Name += "/"
		}
		if e.HasStream {
			x.Stream = next()
			x.Size = e.Size
			f := a.Folders[x.Stream]
			if f.NumSub == 1 && f.CRC != nil {
				x.CRC = *f.CRC
			} else if e.CRC != nil {
				x.CRC = *e.CRC
			}
		}
		out = append(out, x)
	}
	return out
}

// diffList describes the first difference between a listing and the expectation.
func diffList(r *sevenzip.Reader, want []listExpect) string {
	if len(r.File) != len(want) {
		return fmt.Sprintf("%d entries listed, want %d", len(r.File), len(want))
	}
	for i, w := range want {
		f := r.File[i]
		switch {
		case f.Name != w.Name:
			return fmt.Sprintf("entry %d: name %q, want %q", i, clipS(f.Name), clipS(w.Name))
		case f.UncompressedSize != w.Size:
			return fmt.Sprintf("entry %d: size %d, want %d", i, f.UncompressedSize, w.Size)
		case f.CRC32 != w.CRC:
			return fmt.Sprintf("entry %d: CRC %08x, want %08x", i, f.CRC32, w.CRC)
		case f.Attributes != w.Attr:
			return fmt.Sprintf("entry %d: attributes %08x, want %08x", i, f.Attributes, w.Attr)
		case !sameTime(f.Created, w.C):
			return fmt.Sprintf("entry %d: created %v, want %v", i, f.Created, w.C)
		case !sameTime(f.Accessed, w.A):
			return fmt.Sprintf("entry %d: accessed %v, want %v", i, f.Accessed, w.A)
		case !sameTime(f.Modified, w.M):
			return fmt.Sprintf("entry %d: modified %v, want %v", i, f.Modified, w.M)
		case !w.Empty && f.Stream != w.Stream:
			return fmt.Sprintf("entry %d: stream %d, want %d", i, f.Stream, w.Stream)
		}
	}
	return ""
}

func sameTime(a, b time.Time) bool { return a.Equal(b) && a.IsZero() == b.IsZero() }

func clipS(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%s...(%d bytes)...%s", s[:30], len(s), s[len(s)-20:])
	}
	return s
}

// listing builds, opens and compares.
func listing(t *T, a *Archive) *sevenzip.Reader {
	t.Eval(1)
	b := a.Build()
	t.Outcome(b.B[b.HdrStart:])
	r, err := open(b.B, aesQuick.Password)
	if err != nil {
		t.Failf("open", "opening: %v\nplain header (%d bytes) %s", err, len(b.Plain), hexClip(b.Plain))
	}
	if d := diffList(r, expectList(a)); d != "" {
		t.Failf("listing", "%s\nplain header (%d bytes) %s", d, len(b.Plain), hexClip(b.Plain))
	}
	for i := range a.Entries {
		if a.Opts.NoFiles || a.Entries[i].HasStream {
			continue
		}
		rc, err := r.File[i].Open()
		if err != nil {
			t.Failf("empty", "entry %d without data: opening: %v", i, err)
		}
		if n, err := rc.Read(make([]byte, 8)); n != 0 || err != io.EOF { //nolint:errorlint
			t.Failf("empty", "entry %d without data: read %d, %v", i, n, err)
		}
		_ = rc.Close()
	}
	return r
}

func ftime(i int) *uint64 {
	return p64(116444736000000000 + uint64(i)*864000000001 + 1234567)
}

// meta sets the times and attributes given by the mask bits (c, a, m, attr).
func meta(e *Entry, i, mask int) {
	e.C, e.A, e.M, e.Attr = nil, nil, nil, nil
	if mask&1 != 0 {
		e.C = ftime(4*i + 1)
	}
	if mask&2 != 0 {
		e.A = ftime(4*i + 2)
	}
	if mask&4 != 0 {
		e.M = ftime(4*i + 3)
	}
	if mask&8 != 0 {
		e.Attr = p32(0x20 + uint32(i)*0x100000)
	}
}

// rawFolder is a stored folder of n bytes.
func rawFolder(n int) *Folder {
	return &Folder{Coders: []Coder{{ID: idCopy}}, Packed: []int{0}, Sizes: []uint64{uint64(n)}, Packs: [][]byte{make([]byte, n)}, Data: make([]byte, n)}
}

// wideFolder has several coders and packed streams (BCJ2 over LZMA), for the listing only.
func wideFolder(n int) *Folder {
	return BCJ2Chain(zooContent(n), func(int) bool { return true }, [4][]Stage{{sLZMA()}, {sLZMA()}, {sLZMA()}, {}})
}

func runC05(e *Env) {
	q := e.Quick()

	e.Group("shapes")
	maxN := 4
	if !q {
		maxN = 5
	}
	optVars := []func(o *Opts){
		func(o *Opts) {}, func(o *Opts) { o.NoSubStreams = true }, func(o *Opts) { o.OmitNumUnpack = true },
		func(o *Opts) { o.FolderCRCVector, o.SubCRCVector = true, true }, func(o *Opts) { o.EmptyVectors = true; o.OmitSizes = true },
		func(o *Opts) { o.NumLen = 1 }, func(o *Opts) { o.NumLen = 8; o.VectorProps = true }, func(o *Opts) { o.PackCRC = 2; o.PackPos = 3 },
	}
	const kinds = "DZEFN" // data, empty data with a stream, empty file, folder (directory), no data and no attributes
	for n := 0; n <= maxN; n++ {
		forStrings([]byte(kinds), n, func(s []byte) bool {
			seq := string(s)
			e.Case(func() string { return fmt.Sprintf("entries %q, all partitions, digests and encodings", seq) }, func(t *T) {
				var data []int
				for i := range seq {
					if seq[i] == 'D' || seq[i] == 'Z' {
						data = append(data, i)
					}
				}
				mk := func(parts []int, hollow int, dig int, ov func(o *Opts)) {
					a := &Archive{}
					k := 0
					type pf struct{ a, b int }
					var fs []pf
					for _, p := range parts {
						fs = append(fs, pf{k, k + p})
						k += p
					}
					size := func(j int) int {
						if seq[data[j]] == 'Z' {
							return 0
						}
						return 3 + j
					}
					ent := map[int]Entry{}
					bit := 0
					next := func() bool { b := dig>>bit&1 == 1; bit++; return b }
					addHollow := func() { f := rawFolder(2); f.NumSub = 0; a.Folders = append(a.Folders, f) }
					if hollow == 1 {
						addHollow()
					}
					for fi, p := range fs {
						tot := 0
						for j := p.a; j < p.b; j++ {
							tot += size(j)
						}
						f := rawFolder(tot)
						f.NumSub = p.b - p.a
						if next() {
							f.CRC = p32(0xf0000000 + uint32(fi))
						}
						for j := p.a; j < p.b; j++ {
							x := Entry{HasStream: true, Size: uint64(size(j))}
							if next() {
								x.CRC = p32(0xc0000000 + uint32(j))
							}
							ent[data[j]] = x
						}
						a.Folders = append(a.Folders, f)
						if hollow == 2 && fi == 0 {
							addHollow()
						}
					}
					for i := range seq {
						x := ent[i]
						x.Name = fmt.Sprintf("n%d", i)
						if i&1 == 0 {
							x.M = ftime(i)
						}
						switch seq[i] {
						case 'D':
							x.Attr = p32(0x20)
						case 'E':
							x.EmptyFile = true
							x.Attr = p32(0x80)
						case 'F':
							x.Attr = p32(0x10)
						}
						a.Entries = append(a.Entries, x)
					}
					ov(&a.Opts)
					listing(t, a)
				}
				if len(data) == 0 {
					for _, ov := range optVars {
						mk(nil, 0, 0, ov)
						mk(nil, 1, 0, ov)
					}
					return
				}
				compositions(len(data), func(parts []int) {
					parts = append([]int{}, parts...)
					for hollow := range 3 {
						for dig := range 1 << (len(parts) + len(data)) {
							for _, ov := range optVars {
								mk(parts, hollow, dig, ov)
							}
						}
					}
				})
				t.Sample("entries " + seq)
			})
			return true
		})
	}

	e.Group("definedness")
	maskArchive := func(masks []int, ov func(o *Opts)) *Archive {
		a := &Archive{}
		f := rawFolder(len(masks))
		nm := names(len(masks))
		sz := make([]int, len(masks))
		for i := range sz {
			sz[i] = 1
		}
		a.AddFolder(f, nm, sz)
		for i := range a.Entries {
			meta(&a.Entries[i], i, masks[i])
		}
		ov(&a.Opts)
		return a
	}
	for n := 1; n <= 3; n++ {
		for first := range 16 {
			e.Case(func() string {
				return fmt.Sprintf("%d entries, all masks of times and attributes, first %04b", n, first)
			}, func(t *T) {
				d := make([]int, n-1)
				for i := range d {
					d[i] = 16
				}
				forProduct(d, func(v []int) {
					for _, ov := range optVars[4:7] {
						listing(t, maskArchive(append([]int{first}, v...), ov))
					}
				})
			})
		}
	}
	for _, n := range []int{4, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 129} {
		e.Case(func() string { return fmt.Sprintf("%d entries, every single defined / undefined value", n) }, func(t *T) {
			for prop := range 4 {
				for i := range n {
					for inv := range 2 {
						masks := make([]int, n)
						for j := range masks {
							if (j == i) != (inv == 1) {
								masks[j] = 1 << prop
							}
							masks[j] |= 1 << ((prop + 1) % 4)
						}
						listing(t, maskArchive(masks, func(*Opts) {}))
					}
				}
			}
		})
		e.Case(func() string { return fmt.Sprintf("%d entries, every single empty / non-empty entry", n) }, func(t *T) {
			for i := range n {
				for inv := range 4 {
					a := &Archive{}
					for j := range n {
						if (j == i) != (inv&1 == 1) {
							a.AddFolder(rawFolder(j+1), []string{fmt.Sprint("d", j)}, []int{j + 1})
						} else {
							a.Entries = append(a.Entries, Entry{Name: fmt.Sprint("e", j), EmptyFile: (j == i) == (inv&2 == 2)})
						}
					}
					listing(t, a)
				}
			}
		})
		e.Case(func() string { return fmt.Sprintf("%d digests, every single defined / undefined one", n) }, func(t *T) {
			for i := range n {
				for v := range 4 {
					a := &Archive{}
					if v&1 == 0 { // one stream per file, digests per folder
						for j := range n {
							f := rawFolder(1)
							if (j == i) != (v&2 == 2) {
								f.CRC = p32(uint32(j) + 77)
							}
							a.AddFolder(f, []string{fmt.Sprint("d", j)}, []int{1})
							a.Entries[j].CRC = p32(uint32(j) + 1000)
						}
					} else {
						sz := make([]int, n)
						for j := range sz {
							sz[j] = 1
						}
						a.AddFolder(rawFolder(n), names(n), sz)
						for j := range n {
							a.Entries[j].CRC = nil
							if (j == i) != (v&2 == 2) {
								a.Entries[j].CRC = p32(uint32(j) + 1000)
							}
						}
					}
					listing(t, a)
				}
			}
		})
	}

	e.Group("numbers")
	for k := range 63 {
		e.Case(func() string { return fmt.Sprintf("sizes round 2^%d in all encodings", k) }, func(t *T) {
			for _, v := range []uint64{1 << k, 1<<k - 1, 1<<k + 1, 1<<k | 0x55, 0x5a5a5a5a5a5a5a5a & (1<<k - 1)} {
				if v > 1<<63-1 {
					continue
				}
				for nl := range 9 {
					a := &Archive{Opts: Opts{NumLen: nl}}
					f := rawFolder(1)
					f.Sizes[0] = v
					f.NumSub = 1
					a.Folders = append(a.Folders, f)
					a.Entries = []Entry{{Name: "x", HasStream: true, Size: v, CRC: p32(1)}}
					listing(t, a)
					if v == 0 {
						continue
					}
					for _, first := range []uint64{0, 1, v / 3, v - 1, v} {
						f.NumSub = 2
						a.Entries = []Entry{{Name: "x", HasStream: true, Size: first, CRC: p32(1)}, {Name: "y", HasStream: true, Size: v - first, CRC: p32(2)}}
						listing(t, a)
						f.NumSub = 3
						a.Entries = append(a.Entries, Entry{Name: "z", HasStream: true, Size: 0, CRC: p32(3)})
						listing(t, a)
					}
				}
			}
		})
	}
	cnt := []int{}
	for n := 1; n <= 300; n++ {
		cnt = append(cnt, n)
	}
	cnt = append(cnt, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 16383, 16384, 16385, 20000, 65535, 65536, 65537)
	if !q {
		cnt = append(cnt, 131072)
	}
	for _, ch := range splitRange(len(cnt), 4) {
		e.Case(func() string { return fmt.Sprintf("numbers of files %v", cnt[ch[0]:ch[1]]) }, func(t *T) {
			for _, n := range cnt[ch[0]:ch[1]] {
				// one solid stream
				a := &Archive{}
				sz := make([]int, n)
				for i := range sz {
					sz[i] = i % 3
				}
				tot := 0
				for _, s := range sz {
					tot += s
				}
				a.AddFolder(rawFolder(tot), names(n), sz)
				for i := range a.Entries {
					if i%5 != 0 {
						a.Entries[i].CRC = p32(uint32(i) * 77)
					}
					meta(&a.Entries[i], i, i%16)
				}
				listing(t, a)
				// every third of them empty
				a = &Archive{}
				var some []string
				sz = sz[:0]
				for i := range n {
					if i%3 > 0 {
						some, sz = append(some, fmt.Sprint("s", i)), append(sz, 1)
					}
				}
				if len(sz) > 0 {
					a.AddFolder(rawFolder(len(sz)), some, sz)
				}
				for i, k := 0, a.Entries; len(a.Entries) > 0 && i < n; i++ {
					if i == 0 {
						a.Entries = nil
					}
					if i%3 > 0 {
						a.Entries = append(a.Entries, k[0])
						k = k[1:]
					} else {
						a.Entries = append(a.Entries, Entry{Name: fmt.Sprint("e", i), EmptyFile: i%2 == 0, M: ftime(i)})
					}
				}
				listing(t, a)
				if n > 5000 {
					continue
				}
				// many streams
				a = &Archive{}
				for i := range n {
					f := rawFolder(i % 4)
					if i%7 == 3 {
						f = wideFolder(20)
						a.AddFolder(f, []string{"w", "v"}, []int{12, 8})
						continue
					}
					a.AddFolder(f, []string{fmt.Sprint(i)}, []int{i % 4})
				}
				listing(t, a)
				// empty entries only
				a = &Archive{}
				for i := range n {
					a.Entries = append(a.Entries, Entry{Name: fmt.Sprint("e", i), EmptyFile: i%3 != 0, M: ftime(i)})
				}
				listing(t, a)
			}
		})
	}

	e.Group("names")
	one := func(nm ...string) *Archive {
		a := &Archive{}
		sz := make([]int, len(nm))
		for i := range sz {
			sz[i] = 1
		}
		a.AddFolder(rawFolder(len(nm)), nm, sz)
		return a
	}
	for base := 1; base < 0x110000; base += 1024 {
		if base >= 0xd800 && base+1024 <= 0xe000 {
			continue
		}
		e.Case(func() string { return fmt.Sprintf("names over U+%04X..U+%04X", base, base+1023) }, func(t *T) {
			var each []string
			var sb strings.Builder
			for c := base; c < min(base+1024, 0x110000); c++ {
				if c >= 0xd800 && c < 0xe000 {
					continue
				}
				sb.WriteRune(rune(c))
				each = append(each, string(rune(c)))
			}
			listing(t, one(each...))
			listing(t, one("a", sb.String(), "b"))
			// each of them at the start, inside and at the end of the first and of the last name
			for _, s := range each {
				listing(t, one(s))
				listing(t, one(s+"x", "x"+s))
				if q && base%(16*1024) != 1 && base >= 0x10000 {
					continue
				}
				listing(t, one("x"+s, s+"y", s+s))
			}
		})
	}
	special := []string{"\ufeff", "\ufffe", "\uffff", "a", "\U0001f600", "\u0100", "\u6100", "\ufffd", "\U0010ffff", " ", "\u0301", "\ud7ff"}
	for _, c0 := range special {
		e.Case(func() string {
			return fmt.Sprintf("all pairs of short names of special characters starting with %+q", c0)
		}, func(t *T) {
			var all []string
			for n := range 3 {
				dims := make([]int, n)
				for i := range dims {
					dims[i] = len(special)
				}
				forProduct(dims, func(v []int) {
					s := ""
					for _, k := range v {
						s += special[k]
					}
					all = append(all, s)
				})
			}
			for i, s := range all {
				listing(t, one(c0+s))
				listing(t, one(c0+s, all[(i*7)%len(all)]+"."))
				listing(t, one("", c0+s, s+c0))
				if !q || len(s) < 5 {
					for _, x := range all[:1+len(special)] {
						listing(t, one(c0+s, x))
						listing(t, one(x, c0+s))
					}
				}
			}
		})
	}
	var lens []int
	for n := 1; n <= 200; n++ {
		lens = append(lens, n)
	}
	for _, c := range []int{1024, 2048, 4096, 8192, 32768, 65536} {
		for d := -12; d <= 12; d++ {
			lens = append(lens, c+d)
		}
	}
	lens = append(lens, 70000, 131072, 200000, 1<<20)
	for _, ch := range splitRange(len(lens), 10) {
		e.Case(func() string { return fmt.Sprintf("name lengths %v", lens[ch[0]:ch[1]]) }, func(t *T) {
			for _, n := range lens[ch[0]:ch[1]] {
				listing(t, one(strings.Repeat("n", n)))
				listing(t, one("a", strings.Repeat("\u4e16", n), "b"))
				listing(t, one("a", strings.Repeat("z", n-1)+"\U0001f600", "\ufeffb"))
			}
		})
	}
	e.Case(func() string { return "empty names, and no names at all" }, func(t *T) {
		for m := range 16 {
			nm := make([]string, 4)
			for i := range nm {
				if m>>i&1 == 1 {
					nm[i] = fmt.Sprint("n", i)
				}
			}
			listing(t, one(nm...))
			a := one(nm...)
			a.Opts.NoNames = true
			listing(t, a)
		}
	})

	e.Group("property-order")
	mixed := func() *Archive {
		a := &Archive{}
		f := wideFolder(30)
		f.CRC = crcOf(f.Data)
		a.AddFolder(f, []string{"wide"}, []int{30})
		a.Entries = append(a.Entries, Entry{Name: "dir", Attr: p32(0x10), M: ftime(5)}, Entry{Name: "empty", EmptyFile: true, C: ftime(6)})
		g := rawFolder(30)
		g.Coders[0].Props = []byte{1, 2, 3}
		a.AddFolder(g, []string{"a\u00e9", "b", "c"}, []int{10, 0, 20})
		a.Entries[1].Attr = p32(0x41ed8010)
		for i := range a.Entries {
			at := a.Entries[i].Attr
			meta(&a.Entries[i], i, 15-i*3%7)
			if at != nil {
				a.Entries[i].Attr = at
			}
		}
		return a
	}
	base := []byte{kEmptyStream, kEmptyFile, kNames, kCTime, kATime, kMTime, kWinAttributes}
	ps := perms(7)
	for _, ch := range splitRange(len(ps), 140) {
		e.Case(func() string { return fmt.Sprintf("property orders %d..%d", ch[0], ch[1]-1) }, func(t *T) {
			for pi := ch[0]; pi < ch[1]; pi++ {
				var o []byte
				es, ef := 0, 0
				for k, x := range ps[pi] {
					o = append(o, base[x])
					if x == 0 {
						es = k
					} else if x == 1 {
						ef = k
					}
				}
				if ef < es {
					continue // needs the number of empty streams
				}
				a := mixed()
				a.Opts.Order = o
				listing(t, a)
				for at := range 8 {
					a.Opts.Dummies = [][2]int{{at, pi % 11}}
					listing(t, a)
				}
				a.Opts.Dummies = [][2]int{{0, 1}, {3, 0}, {3, 7}, {7, 300}}
				listing(t, a)
			}
		})
	}

	e.Group("alignment")
	top := 4200
	if !q {
		top = 8400
	}
	for _, ch := range splitRange(top, 60) {
		e.Case(func() string { return fmt.Sprintf("header shifted by %d..%d bytes of padding", ch[0], ch[1]-1) }, func(t *T) {
			for d := ch[0]; d < ch[1]; d++ {
				a := mixed()
				a.Opts.Dummies = [][2]int{{0, d}}
				listing(t, a)
				// names first, a long one, so that everything else moves
				a = mixed()
				a.Entries[0].Name = strings.Repeat("p", d/2+1)
				listing(t, a)
				// coders, sizes and digests moving over the boundary
				a = &Archive{}
				a.Opts.NumLen = d % 3
				pad := rawFolder(1)
				pad.Coders[0].Props = make([]byte, d+1)
				a.AddFolder(pad, []string{"pad"}, []int{1})
				g := rawFolder(9)
				g.Coders[0].Props = []byte{1, 2, 3, 4, 5, 6, 7}
				a.AddFolder(wideFolder(24), []string{"w"}, []int{24})
				a.AddFolder(g, []string{"x", "y"}, []int{4, 5})
				listing(t, a)
			}
		})
	}

	e.Group("encoded")
	type encM struct {
		name string
		f    func(h []byte) *Folder
	}
	var encs []encM
	for _, c := range allCompressors() {
		encs = append(encs, encM{c.Name, func(h []byte) *Folder { return Chain(h, c) }},
			encM{c.Name + "+aes", func(h []byte) *Folder { return Chain(h, c, sAES(aesQuick)) }},
			encM{"bcj+" + c.Name, func(h []byte) *Folder { return Chain(h, sBCJ(), c) }})
	}
	for _, f := range allFilters() {
		encs = append(encs, encM{f.Name, func(h []byte) *Folder { return Chain(h, f) }})
	}
	encs = append(encs, encM{"bcj2", func(h []byte) *Folder {
		return BCJ2Chain(h, func(int) bool { return true }, [4][]Stage{{sLZMA()}, {sLZMA()}, {sLZMA()}, {}})
	}}, encM{"lzma-eos", func(h []byte) *Folder { return Chain(h, sLZMAp(lzmaDefault, 1<<16, true)) }})
	for _, en := range encs {
		for crc := range 2 {
			e.Case(func() string { return fmt.Sprintf("header encoded by %s, digest %d", en.name, crc) }, func(t *T) {
				for v := range 8 {
					a := mixed()
					optVars[v](&a.Opts)
					a.Opts.Encode, a.Opts.EncodedCRC = en.f, crc == 1
					listing(t, a)
				}
				for d := range 40 {
					a := mixed()
					a.Opts.Encode, a.Opts.EncodedCRC = en.f, crc == 1
					a.Opts.Dummies = [][2]int{{d % 8, d}}
					a.Opts.HeaderGap = d
					listing(t, a)
				}
				for _, d := range []int{4000, 4050, 4090, 4096, 8192, 40000} {
					a := mixed()
					a.Opts.Encode, a.Opts.EncodedCRC = en.f, crc == 1
					a.Opts.Dummies = [][2]int{{2, d}}
					a.Entries[3].Name = string(text(d, 3))
					listing(t, a)
				}
				a := &Archive{Entries: []Entry{{Name: "only", EmptyFile: true}}}
				a.Opts.Encode, a.Opts.EncodedCRC = en.f, crc == 1
				listing(t, a)
			})
		}
	}
	for _, c := range []Stage{sLZMA(), sDeflate(), sZstd()} {
		for _, ch := range splitRange(2100, 60) {
			e.Case(func() string { return fmt.Sprintf("header encoded by %s, shifted by %d..%d", c.Name, ch[0], ch[1]-1) }, func(t *T) {
				for d := ch[0]; d < ch[1]; d += 1 {
					if q && d%4 != 0 {
						continue
					}
					a := mixed()
					a.Opts.Encode, a.Opts.EncodedCRC = func(h []byte) *Folder { return Chain(h, c) }, true
					a.Opts.Dummies = [][2]int{{0, d * 2}}
					listing(t, a)
				}
			})
		}
	}

	e.Group("layout")
	e.Case(func() string { return "gaps before and after the packed streams" }, func(t *T) {
		for pp := range 40 {
			for gap := range 40 {
				a := mixed()
				a.Opts.PackPos, a.Opts.HeaderGap = uint64(pp), gap
				r := listing(t, a)
				wantAll(t, r, a.Entries)
			}
		}
	})
	e.Case(func() string { return "archives without files, streams or header" }, func(t *T) {
		listing(t, &Archive{})
		listing(t, &Archive{Opts: Opts{NoFiles: true}})
		a := mixed()
		a.Opts.NoFiles = true
		listing(t, a)
		t.Eval(1)
		b := Assemble(nil, nil)
		r, err := open(b, "")
		if err != nil {
			t.Failf("open", "archive without a header: %v", err)
		}
		if len(r.File) != 0 {
			t.Failf("listing", "archive without a header lists %d files", len(r.File))
		}
		if _, err := r.Open("."); err != nil {
			t.Failf("listing", "archive without a header: root: %v", err)
		}
	})
}
