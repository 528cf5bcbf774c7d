package main

import (
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"io"
	"os"
	"sort"

	"github.com/bodgit/sevenzip"
)

// Inputs and contents of more than 4 GiB, most of which is zero and isn't held in memory.

// Seg is data at an offset.
type Seg struct {
	Off  uint64
	Data []byte
}

// sparse is an input that is zero but for some segments, which don't overlap.
type sparse struct {
	size int64
	segs []Seg
	read int64
}

func (s *sparse) add(off uint64, d []byte) { s.segs = append(s.segs, Seg{off, d}) }

func (s *sparse) sort() {
	sort.Slice(s.segs, func(i, j int) bool { return s.segs[i].Off < s.segs[j].Off })
}

func (s *sparse) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, fmt.Errorf("negative offset %d", off)
	}
	var err error
	if off >= s.size {
		return 0, io.EOF
	}
	if int64(len(p)) > s.size-off {
		p, err = p[:s.size-off], io.EOF
	}
	s.read += int64(len(p))
	clear(p)
	end := uint64(off) + uint64(len(p))
	i := sort.Search(len(s.segs), func(i int) bool { return s.segs[i].Off+uint64(len(s.segs[i].Data)) > uint64(off) })
	for ; i < len(s.segs) && s.segs[i].Off < end; i++ {
		g := s.segs[i]
		if g.Off >= uint64(off) {
			copy(p[g.Off-uint64(off):], g.Data)
		} else {
			copy(p, g.Data[uint64(off)-g.Off:])
		}
	}
	return len(p), err
}

// startBytes is the start of an archive: signature and start header.
func startBytes(next []byte, off uint64) []byte {
	out := make([]byte, 32)
	copy(out, []byte{'7', 'z', 0xbc, 0xaf, 0x27, 0x1c, 0, 4})
	binary.LittleEndian.PutUint64(out[12:], off)
	binary.LittleEndian.PutUint64(out[20:], uint64(len(next)))
	binary.LittleEndian.PutUint32(out[28:], crc32.ChecksumIEEE(next))
	binary.LittleEndian.PutUint32(out[8:], crc32.ChecksumIEEE(out[12:32]))
	return out
}

// Sparse writes the archive, which starts at the given offset of the input.
func (a *Archive) Sparse(at uint64) *sparse {
	s := &sparse{}
	pos := a.Opts.PackPos
	for _, f := range a.Folders {
		for i := range f.Packs {
			if f.PackSegs != nil {
				for _, g := range f.PackSegs[i] {
					s.add(at+32+pos+g.Off, g.Data)
				}
			} else {
				s.add(at+32+pos, f.Packs[i])
			}
			pos += f.packSize(i)
		}
	}
	w := &HW{extra: a.Opts.NumLen}
	a.header(w)
	next := w.buf
	if a.Opts.Encode != nil {
		f := a.Opts.Encode(w.buf)
		start := pos
		for _, p := range f.Packs {
			s.add(at+32+pos, p)
			pos += uint64(len(p))
		}
		ew := &HW{extra: a.Opts.NumLen}
		ew.Byte(kEncodedHeader, "id.encoded")
		ew.streamsInfo([]*Folder{f}, nil, &a.Opts, start, false)
		next = ew.buf
	}
	pos += uint64(a.Opts.HeaderGap)
	s.add(at, startBytes(next, pos))
	s.add(at+32+pos, next)
	s.size = int64(at + 32 + pos + uint64(len(next)))
	s.sort()
	return s
}

func (s *sparse) open(pw string) (*sevenzip.Reader, error) {
	return sevenzip.NewReaderWithPassword(s, s.size, pw)
}

// zerosBut is a content that is zero but for some segments.
type zerosBut struct {
	size uint64
	segs []Seg
}

// check reads r to its end and compares.
func (z *zerosBut) check(t *T, r io.Reader, bufsize int) error {
	want := &sparse{size: int64(z.size), segs: z.segs}
	want.sort()
	buf, exp := make([]byte, bufsize), make([]byte, bufsize)
	at := uint64(0)
	for idle := 0; ; {
		n, err := r.Read(buf)
		if n > 0 {
			idle = 0
			if at+uint64(n) > z.size {
				return fmt.Errorf("more than %d bytes", z.size)
			}
			if k, _ := want.ReadAt(exp[:n], int64(at)); k != n {
				return fmt.Errorf("harness: %d of %d", k, n)
			}
			if string(buf[:n]) != string(exp[:n]) {
				i := diffAt(buf[:n], exp[:n])
				return fmt.Errorf("wrong byte %#02x instead of %#02x at %d", buf[i], exp[i], at+uint64(i))
			}
			if at>>24 != (at+uint64(n))>>24 {
				t.Beat()
			}
			at += uint64(n)
		}
		if err == io.EOF { //nolint:errorlint
			if at != z.size {
				return fmt.Errorf("end after %d bytes of %d", at, z.size)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("after %d bytes: %w", at, err)
		}
		if idle++; idle > 100 {
			return errNoProgress
		}
	}
}

// lzmaRuns is an LZMA encoder (lc=lp=pb=0) for contents that are nearly all runs of one byte.
type lzmaRuns struct {
	e                            *rangeEncoder
	state                        int
	isMatch, isRep, isG0, isLong [12]uint32
	choice, choice2              uint32
	low, mid                     [8]uint32
	high                         [256]uint32
	lit                          [0x300]uint32
	mChoice                      [2]uint32
	mLow, mMid                   [8]uint32
	mHigh                        [256]uint32
	slot                         [4][64]uint32
	align                        [16]uint32
	prev                         byte
	any                          bool
}

func newLZMARuns() *lzmaRuns {
	l := &lzmaRuns{e: newRangeEncoder(), choice: 1024, choice2: 1024}
	for _, p := range [][]uint32{l.isMatch[:], l.isRep[:], l.isG0[:], l.isLong[:], l.low[:], l.mid[:], l.high[:], l.lit[:]} {
		for i := range p {
			p[i] = 1024
		}
	}
	return l
}

func (l *lzmaRuns) literal(b byte) {
	l.e.bit(&l.isMatch[l.state], false)
	m := 1
	if l.state >= 7 {
		same := true
		for i := 7; i >= 0; i-- {
			bit, mb := int(b>>i&1), int(l.prev>>i&1)
			if same {
				l.e.bit(&l.lit[(1+mb)<<8+m], bit == 1)
				same = bit == mb
			} else {
				l.e.bit(&l.lit[m], bit == 1)
			}
			m = m<<1 | bit
		}
	} else {
		for i := 7; i >= 0; i-- {
			bit := int(b >> i & 1)
			l.e.bit(&l.lit[m], bit == 1)
			m = m<<1 | bit
		}
	}
	switch {
	case l.state < 4:
		l.state = 0
	case l.state < 10:
		l.state -= 3
	default:
		l.state -= 6
	}
	l.prev, l.any = b, true
}

func (l *lzmaRuns) tree(p []uint32, bits, v int) {
	m := 1
	for i := bits - 1; i >= 0; i-- {
		l.e.bit(&p[m], v>>i&1 == 1)
		m = m<<1 | v>>i&1
	}
}

// again repeats the last byte n times, 2 to 273.
func (l *lzmaRuns) again(n int) {
	l.e.bit(&l.isMatch[l.state], true)
	l.e.bit(&l.isRep[l.state], true)
	l.e.bit(&l.isG0[l.state], false)
	l.e.bit(&l.isLong[l.state], true)
	n -= 2
	l.e.bit(&l.choice, n >= 8)
	if n < 8 {
		l.tree(l.low[:], 3, n)
	} else {
		l.e.bit(&l.choice2, n >= 16)
		if n < 16 {
			l.tree(l.mid[:], 3, n-8)
		} else {
			l.tree(l.high[:], 8, n-16)
		}
	}
	if l.state < 7 {
		l.state = 8
	} else {
		l.state = 11
	}
}

func (l *lzmaRuns) run(b byte, n uint64) {
	if n > 0 && (!l.any || l.prev != b) {
		l.literal(b)
		n--
	}
	for n > 0 {
		k := min(n, 273)
		if k == 1 {
			l.literal(b)
		} else {
			l.again(int(k))
		}
		n -= k
	}
}

// encode returns the stream for z.
func (l *lzmaRuns) encode(z *zerosBut) []byte {
	at := uint64(0)
	for _, g := range z.segs {
		l.run(0, g.Off-at)
		for _, b := range g.Data {
			l.literal(b)
		}
		at = g.Off + uint64(len(g.Data))
	}
	l.run(0, z.size-at)
	return l.e.flush()
}

// farCode returns instructions for every filter, with displacements of every magnitude.
func farCode() []byte {
	b := execContent(1500)
	for len(b)%16 != 0 {
		b = append(b, 0)
	}
	for _, v := range []uint32{0, 1, 0x7f, 0xff, 0x1ff, 0xffff, 0x10000, 0x7ffff, 0x80000, 0xfffff, 0x1fffff, 0x200000, 0x3fffff, 0x7fffff, 0x800000, 0xffffff, 0x1000000, 0x1ffffff, 0x2000000, 0x3ffffff} {
		for _, w := range []uint32{v, 0 - v} {
			b = binary.LittleEndian.AppendUint32(b, 0x94000000|w&0x03ffffff)
			b = binary.LittleEndian.AppendUint32(b, 0x90000000|w&3<<29|w<<3&0x00ffffe0|7)
			b = binary.LittleEndian.AppendUint32(b, 0xeb000000|w&0xffffff)
			b = binary.BigEndian.AppendUint32(b, 0x48000001|w<<2&0x03fffffc)
			if w&0x200000 == 0 {
				b = binary.BigEndian.AppendUint32(b, 0x40000000|w&0x3fffff)
			} else {
				b = binary.BigEndian.AppendUint32(b, 0x7fc00000|w&0x3fffff)
			}
			b = append(b, 0xe8)
			b = binary.LittleEndian.AppendUint32(b, w&0x1ffffff|(0-w>>24&1)<<24)
			b = append(b, 0x90, 0x90, 0x90, 0xe9)
			b = binary.LittleEndian.AppendUint32(b, w)
			b = append(b, 0x90, 0x90)
		}
	}
	for len(b)%16 != 0 {
		b = append(b, 0)
	}
	return append(b, make([]byte, 16)...)
}

func runHuge(e *Env) {
	q := e.Quick()
	e.Group("distant streams")
	mk := func() *Archive {
		a := &Archive{}
		d := execContent(3000)
		a.AddFolder(Chain(d, sCopy()), []string{"a", "b"}, []int{1000, 2000})
		a.AddFolder(Chain(d, sARM(), sLZMA2(), sAES(aesQuick)), []string{"c", "d"}, []int{1, 2999})
		a.AddFolder(BCJ2Chain(d, func(k int) bool { return k%3 > 0 }, [4][]Stage{{sLZMA()}, {sLZMA()}, {}, {}}), []string{"e", "f"}, []int{2900, 100})
		a.AddFolder(Chain(d, sDelta(3), sZstd()), []string{"g"}, []int{3000})
		return a
	}
	far := []uint64{0, 1<<31 - 33, 1<<31 - 32, 1 << 31, 1<<32 - 33, 1<<32 - 32, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 33, 5<<32 + 7, 1 << 40, 1 << 53, 1 << 56, 1<<62 + 12345}
	for _, pos := range far {
		for _, before := range []uint64{0, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 17, 1 << 45} {
			for _, enc := range []bool{false, true} {
				e.Case(func() string {
					return fmt.Sprintf("packed streams at %#x, the first of %#x bytes, encoded header %v", pos, before, enc)
				}, func(t *T) {
					a := mk()
					a.Opts.PackPos = pos
					if before > 0 {
						f := &Folder{Coders: []Coder{{ID: idCopy}}, Sizes: []uint64{before}, Packed: []int{0}, Packs: [][]byte{nil}, PackSizes: []uint64{before}, PackSegs: [][]Seg{{{before - 1, []byte{1}}}}, NumSub: 1}
						a.Folders = append([]*Folder{f}, a.Folders...)
						a.Entries = append([]Entry{{Name: "before", HasStream: true, Size: before}}, a.Entries...)
					}
					if enc {
						a.Opts.Encode, a.Opts.EncodedCRC = func(h []byte) *Folder { return Chain(h, sLZMA()) }, true
					}
					for _, stub := range []uint64{0, 5000} {
						t.Eval(1)
						r, err := a.Sparse(stub).open("pa55")
						if err != nil {
							t.Failf("huge-open", "opening: %v", err)
						}
						if len(r.File) != len(a.Entries) {
							t.Failf("huge-list", "%d files", len(r.File))
						}
						for i, en := range a.Entries {
							if r.File[i].UncompressedSize != en.Size {
								t.Failf("huge-size", "%s: size %d want %d", en.Name, r.File[i].UncompressedSize, en.Size)
							}
							if en.Name == "before" {
								continue
							}
							d, err := extract(r.File[i])
							if err != nil || string(d) != string(en.Data) {
								t.Failf("huge-data", "%s at %#x: %d bytes, %v", en.Name, pos, len(d), err)
							}
						}
						t.Outcome("far", pos, before, enc, stub)
					}
				})
			}
		}
	}

	e.Group("large files")
	large := []uint64{1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 4097}
	for _, size := range large {
		e.Case(func() string { return fmt.Sprintf("stored file of %#x bytes and two small ones after it", size) }, func(t *T) {
			big := &zerosBut{size, []Seg{{0, pattern(5000, 1)}, {size/2 - 3, pattern(77, 2)}, {size - 5000, pattern(5000, 3)}}}
			small := [][]byte{pattern(10, 4), pattern(5000, 5)}
			segs := append(append([]Seg{}, big.segs...), Seg{size, append(append([]byte{}, small[0]...), small[1]...)})
			tot := size + 5010
			f := &Folder{Coders: []Coder{{ID: idCopy}}, Sizes: []uint64{tot}, Packed: []int{0}, Packs: [][]byte{nil}, PackSizes: []uint64{tot}, PackSegs: [][]Seg{segs}, NumSub: 3}
			a := &Archive{Folders: []*Folder{f}, Entries: []Entry{{Name: "a", HasStream: true, Size: size}, {Name: "b", HasStream: true, Size: 10}, {Name: "c", HasStream: true, Size: 5000}}}
			r, err := a.Sparse(0).open("")
			if err != nil {
				t.Failf("huge-open", "opening: %v", err)
			}
			t.Eval(3)
			// the ones after it, in a way that skips all of it
			for i := 2; i > 0; i-- {
				d, err := extract(r.File[i])
				if err != nil || string(d) != string(small[i-1]) {
					t.Failf("huge-data", "file %d: %d bytes, %v", i, len(d), err)
				}
				if q && size != 1<<32+4097 {
					break
				}
			}
			rc, err := r.File[0].Open()
			if err != nil {
				t.Failf("huge-file", "%v", err)
			}
			if err := big.check(t, rc, 1<<20); err != nil {
				t.Failf("huge-file", "file of %#x bytes: %v", size, err)
			}
			_ = rc.Close()
			t.Outcome("large", size)
		})
	}

	e.Group("instructions far into a stream")
	code := farCode()
	var wins []uint64
	for k := 16; k <= 32; k++ {
		wins = append(wins, uint64(1)<<k-1600, uint64(1)<<k+uint64(1)<<(k-1)-1600)
	}
	last := wins[len(wins)-2]
	wins = wins[:len(wins)-1]
	total := last + uint64(len(code)) + 8
	for _, f := range []struct {
		name string
		id   []byte
		ref  func([]byte, uint32, bool)
	}{{"bcj", idBCJ, refX86At}, {"arm", idARM, refARMAt}, {"arm64", idARM64, refARM64At}, {"ppc", idPPC, refPPCAt}, {"sparc", idSPARC, refSPARCAt}, {"bcj2", idBCJ2, nil}} {
		e.Case(func() string { return f.name + ": instructions at every magnitude of the position up to 4 GiB" }, func(t *T) {
			z := &zerosBut{size: total}
			fo := &Folder{Coders: []Coder{{ID: f.id}}, Sizes: []uint64{total}, Packed: []int{0}, Packs: [][]byte{nil}, PackSizes: []uint64{total}, NumSub: 1}
			var packed []Seg
			if f.ref != nil {
				for _, w := range wins {
					z.segs = append(z.segs, Seg{w, code})
					d := append([]byte{}, code...)
					f.ref(d, uint32(w), true)
					packed = append(packed, Seg{w, d})
				}
				fo.PackSegs = [][]Seg{packed}
			} else {
				enc := newBCJ2Encoder()
				for _, w := range wins {
					z.segs = append(z.segs, Seg{w, code})
					at := w - uint64(4*enc.converted)
					packed = append(packed, Seg{at, enc.encode(code, uint32(w), func(n int) bool { return n%5 > 0 })})
				}
				rc := enc.e.flush()
				fo.Coders[0].In, fo.Coders[0].Out = 4, 1
				fo.Packed = []int{0, 1, 2, 3}
				fo.Packs = make([][]byte, 4)
				fo.PackSizes = []uint64{total - uint64(4*enc.converted), uint64(len(enc.call)), uint64(len(enc.jump)), uint64(len(rc))}
				fo.PackSegs = [][]Seg{packed, {{0, enc.call}}, {{0, enc.jump}}, {{0, rc}}}
			}
			a := &Archive{Folders: []*Folder{fo}, Entries: []Entry{{Name: "a", HasStream: true, Size: total}}}
			r, err := a.Sparse(0).open("")
			if err != nil {
				t.Failf("huge-open", "opening: %v", err)
			}
			t.Eval(len(wins))
			rc, err := r.File[0].Open()
			if err != nil {
				t.Failf("huge-file", "%v", err)
			}
			if err := z.check(t, rc, 1<<17); err != nil {
				t.Failf("huge-code", "%s: %v", f.name, err)
			}
			_ = rc.Close()
			t.Outcome("code", f.name)
		})
	}

	e.Group("large files, compressed")
	e.Case(func() string { return "lzma: more than 4 GiB" }, func(t *T) {
		z := &zerosBut{1<<32 + 100, []Seg{{1000, pattern(50, 1)}, {1<<32 - 20, pattern(120, 2)}}}
		packed := newLZMARuns().encode(z)
		f := &Folder{Coders: []Coder{{ID: idLZMA, Props: []byte{0, 0, 0x10, 0, 0}}}, Sizes: []uint64{z.size}, Packed: []int{0}, Packs: [][]byte{packed}, NumSub: 2}
		a := &Archive{Folders: []*Folder{f}, Entries: []Entry{{Name: "a", HasStream: true, Size: 1<<32 + 7}, {Name: "b", HasStream: true, Size: 93}}}
		r, err := a.Sparse(0).open("")
		if err != nil {
			t.Failf("huge-open", "opening: %v", err)
		}
		t.Eval(2)
		rc, err := r.File[0].Open()
		if err != nil {
			t.Failf("huge-file", "%v", err)
		}
		if err := (&zerosBut{1<<32 + 7, []Seg{z.segs[0], {1<<32 - 20, z.segs[1].Data[:27]}}}).check(t, rc, 1<<17); err != nil {
			t.Failf("huge-file", "%v", err)
		}
		_ = rc.Close()
		d, err := extract(r.File[1])
		if err != nil || string(d) != string(pattern(120, 2)[27:]) {
			t.Failf("huge-data", "the file after 4 GiB: %d bytes, %v", len(d), err)
		}
		t.Outcome("lzma")
	})
}

// bcj2Encoder encodes several pieces of one stream with no candidates between them.
type bcj2Encoder struct {
	e          *rangeEncoder
	probs      [258]uint32
	call, jump []byte
	n          int
	converted  int
}

func newBCJ2Encoder() *bcj2Encoder {
	b := &bcj2Encoder{e: newRangeEncoder()}
	for i := range b.probs {
		b.probs[i] = 1024
	}
	return b
}

// encode returns what goes to the main stream; a zero precedes the data.
func (b *bcj2Encoder) encode(data []byte, base uint32, convert func(n int) bool) (main []byte) {
	prev := byte(0)
	for i := 0; i < len(data); i++ {
		c := data[i]
		main = append(main, c)
		if c&0xfe != 0xe8 && (prev != 0x0f || c&0xf0 != 0x80) {
			prev = c
			continue
		}
		idx := 257
		if c == 0xe8 {
			idx = int(prev)
		} else if c == 0xe9 {
			idx = 256
		}
		conv := i+4 < len(data) && convert(b.n)
		b.n++
		b.e.bit(&b.probs[idx], conv)
		if !conv {
			prev = c
			continue
		}
		abs := binary.LittleEndian.Uint32(data[i+1:]) + base + uint32(i) + 5
		if c == 0xe8 {
			b.call = binary.BigEndian.AppendUint32(b.call, abs)
		} else {
			b.jump = binary.BigEndian.AppendUint32(b.jump, abs)
		}
		b.converted++
		prev = data[i+4]
		i += 4
	}
	return main
}

// hugeArchive has a stream of the given size before small ones.
func hugeArchive(pos, before uint64) (*Archive, []Entry) {
	a := &Archive{Opts: Opts{PackPos: pos}}
	d := text(5000, 9)
	f := &Folder{Coders: []Coder{{ID: idCopy}}, Sizes: []uint64{before}, Packed: []int{0}, Packs: [][]byte{nil}, PackSizes: []uint64{before}, PackSegs: [][]Seg{{{before - 1, []byte{1}}}}, NumSub: 1}
	a.Folders = append(a.Folders, f)
	a.Entries = append(a.Entries, Entry{Name: "before", HasStream: true, Size: before})
	a.AddFolder(Chain(d, sCopy()), []string{"a", "b"}, []int{3000, 2000})
	a.AddFolder(Chain(d, sLZMA2()), []string{"c", "d"}, []int{1, 4999})
	return a, a.Entries[1:]
}

// checkHuge checks all the entries after the first one.
func checkHuge(t *T, r *sevenzip.Reader, want []Entry, what string) {
	t.Eval(1)
	if len(r.File) != len(want)+1 {
		t.Failf("huge-list", "%s: %d files", what, len(r.File))
	}
	for i, en := range want {
		d, err := extract(r.File[i+1])
		if err != nil || string(d) != string(en.Data) {
			t.Failf("huge-data", "%s: %s: %d bytes, %v", what, en.Name, len(d), err)
		}
	}
}

// hugeVolumes splits an input of more than 4 GiB into volumes, which are mostly holes.
func hugeVolumes(e *Env, v *volDir) {
	e.Group("volumes of gibibytes")
	for _, sizes := range [][]int64{{1 << 31, 1 << 31}, {1<<31 - 1}, {1<<32 - 1}, {1 << 32}, {1<<32 + 1}, {3 << 30, 1 << 30, 10}, {100, 1 << 32, 1 << 31}, {1 << 33}, {1 << 30, 1 << 30, 1 << 30, 1 << 30, 1 << 30}, {5<<30 + 5000, 1, 2, 3}} {
		e.Case(func() string { return fmt.Sprintf("volumes of %v bytes and the rest", sizes) }, func(t *T) {
			a, want := hugeArchive(3, 5<<30)
			s := a.Sparse(0)
			var paths []string
			at := int64(0)
			for i := 0; at < s.size; i++ {
				n := s.size - at
				if i < len(sizes) {
					n = min(n, sizes[i])
				}
				name := fmt.Sprintf("%s/huge.7z.%03d", v.dir, i+1)
				f, err := os.Create(name)
				die(err)
				paths = append(paths, name)
				die(f.Truncate(n))
				for _, g := range s.segs {
					lo, hi := max(int64(g.Off), at), min(int64(g.Off)+int64(len(g.Data)), at+n)
					if lo < hi {
						_, err := f.WriteAt(g.Data[lo-int64(g.Off):hi-int64(g.Off)], lo-at)
						die(err)
					}
				}
				die(f.Close())
				at += n
			}
			defer v.remove(paths)
			r, err := sevenzip.OpenReader(paths[0])
			if err != nil {
				t.Failf("huge-open", "%d volumes: %v", len(paths), err)
			}
			checkHuge(t, &r.Reader, want, fmt.Sprintf("%d volumes", len(paths)))
			if !samePaths(r.Volumes(), paths) {
				t.Failf("volumes-list", "Volumes() = %v", r.Volumes())
			}
			if err := r.Close(); err != nil {
				t.Failf("close", "Close: %v", err)
			}
			t.Outcome(len(paths), sizes)
		})
	}
}

// hugeStubs has archives of more than 4 GiB behind stubs.
func hugeStubs(e *Env) {
	e.Group("large archives behind stubs")
	for _, stub := range []uint64{0, 1, 31, 32, 4095, 4096, 65536, 1<<20 - 4096, 1<<20 - 40} {
		e.Case(func() string { return fmt.Sprintf("large archives behind %d bytes", stub) }, func(t *T) {
			for _, pos := range []uint64{0, 1<<31 - 40, 1 << 31, 1<<32 - 64, 1 << 32, 1 << 50, 1 << 62} {
				for _, before := range []uint64{1, 1<<31 - 1, 1<<32 - 1, 1<<32 + 100, 1 << 60} {
					for _, trailer := range []int64{0, 100, 1 << 33} {
						a, want := hugeArchive(pos, before)
						s := a.Sparse(stub)
						s.size += trailer
						r, err := s.open("")
						if err != nil {
							t.Failf("huge-open", "stream of %#x bytes at %#x behind %d: %v", before, pos, stub, err)
						}
						checkHuge(t, r, want, fmt.Sprintf("stream of %#x bytes at %#x behind %d", before, pos, stub))
						t.Outcome(stub, pos, before, trailer)
					}
				}
			}
		})
	}
}

// hugeDecoder generates a content of which little is not zero.
type hugeDecoder struct {
	c  *sparse
	at int64
}

func (d *hugeDecoder) Read(p []byte) (int, error) {
	n, err := d.c.ReadAt(p, d.at)
	d.at += int64(n)
	return n, err
}

func (d *hugeDecoder) Close() error { return nil }

var idHuge = []byte{0x3e, 0x77, 0x01}

// hugeStream is an archive of one stream with files of the given sizes, of which the first and last bytes are marked.
type hugeStream struct {
	a         *Archive
	content   *sparse
	sizes     []uint64
	starts    []uint64
	factories int
}

func newHugeStream(sizes []uint64) *hugeStream {
	h := &hugeStream{content: &sparse{}, sizes: sizes}
	at := uint64(0)
	a := &Archive{}
	for i, s := range sizes {
		h.starts = append(h.starts, at)
		m := pattern(int(min(s, 50)), uint32(i+1))
		h.content.add(at, m)
		if s > 100 {
			h.content.add(at+s-50, pattern(50, uint32(i+100)))
		}
		a.Entries = append(a.Entries, Entry{Name: fmt.Sprint("f", i), HasStream: true, Size: s})
		at += s
	}
	h.content.size = int64(at)
	h.content.sort()
	a.Folders = []*Folder{{Coders: []Coder{{ID: idHuge}}, Sizes: []uint64{at}, Packed: []int{0}, Packs: [][]byte{{1}}, NumSub: len(sizes)}}
	h.a = a
	sevenzip.RegisterDecompressor(idHuge, func([]byte, uint64, []io.ReadCloser) (io.ReadCloser, error) {
		h.factories++
		return &hugeDecoder{c: h.content}, nil
	})
	return h
}

// read takes up to n bytes and compares them.
func (h *hugeStream) read(t *T, r io.Reader, i, n int, what string) {
	n = min(n, int(min(h.sizes[i], 1<<40)))
	b := make([]byte, n)
	if k, err := io.ReadFull(r, b); err != nil {
		t.Failf("huge-data", "%s: file %d: %d bytes of %d, %v", what, i, k, n, err)
	}
	w := make([]byte, n)
	_, _ = h.content.ReadAt(w, int64(h.starts[i]))
	if d := diffAt(b, w); d >= 0 && string(b) != string(w) {
		t.Failf("huge-data", "%s: file %d: wrong byte %d", what, i, d)
	}
	t.Beat()
}

func hugeHistories(e *Env) {
	e.Group("offsets beyond 4 GiB")
	for _, sizes := range [][]uint64{{1<<32 + 5, 100, 1 << 31, 60}, {10, 1 << 32, 7, 1<<31 - 17, 20}, {1<<31 - 1, 1, 1<<31 + 1, 1, 9}} {
		n := len(sizes)
		for i := range n {
			for j := range n {
				e.Case(func() string { return fmt.Sprintf("files of %#x bytes: %d, then %d, then both again", sizes, i, j) }, func(t *T) {
					for _, overlap := range []bool{false, true} {
						h := newHugeStream(sizes)
						r, err := h.a.Sparse(0).open("")
						if err != nil {
							t.Failf("huge-open", "%v", err)
						}
						t.Eval(1)
						what := fmt.Sprintf("sizes %#x, file %d then %d, overlapping %v", sizes, i, j, overlap)
						op := func(k int) io.ReadCloser {
							rc, err := r.File[k].Open()
							if err != nil {
								t.Failf("huge-file", "%s: opening %d: %v", what, k, err)
							}
							t.Beat()
							return rc
						}
						a := op(i)
						h.read(t, a, i, 1, what)
						if !overlap {
							_ = a.Close()
						}
						b := op(j)
						h.read(t, b, j, 30, what)
						_ = b.Close()
						if overlap {
							_ = a.Close()
						}
						// now from what the pool has
						for _, k := range []int{max(i, j), n - 1} {
							c := op(k)
							h.read(t, c, k, 60, what)
							_ = c.Close()
						}
						t.Trans(4)
						t.Outcome(sizes, i, j, overlap)
					}
				})
			}
		}
	}
}

func hugeInOrder(e *Env) {
	e.Group("files of gibibytes")
	for _, sizes := range [][]uint64{{1<<32 + 5, 100, 1 << 31, 60}, {10, 1 << 32, 7, 1<<31 - 17, 20}, {1<<31 - 1, 1, 1<<31 + 1, 1, 9}} {
		for mask := range 1 << len(sizes) {
			e.Case(func() string { return fmt.Sprintf("files of %#x bytes in order, of %b only a part", sizes, mask) }, func(t *T) {
				h := newHugeStream(sizes)
				r, err := h.a.Sparse(0).open("")
				if err != nil {
					t.Failf("huge-open", "%v", err)
				}
				t.Eval(1)
				what := fmt.Sprintf("sizes %#x, mask %b", sizes, mask)
				for k, s := range sizes {
					rc, err := r.File[k].Open()
					if err != nil {
						t.Failf("huge-file", "%s: opening %d: %v", what, k, err)
					}
					n := 1
					if mask>>k&1 == 0 && s < 1000 {
						n = int(s)
					}
					h.read(t, rc, k, n, what)
					if mask>>k&1 == 0 && s >= 1000 {
						if _, err := io.Copy(io.Discard, rc); err != nil {
							t.Failf("huge-file", "%s: reading %d: %v", what, k, err)
						}
					}
					_ = rc.Close()
				}
				if h.factories != 1 {
					t.Failf("decoders", "%s: %d decoders for one stream extracted in order", what, h.factories)
				}
				t.Trans(len(sizes))
				t.State(uint64(mask)<<8 | uint64(len(sizes)))
				t.Outcome(sizes, mask)
			})
		}
	}
}
