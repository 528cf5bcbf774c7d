package main

// An independent writer for the 7z container, following 7zFormat.txt.

import (
	"encoding/binary"
	"hash/crc32"
	"unicode/utf16"
)

const (
	kEnd = iota
	kHeader
	kArchiveProperties
	kAdditionalStreamsInfo
	kMainStreamsInfo
	kFilesInfo
	kPackInfo
	kUnPackInfo
	kSubStreamsInfo
	kSize
	kCRC
	kFolder
	kCodersUnPackSize
	kNumUnPackStream
	kEmptyStream
	kEmptyFile
	kAnti
	kNames
	kCTime
	kATime
	kMTime
	kWinAttributes
	kComment
	kEncodedHeader
	kStartPos
	kDummy
)

// Coder is one coder of a folder.
type Coder struct {
	ID      []byte
	In, Out int
	Props   []byte
	Complex bool
}

// Folder is a coder graph with its packed streams.
type Folder struct {
	Coders []Coder
	Bind   [][2]int // in, out
	Packed []int    // in-stream of each packed stream
	Sizes  []uint64 // per out stream
	Packs  [][]byte
	CRC    *uint32
	NumSub int // number of files in it
	Data   []byte

	// For streams too large to be held: their sizes and the data in them, the rest is zero.
	PackSizes []uint64
	PackSegs  [][]Seg
}

func (f *Folder) packSize(i int) uint64 {
	if f.PackSizes != nil {
		return f.PackSizes[i]
	}
	return uint64(len(f.Packs[i]))
}

// Unpack is the size of the unbound output.
func (f *Folder) Unpack() uint64 {
	for i := range f.Sizes {
		bound := false
		for _, b := range f.Bind {
			bound = bound || b[1] == i
		}
		if !bound {
			return f.Sizes[i]
		}
	}
	return 0
}

// Entry is one entry of the file list.
type Entry struct {
	Name      string
	Raw16     []uint16 // name in code units, overrides Name
	HasStream bool
	EmptyFile bool
	Size      uint64
	CRC       *uint32
	C, A, M   *uint64
	Attr      *uint32
	Data      []byte
}

// Opts are the free choices of the encoding.
type Opts struct {
	PackPos         uint64
	PackCRC         int // 0 none, 1 all, 2 only even streams defined
	NoSubStreams    bool
	OmitNumUnpack   bool
	OmitSizes       bool // legal only if no folder has several files
	FolderCRCVector bool // write a bit vector even if all are defined
	SubCRCVector    bool
	VectorProps     bool     // times/attributes with bit vectors even when all defined
	Order           []byte   // order of the file properties
	Dummies         [][2]int // before the i-th property (or at the end), a kDummy of length n
	NumLen          int      // minimum number of extra bytes in numbers (non-canonical widths)
	NoNames         bool
	NoFiles         bool
	NoStreams       bool
	EmptyVectors    bool // write kEmptyStream/kEmptyFile even if all zero
	Encode          func(h []byte) *Folder
	EncodedCRC      bool // record the CRC of the unpacked header
	HeaderGap       int  // bytes between the last packed stream and the header
	SubIDAlways     bool
	AttrExtra       int
}

// Archive is an archive to be written.
type Archive struct {
	Folders []*Folder
	Entries []Entry
	Opts    Opts
}

// HW writes header bytes, numbering the fields so that any of them can be overridden.
type HW struct {
	buf    []byte
	n      int
	over   map[int]uint64
	raw    map[int][]byte
	fields []Field
	extra  int
	base   int
}

// Field describes a written field.
type Field struct {
	Kind byte // n: number, b: byte, r: raw
	Val  uint64
	Len  int
	Name string
	End  int // offset in its header of what follows
}

func (w *HW) field(kind byte, v uint64, n int, name string) int {
	i := w.n
	w.n++
	w.fields = append(w.fields, Field{Kind: kind, Val: v, Len: n, Name: name})
	return i
}

func (w *HW) end(i int) { w.fields[i].End = len(w.buf) }

// Num writes a 7z number.
func (w *HW) Num(v uint64, name string) {
	i := w.field('n', v, 0, name)
	defer w.end(len(w.fields) - 1)
	if r, ok := w.raw[i]; ok {
		w.buf = append(w.buf, r...)
		return
	}
	if o, ok := w.over[i]; ok {
		v = o
	}
	w.buf = append(w.buf, num7z(v, w.extra)...)
}

// Byte writes a single byte (an id or a flag).
func (w *HW) Byte(v byte, name string) {
	i := w.field('b', uint64(v), 1, name)
	defer w.end(len(w.fields) - 1)
	if r, ok := w.raw[i]; ok {
		w.buf = append(w.buf, r...)
		return
	}
	if o, ok := w.over[i]; ok {
		v = byte(o)
	}
	w.buf = append(w.buf, v)
}

// recordRaw collects the contents of byte fields while set.
var recordRaw map[int][]byte

// Raw writes bytes.
func (w *HW) Raw(b []byte, name string) {
	i := w.field('r', 0, len(b), name)
	defer w.end(len(w.fields) - 1)
	if recordRaw != nil {
		recordRaw[i] = append([]byte{}, b...)
	}
	if r, ok := w.raw[i]; ok {
		b = r
	}
	w.buf = append(w.buf, b...)
}

func u32(v uint32) []byte { return binary.LittleEndian.AppendUint32(nil, v) }
func u64(v uint64) []byte { return binary.LittleEndian.AppendUint64(nil, v) }

// num7z encodes v with at least extra additional bytes beyond the first.
func num7z(v uint64, extra int) []byte {
	n := 0
	for n < 8 && v>>(7*uint(n)+7) != 0 {
		n++
	}
	if n < extra {
		n = min(extra, 8)
	}
	b := make([]byte, n+1)
	var first byte
	for i := range n {
		first |= 0x80 >> i
	}
	if n < 7 {
		first |= byte(v >> (8 * n))
	}
	if n == 8 {
		first = 0xff
	}
	b[0] = first
	for i := range n {
		b[1+i] = byte(v >> (8 * i))
	}
	return b
}

func bitVec(v []bool) []byte {
	b := make([]byte, (len(v)+7)/8)
	for i, x := range v {
		if x {
			b[i/8] |= 0x80 >> (i % 8)
		}
	}
	return b
}

func (w *HW) digests(d []*uint32, vector bool, name string) {
	def := make([]bool, len(d))
	all := true
	for i := range d {
		def[i] = d[i] != nil
		all = all && def[i]
	}
	if all && !vector {
		w.Byte(1, name+".alldefined")
	} else {
		w.Byte(0, name+".alldefined")
		w.Raw(bitVec(def), name+".defined")
	}
	for _, x := range d {
		if x != nil {
			w.Raw(u32(*x), name+".crc")
		}
	}
}

func (w *HW) folder(f *Folder) {
	w.Num(uint64(len(f.Coders)), "folder.coders")
	for _, c := range f.Coders {
		in, out := c.In, c.Out
		if in == 0 && out == 0 {
			in, out = 1, 1
		}
		fl := byte(len(c.ID))
		cx := c.Complex || in != 1 || out != 1
		if cx {
			fl |= 0x10
		}
		if len(c.Props) > 0 {
			fl |= 0x20
		}
		w.Byte(fl, "coder.flags")
		w.Raw(c.ID, "coder.id")
		if cx {
			w.Num(uint64(in), "coder.in")
			w.Num(uint64(out), "coder.out")
		}
		if len(c.Props) > 0 {
			w.Num(uint64(len(c.Props)), "coder.propsize")
			w.Raw(c.Props, "coder.props")
		}
	}
	for _, b := range f.Bind {
		w.Num(uint64(b[0]), "bind.in")
		w.Num(uint64(b[1]), "bind.out")
	}
	if len(f.Packed) > 1 {
		for _, p := range f.Packed {
			w.Num(uint64(p), "folder.packed")
		}
	}
}

// streamsInfo writes pack info, unpack info and substreams info.
func (w *HW) streamsInfo(folders []*Folder, entries []Entry, o *Opts, packPos uint64, subs bool) {
	var sizes []uint64
	var packs [][]byte
	for _, f := range folders {
		for i, p := range f.Packs {
			sizes = append(sizes, f.packSize(i))
			packs = append(packs, p)
		}
	}
	if len(sizes) > 0 {
		w.Byte(kPackInfo, "id.packinfo")
		w.Num(packPos, "pack.pos")
		w.Num(uint64(len(sizes)), "pack.streams")
		w.Byte(kSize, "id.size")
		for _, s := range sizes {
			w.Num(s, "pack.size")
		}
		if o.PackCRC > 0 {
			d := make([]*uint32, len(packs))
			for i, p := range packs {
				if o.PackCRC == 1 || i%2 == 0 {
					c := crc32.ChecksumIEEE(p)
					d[i] = &c
				}
			}
			w.Byte(kCRC, "id.crc")
			w.digests(d, false, "pack")
		}
		w.Byte(kEnd, "id.end")
	}
	if len(folders) > 0 {
		w.Byte(kUnPackInfo, "id.unpackinfo")
		w.Byte(kFolder, "id.folder")
		w.Num(uint64(len(folders)), "unpack.folders")
		w.Byte(0, "unpack.external")
		for _, f := range folders {
			w.folder(f)
		}
		w.Byte(kCodersUnPackSize, "id.unpacksize")
		for _, f := range folders {
			for _, s := range f.Sizes {
				w.Num(s, "unpack.size")
			}
		}
		d := make([]*uint32, len(folders))
		any := false
		for i, f := range folders {
			d[i] = f.CRC
			any = any || f.CRC != nil
		}
		if any {
			w.Byte(kCRC, "id.crc")
			w.digests(d, o.FolderCRCVector, "unpack")
		}
		w.Byte(kEnd, "id.end")
	}
	if subs && len(folders) > 0 {
		w.subStreams(folders, entries, o)
	}
	w.Byte(kEnd, "id.end")
}

func (w *HW) subStreams(folders []*Folder, entries []Entry, o *Opts) {
	allOne := true
	var sz []uint64
	var dg []*uint32
	anyDg, anySz := false, false
	var fs []Entry
	for _, e := range entries {
		if e.HasStream {
			fs = append(fs, e)
		}
	}
	k := 0
	for _, f := range folders {
		if f.NumSub != 1 {
			allOne = false
		}
		for j := range f.NumSub {
			if j < f.NumSub-1 {
				sz = append(sz, fs[k].Size)
				anySz = true
			}
			if !(f.NumSub == 1 && f.CRC != nil) {
				dg = append(dg, fs[k].CRC)
				anyDg = anyDg || fs[k].CRC != nil
			}
			k++
		}
	}
	if o.NoSubStreams && allOne && !anyDg {
		return
	}
	w.Byte(kSubStreamsInfo, "id.substreams")
	if !allOne || !o.OmitNumUnpack {
		w.Byte(kNumUnPackStream, "id.numunpack")
		for _, f := range folders {
			w.Num(uint64(f.NumSub), "sub.streams")
		}
	}
	if anySz || !o.OmitSizes {
		// 7-zip writes kSize only when there is something to write
		if anySz || o.SubIDAlways {
			w.Byte(kSize, "id.size")
			for _, s := range sz {
				w.Num(s, "sub.size")
			}
		}
	}
	if anyDg {
		w.Byte(kCRC, "id.crc")
		w.digests(dg, o.SubCRCVector, "sub")
	}
	w.Byte(kEnd, "id.end")
}

func (w *HW) prop(id byte, name string, body func(b *HW)) {
	w.Byte(id, "id."+name)
	i := w.field('n', 0, 0, name+".length")
	li := len(w.fields) - 1
	// body shares the field numbering
	sub := &HW{n: w.n, over: w.over, raw: w.raw, extra: w.extra}
	body(sub)
	w.n = sub.n
	w.fields = append(w.fields, sub.fields...)
	v := uint64(len(sub.buf))
	w.fields[li].Val = v
	if r, ok := w.raw[i]; ok {
		w.buf = append(w.buf, r...)
	} else {
		if o, ok := w.over[i]; ok {
			v = o
		}
		w.buf = append(w.buf, num7z(v, w.extra)...)
	}
	w.end(li)
	for k := range sub.fields {
		w.fields[li+1+k].End += len(w.buf)
	}
	w.buf = append(w.buf, sub.buf...)
}

func name16(e *Entry) []uint16 {
	if e.Raw16 != nil {
		return e.Raw16
	}
	return utf16.Encode([]rune(e.Name))
}

func (w *HW) filesInfo(entries []Entry, o *Opts) {
	w.Byte(kFilesInfo, "id.files")
	w.Num(uint64(len(entries)), "files.count")
	order := o.Order
	if order == nil {
		order = []byte{kEmptyStream, kEmptyFile, kNames, kCTime, kATime, kMTime, kWinAttributes}
	}
	es := make([]bool, len(entries))
	var ef []bool
	anyES, anyEF := false, false
	for i, e := range entries {
		es[i] = !e.HasStream
		if !e.HasStream {
			anyES = true
			ef = append(ef, e.EmptyFile)
			anyEF = anyEF || e.EmptyFile
		}
	}
	dummy := func(i int) {
		for _, d := range o.Dummies {
			if d[0] == i {
				w.prop(kDummy, "dummy", func(b *HW) { b.Raw(make([]byte, d[1]), "dummy.data") })
			}
		}
	}
	times := func(id byte, name string, get func(e *Entry) *uint64) {
		def := make([]bool, len(entries))
		all, any := true, false
		for i := range entries {
			def[i] = get(&entries[i]) != nil
			all = all && def[i]
			any = any || def[i]
		}
		if !any {
			return
		}
		w.prop(id, name, func(b *HW) {
			if all && !o.VectorProps {
				b.Byte(1, name+".alldefined")
			} else {
				b.Byte(0, name+".alldefined")
				b.Raw(bitVec(def), name+".defined")
			}
			b.Byte(0, name+".external")
			for i := range entries {
				if p := get(&entries[i]); p != nil {
					b.Raw(u64(*p), name+".value")
				}
			}
		})
	}
	for i, id := range order {
		dummy(i)
		switch id {
		case kEmptyStream:
			if anyES || o.EmptyVectors {
				w.prop(kEmptyStream, "emptystream", func(b *HW) { b.Raw(bitVec(es), "emptystream.bits") })
			}
		case kEmptyFile:
			if anyEF || (o.EmptyVectors && anyES) {
				w.prop(kEmptyFile, "emptyfile", func(b *HW) { b.Raw(bitVec(ef), "emptyfile.bits") })
			}
		case kNames:
			if o.NoNames {
				continue
			}
			w.prop(kNames, "names", func(b *HW) {
				b.Byte(0, "names.external")
				for j := range entries {
					var raw []byte
					for _, u := range name16(&entries[j]) {
						raw = append(raw, byte(u), byte(u>>8))
					}
					raw = append(raw, 0, 0)
					b.Raw(raw, "names.name")
				}
			})
		case kCTime:
			times(kCTime, "ctime", func(e *Entry) *uint64 { return e.C })
		case kATime:
			times(kATime, "atime", func(e *Entry) *uint64 { return e.A })
		case kMTime:
			times(kMTime, "mtime", func(e *Entry) *uint64 { return e.M })
		case kWinAttributes:
			def := make([]bool, len(entries))
			all, any := true, false
			for i := range entries {
				def[i] = entries[i].Attr != nil
				all = all && def[i]
				any = any || def[i]
			}
			if !any {
				continue
			}
			w.prop(kWinAttributes, "attr", func(b *HW) {
				if all && !o.VectorProps {
					b.Byte(1, "attr.alldefined")
				} else {
					b.Byte(0, "attr.alldefined")
					b.Raw(bitVec(def), "attr.defined")
				}
				b.Byte(0, "attr.external")
				for i := range entries {
					if entries[i].Attr != nil {
						b.Raw(u32(*entries[i].Attr), "attr.value")
					}
				}
			})
		}
	}
	dummy(len(order))
	w.Byte(kEnd, "id.end")
}

// header writes the plain header.
func (a *Archive) header(w *HW) {
	w.Byte(kHeader, "id.header")
	if len(a.Folders) > 0 && !a.Opts.NoStreams {
		w.Byte(kMainStreamsInfo, "id.mainstreams")
		w.streamsInfo(a.Folders, a.Entries, &a.Opts, a.Opts.PackPos, true)
	}
	if !a.Opts.NoFiles && len(a.Entries) > 0 {
		w.filesInfo(a.Entries, &a.Opts)
	}
	w.Byte(kEnd, "id.end")
}

// Built is a written archive with the interesting offsets.
type Built struct {
	B          []byte
	PackStart  int // first byte of packed data
	PackEnd    int
	EncStart   int // packed header (0 if none)
	EncEnd     int
	HdrStart   int // next header
	Plain      []byte
	Fields     []Field
	PackStarts []int
}

// Assemble puts packed data and next header into a container.
func Assemble(body, next []byte) []byte {
	out := make([]byte, 32, 32+len(body)+len(next))
	copy(out, []byte{'7', 'z', 0xbc, 0xaf, 0x27, 0x1c, 0, 4})
	binary.LittleEndian.PutUint64(out[12:], uint64(len(body)))
	binary.LittleEndian.PutUint64(out[20:], uint64(len(next)))
	binary.LittleEndian.PutUint32(out[28:], crc32.ChecksumIEEE(next))
	binary.LittleEndian.PutUint32(out[8:], crc32.ChecksumIEEE(out[12:32]))
	out = append(out, body...)
	return append(out, next...)
}

// Build writes the archive; over and raw override header fields by number.
func (a *Archive) BuildWith(over map[int]uint64, raw map[int][]byte) *Built {
	b := &Built{PackStart: 32}
	body := make([]byte, a.Opts.PackPos)
	for i := range body {
		body[i] = 0xa5
	}
	for _, f := range a.Folders {
		for _, p := range f.Packs {
			b.PackStarts = append(b.PackStarts, 32+len(body))
			body = append(body, p...)
		}
	}
	b.PackEnd = 32 + len(body)
	w := &HW{over: over, raw: raw, extra: a.Opts.NumLen}
	a.header(w)
	b.Plain, b.Fields = w.buf, w.fields
	next := w.buf
	if a.Opts.Encode != nil {
		f := a.Opts.Encode(w.buf)
		if a.Opts.EncodedCRC {
			c := crc32.ChecksumIEEE(w.buf)
			f.CRC = &c
		}
		pos := uint64(len(body))
		b.EncStart = 32 + len(body)
		for _, p := range f.Packs {
			body = append(body, p...)
		}
		b.EncEnd = 32 + len(body)
		ew := &HW{over: over, raw: raw, extra: a.Opts.NumLen, n: 100000}
		ew.Byte(kEncodedHeader, "id.encoded")
		ew.streamsInfo([]*Folder{f}, nil, &a.Opts, pos, false)
		next = ew.buf
		b.Fields = append(b.Fields, ew.fields...)
	}
	body = append(body, make([]byte, a.Opts.HeaderGap)...)
	b.HdrStart = 32 + len(body)
	b.B = Assemble(body, next)
	return b
}

// Build writes the archive.
func (a *Archive) Build() *Built { return a.BuildWith(nil, nil) }

// AddFolder appends a folder whose data is split into files of the given sizes.
func (a *Archive) AddFolder(f *Folder, names []string, sizes []int) {
	off := 0
	for i, n := range sizes {
		d := f.Data[off : off+n]
		c := crc32.ChecksumIEEE(d)
		a.Entries = append(a.Entries, Entry{Name: names[i], HasStream: true, Size: uint64(n), CRC: &c, Data: d})
		off += n
	}
	f.NumSub = len(sizes)
	a.Folders = append(a.Folders, f)
}

func p32(v uint32) *uint32 { return &v }
func p64(v uint64) *uint64 { return &v }
