package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"hash/fnv"
	"io"
	"io/fs"
	"sort"
	"time"

	"github.com/bodgit/sevenzip"
)

func init() {
	register(&Check{ID: "C07", Level: "fault_enumeration", MemLimit: 40 << 30, Hang: 45 * time.Second,
		Rule:        "for archives covering every header record and every method: every single field x boundary values, every pair of fields x reduced values, every header byte x 256 values, header cuts, deletions, insertions, duplications and splices at all positions; all header token strings up to a length behind several valid prefixes; all coder graphs of up to 2 (thorough: 3) coders with every binding; start header fields x boundary values; all method property bytes and lengths; packed streams: every byte altered, every truncation, extension, pairs of bits - all with valid checksums. Opening, listing, reading every file and walking the fs view must return, and a file that ends without an error has the recorded size; an outcome is a distinct input.",
		Assumptions: []string{"dictionaries above 32 MiB and key strengths 11 to 24 are not explored (memory and time they legitimately need)"},
		Run:         runC07})
}

// probe exercises everything a user can do with the input and reports how far it got.
func probe(t *T, b []byte, size int64, pw string) byte {
	t.Eval(1)
	r, err := sevenzip.NewReaderWithPassword(bytes.NewReader(b), size, pw)
	if err != nil {
		_ = err.Error()
		return 'x'
	}
	return exercise(t, r, pw != "" || bytes.Contains(b, idAES))
}

var readBuf [4096]byte

func drain(t *T, r io.Reader) error {
	_, err := drainCount(t, r)
	return err
}

func drainCount(t *T, r io.Reader) (int, error) {
	total, zero := 0, 0
	for total < 1<<20 {
		n, err := r.Read(readBuf[:])
		if n < 0 || n > len(readBuf) {
			t.Failf("read-count", "Read returned n=%d for a %d byte buffer", n, len(readBuf))
		}
		total += n
		if err != nil {
			_ = err.Error()
			return total, err
		}
		if n == 0 {
			if zero++; zero > 1000 {
				t.Failf("no-progress", "Read keeps returning 0, nil")
			}
		} else {
			zero = 0
		}
	}
	return total, nil
}

// exercise uses everything in an archive, which may be an encrypted one.
func exercise(t *T, r *sevenzip.Reader, encrypted bool) byte {
	res := byte('o')
	for i, f := range r.File {
		if i > 40 {
			break
		}
		fi := f.FileInfo()
		_, _, _, _, _ = fi.Mode(), fi.IsDir(), fi.Name(), fi.Size(), fi.ModTime()
		rc, err := f.Open()
		if err != nil {
			_ = err.Error()
			res = 'e'
			continue
		}
		n, err := drainCount(t, rc)
		if err != nil && err != io.EOF { //nolint:errorlint
			res = 'e'
		}
		// an end without an error means that there was nothing wrong (a stream that can't be decrypted looks empty)
		if err == io.EOF && uint64(n) != f.UncompressedSize && (n > 0 || !encrypted) { //nolint:errorlint
			t.Failf("silent", "file %d ends without an error after %d bytes, it is said to have %d", i, n, f.UncompressedSize)
		}
		_ = rc.Close()
		_ = rc.Close()
	}
	n := 0
	_ = fs.WalkDir(r, ".", func(path string, d fs.DirEntry, err error) error {
		if n++; n > 300 {
			return fs.SkipAll
		}
		if err != nil {
			return nil
		}
		_, _ = d.Info()
		h, err := r.Open(path)
		if err != nil {
			return nil
		}
		_, _ = h.Stat()
		if !d.IsDir() {
			_ = drain(t, io.LimitReader(h, 64))
		}
		_ = h.Close()
		return nil
	})
	for i, f := range r.File {
		if i > 40 {
			break
		}
		if h, err := r.Open(f.Name); err == nil {
			_, _ = h.Stat()
			_ = h.Close()
		}
	}
	return res
}

var boundary = []uint64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 1000, 4095, 4096, 4097, 65535, 65536, 1 << 20, 1<<20 + 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 40, 1<<61 - 1, 1 << 61, 1 << 62, 1<<63 - 33, 1<<63 - 2, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 33, 1<<64 - 32, 1<<64 - 31, 1<<64 - 2, 1<<64 - 1}

var pairNums = []uint64{0, 1, 2, 3, 5, 32, 1 << 20, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}

type malBase struct {
	name string
	a    *Archive
	pair bool
}

func malBases() []malBase {
	var out []malBase
	add := func(name string, pair bool, f func(a *Archive)) {
		a := &Archive{}
		f(a)
		out = append(out, malBase{name, a, pair})
	}
	add("minimal", true, func(a *Archive) { a.AddFolder(rawFolder(3), []string{"a"}, []int{3}) })
	add("all records", true, func(a *Archive) {
		a.AddFolder(rawFolder(6), []string{"a", "b/c"}, []int{2, 4})
		a.AddFolder(rawFolder(3), []string{"d"}, []int{3})
		a.Folders[1].CRC = crcOf(a.Folders[1].Data)
		a.Entries = append(a.Entries, Entry{Name: "d", Attr: p32(0x10)}, Entry{Name: "e", EmptyFile: true}, Entry{Name: "x"})
		for i := range a.Entries {
			if i%2 == 0 {
				meta(&a.Entries[i], i, 15)
			}
		}
		a.Opts.PackCRC = 2
		a.Opts.Dummies = [][2]int{{2, 3}}
	})
	add("bcj2", false, func(a *Archive) {
		d := zooContent(40)
		a.AddFolder(BCJ2Chain(d, func(int) bool { return true }, [4][]Stage{{sLZMA()}, {sLZMA()}, {}, {}}), []string{"a", "b"}, []int{20, 20})
	})
	add("bcj2-raw", true, func(a *Archive) {
		a.AddFolder(BCJ2Chain(zooContent(12), func(int) bool { return true }, [4][]Stage{}), []string{"a"}, []int{12})
	})
	add("three coders", true, func(a *Archive) {
		a.AddFolder(Chain(zooContent(9), sBCJ(), sDelta(1), sCopy()), []string{"a", "b"}, []int{4, 5})
	})
	add("encoded", true, func(a *Archive) {
		a.AddFolder(rawFolder(3), []string{"a"}, []int{3})
		a.Opts.Encode = func(h []byte) *Folder { return Chain(h, sCopy()) }
	})
	add("encoded lzma aes", false, func(a *Archive) {
		a.AddFolder(rawFolder(3), []string{"a"}, []int{3})
		a.Opts.EncodedCRC = true
		a.Opts.Encode = func(h []byte) *Folder { return Chain(h, sLZMA(), sAES(aesQuick)) }
	})
	add("aes", false, func(a *Archive) {
		a.AddFolder(Chain(zooContent(40), sDeflate(), sAES(aesQuick)), []string{"a", "b"}, []int{20, 20})
	})
	add("names only", true, func(a *Archive) {
		a.Entries = []Entry{{Name: "d", Attr: p32(0x10)}, {Name: "e", EmptyFile: true}, {Name: "f"}}
	})
	add("empty stream", true, func(a *Archive) {
		a.AddFolder(rawFolder(0), nil, nil)
		a.AddFolder(rawFolder(2), []string{"a", "b"}, []int{0, 2})
		a.AddFolder(rawFolder(0), []string{"c"}, []int{0})
	})
	return out
}

// rawMutations are the alterations of a byte field.
func rawMutations(n int) []func(b []byte) []byte {
	fill := func(v byte) func(b []byte) []byte {
		return func(b []byte) []byte { return bytes.Repeat([]byte{v}, len(b)) }
	}
	out := []func(b []byte) []byte{fill(0), fill(0xff), fill(0x80), fill(1),
		func(b []byte) []byte { return nil },
		func(b []byte) []byte { return append(b, b...) },
		func(b []byte) []byte { return append(b, 0) },
		func(b []byte) []byte { return append(b, 0xff, 0xff) },
		func(b []byte) []byte { return b[:len(b)-1] },
		func(b []byte) []byte { return b[:len(b)/2] },
	}
	for i := range min(n, 24) {
		for _, x := range []byte{1, 0x80, 0xff, 0x20, 0x41} {
			out = append(out, func(b []byte) []byte { b[i] ^= x; return b })
		}
	}
	return out
}

func runC07(e *Env) {
	q := e.Quick()
	limited := limitDecoders()
	if !limited {
		e.Note("built without the bridge: families which could alter decoder properties are not explored")
	}
	pw := aesQuick.Password
	outcome := func(t *T, b []byte) {
		h := fnv.New64a()
		_, _ = h.Write(b)
		t.OutcomeHash(h.Sum64())
	}
	run := func(t *T, b []byte) byte {
		outcome(t, b)
		return probe(t, b, int64(len(b)), pw)
	}
	ex := func(b []byte) string { return fmt.Sprintf("%x", b) }

	bases := malBases()
	if !limited {
		bases = append(bases[:2:2], bases[3:6]...)
	}
	for _, mb := range bases {
		mb := mb
		base := mb.a.Build()
		num := map[int]int{} // field number by index
		{
			k, enc := 0, false
			for i, f := range base.Fields {
				if f.Name == "id.encoded" {
					enc, k = true, 0
				}
				if enc {
					num[i] = 100000 + k
				} else {
					num[i] = k
				}
				k++
			}
		}
		// raw field contents are needed for the byte mutations: find them by building with a recorder
		contents := fieldContents(mb.a)
		values := func(i int, full bool) []any {
			var out []any
			f := base.Fields[i]
			switch f.Kind {
			case 'n':
				set := pairNums
				if full {
					set = boundary
				}
				for _, v := range set {
					out = append(out, v)
				}
				out = append(out, f.Val+1, f.Val-1)
				if full {
					out = append(out, f.Val*2, f.Val+2, f.Val-2, -f.Val, f.Val|1<<63, f.Val|1<<32)
				}
			case 'b':
				if full {
					for v := range 256 {
						out = append(out, uint64(v))
					}
				} else {
					for _, v := range []uint64{0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 17, 0x19, 0x21, 0x31, 0x80, 0xff} {
						out = append(out, v)
					}
				}
			default:
				c := contents[num[i]]
				for _, m := range rawMutations(len(c)) {
					if len(c) > 0 {
						out = append(out, m(append([]byte{}, c...)))
					}
				}
				if !full && len(out) > 10 {
					out = out[:10]
				}
			}
			return out
		}
		build := func(idx []int, vals []any) []byte {
			over, raw := map[int]uint64{}, map[int][]byte{}
			for k, i := range idx {
				switch v := vals[k].(type) {
				case uint64:
					over[num[i]] = v
				case []byte:
					raw[num[i]] = v
				}
			}
			return mb.a.BuildWith(over, raw).B
		}
		e.Group("fields")
		for i := range base.Fields {
			e.Case(func() string { return fmt.Sprintf("%s: field %d %s", mb.name, i, base.Fields[i].Name) }, func(t *T) {
				for _, v := range values(i, true) {
					b := build([]int{i}, []any{v})
					r := run(t, b)
					if i%16 == 3 {
						t.Sample(map[string]any{"archive": mb.name, "field": base.Fields[i].Name, "value": fmt.Sprint(v), "result": string(r)})
					}
				}
			})
		}
		if mb.pair || !q {
			e.Group("pairs of fields")
			for i := range base.Fields {
				e.Case(func() string { return fmt.Sprintf("%s: pairs with field %d %s", mb.name, i, base.Fields[i].Name) }, func(t *T) {
					vi := values(i, false)
					for j := i + 1; j < len(base.Fields); j++ {
						for _, x := range vi {
							for _, y := range values(j, false) {
								run(t, build([]int{i, j}, []any{x, y}))
							}
						}
					}
				})
			}
		}
		// bytes of the header
		e.Group("header bytes")
		hdr := base.B[base.HdrStart:]
		body := base.B[32:base.HdrStart]
		withHdr := func(h []byte) []byte { return Assemble(body, h) }
		for p := range hdr {
			e.Case(func() string { return fmt.Sprintf("%s: header byte %d", mb.name, p) }, func(t *T) {
				h := append([]byte{}, hdr...)
				for v := range 256 {
					h[p] = byte(v)
					run(t, withHdr(h))
					// insertion
					run(t, withHdr(append(append(append([]byte{}, hdr[:p]...), byte(v)), hdr[p:]...)))
				}
				for r := p + 1; r <= len(hdr); r++ {
					run(t, withHdr(append(append([]byte{}, hdr[:p]...), hdr[r:]...)))
					run(t, withHdr(append(append([]byte{}, hdr[:r]...), hdr[p:]...)))
				}
				for r := p + 1; r < len(hdr); r++ {
					h := append([]byte{}, hdr...)
					for _, v := range []byte{0, 1, 0xff, hdr[p] + 1, hdr[p] - 1, hdr[p] ^ 0x80} {
						for _, w := range []byte{0, 1, 0xff, hdr[r] + 1, hdr[r] - 1, hdr[r] ^ 0x80} {
							h[p], h[r] = v, w
							run(t, withHdr(h))
						}
					}
				}
			})
		}
		e.Group("splices")
		for _, ob := range bases {
			o := ob.a.Build()
			oh := o.B[o.HdrStart:]
			e.Case(func() string { return fmt.Sprintf("splices of %s and %s", mb.name, ob.name) }, func(t *T) {
				for i := range hdr {
					for j := 0; j < len(oh); j++ {
						run(t, withHdr(append(append([]byte{}, hdr[:i]...), oh[j:]...)))
					}
				}
			})
		}
		if base.EncStart > 0 && limited {
			e.Group("encoded header contents")
			plain := base.Plain
			for p := range plain {
				e.Case(func() string { return fmt.Sprintf("%s: packed header, byte %d", mb.name, p) }, func(t *T) {
					a := *mb.a
					for v := range 256 {
						h := append([]byte{}, plain...)
						h[p] = byte(v)
						a.Opts.Encode = func([]byte) *Folder { return mb.a.Opts.Encode(h) }
						a.Opts.EncodedCRC = false
						run(t, a.Build().B)
					}
					a.Opts.Encode = func([]byte) *Folder { return mb.a.Opts.Encode(plain[:p]) }
					run(t, a.Build().B)
				})
			}
		}
		e.Group("start header")
		e.Case(func() string { return mb.name + ": start header fields" }, func(t *T) {
			n := uint64(len(base.B))
			vals := append(append([]uint64{}, boundary...), n-32, n-33, n-31, n, n+1, uint64(len(hdr)), uint64(len(hdr))-1, uint64(len(hdr))+1)
			for _, off := range vals {
				for _, size := range vals {
					for k := range 3 {
						b := append([]byte{}, base.B...)
						binary.LittleEndian.PutUint64(b[12:], off)
						binary.LittleEndian.PutUint64(b[20:], size)
						if lo, hi := off+32, off+32+size; k == 1 && lo <= n && hi <= n && lo <= hi {
							binary.LittleEndian.PutUint32(b[28:], crc32.ChecksumIEEE(b[lo:hi]))
						} else if k == 2 {
							binary.LittleEndian.PutUint32(b[28:], 0)
						}
						binary.LittleEndian.PutUint32(b[8:], crc32.ChecksumIEEE(b[12:32]))
						run(t, b)
					}
				}
			}
		})
		e.Case(func() string { return mb.name + ": the claimed size of the input, truncation" }, func(t *T) {
			for n := range len(base.B) + 40 {
				probe(t, base.B, int64(n), pw)
				if n <= len(base.B) {
					run(t, base.B[:n])
				}
			}
			for _, n := range []int64{-1, -1 << 63, 1<<63 - 1, 1 << 62, 1 << 40} {
				probe(t, base.B, n, pw)
			}
		})
	}

	e.Group("token strings")
	tokens := []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 17, 20, 21, 23, 25, 0x21, 0x80, 0xff}
	prefixes := []struct {
		name string
		b    []byte
		n    int
	}{
		{"nothing", nil, 4}, {"header", []byte{1}, 4}, {"streams", []byte{1, 4}, 4}, {"files", []byte{1, 5, 2}, 4},
		{"pack info", []byte{1, 4, 6, 0, 1, 9, 1, 0}, 4},
		{"one folder", []byte{1, 4, 6, 0, 1, 9, 1, 0, 7, 11, 1, 0}, 4},
		{"two folders", []byte{1, 4, 6, 0, 2, 9, 1, 1, 0, 7, 11, 2, 0, 1, 1, 0, 1, 1, 0, 12, 1, 1}, 4},
		{"substreams", []byte{1, 4, 6, 0, 1, 9, 3, 0, 7, 11, 1, 0, 1, 1, 0, 12, 3, 0, 8}, 4},
		{"files after a stream", []byte{1, 4, 6, 0, 1, 9, 3, 0, 7, 11, 1, 0, 1, 1, 0, 12, 3, 0, 8, 13, 2, 9, 1, 0, 0, 5}, 4},
		{"encoded", []byte{0x17}, 4}, {"encoded folder", []byte{0x17, 6, 0, 1, 9, 2, 0, 7, 11, 1, 0, 1, 1, 0}, 4},
		{"names", []byte{1, 5, 2, 17}, 4}, {"empty streams", []byte{1, 5, 3, 14, 1, 0xe0}, 4},
		{"archive properties", []byte{1, 2}, 3}, {"additional streams", []byte{1, 3}, 4},
	}
	for _, p := range prefixes {
		n := p.n
		if !q {
			n++
		}
		for _, first := range tokens {
			e.Case(func() string { return fmt.Sprintf("strings of up to %d tokens after %q and %02x", n, p.name, first) }, func(t *T) {
				body := []byte{1, 4, 6}
				for l := range n {
					for _, tail := range [][]byte{nil, {0}, {0, 0}} {
						if l == n-1 && tail != nil && q {
							continue
						}
						forStrings(tokens, l, func(s []byte) bool {
							h := append(append(append([]byte{}, p.b...), first), s...)
							h = append(h, tail...)
							b := Assemble(body, h)
							run(t, b)
							return true
						})
					}
				}
			})
		}
	}

	e.Group("coder graphs")
	maxC := 2
	ids := [][]byte{idCopy, idBCJ2, idDeflate, {0x77}}
	if !q {
		maxC = 3
		ids = ids[:3]
	}
	for n := 1; n <= maxC; n++ {
		// per coder: id, inputs 0..2 (0..4 for one coder), outputs 0..2
		inMax := []int{5, 5, 3, 3}[n]
		dims := make([]int, 0, 3*n)
		for range n {
			dims = append(dims, len(ids), inMax, 3)
		}
		forProduct(dims, func(v []int) {
			v = append([]int{}, v...)
			tin, tout := 0, 0
			for i := range n {
				tin += v[3*i+1]
				tout += v[3*i+2]
			}
			if tout > 4 || n == 3 && (tin > 4 || tout > 3) {
				return
			}
			e.Case(func() string { return fmt.Sprintf("coders (id, in, out) %v, all bindings", v) }, func(t *T) {
				nb := max(0, tout-1)
				np := max(0, tin-nb)
				if np > 4 {
					np = 4
				}
				// every binding, valid or not; numbers one beyond the range
				bd := make([]int, 0, 2*nb)
				for range nb {
					bd = append(bd, min(tin+1, 5), min(tout+1, 4))
				}
				try := func(b []int, packed []int) {
					f := &Folder{}
					for i := range n {
						f.Coders = append(f.Coders, Coder{ID: ids[v[3*i]], In: v[3*i+1], Out: v[3*i+2], Complex: true})
						if v[3*i+1] == 0 && v[3*i+2] == 0 {
							// the writer takes 0, 0 for the default
							f.Coders[i].In = 0
							f.Coders[i].Out = 0
							return
						}
					}
					for k := 0; k < nb; k++ {
						f.Bind = append(f.Bind, [2]int{b[2*k], b[2*k+1]})
					}
					f.Packed = packed
					for range max(1, np) {
						f.Packs = append(f.Packs, []byte{0, 1, 2, 3, 4, 5, 6, 7})
					}
					for range tout {
						f.Sizes = append(f.Sizes, 8)
					}
					f.Data = make([]byte, 8)
					a := &Archive{}
					a.AddFolder(f, []string{"a"}, []int{8})
					run(t, a.Build().B)
				}
				forProduct(bd, func(b []int) {
					if np <= 1 {
						try(b, []int{0})
						return
					}
					pd := make([]int, np)
					for i := range pd {
						pd[i] = min(tin+1, 5)
						if nb > 1 || np > 2 {
							pd[i] = min(tin+1, 4)
						}
					}
					if nb >= 2 && np >= 3 || np >= 4 && nb >= 1 {
						// only ascending assignments
						p := make([]int, np)
						for i := range p {
							p[i] = i
						}
						try(b, p)
						p2 := make([]int, np)
						for i := range p2 {
							p2[i] = tin - 1 - i
						}
						try(b, p2)
						return
					}
					forProduct(pd, func(p []int) { try(b, append([]int{}, p...)) })
				})
			})
		})
	}

	if !limited {
		return
	}
	e.Group("properties")
	for _, z := range methodZoo() {
		f0 := z.mk(zooContent(40))
		for ci := range f0.Coders {
			e.Case(func() string { return fmt.Sprintf("%s: properties of coder %d", z.name, ci) }, func(t *T) {
				try := func(p []byte) {
					f := z.mk(zooContent(40))
					f.Coders[ci].Props = p
					a := &Archive{}
					a.AddFolder(f, names(2), []int{15, 25})
					run(t, a.Build().B)
				}
				orig := f0.Coders[ci].Props
				for p := range orig {
					for v := range 256 {
						b := append([]byte{}, orig...)
						b[p] = byte(v)
						try(b)
					}
				}
				for n := range 40 {
					for _, fill := range []byte{0, 1, 0x7f, 0xff, 0xc0} {
						try(bytes.Repeat([]byte{fill}, n))
						if n > len(orig) {
							try(append(append([]byte{}, orig...), bytes.Repeat([]byte{fill}, n-len(orig))...))
						}
					}
					if n < len(orig) {
						try(orig[:n])
					}
				}
				for v := range 1 << 16 {
					if bytes.Equal(f0.Coders[ci].ID, idAES) && (!q || z.name == "aes") {
						try([]byte{byte(v), byte(v >> 8)})
					} else if v < 256 {
						try([]byte{byte(v)})
					}
				}
				// sizes claimed for the output
				for k := range f0.Sizes {
					for _, s := range boundary {
						f := z.mk(zooContent(40))
						f.Sizes[k] = s
						a := &Archive{}
						a.AddFolder(f, names(2), []int{15, 25})
						run(t, a.Build().B)
					}
				}
			})
		}
		// the number of streams of a coder
		e.Case(func() string { return z.name + ": each coder replaced by each other method" }, func(t *T) {
			for ci := range f0.Coders {
				for _, id := range [][]byte{idCopy, idDelta, idLZMA, idBCJ, idBCJ2, idPPC, idARM, idSPARC, idDeflate, idBzip2, idZstd, idBrotli, idLZ4, idAES, idARM64, idLZMA2, idPPMD, {}, {1}, {0x77, 1, 2, 3, 4, 5, 6, 7, 8}} {
					for _, props := range [][]byte{nil, {0}, {0x5d, 0, 0, 1, 0}, f0.Coders[ci].Props} {
						f := z.mk(zooContent(40))
						f.Coders[ci].ID, f.Coders[ci].Props = id, props
						a := &Archive{}
						a.AddFolder(f, names(2), []int{15, 25})
						run(t, a.Build().B)
					}
				}
			}
		})
	}

	e.Group("packed data")
	for _, z := range methodZoo() {
		sizes := []int{40}
		if !q {
			sizes = []int{40, 300}
		}
		if z.name == "ppmd" {
			sizes = []int{40, 1000}
		}
		for _, n := range sizes {
			mk := func() *Archive {
				a := &Archive{}
				a.AddFolder(z.mk(zooContent(n)), names(3), []int{n / 2, 0, n - n/2})
				return a
			}
			b0 := mk().Build()
			ps := b0.B[b0.PackStart:b0.PackEnd]
			for p := range ps {
				if n > 40 && p%4 != 0 && q {
					continue
				}
				e.Case(func() string { return fmt.Sprintf("%s, %d bytes: packed byte %d of %d", z.name, n, p, len(ps)) }, func(t *T) {
					b := append([]byte{}, b0.B...)
					for v := range 256 {
						b[b0.PackStart+p] = byte(v)
						run(t, b)
					}
					if n == 40 && len(ps) < 70 {
						for w := p + 1; w < len(ps); w++ {
							for k := range 64 {
								copy(b, b0.B)
								b[b0.PackStart+p] ^= 1 << (k % 8)
								b[b0.PackStart+w] ^= 1 << (k / 8)
								run(t, b)
								if q && k >= 8 {
									break
								}
							}
						}
					}
				})
			}
			e.Case(func() string {
				return fmt.Sprintf("%s, %d bytes: packed streams cut, extended, filled, exchanged", z.name, n)
			}, func(t *T) {
				np := len(mk().Folders[0].Packs)
				for k := range np {
					p := mk().Folders[0].Packs[k]
					try := func(x []byte) {
						for _, claim := range []uint64{0, 1 << 30, 1 << 62} {
							a := mk()
							a.Folders[0].Packs[k] = x
							if claim != 0 {
								// the last file, and with it the stream, claims more data
								for i := range a.Folders[0].Sizes {
									a.Folders[0].Sizes[i] = claim
								}
							}
							run(t, a.Build().B)
						}
					}
					for c := range len(p) {
						try(p[:c])
						try(p[c:])
					}
					for _, v := range []byte{0, 0xff, 0x55} {
						for _, c := range []int{0, 1, 5, 18, 40, 500} {
							try(bytes.Repeat([]byte{v}, c))
							try(append(append([]byte{}, p...), bytes.Repeat([]byte{v}, c)...))
							for cut := 0; cut < len(p); cut += max(1, len(p)/8) {
								try(append(append([]byte{}, p[:cut]...), bytes.Repeat([]byte{v}, c)...))
							}
						}
					}
					try(append(append([]byte{}, p...), p...))
				}
			})
		}
	}

	e.Group("names")
	e.Case(func() string { return "names of odd code units, paths and separators" }, func(t *T) {
		var u = []uint16{0, '/', '\\', '.', 'a', 0xd800, 0xdc00, 0xffff, ':'}
		idx := make([]byte, len(u))
		for i := range idx {
			idx[i] = byte(i)
		}
		for n := range 5 {
			forStrings(idx, n, func(s []byte) bool {
				var nm []uint16
				for _, i := range s {
					nm = append(nm, u[i])
				}
				if nm == nil {
					nm = []uint16{}
				}
				for k := range 3 {
					a := &Archive{}
					switch k {
					case 0:
						a.AddFolder(rawFolder(1), []string{"x"}, []int{1})
						a.Entries[0].Raw16 = nm
					case 1:
						a.Entries = []Entry{{Raw16: nm, Attr: p32(0x10)}, {Raw16: nm, EmptyFile: true}}
					case 2:
						a.Entries = []Entry{{Raw16: append(append([]uint16{}, nm...), '/', 'a'), EmptyFile: true}, {Raw16: nm, EmptyFile: true}}
					}
					run(t, a.Build().B)
				}
				return true
			})
		}
	})
	_ = ex
	_ = sort.Ints
}

// fieldContents returns the bytes of every raw field by number.
func fieldContents(a *Archive) map[int][]byte {
	out := map[int][]byte{}
	recordRaw = out
	a.Build()
	recordRaw = nil
	return out
}
