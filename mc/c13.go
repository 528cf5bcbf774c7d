package main

// C13: an archive behind a stub reads the same as the bare archive.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"

	"github.com/bodgit/sevenzip"
)

func init() {
	register(&Check{
		ID:    "C13",
		Level: "exploration",
		Rule: "an archive behind a stub of every length from 0 to 2^20 bytes; with stubs that hold decoys (bare, partial and overlapping signatures, headers with bad checksums and extreme fields) at every distance " +
			"before the archive, at every position around the search's chunk boundaries and in every combination of three; with trailing data of every length and kind; for every form of archive. Listing and contents " +
			"have to equal the bare archive's. All strings up to 7 bytes over the signature's bytes, and stubs without an archive, have to be rejected",
		Run: runC13,
		Assumptions: []string{
			"data in front of an archive that itself holds a start header with a correct checksum is an archive: which of the two is read is not specified",
			"a stub starting with the signature itself is taken for the archive",
		},
		Explain: "every stub length and decoy placement is run through the real NewReader",
	})
}

const mib = 1 << 20

// oddReaderAt reports the end of the input in one of the ways io.ReaderAt allows.
type oddReaderAt struct {
	b    []byte
	mode int
}

func (o *oddReaderAt) ReadAt(p []byte, off int64) (int, error) {
	n, err := bytes.NewReader(o.b).ReadAt(p, off)
	switch o.mode {
	case 1: // EOF together with the last bytes
		if off+int64(n) == int64(len(o.b)) {
			err = io.EOF
		}
	case 2:
		if err != nil {
			err = io.ErrUnexpectedEOF
		}
	}
	return n, err
}

type stubArch struct {
	name string
	a    *Archive
	b    *Built
	pw   string
}

func stubArchives() []stubArch {
	var l []stubArch
	add := func(name string, a *Archive, pw string) { l = append(l, stubArch{name, a, a.Build(), pw}) }
	a := &Archive{}
	a.AddFolder(Chain(pattern(11, 1), sCopy()), []string{"a", "b"}, []int{5, 6})
	add("copy", a, "")
	a = &Archive{}
	a.AddFolder(Chain(text(40, 1), sLZMA(), sAES(aesQuick)), []string{"a", "b"}, []int{5, 35})
	a.AddFolder(Chain(text(30, 2), sDeflate()), []string{"c"}, []int{30})
	a.Opts.EncodedCRC = true
	a.Opts.Encode = func(h []byte) *Folder { return Chain(h, sLZMA(), sAES(aesQuick)) }
	add("encrypted header", a, aesQuick.Password)
	a = &Archive{}
	a.AddFolder(Chain(text(50, 4), sLZMA2()), []string{"d/a", "d/b"}, []int{20, 30})
	a.Opts.Encode = func(h []byte) *Folder { return Chain(h, sLZMA()) }
	a.Opts.PackPos = 3
	add("compressed header", a, "")
	a = &Archive{}
	a.AddFolder(BCJ2Chain(zooContent(60), func(int) bool { return true }, [4][]Stage{{sLZMA()}, {}, {}, {}}), []string{"x"}, []int{60})
	a.AddFolder(Chain(append([]byte("7z\xbc\xaf\x27\x1c"), pattern(40, 3)...), sCopy()), []string{"sig"}, []int{46})
	a.Entries = append(a.Entries, Entry{Name: "empty", EmptyFile: true})
	add("several streams", a, "")
	a = &Archive{}
	a.Entries = append(a.Entries, Entry{Name: "empty", EmptyFile: true})
	add("no streams", a, "")
	return l
}

func (s *stubArch) same(t *T, in []byte, mode int, what string) {
	r, err := sevenzip.NewReaderWithPassword(&oddReaderAt{in, mode}, int64(len(in)), s.pw)
	t.Eval(1)
	if err != nil {
		t.Failf("rejected", "%s archive, %s: %v", s.name, what, err)
	}
	if d := diffList(r, expectList(s.a)); d != "" {
		t.Failf("listing", "%s archive, %s: %s", s.name, what, d)
	}
	for i, e := range s.a.Entries {
		b, err := extract(r.File[i])
		if err != nil || !bytes.Equal(b, e.Data) {
			t.Failf("content", "%s archive, %s: file %d: %v, %s, want %s", s.name, what, i, err, hexClip(b), hexClip(e.Data))
		}
	}
}

func runC13(e *Env) {
	sig := []byte("7z\xbc\xaf\x27\x1c")
	archs := stubArchives()
	// fillers are longer than a mebibyte; the stub is the tail of it
	partial := bytes.Repeat([]byte("7z\xbc\xaf\x277z\xbc7\x1cz"), mib/10+10)[:mib+64]
	rnd := pattern(mib+64, 77)
	decoys := bytes.Repeat(append(bytes.Clone(sig), 0, 4), mib/8+10)[:mib+64]
	fillers := []struct {
		name string
		b    []byte
	}{{"zeros", make([]byte, mib+64)}, {"noise", rnd}, {"partial signatures", partial}, {"signatures", decoys}}

	e.Group("every stub length")
	for fi, f := range fillers {
		step := 1
		if e.Quick() && fi > 0 {
			step = 251 // still every residue of the chunk size, in turn
		} else if fi == 3 {
			step = 13
		}
		a := &archs[0]
		buf := append(bytes.Clone(f.b[:mib]), a.b.B...)
		block := 1024
		if fi > 0 {
			block = 32
		}
		for lo := 0; lo <= mib; lo += block * step {
			e.Case(func() string { return fmt.Sprintf("stub of %s, %d bytes and on", f.name, lo) }, func(t *T) {
				for n := lo; n < lo+block*step && n <= mib; n += step {
					in := buf[mib-n:]
					if n > 0 && bytes.HasPrefix(in, sig) {
						continue
					}
					a.same(t, in, 0, fmt.Sprintf("%d bytes of %s in front", n, f.name))
				}
				t.Outcome(fi, lo)
			})
		}
	}

	e.Group("every form of archive, stub and trailer")
	lens := []int{0, 1, 2, 5, 6, 7, 31, 32, 33, 100, 4089, 4090, 4091, 4095, 4096, 4097, 4101, 4102, 4103, 8191, 8192, 8193, 65536, 200000, mib - 4097, mib - 4096, mib - 33, mib - 6, mib - 1, mib}
	trail := [][]byte{nil, {0}, pattern(5, 2), sig, archs[0].b.B, make([]byte, 5000), append(bytes.Clone(sig), pattern(26, 3)...), pattern(100000, 9)}
	for ai := range archs {
		a := &archs[ai]
		for _, f := range fillers {
			for _, n := range lens {
				e.Case(func() string { return fmt.Sprintf("%s archive behind %d bytes of %s", a.name, n, f.name) }, func(t *T) {
					stub := f.b[mib-n : mib]
					if bytes.HasPrefix(stub, sig) {
						stub = append([]byte{0}, stub[1:]...)
					}
					for ti, tr := range trail {
						in := append(append(bytes.Clone(stub), a.b.B...), tr...)
						for mode := range 3 {
							a.same(t, in, mode, fmt.Sprintf("%d bytes of %s in front, trailer %d, mode %d", n, f.name, ti, mode))
						}
					}
				})
			}
		}
	}
	for ai := range archs {
		a := &archs[ai]
		maxT := 300
		if !e.Quick() {
			maxT = 9000
		}
		for lo := 0; lo < maxT; lo += 100 {
			e.Case(func() string { return fmt.Sprintf("%s archive with trailers of %d bytes and on", a.name, lo) }, func(t *T) {
				for n := lo; n < lo+100; n++ {
					for k, f := range fillers {
						for _, stub := range [][]byte{nil, pattern(11, 1)} {
							in := append(append(bytes.Clone(stub), a.b.B...), f.b[:n]...)
							a.same(t, in, n%3, fmt.Sprintf("%d bytes in front, %d bytes of %s behind", len(stub), n, fillers[k].name))
						}
					}
				}
			})
		}
	}
	// no header at all
	e.Case(func() string { return "empty archive behind stubs" }, func(t *T) {
		empty := Assemble(nil, nil)
		for _, n := range lens {
			for _, tr := range trail {
				in := append(append(bytes.Clone(rnd[:n]), empty...), tr...)
				r, err := open(in, "")
				t.Eval(1)
				if err != nil || len(r.File) != 0 {
					t.Failf("empty", "empty archive behind %d bytes, %d bytes of trailer: %v", n, len(tr), err)
				}
			}
		}
	})

	// decoys
	badCRC := func(off, size uint64) []byte {
		h := append(bytes.Clone(sig), 0, 4)
		body := binary.LittleEndian.AppendUint64(nil, off)
		body = binary.LittleEndian.AppendUint64(body, size)
		body = append(body, 1, 2, 3, 4)
		h = binary.LittleEndian.AppendUint32(h, *crcOf(body)^1)
		return append(h, body...)
	}
	kinds := []struct {
		name string
		b    []byte
	}{
		{"signature", sig},
		{"part of it", sig[:5]},
		{"version", append(bytes.Clone(sig), 0, 4)},
		{"bad checksum", badCRC(0, 10)},
		{"huge offset", badCRC(1<<63, 1<<63)},
		{"no header", badCRC(0, 0)},
		{"twice", append(bytes.Clone(sig), sig...)},
		{"overlapping", append(bytes.Clone(sig[:5]), sig...)},
		{"copied start header", archs[1].b.B[:20]},
		{"start header but its checksum", func() []byte {
			b := bytes.Clone(archs[0].b.B[:32])
			b[8] ^= 1
			return b
		}()},
		{"all of another archive but one bit", func() []byte {
			b := bytes.Clone(archs[0].b.B)
			b[8] ^= 1
			return b
		}()},
	}
	put := func(stub []byte, at int, d []byte) bool {
		if at < 1 || at+len(d) > len(stub) {
			return false
		}
		copy(stub[at:], d)
		return true
	}

	e.Group("decoys at every distance from the archive")
	for ai := range archs[:4] {
		a := &archs[ai]
		for _, k := range kinds {
			for _, base := range []int{200, 4096, 8192} {
				e.Case(func() string { return fmt.Sprintf("%s: decoy %q in stubs around %d bytes", a.name, k.name, base) }, func(t *T) {
					dmax := 80
					if !e.Quick() {
						dmax = 190
					}
					for delta := -7; delta <= 7; delta++ {
						for dist := len(k.b); dist <= dmax; dist++ {
							stub := make([]byte, base+delta)
							if !put(stub, len(stub)-dist, k.b) {
								continue
							}
							a.same(t, append(stub, a.b.B...), 0, fmt.Sprintf("decoy %q %d bytes in front, stub of %d", k.name, dist, len(stub)))
						}
					}
				})
			}
		}
	}

	e.Group("decoys around chunk boundaries")
	for _, k := range kinds {
		for _, c := range []int{1, 2, 3, 17, 128, 255, 256} {
			e.Case(func() string { return fmt.Sprintf("decoy %q around chunk %d", k.name, c) }, func(t *T) {
				a := &archs[0]
				for at := c*4096 - 45; at <= c*4096+45; at++ {
					stub := make([]byte, min(mib, c*4096+300))
					if !put(stub, at, k.b) {
						continue
					}
					a.same(t, append(stub, a.b.B...), 0, fmt.Sprintf("decoy %q at %d, stub of %d", k.name, at, len(stub)))
				}
				// and the archive itself around them
				for n := c*4096 - 45; n <= min(mib, c*4096+45); n++ {
					stub := make([]byte, n)
					put(stub, 1, k.b)
					a.same(t, append(stub, a.b.B...), 0, fmt.Sprintf("decoy %q at 1, stub of %d", k.name, n))
				}
			})
		}
	}

	e.Group("combinations of decoys")
	forProduct([]int{len(kinds), len(kinds), len(kinds)}, func(v []int) {
		v = append([]int{}, v...)
		e.Case(func() string { return fmt.Sprintf("three decoys %v", v) }, func(t *T) {
			for _, gap := range []int{0, 1, 26, 100} {
				for ai := range archs {
					a := &archs[ai]
					stub := []byte{'7'}
					for _, k := range v {
						stub = append(append(stub, kinds[k].b...), make([]byte, gap)...)
					}
					a.same(t, append(bytes.Clone(stub), a.b.B...), 0, fmt.Sprintf("decoys %v, %d bytes apart", v, gap))
				}
			}
		})
	})

	hugeStubs(e)

	e.Group("input without an archive")
	reject := func(t *T, in []byte, what string) {
		for mode := range 3 {
			r, err := sevenzip.NewReader(&oddReaderAt{in, mode}, int64(len(in)))
			t.Eval(1)
			if err == nil {
				t.Failf("accepted", "%s accepted, %d files", what, len(r.File))
			}
		}
	}
	alpha := append(bytes.Clone(sig), 0)
	maxL := 6
	if !e.Quick() {
		maxL = 7
	}
	for n := 0; n <= maxL; n++ {
		for first := range alpha {
			e.Case(func() string { return fmt.Sprintf("all strings of %d bytes starting with %02x", n, alpha[first]) }, func(t *T) {
				if n == 0 {
					reject(t, nil, "empty input")
					return
				}
				forStrings(alpha, n-1, func(s []byte) bool {
					in := append([]byte{alpha[first]}, s...)
					reject(t, in, fmt.Sprintf("%x", in))
					return true
				})
			})
		}
	}
	for _, f := range fillers {
		for _, n := range lens {
			e.Case(func() string { return fmt.Sprintf("%d bytes of %s alone", n, f.name) }, func(t *T) {
				reject(t, f.b[:n], fmt.Sprintf("%d bytes of %s", n, f.name))
				reject(t, f.b[3:3+n], fmt.Sprintf("%d bytes of %s", n, f.name))
			})
		}
	}
	for _, k := range kinds {
		e.Case(func() string { return fmt.Sprintf("decoy %q alone", k.name) }, func(t *T) {
			for n := range 200 {
				in := make([]byte, n)
				reject(t, append(append(bytes.Clone(in), k.b...), in...), fmt.Sprintf("decoy %q between %d bytes", k.name, n))
				reject(t, append(in, k.b...), fmt.Sprintf("decoy %q behind %d bytes", k.name, n))
			}
		})
	}
}
