package main

import (
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"hash/fnv"
	"sort"
	"strings"
)

func init() {
	register(&Check{ID: "C06", Level: "fault_enumeration",
		Rule: "archives with plain and with encoded headers (of every small length and beyond 1 MiB, every method, encrypted, several 4 KiB buffers long, recorded CRC values 0 and all ones) x every alteration of the checksummed bytes: all 1 and 2 bit flips, all 3 bit flips of the start header, all byte substitutions, all 16 bit bursts (start header; thorough: everywhere), all erasures to 00/ff, all deletions, insertions and swaps, every truncation. Opening must fail or list exactly the original entries; an outcome is a distinct altered archive.",
		Run:  runC06})
}

// forgeCRC finds the 4 free bytes for which sum(bytes) is the target; sum must be affine in them.
func forgeCRC(sum func(b []byte) uint32, target uint32) []byte {
	base := sum(make([]byte, 4))
	type row struct{ v, m uint32 }
	var basis [32]row
	for i := range 32 {
		b := make([]byte, 4)
		b[i/8] = 1 << (i % 8)
		r := row{sum(b) ^ base, 1 << i}
		for bit := 31; bit >= 0; bit-- {
			if r.v>>bit&1 == 0 {
				continue
			}
			if basis[bit].v == 0 {
				basis[bit] = r
				break
			}
			r.v ^= basis[bit].v
			r.m ^= basis[bit].m
		}
	}
	want := row{target ^ base, 0}
	for bit := 31; bit >= 0; bit-- {
		if want.v>>bit&1 == 1 {
			if basis[bit].v == 0 {
				panic("crc not forgeable")
			}
			want.v ^= basis[bit].v
			want.m ^= basis[bit].m
		}
	}
	return u32(want.m)
}

type crcArchive struct {
	name  string
	a     *Archive
	built *Built
	big   bool
	small bool
	nopar bool // costly to open
	huge  bool // only some positions are tried
	off   int  // length of a stub
}

func c06Entries(a *Archive, n int) {
	a.AddFolder(rawFolder(5), []string{"a", "b"}, []int{2, 3})
	if n > 1 {
		a.AddFolder(rawFolder(4), []string{"c"}, []int{4})
	}
	a.Entries = append(a.Entries, Entry{Name: "d", Attr: p32(0x10)}, Entry{Name: "e", EmptyFile: true, M: ftime(3)})
}

func c06Archives(quick bool) []crcArchive {
	var out []crcArchive
	add := func(name string, f func(a *Archive)) *crcArchive {
		a := &Archive{}
		f(a)
		out = append(out, crcArchive{name: name, a: a, built: a.Build()})
		return &out[len(out)-1]
	}
	add("minimal", func(a *Archive) { a.AddFolder(rawFolder(1), []string{"a"}, []int{1}) }).small = true
	add("empty", func(a *Archive) {}).small = true
	{
		// an empty archive that has no header at all
		out = append(out, crcArchive{name: "no header", a: &Archive{}, built: &Built{B: Assemble(nil, nil), HdrStart: 32, PackEnd: 32}, small: true})
	}
	add("plain", func(a *Archive) { c06Entries(a, 2) })
	add("plain, numbers of 9 bytes", func(a *Archive) { a.AddFolder(rawFolder(2), []string{"a"}, []int{2}); a.Opts.NumLen = 8 })
	add("long", func(a *Archive) { c06Entries(a, 1); a.Opts.Dummies = [][2]int{{7, 8300}} }).big = true
	add("many", func(a *Archive) {
		for i := range 300 {
			a.Entries = append(a.Entries, Entry{Name: fmt.Sprintf("directory-%03d", i), Attr: p32(0x10)})
		}
	}).big = true
	zoo := methodZoo()
	for i := range zoo {
		z := zoo[i]
		r := add("encoded "+z.name, func(a *Archive) {
			c06Entries(a, 1)
			a.Opts.EncodedCRC = true
			a.Opts.Encode = func(h []byte) *Folder { return z.mk(h) }
			if z.name == "ppmd" {
				a.Opts.Encode = nil
			}
		})
		r.nopar = z.name != "copy" && z.name != "lzma" && z.name != "aes"
	}
	add("encoded copy, long", func(a *Archive) {
		c06Entries(a, 1)
		a.Opts.Dummies = [][2]int{{7, 8300}}
		a.Opts.EncodedCRC = true
		a.Opts.Encode = func(h []byte) *Folder { return Chain(h, sCopy()) }
	}).big = true
	add("encoded lzma, dictionary of names", func(a *Archive) {
		for i := range 60 {
			a.Entries = append(a.Entries, Entry{Name: fmt.Sprintf("directory-%03d", i), Attr: p32(0x10)})
		}
		a.Opts.EncodedCRC = true
		a.Opts.Encode = func(h []byte) *Folder { return Chain(h, sLZMA()) }
	}).nopar = true
	// headers of every small length
	for n := 1; n <= 60; n++ {
		if quick && n > 12 && n%5 != 0 {
			continue
		}
		for _, enc := range []bool{false, true} {
			add(fmt.Sprintf("a directory, name of %d, encoded %v", n, enc), func(a *Archive) {
				a.Entries = append(a.Entries, Entry{Name: strings.Repeat("d", n), Attr: p32(0x10)})
				if enc {
					a.Opts.EncodedCRC = true
					a.Opts.Encode = func(h []byte) *Folder { return Chain(h, sCopy()) }
				}
			}).nopar = true
		}
	}
	// and long ones
	for _, k := range []int{70_000, 1_100_000, 17_000_000} {
		if quick && k > 2_000_000 {
			continue
		}
		for _, enc := range []bool{false, true} {
			r := add(fmt.Sprintf("a header of more than %d bytes, encoded %v", k, enc), func(a *Archive) {
				for i := range k / 4000 {
					a.Entries = append(a.Entries, Entry{Name: fmt.Sprintf("%05d-%s", i, strings.Repeat("n", 2000)), Attr: p32(0x10)})
				}
				if enc {
					a.Opts.EncodedCRC = true
					a.Opts.Encode = func(h []byte) *Folder { return Chain(h, sCopy()) }
				}
			})
			r.huge = true
		}
	}
	// particular values of the recorded CRCs
	for _, target := range []uint32{0, 0xffffffff, 1, 0x80000000} {
		target := target
		for _, enc := range []bool{false, true} {
			// the CRC of the header itself
			a := &Archive{}
			c06Entries(a, 1)
			a.Opts.Dummies = [][2]int{{0, 4}}
			if enc {
				a.Opts.EncodedCRC = true
				a.Opts.Encode = func(h []byte) *Folder { return Chain(h, sCopy()) }
			}
			field := -1
			for i, f := range a.Build().Fields {
				if f.Name == "dummy.data" {
					field = i
				}
			}
			fill := func(b []byte) *Built { return a.BuildWith(nil, map[int][]byte{field: b}) }
			v := forgeCRC(func(b []byte) uint32 { return crc32.ChecksumIEEE(fill(b).Plain) }, target)
			out = append(out, crcArchive{name: fmt.Sprintf("header CRC %08x, encoded %v", target, enc), a: a, built: fill(v)})
			if !enc {
				// the CRC of the start header
				v := forgeCRC(func(b []byte) uint32 { return binary.LittleEndian.Uint32(fill(b).B[8:]) }, target)
				out = append(out, crcArchive{name: fmt.Sprintf("start header CRC %08x", target), a: a, built: fill(v)})
			} else {
				// the CRC of the encoded header's description, adjusted through the (unused) CRC of the packed stream
				a.Opts.PackCRC = 1
				f2 := -1
				bb := a.Build()
				n := len(bb.Plain)
				for i, f := range bb.Fields {
					if f.Name == "pack.crc" {
						f2 = i
					}
				}
				_ = n
				// encoded fields are numbered from 100000: count those of the plain header
				plain := 0
				for i, f := range bb.Fields {
					if f.Name == "id.encoded" {
						plain = i
					}
				}
				f2 = 100000 + f2 - plain
				fill2 := func(b []byte) *Built { return a.BuildWith(nil, map[int][]byte{f2: b}) }
				v := forgeCRC(func(b []byte) uint32 { return binary.LittleEndian.Uint32(fill2(b).B[28:]) }, target)
				out = append(out, crcArchive{name: fmt.Sprintf("encoded header's description CRC %08x", target), a: a, built: fill2(v)})
			}
		}
	}
	// behind a stub
	for _, k := range []int{3, 4} {
		c := out[k]
		c.name += " behind a stub"
		c.off = 77
		b := *c.built
		b.B = append(pattern(c.off, 1), b.B...)
		b.HdrStart += c.off
		c.built = &b
		out = append(out, c)
	}
	return out
}

func runC06(e *Env) {
	q := e.Quick()
	list := c06Archives(q)
	for _, ca := range list {
		ca := ca
		orig := ca.built.B
		want := expectList(ca.a)
		pw := aesQuick.Password
		// the checksummed bytes: start header (with its CRC), header, packed header
		var pos []int
		for i := ca.off + 8; i < ca.off+32; i++ {
			pos = append(pos, i)
		}
		if ca.built.EncStart > 0 {
			for i := ca.built.EncStart; i < ca.built.EncEnd; i++ {
				pos = append(pos, i)
			}
		}
		for i := ca.built.HdrStart; i < len(orig); i++ {
			pos = append(pos, i)
		}
		check := func(t *T, b []byte, what func() string) {
			t.Eval(1)
			h := fnv.New64a()
			_, _ = h.Write(b)
			t.OutcomeHash(h.Sum64())
			r, err := open(b, pw)
			if err != nil {
				return
			}
			if d := diffList(r, want); d != "" {
				t.Failf("accepted", "%s: %s: opened without an error, but %s", ca.name, what(), d)
			}
		}
		e.Group(ca.name)
		if ca.huge {
			// the first and last bytes of each part and those round the multiples of some block sizes
			sel := map[int]bool{}
			for _, g := range [][2]int{{ca.off + 8, ca.off + 32}, {ca.built.EncStart, ca.built.EncEnd}, {ca.built.HdrStart, len(orig)}} {
				n := g[1] - g[0]
				for i := range min(n, 40) {
					sel[g[0]+i], sel[g[1]-1-i] = true, true
				}
				for b := 4096; b < n; b *= 2 {
					for _, d := range []int{-1, 0, 1} {
						sel[g[0]+min(n-1, b+d)] = true
						sel[g[1]-min(n, b+d)] = true
					}
				}
				for b := 61_001; b < n; b += 61_001 {
					sel[g[0]+b] = true
				}
			}
			ps := []int{}
			for p := range sel {
				ps = append(ps, p)
			}
			sort.Ints(ps)
			for lo := 0; lo < len(ps); lo += 20 {
				e.Case(func() string { return fmt.Sprintf("%s: some bits of bytes from %d on", ca.name, ps[lo]) }, func(t *T) {
					tmp := append([]byte{}, orig...)
					check2 := func(what func() string) { check(t, tmp, what); t.Beat() }
					if lo == 0 {
						if r, err := open(orig, pw); err != nil {
							t.Failf("sound", "%s: the unaltered archive is refused: %v", ca.name, err)
						} else if d := diffList(r, want); d != "" {
							t.Failf("sound", "%s: unaltered: %s", ca.name, d)
						}
					}
					for _, p := range ps[lo:min(len(ps), lo+20)] {
						for _, m := range []byte{1, 0x80} {
							tmp[p] ^= m
							check2(func() string { return fmt.Sprintf("byte %d changed by %02x", p, m) })
							tmp[p] ^= m
						}
						check(t, tmp[:p], func() string { return fmt.Sprintf("cut to %d of %d bytes", p, len(orig)) })
					}
				})
			}
			continue
		}
		e.Case(func() string { return ca.name + ": unaltered and every truncation" }, func(t *T) {
			r, err := open(orig, pw)
			if err != nil {
				t.Failf("sound", "%s: the unaltered archive is refused: %v", ca.name, err)
			}
			if d := diffList(r, want); d != "" {
				t.Failf("sound", "%s: unaltered: %s", ca.name, d)
			}
			for n := range len(orig) {
				check(t, orig[:n], func() string { return fmt.Sprintf("cut to %d of %d bytes", n, len(orig)) })
			}
		})
		tmp := append([]byte{}, orig...)
		// single bits, bytes
		chunk := 64
		for lo := 0; lo < len(pos); lo += chunk {
			ps := pos[lo:min(lo+chunk, len(pos))]
			e.Case(func() string {
				return fmt.Sprintf("%s: every value of every byte %d..%d", ca.name, ps[0], ps[len(ps)-1])
			}, func(t *T) {
				for _, p := range ps {
					for v := range 256 {
						if byte(v) == orig[p] {
							continue
						}
						if ca.big && (v^int(orig[p]))&(v^int(orig[p])-1) != 0 && v != 0 && v != 255 && q {
							continue // quick, long headers: single bits, 00 and ff
						}
						tmp[p] = byte(v)
						check(t, tmp, func() string { return fmt.Sprintf("byte %d = %02x instead of %02x", p, v, orig[p]) })
					}
					tmp[p] = orig[p]
				}
				t.Sample(map[string]any{"archive": ca.name, "bytes": len(orig), "positions": ps})
			})
		}
		// pairs of bits
		nb := len(pos) * 8
		if !ca.big && (!ca.nopar || !q) && (!q || nb <= 1600) || ca.small {
			step := max(1, 40000/nb)
			for lo := 0; lo < nb; lo += step {
				hi := min(nb, lo+step)
				e.Case(func() string { return fmt.Sprintf("%s: pairs of bits, first %d..%d of %d", ca.name, lo, hi-1, nb) }, func(t *T) {
					for i := lo; i < hi; i++ {
						tmp[pos[i/8]] ^= 1 << (i % 8)
						for j := i + 1; j < nb; j++ {
							tmp[pos[j/8]] ^= 1 << (j % 8)
							check(t, tmp, func() string { return fmt.Sprintf("bits %d.%d and %d.%d flipped", pos[i/8], i%8, pos[j/8], j%8) })
							tmp[pos[j/8]] ^= 1 << (j % 8)
						}
						tmp[pos[i/8]] ^= 1 << (i % 8)
					}
				})
			}
		}
		// triples of bits of the start header
		if ca.small || ca.name == "plain" || ca.name == "encoded lzma" || !q {
			for i := range 192 {
				e.Case(func() string { return fmt.Sprintf("%s: triples of start header bits, first %d", ca.name, i) }, func(t *T) {
					fl := func(k int) { tmp[ca.off+8+k/8] ^= 1 << (k % 8) }
					fl(i)
					for j := i + 1; j < 192; j++ {
						fl(j)
						for k := j + 1; k < 192; k++ {
							fl(k)
							check(t, tmp, func() string { return fmt.Sprintf("start header bits %d, %d, %d flipped", i, j, k) })
							fl(k)
						}
						fl(j)
					}
					fl(i)
				})
			}
		}
		// bursts of 16 bits
		for k := 0; k+1 < len(pos); k++ {
			if pos[k+1] != pos[k]+1 || q && !(ca.small || ca.name == "plain") || ca.big {
				continue
			}
			p := pos[k]
			e.Case(func() string { return fmt.Sprintf("%s: every value of bytes %d, %d", ca.name, p, p+1) }, func(t *T) {
				for v := range 1 << 16 {
					tmp[p], tmp[p+1] = byte(v), byte(v>>8)
					if tmp[p] != orig[p] && tmp[p+1] != orig[p+1] {
						check(t, tmp, func() string { return fmt.Sprintf("bytes %d, %d = %x", p, p+1, tmp[p:p+2]) })
					}
				}
				copy(tmp[p:], orig[p:p+2])
			})
		}
		// ranges
		ranges := [][2]int{{ca.off + 8, ca.off + 32}, {ca.built.HdrStart, len(orig)}}
		if ca.built.EncStart > 0 {
			ranges = append(ranges, [2]int{ca.built.EncStart, ca.built.EncEnd}, [2]int{ca.built.EncStart, len(orig)})
		}
		if ca.big {
			ranges = ranges[:1]
		}
		for _, rg := range ranges {
			for lo := rg[0]; lo < rg[1]; lo++ {
				if q && ca.nopar && lo%4 != 0 {
					continue
				}
				e.Case(func() string { return fmt.Sprintf("%s: ranges from %d to at most %d", ca.name, lo, rg[1]) }, func(t *T) {
					for hi := lo + 1; hi <= rg[1]; hi++ {
						for _, v := range []byte{0, 0xff} {
							for i := lo; i < hi; i++ {
								tmp[i] = v
							}
							check(t, tmp, func() string { return fmt.Sprintf("bytes %d..%d set to %02x", lo, hi-1, v) })
						}
						copy(tmp[lo:hi], orig[lo:hi])
						del := append(append([]byte{}, orig[:lo]...), orig[hi:]...)
						check(t, del, func() string { return fmt.Sprintf("bytes %d..%d removed", lo, hi-1) })
						dup := append(append(append([]byte{}, orig[:hi]...), orig[lo:hi]...), orig[hi:]...)
						check(t, dup, func() string { return fmt.Sprintf("bytes %d..%d doubled", lo, hi-1) })
						rot := append([]byte{}, orig...)
						copy(rot[lo:], orig[lo+1:hi])
						rot[hi-1] = orig[lo]
						check(t, rot, func() string { return fmt.Sprintf("bytes %d..%d rotated", lo, hi-1) })
						rot = append(rot[:0], orig...)
						rot[lo], rot[hi-1] = rot[hi-1], rot[lo]
						check(t, rot, func() string { return fmt.Sprintf("bytes %d and %d exchanged", lo, hi-1) })
					}
				})
			}
		}
		e.Case(func() string { return ca.name + ": sections taken from other archives" }, func(t *T) {
			// a start header, header or packed header of another archive
			for _, o := range list[:6] {
				ob := o.built.B
				mix := func(what string, parts ...[]byte) {
					var b []byte
					for _, p := range parts {
						b = append(b, p...)
					}
					if string(b) == string(orig) {
						return
					}
					t.Eval(1)
					r, err := open(b, pw)
					if err != nil {
						return
					}
					if d := diffList(r, want); d != "" && diffList(r, expectList(o.a)) != "" {
						t.Failf("accepted", "%s with the %s of %s: opened without an error, but %s", ca.name, what, o.name, d)
					}
				}
				mix("start header", orig[:ca.off+8], ob[8:32], orig[ca.off+32:])
				mix("header", orig[:ca.built.HdrStart], ob[o.built.HdrStart:])
			}
		})
	}
}
