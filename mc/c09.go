package main

// C09: the right password decrypts exactly, every time.

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/bodgit/sevenzip"
)

func init() {
	register(&Check{
		ID:    "C09",
		Level: "exploration",
		Rule: "for every salt length 0..16 x initialisation vector length 0..16 (not both absent) in each of the encodings the two property bytes allow, every key strength of the bound and " +
			"every password of a list of edge texts, every file of an encrypted archive, opened several times, decrypts to the archived bytes as computed by an independent key derivation; the same " +
			"over all histories of openings of archives whose (password, strength, salt) differ in only one component or agree when concatenated, over key-cache evictions, and with wrong passwords in between",
		Run: runC09,
		Assumptions: []string{
			"the reference key derivation and AES-CBC encryption (crypto/sha256, crypto/aes) are correct; the reference archives of the test suite pin the format",
			"passwords are valid UTF-8 text",
		},
		Explain: "exploration: every archive of the enumerated family is extracted by the real code and compared with the plain bytes",
	})
}

// aesPropsAlt writes the lengths of salt and iv in every way the property bytes allow.
func aesPropsAlt(p AESParams) [][]byte {
	enc := func(n int) [][2]byte { // flag, nibble
		var o [][2]byte
		if n >= 1 {
			o = append(o, [2]byte{1, byte(n - 1)})
		}
		if n <= 15 {
			o = append(o, [2]byte{0, byte(n)})
		}
		return o
	}
	var out [][]byte
	for _, s := range enc(len(p.Salt)) {
		for _, v := range enc(len(p.IV)) {
			if s[0] == 0 && v[0] == 0 {
				continue // means no salt and no IV in the format
			}
			b := []byte{byte(p.Cycles) | s[0]<<7 | v[0]<<6, s[1]<<4 | v[1]}
			out = append(out, append(append(b, p.Salt...), p.IV...))
		}
	}
	return out
}

func withProps(s Stage, props []byte) Stage {
	return Stage{s.Name, func(in []byte) (Coder, []byte) {
		c, out := s.Enc(in)
		c.Props = props
		return c, out
	}}
}

// seqBytes is n distinct bytes.
func seqBytes(n int, from byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = from + byte(i)*7
	}
	return b
}

var c09Passwords = []string{
	"", "a", "password", "Pass w0rd!", "ä", "€uro", "日本語", "\U0001F600", "x\U0001F600y\U00010348", "\ufeffbom", "\ufffd", "a\x00b", "\x00",
	"0123456789abcdef0123456789abcdef", strings.Repeat("p", 15), strings.Repeat("p", 16), strings.Repeat("p", 17), strings.Repeat("q", 32), strings.Repeat("q", 33),
	strings.Repeat("long", 100), strings.Repeat("l", 2047), strings.Repeat("l", 2048) + "z", strings.Repeat("é", 4096) + "!", strings.Repeat("\U0001F600", 2049), strings.Repeat("y", 10000),
}

// c09Tuple is one key identity.
type c09Tuple struct {
	pw     string
	cycles int
	salt   string
}

func (u c09Tuple) params(iv int) AESParams {
	return AESParams{Password: u.pw, Cycles: u.cycles, Salt: []byte(u.salt), IV: seqBytes(max(1, iv), 0x31)}
}

type c09Arc struct {
	b    []byte
	want []Entry
	pw   string
}

func c09Archive(p AESParams, seed uint32, st ...Stage) c09Arc {
	a := &Archive{}
	a.AddFolder(Chain(pattern(41, seed), append(st, sAES(p))...), names(2), []int{17, 24})
	return c09Arc{a.Build().B, a.Entries, p.Password}
}

// c09Extract extracts everything, in the given order of files.
func c09Extract(t *T, r *sevenzip.Reader, want []Entry, order []int, what string) {
	for k, i := range order {
		b, err := extract(r.File[i])
		if err != nil {
			t.Failf("decrypt-error", "%s, opening %d (file %d): %v", what, k+1, i, err)
		}
		if !bytes.Equal(b, want[i].Data) {
			t.Failf("decrypt-content", "%s, opening %d (file %d): got %s, want %s", what, k+1, i, hexClip(b), hexClip(want[i].Data))
		}
	}
}

func c09Open(t *T, a c09Arc, order []int, what string) {
	r, err := open(a.b, a.pw)
	if err != nil {
		t.Failf("open", "%s: %v", what, err)
	}
	c09Extract(t, r, a.want, order, what)
	t.Eval(1)
}

// flushKeys pushes everything out of the key cache.
func flushKeys(t *T) {
	for i := range 12 {
		p := AESParams{Password: fmt.Sprintf("flush%d", i), Cycles: 0, Salt: []byte{1}}
		a := c09Archive(p, 1)
		r, err := open(a.b, a.pw)
		if err != nil {
			t.Failf("open", "%v", err)
		}
		rc, err := r.File[0].Open()
		if err != nil {
			t.Failf("open", "%v", err)
		}
		_ = rc.Close()
	}
}

func runC09(e *Env) {
	q := e.Quick()

	e.Group("lengths")
	cyc := []int{0, 1, 5, 0x3f}
	pws := []string{"", "a", "password", "x\U0001F600y\U00010348", strings.Repeat("q", 33)}
	if !q {
		cyc = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0x3f}
		pws = c09Passwords[:20]
	}
	for sl := 0; sl <= 16; sl++ {
		for vl := 0; vl <= 16; vl++ {
			if sl == 0 && vl == 0 {
				continue
			}
			e.Case(func() string { return fmt.Sprintf("salt of %d bytes, IV of %d bytes", sl, vl) }, func(t *T) {
				for _, c := range cyc {
					for pi, pw := range pws {
						for si, salt := range [][]byte{seqBytes(sl, 0x11), bytes.Repeat([]byte{0}, sl), bytes.Repeat([]byte{0xff}, sl)} {
							if si > 0 && sl == 0 {
								continue
							}
							p := AESParams{Password: pw, Cycles: c, Salt: salt, IV: seqBytes(vl, 0x80)}
							for ai, props := range aesPropsAlt(p) {
								a := &Archive{}
								a.AddFolder(Chain(pattern(41, uint32(sl*17+vl)), withProps(sAES(p), props)), names(2), []int{17, 24})
								what := fmt.Sprintf("strength %d, password %d %q, salt %x, properties %x (encoding %d)", c, pi, clip(pw, 20), salt, props, ai)
								arc := c09Arc{a.Build().B, a.Entries, pw}
								r, err := open(arc.b, pw)
								if err != nil {
									t.Failf("open", "%s: %v", what, err)
								}
								t.Eval(1)
								t.Trans(5)
								c09Extract(t, r, arc.want, []int{0, 1, 0, 1, 1, 0}, what)
								// and once more with a new Reader, the key now in the cache
								c09Open(t, arc, []int{1, 0}, what+", second reader")
								t.Outcome("len", sl, vl, c, pi, si, ai)
							}
						}
					}
				}
				t.Sample(fmt.Sprintf("salt %d, iv %d: strengths %v, %d passwords, all encodings", sl, vl, cyc, len(pws)))
			})
		}
	}

	e.Group("passwords")
	for pi, pw := range c09Passwords {
		for _, c := range []int{0, 1, 6, 0x3f} {
			e.Case(func() string {
				return fmt.Sprintf("password %d (%d bytes) %q, strength %d", pi, len(pw), clip(pw, 30), c)
			}, func(t *T) {
				for _, sl := range []int{0, 1, 8, 16} {
					for _, st := range [][]Stage{{}, {sLZMA()}, {sLZMA2()}, {sDeflate()}, {sBCJ(), sZstd()}} {
						p := AESParams{Password: pw, Cycles: c, Salt: seqBytes(sl, 3), IV: seqBytes(16, 9)}
						a := c09Archive(p, uint32(sl), st...)
						c09Open(t, a, []int{0, 1, 1, 0}, fmt.Sprintf("salt of %d, %v", sl, len(st)))
						flushKeys(t)
						c09Open(t, a, []int{1, 0}, fmt.Sprintf("salt of %d, %v, after an eviction", sl, len(st)))
						t.Outcome("pw", pi, c, sl, len(st))
					}
				}
			})
		}
	}

	e.Group("strengths")
	maxc := 17
	if !q {
		maxc = 22
	}
	for c := 0; c <= maxc; c++ {
		e.Case(func() string { return fmt.Sprintf("strength %d", c) }, func(t *T) {
			for _, sl := range []int{0, 5, 16} {
				if c > 14 && sl == 5 {
					continue
				}
				p := AESParams{Password: "pass", Cycles: c, Salt: seqBytes(sl, 3), IV: seqBytes(16, 9)}
				a := c09Archive(p, uint32(sl))
				c09Open(t, a, []int{0, 1, 0}, fmt.Sprintf("strength %d, salt of %d", c, sl))
				t.Outcome("strength", c, sl)
			}
		})
	}
	if q {
		e.Case(func() string { return "strength 19" }, func(t *T) {
			p := AESParams{Password: "pass", Cycles: 19, Salt: nil, IV: seqBytes(16, 9)}
			c09Open(t, c09Archive(p, 4), []int{0, 1, 0}, "strength 19")
		})
	}

	// neighbours of a key identity
	tuples := []c09Tuple{
		{"ab", 1, "\x01\x02"}, {"ab", 2, "\x01\x02"}, {"ab", 1, "\x01\x02\x00"}, {"ab", 1, "\x01\x03"}, {"ac", 1, "\x01\x02"}, {"AB", 1, "\x01\x02"},
		{"ab", 1, "\x02\x01"}, {"ba", 1, "\x01\x02"}, {"ab", 0x3f, "\x01\x02"}, {"ab", 1, ""},
		{"", 1, "\x01\x02a\x00b\x00"}, // the same bytes in front of the counter as the first one
		{"b", 1, "\x01\x02a\x00"},     // likewise
		{"ab0102", 1, ""}, {"ab1", 1, "\x02"}, {"0102", 1, "ab"}, {"a", 1, "b\x01\x02"}, {"ab\x01\x02", 1, "\x00"},
		{"ab10102", 0, ""}, {"ab", 11, "\x02"}, {"ab1", 1, "\x12"}, {"ab", 0, "\x01\x02"}, {"ab ", 1, "\x01\x02"}, {"ab\x00", 1, "\x01\x02"},
	}
	e.Group("histories")
	depth := 3
	if !q {
		depth = 4
	}
	arcs := map[c09Tuple]c09Arc{}
	get := func(i int) c09Arc {
		u := tuples[i]
		if a, ok := arcs[u]; ok {
			return a
		}
		a := c09Archive(u.params(16), uint32(i+1))
		arcs[u] = a
		return a
	}
	pairs := len(tuples) * len(tuples)
	for pr := range pairs {
		e.Case(func() string {
			return fmt.Sprintf("openings starting with %q, %q, to depth %d", tuples[pr/len(tuples)], tuples[pr%len(tuples)], depth)
		}, func(t *T) {
			rest := 1
			for range depth - 2 {
				rest *= len(tuples)
			}
			for x := range rest {
				flushKeys(t)
				seq := []int{pr / len(tuples), pr % len(tuples)}
				for y, k := x, 0; k < depth-2; k++ {
					seq = append(seq, y%len(tuples))
					y /= len(tuples)
				}
				for k, i := range seq {
					c09Open(t, get(i), []int{0, 1}, fmt.Sprintf("history %v, step %d: %q", seq, k+1, tuples[i]))
					t.Trans(1)
				}
				t.Trace(1)
				t.Outcome("hist", fmt.Sprint(seq))
			}
			t.Sample(fmt.Sprintf("%q then %q then each of %d", tuples[pr/len(tuples)], tuples[pr%len(tuples)], rest))
		})
	}

	e.Group("wrong passwords in between")
	for i := range tuples {
		for j := range tuples {
			e.Case(func() string { return fmt.Sprintf("archive of %q tried with the password of %q", tuples[i], tuples[j]) }, func(t *T) {
				a := get(i)
				// all orders of right (r), wrong (w) and flush (f) up to 4 steps
				for n := 1; n <= 4; n++ {
					forStrings([]byte("rwf"), n, func(s []byte) bool {
						flushKeys(t)
						for k, c := range s {
							switch c {
							case 'r':
								c09Open(t, a, []int{1, 0, 1}, fmt.Sprintf("%s step %d", s, k+1))
							case 'w':
								r, err := open(a.b, tuples[j].pw)
								if err != nil {
									t.Failf("open", "%v", err)
								}
								for _, f := range r.File {
									if rc, err := f.Open(); err == nil {
										_, _ = readBounded(rc, 1000)
										_ = rc.Close()
									}
								}
							case 'f':
								flushKeys(t)
							}
						}
						t.Trace(1)
						return true
					})
				}
				t.Outcome("wrong", i, j)
			})
		}
	}

	// identities which are the same once their parts are strung together in some way
	e.Group("ambiguous identities")
	var sets [][]c09Tuple
	{
		words := func(al string, n int) (r []string) {
			for l := 0; l <= n; l++ {
				forStrings([]byte(al), l, func(s []byte) bool { r = append(r, string(s)); return true })
			}
			return r
		}
		cross := func(pws, salts []string, cycles ...int) {
			var r []c09Tuple
			for _, p := range pws {
				for _, s := range salts {
					for _, c := range cycles {
						r = append(r, c09Tuple{p, c, s})
					}
				}
			}
			sets = append(sets, r)
		}
		cross(words("ab", 3), words("ab", 3), 0)
		for _, sep := range []string{":", "-", "/", "|", ",", "\x00", " ", ".", "_"} {
			cross(words("a"+sep, 2), words("a"+sep, 2), 0)
		}
		cross([]string{"a", "a1", "a11", "1", "11", "111", ""}, []string{"", "\x11", "\x11\x11", "1", "11", "111"}, 1, 11)
		cross([]string{"a", "a\x00", "\x00a", "61", "a00", "\u6100", "A"}, []string{"", "a", "a\x00", "\x00", "\x00a", "\x00\x00"}, 0, 0x3f)
	}
	for si, set := range sets {
		for i := range set {
			e.Case(func() string {
				return fmt.Sprintf("set %d: %q before and after each of %d others", si, set[i], len(set))
			}, func(t *T) {
				mk := func(k int) c09Arc { return c09Archive(set[k].params(16), uint32(k+1)) }
				a := mk(i)
				for j := range set {
					c09Open(t, a, []int{0}, fmt.Sprintf("%q", set[i]))
					c09Open(t, mk(j), []int{0, 1}, fmt.Sprintf("%q after %q", set[j], set[i]))
					t.Trans(2)
				}
				t.Outcome("ambiguous", si, i)
			})
		}
	}

	e.Group("evictions")
	// archives of one reader with n key identities, visited in every rotation and direction, several rounds
	for n := 2; n <= 24; n++ {
		e.Case(func() string { return fmt.Sprintf("one archive with %d different salts", n) }, func(t *T) {
			a := &Archive{}
			for k := range n {
				p := AESParams{Password: "pw", Cycles: 1, Salt: []byte{byte(k), 7}, IV: seqBytes(1+k%16, byte(k))}
				a.AddFolder(Chain(pattern(20+k, uint32(k)), sAES(p)), []string{fmt.Sprintf("a%d", k), fmt.Sprintf("b%d", k)}, []int{3, 17 + k})
			}
			b := a.Build()
			for rot := range n {
				for dir := range 3 {
					r, err := open(b.B, "pw")
					if err != nil {
						t.Failf("open", "%v", err)
					}
					t.Eval(1)
					for round := range 3 {
						for k := range n {
							i := (rot + k) % n
							switch dir {
							case 1:
								i = n - 1 - i
							case 2:
								i = (rot + k*k) % n
							}
							c09Extract(t, r, a.Entries, []int{2*i + 1, 2 * i}, fmt.Sprintf("rotation %d, order %d, round %d, stream %d", rot, dir, round, i))
						}
					}
					t.Trace(1)
					t.Outcome("evict", n, rot, dir)
				}
			}
		})
	}

	e.Group("lengths of the content")
	nmax := 100
	if !q {
		nmax = 600
	}
	for _, st := range append([][]Stage{{}, {sCopy()}, {sBCJ()}, {sDelta(3)}}, func() (o [][]Stage) {
		for _, c := range allCompressors()[1:] {
			o = append(o, []Stage{c})
		}
		return
	}()...) {
		name := "plain"
		if len(st) > 0 {
			name = st[0].Name
		}
		for _, two := range []bool{false, true} {
			e.Case(func() string {
				return fmt.Sprintf("%s + AES, encrypted twice %v, contents of 1..%d bytes", name, two, nmax)
			}, func(t *T) {
				for n := 1; n <= nmax; n++ {
					stages := append(append([]Stage{}, st...), sAES(aesQuick))
					if two {
						stages = append(stages, sAES(AESParams{Password: aesQuick.Password, Cycles: 2, Salt: []byte("other"), IV: seqBytes(5, 1)}))
					}
					a := &Archive{}
					cut := n / 3
					if cut == 0 {
						a.AddFolder(Chain(pattern(n, uint32(n)), stages...), names(1), []int{n})
					} else {
						a.AddFolder(Chain(pattern(n, uint32(n)), stages...), names(2), []int{cut, n - cut})
					}
					r, err := open(a.Build().B, aesQuick.Password)
					if err != nil {
						t.Failf("open", "%d bytes: %v", n, err)
					}
					t.Eval(1)
					wantAll(t, r, a.Entries)
					wantAll(t, r, a.Entries)
					t.Outcome("content", name, two, n)
				}
			})
		}
	}

	e.Group("encrypted headers")
	for sl := 0; sl <= 16; sl++ {
		e.Case(func() string {
			return fmt.Sprintf("encrypted headers with a salt of %d bytes, all IV lengths and passwords", sl)
		}, func(t *T) {
			for vl := 0; vl <= 16; vl++ {
				if sl == 0 && vl == 0 {
					continue
				}
				for pi, pw := range c09Passwords {
					if q && (pi+vl)%4 != 0 {
						continue
					}
					p := AESParams{Password: pw, Cycles: 2, Salt: seqBytes(sl, 0x55), IV: seqBytes(vl, 0x21)}
					for _, same := range []bool{true, false} {
						pc := p
						if !same {
							pc.Salt = seqBytes(16-sl, 0x77)
							pc.IV = seqBytes(8, 2)
						}
						a := &Archive{Opts: Opts{EncodedCRC: vl%2 == 0, Encode: func(h []byte) *Folder { return Chain(h, sLZMA(), sAES(p)) }}}
						a.AddFolder(Chain(pattern(41, 5), sAES(pc)), names(2), []int{17, 24})
						a.AddFolder(Chain(pattern(30, 6), sCopy()), []string{"p", "q"}, []int{10, 20})
						arc := c09Arc{a.Build().B, a.Entries, pw}
						what := fmt.Sprintf("salt %d, iv %d, password %d, same parameters for the content %v", sl, vl, pi, same)
						c09Open(t, arc, []int{0, 1, 3, 2, 0, 1}, what)
						c09Open(t, arc, []int{3, 1, 0}, what+" again")
						t.Outcome("hdr", sl, vl, pi, same)
					}
				}
			}
		})
	}

	e.Group("interleaved readers")
	// two or three archives open at once, reading one byte here and one there, in every order
	for i := range tuples {
		for j := range tuples {
			if q && (i+j)%3 != 0 {
				continue
			}
			e.Case(func() string { return fmt.Sprintf("%q and %q read alternately", tuples[i], tuples[j]) }, func(t *T) {
				for _, step := range [][2]int{{1, 1}, {16, 1}, {7, 17}, {40, 3}, {1, 41}} {
					flushKeys(t)
					type run struct {
						read func(p []byte) (int, error)
						got  []byte
						want []byte
						done bool
						cl   func() error
					}
					var runs [2]run
					for k, x := range []int{i, j} {
						a := get(x)
						r, err := open(a.b, a.pw)
						if err != nil {
							t.Failf("open", "%v", err)
						}
						rc, err := r.File[1].Open()
						if err != nil {
							t.Failf("open", "%v", err)
						}
						runs[k] = run{read: rc.Read, want: a.want[1].Data, cl: rc.Close}
					}
					for n := 0; n < 200 && (!runs[0].done || !runs[1].done); n++ {
						k := n % 2
						if runs[k].done {
							continue
						}
						p := make([]byte, step[k])
						m, err := runs[k].read(p)
						runs[k].got = append(runs[k].got, p[:m]...)
						if err != nil {
							runs[k].done = true
							if !bytes.Equal(runs[k].got, runs[k].want) {
								t.Failf("decrypt-content", "alternating %v, archive %d: %v, got %x want %x", step, k, err, runs[k].got, runs[k].want)
							}
						}
					}
					for k := range runs {
						if !runs[k].done {
							t.Failf("no-end", "alternating %v, archive %d does not end", step, k)
						}
						if err := runs[k].cl(); err != nil {
							t.Failf("close", "%v", err)
						}
					}
					t.Eval(1)
					t.Trace(1)
				}
			})
		}
	}
}
