package main

// C10: failures in encrypted streams carry the encryption hint, others never do.

import (
	"bytes"
	"compress/bzip2"
	"crypto/aes"
	"crypto/cipher"
	"errors"
	"fmt"
	"io"
	iofs "io/fs"
	"strings"

	"github.com/andybalholm/brotli"
	"github.com/bodgit/sevenzip"
	"github.com/klauspost/compress/flate"
	"github.com/klauspost/compress/zstd"
	"github.com/pierrec/lz4/v4"
	"github.com/ulikunitz/xz/lzma"
)

func init() {
	register(&Check{
		ID:    "C10",
		Level: "fault_enumeration",
		Rule: "for every encrypted layout (AES over each compressor and filter, doubled, on every subset of the BCJ2 inputs) next to unencrypted streams, under plain, compressed and encrypted headers: " +
			"all wrong passwords of a list of 256 and of near misses, every damaged byte of the packed data and every failing read; whatever fails in a stream with encryption must be a ReadError with " +
			"Encrypted set, nothing else may have it set, unencrypted content never changes, and no read of a wrongly decrypted stream ends early with io.EOF",
		Run: runC10,
		Assumptions: []string{
			"whether a wrongly decrypted stream is a valid empty stream (a listed finding) is decided by decrypting with the reference key derivation and running the third-party decoder on it",
			"failures that injected read errors cause inside an encrypted stream are not required to carry the hint; they are not caused by data",
		},
		Explain: "every wrong password and fault of the enumerated family is applied to the real code; errors are classified by the stream they come from",
	})
}

// encLayout is a layout of one folder.
type encLayout struct {
	name string
	mk   func(d []byte) *Folder
	comp string // the coder fed by the cipher, as far as an empty stream is concerned
	pack int    // packed stream which decides whether the folder is empty
	aes  int    // layers of AES over that packed stream
	enc  bool
	size func(f *Folder) int // decrypted size of that stream
	ppmd bool
}

var aesOther = AESParams{Password: "right", Cycles: 2, Salt: []byte("na"), IV: seqBytes(16, 1)}

func aesRight() AESParams {
	return AESParams{Password: "right", Cycles: 1, Salt: []byte("s"), IV: seqBytes(8, 3)}
}

func encLayouts() []encLayout {
	var z []encLayout
	a, b := sAES(aesRight()), sAES(aesOther)
	ch := func(name, comp string, layers int, st ...Stage) {
		ppmd := strings.Contains(name, "ppmd")
		z = append(z, encLayout{name: name, comp: comp, aes: layers, enc: layers > 0, ppmd: ppmd, mk: func(d []byte) *Folder {
			if ppmd {
				d = []byte(ppmdPlain[:len(d)])
			}
			return Chain(d, st...)
		}})
	}
	ch("aes", "", 1, a)
	ch("aes+aes", "", 2, a, b)
	ch("copy+aes", "", 1, sCopy(), a)
	for _, f := range allFilters() {
		ch(f.Name+"+aes", "", 1, f, a)
	}
	for _, c := range append(allCompressors()[1:], sPPMD()) {
		ch(c.Name+"+aes", c.Name, 1, c, a)
		ch(c.Name+"+aes+aes", c.Name, 2, c, a, b)
		if strings.HasPrefix(c.Name, "ppmd") {
			continue // the fixture is plain text only
		}
		ch("bcj+"+c.Name+"+aes", c.Name, 1, sBCJ(), c, a)
		ch("aes+"+c.Name, c.Name, 0, a, c) // the ciphertext compressed
		z[len(z)-1].enc = true
	}
	all := func(int) bool { return true }
	for m := 1; m < 16; m++ {
		for _, comp := range []string{"", "lzma", "deflate"} {
			comp := comp
			var st [4][]Stage
			for k := range 4 {
				if k < 3 {
					switch comp {
					case "lzma":
						st[k] = append(st[k], sLZMA())
					case "deflate":
						st[k] = append(st[k], sDeflate())
					}
				}
				if m>>k&1 == 1 {
					st[k] = append(st[k], a)
				}
			}
			z = append(z, encLayout{name: fmt.Sprintf("bcj2 %s, inputs %04b encrypted", comp, m), comp: comp, aes: m & 1, enc: true, mk: func(d []byte) *Folder { return BCJ2Chain(d, all, st) }})
		}
	}
	return z
}

// emptyWhenDecrypted decides with independent code whether packed, decrypted with pw, is a valid empty stream.
func emptyWhenDecrypted(l encLayout, f *Folder, packed []byte, pw string) bool {
	d := append([]byte{}, packed...)
	layers := [][]AESParams{nil, {aesRight()}, {aesOther, aesRight()}}[l.aes]
	for _, p := range layers { // none if the cipher feeds the coder by way of another one
		p.Password = pw
		iv := make([]byte, 16)
		copy(iv, p.IV)
		d = d[:len(d)/16*16]
		cipher.NewCBCDecrypter(must(aes.NewCipher(aesKey(p))), iv).CryptBlocks(d, d)
	}
	in := bytes.NewReader(d)
	var r io.Reader
	switch {
	case strings.HasPrefix(l.comp, "lzma2"):
		return len(d) > 0 && d[0] == 0
	case strings.HasPrefix(l.comp, "lzma"):
		h := append(append([]byte{}, 0x5d, 0, 16, 0, 0), bytes.Repeat([]byte{0xff}, 8)...)
		lr, err := lzma.NewReader(io.MultiReader(bytes.NewReader(h), in))
		if err != nil {
			return false
		}
		r = lr
	case strings.HasPrefix(l.comp, "deflate"):
		r = flate.NewReader(in)
	case strings.HasPrefix(l.comp, "bzip2"):
		r = bzip2.NewReader(in)
	case strings.HasPrefix(l.comp, "zstd"):
		zr, err := zstd.NewReader(in, zstd.WithDecoderConcurrency(1))
		if err != nil {
			return false
		}
		defer zr.Close()
		r = zr
	case strings.HasPrefix(l.comp, "lz4"):
		r = lz4.NewReader(in)
	case strings.HasPrefix(l.comp, "brotli"):
		r = brotli.NewReader(in)
	default:
		return false
	}
	b, err := io.ReadAll(io.LimitReader(r, 1))
	return err == nil && len(b) == 0
}

// hint classifies an error.
func hint(err error) (isRead, encrypted bool) {
	var p *sevenzip.ReadError
	if errors.As(err, &p) {
		return true, p.Encrypted
	}
	var v sevenzip.ReadError
	if errors.As(err, &v) {
		return true, v.Encrypted
	}
	return false, false
}

func wantHint(t *T, err error, enc bool, what string) {
	isRead, encrypted := hint(err)
	if enc && !encrypted {
		t.Failf("no-hint", "%s: error without the encryption hint (ReadError %v): %v", what, isRead, err)
	}
	if !enc && encrypted {
		t.Failf("false-hint", "%s: encryption hint on a failure of an unencrypted stream: %v", what, err)
	}
}

type c10Archive struct {
	l     encLayout
	a     *Archive
	b     *Built
	encF  []bool // per entry
	folds []int  // per entry
}

func c10Build(l encLayout, hdr int, first bool) c10Archive {
	a := &Archive{}
	x := c10Archive{l: l, a: a}
	d := []byte(text(57, 3))
	if strings.HasPrefix(l.name, "bcj2") {
		d = zooContent(57)
	}
	addEnc := func() {
		a.AddFolder(l.mk(d), []string{"e0", "e1", "e2"}, []int{7, 30, 20})
	}
	addPlain := func() {
		a.AddFolder(Chain(pattern(30, 8), sCopy()), []string{"p0", "p1"}, []int{10, 20})
		a.AddFolder(Chain(text(200, 5), sDelta(2), sLZMA()), []string{"q0", "q1"}, []int{150, 50})
	}
	if first {
		addEnc()
		addPlain()
	} else {
		addPlain()
		addEnc()
	}
	for i, e := range a.Entries {
		_ = i
		x.encF = append(x.encF, e.Name[0] == 'e' && l.enc)
		x.folds = append(x.folds, map[bool]int{true: 0, false: 1}[e.Name[0] == 'e'])
	}
	switch hdr {
	case 1:
		a.Opts.EncodedCRC = true
		a.Opts.Encode = func(h []byte) *Folder { return Chain(h, sLZMA()) }
	case 2:
		a.Opts.EncodedCRC = true
		a.Opts.Encode = func(h []byte) *Folder { return Chain(h, sLZMA(), sAES(aesOther)) }
	case 3:
		a.Opts.EncodedCRC = true
		a.Opts.Encode = func(h []byte) *Folder { return Chain(h, sAES(aesOther)) }
	case 4:
		a.Opts.Encode = func(h []byte) *Folder { return Chain(h, sDeflate(), sAES(aesRight())) }
	}
	x.b = a.Build()
	return x
}

// c10Read opens file i through File.Open or the fs view, reads it and checks how it fails. It reports whether it was complete.
func (x *c10Archive) read(t *T, r *sevenzip.Reader, i int, viaFS bool, pw string, b []byte, what string, intact bool) {
	want := x.a.Entries[i]
	var (
		got []byte
		err error
	)
	var rc io.ReadCloser
	if viaFS {
		var f iofs.File
		f, err = r.Open(want.Name)
		rc = f
	} else {
		rc, err = r.File[i].Open()
	}
	if err == nil {
		got, err = readBounded(rc, int(want.Size))
		cerr := rc.Close()
		_ = cerr
	}
	w := fmt.Sprintf("%s, file %s (fs view %v)", what, want.Name, viaFS)
	if err != nil {
		if intact {
			t.Failf("plain-fails", "%s: %v", w, err)
		}
		wantHint(t, err, x.encF[i], w)
		t.Outcome(x.l.name, i, "error", len(got))
		return
	}
	if intact && !bytes.Equal(got, want.Data) {
		t.Failf("plain-content", "%s: got %s want %s", w, hexClip(got), hexClip(want.Data))
	}
	if len(got) != len(want.Data) {
		key := "early-eof"
		if x.encF[i] && len(got) == 0 {
			f := x.a.Folders[0]
			base := 0
			if x.a.Entries[0].Name[0] != 'e' {
				f, base = x.a.Folders[2], 2
			}
			start := x.b.PackStarts[base]
			if emptyWhenDecrypted(x.l, f, b[start:start+len(f.Packs[0])], pw) {
				key = "early-eof: decrypts to a valid empty " + strings.SplitN(x.l.comp, "(", 2)[0] + " stream"
				t.Finding(key, "%s: read ends with io.EOF after 0 of %d bytes", w, len(want.Data))
				return
			}
		}
		t.Failf(key, "%s: read ends with io.EOF after %d of %d bytes", w, len(got), len(want.Data))
	}
	t.Outcome(x.l.name, i, "complete", bytes.Equal(got, want.Data))
}

func c10Passwords(n int) []string {
	p := []string{"", "righ", "right ", " right", "Right", "RIGHT", "rightright", "r\x00i\x00g\x00h\x00t", "right\x00", "rıght", "thgir"}
	for i := range n {
		p = append(p, fmt.Sprintf("wrong%d", i))
	}
	return p
}

var c10Orders = [][]int{{0, 1, 2, 3, 4, 5, 6}, {6, 5, 4, 3, 2, 1, 0}, {1, 4, 0, 3, 2, 5, 2, 6}}

func runC10(e *Env) {
	q := e.Quick()
	lays := encLayouts()
	np := 256
	if !q {
		np = 2048
	}
	hdrNames := []string{"plain", "compressed", "compressed+encrypted", "encrypted", "encrypted without digest"}

	e.Group("wrong passwords")
	pws := c10Passwords(np)
	for li, l := range lays {
		for hdr := range 5 {
			for _, first := range []bool{true, false} {
				if q && hdr > 0 && (li%4 != 0 || !first) {
					continue
				}
				e.Case(func() string {
					return fmt.Sprintf("%s, header %s, encrypted stream first %v, %d wrong passwords", l.name, hdrNames[hdr], first, len(pws))
				}, func(t *T) {
					x := c10Build(l, hdr, first)
					for pi, pw := range pws {
						what := fmt.Sprintf("password %q", pw)
						t.Eval(1)
						for oi, order := range c10Orders {
							if oi > 0 && pi%3 != oi {
								continue
							}
							r, err := open(x.b.B, pw)
							if err != nil {
								if hdr < 2 {
									t.Failf("open", "%s: %v", what, err)
								}
								wantHint(t, err, true, what+", opening the archive")
								t.Outcome(l.name, hdr, "open fails")
								break
							}
							if hdr >= 2 && (len(r.File) != len(x.a.Entries) || r.File[0].Name != x.a.Entries[0].Name) {
								if hdr != 4 {
									t.Failf("wrong-password-listing", "%s opens the archive with another listing", what)
								}
								break // no digest to tell that the listing is wrong
							}
							if hdr >= 2 {
								t.Failf("wrong-password-accepted", "%s decrypts the header", what)
							}
							for _, i := range order {
								x.read(t, r, i, oi == 2, pw, x.b.B, what, x.folds[i] == 1)
							}
						}
					}
					// and with the right one everything is there
					r, err := open(x.b.B, "right")
					if err != nil {
						t.Failf("open", "right password: %v", err)
					}
					wantAll(t, r, x.a.Entries)
					t.Sample(fmt.Sprintf("%s, header %s: %d wrong passwords", l.name, hdrNames[hdr], len(pws)))
				})
			}
		}
	}

	e.Group("damage")
	subst := []int{0x01, 0x08, 0x80, 0xff, -1, -2}
	if !q {
		subst = []int{1, 2, 4, 8, 16, 32, 64, 128, 0xff, 0x55, -1, -2}
	}
	// also the unencrypted layouts: damage there never has the hint
	dl := append([]encLayout{}, lays...)
	for _, m := range methodZoo() {
		if m.pw == "" || !strings.Contains(m.name, "aes") {
			mm := m
			dl = append(dl, encLayout{name: m.name, ppmd: m.name == "ppmd", mk: func(d []byte) *Folder { return mm.mk(d) }})
		}
	}
	for _, l := range dl {
		for _, first := range []bool{true, false} {
			if q && !first && !l.enc {
				continue
			}
			e.Case(func() string {
				return fmt.Sprintf("%s, encrypted stream first %v, every packed byte damaged", l.name, first)
			}, func(t *T) {
				x := c10Build(l, 0, first)
				nb := len(x.a.Folders[0].Packs)
				if !first {
					nb = len(x.a.Folders[2].Packs)
				}
				for pos := x.b.PackStart; pos < x.b.PackEnd; pos++ {
					// which folder is it
					inPack := 0
					for k, s := range x.b.PackStarts {
						if pos >= s {
							inPack = k
						}
					}
					var hit int // 0: the folder under test, 1 or 2: the plain ones
					if first {
						hit = max(0, inPack-nb+1)
					} else {
						hit = (inPack + 1) % 3
						if inPack >= 2 {
							hit = 0
						}
					}
					if q && hit != 0 && pos%7 != 0 {
						continue
					}
					for _, s := range subst {
						b := append([]byte{}, x.b.B...)
						switch s {
						case -1:
							b[pos] = 0
						case -2:
							b[pos]++
						default:
							b[pos] ^= byte(s)
						}
						if b[pos] == x.b.B[pos] {
							continue
						}
						t.Eval(1)
						r, err := open(b, "right")
						if err != nil {
							t.Failf("open", "%v", err)
						}
						what := fmt.Sprintf("byte %d changed to %02x", pos, b[pos])
						for _, i := range c10Orders[(pos+s+2)%3] {
							fi := map[byte]int{'e': 0, 'p': 1, 'q': 2}[x.a.Entries[i].Name[0]]
							x.readDamaged(t, r, i, s == 1, "right", b, what, fi != hit)
						}
					}
				}
			})
		}
	}

	e.Group("damaged headers")
	for hdr := 1; hdr < 5; hdr++ {
		for li, l := range lays {
			if li%8 != 0 {
				continue
			}
			e.Case(func() string {
				return fmt.Sprintf("%s, header %s, every byte of its packed data damaged", l.name, hdrNames[hdr])
			}, func(t *T) {
				x := c10Build(l, hdr, true)
				for pos := x.b.EncStart; pos < x.b.EncEnd; pos++ {
					for v := range 256 {
						if q && v&(v-1) != 0 && v != 255 && v%16 != 5 {
							continue
						}
						b := append([]byte{}, x.b.B...)
						if b[pos] == byte(v) {
							continue
						}
						b[pos] = byte(v)
						t.Eval(1)
						r, err := open(b, "right")
						if err != nil {
							if hdr == 1 {
								wantHint(t, err, false, fmt.Sprintf("byte %d set to %02x", pos, v))
							} else {
								wantHint(t, err, true, fmt.Sprintf("byte %d set to %02x", pos, v))
							}
							t.Outcome(l.name, hdr, pos, "fails")
							continue
						}
						_ = r
						t.Outcome(l.name, hdr, pos, "opens")
					}
				}
			})
		}
	}

	e.Group("parameters")
	// strengths which are refused: setting the password fails
	for cyc := 25; cyc < 63; cyc++ {
		e.Case(func() string { return fmt.Sprintf("key strength %d", cyc) }, func(t *T) {
			bad := func(st Stage) Stage {
				return Stage{st.Name, func(in []byte) (Coder, []byte) {
					c, out := st.Enc(in)
					c.Props = append([]byte{}, c.Props...)
					c.Props[0] = c.Props[0]&0xc0 | byte(cyc)
					return c, out
				}}
			}
			for hdr := range 2 {
				for li, st := range [][]Stage{{bad(sAES(aesRight()))}, {sLZMA(), bad(sAES(aesRight()))}, {bad(sAES(aesRight())), sAES(aesOther)}, {sDeflate(), sAES(aesRight()), bad(sAES(aesOther))}} {
					a := &Archive{}
					if hdr == 1 {
						a.AddFolder(Chain(pattern(30, 8), sCopy()), []string{"p0", "p1"}, []int{10, 20})
						a.Opts.Encode = func(h []byte) *Folder { return Chain(h, st...) }
						_, err := open(a.Build().B, "right")
						if err == nil {
							t.Failf("strength-accepted", "strength %d is accepted", cyc)
						}
						wantHint(t, err, true, "opening the archive")
						t.Eval(1)
						continue
					}
					a.AddFolder(Chain(text(57, 1), st...), names(2), []int{7, 50})
					a.AddFolder(Chain(pattern(30, 8), sCopy()), []string{"p0", "p1"}, []int{10, 20})
					r, err := open(a.Build().B, "right")
					if err != nil {
						t.Failf("open", "%v", err)
					}
					t.Eval(1)
					for i := range 2 {
						_, err := extract(r.File[i])
						if err == nil {
							t.Failf("strength-accepted", "strength %d is accepted, layout %d", cyc, li)
						}
						wantHint(t, err, true, fmt.Sprintf("layout %d, file %d", li, i))
					}
					for i := 2; i < 4; i++ {
						b, err := extract(r.File[i])
						if err != nil || !bytes.Equal(b, a.Entries[i].Data) {
							t.Failf("plain-content", "file %d: %v", i, err)
						}
					}
				}
			}
			t.Outcome("strength", cyc)
		})
	}

	e.Group("failing reads")
	for _, l := range dl {
		e.Case(func() string { return fmt.Sprintf("%s, every read of the archive failing", l.name) }, func(t *T) {
			for hdr := range 2 {
				x := c10Build(l, hdr, true)
				for k := 0; ; k++ {
					fr := &faultReaderAt{b: x.b.B, at: k, persistent: true}
					r, err := sevenzip.NewReaderWithPassword(fr, int64(len(x.b.B)), "right")
					t.Eval(1)
					if err != nil {
						wantHint(t, err, false, fmt.Sprintf("read %d failing, opening the archive", k))
					} else {
						for _, i := range c10Orders[k%2] {
							_, err := extract(r.File[i])
							if err != nil && !x.encF[i] {
								wantHint(t, err, false, fmt.Sprintf("read %d failing, file %s", k, x.a.Entries[i].Name))
							}
						}
					}
					if !fr.hit {
						break
					}
					t.Outcome("fault", l.name, hdr, k)
				}
			}
		})
	}
}

// readDamaged is read for damaged input, where content may differ without notice.
func (x *c10Archive) readDamaged(t *T, r *sevenzip.Reader, i int, viaFS bool, pw string, b []byte, what string, intact bool) {
	x.read(t, r, i, viaFS, pw, b, what, intact)
}

// faultReaderAt fails the at-th ReadAt call (and all later ones if persistent).
type faultReaderAt struct {
	b          []byte
	at, n      int
	persistent bool
	hit        bool
	hits       int
	err        error
	partial    int // bytes delivered along with the error
	off        bool
}

func (f *faultReaderAt) ReadAt(p []byte, off int64) (int, error) {
	k := f.n
	f.n++
	if !f.off && (k == f.at || k > f.at && f.persistent) {
		f.hit = true
		f.hits++
		err := f.err
		if err == nil {
			err = errInjected
		}
		n := 0
		if f.partial > 0 && off < int64(len(f.b)) {
			n = copy(p[:min(len(p), f.partial)], f.b[off:])
		}
		return n, err
	}
	if off < 0 || off >= int64(len(f.b)) {
		return 0, io.EOF
	}
	n := copy(p, f.b[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}
