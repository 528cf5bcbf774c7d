package main

// C15: registered decompressors are used exactly as registered.

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"
	"io"

	"github.com/bodgit/sevenzip"
)

func init() {
	register(&Check{
		ID:    "C15",
		Level: "model_checking",
		Rule: "recording decompressors are registered for identifiers of every length: every pair of registered and used identifier (prefixes, extensions, paddings, single bit changes), every registration history to a " +
			"bounded depth, every coder graph of up to four coders with up to three inputs each (six, thorough: eight in total), every order of packed streams and bind pairs, property bytes of every length, output sizes up to 2^62, " +
			"password methods, failing factories at every position. The decoder called, its properties, size, password and the bytes of each of its inputs have to be those of the graph, on every opening",
		Run: runC15,
		Assumptions: []string{
			"coders are listed after those that feed them, decompressors do not modify the property bytes they are given",
			"files of one stream may be served by a decoder created before another one was registered",
		},
		Explain: "the real header parser, registry and folder reader run on enumerated coder graphs with decoders that record what they are given",
	})
}

// rcall is one call of a recording factory.
type rcall struct {
	mark  int
	props []byte
	size  uint64
	n     int
	pw    []string
	ins   [][]byte
	read  bool
	late  bool // the password came after reading started
}

type recorder struct {
	calls []*rcall
	fail  map[int]error // by mark
}

var rec15 recorder

// mix is the output of a recording decoder.
func mix(mark int, props []byte, size uint64, ins [][]byte) []byte {
	h := fnv.New64a()
	var b []byte
	add := func(p []byte) {
		b = binary.LittleEndian.AppendUint64(b[:0], uint64(len(p)))
		h.Write(b)
		h.Write(p)
	}
	add([]byte{byte(mark), byte(mark >> 8)})
	add(props)
	for _, p := range ins {
		add(p)
	}
	s := h.Sum64()
	out := make([]byte, size)
	for i := range out {
		s ^= s << 13
		s ^= s >> 7
		s ^= s << 17
		out[i] = byte(s >> 24)
	}
	return out
}

type recDec struct {
	c   *rcall
	in  []io.ReadCloser
	out []byte
}

func (d *recDec) Read(p []byte) (int, error) {
	if !d.c.read {
		d.c.read = true
		for _, r := range d.in {
			b, err := io.ReadAll(r)
			if err != nil {
				return 0, err
			}
			d.c.ins = append(d.c.ins, b)
		}
		d.out = mix(d.c.mark, d.c.props, d.c.size, d.c.ins)
	}
	if len(d.out) == 0 {
		return 0, io.EOF
	}
	n := copy(p, d.out)
	d.out = d.out[n:]
	return n, nil
}

func (d *recDec) Close() error {
	var errs []error
	for _, r := range d.in {
		errs = append(errs, r.Close())
	}
	return errors.Join(errs...)
}

type recCryptoDec struct{ recDec }

func (d *recCryptoDec) Password(p string) error {
	d.c.pw = append(d.c.pw, p)
	d.c.late = d.c.late || d.c.read
	return rec15.fail[-1]
}

func recFactory(mark int, crypto bool) sevenzip.Decompressor {
	return func(p []byte, size uint64, in []io.ReadCloser) (io.ReadCloser, error) {
		c := &rcall{mark: mark, props: bytes.Clone(p), size: size, n: len(in)}
		rec15.calls = append(rec15.calls, c)
		if err := rec15.fail[mark]; err != nil {
			return nil, err
		}
		in = append([]io.ReadCloser{}, in...)
		if crypto {
			return &recCryptoDec{recDec{c: c, in: in}}, nil
		}
		return &recDec{c: c, in: in}, nil
	}
}

// one folder with a single recording coder
func recFolder(id, props []byte, mark int, packed []byte, size int) *Folder {
	out := mix(mark, props, uint64(size), [][]byte{packed})
	return &Folder{Coders: []Coder{{ID: id, In: 1, Out: 1, Props: props}}, Packed: []int{0}, Sizes: []uint64{uint64(size)}, Packs: [][]byte{packed}, Data: out, CRC: crcOf(out)}
}

func oneFile(f *Folder) []byte {
	a := &Archive{}
	a.AddFolder(f, []string{"f"}, []int{len(f.Data)})
	return a.Build().B
}

// openFirst extracts file 0 of the archive; it returns the bytes or the error.
func openFirst(t *T, b []byte, pw string) ([]byte, error) {
	r, err := open(b, pw)
	if err != nil {
		t.Failf("listing", "the archive does not open: %v", err)
	}
	return extract(r.File[0])
}

// graph is a coder graph: for every input of every coder the coder feeding it, or -1 for a packed stream.
type graph struct {
	ins [][]int
}

// forGraphs enumerates the graphs of n coders with up to maxIn inputs each.
func forGraphs(n, maxIn, maxTotal int, f func(g graph)) {
	var ins [][]int
	used := make([]bool, n)
	total := 0
	var coderLoop func(i int)
	var fill func(i, k, want int)
	coderLoop = func(i int) {
		if i == n {
			for j := range n - 1 {
				if !used[j] {
					return
				}
			}
			c := make([][]int, n)
			for j := range c {
				c[j] = append([]int{}, ins[j]...)
			}
			f(graph{c})
			return
		}
		for w := 1; w <= maxIn && total+w <= maxTotal; w++ {
			ins = append(ins[:i], make([]int, w))
			total += w
			fill(i, 0, w)
			total -= w
		}
	}
	fill = func(i, k, want int) {
		if k == want {
			coderLoop(i + 1)
			return
		}
		ins[i][k] = -1
		fill(i, k+1, want)
		for j := range i {
			if !used[j] {
				used[j] = true
				ins[i][k] = j
				fill(i, k+1, want)
				used[j] = false
			}
		}
		ins[i][k] = -1
	}
	coderLoop(0)
}

type graphPlan struct {
	ids   [][]byte
	marks []int
	props [][]byte
	sizes []uint64
	packs func(i int) []byte
	order []int // permutation of the packed streams
	binds []int // permutation of the bind pairs
}

// folder builds the folder and what each coder has to see.
func (g graph) folder(p *graphPlan) (*Folder, []*rcall) {
	f := &Folder{}
	var calls []*rcall
	var outs [][]byte
	first := 0
	var packIn []int
	type bp struct{ in, out int }
	var binds []bp
	nPacked := 0
	for _, in := range g.ins {
		for _, s := range in {
			if s < 0 {
				nPacked++
			}
		}
	}
	inPack := make(map[int][]byte)
	for i, in := range g.ins {
		for k, s := range in {
			if s < 0 {
				packIn = append(packIn, first+k)
			} else {
				binds = append(binds, bp{first + k, s})
			}
		}
		f.Coders = append(f.Coders, Coder{ID: p.ids[i], In: len(in), Out: 1, Props: p.props[i]})
		f.Sizes = append(f.Sizes, p.sizes[i])
		first += len(in)
	}
	for j, o := range p.order {
		f.Packed = append(f.Packed, packIn[o])
		b := p.packs(j)
		f.Packs = append(f.Packs, b)
		inPack[packIn[o]] = b
	}
	for _, k := range p.binds {
		f.Bind = append(f.Bind, [2]int{binds[k].in, binds[k].out})
	}
	first = 0
	for i, in := range g.ins {
		c := &rcall{mark: p.marks[i], props: p.props[i], size: p.sizes[i], n: len(in)}
		for k, s := range in {
			if s < 0 {
				c.ins = append(c.ins, inPack[first+k])
			} else {
				c.ins = append(c.ins, outs[s])
			}
		}
		outs = append(outs, mix(c.mark, c.props, c.size, c.ins))
		calls = append(calls, c)
		first += len(in)
	}
	f.Data = outs[len(outs)-1]
	f.CRC = crcOf(f.Data)
	return f, calls
}

func (g graph) counts() (packed, binds int) {
	for _, in := range g.ins {
		for _, s := range in {
			if s < 0 {
				packed++
			} else {
				binds++
			}
		}
	}
	return
}

// compareCalls checks the calls recorded for one folder: one per coder.
func compareCalls(t *T, got, want []*rcall, what string) {
	if len(got) != len(want) {
		t.Failf("calls", "%s: %d decoders created, want %d", what, len(got), len(want))
	}
	used := make([]bool, len(want))
	for _, c := range got {
		k := -1
		for i, w := range want {
			if !used[i] && w.mark == c.mark {
				k = i
				break
			}
		}
		if k < 0 {
			t.Failf("wrong-decoder", "%s: decoder %d was used", what, c.mark)
		}
		used[k] = true
		w := want[k]
		if !bytes.Equal(c.props, w.props) {
			t.Failf("properties", "%s: decoder %d got properties %s, want %s", what, c.mark, hexClip(c.props), hexClip(w.props))
		}
		if c.size != w.size {
			t.Failf("size", "%s: decoder %d got size %d, want %d", what, c.mark, c.size, w.size)
		}
		if c.n != w.n {
			t.Failf("inputs", "%s: decoder %d got %d inputs, want %d", what, c.mark, c.n, w.n)
		}
		if c.read && len(c.ins) == len(w.ins) {
			for i := range c.ins {
				if !bytes.Equal(c.ins[i], w.ins[i]) {
					t.Failf("input-bytes", "%s: input %d of decoder %d has %d bytes %s, want %d bytes %s", what, i, c.mark, len(c.ins[i]), hexClip(c.ins[i]), len(w.ins[i]), hexClip(w.ins[i]))
				}
			}
		}
	}
}

// ids enumerates a set of identifiers that are not built in.
func ids15() [][]byte {
	var l [][]byte
	seen := map[string]bool{}
	add := func(b ...byte) {
		switch string(b) {
		case "\x00", "\x03", "\x0a", "\x21", "": // built in
			return
		}
		if !seen[string(b)] {
			seen[string(b)] = true
			l = append(l, bytes.Clone(b))
		}
	}
	for n := 1; n <= 4; n++ {
		forStrings([]byte{0x00, 0x01, 0x7f, 0xff}, n, func(s []byte) bool { add(s...); return true })
	}
	for n := 5; n <= 15; n++ {
		for _, fill := range []byte{0x00, 0x01, 0xff} {
			b := bytes.Repeat([]byte{fill}, n)
			add(b...)
			for i := range n {
				b[i] ^= 0x80
				add(b...)
				b[i] ^= 0x80
			}
		}
		add(pattern(n, 5)...)
	}
	for i := range 256 {
		add(byte(i))
	}
	// around the built in ones
	for _, b := range builtin15() {
		add(append(bytes.Clone(b), 0)...)
		add(append([]byte{0}, b...)...)
		for i := range b {
			for bit := range 8 {
				c := bytes.Clone(b)
				c[i] ^= 1 << bit
				for _, o := range builtin15() {
					if bytes.Equal(o, c) {
						c = nil
						break
					}
				}
				if c != nil {
					add(c...)
				}
			}
		}
		if len(b) > 1 {
			add(b[:len(b)-1]...)
			add(b[1:]...)
		}
	}
	return l
}

func builtin15() [][]byte {
	return [][]byte{{0}, {3}, {0xa}, {0x21}, idLZMA, idPPMD, idAES, idBCJ, idARM, idPPC, idSPARC, idBCJ2, idDeflate, idBzip2, idZstd, idBrotli, idLZ4}
}

func runC15(e *Env) {
	rec15.fail = map[int]error{}
	ids := ids15()
	isBuiltin := func(id []byte) bool {
		for _, b := range builtin15() {
			if bytes.Equal(b, id) {
				return true
			}
		}
		return false
	}
	for _, id := range ids {
		if isBuiltin(id) {
			panic("built-in identifier in the set")
		}
	}

	e.Group("unregistered identifiers")
	packed := pattern(7, 1)
	for i := range ids {
		e.Case(func() string { return fmt.Sprintf("identifier %x, nothing registered", ids[i]) }, func(t *T) {
			id := ids[i]
			sevenzip.RegisterDecompressor([]byte("other"), recFactory(9999, false))
			rec15.calls = nil
			f := recFolder(id, nil, i, packed, 5)
			b, err := openFirst(t, oneFile(f), "")
			t.Eval(1)
			if err == nil {
				t.Failf("unregistered", "identifier %x is not registered but opened, %d bytes", id, len(b))
			}
			// at every position of a chain of copies
			for n := 2; n <= 4; n++ {
				for pos := range n {
					f := &Folder{Packed: []int{0}, Packs: [][]byte{packed}, Data: packed, CRC: crcOf(packed)}
					for k := range n {
						c := Coder{ID: []byte{0}, In: 1, Out: 1}
						if k == pos {
							c.ID = id
						}
						f.Coders = append(f.Coders, c)
						f.Sizes = append(f.Sizes, uint64(len(packed)))
						if k > 0 {
							f.Bind = append(f.Bind, [2]int{k, k - 1})
						}
					}
					r, err := open(oneFile(f), "")
					if err != nil {
						t.Failf("listing", "%v", err)
					}
					for range 2 {
						rc, err := r.File[0].Open()
						t.Eval(1)
						if err == nil {
							rc.Close()
							t.Failf("unregistered", "identifier %x at %d of %d is not registered but opened", id, pos, n)
						}
					}
				}
			}
			if len(rec15.calls) > 0 {
				t.Failf("wrong-decoder", "identifier %x: decoder %d was used", id, rec15.calls[0].mark)
			}
		})
	}

	e.Group("registered identifiers")
	// from here on each case registers what it uses, in the same way whatever ran before
	e.Case(func() string { return "the empty identifier" }, func(t *T) {
		sevenzip.RegisterDecompressor(nil, recFactory(4000, false))
		rec15.calls = nil
		f := recFolder(nil, []byte{1}, 4000, packed, 9)
		b, err := openFirst(t, oneFile(f), "")
		t.Eval(1)
		if err != nil || !bytes.Equal(b, f.Data) {
			t.Failf("registered", "empty identifier: %x, %v, want %x", b, err, f.Data)
		}
	})
	block := 16
	if !e.Quick() {
		block = 4
	}
	for lo := 0; lo < len(ids); lo += block {
		e.Case(func() string { return fmt.Sprintf("all identifiers registered, then 16 from %x anew", ids[lo]) }, func(t *T) {
			for i, id := range ids {
				sevenzip.RegisterDecompressor(id, recFactory(i, false))
			}
			for i := lo; i < min(lo+block, len(ids)); i++ {
				sevenzip.RegisterDecompressor(ids[i], recFactory(5000+i, false))
				// a slice that changes after registration
				id := bytes.Clone(ids[(i+1)%len(ids)])
				sevenzip.RegisterDecompressor(id, recFactory(7000+i, false))
				for k := range id {
					id[k] ^= 0x55
				}
				for j := range ids {
					mark := j
					if j >= lo && j <= i {
						mark = 5000 + j
					}
					if j == (i+1)%len(ids) {
						mark = 7000 + i
					}
					rec15.calls = nil
					props := []byte{byte(j), 0, byte(i)}[:j%4]
					f := recFolder(ids[j], props, mark, packed, 3+j%7)
					b, err := openFirst(t, oneFile(f), "")
					t.Eval(1)
					if err != nil || !bytes.Equal(b, f.Data) {
						t.Failf("registered", "identifier %x: %x, %v, want %x of decoder %d", ids[j], b, err, f.Data, mark)
					}
					compareCalls(t, rec15.calls, []*rcall{{mark: mark, props: props, size: uint64(3 + j%7), n: 1, ins: [][]byte{packed}}}, fmt.Sprintf("identifier %x", ids[j]))
				}
				sevenzip.RegisterDecompressor(ids[(i+1)%len(ids)], recFactory((i+1)%len(ids), false))
			}
			t.Outcome(lo)
		})
	}

	runC15Histories(e)
	runC15Graphs(e)
	runC15Args(e)
}

// registration histories: register identifier i with decoder j, open an archive of identifier i
func runC15Histories(e *Env) {
	e.Group("registration histories")
	hid := [][]byte{{0x3a}, {0x3a, 0x00}, {0x00, 0x3a}}
	type op struct{ kind, id, dec int }
	var ops []op
	for i := range 3 {
		for d := range 2 {
			ops = append(ops, op{0, i, d})
		}
		ops = append(ops, op{1, i, 0}, op{2, i, 0})
	}
	depth := 5
	if !e.Quick() {
		depth = 7
	}
	packed := pattern(5, 3)
	mark := func(i, d int) int { return 100 + 10*i + d }
	arch := func(i, d int) (*Folder, []byte) {
		f := recFolder(hid[i], []byte{byte(i), 7}, mark(i, d), packed, 6)
		f.CRC = nil
		return f, oneFile(f)
	}
	var archives [3][2][]byte
	var data [3][2][]byte
	for i := range 3 {
		for d := range 2 {
			f, b := arch(i, d)
			archives[i][d], data[i][d] = b, f.Data
		}
	}
	_ = archives
	pre := [][]int{}
	forProduct([]int{len(ops), len(ops)}, func(v []int) { pre = append(pre, append([]int{}, v...)) })
	for _, p := range pre {
		e.Case(func() string { return fmt.Sprintf("histories starting with %v %v", ops[p[0]], ops[p[1]]) }, func(t *T) {
			dims := make([]int, depth-2)
			for i := range dims {
				dims[i] = len(ops)
			}
			forProduct(dims, func(v []int) {
				// every identifier starts out with decoder 0
				cur := [3]int{}
				for i := range 3 {
					sevenzip.RegisterDecompressor(hid[i], recFactory(mark(i, 0), false))
				}
				rec15.calls = nil
				type handle struct {
					rc   io.ReadCloser
					want []byte
					i    int
				}
				var open1 []handle
				var readers [3]*sevenzip.Reader
				for i := range 3 {
					r, err := open(archives[i][0], "")
					if err != nil {
						t.Failf("listing", "%v", err)
					}
					readers[i] = r
				}
				for step := range depth {
					o := ops[0]
					if step < 2 {
						o = ops[p[step]]
					} else {
						o = ops[v[step-2]]
					}
					switch o.kind {
					case 0:
						sevenzip.RegisterDecompressor(hid[o.id], recFactory(mark(o.id, o.dec), false))
						cur[o.id] = o.dec
					case 1: // open and read now
						b, err := extract(readers[o.id].File[0])
						if err != nil || !bytes.Equal(b, data[o.id][cur[o.id]]) {
							t.Failf("history", "history %v %v: identifier %x at step %d: %x, %v, want %x of decoder %d", p, v, hid[o.id], step, b, err, data[o.id][cur[o.id]], cur[o.id])
						}
					case 2: // open now, read at the end
						rc, err := readers[o.id].File[0].Open()
						if err != nil {
							t.Failf("history", "history %v %v: %v", p, v, err)
						}
						open1 = append(open1, handle{rc, data[o.id][cur[o.id]], o.id})
					}
					t.Trans(1)
				}
				for _, h := range open1 {
					b, err := readBounded(h.rc, 6)
					if err != nil || !bytes.Equal(b, h.want) {
						t.Failf("history", "history %v %v: handle of %x: %x, %v, want %x", p, v, hid[h.i], b, err, h.want)
					}
					_ = h.rc.Close()
				}
				t.Eval(1)
				t.State(uint64(cur[0] | cur[1]<<1 | cur[2]<<2))
			})
			t.Outcome(p)
		})
	}
}

func runC15Graphs(e *Env) {
	e.Group("coder graphs")
	gids := [][]byte{{0x31}, {0x32, 0x01}, {0x33, 0x01, 0x02}, {0x34, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}}
	maxN, maxTotal := 4, 6
	if !e.Quick() {
		maxN, maxTotal = 4, 8
	}
	propSets := [][]byte{nil, {1}, {0x5d, 0, 0, 1, 0}, pattern(130, 8)}
	n := 0
	for nc := 1; nc <= maxN; nc++ {
		forGraphs(nc, 3, maxTotal, func(g graph) {
			n++
			k := n
			np, nb := g.counts()
			e.Case(func() string { return fmt.Sprintf("coder graph %v", g.ins) }, func(t *T) {
				for i, id := range gids {
					sevenzip.RegisterDecompressor(id, recFactory(300+i, i%2 == 1))
				}
				po, bo := perms(np), perms(nb)
				for oi, order := range po {
					for bi, binds := range bo {
						if nb > 2 && np > 2 && (oi+bi)%3 != 0 {
							continue
						}
						p := &graphPlan{order: order, binds: binds}
						same := oi%2 == 0 // all coders with the same identifier and properties now and then
						for i := range nc {
							id := (i + k) % len(gids)
							if same && k%5 == 0 {
								id = k % len(gids)
							}
							p.ids = append(p.ids, gids[id])
							p.marks = append(p.marks, 300+id)
							p.props = append(p.props, propSets[(i+k+oi)%len(propSets)])
							p.sizes = append(p.sizes, uint64([]int{4, 9, 1, 5000, 17}[(i*2+k+bi)%5]))
						}
						p.packs = func(j int) []byte { return pattern([]int{3, 8, 0, 5, 4500, 1, 3}[(j+k+oi)%7], uint32(j+20*k)) }
						f, want := g.folder(p)
						for i := range f.Coders {
							f.Coders[i].Complex = (i+k+oi)%2 == 0 // the long form although not needed
						}
						g.run(t, f, want, fmt.Sprintf("graph %v packed %v binds %v", g.ins, order, binds), (oi+bi+k)%16)
					}
				}
				t.Outcome(fmt.Sprint(g.ins))
			})
		})
	}
}

// run extracts the folder's only file, with other folders around it, more than once.
func (g graph) run(t *T, f *Folder, want []*rcall, what string, shape int) {
	a := &Archive{}
	around := func(k int) {
		switch k % 4 {
		case 0:
		case 1: // one packed stream
			a.AddFolder(&Folder{Coders: []Coder{{ID: []byte{0}, In: 1, Out: 1}}, Packed: []int{0}, Sizes: []uint64{3}, Packs: [][]byte{{1, 2, 3}}, Data: []byte{1, 2, 3}}, []string{"x"}, []int{3})
		case 2, 3: // several packed streams
			g := graph{ins: [][]int{make([]int, k%4)}}
			for i := range g.ins[0] {
				g.ins[0][i] = -1
			}
			order := make([]int, k%4)
			for i := range order {
				order[i] = i
			}
			h, _ := g.folder(&graphPlan{ids: [][]byte{{0x31}}, marks: []int{300}, props: [][]byte{{7}}, sizes: []uint64{11}, order: order, packs: func(j int) []byte { return pattern(2+5*j, uint32(j)) }})
			a.AddFolder(h, []string{"m", "n"}, []int{4, 7})
		}
	}
	around(shape)
	if shape&2 != 0 {
		a.Opts.PackPos = 5
	}
	idx := len(a.Entries)
	a.AddFolder(f, []string{"f"}, []int{len(f.Data)})
	around(shape + shape/4 + 1)
	around(shape / 4)
	r, err := open(a.Build().B, "pass\x00w\u00f6rd")
	if err != nil {
		t.Failf("listing", "%s: %v", what, err)
	}
	for round := range 2 {
		rec15.calls = nil
		rc, err := r.File[idx].Open()
		if err != nil {
			t.Failf("open", "%s: %v", what, err)
		}
		t.Eval(1)
		for _, c := range rec15.calls {
			if c.read {
				t.Trans(1)
			}
		}
		b, err := readBounded(rc, len(f.Data))
		if err != nil {
			t.Failf("read", "%s: %v", what, err)
		}
		compareCalls(t, rec15.calls, want, what)
		for _, c := range rec15.calls {
			if c.read && len(c.ins) != c.n {
				t.Failf("inputs", "%s: decoder %d could read %d of %d inputs", what, c.mark, len(c.ins), c.n)
			}
			if c.mark%2 == 1 && (len(c.pw) != 1 || c.pw[0] != "pass\x00w\u00f6rd" || c.late) {
				t.Failf("password", "%s: decoder %d got passwords %q (after reading: %v)", what, c.mark, c.pw, c.late)
			}
		}
		if !bytes.Equal(b, f.Data) {
			t.Failf("content", "%s: round %d: %s, want %s", what, round, hexClip(b), hexClip(f.Data))
		}
		if err := rc.Close(); err != nil {
			t.Failf("close", "%s: %v", what, err)
		}
		for i, x := range a.Entries {
			if i == idx {
				continue
			}
			if b, err := extract(r.File[i]); err != nil || !bytes.Equal(b, x.Data) {
				t.Failf("neighbour", "%s: file %d of a stream beside it: %s, %v, want %s", what, i, hexClip(b), err, hexClip(x.Data))
			}
		}
	}
}

func runC15Args(e *Env) {
	id := []byte{0x41, 0x42}
	e.Group("properties of every length")
	maxP := 600
	if !e.Quick() {
		maxP = 9000
	}
	var lens []int
	for n := 0; n <= maxP; n++ {
		lens = append(lens, n)
	}
	for _, c := range []int{4096, 8192, 16384, 65536} {
		for d := -140; d <= 40; d++ {
			lens = append(lens, c+d)
		}
	}
	lens = append(lens, 1<<20, 1<<21-1, 1<<21)
	for lo := 0; lo < len(lens); lo += 20 {
		e.Case(func() string { return fmt.Sprintf("properties of %d bytes and on", lens[lo]) }, func(t *T) {
			sevenzip.RegisterDecompressor(id, recFactory(77, false))
			for _, n := range lens[lo:min(lo+20, len(lens))] {
				for enc := range 2 {
					props := pattern(n, uint32(n))
					f := recFolder(id, props, 77, []byte{5}, 4)
					a := &Archive{}
					a.AddFolder(f, []string{"f", "g"}, []int{1, 3})
					if enc == 1 {
						a.Opts.Encode = func(h []byte) *Folder { return Chain(h, sCopy()) }
					}
					r, err := open(a.Build().B, "")
					if err != nil {
						t.Failf("listing", "%d bytes of properties: %v", n, err)
					}
					for range 3 {
						rec15.calls = nil
						for i := range 2 {
							b, err := extract(r.File[1-i])
							t.Eval(1)
							if err != nil || !bytes.Equal(b, a.Entries[1-i].Data) {
								t.Failf("content", "%d bytes of properties: %x, %v", n, b, err)
							}
						}
						for _, c := range rec15.calls {
							if !bytes.Equal(c.props, props) || c.size != 4 {
								t.Failf("properties", "%d bytes of properties: got %d bytes %s, size %d", n, len(c.props), hexClip(c.props), c.size)
							}
						}
						if len(rec15.calls) == 0 {
							t.Failf("calls", "no decoder was created")
						}
					}
				}
			}
			t.Outcome(lo)
		})
	}
	e.Group("all property bytes")
	e.Case(func() string { return "all one and two byte properties" }, func(t *T) {
		sevenzip.RegisterDecompressor(id, recFactory(77, false))
		for v := range 65536 + 256 {
			props := []byte{byte(v), byte(v >> 8)}
			if v >= 65536 {
				props = props[:1]
			}
			rec15.calls = nil
			f := recFolder(id, props, 77, nil, 1)
			f.Packs = [][]byte{{1}}
			f.Data = mix(77, props, 1, [][]byte{{1}})
			f.CRC = crcOf(f.Data)
			b, err := openFirst(t, oneFile(f), "")
			t.Eval(1)
			if err != nil || !bytes.Equal(b, f.Data) {
				t.Failf("content", "properties %x: %x, %v", props, b, err)
			}
			if !bytes.Equal(rec15.calls[0].props, props) {
				t.Failf("properties", "got %x, want %x", rec15.calls[0].props, props)
			}
		}
	})

	e.Group("sizes")
	var sizes []uint64
	for i := range 63 {
		for d := uint64(0); d < 3; d++ {
			sizes = append(sizes, 1<<i+d-1)
		}
	}
	for _, s := range sizes {
		if s == 0 || s > 1<<62 {
			continue
		}
		e.Case(func() string { return fmt.Sprintf("output size %d", s) }, func(t *T) {
			sevenzip.RegisterDecompressor(id, func(p []byte, n uint64, in []io.ReadCloser) (io.ReadCloser, error) {
				rec15.calls = append(rec15.calls, &rcall{props: bytes.Clone(p), size: n, n: len(in)})
				return io.NopCloser(bytes.NewReader([]byte{1, 2, 3})), nil
			})
			for shape := range 3 {
				rec15.calls = nil
				f := &Folder{Packs: [][]byte{{1}}, Packed: []int{0}, NumSub: 1}
				want := []uint64{s}
				switch shape {
				case 0:
					f.Coders = []Coder{{ID: id, In: 1, Out: 1}}
				case 1: // the inner one
					f.Coders = []Coder{{ID: id, In: 1, Out: 1}, {ID: id, In: 1, Out: 1, Props: []byte{1}}}
					f.Bind = [][2]int{{1, 0}}
					want = []uint64{s, 3}
				case 2: // the outer one
					f.Coders = []Coder{{ID: id, In: 1, Out: 1}, {ID: id, In: 1, Out: 1, Props: []byte{1}}}
					f.Bind = [][2]int{{1, 0}}
					want = []uint64{3, s}
				}
				f.Sizes = want
				a := &Archive{Folders: []*Folder{f}, Entries: []Entry{{Name: "f", HasStream: true, Size: f.Unpack()}}}
				r, err := open(a.Build().B, "")
				if err != nil {
					t.Failf("listing", "size %d: %v", s, err)
				}
				rc, err := r.File[0].Open()
				t.Eval(1)
				if err != nil {
					t.Failf("open", "size %d: %v", s, err)
				}
				buf := make([]byte, 3)
				if n, err := io.ReadFull(rc, buf[:min(3, s)]); err != nil || uint64(n) != min(3, s) {
					t.Failf("read", "size %d: %d, %v", s, n, err)
				}
				rc.Close()
				if len(rec15.calls) != len(want) {
					t.Failf("calls", "size %d: %d decoders", s, len(rec15.calls))
				}
				for i, c := range rec15.calls {
					if c.size != want[len(c.props)] {
						t.Failf("size", "decoder %d got size %d, want %d", i, c.size, want[len(c.props)])
					}
				}
			}
		})
	}

	e.Group("failing factories")
	errFactory := errors.New("injected factory error")
	for n := 1; n <= 4; n++ {
		for pos := range n {
			for pwFail := range 2 {
				e.Case(func() string { return fmt.Sprintf("decoder %d of %d fails (password %d)", pos, n, pwFail) }, func(t *T) {
					f := &Folder{Packed: []int{0}, Packs: [][]byte{{1, 2}}}
					in := []byte{1, 2}
					for k := range n {
						cid := []byte{0x50, byte(k)}
						sevenzip.RegisterDecompressor(cid, recFactory(500+k, pwFail == 1 && k == pos))
						f.Coders = append(f.Coders, Coder{ID: cid, In: 1, Out: 1})
						f.Sizes = append(f.Sizes, 4)
						if k > 0 {
							f.Bind = append(f.Bind, [2]int{k, k - 1})
						}
						in = mix(500+k, nil, 4, [][]byte{in})
					}
					f.Data, f.CRC = in, crcOf(in)
					r, err := open(oneFile(f), "secret")
					if err != nil {
						t.Failf("listing", "%v", err)
					}
					for round := range 3 {
						rec15.fail = map[int]error{}
						if round != 1 {
							if pwFail == 1 {
								rec15.fail[-1] = errFactory
							} else {
								rec15.fail[500+pos] = errFactory
							}
						}
						b, err := extract(r.File[0])
						t.Eval(1)
						if round == 1 {
							if err != nil || !bytes.Equal(b, in) {
								t.Failf("content", "after a failure: %x, %v", b, err)
							}
						} else if !errors.Is(err, errFactory) {
							t.Failf("factory-error", "decoder %d of %d fails: %d bytes, %v", pos, n, len(b), err)
						}
					}
					rec15.fail = map[int]error{}
				})
			}
		}
	}

	e.Group("passwords")
	for _, pw := range []string{"", "a", "a\x00b", "\xff\xfe", "p\u00e4ss\U0001F600", string(pattern(300, 4))} {
		e.Case(func() string { return fmt.Sprintf("password %q", pw) }, func(t *T) {
			sevenzip.RegisterDecompressor(id, recFactory(78, true))
			for _, pw2 := range []string{pw, pw + "x", ""} {
				f := recFolder(id, []byte{3}, 78, []byte{5}, 4)
				r, err := open(oneFile(f), pw2)
				if err != nil {
					t.Failf("listing", "%v", err)
				}
				for range 2 {
					rec15.calls = nil
					b, err := extract(r.File[0])
					t.Eval(1)
					if err != nil || !bytes.Equal(b, f.Data) {
						t.Failf("content", "%x, %v", b, err)
					}
					if len(rec15.calls) != 1 || len(rec15.calls[0].pw) != 1 || rec15.calls[0].pw[0] != pw2 || rec15.calls[0].late {
						t.Failf("password", "the decoder got %q, want %q", rec15.calls[0].pw, pw2)
					}
				}
			}
		})
	}

	e.Group("encoded headers")
	for n := 1; n <= 3; n++ {
		e.Case(func() string { return fmt.Sprintf("header decoded by %d registered decoders", n) }, func(t *T) {
			// the last decoder ignores its input and returns the header
			hid := []byte{0x61, 0x62, 0x63}
			var hdr []byte
			sevenzip.RegisterDecompressor(hid, func(p []byte, size uint64, in []io.ReadCloser) (io.ReadCloser, error) {
				rec15.calls = append(rec15.calls, &rcall{mark: 80, props: bytes.Clone(p), size: size, n: len(in)})
				b, err := io.ReadAll(in[0])
				if err != nil {
					return nil, err
				}
				for i := range b {
					b[i] ^= 0x33
				}
				return io.NopCloser(bytes.NewReader(b)), nil
			})
			a := &Archive{}
			a.AddFolder(recFolder([]byte{0x41, 0x42}, []byte{9}, 77, []byte{5}, 4), []string{"f"}, []int{4})
			sevenzip.RegisterDecompressor([]byte{0x41, 0x42}, recFactory(77, false))
			a.Opts.EncodedCRC = true
			a.Opts.Encode = func(h []byte) *Folder {
				hdr = bytes.Clone(h)
				x := bytes.Clone(h)
				f := &Folder{Packed: []int{0}, Data: h, CRC: crcOf(h)}
				for k := range n {
					f.Coders = append(f.Coders, Coder{ID: hid, In: 1, Out: 1, Props: []byte{byte(k), 1}})
					f.Sizes = append(f.Sizes, uint64(len(h)))
					if k > 0 {
						f.Bind = append(f.Bind, [2]int{k, k - 1})
					}
					for i := range x {
						x[i] ^= 0x33
					}
				}
				f.Packs = [][]byte{x}
				return f
			}
			rec15.calls = nil
			r, err := open(a.Build().B, "")
			t.Eval(1)
			if err != nil {
				t.Failf("header", "%v", err)
			}
			if len(rec15.calls) != n {
				t.Failf("calls", "%d decoders for the header, want %d", len(rec15.calls), n)
			}
			for k, c := range rec15.calls {
				if !bytes.Equal(c.props, []byte{byte(k), 1}) || c.size != uint64(len(hdr)) || c.n != 1 {
					t.Failf("properties", "decoder %d of the header: %x, size %d", k, c.props, c.size)
				}
			}
			wantAll(t, r, a.Entries)
		})
	}

	runC15Builtin(e)
}
