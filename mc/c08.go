package main

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"testing/fstest"

	"github.com/bodgit/sevenzip"
)

func init() {
	register(&Check{ID: "C08", Level: "model_checking",
		Rule: "all sequences of up to 3 entries (thorough: 4; a reduced alphabet one deeper) over an alphabet of names - nested, unclean, absolute, climbing, with backslashes, sorting around '/', empty - and kinds (file, empty file, directory) against a reference tree: every directory listed at once and in chunks of 1 to 4, every node opened, stat'ed and read, every other path of the alphabet's closure looked up, invalid paths refused; long sequences for wide and deep trees; fstest.TestFS on a subfamily. A state is a reference tree, a transition an entry added to it.",
		Run:  runC08})
}

type fsEnt struct {
	name string
	kind byte // F data, E empty, D directory
}

type fsNode struct {
	dir      bool
	ent      *Entry // nil: implied
	conflict bool
	double   bool // directory recorded twice
}

// refValid is the valid name of an entry.
func refValid(name string) string {
	var st []string
	for _, p := range strings.Split(strings.ReplaceAll(name, `\`, "/"), "/") {
		switch p {
		case "", ".":
		case "..":
			if len(st) > 0 {
				st = st[:len(st)-1]
			}
		default:
			st = append(st, p)
		}
	}
	return strings.Join(st, "/")
}

func fsArchive(seq []fsEnt) *Archive {
	a := &Archive{}
	n := 0
	for _, s := range seq {
		if s.kind == 'F' {
			n++
		}
	}
	data := []byte("0123456789abcdefghijklmnopqrstuvwxyz")
	var sizes []int
	for i := range n {
		sizes = append(sizes, 1+i%3)
	}
	tot := 0
	for _, s := range sizes {
		tot += s
	}
	if n > 0 {
		for len(data) < tot {
			data = append(data, data...)
		}
		a.AddFolder(Chain(data[:tot], sCopy()), names(n), sizes)
	}
	files := a.Entries
	a.Entries = nil
	for i, s := range seq {
		e := Entry{Name: s.name}
		switch s.kind {
		case 'F':
			e = files[0]
			e.Name = s.name
			files = files[1:]
		case 'E':
			e.EmptyFile = true
		case 'D':
			e.Attr = p32(0x10)
		}
		e.M = ftime(i + 1)
		a.Entries = append(a.Entries, e)
	}
	return a
}

func refTree(a *Archive) map[string]*fsNode {
	tree := map[string]*fsNode{}
	for i := range a.Entries {
		e := &a.Entries[i]
		dir := e.Attr != nil || strings.HasSuffix(e.Name, "/")
		v := refValid(e.Name)
		if v == "" {
			continue
		}
		if n := tree[v]; n != nil {
			if n.dir && dir {
				n.double = true
			} else {
				n.conflict = true
			}
			continue
		}
		tree[v] = &fsNode{dir: dir, ent: e}
	}
	var all []string
	for v := range tree {
		all = append(all, v)
	}
	for _, v := range all {
		for d := path.Dir(v); d != "."; d = path.Dir(d) {
			n := tree[d]
			switch {
			case n == nil:
				tree[d] = &fsNode{dir: true}
			case !n.dir:
				n.conflict = true
			}
		}
	}
	tree["."] = &fsNode{dir: true}
	return tree
}

var fsInvalid = []string{"", "/", "/a", "a/", "./a", "../a", "a//b", "a/../b", "..", "a/.", "./", "//", "a/b/", "/.", "a/./b"}

func checkTree(t *T, r *sevenzip.Reader, a *Archive, seq []fsEnt, lookups []string) {
	fail := func(key, format string, x ...any) {
		t.Failf(key, "entries %v: %s", seqString(seq), fmt.Sprintf(format, x...))
	}
	tree := refTree(a)
	h := fnv.New64a()
	var all []string
	kids := map[string][]string{}
	for v := range tree {
		all = append(all, v)
		if v != "." {
			kids[path.Dir(v)] = append(kids[path.Dir(v)], v)
		}
	}
	sort.Strings(all)
	for _, v := range all {
		fmt.Fprint(h, v, tree[v].dir, tree[v].conflict, tree[v].double)
	}
	t.State(h.Sum64())
	for _, k := range kids {
		sort.Slice(k, func(i, j int) bool { return path.Base(k[i]) < path.Base(k[j]) })
	}
	for _, v := range all {
		n := tree[v]
		// a file in the way of the path
		blocked := false
		for d := path.Dir(v); d != "."; d = path.Dir(d) {
			if !tree[d].dir {
				blocked = true
			}
		}
		f, err := r.Open(v)
		if err != nil {
			if n.conflict || blocked {
				continue
			}
			fail("open", "Open(%q): %v", v, err)
		}
		info, err := f.Stat()
		if err != nil {
			if !n.conflict && !n.double && !blocked {
				fail("stat", "Stat of %q: %v", v, err)
			}
			_ = f.Close()
			continue
		}
		if n.conflict || blocked {
			_ = f.Close()
			continue // which of them it shows is open
		}
		if v != "." && info.Name() != path.Base(v) {
			fail("name", "Stat of %q: name %q", v, info.Name())
		}
		if info.IsDir() != n.dir || info.Mode().IsDir() != n.dir {
			fail("kind", "%q: IsDir %v, mode %v, want directory %v", v, info.IsDir(), info.Mode(), n.dir)
		}
		if n.ent != nil && !info.ModTime().Equal(expTime(n.ent.M)) {
			fail("time", "%q: modified %v, want %v", v, info.ModTime(), expTime(n.ent.M))
		}
		if !n.dir {
			b, err := readBounded(f, 100)
			if err != nil || !bytes.Equal(b, n.ent.Data) {
				fail("content", "%q: read %q, %v; want %q", v, b, err, n.ent.Data)
			}
			if info.Size() != int64(len(n.ent.Data)) {
				fail("size", "%q: size %d, want %d", v, info.Size(), len(n.ent.Data))
			}
			if err := f.Close(); err != nil {
				fail("close", "%q: %v", v, err)
			}
			continue
		}
		if k, err := f.Read(make([]byte, 4)); k != 0 || err == nil {
			fail("read-dir", "reading directory %q: %d, %v", v, k, err)
		}
		d, ok := f.(fs.ReadDirFile)
		if !ok {
			fail("kind", "directory %q is no ReadDirFile", v)
		}
		bad, maybe := false, false
		for _, k := range kids[v] {
			bad = bad || tree[k].conflict
			maybe = maybe || tree[k].double
		}
		list, err := d.ReadDir(-1)
		switch {
		case bad && err == nil:
			fail("conflict", "ReadDir of %q reports no conflict", v)
		case !bad && !maybe && err != nil:
			fail("readdir", "ReadDir of %q: %v", v, err)
		}
		compare := func(list []fs.DirEntry, full bool, how string) {
			if full && len(list) != len(kids[v]) || len(list) > len(kids[v]) {
				fail("readdir", "%s of %q: %d entries %v, want %v", how, v, len(list), list, kids[v])
			}
			for i, de := range list {
				k := kids[v][i]
				kn := tree[k]
				if de.Name() != path.Base(k) || de.IsDir() != kn.dir || (de.Type() == fs.ModeDir) != kn.dir {
					fail("readdir", "%s of %q: entry %d is %q (directory %v, type %v), want %q (directory %v)", how, v, i, de.Name(), de.IsDir(), de.Type(), path.Base(k), kn.dir)
				}
				fi, err := de.Info()
				if err != nil {
					fail("info", "Info of %q: %v", k, err)
				}
				if fi.Name() != path.Base(k) || fi.IsDir() != kn.dir || fi.Mode().Type() != de.Type() {
					fail("info", "Info of %q: name %q, mode %v", k, fi.Name(), fi.Mode())
				}
				if !kn.dir && (fi.Size() != int64(len(kn.ent.Data)) || !fi.ModTime().Equal(expTime(kn.ent.M))) {
					fail("info", "Info of %q: size %d, modified %v", k, fi.Size(), fi.ModTime())
				}
			}
		}
		if err == nil {
			compare(list, true, "ReadDir(-1)")
			if l, err := d.ReadDir(-1); len(l) != 0 || err != nil {
				fail("readdir", "ReadDir(-1) of %q at the end: %v, %v", v, l, err)
			}
			if l, err := d.ReadDir(1); len(l) != 0 || err != io.EOF { //nolint:errorlint
				fail("readdir", "ReadDir(1) of %q at the end: %v, %v", v, l, err)
			}
		}
		if err := f.Close(); err != nil {
			fail("close", "%q: %v", v, err)
		}
		for c := 0; c <= 4; c++ {
			f, err := r.Open(v)
			if err != nil {
				fail("open", "Open(%q) again: %v", v, err)
			}
			d := f.(fs.ReadDirFile)
			var got []fs.DirEntry
			failed := false
			for step := 0; ; step++ {
				if step > len(kids[v])+2 {
					fail("readdir", "ReadDir(%d) of %q doesn't end", c, v)
				}
				l, err := d.ReadDir(c)
				if c > 0 && len(l) > c {
					fail("readdir", "ReadDir(%d) of %q: %d entries", c, v, len(l))
				}
				got = append(got, l...)
				if err == io.EOF && c > 0 { //nolint:errorlint
					if len(l) != 0 {
						fail("readdir", "ReadDir(%d) of %q: io.EOF with %d entries", c, v, len(l))
					}
					break
				}
				if err != nil {
					failed = true
					break
				}
				if c > 0 && len(l) == 0 {
					fail("readdir", "ReadDir(%d) of %q: no entries, no error", c, v)
				}
				if c == 0 {
					break
				}
			}
			if failed && !bad && !maybe || !failed && bad {
				fail("conflict", "ReadDir(%d) of %q: failed %v, conflict %v", c, v, failed, bad)
			}
			compare(got, !failed, fmt.Sprintf("ReadDir(%d)", c))
			_ = f.Close()
		}
	}
	for _, v := range fsInvalid {
		if f, err := r.Open(v); !errors.Is(err, fs.ErrInvalid) || f != nil {
			fail("invalid", "Open(%q): %v, %v", v, f, err)
		}
	}
	for _, v := range lookups {
		if tree[v] != nil {
			continue
		}
		f, err := r.Open(v)
		var pe *fs.PathError
		if f != nil || !errors.Is(err, fs.ErrNotExist) || !errors.As(err, &pe) || pe.Path != v {
			fail("absent", "Open(%q): %v, %v", v, f, err)
		}
	}
	// a walk sees each node once, in order, and ends
	var seen []string
	sound := true
	for v := range tree {
		sound = sound && !tree[v].conflict && !tree[v].double
	}
	_ = fs.WalkDir(r, ".", func(p string, d fs.DirEntry, err error) error {
		if len(seen) > 3*len(tree)+10 {
			fail("walk", "WalkDir doesn't end: %q", seen)
		}
		seen = append(seen, p)
		if err != nil && sound {
			fail("walk", "WalkDir: %q: %v", p, err)
		}
		return nil
	})
	if sound {
		var want []string
		var rec func(v string)
		rec = func(v string) {
			want = append(want, v)
			for _, k := range kids[v] {
				rec(k)
			}
		}
		rec(".")
		if strings.Join(seen, "\n") != strings.Join(want, "\n") {
			fail("walk", "WalkDir: %q, want %q", seen, want)
		}
	}
}

func seqString(seq []fsEnt) string {
	var s []string
	for _, x := range seq {
		s = append(s, fmt.Sprintf("%c %q", x.kind, clipS(x.name)))
	}
	if len(s) > 12 {
		s = append(s[:6:6], append([]string{"..."}, s[len(s)-5:]...)...)
	}
	return strings.Join(s, ", ")
}

func runC08(e *Env) {
	q := e.Quick()
	nm := []string{"a", "b", "a/b", "a/b/c", "a/", "a//b/", "/a", "./a", "../b", "a/../b", "..", ".", "", "/", `a\b`, `\a`, "a/.", "a.", "a-", "a/c", "B", "é/a", "a/..", "...", ".a", "x/../../y", `C:\b`, "a b", "//", "a/a/a", "../../c", `..\..\..\a`, "../..", "a/../../../b/c"}
	small := []string{"a", "b", "a/b", "a/b/c", "a/", "a-", `a\c`, "../b", ""}
	var alpha, alphaS []fsEnt
	look := map[string]bool{"zz": true, "a/zz": true, "A": true, "a/b/c/d": true}
	for _, n := range nm {
		for _, k := range "FED" {
			alpha = append(alpha, fsEnt{n, byte(k)})
		}
		if v := refValid(n); v != "" {
			look[v] = true
			look[v+"x"] = true
			look[v+"/x"] = true
			look[v[:len(v)-1]+"!"] = true
		}
		if fs.ValidPath(n) {
			look[n] = true
		}
	}
	for _, n := range small {
		for _, k := range "FED" {
			alphaS = append(alphaS, fsEnt{n, byte(k)})
		}
	}
	delete(look, ".")
	var lookups []string
	for v := range look {
		if fs.ValidPath(v) {
			lookups = append(lookups, v)
		}
	}
	sort.Strings(lookups)
	looking := func(t *T, seq []fsEnt, lookups []string) {
		t.Eval(1)
		t.Trans(1)
		a := fsArchive(seq)
		b := a.Build()
		t.Outcome(b.B[b.HdrStart:])
		r, err := open(b.B, "")
		if err != nil {
			t.Failf("archive", "entries %s: opening: %v", seqString(seq), err)
		}
		checkTree(t, r, a, seq, lookups)
		t.Trace(1)
		t.Sample(map[string]any{"entries": seqString(seq), "nodes": len(refTree(a))})
	}
	one := func(t *T, seq []fsEnt) { looking(t, seq, lookups) }
	e.Group("up to 2 entries")
	e.Case(func() string { return "no entries" }, func(t *T) { one(t, nil) })
	for _, x := range alpha {
		e.Case(func() string { return fmt.Sprintf("%c %q and any other", x.kind, x.name) }, func(t *T) {
			one(t, []fsEnt{x})
			for _, y := range alpha {
				one(t, []fsEnt{x, y})
			}
		})
	}
	e.Group("3 entries")
	al3 := alpha
	for _, x := range al3 {
		for _, y := range al3 {
			e.Case(func() string {
				return fmt.Sprintf("%c %q, %c %q and any other", x.kind, x.name, y.kind, y.name)
			}, func(t *T) {
				for i, z := range al3 {
					if q && i%3 != 0 && z.kind != x.kind {
						continue
					}
					one(t, []fsEnt{x, y, z})
				}
			})
		}
	}
	depth := 4
	if !q {
		depth = 5
	}
	e.Group(fmt.Sprintf("%d entries, small alphabet", depth))
	if q {
		var r []fsEnt
		for _, x := range alphaS {
			if x.kind != 'E' && x.name != "" && x.name != `a\c` {
				r = append(r, x)
			}
		}
		alphaS = r
	}
	for _, x := range alphaS {
		for _, y := range alphaS {
			e.Case(func() string {
				return fmt.Sprintf("%c %q, %c %q and %d others", x.kind, x.name, y.kind, y.name, depth-2)
			}, func(t *T) {
				dims := make([]int, depth-2)
				for i := range dims {
					dims[i] = len(alphaS)
				}
				forProduct(dims, func(v []int) {
					seq := []fsEnt{x, y}
					for _, k := range v {
						seq = append(seq, alphaS[k])
					}
					one(t, seq)
				})
			})
		}
	}
	// every name of up to 5 elements, alone and together with others
	e.Group("paths")
	elems := []string{"a", "b", "..", ".", "", "..."}
	pdepth := 4
	if !q {
		pdepth = 6
	}
	for i0 := range elems {
		for i1 := range elems {
			e.Case(func() string { return fmt.Sprintf("paths starting with %q", elems[i0]+"/"+elems[i1]) }, func(t *T) {
				for n := 1; n <= pdepth; n++ {
					dims := make([]int, max(0, n-2))
					for i := range dims {
						dims[i] = len(elems)
					}
					forProduct(dims, func(v []int) {
						p := []string{elems[i0], elems[i1]}[:min(n, 2)]
						if n == 1 && i1 != 0 {
							return
						}
						for _, k := range v {
							p = append(p[:len(p):len(p)], elems[k])
						}
						for si, sep := range []string{"/", `\`} {
							if si == 1 && n == 1 {
								continue
							}
							name := strings.Join(p, sep)
							for _, k := range "FED" {
								x := fsEnt{name, byte(k)}
								one(t, []fsEnt{x})
								one(t, []fsEnt{x, {"a/b", 'F'}, {"b", 'D'}})
								if k == 'F' {
									one(t, []fsEnt{{"../a", 'E'}, x})
									one(t, []fsEnt{x, {name + "/z", 'F'}})
								}
							}
						}
					})
				}
			})
		}
	}
	// names of one directory sorted around the separator, in every order
	e.Group("order")
	ord := []string{"d", "d/x", "d-", "d.", "d0", "d!", "d/a/b", "c", "e", "dd/x"}
	for _, k := range []int{3, 4, 5} {
		var sets [][]string
		forProduct([]int{1 << len(ord)}, func(v []int) {
			var s []string
			for i := range ord {
				if v[0]>>i&1 == 1 {
					s = append(s, ord[i])
				}
			}
			if len(s) == k {
				sets = append(sets, s)
			}
		})
		for _, s := range sets {
			if k == 5 && q {
				break
			}
			e.Case(func() string { return fmt.Sprintf("all orders of %q", s) }, func(t *T) {
				for _, p := range perms(len(s)) {
					var seq []fsEnt
					for _, i := range p {
						kd := byte('F')
						if s[i] == "d" {
							kd = 'D'
						}
						seq = append(seq, fsEnt{s[i], kd})
					}
					one(t, seq)
				}
			})
		}
	}
	e.Group("large")
	for _, n := range []int{10, 11, 12, 13, 50, 100, 257, 1000} {
		e.Case(func() string { return fmt.Sprintf("%d entries: wide, nested and deep", n) }, func(t *T) {
			var wide, rev, nest, deep []fsEnt
			p := ""
			for i := range n {
				wide = append(wide, fsEnt{fmt.Sprintf("f%d", i*7919%n), 'F'})
				rev = append(rev, fsEnt{fmt.Sprintf("%04d", n-i), "FED"[i%3]})
				nest = append(nest, fsEnt{fmt.Sprintf("d%d/e%d/f%d", i%7, i%11, i), 'E'})
				if i < 60 {
					p += fmt.Sprintf("%c/", 'a'+i%3)
					deep = append(deep, fsEnt{p + "f", 'F'})
				}
			}
			one(t, wide)
			one(t, rev)
			one(t, nest)
			one(t, deep)
			one(t, append(append([]fsEnt{}, nest...), deep...))
		})
	}
	e.Case(func() string { return "long names" }, func(t *T) {
		for _, n := range []int{255, 256, 4095, 4096, 4097, 70000} {
			one(t, []fsEnt{{strings.Repeat("n", n), 'F'}, {strings.Repeat("n", n) + "/x", 'E'}})
			one(t, []fsEnt{{strings.Repeat("n/", min(n, 1000)/2) + "x", 'F'}})
		}
	})
	// names that some convention or other takes for the same: nothing but what refValid does may unite them
	e.Group("similar names")
	sim := []string{"ab", "Ab", "AB", "ab ", " ab", "ab.", ".ab", "ab..", "ab\t", "ab\n", "\u00a0ab", "ab\u200b", "\ufeffab", "ab:", "ab:x", "ab~1", "a*b", "a?b", "a[b", "a%62", "ab%20", "ab%", "\uff41b", "\u00e1b", "a\u0301b", "\u00c1b", "\u017f", "s", "k", "\u212a", "\u0131", "i", "\u0130", "ss", "\u00df", "con", "CON", "con.txt", "con.TXT", "~", "~ab", "$ab", "-ab", "ab;1", "ab\x01", "ab\x7f", "\U0001f600", "\U0001f600b", "\ufffd", "a\ufffdb", "#ab#", "'ab'", "\"ab\"", "<ab>", "a|b", "a,b", "0ab", "00ab", "ab0"}
	simLook := func(ns ...string) []string {
		m := map[string]bool{}
		for _, n := range ns {
			for _, v := range []string{n, strings.ToLower(n), strings.ToUpper(n), strings.TrimSpace(n), n + " ", n + ".", " " + n, strings.TrimRight(n, ".")} {
				for _, d := range []string{"", "d/", "D/"} {
					if v != "" && fs.ValidPath(d+v) {
						m[d+v] = true
					}
				}
			}
		}
		var r []string
		for v := range m {
			if v != "." {
				r = append(r, v)
			}
		}
		sort.Strings(r)
		return r
	}
	for _, x := range sim {
		e.Case(func() string { return fmt.Sprintf("%q and every name like it", x) }, func(t *T) {
			for _, y := range sim {
				lk := simLook(x, y)
				for _, seq := range [][]fsEnt{
					{{x, 'F'}, {y, 'E'}}, {{x, 'D'}, {y, 'F'}}, {{x, 'F'}, {y, 'D'}}, {{x, 'D'}, {y, 'D'}},
					{{"d/" + x, 'F'}, {"d/" + y, 'F'}}, {{x + "/f", 'F'}, {y + "/g", 'E'}}, {{x + "/f", 'F'}, {y + "/f", 'F'}}, {{x, 'D'}, {y + "/" + x, 'F'}},
					{{"d/" + x + "/f", 'F'}, {"d/" + y, 'D'}, {x, 'F'}},
				} {
					looking(t, seq, lk)
				}
			}
		})
	}
	// the standard library's own checks
	e.Group("fstest")
	for _, x := range alphaS {
		e.Case(func() string { return fmt.Sprintf("fstest.TestFS: %c %q and two others", x.kind, x.name) }, func(t *T) {
			for i, y := range alphaS {
				for j, z := range alphaS {
					if q && (i+j)%5 != 0 {
						continue
					}
					a := fsArchive([]fsEnt{x, y, z})
					tree := refTree(a)
					var exp []string
					ok := true
					for v, n := range tree {
						ok = ok && !n.conflict && !n.double
						if v != "." {
							exp = append(exp, v)
						}
					}
					if !ok {
						continue
					}
					t.Eval(1)
					r, err := open(a.Build().B, "")
					if err != nil {
						t.Failf("archive", "%v", err)
					}
					if len(exp) == 0 {
						continue
					}
					if err := fstest.TestFS(r, exp...); err != nil {
						t.Failf("testfs", "entries %s: %v", seqString([]fsEnt{x, y, z}), err)
					}
				}
			}
		})
	}
}
