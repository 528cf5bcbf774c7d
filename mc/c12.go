package main

// C12: a multi-volume archive is equivalent to its concatenation.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	iofs "io/fs"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/bodgit/sevenzip"
)

func init() {
	register(&Check{
		ID:    "C12",
		Level: "fault_enumeration",
		Rule: "archives (sound, truncated at every length, each byte altered, with a stub) are written to volumes on disk split at every position into two and three volumes, empty ones included, into equal volumes " +
			"of every size from one byte, and into more than 999 volumes; under every shape of base name. Listing and contents have to equal those of the unsplit bytes, Volumes the files used, and the process must not " +
			"keep a descriptor after Close or after an open that fails: with the n-th volume missing, a symlink loop, a directory, or the descriptor limit reached for every n. Through a recording file system every " +
			"single open and inspection fails with each kind of error, together with every subset of failing closes",
		Run: runC12,
		Assumptions: []string{
			"the volumes do not change while the archive is open",
		},
		Explain: "the real OpenReader runs on real files in a scratch directory, and on a fault-injecting file system through an in-package bridge",
	})
}

type volRef struct {
	err   bool
	enc   bool
	names []string
	sizes []uint64
	data  [][]byte
	errs  []bool
}

func encOf(err error) bool {
	var re *sevenzip.ReadError
	return errors.As(err, &re) && re.Encrypted
}

func volSnapshot(r *sevenzip.Reader, err error) *volRef {
	s := &volRef{err: err != nil}
	if err != nil {
		s.enc = encOf(err)
		return s
	}
	for _, f := range r.File {
		s.names = append(s.names, f.Name)
		s.sizes = append(s.sizes, f.UncompressedSize)
		if f.UncompressedSize > 1<<20 {
			s.data, s.errs = append(s.data, nil), append(s.errs, true)
			continue
		}
		b, err := extract(f)
		s.data = append(s.data, b)
		s.errs = append(s.errs, err != nil)
	}
	return s
}

func (s *volRef) diff(o *volRef) string {
	switch {
	case s.err != o.err || s.enc != o.enc:
		return fmt.Sprintf("opening failed %v (encrypted %v), want %v (%v)", s.err, s.enc, o.err, o.enc)
	case fmt.Sprint(s.names, s.sizes) != fmt.Sprint(o.names, o.sizes):
		return fmt.Sprintf("listing %v %v, want %v %v", s.names, s.sizes, o.names, o.sizes)
	}
	for i := range s.data {
		if s.errs[i] != o.errs[i] || !bytes.Equal(s.data[i], o.data[i]) {
			return fmt.Sprintf("file %d: %d bytes %s failed %v, want %d bytes %s failed %v", i, len(s.data[i]), hexClip(s.data[i]), s.errs[i], len(o.data[i]), hexClip(o.data[i]), o.errs[i])
		}
	}
	return ""
}

type volDir struct {
	dir  string
	refs map[string]*volRef
}

func newVolDir() *volDir {
	base := os.Getenv("TMPDIR")
	if fi, err := os.Stat("/dev/shm"); err == nil && fi.IsDir() && base == "" {
		if d, err := os.MkdirTemp("/dev/shm", "verifvol"); err == nil {
			return &volDir{d, map[string]*volRef{}}
		}
	}
	d, err := os.MkdirTemp(base, "verifvol")
	die(err)
	return &volDir{d, map[string]*volRef{}}
}

func (v *volDir) close() { _ = os.RemoveAll(v.dir) }

// fds lists the descriptors open on files of the directory.
func (v *volDir) fds() []string {
	l, err := os.ReadDir("/proc/self/fd")
	die(err)
	var out []string
	for _, e := range l {
		if s, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(s, v.dir+"/") {
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return out
}

func (v *volDir) ref(b []byte, pw string) *volRef {
	k := pw + "\x00" + string(b)
	if r, ok := v.refs[k]; ok {
		return r
	}
	if len(v.refs) > 50 {
		v.refs = map[string]*volRef{}
	}
	z, err := open(b, pw)
	r := volSnapshot(z, err)
	v.refs[k] = r
	return r
}

// write puts the parts into volumes (only volumes, the directory has no others left) and returns their paths.
func (v *volDir) write(base string, parts [][]byte) []string {
	var p []string
	for i, b := range parts {
		n := fmt.Sprintf("%s.%03d", filepath.Join(v.dir, base), i+1)
		die(os.WriteFile(n, b, 0o600))
		p = append(p, n)
	}
	return p
}

func (v *volDir) remove(paths []string) {
	for _, p := range paths {
		die(os.Remove(p))
	}
}

func samePaths(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if filepath.Clean(a[i]) != filepath.Clean(b[i]) {
			return false
		}
	}
	return true
}

// check opens name, which has to be equivalent to the concatenation of the given volumes.
func (v *volDir) check(t *T, name string, vols []string, concat []byte, pw string) {
	want := v.ref(concat, pw)
	r, err := sevenzip.OpenReaderWithPassword(name, pw)
	t.Eval(1)
	if err != nil {
		if errors.Is(err, os.ErrClosed) {
			t.Failf("double-release", "%s: a volume is closed twice: %v", filepath.Base(name), err)
		}
		if l := v.fds(); len(l) > 0 {
			t.Failf("leak-failed", "%d volumes still open after opening failed: %v", len(l), l)
		}
		if d := volSnapshot(nil, err).diff(want); d != "" {
			t.Failf("volumes-open", "%s (%d volumes): %v: %s", filepath.Base(name), len(vols), err, d)
		}
		return
	}
	got := volSnapshot(&r.Reader, nil)
	vv := r.Volumes()
	if !samePaths(vv, vols) {
		t.Failf("volumes-list", "Volumes() = %v, want %v", clipL(vv), clipL(vols))
	}
	if l := v.fds(); len(l) > len(vols) {
		t.Failf("volumes-handles", "%d descriptors for %d volumes: %v", len(l), len(vols), clipL(l))
	}
	if err := r.Close(); err != nil {
		t.Failf("close", "Close: %v", err)
	}
	if l := v.fds(); len(l) > 0 {
		t.Failf("leak-close", "%d volumes still open after Close: %v", len(l), clipL(l))
	}
	if d := got.diff(want); d != "" {
		t.Failf("volumes-content", "%s (%d volumes): %s", filepath.Base(name), len(vols), d)
	}
	if err := r.Close(); err == nil && len(vols) > 0 {
		_ = err // closing again is harmless, whatever it reports
	}
	t.Outcome(want.err, len(want.data), len(vols))
	t.Sample(fmt.Sprintf("%d volumes of %d bytes: opens %v, %d files", len(vols), len(concat), !want.err, len(want.data)))
}

func clipL(s []string) []string {
	if len(s) > 8 {
		return append(append([]string{}, s[:4]...), fmt.Sprintf("...(%d)", len(s)))
	}
	return s
}

// fails opens name, which must fail because of want.
func (v *volDir) fails(t *T, name string, want error, what string) {
	r, err := sevenzip.OpenReader(name)
	t.Eval(1)
	if err == nil {
		_ = r.Close()
		t.Failf("unreported", "%s: not reported, %d volumes %v", what, len(r.Volumes()), clipL(r.Volumes()))
	}
	if want != nil && !errors.Is(err, want) {
		t.Failf("unreported", "%s: the error is %v, want %v", what, err, want)
	}
	if errors.Is(err, os.ErrClosed) {
		t.Failf("double-release", "%s: a volume is closed twice: %v", what, err)
	}
	if l := v.fds(); len(l) > 0 {
		t.Failf("leak-failed", "%s: %d volumes still open after opening failed: %v", what, len(l), clipL(l))
	}
}

func cut(b []byte, at ...int) [][]byte {
	var out [][]byte
	p := 0
	for _, a := range at {
		out = append(out, b[p:a])
		p = a
	}
	return append(out, b[p:])
}

func chunks(b []byte, n int) [][]byte {
	var out [][]byte
	for len(b) > n {
		out = append(out, b[:n])
		b = b[n:]
	}
	return append(out, b)
}

type volArch struct {
	name string
	b    []byte
	pw   string
}

func volArchives() []volArch {
	var l []volArch
	small := &Archive{}
	small.AddFolder(Chain(pattern(11, 1), sCopy()), []string{"a", "b"}, []int{5, 6})
	l = append(l, volArch{"copy", small.Build().B, ""})
	enc := &Archive{}
	enc.AddFolder(Chain(text(40, 1), sLZMA(), sAES(aesQuick)), []string{"a", "b"}, []int{5, 35})
	enc.AddFolder(Chain(text(30, 2), sDeflate()), []string{"c"}, []int{30})
	enc.Opts.EncodedCRC = true
	enc.Opts.Encode = func(h []byte) *Folder { return Chain(h, sLZMA(), sAES(aesQuick)) }
	l = append(l, volArch{"encrypted", enc.Build().B, aesQuick.Password})
	multi := &Archive{}
	multi.AddFolder(BCJ2Chain(zooContent(60), func(int) bool { return true }, [4][]Stage{{sLZMA()}, {sDeflate()}, {}, {}}), []string{"x/a", "x/b"}, []int{20, 40})
	multi.AddFolder(Chain(zooContent(60), sZstd()), []string{"x/c", "d"}, []int{59, 1})
	multi.Entries = append(multi.Entries, Entry{Name: "empty", EmptyFile: true})
	l = append(l, volArch{"multi", multi.Build().B, ""})
	stub := append(pattern(37, 9), small.Build().B...)
	l = append(l, volArch{"stub", append(stub, "trailing"...), ""})
	return l
}

func runC12(e *Env) {
	if e.only < 0 || e.shards > 0 {
		debug.SetGCPercent(-1) // a leaked file must not be closed by its finalizer before it is counted
	}
	v := newVolDir()
	defer v.close()
	archs := volArchives()

	e.Group("split into two volumes")
	all := append([]volArch{}, archs...)
	for _, z := range methodZoo() {
		a := &Archive{}
		d := zooContent(48)
		a.AddFolder(z.mk(d), []string{"p", "q"}, []int{17, 31})
		all = append(all, volArch{z.name, a.Build().B, z.pw})
	}
	for _, a := range all {
		for _, r := range splitRange(len(a.b)+1, 64) {
			e.Case(func() string { return fmt.Sprintf("%s cut once at %d..%d", a.name, r[0], r[1]) }, func(t *T) {
				for i := r[0]; i < r[1]; i++ {
					p := v.write("a.7z", cut(a.b, i))
					v.check(t, p[0], p, a.b, a.pw)
					v.remove(p)
				}
			})
		}
	}

	e.Group("split into three volumes")
	for ai, a := range archs {
		for i := 0; i <= len(a.b); i++ {
			e.Case(func() string { return fmt.Sprintf("%s cut at %d and everywhere after", a.name, i) }, func(t *T) {
				for j := i; j <= len(a.b); j++ {
					if e.Quick() && ai > 0 && (i+j)%3 != 0 && j > i {
						continue
					}
					p := v.write("a.7z", cut(a.b, i, j))
					v.check(t, p[0], p, a.b, a.pw)
					v.remove(p)
				}
			})
		}
	}

	e.Group("equal volumes of every size")
	for _, a := range all {
		for n := 1; n <= len(a.b); n++ {
			e.Case(func() string { return fmt.Sprintf("%s in volumes of %d bytes", a.name, n) }, func(t *T) {
				p := v.write("a.7z", chunks(a.b, n))
				v.check(t, p[0], p, a.b, a.pw)
				v.remove(p)
			})
		}
	}

	e.Group("empty volumes")
	a0 := archs[0]
	for m := range 1 << 6 {
		e.Case(func() string { return fmt.Sprintf("six cuts, empty volumes at %06b", m) }, func(t *T) {
			var parts [][]byte
			full := chunks(a0.b, (len(a0.b)+5)/6)
			for k := range 6 {
				if m>>k&1 == 1 {
					parts = append(parts, nil)
				}
				if k < len(full) {
					parts = append(parts, full[k])
				}
			}
			p := v.write("a.7z", parts)
			v.check(t, p[0], p, a0.b, a0.pw)
			v.remove(p)
		})
	}

	e.Group("large volumes")
	big := &Archive{}
	bd := append(text(70000, 3), pattern(70000, 4)...)
	big.AddFolder(Chain(bd, sCopy()), names(3), []int{50000, 40000, 50000})
	big.AddFolder(Chain(bd, sLZMA2()), []string{"z"}, []int{len(bd)})
	bb := big.Build().B
	for _, n := range []int{4095, 4096, 4097, 8192, 32768, 65536, 100000, 1 << 20} {
		e.Case(func() string { return fmt.Sprintf("large archive in volumes of %d bytes", n) }, func(t *T) {
			p := v.write("big.7z", chunks(bb, n))
			v.check(t, p[0], p, bb, "")
			v.remove(p)
		})
	}

	hugeVolumes(e, v)

	e.Group("more than 999 volumes")
	for _, n := range []int{998, 999, 1000, 1001, 1005, 1100} {
		e.Case(func() string { return fmt.Sprintf("%d volumes", n) }, func(t *T) {
			var lim syscall.Rlimit
			_ = syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim)
			if lim.Cur < 1300 {
				e.Note(fmt.Sprintf("the descriptor limit is %d: 999 volumes not explored on disk", lim.Cur))
				return
			}
			a := &Archive{}
			a.AddFolder(Chain(pattern(n, 5), sCopy()), names(2), []int{n - 10, 10})
			b := a.Build().B
			parts := chunks(b, 1)
			if len(parts) < n {
				t.Failf("harness", "archive of %d bytes", len(b))
			}
			parts = append(append([][]byte{}, parts[:n-1]...), bytes.Join(parts[n-1:], nil))
			p := v.write("a.7z", parts)
			v.check(t, p[0], p, b, "")
			v.remove(p)
		})
	}

	e.Group("damaged archives")
	for _, a := range archs {
		for n := 0; n <= len(a.b); n++ {
			e.Case(func() string { return fmt.Sprintf("%s cut short to %d bytes", a.name, n) }, func(t *T) {
				for _, c := range []int{7, 33, 100} {
					p := v.write("a.7z", chunks(a.b[:n], c))
					v.check(t, p[0], p, a.b[:n], a.pw)
					v.remove(p)
				}
			})
		}
		for i := range a.b {
			e.Case(func() string { return fmt.Sprintf("%s byte %d altered", a.name, i) }, func(t *T) {
				b := bytes.Clone(a.b)
				b[i] ^= 0x21
				for _, c := range []int{13, 50} {
					p := v.write("a.7z", chunks(b, c))
					v.check(t, p[0], p, b, a.pw)
					v.remove(p)
				}
			})
		}
		e.Case(func() string { return a.name + " with another password" }, func(t *T) {
			p := v.write("a.7z", chunks(a.b, 20))
			v.check(t, p[0], p, a.b, "another")
			v.check(t, p[0], p, a.b, "")
			v.remove(p)
		})
	}

	e.Group("missing volumes")
	for n := 1; n <= 6; n++ {
		parts := chunks(a0.b, (len(a0.b)+n-1)/n)
		for m := range 1 << len(parts) {
			e.Case(func() string { return fmt.Sprintf("%d volumes, those missing are %b", len(parts), m) }, func(t *T) {
				p := v.write("a.7z", parts)
				var left, used []string
				var concat []byte
				gap := false
				for i := range p {
					if m>>i&1 == 1 {
						die(os.Remove(p[i]))
						gap = true
						continue
					}
					left = append(left, p[i])
					if !gap {
						used = append(used, p[i])
						concat = append(concat, parts[i]...)
					}
				}
				if m&1 == 1 {
					v.fails(t, p[0], iofs.ErrNotExist, "first volume missing")
				} else {
					v.check(t, p[0], used, concat, "")
				}
				v.remove(left)
			})
		}
	}
	// A complete archive in the first volumes, with unrelated ones after a gap
	for gap := 2; gap <= 6; gap++ {
		e.Case(func() string { return fmt.Sprintf("unrelated volumes after a gap at %d", gap) }, func(t *T) {
			p := v.write("a.7z", chunks(a0.b, (len(a0.b)+gap-2)/(gap-1)))
			x := fmt.Sprintf("%s.%03d", filepath.Join(v.dir, "a.7z"), len(p)+2)
			die(os.WriteFile(x, []byte("unrelated"), 0o600))
			v.check(t, p[0], p, a0.b, "")
			v.remove(append(p, x))
		})
	}

	e.Group("names")
	for _, base := range []string{"a", "a.7z", "a.001", "001", ".hidden", "a b", "a%d", "a%%03d", "a.7z.exe", "ä\u4e2d", "a.002", ".7z", "a.", strings.Repeat("n", 200), "a\nb", "-x", "a.1", "100%"} {
		for _, shape := range []string{"%s", "./%s", "x/../%s", "x/./../x/%s", ".//%s", "ABS", "ABS2"} {
			e.Case(func() string { return fmt.Sprintf("base name %q opened as %s", base, shape) }, func(t *T) {
				cwd, err := os.Getwd()
				die(err)
				die(os.Chdir(v.dir))
				defer func() { die(os.Chdir(cwd)) }()
				die(os.MkdirAll(filepath.Join(v.dir, "x"), 0o700))
				dir := ""
				if strings.HasPrefix(shape, "x/./") {
					dir = "x/"
				}
				parts := cut(a0.b, 40, 41, 80)
				p := v.write(dir+base, parts)
				name := filepath.Base(p[0])
				var open string
				switch shape {
				case "ABS":
					open = p[0]
				case "ABS2":
					open = v.dir + "/x/../" + name
				default:
					open = strings.Replace(shape, "%s", name, 1)
				}
				// the names returned lead to the volumes
				want := v.ref(a0.b, "")
				r, err := sevenzip.OpenReader(open)
				t.Eval(1)
				if err != nil {
					t.Failf("names", "%q: %v", open, err)
				}
				defer r.Close()
				vv := r.Volumes()
				if len(vv) != len(p) {
					t.Failf("volumes-list", "%q: %d volumes %v", open, len(vv), vv)
				}
				for i := range p {
					x, err1 := os.Stat(vv[i])
					y, err2 := os.Stat(p[i])
					if err1 != nil || err2 != nil || !os.SameFile(x, y) {
						t.Failf("volumes-list", "%q: volume %d is called %q (%v)", open, i, vv[i], err1)
					}
				}
				if d := volSnapshot(&r.Reader, nil).diff(want); d != "" {
					t.Failf("volumes-content", "%q: %s", open, d)
				}
				v.remove(p)
			})
		}
	}
	// not a first volume: no other file is used
	for _, name := range []string{"a.7z", "a.7z.002", "a.7z.0001", "a.7z.0010", "a.001x", "a", "001", "a001", "a.7z.01", "a.7z.1", "a.100", "a.7z.000"} {
		e.Case(func() string { return fmt.Sprintf("single file %q", name) }, func(t *T) {
			p := []string{filepath.Join(v.dir, name)}
			var extra []string
			for _, b := range []string{"a", "a.7z", strings.TrimSuffix(name, filepath.Ext(name)), name} {
				for i := range 4 {
					x := fmt.Sprintf("%s.%03d", filepath.Join(v.dir, b), i)
					if x == p[0] {
						continue
					}
					if _, err := os.Stat(x); err != nil {
						die(os.WriteFile(x, []byte("unrelated"), 0o600))
						extra = append(extra, x)
					}
				}
			}
			die(os.WriteFile(p[0], a0.b, 0o600))
			v.check(t, p[0], p, a0.b, "")
			die(os.WriteFile(p[0], a0.b[:60], 0o600))
			v.check(t, p[0], p, a0.b[:60], "")
			v.remove(append(p, extra...))
		})
	}

	e.Group("volumes that cannot be opened")
	for n := 1; n <= 5; n++ {
		for k := 1; k <= n+1; k++ {
			parts := chunks(a0.b, (len(a0.b)+n-1)/n)
			name := func(i int) string { return fmt.Sprintf("%s.%03d", filepath.Join(v.dir, "a.7z"), i) }
			put := func(skip int) (l []string) {
				for i := range parts {
					if i+1 != skip {
						die(os.WriteFile(name(i+1), parts[i], 0o600))
						l = append(l, name(i+1))
					}
				}
				return
			}
			e.Case(func() string { return fmt.Sprintf("%d volumes, %d is a symlink loop", n, k) }, func(t *T) {
				l := put(k)
				die(os.Symlink(name(k), name(k)))
				v.fails(t, name(1), syscall.ELOOP, fmt.Sprintf("volume %d a symlink loop", k))
				v.remove(append(l, name(k)))
			})
			e.Case(func() string { return fmt.Sprintf("%d volumes, %d is a dangling symlink", n, k) }, func(t *T) {
				l := put(k)
				die(os.Symlink(v.dir+"/nowhere", name(k)))
				if k == 1 {
					v.fails(t, name(1), iofs.ErrNotExist, "first volume dangling")
				} else {
					v.check(t, name(1), l[:k-1], bytes.Join(parts[:k-1], nil), "")
				}
				v.remove(append(l, name(k)))
			})
			e.Case(func() string { return fmt.Sprintf("%d volumes, %d is a symlink", n, k) }, func(t *T) {
				if k > n {
					return
				}
				l := put(0)
				die(os.Rename(name(k), v.dir+"/elsewhere"))
				die(os.Symlink(v.dir+"/elsewhere", name(k)))
				v.check(t, name(1), l, a0.b, "")
				v.remove(append(l, v.dir+"/elsewhere"))
			})
			e.Case(func() string { return fmt.Sprintf("%d volumes, %d is a path below a file", n, k) }, func(t *T) {
				l := put(k)
				die(os.WriteFile(v.dir+"/plain", nil, 0o600))
				die(os.Symlink(v.dir+"/plain/x", name(k)))
				v.fails(t, name(1), syscall.ENOTDIR, fmt.Sprintf("volume %d below a file", k))
				v.remove(append(l, name(k), v.dir+"/plain"))
			})
			e.Case(func() string { return fmt.Sprintf("%d volumes, %d is a directory", n, k) }, func(t *T) {
				l := put(k)
				die(os.Mkdir(name(k), 0o700))
				// a directory can be opened and inspected, but not be read
				r, err := sevenzip.OpenReader(name(1))
				t.Eval(1)
				if err == nil {
					if k <= n {
						for i, f := range r.File {
							if b, err := extract(f); err == nil && !bytes.Equal(b, v.ref(a0.b, "").data[i]) {
								t.Failf("volumes-content", "volume %d is a directory: file %d reads as %s", k, i, hexClip(b))
							}
						}
					}
					if err := r.Close(); err != nil {
						t.Failf("close", "Close: %v", err)
					}
				}
				if l := v.fds(); len(l) > 0 {
					t.Failf("leak-close", "volumes still open: %v", l)
				}
				v.remove(append(l, name(k)))
			})
			e.Case(func() string { return fmt.Sprintf("%d volumes, no descriptor left for %d", n, k) }, func(t *T) {
				if k > n {
					return
				}
				l := put(0)
				_, _ = os.Stat(l[0])
				if f, err := os.Open(l[0]); err == nil { // sets up the runtime's poller
					f.Close()
				}
				var lim syscall.Rlimit
				die(syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim))
				low := lim
				low.Cur = uint64(freeFD(k - 1))
				die(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &low))
				r, err := sevenzip.OpenReader(name(1))
				die(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim))
				t.Eval(1)
				if err == nil {
					vv := r.Volumes()
					_ = r.Close()
					t.Failf("unreported", "no descriptor left for volume %d of %d: not reported, volumes %v", k, n, vv)
				}
				if !errors.Is(err, syscall.EMFILE) || errors.Is(err, os.ErrClosed) {
					t.Failf("unreported", "no descriptor left for volume %d of %d: %v", k, n, err)
				}
				if l := v.fds(); len(l) > 0 {
					t.Failf("leak-failed", "%d volumes still open: %v", len(l), l)
				}
				v.check(t, name(1), l, a0.b, "")
				v.remove(l)
			})
		}
	}
	// the archive itself cannot be opened although all volumes can
	for n := 1; n <= 5; n++ {
		for _, bad := range [][]byte{nil, []byte("7z"), pattern(200, 3), append(bytes.Clone(a0.b[:len(a0.b)-3]), 0, 0, 0), archs[1].b} {
			e.Case(func() string { return fmt.Sprintf("%d volumes of %d bytes that are no archive", n, len(bad)) }, func(t *T) {
				p := v.write("a.7z", chunks(bad, max(1, (len(bad)+n-1)/n)))
				for range 3 {
					v.check(t, p[0], p, bad, "wrong")
				}
				v.remove(p)
			})
		}
	}

	runC12Mock(e)
}

// freeFD returns the number of the k-th (from 0) unused descriptor.
func freeFD(k int) int {
	l, err := os.ReadDir("/proc/self/fd")
	die(err)
	used := map[int]bool{}
	for _, e := range l {
		n, _ := strconv.Atoi(e.Name())
		if _, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil {
			used[n] = true
		}
	}
	for n := 0; ; n++ {
		if !used[n] {
			if k == 0 {
				return n
			}
			k--
		}
	}
}

var _ = io.EOF
