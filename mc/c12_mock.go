//go:build !nobridge

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	iofs "io/fs"
	"os"
	"path/filepath"
	"strconv"
	"syscall"

	"github.com/bodgit/sevenzip"
	"github.com/spf13/afero"
)

// mockFs records what happens to the volumes and injects faults.
type mockFs struct {
	afero.Fs
	vols  [][]byte
	base  string
	open  map[int]error
	stat  map[int]error
	close map[int]error
	files []*mockFile
	names []string
}

type mockFile struct {
	afero.File
	fs     *mockFs
	vol    int
	name   string
	closed int
}

type mockInfo struct {
	iofs.FileInfo
	n int64
}

func (i mockInfo) Size() int64         { return i.n }
func (i mockInfo) IsDir() bool         { return false }
func (i mockInfo) Mode() iofs.FileMode { return 0o600 }

func (m *mockFs) volume(name string) int {
	ext := filepath.Ext(name)
	if name != m.base+ext || len(ext) < 4 {
		return 0
	}
	n, err := strconv.Atoi(ext[1:])
	if err != nil || fmt.Sprintf(".%03d", n) != ext {
		return 0
	}
	return n
}

func (m *mockFs) Open(name string) (afero.File, error) {
	m.names = append(m.names, name)
	v := m.volume(name)
	if err := m.open[v]; err != nil {
		return nil, err
	}
	if v < 1 || v > len(m.vols) {
		return nil, &iofs.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
	}
	f := &mockFile{fs: m, vol: v, name: name}
	m.files = append(m.files, f)
	return f, nil
}

func (m *mockFs) OpenFile(name string, flag int, _ os.FileMode) (afero.File, error) {
	if flag != os.O_RDONLY {
		return nil, iofs.ErrPermission
	}
	return m.Open(name)
}

func (m *mockFs) Stat(name string) (os.FileInfo, error) {
	v := m.volume(name)
	if err := m.stat[v]; err != nil {
		return nil, err
	}
	if v < 1 || v > len(m.vols) {
		return nil, &iofs.PathError{Op: "stat", Path: name, Err: syscall.ENOENT}
	}
	return mockInfo{n: int64(len(m.vols[v-1]))}, nil
}

func (m *mockFs) Name() string { return "mock" }

func (f *mockFile) Name() string { return f.name }
func (f *mockFile) Stat() (os.FileInfo, error) {
	if err := f.fs.stat[f.vol]; err != nil {
		return nil, err
	}
	return mockInfo{n: int64(len(f.fs.vols[f.vol-1]))}, nil
}

func (f *mockFile) Close() error {
	f.closed++
	return f.fs.close[f.vol]
}

func (f *mockFile) ReadAt(p []byte, off int64) (int, error) {
	if f.closed > 0 {
		return 0, os.ErrClosed
	}
	return bytes.NewReader(f.fs.vols[f.vol-1]).ReadAt(p, off)
}

func (f *mockFile) Seek(off int64, whence int) (int64, error) {
	n := int64(len(f.fs.vols[f.vol-1]))
	if whence == io.SeekEnd {
		return n + off, f.fs.stat[f.vol]
	}
	return off, nil
}

type volFault struct {
	name string
	err  error
}

func runC12Mock(e *Env) {
	absent := []volFault{
		{"ENOENT", &iofs.PathError{Op: "open", Path: "x", Err: syscall.ENOENT}},
		{"ErrNotExist", iofs.ErrNotExist},
		{"wrapped ErrNotExist", fmt.Errorf("mock: %w", iofs.ErrNotExist)},
		{"joined ErrNotExist", errors.Join(errInjected, os.ErrNotExist)},
	}
	faults := []volFault{
		{"error", errInjected},
		{"EACCES", &iofs.PathError{Op: "open", Path: "x", Err: syscall.EACCES}},
		{"EMFILE", &iofs.PathError{Op: "open", Path: "x", Err: syscall.EMFILE}},
		{"EOF", io.EOF},
		{"ErrExist", iofs.ErrExist},
		{"ErrClosed", iofs.ErrClosed},
		{"ErrInvalid", iofs.ErrInvalid},
		{"ENOTDIR", &iofs.PathError{Op: "open", Path: "x", Err: syscall.ENOTDIR}},
		{"EIO", syscall.EIO},
	}
	errClose := errors.New("injected close error")
	mk := func(n int) *mockFs {
		m := &mockFs{base: "dir/arc.7z"}
		for i := range n {
			m.vols = append(m.vols, pattern(3+2*i, uint32(i)))
		}
		return m
	}
	// failed checks an open that has to fail with want
	failed := func(t *T, m *mockFs, want error, what string) {
		r, _, fs, err := sevenzip.VerifOpenReader(m, m.base+".001")
		t.Eval(1)
		if err == nil || r != nil && len(fs) > 0 && err == nil {
			t.Failf("unreported", "%s: not reported (%d volumes)", what, len(fs))
		}
		if !errors.Is(err, want) {
			t.Failf("unreported", "%s: reported as %v", what, err)
		}
		for _, f := range m.files {
			if f.closed != 1 {
				t.Failf("released", "%s: volume %d closed %d times", what, f.vol, f.closed)
			}
		}
		t.Outcome(what, len(m.files))
	}
	closeMasks := func(m *mockFs, n, mask int) {
		m.close = map[int]error{}
		for i := range n {
			if mask>>i&1 == 1 {
				m.close[i+1] = errClose
			}
		}
	}

	e.Group("faults of opening, inspecting and closing volumes")
	maxN := 5
	if !e.Quick() {
		maxN = 9
	}
	for n := 1; n <= maxN; n++ {
		for k := 1; k <= n+1; k++ {
			for _, f := range faults {
				e.Case(func() string { return fmt.Sprintf("%d volumes, %s opening or inspecting %d", n, f.name, k) }, func(t *T) {
					for mask := range 1 << n {
						m := mk(n)
						closeMasks(m, n, mask)
						m.open = map[int]error{k: f.err}
						failed(t, m, f.err, fmt.Sprintf("%s opening volume %d of %d", f.name, k, n))
						if k <= n {
							m = mk(n)
							closeMasks(m, n, mask)
							m.stat = map[int]error{k: f.err}
							failed(t, m, f.err, fmt.Sprintf("%s inspecting volume %d of %d", f.name, k, n))
						}
					}
				})
			}
			for _, f := range absent {
				e.Case(func() string { return fmt.Sprintf("%d volumes, %s at %d", n, f.name, k) }, func(t *T) {
					m := mk(n)
					m.open = map[int]error{k: f.err}
					if k == 1 {
						failed(t, m, f.err, f.name+" opening the first volume")
					} else {
						mockSound(t, m, k-1)
					}
					if k <= n { // a volume that is there but cannot be inspected
						m = mk(n)
						m.stat = map[int]error{k: f.err}
						failed(t, m, f.err, fmt.Sprintf("%s inspecting volume %d of %d", f.name, k, n))
					}
				})
			}
		}
	}

	e.Group("closing")
	for n := 1; n <= 10; n++ {
		for mask := range 1 << n {
			e.Case(func() string { return fmt.Sprintf("%d volumes, closing fails for %b", n, mask) }, func(t *T) {
				m := mk(n)
				closeMasks(m, n, mask)
				_, _, fs, err := sevenzip.VerifOpenReader(m, m.base+".001")
				if err != nil {
					t.Failf("mock-open", "%v", err)
				}
				rc := sevenzip.VerifReadCloser(fs)
				err = rc.Close()
				t.Eval(1)
				if (err != nil) != (mask != 0) || err != nil && !errors.Is(err, errClose) {
					t.Failf("close-unreported", "%d volumes, closing %b fails: Close() = %v", n, mask, err)
				}
				for _, f := range m.files {
					if f.closed != 1 {
						t.Failf("released", "volume %d closed %d times, closing %b fails", f.vol, f.closed, mask)
					}
				}
				vv := rc.Volumes()
				if len(vv) != n {
					t.Failf("volumes-list", "%v", vv)
				}
			})
		}
	}

	e.Group("sizes of volumes, all ranges read")
	for n := 1; n <= 4; n++ {
		dims := make([]int, n)
		for i := range dims {
			dims[i] = 4
		}
		forProduct(dims, func(s []int) {
			s = append([]int{}, s...)
			e.Case(func() string { return fmt.Sprintf("volumes of %v bytes", s) }, func(t *T) {
				m := &mockFs{base: "arc"}
				for i, k := range s {
					m.vols = append(m.vols, pattern(k, uint32(i)))
				}
				mockSound(t, m, n)
			})
		})
	}
	for _, n := range []int{9, 10, 11, 99, 100, 101, 998, 999, 1000, 1001, 1234, 10001} {
		e.Case(func() string { return fmt.Sprintf("%d volumes", n) }, func(t *T) {
			m := &mockFs{base: "arc"}
			for i := range n {
				m.vols = append(m.vols, []byte{byte(i * 7)})
			}
			mockSound(t, m, n)
		})
	}
}

// mockSound opens the volumes, of which the first n are to be used.
func mockSound(t *T, m *mockFs, n int) {
	r, size, fs, err := sevenzip.VerifOpenReader(m, m.base+".001")
	t.Eval(1)
	if err != nil {
		t.Failf("mock-open", "%v", err)
	}
	var concat []byte
	for _, b := range m.vols[:n] {
		concat = append(concat, b...)
	}
	if size != int64(len(concat)) || len(fs) != n {
		t.Failf("mock-size", "%d volumes of %d bytes, want %d of %d", len(fs), size, n, len(concat))
	}
	for i, f := range fs {
		if m.volume(filepath.Clean(f.Name())) != i+1 {
			t.Failf("volumes-list", "volume %d is %q", i, f.Name())
		}
	}
	for _, f := range m.files {
		if f.closed != 0 {
			t.Failf("released", "volume %d closed while in use", f.vol)
		}
	}
	L := len(concat)
	step := max(1, L/40)
	for off := 0; off <= L; off += step {
		for end := off; end <= L+1; end += step {
			p := make([]byte, end-off)
			k, err := r.ReadAt(p, int64(off))
			want := concat[off:min(end, L)]
			if k != len(want) || !bytes.Equal(p[:k], want) || (end > L) != (err != nil) && k < len(p) {
				t.Failf("mock-read", "ReadAt(%d, %d) = %x, %v, want %x", len(p), off, p[:k], err, want)
			}
			t.Trans(1)
		}
	}
}
