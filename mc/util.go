package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/bodgit/sevenzip"
)

// open parses archive bytes.
func open(b []byte, pw string) (*sevenzip.Reader, error) {
	return sevenzip.NewReaderWithPassword(bytes.NewReader(b), int64(len(b)), pw)
}

// readBounded reads until an error, at most limit bytes; a reader that makes no progress is reported.
func readBounded(r io.Reader, limit int) ([]byte, error) {
	var out []byte
	buf := make([]byte, 4096)
	zero := 0
	for {
		n, err := r.Read(buf)
		if n < 0 || n > len(buf) {
			return out, fmt.Errorf("Read returned n=%d for a %d byte buffer", n, len(buf))
		}
		out = append(out, buf[:n]...)
		if err != nil {
			if err == io.EOF { //nolint:errorlint // io.Reader contract: bare io.EOF
				return out, nil
			}
			return out, err
		}
		if len(out) > limit {
			return out, errors.New("more data than recorded")
		}
		if n == 0 {
			zero++
			if zero > 100 {
				return out, errNoProgress
			}
		} else {
			zero = 0
		}
	}
}

var errNoProgress = errors.New("reader makes no progress")

// extract opens and reads one file completely.
func extract(f *sevenzip.File) ([]byte, error) {
	rc, err := f.Open()
	if err != nil {
		return nil, err
	}
	b, err := readBounded(rc, int(f.UncompressedSize))
	cerr := rc.Close()
	if err == nil {
		err = cerr
	}
	return b, err
}

// wantAll checks that every file with data extracts to its bytes, in order.
func wantAll(t *T, r *sevenzip.Reader, entries []Entry) {
	if len(r.File) != len(entries) {
		t.Failf("list", "%d files listed, want %d", len(r.File), len(entries))
	}
	for i, e := range entries {
		b, err := extract(r.File[i])
		if err != nil {
			t.Failf("extract-error", "file %d (%q, %d bytes): %v after %d bytes", i, e.Name, len(e.Data), err, len(b))
		}
		if !bytes.Equal(b, e.Data) {
			t.Failf("content", "file %d (%q): got %d bytes %s, want %d bytes %s (first difference at %d)", i, e.Name, len(b), hexClip(b), len(e.Data), hexClip(e.Data), diffAt(b, e.Data))
		}
	}
}

func diffAt(a, b []byte) int {
	for i := range min(len(a), len(b)) {
		if a[i] != b[i] {
			return i
		}
	}
	return min(len(a), len(b))
}

func hexClip(b []byte) string {
	if len(b) > 48 {
		return fmt.Sprintf("%x...(%d)", b[:48], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// pattern yields n deterministic, not very regular bytes.
func pattern(n int, seed uint32) []byte {
	b := make([]byte, n)
	x := seed*2654435761 + 12345
	for i := range b {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		b[i] = byte(x >> 8)
	}
	return b
}

// text yields n bytes of compressible text.
func text(n int, seed int) []byte {
	w := []string{"alpha ", "beta ", "gamma\n", "delta-", "7z ", "seven", "zip "}
	var b []byte
	for i := seed; len(b) < n; i++ {
		b = append(b, w[(i*i+i/3)%len(w)]...)
	}
	return b[:n]
}

// forStrings enumerates all strings of length n over the alphabet.
func forStrings(alpha []byte, n int, f func(s []byte) bool) {
	s := make([]byte, n)
	idx := make([]int, n)
	for {
		for i := range s {
			s[i] = alpha[idx[i]]
		}
		if !f(s) {
			return
		}
		i := n - 1
		for i >= 0 {
			idx[i]++
			if idx[i] < len(alpha) {
				break
			}
			idx[i] = 0
			i--
		}
		if i < 0 {
			return
		}
	}
}

// forProduct enumerates all index vectors below the given bounds.
func forProduct(dims []int, f func(v []int)) {
	v := make([]int, len(dims))
	for _, d := range dims {
		if d == 0 {
			return
		}
	}
	for {
		f(v)
		i := len(dims) - 1
		for i >= 0 {
			v[i]++
			if v[i] < dims[i] {
				break
			}
			v[i] = 0
			i--
		}
		if i < 0 {
			return
		}
	}
}

// compositions enumerates all ordered ways to write n as a sum of positive parts.
func compositions(n int, f func(parts []int)) {
	for m := range 1 << max(0, n-1) {
		var parts []int
		cur := 1
		for i := range n - 1 {
			if m>>i&1 == 1 {
				parts = append(parts, cur)
				cur = 1
			} else {
				cur++
			}
		}
		if n > 0 {
			parts = append(parts, cur)
		}
		f(parts)
	}
}

func names(n int) []string {
	s := make([]string, n)
	for i := range s {
		s[i] = fmt.Sprintf("f%d", i)
	}
	return s
}
