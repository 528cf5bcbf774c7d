package sevenzip

import (
	"io"

	"github.com/spf13/afero"
)

// VerifOpenReader exposes openReader to the harness (overlay only).
func VerifOpenReader(fs afero.Fs, name string) (io.ReaderAt, int64, []afero.File, error) {
	return openReader(fs, name)
}

// VerifDecompressor returns what is registered for a method.
func VerifDecompressor(method []byte) Decompressor { return decompressor(method) }

// VerifReadCloser returns a ReadCloser of the volumes, which has no content.
func VerifReadCloser(files []afero.File) *ReadCloser { return &ReadCloser{f: files} }
