//go:build !nobridge

package main

import (
	"encoding/binary"
	"errors"
	"io"

	"github.com/bodgit/sevenzip"
)

var errOutOfBounds = errors.New("harness: beyond the explored bounds")

// limitDecoders refuses dictionaries and key strengths beyond the explored bounds before the real decoder sees them.
func limitDecoders() bool {
	wrap := func(id []byte, ok func(p []byte) bool) {
		d := sevenzip.VerifDecompressor(id)
		sevenzip.RegisterDecompressor(id, func(p []byte, n uint64, in []io.ReadCloser) (io.ReadCloser, error) {
			if !ok(p) {
				return nil, errOutOfBounds
			}
			return d(p, n, in)
		})
	}
	const limit = 32 << 20
	wrap(idLZMA, func(p []byte) bool { return len(p) < 5 || binary.LittleEndian.Uint32(p[1:]) <= limit })
	wrap(idPPMD, func(p []byte) bool { return len(p) < 5 || binary.LittleEndian.Uint32(p[1:]) <= limit })
	wrap(idLZMA2, func(p []byte) bool { return len(p) < 1 || p[0] < 26 || p[0] > 40 })
	wrap(idAES, func(p []byte) bool { return len(p) < 1 || p[0]&0x3f <= 10 || p[0]&0x3f > 24 })
	return true
}
