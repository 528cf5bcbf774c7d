package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/klauspost/compress/flate"
)

// Streams that a compressor working in pieces writes: frames, chunks or blocks one after another.

// inPieces cuts b into n pieces, of which the lens may differ; empty ones included if there is little.
func inPieces(b []byte, n int) [][]byte {
	var out [][]byte
	for i := range n {
		lo, hi := len(b)*i*i/(n*n), len(b)*(i+1)*(i+1)/(n*n)
		out = append(out, b[lo:hi])
	}
	return out
}

type pieceMethod struct {
	name string
	mk   func(parts [][]byte) (Coder, []byte)
}

func skippable(nibble, n int) []byte {
	h := u32(0x184d2a50 + uint32(nibble))
	h = append(h, u32(uint32(n))...)
	return append(h, pattern(n, 7)...)
}

func pieceMethods() []pieceMethod {
	frames := func(name string, s Stage, before func(c []byte) []byte, after []byte) pieceMethod {
		return pieceMethod{name, func(parts [][]byte) (Coder, []byte) {
			var out []byte
			var c Coder
			for _, p := range parts {
				var d []byte
				c, d = s.Enc(p)
				out = append(append(out, before(d)...), d...)
			}
			return c, append(out, after...)
		}}
	}
	none := func([]byte) []byte { return nil }
	mt := func(d []byte) []byte { // what the multi-threaded wrapper writes
		return append(append(u32(0x184d2a50), u32(4)...), u32(uint32(len(d)))...)
	}
	var l []pieceMethod
	for _, s := range []Stage{sZstd(), sLZ4()} {
		l = append(l, frames(s.Name+", frames", s, none, nil),
			frames(s.Name+", frames with sizes", s, mt, nil),
			frames(s.Name+", frames and skippable ones", s, func(d []byte) []byte { return skippable(len(d)&15, len(d)%300) }, nil),
			frames(s.Name+", ending in a skippable frame", s, none, skippable(3, 9)))
	}
	l = append(l, pieceMethod{"brotli, frames with sizes", func(parts [][]byte) (Coder, []byte) {
		var out []byte
		var c Coder
		for _, p := range parts {
			var d []byte
			c, d = sBrotli(true).Enc(p)
			out = append(out, d...)
		}
		return c, out
	}})
	l = append(l, pieceMethod{"lzma2, independent chunks", func(parts [][]byte) (Coder, []byte) {
		var out []byte
		var c Coder
		for _, p := range parts {
			var d []byte
			c, d = sLZMA2().Enc(p)
			if len(d) == 0 || d[len(d)-1] != 0 {
				panic("harness: lzma2 without an end")
			}
			out = append(out, d[:len(d)-1]...)
		}
		return c, append(out, 0)
	}})
	l = append(l, pieceMethod{"lzma2, stored chunks", func(parts [][]byte) (Coder, []byte) {
		var out []byte
		ctl := byte(1)
		for _, p := range parts {
			for len(p) > 0 {
				n := min(len(p), 1<<16)
				out = append(out, ctl)
				out = binary.BigEndian.AppendUint16(out, uint16(n-1))
				out = append(out, p[:n]...)
				p, ctl = p[n:], 2
			}
		}
		return Coder{ID: idLZMA2, Props: []byte{8}}, append(out, 0)
	}})
	for _, lv := range []int{0, 1, 6, 9, -2} {
		l = append(l, pieceMethod{fmt.Sprintf("deflate, blocks of level %d", lv), func(parts [][]byte) (Coder, []byte) {
			var b bytes.Buffer
			w := must(flate.NewWriter(&b, lv))
			for _, p := range parts {
				_ = must(w.Write(p))
				must0(w.Flush())
			}
			must0(w.Close())
			return Coder{ID: idDeflate}, b.Bytes()
		}})
	}
	return l
}

func runPieces(e *Env) {
	e.Group("pieces")
	for _, m := range pieceMethods() {
		for _, n := range []int{1, 2, 3, 5} {
			e.Case(func() string { return fmt.Sprintf("%s: %d pieces", m.name, n) }, func(t *T) {
				for _, size := range []int{0, 1, 2, 3, 20, 100, 4095, 4096, 4097, 20000, 65535, 65536, 65537, 150000, 300000} {
					for kind := range 2 {
						d := text(size, 3)
						if kind == 1 {
							d = pattern(size, 3)
						}
						st := Stage{m.name, func(in []byte) (Coder, []byte) { return m.mk(inPieces(in, n)) }}
						single(t, Chain(d, st), "")
						if size == 20000 {
							single(t, Chain(d, sBCJ(), st, sAES(aesQuick)), "pa55")
							a := &Archive{}
							a.AddFolder(Chain(d, st), names(3), []int{5000, 1, 14999})
							roundTrip(t, a, "")
						}
					}
				}
			})
		}
	}
}
