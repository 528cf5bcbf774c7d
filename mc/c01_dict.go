package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/bits"
	"runtime/debug"

	"github.com/andybalholm/brotli"
	"github.com/bodgit/sevenzip"
	"github.com/klauspost/compress/zstd"
	"github.com/pierrec/lz4/v4"
)

// match refers to n (2 to 273) bytes that begin dist bytes back.  dist has to be more than 127.
func (l *lzmaRuns) match(dist uint32, n int, last byte) {
	init := func(p []uint32) {
		if len(p) > 0 && p[0] == 0 {
			for i := range p {
				p[i] = 1024
			}
		}
	}
	for _, p := range [][]uint32{l.mChoice[:], l.mLow[:], l.mMid[:], l.mHigh[:], l.slot[0][:], l.slot[1][:], l.slot[2][:], l.slot[3][:], l.align[:]} {
		init(p)
	}
	l.e.bit(&l.isMatch[l.state], true)
	l.e.bit(&l.isRep[l.state], false)
	n -= 2
	l.e.bit(&l.mChoice[0], n >= 8)
	if n < 8 {
		l.tree(l.mLow[:], 3, n)
	} else {
		l.e.bit(&l.mChoice[1], n >= 16)
		if n < 16 {
			l.tree(l.mMid[:], 3, n-8)
		} else {
			l.tree(l.mHigh[:], 8, n-16)
		}
	}
	d := dist - 1
	nb := bits.Len32(d) - 1
	slot := 2*nb + int(d>>(nb-1)&1)
	if slot < 14 {
		panic("harness: near match")
	}
	l.tree(l.slot[min(n, 3)][:], 6, slot)
	foot := nb - 1
	rest := d - uint32(2|slot&1)<<foot
	for i := foot - 1; i >= 4; i-- { // direct bits
		l.e.rng >>= 1
		if rest>>i&1 == 1 {
			l.e.low += uint64(l.e.rng)
		}
		if l.e.rng < 1<<24 {
			l.e.rng <<= 8
			l.e.shiftLow()
		}
	}
	m := 1
	for i := range 4 {
		b := int(rest >> i & 1)
		l.e.bit(&l.align[m], b == 1)
		m = m<<1 | b
	}
	if l.state < 7 {
		l.state = 7
	} else {
		l.state = 10
	}
	l.prev = last
}

// farContent is a pattern which reoccurs dist bytes later (in the middle of nothing but zeros) and what follows it.
func farContent(dist int) (d []byte, head int) {
	p := pattern(100, 5)
	p[99] = 0
	d = make([]byte, dist+110)
	copy(d, p)
	copy(d[dist:], p)
	d[dist+105] = 7
	return d, 100
}

// farLZMA encodes farContent with one match at exactly the distance.
func farLZMA(dist int) (d, packed []byte) {
	d, head := farContent(dist)
	l := newLZMARuns()
	for _, b := range d[:head] {
		l.literal(b)
	}
	l.run(0, uint64(dist-head))
	l.match(uint32(dist), head, 0)
	for _, b := range d[dist+head:] {
		l.literal(b)
	}
	return d, l.e.flush()
}

func farLZMA2(dist int) (d, packed []byte) {
	d, head := farContent(dist)
	l := newLZMARuns()
	first, start := true, 0
	chunk := func(end int) {
		b := l.e.flush()
		n := end - start - 1
		ctl := byte(0x80)
		if first {
			ctl = 0xe0
		}
		packed = append(packed, ctl|byte(n>>16), byte(n>>8), byte(n), byte((len(b)-1)>>8), byte(len(b)-1))
		if first {
			packed = append(packed, 0)
		}
		packed = append(packed, b...)
		first, start = false, end
		l.e = newRangeEncoder()
	}
	for _, b := range d[:head] {
		l.literal(b)
	}
	at := head
	for at < dist {
		n := min(dist-at, 1<<20)
		l.run(0, uint64(n))
		at += n
		chunk(at)
	}
	l.match(uint32(dist), head, 0)
	for _, b := range d[dist+head:] {
		l.literal(b)
	}
	chunk(len(d))
	return d, append(packed, 0)
}

// ppmdAny looks for packed bytes that are a PPMd stream of a good length: nearly anything is one, for a while.
func ppmdAny(order, mem, from, want int) (plain, packed []byte) {
	for seed := range 24 {
		b := append([]byte{0}, pattern(8*want, uint32(from+seed))...)
		d := func() (d []byte) {
			defer func() { _ = recover() }()
			d, _ = ppmdDecode(order, mem, b, 2*want)
			return d
		}()
		if len(d) > 40 {
			d = d[:len(d)-20]
		} else {
			d = nil
		}
		if len(d) > len(plain) {
			plain, packed = d, b
		}
		if len(plain) > want {
			break
		}
	}
	if len(plain) == 0 {
		return nil, nil
	}
	d, n := ppmdDecode(order, mem, packed, len(plain))
	if !bytes.Equal(d, plain) {
		panic("harness: ppmd")
	}
	if n == len(packed) { // it may have gone on beyond
		return nil, nil
	}
	return plain, packed[:n]
}

func runDict(e *Env) {
	q := e.Quick()
	given := func(t *T, c Coder, d, packed []byte) {
		f := Chain(d, Stage{"given", func(in []byte) (Coder, []byte) { return c, packed }})
		if len(d) <= 1<<16 {
			single(t, f, "")
			return
		}
		a := &Archive{}
		a.AddFolder(f, []string{"f"}, []int{len(d)})
		b := a.Build().B
		t.Eval(1)
		t.Outcome(fmt.Sprintf("%x %x %d", c.ID, c.Props, len(d)))
		r, err := sevenzip.NewReader(bytes.NewReader(b), int64(len(b)))
		if err != nil {
			t.Failf("dict-open", "%v", err)
			return
		}
		rc, err := r.File[0].Open()
		if err != nil {
			t.Failf("dict-open", "opening the file: %v", err)
			return
		}
		defer rc.Close()
		buf := make([]byte, 1<<16)
		at := 0
		for {
			n, err := rc.Read(buf)
			if at+n > len(d) || !bytes.Equal(buf[:n], d[at:at+n]) {
				t.Failf("dict-content", "wrong content between %d and %d", at, at+n)
				return
			}
			at += n
			t.Beat()
			if err == io.EOF {
				break
			}
			if err != nil {
				t.Failf("dict-read", "after %d bytes: %v", at, err)
				return
			}
		}
		if at != len(d) {
			t.Failf("dict-short", "%d of %d bytes", at, len(d))
		}
	}

	e.Group("dictionaries")
	top := 28
	if !q {
		top = 32
	}
	for p := 0; p <= top; p++ {
		d := (2 | p&1) << (p/2 + 11)
		for _, dist := range []int{d, d - 1, d - 272} {
			e.Case(func() string { return fmt.Sprintf("lzma2: dictionary property %d, match at a distance of %d", p, dist) }, func(t *T) {
				plain, packed := farLZMA2(dist)
				given(t, Coder{ID: idLZMA2, Props: []byte{byte(p)}}, plain, packed)
			})
		}
	}
	// the biggest ones, one after another: up to 4 GiB of address space each
	e.Case(func() string { return "lzma2: dictionary properties 25 to 40; lzma: dictionaries up to 4 GiB" }, func(t *T) {
		for p := 25; p <= 40; p++ {
			if q && p < 36 && p%5 != 0 {
				continue
			}
			plain, packed := farLZMA2(4096)
			given(t, Coder{ID: idLZMA2, Props: []byte{byte(p)}}, plain, packed)
			t.Beat()
			debug.FreeOSMemory()
		}
		for _, d := range []uint32{1<<31 - 1, 1 << 31, 1<<32 - 1} {
			plain, packed := farLZMA(4096)
			given(t, Coder{ID: idLZMA, Props: append([]byte{0}, u32(d)...)}, plain, packed)
			t.Beat()
			debug.FreeOSMemory()
		}
	})
	sizes := []int{0, 1, 255, 4095, 4096, 4097, 5000, 1<<16 - 1, 1 << 16, 1<<16 + 1, 100000, 1 << 20, 1<<20 + 1, 3 << 20, 1<<24 - 1, 1 << 24, 1<<24 + 1}
	if !q {
		sizes = append(sizes, 1<<25+5, 1<<26, 3<<26, 1<<28)
	}
	for _, d := range sizes {
		e.Case(func() string { return fmt.Sprintf("lzma: dictionary of %d, match as far as that", d) }, func(t *T) {
			for _, dist := range []int{d, d - 1} {
				if dist < 200 {
					continue
				}
				plain, packed := farLZMA(dist)
				given(t, Coder{ID: idLZMA, Props: append([]byte{0}, u32(uint32(d))...)}, plain, packed)
			}
			plain, packed := farLZMA(min(max(200, d), 300))
			given(t, Coder{ID: idLZMA, Props: append([]byte{0}, u32(uint32(d))...)}, plain, packed)
		})
	}

	e.Group("ppmd parameters")
	for o := 2; o <= 64; o++ {
		if q && o > 20 && o%4 != 0 && o < 61 {
			continue
		}
		e.Case(func() string { return fmt.Sprintf("ppmd of order %d", o) }, func(t *T) {
			for _, mem := range []int{1 << 11, 1<<11 + 1, 3 << 11, 1 << 14, 1 << 16, 1<<16 + 7, 1 << 20, 1 << 24, 1<<24 + 12} {
				plain, packed := ppmdAny(o, mem, o+mem>>11, 2000)
				if plain == nil {
					continue
				}
				t.Max("ppmd_longest", int64(len(plain)))
				given(t, Coder{ID: idPPMD, Props: ppmdProps(o, uint32(mem))}, plain, packed)
			}
		})
	}

	e.Group("encoder parameters")
	contents := func() [][]byte {
		far, _ := farContent(70000)
		return [][]byte{text(9000, 4), pattern(5000, 3), make([]byte, 100000), far, text(200000, 1), {}, {1}}
	}
	for _, bs := range []lz4.BlockSize{lz4.Block64Kb, lz4.Block256Kb, lz4.Block1Mb, lz4.Block4Mb} {
		for _, sum := range []bool{false, true} {
			for _, bsum := range []bool{false, true} {
				e.Case(func() string {
					return fmt.Sprintf("lz4: blocks of %d, content checksum %v, block checksums %v", bs, sum, bsum)
				}, func(t *T) {
					for _, d := range contents() {
						for _, known := range []bool{false, true} {
							for _, lv := range []lz4.CompressionLevel{lz4.Fast, lz4.Level1, lz4.Level9} {
								var b bytes.Buffer
								w := lz4.NewWriter(&b)
								o := []lz4.Option{lz4.BlockSizeOption(bs), lz4.ChecksumOption(sum), lz4.BlockChecksumOption(bsum), lz4.CompressionLevelOption(lv)}
								if known {
									o = append(o, lz4.SizeOption(uint64(len(d))))
								}
								must0(w.Apply(o...))
								_ = must(w.Write(d))
								must0(w.Close())
								given(t, Coder{ID: idLZ4, Props: []byte{1, 9, byte(lv), 0, 0}}, d, b.Bytes())
							}
						}
					}
				})
			}
		}
	}
	wtop := 24
	if !q {
		wtop = 28
	}
	for w := 10; w <= wtop; w++ {
		e.Case(func() string { return fmt.Sprintf("zstd: window of 1<<%d", w) }, func(t *T) {
			for _, lv := range []zstd.EncoderLevel{zstd.SpeedFastest, zstd.SpeedDefault, zstd.SpeedBetterCompression, zstd.SpeedBestCompression} {
				if w > 20 && lv != zstd.SpeedFastest {
					continue
				}
				for _, sum := range []bool{false, true} {
					enc := must(zstd.NewWriter(nil, zstd.WithWindowSize(1<<w), zstd.WithEncoderLevel(lv), zstd.WithEncoderCRC(sum), zstd.WithEncoderConcurrency(1), zstd.WithLowerEncoderMem(true)))
					cs := contents()
					if w > 16 {
						d, _ := farContent(1<<w - 200)
						cs = [][]byte{d, text(9000, 4)}
					}
					for _, d := range cs {
						var b bytes.Buffer
						enc.Reset(&b)
						for at := 0; at < len(d); at += 1 << 16 { // not in one go, for a window in the frame
							_ = must(enc.Write(d[at:min(len(d), at+1<<16)]))
						}
						must0(enc.Close())
						given(t, Coder{ID: idZstd, Props: []byte{1, 5, byte(lv), 0, 0}}, d, b.Bytes())
						t.Beat()
					}
				}
			}
		})
	}
	for lg := 10; lg <= 24; lg++ {
		for _, lv := range []int{0, 1, 4, 6, 9, 11} {
			if q && lv == 11 && lg%3 != 0 {
				continue
			}
			e.Case(func() string { return fmt.Sprintf("brotli: quality %d, window 1<<%d", lv, lg) }, func(t *T) {
				for _, d := range contents() {
					var b bytes.Buffer
					w := brotli.NewWriterOptions(&b, brotli.WriterOptions{Quality: lv, LGWin: lg})
					_ = must(w.Write(d))
					must0(w.Close())
					given(t, Coder{ID: idBrotli, Props: []byte{1, 1, byte(lv)}}, d, b.Bytes())
					h := make([]byte, 16, 16+b.Len())
					binary.LittleEndian.PutUint32(h, 0x184d2a50)
					binary.LittleEndian.PutUint32(h[4:], 8)
					binary.LittleEndian.PutUint32(h[8:], uint32(b.Len()))
					copy(h[12:], "BR")
					binary.LittleEndian.PutUint16(h[14:], uint16((len(d)+0xffff)>>16))
					given(t, Coder{ID: idBrotli, Props: []byte{1, 1, byte(lv)}}, d, append(h, b.Bytes()...))
				}
			})
		}
	}
	for _, blk := range []int{1, 2, 3, 5, 9} {
		e.Case(func() string { return fmt.Sprintf("bzip2: blocks of %d", blk) }, func(t *T) {
			for _, n := range []int{0, 1, 1000, blk*100000 - 20, 120000} {
				if n > 130000 && q {
					continue
				}
				d := pattern(n, 9)
				p := append([]byte{}, bzip2Enc(d, blk*100000)...)
				given(t, Coder{ID: idBzip2}, d, p)
			}
		})
	}
}
