package main

// Independent encoders (and, for the branch filters, reference decoders) used as the oracle.

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"math/bits"
	"unicode/utf16"

	"github.com/andybalholm/brotli"
	"github.com/klauspost/compress/flate"
	"github.com/klauspost/compress/zstd"
	"github.com/pierrec/lz4/v4"
	"github.com/stangelandcl/ppmd"
	"github.com/ulikunitz/xz/lzma"
)

var (
	idCopy    = []byte{0}
	idDelta   = []byte{3}
	idLZMA    = []byte{3, 1, 1}
	idBCJ     = []byte{3, 3, 1, 3}
	idBCJ2    = []byte{3, 3, 1, 0x1b}
	idPPC     = []byte{3, 3, 2, 5}
	idARM     = []byte{3, 3, 5, 1}
	idSPARC   = []byte{3, 3, 8, 5}
	idDeflate = []byte{4, 1, 8}
	idBzip2   = []byte{4, 2, 2}
	idZstd    = []byte{4, 0xf7, 0x11, 1}
	idBrotli  = []byte{4, 0xf7, 0x11, 2}
	idLZ4     = []byte{4, 0xf7, 0x11, 4}
	idAES     = []byte{6, 0xf1, 7, 1}
	idARM64   = []byte{0xa}
	idLZMA2   = []byte{0x21}
	idPPMD    = []byte{3, 4, 1}
)

// Stage encodes one layer.
type Stage struct {
	Name string
	Enc  func(in []byte) (Coder, []byte)
}

func sCopy() Stage {
	return Stage{"copy", func(in []byte) (Coder, []byte) { return Coder{ID: idCopy}, in }}
}

func sDelta(d int) Stage {
	return Stage{fmt.Sprintf("delta%d", d), func(in []byte) (Coder, []byte) {
		out := make([]byte, len(in))
		for i := range in {
			out[i] = in[i]
			if i >= d {
				out[i] -= in[i-d]
			}
		}
		return Coder{ID: idDelta, Props: []byte{byte(d - 1)}}, out
	}}
}

func filterStage(name string, id []byte, f func(b []byte, enc bool)) Stage {
	return Stage{name, func(in []byte) (Coder, []byte) {
		out := append([]byte{}, in...)
		f(out, true)
		return Coder{ID: id}, out
	}}
}

func sBCJ() Stage   { return filterStage("bcj", idBCJ, refX86) }
func sARM() Stage   { return filterStage("arm", idARM, refARM) }
func sARM64() Stage { return filterStage("arm64", idARM64, refARM64) }
func sPPC() Stage   { return filterStage("ppc", idPPC, refPPC) }
func sSPARC() Stage { return filterStage("sparc", idSPARC, refSPARC) }

// refX86 follows x86_Convert of the LZMA SDK 9.20.
func refX86(data []byte, encoding bool) { refX86At(data, 0, encoding) }

func refX86At(data []byte, base uint32, encoding bool) {
	test := func(b byte) bool { return b == 0 || b == 0xff }
	allowed := [8]bool{true, true, true, false, true, false, false, false}
	bitno := [8]int{0, 1, 2, 2, 3, 3, 3, 3}
	size := len(data)
	if size < 5 {
		return
	}
	ip := base + 5
	prevMask := uint32(0)
	prevPos := -1
	pos := 0
	for {
		for pos < size-4 && data[pos]&0xfe != 0xe8 {
			pos++
		}
		if pos >= size-4 {
			return
		}
		dist := pos - prevPos
		if dist > 3 {
			prevMask = 0
		} else {
			prevMask = (prevMask << (dist - 1)) & 7
			if prevMask != 0 {
				b := data[pos+4-bitno[prevMask]]
				if !allowed[prevMask] || test(b) {
					prevPos = pos
					prevMask = (prevMask<<1)&7 | 1
					pos++
					continue
				}
			}
		}
		prevPos = pos
		if test(data[pos+4]) {
			src := binary.LittleEndian.Uint32(data[pos+1:])
			var dest uint32
			for {
				if encoding {
					dest = ip + uint32(pos) + src
				} else {
					dest = src - (ip + uint32(pos))
				}
				if prevMask == 0 {
					break
				}
				idx := bitno[prevMask] * 8
				if !test(byte(dest >> (24 - idx))) {
					break
				}
				src = dest ^ (1<<(32-idx) - 1)
			}
			data[pos+1], data[pos+2], data[pos+3] = byte(dest), byte(dest>>8), byte(dest>>16)
			data[pos+4] = byte(^((dest >> 24 & 1) - 1))
			pos += 5
		} else {
			prevMask = (prevMask<<1)&7 | 1
			pos++
		}
	}
}

func refARM(data []byte, encoding bool) { refARMAt(data, 0, encoding) }

func refARMAt(data []byte, base uint32, encoding bool) {
	for i := 0; i+4 <= len(data); i += 4 {
		if data[i+3] == 0xeb {
			src := uint32(data[i+2])<<16 | uint32(data[i+1])<<8 | uint32(data[i])
			src <<= 2
			var dest uint32
			if encoding {
				dest = base + uint32(i) + 8 + src
			} else {
				dest = src - (base + uint32(i) + 8)
			}
			dest >>= 2
			data[i+2], data[i+1], data[i] = byte(dest>>16), byte(dest>>8), byte(dest)
		}
	}
}

func refPPC(data []byte, encoding bool) { refPPCAt(data, 0, encoding) }

func refPPCAt(data []byte, base uint32, encoding bool) {
	for i := 0; i+4 <= len(data); i += 4 {
		if data[i]>>2 == 0x12 && data[i+3]&3 == 1 {
			src := uint32(data[i]&3)<<24 | uint32(data[i+1])<<16 | uint32(data[i+2])<<8 | uint32(data[i+3])&^3
			var dest uint32
			if encoding {
				dest = base + uint32(i) + src
			} else {
				dest = src - (base + uint32(i))
			}
			data[i] = 0x48 | byte(dest>>24)&3
			data[i+1], data[i+2] = byte(dest>>16), byte(dest>>8)
			data[i+3] = data[i+3]&3 | byte(dest)&^3
		}
	}
}

func refSPARC(data []byte, encoding bool) { refSPARCAt(data, 0, encoding) }

func refSPARCAt(data []byte, base uint32, encoding bool) {
	for i := 0; i+4 <= len(data); i += 4 {
		if (data[i] == 0x40 && data[i+1]&0xc0 == 0) || (data[i] == 0x7f && data[i+1]&0xc0 == 0xc0) {
			src := binary.BigEndian.Uint32(data[i:]) << 2
			var dest uint32
			if encoding {
				dest = base + uint32(i) + src
			} else {
				dest = src - (base + uint32(i))
			}
			dest >>= 2
			dest = ((0 - (dest >> 22 & 1)) << 22 & 0x3fffffff) | dest&0x3fffff | 0x40000000
			binary.BigEndian.PutUint32(data[i:], dest)
		}
	}
}

// refARM64 follows the description in the xz format documentation (BL and ADRP, +/-512 MiB).
func refARM64(data []byte, encoding bool) { refARM64At(data, 0, encoding) }

func refARM64At(data []byte, base uint32, encoding bool) {
	for i := 0; i+4 <= len(data); i += 4 {
		in := binary.LittleEndian.Uint32(data[i:])
		pc := base + uint32(i)
		if in>>26 == 0x25 { // BL
			src := in
			p := pc >> 2
			if !encoding {
				p = 0 - p
			}
			binary.LittleEndian.PutUint32(data[i:], 0x94000000|(src+p)&0x03ffffff)
		} else if in&0x9f000000 == 0x90000000 { // ADRP
			src := in>>29&3 | in>>3&0x001ffffc
			// only convert if the value fits in a signed 18 bit range
			if (src+0x00020000)&0x001c0000 != 0 {
				continue
			}
			p := pc >> 12
			if !encoding {
				p = 0 - p
			}
			dest := src + p
			out := in & 0x9000001f
			out |= (dest & 3) << 29
			out |= (dest & 0x0003fffc) << 3
			out |= (0 - (dest & 0x00020000)) & 0x00e00000
			binary.LittleEndian.PutUint32(data[i:], out)
		}
	}
}

// rangeEncoder is the LZMA range coder.
type rangeEncoder struct {
	low       uint64
	rng       uint32
	cache     byte
	cacheSize uint64
	out       []byte
}

func newRangeEncoder() *rangeEncoder { return &rangeEncoder{rng: 0xffffffff, cacheSize: 1} }

func (e *rangeEncoder) shiftLow() {
	if uint32(e.low) < 0xff000000 || e.low>>32 != 0 {
		c := e.cache
		for {
			e.out = append(e.out, c+byte(e.low>>32))
			c = 0xff
			e.cacheSize--
			if e.cacheSize == 0 {
				break
			}
		}
		e.cache = byte(e.low >> 24)
	}
	e.cacheSize++
	e.low = uint64(uint32(e.low) << 8)
}

func (e *rangeEncoder) bit(p *uint32, b bool) {
	bound := (e.rng >> 11) * *p
	if !b {
		e.rng = bound
		*p += (2048 - *p) >> 5
	} else {
		e.low += uint64(bound)
		e.rng -= bound
		*p -= *p >> 5
	}
	if e.rng < 1<<24 {
		e.rng <<= 8
		e.shiftLow()
	}
}

func (e *rangeEncoder) flush() []byte {
	for range 5 {
		e.shiftLow()
	}
	return e.out
}

// bcj2Encode splits data into the four BCJ2 streams.  convert decides whether the n-th candidate is converted.
func bcj2Encode(data []byte, convert func(n int) bool) (main, call, jump, rc []byte) {
	b := newBCJ2Encoder()
	main = b.encode(data, 0, convert)
	return main, b.call, b.jump, b.e.flush()
}

var encCache = map[string][]byte{}

func cached(kind string, in []byte, f func() []byte) []byte {
	k := kind + "\x00" + string(in)
	if v, ok := encCache[k]; ok {
		return v
	}
	v := f()
	if len(encCache) < 20000 {
		encCache[k] = v
	}
	return v
}

func must[T any](v T, err error) T {
	if err != nil {
		panic("harness: " + err.Error())
	}
	return v
}

func must0(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

func lzmaEnc(in []byte, dict int, p lzma.Properties, eos bool) (props, out []byte) {
	var b bytes.Buffer
	c := lzma.WriterConfig{Properties: &p, DictCap: dict, BufSize: 4096, SizeInHeader: true, Size: int64(len(in)), EOSMarker: eos}
	w := must(c.NewWriter(&b))
	_ = must(w.Write(in))
	must0(w.Close())
	return b.Bytes()[:5], b.Bytes()[13:]
}

var lzmaDefault = lzma.Properties{LC: 3, LP: 0, PB: 2}

func sLZMA() Stage { return sLZMAp(lzmaDefault, 4096, false) }

func sLZMAp(p lzma.Properties, dict int, eos bool) Stage {
	return Stage{fmt.Sprintf("lzma(lc%d lp%d pb%d eos=%v)", p.LC, p.LP, p.PB, eos), func(in []byte) (Coder, []byte) {
		v := cached(fmt.Sprintf("lzma%v%d%v", p, dict, eos), in, func() []byte {
			pr, o := lzmaEnc(in, dict, p, eos)
			return append(append([]byte{}, pr...), o...)
		})
		return Coder{ID: idLZMA, Props: v[:5]}, v[5:]
	}}
}

func sLZMA2() Stage {
	return Stage{"lzma2", func(in []byte) (Coder, []byte) {
		v := cached("lzma2", in, func() []byte {
			var b bytes.Buffer
			c := lzma.Writer2Config{DictCap: 4096, BufSize: 1 << 17}
			w := must(c.NewWriter2(&b))
			_ = must(w.Write(in))
			must0(w.Close())
			return b.Bytes()
		})
		return Coder{ID: idLZMA2, Props: []byte{0}}, v
	}}
}

func sDeflate() Stage {
	return Stage{"deflate", func(in []byte) (Coder, []byte) {
		return Coder{ID: idDeflate}, cached("deflate", in, func() []byte {
			var b bytes.Buffer
			w := must(flate.NewWriter(&b, 6))
			_ = must(w.Write(in))
			must0(w.Close())
			return b.Bytes()
		})
	}}
}

func sZstd() Stage {
	return Stage{"zstd", func(in []byte) (Coder, []byte) {
		return Coder{ID: idZstd, Props: []byte{1, 5, 3, 0, 0}}, cached("zstd", in, func() []byte {
			var b bytes.Buffer
			w := must(zstd.NewWriter(&b, zstd.WithEncoderConcurrency(1), zstd.WithWindowSize(1<<12), zstd.WithLowerEncoderMem(true)))
			_ = must(w.Write(in))
			must0(w.Close())
			return b.Bytes()
		})
	}}
}

func brotliEnc(in []byte) []byte {
	var b bytes.Buffer
	w := brotli.NewWriterOptions(&b, brotli.WriterOptions{Quality: 5, LGWin: 16})
	_ = must(w.Write(in))
	must0(w.Close())
	return b.Bytes()
}

func sBrotli(framed bool) Stage {
	return Stage{fmt.Sprintf("brotli(framed=%v)", framed), func(in []byte) (Coder, []byte) {
		return Coder{ID: idBrotli, Props: []byte{1, 0, 3}}, cached(fmt.Sprint("brotli", framed), in, func() []byte {
			d := brotliEnc(in)
			if !framed {
				return d
			}
			var h []byte
			h = append(h, u32(0x184d2a50)...)
			h = append(h, u32(8)...)
			h = append(h, u32(uint32(len(d)))...)
			h = append(h, 'B', 'R')
			h = binary.LittleEndian.AppendUint16(h, uint16((len(in)+65535)/65536))
			return append(h, d...)
		})
	}}
}

func sLZ4() Stage {
	return Stage{"lz4", func(in []byte) (Coder, []byte) {
		return Coder{ID: idLZ4, Props: []byte{1, 9, 3, 0, 0}}, cached("lz4", in, func() []byte {
			var b bytes.Buffer
			w := lz4.NewWriter(&b)
			must0(w.Apply(lz4.BlockSizeOption(lz4.Block64Kb), lz4.ConcurrencyOption(1)))
			_ = must(w.Write(in))
			must0(w.Close())
			return b.Bytes()
		})
	}}
}

type bitWriter struct {
	b   []byte
	cur uint64
	n   int
}

func (w *bitWriter) put(v uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		w.cur = w.cur<<1 | v>>uint(i)&1
		w.n++
		if w.n == 8 {
			w.b = append(w.b, byte(w.cur))
			w.cur, w.n = 0, 0
		}
	}
}

func bzCRC(in []byte) uint32 {
	crc := uint32(0xffffffff)
	for _, b := range in {
		crc ^= uint32(b) << 24
		for range 8 {
			if crc>>31 == 1 {
				crc = crc<<1 ^ 0x04c11db7
			} else {
				crc <<= 1
			}
		}
	}
	return ^crc
}

// bzip2Enc is a minimal bzip2 compressor; blocks of at most block bytes.
func bzip2Enc(in []byte, block int) []byte {
	w := &bitWriter{}
	w.put('B', 8)
	w.put('Z', 8)
	w.put('h', 8)
	w.put('9', 8)
	total := uint32(0)
	for len(in) > 0 {
		n := min(block, len(in))
		raw := in[:n]
		in = in[n:]
		crc := bzCRC(raw)
		total = (total<<1 | total>>31) ^ crc
		// RLE1
		var d []byte
		for i := 0; i < len(raw); {
			j := i
			for j < len(raw) && raw[j] == raw[i] && j-i < 255 {
				j++
			}
			run := j - i
			for k := 0; k < run && k < 4; k++ {
				d = append(d, raw[i])
			}
			if run >= 4 {
				d = append(d, byte(run-4))
			}
			i = j
		}
		bz2Block(w, d, crc)
	}
	w.put(0x177245385090, 48)
	w.put(uint64(total), 32)
	for w.n != 0 {
		w.put(0, 1)
	}
	return w.b
}

func bz2Block(w *bitWriter, d []byte, crc uint32) {
	n := len(d)
	rot := make([]int, n)
	for i := range rot {
		rot[i] = i
	}
	// prefix doubling over the cyclic rotations
	rank, next := make([]int, n), make([]int, n)
	for i := range rank {
		rank[i] = int(d[i])
	}
	for k := 1; ; k *= 2 {
		less := func(a, b int) int {
			if rank[a] != rank[b] {
				return rank[a] - rank[b]
			}
			if k == 1 {
				return 0
			}
			return rank[(a+k/2)%n] - rank[(b+k/2)%n]
		}
		sortInts(rot, less)
		c := 0
		for i, r := range rot {
			if i > 0 && less(rot[i-1], r) != 0 {
				c++
			}
			next[r] = c
		}
		rank, next = next, rank
		if c == n-1 || k > 2*n {
			break
		}
	}
	orig := 0
	bwt := make([]byte, n)
	var used [256]bool
	for i, r := range rot {
		if r == 0 {
			orig = i
		}
		bwt[i] = d[(r+n-1)%n]
		used[bwt[i]] = true
	}
	w.put(0x314159265359, 48)
	w.put(uint64(crc), 32)
	w.put(0, 1)
	w.put(uint64(orig), 24)
	var mtf []byte
	for i := range 16 {
		any := uint64(0)
		for j := range 16 {
			if used[i*16+j] {
				any = 1
				mtf = append(mtf, byte(i*16+j))
			}
		}
		w.put(any, 1)
	}
	for i := range 16 {
		any := false
		for j := range 16 {
			any = any || used[i*16+j]
		}
		if any {
			for j := range 16 {
				v := uint64(0)
				if used[i*16+j] {
					v = 1
				}
				w.put(v, 1)
			}
		}
	}
	eob := len(mtf) + 1
	var syms []int
	run := 0
	flush := func() {
		for run > 0 {
			if run&1 == 1 {
				syms = append(syms, 0)
				run = (run - 1) / 2
			} else {
				syms = append(syms, 1)
				run = (run - 2) / 2
			}
		}
	}
	for _, b := range bwt {
		k := bytes.IndexByte(mtf, b)
		if k == 0 {
			run++
			continue
		}
		flush()
		run = 0
		copy(mtf[1:k+1], mtf[:k])
		mtf[0] = b
		syms = append(syms, k+1)
	}
	flush()
	syms = append(syms, eob)
	alpha := eob + 1
	k := bits.Len(uint(alpha - 1))
	short := 1<<k - alpha
	lens := make([]int, alpha)
	codes := make([]uint64, alpha)
	code := uint64(0)
	for i := range lens {
		if i < short {
			lens[i] = k - 1
			codes[i] = code
			code++
		} else {
			if i == short {
				code <<= 1
			}
			lens[i] = k
			codes[i] = code
			code++
		}
	}
	nsel := (len(syms) + 49) / 50
	w.put(2, 3)
	w.put(uint64(nsel), 15)
	for range nsel {
		w.put(0, 1)
	}
	for range 2 {
		cur := lens[0]
		w.put(uint64(cur), 5)
		for _, l := range lens {
			for cur < l {
				w.put(2, 2)
				cur++
			}
			for cur > l {
				w.put(3, 2)
				cur--
			}
			w.put(0, 1)
		}
	}
	for _, s := range syms {
		w.put(codes[s], lens[s])
	}
}

func sortInts(v []int, cmp func(a, b int) int) {
	// merge sort
	if len(v) < 2 {
		return
	}
	m := len(v) / 2
	a := append([]int{}, v[:m]...)
	b := append([]int{}, v[m:]...)
	sortInts(a, cmp)
	sortInts(b, cmp)
	for i := range v {
		if len(b) == 0 || len(a) > 0 && cmp(a[0], b[0]) <= 0 {
			v[i] = a[0]
			a = a[1:]
		} else {
			v[i] = b[0]
			b = b[1:]
		}
	}
}

func sBzip2(block int) Stage {
	return Stage{fmt.Sprintf("bzip2(%d)", block), func(in []byte) (Coder, []byte) {
		return Coder{ID: idBzip2}, cached(fmt.Sprint("bzip2", block), in, func() []byte { return bzip2Enc(in, block) })
	}}
}

// AESParams are the free parameters of the encryption.
type AESParams struct {
	Password string
	Cycles   int
	Salt, IV []byte
}

func aesKey(p AESParams) []byte {
	var seed []byte
	seed = append(seed, p.Salt...)
	for _, u := range utf16.Encode([]rune(p.Password)) {
		seed = append(seed, byte(u), byte(u>>8))
	}
	if p.Cycles == 0x3f {
		k := make([]byte, 32)
		copy(k, seed)
		return k
	}
	h := sha256.New()
	for i := uint64(0); i < 1<<p.Cycles; i++ {
		h.Write(seed)
		h.Write(u64(i))
	}
	return h.Sum(nil)
}

func aesProps(p AESParams) []byte {
	b0, b1 := byte(p.Cycles), byte(0)
	if len(p.Salt) > 0 {
		b0 |= 0x80
		b1 |= byte(len(p.Salt)-1) << 4
	}
	if len(p.IV) > 0 {
		b0 |= 0x40
		b1 |= byte(len(p.IV) - 1)
	}
	out := append([]byte{b0, b1}, p.Salt...)
	return append(out, p.IV...)
}

func sAES(p AESParams) Stage {
	return Stage{fmt.Sprintf("aes(cycles%d salt%d iv%d pw%d)", p.Cycles, len(p.Salt), len(p.IV), len(p.Password)), func(in []byte) (Coder, []byte) {
		buf := append([]byte{}, in...)
		for len(buf)%16 != 0 {
			buf = append(buf, 0)
		}
		iv := make([]byte, 16)
		copy(iv, p.IV)
		blk := must(aes.NewCipher(aesKey(p)))
		cipher.NewCBCEncrypter(blk, iv).CryptBlocks(buf, buf)
		return Coder{ID: idAES, Props: aesProps(p)}, buf
	}}
}

// ppmdDecode runs the third-party decoder directly; it also returns how many bytes the decoder took.
func ppmdDecode(order, mem int, packed []byte, n int) ([]byte, int) {
	e := &endless{b: packed}
	r, err := ppmd.NewH7zReader(e, order, mem, n)
	if err != nil {
		return nil, 0
	}
	out := make([]byte, n)
	for i := 0; i < n; {
		k, err := r.Read(out[i:])
		i += k
		if err != nil || k == 0 {
			return out[:i], e.i
		}
	}
	return out, e.i
}

type endless struct {
	b []byte
	i int
}

func (e *endless) Read(p []byte) (int, error) {
	if e.i < len(e.b) {
		n := copy(p, e.b[e.i:])
		e.i += n
		return n, nil
	}
	for i := range p {
		p[i] = 0
	}
	return len(p), nil
}

func (e *endless) ReadByte() (byte, error) {
	var b [1]byte
	_, _ = e.Read(b[:])
	return b[0], nil
}

// ppmdEncode returns the prefix of the fixture stream which a decoder needs for in, a prefix of the fixture content.
func ppmdEncode(in []byte, order, mem int) []byte {
	if len(in) > len(ppmdPlain) || ppmdPlain[:len(in)] != string(in) {
		panic("harness: not a prefix of the ppmd fixture")
	}
	d, n := ppmdDecode(order, mem, []byte(ppmdPacked), len(in))
	if !bytes.Equal(d, in) {
		panic("harness: the ppmd fixture does not decode")
	}
	return []byte(ppmdPacked[:n])
}

func ppmdProps(order int, mem uint32) []byte { return append([]byte{byte(order)}, u32(mem)...) }

func sPPMD() Stage {
	return Stage{"ppmd", func(in []byte) (Coder, []byte) {
		v := cached("ppmd", in, func() []byte { return ppmdEncode(in, 6, 1<<18) })
		return Coder{ID: idPPMD, Props: ppmdProps(6, 1<<18)}, v
	}}
}

// Chain applies the stages in encoding order and returns the folder.
func Chain(data []byte, stages ...Stage) *Folder {
	f := &Folder{Data: data}
	cur := data
	var coders []Coder
	var sizes []uint64
	for _, s := range stages {
		c, out := s.Enc(cur)
		coders = append(coders, c)
		sizes = append(sizes, uint64(len(cur)))
		cur = out
	}
	// decoding order: last stage first
	n := len(coders)
	for i := n - 1; i >= 0; i-- {
		f.Coders = append(f.Coders, coders[i])
		f.Sizes = append(f.Sizes, sizes[i])
	}
	for i := 1; i < n; i++ {
		f.Bind = append(f.Bind, [2]int{i, i - 1})
	}
	f.Packed = []int{0}
	f.Packs = [][]byte{cur}
	return f
}

// BCJ2Chain encodes with BCJ2; the four streams pass through the given stages (main, call, jump; rc through its own).
func BCJ2Chain(data []byte, convert func(int) bool, st [4][]Stage) *Folder {
	m, c, j, r := bcj2Encode(data, convert)
	f := &Folder{Data: data}
	in := 0
	var outOf [4]int // out index feeding each bcj2 input, or -1
	var packIn [4]int
	var packs [4][]byte
	for k, s := range [][]byte{m, c, j, r} {
		cur := s
		var cs []Coder
		var sz []uint64
		for _, stg := range st[k] {
			cd, out := stg.Enc(cur)
			cs = append(cs, cd)
			sz = append(sz, uint64(len(cur)))
			cur = out
		}
		outOf[k] = -1
		packs[k] = cur
		packIn[k] = -1
		for i := len(cs) - 1; i >= 0; i-- {
			if i == len(cs)-1 {
				packIn[k] = in
			} else {
				f.Bind = append(f.Bind, [2]int{in, in - 1})
			}
			f.Coders = append(f.Coders, cs[i])
			f.Sizes = append(f.Sizes, sz[i])
			outOf[k] = in
			in++
		}
	}
	base := in
	f.Coders = append(f.Coders, Coder{ID: idBCJ2, In: 4, Out: 1})
	f.Sizes = append(f.Sizes, uint64(len(data)))
	for k := range 4 {
		if outOf[k] >= 0 {
			f.Bind = append(f.Bind, [2]int{base + k, outOf[k]})
		} else {
			packIn[k] = base + k
		}
	}
	for k := range 4 {
		f.Packed = append(f.Packed, packIn[k])
		f.Packs = append(f.Packs, packs[k])
	}
	return f
}

func crcOf(b []byte) *uint32 { c := crc32.ChecksumIEEE(b); return &c }
