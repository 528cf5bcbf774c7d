package main

// C20: repetitions accumulate nothing.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"github.com/bodgit/sevenzip"
)

func init() {
	register(&Check{
		ID:    "C20",
		Level: "model_checking",
		Rule: "for every method: every sound or damaged archive of the C18 alphabet x every way of extracting that closes what it opened, alone and in pairs, through new readers and one kept open, with and without garbage " +
			"collections in between; opening with every byte of a compressed header altered; keys that are never the same; volumes on disk, existing and missing. Each history is repeated until what is left after garbage collection " +
			"(live heap, goroutines, descriptors) reaches a fixed point; steady growth over further repetitions is a violation",
		Run:     runC20,
		Explain: "growth has to show in each of four successive blocks of repetitions, the last ones longer, without slowing down, to be reported",
	})
}

type left20 struct {
	heap int64
	gor  int
	fds  int
}

func measure20() left20 {
	for range 3 {
		runtime.GC()
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	ds, _ := os.ReadDir("/proc/self/fd")
	return left20{int64(m.HeapAlloc), runtime.NumGoroutine(), len(ds)}
}

// grow20 repeats f, n times per block, and reports steady growth.
func grow20(t *T, what func() string, n int, f func(i int)) {
	i := 0
	block := func(n int) left20 {
		for range n {
			f(i)
			i++
		}
		return measure20()
	}
	const per = 96 // bytes per repetition that count as growth
	a := block(max(4, n/4))
	b := block(n)
	t.Eval(1)
	t.Trans(n + n/4)
	heap := func(x, y left20, n int) bool { return y.heap-x.heap > int64(per*n)+2048 }
	gor := func(x, y left20, n int) bool { return y.gor-x.gor >= max(1, n/4) }
	fds := func(x, y left20, n int) bool { return y.fds-x.fds >= max(1, n/4) }
	t.Max("bytes more after the second block", max(0, b.heap-a.heap))
	if !heap(a, b, n) && !gor(a, b, n) && !fds(a, b, n) {
		return
	}
	if gor(a, b, n) { // let them finish
		time.Sleep(20 * time.Millisecond)
	}
	c := block(n)
	if gor(b, c, n) {
		for range 100 {
			time.Sleep(20 * time.Millisecond)
			if c = measure20(); !gor(b, c, n) {
				break
			}
		}
	}
	d := block(3 * n)
	if gor(c, d, 3*n) {
		for range 100 {
			time.Sleep(20 * time.Millisecond)
			if d = measure20(); !gor(c, d, 3*n) {
				break
			}
		}
	}
	grows := heap(a, b, n) && heap(b, c, n) && heap(c, d, 3*n)
	if grows {
		// What settles only slowly slows down (caches of several CPUs, descriptors of goroutines), a leak doesn't
		x := block(12 * n)
		rate := func(x, y left20, n int) int64 { return (y.heap - x.heap) / int64(n) }
		grows = heap(d, x, 12*n) && rate(d, x, 12*n) > rate(a, b, n)/2
	}
	switch {
	case grows:
		t.Failf("memory", "%s: the live heap grows with every repetition: %d, %d, %d, %d bytes after %d, %d, %d, %d and on", what(), a.heap, b.heap, c.heap, d.heap, max(4, n/4), n, n, 3*n)
	case gor(a, b, n) && gor(b, c, n) && gor(c, d, 3*n):
		t.Failf("goroutines", "%s: goroutines accumulate: %d, %d, %d, %d", what(), a.gor, b.gor, c.gor, d.gor)
	case fds(a, b, n) && fds(b, c, n) && fds(c, d, 3*n):
		t.Failf("descriptors", "%s: descriptors accumulate: %d, %d, %d, %d", what(), a.fds, b.fds, c.fds, d.fds)
	}
}

func runC20(e *Env) {
	q := e.Quick()
	ms := meths18(q)
	for _, m := range ms {
		m.large = min(m.large, 3000)
	}
	var acts []int
	for a, n := range acts18 {
		if !strings.Contains(n, "abandoned") {
			acts = append(acts, a)
		}
	}
	n := 24
	if !q {
		n = 60
	}

	e.Group("one extraction")
	for _, m := range ms {
		for _, act := range acts {
			for _, gc := range []int{0, 1, 5} {
				e.Case(func() string { return fmt.Sprintf("%s: any archive %s, collecting every %d", m.name, acts18[act], gc) }, func(t *T) {
					for _, s := range m.subjects() {
						grow20(t, func() string { return fmt.Sprintf("%s, %s, collecting every %d", s.name, acts18[act], gc) }, n, func(i int) {
							var keep []io.Closer
							act18(s, act, &keep)
							if gc > 0 && i%gc == 0 {
								runtime.GC()
							}
						})
						t.Outcome(s.name, act, gc)
					}
				})
			}
		}
	}

	e.Group("two extractions")
	for _, m := range ms {
		if q && !m.quick {
			continue
		}
		for _, a0 := range acts {
			e.Case(func() string { return fmt.Sprintf("%s: any archive %s, then any", m.name, acts18[a0]) }, func(t *T) {
				ss := m.subjects()
				for i0, s0 := range ss {
					if q && i0 != 1 && i0 != 6 && i0 != 3 && i0 != 8 {
						continue
					}
					for _, i1 := range []int{1, 6} {
						for _, a1 := range acts {
							grow20(t, func() string { return fmt.Sprintf("%s, %s; %s, %s", s0.name, acts18[a0], ss[i1].name, acts18[a1]) }, n/2, func(i int) {
								var keep []io.Closer
								act18(s0, a0, &keep)
								act18(ss[i1], a1, &keep)
								if i%4 == 3 {
									runtime.GC()
								}
							})
							t.State(hash18(fmt.Sprint(m.name, a0, i0, a1, i1)))
						}
					}
				}
			})
		}
	}

	e.Group("one reader kept open")
	// all pairs of reads of the files of one archive, on the same reader
	reads := []int{0, 1, 7, -1} // -1: all of it, and the end
	for _, m := range ms {
		for si := range 10 {
			e.Case(func() string { return fmt.Sprintf("%s: archive %d through the same reader", m.name, si) }, func(t *T) {
				s := m.subjects()[si]
				r, err := open(s.b, s.pw)
				if err != nil {
					return
				}
				get := func(i, k int) {
					rc, err := r.File[i].Open()
					if err != nil {
						return
					}
					if k < 0 {
						_, _ = readBounded(rc, int(r.File[i].UncompressedSize))
					} else {
						_, _ = io.ReadFull(rc, make([]byte, k))
					}
					_ = rc.Close()
				}
				for f0 := range r.File {
					for f1 := range r.File {
						for _, k0 := range reads {
							for _, k1 := range reads {
								grow20(t, func() string {
									return fmt.Sprintf("%s through one reader: %d bytes of file %d, %d of file %d", s.name, k0, f0, k1, f1)
								}, n/2, func(i int) {
									get(f0, k0)
									get(f1, k1)
									if i%4 == 3 {
										runtime.GC()
									}
								})
							}
						}
					}
				}
				// both at once
				grow20(t, func() string { return s.name + ": all files at once" }, n, func(i int) {
					var rcs []io.ReadCloser
					for _, f := range r.File {
						if rc, err := f.Open(); err == nil {
							_, _ = io.ReadFull(rc, make([]byte, 1+i%3))
							rcs = append(rcs, rc)
						}
					}
					for _, rc := range rcs {
						_ = rc.Close()
					}
				})
				// lookups
				grow20(t, func() string { return s.name + ": lookups" }, n, func(int) {
					for _, nm := range []string{".", "a", r.File[0].Name, "x/../y", "\xff"} {
						if f, err := r.Open(nm); err == nil {
							_, _ = f.Stat()
							_ = f.Close()
						}
					}
				})
			})
		}
	}

	e.Group("compressed headers")
	for _, m := range ms {
		if m.name == "ppmd" {
			continue
		}
		for _, crc := range []bool{true, false} {
			e.Case(func() string { return fmt.Sprintf("%s: header (CRC %v), every byte altered", m.name, crc) }, func(t *T) {
				a := &Archive{}
				a.AddFolder(m.mk(m.data(31, 7)), names(2), []int{10, 21})
				a.Opts.Encode, a.Opts.EncodedCRC = m.mk, crc
				bu := a.Build()
				for i := bu.EncStart - 1; i < bu.EncEnd; i++ {
					b := bytes.Clone(bu.B)
					if i >= bu.EncStart {
						b[i] ^= 0x81
					}
					grow20(t, func() string { return fmt.Sprintf("%s: header with byte %d altered", m.name, i-bu.EncStart) }, n/2, func(i int) {
						_, _ = open(b, m.pw)
						if i%4 == 3 {
							runtime.GC()
						}
					})
				}
			})
		}
	}

	e.Group("keys")
	for _, cyc := range []int{0, 1, 0x3f} {
		for _, right := range []bool{true, false} {
			for _, vary := range []string{"salts", "passwords"} {
				e.Case(func() string { return fmt.Sprintf("%d cycles, ever new %s, right password %v", cyc, vary, right) }, func(t *T) {
					d := pattern(20, 1)
					var f *Folder
					grow20(t, func() string { return fmt.Sprintf("keys of %d cycles with ever new %s", cyc, vary) }, 600, func(i int) {
						p := AESParams{Password: "secret", Cycles: cyc, Salt: []byte{1, 2, 3, 4}, IV: []byte{1}}
						if vary == "salts" {
							p.Salt = binary.BigEndian.AppendUint64(nil, uint64(i))
						} else {
							p.Password = fmt.Sprint("secret", i)
						}
						f = Chain(d, sAES(p))
						a := &Archive{}
						a.AddFolder(f, names(1), []int{20})
						pw := p.Password
						if !right {
							pw += "x"
						}
						if r, err := open(a.Build().B, pw); err == nil {
							_, _ = extract(r.File[0])
						}
					})
				})
			}
		}
	}

	e.Group("files on disk")
	m := ms[0]
	for vols := 1; vols <= 4; vols++ {
		e.Case(func() string { return fmt.Sprintf("%d volumes", vols) }, func(t *T) {
			dir := filepath.Join(must(os.MkdirTemp(scratch, "c20")))
			defer os.RemoveAll(dir)
			for si, s := range m.subjects() {
				for _, cut := range []int{0, 1, 20, len(s.b) / 2} {
					b := s.b[:len(s.b)-cut]
					name := filepath.Join(dir, fmt.Sprintf("%d-%d.7z", si, cut))
					if vols > 1 {
						for v := range vols {
							must0(os.WriteFile(fmt.Sprintf("%s.%03d", name, v+1), b[len(b)*v/vols:len(b)*(v+1)/vols], 0o600))
						}
						name += ".001"
					} else {
						must0(os.WriteFile(name, b, 0o600))
					}
					for act := range 4 {
						grow20(t, func() string { return fmt.Sprintf("%s in %d volumes, cut by %d, way %d", s.name, vols, cut, act) }, n/2, func(int) {
							nm := name
							if act == 3 {
								nm += ".missing"
							}
							r, err := sevenzip.OpenReaderWithPassword(nm, s.pw)
							if err != nil {
								return
							}
							if act > 0 {
								for _, f := range r.File {
									_, _ = extract(f)
								}
							}
							_ = r.Close()
							if act == 2 {
								_ = r.Close()
							}
						})
					}
				}
			}
		})
	}

	e.Group("decoding in the background")
	for _, m := range ms {
		if !strings.Contains(m.name, "zstd") {
			continue
		}
		for _, act := range acts {
			e.Case(func() string { return fmt.Sprintf("%s with several CPUs: any archive %s", m.name, acts18[act]) }, func(t *T) {
				runtime.GOMAXPROCS(4)
				defer runtime.GOMAXPROCS(1)
				for _, s := range m.subjects() {
					grow20(t, func() string { return fmt.Sprintf("%s, %s, several CPUs", s.name, acts18[act]) }, n, func(i int) {
						var keep []io.Closer
						act18(s, act, &keep)
						if i%3 == 0 {
							runtime.GC()
						}
					})
				}
			})
		}
	}
}
