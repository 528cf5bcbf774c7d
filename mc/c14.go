package main

// C14: attributes and timestamps are translated faithfully for every value.

import (
	"fmt"
	iofs "io/fs"
	"strings"
	"time"

	"github.com/bodgit/sevenzip"
)

func init() {
	register(&Check{
		ID:    "C14",
		Level: "exploration",
		Rule: "all 2^32 attribute values are translated by FileHeader.Mode and compared with an independent table; FileInfo's Mode, IsDir and Type are compared for all of the values that differ in bits the mode depends on; " +
			"attributes and FILETIMEs also take the way through a header, with every mask of absent ones. FILETIMEs: every value with at most two bytes different from 0 or 0xff, every power of two, ten and every limit of " +
			"64-bit arithmetic with its neighbours, every second around the epochs, and the first and last tick of every day up to the year 3000 (thorough: 60056, the format's range) - compared with an independent calendar",
		Run: runC14,
		Assumptions: []string{
			"POSIX bits are stored if the file type among them is not zero",
		},
		Explain: "the attribute space is covered completely; the timestamp space by structured enumeration through the real header parser",
	})
}

// posixMode is what the 16 POSIX bits denote.
func posixMode(u uint32) iofs.FileMode {
	var m iofs.FileMode
	for i, b := range []iofs.FileMode{0o1, 0o2, 0o4, 0o10, 0o20, 0o40, 0o100, 0o200, 0o400, iofs.ModeSticky, iofs.ModeSetgid, iofs.ModeSetuid} {
		if u>>i&1 == 1 {
			m |= b
		}
	}
	switch u >> 12 {
	case 1:
		m |= iofs.ModeNamedPipe
	case 2:
		m |= iofs.ModeDevice | iofs.ModeCharDevice
	case 4:
		m |= iofs.ModeDir
	case 6:
		m |= iofs.ModeDevice
	case 10:
		m |= iofs.ModeSymlink
	case 12:
		m |= iofs.ModeSocket
	}
	return m
}

func dosMode(a uint32) iofs.FileMode {
	switch a & 0x11 {
	case 0x00:
		return 0o666
	case 0x01:
		return 0o444
	case 0x10:
		return iofs.ModeDir | 0o777
	}
	return iofs.ModeDir | 0o555
}

func wantMode(a uint32) iofs.FileMode {
	if a>>28 != 0 {
		return posixMode(a >> 16)
	}
	return dosMode(a)
}

type civil struct {
	y          int64
	m, d       int
	h, mi, s   int
	ns         int
	unix, days int64
}

// civilTime is the calendar time of a FILETIME.
func civilTime(ft uint64) civil {
	sec := ft / 10000000
	c := civil{ns: int(ft%10000000) * 100, unix: int64(sec) - 11644473600}
	days := int64(sec / 86400)
	c.days = days
	r := int(sec % 86400)
	c.h, c.mi, c.s = r/3600, r/60%60, r%60
	// 1601-01-01 starts a cycle of 400 years
	c.y = 1601 + days/146097*400
	d := int(days % 146097)
	leap := func(y int64) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }
	n := min(d/36524, 3)
	c.y += int64(n) * 100
	d -= n * 36524
	n = d / 1461
	c.y += int64(n) * 4
	d -= n * 1461
	n = min(d/365, 3)
	c.y += int64(n)
	d -= n * 365
	len := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	if leap(c.y) {
		len[1]++
	}
	for d >= len[c.m] {
		d -= len[c.m]
		c.m++
	}
	c.m++
	c.d = d + 1
	return c
}

func checkTime(t *T, got time.Time, ft uint64, what string) {
	c := civilTime(ft)
	y, m, d := got.Date()
	if got.Unix() != c.unix || got.Nanosecond() != c.ns || int64(y) != c.y || int(m) != c.m || d != c.d || got.Hour() != c.h || got.Minute() != c.mi || got.Second() != c.s {
		t.Failf("time", "%s: FILETIME %#x is %v, want %d-%02d-%02d %02d:%02d:%02d.%09d", what, ft, got, c.y, c.m, c.d, c.h, c.mi, c.s, c.ns)
	}
	if got.Location() != time.UTC {
		t.Failf("utc", "%s: FILETIME %#x in %v", what, ft, got.Location())
	}
}

func attrArchive(attrs []uint32) *Archive {
	a := &Archive{}
	for i := range attrs {
		v := attrs[i]
		a.Entries = append(a.Entries, Entry{Name: fmt.Sprintf("f%d", i), EmptyFile: wantMode(v)&iofs.ModeDir == 0, Attr: &v})
	}
	return a
}

func checkInfo(t *T, fi iofs.FileInfo, a uint32, what string) {
	want := wantMode(a)
	if fi.Mode() != want || fi.IsDir() != want.IsDir() || fi.Mode().IsDir() != fi.IsDir() {
		t.Failf("mode", "%s: attributes %#08x: Mode %v IsDir %v, want %v", what, a, fi.Mode(), fi.IsDir(), want)
	}
	if de, ok := fi.(iofs.DirEntry); ok {
		i, err := de.Info()
		if de.Type() != want.Type() || de.IsDir() != want.IsDir() || err != nil || i.Mode() != want {
			t.Failf("mode", "%s: attributes %#08x: Type %v, want %v", what, a, de.Type(), want.Type())
		}
	}
}

// byteTimes enumerates values with at most two bytes different from the fill.
func byteTimes(fill byte, p, q int, f func(v uint64)) {
	var base uint64
	for range 8 {
		base = base<<8 | uint64(fill)
	}
	for x := range 256 {
		for y := range 256 {
			v := base&^(0xff<<(8*p))&^(0xff<<(8*q)) | uint64(x)<<(8*p) | uint64(y)<<(8*q)
			f(v)
		}
	}
}

func runTimes(e *Env, name string, gen func(f func(v uint64))) {
	e.Case(func() string { return name }, func(t *T) {
		var batch []uint64
		flush := func() {
			a := &Archive{}
			for i := range batch {
				c, m := batch[len(batch)-1-i], ^batch[i]
				at := batch[i]
				a.Entries = append(a.Entries, Entry{Name: "x", EmptyFile: true, C: &c, A: &at, M: &m})
			}
			b := a.Build().B
			r, err := open(b, "")
			if err != nil || len(r.File) != len(batch) {
				t.Failf("open", "%d timestamps: %v", len(batch), err)
			}
			for i, f := range r.File {
				checkTime(t, f.Created, *a.Entries[i].C, "Created")
				checkTime(t, f.Accessed, *a.Entries[i].A, "Accessed")
				checkTime(t, f.Modified, *a.Entries[i].M, "Modified")
				checkTime(t, f.FileInfo().ModTime(), *a.Entries[i].M, "ModTime")
			}
			t.Eval(3 * len(batch))
			t.Outcome(name, len(batch), batch[0])
			batch = batch[:0]
		}
		gen(func(v uint64) {
			batch = append(batch, v)
			if len(batch) == 8192 {
				flush()
			}
		})
		if len(batch) > 0 {
			flush()
		}
	})
}

func runC14(e *Env) {
	e.Group("every attribute value")
	for hi := range 1 << 12 {
		e.Case(func() string { return fmt.Sprintf("attributes %#03xxxxxx", hi) }, func(t *T) {
			h := new(sevenzip.FileHeader)
			for lo := range uint32(1 << 20) {
				a := uint32(hi)<<20 | lo
				h.Attributes = a
				if m := h.Mode(); m != wantMode(a) {
					t.Failf("mode", "attributes %#08x: Mode() = %v (%#o), want %v (%#o)", a, m, uint32(m), wantMode(a), uint32(wantMode(a)))
				}
			}
			t.Eval(1 << 20)
			t.Outcome(hi)
		})
	}

	e.Group("file information")
	lows := []uint32{0, 1, 0x10, 0x11, 0x20, 0x21, 0x8000, 0x8010, 0x8011, 0xffff, 0xffee, 0x400}
	for hi := range 1 << 8 {
		e.Case(func() string { return fmt.Sprintf("FileInfo for POSIX bits %#02xxx", hi) }, func(t *T) {
			for l := range uint32(256) {
				for _, low := range lows {
					a := uint32(hi)<<24 | l<<16 | low
					h := &sevenzip.FileHeader{Name: "x", Attributes: a}
					checkInfo(t, h.FileInfo(), a, "FileInfo")
					t.Eval(1)
				}
			}
		})
		e.Case(func() string { return fmt.Sprintf("FileInfo for DOS bits %#02xxx", hi) }, func(t *T) {
			for l := range uint32(256) {
				for _, high := range []uint32{0, 0x0fff0000, 0x01ed0000, 0x41ed0000, 0x81a40000} {
					a := high | uint32(hi)<<8 | l
					h := &sevenzip.FileHeader{Name: "x", Attributes: a}
					checkInfo(t, h.FileInfo(), a, "FileInfo")
					t.Eval(1)
				}
			}
		})
	}

	e.Group("attributes through the header and the file system view")
	for hi := range 1 << 8 {
		e.Case(func() string { return fmt.Sprintf("archive with attributes %#02xxxxxxx", hi) }, func(t *T) {
			for _, low := range lows {
				var attrs []uint32
				for l := range uint32(256) {
					attrs = append(attrs, uint32(hi)<<24|l<<16|low)
				}
				a := attrArchive(attrs)
				a.Opts.VectorProps = low&1 == 1
				r, err := open(a.Build().B, "")
				if err != nil || len(r.File) != len(attrs) {
					t.Failf("open", "%v", err)
				}
				for i, f := range r.File {
					if f.Attributes != attrs[i] {
						t.Failf("attributes", "attributes %#08x read as %#08x", attrs[i], f.Attributes)
					}
					checkInfo(t, f.FileInfo(), attrs[i], "File.FileInfo")
					if strings.HasSuffix(f.Name, "/") != wantMode(attrs[i]).IsDir() {
						t.Failf("mode", "attributes %#08x: name %q", attrs[i], f.Name)
					}
				}
				root, err := iofs.ReadDir(r, ".")
				if err != nil || len(root) != len(attrs) {
					t.Failf("readdir", "%d entries, %v", len(root), err)
				}
				for _, de := range root {
					var i int
					if _, err := fmt.Sscanf(de.Name(), "f%d", &i); err != nil || i >= len(attrs) {
						t.Failf("readdir", "unexpected entry %q", de.Name())
					}
					want := wantMode(attrs[i])
					fi, err := iofs.Stat(r, de.Name())
					if err != nil {
						t.Failf("stat", "%v", err)
					}
					// directories of the view are always 0555
					if want.IsDir() {
						if !fi.IsDir() || !de.IsDir() || fi.Mode().Type() != iofs.ModeDir || de.Type() != iofs.ModeDir {
							t.Failf("mode", "attributes %#08x: the view has %v, %v", attrs[i], fi.Mode(), de.Type())
						}
						continue
					}
					checkInfo(t, fi, attrs[i], "Stat")
					if de.Type() != want.Type() || de.IsDir() {
						t.Failf("mode", "attributes %#08x: the view's entry has %v", attrs[i], de.Type())
					}
				}
				t.Eval(len(attrs))
			}
		})
	}

	e.Group("absent attributes and timestamps")
	for n := 1; n <= 9; n++ {
		kinds := 4
		if n > 3 {
			kinds = 1
		}
		dims := make([]int, kinds)
		for i := range dims {
			dims[i] = 1 << n
		}
		e.Case(func() string { return fmt.Sprintf("every mask of absent ones for %d entries", n) }, func(t *T) {
			forProduct(dims, func(v []int) {
				a := &Archive{}
				bit := func(k, i int) bool { return v[k%kinds]>>((i+k/kinds)%n)&1 == 1 }
				for i := range n {
					en := Entry{Name: fmt.Sprintf("f%d", i), EmptyFile: true}
					if bit(0, i) {
						en.C = ftime(3 * i)
					}
					if bit(1, i) {
						en.A = ftime(3*i + 1)
					}
					if bit(2, i) {
						en.M = ftime(3*i + 2)
					}
					if bit(3, i) {
						en.Attr = p32(0x81a40020 + uint32(i))
					}
					a.Entries = append(a.Entries, en)
				}
				r, err := open(a.Build().B, "")
				if err != nil || len(r.File) != n {
					t.Failf("open", "masks %v: %v", v, err)
				}
				for i, f := range r.File {
					en := &a.Entries[i]
					for k, p := range []struct {
						got  time.Time
						want *uint64
					}{{f.Created, en.C}, {f.Accessed, en.A}, {f.Modified, en.M}, {f.FileInfo().ModTime(), en.M}} {
						if p.want == nil {
							if !p.got.IsZero() || p.got.Location() != time.UTC {
								t.Failf("absent", "masks %v: absent timestamp %d of entry %d is %v", v, k, i, p.got)
							}
						} else {
							checkTime(t, p.got, *p.want, fmt.Sprintf("masks %v", v))
						}
					}
					if en.Attr == nil && (f.Attributes != 0 || f.Mode() != 0o666) || en.Attr != nil && f.Attributes != *en.Attr {
						t.Failf("absent", "masks %v: attributes of entry %d are %#x", v, i, f.Attributes)
					}
				}
				t.Eval(1)
				t.OutcomeHash(uint64(n)<<32 | uint64(v[0]))
			})
		})
	}

	e.Group("timestamps")
	for p := range 8 {
		for q := range p {
			for _, fill := range []byte{0, 0xff} {
				runTimes(e, fmt.Sprintf("all FILETIMEs of %02x but bytes %d and %d", fill, p, q), func(f func(v uint64)) { byteTimes(fill, p, q, f) })
			}
		}
	}
	runTimes(e, "limits", func(f func(v uint64)) {
		const epoch = 116444736000000000
		var l []uint64
		for i := range 64 {
			l = append(l, 1<<i, 3<<i, epoch+1<<i, epoch-1<<i, 1<<63+1<<i)
		}
		for p := uint64(1); p < 1e19; p *= 10 {
			l = append(l, p, 7*p, epoch+p, epoch-p)
		}
		// limits of nanoseconds, microseconds, milliseconds and seconds in 32 and 64 bits
		l = append(l, epoch, epoch+(1<<63)/100, epoch-(1<<63)/100, (1<<63)/100, epoch+1<<31*10000000, epoch-1<<31*10000000, epoch+1<<32*10000000, 1<<32*10000000, 1<<31*10000000, 1<<63, ^uint64(0), 18446744073709551615/100, 0)
		for _, v := range l {
			for d := range uint64(301) {
				f(v + d - 150)
			}
			for d := range uint64(7) {
				f(v + (d-3)*10000000)
				f(v + (d-3)*864000000000)
			}
		}
	})
	runTimes(e, "every tick of a millisecond around the epochs", func(f func(v uint64)) {
		for _, b := range []uint64{0, 116444736000000000, 132223104000000000} {
			for d := range uint64(20000) {
				f(b + d - 10000)
			}
		}
	})
	runTimes(e, "every second of two days around the epochs", func(f func(v uint64)) {
		for _, b := range []uint64{0, 116444736000000000, 125911584000000000} {
			for d := range uint64(172800) {
				f(b + d*10000000 + d%10)
			}
		}
	})
	lastDay := uint64(511000) // to the year 3000
	if !e.Quick() {
		lastDay = 18446744073709551615 / 864000000000
	}
	for d := uint64(0); d < lastDay; d += 8192 {
		runTimes(e, fmt.Sprintf("8192 days from day %d", d), func(f func(v uint64)) {
			for i := d; i < min(d+8192, lastDay); i++ {
				f(i * 864000000000)
				f(i*864000000000 + 863999999999)
			}
		})
	}
}
