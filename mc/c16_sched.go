//go:build sched

package main

import (
	"fmt"

	verifsync "verif.local/sched/vsync"
)

func init() {
	point16 = verifsync.Point
	concurrent16 = func(e *Env) {
		e.Group("a goroutine per stream")
		chain := func(st ...Stage) func(d []byte) *Folder { return func(d []byte) *Folder { return Chain(d, st...) } }
		type cfg struct {
			o     *order16
			bound int
			sets  [][]int // read amounts by file
		}
		var sets [][]int
		forProduct([]int{amts, amts}, func(v []int) { sets = append(sets, append([]int{}, v...)) })
		few := [][]int{{amtNone, amtEOF}, {amtPart, amtAll}, {amtAll, amtPart}, {amtEOF, amtEOF}}
		b := 2
		if !e.Quick() {
			b = 3
		}
		cfgs := []cfg{
			{mkOrder("counted", "", []func(d []byte) *Folder{sCount(0), sCount(1)}, true, []int{4, 5}, []int{3, 6}), b, sets},
			{mkOrder("counted, three", "", []func(d []byte) *Folder{sCount(0), sCount(1), sCount(2)}, true, []int{4, 5}, []int{3, 6}, []int{2, 2}), b - 1, few},
			{mkOrder("copy", "", []func(d []byte) *Folder{chain(sCopy())}, false, []int{4, 5}, []int{3, 6}), b, few},
			{mkOrder("deflate", "", []func(d []byte) *Folder{chain(sDeflate())}, false, []int{40, 50}, []int{30, 60}), b, few},
			{mkOrder("zstd, lz4", "", []func(d []byte) *Folder{chain(sZstd()), chain(sLZ4())}, false, []int{40, 50}, []int{30, 60}), b, few},
			{mkOrder("brotli, lzma2", "", []func(d []byte) *Folder{chain(sBrotli(true)), chain(sLZMA2())}, false, []int{40, 50}, []int{30, 60}), b, few},
			{mkOrder("aes", aesQuick.Password, []func(d []byte) *Folder{chain(sAES(aesQuick))}, false, []int{40, 50}, []int{30, 60}), b, few},
		}
		for _, c := range cfgs {
			for _, am := range c.sets {
				for v := range 4 {
					e.Case(func() string {
						return fmt.Sprintf("%s: a goroutine per stream, read amounts %v, variant %d, %d preemptions", c.o.name, am, v, c.bound)
					}, func(t *T) {
						var x *run16
						explore04(t, c.bound, func() ([]func(), func() string) {
							x = newRun16(t, c.o, func() string { return fmt.Sprintf("a goroutine per stream, read amounts %v, variant %d", am, v) })
							x.twice, x.fs = v&1 == 1, v&2 == 2
							problems := make([]string, len(c.o.streams))
							fs := make([]func(), len(c.o.streams))
							for s := range fs {
								fs[s] = func() {
									defer func() {
										switch p := recover().(type) {
										case nil:
										case failure:
											problems[s] = p.key + ": " + p.detail
										default:
											panic(p)
										}
									}()
									for f, a := range am {
										if s%2 == 1 {
											a = am[len(am)-1-f]
										}
										verifsync.Point()
										x.file(s, f, a)
									}
								}
							}
							return fs, func() string {
								for _, p := range problems {
									if p != "" {
										return p
									}
								}
								x.finish()
								return ""
							}
						})
					})
				}
			}
		}
	}
}
