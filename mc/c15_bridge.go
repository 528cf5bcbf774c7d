//go:build !nobridge

package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/bodgit/sevenzip"
)

// runC15Builtin replaces every built-in decoder and puts it back.
func runC15Builtin(e *Env) {
	e.Group("built-in identifiers")
	for _, id := range builtin15() {
		e.Case(func() string { return fmt.Sprintf("built-in %x replaced", id) }, func(t *T) {
			d := sevenzip.VerifDecompressor(id)
			if d == nil {
				t.Failf("builtin", "%x has no decoder", id)
			}
			sevenzip.RegisterDecompressor(id, recFactory(900, false))
			defer sevenzip.RegisterDecompressor(id, d)
			// every other one is still the built-in
			for _, z := range methodZoo() {
				content := zooContent(64)
				f := z.mk(content)
				has := false
				for _, c := range f.Coders {
					has = has || bytes.Equal(c.ID, id)
				}
				rec15.calls = nil
				r, err := open(oneFile(f), z.pw)
				if err != nil {
					t.Failf("listing", "%v", err)
				}
				b, err := extract(r.File[0])
				t.Eval(1)
				if !has && (err != nil || !bytes.Equal(b, f.Data)) {
					t.Failf("content", "%x replaced: %s fails: %v", id, z.name, err)
				}
				n := 0
				for _, c := range f.Coders {
					if bytes.Equal(c.ID, id) {
						n++
					}
				}
				if len(rec15.calls) != n && n <= 1 {
					t.Failf("calls", "%x replaced: %s used it %d times, want %d", id, z.name, len(rec15.calls), n)
				}
				for _, c := range rec15.calls {
					ok := false
					for _, k := range f.Coders {
						ok = ok || bytes.Equal(k.ID, id) && bytes.Equal(k.Props, c.props)
					}
					if !ok {
						t.Failf("properties", "%x replaced: %s: properties %x", id, z.name, c.props)
					}
				}
			}
			f := recFolder(id, []byte{1, 2, 3}, 900, []byte{5}, 4)
			b, err := openFirst(t, oneFile(f), "")
			if err != nil || !bytes.Equal(b, f.Data) {
				t.Failf("registered", "%x replaced: %x, %v", id, b, err)
			}
			sevenzip.RegisterDecompressor(id, d)
			for _, z := range methodZoo() {
				f := z.mk(zooContent(64))
				r, err := open(oneFile(f), z.pw)
				if err != nil {
					t.Failf("listing", "%v", err)
				}
				b, err := extract(r.File[0])
				t.Eval(1)
				if err != nil || !bytes.Equal(b, f.Data) {
					t.Failf("content", "%x restored: %s fails: %v", id, z.name, err)
				}
			}
		})
	}
}

var _ io.Reader
