//go:build !amd64

package verifsync

import "runtime"

// goid identifies the calling goroutine.
//
//go:norace
func goid() uint64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	var id uint64
	for i := 10; i < n; i++ { // "goroutine "
		if b[i] < '0' || b[i] > '9' {
			break
		}
		id = id*10 + uint64(b[i]-'0')
	}
	return id
}
