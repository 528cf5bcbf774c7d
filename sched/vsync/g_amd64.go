package verifsync

func getg() uintptr

// goid identifies the calling goroutine.
//
//go:norace
func goid() uint64 { return uint64(getg()) }
