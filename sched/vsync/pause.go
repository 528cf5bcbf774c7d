package verifsync

import "runtime"

func pause() { runtime.Gosched() }
