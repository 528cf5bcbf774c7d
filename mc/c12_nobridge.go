//go:build nobridge

package main

func runC12Mock(e *Env) {
	e.Note("built without the in-package bridge: faults of opening, inspecting and closing are explored on disk only")
}
