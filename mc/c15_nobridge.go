//go:build nobridge

package main

func runC15Builtin(e *Env) {}
