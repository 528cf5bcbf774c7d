//go:build nobridge

package main

func limitDecoders() bool { return false }
