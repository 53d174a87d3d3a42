//go:build fixedrand

// Package rngctl cannot replace the generator: its functions are not variables.
package rngctl

func Set(u32 func() uint32, u64 func() uint64) bool { return false }

func Reset() {}
