//go:build !fixedrand

// Package rngctl replaces the generator underneath fastrand.
package rngctl

import "github.com/miniLCT/gosb/hack/fastrand"

var own32, own64, own = fastrand.Uint32, fastrand.Uint64, fastrand.Uint

// Set replaces the draws, and reports whether that is possible.
func Set(u32 func() uint32, u64 func() uint64) bool {
	fastrand.Uint32, fastrand.Uint64 = u32, u64
	fastrand.Uint = func() uint { return uint(u64()) }
	return true
}

// Reset restores the generator.
func Reset() { fastrand.Uint32, fastrand.Uint64, fastrand.Uint = own32, own64, own }
