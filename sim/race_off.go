//go:build !race && go1.21

package verifsim

import "unsafe"

const RaceEnabled = false

func rDisable()                      {}
func rEnable()                       {}
func rAcquire(p unsafe.Pointer)      {}
func rRelease(p unsafe.Pointer)      {}
func rReleaseMerge(p unsafe.Pointer) {}
func rRead(p unsafe.Pointer)         {}
func rWrite(p unsafe.Pointer)        {}

// RaceErrors is the number of data races the detector has reported so far in this process.
func RaceErrors() int { return 0 }
