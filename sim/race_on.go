//go:build race && go1.21

package verifsim

import (
	"runtime"
	"unsafe"
)

const RaceEnabled = true

//go:norace
func rDisable() { runtime.RaceDisable() }

//go:norace
func rEnable() { runtime.RaceEnable() }

//go:norace
func rAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func rRelease(p unsafe.Pointer) { runtime.RaceRelease(p) }

//go:norace
func rReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

//go:norace
func rRead(p unsafe.Pointer) { runtime.RaceRead(p) }

//go:norace
func rWrite(p unsafe.Pointer) { runtime.RaceWrite(p) }

// RaceErrors is the number of data races the detector has reported so far in this process.
func RaceErrors() int { return runtime.RaceErrors() }
