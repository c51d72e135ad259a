// Package vsched perturbs goroutine schedules. It is not part of braid: the verification build adds it, and calls
// to P at every statement of the instrumented braid packages, through a build overlay (see harness/instr).
//
// P must not create happens-before edges between goroutines, or it would hide data races from the race detector.
// It therefore reads its configuration with atomic loads only and takes its randomness from the runtime.
package vsched

import (
	"math/rand/v2"
	"runtime"
	"sync/atomic"
	"syscall"
)

var (
	level atomic.Uint32 // 0 off, 1 light, 2 heavy, 3 heavy with more sites that delay for long
	salt  atomic.Uint32 // selects the sites that delay for long
)

// Set is called between cases only.
func Set(l, s uint32) { level.Store(l); salt.Store(s) }

func sleep(ns int64) {
	ts := syscall.NsecToTimespec(ns)
	syscall.Nanosleep(&ts, nil)
}

// P is a preemption point.
func P(site uint32) {
	l := level.Load()
	if l == 0 {
		return
	}
	r := rand.Uint32()
	h := (site ^ salt.Load()) * 2654435761
	if h>>26 == 0 || l == 3 && h>>29 == 0 { // a hot site of this case, one in 64
		switch {
		case r&7 == 0 && l > 1:
			sleep(int64(20_000 + (r>>8)%180_000))
		case r&3 == 0:
			for i := uint32(0); i < 1+(r>>8)%8; i++ {
				runtime.Gosched()
			}
		}
		return
	}
	switch {
	case r&15 == 0:
		runtime.Gosched()
	case r&2047 == 1 && l > 1:
		sleep(int64(1_000 + (r>>12)%40_000))
	}
}

// T is a preemption point between the operands of &&, F one between those of ||.
func T(site uint32) bool { P(site); return true }
func F(site uint32) bool { P(site); return false }

// Noise is what the harness' log sink does at every log call of braid.
func Noise() {
	if level.Load() == 0 {
		return
	}
	r := rand.Uint32()
	if r&3 == 0 {
		runtime.Gosched()
	}
	if r&1023 == 2 {
		sleep(int64(1_000 + (r>>12)%100_000))
	}
}
