package mon

import (
	"hash/fnv"
	"math/rand"
	"runtime"
	"sync/atomic"
	"syscall"
	"time"
)

// wall is real time in nanoseconds, also inside a bubble.
func wall() int64 {
	var tv syscall.Timeval
	syscall.Gettimeofday(&tv)
	return tv.Nano()
}

// rsleep is a real sleep, also inside a bubble.
func rsleep(ns int64) {
	ts := syscall.NsecToTimespec(ns)
	syscall.Nanosleep(&ts, nil)
}

func hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func mix(xs ...uint64) uint64 {
	var h uint64 = 0x9e3779b97f4a7c15
	for _, x := range xs {
		h ^= x
		h *= 0xbf58476d1ce4e5b9
		h ^= h >> 29
		h *= 0x94d049bb133111eb
		h ^= h >> 31
	}
	return h &^ (1 << 63)
}

var stampNo atomic.Int64

// stamp is a logical clock: a smaller value was taken earlier.
func stamp() int64 { return stampNo.Add(1) }

// settle lets everything that can happen without more input happen. In virtual time an hour costs nothing.
func settle() { time.Sleep(time.Minute) }

func yield(r *rand.Rand) {
	for i := r.Intn(4); i > 0; i-- {
		runtime.Gosched()
	}
}

// plainTouch adds to a counter that nothing protects. The race detector tells if two of its uses are not ordered.
//
//go:noinline
func plainTouch(p *int) int { *p++; return *p }

//go:noinline
func plainRead(p *int) int { return *p }
