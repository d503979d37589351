// Package verifsched is injected into the module under test by a build overlay
// (it does not exist in the repository). It owns the scheduling points.
package verifsched

import (
	"sync/atomic"
	"time"
)

var (
	enabled atomic.Bool
	seed    atomic.Uint64
	ctr     atomic.Uint64
	period  atomic.Uint64 // a point delays with probability 1/period
	spread  atomic.Uint64 // delays are 1..spread virtual nanoseconds
	hits    atomic.Uint64
	delays  atomic.Uint64
	spent   atomic.Int64
)

// Budget bounds the sum of all delays since Configure, and so what the points can
// add to any latency (nearly: past it every delay is one nanosecond).
const Budget = 50 * time.Millisecond

// Configure arms the scheduling points. Only goroutines of the current
// synctest bubble may run library code while they are armed.
func Configure(s uint64, oneIn, maxNs int) {
	if oneIn <= 0 || maxNs <= 0 {
		enabled.Store(false)
		return
	}
	seed.Store(s)
	ctr.Store(0)
	spent.Store(0)
	period.Store(uint64(oneIn))
	spread.Store(uint64(maxNs))
	enabled.Store(true)
}

// Disable disarms all points.
func Disable() { enabled.Store(false) }

// Stats returns how many points were passed and how many delayed.
func Stats() (uint64, uint64) { return hits.Load(), delays.Load() }

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Rand returns a value of the schedule stream.
func Rand() uint64 { return mix(seed.Load() ^ mix(ctr.Add(1))) }

// Enabled reports whether points are armed.
func Enabled() bool { return enabled.Load() }

// Point is a scheduling point.
func Point() {
	if !enabled.Load() {
		return
	}
	hits.Add(1)
	r := Rand()
	if (r>>32)%period.Load() != 0 {
		return
	}
	delays.Add(1)
	d := time.Duration(1 + (r&0xffffffff)%spread.Load())
	if spent.Add(int64(d)) > int64(Budget) {
		d = 1
	}
	time.Sleep(d)
}
