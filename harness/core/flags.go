package core

import (
	"flag"
	"strconv"
)

func setRapidChecks(n int) {
	if f := flag.Lookup("rapid.checks"); f != nil {
		_ = f.Value.Set(strconv.Itoa(n))
	}
}

// Sched arms the scheduling points of an instrumented build.
type Sched struct {
	Seed  uint64 `json:"seed,omitempty"`
	OneIn int    `json:"one_in,omitempty"` // 0: no points
	MaxNs int    `json:"max_ns,omitempty"`
}
