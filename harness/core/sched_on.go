//go:build instr

package core

import "github.com/go-stomp/stomp/v3/verifsched"

func (s Sched) Arm()    { verifsched.Configure(s.Seed, s.OneIn, s.MaxNs) }
func (s Sched) Disarm() { verifsched.Disable() }
