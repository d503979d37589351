//go:build !instr

package core

func (s Sched) Arm()    {}
func (s Sched) Disarm() {}
