package props

import (
	"fmt"
	"time"

	stomp "github.com/go-stomp/stomp/v3"
	"pgregory.net/rapid"

	"verif.local/harness/core"
)

// ---------------------------------------------------------------- C15

func genC15(t *rapid.T) CPlan {
	var p CPlan
	switch pick(t, "kind", 4, 4, 3, 2) {
	case 0:
		p = genC05(t)
	case 1:
		p = genC08(t)
	case 2:
		p = genC09(t)
	case 3:
		p = genC03(t)
	}
	p.Stall = min(p.Stall, 1000)
	p.Conn.Stats = !chance(t, "no-stats", 12)
	if chance(t, "hb", 30) {
		x := rapid.SampledFrom([]int{100, 500, 3000}).Draw(t, "hb-ms")
		p.Conn.HB = []int{x, x, x, x, 100}
		p.Conn.C2S.Cap, p.Conn.S2C.Cap = 0, 0
		p.Stall = 0
		for g := range p.Prog {
			for i := range p.Prog[g] {
				p.Prog[g][i].Slow = 0
			}
		}
	}
	if chance(t, "end", 20) {
		p.End = genEnd(t, false)
	}
	for g := range p.Prog {
		var ops []COp
		for _, o := range p.Prog[g] {
			if o.K == "sub" && chance(t, "refused", 8) {
				r := o
				r.Bad = rng(t, "refused-kind", 1, 2)
				ops = append(ops, r)
			}
			ops = append(ops, o)
			if chance(t, "stats-op", 25) {
				ops = append(ops, COp{K: "stats", Ms: pick(t, "stats-ms", 4, 2, 1, 1)})
			}
		}
		p.Prog[g] = ops
	}
	for i, n := 0, rng(t, "nbeats", 0, 5); i < n; i++ {
		p.Steps = append(p.Steps, PStep{Ms: rng(t, "step-ms", 0, 4), K: rapid.SampledFrom([]string{"beat", "receipt", "odd"}).Draw(t, "more"), N: 1, Id: "nobody"})
	}
	if chance(t, "fin", 40) {
		p.Fin = rapid.SampledFrom([]string{"must", "eof"}).Draw(t, "fin-kind")
	}
	return p
}

// capacity of the channels of the connection.
func chanCap(n int) int {
	if n > 0 {
		return n
	}
	return 20
}

func (h *CHist) checkStats(what string, s stomp.ConnectionStats, from, to time.Duration) string {
	pl, p := h.w.plan, h.w.peer
	if s.CurrentReadChanSize < 0 || s.CurrentReadChanSize > chanCap(pl.Conn.ReadCh) || s.CurrentWriteChanSize < 0 || s.CurrentWriteChanSize > chanCap(pl.Conn.WriteCh) {
		return fmt.Sprintf("%s: the channel sizes are outside of their capacities, %d and %d", what, chanCap(pl.Conn.ReadCh), chanCap(pl.Conn.WriteCh))
	}
	if !pl.Conn.Stats {
		if s.WritesSent != 0 || s.ReadsReceived != 0 {
			return what + ": the connection was made without statistics"
		}
		return ""
	}
	var lo, hi int64
	for _, f := range p.in {
		if f.At < from {
			lo++
		}
	}
	for _, o := range h.w.outs {
		if o.Skip || o.Start > to {
			continue
		}
		switch o.Op.K {
		case "stats":
			continue
		case "ack", "nack", "tack", "tnack":
			if _, _, ok, _ := h.ackFrame(o); !ok {
				continue
			}
		}
		if o.Done && o.Err != nil {
			if o.Op.Bad > 0 || o.TxDone || errText(o.Err) == stomp.ErrNilOption.Error() {
				continue // refused
			}
			switch errText(o.Err) {
			case stomp.ErrAlreadyClosed.Error(), stomp.ErrCompletedTransaction.Error(), stomp.ErrCompletedSubscription.Error():
				continue
			}
		}
		hi++
	}
	if h.FinAt > 0 && to >= h.FinAt && pl.Fin == "" {
		hi++
	}
	if s.WritesSent < lo || s.WritesSent > hi {
		return fmt.Sprintf("%s: %d writes, but %d frames had arrived at the server, and %d operations that send one had begun", what, s.WritesSent, lo, hi)
	}
	hi = 0
	for _, u := range p.units {
		if u.At <= to {
			hi++
		}
	}
	if s.ReadsReceived < 0 || s.ReadsReceived > hi {
		return fmt.Sprintf("%s: %d reads, but the server had begun to write %d frames and heart-beats", what, s.ReadsReceived, hi)
	}
	lo = 0
	for _, c := range h.w.subs {
		for _, m := range c.msgs {
			if m.Err == nil && m.At < from {
				lo++
			}
		}
	}
	if s.ReadsReceived < lo {
		return fmt.Sprintf("%s: %d reads, but %d messages had been delivered", what, s.ReadsReceived, lo)
	}
	return ""
}

func init() {
	core.Register("C15", core.Check[CPlan]{
		Name: "statistics", Gen: genC15, Cases: [2]int{12000, 400000},
		Rule: "the statistics were enabled and read at the end, with at least two frames sent and two received",
		Exec: func(x *core.Ctx, p CPlan) Result {
			h := p.run(x)
			if s := h.early(); s != "" {
				return Result{Fail: s}
			}
			w := h.w
			if h.Hung || h.Forced {
				return h.failf("an operation did not return")
			}
			var prev *COut
			uncertain := p.End.Kind != ""
			for _, o := range w.outs {
				if o.Skip {
					continue
				}
				switch errText(o.Err) {
				case stomp.ErrMsgSendTimeout.Error(), stomp.ErrMsgReceiptTimeout.Error(), stomp.ErrUnsubscribeReceiptTimeout.Error():
					uncertain = true
				}
				if o.Op.K != "stats" {
					continue
				}
				if s := h.checkStats(fmt.Sprintf("%v: %+v", o, o.Stats), o.Stats, o.Start, o.End); s != "" {
					return h.failf("%s", s)
				}
				if prev != nil && prev.endSeq < o.seq && prev.G == o.G && (o.Stats.WritesSent < prev.Stats.WritesSent || o.Stats.ReadsReceived < prev.Stats.ReadsReceived) {
					return h.failf("%v: %+v: less than before, %+v", o, o.Stats, prev.Stats)
				}
				prev = o
			}
			q := fmt.Sprintf("after all operations at %v: %+v", h.FinAt, h.Quiet)
			if s := h.checkStats(q, h.Quiet, h.FinAt, h.FinAt); s != "" {
				return h.failf("%s", s)
			}
			if s := h.checkStats(fmt.Sprintf("after the end: %+v", h.After), h.After, h.FinAt, time.Hour*1000); s != "" {
				return h.failf("%s", s)
			}
			var in, out, begun int64
			for _, f := range w.peer.in {
				if f.At < h.FinAt {
					in++
				}
			}
			for _, u := range w.peer.units {
				if u.End >= 0 && u.End <= h.FinAt-time.Second/10 {
					out++
				}
				if u.At <= h.FinAt {
					begun++
				}
			}
			if !uncertain && p.Conn.Stats {
				if h.Quiet.WritesSent != in {
					return h.failf("%s: %d frames have been sent", q, in)
				}
				if h.Quiet.ReadsReceived < out || h.Quiet.ReadsReceived > begun {
					return h.failf("%s: %d (to %d) frames and heart-beats have been received", q, out, begun)
				}
			}
			if !uncertain && len(p.Conn.HB) == 0 && (h.Quiet.CurrentReadChanSize != 0 || h.Quiet.CurrentWriteChanSize != 0) {
				return h.failf("%s: nothing is waiting in the channels", q)
			}
			if p.Conn.Stats && h.After.WritesSent < h.Quiet.WritesSent || h.After.ReadsReceived < h.Quiet.ReadsReceived {
				return h.failf("after the end: %+v: less than before, %+v", h.After, h.Quiet)
			}
			if !uncertain && p.Conn.Stats {
				add := int64(0)
				if p.Fin == "" {
					add = 1
				}
				if h.After.WritesSent != in+add {
					return h.failf("after the end: %+v: %d frames have been sent", h.After, in+add)
				}
			}
			return Result{NonTrivial: p.Conn.Stats && in > 1 && out > 1, Labels: []string{sizeLabel("frames sent", int(in)), sizeLabel("received", int(out)), fmt.Sprintf("exact:%v", !uncertain && p.Conn.Stats), "fin:" + p.Fin}}
		},
	})
}
