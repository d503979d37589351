package props

import (
	"fmt"
	"time"

	stomp "github.com/go-stomp/stomp/v3"
	"pgregory.net/rapid"

	"verif.local/harness/core"
	"verif.local/harness/netsim"
)

// ---------------------------------------------------------------- C05

func genSubOp(t *rapid.T, slot int, tag string) COp {
	o := COp{K: "sub", S: slot, Dest: Str("/s/" + tag), Mode: rng(t, "mode", 0, 2)}
	switch pick(t, "sub-id", 5, 2, 2, 1, 3) {
	case 1:
		o.Id = Str("id-" + tag)
	case 2:
		o.Id = strNasty(t, "sub-id", 1) + Str("-"+tag)
	case 3:
		o.Id = Str("00" + itoa(slot))
	case 4: // different, but not for a careless comparison
		like := []Str{"x", "X", "x ", "xx", "x/", "0x", "+1", "1.0", "\u00e9", "e\u0301", "x:", "x\n", "x\\n"}
		o.Id = like[slot%len(like)]
		if slot >= len(like) {
			o.Id += Str(tag)
		}
	}
	if chance(t, "sub-h", 20) {
		o.H = []KV{{"selector", strNasty(t, "selector", 0)}}
	}
	if chance(t, "sub-slow", 25) {
		o.Slow = rng(t, "slow", 1, 20)
	}
	o.Read = chance(t, "sub-read", 25)
	return o
}

func genC05(t *rapid.T) CPlan {
	p := CPlan{Conn: genConn(t), Sched: genSched(t), Rcpt: []RAct{{}, {Ms: 3}}}
	p.OnMsg = genMPlan(t, 200)
	p.Rcpt[0].Pre, p.Rcpt[0].Post = rng(t, "pre", 0, 3), rng(t, "post", 0, 3)
	big := chance(t, "big", 20)
	max := 200
	if big {
		max = 100000
	}
	many := chance(t, "many-subs", 15)
	ng := rng(t, "goroutines", 1, 3)
	slot := 0
	for g := 0; g < ng; g++ {
		var ops []COp
		var mine []int
		n := rng(t, "n", 1, 8)
		if many {
			n = rng(t, "n-many", 15, 50)
		}
		tx := false
		for i := 0; i < n; i++ {
			k := pick(t, "op", 6, 2, 2, 1)
			if many {
				k = pick(t, "op", 20, 1, 1, 1)
			}
			switch k {
			case 0:
				ops = append(ops, genSubOp(t, slot, opTag(g, i)))
				mine = append(mine, slot)
				slot++
			case 1:
				ops = append(ops, COp{K: "send", Dest: "/q", Rcpt: chance(t, "rcpt", 60), Ms: rng(t, "ms", 0, 5), Body: genBody(t, "sbody", 100)})
			case 2:
				if tx {
					ops = append(ops, COp{K: "commit", T: g, Rcpt: chance(t, "fin-rcpt", 50), Ms: rng(t, "ms", 0, 5)})
				} else {
					ops = append(ops, COp{K: "begin", T: g})
				}
				tx = !tx
			case 3:
				if len(mine) > 0 {
					ops = append(ops, COp{K: "unsub", S: mine[rng(t, "which", 0, len(mine)-1)], Ms: rng(t, "ms", 0, 10)})
				}
			}
		}
		p.Prog = append(p.Prog, ops)
	}
	for i, n := 0, rng(t, "nsteps", 1, 8); i < n; i++ {
		s := PStep{Ms: rng(t, "step-ms", 0, 4), K: "msg", N: pick(t, "step-n", 3, 3, 1), M: genMPlan(t, max)}
		s.M.Again = chance(t, "again", 15)
		switch s.N {
		case 0:
			s.N = 1
		case 1:
			s.N = rng(t, "n-few", 1, 6)
		case 2:
			s.N = rng(t, "n-many", 17, 60)
			if s.M.Body.N > 2000 {
				s.M.Body.N = 2000
			}
		}
		switch pick(t, "to", 8, 1, 1) {
		case 0:
			s.Sub = rng(t, "sub", 0, 60)
		case 1:
			s.Sub = -1
		case 2:
			s.Sub = -2
		}
		p.Steps = append(p.Steps, s)
		if chance(t, "receipt-step", 10) {
			// a receipt nobody waits for, possibly named like a subscription
			p.Steps = append(p.Steps, PStep{K: "receipt", Sub: rng(t, "rsub", 0, 5), Id: "nobody"})
		}
	}
	return p
}

func init() {
	core.Register("C05", core.Check[CPlan]{
		Name: "delivery", Gen: genC05, Cases: [2]int{11000, 500000},
		Rule: "at least two messages were delivered, and there were several subscriptions, a slow consumer, other operations or a body over 4 kB",
		Exec: func(x *core.Ctx, p CPlan) Result {
			h := p.run(x)
			if s := h.early(); s != "" {
				return Result{Fail: s}
			}
			w := h.w
			if h.Hung || h.Forced {
				return h.failf("an operation did not return")
			}
			total, rich := 0, len(w.subs) > 1
			for _, s := range w.subs {
				// an id in use twice is the caller's mistake
				if s.op.Slow > 0 {
					rich = true
				}
				if s := h.checkDelivery(s, true); s != "" {
					return h.failf("%s", s)
				}
				total += len(s.msgs)
			}
			for _, o := range w.outs {
				if !o.Skip && o.Op.K != "sub" {
					rich = true
				}
				if !o.Skip && o.Op.K == "sub" && o.Err != nil {
					return h.failf("%v: failed on a working connection", o)
				}
			}
			return Result{NonTrivial: total > 1 && rich, Labels: []string{sizeLabel("messages", total), sizeLabel("subs", len(w.subs))}}
		},
	})
}

// ---------------------------------------------------------------- C06

func genC06(t *rapid.T) CPlan {
	p := CPlan{Conn: genConn(t), Sched: genSched(t)}
	to := rapid.SampledFrom([]int{200, 1000, 4000}).Draw(t, "timeout")
	lossy := chance(t, "lossy", 50)
	p.Conn.UnsubTO = to
	if !lossy && chance(t, "no-limit", 40) {
		p.Conn.UnsubTO = -1
	}
	p.Rcpt = genRActs(t, to, lossy, true)
	p.OnMsg = genMPlan(t, 100)
	ng := rng(t, "goroutines", 1, 4)
	nslots := 0
	// the first goroutine subscribes first, so that the others have something to end
	var first []COp
	reply := false
	for i, n := 0, rng(t, "nsubs", 1, 5); i < n; i++ {
		o := genSubOp(t, nslots, opTag(0, nslots))
		o.Slow = 0
		if chance(t, "reply-to", 15) {
			reply = true
			if chance(t, "reply-id", 70) {
				o.Id = ""
			}
			o.H = []KV{{"reply-to", Str("/temp-queue/" + itoa(nslots))}}
		}
		first = append(first, o)
		nslots++
	}
	unsub := func() COp {
		o := COp{K: "unsub", S: rng(t, "which", 0, nslots-1), Ms: rng(t, "ms", 0, 6)}
		if chance(t, "later", 15) || reply && chance(t, "later", 50) {
			o.Ms = rng(t, "ms-long", 0, 2*to)
		}
		switch pick(t, "unsub-opt", 8, 1, 1, 1) {
		case 1:
			o.Bad = 1
		case 2:
			o.NilO = true
		case 3:
			o.H = []KV{{"receipt", "mine"}, {"persistent", "true"}}
		}
		return o
	}
	for g := 0; g < ng; g++ {
		var ops []COp
		if g == 0 {
			ops = first
		} else {
			ops = append(ops, COp{K: "stats", Ms: rng(t, "start", 1, 4)})
		}
		for i, n := 0, rng(t, "n", 1, 5); i < n; i++ {
			switch pick(t, "op", 7, 1, 2) {
			case 0:
				ops = append(ops, unsub())
			case 1:
				ops = append(ops, COp{K: "send", Dest: "/q", Rcpt: true})
			case 2:
				// the id of an ended subscription is used again
				if o := first[rng(t, "again", 0, len(first)-1)]; o.Id != "" && g == 0 && kvGet(o.H, "reply-to") == "" {
					u := unsub()
					u.S, u.Bad, u.NilO = o.S, 0, false
					o.Dest += "/again"
					ops = append(ops, u, o)
				}
			}
		}
		p.Prog = append(p.Prog, ops)
	}
	for i, n := 0, rng(t, "nsteps", 0, 5); i < n; i++ {
		p.Steps = append(p.Steps, PStep{Ms: rng(t, "step-ms", 0, 5), K: "msg", N: rng(t, "step-n", 1, 20), Sub: rng(t, "sub", 0, 5), M: MPlan{Body: Body{Lit: "x"}}})
		if reply && i < 2 {
			p.Steps[i].Ms = rng(t, "step-later", 60, 300)
		}
	}
	if chance(t, "ends", 30) {
		p.End = genEnd(t, true)
	}
	return p
}

func genEnd(t *rapid.T, fast bool) EndPlan {
	e := EndPlan{Kind: rapid.SampledFrom([]string{"error", "eof", "reset", "garbage", "partial", "failwrite", "badreceipt"}).Draw(t, "end")}
	if chance(t, "end-by-frame", 50) {
		e.Frame = rng(t, "end-frame", 1, 12)
	} else {
		e.AtMs = rng(t, "end-ms", 0, 15)
		if !fast && chance(t, "end-late", 30) {
			e.AtMs = rng(t, "end-ms", 0, 3000)
		}
	}
	switch e.Kind {
	case "failwrite":
		e.Bytes = int64(rng(t, "end-bytes", 0, 300))
	case "error":
		e.Extra, e.Keep, e.NoMsg = chance(t, "end-extra", 30), chance(t, "end-keep", 30), chance(t, "end-nomsg", 20)
		e.Msg = rapid.SampledFrom([]Str{"boom", "a:b\nc", ""}).Draw(t, "end-msg")
	}
	return e
}

func init() {
	core.Register("C06", core.Check[CPlan]{
		Name: "unsubscribe", Gen: genC06, Cases: [2]int{24000, 600000},
		Rule: "at least one Unsubscribe was accepted and there were messages around it, a second Unsubscribe, a withheld or late receipt or an end of the connection",
		Exec: func(x *core.Ctx, p CPlan) Result {
			h := p.run(x)
			if s := h.early(); s != "" {
				return Result{Fail: s}
			}
			w, pr := h.w, h.w.peer
			ended := p.End.Kind != "" // operations may fail
			to := p.Conn.unsubTO()
			if h.Hung || h.Forced {
				return h.failf("an operation did not return")
			}
			wins := map[*csub]*COut{}
			tries := 0
			for _, o := range w.outs {
				if o.Skip {
					continue
				}
				if !o.Done {
					return h.failf("%v: it never returned", o)
				}
				if o.Op.K != "unsub" {
					continue
				}
				tries++
				switch {
				case errText(o.Err) == stomp.ErrCompletedSubscription.Error():
					// judged below
				case o.Err == errOption && o.Op.Bad > 0 || errText(o.Err) == stomp.ErrNilOption.Error() && o.Op.NilO:
				default:
					if o.Op.Bad > 0 || o.Op.NilO {
						return h.failf("%v: the option is invalid", o)
					}
					if q := wins[o.Sub]; q != nil {
						return h.failf("%v and %v: both ended the subscription", q, o)
					}
					wins[o.Sub] = o
				}
			}
			for _, o := range w.outs {
				// refused as completed: somebody else must have begun before
				if o.Skip || o.Op.K != "unsub" || errText(o.Err) != stomp.ErrCompletedSubscription.Error() {
					continue
				}
				if q := wins[o.Sub]; (q == nil || q.seq > o.endSeq) && !ended {
					return h.failf("%v: refused, but nobody had unsubscribed", o)
				}
			}
			rich := ended
			for _, s := range w.subs {
				o := wins[s]
				k := h.psubOf(s)
				reply := kvGet(s.op.H, "reply-to") != ""
				n := 0
				first := true
				var frame pframe
				for _, f := range pr.in {
					if f.F.Cmd == "UNSUBSCRIBE" && f.F.Get("id") == s.s.Id() {
						n++
						if first {
							frame, first = f, false
						}
					}
				}
				// several subscriptions may have used the id one after the other
				same, sameWins := 0, 0
				for _, q := range w.subs {
					if q.s.Id() == s.s.Id() {
						same++
						if wins[q] != nil {
							sameWins++
						}
					}
				}
				if n > sameWins {
					return h.failf("subscription %q: %d UNSUBSCRIBE frames for %d accepted calls", s.s.Id(), n, sameWins)
				}
				if reply && n > 0 {
					return h.failf("UNSUBSCRIBE sent for a reply-to subscription")
				}
				if !ended && !reply && n < sameWins {
					return h.failf("subscription %q: %d UNSUBSCRIBE frames for %d accepted calls", s.s.Id(), n, sameWins)
				}
				if o == nil {
					if !ended && (s.closed && s.closeAt < h.FinAt) {
						return h.failf("subscription %q was closed though nobody unsubscribed it", s.s.Id())
					}
					if !ended {
						if e := h.checkDelivery(s, true); e != "" {
							return h.failf("%s", e)
						}
					}
					continue
				}
				if len(s.msgs) > 0 {
					rich = true
				}
				ne, _ := s.errMsgs()
				if o.Err == nil {
					if o.Active {
						return h.failf("%v: the subscription is still active", o)
					}
					if !s.closed {
						return h.failf("%v: succeeded, but the channel was never closed", o)
					}
					if s.closeAt > o.End+5*time.Second {
						return h.failf("%v: succeeded, but the channel was closed only at %v", o, s.closeAt)
					}
					if ne > 0 {
						return h.failf("%v: succeeded, but the channel delivered an error: %v", o, s.msgs[len(s.msgs)-1].Err)
					}
				}
				if reply {
					if o.Err != nil && !ended {
						return h.failf("%v: failed for a reply-to subscription", o)
					}
					if e := h.checkDelivery(s, false); e != "" {
						return h.failf("%v: %s", o, e)
					}
					before, got := 0, len(s.msgs)-ne
					for _, f := range pr.out {
						if f.F.Cmd == "MESSAGE" && f.Sub == k && f.End >= 0 && f.End < o.Start-200*time.Millisecond {
							before++
						}
					}
					if got < before && !ended {
						return h.failf("%v: the subscription received %d of %d messages", o, got, before)
					}
					continue
				}
				if e := h.checkDelivery(s, !ended); e != "" {
					return h.failf("%v: %s", o, e)
				}
				if same > 1 || ended {
					if same > 1 && !ended && o.Err == nil && h.confirmPos(k) < 0 {
						return h.failf("%v: reported success without a confirmation", o)
					}
					rich = true
					continue
				}
				for i, kv := range o.Op.H {
					if i > 0 && frame.F.Get(string(kv.K)) != string(kv.V) {
						return h.failf("%v: the option header %q is missing", o, kv.K)
					}
				}
				id := frame.F.Get("receipt")
				if id == "" {
					return h.failf("%v: UNSUBSCRIBE asks for no receipt", o)
				}
				if e := h.checkConfirmed(o, id, n > 0, frame.At, to, stomp.ErrUnsubscribeReceiptTimeout.Error()); e != "" {
					return h.failf("%v: %s", o, e)
				}
				if o.Err != nil {
					rich = true
				}
			}
			return Result{NonTrivial: len(wins) > 0 && (rich || tries > len(wins)), Labels: []string{sizeLabel("unsubs", len(wins)), fmt.Sprintf("ended:%s", p.End.Kind)}}
		},
	})
}

// ---------------------------------------------------------------- C07

func genC07(t *rapid.T) CPlan {
	p := CPlan{Conn: genConn(t), Sched: genSched(t)}
	p.Conn.RcptTO = rapid.SampledFrom([]int{0, 500, -1}).Draw(t, "rcpt-to")
	p.Conn.UnsubTO = rapid.SampledFrom([]int{0, 500, -1}).Draw(t, "unsub-to")
	p.Conn.DiscTO = rapid.SampledFrom([]int{0, 500}).Draw(t, "disc-to")
	p.Conn.SendTO = rapid.SampledFrom([]int{0, 500}).Draw(t, "send-to")
	p.Rcpt = genRActs(t, 500, chance(t, "lossy", 60), true)
	p.OnMsg = genMPlan(t, 100)
	ng := rng(t, "goroutines", 1, 5)
	slot := 0
	for g := 0; g < ng; g++ {
		var ops []COp
		tx := false
		for i, n := 0, rng(t, "n", 1, 10); i < n; i++ {
			ms := 0
			if chance(t, "pause", 30) {
				ms = rng(t, "pause-ms", 1, 8)
			}
			switch pick(t, "op", 6, 4, 2, 2, 2, 1, 1) {
			case 0:
				o := COp{K: "send", Dest: Str("/q/" + opTag(g, i)), Rcpt: chance(t, "rcpt", 40), Body: genBody(t, "body", 20000), Ms: ms}
				if tx && chance(t, "in-tx", 40) {
					o.K, o.T = "tsend", g
				}
				ops = append(ops, o)
			case 1:
				o := genSubOp(t, slot, opTag(g, i))
				o.Ms = ms
				if o.Slow > 5 {
					o.Slow = 5
				}
				ops = append(ops, o)
				slot++
			case 2:
				if tx {
					ops = append(ops, COp{K: rapid.SampledFrom([]string{"commit", "abort"}).Draw(t, "fin"), T: g, Rcpt: chance(t, "fin-rcpt", 50), Ms: ms})
				} else {
					ops = append(ops, COp{K: "begin", T: g, Ms: ms})
				}
				tx = !tx
			case 3:
				if slot > 0 {
					ops = append(ops, COp{K: "unsub", S: rng(t, "which", 0, slot-1), Ms: ms})
				}
			case 4:
				if slot > 0 {
					ops = append(ops, COp{K: rapid.SampledFrom([]string{"ack", "nack"}).Draw(t, "acknack"), S: rng(t, "which", 0, slot-1), N: rng(t, "nth", 0, 5), Ms: ms})
				}
			case 5:
				if chance(t, "disc?", 50) {
					ops = append(ops, COp{K: "disc", Ms: ms})
				}
			case 6:
				if chance(t, "must?", 50) {
					ops = append(ops, COp{K: "must", Ms: ms})
				}
			}
		}
		p.Prog = append(p.Prog, ops)
	}
	for i, n := 0, rng(t, "nsteps", 0, 6); i < n; i++ {
		p.Steps = append(p.Steps, PStep{Ms: rng(t, "step-ms", 0, 5), K: "msg", N: rng(t, "step-n", 1, 30), Sub: rng(t, "sub", 0, 8), M: genMPlan(t, 1000)})
	}
	p.End = genEnd(t, false)
	switch pick(t, "no-end", 8, 1, 1) {
	case 1:
		p.End = EndPlan{}
		p.Fin = rapid.SampledFrom([]string{"", "must", "eof"}).Draw(t, "fin-kind")
	case 2:
		p.End = EndPlan{Kind: "silence", AtMs: rng(t, "silence-ms", 0, 2000)}
		p.Conn.HB = []int{0, 200, 200, 0, 50}
		p.Conn.Grace = 1
	}
	if chance(t, "stall", 15) && !p.End.Keep && !p.End.Extra && p.End.Kind != "garbage" && p.End.Kind != "badreceipt" && p.End.Kind != "silence" && p.End.Kind != "failwrite" {
		// the peer stops reading: everything is stuck until the end
		p.Stall = 3600000
		p.Steps, p.Conn.S2C.Cap = nil, 0 // or the end could not arrive
		p.Conn.C2S.Cap = rapid.SampledFrom([]int{1, 50, 1000}).Draw(t, "stall-cap")
		p.End.Frame = 0
	}
	if p.End.Kind != "" {
		p.Late = []COp{{K: "send", Dest: "/late", Rcpt: true}, {K: "send", Dest: "/late"}, {K: "begin", T: 9998}, {K: "send", Dest: "/late", Ms: 1000}, {K: "sub", S: 9999, Dest: "/late"}, {K: "begin", T: 9999},
			{K: "commit", T: 0}, {K: "abort", T: 1, Rcpt: true}, {K: "unsub", S: 0}, {K: "ack", S: 0}, {K: "nack", S: 1}, {K: "disc"}, {K: "must"}, {K: "disc"}}
	}
	return p
}

func init() {
	core.Register("C07", core.Check[CPlan]{
		Name: "endings", Gen: genC07, Cases: [2]int{22000, 700000},
		Rule: "the connection ended while operations were in progress or subscriptions existed",
		Exec: func(x *core.Ctx, p CPlan) Result {
			h := p.run(x)
			if s := h.early(); s != "" {
				return Result{Fail: s}
			}
			return checkEnding(h, p)
		},
	})
}

func checkEnding(h *CHist, p CPlan) Result {
	w, pr := h.w, h.w.peer
	if h.Hung || h.LateHung {
		for _, o := range w.outs {
			if !o.Skip && !o.Done {
				return h.failf("%v: it never returned although the connection has ended", o)
			}
		}
		return h.failf("an operation did not return although the connection has ended")
	}
	// when the library could know
	slack := 5 * time.Second
	for _, s := range w.subs {
		slack += time.Duration(len(s.msgs)+1) * msd(s.op.Slow)
	}
	tEnd := h.FinDone
	if pr.ended {
		tEnd = pr.endAt
	}
	if h.Forced {
		tEnd = h.ForcedAt
	}
	closeAt, closed := w.cl.Closed()
	if !closed {
		return h.failf("the transport was never closed")
	}
	if pr.ended && (pr.endDone || p.End.Kind == "silence") && closeAt.Sub(w.t0) > tEnd+slack {
		return h.failf("the connection ended at %v, the transport was closed only at %v", tEnd, closeAt.Sub(w.t0))
	}
	if p.End.Kind == "failwrite" || pr.ended && !pr.endDone && p.End.Kind != "silence" {
		tEnd = closeAt.Sub(w.t0)
	}
	running := 0
	for _, o := range w.outs {
		if o.Skip {
			continue
		}
		if !o.Done {
			return h.failf("%v: it never returned", o)
		}
		limit := time.Duration(0)
		switch o.Op.K {
		case "send":
			limit = p.Conn.sendTO() + p.Conn.rcptTO()
		case "unsub":
			limit = p.Conn.unsubTO()
		case "disc":
			limit = p.Conn.discTO()
		}
		if o.End > max(o.Start, tEnd)+limit+slack {
			return h.failf("%v: the connection ended at %v, the call returned only at %v", o, tEnd, o.End)
		}
		if o.End > tEnd && o.Start <= tEnd {
			running++
		}
		if o.Late && o.Start > tEnd+cTol {
			switch o.Op.K {
			case "disc", "must":
				if o.Err != nil {
					return h.failf("%v: failed on a connection that has already ended", o)
				}
			case "ack", "nack":
				// nothing may be due
				if o.Err == nil && o.Sub.s.AckMode() != stomp.AckAuto {
					return h.failf("%v: succeeded on a connection that has ended", o)
				}
			default:
				if o.Err == nil {
					return h.failf("%v: succeeded on a connection that has ended", o)
				}
			}
		}
	}
	confirmed, asked := map[*csub]bool{}, map[*csub]bool{}
	for _, o := range w.outs {
		if !o.Skip && o.Op.K == "unsub" && errText(o.Err) != stomp.ErrCompletedSubscription.Error() {
			asked[o.Sub] = true
			if o.Err == nil {
				confirmed[o.Sub] = true
			}
		}
	}
	for _, s := range w.subs {
		if !s.closed {
			return h.failf("the channel of subscription %q was never closed", s.s.Id())
		}
		if s.closeAt > max(tEnd, s.made)+slack && !confirmed[s] {
			return h.failf("the connection ended at %v, the channel of subscription %q was closed only at %v", tEnd, s.s.Id(), s.closeAt)
		}
		n, last := s.errMsgs()
		switch {
		case confirmed[s]:
		case asked[s]:
			if n > 2 {
				return h.failf("subscription %q received %d error messages", s.s.Id(), n)
			}
		default:
			if n != 1 || !last {
				return h.failf("subscription %q received %d error messages, want one at the end", s.s.Id(), n)
			}
		}
		if s.s.Active() {
			return h.failf("subscription %q is active after the end of the connection", s.s.Id())
		}
		if e := h.checkDelivery(s, false); e != "" {
			return h.failf("%s", e)
		}
	}
	if h.Leaked {
		return h.failf("goroutines of the library stay behind")
	}
	return Result{NonTrivial: running > 0 || len(w.subs) > 0, Labels: []string{"end:" + p.End.Kind, fmt.Sprintf("in-progress:%v", running > 0), sizeLabel("subs", len(w.subs))}}
}

var _ = netsim.ErrReset
