package props

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"time"

	stomp "github.com/go-stomp/stomp/v3"
	"pgregory.net/rapid"

	"verif.local/harness/core"
	"verif.local/harness/wire"
)

// ---------------------------------------------------------------- C08

// ackFrame gives the frame an ack or nack op must put on the wire; ok is false
// if it must put nothing there, fails tells whether it must return an error.
func (h *CHist) ackFrame(o *COut) (cmd string, hs []KV, ok, fails bool) {
	nack := o.Op.K == "nack" || o.Op.K == "tnack"
	inTx := o.Op.K == "tack" || o.Op.K == "tnack"
	if inTx && o.TxDone {
		return "", nil, false, true
	}
	ver := h.w.plan.Conn.Ver
	if nack && (ver == "" || ver == "1.0") {
		return "", nil, false, true
	}
	if o.Op.Odd != "" {
		return "", nil, false, true
	}
	if o.Sub.s.AckMode() == stomp.AckAuto {
		return "", nil, false, nack
	}
	cmd = "ACK"
	if nack {
		cmd = "NACK"
	}
	get := func(k string) (Str, bool) {
		for _, e := range o.Msg.H {
			if string(e.K) == k {
				return e.V, true
			}
		}
		return "", false
	}
	if ver == "1.2" {
		v, has := get("ack")
		if !has {
			return "", nil, false, true
		}
		hs = []KV{{"id", v}}
	} else {
		v, has := get("message-id")
		if !has {
			return "", nil, false, true
		}
		hs = []KV{{"subscription", Str(o.Sub.s.Id())}, {"message-id", v}}
	}
	if inTx {
		hs = append(hs, KV{"transaction", Str(o.TxId)})
	}
	return cmd, hs, true, false
}

func frameKey(cmd string, hs []KV, body []byte) string {
	c := append([]KV{}, hs...)
	sort.SliceStable(c, func(i, j int) bool { return c[i].K < c[j].K })
	return fmt.Sprintf("%s %q %q", cmd, c, body)
}

func genAckOp(t *rapid.T, nslots, tx int) COp {
	o := COp{K: rapid.SampledFrom([]string{"ack", "ack", "nack"}).Draw(t, "acknack"), S: rng(t, "which", 0, nslots-1), N: rng(t, "nth", 0, 30), Ms: rng(t, "ms", 0, 3)}
	if tx >= 0 && chance(t, "in-tx", 60) {
		o.K, o.T = "t"+o.K, tx
	}
	if chance(t, "odd", 10) {
		o.Odd = rapid.SampledFrom([]string{"blank", "handmade", "noheader", "noconn"}).Draw(t, "odd-kind")
	}
	return o
}

func genC08(t *rapid.T) CPlan {
	p := CPlan{Conn: genConn(t), Sched: genSched(t), Rcpt: []RAct{{}, {Ms: 2}}}
	ng := rng(t, "goroutines", 1, 4)
	var first []COp
	nslots := rng(t, "nsubs", 1, 4)
	for i := 0; i < nslots; i++ {
		o := genSubOp(t, i, opTag(0, i))
		o.Slow = 0
		if o.Mode == 0 && chance(t, "no-auto", 60) {
			o.Mode = 1 + rng(t, "acking", 0, 1)
		}
		first = append(first, o)
	}
	for g := 0; g < ng; g++ {
		var ops []COp
		if g == 0 {
			ops = append(ops, first...)
		} else {
			ops = append(ops, COp{K: "stats", Ms: rng(t, "start", 2, 6)})
		}
		tx := -1
		n := rng(t, "n", 2, 20)
		for i := 0; i < n; i++ {
			switch pick(t, "op", 12, 2, 1, 1) {
			case 0:
				ops = append(ops, genAckOp(t, nslots, tx))
			case 1:
				if tx < 0 {
					tx = 100*g + i
					ops = append(ops, COp{K: "begin", T: tx})
				} else {
					ops = append(ops, COp{K: rapid.SampledFrom([]string{"commit", "abort"}).Draw(t, "fin"), T: tx, Rcpt: chance(t, "fin-rcpt", 30)})
					if chance(t, "forget", 50) {
						tx = -1
					}
				}
			case 2:
				ops = append(ops, COp{K: "send", Dest: "/q", Rcpt: chance(t, "rcpt", 50)})
			case 3:
				ops = append(ops, COp{K: "unsub", S: rng(t, "which", 0, nslots-1), Ms: rng(t, "ms", 0, 3)})
			}
		}
		p.Prog = append(p.Prog, ops)
	}
	for i, n := 0, rng(t, "nsteps", 1, 10); i < n; i++ {
		m := genMPlan(t, 50)
		m.NoAck, m.NoMid = chance(t, "no-ack", 12), chance(t, "no-mid", 12)
		if chance(t, "dup-h", 20) {
			// the first entry of a repeated header counts
			m.H = append(m.H, KV{"ack", "late-ack"}, KV{"message-id", "late-mid"}, KV{"id", "late-id"}, KV{"subscription", "other"}, KV{"transaction", "late-tx"})
			m.Last = false
		}
		p.Steps = append(p.Steps, PStep{Ms: rng(t, "step-ms", 0, 3), K: "msg", N: rng(t, "step-n", 1, 3), Sub: rng(t, "sub", 0, 5), M: m})
	}
	return p
}

func init() {
	core.Register("C08", core.Check[CPlan]{
		Name: "acks", Gen: genC08, Cases: [2]int{24000, 600000},
		Rule: "at least two acknowledgements were put on the wire, and one more was refused, had no effect or was made in a transaction",
		Exec: func(x *core.Ctx, p CPlan) Result {
			h := p.run(x)
			if s := h.early(); s != "" {
				return Result{Fail: s}
			}
			w := h.w
			if h.Hung || h.Forced {
				return h.failf("an operation did not return")
			}
			var got []string
			count := map[string]int{}
			for _, f := range w.peer.frames("ACK", "NACK") {
				k := frameKey(f.F.Cmd, f.F.H, f.F.Body)
				got = append(got, k)
				count[k]++
			}
			perG := map[int][]string{}
			sent, rich := 0, false
			for _, o := range w.outs {
				if o.Skip {
					continue
				}
				switch o.Op.K {
				case "ack", "nack", "tack", "tnack":
				default:
					continue
				}
				cmd, hs, ok, fails := h.ackFrame(o)
				if fails != (o.Err != nil) {
					if fails {
						return h.failf("%v (%s): it must be refused, version %q", o, o.Op.Odd, p.Conn.Ver)
					}
					return h.failf("%v: failed", o)
				}
				if !ok || o.Op.K[0] == 't' {
					rich = true
				}
				if !ok {
					continue
				}
				sent++
				k := frameKey(cmd, hs, nil)
				perG[o.G] = append(perG[o.G], k)
				count[k]--
				if count[k] < 0 {
					return h.failf("%v: the frame %s is missing on the wire; there are %q", o, k, got)
				}
			}
			for k, n := range count {
				if n > 0 {
					return h.failf("the client sent %s, which nothing asked for", k)
				}
			}
			for g, want := range perG {
				i := 0
				for _, k := range got {
					if i < len(want) && k == want[i] {
						i++
					}
				}
				if i < len(want) {
					return h.failf("goroutine %d issued %q in this order, on the wire are %q", g, want, got)
				}
			}
			return Result{NonTrivial: sent > 1 && rich, Labels: []string{"version:" + p.Conn.Ver, sizeLabel("acks", sent)}}
		},
	})
}

// ---------------------------------------------------------------- C09

func genC09(t *rapid.T) CPlan {
	p := CPlan{Conn: genConn(t), Sched: genSched(t), Rcpt: []RAct{{}, {Ms: 2}, {Ms: 9}}}
	ng := rng(t, "goroutines", 1, 4)
	for g := 0; g < ng; g++ {
		var ops []COp
		nslots := rng(t, "nsubs", 0, 2)
		for i := 0; i < nslots; i++ {
			o := genSubOp(t, 10*g+i, opTag(g, i))
			o.Slow = 0
			ops = append(ops, o)
		}
		var txs []int
		n := rng(t, "n", 2, 25)
		for i := nslots; i < nslots+n; i++ {
			tx := -1
			if len(txs) > 0 {
				tx = txs[rng(t, "tx", 0, len(txs)-1)]
			}
			k := pick(t, "op", 3, 6, 3, 3, 2)
			if tx < 0 && (k == 1 || k == 2) {
				k = 0
			}
			switch k {
			case 0:
				nt := 100*g + len(txs)
				txs = append(txs, nt)
				o := COp{K: "begin", T: nt}
				if chance(t, "plain", 30) {
					o.Odd = "plain"
				}
				ops = append(ops, o)
			case 1:
				o := genSendOp(t, opTag(g, i), 200)
				o.K, o.T = "tsend", tx
				if chance(t, "own-tx", 8) {
					o.H = append(o.H, KV{"transaction", "mine"})
				}
				ops = append(ops, o)
			case 2:
				o := COp{K: rapid.SampledFrom([]string{"commit", "abort"}).Draw(t, "fin"), T: tx, Rcpt: chance(t, "fin-rcpt", 40), Ms: rng(t, "ms", 0, 3)}
				ops = append(ops, o)
				if chance(t, "again", 30) {
					o.K = rapid.SampledFrom([]string{"commit", "abort"}).Draw(t, "fin2")
					ops = append(ops, o)
				}
			case 3:
				if nslots > 0 {
					o := genAckOp(t, nslots, tx)
					o.S += 10 * g
					ops = append(ops, o)
				}
			case 4:
				ops = append(ops, genSendOp(t, opTag(g, i), 200))
			}
		}
		p.Prog = append(p.Prog, ops)
	}
	for i, n := 0, rng(t, "nsteps", 0, 6); i < n; i++ {
		p.Steps = append(p.Steps, PStep{Ms: rng(t, "step-ms", 0, 3), K: "msg", N: rng(t, "step-n", 1, 3), Sub: rng(t, "sub", 0, 5), M: genMPlan(t, 50)})
	}
	return p
}

func init() {
	core.Register("C09", core.Check[CPlan]{
		Name: "transactions", Gen: genC09, Cases: [2]int{24000, 600000},
		Rule: "a transaction with at least one send or acknowledgement was finished, and there was another transaction or an operation after the end",
		Exec: func(x *core.Ctx, p CPlan) Result {
			h := p.run(x)
			if s := h.early(); s != "" {
				return Result{Fail: s}
			}
			w := h.w
			if h.Hung || h.Forced {
				return h.failf("an operation did not return")
			}
			var got []string
			count := map[string]int{}
			for _, f := range w.peer.frames("SEND", "ACK", "NACK", "BEGIN", "COMMIT", "ABORT") {
				hs := f.F.H
				if f.F.Cmd == "SEND" || f.F.Cmd == "COMMIT" || f.F.Cmd == "ABORT" {
					// the presence of a receipt is kept, its value is up to the library
					if n := len(f.F.All("receipt")); n > 0 {
						hs = append(without(hs, "receipt"), KV{"receipt", Str(itoa(n))})
					}
				}
				k := frameKey(f.F.Cmd, hs, f.F.Body)
				got = append(got, k)
				count[k]++
			}
			perG := map[int][]string{}
			ids := map[string]bool{}
			used, fin, after := map[string]bool{}, 0, 0
			for _, o := range w.outs {
				if o.Skip {
					continue
				}
				cmd, hs, ok := "", []KV(nil), true
				var body []byte
				switch o.Op.K {
				case "begin":
					if o.Err != nil {
						return h.failf("%v: failed", o)
					}
					if o.TxId == "" || ids[o.TxId] {
						return h.failf("%v: the transaction id %q is empty or used before", o, o.TxId)
					}
					ids[o.TxId] = true
					cmd, hs = "BEGIN", []KV{{"transaction", Str(o.TxId)}}
				case "commit", "abort", "tsend", "tack", "tnack":
					if o.TxDone {
						after++
						if !errors.Is(o.Err, stomp.ErrCompletedTransaction) {
							return h.failf("%v: the transaction has ended, it must be refused", o)
						}
						continue
					}
				}
				switch o.Op.K {
				case "begin":
				case "commit", "abort":
					if o.Err != nil {
						return h.failf("%v: failed", o)
					}
					if used[o.TxId] {
						fin++
					}
					cmd, hs = "COMMIT", []KV{{"transaction", Str(o.TxId)}}
					if o.Op.K == "abort" {
						cmd = "ABORT"
					}
					if o.Op.Rcpt {
						hs = append(hs, KV{"receipt", "1"})
					}
				case "send", "tsend":
					if o.Op.Bad > 0 || o.Op.NilO && o.Err != nil {
						if o.Err == nil {
							return h.failf("%v: the option failed but the send succeeded", o)
						}
						continue
					}
					if o.Err != nil {
						return h.failf("%v: failed", o)
					}
					cmd, hs, body = "SEND", o.Op.expected(), o.Op.Body.Bytes()
					if o.Op.Rcpt {
						hs = append(hs, KV{"receipt", "1"})
					}
					if o.Op.K == "tsend" {
						hs = append(without(hs, "transaction"), KV{"transaction", Str(o.TxId)})
						used[o.TxId] = true
					}
				case "ack", "nack", "tack", "tnack":
					var fails bool
					cmd, hs, ok, fails = h.ackFrame(o)
					if fails != (o.Err != nil) {
						return h.failf("%v: the outcome is wrong", o)
					}
					if ok && o.Op.K[0] == 't' {
						used[o.TxId] = true
					}
				default:
					continue
				}
				if !ok {
					continue
				}
				k := frameKey(cmd, hs, body)
				perG[o.G] = append(perG[o.G], k)
				count[k]--
				if count[k] < 0 {
					return h.failf("%v: the frame %s is missing on the wire; there are %q", o, k, got)
				}
			}
			for k, n := range count {
				if n > 0 {
					return h.failf("the client sent %s, which nothing asked for", k)
				}
			}
			for g, want := range perG {
				i := 0
				for _, k := range got {
					if i < len(want) && k == want[i] {
						i++
					}
				}
				if i < len(want) {
					return h.failf("goroutine %d issued %q in this order, on the wire are %q", g, want, got)
				}
			}
			return Result{NonTrivial: fin > 0 && (after > 0 || len(ids) > 1), Labels: []string{sizeLabel("transactions", len(ids)), fmt.Sprintf("after-end:%v", after > 0)}}
		},
	})
}

// ---------------------------------------------------------------- C10

func genC10(t *rapid.T) CPlan {
	p := CPlan{Conn: genConn(t), Sched: genSched(t), Rcpt: []RAct{{}, {Ms: 3}}}
	to := rapid.SampledFrom([]int{300, 2000, 0, -1}).Draw(t, "disc-to")
	p.Conn.DiscTO = to
	eff := int(p.Conn.discTO() / time.Millisecond)
	a := RAct{Ms: rng(t, "disc-ms", 0, 20)}
	switch pick(t, "disc-answer", 6, 2, 2, 2, 1, 1) {
	case 1:
		a.Mode = "dup"
	case 2: // late or hardly in time
		if eff > 0 {
			a.Ms = rapid.SampledFrom([]int{eff - 150, eff + 150, 2 * eff}).Draw(t, "disc-late")
		} else {
			a.Ms = 100000
		}
	case 3:
		if eff > 0 {
			a.Mode = rapid.SampledFrom([]string{"drop", "wrong"}).Draw(t, "disc-none")
		}
	case 4:
		a.Mode = "error"
	case 5:
		a.Mode = "eof"
	}
	p.Disc = &a
	if chance(t, "beats", 15) {
		p.Conn.HB = []int{20, 0, 0, 10, 0}
	}
	ng := rng(t, "goroutines", 1, 4)
	slot := 0
	discs := 0
	for g := 0; g < ng; g++ {
		var ops []COp
		n := rng(t, "n", 0, 12)
		tx := false
		for i := 0; i < n; i++ {
			ms := 0
			if chance(t, "pause", 20) {
				ms = rng(t, "pause-ms", 1, 5)
			}
			switch pick(t, "op", 8, 1, 2, 2) {
			case 0:
				o := genSendOp(t, opTag(g, i), 300)
				o.Bad, o.NilO, o.Ms = 0, false, ms
				if tx && chance(t, "in-tx", 50) {
					o.K, o.T = "tsend", g
				}
				ops = append(ops, o)
			case 1:
				o := genSubOp(t, slot, opTag(g, i))
				o.Ms, o.Slow = ms, 0
				ops = append(ops, o)
				slot++
			case 2:
				if tx {
					ops = append(ops, COp{K: rapid.SampledFrom([]string{"commit", "abort"}).Draw(t, "fin"), T: g, Ms: ms})
				} else {
					ops = append(ops, COp{K: "begin", T: g, Ms: ms})
				}
				tx = !tx
			case 3:
				ops = append(ops, COp{K: "disc", Ms: ms})
				discs++
			}
		}
		p.Prog = append(p.Prog, ops)
	}
	for i, n := 0, rng(t, "nsteps", 0, 4); i < n; i++ {
		p.Steps = append(p.Steps, PStep{Ms: rng(t, "step-ms", 0, 5), K: "msg", N: rng(t, "step-n", 1, 10), Sub: rng(t, "sub", 0, 8), M: genMPlan(t, 300)})
	}
	if chance(t, "stall", 12) && to >= 0 {
		p.Stall = 3600000
		p.Conn.C2S.Cap = rapid.SampledFrom([]int{1, 40, 300}).Draw(t, "stall-cap")
		p.Conn.SendTO, p.Conn.RcptTO, p.Conn.HB = 100, 100, nil
		p.Steps, p.Conn.S2C.Cap = nil, 0
		p.Prog = append(p.Prog, []COp{{K: "disc", Ms: rng(t, "stall-disc", 0, 300)}})
	}
	p.Late = []COp{{K: "disc"}, {K: "send", Dest: "/late", Rcpt: true}, {K: "send", Dest: "/late"}, {K: "sub", S: 9999, Dest: "/late"}, {K: "begin", T: 9999},
		{K: "tsend", T: 0, Dest: "/late"}, {K: "commit", T: 0}, {K: "abort", T: 1, Rcpt: true}, {K: "unsub", S: 0}, {K: "disc"}, {K: "must"}, {K: "disc"}}
	return p
}

func init() {
	core.Register("C10", core.Check[CPlan]{
		Name: "disconnect", Gen: genC10, Cases: [2]int{24000, 600000},
		Rule: "other operations overlapped or preceded the first Disconnect, or several calls raced, or the receipt was late, missing or replaced by an error",
		Exec: func(x *core.Ctx, p CPlan) Result {
			h := p.run(x)
			if s := h.early(); s != "" {
				return Result{Fail: s}
			}
			return checkDisconnect(h, p)
		},
	})
}

func checkDisconnect(h *CHist, p CPlan) Result {
	w, pr := h.w, h.w.peer
	to := p.Conn.discTO()
	if h.Hung || h.LateHung {
		return h.failf("an operation did not return")
	}
	if h.Forced {
		return h.failf("an operation did not return")
	}
	var discs []*COut
	var win *COut
	for _, o := range w.outs {
		if o.Skip {
			continue
		}
		if !o.Done {
			return h.failf("%v: it never returned", o)
		}
		if o.Op.K == "disc" {
			discs = append(discs, o)
			if o.Err != nil {
				if win != nil && (p.Stall == 0 || o.Start > win.End) {
					return h.failf("%v and %v: one of them must report success", win, o)
				}
				if win == nil {
					win = o
				}
			}
		}
	}
	if len(discs) == 0 {
		return h.failf("no Disconnect was made")
	}
	first := discs[0]
	for _, o := range discs {
		if o.Start < first.Start {
			first = o
		}
	}
	// what is on the wire
	pr.mu.Lock()
	in, bad := append([]pframe{}, pr.in...), pr.bad
	pr.mu.Unlock()
	if bad != "" && p.Stall == 0 {
		return h.failf("%s", bad)
	}
	n := 0
	var disc pframe
	for i, f := range in {
		if f.F.Cmd == "DISCONNECT" {
			n++
			disc = f
			if i != len(in)-1 {
				return h.failf("%v follows DISCONNECT", in[i+1].F)
			}
		}
	}
	if n != 1 && p.Stall == 0 {
		return h.failf("%d DISCONNECT frames", n)
	}
	if n > 1 {
		return h.failf("%d DISCONNECT frames", n)
	}
	rich := len(discs) > 3 || p.Stall > 0 || p.Disc.Mode != ""
	if n == 1 && (len(disc.F.All("receipt")) != 1 || disc.F.Get("receipt") == "") {
		return h.failf("DISCONNECT with the receipt headers %q", disc.F.All("receipt"))
	}
	// everything that was accepted came before it
	byDest := map[string]int{}
	kinds := map[string]int{}
	for _, f := range in {
		kinds[f.F.Cmd]++
		if f.F.Cmd == "SEND" {
			byDest[f.F.Get("destination")]++
		}
	}
	acc := map[string]int{}
	closeAt, closed := w.cl.Closed()
	if !closed {
		return h.failf("the transport was never closed")
	}
	cAt := closeAt.Sub(w.t0)
	for _, o := range w.outs {
		if o.Skip || o.Op.K == "disc" || o.Op.K == "must" || o.Op.K == "stats" {
			continue
		}
		if o.Start > first.End || o.Late {
			rich = true
			if o.Err == nil {
				return h.failf("%v: succeeded after Disconnect had returned", o)
			}
		}
		if o.Op.Rcpt && o.Op.K != "send" && len(p.Conn.HB) == 5 {
			// in a transaction, a call waits for its receipt only as long as the
			// heart-beat interval
			continue
		}
		if o.Err != nil && o.End < first.Start && p.Stall == 0 {
			return h.failf("%v: failed before Disconnect", o)
		}
		if p.Stall > 0 {
			continue
		}
		if o.Err == nil {
			acc[o.Op.K]++
			if o.Op.K == "send" || o.Op.K == "tsend" {
				if byDest[string(o.Op.Dest)] != 1 {
					return h.failf("%v: accepted, but %d frames came before DISCONNECT", o, byDest[string(o.Op.Dest)])
				}
			}
			if o.Op.K != "send" && o.End < first.Start {
				rich = true
			}
		} else if (o.Op.K == "send" || o.Op.K == "tsend") && o.Start > first.End && byDest[string(o.Op.Dest)] > 0 {
			return h.failf("%v: it failed after Disconnect, but its frame was sent", o)
		}
	}
	if p.Stall == 0 {
		for k, cmd := range map[string]string{"sub": "SUBSCRIBE", "begin": "BEGIN", "commit": "COMMIT", "abort": "ABORT"} {
			if kinds[cmd] < acc[k] {
				return h.failf("%d %s accepted, but only %d %s frames came before DISCONNECT", acc[k], k, kinds[cmd], cmd)
			}
		}
	}
	// the outcome
	tR, tE := time.Duration(-1), time.Duration(-1)
	msg := ""
	if n == 1 {
		tR = h.receiptAt(disc.F.Get("receipt"), disc.At)
		tE, msg = h.errorAt()
	}
	switch {
	case n == 0: // only with a stalled peer
		if win == nil || !errors.Is(win.Err, stomp.ErrDisconnectReceiptTimeout) {
			return h.failf("DISCONNECT never left, but no call returned the timeout error")
		}
	case win == nil:
		if tR < 0 {
			return h.failf("every Disconnect reported success, but no RECEIPT was sent")
		}
		if cAt < tR {
			return h.failf("the transport was closed at %v, the RECEIPT was sent only at %v", cAt, tR)
		}
		if cAt > tR+cTol {
			return h.failf("the RECEIPT was sent at %v, the transport was closed only at %v", tR, cAt)
		}
		if to > 0 && tR > first.Start+to+cTol {
			return h.failf("the RECEIPT came after the timeout, but every Disconnect reported success")
		}
	case tE >= 0 && (to == 0 || tE < disc.At+to-cTol):
		if errText(win.Err) != msg {
			return h.failf("%v: the server's ERROR was %q", win, msg)
		}
	case p.Disc.Mode == "eof" && (to == 0 || disc.At+msd(p.Disc.Ms) < win.Start+to-cTol):
		// any error will do
		if win.End > disc.At+msd(p.Disc.Ms)+cTol {
			return h.failf("%v: the connection ended at %v", win, disc.At+msd(p.Disc.Ms))
		}
	case tR >= 0 && (to == 0 || tR < win.Start+to-cTol):
		return h.failf("%v: the RECEIPT was sent in time, at %v", win, tR)
	case p.Disc.Mode != "eof":
		if !errors.Is(win.Err, stomp.ErrDisconnectReceiptTimeout) && (tE < 0 || tE > win.Start+to+cTol) {
			return h.failf("%v: it must report the timeout", win)
		}
	}
	if win != nil {
		if to > 0 && win.End > win.Start+to+cTol {
			return h.failf("%v: the timeout is %v", win, to)
		}
		if errors.Is(win.Err, stomp.ErrDisconnectReceiptTimeout) && win.End < win.Start+to-cTol {
			return h.failf("%v: the timeout is %v", win, to)
		}
		if cAt > win.End+cTol {
			return h.failf("%v: the transport was closed only at %v", win, cAt)
		}
		rich = true
	}
	return Result{NonTrivial: rich && len(w.outs) > len(p.Late), Labels: []string{"answer:" + p.Disc.Mode, sizeLabel("disconnects", len(discs)), fmt.Sprintf("stalled:%v", p.Stall > 0)}}
}

var _ = bytes.Equal
var _ = wire.F
