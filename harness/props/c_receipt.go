package props

import (
	"errors"
	"fmt"
	"time"

	stomp "github.com/go-stomp/stomp/v3"
	"pgregory.net/rapid"

	"verif.local/harness/core"
	"verif.local/harness/wire"
)

const cTol = 100 * time.Millisecond

// ---------------------------------------------------------------- C04

func genRActs(t *rapid.T, timeout int, lossy bool, burst bool) (r []RAct) {
	for i, n := 0, rng(t, "nracts", 1, 8); i < n; i++ {
		a := RAct{}
		if lossy {
			a.Mode = rapid.SampledFrom([]string{"", "", "", "", "drop", "dup", "wrong"}).Draw(t, "ract")
		} else {
			a.Mode = rapid.SampledFrom([]string{"", "", "", "dup"}).Draw(t, "ract")
		}
		switch pick(t, "ract-delay", 4, 3, 2) {
		case 1:
			a.Ms = rng(t, "ract-ms", 0, timeout/2)
		case 2:
			if lossy {
				a.Ms = timeout*2 + rng(t, "ract-ms", 0, timeout*3)
			}
		}
		if burst {
			a.Pre, a.Post = rng(t, "pre", 0, 4), rng(t, "post", 0, 3)
		}
		r = append(r, a)
	}
	return
}

func genC04(t *rapid.T) CPlan {
	p := CPlan{Conn: genConn(t), Sched: genSched(t)}
	to := rapid.SampledFrom([]int{300, 1000, 5000}).Draw(t, "timeout")
	lossy := chance(t, "lossy", 70)
	p.Conn.RcptTO, p.Conn.UnsubTO = to, to
	if !lossy && chance(t, "no-limit", 50) {
		p.Conn.RcptTO, p.Conn.UnsubTO = -1, -1
	}
	if chance(t, "hb", 30) {
		x := rapid.SampledFrom([]int{100, 500, 3000}).Draw(t, "hb-ms")
		p.Conn.HB, p.HBLimit = []int{x, 0, 0, x, 0}, true
	}
	p.Rcpt = genRActs(t, to, lossy, false)
	ng := rng(t, "goroutines", 1, 4)
	for g := 0; g < ng; g++ {
		var ops []COp
		tx := false
		nsub := 0
		for i, n := 0, rng(t, "n", 1, 10); i < n; i++ {
			switch pick(t, "op", 8, 2, 2, 1) {
			case 0:
				o := COp{K: "send", Dest: Str("/q/" + opTag(g, i)), Rcpt: chance(t, "rcpt", 80), Body: Body{N: rng(t, "len", 0, 40), Seed: 3}}
				if o.Rcpt && chance(t, "own-id", 15) {
					o.Id = Str("own-" + opTag(g, i))
				}
				if tx && chance(t, "in-tx", 50) {
					o.K, o.T, o.Rcpt, o.Id = "tsend", g, chance(t, "tsend-rcpt", 30), ""
				}
				ops = append(ops, o)
			case 1:
				if tx {
					ops = append(ops, COp{K: rapid.SampledFrom([]string{"commit", "abort"}).Draw(t, "fin"), T: g, Rcpt: chance(t, "fin-rcpt", 70)})
				} else {
					ops = append(ops, COp{K: "begin", T: g})
				}
				tx = !tx
			case 2:
				o := COp{K: "sub", S: 100*g + nsub, Dest: Str("/s/" + opTag(g, i)), Mode: 0}
				if chance(t, "sub-id", 30) {
					o.Id = Str("sub-" + opTag(g, i))
				}
				if chance(t, "sub-receipt", 15) {
					o.H = []KV{{"receipt", Str("subr-" + opTag(g, i))}}
				}
				ops = append(ops, o)
				nsub++
			case 3:
				if nsub > 0 {
					ops = append(ops, COp{K: "unsub", S: 100*g + rng(t, "which", 0, nsub-1)})
				}
			}
			if len(ops) > 0 && chance(t, "pause", 30) {
				ops[len(ops)-1].Ms = rng(t, "pause-ms", 1, 2*to)
			}
		}
		p.Prog = append(p.Prog, ops)
	}
	for i, n := 0, rng(t, "nsteps", 0, 6); i < n; i++ {
		s := PStep{Ms: rng(t, "step-ms", 0, to), K: rapid.SampledFrom([]string{"receipt", "msg", "receipt", "beat"}).Draw(t, "step"), N: rng(t, "step-n", 1, 3)}
		if s.K == "receipt" {
			switch pick(t, "which-receipt", 3, 3, 2) {
			case 0:
				s.Id = Str(rapid.SampledFrom([]string{"nobody", "", "0", "999999999", "x:\n"}).Draw(t, "rid"))
			case 1:
				s.Sub, s.Id = 1+rng(t, "rsub", 0, 5), "nobody"
			case 2:
				s.Prev, s.Id = true, "nobody"
			}
		}
		s.Sub = max(s.Sub, 0)
		s.M = MPlan{Body: Body{Lit: "hello"}}
		p.Steps = append(p.Steps, s)
	}
	if chance(t, "error", 20) {
		k := rng(t, "error-at", 0, len(p.Rcpt)-1)
		p.Rcpt[k].Mode = "error"
	}
	p.Late = []COp{{K: "send", Dest: "/late/1", Rcpt: true}, {K: "sub", S: 9999, Dest: "/late/2"}, {K: "send", Dest: "/late/3", Rcpt: true, Ms: 5}, {K: "unsub", S: 9999, Ms: 5}}
	return p
}

// errText is the message of an error of the library.
func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

// checkConfirmed judges one call that waits for a receipt. from is when its frame arrived.
func (h *CHist) checkConfirmed(o *COut, id string, arrived bool, from, to time.Duration, timeoutErr string) string {
	tR := time.Duration(-1)
	if arrived {
		tR = h.receiptAt(id, from)
	}
	tE, msg := h.errorAt()
	if !o.Done {
		return "it did not return"
	}
	if o.Err == nil {
		if tR < 0 || o.End < tR {
			return fmt.Sprintf("it reported success, but the RECEIPT of %q was not sent before that", id)
		}
		return ""
	}
	if !arrived {
		return ""
	}
	isTimeout := errText(o.Err) == timeoutErr
	if tE >= 0 && (tR < 0 || tE < tR) && tE < from+to-cTol || to == 0 && tE >= 0 && (tR < 0 || tE < tR) {
		// the error comes first
		if errText(o.Err) != msg {
			return fmt.Sprintf("the server's ERROR %q arrived at %v, but the call returned %v", msg, tE, o.Err)
		}
		if o.End > max(tE, o.Start)+cTol {
			return fmt.Sprintf("the ERROR arrived at %v, but the call returned only at %v", tE, o.End)
		}
		return ""
	}
	if tR >= 0 && (to == 0 || tR < from+to-cTol) && (tE < 0 || tR < tE) {
		return fmt.Sprintf("the RECEIPT of %q was sent at %v, in time, but the call returned %v", id, tR, o.Err)
	}
	if to > 0 && (tR < 0 || tR > from+to+cTol) && (tE < 0 || tE > from+to+cTol) {
		if h.Forced || o.End >= h.FinAt && !o.Late {
			return ""
		}
		if !isTimeout {
			return fmt.Sprintf("no answer came, the call must return the timeout error, not %v", o.Err)
		}
		if o.End < o.Start+to-cTol || o.End > o.Start+to+2*cTol {
			return fmt.Sprintf("the timeout is %v, the call took %v", to, o.End-o.Start)
		}
	}
	return ""
}

func init() {
	core.Register("C04", core.Check[CPlan]{
		Name: "receipts", Gen: genC04, Cases: [2]int{50000, 600000},
		Rule: "at least two calls waited for a receipt and one of: a receipt was withheld, late, repeated, unknown, or an ERROR came",
		Exec: func(x *core.Ctx, p CPlan) Result {
			h := p.run(x)
			if s := h.early(); s != "" {
				return Result{Fail: s}
			}
			w := h.w
			waited, odd := 0, len(p.Steps) > 0
			tE, _ := h.errorAt()
			arrival := func(match func(f wire.Frame) bool) (wire.Frame, time.Duration, bool) {
				for _, f := range w.peer.in {
					if match(f.F) {
						return f.F, f.At, true
					}
				}
				return wire.Frame{}, 0, false
			}
			claimed := map[int]bool{}
			nilUnsub := map[*csub]bool{}
			timed := map[*csub]bool{}
			for _, o := range w.outs {
				if o.Skip {
					continue
				}
				if !o.Done {
					return h.failf("%v: it never returned", o)
				}
				var id, te string
				var to, from time.Duration
				var arrived bool
				var f wire.Frame
				switch o.Op.K {
				case "send", "tsend":
					if !o.Op.Rcpt {
						continue
					}
					f, from, arrived = arrival(func(f wire.Frame) bool { return f.Cmd == "SEND" && f.Get("destination") == string(o.Op.Dest) })
					to, te = p.Conn.rcptTO(), stomp.ErrMsgReceiptTimeout.Error()
					if arrived && o.Op.Id != "" && f.Get("receipt") != string(o.Op.Id) {
						return h.failf("%v: receipt id %q, the caller chose %q", o, f.Get("receipt"), o.Op.Id)
					}
				case "commit", "abort":
					if !o.Op.Rcpt {
						continue
					}
					cmd := map[string]string{"commit": "COMMIT", "abort": "ABORT"}[o.Op.K]
					// (a transaction that could not be finished can be finished again)
					for i, g := range w.peer.in {
						if g.F.Cmd == cmd && g.F.Get("transaction") == o.TxId && g.At >= o.Start && !claimed[i] {
							claimed[i] = true
							f, from, arrived = g.F, g.At, true
							break
						}
					}
				case "unsub":
					if o.Err != nil && errText(o.Err) == stomp.ErrCompletedSubscription.Error() {
						continue
					}
					f, from, arrived = arrival(func(f wire.Frame) bool { return f.Cmd == "UNSUBSCRIBE" && f.Get("id") == o.Sub.s.Id() })
					to, te = p.Conn.unsubTO(), stomp.ErrUnsubscribeReceiptTimeout.Error()
					if o.Err == nil {
						nilUnsub[o.Sub] = true
					} else {
						timed[o.Sub] = true
					}
				default:
					continue
				}
				id = f.Get("receipt")
				if arrived && id == "" {
					return h.failf("%v: its frame asks for no receipt", o)
				}
				if o.Op.K == "tsend" || o.Op.K == "commit" || o.Op.K == "abort" {
					// with heart-beats, a call of a transaction waits for its receipt
					// only as long as their interval
					to, te = 0, ""
					if len(p.Conn.HB) == 5 && o.Err != nil {
						tR := time.Duration(-1)
						if arrived {
							tR = h.receiptAt(id, from)
						}
						hb := msd(p.Conn.HB[3])
						if tR < 0 || tE >= 0 || tR > o.Start+hb-cTol/10 {
							if o.End > o.Start+hb+cTol && (tE < 0 || o.End > tE+cTol) && p.Conn.C2S.Cap == 0 && !o.Late {
								return h.failf("%v: it took longer than the heart-beat interval, %v", o, hb)
							}
							odd = true
							continue
						}
					}
				}
				if s := h.checkConfirmed(o, id, arrived, from, to, te); s != "" {
					return h.failf("%v: %s", o, s)
				}
				if o.Late && tE < 0 && !h.Forced && o.Err != nil {
					return h.failf("%v: the connection has become unusable", o)
				}
				waited++
				if o.Err != nil {
					odd = true
				}
			}
			if h.Forced {
				return h.failf("a call did not return in time")
			}
			// no subscription was disturbed
			if tE < 0 {
				for _, s := range w.subs {
					if nilUnsub[s] || timed[s] {
						continue
					}
					if s.closed && s.closeAt < h.FinAt {
						return h.failf("subscription %q was closed though nobody unsubscribed it", s.s.Id())
					}
				}
			}
			return Result{NonTrivial: waited > 1 && odd, Labels: []string{sizeLabel("waited", waited), fmt.Sprintf("error:%v", tE >= 0)}}
		},
	})
}

var _ = errors.Is
