package props

import (
	"bytes"
	"errors"
	"fmt"

	stomp "github.com/go-stomp/stomp/v3"
	"pgregory.net/rapid"

	"verif.local/harness/core"
)

// ---------------------------------------------------------------- C03

// genSendOp draws the arguments of a send; the destination carries the op's tag.
func genSendOp(t *rapid.T, tag string, max int) COp {
	o := COp{K: "send", Dest: Str("/q/" + tag), Body: genBody(t, "body", max)}
	if chance(t, "dest-nasty", 25) {
		o.Dest += "/" + strNasty(t, "dest", 0)
	}
	if chance(t, "ct", 40) {
		o.CT = Str(rapid.SampledFrom([]string{"text/plain", "application/json", "x:y\\\r\n"}).Draw(t, "ct"))
	}
	for i, n := 0, pick(t, "nh", 5, 3, 2, 1); i < n; i++ {
		k := strNasty(t, "hk", 1)
		switch k {
		case "content-length", "receipt", "transaction", "destination", "content-type", "":
			k = "app"
		}
		o.H = append(o.H, KV{k, strNasty(t, "hv", 0)})
	}
	o.NilO = chance(t, "nil-opt", 5)
	o.NoCL = chance(t, "no-cl", 15) && !o.Body.HasNul()
	o.Rcpt = chance(t, "rcpt", 20)
	if chance(t, "bad", 6) {
		o.Bad = rng(t, "bad-kind", 1, 2)
	}
	return o
}

func genC03(t *rapid.T) CPlan {
	p := CPlan{Conn: genConn(t), Sched: genSched(t)}
	max := 300
	if chance(t, "big", 25) {
		max = 150000
	}
	if chance(t, "stall", 20) {
		p.Stall = rapid.SampledFrom([]int{50, 500, 30000}).Draw(t, "stall-ms")
		p.Conn.SendTO = rapid.SampledFrom([]int{20, 100, 60000, -1}).Draw(t, "send-to")
	}
	ng := pick(t, "goroutines", 2, 4, 2, 2) + 1
	for g := 0; g < ng; g++ {
		var ops []COp
		n := rng(t, "n", 1, 12)
		if max == 300 && chance(t, "long", 20) {
			n = rng(t, "n-long", 20, 80)
		}
		tx := false
		for i := 0; i < n; i++ {
			switch pick(t, "op", 12, 2, 1, 1) {
			case 0:
				o := genSendOp(t, opTag(g, i), max)
				if tx && chance(t, "in-tx", 50) {
					o.K, o.T = "tsend", g
				}
				ops = append(ops, o)
			case 1:
				if !tx {
					ops = append(ops, COp{K: "begin", T: g})
					tx = true
				} else {
					ops = append(ops, COp{K: rapid.SampledFrom([]string{"commit", "abort"}).Draw(t, "fin"), T: g, Rcpt: chance(t, "fin-rcpt", 40)})
					tx = false
				}
			case 2:
				ops = append(ops, COp{K: "sub", S: 100*g + i, Dest: Str("/s/" + opTag(g, i)), Mode: rng(t, "mode", 0, 2)})
			case 3:
				ops = append(ops, COp{K: "stats", Ms: rng(t, "pause", 0, 3)})
			}
		}
		p.Prog = append(p.Prog, ops)
	}
	return p
}

func init() {
	core.Register("C03", core.Check[CPlan]{
		Name: "sends", Gen: genC03, Cases: [2]int{18000, 300000},
		Rule: "at least two sends reported success, and there were several goroutines, a header option, a body over 4 kB or a stalled peer",
		Exec: func(x *core.Ctx, p CPlan) Result {
			h := p.run(x)
			if s := h.early(); s != "" {
				return Result{Fail: s}
			}
			w := h.w
			if w.peer.bad != "" {
				return h.failf("%s", w.peer.bad)
			}
			if h.Hung {
				return h.failf("an operation did not return although the peer reads everything")
			}
			type seen struct{ n, pos int }
			byDest := map[string]*seen{}
			all := w.peer.frames("SEND", "BEGIN", "COMMIT", "ABORT", "SUBSCRIBE")
			frameOf := map[string]pframe{}
			for i, f := range all {
				if f.F.Cmd != "SEND" {
					continue
				}
				d := f.F.Get("destination")
				s := byDest[d]
				if s == nil {
					s = &seen{}
					byDest[d] = s
				}
				s.n++
				s.pos = i
				frameOf[d] = f
			}
			okSends, rich := 0, len(p.Prog) > 1 || p.Stall > 0
			last := map[int]int{}
			for _, o := range w.outs {
				if o.Skip || (o.Op.K != "send" && o.Op.K != "tsend") {
					continue
				}
				s := byDest[string(o.Op.Dest)]
				n := 0
				if s != nil {
					n = s.n
				}
				if o.Op.Bad > 0 && !errors.Is(o.Err, stomp.ErrAlreadyClosed) {
					if o.Err == nil {
						return h.failf("%v: the option failed but the send succeeded", o)
					}
					if n > 0 {
						return h.failf("%v: the option failed but a frame was sent", o)
					}
					continue
				}
				if n > 1 {
					return h.failf("%v: %d frames on the wire", o, n)
				}
				if o.Err == nil {
					okSends++
					if n == 0 {
						return h.failf("%v: reported success, but no frame was sent", o)
					}
				} else if p.Stall == 0 {
					return h.failf("%v: failed on a working connection", o)
				}
				if n == 0 {
					continue
				}
				if pos, ok := last[o.G]; ok && s.pos < pos {
					return h.failf("%v: its frame precedes that of an earlier send of the same goroutine", o)
				}
				last[o.G] = s.pos
				f := frameOf[string(o.Op.Dest)].F
				want := o.Op.expected()
				got := f.H
				if o.Op.Rcpt {
					if len(f.All("receipt")) != 1 || f.Get("receipt") == "" {
						return h.failf("%v: receipt headers %q", o, f.All("receipt"))
					}
					got = without(got, "receipt")
				}
				if o.Op.K == "tsend" {
					want = append(want, KV{"transaction", Str(o.TxId)})
				}
				if !sameHeaders(want, got) {
					return h.failf("%v: headers on the wire %q, want %q", o, got, want)
				}
				if body := o.Op.Body.Bytes(); !bytes.Equal(body, f.Body) {
					return h.failf("%v: the body on the wire differs: %d bytes, want %d", o, len(f.Body), len(body))
				}
				if len(o.Op.H) > 0 || len(f.Body) > 4096 {
					rich = true
				}
			}
			sends := 0
			for _, s := range byDest {
				sends += s.n
			}
			issued := map[string]bool{}
			for _, o := range w.outs {
				issued[string(o.Op.Dest)] = true
			}
			for d := range byDest {
				if !issued[d] {
					return h.failf("a SEND frame to %q that nobody issued", d)
				}
			}
			return Result{NonTrivial: okSends > 1 && rich, Labels: []string{fmt.Sprintf("goroutines:%d", len(p.Prog)), sizeLabel("sends", okSends)}}
		},
	})
}

func sizeLabel(what string, n int) string {
	switch {
	case n == 0:
		return what + ":0"
	case n == 1:
		return what + ":1"
	case n < 5:
		return what + ":2-4"
	case n < 20:
		return what + ":5-19"
	case n < 100:
		return what + ":20-99"
	}
	return what + ":100+"
}
