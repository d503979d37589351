package props

import (
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"
	"pgregory.net/rapid"
	"verif.local/harness/core"
	"verif.local/harness/netsim"
	"verif.local/harness/wire"
)

// C14: the client's side of S13. A round of operations on a connection that stays, or of
// connections that come and go, is repeated hundreds of times.

type KCOp struct {
	K  string `json:"k"`           // sub, unsub, send, request (Send with receipt), begin, tsend, tack, commit, abort, ack, nack, feed, late
	N  int    `json:"n,omitempty"` // body size, number of messages
	M  int    `json:"m,omitempty"` // ack mode
	R  bool   `json:"r,omitempty"` // with receipt
	ID string `json:"id,omitempty"`
}

type KCLife struct {
	Ver   string `json:"ver"`
	Stay  bool   `json:"stay,omitempty"`
	HB    bool   `json:"hb,omitempty"`
	Keep  bool   `json:"keep,omitempty"`  // with Stay: a subscription stays as well
	Names bool   `json:"names,omitempty"` // every destination is another one
	Ops   []KCOp `json:"ops"`
	End   string `json:"end,omitempty"` // disc, must, eof, reset, error, garbage
}

type KCPlan struct {
	Sched core.Sched `json:"sched"`
	Lives []KCLife   `json:"lives"`
}

// kPeer answers every request at once.
type kPeer struct {
	c   *netsim.Conn
	ver string
	mu  sync.Mutex

	names bool
}

func (p *kPeer) run() {
	var d wire.Decoder
	buf := make([]byte, 4096)
	n := 0
	feed := func(id string, k int) {
		for ; k > 0; k-- {
			n++
			d := "/d"
			if p.names {
				d += itoa(n)
			}
			p.send(wire.F("MESSAGE", "subscription", id, "message-id", itoa(n), "ack", itoa(n), "destination", d).WithBody([]byte("some body")))
		}
	}
	for {
		m, err := p.c.Read(buf)
		fs, _ := d.Feed(buf[:m])
		for _, f := range fs {
			switch f.Cmd {
			case "CONNECT", "STOMP":
				h := wire.F("CONNECTED", "version", p.ver)
				if hb := f.Get("heart-beat"); hb != "" && hb != "0,0" {
					h = h.With("heart-beat", "20,20")
				}
				p.send(h)
			case "SUBSCRIBE":
				if f.Get("x-late") == "" {
					feed(f.Get("id"), len(f.Get("x-feed")))
				}
			case "SEND":
				if id := f.Get("x-to"); id != "" {
					feed(id, len(f.Get("x-feed")))
				}
			}
			if r := f.Get("receipt"); r != "" {
				if f.Get("x-late") != "" {
					time.Sleep(60 * time.Millisecond)
				}
				p.send(wire.F("RECEIPT", "receipt-id", r))
			}
		}
		if err != nil {
			_ = p.c.Close()
			return
		}
	}
}

func (p *kPeer) send(f wire.Frame) { _, _ = p.c.Write(wire.Encode(f)) }

type kConn struct {
	c    *stomp.Conn
	p    *kPeer
	subs []*kSub
	tx   *stomp.Transaction
	seq  int
	keep int // subscriptions that stay
}

type kSub struct {
	s    *stomp.Subscription
	mu   sync.Mutex
	last *stomp.Message
	done chan bool
}

func (k *kSub) drain() {
	for m := range k.s.C {
		k.mu.Lock()
		if m.Err == nil {
			k.last = m
		}
		k.mu.Unlock()
	}
	close(k.done)
}

func kConnect(lf KCLife) (*kConn, error) {
	a, b := netsim.Pair(netsim.Link{NoLog: true}, netsim.Link{NoLog: true}, "k", "peer")
	p := &kPeer{c: b, ver: lf.Ver, names: lf.Names}
	go p.run()
	opts := []func(*stomp.Conn) error{stomp.ConnOpt.Logger(quiet{}), stomp.ConnOpt.HeartBeat(0, 0), stomp.ConnOpt.RcvReceiptTimeout(20 * time.Millisecond), stomp.ConnOpt.UnsubscribeReceiptTimeout(20 * time.Millisecond)}
	if lf.HB {
		opts[1] = stomp.ConnOpt.HeartBeat(15*time.Millisecond, 15*time.Millisecond)
		opts = append(opts, stomp.ConnOpt.HeartBeatError(5*time.Millisecond))
	}
	c, err := stomp.Connect(a, opts...)
	return &kConn{c: c, p: p}, err
}

func (k *kConn) do(o KCOp) {
	hdr := func(key, v string) func(*frame.Frame) error { return stomp.SendOpt.Header(key, v) }
	var s *kSub
	if len(k.subs) > 0 {
		s = k.subs[len(k.subs)-1]
	}
	var msg *stomp.Message
	if s != nil {
		s.mu.Lock()
		msg, s.last = s.last, nil
		s.mu.Unlock()
	}
	body := []byte(strings.Repeat("b", o.N))
	dest := "/d"
	if k.p.names {
		k.seq++
		dest += itoa(k.seq)
	}
	switch o.K {
	case "sub":
		opts := []func(*frame.Frame) error{stomp.SubscribeOpt.Header("x-feed", strings.Repeat("m", o.N%20))}
		if o.ID != "" && len(k.subs) == 0 {
			opts = append(opts, stomp.SubscribeOpt.Id(o.ID))
		}
		if o.R { // a destination of the client itself, where nothing arrives
			k.seq++
			opts = append(opts, stomp.SubscribeOpt.Header(stomp.ReplyToHeader, "/temp-queue/"+itoa(k.seq)))
		}
		if x, err := k.c.Subscribe(dest, []stomp.AckMode{stomp.AckAuto, stomp.AckClient, stomp.AckClientIndividual}[o.M%3], opts...); err == nil {
			n := &kSub{s: x, done: make(chan bool)}
			go n.drain()
			k.subs = append(k.subs, n)
		}
	case "unsub":
		if len(k.subs) > k.keep {
			k.subs = k.subs[:len(k.subs)-1]
			if o.R { // not confirmed in time
				_ = s.s.Unsubscribe(func(f *frame.Frame) error { f.Header.Add("x-late", "1"); return nil })
			} else {
				_ = s.s.Unsubscribe()
			}
			<-s.done
		}
	case "feed":
		if s != nil {
			_ = k.c.Send(dest, "", body, hdr("x-to", s.s.Id()), hdr("x-feed", strings.Repeat("m", 1+o.N%20)))
		}
	case "send":
		_ = k.c.Send(dest, "text/plain", body)
	case "request":
		_ = k.c.Send(dest, "text/plain", body, stomp.SendOpt.Receipt)
	case "late":
		_ = k.c.Send(dest, "text/plain", body, stomp.SendOpt.Receipt, hdr("x-late", "1"))
		time.Sleep(50 * time.Millisecond)
	case "begin":
		if k.tx == nil {
			k.tx, _ = k.c.BeginWithError()
		}
	case "tsend":
		if k.tx != nil {
			_ = k.tx.Send(dest, "text/plain", body)
		}
	case "tack":
		if k.tx != nil && msg != nil {
			_ = k.tx.Ack(msg)
		}
	case "commit":
		if k.tx != nil {
			if o.R {
				_ = k.tx.CommitWithReceipt()
			} else {
				_ = k.tx.Commit()
			}
			k.tx = nil
		}
	case "abort":
		if k.tx != nil {
			if o.R {
				_ = k.tx.AbortWithReceipt()
			} else {
				_ = k.tx.Abort()
			}
			k.tx = nil
		}
	case "ack":
		if msg != nil {
			_ = k.c.Ack(msg)
		}
	case "nack":
		if msg != nil {
			_ = k.c.Nack(msg)
		}
	case "wait":
		time.Sleep(time.Millisecond)
	}
}

func (k *kConn) finish(end string) {
	switch end {
	case "disc":
		_ = k.c.Disconnect()
	case "must":
		_ = k.c.MustDisconnect()
	case "eof":
		_ = k.p.c.Close()
	case "reset":
		k.p.c.Reset()
	case "error":
		k.p.send(wire.F("ERROR", "message", "over"))
	case "garbage":
		_, _ = k.p.c.Write([]byte("NO SUCH\n\n\x00"))
	case "silent": // only with heart-beats, which the peer never sends
		time.Sleep(200 * time.Millisecond)
	}
	time.Sleep(time.Millisecond)
	for _, s := range k.subs {
		<-s.done
	}
	_ = k.p.c.Close()
}

func execC14(x *core.Ctx, p KCPlan) (res Result) {
	ops := 0
	for _, l := range p.Lives {
		ops += 2 + len(l.Ops)
		if l.Stay {
			res.Labels = append(res.Labels, "stays")
		} else {
			res.Labels = append(res.Labels, "end:"+l.End)
		}
		for _, o := range l.Ops {
			res.Labels = append(res.Labels, "op:"+o.K)
		}
		res.NonTrivial = res.NonTrivial || len(l.Ops) > 1
	}
	k := max(200, min(1000, 6000/(ops+1)))
	x.Bubble(func() {
		stay := make([]*kConn, len(p.Lives))
		for i, lf := range p.Lives {
			if lf.Stay {
				c, err := kConnect(lf)
				if err != nil {
					res.Fail = fmt.Sprintf("Connect: %v", err)
					return
				}
				stay[i] = c
				if lf.Keep {
					c.do(KCOp{K: "sub", M: i})
					c.keep = len(c.subs)
				}
			}
		}
		p.Sched.Arm()
		defer p.Sched.Disarm()
		res.Fail = grows(k, func() {
			var wg sync.WaitGroup
			for i, lf := range p.Lives {
				wg.Add(1)
				go func() {
					defer wg.Done()
					c := stay[i]
					if c == nil {
						var err error
						if c, err = kConnect(lf); err != nil {
							return
						}
					}
					for _, o := range lf.Ops {
						c.do(o)
						time.Sleep(10 * time.Microsecond)
					}
					if !lf.Stay {
						c.finish(lf.End)
						return
					}
					if c.tx != nil {
						c.do(KCOp{K: "abort"})
					}
					for len(c.subs) > c.keep {
						c.do(KCOp{K: "unsub"})
					}
				}()
			}
			wg.Wait()
			time.Sleep(time.Millisecond)
		})
		p.Sched.Disarm()
		for _, c := range stay {
			if c != nil {
				c.finish("must")
			}
		}
		time.Sleep(time.Second)
	})
	return
}

func genC14(t *rapid.T) (p KCPlan) {
	p.Sched = genSched(t)
	n := rng(t, "lives", 1, 3)
	for i := 0; i < n; i++ {
		lf := KCLife{Ver: rapid.SampledFrom([]string{"1.0", "1.1", "1.2"}).Draw(t, "ver"), Stay: chance(t, "stay", 50)}
		lf.Names = chance(t, "names", 40)
		if lf.Stay && chance(t, "keep", 40) {
			lf.Keep = true
			lf.Ops = append(lf.Ops, KCOp{K: "feed", N: rng(t, "kept", 0, 3)})
		}
		if !lf.Stay {
			lf.HB = chance(t, "hb", 20)
			lf.End = rapid.SampledFrom([]string{"disc", "must", "eof", "reset", "error", "garbage"}).Draw(t, "end")
			if lf.HB && chance(t, "silent", 50) {
				lf.End = "silent"
			}
		}
		m := rng(t, "ops", 1, 9)
		late := false
		for j := 0; j < m; j++ {
			o := KCOp{K: []string{"sub", "unsub", "send", "request", "late", "begin", "tsend", "tack", "commit", "abort", "ack", "nack", "feed", "wait"}[pick(t, "op", 5, 2, 2, 3, 1, 2, 2, 1, 2, 1, 2, 1, 3, 1)]}
			o.N = rapid.SampledFrom([]int{0, 1, 3, 17, 40, 5000}).Draw(t, "n")
			o.M, o.R = rng(t, "mode", 0, 2), chance(t, "receipt", 40)
			if o.K == "late" && late {
				o.K = "send"
			}
			if o.K == "unsub" || o.K == "sub" {
				o.R = chance(t, "late", 20) && !(late && o.K == "unsub")
			}
			late = late || o.K == "late" || o.K == "unsub" && o.R
			if chance(t, "own-id", 30) {
				o.ID = "own"
			}
			lf.Ops = append(lf.Ops, o)
		}
		p.Lives = append(p.Lives, lf)
	}
	return
}

func init() {
	core.Register("C14", core.Check[KCPlan]{
		Name: "rounds", Gen: genC14, Exec: execC14, Cases: [2]int{1000, 25000},
		Rule: "some connection did at least two operations",
	})
}
