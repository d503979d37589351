package props

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"
	"pgregory.net/rapid"
	"verif.local/harness/core"
	"verif.local/harness/netsim"
	"verif.local/harness/wire"
)

// C02: the client's side of heart-beating, on a virtual clock.

type HCOp struct {
	Wait int    `json:"wait"` // permille of the scale
	K    string `json:"k"`    // send, rsend, big, reply (subscribe to reply-to, which sends nothing), unreply
}

type HCPlan struct {
	Sched core.Sched  `json:"sched"`
	Scale int         `json:"scale"` // ms
	Send  int         `json:"send"`  // ms; both -1: option not given
	Recv  int         `json:"recv"`
	Err   int         `json:"err"`  // ms; -1: not given
	Mult  float64     `json:"mult"` // 0: not given
	Reply bool        `json:"reply"`
	SX    int         `json:"sx"`
	SY    int         `json:"sy"`
	C2S   netsim.Link `json:"c2s"`
	S2C   netsim.Link `json:"s2c"`
	Subs  int         `json:"subs"`
	Slow  int         `json:"slow,omitempty"` // ms the consumer of the first subscription takes for each message
	Srv   []HBOp      `json:"srv"`
	Cli   []HCOp      `json:"cli"`
}

func rawPeer(c *netsim.Conn) *rawClient {
	r := &rawClient{c: c}
	r.wake = sync.NewCond(&r.mu)
	go r.read()
	return r
}

func execC02(x *core.Ctx, p HCPlan) (res Result) {
	fail := ""
	failf := func(f string, a ...any) {
		if fail == "" {
			fail = fmt.Sprintf(f, a...)
		}
	}
	labels := map[string]bool{}
	x.Bubble(func() {
		t0 := time.Now()
		rel := func(t time.Time) time.Duration { return t.Sub(t0) }
		cl, sv := netsim.Pair(p.C2S, p.S2C, "client:1", "server:2")
		peer := rawPeer(sv)
		opts := []func(*stomp.Conn) error{stomp.ConnOpt.Logger(quiet{})}
		send, recv, herr, mult := time.Minute, time.Minute, 5*time.Second, 1.0
		if p.Send >= 0 {
			send, recv = msd(p.Send), msd(p.Recv)
			opts = append(opts, stomp.ConnOpt.HeartBeat(send, recv))
		}
		if p.Err >= 0 {
			herr = msd(p.Err)
			opts = append(opts, stomp.ConnOpt.HeartBeatError(herr))
		}
		if p.Mult > 0 {
			mult = p.Mult
			opts = append(opts, stomp.ConnOpt.HeartBeatGracePeriodMultiplier(mult))
		}
		var writes []time.Time // of the server
		wlock := make(chan struct{}, 1)
		write := func(b []byte) {
			wlock <- struct{}{}
			writes = append(writes, time.Now())
			<-wlock
			_, _ = sv.Write(b)
			if p.Slow > 0 { // the client need not have read until now
				wlock <- struct{}{}
				writes = append(writes, time.Now())
				<-wlock
			}
		}
		var sx, sy time.Duration
		go func() {
			time.Sleep(time.Millisecond)
			f := wire.F("CONNECTED", "version", "1.2")
			if p.Reply {
				f = f.With("heart-beat", fmt.Sprintf("%d,%d", p.SX, p.SY))
				sx, sy = msd(p.SX), msd(p.SY)
			}
			write(wire.Encode(f))
		}()
		p.Sched.Arm()
		conn, err := stomp.Connect(cl, opts...)
		if err != nil {
			failf("connecting failed: %v", err)
			peer.close()
			return
		}
		connected := time.Now()
		var W, R time.Duration // agreed
		if send > 0 && sy > 0 {
			W = max(send, sy)
		}
		if recv > 0 && sx > 0 {
			R = max(recv, sx)
		}
		limit := time.Duration(float64(R+herr) * mult)
		name := fmt.Sprintf("the client (%v,%v; margin %v, multiplier %v) at the server (%d,%d)", send, recv, herr, mult, p.SX, p.SY)

		type subState struct {
			errs, after int
			closedAt    time.Time
			n           atomic.Int32
		}
		gone := make(chan struct{}) // the end of the slow consumer
		var subs []*subState
		var wg sync.WaitGroup
		for i := range p.Subs {
			s, err := conn.Subscribe("/s"+itoa(i), stomp.AckAuto, stomp.SubscribeOpt.Id("s"+itoa(i)))
			if err != nil {
				failf("subscribing failed: %v", err)
				continue
			}
			st := &subState{}
			subs = append(subs, st)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for m := range s.C {
					if st.errs > 0 {
						st.after++
					}
					if m.Err != nil {
						st.errs++
					} else {
						st.n.Add(1)
						if i == 0 && p.Slow > 0 {
							select {
							case <-gone:
							case <-time.After(msd(p.Slow)):
							}
						}
					}
				}
				st.closedAt = time.Now()
			}()
		}
		time.Sleep(time.Millisecond) // until the subscriptions are registered
		done := make(chan struct{})
		var stalledAt, consumed time.Time
		sentN := 0
		var parts []byte
		go func() { // the server
			defer close(done)
			unit := R
			if unit == 0 {
				unit = msd(p.Scale)
			}
			for _, o := range p.Srv {
				time.Sleep(unit * time.Duration(o.Wait) / 1000)
				if _, c := cl.Closed(); c {
					break
				}
				switch o.K {
				case "lf":
					if len(parts) > 0 {
						write(parts[:1])
						parts = parts[1:]
					} else {
						write([]byte("\n"))
					}
				case "frame", "part":
					if len(parts) == 0 {
						parts = wire.Encode(wire.F("MESSAGE", "subscription", "s0", "message-id", "1", "destination", "/s0", "x", strings.Repeat("y", 30)).WithBody([]byte(strings.Repeat("z", 300))))
						sentN++
					}
					n := len(parts)
					if o.K == "part" {
						n = min(1+o.N, n)
					}
					write(parts[:n])
					parts = parts[n:]
				case "burst":
					for range o.N {
						parts = append(parts, wire.Encode(wire.F("MESSAGE", "subscription", "s0", "message-id", "1", "destination", "/s0").WithBody([]byte("x")))...)
						sentN++
					}
					write(parts)
					parts = nil
				case "stall":
					if stalledAt.IsZero() {
						stalledAt = time.Now()
						peer.setStall(true)
					}
				}
			}
			if p.Slow > 0 { // the server is alive until everything is consumed
				if len(parts) > 0 {
					write(parts)
					parts = nil
				}
				for int(subs[0].n.Load()) < sentN {
					if _, c := cl.Closed(); c {
						break
					}
					write([]byte("\n"))
					time.Sleep(unit / 2)
				}
				consumed = time.Now()
			}
			if R > 0 {
				time.Sleep(limit + 2*hbSlack)
			} else {
				time.Sleep(60 * msd(p.Scale))
			}
		}()
		stop := make(chan struct{})
		cdone := make(chan struct{})
		go func() { // the client
			defer close(cdone)
			for oi, o := range p.Cli {
				select {
				case <-stop:
					return
				case <-time.After(msd(p.Scale) * time.Duration(o.Wait) / 1000):
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					switch o.K {
					case "send":
						_ = conn.Send("/d", "", []byte("x"))
					case "rsend":
						_ = conn.Send("/d", "", nil, stomp.SendOpt.Receipt)
					case "reply", "unreply":
						s, err := conn.Subscribe("/r", stomp.AckAuto, stomp.SubscribeOpt.Header(stomp.ReplyToHeader, "/temp-queue/"+itoa(oi)))
						if err != nil {
							return
						}
						wg.Add(1)
						go func() {
							defer wg.Done()
							for range s.C {
							}
						}()
						if o.K == "unreply" {
							_ = s.Unsubscribe()
						}
					case "big":
						_ = conn.Send("/d", "", make([]byte, 6000), func(f *frame.Frame) error { return nil })
					}
				}()
			}
		}()
		<-done
		end := time.Now()
		close(stop)
		<-cdone
		p.Sched.Disarm()
		close(gone)
		closedAt, closed := cl.Closed()
		if closed {
			last := writes[0]
			for _, w := range writes {
				if w.Before(closedAt.Add(-hbSlack)) { // a tie can go either way
					last = w
				}
			}
			if R == 0 {
				failf("%s closed the connection at %v, although nobody promised to beat", name, rel(closedAt))
			} else if d := closedAt.Sub(last); d < R {
				failf("%s closed the connection at %v, %v after the server had sent something", name, rel(closedAt), d)
			}
			labels["dropped"] = true
		}
		if R > 0 {
			for i, w := range writes {
				next := end
				if p.Slow > 0 && i+1 < len(writes) { // can be late, the client does not read while it waits for the consumer
					continue
				}
				if i+1 < len(writes) {
					next = writes[i+1]
				}
				if w.Before(consumed) {
					w = consumed
				}
				if l := w.Add(limit + hbSlack); next.After(l) && (!closed || closedAt.After(l)) {
					at := "not at all"
					if closed {
						at = "at " + rel(closedAt).String()
					}
					failf("%s: the server was silent from %v on, and the connection was closed %s", name, rel(w), at)
					break
				}
			}
			if !closed || closedAt.Sub(connected) > 3*R {
				labels["alive"] = true
			}
		}
		stop2 := end
		if closed && closedAt.Before(end) {
			stop2 = closedAt
		}
		if !stalledAt.IsZero() && stalledAt.Before(stop2) {
			stop2 = stalledAt
			labels["stalled"] = true
		}
		if W > 0 {
			prev := connected
			ev := cl.Written()
			for i := 0; i <= len(ev); i++ {
				t := stop2
				if i < len(ev) && ev[i].At.Before(stop2) {
					t = ev[i].At
				}
				if d := t.Sub(prev); d > W+hbSlack {
					failf("%s was silent from %v to %v", name, rel(prev), rel(t))
					break
				}
				if t.After(prev) {
					prev = t
				}
			}
			labels["beating"] = true
		} else {
			peer.mu.Lock()
			for i, f := range peer.in {
				if f.Cmd == "" {
					failf("%s sent a heart-beat at %v", name, rel(peer.at[i]))
					break
				}
			}
			peer.mu.Unlock()
			labels["quiet"] = true
		}
		if p.Slow > 0 {
			labels["slow consumer"] = true
		}
		if !closed {
			// must be in working order
			if stalledAt.IsZero() {
				got := make(chan error, 1)
				go func() { got <- conn.Send("/final", "", nil) }()
				select {
				case err := <-got:
					if err != nil {
						failf("%s: sending failed at the end: %v", name, err)
					}
				case <-time.After(time.Second):
					failf("%s: sending hangs at the end", name)
				}
				time.Sleep(10 * time.Millisecond)
				fs, _ := peer.frames()
				if len(fs) == 0 || fs[len(fs)-1].Get("destination") != "/final" {
					failf("%s did not send a frame at the end", name)
				}
				if len(subs) > 0 && len(parts) == 0 && int(subs[0].n.Load()) != sentN {
					failf("%s delivered %d of %d messages", name, subs[0].n.Load(), sentN)
				}
			}
			for i, s := range subs {
				if s.errs > 0 || !s.closedAt.IsZero() {
					failf("%s ended subscription %d of a live connection", name, i)
				}
			}
		} else {
			time.Sleep(10 * time.Millisecond)
			for i, s := range subs {
				switch {
				case s.closedAt.IsZero():
					failf("%s closed the connection, and subscription %d was not ended", name, i)
				case s.errs != 1 || s.after > 0:
					failf("%s closed the connection, and subscription %d got %d errors", name, i, s.errs)
				case s.closedAt.Sub(closedAt) > hbSlack && (i > 0 || p.Slow == 0):
					failf("%s closed the connection at %v, and subscription %d ended at %v", name, rel(closedAt), i, rel(s.closedAt))
				}
			}
			if err := conn.Send("/x", "", nil); err == nil {
				failf("%s closed the connection, and sending still succeeds", name)
			}
		}
		peer.close()
		time.Sleep(time.Second)
		_ = conn.MustDisconnect()
		wg.Wait()
	})
	res.Fail = fail
	for k := range labels {
		res.Labels = append(res.Labels, k)
	}
	sort.Strings(res.Labels)
	res.NonTrivial = labels["beating"] || labels["dropped"] || labels["alive"]
	return
}

func genC02(t *rapid.T) HCPlan {
	p := HCPlan{Sched: genSched(t), Reply: chance(t, "reply", 90)}
	p.Sched.MaxNs = min(p.Sched.MaxNs, 1000)
	p.Scale = rapid.SampledFrom([]int{40, 50, 100, 1000, 15000, 60000, 3600000, 90000000}).Draw(t, "scale")
	v := func(label string) int {
		switch pick(t, label+"-kind", 2, 3, 3, 1, 1) {
		case 0:
			return 0
		case 1:
			return p.Scale
		case 2:
			return p.Scale/4 + uni(t, label, p.Scale*4)
		case 3:
			return p.Scale - 1
		default:
			return p.Scale + 1
		}
	}
	p.Send, p.Recv, p.SX, p.SY = v("send"), v("recv"), v("sx"), v("sy")
	if p.Scale == 60000 && chance(t, "defaults", 50) {
		p.Send, p.Recv = -1, -1
	}
	switch pick(t, "err", 2, 3, 4, 1) {
	case 0:
		p.Err = -1
	case 1:
		p.Err = 0
	case 2:
		p.Err = uni(t, "err-n", p.Scale)
	default:
		p.Err = p.Scale * 3
	}
	if p.Err == -1 && p.Scale < 1000 {
		p.Err = p.Scale / 5
	}
	if e := p.Err; p.SY > 0 {
		if e == -1 {
			e = 5000
		}
		if p.SY > e && p.SY-e < p.Scale/8 { // the client would beat almost all the time
			p.Err = p.Scale / 10
		}
	}
	p.Mult = []float64{0, 1, 1.25, 2, 3.5}[uni(t, "mult", 5)]
	p.C2S, p.S2C = genLink(t, "c2s", true), genLink(t, "s2c", true)
	p.Subs = uni(t, "subs", 3)
	n := rng(t, "ops", 0, 12)
	stall := -1
	if p.Subs > 0 && chance(t, "slow", 25) {
		p.Slow = 1 + uni(t, "slow-ms", []int{p.Scale / 10, p.Scale, p.Scale * 4}[uni(t, "slow-kind", 3)])
		n = max(n, 1)
	} else if chance(t, "stall", 30) {
		stall = uni(t, "stall-at", n+1)
		p.C2S.Cap = []int{1, 50, 5000}[uni(t, "cap", 3)]
	}
	for i := 0; i < n; i++ {
		o := HBOp{Wait: []int{uni(t, "wait", 1000), 1000, 999, 1001 + uni(t, "wait", 998), 6000}[pick(t, "wait-kind", 6, 3, 2, 1, 1)], N: uni(t, "bytes", 60)}
		o.K = []string{"lf", "frame", "part"}[uni(t, "op", 3)]
		if i == stall {
			o.K, o.Wait = "stall", o.Wait/2
		} else if i == stall+1 && stall >= 0 {
			o.Wait /= 2
		}
		if p.Slow > 0 && (i == 0 || chance(t, "burst", 15)) {
			o.K, o.N = "burst", 1+uni(t, "burst-n", 60)
		}
		p.Srv = append(p.Srv, o)
	}
	for range rng(t, "client-ops", 0, 8) {
		p.Cli = append(p.Cli, HCOp{Wait: []int{0, uni(t, "wait", 1000), uni(t, "wait", 3000)}[uni(t, "wait-kind", 3)], K: []string{"send", "rsend", "big", "reply", "unreply"}[pick(t, "op", 4, 2, 2, 2, 1)]})
	}
	return p
}

func init() {
	core.Register("C02", core.Check[HCPlan]{
		Name: "beats", Gen: genC02, Exec: execC02, Cases: [2]int{20000, 600000},
		Rule: "a direction with heart-beats was observed: the client beating, closing a dead connection, or keeping a live one",
	})
}
