package props

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/go-stomp/stomp/v3/server"
	"pgregory.net/rapid"
	"verif.local/harness/core"
	"verif.local/harness/netsim"
	"verif.local/harness/wire"
)

// S09: the server's side of heart-beating, on a virtual clock. Every byte in either direction
// has an exact time, so that silences can be compared with the negotiated intervals.

type HBOp struct {
	Wait int    `json:"wait"` // permille of the interval agreed for the client (of the scale if none)
	K    string `json:"k"`    // lf, frame, part, stall, churn (a subscription that ends when a message is on its way to it)
	N    int    `json:"n,omitempty"`
	H    string `json:"h,omitempty"` // the frame has an entry named heart-beat, which means nothing there
}

type HBClient struct {
	At   int    `json:"at"` // ms
	CX   int    `json:"cx"`
	CY   int    `json:"cy"`
	None bool   `json:"none,omitempty"` // no heart-beat header
	Ver  string `json:"ver"`
	St   bool   `json:"st,omitempty"`  // STOMP instead of CONNECT
	Cap  int    `json:"cap,omitempty"` // capacity towards the client
	Sub  int    `json:"sub,omitempty"` // 1 topic, 2 queue, 3 both
	Ops  []HBOp `json:"ops"`
}

type HBFeed struct {
	At   int  `json:"at"` // ms
	Q    bool `json:"q,omitempty"`
	Size int  `json:"size,omitempty"`
}

type HBPlan struct {
	Sched   core.Sched `json:"sched"`
	MinMs   int        `json:"min_ms"`
	Scale   int        `json:"scale"` // ms
	Clients []HBClient `json:"clients"`
	Feed    []HBFeed   `json:"feed,omitempty"`
}

const hbSlack = 2 * time.Millisecond

func execS09(x *core.Ctx, p HBPlan) (res Result) {
	fail := ""
	failf := func(f string, a ...any) {
		if fail == "" {
			fail = fmt.Sprintf(f, a...)
		}
	}
	labels := map[string]bool{}
	label := func(s string) { labels[s] = true }
	x.Bubble(func() {
		l := netsim.NewListener()
		st := newStore()
		s := &server.Server{Log: quiet{}, HeartBeat: msd(p.MinMs), QueueStorage: st}
		minMs := p.MinMs
		if minMs == 0 {
			minMs = 60000
		}
		p.Sched.Arm()
		startServer(s, l)
		t0 := time.Now()
		type cl struct {
			raw        *rawClient
			send, recv time.Duration
			writes     []time.Time
			connected  time.Time
			stalledAt  time.Time
			endCheck   time.Time
			parts      []byte
			gone       bool
		}
		cls := make([]*cl, len(p.Clients))
		done := make(chan struct{}, len(cls)+1)
		lock := make(chan struct{}, 1) // held only while nothing blocks
		for ci := range p.Clients {
			c := &p.Clients[ci]
			go func() {
				defer func() { done <- struct{}{} }()
				time.Sleep(msd(c.At))
				k := &cl{}
				k.raw = dialRaw(l, netsim.Link{}, netsim.Link{Cap: c.Cap}, "c"+itoa(ci))
				lock <- struct{}{}
				cls[ci] = k
				<-lock
				write := func(b []byte) {
					k.writes = append(k.writes, time.Now())
					_, _ = k.raw.c.Write(b)
				}
				f := wire.F("CONNECT", "accept-version", c.Ver, "host", "h")
				if c.St {
					f.Cmd = "STOMP"
				}
				if !c.None {
					f = f.With("heart-beat", fmt.Sprintf("%d,%d", c.CX, c.CY))
				}
				write(wire.Encode(f))
				time.Sleep(time.Millisecond)
				fs, _ := k.raw.frames()
				lock <- struct{}{}
				defer func() { <-lock }()
				if len(fs) == 0 || fs[0].Cmd != "CONNECTED" {
					failf("client %d is not connected: %v", ci, fs)
					k.gone = true
					return
				}
				send, recv, why := checkPromise(fs[0].Get("heart-beat"), c.CX, c.CY, minMs)
				if why != "" {
					failf("client %d: %s", ci, why)
					return
				}
				<-lock
				k.send, k.recv, k.connected = msd(send), msd(recv), time.Now()
				if c.Sub&1 != 0 {
					write(wire.Encode(wire.F("SUBSCRIBE", "id", "t", "destination", "/topic/t")))
				}
				if c.Sub&2 != 0 {
					write(wire.Encode(wire.F("SUBSCRIBE", "id", "q", "destination", "/queue/q", "ack", "client")))
				}
				unit := k.recv
				if unit == 0 {
					unit = msd(p.Scale)
				}
				closed := func() bool { _, c := k.raw.sv.Closed(); return c }
				for _, o := range c.Ops {
					time.Sleep(unit * time.Duration(o.Wait) / 1000)
					if closed() {
						break
					}
					switch o.K {
					case "lf":
						if len(k.parts) > 0 {
							write(k.parts[:1]) // inside a frame: another byte of it
							k.parts = k.parts[1:]
						} else {
							write([]byte("\n"))
						}
					case "frame":
						if len(k.parts) > 0 {
							write(k.parts)
							k.parts = nil
						} else if k.stalledAt.IsZero() {
							f := wire.F("SEND", "destination", "/topic/none")
							if o.H != "" {
								f = f.With("heart-beat", o.H)
							}
							write(wire.Encode(f))
						} else {
							write([]byte("\n\n"))
						}
					case "part":
						if !k.stalledAt.IsZero() && len(k.parts) == 0 {
							write([]byte("\r\n"))
							break
						}
						if len(k.parts) == 0 {
							k.parts = wire.Encode(wire.F("SEND", "destination", "/topic/none", "x", strings.Repeat("y", 30)).WithBody([]byte(strings.Repeat("z", 300))))
						}
						n := min(1+o.N, len(k.parts))
						write(k.parts[:n])
						k.parts = k.parts[n:]
					case "churn":
						if len(k.parts) > 0 || !k.stalledAt.IsZero() {
							break
						}
						var b []byte
						for j := range 1 + o.N%3 {
							d := fmt.Sprintf("/topic/churn%d.%d", ci, j)
							b = append(b, wire.Encode(wire.F("SUBSCRIBE", "id", "c", "destination", d))...)
							b = append(b, wire.Encode(wire.F("SEND", "destination", d))...)
							b = append(b, wire.Encode(wire.F("UNSUBSCRIBE", "id", "c"))...)
						}
						write(b)
					case "stall":
						if k.stalledAt.IsZero() {
							k.stalledAt = time.Now()
							k.raw.setStall(true)
						}
					}
				}
				// at last, silence
				if k.recv > 0 {
					time.Sleep(2*k.recv + 2*hbSlack)
				} else {
					time.Sleep(60 * msd(p.Scale))
				}
				k.endCheck = time.Now()
				lock <- struct{}{}
			}()
		}
		feeder := dialRaw(l, netsim.Link{}, netsim.Link{}, "feeder")
		feeder.send(wire.F("CONNECT", "accept-version", "1.2", "host", "h"))
		qn := 0
		go func() {
			defer func() { done <- struct{}{} }()
			for i, f := range p.Feed {
				time.Sleep(time.Until(t0.Add(msd(f.At))))
				m := wire.F("SEND", "destination", "/topic/t", "n", itoa(i)).WithBody([]byte(strings.Repeat("b", f.Size)))
				if f.Q {
					qn++
					m.H[0].V = "/queue/q"
				}
				feeder.send(m)
			}
		}()
		for range len(cls) + 1 {
			<-done
		}
		p.Sched.Disarm()
		for ci, k := range cls {
			if k == nil || k.gone || k.connected.IsZero() {
				continue
			}
			closedAt, closed := k.raw.sv.Closed()
			c := &p.Clients[ci]
			name := fmt.Sprintf("client %d (asked for %d,%d, was promised %v and has to send every %v)", ci, c.CX, c.CY, k.send, k.recv)
			rel := func(t time.Time) time.Duration { return t.Sub(t0) }
			// what the client was silent for
			if closed {
				last := k.writes[0]
				for _, w := range k.writes {
					if w.Before(closedAt.Add(-hbSlack)) { // a tie can go either way
						last = w
					}
				}
				if k.recv == 0 {
					failf("%s was disconnected at %v", name, rel(closedAt))
				} else if d := closedAt.Sub(last); d < k.recv {
					failf("%s was disconnected at %v, %v after it had sent something", name, rel(closedAt), d)
				}
				label("dropped")
			}
			if k.recv > 0 {
				for i, w := range k.writes {
					next := k.endCheck
					if i+1 < len(k.writes) {
						next = k.writes[i+1]
					}
					if limit := w.Add(2*k.recv + hbSlack); next.After(limit) && (!closed || closedAt.After(limit)) {
						at := "not at all"
						if closed {
							at = "at " + rel(closedAt).String()
						}
						failf("%s was silent from %v on, and was disconnected %s", name, rel(w), at)
						break
					}
				}
				if k.endCheck.Sub(k.connected) > 5*k.recv && (!closed || closedAt.Sub(k.connected) > 5*k.recv) {
					label("alive")
				}
			} else {
				label("unwatched")
			}
			// what the server was silent for
			end := k.endCheck
			if closed && closedAt.Before(end) {
				end = closedAt
			}
			if !k.stalledAt.IsZero() && k.stalledAt.Before(end) {
				end = k.stalledAt
				label("stalled")
			}
			ev := k.raw.sv.Written()
			if k.send > 0 {
				prev := k.connected
				for i := 0; i <= len(ev); i++ {
					t := end
					if i < len(ev) && ev[i].At.Before(end) {
						t = ev[i].At
					}
					if d := t.Sub(prev); d > k.send+hbSlack {
						failf("%s: the server was silent from %v to %v", name, rel(prev), rel(t))
						break
					}
					if t.After(prev) {
						prev = t
					}
				}
				label("beating")
			} else {
				k.raw.mu.Lock()
				for i, f := range k.raw.in {
					if f.Cmd == "" {
						failf("%s got a heart-beat at %v", name, rel(k.raw.at[i]))
						break
					}
				}
				k.raw.mu.Unlock()
				label("quiet")
			}
			// an idle client must still be served
			if !closed && k.stalledAt.IsZero() && k.recv == 0 {
				b := append(append([]byte{}, k.parts...), wire.Encode(wire.F("SEND", "destination", "/topic/none", "receipt", "final"))...)
				_, _ = k.raw.c.Write(b)
				time.Sleep(10 * time.Millisecond)
				fs, _ := k.raw.frames()
				if len(fs) == 0 || fs[len(fs)-1].Get("receipt-id") != "final" {
					failf("%s was idle, and is not served any more", name)
				}
			}
		}
		for _, k := range cls {
			if k != nil {
				k.raw.close()
			}
		}
		time.Sleep(time.Second)
		feeder.send(wire.F("SUBSCRIBE", "id", "drain", "destination", "/queue/q"))
		time.Sleep(time.Second)
		fs, _ := feeder.frames()
		got := map[string]int{}
		for _, f := range fs {
			if f.Cmd == "MESSAGE" {
				got[f.Get("n")]++
			}
		}
		if len(got) != qn {
			failf("%d of %d queue messages that nobody acknowledged came back", len(got), qn)
		}
		feeder.close()
		time.Sleep(time.Second)
		stopServer(l, st)
	})
	res.Fail = fail
	for k := range labels {
		res.Labels = append(res.Labels, k)
	}
	sort.Strings(res.Labels)
	res.NonTrivial = labels["beating"] || labels["dropped"] || labels["alive"]
	return
}

func genS09(t *rapid.T) HBPlan {
	p := HBPlan{Sched: genSched(t)}
	p.Sched.MaxNs = min(p.Sched.MaxNs, 1000)
	p.Scale = rapid.SampledFrom([]int{40, 50, 100, 1000, 15000, 60000, 3600000, 90000000}).Draw(t, "scale")
	v := func(label string) int {
		switch pick(t, label+"-kind", 2, 3, 3, 1, 1) {
		case 0:
			return 0
		case 1:
			return p.Scale
		case 2:
			return p.Scale/4 + uni(t, label, p.Scale*4)
		case 3:
			return p.Scale - 1
		default:
			return p.Scale + 1
		}
	}
	p.MinMs = v("min")
	if p.Scale < 5000 && p.MinMs == 0 {
		p.MinMs = 1
	}
	if p.Scale == 90000000 && chance(t, "huge", 20) {
		p.MinMs = 1000000000 + uni(t, "huge-n", 1000000000) // truncated
	}
	horizon := 0
	for range rng(t, "clients", 1, 3) {
		c := HBClient{CX: v("cx"), CY: v("cy"), Ver: rapid.SampledFrom([]string{"1.1", "1.2"}).Draw(t, "ver"), Sub: uni(t, "sub", 4)}
		if chance(t, "none", 5) {
			c.CX, c.CY, c.None = 0, 0, true
		}
		c.At = uni(t, "at", p.Scale+1)
		c.St = chance(t, "stomp", 30)
		c.Cap = []int{0, 1, 50, 5000}[uni(t, "cap", 4)]
		n := rng(t, "ops", 0, 12)
		stall := -1
		if chance(t, "stall", 25) {
			stall = uni(t, "stall-at", n+1)
			c.Cap = []int{1, 50, 300}[uni(t, "cap", 3)]
		}
		for i := 0; i < n; i++ {
			o := HBOp{Wait: []int{uni(t, "wait", 1000), 1000, 999, 1001 + uni(t, "wait", 998), 2500}[pick(t, "wait-kind", 6, 3, 2, 1, 1)], N: uni(t, "bytes", 60)}
			o.K = []string{"lf", "frame", "part", "churn"}[pick(t, "op", 4, 4, 4, 3)]
			if o.K == "frame" && chance(t, "odd", 20) {
				o.H = fmt.Sprintf("%d,%d", v("odd-x"), v("odd-y"))
			}
			if i == stall {
				o.K, o.Wait = "stall", o.Wait/2
			} else if i == stall+1 && stall >= 0 {
				o.Wait /= 2
			}
			c.Ops = append(c.Ops, o)
		}
		p.Clients = append(p.Clients, c)
		horizon = max(horizon, c.At+n*p.Scale)
	}
	at := 0
	for range rng(t, "feed", 0, 12) {
		at += uni(t, "feed-wait", p.Scale*3/2)
		p.Feed = append(p.Feed, HBFeed{At: at, Q: chance(t, "feed-q", 40), Size: []int{0, 100, 1000}[uni(t, "feed-size", 3)]})
	}
	return p
}

func init() {
	core.Register("S09", core.Check[HBPlan]{
		Name: "beats", Gen: genS09, Exec: execS09, Cases: [2]int{30000, 900000},
		Rule: "a direction with heart-beats was observed: the server beating, a client being dropped, or a client staying alive by its own beats",
	})
}
