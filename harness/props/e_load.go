package props

import (
	"fmt"
	"sync"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"
	"github.com/go-stomp/stomp/v3/server"
	"pgregory.net/rapid"
	"verif.local/harness/core"
	"verif.local/harness/netsim"
)

// Part "load" of E01: producers and consumers that use the client library run concurrently
// against the bundled server. Judged is what holds for every interleaving.

type LSend struct {
	D     int  `json:"d"`
	How   int  `json:"how"` // 0 plain, 1 receipt, 2 starts or continues a transaction, 3 commits it, 4 aborts it
	Us    int  `json:"us,omitempty"`
	Len   int  `json:"len,omitempty"`
	Other bool `json:"other,omitempty"` // from a goroutine of its own
}

type LCons struct {
	Mode   int    `json:"mode"`
	D      int    `json:"d"`
	Nack   int    `json:"nack,omitempty"` // every n-th message is rejected
	InTx   int    `json:"in_tx,omitempty"`
	Us     int    `json:"us,omitempty"`
	After  int    `json:"after,omitempty"` // ends after so many messages
	End    string `json:"end,omitempty"`   // unsub, disc, kill
	Read   bool   `json:"read,omitempty"`
	Shared int    `json:"shared,omitempty"` // shares the connection of that consumer (1+)
}

type LPlan struct {
	Sched core.Sched `json:"sched"`
	SrvHB int        `json:"srv_hb"`
	Prod  []EClient  `json:"prod"`
	Sends [][]LSend  `json:"sends"` // per producer
	CCl   []EClient  `json:"ccl"`
	Cons  []LCons    `json:"cons"`
}

type lMsg struct {
	uid, dest string
	p, n      int
	body      string
	state     int // 0 unknown, 1 accepted, 2 discarded
	auto      int // deliveries in auto mode
	acked     int // acknowledged by the consumer
	maybe     int // so many acknowledgements may have been lost with their connection
	rest      int // found at the end
}

type lWorld struct {
	mu    chan struct{}
	fail  string
	msgs  map[string]*lMsg
	count int
}

func (w *lWorld) lock()   { w.mu <- struct{}{} }
func (w *lWorld) unlock() { <-w.mu }
func (w *lWorld) failf(f string, a ...any) {
	w.lock()
	defer w.unlock()
	if w.fail == "" {
		w.fail = fmt.Sprintf(f, a...)
	}
}

func execLoad(x *core.Ctx, p LPlan) (res Result) {
	w := &lWorld{mu: make(chan struct{}, 1), msgs: map[string]*lMsg{}}
	topicGot := 0
	x.Bubble(func() {
		l := netsim.NewListener()
		st := newStore()
		s := &server.Server{Log: quiet{}, HeartBeat: msd(p.SrvHB), QueueStorage: st}
		if len(p.Prod) > 0 && p.Prod[0].Auth {
			s.Authenticator = authEither{}
		}
		startServer(s, l)
		var trs []*netsim.Conn
		var conns []*stomp.Conn
		connect := func(e *EClient, name string) *stomp.Conn {
			cl, sv := netsim.Pair(e.Up, e.Down, name, "server:1")
			l.Push(sv)
			c, err := stomp.Connect(cl, e.options()...)
			if err != nil {
				w.failf("%s could not connect: %v", name, err)
				return nil
			}
			trs = append(trs, cl)
			conns = append(conns, c)
			return c
		}
		var prods, ccs []*stomp.Conn
		for i := range p.Prod {
			prods = append(prods, connect(&p.Prod[i], "producer"+itoa(i)))
		}
		type cons struct {
			LCons
			i     int
			c     *stomp.Conn
			s     *stomp.Subscription
			topic []*lMsg
			ended bool
		}
		var cs []*cons
		for i := range p.CCl {
			ccs = append(ccs, connect(&p.CCl[i], "consumer"+itoa(i)))
		}
		if w.fail != "" {
			return
		}
		alone := map[string]int{}
		shared := map[*stomp.Conn]int{}
		for i, k := range p.Cons {
			c := ccs[(i+k.Shared)%len(ccs)]
			shared[c]++
			cs = append(cs, &cons{LCons: k, i: i, c: c})
			alone[eDests[k.D]]++
		}
		for _, k := range cs {
			if shared[k.c] > 1 && (k.End == "disc" || k.End == "kill") {
				k.End = "unsub" // others use the connection
			}
			var err error
			if k.s, err = k.c.Subscribe(eDests[k.D], stomp.AckMode(k.Mode)); err != nil {
				w.failf("consumer %d could not subscribe: %v", k.i, err)
				return
			}
		}
		time.Sleep(sSettle)
		p.Sched.Arm()
		var cwg, pwg sync.WaitGroup
		for _, k := range cs {
			k := k
			cwg.Add(1)
			go func() {
				defer cwg.Done()
				lastOf := map[int]int{}
				n := 0
				leaving := false
				for {
					var m *stomp.Message
					var ok bool
					if k.Read {
						var err error
						m, err = k.s.Read()
						ok = err == nil
					} else {
						m, ok = <-k.s.C
					}
					if !ok {
						return
					}
					if leaving && m.Err == nil && k.Mode != 0 {
						continue // an undrained subscription would block the connection
					}
					if m.Err != nil {
						if !k.ended {
							w.failf("consumer %d was told %v", k.i, m.Err)
						}
						return
					}
					n++
					w.lock()
					e := w.msgs[m.Header.Get("uid")]
					w.count++
					w.unlock()
					if e == nil || e.dest != eDests[k.D] || string(m.Body) != e.body || m.Destination != e.dest || m.Subscription != k.s {
						w.failf("consumer %d of %s got a strange message: %v", k.i, eDests[k.D], m.Header)
						continue
					}
					w.lock()
					discarded := e.state == 2
					w.unlock()
					if discarded {
						w.failf("consumer %d got message %s, which was not accepted", k.i, e.uid)
					}
					topic := eIsTopic(e.dest)
					if topic {
						k.topic = append(k.topic, e)
					}
					if topic || alone[e.dest] == 1 && k.Nack == 0 {
						if last, ok := lastOf[e.p]; ok && last > e.n && e.p >= 0 {
							w.failf("consumer %d of %s got message %s after a later one of the same goroutine", k.i, e.dest, e.uid)
						}
						lastOf[e.p] = e.n
					}
					if k.Us > 0 {
						time.Sleep(time.Duration(k.Us) * time.Microsecond)
					}
					last := k.After > 0 && n == k.After
					if k.Mode == 0 {
						if !topic {
							w.lock()
							e.auto++
							w.unlock()
						}
					} else {
						var err error
						nack := k.Nack > 0 && n%k.Nack == 0
						switch {
						case k.InTx > 0 && n%k.InTx == 0:
							var tx *stomp.Transaction
							if tx, err = k.c.BeginWithError(); err != nil {
								break
							}
							if nack {
								err = tx.Nack(m)
							} else {
								err = tx.Ack(m)
							}
							if err == nil {
								err = tx.Commit()
							}
						case nack:
							err = k.c.Nack(m)
						default:
							err = k.c.Ack(m)
						}
						if err != nil {
							w.failf("consumer %d could not settle message %s: %v", k.i, e.uid, err)
						}
						if !nack && !topic {
							w.lock()
							e.acked++
							if last && k.End == "kill" {
								e.maybe++
							}
							w.unlock()
						}
					}
					if !last {
						continue
					}
					switch k.End {
					case "unsub":
						s := k.s
						go func() {
							if err := s.Unsubscribe(); err != nil {
								w.failf("consumer %d could not unsubscribe: %v", k.i, err)
							}
						}()
						k.ended = true
						if k.Read { // Read refuses at once: the rest comes from the channel
							k.Read = false
						}
					case "disc":
						k.ended, leaving = true, true
						go func() {
							if err := k.c.Disconnect(); err != nil {
								w.failf("consumer %d could not disconnect: %v", k.i, err)
							}
						}()
					case "kill":
						k.ended, leaving = true, true
						_ = k.c.MustDisconnect()
					}
				}
			}()
		}
		for i := range p.Prod {
			i := i
			c := prods[i]
			new := func(j int, o LSend, own bool) *lMsg {
				m := &lMsg{uid: fmt.Sprintf("%d.%d", i, j), dest: eDests[o.D], p: i, n: j, body: fmt.Sprintf("%d.%d:", i, j) + string(Body{N: o.Len, Seed: uint32(j)}.Bytes())}
				if own {
					m.p = -1 - i*1000 - j
				}
				w.lock()
				w.msgs[m.uid] = m
				w.unlock()
				return m
			}
			set := func(m *lMsg, st int) { w.lock(); m.state = st; w.unlock() }
			pwg.Add(1)
			go func() {
				defer pwg.Done()
				var tx *stomp.Transaction
				var in []*lMsg
				for j, o := range p.Sends[i] {
					if o.Us > 0 {
						time.Sleep(time.Duration(o.Us) * time.Microsecond)
					}
					uid := stomp.SendOpt.Header("uid", fmt.Sprintf("%d.%d", i, j))
					send := func(f func(string, string, []byte, ...func(*frame.Frame) error) error, m *lMsg, opts ...func(*frame.Frame) error) bool {
						err := f(m.dest, "text/plain", []byte(m.body), append(opts, uid)...)
						if err != nil {
							w.failf("producer %d: the send of %s failed: %v", i, m.uid, err)
						}
						return err == nil
					}
					var err error
					switch o.How {
					case 0, 1:
						var opts []func(*frame.Frame) error
						if o.How == 1 {
							opts = append(opts, stomp.SendOpt.Receipt)
						}
						m := new(j, o, o.Other)
						if o.Other {
							pwg.Add(1)
							go func() {
								defer pwg.Done()
								if send(c.Send, m, opts...) {
									set(m, 1)
								}
							}()
						} else if send(c.Send, m, opts...) {
							set(m, 1)
						}
					case 2:
						if tx == nil {
							if tx, err = c.BeginWithError(); err != nil {
								w.failf("producer %d: begin failed: %v", i, err)
								return
							}
						}
						m := new(j, o, true)
						if send(tx.Send, m) {
							in = append(in, m)
						}
					case 3, 4:
						if tx == nil {
							continue
						}
						if o.How == 3 {
							err = tx.CommitWithReceipt()
						} else {
							for _, m := range in {
								set(m, 2)
							}
							err = tx.Abort()
						}
						if err != nil {
							w.failf("producer %d: the end of a transaction failed: %v", i, err)
						}
						if o.How == 3 {
							for _, m := range in {
								set(m, 1)
							}
						}
						tx, in = nil, nil
					}
				}
				for _, m := range in {
					set(m, 2) // left open
				}
			}()
		}
		pdone := make(chan struct{})
		go func() { pwg.Wait(); close(pdone) }()
		select {
		case <-pdone:
		case <-time.After(20 * time.Minute):
			w.failf("the producers had not finished after 20 minutes")
		}
		time.Sleep(2 * time.Minute)
		p.Sched.Disarm()
		if w.fail == "" {
			for _, c := range prods {
				if err := c.Disconnect(); err != nil {
					w.failf("a producer could not disconnect: %v", err)
				}
			}
			for _, k := range cs {
				if !k.ended {
					k.ended = true
					if shared[k.c] > 1 {
						_ = k.s.Unsubscribe()
					} else if err := k.c.Disconnect(); err != nil {
						w.failf("consumer %d could not disconnect: %v", k.i, err)
					}
				}
			}
		}
		for i := range conns {
			_ = conns[i].MustDisconnect()
			_ = trs[i].Close()
		}
		time.Sleep(time.Minute)
		cdone := make(chan struct{})
		go func() { cwg.Wait(); close(cdone) }()
		select {
		case <-cdone:
		case <-time.After(20 * time.Minute):
			w.failf("the consumers had not finished after 20 minutes")
		}
		if w.fail == "" { // what is left
			e := EClient{Ver: 1, HB: [2]int{-1, -1}, Err: -1, Auth: len(p.Prod) > 0 && p.Prod[0].Auth}
			if c := connect(&e, "drain"); c != nil {
				for _, d := range eDests {
					s, err := c.Subscribe(d, stomp.AckAuto)
					if err != nil {
						w.failf("draining %s: %v", d, err)
						break
					}
					topic := eIsTopic(d)
					go func() {
						for m := range s.C {
							if m.Err != nil {
								continue
							}
							w.lock()
							if e := w.msgs[m.Header.Get("uid")]; e != nil && !topic {
								e.rest++
							} else if w.fail == "" {
								w.fail = fmt.Sprintf("%s kept or got a strange message: %v", d, m.Header)
							}
							w.unlock()
						}
					}()
				}
				time.Sleep(time.Second)
				_ = c.Disconnect()
				time.Sleep(time.Second)
			}
		}
		w.lock()
		for _, m := range w.msgs {
			if w.fail != "" {
				break
			}
			if eIsTopic(m.dest) {
				for _, k := range cs {
					if eDests[k.D] != m.dest {
						continue
					}
					n := 0
					for _, e := range k.topic {
						if e == m {
							n++
						}
					}
					topicGot += n
					if n > 1 || m.state == 1 && n == 0 && k.After == 0 || m.state == 2 && n > 0 {
						w.fail = fmt.Sprintf("topic message %s (state %d) reached consumer %d %d times", m.uid, m.state, k.i, n)
					}
				}
				continue
			}
			n := m.auto + m.acked + m.rest
			lossy := m.maybe > 0
			for _, k := range cs {
				if eDests[k.D] == m.dest && k.Mode == 0 && (k.End == "disc" || k.End == "kill") && k.After > 0 {
					lossy = true // it may have been on its way
				}
			}
			switch {
			case m.state == 2 && n > 0:
				w.fail = fmt.Sprintf("message %s, which was not accepted, was delivered", m.uid)
			case m.state == 1 && n == 0 && !lossy:
				w.fail = fmt.Sprintf("message %s was lost", m.uid)
			case n > 1+m.maybe:
				w.fail = fmt.Sprintf("message %s: taken in auto mode %d times, acknowledged %d times, left over %d times", m.uid, m.auto, m.acked, m.rest)
			}
		}
		w.unlock()
		stopServer(l, st)
	})
	res.Fail = w.fail
	res.NonTrivial = w.count >= 5
	res.Labels = append(res.Labels, sizeLabel("deliveries", w.count))
	if topicGot > 0 {
		res.Labels = append(res.Labels, "topics")
	}
	return
}

func genLoad(t *rapid.T) LPlan {
	p := LPlan{Sched: genSched(t), Prod: genEClients(t, 1, 3), CCl: genEClients(t, 1, 3)}
	auth := p.Prod[0].Auth
	for i := range p.Prod {
		p.Prod[i].Auth = auth
	}
	for i := range p.CCl {
		p.CCl[i].Auth = auth
	}
	if chance(t, "srv-hb", 40) {
		p.SrvHB = rapid.SampledFrom([]int{100, 1000, 30000}).Draw(t, "srv-hb-ms")
	}
	ds := genEDests(t)
	for range p.Prod {
		var ss []LSend
		txd := chance(t, "txs", 40)
		for j, n := 0, 1+uni(t, "sends", 20); j < n; j++ {
			o := LSend{D: ds[uni(t, "d", len(ds))], Len: rapid.SampledFrom([]int{0, 0, 10, 100, 5000}).Draw(t, "len")}
			if txd {
				o.How = pick(t, "how", 4, 3, 4, 3, 1)
			} else {
				o.How = pick(t, "how2", 4, 2)
				o.Other = chance(t, "other", 15)
			}
			if chance(t, "pause", 30) {
				o.Us = rapid.SampledFrom([]int{1, 20, 1000, 50000}).Draw(t, "us")
			}
			ss = append(ss, o)
		}
		p.Sends = append(p.Sends, ss)
	}
	for j, n := 0, 1+uni(t, "cons", 4); j < n; j++ {
		k := LCons{Mode: uni(t, "mode", 3), D: ds[uni(t, "cd", len(ds))], Read: chance(t, "read", 30), Shared: uni(t, "shared", 2)}
		if k.Mode > 0 && chance(t, "nacks", 40) {
			k.Nack = rng(t, "nack", 2, 4)
		}
		if chance(t, "in-tx", 30) {
			k.InTx = rng(t, "in-tx-n", 1, 3)
		}
		if chance(t, "pause", 40) {
			k.Us = rapid.SampledFrom([]int{1, 20, 1000, 20000}).Draw(t, "us")
		}
		if chance(t, "ends", 40) {
			k.After = 1 + uni(t, "after", 6)
			k.End = rapid.SampledFrom([]string{"unsub", "disc", "kill"}).Draw(t, "end")
		}
		p.Cons = append(p.Cons, k)
	}
	return p
}

func init() {
	core.Register("E01", core.Check[LPlan]{
		Name: "load", Gen: genLoad, Exec: execLoad, Cases: [2]int{8000, 200000},
		Rule: "at least five messages were delivered to concurrent consumers",
	})
}
