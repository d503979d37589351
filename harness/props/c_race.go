package props

import (
	"fmt"
	"sync"
	"time"

	stomp "github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/server"
	"pgregory.net/rapid"

	"verif.local/harness/core"
	"verif.local/harness/netsim"
	"verif.local/harness/wire"
)

// ---------------------------------------------------------------- C13
//
// Real goroutines, real time, the race detector as the oracle. The programs
// share nothing of the harness while they run, so that the only order between
// library accesses is what the library itself establishes.

type rOp struct {
	K  string `json:"k"`
	N  int    `json:"n,omitempty"`
	Us int    `json:"us,omitempty"`
}

type racePlan struct {
	Ver   string  `json:"ver"`
	HB    int     `json:"hb,omitempty"` // ms
	Stats bool    `json:"stats,omitempty"`
	Subs  int     `json:"subs"` // shared subscriptions
	Modes []int   `json:"modes"`
	Msgs  int     `json:"msgs"` // messages per subscription
	Prog  [][]rOp `json:"prog"`
	End   string  `json:"end,omitempty"`
	EndN  int     `json:"end_n,omitempty"` // the peer ends after this many frames
	WCh   int     `json:"wch,omitempty"`
	UTO   int     `json:"uto,omitempty"` // short unsubscribe timeout, withheld receipts
}

var raceOps = []string{"send", "send", "rsend", "hsend", "tx", "txr", "sub", "sub", "unsub", "probe", "stats", "read", "begin", "must", "disc"}

func genRace(t *rapid.T) racePlan {
	p := racePlan{Ver: rapid.SampledFrom([]string{"1.2", "1.1", "1.0"}).Draw(t, "ver"), Stats: chance(t, "stats", 60), Subs: rng(t, "subs", 0, 4), Msgs: rng(t, "msgs", 0, 12)}
	for i := 0; i < 4; i++ {
		p.Modes = append(p.Modes, rng(t, "mode", 0, 2))
	}
	if chance(t, "hb", 30) {
		p.HB = rng(t, "hb-ms", 1, 4)
	}
	if chance(t, "wch", 30) {
		p.WCh = 1
	}
	ends := chance(t, "ends", 50)
	for g, ng := 0, rng(t, "goroutines", 2, 5); g < ng; g++ {
		var ops []rOp
		for i, n := 0, rng(t, "n", 1, 14); i < n; i++ {
			k := raceOps[rng(t, "op", 0, len(raceOps)-1)]
			if (k == "must" || k == "disc") && !ends {
				k = "stats"
			}
			o := rOp{K: k, N: rng(t, "arg", 0, 5)}
			if chance(t, "pause", 30) {
				o.Us = rng(t, "us", 1, 300)
			}
			ops = append(ops, o)
		}
		p.Prog = append(p.Prog, ops)
	}
	if ends && chance(t, "peer-ends", 60) {
		p.End, p.EndN = rapid.SampledFrom([]string{"error", "eof", "reset", "garbage"}).Draw(t, "end"), rng(t, "end-n", 1, 30)
	}
	if chance(t, "uto", 20) {
		p.UTO = 1
	}
	return p
}

func execRace(x *core.Ctx, p racePlan) Result {
	cl, sv := netsim.Pair(netsim.Link{}, netsim.Link{}, "c", "s")
	peer := &autoPeer{c: sv, ver: p.Ver, done: make(chan struct{})}
	n := 0
	peer.seen = func(f wire.Frame) {
		n++
		if f.Cmd == "SUBSCRIBE" {
			var out []byte
			for i := 0; i < p.Msgs; i++ {
				out = append(out, wire.Encode(wire.F("MESSAGE", "subscription", f.Get("id"), "destination", f.Get("destination"), "message-id", itoa(i), "ack", f.Get("id")+"."+itoa(i), "x", "y").WithBody([]byte("body")))...)
			}
			_, _ = sv.Write(out)
		}
		if p.End != "" && n == p.EndN {
			switch p.End {
			case "error":
				_, _ = sv.Write(wire.Encode(wire.F("ERROR", "message", "boom")))
				_ = sv.Close()
			case "eof":
				_ = sv.Close()
			case "reset":
				sv.Reset()
			case "garbage":
				_, _ = sv.Write([]byte("HELLO\n\n\x00"))
			}
		}
	}
	if p.UTO > 0 {
		peer.delay = func(f wire.Frame) time.Duration {
			if f.Cmd == "UNSUBSCRIBE" {
				return 3 * time.Millisecond
			}
			return 0
		}
	}
	go peer.run()
	opts := []func(*stomp.Conn) error{stomp.ConnOpt.Logger(quiet{}), stomp.ConnOpt.HeartBeat(0, 0),
		stomp.ConnOpt.DisconnectReceiptTimeout(2 * time.Second), stomp.ConnOpt.RcvReceiptTimeout(2 * time.Second), stomp.ConnOpt.UnsubscribeReceiptTimeout(2 * time.Second)}
	if p.HB > 0 {
		// nobody asks the peer for heart-beats, so only the client beats
		opts = append(opts, stomp.ConnOpt.HeartBeat(msd(p.HB), 0))
	}
	if p.UTO > 0 {
		opts = append(opts, stomp.ConnOpt.UnsubscribeReceiptTimeout(time.Millisecond))
	}
	if p.Stats {
		opts = append(opts, stomp.ConnOpt.WithStats())
	}
	if p.WCh > 0 {
		opts = append(opts, stomp.ConnOpt.WriteChannelCapacity(p.WCh), stomp.ConnOpt.ReadChannelCapacity(p.WCh))
	}
	conn, err := stomp.Connect(cl, opts...)
	if err != nil {
		_ = sv.Close()
		if p.End != "" {
			return Result{}
		}
		return Result{Fail: "connecting failed: " + err.Error()}
	}
	var wg, cw sync.WaitGroup
	consume := func(s *stomp.Subscription, k int) {
		cw.Add(1)
		go func() {
			defer cw.Done()
			for i := 0; ; i++ {
				var m *stomp.Message
				m, ok := <-s.C
				if !ok {
					return
				}
				if m.Err != nil {
					continue
				}
				_ = m.Header.Get("x")
				m.Header.Set("seen", "yes")
				_ = m.ShouldAck()
				var b [4]byte
				_, _ = m.Read(b[:])
				switch (i + k) % 3 {
				case 0:
					_ = conn.Ack(m)
				case 1:
					_ = conn.Nack(m)
				case 2:
					// another goroutine acknowledges
					cw.Add(1)
					go func() {
						defer cw.Done()
						if tx, err := conn.BeginWithError(); err == nil {
							_ = tx.Ack(m)
							_ = tx.Commit()
						}
					}()
				}
			}
		}()
	}
	var shared []*stomp.Subscription
	for i := 0; i < p.Subs; i++ {
		s, err := conn.Subscribe("/s/"+itoa(i), stomp.AckMode(p.Modes[i]))
		if err == nil {
			shared = append(shared, s)
			consume(s, i)
		}
	}
	body := []byte("a body nobody changes")
	ops := 0
	for _, prog := range p.Prog {
		ops += len(prog)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i, o := range prog {
				if o.Us > 0 {
					time.Sleep(time.Duration(o.Us) * time.Microsecond)
				}
				switch o.K {
				case "send":
					_ = conn.Send("/q", "text/plain", body)
				case "rsend":
					_ = conn.Send("/q", "text/plain", body, stomp.SendOpt.Receipt)
				case "hsend":
					_ = conn.Send("/q", "", nil, stomp.SendOpt.NoContentLength, stomp.SendOpt.Header("a", "b"))
				case "tx", "txr":
					if tx, err := conn.BeginWithError(); err == nil {
						_, _ = tx.Id(), tx.Conn()
						_ = tx.Send("/q", "", body)
						if o.K == "txr" && p.HB == 0 && p.End == "" {
							if o.N%2 == 0 {
								_ = tx.CommitWithReceipt()
							} else {
								_ = tx.AbortWithReceipt()
							}
						} else {
							_ = tx.Commit()
						}
						_ = tx.Abort()
					}
				case "begin":
					_ = conn.Begin()
				case "sub":
					opt := stomp.SubscribeOpt.Header("a", "b")
					s, err := conn.Subscribe("/own", stomp.AckMode(o.N%3), opt)
					if err == nil {
						consume(s, o.N)
						if o.N > 2 {
							_ = s.Unsubscribe()
						}
					}
				case "unsub":
					if len(shared) > 0 {
						_ = shared[o.N%len(shared)].Unsubscribe()
					}
				case "probe":
					if len(shared) > 0 {
						s := shared[o.N%len(shared)]
						_, _, _, _ = s.Active(), s.Id(), s.Destination(), s.AckMode()
					}
					_, _, _ = conn.Version(), conn.Session(), conn.Server()
				case "read":
					if len(shared) > 0 && i > 0 {
						s := shared[o.N%len(shared)]
						if s.Active() && p.Msgs > 0 {
							cw.Add(1)
							go func() {
								defer cw.Done()
								_, _ = s.Read()
							}()
						}
					}
				case "stats":
					_ = conn.Stats()
				case "disc":
					_ = conn.Disconnect()
				case "must":
					_ = conn.MustDisconnect()
				}
			}
		}()
	}
	wg.Wait()
	_ = conn.Disconnect()
	_ = conn.MustDisconnect()
	_ = cl.Close()
	cw.Wait()
	<-peer.done
	return Result{NonTrivial: ops > 4, Labels: []string{fmt.Sprintf("goroutines:%d", len(p.Prog)), "end:" + p.End}}
}

// many clients of one server

type raceSrv struct {
	Clients [][]rOp `json:"clients"` // a program per client
	Ver     []int   `json:"ver"`
	HB      int     `json:"hb,omitempty"`
}

var srvOps = []string{"send", "send", "send", "tsend", "tx", "abort", "sub", "sub", "sub", "unsub", "rsend", "kill", "disc", "reconnect"}

func genRaceSrv(t *rapid.T) raceSrv {
	p := raceSrv{}
	for c, nc := 0, rng(t, "clients", 2, 5); c < nc; c++ {
		var ops []rOp
		for i, n := 0, rng(t, "n", 1, 14); i < n; i++ {
			o := rOp{K: srvOps[rng(t, "op", 0, len(srvOps)-1)], N: rng(t, "arg", 0, 11)}
			if chance(t, "pause", 30) {
				o.Us = rng(t, "us", 1, 500)
			}
			ops = append(ops, o)
		}
		p.Clients = append(p.Clients, ops)
		p.Ver = append(p.Ver, rng(t, "ver", 0, 1))
	}
	if chance(t, "hb", 30) {
		p.HB = rng(t, "hb-ms", 2, 10)
	}
	return p
}

type yesAuth struct{}

func (yesAuth) Authenticate(login, passcode string) bool { return login != "evil" }

func execRaceSrv(x *core.Ctx, p raceSrv) Result {
	l := netsim.NewListener()
	s := &server.Server{Log: quiet{}, Authenticator: yesAuth{}, HeartBeat: time.Second}
	if p.HB > 0 {
		s.HeartBeat = msd(p.HB)
	}
	go func() { _ = s.Serve(l) }()
	var wg, cw sync.WaitGroup
	ops := 0
	for ci, prog := range p.Clients {
		ops += len(prog)
		wg.Add(1)
		go func() {
			defer wg.Done()
			var conn *stomp.Conn
			var cl *netsim.Conn
			var subs []*stomp.Subscription
			connect := func() bool {
				var sv *netsim.Conn
				cl, sv = netsim.Pair(netsim.Link{}, netsim.Link{}, "c"+itoa(ci), "s")
				l.Push(sv)
				o := []func(*stomp.Conn) error{stomp.ConnOpt.Logger(quiet{}), stomp.ConnOpt.Login("a", "b"), stomp.ConnOpt.HeartBeat(0, 0),
					stomp.ConnOpt.AcceptVersion([]stomp.Version{stomp.V11, stomp.V12}[p.Ver[ci]]),
					stomp.ConnOpt.DisconnectReceiptTimeout(2 * time.Second), stomp.ConnOpt.RcvReceiptTimeout(2 * time.Second), stomp.ConnOpt.UnsubscribeReceiptTimeout(2 * time.Second)}
				if p.HB > 0 {
					o = append(o, stomp.ConnOpt.HeartBeat(msd(p.HB), msd(p.HB)))
				}
				var err error
				conn, err = stomp.Connect(cl, o...)
				subs = nil
				if err != nil {
					_ = cl.Close()
				}
				return err == nil
			}
			if !connect() {
				return
			}
			defer func() {
				// connecting again may have failed: on a busy machine these tiny
				// heart-beats can run out while the CONNECT is being answered
				if conn != nil {
					_ = conn.Disconnect()
					_ = conn.MustDisconnect()
				}
				_ = cl.Close()
			}()
			body := []byte("hello")
			dest := func(n int) string {
				if n%3 == 0 {
					return "/topic/" + itoa(n%2)
				}
				return "/queue/" + itoa(n%3)
			}
			for _, o := range prog {
				if o.Us > 0 {
					time.Sleep(time.Duration(o.Us) * time.Microsecond)
				}
				switch o.K {
				case "send":
					_ = conn.Send(dest(o.N), "text/plain", body, stomp.SendOpt.Header("k", "v"))
				case "rsend":
					_ = conn.Send(dest(o.N), "text/plain", body, stomp.SendOpt.Receipt)
				case "tsend", "tx", "abort":
					tx, err := conn.BeginWithError()
					if err != nil {
						continue
					}
					_ = tx.Send(dest(o.N), "", body)
					_ = tx.Send(dest(o.N+1), "", body)
					switch o.K {
					case "tx":
						_ = tx.Commit()
					case "abort":
						_ = tx.Abort()
					}
				case "sub":
					mode := stomp.AckMode(o.N % 3)
					s, err := conn.Subscribe(dest(o.N), mode)
					if err != nil {
						continue
					}
					subs = append(subs, s)
					k, c := o.N, conn
					cw.Add(1)
					go func() {
						defer cw.Done()
						for m := range s.C {
							if m.Err != nil || mode == stomp.AckAuto {
								continue
							}
							if k%4 == 3 {
								// returned a few times, then taken
								k += 2
								_ = c.Nack(m)
							} else {
								_ = c.Ack(m)
							}
						}
					}()
				case "unsub":
					if len(subs) > 0 {
						_ = subs[o.N%len(subs)].Unsubscribe()
					}
				case "kill":
					_ = cl.Close()
					if o.N%2 == 0 && !connect() {
						return
					}
				case "disc":
					_ = conn.Disconnect()
				case "reconnect":
					_ = conn.Disconnect()
					_ = cl.Close()
					if !connect() {
						return
					}
				}
			}
		}()
	}
	wg.Wait()
	cw.Wait()
	_ = l.Close()
	return Result{NonTrivial: ops > 4, Labels: []string{fmt.Sprintf("clients:%d", len(p.Clients))}}
}

func init() {
	core.Register("C13", core.Check[racePlan]{
		Name: "client", Gen: genRace, Exec: execRace, Cases: [2]int{6000, 120000},
		Rule: "more than four operations were issued by at least two goroutines of one connection",
	})
	core.Register("C13", core.Check[raceSrv]{
		Name: "server", Gen: genRaceSrv, Exec: execRaceSrv, Cases: [2]int{3000, 60000},
		Rule: "more than four operations were issued by at least two clients of one server",
	})
}
