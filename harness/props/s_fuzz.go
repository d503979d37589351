package props

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/go-stomp/stomp/v3/server"
	"pgregory.net/rapid"
	"verif.local/harness/core"
	"verif.local/harness/netsim"
	"verif.local/harness/wire"
)

// S07: offenders send whatever they like, and behave on the network as they like, next to two
// well-behaved clients that must not notice.

type XOp struct {
	Wait int    `json:"wait,omitempty"` // ms
	K    string `json:"k"`
	B    Str    `json:"b,omitempty"`
	N    int    `json:"n,omitempty"`
}

type XClient struct {
	At    int         `json:"at"`
	Up    netsim.Link `json:"up"`
	Down  netsim.Link `json:"down"`
	Stall bool        `json:"stall,omitempty"` // does not read from the beginning
	Ops   []XOp       `json:"ops"`
}

type XWork struct {
	Wait int    `json:"wait"` // ms
	K    string `json:"k"`    // queue, topic, tx, abort, again (unsubscribe and subscribe)
	Nack bool   `json:"nack,omitempty"`
	Size int    `json:"size,omitempty"`
}

type XPlan struct {
	Sched core.Sched `json:"sched"`
	MinMs int        `json:"min_ms"`
	Errs  []int      `json:"errs,omitempty"` // ms at which Accept fails temporarily
	Bad   []XClient  `json:"bad"`
	Work  []XWork    `json:"work"`
	Ack   string     `json:"ack"`
	Nil   bool       `json:"nil,omitempty"`
	Auth  bool       `json:"auth,omitempty"` // the passcode "bad" is refused
	News  []int      `json:"news,omitempty"` // ms at which well-behaved clients connect
}

type badAuth struct{}

func (badAuth) Authenticate(l, p string) bool { return p != "bad" }

// expand gives the bytes of an operation.
func (o XOp) expand() []byte {
	switch o.K {
	case "bytes":
		return []byte(o.B)
	case "flood": // %d counts
		var b bytes.Buffer
		for i := 0; i < o.N; i++ {
			b.Write(bytes.ReplaceAll([]byte(o.B), []byte("%d"), []byte(itoa(i))))
		}
		return b.Bytes()
	case "longline":
		return []byte("SEND\ndestination:/topic/wb\nx:" + strings.Repeat("a", o.N))
	case "longcmd":
		return bytes.Repeat([]byte("S"), o.N)
	case "manyheaders":
		return []byte("SEND\ndestination:/topic/none\n" + strings.Repeat("k:v\n", o.N) + "\n\x00")
	case "claims": // announces more than it sends
		return []byte("SEND\ndestination:/queue/wb\ncontent-length:" + itoa(o.N) + "\n\nabc")
	case "big":
		return []byte("SEND\ndestination:/topic/wb\ncontent-length:" + itoa(o.N) + "\n\n" + strings.Repeat("\x00", o.N) + "\x00")
	}
	return nil
}

func execS07(x *core.Ctx, p XPlan) (res Result) {
	fail := ""
	failf := func(f string, a ...any) {
		if fail == "" {
			fail = fmt.Sprintf(f, a...)
		}
	}
	labels := map[string]bool{}
	x.Bubble(func() {
		t0 := time.Now()
		l := netsim.NewListener()
		s := &server.Server{Log: quiet{}, HeartBeat: msd(p.MinMs)}
		st := newStore()
		if p.Nil {
			st = nil
		} else {
			s.QueueStorage = st
		}
		if p.Auth {
			s.Authenticator = badAuth{}
		}
		p.Sched.Arm()
		startServer(s, l)
		lock := make(chan struct{}, 1) // held only while nothing blocks
		at := func() time.Duration { return time.Since(t0) }

		// ---- the well-behaved ones
		open := func(name string) *rawClient {
			r := dialRaw(l, netsim.Link{}, netsim.Link{}, name)
			return r
		}
		hello := wire.F("CONNECT", "accept-version", "1.2", "host", "h")
		if p.Auth {
			hello = hello.With("login", "good").With("passcode", "good")
		}
		asked := map[string]time.Duration{}
		answered := map[string]bool{}
		foreign := []wire.Frame{}
		var gotQ, gotT []string
		nacked := map[string]bool{}
		wantNack := map[string]bool{}
		redelivered := map[string]bool{}
		subNo, closedSubs := 0, map[string]bool{}
		var con *rawClient
		var reply []wire.Frame // of the consumer, written by its own goroutine
		kick := make(chan struct{}, 1)
		connected := 0
		onFrame := func(who string) func(f wire.Frame, _ time.Time) {
			return func(f wire.Frame, _ time.Time) {
				lock <- struct{}{}
				defer func() { <-lock }()
				switch f.Cmd {
				case "", "CONNECTED":
					if f.Cmd != "" {
						connected++
					}
				case "RECEIPT":
					id := f.Get("receipt-id")
					t, ok := asked[id]
					if !ok || answered[id] || !strings.HasPrefix(id, who) {
						failf("the well-behaved %s got the receipt %q out of the blue", who, id)
					}
					answered[id] = true
					if d := at() - t; d > time.Second {
						failf("the well-behaved %s waited %v for the receipt %s", who, d, id)
					}
				case "MESSAGE":
					if who != "consumer" {
						failf("the well-behaved %s got %v", who, f)
						return
					}
					sid := f.Get("subscription")
					if closedSubs[sid] {
						failf("the well-behaved consumer got a message for the subscription %s after it had ended: %v", sid, f)
						return
					}
					uid := f.Get("uid")
					dest := f.Get("destination")
					isQ := strings.HasPrefix(sid, "q")
					if dest != "/queue/wb" && isQ || dest != "/topic/wb" && !isQ {
						failf("the well-behaved consumer got, for its subscription %s: %v", sid, f)
					}
					if uid == "" || !strings.HasPrefix(uid, "w-") {
						foreign = append(foreign, f)
					} else if string(f.Body) != "body of "+uid {
						failf("the well-behaved consumer got a spoilt message: %v", f)
					} else if !isQ {
						gotT = append(gotT, uid)
					} else if nacked[uid] {
						delete(nacked, uid)
						redelivered[uid] = true
					} else {
						gotQ = append(gotQ, uid)
					}
					if isQ && p.Ack != "auto" {
						cmd := "ACK"
						if wantNack[uid] && !redelivered[uid] {
							cmd = "NACK"
							nacked[uid] = true
						}
						reply = append(reply, wire.F(cmd, "id", f.Get("ack")))
						select {
						case kick <- struct{}{}:
						default:
						}
					}
				default:
					failf("the well-behaved %s got %v", who, f)
				}
			}
		}
		ask := func(r *rawClient, who string, f wire.Frame) wire.Frame {
			id := who + "-" + itoa(len(asked))
			asked[id] = at()
			return f.With("receipt", id)
		}
		prod := open("producer")
		con = open("consumer")
		prod.on, con.on = onFrame("producer"), onFrame("consumer")
		prod.send(hello)
		con.send(hello)
		stop := make(chan struct{})
		writer := make(chan struct{})
		go func() {
			defer close(writer)
			for {
				select {
				case <-stop:
					return
				case <-kick:
				}
				lock <- struct{}{}
				fs := reply
				reply = nil
				<-lock
				con.send(fs...)
			}
		}()
		subscribe := func() {
			lock <- struct{}{}
			subNo++
			a := ask(con, "consumer", wire.F("SUBSCRIBE", "id", "q"+itoa(subNo), "destination", "/queue/wb", "ack", p.Ack))
			b := ask(con, "consumer", wire.F("SUBSCRIBE", "id", "t"+itoa(subNo), "destination", "/topic/wb"))
			<-lock
			con.send(a, b)
		}
		subscribe()
		time.Sleep(5 * time.Millisecond)

		// ---- the offenders
		done := make(chan struct{}, 100)
		offenders := 0
		var bads []*rawClient
		streams := make([][]byte, len(p.Bad))
		for bi := range p.Bad {
			b := &p.Bad[bi]
			offenders++
			go func() {
				defer func() { done <- struct{}{} }()
				time.Sleep(msd(b.At))
				r := dialReads(l, b.Up, b.Down, "offender"+itoa(bi), 8000)
				lock <- struct{}{}
				bads = append(bads, r)
				<-lock
				if b.Stall {
					r.setStall(true)
				}
				w := make(chan []byte, 100)
				wdone := make(chan struct{})
				go func() { // writes may block
					defer close(wdone)
					for d := range w {
						if _, err := r.c.Write(d); err != nil {
							for range w {
							}
							return
						}
					}
				}()
				for _, o := range b.Ops {
					time.Sleep(msd(o.Wait))
					lock <- struct{}{}
					labels[o.K] = true
					<-lock
					switch o.K {
					case "stall":
						r.setStall(true)
					case "resume":
						r.setStall(false)
					case "close":
						r.close()
					case "half":
						r.c.CloseWrite()
					case "reset":
						r.c.Reset()
					case "storm":
						lock <- struct{}{}
						streams = append(streams, []byte(o.B))
						<-lock
						for i := 0; i < o.N; i++ {
							c := dialRaw(l, netsim.Link{}, netsim.Link{}, "storm")
							lock <- struct{}{}
							bads = append(bads, c)
							<-lock
							_, _ = c.c.Write([]byte(o.B))
							switch i % 3 {
							case 0:
								c.close()
							case 1:
								c.c.Reset()
							}
						}
					default:
						d := o.expand()
						lock <- struct{}{}
						streams[bi] = append(streams[bi], d...)
						<-lock
						w <- d
					}
				}
				time.Sleep(time.Second)
				close(w)
				r.close()
				<-wdone
			}()
		}
		for _, e := range p.Errs {
			offenders++
			go func() {
				time.Sleep(msd(e))
				l.PushErr(netsim.TempErr{})
				done <- struct{}{}
			}()
		}

		var news []*rawClient
		for i, ms := range p.News {
			offenders++
			go func() {
				defer func() { done <- struct{}{} }()
				time.Sleep(msd(ms))
				who := "newcomer" + itoa(i)
				r := open(who)
				t := at()
				in := onFrame(who)
				r.on = func(f wire.Frame, u time.Time) {
					in(f, u)
					if d := at() - t; f.Cmd == "CONNECTED" && d > 500*time.Millisecond {
						lock <- struct{}{}
						failf("the well-behaved %s waited %v to be connected", who, d)
						<-lock
					}
				}
				lock <- struct{}{}
				news = append(news, r)
				labels["newcomer"] = true
				a := ask(r, who, wire.F("SEND", "destination", "/queue/late", "uid", "x"))
				<-lock
				r.send(hello, a)
			}()
		}

		// ---- the work
		var sentQ, sentT []string
		for i, o := range p.Work {
			time.Sleep(msd(o.Wait))
			uid := "w-" + itoa(i)
			lock <- struct{}{}
			dest := "/queue/wb"
			if o.K == "topic" {
				dest = "/topic/wb"
			}
			m := wire.F("SEND", "destination", dest, "uid", uid)
			m.Body = []byte("body of " + uid)
			var fs []wire.Frame
			switch o.K {
			case "queue":
				fs = append(fs, ask(prod, "producer", m))
			case "topic":
				fs = append(fs, ask(prod, "producer", m))
			case "tx":
				fs = append(fs, ask(prod, "producer", wire.F("BEGIN", "transaction", "t")), ask(prod, "producer", m.With("transaction", "t")),
					ask(prod, "producer", wire.F("COMMIT", "transaction", "t")))
			case "abort":
				fs = append(fs, ask(prod, "producer", wire.F("BEGIN", "transaction", "t")), ask(prod, "producer", m.With("transaction", "t")),
					ask(prod, "producer", wire.F("ABORT", "transaction", "t")))
			}
			if o.K == "queue" || o.K == "tx" {
				sentQ = append(sentQ, uid)
				if o.Nack && p.Ack != "auto" {
					wantNack[uid] = true
				}
			} else if o.K == "topic" {
				sentT = append(sentT, uid)
			}
			<-lock
			if o.K == "again" {
				// an interruption of the consumer, at a quiet moment
				time.Sleep(20 * time.Millisecond)
				lock <- struct{}{}
				n := len(reply)
				a := ask(con, "consumer", wire.F("UNSUBSCRIBE", "id", "q"+itoa(subNo)))
				b := ask(con, "consumer", wire.F("UNSUBSCRIBE", "id", "t"+itoa(subNo)))
				old := subNo
				<-lock
				_ = n
				con.send(a, b)
				time.Sleep(20 * time.Millisecond)
				lock <- struct{}{}
				closedSubs["q"+itoa(old)], closedSubs["t"+itoa(old)] = true, true
				<-lock
				subscribe()
				time.Sleep(5 * time.Millisecond)
			} else {
				prod.send(fs...)
			}
		}
		for range offenders {
			<-done
		}
		time.Sleep(3 * time.Second)
		p.Sched.Disarm()
		// ---- somebody new
		late := open("late")
		late.on = onFrame("late")
		lock <- struct{}{}
		ls := ask(late, "late", wire.F("SEND", "destination", "/queue/late", "uid", "x"))
		<-lock
		late.send(hello, ls)
		time.Sleep(2 * time.Second)
		lock <- struct{}{}
		for id := range asked {
			if !answered[id] {
				failf("a well-behaved client never got the receipt %q", id)
			}
		}
		if connected != 3+len(p.News) {
			failf("only %d of %d well-behaved clients could connect", connected, 3+len(p.News))
		}
		if got, want := strings.Join(gotQ, " "), strings.Join(sentQ, " "); got != want {
			failf("the well-behaved consumer got %q from its queue, and not %q", got, want)
		}
		if got, want := strings.Join(gotT, " "), strings.Join(sentT, " "); got != want {
			failf("the well-behaved consumer got %q from its topic, and not %q", got, want)
		}
		if len(nacked) > 0 {
			failf("%d messages that were rejected did not come again", len(nacked))
		}
		for name, r := range map[string]*rawClient{"producer": prod, "consumer": con, "late": late} {
			if _, end := r.frames(); end {
				failf("the well-behaved %s was disconnected", name)
			}
		}
		for i, r := range news {
			if _, end := r.frames(); end {
				failf("the well-behaved newcomer %d was disconnected", i)
			}
		}
		// messages of offenders must have been sent by them
		var legit []wire.Frame
		unsure := false
		for _, b := range streams {
			fs, _, st := wire.ParseAll(b)
			unsure = unsure || st == wire.Unspecified
			legit = append(legit, fs...)
		}
		if !unsure {
			for _, f := range foreign {
				ok := false
				for _, g := range legit {
					ok = ok || g.Cmd == "SEND" && g.Get("destination") == f.Get("destination") && bytes.Equal(g.Body, f.Body)
				}
				if !ok {
					failf("the well-behaved consumer got a message nobody sent: %v", f)
				}
			}
			if len(foreign) > 0 {
				labels["heard"] = true
			}
		}
		for _, r := range bads {
			r.mu.Lock()
			errs := 0
			for i, f := range r.in {
				if f.Cmd == "ERROR" {
					errs++
					if i != len(r.in)-1 {
						failf("an offender got something after an ERROR frame: %v", r.in[i+1])
					}
					labels["error"] = true
				}
			}
			if r.bad == wire.Malformed {
				failf("an offender got bytes that are no frame")
			}
			r.mu.Unlock()
		}
		<-lock
		close(stop)
		<-writer
		for _, r := range append(append(bads, news...), prod, con, late) {
			r.close()
		}
		time.Sleep(2 * time.Second)
		stopServer(l, st)
		if st != nil && len(st.fails) > 0 {
			failf("%s", st.fails[0])
		}
	})
	res.Fail = fail
	for k := range labels {
		res.Labels = append(res.Labels, k)
	}
	sort.Strings(res.Labels)
	res.NonTrivial = labels["error"] || labels["heard"] || labels["flood"] || labels["reset"] || labels["stall"]
	return
}

// genXFrames draws a stream that is mostly what a client would send.
func genXFrames(t *rapid.T) []byte {
	var b []byte
	for range rng(t, "frames", 1, 6) {
		var f wire.Frame
		tx := []string{"t", "u"}[uni(t, "tx", 2)]
		switch pick(t, "frame", 6, 3, 2, 2, 2, 2, 2, 2, 2, 1, 1, 1) {
		case 0:
			f = wire.F("SEND", "destination", []string{"/queue/wb", "/topic/wb", "/queue/x", "/topic/x", "", "/queue", "queue/wb"}[uni(t, "dest", 7)])
			if chance(t, "tx?", 25) {
				f = f.With("transaction", tx)
			}
			f.Body = genBody(t, "body", 300).Bytes()
		case 1:
			f = wire.F("SUBSCRIBE", "id", []string{"q1", "t1", "a", "b"}[uni(t, "sid", 4)], "destination", []string{"/topic/wb", "/queue/x", "/topic/x"}[uni(t, "dest", 3)],
				"ack", []string{"auto", "client", "client-individual", "x"}[pick(t, "ack", 4, 3, 3, 1)])
		case 2:
			f = wire.F("UNSUBSCRIBE", "id", []string{"q1", "t1", "a", "b"}[uni(t, "sid", 4)])
		case 3:
			f = wire.F("BEGIN", "transaction", tx)
		case 4:
			f = wire.F("COMMIT", "transaction", tx)
		case 5:
			f = wire.F("ABORT", "transaction", tx)
		case 6, 7:
			f = wire.F([]string{"ACK", "NACK"}[uni(t, "nack", 2)], "id", []string{"1", "2", "3", "x", "-1", "99999999999999999999", ""}[uni(t, "id", 7)])
			if chance(t, "old", 50) {
				f = f.With("message-id", []string{"1", "2", "y"}[uni(t, "mid", 3)]).With("subscription", "a")
			}
			if chance(t, "tx?", 25) {
				f = f.With("transaction", tx)
			}
		case 8:
			f = wire.F("CONNECT", "accept-version", "1.1,1.2", "host", "h", "heart-beat", []string{"0,0", "1,1", "0,5", "bad"}[uni(t, "hb", 4)])
		case 9:
			f = wire.F("DISCONNECT")
		case 10:
			f = wire.Frame{}
		default:
			f = wire.F([]string{"MESSAGE", "RECEIPT", "ERROR", "CONNECTED", "STOMP"}[uni(t, "cmd", 5)], "destination", "/queue/wb", "subscription", "q1", "message-id", "1")
		}
		if f.Cmd != "" {
			if chance(t, "receipt", 25) {
				f = f.With("receipt", string(strNasty(t, "rid", 0)))
			}
			if chance(t, "extra", 15) {
				f = f.With(rapid.SampledFrom([]string{"content-length", "destination", "id", "ack", "transaction", "message-id", "subscription", "content-type", "x"}).Draw(t, "extra-k"),
					rapid.OneOf(rapid.SampledFrom([]string{"", "0", "3", "-1", "4294967295", "99999999999999999999", "/queue/x", "t", "1"}), rapid.Custom(oddValue)).Draw(t, "extra-v"))
			}
			if len(f.H) > 0 && chance(t, "drop", 8) {
				i := uni(t, "drop-i", len(f.H))
				f.H = append(append([]KV{}, f.H[:i]...), f.H[i+1:]...)
			}
		}
		b = append(b, wire.Encode(f)...)
	}
	return b
}

// oddValue draws the value of a header that has a syntax of its own.
func oddValue(t *rapid.T) string {
	switch pick(t, "odd", 4, 2, 2, 1) {
	case 0:
		return rapid.StringMatching("[0-9]{0,3}[,.;: -]{0,2}[0-9]{0,3}[,x]?").Draw(t, "odd-near")
	case 1:
		return rapid.StringMatching("[0-9,.+ x-]{0,14}").Draw(t, "odd-digits")
	case 2:
		return rapid.SampledFrom([]string{"", ",", "1,", ",1", "1,2,3", "0,0,", "999999999,999999999", "1000000000,0", "9999999999,1", "2147483648,0", "4294967296,0", "9223372036854775807,1", "18446744073709551616,0", "-1,0", "0x1,1", "1.2,", "1.1,,1.2", "2.0", "1.2.3", " 1.2", "1,2 ", "1e3,1", "\u0661,1"}).Draw(t, "odd-known")
	}
	return string(strNasty(t, "odd-any", 0))
}

// oddHello draws a CONNECT frame with something wrong.
func oddHello(t *rapid.T) wire.Frame {
	f := wire.F([]string{"CONNECT", "STOMP"}[uni(t, "cmd", 2)], "accept-version", "1.1,1.2", "host", "h", "heart-beat", "0,0", "login", "l", "passcode", "p")
	for range rng(t, "odds", 1, 3) {
		i := uni(t, "odd-i", len(f.H))
		switch pick(t, "odd-what", 5, 1, 1, 1) {
		case 0:
			f.H[[]int{0, 2, 2, i}[uni(t, "which", 4)]].V = Str(oddValue(t))
		case 1:
			f.H = append(append([]KV{}, f.H[:i]...), f.H[i+1:]...)
			if len(f.H) < 3 {
				return f
			}
		case 2:
			f.H = append([]KV{{f.H[i].K, Str(oddValue(t))}}, f.H...)
		case 3:
			f = f.With(rapid.SampledFrom([]string{"content-length", "receipt", "transaction", "session"}).Draw(t, "odd-k"), oddValue(t))
		}
	}
	return f
}

// mutate spoils bytes.
func mutate(t *rapid.T, b []byte) []byte {
	for range rng(t, "mutations", 1, 4) {
		if len(b) == 0 {
			break
		}
		i := uni(t, "at", len(b))
		switch pick(t, "mutation", 4, 3, 3, 2, 2, 2) {
		case 0:
			b[i] = []byte{0, '\n', '\r', ':', '\\', 0xff, 'A', ' ', b[i] ^ 1, b[i] ^ 0x80}[uni(t, "byte", 10)]
		case 1:
			b = append(b[:i:i], b[i+1:]...)
		case 2:
			b = append(b[:i:i], append([]byte(rapid.SampledFrom(specials).Draw(t, "insert")), b[i:]...)...)
		case 3:
			b = b[:i]
		case 4:
			j := i + uni(t, "len", min(40, len(b)-i))
			b = append(b[:j:j], append(append([]byte{}, b[i:j]...), b[j:]...)...)
		case 5:
			j := i + uni(t, "len", min(40, len(b)-i))
			b = append(b[:i:i], b[j:]...)
		}
	}
	return b
}

func genS07(t *rapid.T) XPlan {
	p := XPlan{Sched: genSched(t), Ack: rapid.SampledFrom([]string{"auto", "client", "client-individual"}).Draw(t, "ack"), Nil: chance(t, "nil", 25)}
	p.Sched.MaxNs = min(p.Sched.MaxNs, 1000)
	p.MinMs = []int{0, 1, 20}[uni(t, "min", 3)]
	for range rng(t, "work", 1, 12) {
		p.Work = append(p.Work, XWork{Wait: []int{0, 1, uni(t, "wait", 60)}[uni(t, "wait-kind", 3)],
			K: []string{"queue", "topic", "tx", "abort", "again"}[pick(t, "work-kind", 6, 4, 2, 1, 1)], Nack: chance(t, "nack", 20)})
	}
	for range rng(t, "errs", 0, 3) * uni(t, "errs?", 2) {
		p.Errs = append(p.Errs, uni(t, "err-at", 200))
	}
	for range rng(t, "offenders", 1, 3) {
		c := XClient{At: []int{0, uni(t, "at", 100)}[uni(t, "at-kind", 2)], Up: genLink(t, "up", true), Down: genLink(t, "down", true), Stall: chance(t, "deaf", 15)}
		if chance(t, "fail", 10) {
			c.Down.FailAt = int64(1 + uni(t, "fail-at", 400))
		}
		if chance(t, "odd-hello", 20) {
			c.Ops = append(c.Ops, XOp{K: "bytes", B: Str(wire.Encode(oddHello(t)))})
		} else if chance(t, "hello", 80) {
			f := wire.F("CONNECT", "accept-version", []string{"1.2", "1.1"}[uni(t, "ver", 2)], "host", "h")
			if chance(t, "beats", 30) {
				f = f.With("heart-beat", []string{"1,1", "0,1", "20,20", "5,0"}[uni(t, "hb", 4)])
			}
			c.Ops = append(c.Ops, XOp{K: "bytes", B: Str(wire.Encode(f)), Wait: 0})
		}
		big := false
		for range rng(t, "ops", 1, 6) {
			o := XOp{Wait: []int{0, 0, 1, uni(t, "wait", 50)}[uni(t, "wait-kind", 4)]}
			switch pick(t, "op", 8, 8, 3, 4, 2, 2, 2, 2, 2, 3, 3, 1) {
			case 0:
				o.K, o.B = "bytes", Str(genXFrames(t))
			case 1:
				o.K, o.B = "bytes", Str(mutate(t, genXFrames(t)))
			case 2:
				o.K, o.B = "bytes", Str(rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(t, "raw"))
			case 3:
				o.K, o.N = "flood", []int{10, 100, 700, 2500}[pick(t, "flood-n", 2, 3, 3, 1)]
				o.B = rapid.SampledFrom([]Str{
					"SEND\ndestination:/topic/wb\n\nflood %d\x00", "SEND\ndestination:/queue/x\nreceipt:r%d\n\nflood\x00",
					"SUBSCRIBE\nid:s%d\ndestination:/topic/wb\n\n\x00", "SUBSCRIBE\nid:s%d\ndestination:/queue/x\nack:client\n\n\x00",
					"SUBSCRIBE\nid:s%d\ndestination:/topic/f%d\nreceipt:r%d\n\n\x00", "BEGIN\ntransaction:t%d\n\n\x00",
					"BEGIN\ntransaction:t\n\n\x00SEND\ndestination:/queue/x\ntransaction:t\n\n\x00ABORT\ntransaction:t\n\n\x00",
					"\n", "\r\n", "\x00", "ACK\nid:%d\nsubscription:a\nmessage-id:%d\n\n\x00", "SEND\ndestination:/queue/f%d\n\n\x00",
					"SUBSCRIBE\nid:o\ndestination:/topic/x\n\n\x00UNSUBSCRIBE\nid:o\n\n\x00", "SEND\ndestination:/queue/wb\n\nflood %d\x00",
				}).Draw(t, "flood")
			case 4:
				o.K, o.N = []string{"longline", "longcmd", "manyheaders"}[uni(t, "long", 3)], []int{100, 4096, 70000, 300000}[uni(t, "long-n", 4)]
				if o.K == "manyheaders" {
					o.N /= 10
				}
			case 5:
				o.K, o.N = "claims", []int{4, 5000, 1 << 22, 1 << 30, 4294967295}[uni(t, "claims", 5)]
			case 6:
				o.K, o.N = "big", []int{0, 1, 5000, 200000}[uni(t, "big", 4)]
			case 7:
				o.K = "stall"
			case 8:
				o.K = "resume"
			case 9:
				o.K = []string{"close", "half", "reset"}[uni(t, "end", 3)]
			case 10:
				o.K, o.B = "bytes", Str(wire.Encode(wire.F("CONNECT", "accept-version", "1.2", "host", "h")))
			case 11:
				o.K, o.N, o.B = "storm", rng(t, "storm", 1, 30), Str(genXFrames(t))
			}
			if o.N > 3000 || o.K == "flood" && o.N > 300 {
				big = true
			}
			c.Ops = append(c.Ops, o)
		}
		if big && c.Up.Cap > 0 {
			c.Up.Cap = 5000
		}
		p.Bad = append(p.Bad, c)
	}
	for range rng(t, "news", 0, 3) * uni(t, "news?", 2) {
		p.News = append(p.News, uni(t, "new-at", 300))
	}
	if chance(t, "flaps", 10) { // failures to accept, with clients between
		at := uni(t, "flap-at", 300)
		p.Errs = nil
		if chance(t, "flap-burst", 50) { // up to 315 ms
			for range rng(t, "burst-n", 2, 6) {
				p.Errs = append(p.Errs, at)
			}
			p.News = append(p.News, at+1)
			at += 400
		}
		for range rng(t, "flap-n", 1, 8) {
			p.Errs, p.News = append(p.Errs, at), append(p.News, at+1)
			at += rng(t, "flap-gap", 20, 60)
		}
	}
	if p.Auth = chance(t, "auth", 25); p.Auth {
		// refused logins, several at a time
		for range rng(t, "refusals", 1, 3) {
			f := wire.F("CONNECT", "accept-version", "1.2", "host", "h", "login", "l", "passcode", "bad")
			if chance(t, "refused-beats", 30) {
				f = f.With("heart-beat", "5,0")
			}
			p.Bad = append(p.Bad, XClient{At: uni(t, "refused-at", 200), Ops: []XOp{{K: "storm", N: rng(t, "refused-n", 1, 8), B: Str(wire.Encode(f))}}})
		}
	}
	return p
}

func init() {
	core.Register("S07", core.Check[XPlan]{
		Name: "offenders", Gen: genS07, Exec: execS07, Cases: [2]int{8000, 300000},
		Rule: "an offender got an ERROR frame, flooded, stalled, reset its connection, or reached the well-behaved consumer with a message",
	})
}
