package props

import (
	"fmt"
	"slices"
	"strings"
	"sync"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"
	"pgregory.net/rapid"
	"verif.local/harness/core"
	"verif.local/harness/netsim"
	"verif.local/harness/wire"
)

// Part "volume" of several client properties: like the one of the server properties, with
// the client library against a scripted peer.

type CVPlan struct {
	Sched core.Sched `json:"sched"`
	Kind  string     `json:"kind"` // subs, send, receipts, tx
	Ver   int        `json:"ver"`
	Mode  int        `json:"mode,omitempty"`
	Subs  int        `json:"subs,omitempty"`
	N     int        `json:"n"`           // messages, sends or transactions
	G     int        `json:"g,omitempty"` // goroutines that send
	Nack  int        `json:"nack,omitempty"`
	Late  bool       `json:"late,omitempty"` // consumers start after everything was sent
	Heads int        `json:"heads,omitempty"`
	HLen  int        `json:"hlen,omitempty"`
	Body  int        `json:"body,omitempty"`
	Id    int        `json:"id,omitempty"`
	DLen  int        `json:"dlen,omitempty"`
	Mul   int        `json:"mul,omitempty"` // order of the confirmations, or ends
	Rd    int        `json:"rd,omitempty"`
	Wr    int        `json:"wr,omitempty"`
}

func (p CVPlan) dest(i int) string { return "/queue/" + strings.Repeat("d", p.DLen) + itoa(i) }
func (p CVPlan) body(i int) []byte { return Body{N: p.Body, Seed: uint32(i + 1)}.Bytes() }
func (p CVPlan) heads(i int) (h []wire.KV) {
	h = append(h, wire.KV{K: "uid", V: wire.Str(itoa(i))})
	for k := 0; k < p.Heads; k++ {
		h = append(h, wire.KV{K: wire.Str("h" + itoa(k)), V: wire.Str(itoa(k * i))})
	}
	if p.HLen > 0 {
		h = append(h, wire.KV{K: wire.Str("l" + strings.Repeat("n", p.HLen)), V: wire.Str(itoa(i) + strings.Repeat("v:", p.HLen/2))})
	}
	return
}

// perm lists 0..n-1 in another order.
func (p CVPlan) perm(n int) (s []int) {
	for i := 0; i < n; i++ {
		s = append(s, i)
	}
	for i := n - 1; i > 0; i-- {
		j := (i*i*p.Mul + p.Mul) % (i + 1)
		s[i], s[j] = s[j], s[i]
	}
	return
}

func execCVolume(x *core.Ctx, p CVPlan) (res Result) {
	fail := ""
	lock := make(chan struct{}, 1)
	failf := func(f string, a ...any) {
		lock <- struct{}{}
		if fail == "" {
			fail = fmt.Sprintf(f, a...)
		}
		<-lock
	}
	x.Bubble(func() {
		ver := "1." + itoa(1+p.Ver)
		cl, sv := netsim.Pair(netsim.Link{}, netsim.Link{}, "client:1", "server:1")
		peer := rawPeer(sv)
		var log []wire.Frame // what the client sent
		peer.on = func(f wire.Frame, _ time.Time) {
			lock <- struct{}{}
			log = append(log, f)
			<-lock
			switch f.Cmd {
			case "CONNECT":
				peer.send(wire.F("CONNECTED", "version", ver))
			case "SEND":
			default:
				if r, ok := f.Lookup("receipt"); ok {
					peer.send(wire.F("RECEIPT", "receipt-id", r))
				}
			}
		}
		opts := []func(*stomp.Conn) error{stomp.ConnOpt.Logger(quiet{}), stomp.ConnOpt.HeartBeat(0, 0)}
		if p.Rd > 0 {
			opts = append(opts, stomp.ConnOpt.ReadChannelCapacity(p.Rd))
		}
		if p.Wr > 0 {
			opts = append(opts, stomp.ConnOpt.WriteChannelCapacity(p.Wr))
		}
		p.Sched.Arm()
		c, err := stomp.Connect(cl, opts...)
		if err != nil {
			failf("could not connect: %v", err)
			return
		}
		frames := func(cmds ...string) (fs []wire.Frame) {
			lock <- struct{}{}
			defer func() { <-lock }()
			for _, f := range log {
				if slices.Contains(cmds, f.Cmd) {
					fs = append(fs, f)
				}
			}
			return
		}
		same := func(f wire.Frame, i int, what string) {
			if b := p.body(i); string(b) != string(f.Body) {
				failf("%s %d has another body (%d bytes instead of %d)", what, i, len(f.Body), len(b))
			}
			for _, h := range p.heads(i) {
				if v, ok := f.Lookup(string(h.K)); !ok || v != string(h.V) {
					failf("%s %d has header %.40q %.40q instead of %.40q", what, i, h.K, v, h.V)
				}
			}
		}
		number := func(f wire.Frame) int {
			n := -1
			_, _ = fmt.Sscan(f.Get("uid"), &n)
			return n
		}
		sendOpts := func(i int) (o []func(*frame.Frame) error) {
			for _, h := range p.heads(i) {
				o = append(o, stomp.SendOpt.Header(string(h.K), string(h.V)))
			}
			return
		}
		var wg sync.WaitGroup
		wait := func(what string) bool {
			done := make(chan struct{})
			go func() { wg.Wait(); close(done) }()
			select {
			case <-done:
				return true
			case <-time.After(time.Hour):
				failf("%s had not returned after an hour", what)
				return false
			}
		}
		switch p.Kind {
		case "subs":
			subs := make([]*stomp.Subscription, p.Subs)
			got := make([][]*stomp.Message, p.Subs)
			ended := make([]bool, p.Subs)
			var cwg sync.WaitGroup
			consume := func(i int) {
				cwg.Add(1)
				go func() {
					defer cwg.Done()
					for m := range subs[i].C {
						if m.Err != nil {
							failf("subscription %d was told %v", i, m.Err)
							return
						}
						lock <- struct{}{}
						got[i] = append(got[i], m)
						n := len(got[i])
						<-lock
						if p.Mode > 0 {
							var err error
							if p.Nack > 0 && n%p.Nack == 0 {
								err = c.Nack(m)
							} else {
								err = c.Ack(m)
							}
							if err != nil {
								failf("subscription %d could not settle a message: %v", i, err)
							}
						}
					}
					ended[i] = true
				}()
			}
			for i := range subs {
				var o []func(*frame.Frame) error
				if p.Id > 0 {
					o = append(o, stomp.SubscribeOpt.Id(strings.Repeat("s", p.Id)+itoa(i)))
				}
				if subs[i], err = c.Subscribe(p.dest(i), stomp.AckMode(p.Mode), o...); err != nil {
					failf("could not subscribe: %v", err)
					return
				}
				if !p.Late {
					consume(i)
				}
			}
			time.Sleep(time.Second)
			reqs := frames("SUBSCRIBE")
			if len(reqs) != p.Subs {
				failf("%d SUBSCRIBE frames were sent for %d subscriptions", len(reqs), p.Subs)
				return
			}
			ids := map[string]bool{}
			for i, f := range reqs {
				if f.Get("destination") != p.dest(i) || f.Get("id") != subs[i].Id() || ids[f.Get("id")] {
					failf("SUBSCRIBE frame %d is %.200v", i, f)
				}
				ids[f.Get("id")] = true
			}
			go func() {
				for i := 0; i < p.N; i++ {
					f := wire.F("MESSAGE", "subscription", subs[i%p.Subs].Id(), "destination", p.dest(i%p.Subs), "message-id", "m"+itoa(i), "ack", "a"+itoa(i))
					f.H = append(f.H, p.heads(i)...)
					b := p.body(i)
					f.H = append(f.H, wire.KV{K: "content-length", V: wire.Str(itoa(len(b)))})
					peer.send(f.WithBody(b))
				}
			}()
			time.Sleep(time.Minute)
			if p.Late {
				time.Sleep(3 * time.Hour)
				for i := range subs {
					consume(i)
				}
			}
			time.Sleep(10 * time.Minute)
			want := map[string][]string{}
			for i := range subs {
				lock <- struct{}{}
				g := got[i]
				<-lock
				k := 0
				for n := i; n < p.N; n, k = n+p.Subs, k+1 {
					if k >= len(g) {
						failf("subscription %d received %d messages, and message %d is missing", i, len(g), n)
						return
					}
					m := g[k]
					if m.Header.Get("uid") != itoa(n) || m.Destination != p.dest(i) || m.Subscription != subs[i] || m.Conn != c {
						failf("message %d of subscription %d is number %q", k, i, m.Header.Get("uid"))
						return
					}
					if string(m.Body) != string(p.body(n)) {
						failf("message %d arrived with another body", n)
					}
					for _, h := range p.heads(n) {
						if v := m.Header.Get(string(h.K)); v != string(h.V) {
							failf("message %d arrived with header %.40q %.40q instead of %.40q", n, h.K, v, h.V)
						}
					}
					cmd := "ACK"
					if p.Nack > 0 && (k+1)%p.Nack == 0 {
						cmd = "NACK"
					}
					if p.Mode > 0 {
						want[itoa(i)] = append(want[itoa(i)], cmd+" "+itoa(n))
					}
				}
				if k != len(g) {
					failf("subscription %d received %d messages, and %d were sent", i, len(g), k)
				}
			}
			settled := map[string][]string{}
			total := 0
			for _, f := range frames("ACK", "NACK") {
				n := -1
				if ver == "1.2" {
					_, _ = fmt.Sscanf(f.Get("id"), "a%d", &n)
				} else {
					_, _ = fmt.Sscanf(f.Get("message-id"), "m%d", &n)
				}
				i := itoa(n % p.Subs)
				if ver != "1.2" && n >= 0 && f.Get("subscription") != subs[n%p.Subs].Id() {
					failf("%s of message %d names subscription %.40q", f.Cmd, n, f.Get("subscription"))
				}
				settled[i] = append(settled[i], f.Cmd+" "+itoa(n))
				total++
			}
			if p.Mode > 0 && total != p.N || p.Mode == 0 && total != 0 {
				failf("%d acknowledgements were sent for %d messages", total, p.N)
			}
			for i := range want {
				if !slices.Equal(want[i], settled[i]) {
					failf("subscription %s: acknowledged were %.200v, sent was %.200v", i, want[i], settled[i])
				}
			}
			for _, i := range p.perm(p.Subs) {
				wg.Add(1)
				go func() {
					defer wg.Done()
					if err := subs[i].Unsubscribe(); err != nil {
						failf("subscription %d could not be ended: %v", i, err)
					}
				}()
			}
			if !wait("the unsubscribes") {
				return
			}
			time.Sleep(time.Second)
			for i := range subs {
				if !ended[i] {
					failf("the channel of subscription %d is still open after Unsubscribe", i)
				}
			}
		case "send":
			for g := 0; g < p.G; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := g; i < p.N; i += p.G {
						if err := c.Send(p.dest(i), "text/plain", p.body(i), sendOpts(i)...); err != nil {
							failf("send %d failed: %v", i, err)
						}
					}
				}()
			}
			if !wait("the sends") {
				return
			}
			time.Sleep(time.Minute)
			fs := frames("SEND")
			if len(fs) != p.N {
				failf("%d SEND frames arrived, and %d were sent", len(fs), p.N)
			}
			last := map[int]int{}
			for _, f := range fs {
				i := number(f)
				if i < 0 || i >= p.N || f.Get("destination") != p.dest(i) || f.Get("content-length") != itoa(len(p.body(i))) {
					failf("a strange frame arrived: %.200v", f)
					return
				}
				same(f, i, "send")
				if l, ok := last[i%p.G]; ok && i <= l {
					failf("send %d arrived after send %d of the same goroutine", i, l)
				}
				last[i%p.G] = i
			}
		case "receipts":
			back := make([]time.Time, p.N)
			for i := 0; i < p.N; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					if err := c.Send(p.dest(i), "", p.body(i), append(sendOpts(i), stomp.SendOpt.Receipt)...); err != nil {
						failf("send %d was confirmed, and failed: %v", i, err)
					}
					back[i] = time.Now()
				}()
			}
			time.Sleep(time.Second)
			fs := frames("SEND")
			ids := map[string]bool{}
			for _, f := range fs {
				ids[f.Get("receipt")] = true
			}
			if len(fs) != p.N || len(ids) != p.N {
				failf("%d sends arrived with %d receipt ids, and %d were sent", len(fs), len(ids), p.N)
				return
			}
			when := map[int]time.Time{}
			pause := min(5*time.Millisecond, 10*time.Second/time.Duration(p.N)) // the receipts are due within 30 s
			for _, k := range p.perm(p.N) {
				f := fs[k]
				when[number(f)] = time.Now()
				peer.send(wire.F("RECEIPT", "receipt-id", f.Get("receipt")))
				time.Sleep(pause)
			}
			if !wait("the confirmed sends") {
				return
			}
			for i := range back {
				if back[i].Before(when[i]) || back[i].Sub(when[i]) > pause*4/5 && p.Sched.OneIn == 0 {
					failf("send %d returned %v after its receipt", i, back[i].Sub(when[i]))
				}
			}
		case "tx":
			txs := make([]*stomp.Transaction, p.N)
			var want []string
			for i := range txs {
				if txs[i], err = c.BeginWithError(); err != nil {
					failf("transaction %d could not begin: %v", i, err)
					return
				}
				want = append(want, "BEGIN "+txs[i].Id())
			}
			for k := 0; k < 2; k++ {
				for _, i := range p.perm(p.N) {
					if err := txs[i].Send(p.dest(i), "", p.body(i), sendOpts(i)...); err != nil {
						failf("a send in transaction %d failed: %v", i, err)
					}
					want = append(want, "SEND "+txs[i].Id()+" "+itoa(i))
				}
			}
			for _, i := range p.perm(p.N) {
				cmd, end := "COMMIT ", txs[i].Commit
				switch (i*p.Mul + i) % 4 {
				case 1:
					cmd, end = "ABORT ", txs[i].Abort
				case 2:
					end = txs[i].CommitWithReceipt
				case 3:
					cmd, end = "ABORT ", txs[i].AbortWithReceipt
				}
				if err := end(); err != nil {
					failf("transaction %d could not be ended: %v", i, err)
				}
				want = append(want, cmd+txs[i].Id())
			}
			time.Sleep(time.Second)
			var have []string
			for _, f := range frames("BEGIN", "SEND", "COMMIT", "ABORT") {
				s := f.Cmd + " " + f.Get("transaction")
				if f.Cmd == "SEND" {
					s += " " + f.Get("uid")
					same(f, number(f), "send")
				}
				have = append(have, s)
			}
			if !slices.Equal(have, want) {
				k := 0
				for k < len(have) && k < len(want) && have[k] == want[k] {
					k++
				}
				failf("the client wrote %d frames, %d were expected; they differ from number %d on: %.100v", len(have), len(want), k, have[min(k, len(have)):])
			}
			ids := map[string]bool{}
			for _, t := range txs {
				ids[t.Id()] = true
			}
			if len(ids) != p.N {
				failf("%d transactions have %d ids", p.N, len(ids))
			}
		}
		p.Sched.Disarm()
		if err := c.Disconnect(); err != nil {
			failf("disconnecting failed: %v", err)
		}
		if fs := frames("DISCONNECT"); len(fs) != 1 {
			failf("%d DISCONNECT frames were sent", len(fs))
		}
		_ = cl.Close()
		peer.close()
		time.Sleep(time.Minute)
	})
	res.Fail = fail
	res.NonTrivial = p.N >= 50 || p.Subs >= 50 || p.HLen+p.Body+p.DLen+p.Id > 5000 || p.Heads > 50
	for _, n := range []struct {
		k string
		n int
	}{{"number", p.N}, {"subscriptions", p.Subs}, {"goroutines", p.G}, {"headers", p.Heads}} {
		if n.n >= 64 {
			res.Labels = append(res.Labels, n.k+">=64")
		}
	}
	if p.HLen+p.Body+p.DLen+p.Id > 5000 {
		res.Labels = append(res.Labels, "long")
	}
	return
}

func genCVolume(kind string, acks bool) func(t *rapid.T) CVPlan {
	return func(t *rapid.T) CVPlan {
		p := CVPlan{Sched: genSched(t), Kind: kind, Ver: uni(t, "ver", 2), N: rng(t, "n", 3, 10), Mul: rng(t, "mul", 0, 1000)}
		if p.Sched.OneIn > 0 && p.Sched.OneIn < 30 {
			p.Sched.OneIn = 30
		}
		big := func(name string, max int) int { // the logarithm is even
			n := 1
			for e := rng(t, name+"-log", 3, 20); e > 0 && n < max; e-- {
				n *= 2
			}
			n = n/2 + uni(t, name, n/2+1)
			return min(n, max)
		}
		dims := []string{"n", "n", "heads", "hlen", "body", "dlen"}
		switch kind {
		case "subs":
			p.Subs = 1
			p.Mode = uni(t, "mode", 3)
			if acks {
				p.Mode = 1 + p.Mode%2
				if chance(t, "nacks", 50) {
					p.Nack = rng(t, "nack", 1, 4)
				}
			}
			p.Late = chance(t, "late", 20)
			dims = append(dims, "subs", "subs", "id")
		case "send":
			p.G = 1 + uni(t, "g", 4)
			dims = append(dims, "g")
		}
		switch dims[uni(t, "dim", len(dims))] {
		case "n":
			max := map[string]int{"receipts": 6000}[kind]
			if max == 0 {
				max = 70000
			}
			p.N = big("big", max)
			if kind == "subs" {
				p.Subs = 1 + uni(t, "few", 3)
			}
		case "heads":
			p.Heads = big("big", 1500)
		case "hlen":
			p.HLen = big("big", 200000)
		case "body":
			p.Body = big("big", 1<<20)
		case "dlen":
			p.DLen = big("big", 100000)
		case "id":
			p.Id = big("big", 100000)
		case "subs":
			p.Subs = big("big", 1000)
			p.N = 3 * p.Subs
		case "g":
			p.G = big("big", 500)
			p.N = 3 * p.G
		}
		if p.Late && p.Subs > 1 {
			p.N = min(p.N, p.Subs*10) // all of it is delivered before anybody reads
		}
		if chance(t, "caps", 30) {
			p.Rd, p.Wr = rapid.SampledFrom([]int{1, 100, 5000}).Draw(t, "rd"), rapid.SampledFrom([]int{1, 100, 5000}).Draw(t, "wr")
		}
		return p
	}
}

func regCVolume(id string, kind string, acks bool) {
	core.Register(id, core.Check[CVPlan]{
		Name: "volume", Gen: genCVolume(kind, acks), Exec: execCVolume, Cases: [2]int{1000, 40000},
		Rule: "at least 50 operations or subscriptions, or a long name, value or body, or many headers",
	})
}

func init() {
	regCVolume("C03", "send", false)
	regCVolume("C04", "receipts", false)
	regCVolume("C05", "subs", false)
	regCVolume("C06", "subs", false)
	regCVolume("C08", "subs", true)
	regCVolume("C09", "tx", false)
}
