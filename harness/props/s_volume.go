package props

import (
	"fmt"
	"slices"
	"strings"
	"time"

	"github.com/go-stomp/stomp/v3/server"
	"pgregory.net/rapid"
	"verif.local/harness/core"
	"verif.local/harness/netsim"
	"verif.local/harness/wire"
)

// Part "volume" of several server properties: few operations of one kind, but one of the
// numbers (messages, destinations, subscriptions, connections, size of a transaction, open
// transactions, rejections, headers, lengths) is large.

type VPlan struct {
	Sched core.Sched `json:"sched"`
	Ver   int        `json:"ver"`
	Topic bool       `json:"topic,omitempty"`
	Pre   bool       `json:"pre,omitempty"` // subscriptions first
	Mode  int        `json:"mode"`
	Dests int        `json:"dests"`
	Msgs  int        `json:"msgs"`
	Subs  int        `json:"subs"` // at least one for every destination
	Conns int        `json:"conns"`
	Txs   int        `json:"txs,omitempty"` // the messages are spread over so many transactions
	Abort int        `json:"abort,omitempty"`
	Nacks int        `json:"nacks,omitempty"` // every message is rejected so often
	Heads int        `json:"heads,omitempty"`
	HLen  int        `json:"hlen,omitempty"`
	Body  int        `json:"body,omitempty"`
	Id    int        `json:"id,omitempty"`   // length of the subscription ids
	DLen  int        `json:"dlen,omitempty"` // length of the destinations
	Cap   int        `json:"cap,omitempty"`
}

func (p VPlan) dest(i int) string {
	pre := "/queue/"
	if p.Topic {
		pre = "/topic/"
	}
	return pre + strings.Repeat("d", p.DLen) + itoa(i)
}

func (p VPlan) sub(i int) string { return strings.Repeat("s", p.Id) + itoa(i) }

// msg is the i-th message.
func (p VPlan) msg(i int) wire.Frame {
	f := wire.F("SEND", "destination", p.dest(i%p.Dests), "uid", itoa(i))
	for k := 0; k < p.Heads; k++ {
		f.H = append(f.H, wire.KV{K: wire.Str("h" + itoa(k)), V: wire.Str(itoa(k * i))})
	}
	if p.HLen > 0 {
		f.H = append(f.H, wire.KV{K: wire.Str("l" + strings.Repeat("n", p.HLen)), V: wire.Str(itoa(i) + strings.Repeat("v:", p.HLen/2))})
	}
	b := Body{N: p.Body, Seed: uint32(i + 1)}.Bytes()
	f.H = append(f.H, wire.KV{K: "content-length", V: wire.Str(itoa(len(b)))})
	return f.WithBody(b)
}

func execVolume(x *core.Ctx, p VPlan) (res Result) {
	type sub struct {
		id, dest string
		got      []int
		pend     string
	}
	fail := ""
	failf := func(f string, a ...any) {
		if fail == "" {
			fail = fmt.Sprintf(f, a...)
		}
	}
	total := 0
	x.Bubble(func() {
		l := netsim.NewListener()
		startServer(&server.Server{Log: quiet{}}, l)
		ver := "1." + itoa(1+p.Ver)
		ack := []string{"auto", "client", "client-individual"}[p.Mode]
		lock := make(chan struct{}, 1)
		nacked := map[string]int{}
		var conns []*rawClient
		subs := map[string]*sub{}
		dial := func(name string, on func(c *rawClient, f wire.Frame)) *rawClient {
			c := dialRaw(l, netsim.Link{}, netsim.Link{Cap: p.Cap}, name)
			if on != nil {
				c.on = func(f wire.Frame, _ time.Time) {
					lock <- struct{}{}
					defer func() { <-lock }()
					on(c, f)
				}
			}
			conns = append(conns, c)
			c.send(wire.F("CONNECT", "accept-version", ver, "host", "h"))
			return c
		}
		ids := map[*rawClient]map[string]bool{}
		receive := func(c *rawClient, f wire.Frame) {
			switch f.Cmd {
			case "MESSAGE":
			case "ERROR":
				failf("the server sent ERROR %q", f.Get("message"))
				return
			default:
				return
			}
			total++
			s := subs[f.Get("subscription")]
			if s == nil || f.Get("destination") != s.dest {
				failf("a message of %.40q came for subscription %.40q", f.Get("destination"), f.Get("subscription"))
				return
			}
			id := f.Get("message-id")
			if id == "" || ids[c][id] {
				failf("message id %q was used twice on a connection", id)
			}
			ids[c][id] = true
			uid := f.Get("uid")
			var n int
			if _, err := fmt.Sscan(uid, &n); err != nil || n < 0 || n >= p.Msgs {
				failf("a strange message arrived: %.200v", f)
				return
			}
			want := p.msg(n)
			if string(want.Body) != string(f.Body) {
				failf("message %d arrived with another body (%d bytes, %d were sent)", n, len(f.Body), len(want.Body))
			}
			for _, h := range want.H {
				if v, ok := f.Lookup(string(h.K)); !ok || v != string(h.V) {
					failf("message %d arrived with header %.40q %.40q, and %.40q was sent", n, h.K, v, h.V)
				}
			}
			if p.Topic || p.Mode == 0 {
				s.got = append(s.got, n)
				return
			}
			if s.pend != "" && s.pend != uid {
				failf("message %s came before message %s was settled", uid, s.pend)
			}
			cmd := "ACK"
			if s.pend = ""; nacked[uid] < p.Nacks {
				nacked[uid]++
				cmd = "NACK"
				if p.Subs == p.Dests {
					s.pend = uid // nobody else is there
				}
			} else {
				s.got = append(s.got, n)
			}
			a := wire.F(cmd, "subscription", s.id, "message-id", id)
			if ver == "1.2" {
				a = wire.F(cmd, "id", f.Get("ack"))
			}
			c.send(a)
		}
		subscribe := func() {
			var cs []*rawClient
			for i := 0; i < p.Conns; i++ {
				c := dial("c"+itoa(i), receive)
				lock <- struct{}{}
				ids[c] = map[string]bool{}
				<-lock
				cs = append(cs, c)
			}
			for i := 0; i < p.Subs; i++ {
				s := &sub{id: p.sub(i), dest: p.dest(i % p.Dests)}
				lock <- struct{}{}
				subs[s.id] = s
				<-lock
				cs[i%p.Conns].send(wire.F("SUBSCRIBE", "id", s.id, "destination", s.dest, "ack", ack))
			}
			time.Sleep(time.Minute)
		}
		p.Sched.Arm()
		time.Sleep(time.Millisecond)
		if p.Pre {
			subscribe()
		}
		snd := dial("sender", nil)
		var order []int // messages in the order in which they count
		for i := 0; i < p.Txs; i++ {
			snd.send(wire.F("BEGIN", "transaction", "t"+itoa(i)))
		}
		gone := func(i int) bool { return p.Txs > 0 && p.Abort > 0 && (i%p.Txs)%p.Abort == 0 }
		for i := 0; i < p.Msgs; i++ {
			f := p.msg(i)
			if p.Txs > 0 {
				f = f.With("transaction", "t"+itoa(i%p.Txs))
			} else {
				order = append(order, i)
			}
			snd.send(f)
		}
		for k := 0; k < p.Txs; k++ {
			cmd := "COMMIT"
			if gone(k) {
				cmd = "ABORT"
			}
			snd.send(wire.F(cmd, "transaction", "t"+itoa(k)))
			for i := k; i < p.Msgs && cmd == "COMMIT"; i += p.Txs {
				order = append(order, i)
			}
		}
		snd.send(wire.F("SEND", "destination", "/topic/none", "receipt", "end"))
		time.Sleep(10 * time.Minute)
		fs, end := snd.frames()
		if last := fs[len(fs)-1]; end || len(fs) != 2 || last.Cmd != "RECEIPT" || last.Get("receipt-id") != "end" {
			failf("the sender was not given its receipt: %.200v (connection closed: %v)", last, end)
		}
		if !p.Pre {
			subscribe()
		}
		time.Sleep(30 * time.Minute)
		p.Sched.Disarm()
		lock <- struct{}{}
		for _, c := range conns {
			if fs, end := c.frames(); end {
				failf("a connection was closed: %.200v", fs)
			}
		}
		want := map[string][]int{}
		pos := map[int]int{}
		for k, i := range order {
			d := p.dest(i % p.Dests)
			want[d] = append(want[d], i)
			pos[i] = k
		}
		seen := map[int]int{}
		for i := 0; i < p.Subs && fail == ""; i++ {
			s := subs[p.sub(i)]
			for _, n := range s.got {
				seen[n]++
				if _, ok := pos[n]; !ok {
					failf("message %d, which was discarded with its transaction, was delivered", n)
				}
			}
			if p.Topic || p.Subs == p.Dests {
				if !slices.Equal(s.got, want[s.dest]) {
					failf("subscription %d should have had %s, and had %s", i, brief(want[s.dest]), brief(s.got))
				}
			} else if p.Nacks == 0 && !slices.IsSortedFunc(s.got, func(a, b int) int { return pos[a] - pos[b] }) {
				failf("subscription %d had %s, which is not the order in the queue", i, brief(s.got))
			}
		}
		for _, i := range order {
			if fail == "" && !p.Topic && seen[i] != 1 {
				failf("message %d was delivered and settled %d times", i, seen[i])
			}
		}
		<-lock
		for _, c := range conns {
			c.close()
		}
		time.Sleep(time.Minute)
		stopServer(l, nil)
	})
	res.Fail = fail
	res.NonTrivial = total >= 50 || p.HLen+p.Body+p.DLen+p.Id > 5000 || p.Heads > 50
	for _, n := range []struct {
		k string
		n int
	}{{"messages", p.Msgs}, {"destinations", p.Dests}, {"subscriptions", p.Subs}, {"connections", p.Conns}, {"transactions", p.Txs}, {"rejections", p.Nacks}, {"headers", p.Heads}} {
		if n.n >= 64 {
			res.Labels = append(res.Labels, n.k+">=64")
		}
	}
	return
}

func brief(s []int) string {
	if len(s) > 12 {
		return fmt.Sprintf("%d messages %v...%v", len(s), s[:6], s[len(s)-3:])
	}
	return fmt.Sprintf("%d messages %v", len(s), s)
}

// genVolume: kinds are the sorts of plans the property is about.
func genVolume(kinds ...string) func(t *rapid.T) VPlan {
	return func(t *rapid.T) VPlan {
		p := VPlan{Sched: genSched(t), Ver: uni(t, "ver", 2), Dests: 1, Subs: 1, Conns: 1, Pre: chance(t, "pre", 50)}
		p.Msgs = rng(t, "msgs", 3, 10)
		if p.Sched.OneIn > 0 && p.Sched.OneIn < 30 {
			p.Sched.OneIn = 30
		}
		big := func(name string, max int) int { // the logarithm is even
			n := 1
			for e := rng(t, name+"-log", 3, 20); e > 0 && n < max; e-- {
				n *= 2
			}
			n = n/2 + uni(t, name, n/2+1)
			return min(n, max)
		}
		kind := kinds[uni(t, "kind", len(kinds))]
		dims := []string{"msgs", "dests", "subs", "conns", "heads", "hlen", "body", "id", "dlen"}
		switch kind {
		case "queue":
			p.Mode = uni(t, "mode", 3)
		case "ack":
			p.Mode = 1 + uni(t, "mode", 2)
			dims = append(dims, "nacks", "nacks", "nacks", "msgs")
		case "topic":
			p.Topic, p.Pre = true, true
			dims = append(dims, "fan", "fan")
			p.Mode = uni(t, "mode", 3)
		case "tx":
			p.Topic = chance(t, "topic", 30)
			p.Pre = p.Pre || p.Topic
			p.Txs = 1 + uni(t, "txs", 3)
			if chance(t, "aborts", 40) {
				p.Abort = 2 + uni(t, "abort", 2)
			}
			dims = []string{"msgs", "txs", "txs-one", "body", "heads", "dests"}
		case "ids":
			p.Mode = uni(t, "mode", 3)
			p.Topic = chance(t, "topic", 30)
			p.Pre = p.Pre || p.Topic
			dims = []string{"subs", "fan", "id", "conns", "dests"}
		}
		switch dims[uni(t, "dim", len(dims))] {
		case "msgs":
			p.Msgs = big("n", 70000)
		case "dests":
			p.Dests = big("n", 1500)
			p.Msgs = 2 * p.Dests
			p.Subs = p.Dests
			p.Conns = 1 + uni(t, "conns", 3)
		case "subs": // of one queue
			p.Subs = big("n", 1000)
			p.Msgs = p.Subs + rng(t, "more", 0, 10)
			if p.Topic {
				p.Msgs = 3
			}
		case "fan": // subscriptions and connections
			p.Conns = big("n", 200)
			p.Subs = p.Conns * (1 + uni(t, "per", 3))
			p.Msgs = rng(t, "few", 3, 20)
		case "conns":
			p.Conns = big("n", 200)
			p.Subs = p.Conns
			if !p.Topic && chance(t, "each", 50) {
				p.Dests = p.Subs
			}
			p.Msgs = 2 * p.Subs
			if p.Topic {
				p.Msgs = 5
			}
		case "heads":
			p.Heads = big("n", 1500)
		case "hlen":
			p.HLen = big("n", 200000)
		case "body":
			p.Body = big("n", 1<<20)
		case "id":
			p.Id = big("n", 100000)
		case "dlen":
			p.DLen = big("n", 100000)
		case "nacks":
			p.Nacks = big("n", 20000)
			p.Msgs = 1 + uni(t, "few", 4)
		case "txs":
			p.Txs = big("n", 20000)
			p.Msgs = 2 * p.Txs
		case "txs-one":
			p.Txs = 1
			p.Msgs = big("n", 70000)
		}
		p.Subs = max(p.Subs, p.Dests)
		p.Conns = min(p.Conns, p.Subs)
		if p.Topic {
			// A client that is 65536 frames behind may be disconnected, and how
			// far it gets behind depends on the scheduler.
			p.Msgs = min(p.Msgs, 60000*p.Dests/((p.Subs+p.Conns-1)/p.Conns))
		}
		if chance(t, "cap", 20) && p.HLen+p.Body+p.DLen+p.Id < 1000 {
			p.Cap = rapid.SampledFrom([]int{100, 4096, 65536}).Draw(t, "capn")
		}
		return p
	}
}

func regVolume(id string, quick int, kinds ...string) {
	core.Register(id, core.Check[VPlan]{
		Name: "volume", Gen: genVolume(kinds...), Exec: execVolume, Cases: [2]int{quick, quick * 40},
		Rule: "at least 50 messages arrived, or there was a long name, value or body, or many headers",
	})
}

func init() {
	regVolume("S02", 1200, "queue")
	regVolume("S03", 1200, "ack")
	regVolume("S04", 1200, "topic")
	regVolume("S05", 1200, "tx")
	regVolume("S12", 1200, "ids")
}
