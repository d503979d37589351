package props

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/go-stomp/stomp/v3/frame"
	"github.com/go-stomp/stomp/v3/server"
	"github.com/go-stomp/stomp/v3/server/queue"
	"pgregory.net/rapid"
	"verif.local/harness/core"
	"verif.local/harness/netsim"
	"verif.local/harness/wire"
)

// S13: nothing of what is finished is kept. A round of clients that come, do something and
// go is repeated hundreds of times; the number of objects on the heap must not grow with it.

type KOp struct {
	K string `json:"k"` // sub, unsub, send, begin, commit, abort, ack, nack, wait
	D int    `json:"d,omitempty"`
	M int    `json:"m,omitempty"` // ack mode
	N int    `json:"n,omitempty"` // body size; which message
	T string `json:"t,omitempty"` // transaction
	R bool   `json:"r,omitempty"` // with a receipt
}

type KLife struct {
	Ver  string `json:"ver"`
	Stay bool   `json:"stay,omitempty"` // one connection for all rounds
	At   int    `json:"at,omitempty"`   // ms
	Ops  []KOp  `json:"ops"`
	End  string `json:"end,omitempty"`
	Cap  int    `json:"cap,omitempty"`
}

type KPlan struct {
	Sched core.Sched `json:"sched"`
	Dests []Str      `json:"dests"`
	Fresh bool       `json:"fresh,omitempty"` // other destinations in every round
	Lives []KLife    `json:"lives"`
}

func (p KPlan) ops() (n int) {
	for _, l := range p.Lives {
		n += 4 + len(l.Ops)
	}
	return
}

// kClient is a client that remembers as little as possible.
type kClient struct {
	fresh  string // suffix of the destinations
	c      *netsim.Conn
	ver    string
	mu     sync.Mutex
	out    []kGot // not settled
	end    bool
	subs   map[string]KOp // all since the connection was tidied
	live   map[string]bool
	n      int
	last   string
	txs    map[string]string // the ids of open transactions
	serial int
	deaf   chan bool
}

type kGot struct{ sub, msgId, ack string }

func kDial(l *netsim.Listener, lf KLife) *kClient {
	a, b := netsim.Pair(netsim.Link{NoLog: true}, netsim.Link{NoLog: true, Cap: lf.Cap}, "k", "server")
	k := &kClient{c: a, ver: lf.Ver, subs: map[string]KOp{}, live: map[string]bool{}, txs: map[string]string{}, deaf: make(chan bool, 1)}
	go k.read()
	l.Push(b)
	hb := "0,0"
	if lf.End == "silent" {
		hb = "10,0"
	}
	k.send(wire.F("CONNECT", "accept-version", lf.Ver, "host", "h", "heart-beat", hb))
	time.Sleep(time.Millisecond)
	return k
}

func (k *kClient) read() {
	var d wire.Decoder
	buf := make([]byte, 4096)
	for {
		if len(k.deaf) > 0 {
			return
		}
		n, err := k.c.Read(buf)
		fs, _ := d.Feed(buf[:n])
		k.mu.Lock()
		for _, f := range fs {
			if f.Cmd != "MESSAGE" {
				continue
			}
			g := kGot{f.Get("subscription"), f.Get("message-id"), f.Get("ack")}
			if o, ok := k.subs[g.sub]; ok && o.M > 0 {
				k.out = append(k.out, g)
			}
		}
		if err != nil {
			k.end = true
			k.mu.Unlock()
			return
		}
		k.mu.Unlock()
	}
}

func (k *kClient) send(fs ...wire.Frame) {
	var b []byte
	for _, f := range fs {
		b = append(b, wire.Encode(f)...)
	}
	_, _ = k.c.Write(b)
}

func (k *kClient) settle(cmd string, tx string, pickOne int) {
	k.mu.Lock()
	l := k.out
	if len(l) == 0 {
		k.mu.Unlock()
		return
	}
	i := 0
	if pickOne > 0 {
		i = len(l) - 1
	}
	g := l[i]
	in := tx != "" && k.txs[tx] != ""
	if in { // it may be aborted: to be acknowledged again in the end
	} else if k.subs[g.sub].M == 1 { // everything up to that message of the subscription
		var rest []kGot
		for j, o := range l {
			if o.sub != g.sub || j > i {
				rest = append(rest, o)
			}
		}
		k.out = rest
	} else {
		k.out = append(append([]kGot{}, l[:i]...), l[i+1:]...)
	}
	k.mu.Unlock()
	f := wire.F(cmd, "id", g.ack)
	if k.ver != "1.2" {
		f = wire.F(cmd, "subscription", g.sub, "message-id", g.msgId)
	}
	if in {
		f = f.With("transaction", k.txs[tx])
	}
	k.send(f)
}

func (k *kClient) do(p KPlan, o KOp) {
	var f wire.Frame
	d := string(p.Dests[o.D%len(p.Dests)]) + k.fresh
	switch o.K {
	case "wait":
		time.Sleep(time.Duration(1+o.N) * time.Millisecond)
		return
	case "sub":
		k.n++
		k.last = itoa(k.n)
		k.mu.Lock()
		k.subs[k.last] = o
		k.live[k.last] = true
		k.mu.Unlock()
		f = wire.F("SUBSCRIBE", "id", k.last, "destination", d, "ack", []string{"auto", "client", "client-individual"}[o.M%3])
	case "unsub":
		if k.last == "" {
			return
		}
		id := k.last
		k.last = ""
		f = wire.F("UNSUBSCRIBE", "id", id)
		k.mu.Lock()
		delete(k.live, id) // what it got is still to be acknowledged
		k.mu.Unlock()
	case "send":
		f = wire.F("SEND", "destination", d).WithBody([]byte(strings.Repeat("x", o.N)))
		if o.T != "" && k.txs[o.T] != "" {
			f = f.With("transaction", k.txs[o.T])
		}
	case "begin":
		if k.txs[o.T] != "" {
			return
		}
		k.serial++
		k.txs[o.T] = o.T + "-" + itoa(k.serial)
		f = wire.F("BEGIN", "transaction", k.txs[o.T])
	case "commit", "abort":
		if k.txs[o.T] == "" {
			return
		}
		f = wire.F(map[string]string{"commit": "COMMIT", "abort": "ABORT"}[o.K], "transaction", k.txs[o.T])
		delete(k.txs, o.T)
	case "ack":
		k.settle("ACK", o.T, o.N)
		return
	case "nack":
		k.settle("NACK", o.T, o.N)
		return
	}
	if o.R {
		k.serial++
		f = f.With("receipt", "r"+itoa(k.serial))
	}
	k.send(f)
	time.Sleep(10 * time.Microsecond)
}

// tidy gives back everything, without ending the connection.
func (k *kClient) tidy() {
	for _, t := range []string{"t1", "t2"} {
		if k.txs[t] != "" {
			k.send(wire.F("ABORT", "transaction", k.txs[t]))
			delete(k.txs, t)
		}
	}
	for i := 0; i < 200; i++ {
		k.mu.Lock()
		n := len(k.out)
		k.mu.Unlock()
		if n == 0 {
			break
		}
		k.settle("ACK", "", 1)
		time.Sleep(100 * time.Microsecond)
	}
	k.mu.Lock()
	live := k.live
	k.live = map[string]bool{}
	k.mu.Unlock()
	for id := range live {
		k.send(wire.F("UNSUBSCRIBE", "id", id))
	}
	k.last = ""
	time.Sleep(time.Millisecond)
	for len(k.out) > 0 { // nothing arrives any more
		k.settle("ACK", "", 1)
	}
	k.subs = map[string]KOp{}
	time.Sleep(time.Millisecond)
}

func (k *kClient) finish(end string) {
	switch end {
	case "disc":
		k.send(wire.F("DISCONNECT", "receipt", "bye"))
	case "quit":
		k.send(wire.F("DISCONNECT"))
	case "reset":
		k.c.Reset()
	case "half":
		k.c.CloseWrite()
	case "bad":
		k.send(wire.F("NOSUCH", "a", "b"))
	case "proto":
		k.send(wire.F("COMMIT", "transaction", "none"))
	case "cut":
		_, _ = k.c.Write([]byte("SEND\ndestination:/queue/a\n\nhal"))
	case "silent":
		time.Sleep(200 * time.Millisecond)
	case "deaf":
		k.deaf <- true
		time.Sleep(5 * time.Millisecond)
		k.c.Reset()
	}
	time.Sleep(2 * time.Millisecond)
	_ = k.c.Close()
}

// kStore is the in-memory storage, whose goroutine can be ended.
type kStore struct{ queue.Storage }

func (s *kStore) Requeue(q string, f *frame.Frame) error {
	if q == sExit {
		runtime.Goexit()
	}
	return s.Storage.Requeue(q, f)
}

func kStop(l *netsim.Listener) { stopServer(l, &sStore{}) }

// heap returns the number and the size of the objects that are reachable.
func heap() (n, size int64) {
	for i := 0; i < 2; i++ {
		time.Sleep(time.Second)
		runtime.GC()
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapObjects), int64(m.HeapAlloc)
}

// grows repeats f and tells whether what is kept on the heap grows with the repetitions.
func grows(k int, f func()) string {
	for i := 0; i < 15; i++ {
		f()
	}
	var n [5]int64
	var b [5]int64
	n[0], b[0] = heap()
	for w := 1; w < len(n); w++ {
		for i := 0; i < k; i++ {
			f()
		}
		n[w], b[w] = heap()
		objs, bytes := n[w]-n[w-1], b[w]-b[w-1]
		if objs < int64(k)/2+150 && bytes < int64(k)*200+300000 {
			return ""
		}
	}
	return fmt.Sprintf("after 15, %d, %d, %d and %d repetitions %v objects (%v bytes) are reachable", 15+k, 15+2*k, 15+3*k, 15+4*k, n, b)
}

func execS13(x *core.Ctx, p KPlan) (res Result) {
	if len(p.Dests) == 0 || len(p.Lives) == 0 {
		return
	}
	res.Labels = append(res.Labels, fmt.Sprintf("fresh:%v", p.Fresh))
	for _, l := range p.Lives {
		if l.Stay {
			res.Labels = append(res.Labels, "stays")
		} else {
			res.Labels = append(res.Labels, "end:"+l.End)
		}
		for _, o := range l.Ops {
			res.Labels = append(res.Labels, "op:"+o.K)
		}
		res.NonTrivial = res.NonTrivial || len(l.Ops) > 1
	}
	k := max(200, min(1000, 8000/p.ops()))
	x.Bubble(func() {
		l := netsim.NewListener()
		st := &kStore{Storage: queue.NewMemoryQueueStorage()}
		startServer(&server.Server{Log: quiet{}, QueueStorage: st, HeartBeat: 10 * time.Millisecond}, l)
		stay := make([]*kClient, len(p.Lives))
		for i, lf := range p.Lives {
			if lf.Stay {
				stay[i] = kDial(l, KLife{Ver: lf.Ver})
			}
		}
		live := func(i int, lf KLife, fresh string) {
			time.Sleep(time.Duration(lf.At) * time.Millisecond)
			c := stay[i]
			if c == nil {
				c = kDial(l, lf)
			}
			c.fresh = fresh
			for _, o := range lf.Ops {
				c.do(p, o)
			}
			if c != stay[i] {
				time.Sleep(time.Millisecond)
				c.finish(lf.End)
			}
		}
		p.Sched.Arm()
		defer p.Sched.Disarm()
		round := 0
		res.Fail = grows(k, func() {
			round++
			fresh := ""
			if p.Fresh {
				fresh = "/" + itoa(round)
			}
			var wg sync.WaitGroup
			for i, lf := range p.Lives {
				wg.Add(1)
				go func() {
					defer wg.Done()
					live(i, lf, fresh)
				}()
			}
			wg.Wait()
			time.Sleep(10 * time.Millisecond)
			for _, c := range stay {
				if c != nil {
					c.tidy()
				}
			}
			d := kDial(l, KLife{Ver: "1.1"})
			for i, q := range p.Dests {
				if isQueue(string(q)) {
					d.send(wire.F("SUBSCRIBE", "id", itoa(i), "destination", string(q)+fresh))
				}
			}
			time.Sleep(5 * time.Millisecond)
			d.finish("disc")
			time.Sleep(time.Millisecond)
		})
		for _, c := range stay {
			if c != nil {
				if c.end {
					res.Labels = append(res.Labels, "ended")
				}
				c.finish("close")
			}
		}
		p.Sched.Disarm()
		time.Sleep(time.Second)
		kStop(l)
	})
	return
}

func genS13(t *rapid.T) (p KPlan) {
	p.Sched = genSched(t)
	p.Dests = genDests(t, rng(t, "queues", 1, 2), 2)
	p.Fresh = chance(t, "fresh", 40)
	n := rng(t, "lives", 1, 3)
	for i := 0; i < n; i++ {
		lf := KLife{Ver: rapid.SampledFrom([]string{"1.1", "1.2"}).Draw(t, "ver"), Stay: chance(t, "stay", 35), At: rng(t, "at", 0, 2)}
		if !lf.Stay {
			lf.End = rapid.SampledFrom([]string{"close", "disc", "quit", "reset", "half", "bad", "proto", "cut", "silent", "deaf"}).Draw(t, "end")
			if chance(t, "narrow", 15) {
				lf.Cap = rapid.SampledFrom([]int{100, 2000}).Draw(t, "cap")
			}
		}
		m := rng(t, "ops", 1, 9)
		for j := 0; j < m; j++ {
			o := KOp{D: rng(t, "dest", 0, len(p.Dests)-1)}
			switch pick(t, "op", 5, 2, 6, 2, 2, 1, 4, 2, 2) {
			case 0:
				o.K, o.M = "sub", rng(t, "mode", 0, 2)
			case 1:
				o.K = "unsub"
			case 2:
				o.K, o.N = "send", rapid.SampledFrom([]int{0, 1, 10, 1000, 9000}).Draw(t, "size")
			case 3:
				o.K = "begin"
			case 4:
				o.K = "commit"
			case 5:
				o.K = "abort"
			case 6:
				o.K, o.N = "ack", rng(t, "which", 0, 1)
			case 7:
				o.K, o.N = "nack", rng(t, "which", 0, 1)
			case 8:
				o.K, o.N = "wait", rng(t, "ms", 0, 2)
			}
			switch o.K {
			case "begin", "commit", "abort":
				o.T = rapid.SampledFrom([]string{"t1", "t2"}).Draw(t, "tx")
			case "send", "ack", "nack":
				o.T = rapid.SampledFrom([]string{"", "t1", "t2"}).Draw(t, "in")
			}
			o.R = chance(t, "receipt", 20)
			lf.Ops = append(lf.Ops, o)
		}
		p.Lives = append(p.Lives, lf)
	}
	return
}

func init() {
	core.Register("S13", core.Check[KPlan]{
		Name: "rounds", Gen: genS13, Exec: execS13, Cases: [2]int{1200, 30000},
		Rule: "some client did at least two operations before it ended, or stayed",
	})
}
