package props

import (
	"bytes"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/go-stomp/stomp/v3/frame"
	"github.com/go-stomp/stomp/v3/server"
	"github.com/go-stomp/stomp/v3/server/queue"
	"pgregory.net/rapid"

	"verif.local/harness/core"
	"verif.local/harness/netsim"
	"verif.local/harness/wire"
)

// The server world: the real server.Server on a simulated listener, raw clients that
// speak through the independent codec, and a reference broker. A plan is a list of
// steps; in a step one client sends a burst of frames (and may end its connection);
// then everything settles and what every client received is reconciled with the model.

const sSettle = 100 * time.Millisecond // more than the budget of the scheduling points

type SOp struct {
	K   string `json:"k"`
	D   int    `json:"d,omitempty"`
	ID  int    `json:"id,omitempty"`
	M   int    `json:"m,omitempty"`
	TX  int    `json:"tx,omitempty"` // 0: none
	Ack int    `json:"ack,omitempty"`
	R   int    `json:"r,omitempty"` // receipt: 0 none, 1 unique, 2 repeated, 3 and more: odd
	RF  bool   `json:"rf,omitempty"`
	H   []KV   `json:"h,omitempty"`
	B   Body   `json:"b,omitempty"`
	CL  bool   `json:"cl,omitempty"`
	Bad int    `json:"bad,omitempty"`
}

type SStep struct {
	C    int    `json:"c"`
	Ops  []SOp  `json:"ops,omitempty"`
	End  string `json:"end,omitempty"`  // "", close, reset, half, trunc, garbage, restart
	Idle int    `json:"idle,omitempty"` // seconds in which nobody does anything, before
}

type SPlan struct {
	Vers  []int      `json:"vers"` // 1 or 2, per client
	Up    [][]int    `json:"up,omitempty"`
	Dests []Str      `json:"dests"`
	Ids   []Str      `json:"ids"`
	Nil   bool       `json:"nil,omitempty"` // no storage configured
	Steps []SStep    `json:"steps"`
	Sched core.Sched `json:"sched"`

	TxAlike int `json:"tx_alike,omitempty"` // transaction names that look alike
}

var sOdd = []string{"odd:\n\\#", " r #", "R# ", "\t#\r", "#é\xff", "00#", "r\\n#", strings.Repeat("long", 1500) + "#", "#,#;r=1"}
var sAcks = []string{"auto", "client", "client-individual", ""}
var sTxs = []string{"", "t1", "t2", "a:b\\\n1", "T1", "t1 "}

// names that are easily confused
var sTxsAlike = [][]string{{"", "t1", "t1 ", "T1", " t1", "t01"}, {"", "1", "01", "1 ", "+1", "1.0"}, {"", "a:b", "a", "a:", "a\\cb", "a:b:c"},
	{"", sLong + "1", sLong + "2", sLong, sLong + "11", sLong[1:] + "1"}}

var sLong = strings.Repeat("l", 1030)

func (w *sWorld) txNames() []string {
	if w.p.TxAlike > 0 {
		return sTxsAlike[w.p.TxAlike%len(sTxsAlike)]
	}
	return sTxs
}

// ---------------------------------------------------------------- storage

// sStore wraps the real in-memory storage. Its goroutine leaves when a message is
// returned to the exit queue, which is how a server that cannot be stopped ends.
const sExit = "/queue/__exit"

type sStore struct {
	queue.Storage
	mu    sync.Mutex
	busy  int
	calls int
	fails []string
	start int
	model map[string][]*frame.Frame
}

func newStore() *sStore {
	return &sStore{Storage: queue.NewMemoryQueueStorage(), model: map[string][]*frame.Frame{}}
}

func (s *sStore) failf(f string, a ...any) {
	if len(s.fails) < 5 {
		s.fails = append(s.fails, fmt.Sprintf(f, a...))
	}
}

func (s *sStore) enter() func() {
	s.mu.Lock()
	s.calls++
	s.busy++
	if s.busy > 1 {
		s.failf("two storage calls at the same time")
	}
	if s.start != 1 {
		s.failf("the storage was used after %d calls of Start", s.start)
	}
	s.mu.Unlock()
	time.Sleep(time.Nanosecond) // in a bubble: lets a concurrent call in
	return func() {
		s.mu.Lock()
		s.busy--
		s.mu.Unlock()
	}
}

func (s *sStore) Start() {
	s.mu.Lock()
	s.start++
	s.mu.Unlock()
	s.Storage.Start()
	for q, l := range s.model {
		for _, f := range l {
			_ = s.Storage.Enqueue(q, f)
		}
	}
}

func (s *sStore) Enqueue(q string, f *frame.Frame) error {
	defer s.enter()()
	s.mu.Lock()
	s.checkFrame(q, f)
	s.model[q] = append(s.model[q], f)
	s.mu.Unlock()
	return s.Storage.Enqueue(q, f)
}

func (s *sStore) Requeue(q string, f *frame.Frame) error {
	defer s.enter()()
	if q == sExit {
		s.mu.Lock()
		s.busy = -1 << 20
		s.mu.Unlock()
		runtime.Goexit()
	}
	s.mu.Lock()
	s.checkFrame(q, f)
	s.model[q] = append([]*frame.Frame{f}, s.model[q]...)
	s.mu.Unlock()
	return s.Storage.Requeue(q, f)
}

func (s *sStore) Dequeue(q string) (*frame.Frame, error) {
	defer s.enter()()
	f, err := s.Storage.Dequeue(q)
	s.mu.Lock()
	defer s.mu.Unlock()
	l := s.model[q]
	switch {
	case err != nil:
		s.failf("the in-memory storage failed: %v", err)
	case len(l) == 0 && f != nil:
		s.failf("the in-memory storage returned a frame of the empty queue %q", q)
	case len(l) > 0 && f != l[0]:
		s.failf("the in-memory storage did not return the first frame of queue %q", q)
	}
	if len(l) > 0 {
		s.model[q] = l[1:]
	}
	return f, err
}

func (s *sStore) checkFrame(q string, f *frame.Frame) {
	if f == nil || f.Command != "MESSAGE" {
		s.failf("queue %q: a frame that is not a MESSAGE is stored: %v", q, f)
		return
	}
	if d := f.Header.Get("destination"); d != q {
		s.failf("a message for %q is stored in queue %q", d, q)
	}
}

// content returns the uids stored in each queue.
func (s *sStore) content() map[string][]string {
	s.mu.Lock()
	defer s.mu.Unlock()
	r := map[string][]string{}
	for q, l := range s.model {
		if q == sExit {
			continue
		}
		for _, f := range l {
			r[q] = append(r[q], f.Header.Get("x-uid"))
		}
	}
	return r
}

// ---------------------------------------------------------------- raw client

type rawClient struct {
	c     *netsim.Conn
	sv    *netsim.Conn // the server's end
	mu    sync.Mutex
	in    []wire.Frame
	at    []time.Time
	bad   wire.Status
	end   bool
	err   error
	endAt time.Time
	stall bool
	wake  *sync.Cond
	quit  bool
	reads int                              // >0: resets the connection after that many reads
	on    func(f wire.Frame, at time.Time) // called for every frame, by the reading goroutine
}

func dialRaw(l *netsim.Listener, up, down netsim.Link, name string) *rawClient {
	return dialReads(l, up, down, name, 0)
}

func dialReads(l *netsim.Listener, up, down netsim.Link, name string, reads int) *rawClient {
	a, b := netsim.Pair(up, down, name, "server")
	r := &rawClient{c: a, sv: b, reads: reads}
	r.wake = sync.NewCond(&r.mu)
	go r.read()
	l.Push(b)
	return r
}

func (r *rawClient) read() {
	var d wire.Decoder
	buf := make([]byte, 4096)
	for {
		r.mu.Lock()
		for r.stall && !r.quit {
			r.wake.Wait()
		}
		r.mu.Unlock()
		if r.reads--; r.reads == 0 {
			r.c.Reset()
		}
		n, err := r.c.Read(buf)
		fs, st := d.Feed(buf[:n])
		if r.on != nil {
			for _, f := range fs {
				r.on(f, time.Now())
			}
		}
		r.mu.Lock()
		now := time.Now()
		for _, f := range fs {
			r.in = append(r.in, f)
			r.at = append(r.at, now)
		}
		if st == wire.Malformed && r.bad != wire.Malformed {
			r.bad = st
		}
		if err != nil {
			r.end, r.err, r.endAt = true, err, now
			r.mu.Unlock()
			return
		}
		r.mu.Unlock()
	}
}

func (r *rawClient) setStall(b bool) {
	r.mu.Lock()
	r.stall = b
	r.wake.Broadcast()
	r.mu.Unlock()
}

func (r *rawClient) send(fs ...wire.Frame) {
	var b []byte
	for _, f := range fs {
		b = append(b, wire.Encode(f)...)
	}
	_, _ = r.c.Write(b)
}

func (r *rawClient) close() {
	_ = r.c.Close()
	r.mu.Lock()
	r.quit = true
	r.stall = false
	r.wake.Broadcast()
	r.mu.Unlock()
}

// frames returns what arrived (without heart-beats), and whether the stream ended.
func (r *rawClient) frames() (fs []wire.Frame, end bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, f := range r.in {
		if f.Cmd != "" {
			fs = append(fs, f)
		}
	}
	return fs, r.end
}

// ---------------------------------------------------------------- model

type sMsg struct {
	uid  string
	dest string
	f    wire.Frame
}

type sSub struct {
	cl     *sCl
	id     string
	dest   string
	ack    string
	queue  bool
	dead   bool // unsubscribed, confirmed
	ending bool // ends in this step
	unsubR string
	pend   *sMsg
	pendId string
	got    []*sMsg // deliveries of this step
	exp    []*sMsg // topic messages of this step
}

type sGot struct { // a queue message a client received
	sub   *sSub
	m     *sMsg
	msgId string
	ackId string
}

type sCl struct {
	n      int
	ver    string
	raw    *rawClient
	seen   int
	subs   []*sSub // all instances, in order
	txs    map[string][]SOp
	gots   []*sGot
	ids    map[string]bool
	expect []sExpect // control frames expected in this step
	over   bool      // no frame has any effect any more
	ended  bool      // ends in this step
	silent bool      // ended by the harness: nothing is expected
}

type sExpect struct {
	err     bool
	receipt string
	has     bool
	sub     *sSub // becomes dead at this receipt
	disc    bool
}

type sWait struct {
	m   *sMsg
	grp int
}

type sNack struct {
	m *sMsg
	s *sSub
}

type sQueue struct {
	wait    []sWait
	arrive  []*sMsg
	ret     []*sMsg
	retired int // subscriptions that ended in this step
	nacks   []sNack
}

type sViol struct{ cat, msg string }

type sWorld struct {
	p      SPlan
	l      *netsim.Listener
	st     *sStore
	cls    []*sCl
	qs     map[string]*sQueue
	msgs   map[string]*sMsg
	nuid   int
	nrec   int
	viol   *sViol
	step   int
	served chan struct{}
	trace  []string

	// statistics
	deliveries, restarts, redeliv, errs, commits, ends, topicN, receipts, reuse, inflight int
	redelivered                                                                           map[string]int
}

func (w *sWorld) fail(cat, f string, a ...any) {
	if w.viol == nil {
		w.viol = &sViol{cat, fmt.Sprintf("step %d: ", w.step) + fmt.Sprintf(f, a...)}
	}
}

func (w *sWorld) q(d string) *sQueue {
	q := w.qs[d]
	if q == nil {
		q = &sQueue{}
		w.qs[d] = q
	}
	return q
}

func isQueue(d string) bool { return strings.HasPrefix(d, "/queue") }

func (w *sWorld) settle() {
	w.p.Sched.Disarm()
	s := w.p.Sched
	s.Seed += uint64(w.step) * 7919
	s.Arm()
	time.Sleep(sSettle)
}

func (w *sWorld) connect(i int) *sCl {
	if c := w.cls[i]; c != nil {
		return c
	}
	ver := "1." + itoa(w.p.Vers[i])
	var up netsim.Link
	if i < len(w.p.Up) {
		up.Chunks = w.p.Up[i]
	}
	c := &sCl{n: i, ver: ver, txs: map[string][]SOp{}, ids: map[string]bool{}}
	c.raw = dialRaw(w.l, up, netsim.Link{}, "c"+itoa(i))
	c.raw.send(wire.F("CONNECT", "accept-version", ver, "host", "h"))
	w.settle()
	fs, end := c.raw.frames()
	if end || len(fs) != 1 || fs[0].Cmd != "CONNECTED" || fs[0].Get("version") != ver {
		w.fail("connect", "client %d was not connected: %v", i, fs)
	}
	c.seen = len(fs)
	w.cls[i] = c
	return c
}

func (w *sWorld) id(i int) string   { return string(w.p.Ids[i%len(w.p.Ids)]) }
func (w *sWorld) dest(i int) string { return string(w.p.Dests[i%len(w.p.Dests)]) }

func (c *sCl) live(id string) *sSub {
	for _, s := range c.subs {
		if s.id == id && !s.dead && !s.ending {
			return s
		}
	}
	return nil
}

func (c *sCl) openTxs() (names []string) {
	for n := range c.txs {
		names = append(names, n)
	}
	sort.Strings(names)
	return
}

func (c *sCl) got(m int) *sGot {
	if len(c.gots) == 0 {
		return nil
	}
	return c.gots[len(c.gots)-1-m%len(c.gots)]
}

// badFrame builds a frame that the server has to reject in the state c.
func (w *sWorld) badFrame(c *sCl, o SOp) wire.Frame {
	known := ""
	for n := range c.txs {
		if known == "" || n < known {
			known = n
		}
	}
	var livesub *sSub
	for _, s := range c.subs {
		if !s.dead && !s.ending {
			livesub = s
			break
		}
	}
	switch o.Bad % 26 {
	case 0:
		return wire.F("SEND", "x", "y").WithBody([]byte("b"))
	case 1:
		return wire.F("SUBSCRIBE", "destination", w.dest(o.D))
	case 2:
		return wire.F("SUBSCRIBE", "id", "fresh")
	case 3:
		return wire.F("SUBSCRIBE", "id", "fresh", "destination", w.dest(o.D), "ack", []string{"", "Auto", "client-", "clientindividual", "auto "}[o.M%5])
	case 4:
		if livesub != nil {
			d := livesub.dest
			if o.M%2 == 0 {
				d = w.dest(o.D)
			}
			return wire.F("SUBSCRIBE", "id", livesub.id, "destination", d, "ack", "auto")
		}
		return wire.F("UNSUBSCRIBE", "id", "nobody")
	case 5:
		return wire.F("UNSUBSCRIBE", "id", "nobody")
	case 6:
		return wire.F("UNSUBSCRIBE", "destination", w.dest(o.D))
	case 7:
		return wire.F("ACK", "subscription", "x")
	case 8:
		return wire.F("NACK", "subscription", "x")
	case 9:
		return wire.F("BEGIN")
	case 10:
		if known != "" {
			return wire.F("BEGIN", "transaction", known)
		}
		return wire.F("COMMIT")
	case 11:
		return wire.F("COMMIT")
	case 12:
		return wire.F("ABORT")
	case 13:
		return wire.F("COMMIT", "transaction", "never")
	case 14:
		return wire.F("ABORT", "transaction", "never")
	case 15:
		return wire.F("SEND", "destination", w.dest(o.D), "transaction", "never").WithBody([]byte("b"))
	case 16:
		return w.bogusAck(c, "ACK").With("transaction", "never")
	case 17:
		return w.bogusAck(c, "NACK").With("transaction", "never")
	case 18:
		return wire.F("CONNECT", "accept-version", "1.2", "host", "h")
	case 19:
		return wire.F("STOMP", "accept-version", "1.2", "host", "h")
	case 20:
		return wire.F("MESSAGE", "destination", w.dest(o.D), "message-id", "1", "subscription", "1")
	case 21:
		return wire.F("RECEIPT", "receipt-id", "1")
	case 22:
		return wire.F("ERROR", "message", "m")
	case 23:
		return wire.F("CONNECTED", "version", "1.2")
	case 24:
		// a transaction of another client
		for _, d := range w.cls {
			if d == nil || d == c {
				continue
			}
			var names []string
			for n := range d.txs {
				if _, mine := c.txs[n]; !mine {
					names = append(names, n)
				}
			}
			sort.Strings(names)
			if len(names) > 0 {
				return wire.F("COMMIT", "transaction", names[0])
			}
		}
		return wire.F("COMMIT", "transaction", "never")
	default:
		// a subscription of another client
		for _, d := range w.cls {
			if d == nil || d == c {
				continue
			}
			for _, s := range d.subs {
				if !s.dead && c.live(s.id) == nil {
					return wire.F("UNSUBSCRIBE", "id", s.id)
				}
			}
		}
		return wire.F("UNSUBSCRIBE", "id", "nobody")
	}
}

func (w *sWorld) bogusAck(c *sCl, cmd string) wire.Frame {
	if c.ver == "1.2" {
		return wire.F(cmd, "id", "987654321")
	}
	return wire.F(cmd, "subscription", "s", "message-id", "987654321")
}

func ackFrame(ver, cmd string, g *sGot) wire.Frame {
	if ver == "1.2" {
		return wire.F(cmd, "id", g.ackId)
	}
	return wire.F(cmd, "subscription", g.sub.id, "message-id", g.msgId)
}

// apply performs an operation on the model and returns the frame to send; ok is
// false when the operation makes no sense now and is left out.
func (w *sWorld) apply(c *sCl, o SOp, burst bool) (f wire.Frame, ok bool) {
	var exp sExpect
	reject := false
	tx := ""
	if o.TX > 0 && (o.K == "send" || o.K == "ack" || o.K == "nack") {
		tx = w.txNames()[o.TX%len(sTxs)]
		if _, open := c.txs[tx]; !open && !c.over {
			// any open one
			tx = ""
			if names := c.openTxs(); len(names) > 0 {
				tx = names[o.TX%len(names)]
			}
		}
	}
	switch o.K {
	case "send":
		w.nuid++
		uid := "u" + itoa(w.nuid)
		d := w.dest(o.D)
		f = wire.F("SEND", "destination", d)
		f.H = append(f.H, o.H...)
		f = f.With("x-uid", uid).WithBody(o.B.Bytes())
		if o.CL || bytes.IndexByte(f.Body, 0) >= 0 {
			f = f.With("content-length", itoa(len(f.Body)))
		}
		m := &sMsg{uid: uid, dest: d, f: f}
		w.msgs[uid] = m
		if !c.over {
			if tx != "" {
				o.M = w.nuid
				c.txs[tx] = append(c.txs[tx], o)
			} else {
				w.publish(m)
			}
		}
	case "sub":
		id, d := w.id(o.ID), w.dest(o.D)
		if c.live(id) != nil {
			return f, false
		}
		f = wire.F("SUBSCRIBE", "id", id, "destination", d)
		ack := sAcks[o.Ack%len(sAcks)]
		if ack != "" {
			f = f.With("ack", ack)
		} else {
			ack = "auto"
		}
		f.H = append(f.H, o.H...)
		if !c.over {
			for _, s := range c.subs {
				if s.id == id {
					w.reuse++
					break
				}
			}
			s := &sSub{cl: c, id: id, dest: d, ack: ack, queue: isQueue(d)}
			c.subs = append(c.subs, s)
		}
		if burst && o.R == 0 {
			o.R = 1
		}
	case "unsub":
		s := c.live(w.id(o.ID))
		if s == nil {
			return f, false
		}
		f = wire.F("UNSUBSCRIBE", "id", s.id)
		if !c.over {
			w.endSub(s)
			exp.sub = s
		}
		if burst && o.R == 0 {
			o.R = 1
		}
	case "ack", "nack":
		cmd := strings.ToUpper(o.K)
		g := c.got(o.M)
		if o.Bad == 1 {
			f = w.bogusAck(c, cmd)
			g = nil
		} else if g == nil || c.ver == "1.2" && g.ackId == "" {
			return f, false
		} else {
			f = ackFrame(c.ver, cmd, g)
		}
		f.H = append(f.H, o.H...)
		if !c.over && g != nil {
			if tx != "" {
				o.M = len(c.gots) - 1 - o.M%len(c.gots) // absolute
				c.txs[tx] = append(c.txs[tx], o)
			} else {
				w.settleMsg(c, g, o.K)
			}
		}
	case "begin":
		n := w.txNames()[1+o.TX%(len(sTxs)-1)]
		if _, open := c.txs[n]; open {
			return f, false
		}
		f = wire.F("BEGIN", "transaction", n)
		if !c.over {
			c.txs[n] = nil
		}
	case "commit", "abort":
		names := c.openTxs()
		if len(names) == 0 {
			return f, false
		}
		n := names[o.TX%len(names)]
		f = wire.F(strings.ToUpper(o.K), "transaction", n)
		if !c.over {
			ops := c.txs[n]
			delete(c.txs, n)
			if o.K == "commit" {
				if len(ops) > 0 {
					w.commits++
				}
				for _, x := range ops {
					if x.K == "send" {
						w.publish(w.msgs["u"+itoa(x.M)])
					} else {
						w.settleMsg(c, c.gots[x.M], x.K)
					}
				}
			}
		}
	case "disc":
		f = wire.F("DISCONNECT")
		if !c.over {
			exp.disc = true
		}
	case "bad":
		f = w.badFrame(c, o)
		reject = true
	case "beat":
		return wire.Frame{}, true
	default:
		return f, false
	}
	if tx != "" {
		f = f.With("transaction", tx)
	}
	if o.R > 0 {
		w.nrec++
		exp.has = true
		switch o.R {
		case 1:
			exp.receipt = "r" + itoa(w.nrec)
		case 2:
			exp.receipt = "again"
		default:
			exp.receipt = strings.ReplaceAll(sOdd[o.R%len(sOdd)], "#", itoa(w.nrec))
		}
		if o.RF {
			f.H = append([]KV{{"receipt", Str(exp.receipt)}}, f.H...)
		} else {
			f = f.With("receipt", exp.receipt)
		}
	}
	if c.over {
		return f, true
	}
	exp.err = reject
	if reject || exp.has || exp.disc {
		c.expect = append(c.expect, exp)
	}
	if reject || exp.disc {
		c.over = true
		c.ended = true
		if reject {
			w.errs++
		}
	}
	return f, true
}

func (w *sWorld) publish(m *sMsg) {
	if isQueue(m.dest) {
		q := w.q(m.dest)
		q.arrive = append(q.arrive, m)
		return
	}
	for _, c := range w.cls {
		if c == nil {
			continue
		}
		for _, s := range c.subs {
			if s.dest == m.dest && !s.dead && !s.ending {
				s.exp = append(s.exp, m)
			}
		}
	}
}

func (w *sWorld) settleMsg(c *sCl, g *sGot, k string) {
	if g.sub.pend != g.m || g.sub.pendId != g.msgId {
		return
	}
	g.sub.pend = nil
	if k == "nack" {
		q := w.q(g.m.dest)
		q.ret = append(q.ret, g.m)
		q.nacks = append(q.nacks, sNack{g.m, g.sub})
	}
}

func (w *sWorld) endSub(s *sSub) {
	s.ending = true
	if s.queue {
		w.q(s.dest).retired++
	}
}

// endClient is applied after the burst: subscriptions end, what is pending returns.
func (w *sWorld) endClient(c *sCl) {
	w.ends++
	for _, s := range c.subs {
		if !s.dead && !s.ending {
			w.endSub(s)
		}
		if s.pend != nil {
			q := w.q(s.dest)
			q.ret = append(q.ret, s.pend)
			s.pend = nil
		}
	}
	c.txs = map[string][]SOp{}
}

// restart ends the server, and starts another one on a copy of what the storage holds.
func (w *sWorld) restart(st SStep) {
	for _, c := range w.cls {
		if c != nil {
			c.raw.close()
			c.silent, c.ended, c.over = true, true, true
			w.endClient(c)
		}
	}
	w.settle()
	w.reconcile(st)
	clear(w.cls)
	if w.viol != nil || w.st == nil || len(w.st.fails) > 0 {
		return
	}
	w.restarts++
	old := w.st
	stopServer(w.l, old)
	w.st = newStore()
	w.st.calls = old.calls
	for q, l := range old.model {
		if q == sExit {
			continue
		}
		for _, f := range l {
			f = f.Clone()
			w.st.model[q] = append(w.st.model[q], f)
		}
	}
	w.l = netsim.NewListener()
	startServer(&server.Server{Log: quiet{}, QueueStorage: w.st}, w.l)
}

func (w *sWorld) exec(st SStep) {
	if st.End == "restart" {
		w.restart(st)
		return
	}
	if st.Idle > 0 {
		w.p.Sched.Disarm()
		time.Sleep(time.Duration(st.Idle) * time.Second)
	}
	c := w.connect(st.C % len(w.cls))
	if w.viol != nil {
		return
	}
	abrupt := st.End == "close" || st.End == "reset"
	var fs []wire.Frame
	if !abrupt {
		for _, o := range st.Ops {
			if f, ok := w.apply(c, o, len(st.Ops) > 1); ok {
				fs = append(fs, f)
			}
		}
	}
	c.raw.send(fs...)
	switch st.End {
	case "close":
		c.raw.close()
		c.silent, c.ended, c.over = true, true, true
	case "reset":
		c.raw.c.Reset()
		c.silent, c.ended, c.over = true, true, true
	case "half":
		c.raw.c.CloseWrite()
		c.ended, c.over = true, true
	case "trunc":
		b := wire.Encode(wire.F("SEND", "destination", w.dest(0), "content-length", "10").WithBody([]byte("0123456789")))
		_, _ = c.raw.c.Write(b[:len(b)-1-len(st.Ops)%12])
		c.raw.c.CloseWrite()
		c.ended, c.over = true, true
	case "garbage":
		_, _ = c.raw.c.Write([]byte("NOT A FRAME\n\n\x00"))
		c.ended, c.over = true, true
	}
	if c.ended {
		w.endClient(c)
	}
	w.settle()
	w.reconcile(st)
	if c.ended {
		c.raw.close()
		w.cls[c.n] = nil
	}
}

func (w *sWorld) reconcile(st SStep) {
	for _, c := range w.cls {
		if c != nil && w.viol == nil {
			w.frames(c, st)
		}
	}
	if w.viol != nil {
		return
	}
	w.topics()
	w.queues()
	for _, c := range w.cls {
		if c == nil {
			continue
		}
		c.expect = nil
		for _, s := range c.subs {
			s.got, s.exp = nil, nil
			if s.ending {
				s.ending, s.dead = false, true
			}
		}
	}
}

// frames checks what a client received in this step and records the deliveries.
func (w *sWorld) frames(c *sCl, st SStep) {
	all, end := c.raw.frames()
	if c.silent {
		return
	}
	fs := all[c.seen:]
	c.seen = len(all)
	if c.raw.bad == wire.Malformed {
		w.fail("content", "client %d received something that is not STOMP after %v", c.n, fs)
		return
	}
	exp := c.expect
	discDone := false
	for _, f := range fs {
		switch f.Cmd {
		case "MESSAGE":
			if discDone {
				w.fail("afterdisc", "client %d received %v after the answer to its DISCONNECT", c.n, f)
				return
			}
			w.message(c, f)
			if w.viol != nil {
				return
			}
		case "RECEIPT":
			if len(exp) == 0 || exp[0].err || !exp[0].has {
				w.fail("receipt", "client %d received an unexpected %v (expected next: %v)", c.n, f, exp)
				return
			}
			if got := f.Get("receipt-id"); got != exp[0].receipt {
				w.fail("receipt", "client %d received %v, expected receipt %q", c.n, f, exp[0].receipt)
				return
			}
			w.receipts++
			if exp[0].sub != nil {
				exp[0].sub.dead = true
			}
			discDone = exp[0].disc
			exp = exp[1:]
		case "ERROR":
			if st.End == "garbage" && c.ended && len(exp) == 0 {
				continue
			}
			if len(exp) == 0 || !exp[0].err {
				w.fail("error", "client %d received an unexpected %v", c.n, f)
				return
			}
			got, has := f.Lookup("receipt-id")
			if has != exp[0].has || got != exp[0].receipt {
				w.fail("error", "client %d: ERROR %v, the rejected frame asked for receipt %q (%v)", c.n, f, exp[0].receipt, exp[0].has)
				return
			}
			exp = exp[1:]
			discDone = true // nothing may follow
		default:
			w.fail("error", "client %d received %v", c.n, f)
			return
		}
	}
	if len(exp) == 1 && exp[0].disc && !exp[0].has {
		exp = nil
	}
	if len(exp) > 0 {
		cat := "receipt"
		if exp[0].err {
			cat = "error"
		}
		w.fail(cat, "client %d: expected %+v, which never came; received %v, connection ended: %v", c.n, exp[0], fs, end)
		return
	}
	if c.ended != end {
		w.fail("close", "client %d: connection ended: %v, expected: %v (received %v)", c.n, end, c.ended, fs)
	}
}

var sReserved = map[string]bool{"subscription": true, "message-id": true, "ack": true, "id": true, "receipt": true, "transaction": true, "content-length": true}

func headersOf(f wire.Frame) map[string][]string {
	r := map[string][]string{}
	for _, e := range f.H {
		if k := string(e.K); !sReserved[k] {
			r[k] = append(r[k], string(e.V))
		}
	}
	return r
}

// sameMessage compares a MESSAGE with the SEND it stems from.
func sameMessage(sent, got wire.Frame) string {
	a, b := headersOf(sent), headersOf(got)
	for k, v := range a {
		if fmt.Sprintf("%q", v) != fmt.Sprintf("%q", b[k]) {
			return fmt.Sprintf("header %q was sent as %q and arrived as %q", k, v, b[k])
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			return fmt.Sprintf("header %q:%q was never sent", k, v)
		}
	}
	if !bytes.Equal(sent.Body, got.Body) {
		return fmt.Sprintf("body of %d bytes %s arrived as %d bytes %s", len(sent.Body), clipB(sent.Body), len(got.Body), clipB(got.Body))
	}
	if v, ok := got.Lookup("content-length"); ok && v != itoa(len(got.Body)) {
		return "content-length " + v
	}
	return ""
}

func (w *sWorld) message(c *sCl, f wire.Frame) {
	id := f.Get("subscription")
	var s *sSub
	for _, x := range c.subs {
		if x.id == id && !x.dead {
			s = x
			break
		}
	}
	if s == nil {
		w.fail("scope", "client %d received %v, it has no such subscription", c.n, f)
		return
	}
	m := w.msgs[f.Get("x-uid")]
	if m == nil {
		w.fail("content", "client %d received %v, which was never sent", c.n, f)
		return
	}
	if m.dest != s.dest {
		w.fail("scope", "client %d: subscription %q of %q received %v", c.n, id, s.dest, f)
		return
	}
	if d := sameMessage(m.f, f); d != "" {
		w.fail("content", "client %d: message %s: %s (%v)", c.n, m.uid, d, f)
		return
	}
	mid, ok := f.Lookup("message-id")
	if !ok || mid == "" || c.ids[mid] {
		w.fail("content", "client %d: message-id %q is missing or not unique: %v", c.n, mid, f)
		return
	}
	c.ids[mid] = true
	for _, k := range []string{"subscription", "message-id", "destination", "ack"} {
		if n := len(f.All(k)); n > 1 || n == 0 && k != "ack" {
			w.fail("content", "client %d: %d %s headers: %v", c.n, n, k, f)
			return
		}
	}
	ack := f.Get("ack")
	if s.queue {
		if s.ack != "auto" {
			if s.pend != nil {
				w.fail("ack", "client %d: subscription %q received %v while %s awaits its acknowledgement", c.n, id, f, s.pend.uid)
				return
			}
			if c.ver == "1.2" && ack == "" {
				w.fail("ack", "client %d: no ack header: %v", c.n, f)
				return
			}
			s.pend, s.pendId = m, mid
		}
		c.gots = append(c.gots, &sGot{sub: s, m: m, msgId: mid, ackId: ack})
	}
	s.got = append(s.got, m)
	w.deliveries++
}

func uids(l []*sMsg) (r []string) {
	for _, m := range l {
		r = append(r, m.uid)
	}
	return
}

func (w *sWorld) topics() {
	for _, c := range w.cls {
		if c == nil || c.silent {
			continue
		}
		for _, s := range c.subs {
			if s.queue || len(s.got) == 0 && len(s.exp) == 0 {
				continue
			}
			short := s.ending || s.dead || c.ended
			ok := len(s.got) == len(s.exp) || short && len(s.got) < len(s.exp)
			for i := 0; ok && i < len(s.got); i++ {
				ok = s.got[i] == s.exp[i]
			}
			w.topicN += len(s.got)
			if !ok {
				w.fail("topic", "client %d: subscription %q of topic %q received %v, expected %v", c.n, s.id, s.dest, uids(s.got), uids(s.exp))
				return
			}
		}
	}
}

func (w *sWorld) queues() {
	var names []string
	for d := range w.qs {
		names = append(names, d)
	}
	sort.Strings(names)
	// deliveries by queue
	for _, d := range names {
		q := w.qs[d]
		rank := map[*sMsg]int{}
		for i, e := range q.wait {
			rank[e.m] = e.grp
			_ = i
		}
		top := 0
		if n := len(q.wait); n > 0 {
			top = q.wait[n-1].grp
		}
		for _, m := range q.arrive {
			top++
			rank[m] = top
		}
		returned := map[*sMsg]bool{}
		for _, m := range q.ret {
			returned[m] = true
		}
		allowed, final := map[*sMsg]int{}, map[*sMsg]string{}
		for m := range rank {
			allowed[m] = 1
		}
		for m := range returned {
			allowed[m] = 1
		}
		var ready *sSub
		var back []*sMsg
		type dl struct {
			s *sSub
			m *sMsg
		}
		var dels []dl
		for _, c := range w.cls {
			if c == nil {
				continue
			}
			for _, s := range c.subs {
				if !s.queue || s.dest != d {
					continue
				}
				for _, m := range s.got {
					dels = append(dels, dl{s, m})
					if c.ended && s.ack != "auto" {
						back = append(back, m) // never acknowledged: it returns
						allowed[m]++
						s.pend = nil
					}
				}
				if !s.dead && !s.ending && !c.ended && s.pend == nil && !c.silent {
					ready = s
				}
			}
		}
		for _, x := range dels {
			if allowed[x.m] == 0 {
				w.fail("dup", "queue %q: client %d's subscription %q received %s, which was not waiting there (delivered twice, or settled)", d, x.s.cl.n, x.s.id, x.m.uid)
				return
			}
			allowed[x.m]--
			if w.redelivered[x.m.uid]++; w.redelivered[x.m.uid] > 1 {
				w.redeliv++
			}
			if !(x.s.cl.ended && x.s.ack != "auto") {
				if final[x.m] != "" {
					w.fail("dup", "queue %q: %s was delivered to %s and to client %d's subscription %q", d, x.m.uid, final[x.m], x.s.cl.n, x.s.id)
					return
				}
				final[x.m] = fmt.Sprintf("client %d's subscription %q", x.s.cl.n, x.s.id)
			}
		}
		for _, m := range back {
			returned[m] = true
			delete(rank, m)
		}
		// order
		if q.retired == 0 {
			maxDelivered := -1 << 30
			var md *sMsg
			for _, x := range dels {
				if r, ok := rank[x.m]; ok && !returned[x.m] && r > maxDelivered {
					maxDelivered, md = r, x.m
				}
			}
			for m, r := range rank {
				if final[m] == "" && !returned[m] && r < maxDelivered {
					w.fail("order", "queue %q: %s was delivered, but %s, which is ahead of it, still waits", d, md.uid, m.uid)
					return
				}
			}
			for _, c := range w.cls {
				if c == nil {
					continue
				}
				for _, s := range c.subs {
					if !s.queue || s.dest != d {
						continue
					}
					last := -1 << 30
					for _, m := range s.got {
						if r, ok := rank[m]; ok && !returned[m] {
							if r < last {
								w.fail("order", "queue %q: client %d's subscription %q received %v, out of order", d, c.n, s.id, uids(s.got))
								return
							}
							last = r
						}
					}
				}
			}
		}
		// A rejected message is ahead of all others when its subscription becomes ready again.
		if q.retired == 0 && (w.st == nil || len(w.st.fails) == 0) {
			for _, n := range q.nacks {
				if final[n.m] == "" && !n.s.dead && !n.s.cl.ended {
					w.fail("order", "queue %q: client %d's subscription %q rejected %s, which then was not the next message", d, n.s.cl.n, n.s.id, n.m.uid)
					return
				}
			}
		}
		// what is left
		var left []sWait
		for m := range returned {
			if final[m] == "" {
				left = append(left, sWait{m, -1})
			}
		}
		nret := len(left)
		sort.Slice(left, func(i, j int) bool { return left[i].m.uid < left[j].m.uid })
		for _, e := range q.wait {
			if final[e.m] == "" && !returned[e.m] {
				left = append(left, sWait{e.m, 0})
			}
		}
		for _, m := range q.arrive {
			if final[m] == "" && !returned[m] {
				left = append(left, sWait{m, 0})
			}
		}
		fuzzy := nret
		if q.retired > 0 {
			fuzzy += q.retired
			w.inflight++
			// whichever of a group of equals was in flight
			for fuzzy > nret && fuzzy < len(left) && rank[left[fuzzy].m] == rank[left[fuzzy-1].m] {
				fuzzy++
			}
		}
		for i := range left {
			switch {
			case i < fuzzy:
				left[i].grp = 1
			default:
				r := 1
				if i > 0 {
					r = left[i-1].grp
					if i == fuzzy || rank[left[i].m] != rank[left[i-1].m] {
						r++
					}
				}
				left[i].grp = r
			}
		}
		if len(left) > 0 && ready != nil {
			w.fail("lost", "queue %q: %s should wait there, but client %d's subscription %q is ready and did not receive it (lost or stuck)", d, left[0].m.uid, ready.cl.n, ready.id)
			return
		}
		q.wait, q.arrive, q.ret, q.nacks, q.retired = left, nil, nil, nil, 0
	}
}

// storage compares what the storage holds with the model.
func (w *sWorld) storage() {
	if w.st == nil {
		return
	}
	w.st.mu.Lock()
	fails := w.st.fails
	w.st.mu.Unlock()
	if len(fails) > 0 {
		w.fail("storage", "%s", fails[0])
		return
	}
	cont := w.st.content()
	for d, q := range w.qs {
		got := cont[d]
		delete(cont, d)
		if len(got) != len(q.wait) {
			w.fail("storage", "queue %q: the storage holds %v, the model %d messages", d, got, len(q.wait))
			return
		}
		grp := map[string]int{}
		for _, e := range q.wait {
			grp[e.m.uid] = e.grp
		}
		last := 0
		for _, u := range got {
			g, ok := grp[u]
			if !ok || g < last {
				w.fail("storage", "queue %q: the storage holds %v, the model %v", d, got, waitUids(q.wait))
				return
			}
			last = g
			delete(grp, u)
		}
	}
	for d, l := range cont {
		if len(l) > 0 {
			w.fail("storage", "the storage holds %v in queue %q, the model nothing", l, d)
		}
	}
}

func waitUids(l []sWait) (r []string) {
	for _, e := range l {
		r = append(r, fmt.Sprintf("%s(%d)", e.m.uid, e.grp))
	}
	return
}

// startServer runs s on l until stopServer or for ever.
func startServer(s *server.Server, l *netsim.Listener) {
	go func() { _ = s.Serve(l) }()
}

// stopServer ends the accept loop, and the server's own goroutine if the storage is an sStore.
func stopServer(l *netsim.Listener, st *sStore) {
	if st != nil {
		r := dialRaw(l, netsim.Link{}, netsim.Link{}, "exit")
		r.send(wire.F("CONNECT", "accept-version", "1.2", "host", "h", "login", adminL, "passcode", adminP),
			wire.F("SUBSCRIBE", "id", "1", "destination", sExit, "ack", "client"),
			wire.F("SEND", "destination", sExit))
		time.Sleep(sSettle)
		r.close()
		time.Sleep(sSettle)
	}
	_ = l.Close()
	time.Sleep(time.Millisecond)
}

// runServer executes the plan; after each step hook (if any) may add checks.
func runServer(x *core.Ctx, p SPlan, hook func(w *sWorld)) (w *sWorld) {
	w = &sWorld{p: p, qs: map[string]*sQueue{}, msgs: map[string]*sMsg{}, cls: make([]*sCl, len(p.Vers)), redelivered: map[string]int{}}
	x.Bubble(func() {
		w.l = netsim.NewListener()
		s := &server.Server{Log: quiet{}}
		if !p.Nil {
			w.st = newStore()
			s.QueueStorage = w.st
		}
		startServer(s, w.l)
		for i, st := range p.Steps {
			w.step = i
			w.exec(st)
			if w.viol == nil && hook != nil {
				hook(w)
			}
			if w.viol != nil {
				break
			}
		}
		p.Sched.Disarm()
		for _, c := range w.cls {
			if c != nil {
				c.raw.close()
			}
		}
		time.Sleep(3 * time.Second)
		stopServer(w.l, w.st)
	})
	return w
}

// verdict keeps a violation if its category is one of the property's.
func (w *sWorld) verdict(cats ...string) (fail, label string) {
	if w.viol == nil {
		return "", ""
	}
	for _, c := range cats {
		if w.viol.cat == c {
			return "[" + c + "] " + w.viol.msg, ""
		}
	}
	return "", "foreign:" + w.viol.cat
}

// ---------------------------------------------------------------- generators

type sGen struct {
	clients  [2]int
	steps    [2]int
	queues   [2]int
	topics   [2]int
	acks     []int // candidates for Ack
	ops      map[string]int
	ends     map[string]int // weight out of 100 that a step is an end
	receipts int
	burst    int
	tx       int // percent of sends and acks in a transaction
	bogus    int
	big      int
	bads     []int
	restart  int // percent of the plans in which the server is started again on its storage
	pre      int // percent of clients that start with a subscription, or a transaction
}

func sortedKeys(m map[string]int) (k []string) {
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return
}

func pickMap(t *rapid.T, label string, m map[string]int) string {
	k := sortedKeys(m)
	ws := make([]int, len(k))
	for i, s := range k {
		ws[i] = m[s]
	}
	return k[pick(t, label, ws...)]
}

func genSHeaders(t *rapid.T) (h []KV) {
	for i, n := 0, pick(t, "nh", 5, 3, 2, 1); i < n; i++ {
		var k Str
		if chance(t, "plain-key", 70) {
			k = rapid.SampledFrom([]Str{"content-type", "a", "a", "b", "persistent", "x-uid2", "Destination", "heart-beat",
				"receipt-id", "version", "message", "session", "server", "host", "login", "reply-to", "expires", "redelivered"}).Draw(t, "hk")
		} else {
			k = strNasty(t, "hk", 1)
		}
		if sReserved[string(k)] || k == "destination" || k == "x-uid" {
			k += "x"
		}
		h = append(h, KV{k, strNasty(t, "hv", 0)})
	}
	if chance(t, "server's", 10) { // the server has to replace these
		for _, k := range []Str{"subscription", "message-id", "ack", "id"} {
			if chance(t, "servers", 40) {
				h = append(h, KV{k, rapid.SampledFrom([]Str{"", "1", "s1", "x"}).Draw(t, "servers-v")})
			}
		}
	}
	return
}

func genSPlan(t *rapid.T, g sGen) SPlan {
	p := SPlan{Sched: genSched(t), Nil: chance(t, "nil-storage", 15)}
	for i, n := 0, rng(t, "clients", g.clients[0], g.clients[1]); i < n; i++ {
		p.Vers = append(p.Vers, 1+rng(t, "ver", 0, 1))
		p.Up = append(p.Up, genChunks(t, "up"))
	}
	p.Dests = genDests(t, rng(t, "queues", g.queues[0], g.queues[1]), rng(t, "topics", g.topics[0], g.topics[1]))
	ids := []Str{"1", "2", "3", "0", "a:b\n"}
	if chance(t, "ids-alike", 30) {
		ids = rapid.Permutation([]Str{"1", "01", " 1", "1 ", "+1", "a", "A", "a/", "1.0", "0", "", "a:b", "a\\cb"}).Draw(t, "ids-perm")
	}
	if chance(t, "ids-long", 10) {
		pad := longPad(t)
		for i := range ids {
			ids[i] = pad + ids[i]
		}
	}
	p.Ids = ids[:rng(t, "ids", 1, 5)]
	if g.ops["begin"] > 0 && chance(t, "tx-alike", 35) {
		p.TxAlike = 1 + uni(t, "tx-names", 4)
	}
	for i := range p.Vers {
		if chance(t, "pre", g.pre) {
			st := SStep{C: i, Ops: []SOp{{K: "sub", D: rng(t, "d", 0, len(p.Dests)-1), Ack: g.acks[rng(t, "ack", 0, len(g.acks)-1)]}}}
			if g.ops["begin"] > 10 {
				st.Ops = append(st.Ops, SOp{K: "begin", TX: rng(t, "tx", 0, 2)})
			}
			p.Steps = append(p.Steps, st)
		}
	}
	for i, n := 0, rng(t, "steps", g.steps[0], g.steps[1]); i < n; i++ {
		st := SStep{C: rng(t, "c", 0, len(p.Vers)-1)}
		if len(g.ends) > 0 {
			st.End = pickMap(t, "end", g.ends)
		}
		nops := 1
		if chance(t, "burst", g.burst) {
			nops = rng(t, "nops", 2, 7)
		}
		if st.End != "" {
			nops = 0
			if chance(t, "end-ops", 40) {
				nops = rng(t, "nops", 1, 3)
			}
		}
		for j := 0; j < nops; j++ {
			o := SOp{K: pickMap(t, "op", g.ops), D: rng(t, "d", 0, len(p.Dests)-1)}
			if chance(t, "rcpt", g.receipts) {
				o.R, o.RF = 1+pick(t, "rkind", 6, 2, 2), chance(t, "rfirst", 30)
				if o.R == 3 {
					o.R += rng(t, "rodd", 0, len(sOdd)-1)
				}
			}
			switch o.K {
			case "send":
				o.H = genSHeaders(t)
				o.B = genBody(t, "body", 300)
				if g.big > 0 && chance(t, "big", g.big) {
					o.B = Body{N: sizeNear(t, "big", 70000), Seed: 3}
				}
				o.CL = chance(t, "cl", 50)
				if chance(t, "in-tx", g.tx) {
					o.TX = rng(t, "tx", 1, 3)
				}
			case "sub":
				o.ID = rng(t, "id", 0, len(p.Ids)-1)
				o.Ack = g.acks[rng(t, "ack", 0, len(g.acks)-1)]
			case "unsub":
				o.ID = rng(t, "id", 0, len(p.Ids)-1)
			case "ack", "nack":
				o.M = pick(t, "m", 10, 4, 2, 1)
				if chance(t, "bogus", g.bogus) {
					o.Bad = 1
				}
				if chance(t, "in-tx", g.tx) {
					o.TX = rng(t, "tx", 1, 3)
				}
			case "begin", "commit", "abort":
				o.TX = rng(t, "tx", 0, 2)
			case "bad":
				o.Bad, o.M = rng(t, "bad", 0, 25), rng(t, "m", 0, 5)
				if len(g.bads) > 0 {
					o.Bad = rapid.SampledFrom(g.bads).Draw(t, "bad-kind")
				}
			}
			st.Ops = append(st.Ops, o)
		}
		p.Steps = append(p.Steps, st)
		if chance(t, "idle", 5) { // without heart-beats, time does not matter
			p.Steps = append(p.Steps, SStep{C: st.C, Idle: rapid.SampledFrom([]int{1, 61, 301, 4000, 100000, 40000000}).Draw(t, "idle-s")})
		}
		if g.restart > 0 && chance(t, "restart", g.restart) {
			p.Steps = append(p.Steps, SStep{End: "restart"})
		}
	}
	return p
}
