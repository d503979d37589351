package props

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/go-stomp/stomp/v3/server"
	"pgregory.net/rapid"

	"verif.local/harness/core"
	"verif.local/harness/netsim"
	"verif.local/harness/wire"
)

// The free server world: several raw clients run their programs concurrently, nothing
// waits for anything to settle, connections end at any moment. At the end everybody
// leaves, one client drains all queues, and the whole history is judged.

type FOp struct {
	K  string `json:"k"` // send, sub, unsub, tx, stall, go, end, wait
	D  int    `json:"d,omitempty"`
	ID int    `json:"id,omitempty"`
	N  int    `json:"n,omitempty"`
	Us int    `json:"us,omitempty"`
	R  bool   `json:"r,omitempty"`
	A  int    `json:"a,omitempty"` // ack mode of sub; 1: abort, 2: leave open for tx
	B  int    `json:"b,omitempty"` // body size
	X  string `json:"x,omitempty"` // how to end
}

type FClient struct {
	Ver    int   `json:"ver"`
	Up     []int `json:"up,omitempty"`
	DownC  int   `json:"down_cap,omitempty"`
	UpC    int   `json:"up_cap,omitempty"`
	Prog   []FOp `json:"prog"`
	AckUs  int   `json:"ack_us,omitempty"`
	Nack   int   `json:"nack,omitempty"` // percent
	Hold   int   `json:"hold,omitempty"` // percent never answered
	AckR   int   `json:"ack_r,omitempty"`
	Abrupt bool  `json:"abrupt,omitempty"`
}

type FPlan struct {
	Clients []FClient  `json:"clients"`
	Dests   []Str      `json:"dests"`
	Nil     bool       `json:"nil,omitempty"`
	Drain   int        `json:"drain"`
	Sched   core.Sched `json:"sched"`
}

const fTol = 200 * time.Millisecond

type fSub struct {
	inc    *fInc
	id     string
	dest   string
	ack    string
	subAt  time.Duration // SUBSCRIBE issued
	onAt   time.Duration // its receipt arrived; -1
	offAt  time.Duration // UNSUBSCRIBE issued; -1
	goneAt time.Duration // its receipt arrived; -1
	got    []*fDel
}

type fDel struct {
	sub       *fSub
	m         *fMsg
	at        time.Duration
	acked     bool
	nacked    bool
	confirmed bool // the answer was confirmed
	confAt    time.Duration
	msgId     string
	ackId     string
}

type fMsg struct {
	uid    string
	dest   string
	body   []byte
	seq    int // order of issue within the client
	inc    *fInc
	at     time.Duration // issued (or COMMIT issued)
	sure   bool          // accepted for certain
	never  bool          // must not appear
	tx     int           // transaction number, 0: none
	dels   []*fDel
	gone   int // written as a whole to clients with automatic subscriptions that left without reading it
	sentAt time.Duration
}

// fInc is one connection of a client.
type fInc struct {
	w      *fWorld
	c      *FClient
	ci     int
	n      int
	raw    *rawClient
	lock   chan struct{}
	subs   []*fSub
	rcpt   map[string]func(at time.Duration)
	asked  map[string]time.Duration
	ids    map[string]bool
	ended  bool // the harness ends (or has ended) it
	endAt  time.Duration
	abrupt bool
	disc   bool
	seen   int
	stalls bool
	msgs   []*fMsg
	wire   []*fMsg // sends outside transactions not yet known to be accepted
}

type fWorld struct {
	p     FPlan
	l     *netsim.Listener
	st    *sStore
	t0    time.Time
	incs  []*fInc
	msgs  map[string]*fMsg
	all   []*fMsg
	nuid  int
	nrec  int
	ntx   int
	viol  *sViol
	txs   map[int][]*fMsg
	txEnd map[int]string // commit, abort, open
	tick  chan struct{}
}

func (w *fWorld) fail(cat, f string, a ...any) {
	if w.viol == nil {
		w.viol = &sViol{cat, fmt.Sprintf("at %v: ", time.Since(w.t0)) + fmt.Sprintf(f, a...)}
	}
}

func (w *fWorld) now() time.Duration { return time.Since(w.t0) }

// lock guards the world. Goroutines that wait for it stay durably blocked.
func (w *fWorld) enter() { w.tick <- struct{}{} }
func (w *fWorld) leave() { <-w.tick }

func (w *fWorld) dial(ci int, c *FClient) *fInc {
	i := &fInc{w: w, c: c, ci: ci, lock: make(chan struct{}, 1), rcpt: map[string]func(time.Duration){}, asked: map[string]time.Duration{}, ids: map[string]bool{}}
	i.n = len(w.incs)
	i.raw = dialRaw(w.l, netsim.Link{Cap: c.UpC, Chunks: c.Up}, netsim.Link{Cap: c.DownC, Keep: true}, fmt.Sprintf("c%d", ci))
	i.raw.on = i.frame
	w.incs = append(w.incs, i)
	return i
}

// write sends frames as a unit.
func (i *fInc) write(fs ...wire.Frame) {
	i.lock <- struct{}{}
	defer func() { <-i.lock }()
	i.raw.send(fs...)
}

// frame is called by the reading goroutine.
func (i *fInc) frame(f wire.Frame, _ time.Time) {
	w := i.w
	w.enter()
	defer w.leave()
	at := w.now()
	switch f.Cmd {
	case "", "CONNECTED":
	case "RECEIPT":
		id := f.Get("receipt-id")
		cb, ok := i.rcpt[id]
		if !ok {
			w.fail("receipt", "client %d received an unexpected %v", i.ci, f)
			return
		}
		delete(i.rcpt, id)
		if cb != nil {
			cb(at)
		}
	case "MESSAGE":
		i.message(f, at)
	default:
		w.fail("error", "client %d received %v", i.ci, f)
	}
}

func (i *fInc) message(f wire.Frame, at time.Duration) {
	w := i.w
	m := w.msgs[f.Get("x-uid")]
	if m == nil {
		w.fail("content", "client %d received %v, which was never sent", i.ci, f)
		return
	}
	if f.Get("destination") != m.dest || !bytes.Equal(f.Body, m.body) || f.Get("x-a") != "1:"+m.uid {
		w.fail("content", "client %d received %v, the message had destination %q and a body of %d bytes", i.ci, f, m.dest, len(m.body))
		return
	}
	mid := f.Get("message-id")
	if mid == "" || i.ids[mid] {
		w.fail("content", "client %d: message-id %q is missing or not unique", i.ci, mid)
		return
	}
	i.ids[mid] = true
	var s *fSub
	for _, x := range i.subs {
		if x.id == f.Get("subscription") && x.goneAt < 0 {
			s = x
			break
		}
	}
	if s == nil || s.dest != m.dest {
		w.fail("scope", "client %d received %v, it has no such subscription", i.ci, f)
		return
	}
	d := &fDel{sub: s, m: m, at: at, msgId: mid, ackId: f.Get("ack")}
	q := isQueue(s.dest)
	if q && s.ack != "auto" {
		if n := len(s.got); n > 0 && !s.got[n-1].acked && !s.got[n-1].nacked {
			w.fail("ack", "client %d: subscription %q received %s while %s awaits its acknowledgement", i.ci, s.id, m.uid, s.got[n-1].m.uid)
			return
		}
	}
	s.got = append(s.got, d)
	m.dels = append(m.dels, d)
	if !q || s.ack == "auto" {
		return
	}
	x := (uint64(len(m.uid))*31 + uint64(m.seq)*2654435761 + uint64(m.inc.n)*40503 + uint64(len(m.dels))*7919) >> 3
	switch {
	case int(x%100) < i.c.Hold:
		return
	case int(x/100%100) < i.c.Nack && len(m.dels) < 4:
		i.answer(d, true, x)
	default:
		i.answer(d, false, x)
	}
}

// answer acknowledges or rejects a message after a while. Called inside the world.
func (i *fInc) answer(d *fDel, nack bool, x uint64) {
	w := i.w
	go func() {
		time.Sleep(time.Duration(i.c.AckUs)*time.Microsecond + time.Duration(x%7))
		w.enter()
		if i.ended {
			w.leave()
			return
		}
		cmd := "ACK"
		if nack {
			cmd = "NACK"
			d.nacked = true
		} else {
			d.acked = true
		}
		f := ackFrame("1."+itoa(i.c.Ver), cmd, &sGot{sub: &sSub{id: d.sub.id}, msgId: d.msgId, ackId: d.ackId})
		if int(x>>8%100) < i.c.AckR {
			f = f.With("receipt", w.ask(i, func(at time.Duration) { d.confirmed, d.confAt = true, at }))
		}
		w.leave()
		i.write(f)
	}()
}

// ask registers a receipt.
func (w *fWorld) ask(i *fInc, cb func(time.Duration)) string {
	w.nrec++
	id := "r" + itoa(w.nrec)
	i.rcpt[id] = cb
	i.asked[id] = w.now()
	return id
}

func (w *fWorld) newMsg(i *fInc, d string, size int) (*fMsg, wire.Frame) {
	w.nuid++
	m := &fMsg{uid: "u" + itoa(w.nuid), dest: d, inc: i, seq: len(i.msgs), at: w.now(), sentAt: w.now(), body: Body{N: size, Seed: uint32(w.nuid)}.Bytes()}
	i.msgs = append(i.msgs, m)
	w.msgs[m.uid] = m
	w.all = append(w.all, m)
	f := wire.F("SEND", "destination", d, "x-uid", m.uid, "x-a", "1:"+m.uid).WithBody(m.body)
	if size > 0 {
		f = f.With("content-length", itoa(size))
	}
	if w.nuid%9 == 4 { // the server has to replace these
		f = f.With("subscription", "s1").With("message-id", "1").With("id", "1").With("ack", "1")
	}
	return m, f
}

func (w *fWorld) run(ci int, c *FClient) {
	var i *fInc
	connect := func() {
		w.enter()
		i = w.dial(ci, c)
		w.leave()
		i.write(wire.F("CONNECT", "accept-version", "1."+itoa(c.Ver), "host", "h"))
	}
	connect()
	for _, o := range c.Prog {
		if o.Us > 0 {
			time.Sleep(time.Duration(o.Us) * time.Microsecond)
		}
		if i.ended && o.K != "end" {
			connect()
		}
		d := string(w.p.Dests[o.D%len(w.p.Dests)])
		id := "s" + itoa(o.ID)
		w.enter()
		var live *fSub
		for _, s := range i.subs {
			if s.id == id && s.offAt < 0 {
				live = s
			}
		}
		var out []wire.Frame
		switch o.K {
		case "send":
			for k := 0; k <= o.N; k++ {
				m, f := w.newMsg(i, d, o.B)
				if o.R {
					f = f.With("receipt", w.ask(i, func(time.Duration) { m.sure = true }))
				}
				i.wire = append(i.wire, m)
				out = append(out, f)
			}
		case "tx":
			w.ntx++
			n := w.ntx
			name := "t" + itoa(o.ID)
			if o.A == 2 {
				name = "open" + itoa(n)
			}
			out = append(out, wire.F("BEGIN", "transaction", name))
			for k := 0; k <= o.N; k++ {
				m, f := w.newMsg(i, string(w.p.Dests[(o.D+k)%len(w.p.Dests)]), o.B)
				m.tx = n
				m.never = o.A != 0
				w.txs[n] = append(w.txs[n], m)
				out = append(out, f.With("transaction", name))
			}
			end := wire.F("COMMIT", "transaction", name)
			switch o.A {
			case 1:
				end.Cmd = "ABORT"
			case 2:
				end.Cmd = ""
			default:
				for _, m := range w.txs[n] {
					i.wire = append(i.wire, m)
				}
				if o.R {
					end = end.With("receipt", w.ask(i, func(time.Duration) {
						for _, m := range w.txs[n] {
							m.sure = true
						}
					}))
				}
			}
			out = append(out, end)
		case "sub":
			if live != nil {
				break
			}
			s := &fSub{inc: i, id: id, dest: d, ack: []string{"auto", "client", "client-individual"}[o.A%3], subAt: w.now(), onAt: -1, offAt: -1, goneAt: -1}
			i.subs = append(i.subs, s)
			out = append(out, wire.F("SUBSCRIBE", "id", id, "destination", d, "ack", s.ack, "receipt", w.ask(i, func(at time.Duration) { s.onAt = at })))
		case "unsub":
			if live == nil {
				break
			}
			s := live
			s.offAt = w.now()
			out = append(out, wire.F("UNSUBSCRIBE", "id", id, "receipt", w.ask(i, func(at time.Duration) { s.goneAt = at })))
		case "stall":
			i.stalls = true
			w.leave()
			r := i.raw
			r.setStall(true)
			go func() { // a client that does not read cannot write for ever
				time.Sleep(time.Second)
				r.setStall(false)
			}()
			w.enter()
		case "go":
			w.leave()
			i.raw.setStall(false)
			w.enter()
		case "end":
			if i.ended {
				break
			}
			w.leave()
			w.end(i, o.X)
			w.enter()
		}
		w.leave()
		for len(out) > 0 {
			// in pieces, so that others get between them
			n := 1 + (o.Us+len(out))%3
			if n > len(out) {
				n = len(out)
			}
			i.write(out[:n]...)
			out = out[n:]
		}
	}
	i.raw.setStall(false)
}

// end ends a connection.
func (w *fWorld) end(i *fInc, how string) {
	switch how {
	case "disc":
		// orderly: everything sent so far is processed before
		w.enter()
		i.disc, i.ended, i.endAt = true, true, w.now()
		ok := false
		id := w.ask(i, func(time.Duration) {
			ok = true
			for _, m := range i.wire {
				m.sure = true
			}
		})
		for _, s := range i.subs {
			if s.offAt < 0 {
				s.offAt = w.now()
			}
		}
		w.leave()
		i.raw.setStall(false)
		i.write(wire.F("DISCONNECT", "receipt", id))
		for n := 0; n < 400; n++ {
			time.Sleep(50 * time.Millisecond)
			if _, end := i.raw.frames(); end {
				break
			}
		}
		w.enter()
		if _, end := i.raw.frames(); !ok || !end {
			w.fail("wedge", "client %d: DISCONNECT was not answered in 20 s (receipt: %v, connection ended: %v)", i.ci, ok, end)
		}
		w.leave()
		i.raw.close()
	case "half":
		w.enter()
		i.ended, i.abrupt, i.endAt = true, true, w.now()
		for _, s := range i.subs {
			if s.offAt < 0 {
				s.offAt = w.now()
			}
		}
		w.leave()
		i.raw.setStall(false)
		i.lock <- struct{}{}
		i.raw.c.CloseWrite()
		<-i.lock
		for n := 0; n < 400; n++ {
			time.Sleep(50 * time.Millisecond)
			if _, end := i.raw.frames(); end {
				break
			}
		}
		w.enter()
		if _, end := i.raw.frames(); !end {
			w.fail("wedge", "client %d: the server did not close the connection in 20 s after its end", i.ci)
		}
		w.leave()
		i.raw.close()
	default:
		w.enter()
		i.ended, i.abrupt, i.endAt = true, true, w.now()
		for _, s := range i.subs {
			if s.offAt < 0 {
				s.offAt = w.now()
			}
		}
		w.leave()
		if how == "reset" {
			i.raw.c.Reset()
		}
		i.raw.close()
	}
}

func runFree(x *core.Ctx, p FPlan) (w *fWorld) {
	w = &fWorld{p: p, msgs: map[string]*fMsg{}, txs: map[int][]*fMsg{}, tick: make(chan struct{}, 1)}
	x.Bubble(func() {
		w.t0 = time.Now()
		w.l = netsim.NewListener()
		s := &server.Server{Log: quiet{}}
		if !p.Nil {
			w.st = newStore()
			s.QueueStorage = w.st
		}
		p.Sched.Arm()
		startServer(s, w.l)
		done := make(chan struct{}, len(p.Clients))
		for ci := range p.Clients {
			go func() {
				defer func() { done <- struct{}{} }()
				w.run(ci, &p.Clients[ci])
			}()
		}
		limit := time.NewTimer(300 * time.Second)
		finished := true
		for range p.Clients {
			select {
			case <-done:
			case <-limit.C:
				finished = false
			}
		}
		time.Sleep(2 * time.Second)
		w.enter()
		if !finished {
			w.fail("wedge", "a client could not write for 300 s, although everybody reads")
		}
		live := []*fInc{}
		for _, i := range w.incs {
			if i.ended {
				continue
			}
			live = append(live, i)
			if _, end := i.raw.frames(); end {
				w.fail("close", "client %d: the server closed the connection", i.ci)
			}
			if len(i.rcpt) > 0 {
				var ids []string
				for id := range i.rcpt {
					ids = append(ids, id)
				}
				sort.Strings(ids)
				w.fail("wedge", "client %d: receipt %s was asked for at %v and has not come", i.ci, ids[0], i.asked[ids[0]])
			}
			for _, m := range i.wire {
				m.sure = true
			}
			for _, s := range i.subs {
				for _, d := range s.got {
					if d.acked || d.nacked {
						if !d.confirmed {
							d.confirmed, d.confAt = true, w.now()
						}
					}
				}
			}
		}
		w.leave()
		if w.viol == nil {
			// everybody leaves, in various ways; then everything is drained
			hows := []string{"disc", "close", "half", "reset"}
			n := 0
			for k, i := range live {
				n++
				go func() {
					how := hows[(k+p.Drain)%4]
					w.end(i, how)
					done <- struct{}{}
				}()
			}
			for ; n > 0; n-- {
				<-done
			}
			time.Sleep(sSettle)
		}
		if w.viol == nil {
			w.drain()
		}
		p.Sched.Disarm()
		for _, i := range w.incs {
			i.raw.close()
		}
		time.Sleep(time.Second)
		stopServer(w.l, w.st)
	})
	return w
}

func (w *fWorld) drain() {
	c := &FClient{Ver: 1 + w.p.Drain%2, AckR: 100}
	w.enter()
	i := w.dial(-1, c)
	w.leave()
	i.write(wire.F("CONNECT", "accept-version", "1."+itoa(c.Ver), "host", "h"))
	w.enter()
	var out []wire.Frame
	var pings []*fMsg
	for k, d := range w.p.Dests {
		s := &fSub{inc: i, id: "d" + itoa(k), dest: string(d), ack: []string{"auto", "client"}[w.p.Drain/2%2], onAt: -1, offAt: -1, goneAt: -1, subAt: w.now()}
		i.subs = append(i.subs, s)
		out = append(out, wire.F("SUBSCRIBE", "id", s.id, "destination", s.dest, "ack", s.ack, "receipt", w.ask(i, func(at time.Duration) { s.onAt = at })))
	}
	w.leave()
	i.write(out...)
	time.Sleep(2 * time.Second)
	w.enter()
	out = nil
	for _, d := range w.p.Dests {
		m, f := w.newMsg(i, string(d), 3)
		m.sure = true
		pings = append(pings, m)
		out = append(out, f)
	}
	w.leave()
	i.write(out...)
	time.Sleep(2 * time.Second)
	w.enter()
	defer w.leave()
	if w.viol != nil {
		return
	}
	if _, end := i.raw.frames(); end || len(i.rcpt) > 0 {
		w.fail("wedge", "the last client: connection ended: %v, %d receipts are missing", end, len(i.rcpt))
		return
	}
	for _, m := range pings {
		if len(m.dels) != 1 {
			w.fail("wedge", "after all clients had left, %s is not served any more: a message for a fresh subscriber was delivered %d times", m.dest, len(m.dels))
			return
		}
	}
	for _, s := range i.subs {
		for _, d := range s.got {
			if !d.confirmed {
				d.confirmed, d.confAt = true, w.now()
			}
		}
	}
	w.judge()
}

// unread finds the messages that the server wrote to clients that did not read
// them. With an automatic subscription they are consumed nevertheless. A frame
// that was not written as a whole is not.
func (w *fWorld) unread() {
	for _, i := range w.incs {
		auto := map[string]bool{}
		for _, s := range i.subs {
			if s.ack == "auto" && isQueue(s.dest) {
				auto[s.id] = true
			}
		}
		if !i.ended || len(auto) == 0 {
			continue
		}
		var d wire.Decoder
		fs, _ := d.Feed(i.raw.sv.Kept())
		for _, f := range fs {
			if m := w.msgs[f.Get("x-uid")]; f.Cmd == "MESSAGE" && auto[f.Get("subscription")] && m != nil && !i.ids[f.Get("message-id")] {
				m.gone++
			}
		}
	}
}

func (w *fWorld) judge() {
	w.unread()
	for _, m := range w.all {
		if m.never && len(m.dels)+m.gone > 0 {
			w.fail("tx", "%s belongs to a transaction that was not committed, but was delivered", m.uid)
			return
		}
	}
	// an uncommitted transaction is all or nothing
	for n := 1; n <= w.ntx; n++ {
		some, none := "", ""
		for _, m := range w.txs[n] {
			if m.never || !isQueue(m.dest) {
				continue
			}
			if len(m.dels)+m.gone > 0 {
				some = m.uid
			} else {
				none = m.uid
			}
		}
		if some != "" && none != "" {
			w.fail("tx", "transaction %d: %s was delivered, %s never was", n, some, none)
			return
		}
	}
	for _, m := range w.all {
		if isQueue(m.dest) {
			w.judgeQueue(m)
		}
		if w.viol != nil {
			return
		}
	}
	w.judgeTopics()
	if w.viol == nil {
		w.judgeOrder()
	}
}

func (w *fWorld) judgeQueue(m *fMsg) {
	final, open, maybe := 0, 0, m.gone
	for _, d := range m.dels {
		i := d.sub.inc
		switch {
		case d.sub.ack == "auto", d.acked && d.confirmed:
			final++
		case d.acked && i.ended: // settled or returned
			maybe++
		case d.nacked, i.ended:
		default:
			open++
		}
	}
	desc := func() string {
		var b []string
		for _, d := range m.dels {
			b = append(b, fmt.Sprintf("client %d.%d %q %s at %v acked:%v nacked:%v confirmed:%v ended:%v", d.sub.inc.ci, d.sub.inc.n, d.sub.id, d.sub.ack, d.at, d.acked, d.nacked, d.confirmed, d.sub.inc.ended))
		}
		return strings.Join(b, "; ")
	}
	switch {
	case final+open > 1:
		w.fail("dup", "message %s of %q was consumed %d times: %s", m.uid, m.dest, final+open, desc())
	case final+open+maybe == 0 && m.sure && !m.never:
		w.fail("lost", "message %s of %q was accepted, and lost: %s", m.uid, m.dest, desc())
	case final == 1:
		// nothing is delivered after a confirmed settlement: all other deliveries must have been before
		for k, d := range m.dels {
			// (the order in which the clients read at one instant means nothing)
			if k == len(m.dels)-1 || m.dels[k+1].sub.inc.stalls || d.sub.inc.stalls {
				continue
			}
			at, i := m.dels[k+1].at, d.sub.inc
			if d.sub.ack == "auto" && at > d.at || d.acked && d.confirmed && (at > d.confAt || at > d.at && !(i.ended && i.endAt <= at)) {
				w.fail("dup", "message %s of %q was delivered again after it had been settled: %s", m.uid, m.dest, desc())
				return
			}
		}
	}
}

func (w *fWorld) judgeTopics() {
	pos := map[*fSub]map[*fMsg]int{}
	var subs []*fSub
	for _, i := range w.incs {
		for _, s := range i.subs {
			if isQueue(s.dest) {
				continue
			}
			subs = append(subs, s)
			pos[s] = map[*fMsg]int{}
			for k, d := range s.got {
				if _, twice := pos[s][d.m]; twice {
					w.fail("topic", "client %d: subscription %q of %q received %s twice", i.ci, s.id, s.dest, d.m.uid)
					return
				}
				pos[s][d.m] = k
			}
			for _, m := range w.all {
				if m.dest != s.dest || m.never {
					continue
				}
				_, got := pos[s][m]
				issued := m.at
				if !got && m.sure && s.onAt >= 0 && s.onAt < issued && s.offAt < 0 {
					w.fail("topic", "client %d: subscription %q of %q (confirmed at %v) never received %s (sent at %v)", i.ci, s.id, s.dest, s.onAt, m.uid, m.at)
					return
				}
				if got && s.goneAt >= 0 && issued > s.goneAt {
					w.fail("topic", "client %d: subscription %q of %q, which ended at %v, received %s (sent at %v)", i.ci, s.id, s.dest, s.goneAt, m.uid, m.at)
					return
				}
			}
		}
	}
	// the same order for all
	for a := range subs {
		for b := a + 1; b < len(subs); b++ {
			if subs[a].dest != subs[b].dest {
				continue
			}
			last := -1
			var lm *fMsg
			for _, d := range subs[a].got {
				if k, ok := pos[subs[b]][d.m]; ok {
					if k < last {
						w.fail("topic", "two subscriptions of %q received %s and %s in different orders", subs[a].dest, lm.uid, d.m.uid)
						return
					}
					last, lm = k, d.m
				}
			}
			// no holes: what lies between two common messages is common
			first, lastA := -1, -1
			for k, d := range subs[a].got {
				if _, ok := pos[subs[b]][d.m]; ok {
					if first < 0 {
						first = k
					}
					lastA = k
				}
			}
			for k := first; first >= 0 && k < lastA; k++ {
				if _, ok := pos[subs[b]][subs[a].got[k].m]; !ok {
					w.fail("topic", "a subscription of %q misses %s, which lies between messages it received", subs[a].dest, subs[a].got[k].m.uid)
					return
				}
			}
			first, lastB := -1, -1
			for k, d := range subs[b].got {
				if _, ok := pos[subs[a]][d.m]; ok {
					if first < 0 {
						first = k
					}
					lastB = k
				}
			}
			for k := first; first >= 0 && k < lastB; k++ {
				if _, ok := pos[subs[a]][subs[b].got[k].m]; !ok {
					w.fail("topic", "a subscription of %q misses %s, which lies between messages it received", subs[a].dest, subs[b].got[k].m.uid)
					return
				}
			}
		}
	}
}

// judgeOrder: messages of one connection keep their order at a subscription, where
// nothing was ever returned.
func (w *fWorld) judgeOrder() {
	messy := map[string]bool{}
	for _, i := range w.incs {
		for _, s := range i.subs {
			if !isQueue(s.dest) {
				continue
			}
			if i.abrupt || i.disc && i.ci >= 0 || s.offAt >= 0 {
				messy[s.dest] = true
			}
			for _, d := range s.got {
				if d.nacked || !d.acked && s.ack != "auto" {
					messy[s.dest] = true
				}
			}
		}
	}
	for _, i := range w.incs {
		for _, s := range i.subs {
			if messy[s.dest] {
				continue
			}
			last := map[*fInc]int{}
			for _, d := range s.got {
				if k, ok := last[d.m.inc]; ok && d.m.seq < k {
					w.fail("order", "client %d: subscription %q of %q received %s after a later message of the same sender", i.ci, s.id, s.dest, d.m.uid)
					return
				}
				last[d.m.inc] = d.m.seq
			}
		}
	}
}

func (w *fWorld) verdict(cats ...string) (fail, label string) {
	if w.viol == nil {
		return "", ""
	}
	for _, c := range cats {
		if w.viol.cat == c {
			return "[" + c + "] " + w.viol.msg, ""
		}
	}
	return "", "foreign:" + w.viol.cat
}

// ---------------------------------------------------------------- generator

type fGen struct {
	clients, queues, topics, n [2]int
	acks                       []int
	ops                        map[string]int
	abrupt                     int // percent of clients
	ends                       []string
	nack, hold                 int
	stall                      int
	big                        int
	unsub                      bool
}

func genFPlan(t *rapid.T, g fGen) FPlan {
	p := FPlan{Sched: genSched(t), Nil: chance(t, "nil-storage", 10), Drain: rng(t, "drain", 0, 7)}
	p.Dests = genDests(t, rng(t, "queues", g.queues[0], g.queues[1]), rng(t, "topics", g.topics[0], g.topics[1]))
	for k, n := 0, rng(t, "clients", g.clients[0], g.clients[1]); k < n; k++ {
		c := FClient{Ver: 1 + rng(t, "ver", 0, 1), Up: genChunks(t, "up"), Abrupt: chance(t, "abrupt", g.abrupt)}
		stalls := chance(t, "stalls", g.stall)
		if stalls {
			c.DownC = rapid.SampledFrom([]int{1, 30, 100, 1000, 5000}).Draw(t, "down-cap")
		}
		if stalls && chance(t, "up-cap?", 50) {
			c.UpC = rapid.SampledFrom([]int{1, 30, 100, 1000, 5000}).Draw(t, "up-cap")
		}
		c.AckUs = rapid.SampledFrom([]int{0, 1, 10, 100, 3000}).Draw(t, "ack-us")
		if g.nack > 0 && chance(t, "nacks", 50) {
			c.Nack = g.nack
		}
		if g.hold > 0 && chance(t, "holds", 30) {
			c.Hold = g.hold
		}
		c.AckR = rapid.SampledFrom([]int{0, 50, 100}).Draw(t, "ack-r")
		if chance(t, "starts-with-sub", 60) {
			c.Prog = append(c.Prog, FOp{K: "sub", D: rng(t, "d", 0, len(p.Dests)-1), A: g.acks[rng(t, "ack", 0, len(g.acks)-1)]})
		}
		for i, n := 0, rng(t, "n", g.n[0], g.n[1]); i < n; i++ {
			k := pickMap(t, "op", g.ops)
			o := FOp{K: k, D: rng(t, "d", 0, len(p.Dests)-1), R: chance(t, "r", 40)}
			if chance(t, "pause", 40) {
				o.Us = rapid.SampledFrom([]int{1, 5, 20, 100, 1000, 10000}).Draw(t, "us")
			}
			switch k {
			case "send":
				o.N, o.B = pick(t, "n", 6, 3, 2, 1, 1)*pick(t, "mult", 0, 8, 1, 1), rng(t, "b", 0, 30)
				if g.big > 0 && chance(t, "big", g.big) {
					o.B = rapid.SampledFrom([]int{4096, 10000, 70000}).Draw(t, "bigb")
				}
			case "tx":
				o.N, o.A, o.ID = rng(t, "n", 0, 4), pick(t, "txend", 6, 2, 2), rng(t, "txid", 0, 1)
			case "sub":
				o.ID, o.A = rng(t, "id", 0, 3), g.acks[rng(t, "ack", 0, len(g.acks)-1)]
			case "unsub":
				o.ID = rng(t, "id", 0, 3)
			case "stall", "go":
				if !stalls {
					o.K = "wait"
				}
			case "end":
				if !c.Abrupt {
					o.X = "disc"
				} else {
					o.X = rapid.SampledFrom(g.ends).Draw(t, "how")
				}
			}
			c.Prog = append(c.Prog, o)
		}
		p.Clients = append(p.Clients, c)
	}
	return p
}

func regFree(id, name string, g fGen, cases [2]int, rule string, rich func(*fWorld) bool, cats ...string) {
	core.Register(id, core.Check[FPlan]{
		Name: name, Rule: rule, Cases: cases,
		Gen: func(t *rapid.T) FPlan { return genFPlan(t, g) },
		Exec: func(x *core.Ctx, p FPlan) Result {
			w := runFree(x, p)
			fail, label := w.verdict(cats...)
			dels, redel, ends := 0, 0, 0
			for _, m := range w.all {
				dels += len(m.dels)
				if isQueue(m.dest) && len(m.dels) > 1 {
					redel++
				}
			}
			for _, i := range w.incs {
				if i.abrupt {
					ends++
				}
			}
			r := Result{Fail: fail, NonTrivial: label == "" && rich(w), Labels: []string{sizeLabel("deliveries", dels), sizeLabel("redelivered", redel), sizeLabel("abrupt-ends", ends)}}
			if label != "" {
				r.Labels = append(r.Labels, label)
			}
			return r
		},
	})
}

func (w *fWorld) delivered() (n int) {
	for _, m := range w.all {
		n += len(m.dels)
	}
	return
}

func init() {
	regFree("S08", "load", fGen{
		clients: [2]int{2, 5}, queues: [2]int{1, 3}, topics: [2]int{0, 1}, n: [2]int{3, 16},
		acks: []int{1, 1, 2, 0}, ops: map[string]int{"send": 40, "sub": 20, "unsub": 12, "tx": 4, "stall": 4, "go": 4, "end": 12, "wait": 4},
		abrupt: 60, ends: []string{"close", "reset", "half", "disc"}, nack: 30, hold: 40, stall: 30, big: 3,
	}, [2]int{9000, 200000}, "a connection ended abruptly and at least five messages were delivered",
		func(w *fWorld) bool {
			n := 0
			for _, i := range w.incs {
				if i.abrupt {
					n++
				}
			}
			return n > 0 && w.delivered() >= 5
		}, "lost", "dup", "wedge", "ack", "close", "error", "scope", "content", "tx")

	regFree("S02", "free", fGen{
		clients: [2]int{2, 5}, queues: [2]int{1, 2}, topics: [2]int{0, 0}, n: [2]int{3, 14},
		acks: []int{0}, ops: map[string]int{"send": 60, "sub": 15, "unsub": 3, "tx": 4, "wait": 10, "end": 1},
		abrupt: 0, stall: 10, big: 3,
	}, [2]int{4000, 100000}, "at least five messages were delivered",
		func(w *fWorld) bool { return w.delivered() >= 5 }, "lost", "dup", "order", "content", "scope")

	regFree("S03", "free", fGen{
		clients: [2]int{2, 5}, queues: [2]int{1, 2}, topics: [2]int{0, 0}, n: [2]int{3, 14},
		acks: []int{1, 2}, ops: map[string]int{"send": 50, "sub": 22, "unsub": 4, "tx": 2, "end": 4, "wait": 5},
		abrupt: 30, ends: []string{"close", "reset", "half", "disc"}, nack: 40, hold: 20, stall: 10, big: 2,
	}, [2]int{4000, 100000}, "at least five messages were delivered",
		func(w *fWorld) bool { return w.delivered() >= 5 }, "lost", "dup", "ack", "content", "scope")

	regFree("S04", "free", fGen{
		clients: [2]int{2, 6}, queues: [2]int{0, 0}, topics: [2]int{1, 2}, n: [2]int{3, 14},
		acks: []int{0, 1}, ops: map[string]int{"send": 50, "sub": 22, "unsub": 8, "tx": 3, "stall": 2, "go": 2, "end": 3, "wait": 5},
		abrupt: 30, ends: []string{"close", "reset", "half", "disc"}, stall: 25, big: 3,
	}, [2]int{4000, 100000}, "at least five messages were delivered",
		func(w *fWorld) bool { return w.delivered() >= 5 }, "topic", "content", "scope")

	regFree("S05", "free", fGen{
		clients: [2]int{2, 5}, queues: [2]int{1, 2}, topics: [2]int{0, 1}, n: [2]int{3, 14},
		acks: []int{1, 2, 0}, ops: map[string]int{"send": 8, "sub": 15, "unsub": 2, "tx": 50, "end": 8, "wait": 5},
		abrupt: 50, ends: []string{"close", "reset", "half", "disc"}, hold: 10, stall: 10,
	}, [2]int{4000, 100000}, "at least five messages were delivered",
		func(w *fWorld) bool { return w.delivered() >= 5 }, "tx", "lost", "dup", "order", "error", "close", "content")

	regFree("S12", "free", fGen{
		clients: [2]int{1, 4}, queues: [2]int{1, 2}, topics: [2]int{0, 2}, n: [2]int{5, 20},
		acks: []int{0, 1, 2}, ops: map[string]int{"send": 40, "sub": 35, "unsub": 30, "end": 2, "wait": 8},
		abrupt: 10, ends: []string{"close", "reset", "half", "disc"}, stall: 15, nack: 20,
	}, [2]int{4000, 100000}, "at least five messages were delivered",
		func(w *fWorld) bool { return w.delivered() >= 5 }, "scope", "lost", "dup", "topic", "content", "error", "close")
}
