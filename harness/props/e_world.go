package props

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"
	"github.com/go-stomp/stomp/v3/server"
	"pgregory.net/rapid"
	"verif.local/harness/core"
	"verif.local/harness/netsim"
)

// E01: programs written against the client library, run against the bundled server.
// Part "programs": one operation at a time, predicted exactly by a broker model.

type EClient struct {
	Ver  int         `json:"ver"` // 0: 1.1, 1: 1.2, 2: both, 3: no option
	HB   [2]int      `json:"hb"`  // ms; -1: no option
	Err  int         `json:"err"` // ms; -1: no option
	Auth bool        `json:"auth,omitempty"`
	Up   netsim.Link `json:"up"`
	Down netsim.Link `json:"down"`
	Buf  int         `json:"buf,omitempty"`
}

type EOp struct {
	C    int    `json:"c"`
	K    string `json:"k"` // send, sub, unsub, ack, nack, begin, commit, abort, disc, kill, idle
	D    int    `json:"d"` // destination
	N    int    `json:"n"` // which subscription, message or transaction
	Mode int    `json:"mode,omitempty"`
	Tx   int    `json:"tx,omitempty"` // 0: none, else 1+which open one
	Rcpt bool   `json:"rcpt,omitempty"`
	NoCL bool   `json:"nocl,omitempty"`
	CT   Str    `json:"ct,omitempty"`
	Body Body   `json:"body"`
	H    []KV   `json:"h,omitempty"`
	ID   string `json:"id,omitempty"`
	Read bool   `json:"read,omitempty"` // the consumer uses Read
}

type EPlan struct {
	Sched core.Sched `json:"sched"`
	SrvHB int        `json:"srv_hb"` // ms; 0: default
	Cl    []EClient  `json:"cl"`
	Ops   []EOp      `json:"ops"`
}

var eDests = []string{"/queue/a", "/topic/x", "/queue/b", "plain", "/queue", "/topic/y", "/queue/a/", "/topic/X", "/Queue/a", "/queue/A"}

func eIsTopic(d string) bool { return !strings.HasPrefix(d, server.QueuePrefix) }

type eMsg struct {
	uid, dest, ct string
	body          []byte
	h             []KV
}

type eSub struct {
	cl     *eCl
	s      *stomp.Subscription
	dest   string
	mode   stomp.AckMode
	id     string
	mu     sync.Mutex
	in     []*stomp.Message
	closed bool
	errs   []error
	taken  int // of in
	pend   *eMsg
	pendM  *stomp.Message
	topicM []*stomp.Message // of a topic: may be acknowledged
	want   []*eMsg          // of a topic: due now
	over   bool
}

type eTx struct {
	tx   *stomp.Transaction
	ops  []func() // effects on the model
	nack bool
}

type eCl struct {
	n     int
	conn  *stomp.Conn
	tr    *netsim.Conn
	subs  []*eSub
	txs   []*eTx
	old   []*eTx
	ended bool
	mids  map[string]bool
}

type eWorld struct {
	p       EPlan
	l       *netsim.Listener
	cls     []*eCl
	waiting map[string][]*eMsg
	loose   map[string]bool // the order of what waits is open
	msgs    map[string]*eMsg
	nuid    int
	fail    string
	subs    []*eSub
	// coverage
	delivered, topics, redel, commits, ends, idles int
}

func (w *eWorld) failf(f string, a ...any) {
	if w.fail == "" {
		w.fail = fmt.Sprintf(f, a...)
	}
}

func (s *eSub) consume(read bool) {
	for {
		var m *stomp.Message
		if read {
			var err error
			if m, err = s.s.Read(); err != nil {
				if err != stomp.ErrCompletedSubscription {
					s.mu.Lock()
					s.errs = append(s.errs, err)
					s.mu.Unlock()
					// the channel is closed after the error
					for range s.s.C {
						s.mu.Lock()
						s.errs = append(s.errs, errors.New("a message after the error"))
						s.mu.Unlock()
					}
				}
				s.mu.Lock()
				s.closed = true
				s.mu.Unlock()
				return
			}
		} else {
			var ok bool
			if m, ok = <-s.s.C; !ok {
				s.mu.Lock()
				s.closed = true
				s.mu.Unlock()
				return
			}
			if m.Err != nil {
				s.mu.Lock()
				s.errs = append(s.errs, m.Err)
				s.mu.Unlock()
				continue
			}
		}
		s.mu.Lock()
		s.in = append(s.in, m)
		s.mu.Unlock()
	}
}

func (e *EClient) options() (o []func(*stomp.Conn) error) {
	o = append(o, stomp.ConnOpt.Logger(quiet{}))
	switch e.Ver {
	case 0:
		o = append(o, stomp.ConnOpt.AcceptVersion(stomp.V11))
	case 1:
		o = append(o, stomp.ConnOpt.AcceptVersion(stomp.V12))
	case 2:
		o = append(o, stomp.ConnOpt.AcceptVersion(stomp.V11), stomp.ConnOpt.AcceptVersion(stomp.V12))
	}
	if e.HB[0] >= 0 {
		o = append(o, stomp.ConnOpt.HeartBeat(msd(e.HB[0]), msd(e.HB[1])))
	}
	if e.Err >= 0 {
		o = append(o, stomp.ConnOpt.HeartBeatError(msd(e.Err)))
	}
	if e.Auth {
		o = append(o, stomp.ConnOpt.Login(eLogin, ePasscode))
	}
	if e.Buf > 0 {
		o = append(o, stomp.ConnOpt.ReadBufferSize(e.Buf), stomp.ConnOpt.WriteBufferSize(e.Buf))
	}
	return
}

const eLogin, ePasscode = "us:er\\", "p\na:ss"

type eAuth struct{}

func (eAuth) Authenticate(l, p string) bool { return l == eLogin && p == ePasscode }

func (w *eWorld) connect(i int) *eCl {
	e := &w.p.Cl[i]
	cl, sv := netsim.Pair(e.Up, e.Down, "client"+itoa(i), "server:61613")
	w.l.Push(sv)
	c := &eCl{n: i, tr: cl, mids: map[string]bool{}}
	conn, err := stomp.Connect(cl, e.options()...)
	if err != nil {
		w.failf("client %d could not connect: %v", i, err)
		return nil
	}
	c.conn = conn
	want := stomp.V12
	if e.Ver == 0 {
		want = stomp.V11
	}
	if conn.Version() != want {
		w.failf("client %d is connected with version %s, and %s is the highest of both sides", i, conn.Version(), want)
	}
	return c
}

// effects on the model

func (w *eWorld) put(m *eMsg) {
	if eIsTopic(m.dest) {
		for _, s := range w.subs {
			if !s.over && s.dest == m.dest {
				s.want = append(s.want, m)
			}
		}
		return
	}
	w.waiting[m.dest] = append(w.waiting[m.dest], m)
}

func (w *eWorld) settle(s *eSub, pm *stomp.Message, back bool) {
	if s.over && s.cl.ended || s.pendM != pm || pm == nil {
		return
	}
	m := s.pend
	s.pend, s.pendM = nil, nil
	if back {
		w.waiting[m.dest] = append([]*eMsg{m}, w.waiting[m.dest]...)
		w.redel++
	}
}

func (w *eWorld) gone(c *eCl) {
	c.ended = true
	for _, d := range eDests {
		n := 0
		for _, s := range c.subs {
			if s.pend != nil && s.pend.dest == d {
				w.waiting[d] = append([]*eMsg{s.pend}, w.waiting[d]...)
				s.pend, s.pendM = nil, nil
				n++
				w.redel++
			}
		}
		if n > 1 {
			w.loose[d] = true
		}
	}
	for _, s := range c.subs {
		s.over = true
	}
	w.ends++
}

// observe compares what arrived with the model.
func (w *eWorld) observe(step int, loose bool) {
	time.Sleep(sSettle)
	type del struct {
		s *eSub
		m *stomp.Message
		e *eMsg
	}
	byQueue := map[string][]del{}
	for _, s := range w.subs {
		s.mu.Lock()
		in := append([]*stomp.Message(nil), s.in[s.taken:]...)
		s.taken = len(s.in)
		errs, closed := s.errs, s.closed
		s.mu.Unlock()
		if !s.cl.ended && len(errs) > 0 {
			w.failf("step %d: subscription %s of client %d reports %v", step, s.id, s.cl.n, errs[0])
		}
		if closed != s.over && !s.cl.ended {
			w.failf("step %d: the channel of subscription %s of client %d: closed %v, unsubscribed %v", step, s.id, s.cl.n, closed, s.over)
		}
		if s.cl.ended && len(errs) != 1 && !closed {
			w.failf("step %d: after the end of client %d its subscription %s had %d errors, closed %v", step, s.cl.n, s.id, len(errs), closed)
		}
		for _, m := range in {
			uid := m.Header.Get("uid")
			e := w.msgs[uid]
			if e == nil {
				w.failf("step %d: subscription %s got a message nobody sent: %v", step, s.id, m.Header)
				continue
			}
			w.delivered++
			if f := s.check(m, e); f != "" {
				w.failf("step %d: %s", step, f)
			}
			if s.over {
				w.failf("step %d: message %s reached subscription %s of client %d after its end", step, uid, s.id, s.cl.n)
			}
			if eIsTopic(e.dest) {
				w.topics++
				if len(s.want) == 0 || s.want[0] != e {
					w.failf("step %d: topic message %s reached subscription %s of client %d; due were %v", step, uid, s.id, s.cl.n, eUids(s.want))
					continue
				}
				s.want = s.want[1:]
				s.topicM = append(s.topicM, m)
				continue
			}
			byQueue[e.dest] = append(byQueue[e.dest], del{s, m, e})
		}
		if len(s.want) > 0 {
			w.failf("step %d: topic messages %v did not reach subscription %s of client %d", step, eUids(s.want), s.id, s.cl.n)
			s.want = nil
		}
	}
	for _, d := range eDests {
		if eIsTopic(d) {
			continue
		}
		ds := byQueue[d]
		wait := w.waiting[d]
		last := map[*eSub]int{}
		for _, x := range ds {
			at := -1
			for i, m := range wait {
				if m == x.e {
					at = i
				}
			}
			if at < 0 {
				w.failf("step %d: message %s reached subscription %s of client %d, although it was not waiting in %s", step, x.e.uid, x.s.id, x.s.cl.n, d)
				continue
			}
			if !w.loose[d] && !loose {
				if l, ok := last[x.s]; ok && l > at {
					w.failf("step %d: subscription %s of client %d got message %s of %s out of order", step, x.s.id, x.s.cl.n, x.e.uid, d)
				}
				if at >= len(ds) {
					w.failf("step %d: message %s left %s before %s", step, x.e.uid, d, wait[0].uid)
				}
			}
			last[x.s] = at
			if x.s.mode != stomp.AckAuto {
				if x.s.pend != nil {
					w.failf("step %d: subscription %s of client %d got message %s while %s awaits acknowledgement", step, x.s.id, x.s.cl.n, x.e.uid, x.s.pend.uid)
				}
				x.s.pend, x.s.pendM = x.e, x.m
			}
		}
		var rest []*eMsg
		for _, m := range wait {
			gone := 0
			for _, x := range ds {
				if x.e == m {
					gone++
				}
			}
			if gone > 1 {
				w.failf("step %d: message %s of %s was delivered %d times", step, m.uid, d, gone)
			}
			if gone == 0 {
				rest = append(rest, m)
			}
		}
		w.waiting[d] = rest
		if len(rest) == 0 {
			w.loose[d] = false
		}
		for _, s := range w.subs {
			if !s.over && s.dest == d && (s.mode == stomp.AckAuto || s.pend == nil) && len(rest) > 0 {
				w.failf("step %d: messages %v wait in %s although subscription %s of client %d is ready", step, eUids(rest), d, s.id, s.cl.n)
			}
		}
	}
	for _, c := range w.cls {
		if c != nil && !c.ended {
			if _, closed := c.tr.Closed(); closed {
				w.failf("step %d: the connection of client %d was closed", step, c.n)
			}
		}
	}
}

func eUids(ms []*eMsg) (r []string) {
	for _, m := range ms {
		r = append(r, m.uid)
	}
	return
}

func (s *eSub) check(m *stomp.Message, e *eMsg) string {
	who := fmt.Sprintf("message %s to subscription %s of client %d", e.uid, s.id, s.cl.n)
	switch {
	case m.Destination != e.dest || s.dest != e.dest:
		return fmt.Sprintf("%s, which is for %s, was sent to %s and says %s", who, s.dest, e.dest, m.Destination)
	case m.ContentType != e.ct:
		return fmt.Sprintf("%s has the content type %q, and was sent with %q", who, m.ContentType, e.ct)
	case string(m.Body) != string(e.body):
		return fmt.Sprintf("%s has a body of %d bytes, and was sent with another one of %d", who, len(m.Body), len(e.body))
	case m.Conn != s.cl.conn || m.Subscription != s.s:
		return who + " names another connection or subscription"
	case m.ShouldAck() != (s.mode != stomp.AckAuto):
		return fmt.Sprintf("%s: ShouldAck says %v in mode %v", who, m.ShouldAck(), s.mode)
	case m.Header.Get("subscription") != s.s.Id():
		return fmt.Sprintf("%s has the subscription header %q", who, m.Header.Get("subscription"))
	}
	mid := m.Header.Get("message-id")
	if mid == "" || s.cl.mids[mid] {
		return fmt.Sprintf("%s has the message-id %q, which is empty or was used before on this connection", who, mid)
	}
	s.cl.mids[mid] = true
	for _, kv := range e.h {
		var got, want []string
		for i := 0; i < m.Header.Len(); i++ {
			if k, v := m.Header.GetAt(i); k == string(kv.K) {
				got = append(got, v)
			}
		}
		for _, o := range e.h {
			if o.K == kv.K {
				want = append(want, string(o.V))
			}
		}
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			return fmt.Sprintf("%s: header %q has the values %q, and was sent with %q", who, kv.K, got, want)
		}
	}
	return ""
}

func (w *eWorld) exec(i int, o EOp) {
	c := w.cls[o.C]
	must := func(what string, err error) bool {
		if err != nil {
			w.failf("step %d: client %d: %s failed: %v", i, o.C, what, err)
		}
		return err == nil
	}
	if c == nil || c.ended {
		if c != nil && o.N%2 == 1 { // an ended connection refuses everything
			if err := c.conn.Send("/queue/a", "", nil); err == nil {
				w.failf("step %d: client %d: a send on an ended connection succeeded", i, o.C)
			}
			if _, err := c.conn.Subscribe("/queue/a", stomp.AckAuto); err == nil {
				w.failf("step %d: client %d: a subscribe on an ended connection succeeded", i, o.C)
			}
		}
		w.cls[o.C] = w.connect(o.C)
		if c = w.cls[o.C]; c == nil {
			return
		}
	}
	dest := eDests[o.D%len(eDests)]
	var tx *eTx
	if o.Tx > 0 && len(c.txs) > 0 {
		tx = c.txs[(o.Tx-1)%len(c.txs)]
	}
	run := func(f func()) { // an effect now, or with the transaction
		if tx != nil {
			tx.ops = append(tx.ops, f)
		} else {
			f()
		}
	}
	loose := false
	switch o.K {
	case "send":
		w.nuid++
		m := &eMsg{uid: "u" + itoa(w.nuid), dest: dest, ct: string(o.CT), body: o.Body.Bytes(), h: o.H}
		w.msgs[m.uid] = m
		opts := []func(*frame.Frame) error{stomp.SendOpt.Header("uid", m.uid)}
		for _, kv := range o.H {
			opts = append(opts, stomp.SendOpt.Header(string(kv.K), string(kv.V)))
		}
		if o.NoCL && !o.Body.HasNul() {
			opts = append(opts, stomp.SendOpt.NoContentLength)
		}
		if o.Rcpt {
			opts = append(opts, stomp.SendOpt.Receipt)
		}
		var err error
		if tx != nil {
			err = tx.tx.Send(m.dest, m.ct, m.body, opts...)
		} else {
			err = c.conn.Send(m.dest, m.ct, m.body, opts...)
		}
		if must("a send to "+dest, err) {
			run(func() { w.put(m) })
		}
	case "sub":
		mode := stomp.AckMode(o.Mode)
		var opts []func(*frame.Frame) error
		id := o.ID
		for _, s := range c.subs {
			if !s.over && s.id == id {
				id = "" // in use
			}
		}
		if id != "" {
			opts = append(opts, stomp.SubscribeOpt.Id(id))
		}
		if o.Rcpt {
			opts = append(opts, stomp.SubscribeOpt.Header("receipt", "sub-"+itoa(i)))
		}
		s, err := c.conn.Subscribe(dest, mode, opts...)
		if must("a subscribe to "+dest, err) {
			if id == "" {
				id = s.Id()
			}
			if s.Id() != id || s.Destination() != dest || s.AckMode() != mode || !s.Active() {
				w.failf("step %d: the new subscription says %q %q %v %v", i, s.Id(), s.Destination(), s.AckMode(), s.Active())
			}
			es := &eSub{cl: c, s: s, dest: dest, mode: mode, id: id}
			c.subs = append(c.subs, es)
			w.subs = append(w.subs, es)
			go es.consume(o.Read)
		}
	case "unsub":
		if len(c.subs) == 0 {
			return
		}
		s := c.subs[o.N%len(c.subs)]
		if s.over {
			if err := s.s.Unsubscribe(); err != stomp.ErrCompletedSubscription {
				w.failf("step %d: client %d: the second unsubscribe reports %v", i, o.C, err)
			}
			break
		}
		if s.pend != nil {
			if must("an ack", c.conn.Ack(s.pendM)) {
				w.settle(s, s.pendM, false)
			}
			w.observe(i, false)
		}
		if s.pend != nil {
			return // got the next one
		}
		if must("an unsubscribe", s.s.Unsubscribe()) {
			s.over = true
			if s.s.Active() {
				w.failf("step %d: client %d: the subscription is active after its end", i, o.C)
			}
		}
	case "ack", "nack":
		var cand []*eSub
		var old []*stomp.Message
		for _, s := range c.subs {
			if s.pend != nil && !s.over {
				cand = append(cand, s)
			}
			if !s.over {
				old = append(old, s.topicM...)
			}
		}
		var m *stomp.Message
		var s *eSub
		if len(cand) > 0 && (o.N%5 != 4 || len(old) == 0) {
			s = cand[o.N%len(cand)]
			m = s.pendM
		} else if len(old) > 0 {
			m = old[o.N%len(old)]
		} else {
			return
		}
		ack := o.K == "ack"
		if !m.ShouldAck() {
			// due nothing: an ack does nothing, a nack is refused
			if ack {
				must("an ack of a message in auto mode", c.conn.Ack(m))
			} else if err := c.conn.Nack(m); err != stomp.ErrCannotNackAutoSub {
				w.failf("step %d: client %d: a nack in auto mode reports %v", i, o.C, err)
			}
			break
		}
		var err error
		switch {
		case tx != nil && ack:
			err = tx.tx.Ack(m)
		case tx != nil:
			err = tx.tx.Nack(m)
			tx.nack = true
		case ack:
			err = c.conn.Ack(m)
		default:
			err = c.conn.Nack(m)
		}
		if must("an "+o.K, err) && s != nil {
			run(func() { w.settle(s, m, !ack) })
		}
	case "begin":
		t, err := c.conn.BeginWithError()
		if must("a begin", err) {
			c.txs = append(c.txs, &eTx{tx: t})
		}
	case "commit", "abort":
		if len(c.txs) == 0 {
			return
		}
		n := o.N % len(c.txs)
		t := c.txs[n]
		c.txs = append(c.txs[:n:n], c.txs[n+1:]...)
		c.old = append(c.old, t)
		var err error
		switch {
		case o.K == "commit" && o.Rcpt:
			err = t.tx.CommitWithReceipt()
		case o.K == "commit":
			err = t.tx.Commit()
		case o.Rcpt:
			err = t.tx.AbortWithReceipt()
		default:
			err = t.tx.Abort()
		}
		if must("the "+o.K, err) && o.K == "commit" {
			for _, f := range t.ops {
				f()
			}
			loose = t.nack
			if len(t.ops) > 0 {
				w.commits++
			}
		}
		if err := t.tx.Send("/queue/a", "", nil); err != stomp.ErrCompletedTransaction {
			w.failf("step %d: client %d: a send in the completed transaction reports %v", i, o.C, err)
		}
	case "disc":
		if must("the disconnect", c.conn.Disconnect()) {
			w.gone(c)
		}
	case "kill":
		if o.N%2 == 0 {
			_ = c.conn.MustDisconnect()
		} else {
			_ = c.tr.Close()
		}
		w.gone(c)
	case "idle":
		w.idles++
		time.Sleep(time.Duration(o.N) * time.Second)
	}
	if w.fail == "" {
		w.observe(i, loose)
	}
}

func execE01(x *core.Ctx, p EPlan) (res Result) {
	w := &eWorld{p: p, waiting: map[string][]*eMsg{}, loose: map[string]bool{}, msgs: map[string]*eMsg{}}
	x.Bubble(func() {
		w.l = netsim.NewListener()
		st := newStore()
		s := &server.Server{Log: quiet{}, HeartBeat: msd(p.SrvHB), QueueStorage: st}
		if len(p.Cl) > 0 && p.Cl[0].Auth {
			s.Authenticator = authEither{}
		}
		startServer(s, w.l)
		w.cls = make([]*eCl, len(p.Cl))
		p.Sched.Arm()
		for i, o := range p.Ops {
			w.exec(i, o)
			if w.fail != "" {
				break
			}
		}
		p.Sched.Disarm()
		for _, c := range w.cls {
			if c != nil && !c.ended {
				if w.fail == "" {
					if err := c.conn.Disconnect(); err != nil {
						w.failf("at the end: the disconnect of client %d failed: %v", c.n, err)
					}
				}
				_ = c.conn.MustDisconnect()
				_ = c.tr.Close()
			}
		}
		time.Sleep(3 * time.Second)
		stopServer(w.l, st)
	})
	res.Fail = w.fail
	res.NonTrivial = w.delivered >= 3
	for l, n := range map[string]int{"deliveries": w.delivered, "topic": w.topics, "redelivered": w.redel, "commits": w.commits, "ends": w.ends, "idle": w.idles} {
		if n > 0 {
			res.Labels = append(res.Labels, sizeLabel(l, n))
		}
	}
	sort.Strings(res.Labels)
	return
}

// authEither also lets the harness' own client in.
type authEither struct{}

func (authEither) Authenticate(l, p string) bool {
	return eAuth{}.Authenticate(l, p) || l == adminL && p == adminP
}

func genEClients(t *rapid.T, lo, hi int) (cl []EClient) {
	auth := chance(t, "auth", 20)
	for i, n := 0, rng(t, "clients", lo, hi); i < n; i++ {
		e := EClient{Ver: pick(t, "ver", 4, 4, 1, 2), HB: [2]int{-1, -1}, Err: -1, Auth: auth}
		if chance(t, "hb", 60) {
			iv := []int{0, 60000, 1000, 200, 10000, 300000}
			e.HB = [2]int{rapid.SampledFrom(iv).Draw(t, "hb-s"), rapid.SampledFrom(iv).Draw(t, "hb-r")}
			if chance(t, "hb-err", 50) {
				e.Err = rapid.SampledFrom([]int{20, 100, 1000}).Draw(t, "err")
			}
		}
		e.Up.Chunks = genChunks(t, "up")
		e.Down.Chunks = genChunks(t, "down")
		if chance(t, "buf", 20) {
			e.Buf = rapid.SampledFrom([]int{16, 17, 64, 1000, 65536}).Draw(t, "bufs")
		}
		cl = append(cl, e)
	}
	return
}

func genE01(t *rapid.T) EPlan {
	p := EPlan{Sched: genSched(t), Cl: genEClients(t, 1, 4)}
	if chance(t, "srv-hb", 50) {
		p.SrvHB = rapid.SampledFrom([]int{100, 1000, 30000, 120000}).Draw(t, "srv-hb-ms")
	}
	ds := genEDests(t)
	ids := []string{"", "", "", "a", "b", "0", "1"}
	for i, n := 0, 4+uni(t, "ops", 40); i < n; i++ {
		o := EOp{C: uni(t, "c", len(p.Cl)), D: ds[uni(t, "d", len(ds))], N: uni(t, "n", 20)}
		if chance(t, "in-tx", 35) {
			o.Tx = 1 + uni(t, "tx", 4)
		}
		o.Rcpt = chance(t, "rcpt", 30)
		switch pick(t, "op", 40, 20, 7, 24, 12, 12, 10, 4, 3, 3, 3) {
		case 0:
			o.K = "send"
			max := 200
			if chance(t, "big", 5) {
				max = 70000
			}
			o.Body = genBody(t, "body", max)
			o.NoCL = chance(t, "nocl", 15)
			if chance(t, "ct", 40) {
				o.CT = Str(rapid.SampledFrom([]string{"text/plain", "application/json", "x:y\\\r\n"}).Draw(t, "ctv"))
			}
			for j, m := 0, pick(t, "nh", 6, 3, 1); j < m; j++ {
				k := strNasty(t, "hk", 1)
				if sReserved[string(k)] || k == "content-type" || k == "destination" || k == "uid" || k == "" {
					k = "app"
				}
				o.H = append(o.H, KV{K: k, V: strNasty(t, "hv", 0)})
			}
		case 1:
			o.K = "sub"
			o.Mode = pick(t, "mode", 3, 3, 3)
			o.ID = rapid.SampledFrom(ids).Draw(t, "id")
			o.Read = chance(t, "read", 40)
			o.Rcpt = false
		case 2:
			o.K = "unsub"
		case 3:
			o.K = "ack"
		case 4:
			o.K = "nack"
		case 5:
			o.K = "begin"
		case 6:
			o.K = "commit"
		case 7:
			o.K = "abort"
		case 8:
			o.K = "disc"
		case 9:
			o.K = "kill"
		default:
			o.K = "idle"
			o.N = rapid.SampledFrom([]int{1, 5, 70, 200, 700}).Draw(t, "idle")
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

func init() {
	core.Register("E01", core.Check[EPlan]{
		Name: "programs", Gen: genE01, Exec: execE01, Cases: [2]int{12000, 300000},
		Rule: "at least three messages were delivered",
	})
}

// genEDests selects some of eDests.
func genEDests(t *rapid.T) (ds []int) {
	n := 1 + uni(t, "dests", 6)
	for i := range eDests[:n] {
		ds = append(ds, i)
	}
	if chance(t, "alike", 40) {
		ds = append(ds, 6+uni(t, "alike-1", len(eDests)-6), 6+uni(t, "alike-2", len(eDests)-6))
	}
	return
}
