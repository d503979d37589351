package props

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	stomp "github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"
	"pgregory.net/rapid"

	"verif.local/harness/core"
	"verif.local/harness/netsim"
	"verif.local/harness/wire"
)

// The client world: one client connection of the library, driven by several goroutines,
// against a scripted peer that shares no code with the library. Everything runs on the
// virtual clock of a synctest bubble.

// ConnPlan configures the connection under test.
type ConnPlan struct {
	Ver      string      `json:"ver"` // version in CONNECTED, "" for none
	ReadBuf  int         `json:"read_buf,omitempty"`
	WriteBuf int         `json:"write_buf,omitempty"`
	ReadCh   int         `json:"read_ch,omitempty"`
	WriteCh  int         `json:"write_ch,omitempty"`
	SendTO   int         `json:"send_to,omitempty"`  // ms, 0: default
	RcptTO   int         `json:"rcpt_to,omitempty"`  // ms, 0: default, <0: none
	DiscTO   int         `json:"disc_to,omitempty"`  // ms
	UnsubTO  int         `json:"unsub_to,omitempty"` // ms
	HB       []int       `json:"hb,omitempty"`       // client send, client receive, server send, server receive, error margin (ms)
	Grace    float64     `json:"grace,omitempty"`
	C2S      netsim.Link `json:"c2s"`
	S2C      netsim.Link `json:"s2c"`
	Stats    bool        `json:"stats,omitempty"`
}

func (p ConnPlan) version() stomp.Version {
	if p.Ver == "" {
		return stomp.V10
	}
	return stomp.Version(p.Ver)
}

func msd(n int) time.Duration { return time.Duration(n) * time.Millisecond }

// timeout gives the effective value of a timeout field; 0 means none.
func timeout(ms int, def time.Duration) time.Duration {
	if ms == 0 {
		return def
	}
	if ms < 0 {
		return 0
	}
	return msd(ms)
}

func (p ConnPlan) rcptTO() time.Duration  { return timeout(p.RcptTO, 30*time.Second) }
func (p ConnPlan) sendTO() time.Duration  { return timeout(p.SendTO, 10*time.Second) }
func (p ConnPlan) discTO() time.Duration  { return timeout(p.DiscTO, 30*time.Second) }
func (p ConnPlan) unsubTO() time.Duration { return timeout(p.UnsubTO, 30*time.Second) }

func (p ConnPlan) opts() []func(*stomp.Conn) error {
	o := []func(*stomp.Conn) error{}
	if len(p.HB) == 5 {
		o = append(o, stomp.ConnOpt.HeartBeat(msd(p.HB[0]), msd(p.HB[1])), stomp.ConnOpt.HeartBeatError(msd(p.HB[4])))
	}
	if p.Grace > 0 {
		o = append(o, stomp.ConnOpt.HeartBeatGracePeriodMultiplier(p.Grace))
	}
	if p.ReadBuf > 0 {
		o = append(o, stomp.ConnOpt.ReadBufferSize(p.ReadBuf))
	}
	if p.WriteBuf > 0 {
		o = append(o, stomp.ConnOpt.WriteBufferSize(p.WriteBuf))
	}
	if p.ReadCh > 0 {
		o = append(o, stomp.ConnOpt.ReadChannelCapacity(p.ReadCh))
	}
	if p.WriteCh > 0 {
		o = append(o, stomp.ConnOpt.WriteChannelCapacity(p.WriteCh))
	}
	if p.SendTO != 0 {
		o = append(o, stomp.ConnOpt.MsgSendTimeout(p.sendTO()))
	}
	if p.RcptTO != 0 {
		o = append(o, stomp.ConnOpt.RcvReceiptTimeout(p.rcptTO()))
	}
	if p.DiscTO != 0 {
		o = append(o, stomp.ConnOpt.DisconnectReceiptTimeout(p.discTO()))
	}
	if p.UnsubTO != 0 {
		o = append(o, stomp.ConnOpt.UnsubscribeReceiptTimeout(p.unsubTO()))
	}
	if p.Stats {
		o = append(o, stomp.ConnOpt.WithStats())
	}
	o = append(o, stomp.ConnOpt.Logger(quiet{}))
	return o
}

// quiet is a logger that drops everything.
type quiet struct{}

func (quiet) Debugf(string, ...interface{})   {}
func (quiet) Infof(string, ...interface{})    {}
func (quiet) Warningf(string, ...interface{}) {}
func (quiet) Errorf(string, ...interface{})   {}
func (quiet) Debug(string)                    {}
func (quiet) Info(string)                     {}
func (quiet) Warning(string)                  {}
func (quiet) Error(string)                    {}

func genLink(t *rapid.T, label string, tiny bool) netsim.Link {
	l := netsim.Link{Chunks: genChunks(t, label)}
	if tiny && chance(t, label+"-cap", 40) {
		l.Cap = rapid.SampledFrom([]int{1, 7, 64, 1000, 5000}).Draw(t, label+"-capn")
	}
	return l
}

func genConn(t *rapid.T) ConnPlan {
	p := ConnPlan{Ver: rapid.SampledFrom([]string{"1.2", "1.1", "1.0", ""}).Draw(t, "ver")}
	buf := func(l string) int {
		if chance(t, l+"?", 25) {
			return rapid.SampledFrom([]int{16, 17, 64, 511, 4096, 70000}).Draw(t, l)
		}
		return 0
	}
	ch := func(l string) int {
		if chance(t, l+"?", 35) {
			return rapid.SampledFrom([]int{1, 2, 5, 100}).Draw(t, l)
		}
		return 0
	}
	p.ReadBuf, p.WriteBuf, p.ReadCh, p.WriteCh = buf("read-buf"), buf("write-buf"), ch("read-ch"), ch("write-ch")
	p.C2S, p.S2C = genLink(t, "c2s", true), genLink(t, "s2c", true)
	p.Stats = chance(t, "stats", 20)
	return p
}

// MPlan describes the payload of a MESSAGE.
type MPlan struct {
	Dest  Str  `json:"dest,omitempty"`
	CT    Str  `json:"ct,omitempty"`
	H     []KV `json:"h,omitempty"`
	Body  Body `json:"body"`
	NoAck bool `json:"no_ack,omitempty"` // no ack header
	NoMid bool `json:"no_mid,omitempty"` // no message-id header
	NoCL  bool `json:"no_cl,omitempty"`  // no content-length header
	Last  bool `json:"last,omitempty"`   // subscription header at the end
	Again bool `json:"again,omitempty"`  // with the ids of the message before, as if it was delivered again
}

func genMPlan(t *rapid.T, max int) MPlan {
	m := MPlan{Body: genBody(t, "mbody", max)}
	if chance(t, "mdest", 30) {
		m.Dest = strNasty(t, "mdest", 0)
	}
	if chance(t, "mct", 40) {
		m.CT = Str(rapid.SampledFrom([]string{"text/plain", "application/json;charset=utf-8", "a:b\\c\n"}).Draw(t, "mct"))
	}
	for i, n := 0, rng(t, "mh", 0, 3); i < n; i++ {
		k := strNasty(t, "mhk", 1)
		switch k {
		case "subscription", "destination", "message-id", "ack", "content-length", "content-type", "":
			k = "x"
		}
		m.H = append(m.H, KV{k, strNasty(t, "mhv", 0)})
	}
	m.Last = chance(t, "mlast", 20)
	if chance(t, "mproto", 15) { // names that mean something in other frames, or that are repeated
		for range rng(t, "mprotos", 1, 3) {
			k := rapid.SampledFrom([]Str{"receipt-id", "receipt", "id", "transaction", "heart-beat", "version", "message", "session", "server",
				"reply-to", "host", "destination", "message-id", "subscription", "ack", "content-type"}).Draw(t, "mproto-k")
			switch {
			case k == "subscription" && m.Last, k == "content-type" && m.CT == "":
				continue
			}
			m.H = append(m.H, KV{k, rapid.SampledFrom([]Str{"", "1", "2", "3", "7", "10", "0,0", "1,1", "1.0", "/queue/a"}).Draw(t, "mproto-v")})
		}
	}
	m.NoCL = chance(t, "mno-cl", 35)
	return m
}

// RAct says how the peer answers one receipt request.
type RAct struct {
	Mode string `json:"mode,omitempty"` // "", drop, dup, error, wrong
	Ms   int    `json:"ms,omitempty"`   // delay
	Pre  int    `json:"pre,omitempty"`  // messages right before the RECEIPT of an UNSUBSCRIBE
	Post int    `json:"post,omitempty"` // and right after it
}

// PStep is an unsolicited action of the peer.
type PStep struct {
	Ms   int    `json:"ms,omitempty"`  // wait before
	K    string `json:"k"`             // msg, receipt (of an unknown or old id), beat, odd
	Sub  int    `json:"sub,omitempty"` // which subscription seen on the wire; <0: an unknown one, -2: none
	N    int    `json:"n,omitempty"`
	M    MPlan  `json:"m"`
	Id   Str    `json:"id,omitempty"`
	Prev bool   `json:"prev,omitempty"` // receipt: repeat an id already confirmed
}

// EndPlan says how the peer ends the connection.
type EndPlan struct {
	Kind  string `json:"kind,omitempty"`   // "", error, eof, reset, garbage, partial, failwrite, silence, badreceipt
	AtMs  int    `json:"at_ms,omitempty"`  // at this time, or
	Frame int    `json:"frame,omitempty"`  // when this many frames have arrived
	Bytes int64  `json:"bytes,omitempty"`  // failwrite: after this many more bytes
	Extra bool   `json:"extra,omitempty"`  // error: further frames follow the ERROR frame
	Keep  bool   `json:"keep,omitempty"`   // error: the peer does not close its side
	Msg   Str    `json:"msg,omitempty"`    // message of ERROR
	NoMsg bool   `json:"no_msg,omitempty"` // ERROR without a message header
}

// COp is one call of the client API.
type COp struct {
	K    string `json:"k"` // send sub unsub ack nack begin tsend tack tnack commit abort disc must stats
	Ms   int    `json:"ms,omitempty"`
	S    int    `json:"s,omitempty"`
	T    int    `json:"t,omitempty"`
	Dest Str    `json:"dest,omitempty"`
	CT   Str    `json:"ct,omitempty"`
	H    []KV   `json:"h,omitempty"`
	Body Body   `json:"body"`
	Rcpt bool   `json:"rcpt,omitempty"`
	NoCL bool   `json:"no_cl,omitempty"`
	NilO bool   `json:"nil_o,omitempty"` // a nil option among the options
	Bad  int    `json:"bad,omitempty"`   // 1: the option fails, 2: it is meant for another command
	Mode int    `json:"mode,omitempty"`  // ack mode
	Id   Str    `json:"id,omitempty"`    // caller-chosen id
	N    int    `json:"n,omitempty"`     // which message to acknowledge
	Slow int    `json:"slow,omitempty"`  // sub: ms the consumer takes per message
	Odd  string `json:"odd,omitempty"`   // ack, nack: not a received message
	Read bool   `json:"read,omitempty"`  // sub: the consumer calls Read instead of using the channel
}

// COut is what happened to an op.
type COut struct {
	G, I       int
	Op         COp
	Skip       bool
	Late       bool
	Done       bool
	Start, End time.Duration
	Err        error
	Sub        *csub
	Msg        *cmsg // ack, nack
	TxId       string
	TxDone     bool                  // the transaction was already finished when the op began
	Stats      stomp.ConnectionStats // stats
	Active     bool                  // unsub: the subscription was active when the call returned
	seq        int64
	endSeq     int64
}

func (o *COut) String() string {
	s := fmt.Sprintf("op %d/%d %s", o.G, o.I, o.Op.K)
	if o.Skip {
		return s + " (skipped)"
	}
	s += fmt.Sprintf(" [%v", o.Start)
	if o.Done {
		s += fmt.Sprintf("-%v] err=%v", o.End, o.Err)
	} else {
		s += "-] still running"
	}
	return s
}

// cmsg is a message received on a channel.
type cmsg struct {
	At   time.Duration
	M    *stomp.Message
	Err  error
	Dest string
	CT   string
	H    []KV
	Body []byte
	Sub  *stomp.Subscription
	Conn *stomp.Conn
}

// csub is a subscription made by a program.
type csub struct {
	slot    int
	op      COp
	g       int
	s       *stomp.Subscription
	made    time.Duration
	msgs    []*cmsg
	closed  bool
	closeAt time.Duration
	idle    bool // the consumer has ended
	badRead string
	free    bool // its id may be used again
}

// cpeer is the other end.
type cpeer struct {
	w        *cworld
	c        *netsim.Conn
	mu       sync.Mutex
	in       []pframe
	out      []pframe
	q        []qframe
	kick     chan struct{}
	subs     []psub // in order of SUBSCRIBE frames
	seen     int    // receipt requests
	bad      string // undecodable
	dead     bool
	serial   int
	lastMid  map[string]int
	eofAt    time.Duration
	gotEOF   bool
	beats    []time.Duration
	confirm  []string
	endAt    time.Duration
	ended    bool
	endDone  bool // endAt is exact: the end has left the peer
	onMsg    MPlan
	silentAt time.Duration
	units    []punit // frames and heart-beats after CONNECTED
	normal   bool    // answer every receipt request at once
}

type psub struct {
	id     string
	dest   string
	at     time.Duration
	unsub  time.Duration // UNSUBSCRIBE seen
	unsubd bool
}

type pframe struct {
	At   time.Duration // when it had been decoded, or its writing began
	End  time.Duration // when its writing ended
	F    wire.Frame
	Sub  int // MESSAGE: index into subs, -1 if none
	End2 bool
}

// punit is a whole frame or heart-beat of the peer.
type punit struct {
	At, End time.Duration // when its writing began and ended, <0: not yet
}

type qframe struct {
	raw  []byte
	f    wire.Frame
	sub  int
	at   time.Duration // not before
	last bool          // close after it
	end  bool          // the connection ends with it
}

// cworld is one execution.
type cworld struct {
	t0      time.Time
	plan    CPlan
	conn    *stomp.Conn
	cl      *netsim.Conn
	peer    *cpeer
	mu      sync.Mutex
	slots   map[int]*csub
	subs    []*csub
	txs     map[int]*ctx
	alltx   []*ctx
	outs    []*COut
	seq     int64
	running int
	idle    chan struct{}
	stop    bool
}

type ctx struct {
	tx   *stomp.Transaction
	id   string
	done bool
}

// CPlan is a complete scenario.
type CPlan struct {
	Conn    ConnPlan   `json:"conn"`
	Rcpt    []RAct     `json:"rcpt,omitempty"`
	HBLimit bool       `json:"hb_limit,omitempty"` // Rcpt applies to transactions as well, whose calls wait for a heart-beat interval
	Steps   []PStep    `json:"steps,omitempty"`
	Prog    [][]COp    `json:"prog"`
	End     EndPlan    `json:"end"`
	Disc    *RAct      `json:"disc,omitempty"` // the answer to DISCONNECT, if not according to Rcpt
	Fin     string     `json:"fin,omitempty"`  // "" disconnect, eof, must
	Late    []COp      `json:"late,omitempty"`
	OnMsg   MPlan      `json:"on_msg"` // messages sent around an UNSUBSCRIBE
	Sched   core.Sched `json:"sched"`
	Stall   int        `json:"stall,omitempty"` // ms the peer takes before it reads anything
}

// reuses tells whether a subscription id is used by more than one subscription.
func (pl CPlan) reuses() bool {
	seen := map[Str]bool{}
	for _, ops := range pl.Prog {
		for _, o := range ops {
			if o.K == "sub" && o.Id != "" {
				if seen[o.Id] {
					return true
				}
				seen[o.Id] = true
			}
		}
	}
	return false
}

func (pl CPlan) has(k string) bool {
	for _, ops := range pl.Prog {
		for _, o := range ops {
			if o.K == k {
				return true
			}
		}
	}
	return false
}

func (w *cworld) now() time.Duration { return time.Since(w.t0) }

// ---------------------------------------------------------------- peer

func (p *cpeer) push(f qframe) {
	p.mu.Lock()
	p.q = append(p.q, f)
	p.mu.Unlock()
	select {
	case p.kick <- struct{}{}:
	default:
	}
}

// writer sends queued frames; a frame that is not due yet does not hold up the others.
func (p *cpeer) writer() {
	for {
		p.mu.Lock()
		now := p.w.now()
		best, wait := -1, time.Duration(0)
		for i, q := range p.q {
			if q.at <= now {
				best = i
				break
			}
			if d := q.at - now; wait == 0 || d < wait {
				wait = d
			}
		}
		if p.dead {
			p.mu.Unlock()
			return
		}
		if best < 0 {
			p.mu.Unlock()
			if wait == 0 {
				wait = time.Hour
			}
			tm := time.NewTimer(wait)
			select {
			case <-p.kick:
			case <-tm.C:
			}
			tm.Stop()
			continue
		}
		q := p.q[best]
		p.q = append(append([]qframe{}, p.q[:best]...), p.q[best+1:]...)
		var k int
		if q.f.Cmd != "" {
			p.out = append(p.out, pframe{At: now, F: q.f, Sub: q.sub, End: -1})
			k = len(p.out) - 1
		}
		unit := -1
		if q.f.Cmd != "" || string(q.raw) == "\n" || strings.HasPrefix(string(q.raw), "MESSAGE") && strings.HasSuffix(string(q.raw), "\x00") {
			p.units = append(p.units, punit{now, -1})
			unit = len(p.units) - 1
		}
		p.mu.Unlock()
		raw := q.raw
		if raw == nil {
			raw = wire.Encode(q.f)
		}
		_, err := p.c.Write(raw)
		p.mu.Lock()
		if err == nil && q.f.Cmd != "" {
			p.out[k].End = p.w.now()
		}
		if err == nil && unit >= 0 {
			p.units[unit].End = p.w.now()
		}
		if q.end {
			p.endAt, p.endDone = p.w.now(), true
		}
		p.mu.Unlock()
		if q.last {
			p.close()
		}
	}
}

func (p *cpeer) close() {
	p.mu.Lock()
	p.dead = true
	p.mu.Unlock()
	_ = p.c.Close()
	p.wake()
}

func (p *cpeer) wake() {
	select {
	case p.kick <- struct{}{}:
	default:
	}
}

// message builds the next MESSAGE for a subscription id.
func (p *cpeer) message(m MPlan, id string, has bool, dest string) wire.Frame {
	p.mu.Lock()
	p.serial++
	n := p.serial
	mid := n
	if m.Again && p.lastMid[id] > 0 {
		mid = p.lastMid[id]
	}
	if p.lastMid == nil {
		p.lastMid = map[string]int{}
	}
	p.lastMid[id] = mid
	p.mu.Unlock()
	d := m.Dest
	if d == "" {
		d = Str(dest)
	}
	f := wire.F("MESSAGE", "destination", string(d))
	if has && !m.Last {
		f = f.With("subscription", id)
	}
	if !m.NoMid {
		f = f.With("message-id", "m:\\"+itoa(mid)+"\n")
	}
	if !m.NoAck {
		f = f.With("ack", "a:\r"+itoa(n))
	}
	f = f.With("serial", itoa(n))
	if m.CT != "" {
		f = f.With("content-type", string(m.CT))
	}
	f.H = append(f.H, m.H...)
	b := m.Body // no two bodies are the same, unless empty
	b.Seed += uint32(n)
	if b.Lit != "" {
		b.Lit += Str(itoa(n))
	}
	f.Body = b.Bytes()
	if m.NoCL {
		f.Body = bytes.ReplaceAll(f.Body, []byte{0}, []byte("z"))
	} else if len(f.Body) > 0 || n%2 == 0 {
		f = f.With("content-length", itoa(len(f.Body)))
	}
	if has && m.Last {
		f = f.With("subscription", id)
	}
	return f
}

func (p *cpeer) reader() {
	var dec wire.Decoder
	buf := make([]byte, 8192)
	for left := msd(p.w.plan.Stall); left > 0; left -= 50 * time.Millisecond {
		p.mu.Lock()
		over := p.dead
		p.mu.Unlock()
		if over {
			break
		}
		time.Sleep(min(left, 50*time.Millisecond))
	}
	for {
		n, err := p.c.Read(buf)
		if n > 0 {
			fs, st := dec.Feed(buf[:n])
			now := p.w.now()
			for _, f := range fs {
				if f.Cmd == "" {
					p.mu.Lock()
					p.beats = append(p.beats, now)
					p.mu.Unlock()
					continue
				}
				p.arrived(f, now)
			}
			if st == wire.Malformed || st == wire.Unspecified {
				p.mu.Lock()
				p.bad = "the client sent bytes that are no frame"
				p.mu.Unlock()
				return
			}
		}
		if err != nil {
			p.mu.Lock()
			p.gotEOF, p.eofAt = true, p.w.now()
			if dec.Pending() > 0 && p.bad == "" && err.Error() == "EOF" && p.w.plan.End.Kind == "" && p.w.plan.Fin == "" {
				p.bad = fmt.Sprintf("the stream ends with %d bytes of an incomplete frame", dec.Pending())
			}
			p.mu.Unlock()
			return
		}
	}
}

func (p *cpeer) arrived(f wire.Frame, now time.Duration) {
	pl := p.w.plan
	p.mu.Lock()
	p.in = append(p.in, pframe{At: now, F: f})
	nframes := len(p.in)
	subI := -1
	switch f.Cmd {
	case "SUBSCRIBE":
		p.subs = append(p.subs, psub{id: f.Get("id"), dest: f.Get("destination"), at: now})
	case "UNSUBSCRIBE":
		for i := len(p.subs) - 1; i >= 0; i-- {
			if p.subs[i].id == f.Get("id") {
				subI = i
				p.subs[i].unsubd, p.subs[i].unsub = true, now
				break
			}
		}
	}
	id, want := f.Lookup("receipt")
	var a RAct
	if want {
		if len(pl.Rcpt) > 0 && !p.normal {
			a = pl.Rcpt[p.seen%len(pl.Rcpt)]
			_, tx := f.Lookup("transaction")
			if (f.Cmd != "SEND" && f.Cmd != "UNSUBSCRIBE" && f.Cmd != "DISCONNECT" || tx) && a.Mode != "error" && (!tx || !pl.HBLimit) {
				a.Mode = "" // these wait without a limit
			}
		}
		p.seen++
		if f.Cmd == "DISCONNECT" && pl.Disc != nil {
			a = *pl.Disc
		}
	}
	p.mu.Unlock()
	if want {
		at := now + msd(a.Ms)
		burst := func(n int) {
			if subI < 0 || pl.reuses() {
				return
			}
			for i := 0; i < n; i++ {
				p.push(qframe{f: p.message(pl.OnMsg, p.subs[subI].id, true, p.subs[subI].dest), sub: subI, at: at})
			}
		}
		burst(a.Pre)
		switch a.Mode {
		case "":
			p.push(qframe{f: wire.F("RECEIPT", "receipt-id", id), at: at})
		case "dup":
			p.push(qframe{f: wire.F("RECEIPT", "receipt-id", id), at: at})
			p.push(qframe{f: wire.F("RECEIPT", "receipt-id", id), at: at})
		case "wrong":
			p.push(qframe{f: wire.F("RECEIPT", "receipt-id", id+"-wrong"), at: at})
		case "eof":
			p.mu.Lock()
			if !p.ended {
				p.ended, p.endAt = true, at
			}
			p.mu.Unlock()
			p.push(qframe{raw: []byte("\n"), at: at, last: true, end: true})
		case "error":
			p.mu.Lock()
			if !p.ended {
				p.ended, p.endAt = true, at
			}
			p.mu.Unlock()
			p.push(qframe{f: wire.F("ERROR", "message", "refused "+id, "receipt-id", id).WithBody([]byte("why")), at: at, end: true})
			p.push(qframe{raw: []byte("\n"), at: at + time.Second, last: true})
		}
		burst(a.Post)
	}
	if pl.End.Kind != "" && pl.End.Frame > 0 && nframes == pl.End.Frame {
		p.end()
	}
}

// end ends the connection as planned.
func (p *cpeer) end() {
	e := p.w.plan.End
	p.mu.Lock()
	if p.ended {
		p.mu.Unlock()
		return
	}
	p.ended, p.endAt = true, p.w.now()
	p.mu.Unlock()
	switch e.Kind {
	case "error":
		f := wire.F("ERROR")
		if !e.NoMsg {
			f = f.With("message", string(e.Msg))
		}
		f = f.WithBody([]byte("the reason"))
		p.push(qframe{f: f, last: !e.Keep && !e.Extra, end: true})
		if e.Extra {
			for i := 0; i < 40; i++ {
				p.push(qframe{raw: []byte("MESSAGE\nsubscription:nobody\n\n\x00")})
			}
			p.push(qframe{raw: []byte("\n"), last: !e.Keep})
		}
	case "eof":
		p.push(qframe{raw: []byte("\n"), last: true, end: true})
	case "reset":
		p.mu.Lock()
		p.endDone = true
		p.dead = true
		p.mu.Unlock()
		p.c.Reset()
		p.wake()
	case "garbage":
		p.push(qframe{raw: []byte("HELLO\n\nxx\x00"), end: true})
	case "partial":
		p.push(qframe{raw: []byte("MESSAGE\nsubscription:1\nfoo:ba"), last: true, end: true})
	case "badreceipt":
		p.push(qframe{f: wire.F("RECEIPT", "foo", "bar"), end: true})
	case "failwrite":
		p.w.cl.FailWriteAfter(e.Bytes)
	case "silence":
		p.mu.Lock()
		p.silentAt = p.w.now()
		p.mu.Unlock()
	}
}

// beater keeps the promise of the server's heart-beats.
func (p *cpeer) beater(every time.Duration) {
	for {
		time.Sleep(every)
		p.mu.Lock()
		over := p.dead || p.ended
		p.mu.Unlock()
		if over {
			return
		}
		p.push(qframe{raw: []byte("\n")})
	}
}

// script performs the unsolicited steps.
func (p *cpeer) script(steps []PStep) {
	reuses, ends := p.w.plan.reuses(), p.w.plan.has("unsub")
	for _, s := range steps {
		time.Sleep(msd(s.Ms))
		if p.w.isStopped() {
			return
		}
		n := s.N
		if n == 0 {
			n = 1
		}
		switch s.K {
		case "msg":
			for i := 0; i < n; i++ {
				p.mu.Lock()
				k := -1
				id, has, dest := "unknown:"+itoa(i), true, "/nowhere"
				if s.Sub >= 0 && len(p.subs) > 0 {
					k = s.Sub % len(p.subs)
					id, dest = p.subs[k].id, p.subs[k].dest
					if p.subs[k].unsubd && reuses {
						// only a server in error would send to it
						p.mu.Unlock()
						continue
					}
				} else if s.Sub == -2 {
					has = false
				}
				p.mu.Unlock()
				p.push(qframe{f: p.message(s.M, id, has, dest), sub: k})
			}
		case "receipt":
			id := string(s.Id)
			if s.Prev {
				p.mu.Lock()
				for _, o := range p.out {
					if o.F.Cmd == "RECEIPT" {
						id = o.F.Get("receipt-id")
					}
				}
				p.mu.Unlock()
			} else if s.Sub > 0 && !ends {
				// the id of a subscription nobody has asked to end
				p.mu.Lock()
				if len(p.subs) > 0 {
					if q := p.subs[s.Sub%len(p.subs)]; !q.unsubd {
						id = q.id
					}
				}
				p.mu.Unlock()
			}
			for i := 0; i < n; i++ {
				p.push(qframe{f: wire.F("RECEIPT", "receipt-id", id)})
			}
		case "beat":
			p.push(qframe{raw: []byte("\n")})
		case "odd":
			p.push(qframe{f: wire.F("CONNECTED", "version", "1.2")})
		}
	}
}

// frames returns the frames of the given commands from the client after CONNECT.
func (p *cpeer) frames(cmds ...string) (fs []pframe) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, f := range p.in {
		for _, c := range cmds {
			if f.F.Cmd == c {
				fs = append(fs, f)
			}
		}
	}
	return
}

// ---------------------------------------------------------------- programs

func (w *cworld) isStopped() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.stop
}

func (w *cworld) spawn(f func()) {
	w.mu.Lock()
	w.running++
	w.mu.Unlock()
	go func() {
		f()
		w.mu.Lock()
		w.running--
		w.mu.Unlock()
		select {
		case w.idle <- struct{}{}:
		default:
		}
	}()
}

// settle waits until every program and consumer has ended, or the time is over.
func (w *cworld) settle(limit time.Duration) bool {
	tm := time.NewTimer(limit)
	defer tm.Stop()
	for {
		w.mu.Lock()
		n := w.running
		w.mu.Unlock()
		if n == 0 {
			return true
		}
		select {
		case <-w.idle:
		case <-tm.C:
			return false
		}
	}
}

func (w *cworld) consume(s *csub) {
	defer func() {
		w.mu.Lock()
		s.idle = true
		w.mu.Unlock()
	}()
	read := s.op.Read
	for {
		var m *stomp.Message
		ok := true
		if read {
			var err error
			m, err = s.s.Read()
			bad := ""
			switch {
			case err != nil && m != nil:
				bad = "a message and an error"
			case errText(err) == stomp.ErrCompletedSubscription.Error():
				if s.s.Active() {
					bad = "the error of an ended subscription while it is active"
				}
				read = false // what is left can still be read from the channel
			case err != nil:
				m = &stomp.Message{Err: err}
			case m == nil || m.Err != nil:
				bad = "neither a message nor an error"
			}
			if bad != "" {
				w.mu.Lock()
				s.badRead = bad
				w.mu.Unlock()
				read = false
			}
			if !read {
				continue
			}
		} else {
			m, ok = <-s.s.C
		}
		w.mu.Lock()
		if !ok {
			s.closed, s.closeAt = true, w.now()
			w.mu.Unlock()
			return
		}
		c := &cmsg{At: w.now(), M: m, Err: m.Err, Dest: m.Destination, CT: m.ContentType, Sub: m.Subscription, Conn: m.Conn,
			Body: append([]byte(nil), m.Body...)}
		if m.Header != nil {
			for i := 0; i < m.Header.Len(); i++ {
				k, v := m.Header.GetAt(i)
				c.H = append(c.H, KV{Str(k), Str(v)})
			}
		}
		s.msgs = append(s.msgs, c)
		w.mu.Unlock()
		if s.op.Slow > 0 {
			time.Sleep(msd(s.op.Slow))
		}
	}
}

var errOption = errors.New("option failed")

func badOption(f *frame.Frame) error { return errOption }

func (o COp) sendOpts() (opts []func(*frame.Frame) error) {
	for i, h := range o.H {
		if o.NilO && i == 0 {
			opts = append(opts, nil)
		}
		opts = append(opts, stomp.SendOpt.Header(string(h.K), string(h.V)))
	}
	if o.NoCL {
		opts = append(opts, stomp.SendOpt.NoContentLength)
	}
	if o.Rcpt {
		if o.Id != "" {
			opts = append(opts, stomp.SendOpt.Header("receipt", string(o.Id)))
		} else {
			opts = append(opts, stomp.SendOpt.Receipt)
		}
	}
	switch o.Bad {
	case 1:
		opts = append(opts, badOption)
	case 2:
		opts = append(opts, stomp.SubscribeOpt.Id("7"))
	}
	return
}

func (w *cworld) do(g, i int, op COp) {
	if op.Ms > 0 {
		time.Sleep(msd(op.Ms))
	}
	o := &COut{G: g, I: i, Op: op}
	w.mu.Lock()
	w.outs = append(w.outs, o)
	o.Late = g < 0
	var s *csub
	var tx *ctx
	var msg *cmsg
	switch op.K {
	case "unsub", "ack", "nack", "tack", "tnack":
		s = w.slots[op.S]
		if s == nil {
			o.Skip = true
		}
		o.Sub = s
		if s != nil && op.K != "unsub" && op.Odd == "" {
			var real []*cmsg
			for _, m := range s.msgs {
				if m.Err == nil {
					real = append(real, m)
				}
			}
			if len(real) == 0 {
				o.Skip = true
			} else {
				msg = real[op.N%len(real)]
				o.Msg = msg
			}
		}
	}
	if op.K == "sub" && op.Id != "" {
		// an id may be used again once the predecessor is gone
		for _, q := range w.subs {
			if q.op.Id == op.Id && !q.free {
				o.Skip = true
			}
		}
	}
	switch op.K {
	case "tsend", "tack", "tnack", "commit", "abort":
		tx = w.txs[op.T]
		if tx == nil {
			o.Skip = true
		} else {
			o.TxId, o.TxDone = tx.id, tx.done
		}
	}
	if o.Skip {
		w.mu.Unlock()
		return
	}
	w.seq++
	o.seq = w.seq
	o.Start = w.now()
	w.mu.Unlock()
	var err error
	var body []byte
	if op.K == "send" || op.K == "tsend" {
		body = op.Body.Bytes()
	}
	var m *stomp.Message
	if msg != nil {
		m = msg.M
	}
	switch op.Odd {
	case "blank":
		m = &stomp.Message{}
	case "handmade":
		m = &stomp.Message{Header: frame.NewHeader("message-id", "1", "ack", "1"), Body: []byte("x")}
	case "noheader":
		m = &stomp.Message{Conn: w.conn, Subscription: s.s}
	case "noconn":
		m = &stomp.Message{Header: frame.NewHeader("message-id", "1", "ack", "1"), Subscription: s.s, Body: []byte("x")}
	}
	switch op.K {
	case "send":
		err = w.conn.Send(string(op.Dest), string(op.CT), body, op.sendOpts()...)
	case "sub":
		opts := []func(*frame.Frame) error{}
		if op.NilO {
			opts = append(opts, nil)
		}
		if op.Id != "" {
			opts = append(opts, stomp.SubscribeOpt.Id(string(op.Id)))
		}
		for _, h := range op.H {
			opts = append(opts, stomp.SubscribeOpt.Header(string(h.K), string(h.V)))
		}
		switch op.Bad {
		case 1:
			opts = append(opts, badOption)
		case 2:
			opts = append(opts, stomp.SendOpt.Receipt)
		}
		var sub *stomp.Subscription
		sub, err = w.conn.Subscribe(string(op.Dest), stomp.AckMode(op.Mode), opts...)
		if err == nil {
			c := &csub{slot: op.S, op: op, g: g, s: sub, made: w.now()}
			w.mu.Lock()
			w.slots[op.S] = c
			w.subs = append(w.subs, c)
			o.Sub = c
			w.mu.Unlock()
			w.spawn(func() { w.consume(c) })
			if reply := kvGet(op.H, "reply-to"); reply != "" {
				// the server knows of it from a SEND
				w.spawn(func() {
					time.Sleep(100 * time.Millisecond)
					w.peer.mu.Lock()
					w.peer.subs = append(w.peer.subs, psub{id: reply, dest: reply, at: w.now()})
					w.peer.mu.Unlock()
				})
			}
		}
	case "unsub":
		opts := []func(*frame.Frame) error{}
		if op.NilO {
			opts = append(opts, nil)
		}
		for _, h := range op.H {
			opts = append(opts, stomp.SubscribeOpt.Header(string(h.K), string(h.V)))
		}
		if op.Bad > 0 {
			opts = append(opts, badOption)
		}
		err = s.s.Unsubscribe(opts...)
		o.Active = s.s.Active()
		if err == nil {
			w.mu.Lock()
			s.free = true
			w.mu.Unlock()
		}
	case "ack":
		err = w.conn.Ack(m)
	case "nack":
		err = w.conn.Nack(m)
	case "begin":
		var tx *stomp.Transaction
		if op.Odd == "plain" {
			tx = w.conn.Begin()
		} else {
			tx, err = w.conn.BeginWithError()
		}
		if err == nil {
			c := &ctx{tx: tx, id: tx.Id()} // library code never runs under w.mu
			w.mu.Lock()
			o.TxId = c.id
			w.txs[op.T] = c
			w.alltx = append(w.alltx, c)
			w.mu.Unlock()
		}
	case "tsend":
		err = tx.tx.Send(string(op.Dest), string(op.CT), body, op.sendOpts()...)
	case "tack":
		err = tx.tx.Ack(m)
	case "tnack":
		err = tx.tx.Nack(m)
	case "commit":
		if op.Rcpt {
			err = tx.tx.CommitWithReceipt()
		} else {
			err = tx.tx.Commit()
		}
	case "abort":
		if op.Rcpt {
			err = tx.tx.AbortWithReceipt()
		} else {
			err = tx.tx.Abort()
		}
	case "disc":
		err = w.conn.Disconnect()
	case "must":
		err = w.conn.MustDisconnect()
	case "stats":
		o.Stats = w.conn.Stats()
	}
	w.mu.Lock()
	w.seq++
	o.endSeq = w.seq
	o.End, o.Err, o.Done = w.now(), err, true
	if tx != nil && err == nil && (op.K == "commit" || op.K == "abort") {
		tx.done = true
	}
	w.mu.Unlock()
}

// ---------------------------------------------------------------- running

// CHist is what a run left behind.
type CHist struct {
	w         *cworld
	ConnErr   error
	Hung      bool // programs did not end although the connection had been ended
	Forced    bool // the harness had to end the connection to get there
	ForcedAt  time.Duration
	Leaked    bool
	Connect   wire.Frame
	ProgEnd   time.Duration // when the programs were done
	FinAt     time.Duration
	FinDone   time.Duration
	FinErr    error
	LateFrom  time.Duration
	LateIn    int // frames that had arrived before the late ops
	LateHung  bool
	PeerUnfin string
	Quiet     stomp.ConnectionStats // at FinAt
	After     stomp.ConnectionStats // after the end
}

const settleLimit = 10 * time.Minute

// run executes the plan.
func (pl CPlan) run(x *core.Ctx) *CHist {
	h := &CHist{}
	h.Leaked = x.Bubble(func() {
		w := &cworld{t0: time.Now(), plan: pl, slots: map[int]*csub{}, txs: map[int]*ctx{}, idle: make(chan struct{}, 1)}
		h.w = w
		cl, sv := netsim.Pair(pl.Conn.C2S, pl.Conn.S2C, "client:1", "server:61613")
		w.cl = cl
		p := &cpeer{w: w, c: sv, kick: make(chan struct{}, 1)}
		w.peer = p
		pl.Sched.Arm()
		defer pl.Sched.Disarm()
		// handshake
		hs := make(chan bool, 1)
		go func() {
			var dec wire.Decoder
			buf := make([]byte, 4096)
			for {
				n, err := sv.Read(buf)
				if err != nil {
					hs <- false
					return
				}
				if fs, _ := dec.Feed(buf[:n]); len(fs) > 0 {
					h.Connect = fs[0]
					break
				}
			}
			f := wire.F("CONNECTED", "session", "s1", "server", "peer")
			if pl.Conn.Ver != "" {
				f = f.With("version", pl.Conn.Ver)
			}
			if len(pl.Conn.HB) == 5 {
				f = f.With("heart-beat", fmt.Sprintf("%d,%d", pl.Conn.HB[2], pl.Conn.HB[3]))
			}
			_, _ = sv.Write(wire.Encode(f))
			hs <- true
		}()
		w.conn, h.ConnErr = stomp.Connect(cl, pl.Conn.opts()...)
		if h.ConnErr != nil {
			_ = cl.Close()
			_ = sv.Close()
			<-hs
			return
		}
		<-hs
		go p.reader()
		go p.writer()
		if len(pl.Conn.HB) == 5 && pl.Conn.HB[2] > 0 {
			go p.beater(msd(pl.Conn.HB[2]) / 2)
		}
		if len(pl.Steps) > 0 {
			go p.script(pl.Steps)
		}
		if pl.End.Kind != "" && pl.End.Frame == 0 {
			go func() {
				time.Sleep(msd(pl.End.AtMs))
				p.end()
			}()
		}
		progs := 0
		pidle := make(chan struct{}, len(pl.Prog)+1)
		for g := range pl.Prog {
			progs++
			go func() {
				for i, op := range pl.Prog[g] {
					w.do(g, i, op)
				}
				pidle <- struct{}{}
			}()
		}
		wait := func(limit time.Duration) bool {
			tm := time.NewTimer(limit)
			defer tm.Stop()
			for progs > 0 {
				select {
				case <-pidle:
					progs--
				case <-tm.C:
					return false
				}
			}
			return true
		}
		ok := wait(settleLimit)
		if !ok {
			h.Forced, h.ForcedAt = true, w.now()
			p.close()
			ok = wait(settleLimit)
		}
		h.ProgEnd = w.now()
		h.Hung = !ok
		if pl.End.Kind != "" && ok {
			// let the planned end happen
			for i := 0; i < 1000; i++ {
				p.mu.Lock()
				e := p.ended
				p.mu.Unlock()
				if e {
					break
				}
				if pl.End.Frame > 0 && i > 10 {
					p.end()
				}
				time.Sleep(20 * time.Millisecond)
			}
		}
		// let the peer say what it has to say
		time.Sleep(30 * time.Second)
		w.mu.Lock()
		w.stop = true
		w.mu.Unlock()
		if len(pl.Late) > 0 && ok {
			h.LateFrom = w.now()
			p.mu.Lock()
			h.LateIn = len(p.in)
			p.normal = true
			p.mu.Unlock()
			progs = 1
			go func() {
				for i, op := range pl.Late {
					w.do(-1, i, op)
				}
				pidle <- struct{}{}
			}()
			h.LateHung = !wait(settleLimit)
		}
		h.Quiet = w.conn.Stats()
		h.FinAt = w.now()
		fin := make(chan error, 1)
		switch pl.Fin {
		case "":
			go func() { fin <- w.conn.Disconnect() }()
		case "must":
			go func() { fin <- w.conn.MustDisconnect() }()
		default:
			p.close()
			fin <- nil
		}
		tm := time.NewTimer(settleLimit)
		select {
		case h.FinErr = <-fin:
			h.FinDone = w.now()
		case <-tm.C:
			h.Hung = true
		}
		tm.Stop()
		w.settle(settleLimit)
		time.Sleep(time.Minute)
		p.close()
		h.After = w.conn.Stats()
		_ = cl // the library is responsible for its own end
		time.Sleep(time.Minute)
	})
	return h
}

// ---------------------------------------------------------------- shared oracles

// early reports failures that every check on this world shares.
func (h *CHist) early() string {
	if h.ConnErr != nil {
		return "connecting failed: " + h.ConnErr.Error()
	}
	for _, s := range h.w.subs {
		if s.badRead != "" {
			return fmt.Sprintf("subscription %q: Read returned %s", s.s.Id(), s.badRead)
		}
	}
	return ""
}

// expected gives the frame a send must put on the wire (receipt and transaction entries are added by the caller).
func (o COp) expected() []KV {
	hs := []KV{{"destination", o.Dest}}
	if !o.NoCL {
		hs = append(hs, KV{"content-length", Str(itoa(o.Body.Len()))})
	}
	if o.CT != "" {
		hs = append(hs, KV{"content-type", o.CT})
	}
	return append(hs, o.H...)
}

func without(h []KV, keys ...string) (r []KV) {
outer:
	for _, e := range h {
		for _, k := range keys {
			if string(e.K) == k {
				continue outer
			}
		}
		r = append(r, e)
	}
	return
}

// sameHeaders compares header lists as multisets that keep the order among equal names.
func sameHeaders(a, b []KV) bool {
	if len(a) != len(b) {
		return false
	}
	key := func(h []KV) []KV {
		r := append([]KV{}, h...)
		sort.SliceStable(r, func(i, j int) bool { return r[i].K < r[j].K })
		return r
	}
	x, y := key(a), key(b)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

func opTag(g, i int) string { return fmt.Sprintf("%d.%d", g, i) }

func (h *CHist) dump() string {
	var b strings.Builder
	w := h.w
	if w == nil || w.peer == nil {
		return ""
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, o := range w.outs {
		fmt.Fprintf(&b, "  %v\n", o)
	}
	w.peer.mu.Lock()
	defer w.peer.mu.Unlock()
	for i, f := range w.peer.in {
		if i > 30 {
			fmt.Fprintf(&b, "  ... %d frames from the client\n", len(w.peer.in))
			break
		}
		fmt.Fprintf(&b, "  %v -> %v\n", f.At, f.F)
	}
	for i, f := range w.peer.out {
		if i > 30 {
			fmt.Fprintf(&b, "  ... %d frames to the client\n", len(w.peer.out))
			break
		}
		fmt.Fprintf(&b, "  %v <- %v\n", f.At, f.F)
	}
	for _, s := range w.subs {
		fmt.Fprintf(&b, "  sub slot %d id %q: %d messages, closed=%v %v\n", s.slot, s.s.Id(), len(s.msgs), s.closed, s.closeAt)
	}
	return b.String()
}

func (h *CHist) failf(format string, a ...any) Result {
	s := fmt.Sprintf(format, a...)
	d := h.dump()
	if len(d) > 5000 {
		d = d[:5000] + "..."
	}
	return Result{Fail: s + "\nhistory:\n" + d}
}

type Result = core.Result

// psubOf finds the SUBSCRIBE frame of a subscription; -1 if there is none on the wire.
func (h *CHist) psubOf(s *csub) int {
	id := s.s.Id()
	nth := 0
	for _, q := range h.w.subs {
		if q == s {
			break
		}
		if q.s.Id() == id {
			nth++
		}
	}
	for i, q := range h.w.peer.subs {
		if q.id == id {
			if nth == 0 {
				return i
			}
			nth--
		}
	}
	return -1
}

// confirmPos is the position in peer.out of the RECEIPT that confirmed the UNSUBSCRIBE of psub k, or -1.
func (h *CHist) confirmPos(k int) int {
	p := h.w.peer
	if k < 0 || !p.subs[k].unsubd {
		return -1
	}
	receipt := ""
	for _, f := range p.in {
		if f.F.Cmd == "UNSUBSCRIBE" && f.At == p.subs[k].unsub && f.F.Get("id") == p.subs[k].id {
			receipt = f.F.Get("receipt")
		}
	}
	for i, f := range p.out {
		if f.F.Cmd == "RECEIPT" && f.At >= p.subs[k].unsub && f.F.Get("receipt-id") == receipt {
			return i
		}
	}
	return -1
}

// checkDelivery compares what a subscription received with what the peer sent to it.
// Error messages are left to other oracles.
func (h *CHist) checkDelivery(s *csub, complete bool) string {
	k := h.psubOf(s)
	p := h.w.peer
	var want []pframe
	if k >= 0 {
		c := h.confirmPos(k)
		for i, f := range p.out {
			if f.F.Cmd == "MESSAGE" && f.Sub == k && (c < 0 || i < c) {
				want = append(want, f)
			}
		}
	}
	var got []*cmsg
	for _, m := range s.msgs {
		if m.Err == nil {
			got = append(got, m)
		}
	}
	for i, m := range got {
		if i >= len(want) {
			return fmt.Sprintf("subscription %q received %d messages, only %d were sent to it before it ended; surplus: serial %q", s.s.Id(), len(got), len(want), kvGet(m.H, "serial"))
		}
		f := want[i].F
		if kvGet(m.H, "serial") != f.Get("serial") {
			return fmt.Sprintf("subscription %q: message %d has serial %q, expected %q", s.s.Id(), i, kvGet(m.H, "serial"), f.Get("serial"))
		}
		if m.At < want[i].At {
			return fmt.Sprintf("message %d received before it was sent", i)
		}
		if !sameList(m.H, f.H) {
			return fmt.Sprintf("message serial %s: headers %q, sent %q", f.Get("serial"), m.H, f.H)
		}
		if m.Dest != f.Get("destination") || m.CT != f.Get("content-type") {
			return fmt.Sprintf("message serial %s: destination %q, content type %q, sent %q, %q", f.Get("serial"), m.Dest, m.CT, f.Get("destination"), f.Get("content-type"))
		}
		if string(m.Body) != string(f.Body) {
			return fmt.Sprintf("message serial %s: the body differs (%d bytes, sent %d)", f.Get("serial"), len(m.Body), len(f.Body))
		}
		if string(m.M.Body) != string(f.Body) {
			return fmt.Sprintf("message serial %s: the body changed after the message had been received", f.Get("serial"))
		}
		if m.Sub != s.s || m.Conn != h.w.conn {
			return fmt.Sprintf("message serial %s: tied to another subscription or connection", f.Get("serial"))
		}
	}
	if complete && len(got) < len(want) {
		return fmt.Sprintf("subscription %q received %d of %d messages", s.s.Id(), len(got), len(want))
	}
	return ""
}

func sameList(a, b []KV) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func kvGet(h []KV, k string) string {
	for _, e := range h {
		if string(e.K) == k {
			return string(e.V)
		}
	}
	return ""
}

// errMsgs counts the error messages of a subscription; last tells whether the final message is one.
func (s *csub) errMsgs() (n int, last bool) {
	for i, m := range s.msgs {
		if m.Err != nil {
			n++
			last = i == len(s.msgs)-1
		}
	}
	return
}

// errorAt is when the peer sent ERROR (or <0) and its message.
func (h *CHist) errorAt() (time.Duration, string) {
	for _, f := range h.w.peer.out {
		if f.F.Cmd == "ERROR" {
			m, ok := f.F.Lookup("message")
			if !ok || m == "" {
				m = "ERROR frame, missing message header"
			}
			return f.At, m
		}
	}
	return -1, ""
}

// receiptAt is when the peer sent the RECEIPT of id (or <0), not before from.
func (h *CHist) receiptAt(id string, from time.Duration) time.Duration {
	for _, f := range h.w.peer.out {
		if f.F.Cmd == "RECEIPT" && f.F.Get("receipt-id") == id && f.At >= from {
			return f.At
		}
	}
	return -1
}
