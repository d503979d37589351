package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"
	"pgregory.net/rapid"
	"verif.local/harness/core"
	"verif.local/harness/netsim"
	"verif.local/harness/wire"
)

// C01: connecting. Part "connect" runs over a simulated transport, part "dial" over real
// loopback sockets.

// NOpt is one connect option.
type NOpt struct {
	K string `json:"k"` // login, host, stomp, ver, hb, header, bufs, chans, stats, nil, bad, resp
	A Str    `json:"a,omitempty"`
	B Str    `json:"b,omitempty"`
	N int    `json:"n,omitempty"`
	M int    `json:"m,omitempty"`
	L []Str  `json:"l,omitempty"`
}

// NReply is what the server does.
type NReply struct {
	K     string     `json:"k"` // connected, error, frame, raw, eof, reset, silent, unread
	F     wire.Frame `json:"f"`
	Lead  int        `json:"lead,omitempty"`  // LFs in front
	Cut   int        `json:"cut,omitempty"`   // permille of the frame that is written before the end (k eof, reset)
	Raw   Body       `json:"raw"`             // k raw
	Delay int        `json:"delay,omitempty"` // ms before each piece
	Split int        `json:"split,omitempty"` // permille
	More  int        `json:"more,omitempty"`  // MESSAGEs of no subscription written together with the reply
	Early bool       `json:"early,omitempty"` // written before anything was read
}

type NPlan struct {
	Sched  core.Sched  `json:"sched"`
	Opts   []NOpt      `json:"opts"`
	Reply  NReply      `json:"reply"`
	Addr   string      `json:"addr"` // "-": the transport is no net.Conn
	C2S    netsim.Link `json:"c2s"`
	S2C    netsim.Link `json:"s2c"`
	Dead   int         `json:"dead"` // ms; 0: no deadline
	FailAt int         `json:"fail_at,omitempty"`
}

type bareConn struct{ c io.ReadWriteCloser }

func (b bareConn) Read(p []byte) (int, error)  { return b.c.Read(p) }
func (b bareConn) Write(p []byte) (int, error) { return b.c.Write(p) }
func (b bareConn) Close() error                { return b.c.Close() }

var errBadOpt = errors.New("this option always fails")

// nWant is what the options ask for.
type nWant struct {
	frame      wire.Frame
	custom     []KV
	bad        bool // an option must be refused
	vers       map[string]bool
	send, recv time.Duration
	resp       bool
	respCalls  int
	got        *frame.Header
}

func nOptions(ops []NOpt, host string) (opts []func(*stomp.Conn) error, w *nWant) {
	w = &nWant{vers: map[string]bool{}, send: time.Minute, recv: time.Minute}
	o := &stomp.ConnOpt
	cmd, login, pass := "CONNECT", "", ""
	var vers []string
	opts = append(opts, o.Logger(quiet{}))
	for _, op := range ops {
		switch op.K {
		case "login":
			opts = append(opts, o.Login(string(op.A), string(op.B)))
			login, pass = string(op.A), string(op.B)
		case "host":
			opts = append(opts, o.Host(string(op.A)))
			if op.A != "" {
				host = string(op.A)
			} // an empty host is no host: what the transport tells is used (last one counts)
		case "stomp":
			opts = append(opts, o.UseStomp)
			cmd = "STOMP"
		case "ver":
			var vs []stomp.Version
			for _, v := range op.L {
				vs = append(vs, stomp.Version(v))
				if v != "1.0" && v != "1.1" && v != "1.2" {
					w.bad = true
				}
				vers = append(vers, string(v))
			}
			opts = append(opts, o.AcceptVersion(vs...))
		case "hb":
			w.send, w.recv = time.Duration(op.N)*time.Microsecond, time.Duration(op.M)*time.Microsecond
			opts = append(opts, o.HeartBeat(w.send, w.recv))
		case "header":
			opts = append(opts, o.Header(string(op.A), string(op.B)))
			w.custom = append(w.custom, KV{op.A, op.B})
		case "bufs":
			opts = append(opts, o.ReadBufferSize(op.N), o.WriteBufferSize(op.M))
		case "chans":
			opts = append(opts, o.ReadChannelCapacity(op.N), o.WriteChannelCapacity(op.M))
		case "stats":
			opts = append(opts, o.WithStats())
		case "nil":
			opts = append(opts, nil)
		case "nillog":
			opts = append(opts, o.Logger(nil))
		case "bad":
			opts = append(opts, func(*stomp.Conn) error { return errBadOpt })
			w.bad = true
		case "resp":
			w.resp = true
			opts = append(opts, o.ResponseHeaders(func(h *frame.Header) { w.respCalls++; w.got = h }))
		}
	}
	f := wire.F(cmd, "host", host, "heart-beat", fmt.Sprintf("%d,%d", w.send/time.Millisecond, w.recv/time.Millisecond))
	if login != "" || pass != "" {
		f = f.With("login", login).With("passcode", pass)
	}
	if len(vers) == 0 {
		vers = []string{"1.0", "1.1", "1.2"}
	}
	for _, v := range vers {
		w.vers[v] = true
	}
	w.frame = f.With("accept-version", strings.Join(vers, ","))
	return
}

// checkConnect compares the CONNECT frame with the options.
func (w *nWant) checkConnect(f wire.Frame) string {
	if f.Cmd != w.frame.Cmd {
		return fmt.Sprintf("the first frame is %v, and a %s frame was due", f, w.frame.Cmd)
	}
	if len(f.Body) > 0 {
		return fmt.Sprintf("the %s frame has a body: %q", f.Cmd, f.Body)
	}
	keys := map[Str]bool{}
	n := 0
	for _, kv := range append(append([]KV{}, w.frame.H...), w.custom...) {
		n++
		if keys[kv.K] {
			continue
		}
		keys[kv.K] = true
		want := w.frame.All(string(kv.K)) // the library's own entry comes first
		for _, c := range w.custom {
			if c.K == kv.K {
				want = append(want, string(c.V))
			}
		}
		got := f.All(string(kv.K))
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			return fmt.Sprintf("header %q of the %s frame has the values %q, and %q were configured", kv.K, f.Cmd, got, want)
		}
	}
	for _, kv := range f.H {
		if !keys[kv.K] {
			return fmt.Sprintf("the %s frame carries %q: %q, which was not configured", f.Cmd, kv.K, kv.V)
		}
	}
	return ""
}

func hbValid(s string) (x, y time.Duration, ok bool) {
	a := strings.Split(s, ",")
	if len(a) != 2 || !digits(a[0]) || !digits(a[1]) {
		return
	}
	n1, _ := new(big.Int).SetString(a[0], 10)
	n2, _ := new(big.Int).SetString(a[1], 10)
	lim := big.NewInt(maxMs)
	if n1.Cmp(lim) > 0 || n2.Cmp(lim) > 0 {
		return
	}
	return time.Duration(n1.Int64()) * time.Millisecond, time.Duration(n2.Int64()) * time.Millisecond, true
}

// bytes of the reply, and whether it lets the client in: "yes", "no", "open".
func (r *NReply) build(w *nWant) (b []byte, verdict string) {
	lead := []byte(strings.Repeat("\n", r.Lead))
	switch r.K {
	case "connected", "error", "frame":
		b = append(lead, wire.Encode(r.F)...)
		for i := 0; i < r.More; i++ {
			b = append(b, wire.Encode(wire.F("MESSAGE", "subscription", "nobody", "message-id", itoa(i), "destination", "/x"))...)
		}
		if r.F.Cmd != "CONNECTED" {
			return b, "no"
		}
		verdict = "yes"
		v, has := r.F.Lookup("version")
		switch {
		case v == "1.0" || v == "1.1" || v == "1.2":
			if !w.vers[v] {
				verdict = "open" // supported, but not asked for
			}
		case v == "" && has, !has:
			if !w.vers["1.0"] {
				verdict = "open"
			}
			if has {
				verdict = "open"
			}
		default:
			return b, "no"
		}
		if hb, ok := r.F.Lookup("heart-beat"); ok {
			if _, _, ok := hbValid(hb); !ok {
				return b, "no"
			}
		}
		if r.Lead > 0 {
			verdict = "open" // nothing but the CONNECTED frame is expected
		}
		return b, verdict
	case "eof", "reset":
		b = append(lead, wire.Encode(r.F)...)
		b = b[:(len(b)-1)*min(r.Cut, 1000)/1000]
		return b, "no"
	case "raw":
		b = r.Raw.Bytes()
		f, _, st := wire.Next(b)
		if st == wire.Malformed || st == wire.Incomplete || st == wire.OK && f.Cmd != "" && f.Cmd != "CONNECTED" {
			return b, "no"
		}
		return b, "open"
	}
	return lead, "no" // silent, unread
}

func (w *nWant) checkConn(conn *stomp.Conn, f wire.Frame) string {
	v := f.Get("version")
	if v == "" {
		v = "1.0"
	}
	if string(conn.Version()) != v {
		return fmt.Sprintf("the version is %q, and the server named %q", conn.Version(), f.Get("version"))
	}
	if conn.Session() != f.Get("session") || conn.Server() != f.Get("server") {
		return fmt.Sprintf("session and server are %q and %q, and the server named %q and %q", conn.Session(), conn.Server(), f.Get("session"), f.Get("server"))
	}
	if w.resp {
		if w.respCalls != 1 || w.got == nil {
			return fmt.Sprintf("the callback for the response headers was called %d times", w.respCalls)
		}
		var got []KV
		for i := 0; i < w.got.Len(); i++ {
			k, v := w.got.GetAt(i)
			got = append(got, KV{Str(k), Str(v)})
		}
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", f.H) {
			return fmt.Sprintf("the callback got the headers %q, and the server sent %q", got, f.H)
		}
	}
	return ""
}

func execC01(x *core.Ctx, p NPlan) (res Result) {
	fail := ""
	failf := func(f string, a ...any) {
		if fail == "" {
			fail = fmt.Sprintf(f, a...)
		}
	}
	labels := map[string]bool{}
	outcome := ""
	leaked := x.Bubble(func() {
		host := "default"
		if p.Addr != "-" {
			if h, _, err := net.SplitHostPort(p.Addr); err == nil && h != "" {
				host = h
			}
		}
		t0 := time.Now()
		c2s := p.C2S
		if p.Reply.K == "unread" {
			c2s.Cap = 10
		} else if p.FailAt > 0 {
			c2s.FailAt = int64(p.FailAt)
		}
		cl, sv := netsim.Pair(c2s, p.S2C, "client:1", p.Addr)
		var peer *rawClient
		if p.Reply.K != "unread" {
			peer = rawPeer(sv)
		}
		opts, w := nOptions(p.Opts, host)
		reply, verdict := p.Reply.build(w)
		replied := make(chan struct{})
		go func() {
			defer close(replied)
			for !p.Reply.Early {
				if peer == nil {
					return
				}
				if fs, end := peer.frames(); end {
					return
				} else if len(fs) > 0 {
					break
				}
				time.Sleep(time.Millisecond)
			}
			n := len(reply) * p.Reply.Split / 1000
			for _, b := range [][]byte{reply[:n], reply[n:]} {
				time.Sleep(msd(p.Reply.Delay))
				_, _ = sv.Write(b)
			}
			switch p.Reply.K {
			case "eof":
				sv.CloseWrite()
			case "reset":
				sv.Reset()
			case "raw":
				sv.CloseWrite()
			}
		}()
		var tr io.ReadWriteCloser = cl
		if p.Addr == "-" {
			tr = bareConn{cl}
		}
		ctx, cancel := context.Background(), context.CancelFunc(func() {})
		if p.Dead > 0 {
			ctx, cancel = context.WithDeadline(ctx, t0.Add(msd(p.Dead)))
		}
		p.Sched.Arm()
		type result struct {
			c   *stomp.Conn
			err error
			at  time.Time
			pan any
		}
		done := make(chan result, 1)
		go func() {
			var r result
			defer func() { done <- r }()
			r.c, r.err = stomp.ConnectWithContext(ctx, tr, opts...)
			r.at = time.Now()
		}()
		hangs := p.Reply.K == "silent" || p.Reply.K == "unread"
		timely := p.Dead > 0 && p.Addr != "-" && p.Reply.K != "unread"
		arrive := 2 * msd(p.Reply.Delay) // the reply is there, at the earliest and (but for some ms) at the latest
		var r result
		select {
		case r = <-done:
		case <-time.After(10 * time.Minute):
			if !hangs || timely {
				failf("connecting had not returned after 10 minutes (%s)", p.Reply.K)
			}
			_ = cl.Close()
			_ = sv.Close()
			r = <-done
			hangs = false
			timely = false
		}
		took := r.at.Sub(t0)
		what := fmt.Sprintf("reply %s %v %q (deadline %v)", p.Reply.K, p.Reply.F, clipN(reply), msd(p.Dead))
		ok := r.err == nil
		if ok != (r.c != nil) {
			failf("connecting returned connection %v and error %v: %s", r.c != nil, r.err, what)
		}
		time.Sleep(10 * time.Millisecond)
		var fs []wire.Frame
		if peer != nil {
			fs, _ = peer.frames()
			if peer.bad == wire.Malformed {
				failf("what the client wrote is not a frame")
			}
		}
		sent := cl.WrittenBytes()
		failing := p.FailAt > 0 && len(fs) == 0                      // unless the frame was shorter
		late := timely && arrive+100*time.Millisecond >= msd(p.Dead) // may or must run into the deadline
		must := verdict
		switch {
		case w.bad, failing:
			must = "no"
		case timely && arrive > msd(p.Dead)+100*time.Millisecond && len(reply) > 0 && p.Reply.Split == 0:
			must = "no" // too late
		case late && must == "yes":
			must = "open"
		}
		switch {
		case must == "yes" && !ok:
			failf("connecting failed with %v: %s", r.err, what)
		case must == "no" && ok:
			failf("connecting succeeded, although it had to fail: %s", what)
		}
		if timely && took > msd(p.Dead)+100*time.Millisecond {
			failf("connecting returned after %v: %s", took, what)
		}
		if !ok && !timely && p.Reply.K == "error" && p.Reply.Lead == 0 && !w.bad && !failing && r.err != nil {
			if m := p.Reply.F.Get("message"); !strings.Contains(r.err.Error(), m) {
				failf("the error %q does not tell what the server said: %s", r.err, what)
			}
		}
		switch {
		case w.bad:
			outcome = "bad option"
			if sent > 0 {
				failf("%d bytes were sent although an option was refused", sent)
			}
			if errors.Is(r.err, errBadOpt) {
				labels["option error"] = true
			}
		case failing || peer == nil:
			outcome = "write failed"
		case len(fs) != 1:
			if p.Reply.K != "reset" && !(p.Reply.Early && !ok) {
				failf("the client sent %d frames: %v", len(fs), fs)
			}
		default:
			if f := w.checkConnect(fs[0]); f != "" {
				failf("%s", f)
			}
		}
		if ok {
			outcome = "connected"
			if p.Reply.K == "connected" {
				if f := w.checkConn(r.c, p.Reply.F); f != "" {
					failf("%s: %s", f, what)
				}
			}
			// it works, now and after the deadline of connecting
			x1, y1, _ := hbValid(p.Reply.F.Get("heart-beat"))
			if p.Reply.K == "connected" && fail == "" && p.FailAt == 0 {
				use := func(k string) {
					s, err := r.c.Subscribe("/d", stomp.AckAuto, stomp.SubscribeOpt.Id(k))
					if err != nil {
						failf("%s: subscribing on the new connection failed: %v", what, err)
						return
					}
					time.Sleep(20 * time.Millisecond)
					if fs, _ := peer.frames(); fs[len(fs)-1].Get("id") != k {
						failf("%s: a SUBSCRIBE frame on the new connection did not arrive", what)
					}
					_, _ = sv.Write(wire.Encode(wire.F("MESSAGE", "subscription", k, "message-id", "m"+k, "destination", "/d").WithBody([]byte(k))))
					select {
					case m := <-s.C:
						if m == nil || m.Err != nil || string(m.Body) != k {
							failf("%s: a message on the new connection arrived as %v", what, m)
						}
					case <-time.After(500 * time.Millisecond):
						failf("%s: a message on the new connection did not arrive", what)
					}
				}
				R := time.Duration(0)
				if x1 > 0 && w.recv >= time.Millisecond {
					R = max(x1, w.recv)
				}
				W := time.Duration(0)
				if y1 > 0 && w.send >= time.Millisecond {
					W = max(y1, w.send)
				}
				<-replied
				// (a server that pauses amid what follows its reply may have been silent for too long)
				paused := R > 0 && p.Reply.Split > 0 && msd(p.Reply.Delay) >= R+4*time.Second
				if (W == 0 || W > time.Millisecond) && !paused {
					use("u1")
					if rest := msd(p.Dead) - time.Since(t0) + 2*time.Second; p.Dead > 0 && (R == 0 || R+4*time.Second > rest) {
						time.Sleep(max(rest, 0))
						use("u2")
						labels["used after the deadline"] = true
					}
				}
			}
			_ = r.c.MustDisconnect()
		} else if outcome == "" {
			outcome = "refused"
		}
		_ = cl.Close()
		_ = sv.Close()
		if peer != nil {
			peer.close()
		}
		cancel()
		time.Sleep(2 * time.Minute)
	})
	if leaked && fail == "" {
		fail = "a goroutine stayed behind: " + p.Reply.K
	}
	labels["reply:"+p.Reply.K] = true
	labels["outcome:"+outcome] = true
	res.Fail = fail
	for l := range labels {
		res.Labels = append(res.Labels, l)
	}
	res.NonTrivial = outcome != "bad option"
	return
}

func clipN(b []byte) string {
	if len(b) > 120 {
		return string(b[:120]) + "..."
	}
	return string(b)
}

func genNOpts(t *rapid.T) (ops []NOpt) {
	for i, n := 0, rng(t, "opts", 0, 7); i < n; i++ {
		var o NOpt
		switch pick(t, "opt", 12, 8, 6, 12, 10, 14, 6, 4, 2, 3, 1, 2, 6) {
		case 0:
			o = NOpt{K: "login", A: strNasty(t, "login", 0), B: strNasty(t, "pass", 0)}
			switch pick(t, "empty", 6, 2, 2, 1) {
			case 1:
				o.A = ""
			case 2:
				o.B = ""
			case 3:
				o.A, o.B = "", ""
			}
		case 1:
			o = NOpt{K: "host", A: strNasty(t, "host", 1)}
		case 2:
			o = NOpt{K: "stomp"}
		case 3:
			o = NOpt{K: "ver"}
			for j, m := 0, pick(t, "nv", 1, 6, 4, 3); j < m; j++ {
				v := rapid.SampledFrom([]string{"1.1", "1.2", "1.0"}).Draw(t, "v")
				if chance(t, "badv", 3) {
					v = rapid.SampledFrom([]string{"1.3", "", "2.0", "1", "1.2 ", "v1.1", "1.10"}).Draw(t, "vb")
				}
				o.L = append(o.L, Str(v))
			}
		case 4:
			iv := func(l string) int {
				return rapid.SampledFrom([]int{0, 0, 1, 999, 1000, 1001, 10000, 1500000, 60000000, 3600000000}).Draw(t, l)
			}
			o = NOpt{K: "hb", N: iv("hb-s"), M: iv("hb-r")}
		case 5:
			o = NOpt{K: "header", A: strNasty(t, "k", 1), B: strNasty(t, "v", 0)}
			switch pick(t, "known", 6, 2, 1) {
			case 1:
				o.A = Str(rapid.SampledFrom([]string{"host", "login", "passcode", "accept-version", "heart-beat", "client-id", "session"}).Draw(t, "hk"))
			case 2:
				o.A = "dup"
			}
			if o.A == "content-length" || o.A == "" {
				o.A = "x"
			}
		case 6:
			sz := []int{0, -1, 1, 16, 17, 100, 4096, 70000}
			o = NOpt{K: "bufs", N: rapid.SampledFrom(sz).Draw(t, "rb"), M: rapid.SampledFrom(sz).Draw(t, "wb")}
		case 7:
			sz := []int{0, -1, 1, 2, 50}
			o = NOpt{K: "chans", N: rapid.SampledFrom(sz).Draw(t, "rc"), M: rapid.SampledFrom(sz).Draw(t, "wc")}
		case 8:
			o = NOpt{K: "stats"}
		case 9:
			o = NOpt{K: "nil"}
		case 10:
			o = NOpt{K: "nillog"}
		case 11:
			o = NOpt{K: "bad"}
		default:
			o = NOpt{K: "resp"}
		}
		ops = append(ops, o)
	}
	return
}

func genNReply(t *rapid.T) (r NReply) {
	r.K = rapid.SampledFrom([]string{"connected", "connected", "connected", "connected", "connected", "connected", "connected", "connected", "connected",
		"error", "frame", "raw", "eof", "reset", "silent", "unread"}).Draw(t, "reply")
	r.F = wire.F("CONNECTED")
	if chance(t, "v", 85) {
		v := rapid.SampledFrom([]string{"1.2", "1.1", "1.0", "1.2", "1.1"}).Draw(t, "rv")
		if chance(t, "v-bad", 12) {
			v = rapid.SampledFrom([]string{"1.3", "2.0", "1", "1.2 ", " 1.1", "1.1,1.2", "0.9", "1.20", "x", ""}).Draw(t, "rvb")
		}
		r.F = r.F.With("version", v)
		if chance(t, "v2", 5) {
			r.F = r.F.With("version", "9")
		}
	}
	if chance(t, "hb", 50) {
		hb := fmt.Sprintf("%d,%d", rapid.SampledFrom([]int{0, 0, 1, 10, 1000, 60000, 3600000}).Draw(t, "hx"), rapid.SampledFrom([]int{0, 0, 5, 10, 1000, 60000, 3600000}).Draw(t, "hy"))
		if chance(t, "hb-bad", 12) {
			hb = string(rapid.SampledFrom([]string{"", ",", "1", "1,", ",1", "a,b", "1,2,3", "-1,0", "0,-1", "+1,2", "1, 2", " 1,2", "1;2", "99999999999999999999,0", "0,9223372036854775808", "1.5,2", "0x10,0", "1_0,0"}).Draw(t, "hbb"))
		}
		r.F = r.F.With("heart-beat", hb)
	}
	for i, n := 0, pick(t, "xh", 4, 3, 2, 1); i < n; i++ {
		k := rapid.SampledFrom([]Str{"session", "server", "x", strNasty(t, "xk", 1)}).Draw(t, "xkk")
		if k == "content-length" || k == "version" || k == "heart-beat" || k == "" {
			k = "y"
		}
		r.F = r.F.With(string(k), string(strNasty(t, "xv", 0)))
	}
	if chance(t, "body", 8) {
		r.F = r.F.WithBody([]byte("welcome"))
	}
	if r.K == "error" || (r.K == "eof" || r.K == "reset") && chance(t, "cut-error", 20) {
		r.F.Cmd = "ERROR"
		if chance(t, "msg", 80) {
			r.F = r.F.With("message", string(strNasty(t, "msg", 1)))
		}
	}
	if r.K == "frame" {
		r.F.Cmd = rapid.SampledFrom([]string{"MESSAGE", "RECEIPT", "SEND", "CONNECT", "STOMP", "DISCONNECT", "BEGIN"}).Draw(t, "cmd")
	}
	if r.K == "raw" {
		switch pick(t, "raw", 3, 3, 2) {
		case 0:
			r.Raw.Lit = Str(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes"))
		case 1:
			b := wire.Encode(r.F)
			i := uni(t, "at", len(b))
			switch pick(t, "mut", 1, 1, 1) {
			case 0:
				b[i] = byte(uni(t, "byte", 256))
			case 1:
				b = append(b[:i], b[i+1:]...)
			default:
				b = append(b[:i], append([]byte(rapid.SampledFrom(specials).Draw(t, "ins")), b[i:]...)...)
			}
			r.Raw.Lit = Str(b)
		default:
			r.Raw.Lit = Str(rapid.SampledFrom([]string{"HTTP/1.1 400 Bad Request\r\n\r\n", "connected\n\n\x00", "CONNECTED \n\n\x00", "CONNECTED\nversion\n\n\x00", "CONNECTED\nversion:1.2\ncontent-length:x\n\n\x00", "CONNECTED\nversion:1.2\ncontent-length:3\n\nab\x00", "\x00", "CONNECTED\x00", "ERROR\n\n\x00", "\n\n\n"}).Draw(t, "lit"))
		}
	}
	if chance(t, "lead", 4) {
		r.Lead = rng(t, "leadn", 1, 3)
	}
	r.Cut = uni(t, "cut", 1001)
	if chance(t, "slow", 40) {
		r.Delay = rapid.SampledFrom([]int{1, 20, 400, 3000, 20000}).Draw(t, "delay")
	}
	if chance(t, "split", 50) {
		r.Split = uni(t, "splitat", 1000)
	}
	if chance(t, "more", 15) {
		r.More = rng(t, "moren", 1, 4)
	}
	r.Early = chance(t, "early", 12)
	return
}

func genC01(t *rapid.T) NPlan {
	p := NPlan{Sched: genSched(t), Opts: genNOpts(t), Reply: genNReply(t)}
	p.Addr = rapid.SampledFrom([]string{"broker:61613", "broker", ":61613", "[::1]:61613", "10.0.0.1:5", "a:b:c", "-", "-", ""}).Draw(t, "addr")
	p.C2S.Chunks = genChunks(t, "c2s")
	p.S2C.Chunks = genChunks(t, "s2c")
	if chance(t, "deadline", 45) {
		p.Dead = rapid.SampledFrom([]int{300, 1000, 5000, 30000}).Draw(t, "dead")
	}
	if chance(t, "failing", 5) {
		p.FailAt = rng(t, "fail-at", 1, 60)
	}
	return p
}

// ---------------------------------------------------------------- dial

type DPlan struct {
	Opts  []NOpt `json:"opts"`
	Reply NReply `json:"reply"`
	Net   int    `json:"net"`  // 0: ipv4, 1: ipv6, 2: nobody listens, 3: unknown network
	Dead  int    `json:"dead"` // ms; 0: none; -1: already over
	Big   bool   `json:"big"`  // the CONNECT frame does not fit the buffers of the sockets
}

func execDial(x *core.Ctx, p DPlan) (res Result) {
	var mu sync.Mutex
	failf := func(f string, a ...any) {
		mu.Lock()
		defer mu.Unlock()
		if res.Fail == "" {
			res.Fail = fmt.Sprintf(f, a...)
		}
	}
	network, addr, host := "tcp", "127.0.0.1:0", "127.0.0.1"
	if p.Net == 1 {
		addr, host = "[::1]:0", "::1"
	}
	l, err := net.Listen(network, addr)
	if err != nil {
		if p.Net == 1 {
			res.Labels = append(res.Labels, "no ipv6")
			return
		}
		panic(err)
	}
	addr = l.Addr().String()
	ops := p.Opts
	if p.Big {
		ops = append(ops, NOpt{K: "header", A: "big", B: Str(strings.Repeat("b", 20<<20))})
	}
	opts, w := nOptions(ops, host)
	reply, verdict := p.Reply.build(w)
	var first wire.Frame
	var got, eof bool
	release := make(chan struct{}) // the server may end
	over := make(chan struct{})
	go func() {
		defer close(over)
		c, err := l.Accept()
		if err != nil {
			return
		}
		defer c.Close()
		if p.Reply.K == "unread" {
			<-release
			time.Sleep(100 * time.Millisecond)
		}
		var d wire.Decoder
		buf := make([]byte, 65536)
		answered := false
		answer := func() {
			answered = true
			n := len(reply) * p.Reply.Split / 1000
			_, _ = c.Write(reply[:n])
			if n > 0 {
				time.Sleep(time.Millisecond)
			}
			_, _ = c.Write(reply[n:])
			switch p.Reply.K {
			case "eof", "raw":
				_ = c.(*net.TCPConn).CloseWrite()
			case "reset":
				_ = c.(*net.TCPConn).SetLinger(0)
				_ = c.Close()
			}
		}
		if p.Reply.Early {
			answer()
		}
		for {
			_ = c.SetReadDeadline(time.Now().Add(60 * time.Second))
			n, err := c.Read(buf)
			fs, _ := d.Feed(buf[:n])
			for _, f := range fs {
				if f.Cmd == "" {
					continue
				}
				mu.Lock()
				if !got {
					got, first = true, f
				} else if r := f.Get("receipt"); r != "" {
					_, _ = c.Write(wire.Encode(wire.F("RECEIPT", "receipt-id", r)))
				}
				mu.Unlock()
			}
			mu.Lock()
			g := got
			mu.Unlock()
			if g && !answered {
				answer()
			}
			if err != nil {
				if ne, ok := err.(net.Error); !ok || !ne.Timeout() {
					mu.Lock()
					eof = true
					mu.Unlock()
				}
				return
			}
		}
	}()
	if p.Net == 2 {
		_ = l.Close()
	} else if p.Net == 3 {
		network = "tpc"
	}
	ctx, cancel := context.Background(), context.CancelFunc(func() {})
	dead := time.Duration(p.Dead) * time.Millisecond
	if p.Dead != 0 {
		ctx, cancel = context.WithTimeout(ctx, dead)
	}
	t0 := time.Now()
	type result struct {
		c   *stomp.Conn
		err error
	}
	done := make(chan result, 1)
	go func() {
		c, err := stomp.DialWithContext(ctx, network, addr, opts...)
		done <- result{c, err}
	}()
	var r result
	hung := false
	select {
	case r = <-done:
	case <-time.After(30 * time.Second):
		failf("dialling had not returned after 30 seconds (deadline %v, reply %s)", dead, p.Reply.K)
		hung = true
	}
	took := time.Since(t0)
	close(release)
	what := fmt.Sprintf("reply %s %v %q (deadline %v, %s %s)", p.Reply.K, p.Reply.F, clipN(reply), dead, network, addr)
	outcome := "refused"
	if !hung {
		ok := r.err == nil
		if ok != (r.c != nil) {
			failf("dialling returned connection %v and error %v: %s", r.c != nil, r.err, what)
		}
		must := verdict
		switch {
		case w.bad || p.Net >= 2 || p.Dead < 0 || p.Reply.K == "silent" || p.Reply.K == "unread":
			must = "no"
		case p.Dead > 0 && took >= dead*9/10:
			must = "open" // a busy machine
		}
		switch {
		case must == "yes" && !ok:
			failf("dialling failed with %v: %s", r.err, what)
		case must == "no" && ok:
			failf("dialling succeeded, although it had to fail: %s", what)
		}
		if ok {
			outcome = "connected"
			if f := w.checkConn(r.c, p.Reply.F); f != "" && p.Reply.K == "connected" {
				failf("%s: %s", f, what)
			}
			if p.Dead > 0 && p.Reply.K == "connected" {
				outcome = "used after the deadline"
				time.Sleep(time.Until(t0.Add(dead + 5*time.Millisecond)))
				x1, _, _ := hbValid(p.Reply.F.Get("heart-beat"))
				if err := r.c.Send("/d", "text/plain", []byte("x"), stomp.SendOpt.Receipt); err != nil && (x1 == 0 || x1 > 60*time.Second) {
					failf("a send on the new connection failed with %v: %s", err, what)
				}
			}
			_ = r.c.MustDisconnect()
		}
	}
	_ = l.Close()
	select { // a dialled connection is closed: by MustDisconnect, or because dialling failed
	case <-over:
	case <-time.After(30 * time.Second):
		failf("the connection was still open 30 seconds after dialling had failed: %s", what)
	}
	mu.Lock()
	_ = eof
	if got && p.Net < 2 && !w.bad {
		if f := w.checkConnect(first); f != "" && res.Fail == "" {
			res.Fail = f
		}
	}
	if got && w.bad && res.Fail == "" {
		res.Fail = fmt.Sprintf("%v was sent although an option was refused", first)
	}
	mu.Unlock()
	cancel()
	res.NonTrivial = p.Net < 2 && !w.bad
	res.Labels = append(res.Labels, "reply:"+p.Reply.K, "outcome:"+outcome)
	return
}

func genDial(t *rapid.T) DPlan {
	p := DPlan{Opts: genNOpts(t), Reply: genNReply(t)}
	p.Reply.Lead, p.Reply.Delay = 0, 0
	p.Net = pick(t, "net", 14, 4, 1, 1)
	if p.Reply.K == "silent" || p.Reply.K == "unread" || chance(t, "dead", 25) {
		p.Dead = rapid.SampledFrom([]int{40, 100, 15}).Draw(t, "deadline")
		if chance(t, "past", 8) {
			p.Dead = -1
		}
	}
	p.Big = p.Reply.K == "unread"
	return p
}

func init() {
	core.Register("C01", core.Check[NPlan]{
		Name: "connect", Gen: genC01, Exec: execC01, Cases: [2]int{40000, 1000000},
		Rule: "the options were valid",
	})
	core.Register("C01", core.Check[DPlan]{
		Name: "dial", Gen: genDial, Exec: execDial, Cases: [2]int{3000, 60000},
		Rule: "a connection was made and the options were valid",
	})
}
