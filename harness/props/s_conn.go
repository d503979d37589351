package props

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/go-stomp/stomp/v3/server"
	"pgregory.net/rapid"
	"verif.local/harness/core"
	"verif.local/harness/netsim"
	"verif.local/harness/wire"
)

// S01: who is let in. Clients connect concurrently to a real server with all kinds of first
// frames; the oracle decides from the frame alone who must be accepted, and an administrator's
// connection observes which effects their other frames had.

type ACred struct {
	L, P  Str
	OK    bool
	Delay int `json:",omitempty"` // ms the authenticator takes
}

type AClient struct {
	At     int          `json:"at"`
	Errs   int          `json:"errs,omitempty"` // temporary failures of Accept right before
	Lead   int          `json:"lead,omitempty"` // heart-beats before the first frame
	Raw    Str          `json:"raw,omitempty"`  // instead of a frame: unparseable bytes
	Cut    int          `json:"cut,omitempty"`  // >0: the first frame lacks that many bytes at its end, and the stream ends
	First  wire.Frame   `json:"first"`
	Up     netsim.Link  `json:"up"`
	Gap    int          `json:"gap,omitempty"` // ms between the first frame and the others
	Follow []string     `json:"follow,omitempty"`
	Leave  string       `json:"leave"`
	Before []wire.Frame `json:"before,omitempty"` // frames before the connect frame
}

type APlan struct {
	Sched   core.Sched `json:"sched"`
	Auth    bool       `json:"auth"`
	Creds   []ACred    `json:"creds"`
	MinMs   int        `json:"min_ms"`
	Clients []AClient  `json:"clients"`
	Nil     bool       `json:"nil,omitempty"`
}

const adminL, adminP = "the admin", "admin:\\pass"

type authCall struct{ l, p string }

type sAuth struct {
	p     *APlan
	mu    sync.Mutex
	calls []authCall
}

func (a *sAuth) lookup(l, p string) (ok bool, delay time.Duration) {
	if l == adminL && p == adminP {
		return true, 0
	}
	for _, c := range a.p.Creds {
		if string(c.L) == l && string(c.P) == p {
			return c.OK, msd(c.Delay)
		}
	}
	return false, 0
}

func (a *sAuth) Authenticate(l, p string) bool {
	a.mu.Lock()
	a.calls = append(a.calls, authCall{l, p})
	a.mu.Unlock()
	ok, d := a.lookup(l, p)
	time.Sleep(d)
	return ok
}

var hbForm = regexp.MustCompile(`^(0|[1-9][0-9]*),(0|[1-9][0-9]*)$`)

// judgeConnect decides from the bytes alone: accept "yes", "no", "either"; version.
func judgeConnect(p *APlan, a *sAuth, c *AClient) (verdict, ver string, cx, cy int) {
	if c.Raw != "" || c.Cut > 0 {
		return "cut", "", 0, 0
	}
	f := c.First
	if len(c.Before) > 0 || f.Cmd != "CONNECT" && f.Cmd != "STOMP" {
		return "no", "", 0, 0
	}
	if _, ok := f.Lookup("receipt"); ok {
		return "no", "", 0, 0
	}
	if p.Auth {
		if ok, _ := a.lookup(f.Get("login"), f.Get("passcode")); !ok {
			return "no", "", 0, 0
		}
	}
	for _, v := range strings.Split(f.Get("accept-version"), ",") {
		if (v == "1.1" || v == "1.2") && v > ver {
			ver = v
		}
	}
	if ver == "" {
		return "no", "", 0, 0
	}
	if hb, ok := f.Lookup("heart-beat"); ok {
		if !hbForm.MatchString(hb) {
			if ok, _ := regexp.MatchString(`^[0-9]+,[0-9]+$`, hb); ok {
				return "either", ver, -1, -1 // leading zeros
			}
			return "no", "", 0, 0
		}
		l, r, _ := strings.Cut(hb, ",")
		if len(l) > 9 || len(r) > 9 {
			return "either", ver, -1, -1 // longer than the server needs to support
		}
		cx, _ = strconv.Atoi(l)
		cy, _ = strconv.Atoi(r)
	}
	return "yes", ver, cx, cy
}

// checkPromise judges the heart-beat header of a CONNECTED frame.
func checkPromise(hb string, cx, cy, minMs int) (send, recv int, fail string) {
	if !hbForm.MatchString(hb) {
		if hb == "" && cx == 0 && cy == 0 {
			return 0, 0, ""
		}
		return 0, 0, fmt.Sprintf("the heart-beat header of the CONNECTED frame is %q", hb)
	}
	l, r, _ := strings.Cut(hb, ",")
	send, _ = strconv.Atoi(l)
	recv, _ = strconv.Atoi(r)
	one := func(what string, got, asked int) string {
		if asked == 0 {
			if got != 0 {
				return fmt.Sprintf("%s: the client said 0, and the server says %d", what, got)
			}
			return ""
		}
		if want := max(asked, min(minMs, 999999999)); got < want {
			return fmt.Sprintf("%s: the client said %d, the server wants at least %d, and says %d", what, asked, minMs, got)
		}
		return ""
	}
	if fail = one("the server's heart-beats", send, cy); fail == "" {
		fail = one("the client's heart-beats", recv, cx)
	}
	return
}

func execS01(x *core.Ctx, p APlan) (res Result) {
	var mu sync.Mutex
	fail := ""
	labels := map[string]bool{}
	failf := func(f string, a ...any) {
		mu.Lock()
		defer mu.Unlock()
		if fail == "" {
			fail = fmt.Sprintf(f, a...)
		}
	}
	label := func(s string) { mu.Lock(); labels[s] = true; mu.Unlock() }
	wantQ, wantT := map[string]bool{}, map[string]bool{} // uids that must come out
	noQ := map[string]bool{}                             // uids of rejected clients
	auth := &sAuth{p: &p}
	accepted := map[authCall]int{}
	sent := map[authCall]int{}
	queues := map[string]bool{}
	x.Bubble(func() {
		l := netsim.NewListener()
		s := &server.Server{Log: quiet{}, HeartBeat: msd(p.MinMs)}
		st := newStore()
		if !p.Nil {
			s.QueueStorage = st
		}
		if p.Auth {
			s.Authenticator = auth
		}
		minMs := p.MinMs
		if minMs == 0 {
			minMs = 60000
		}
		p.Sched.Arm()
		startServer(s, l)
		admin := dialRaw(l, netsim.Link{}, netsim.Link{}, "admin")
		admin.send(wire.F("CONNECT", "accept-version", "1.2", "login", adminL, "passcode", adminP),
			wire.F("SUBSCRIBE", "id", "t", "destination", "/topic/t", "receipt", "sub"))
		time.Sleep(500 * time.Millisecond)
		if fs, end := admin.frames(); end || len(fs) != 2 || fs[1].Get("receipt-id") != "sub" {
			failf("a well-behaved client could not connect and subscribe: %v", fs)
		}
		probes, stop := 0, make(chan struct{})
		probed := make(chan struct{})
		go func() { // other clients must not notice
			defer close(probed)
			for {
				select {
				case <-stop:
					return
				case <-time.After(400 * time.Millisecond):
				}
				probes++
				id := "probe-" + itoa(probes)
				admin.send(wire.F("SEND", "destination", "/topic/none", "receipt", id))
				time.Sleep(600 * time.Millisecond)
				fs, _ := admin.frames()
				ok := false
				for _, f := range fs {
					ok = ok || f.Get("receipt-id") == id
				}
				if !ok {
					failf("a well-behaved client did not get its receipt within 600 ms while others were connecting")
					return
				}
			}
		}()
		var wg sync.WaitGroup
		for ci := range p.Clients {
			c := &p.Clients[ci]
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(msd(c.At))
				for range c.Errs {
					l.PushErr(netsim.TempErr{})
				}
				name := "c" + itoa(ci)
				verdict, ver, cx, cy := judgeConnect(&p, auth, c)
				if c.Raw == "" && (c.First.Cmd == "CONNECT" || c.First.Cmd == "STOMP") {
					mu.Lock()
					sent[authCall{c.First.Get("login"), c.First.Get("passcode")}]++
					mu.Unlock()
				}
				raw := dialRaw(l, c.Up, netsim.Link{}, name)
				defer raw.close()
				b := []byte(strings.Repeat("\n", c.Lead))
				for _, f := range c.Before {
					b = append(b, wire.Encode(f)...)
				}
				switch {
				case c.Raw != "":
					b = append(b, c.Raw...)
				default:
					e := wire.Encode(c.First)
					b = append(b, e[:max(0, len(e)-c.Cut)]...)
				}
				// the other frames
				own := "/queue/own-" + name
				ownUid := name + "-own"
				var fol []byte
				var rcpt []string
				var qs, ts []string
				subscribed := false
				if c.Cut == 0 {
					for k, op := range c.Follow {
						uid := name + "-" + itoa(k)
						var fs []wire.Frame
						switch op {
						case "queue":
							fs = []wire.Frame{wire.F("SEND", "destination", "/queue/q", "uid", uid)}
							qs = append(qs, uid)
						case "topic":
							fs = []wire.Frame{wire.F("SEND", "destination", "/topic/t", "uid", uid)}
							ts = append(ts, uid)
						case "tx":
							fs = []wire.Frame{wire.F("BEGIN", "transaction", "t"), wire.F("SEND", "destination", "/queue/q", "uid", uid, "transaction", "t"), wire.F("COMMIT", "transaction", "t")}
							qs = append(qs, uid)
						case "own":
							if subscribed {
								continue
							}
							subscribed = true
							fs = []wire.Frame{wire.F("SUBSCRIBE", "id", "own", "destination", own, "ack", "auto")}
						}
						for j, f := range fs {
							id := fmt.Sprintf("%s-%d", uid, j)
							rcpt = append(rcpt, id)
							fol = append(fol, wire.Encode(f.With("receipt", id))...)
						}
					}
				}
				if c.Gap == 0 {
					b = append(b, fol...)
					fol = nil
				}
				go func() {
					_, _ = raw.c.Write(b)
					if c.Cut > 0 {
						raw.c.CloseWrite()
					}
					if fol != nil {
						time.Sleep(msd(c.Gap))
						_, _ = raw.c.Write(fol)
					}
				}()
				// wait for the decision
				in := false
				for t := 0; t < 400; t++ {
					time.Sleep(50 * time.Millisecond)
					fs, end := raw.frames()
					if end || len(fs) > 0 && fs[0].Cmd == "CONNECTED" {
						break
					}
				}
				fs, end := raw.frames()
				in = len(fs) > 0 && fs[0].Cmd == "CONNECTED"
				label(verdict)
				if c.Cut > 0 || c.Raw != "" {
					if in || len(fs) > 1 || len(fs) == 1 && fs[0].Cmd != "ERROR" || !end {
						failf("client %d sent no frame at all (%q), and got: %v (connection closed: %v)", ci, clipS(b), fs, end)
					}
				} else {
					switch {
					case verdict == "yes" && !in:
						failf("client %d sent a correct %v, and got: %v (connection closed: %v)", ci, c.First, fs, end)
					case verdict == "no" && in:
						failf("client %d was let in with %v %v", ci, c.Before, c.First)
					case !in && (len(fs) != 1 || fs[0].Cmd != "ERROR"):
						failf("client %d with %v %v must get one ERROR frame, but got: %v", ci, c.Before, c.First, fs)
					case !in && !end:
						failf("client %d with %v %v must be disconnected, but is not 20 s later", ci, c.Before, c.First)
					}
				}
				mu.Lock()
				for _, u := range qs {
					if in {
						wantQ[u] = true
					} else {
						noQ[u] = true
					}
				}
				for _, u := range ts {
					if in {
						wantT[u] = true
					}
				}
				queues["/queue/q"], queues[own] = true, true
				mu.Unlock()
				if !in {
					// a message for its queue must wait for somebody else
					if subscribed {
						mu.Lock()
						wantQ[ownUid] = true
						mu.Unlock()
						admin.send(wire.F("SEND", "destination", own, "uid", ownUid))
					}
					return
				}
				if got := fs[0].Get("version"); got != ver {
					failf("client %d offered %q, and the server chose %q", ci, c.First.Get("accept-version"), got)
				}
				if cx >= 0 {
					if _, _, why := checkPromise(fs[0].Get("heart-beat"), cx, cy, minMs); why != "" {
						failf("client %d: %s", ci, why)
					}
				}
				mu.Lock()
				accepted[authCall{c.First.Get("login"), c.First.Get("passcode")}]++
				mu.Unlock()
				time.Sleep(msd(c.Gap) + 500*time.Millisecond)
				if subscribed {
					admin.send(wire.F("SEND", "destination", own, "uid", ownUid))
					time.Sleep(300 * time.Millisecond)
				}
				fs, end = raw.frames()
				if end {
					failf("client %d was connected, and then disconnected: %v", ci, fs)
				}
				var got []string
				msgs := 0
				for _, f := range fs[min(1, len(fs)):] {
					switch f.Cmd {
					case "RECEIPT":
						got = append(got, f.Get("receipt-id"))
					case "MESSAGE":
						msgs++
						if !subscribed || f.Get("uid") != ownUid || f.Get("subscription") != "own" {
							failf("client %d got %v", ci, f)
						}
					default:
						failf("client %d got %v", ci, f)
					}
				}
				if strings.Join(got, " ") != strings.Join(rcpt, " ") {
					failf("client %d asked for the receipts %q after connecting, and got %q", ci, rcpt, got)
				}
				if subscribed && msgs != 1 {
					failf("client %d was sent one message on its queue, and got %d", ci, msgs)
				}
				switch c.Leave {
				case "disc":
					raw.send(wire.F("DISCONNECT"))
					time.Sleep(100 * time.Millisecond)
				case "half":
					raw.c.CloseWrite()
					time.Sleep(100 * time.Millisecond)
				case "reset":
					raw.c.Reset()
				}
			}()
		}
		wg.Wait()
		close(stop)
		<-probed
		p.Sched.Disarm()
		time.Sleep(200 * time.Millisecond)
		// everything that is left
		n := 0
		var names []string
		for q := range queues {
			names = append(names, q)
		}
		sort.Strings(names)
		for _, q := range names {
			n++
			admin.send(wire.F("SUBSCRIBE", "id", "q"+itoa(n), "destination", q))
		}
		time.Sleep(500 * time.Millisecond)
		fs, end := admin.frames()
		if end {
			failf("the administrator was disconnected: %v", fs[len(fs)-1])
		}
		seenQ, seenT := map[string]int{}, map[string]int{}
		for _, f := range fs {
			if f.Cmd != "MESSAGE" {
				continue
			}
			if u := f.Get("uid"); f.Get("subscription") == "t" {
				seenT[u]++
			} else {
				seenQ[u]++
			}
		}
		for u := range wantQ {
			if seenQ[u] != 1 {
				failf("the message %s was accepted for a queue, and came out %d times", u, seenQ[u])
			}
		}
		for u := range wantT {
			if seenT[u] != 1 {
				failf("the message %s was accepted for a topic, and came out %d times", u, seenT[u])
			}
		}
		for u := range seenQ {
			if !wantQ[u] {
				failf("the message %s of a client that was not connected reached a queue", u)
			}
		}
		for u := range seenT {
			if !wantT[u] {
				failf("the message %s of a client that was not connected reached a topic", u)
			}
		}
		admin.close()
		time.Sleep(2 * time.Second)
		if p.Nil {
			st = nil
		} else if len(st.fails) > 0 {
			failf("%s", st.fails[0])
		}
		stopServer(l, st)
	})
	calls := map[authCall]int{}
	for _, c := range auth.calls {
		if c != (authCall{adminL, adminP}) {
			calls[c]++
		}
	}
	if p.Auth {
		for c, n := range calls {
			if n > sent[c] {
				failf("the authenticator was asked %d times about login %q, passcode %q, which clients sent %d times", n, c.l, c.p, sent[c])
			}
		}
		for c, n := range accepted {
			if calls[c] < n {
				failf("%d clients were let in with login %q, passcode %q, and the authenticator was asked %d times", n, c.l, c.p, calls[c])
			}
		}
	}
	res.Fail = fail
	for k := range labels {
		res.Labels = append(res.Labels, k)
	}
	sort.Strings(res.Labels)
	res.NonTrivial = len(labels) > 1
	return
}

func clipS(b []byte) []byte {
	if len(b) > 200 {
		b = b[:200]
	}
	return b
}

func genS01(t *rapid.T) APlan {
	p := APlan{Sched: genSched(t), Auth: chance(t, "auth", 65), Nil: chance(t, "nil", 25)}
	p.MinMs = rapid.SampledFrom([]int{0, 10000, 10001, 30000, 60000, 3600000, 999999999, 1000000001, 3000000000}).Draw(t, "min")
	pool := []Str{"", "guest", "Guest", "guest ", "g", strNasty(t, "cred", 1), strNasty(t, "cred", 1)}
	cred := func(label string) Str { return pool[uni(t, label, len(pool))] }
	for range rng(t, "creds", 0, 4) {
		p.Creds = append(p.Creds, ACred{cred("login"), cred("passcode"), chance(t, "ok", 75), []int{0, 1, 50, 1500, 3000}[pick(t, "delay", 6, 1, 1, 1, 1)]})
	}
	errsAt := -1
	if chance(t, "errs", 20) {
		errsAt = rng(t, "errs-at", 0, 4)
	}
	versions := []string{"1.0", "1.1", "1.2", "2.0", "1.3", "", "1", "1.10", "0.9", "1.2.1", "1.20", "abc", "-1"}
	for range rng(t, "clients", 1, 5) {
		c := AClient{At: []int{0, 0, rng(t, "at", 0, 2000)}[uni(t, "at-kind", 3)], Gap: []int{0, 1, 200, 1000, 3000}[pick(t, "gap", 5, 1, 2, 1, 1)]}
		if len(p.Clients) == errsAt {
			c.Errs = rng(t, "errs-n", 1, 6)
		}
		if chance(t, "lead", 10) {
			c.Lead = rng(t, "lead-n", 1, 3)
		}
		c.Up = genLink(t, "up", true)
		c.Leave = rapid.SampledFrom([]string{"close", "disc", "half", "reset"}).Draw(t, "leave")
		for range rng(t, "follow", 0, 5) {
			c.Follow = append(c.Follow, rapid.SampledFrom([]string{"queue", "topic", "tx", "own"}).Draw(t, "op"))
		}
		f := wire.Frame{Cmd: []string{"CONNECT", "STOMP", "SEND", "SUBSCRIBE", "BEGIN", "DISCONNECT", "CONNECTED", "MESSAGE", "ACK", "UNSUBSCRIBE", "ERROR", "RECEIPT"}[pick(t, "cmd", 40, 30, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1)]}
		if f.Cmd == "SEND" {
			f = f.With("destination", "/queue/q").With("uid", "first")
		}
		if f.Cmd == "SUBSCRIBE" {
			f = f.With("destination", "/queue/q").With("id", "x")
		}
		add := func(k, v string) {
			f = f.With(k, v)
			if chance(t, "twice", 6) { // the first entry counts
				f = f.With(k, []string{v, "", "1.2", "0,0", "guest", "zz"}[uni(t, "again", 6)])
			}
		}
		order := rapid.Permutation([]int{0, 1, 2, 3, 4, 5}).Draw(t, "order")
		for _, k := range order {
			switch k {
			case 0:
				switch pick(t, "accept", 1, 8, 5) {
				case 1:
					add("accept-version", []string{"1.2", "1.1", "1.1,1.2", "1.0,1.1,1.2", "1.2,1.1,1.0", "1.0,1.1", "1.0"}[pick(t, "ver", 3, 3, 3, 3, 1, 2, 1)])
				case 2:
					var vs []string
					for range rng(t, "vers", 1, 5) {
						vs = append(vs, versions[uni(t, "v", len(versions))])
					}
					add("accept-version", strings.Join(vs, ","))
				}
			case 1:
				if len(p.Creds) > 0 && chance(t, "known", 65) {
					cr := p.Creds[uni(t, "which", len(p.Creds))]
					if cr.L != "" || chance(t, "explicit", 50) {
						add("login", string(cr.L))
					}
					if cr.P != "" || chance(t, "explicit", 50) {
						add("passcode", string(cr.P))
					}
				} else {
					if chance(t, "login?", 70) {
						add("login", string(cred("login")))
					}
					if chance(t, "passcode?", 70) {
						add("passcode", string(cred("passcode")))
					}
				}
			case 2:
				switch pick(t, "hb", 5, 4, 2) {
				case 1:
					one := func() string {
						return itoa([]int{0, 1, rng(t, "hb-v", 0, 70000), 59999, 60000, 60001, 999999999, 100000000}[uni(t, "hb-kind", 8)])
					}
					add("heart-beat", one()+","+one())
				case 2:
					add("heart-beat", rapid.SampledFrom([]string{"", "a,b", "1", "1,2,3", "-1,0", "0,-1", "1,", ",1", ",", " 1,1", "1,1 ", "1, 1", "1.5,2", "0x1,2", "1,+2", "1\n1", "1,1\n", "1;1",
						"01,1", "1000000000,0", "0,4294967296", "18446744073709551616,0", "9999999999999999999999,1"}).Draw(t, "hb-bad"))
				}
			case 3:
				if chance(t, "host?", 70) {
					add("host", string(strNasty(t, "host", 0)))
				}
			case 4:
				if chance(t, "receipt?", 6) {
					add("receipt", []string{"", "r1"}[uni(t, "receipt", 2)])
				}
			case 5:
				if chance(t, "custom?", 15) {
					add(rapid.SampledFrom([]string{"Login", "passcode2", "version", "session", "server", "destination", "Accept-Version", "Receipt"}).Draw(t, "custom"), string(strNasty(t, "custom-v", 0)))
				}
			}
		}
		c.First = f
		switch pick(t, "shape", 88, 4, 4, 4) {
		case 1:
			c.Raw = rapid.SampledFrom([]Str{"\x00", "FOO\n\n\x00", "connect\naccept-version:1.2\n\n\x00", "CONNECT\naccept-version\n\n\x00", "GET / HTTP/1.1\r\nHost: x\r\n\r\n", " CONNECT\n\n\x00", "\xff\xfe"}).Draw(t, "raw")
			c.Raw += "\x00\n\x00\n\n\x00"
		case 2:
			c.Cut = rng(t, "cut", 1, len(wire.Encode(f)))
		case 3:
			for range rng(t, "before", 1, 2) {
				c.Before = append(c.Before, wire.F(rapid.SampledFrom([]string{"SEND", "BEGIN", "DISCONNECT", "ACK", "COMMIT"}).Draw(t, "before-cmd"), "destination", "/queue/q", "uid", "before", "transaction", "t", "id", "1"))
			}
		}
		p.Clients = append(p.Clients, c)
	}
	return p
}

func init() {
	core.Register("S01", core.Check[APlan]{
		Name: "connecting", Gen: genS01, Exec: execS01, Cases: [2]int{40000, 1200000},
		Rule: "clients with different verdicts (let in, turned away, unparseable, undecided) connected in one history",
	})
}
