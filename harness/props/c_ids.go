package props

import (
	"fmt"
	"io"
	"strconv"
	"sync"
	"time"

	stomp "github.com/go-stomp/stomp/v3"
	"pgregory.net/rapid"

	"verif.local/harness/core"
	"verif.local/harness/netsim"
	"verif.local/harness/wire"
)

// autoPeer answers CONNECT and every receipt request, and keeps the frames.
type autoPeer struct {
	c     *netsim.Conn
	ver   string
	delay func(wire.Frame) time.Duration // of the RECEIPT
	seen  func(wire.Frame)
	mu    sync.Mutex
	in    []wire.Frame
	done  chan struct{}
	wg    sync.WaitGroup
}

func (p *autoPeer) run() {
	defer close(p.done)
	defer p.wg.Wait()
	var dec wire.Decoder
	buf := make([]byte, 4096)
	for {
		n, err := p.c.Read(buf)
		fs, _ := dec.Feed(buf[:n])
		for _, f := range fs {
			if f.Cmd == "" {
				continue
			}
			p.mu.Lock()
			p.in = append(p.in, f)
			p.mu.Unlock()
			if p.seen != nil {
				p.seen(f)
			}
			if f.Cmd == "CONNECT" || f.Cmd == "STOMP" {
				_, _ = p.c.Write(wire.Encode(wire.F("CONNECTED", "version", p.ver)))
				continue
			}
			if id, ok := f.Lookup("receipt"); ok {
				var d time.Duration
				if p.delay != nil {
					d = p.delay(f)
				}
				if d == 0 {
					_, _ = p.c.Write(wire.Encode(wire.F("RECEIPT", "receipt-id", id)))
				} else {
					p.wg.Add(1)
					go func() {
						defer p.wg.Done()
						time.Sleep(d)
						_, _ = p.c.Write(wire.Encode(wire.F("RECEIPT", "receipt-id", id)))
					}()
				}
			}
		}
		if err != nil {
			return
		}
	}
}

// ---------------------------------------------------------------- C11

type idOp struct {
	K     string `json:"k"` // sub, subid, subreply, begin, rsend, csend, unsub, conn, commit
	Delta int    `json:"d,omitempty"`
	Form  int    `json:"f,omitempty"`
	N     int    `json:"n,omitempty"`
	Ms    int    `json:"ms,omitempty"`
}

type idPlan struct {
	Conns [][][]idOp  `json:"conns"` // per connection, per goroutine
	Sched core.Sched  `json:"sched"`
	C2S   netsim.Link `json:"c2s"`
	HoldM int         `json:"hold,omitempty"` // ms before receipts chosen by the caller are confirmed
}

type idRec struct {
	id           string
	kind         string
	conn         int
	start, end   int64
	mine         bool
	releaseStart int64 // 0: in use to the end
}

func genC11(t *rapid.T) idPlan {
	p := idPlan{Sched: genSched(t), C2S: genLink(t, "c2s", true), HoldM: rng(t, "hold", 0, 6)}
	for c, nc := 0, rng(t, "conns", 1, 3); c < nc; c++ {
		var gs [][]idOp
		for g, ng := 0, rng(t, "goroutines", 1, 3); g < ng; g++ {
			var ops []idOp
			for i, n := 0, rng(t, "n", 1, 15); i < n; i++ {
				o := idOp{Ms: pick(t, "ms", 8, 1, 1)}
				switch pick(t, "op", 3, 3, 1, 3, 3, 2, 2, 1) {
				case 0:
					o.K = "sub"
				case 1:
					o.K = "subid"
				case 2:
					o.K = "subreply"
				case 3:
					o.K = "begin"
				case 4:
					o.K = "rsend"
				case 5:
					o.K = "csend"
				case 6:
					o.K, o.N = "unsub", rng(t, "which", 0, 9)
				case 7:
					o.K, o.N = "commit", rng(t, "which", 0, 9)
				}
				o.Delta, o.Form = rng(t, "delta", 1, 12), pick(t, "form", 8, 1, 1)
				ops = append(ops, o)
			}
			gs = append(gs, ops)
		}
		p.Conns = append(p.Conns, gs)
	}
	return p
}

func execC11(x *core.Ctx, p idPlan) (res Result) {
	var mu sync.Mutex
	var recs []*idRec
	var seq int64
	var max uint64
	tick := func() int64 {
		mu.Lock()
		defer mu.Unlock()
		seq++
		return seq
	}
	note := func(id string) {
		if n, err := strconv.ParseUint(id, 10, 62); err == nil && n > max {
			max = n
		}
	}
	add := func(r *idRec) {
		mu.Lock()
		seq++
		r.end = seq
		recs = append(recs, r)
		if !r.mine {
			note(r.id)
		}
		mu.Unlock()
	}
	pickId := func(o idOp) string {
		mu.Lock()
		defer mu.Unlock()
		n := max + uint64(o.Delta)
		switch o.Form {
		case 1:
			return "0" + strconv.FormatUint(n, 10)
		case 2:
			return "x" + strconv.FormatUint(n, 10)
		}
		return strconv.FormatUint(n, 10)
	}
	fail := ""
	x.Bubble(func() {
		p.Sched.Arm()
		defer p.Sched.Disarm()
		var wg sync.WaitGroup
		for ci, gs := range p.Conns {
			cl, sv := netsim.Pair(p.C2S, netsim.Link{}, "c", "s")
			heldAt := map[string]int64{} // custom receipts that have arrived
			peer := &autoPeer{c: sv, ver: "1.2", done: make(chan struct{})}
			var pmu sync.Mutex
			own := map[string]bool{}
			peer.seen = func(f wire.Frame) {
				if id := f.Get("receipt"); id != "" {
					n := tick()
					pmu.Lock()
					heldAt[id] = n
					pmu.Unlock()
				}
			}
			peer.delay = func(f wire.Frame) time.Duration {
				pmu.Lock()
				defer pmu.Unlock()
				if own[f.Get("receipt")] {
					return msd(p.HoldM)
				}
				return 0
			}
			go peer.run()
			conn, err := stomp.Connect(cl, stomp.ConnOpt.Logger(quiet{}))
			if err != nil {
				fail = "connecting failed: " + err.Error()
				_ = sv.Close()
				return
			}
			type lsub struct {
				s *stomp.Subscription
				r *idRec
			}
			var cw sync.WaitGroup
			sendStart := map[string]int64{}
			unsubStart := map[string]int64{}
			for gi, ops := range gs {
				wg.Add(1)
				cw.Add(1)
				go func() {
					defer wg.Done()
					defer cw.Done()
					var subs []*lsub
					var txs []*stomp.Transaction
					for i, o := range ops {
						time.Sleep(msd(o.Ms))
						st := tick()
						switch o.K {
						case "sub", "subid", "subreply":
							var s *stomp.Subscription
							var err error
							switch o.K {
							case "sub":
								s, err = conn.Subscribe("/s", stomp.AckAuto)
							case "subid":
								s, err = conn.Subscribe("/s", stomp.AckAuto, stomp.SubscribeOpt.Id(pickId(o)))
							case "subreply":
								s, err = conn.Subscribe("/s", stomp.AckAuto, stomp.SubscribeOpt.Header("reply-to", pickId(o)))
							}
							if err != nil {
								continue
							}
							r := &idRec{id: s.Id(), kind: "subscription", conn: ci, start: st, mine: o.K != "sub"}
							add(r)
							subs = append(subs, &lsub{s, r})
							go func() {
								for range s.C {
								}
							}()
						case "unsub":
							if len(subs) == 0 {
								continue
							}
							l := subs[o.N%len(subs)]
							if l.r.releaseStart == 0 {
								l.r.releaseStart = st
							}
							sid := l.s.Id() // never run library code under a lock of the harness
							pmu.Lock()
							if unsubStart[sid] == 0 { // only the first call sends a frame
								unsubStart[sid] = st
							}
							pmu.Unlock()
							_ = l.s.Unsubscribe()
						case "begin":
							tx, err := conn.BeginWithError()
							if err == nil {
								add(&idRec{id: tx.Id(), kind: "transaction", conn: ci, start: st})
								txs = append(txs, tx)
							}
						case "commit":
							if len(txs) > 0 {
								_ = txs[o.N%len(txs)].Commit()
							}
						case "rsend":
							d := fmt.Sprintf("/q/%d/%d/%d", ci, gi, i)
							pmu.Lock()
							sendStart[d] = st
							pmu.Unlock()
							_ = conn.Send(d, "", nil, stomp.SendOpt.Receipt)
						case "csend":
							id := pickId(o)
							pmu.Lock()
							own[id] = true
							delete(heldAt, id)
							pmu.Unlock()
							_ = conn.Send("/c", "", nil, stomp.SendOpt.Header("receipt", id))
							end := tick()
							pmu.Lock()
							at := heldAt[id]
							pmu.Unlock()
							if at > 0 {
								r := &idRec{id: id, kind: "receipt", conn: ci, start: st, mine: true, releaseStart: end}
								add(r)
								r.end = at // in use from here
							}
						}
					}
				}()
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				cw.Wait()
				dst := tick()
				_ = conn.Disconnect()
				_ = cl.Close()
				<-peer.done
				for _, f := range peer.in {
					id, ok := f.Lookup("receipt")
					if !ok {
						continue
					}
					switch f.Cmd {
					case "SEND":
						if st, ok := sendStart[f.Get("destination")]; ok {
							r := &idRec{id: id, kind: "receipt", conn: ci, start: st}
							add(r)
							r.end = heldAt[id]
						}
					case "UNSUBSCRIBE":
						// naming the receipt like the subscription is fine
						if id != f.Get("id") {
							r := &idRec{id: id, kind: "receipt", conn: ci, start: unsubStart[f.Get("id")]}
							add(r)
							r.end = heldAt[id]
						}
					case "DISCONNECT":
						r := &idRec{id: id, kind: "receipt", conn: ci, start: dst}
						add(r)
					}
				}
			}()
		}
		wg.Wait()
	})
	if fail != "" {
		return Result{Fail: fail}
	}
	byId := map[string]*idRec{}
	gens, mines := 0, 0
	for _, r := range recs {
		if r.mine {
			mines++
			continue
		}
		gens++
		if r.id == "" {
			return Result{Fail: "an empty " + r.kind + " id was generated"}
		}
		if q := byId[r.id]; q != nil {
			return Result{Fail: fmt.Sprintf("the id %q was generated twice: for a %s of connection %d and a %s of connection %d", r.id, q.kind, q.conn, r.kind, r.conn)}
		}
		byId[r.id] = r
	}
	for _, m := range recs {
		if !m.mine {
			continue
		}
		if g := byId[m.id]; g != nil && g.conn == m.conn && g.start > m.end && (m.releaseStart == 0 || g.end < m.releaseStart) {
			return Result{Fail: fmt.Sprintf("the %s id %q was generated although the caller had chosen it for a %s still in use on the connection", g.kind, g.id, m.kind)}
		}
	}
	return Result{NonTrivial: gens > 3 && (mines > 0 || len(p.Conns) > 1), Labels: []string{sizeLabel("generated", gens), sizeLabel("chosen", mines)}}
}

// real threads

type idThreads struct {
	Conns int `json:"conns"`
	Gs    int `json:"gs"`
	N     int `json:"n"`
	Mix   int `json:"mix"`
}

func execC11t(x *core.Ctx, p idThreads) Result {
	type one struct {
		conn *stomp.Conn
		cl   *netsim.Conn
		peer *autoPeer
	}
	var cs []one
	for i := 0; i < p.Conns; i++ {
		cl, sv := netsim.Pair(netsim.Link{}, netsim.Link{}, "c", "s")
		peer := &autoPeer{c: sv, ver: "1.2", done: make(chan struct{})}
		go peer.run()
		conn, err := stomp.Connect(cl, stomp.ConnOpt.Logger(quiet{}))
		if err != nil {
			return Result{Fail: "connecting failed: " + err.Error()}
		}
		cs = append(cs, one{conn, cl, peer})
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, c := range cs {
		for g := 0; g < p.Gs; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := 0; i < p.N; i++ {
					switch (i + g*p.Mix) % 4 {
					case 0, 1:
						_, _ = c.conn.BeginWithError()
					case 2:
						if s, err := c.conn.Subscribe("/s", stomp.AckAuto); err == nil {
							go func() {
								for range s.C {
								}
							}()
						}
					case 3:
						_ = c.conn.Send("/q", "", nil, stomp.SendOpt.Receipt)
					}
				}
			}()
		}
	}
	close(start)
	wg.Wait()
	seen := map[string]string{}
	n := 0
	for _, c := range cs {
		_ = c.conn.Disconnect()
		_ = c.cl.Close()
		<-c.peer.done
		for _, f := range c.peer.in {
			id, what := "", ""
			switch f.Cmd {
			case "BEGIN":
				id, what = f.Get("transaction"), "transaction"
			case "SUBSCRIBE":
				id, what = f.Get("id"), "subscription"
			case "SEND", "DISCONNECT":
				id, what = f.Get("receipt"), "receipt"
			default:
				continue
			}
			n++
			if q, dup := seen[id]; dup {
				return Result{Fail: fmt.Sprintf("the id %q was generated for a %s and a %s", id, q, what)}
			}
			seen[id] = what
		}
	}
	return Result{NonTrivial: n > 20 && p.Conns*p.Gs > 1, Labels: []string{fmt.Sprintf("threads:%d", p.Conns*p.Gs)}}
}

func init() {
	core.Register("C11", core.Check[idPlan]{
		Name: "ids", Gen: genC11, Exec: execC11, Cases: [2]int{30000, 400000},
		Rule: "more than three ids were generated, and the caller chose some ids himself or several connections were used",
	})
	core.Register("C11", core.Check[idThreads]{
		Name: "threads", Exec: execC11t, Cases: [2]int{800, 20000},
		Gen: func(t *rapid.T) idThreads {
			return idThreads{Conns: rng(t, "conns", 1, 6), Gs: rng(t, "gs", 1, 6), N: rng(t, "n", 10, 120), Mix: rng(t, "mix", 0, 3)}
		},
		Rule: "more than twenty ids were generated by more than one thread running in parallel",
	})
	core.Register("C12", core.Check[readPlan]{
		Name: "reads", Gen: genC12, Exec: execC12, Cases: [2]int{200000, 4000000}, Pure: true,
		Rule: "the body has at least two bytes and at least two reads delivered some",
	})
}

// ---------------------------------------------------------------- C12

type readOp struct {
	K string `json:"k"` // read, byte, full, all, copy, zero
	N int    `json:"n,omitempty"`
}

type readPlan struct {
	Body Body     `json:"body"`
	Ops  []readOp `json:"ops"`
}

func genC12(t *rapid.T) readPlan {
	p := readPlan{Body: genBody(t, "body", rapid.SampledFrom([]int{8, 100, 5000}).Draw(t, "max"))}
	for i, n := 0, rng(t, "n", 1, 25); i < n; i++ {
		o := readOp{}
		switch pick(t, "op", 8, 5, 1, 1, 1, 1) {
		case 0:
			o.K, o.N = "read", rapid.SampledFrom([]int{1, 2, 3, 7, 16, 100, 512, 6000}).Draw(t, "len")
		case 1:
			o.K = "byte"
		case 2:
			o.K = "zero"
		case 3:
			o.K, o.N = "full", rng(t, "len", 1, 40)
		case 4:
			o.K = "all"
		case 5:
			o.K = "copy"
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

// execC12 reads a message through every reader interface it offers; the model is the list of remaining bytes.
func execC12(_ *core.Ctx, p readPlan) Result {
	orig := p.Body.Bytes()
	backing := append([]byte{}, orig...)
	backing = append(backing, "beyond"...)
	m := &stomp.Message{Body: backing[: len(orig) : len(orig)+3]}
	var r io.Reader = m
	br, ok := any(m).(io.ByteReader)
	if !ok {
		return Result{Fail: "the message offers no ReadByte"}
	}
	rest := orig
	moves := 0
	took := func(i int, got []byte) string {
		if len(got) > len(rest) || string(got) != string(rest[:len(got)]) {
			return fmt.Sprintf("op %d (%s): got %q, the next bytes are %q", i, p.Ops[i].K, clipB(got), clipB(rest))
		}
		rest = rest[len(got):]
		if len(got) > 0 {
			moves++
		}
		return ""
	}
	for i, o := range p.Ops {
		s := ""
		switch o.K {
		case "read", "zero":
			buf := make([]byte, o.N+4)
			for j := range buf {
				buf[j] = 0xA5
			}
			n, err := r.Read(buf[:o.N])
			if n < 0 || n > o.N {
				return Result{Fail: fmt.Sprintf("op %d: Read returned %d for a buffer of %d", i, n, o.N)}
			}
			if err != nil && err != io.EOF {
				return Result{Fail: fmt.Sprintf("op %d: Read failed: %v", i, err)}
			}
			if o.N > 0 && len(rest) == 0 && (n != 0 || err != io.EOF) {
				return Result{Fail: fmt.Sprintf("op %d: at the end Read returned %d, %v", i, n, err)}
			}
			if o.N > 0 && len(rest) > 0 && n == 0 {
				return Result{Fail: fmt.Sprintf("op %d: Read returned no bytes, %v, with %d left", i, err, len(rest))}
			}
			for _, b := range buf[o.N:] {
				if b != 0xA5 {
					return Result{Fail: fmt.Sprintf("op %d: Read wrote beyond the buffer", i)}
				}
			}
			s = took(i, buf[:n])
			if err == io.EOF && len(rest) > 0 {
				return Result{Fail: fmt.Sprintf("op %d: Read reported the end with %d bytes left", i, len(rest))}
			}
		case "byte":
			b, err := br.ReadByte()
			if len(rest) == 0 {
				if err != io.EOF {
					return Result{Fail: fmt.Sprintf("op %d: at the end ReadByte returned %v, %v", i, b, err)}
				}
			} else if err != nil {
				return Result{Fail: fmt.Sprintf("op %d: ReadByte failed with %d bytes left: %v", i, len(rest), err)}
			} else {
				s = took(i, []byte{b})
			}
		case "full":
			buf := make([]byte, o.N)
			n, _ := io.ReadFull(r, buf)
			if want := min(o.N, len(rest)); n != want {
				return Result{Fail: fmt.Sprintf("op %d: ReadFull got %d of %d bytes", i, n, want)}
			}
			s = took(i, buf[:n])
		case "all", "copy":
			var got []byte
			var err error
			if o.K == "all" {
				got, err = io.ReadAll(r)
			} else {
				var w writerBuf
				_, err = io.Copy(&w, r)
				got = w.b
			}
			if err != nil || len(got) != len(rest) {
				return Result{Fail: fmt.Sprintf("op %d (%s): got %d of %d bytes, %v", i, o.K, len(got), len(rest), err)}
			}
			s = took(i, got)
		}
		if s != "" {
			return Result{Fail: s}
		}
		if string(backing[:len(orig)]) != string(orig) || string(backing[len(orig):]) != "beyond" {
			return Result{Fail: fmt.Sprintf("op %d (%s): the body was modified", i, o.K)}
		}
	}
	got, err := io.ReadAll(r)
	if err != nil || string(got) != string(rest) {
		return Result{Fail: fmt.Sprintf("the rest is %q, %v; it must be %q", clipB(got), err, clipB(rest))}
	}
	if _, err := br.ReadByte(); err != io.EOF {
		return Result{Fail: fmt.Sprintf("ReadByte after the end: %v", err)}
	}
	return Result{NonTrivial: len(orig) > 1 && moves > 1, Labels: []string{sizeLabel("body", len(orig))}}
}

type writerBuf struct{ b []byte }

func (w *writerBuf) Write(p []byte) (int, error) { w.b = append(w.b, p...); return len(p), nil }

func clipB(b []byte) string {
	if len(b) > 40 {
		return string(b[:40]) + "..."
	}
	return string(b)
}
