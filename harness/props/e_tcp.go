package props

import (
	"fmt"
	"net"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/server"
	"pgregory.net/rapid"
	"verif.local/harness/core"
)

// Part "tcp" of E01: the library's Dial against server.ListenAndServe, over loopback sockets.

type TPlan struct {
	Vers  []int  `json:"vers"` // of the consumers and the producer (last)
	Modes []int  `json:"modes"`
	Queue bool   `json:"queue"`
	Msgs  []Body `json:"msgs"`
	Tx    int    `json:"tx"` // so many at the end are sent in a transaction
	HB    bool   `json:"hb"`
	Wrong bool   `json:"wrong"` // try a wrong passcode first
	Which int    `json:"which"` // 0: ListenAndServe, 1: Serve, 2: Server.Serve with Authenticator, 3: the program stompd
}

var (
	tOnce sync.Once
	tAddr [4]string
	tN    int
	tMu   sync.Mutex
)

func tStart() {
	for i := range tAddr {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		tAddr[i] = l.Addr().String()
		switch i {
		case 0:
			_ = l.Close()
			go func() { _ = server.ListenAndServe(tAddr[0]) }()
		case 3:
			_ = l.Close()
			tProgram(tAddr[3])
		case 1:
			go func() { _ = server.Serve(l) }()
		case 2:
			s := &server.Server{Authenticator: eAuth{}, Log: quiet{}, HeartBeat: 20 * time.Second}
			go func() { _ = s.Serve(l) }()
		}
	}
	for _, a := range []string{tAddr[0], tAddr[3]} {
		for i := 0; i < 1000; i++ {
			if c, err := net.Dial("tcp", a); err == nil {
				_ = c.Close()
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
	}
}

// tProgram starts the program stompd, which ends together with this process.
func tProgram(addr string) {
	up := make(chan error)
	go func() {
		runtime.LockOSThread() // the signal is for the end of this thread
		c := exec.Command(os.Getenv("VERIF_PROGRAM"), "-addr", addr)
		c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		err := c.Start()
		up <- err
		if err == nil {
			_ = c.Wait()
		}
		select {}
	}()
	if err := <-up; err != nil {
		panic(err)
	}
}

func execTCP(x *core.Ctx, p TPlan) (res Result) {
	tOnce.Do(tStart)
	tMu.Lock()
	tN++
	n := tN
	tMu.Unlock()
	dest := fmt.Sprintf("/topic/%d-%d", os.Getpid(), n)
	if p.Queue {
		dest = fmt.Sprintf("/queue/%d-%d", os.Getpid(), n)
	}
	fail := func(f string, a ...any) Result {
		return Result{Fail: fmt.Sprintf(f, a...) + " (over " + []string{"ListenAndServe", "Serve", "Server.Serve", "stompd"}[p.Which] + ")"}
	}
	var conns []*stomp.Conn
	defer func() {
		for _, c := range conns {
			_ = c.MustDisconnect()
		}
	}()
	dial := func(ver int) (*stomp.Conn, error) {
		e := EClient{Ver: ver, HB: [2]int{-1, -1}, Err: -1, Auth: p.Which == 2}
		if p.HB {
			e.HB = [2]int{0, 0}
		}
		c, err := stomp.Dial("tcp", tAddr[p.Which], e.options()...)
		if err == nil {
			conns = append(conns, c)
		}
		return c, err
	}
	if p.Wrong { // the server takes its time over this on purpose
		if c, err := stomp.Dial("tcp", tAddr[2], stomp.ConnOpt.Logger(quiet{}), stomp.ConnOpt.Login(eLogin, "wrong")); err == nil {
			_ = c.MustDisconnect()
			return fail("a client with a wrong passcode was let in")
		}
	}
	type cons struct {
		c *stomp.Conn
		s *stomp.Subscription
	}
	var cs []cons
	last := len(p.Vers) - 1
	for i, v := range p.Vers[:last] {
		c, err := dial(v)
		if err != nil {
			return fail("consumer %d could not connect: %v", i, err)
		}
		s, err := c.Subscribe(dest, stomp.AckMode(p.Modes[i]), stomp.SubscribeOpt.Id("s"+itoa(i)))
		if err != nil {
			return fail("consumer %d could not subscribe: %v", i, err)
		}
		// the answer to a confirmed frame tells that the subscription is there
		if err := c.Send("/topic/nobody", "", nil, stomp.SendOpt.Receipt); err != nil {
			return fail("consumer %d could not send: %v", i, err)
		}
		cs = append(cs, cons{c, s})
	}
	prod, err := dial(p.Vers[last])
	if err != nil {
		return fail("the producer could not connect: %v", err)
	}
	var mu sync.Mutex
	got := make([][]string, len(cs))
	fails := ""
	var wg sync.WaitGroup
	for i, k := range cs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for m := range k.s.C {
				if m.Err != nil {
					mu.Lock()
					fails = fmt.Sprintf("consumer %d was told %v", i, m.Err)
					mu.Unlock()
					return
				}
				mu.Lock()
				got[i] = append(got[i], m.Header.Get("n")+":"+string(m.Body))
				mu.Unlock()
				if p.Modes[i] != 0 {
					if err := k.c.Ack(m); err != nil {
						mu.Lock()
						fails = fmt.Sprintf("consumer %d could not acknowledge: %v", i, err)
						mu.Unlock()
					}
				}
			}
		}()
	}
	var want []string
	var tx *stomp.Transaction
	for i, b := range p.Msgs {
		want = append(want, itoa(i)+":"+string(b.Bytes()))
		if i >= len(p.Msgs)-p.Tx {
			if tx == nil {
				tx = prod.Begin()
			}
			err = tx.Send(dest, "text/plain", b.Bytes(), stomp.SendOpt.Header("n", itoa(i)))
		} else {
			err = prod.Send(dest, "text/plain", b.Bytes(), stomp.SendOpt.Header("n", itoa(i)))
		}
		if err != nil {
			return fail("send %d failed: %v", i, err)
		}
	}
	if tx != nil {
		if err := tx.Commit(); err != nil {
			return fail("the commit failed: %v", err)
		}
	}
	if err := prod.Disconnect(); err != nil {
		return fail("the producer could not disconnect: %v", err)
	}
	total := len(want)
	if !p.Queue {
		total *= len(cs)
	}
	for end := time.Now().Add(20 * time.Second); ; time.Sleep(500 * time.Microsecond) {
		mu.Lock()
		k := 0
		for _, g := range got {
			k += len(g)
		}
		f := fails
		mu.Unlock()
		if f != "" {
			return fail("%s", f)
		}
		if k >= total {
			break
		}
		if time.Now().After(end) {
			return fail("%d of %d messages had arrived after 20 seconds", k, total)
		}
	}
	for i, k := range cs {
		if err := k.s.Unsubscribe(); err != nil {
			return fail("consumer %d could not unsubscribe: %v", i, err)
		}
		if err := k.c.Disconnect(); err != nil {
			return fail("consumer %d could not disconnect: %v", i, err)
		}
	}
	wg.Wait()
	mu.Lock()
	defer mu.Unlock()
	w := strings.Join(want, "|")
	seen := map[string]int{}
	for i, g := range got {
		if !p.Queue && strings.Join(g, "|") != w {
			return fail("consumer %d got %q, and %q was sent", i, g, want)
		}
		at := -1
		for _, s := range g {
			seen[s]++
			for at++; at < len(want) && want[at] != s; at++ {
			}
			if at == len(want) {
				return fail("consumer %d got %q, and %q was sent", i, g, want)
			}
		}
	}
	if p.Queue {
		for _, s := range want {
			if seen[s] != 1 {
				return fail("message %q was delivered %d times", s, seen[s])
			}
		}
	}
	return Result{NonTrivial: total > 2, Labels: []string{fmt.Sprintf("server:%d", p.Which), fmt.Sprintf("queue:%v", p.Queue)}}
}

func genTCP(t *rapid.T) (p TPlan) {
	for i, n := 0, 2+uni(t, "clients", 3); i < n; i++ {
		p.Vers = append(p.Vers, uni(t, "ver", 4))
		p.Modes = append(p.Modes, uni(t, "mode", 3))
	}
	p.Queue = chance(t, "queue", 60)
	for i, n := 0, 1+uni(t, "msgs", 10); i < n; i++ {
		max := 300
		if chance(t, "big", 5) {
			max = 200000
		}
		p.Msgs = append(p.Msgs, genBody(t, "body", max))
	}
	if chance(t, "txd", 40) {
		p.Tx = 1 + uni(t, "tx", 5)
	}
	p.HB = chance(t, "hb", 30)
	p.Which = uni(t, "which", 4)
	p.Wrong = p.Which == 2 && chance(t, "wrong", 3)
	return
}

func init() {
	core.Register("E01", core.Check[TPlan]{
		Name: "tcp", Gen: genTCP, Exec: execTCP, Cases: [2]int{2000, 40000},
		Rule: "more than two messages were due to the consumers",
	})
}
