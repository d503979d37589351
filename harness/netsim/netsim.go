// Package netsim provides in-memory net.Conn pairs and listeners whose timing, splitting
// and failures are chosen by the harness. Everything blocks on sync.Cond or time, so the
// transports are usable inside a testing/synctest bubble.
package netsim

import (
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"time"
)

// ErrReset is what a torn connection reports.
var ErrReset = errors.New("netsim: connection reset by peer")

// ErrWrite is the injected write failure.
var ErrWrite = errors.New("netsim: injected write failure")

// Addr is the network address of a simulated endpoint.
type Addr string

func (a Addr) Network() string { return "sim" }
func (a Addr) String() string  { return string(a) }

// Link describes one direction of a connection.
type Link struct {
	Cap    int   `json:"cap,omitempty"`     // bytes in flight before the writer blocks; 0 = unlimited
	Chunks []int `json:"chunks,omitempty"`  // successive maximal read sizes, cyclic; 0 = unlimited
	FailAt int64 `json:"fail_at,omitempty"` // >0: the write that would pass this byte offset (1-based) fails there
	NoLog  bool  `json:"-"`                 // keep no record of the writes
	Keep   bool  `json:"-"`                 // keep what was written
}

// Event is something recorded on a direction.
type Event struct {
	At time.Time
	N  int
}

type pipe struct {
	mu     sync.Mutex
	cond   *sync.Cond
	link   Link
	buf    []byte
	total  int64
	chunkI int
	kept   []byte
	eof    bool  // writer closed
	rerr   error // readers get this at once
	werr   error // writers get this at once
	events []Event
	rdl    time.Time // read deadline
	wdl    time.Time
	rt, wt *time.Timer
}

func newPipe(l Link) *pipe {
	p := &pipe{link: l}
	p.cond = sync.NewCond(&p.mu)
	return p
}

func (p *pipe) setDeadline(which *time.Time, timer **time.Timer, t time.Time) {
	p.mu.Lock()
	defer p.mu.Unlock()
	*which = t
	if *timer != nil {
		(*timer).Stop()
		*timer = nil
	}
	if !t.IsZero() {
		d := time.Until(t)
		if d > 0 {
			*timer = time.AfterFunc(d, func() {
				p.mu.Lock()
				p.cond.Broadcast()
				p.mu.Unlock()
			})
		}
	}
	p.cond.Broadcast()
}

func expired(t time.Time) bool { return !t.IsZero() && !time.Now().Before(t) }

func (p *pipe) read(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		if p.rerr != nil {
			return 0, p.rerr
		}
		if expired(p.rdl) {
			return 0, os.ErrDeadlineExceeded
		}
		if len(b) == 0 {
			return 0, nil
		}
		if len(p.buf) > 0 {
			n := len(b)
			if n > len(p.buf) {
				n = len(p.buf)
			}
			if len(p.link.Chunks) > 0 {
				if m := p.link.Chunks[p.chunkI%len(p.link.Chunks)]; m > 0 && n > m {
					n = m
				}
				p.chunkI++
			}
			copy(b, p.buf[:n])
			p.buf = p.buf[n:]
			p.cond.Broadcast()
			return n, nil
		}
		if p.eof {
			return 0, io.EOF
		}
		p.cond.Wait()
	}
}

func (p *pipe) write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	n := 0
	for {
		if p.werr != nil {
			return n, p.werr
		}
		if p.eof {
			return n, net.ErrClosed
		}
		if expired(p.wdl) {
			return n, os.ErrDeadlineExceeded
		}
		if n == len(b) {
			return n, nil
		}
		m := len(b) - n
		if p.link.Cap > 0 {
			if room := p.link.Cap - len(p.buf); m > room {
				m = room
			}
		}
		fail := false
		if p.link.FailAt > 0 && p.total+int64(m) >= p.link.FailAt {
			m = int(p.link.FailAt - 1 - p.total)
			fail = true
		}
		if m > 0 {
			p.buf = append(p.buf, b[n:n+m]...)
			if p.link.Keep {
				p.kept = append(p.kept, b[n:n+m]...)
			}
			p.total += int64(m)
			if !p.link.NoLog {
				p.events = append(p.events, Event{time.Now(), m})
			}
			n += m
			p.cond.Broadcast()
		}
		if fail {
			p.werr = ErrWrite
			continue
		}
		if n < len(b) {
			p.cond.Wait()
		}
	}
}

// Conn is one end of a simulated connection.
type Conn struct {
	in, out       *pipe
	local, remote net.Addr

	mu     sync.Mutex
	closes []time.Time
}

var _ net.Conn = (*Conn)(nil)

// Pair returns the two ends; ab is the direction from the first to the second.
func Pair(ab, ba Link, aAddr, bAddr string) (*Conn, *Conn) {
	p, q := newPipe(ab), newPipe(ba)
	return &Conn{in: q, out: p, local: Addr(aAddr), remote: Addr(bAddr)},
		&Conn{in: p, out: q, local: Addr(bAddr), remote: Addr(aAddr)}
}

func (c *Conn) Read(b []byte) (int, error)  { return c.in.read(b) }
func (c *Conn) Write(b []byte) (int, error) { return c.out.write(b) }
func (c *Conn) LocalAddr() net.Addr         { return c.local }
func (c *Conn) RemoteAddr() net.Addr        { return c.remote }

// Close ends the connection: the peer reads what was written and then EOF, its writes fail.
func (c *Conn) Close() error {
	c.mu.Lock()
	c.closes = append(c.closes, time.Now())
	first := len(c.closes) == 1
	c.mu.Unlock()
	if !first {
		return net.ErrClosed
	}
	c.shut(net.ErrClosed, nil, ErrReset)
	return nil
}

// Reset tears the connection: undelivered data is lost, both ends get errors.
func (c *Conn) Reset() {
	c.mu.Lock()
	c.closes = append(c.closes, time.Now())
	c.mu.Unlock()
	c.shut(net.ErrClosed, ErrReset, ErrReset)
	c.out.mu.Lock()
	c.out.buf = nil
	c.out.mu.Unlock()
}

// CloseWrite half-closes: the peer reads EOF, the other direction stays open.
func (c *Conn) CloseWrite() {
	c.out.mu.Lock()
	c.out.eof = true
	c.out.cond.Broadcast()
	c.out.mu.Unlock()
}

func (c *Conn) shut(localErr, peerRead, peerWrite error) {
	c.in.mu.Lock()
	if c.in.rerr == nil {
		c.in.rerr = localErr
	}
	if c.in.werr == nil {
		c.in.werr = peerWrite
	}
	c.in.buf = nil
	c.in.cond.Broadcast()
	c.in.mu.Unlock()
	c.out.mu.Lock()
	if c.out.werr == nil {
		c.out.werr = localErr
	}
	c.out.eof = true
	if peerRead != nil && c.out.rerr == nil {
		c.out.rerr = peerRead
	}
	c.out.cond.Broadcast()
	c.out.mu.Unlock()
}

func (c *Conn) SetDeadline(t time.Time) error {
	_ = c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *Conn) SetReadDeadline(t time.Time) error {
	c.in.setDeadline(&c.in.rdl, &c.in.rt, t)
	return nil
}

func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.out.setDeadline(&c.out.wdl, &c.out.wt, t)
	return nil
}

// FailWriteAfter arranges that this end's writes fail after n more bytes.
func (c *Conn) FailWriteAfter(n int64) {
	c.out.mu.Lock()
	c.out.link.FailAt = c.out.total + n + 1
	c.out.mu.Unlock()
}

// Closed reports whether (and when first) this end was closed.
func (c *Conn) Closed() (time.Time, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.closes) == 0 {
		return time.Time{}, false
	}
	return c.closes[0], true
}

// Written returns when and how much this end wrote.
func (c *Conn) Written() []Event {
	c.out.mu.Lock()
	defer c.out.mu.Unlock()
	return append([]Event(nil), c.out.events...)
}

// Kept is what this end wrote, if its link keeps it.
func (c *Conn) Kept() []byte {
	c.out.mu.Lock()
	defer c.out.mu.Unlock()
	return append([]byte(nil), c.out.kept...)
}

// WrittenBytes is the number of bytes this end wrote.
func (c *Conn) WrittenBytes() int64 {
	c.out.mu.Lock()
	defer c.out.mu.Unlock()
	return c.out.total
}

// Unread is the number of bytes written by the peer and not read by this end.
func (c *Conn) Unread() int {
	c.in.mu.Lock()
	defer c.in.mu.Unlock()
	return len(c.in.buf)
}

// Listener is a simulated net.Listener.
type Listener struct {
	mu     sync.Mutex
	cond   *sync.Cond
	queue  []net.Conn
	closed bool
	errs   []error
}

func NewListener() *Listener {
	l := &Listener{}
	l.cond = sync.NewCond(&l.mu)
	return l
}

func (l *Listener) Accept() (net.Conn, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for {
		if len(l.errs) > 0 {
			e := l.errs[0]
			l.errs = l.errs[1:]
			return nil, e
		}
		if len(l.queue) > 0 {
			c := l.queue[0]
			l.queue[0] = nil
			l.queue = l.queue[1:]
			return c, nil
		}
		if l.closed {
			return nil, net.ErrClosed
		}
		l.cond.Wait()
	}
}

// Push makes Accept return c.
func (l *Listener) Push(c net.Conn) {
	l.mu.Lock()
	l.queue = append(l.queue, c)
	l.cond.Broadcast()
	l.mu.Unlock()
}

// PushErr makes Accept return err once.
func (l *Listener) PushErr(err error) {
	l.mu.Lock()
	l.errs = append(l.errs, err)
	l.cond.Broadcast()
	l.mu.Unlock()
}

func (l *Listener) Close() error {
	l.mu.Lock()
	l.closed = true
	l.cond.Broadcast()
	l.mu.Unlock()
	return nil
}

func (l *Listener) Addr() net.Addr { return Addr("sim-listener:61613") }

// TempErr is a temporary accept error.
type TempErr struct{}

func (TempErr) Error() string   { return "netsim: temporary accept failure" }
func (TempErr) Timeout() bool   { return false }
func (TempErr) Temporary() bool { return true }
