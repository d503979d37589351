// Package vsync stands in for package sync inside an instrumented build: its
// locks block on channels, so that a goroutine waiting for one is "durably
// blocked" for testing/synctest and virtual time can pass. Its semantics are
// those of package sync; which waiter gets a freed lock is chosen by the
// schedule stream (package sync promises no order).
package vsync

import (
	"sync"
	"sync/atomic"

	"github.com/go-stomp/stomp/v3/verifsched"
)

type (
	Locker    = sync.Locker
	Cond      = sync.Cond
	Map       = sync.Map
	Pool      = sync.Pool
	WaitGroup = sync.WaitGroup
)

func NewCond(l Locker) *Cond   { return sync.NewCond(l) }
func OnceFunc(f func()) func() { return sync.OnceFunc(f) }

// Mutex is a channel based mutual exclusion lock.
type Mutex struct {
	mu      sync.Mutex
	locked  bool
	waiters []chan struct{}
}

func (m *Mutex) Lock() {
	m.mu.Lock()
	if !m.locked {
		m.locked = true
		m.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	m.waiters = append(m.waiters, ch)
	m.mu.Unlock()
	<-ch
}

func (m *Mutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	m.mu.Lock()
	if !m.locked {
		m.mu.Unlock()
		panic("sync: unlock of unlocked mutex")
	}
	if n := len(m.waiters); n > 0 {
		i := 0
		if n > 1 && verifsched.Enabled() {
			i = int(verifsched.Rand() % uint64(n))
		}
		ch := m.waiters[i]
		m.waiters = append(m.waiters[:i:i], m.waiters[i+1:]...)
		m.mu.Unlock()
		close(ch) // ownership passes to the waiter
		return
	}
	m.locked = false
	m.mu.Unlock()
}

// RWMutex is a channel based reader/writer lock.
type RWMutex struct {
	mu      sync.Mutex
	writer  bool
	readers int
	wq      []chan struct{}
	rq      []chan struct{}
}

func (rw *RWMutex) Lock() {
	rw.mu.Lock()
	if !rw.writer && rw.readers == 0 {
		rw.writer = true
		rw.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	rw.wq = append(rw.wq, ch)
	rw.mu.Unlock()
	<-ch
}

func (rw *RWMutex) TryLock() bool {
	rw.mu.Lock()
	defer rw.mu.Unlock()
	if rw.writer || rw.readers > 0 {
		return false
	}
	rw.writer = true
	return true
}

func (rw *RWMutex) Unlock() {
	rw.mu.Lock()
	if !rw.writer {
		rw.mu.Unlock()
		panic("sync: Unlock of unlocked RWMutex")
	}
	rw.writer = false
	rw.release(true)
}

func (rw *RWMutex) RLock() {
	rw.mu.Lock()
	if !rw.writer && len(rw.wq) == 0 {
		rw.readers++
		rw.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	rw.rq = append(rw.rq, ch)
	rw.mu.Unlock()
	<-ch
}

func (rw *RWMutex) TryRLock() bool {
	rw.mu.Lock()
	defer rw.mu.Unlock()
	if rw.writer || len(rw.wq) > 0 {
		return false
	}
	rw.readers++
	return true
}

func (rw *RWMutex) RUnlock() {
	rw.mu.Lock()
	if rw.readers == 0 {
		rw.mu.Unlock()
		panic("sync: RUnlock of unlocked RWMutex")
	}
	rw.readers--
	rw.release(false)
}

// called with rw.mu held; releases it
func (rw *RWMutex) release(fromWriter bool) {
	defer rw.mu.Unlock()
	if fromWriter && len(rw.rq) > 0 {
		for _, ch := range rw.rq {
			rw.readers++
			close(ch)
		}
		rw.rq = nil
		return
	}
	if rw.readers == 0 && len(rw.wq) > 0 {
		ch := rw.wq[0]
		rw.wq = rw.wq[1:]
		rw.writer = true
		close(ch)
	}
}

func (rw *RWMutex) RLocker() Locker { return (*rlocker)(rw) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once runs a function once; concurrent callers wait for it.
type Once struct {
	done atomic.Bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}
