//go:build go1.25

// Package vsync stands for package sync in the files of the server under virtual time: a goroutine that
// waits for one of its locks counts as idle, so that the clock goes on while the holder sleeps. With the
// locks of package sync virtual time would stop there, as it does not in real time.
package vsync

import (
	"sync"
	"sync/atomic"
)

var step atomic.Pointer[func()]

// SetStep makes f run wherever another goroutine may go on: before a lock is taken, after it is released,
// before an atomic operation and before a file operation. Without it nothing happens there.
func SetStep(f func()) {
	if f == nil {
		step.Store(nil)
		return
	}
	step.Store(&f)
}

// Yield is such a place.
func Yield() {
	if f := step.Load(); f != nil {
		(*f)()
	}
}

type (
	// WaitGroup, Map, Once, Pool and Locker are those of package sync.
	WaitGroup = sync.WaitGroup
	Map       = sync.Map
	Once      = sync.Once
	Pool      = sync.Pool
	Locker    = sync.Locker
	Cond      = sync.Cond
)

// NewCond is that of package sync.
func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// OnceFunc is that of package sync.
func OnceFunc(f func()) func() { return sync.OnceFunc(f) }

// OnceValue is that of package sync.
func OnceValue[T any](f func() T) func() T { return sync.OnceValue(f) }

// OnceValues is that of package sync.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) { return sync.OnceValues(f) }

// Mutex is a lock whose waiters wait for a channel.
type Mutex struct {
	mu      sync.Mutex
	locked  bool
	waiters []chan struct{}
}

// Lock locks m.
func (m *Mutex) Lock() {
	Yield()
	m.mu.Lock()
	if !m.locked {
		m.locked = true
		m.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	m.waiters = append(m.waiters, ch)
	m.mu.Unlock()
	<-ch
}

// TryLock locks m if it is free.
func (m *Mutex) TryLock() bool {
	Yield()
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	defer Yield()
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	if len(m.waiters) == 0 {
		m.locked = false
		return
	}
	ch := m.waiters[0]
	m.waiters = m.waiters[1:]
	close(ch)
}

// RWMutex is a lock for readers and writers whose waiters wait for a channel; a waiting writer goes before
// readers that come later.
type RWMutex struct {
	mu      sync.Mutex
	writer  bool
	readers int
	waiters []rwait
}

type rwait struct {
	ch    chan struct{}
	write bool
}

// Lock locks m for writing.
func (m *RWMutex) Lock() {
	Yield()
	m.mu.Lock()
	if !m.writer && m.readers == 0 {
		m.writer = true
		m.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	m.waiters = append(m.waiters, rwait{ch, true})
	m.mu.Unlock()
	<-ch
}

// RLock locks m for reading.
func (m *RWMutex) RLock() {
	Yield()
	m.mu.Lock()
	if !m.writer && len(m.waiters) == 0 {
		m.readers++
		m.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	m.waiters = append(m.waiters, rwait{ch, false})
	m.mu.Unlock()
	<-ch
}

// wake lets the first waiters go.
func (m *RWMutex) wake() {
	for len(m.waiters) > 0 {
		w := m.waiters[0]
		if w.write {
			if m.readers == 0 && !m.writer {
				m.writer = true
				m.waiters = m.waiters[1:]
				close(w.ch)
			}
			return
		}
		if m.writer {
			return
		}
		m.readers++
		m.waiters = m.waiters[1:]
		close(w.ch)
	}
}

// Unlock ends writing.
func (m *RWMutex) Unlock() {
	defer Yield()
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.wake()
}

// RUnlock ends reading.
func (m *RWMutex) RUnlock() {
	defer Yield()
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.wake()
}

// TryLock locks m for writing if it is free.
func (m *RWMutex) TryLock() bool {
	Yield()
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

// TryRLock locks m for reading if no writer has it.
func (m *RWMutex) TryRLock() bool {
	Yield()
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || len(m.waiters) > 0 {
		return false
	}
	m.readers++
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }
