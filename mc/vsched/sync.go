package vsched

import "sync"

func active() *Exec {
	e := cur
	if e == nil || e.run == nil {
		return nil
	}
	if e.aborting.Load() {
		return nil
	}
	return e
}

func aborting() bool { return cur != nil && cur.aborting.Load() }

func (e *Exec) fatal(msg string) {
	e.Crash = msg
	e.finish()
	e.park(e.run)
}

// Mutex replaces sync.Mutex.
type Mutex struct {
	real   sync.Mutex
	locked bool
}

// Lock locks.
//
//go:noinline
func (m *Mutex) Lock() {
	e := active()
	if e == nil {
		if !aborting() {
			m.real.Lock()
		}
		return
	}
	e.next(e.run, -5)
	wait(e, "mutex", func() bool { return !m.locked })
	m.locked = true
	if RaceEnabled {
		m.real.Lock()
	}
}

// TryLock tries to lock.
//
//go:noinline
func (m *Mutex) TryLock() bool {
	e := active()
	if e == nil {
		if aborting() {
			return true
		}
		return m.real.TryLock()
	}
	e.next(e.run, -5)
	if m.locked {
		return false
	}
	m.locked = true
	if RaceEnabled {
		m.real.Lock()
	}
	return true
}

// Unlock unlocks.
//
//go:noinline
func (m *Mutex) Unlock() {
	e := active()
	if e == nil {
		if !aborting() {
			m.real.Unlock()
		}
		return
	}
	if !m.locked {
		e.fatal("sync: unlock of unlocked mutex")
	}
	m.locked = false
	if RaceEnabled {
		m.real.Unlock()
	}
	e.next(e.run, -6)
}

// RWMutex replaces sync.RWMutex (a waiting writer keeps new readers out, as in sync).
type RWMutex struct {
	real    sync.RWMutex
	readers int
	writer  bool
	pending int
}

// RLock locks for reading.
//
//go:noinline
func (m *RWMutex) RLock() {
	e := active()
	if e == nil {
		if !aborting() {
			m.real.RLock()
		}
		return
	}
	e.next(e.run, -7)
	wait(e, "rwmutex(read)", func() bool { return !m.writer && m.pending == 0 })
	m.readers++
	if RaceEnabled {
		m.real.RLock()
	}
}

// RUnlock undoes RLock.
//
//go:noinline
func (m *RWMutex) RUnlock() {
	e := active()
	if e == nil {
		if !aborting() {
			m.real.RUnlock()
		}
		return
	}
	if m.readers == 0 {
		e.fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if RaceEnabled {
		m.real.RUnlock()
	}
	e.next(e.run, -8)
}

// Lock locks for writing.
//
//go:noinline
func (m *RWMutex) Lock() {
	e := active()
	if e == nil {
		if !aborting() {
			m.real.Lock()
		}
		return
	}
	e.next(e.run, -9)
	m.pending++
	wait(e, "rwmutex(write)", func() bool { return !m.writer && m.readers == 0 })
	m.pending--
	m.writer = true
	if RaceEnabled {
		m.real.Lock()
	}
}

// Unlock undoes Lock.
//
//go:noinline
func (m *RWMutex) Unlock() {
	e := active()
	if e == nil {
		if !aborting() {
			m.real.Unlock()
		}
		return
	}
	if !m.writer {
		e.fatal("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	if RaceEnabled {
		m.real.Unlock()
	}
	e.next(e.run, -10)
}

// TryLock tries to lock for writing.
//
//go:noinline
func (m *RWMutex) TryLock() bool {
	e := active()
	if e == nil {
		if aborting() {
			return true
		}
		return m.real.TryLock()
	}
	e.next(e.run, -9)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	if RaceEnabled {
		m.real.Lock()
	}
	return true
}

// TryRLock tries to lock for reading.
//
//go:noinline
func (m *RWMutex) TryRLock() bool {
	e := active()
	if e == nil {
		if aborting() {
			return true
		}
		return m.real.TryRLock()
	}
	e.next(e.run, -7)
	if m.writer || m.pending > 0 {
		return false
	}
	m.readers++
	if RaceEnabled {
		m.real.RLock()
	}
	return true
}

// RLocker returns a Locker for the read side.
//
//go:noinline
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do runs f once.
//
//go:noinline
func (o *Once) Do(f func()) {
	if e := active(); e != nil {
		e.next(e.run, -11)
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	real sync.WaitGroup
	n    int
}

// Add adds to the counter.
//
//go:noinline
func (w *WaitGroup) Add(d int) {
	e := active()
	if e == nil {
		if !aborting() {
			w.real.Add(d)
		}
		return
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if RaceEnabled {
		w.real.Add(d)
	}
	e.next(e.run, -12)
}

// Done decrements the counter.
//
//go:noinline
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits for zero.
//
//go:noinline
func (w *WaitGroup) Wait() {
	e := active()
	if e == nil {
		if !aborting() {
			w.real.Wait()
		}
		return
	}
	e.next(e.run, -13)
	wait(e, "waitgroup", func() bool { return w.n == 0 })
	if RaceEnabled {
		w.real.Wait()
	}
}

// Go runs f in a new goroutine counted by the group.
//
//go:noinline
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() { defer w.Done(); f() })
}
