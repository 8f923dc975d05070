package vrt

import (
	"runtime"
	"sync"
	"sync/atomic"
	"unsafe"
)

// Mutex replaces sync.Mutex in the code under test.
type Mutex struct{ rw RWMutex }

func (m *Mutex) Lock()         { m.rw.Lock() }
func (m *Mutex) Unlock()       { m.rw.unlock("sync: unlock of unlocked mutex") }
func (m *Mutex) TryLock() bool { return m.rw.TryLock() }

// RWMutex replaces sync.RWMutex: same semantics (a waiting writer blocks new
// readers), but blocking is visible to the controlled scheduler.
type RWMutex struct {
	readers  int
	writer   bool
	wwaiting int
	waiters  []chan struct{}
}

// one native lock for all lock state: critical sections are tiny
var lockMu sync.Mutex

func (m *RWMutex) canW() bool { return !m.writer && m.readers == 0 }
func (m *RWMutex) canR() bool { return !m.writer && m.wwaiting == 0 }

func (m *RWMutex) wake() {
	for _, c := range m.waiters {
		close(c)
	}
	m.waiters = nil
}

func (m *RWMutex) acquire(kind string, write bool) {
	w := Cur()
	try := func() bool {
		if write {
			if m.canW() {
				m.writer = true
				return true
			}
			return false
		}
		if m.canR() {
			m.readers++
			return true
		}
		return false
	}
	if w != nil && w.Fine {
		announced := false
		raceDisable()
		w.mu.Lock()
		dead := w.dead
		w.mu.Unlock()
		raceEnable()
		if dead {
			runtime.Goexit()
		}
		w.park(kind, func() bool {
			if write {
				if m.canW() {
					return true
				}
				if !announced { // a writer that found the lock taken blocks later readers
					announced = true
					m.wwaiting++
				}
				return false
			}
			return m.canR()
		}, func() {
			if announced {
				m.wwaiting--
			}
			if !try() {
				panic("vrt: granted lock not available")
			}
		})
	} else {
		raceDisable()
		lockMu.Lock()
		waited := false
		for !try() {
			if w == nil {
				// no controlled execution: cannot block sensibly
				lockMu.Unlock()
				panic("vrt: lock contention outside a controlled execution")
			}
			if w.dead {
				lockMu.Unlock()
				raceEnable()
				runtime.Goexit()
			}
			if write && !waited {
				m.wwaiting++
			}
			if !waited {
				waited = true
				atomic.AddInt32(&w.lockWait, 1)
			}
			c := make(chan struct{})
			m.waiters = append(m.waiters, c)
			lockMu.Unlock()
			select {
			case <-c:
			case <-w.closed:
				raceEnable()
				runtime.Goexit()
			}
			lockMu.Lock()
			// a waiting writer does not block itself
			if write {
				m.wwaiting--
				waited = false
				atomic.AddInt32(&w.lockWait, -1)
			}
		}
		if waited && !write {
			atomic.AddInt32(&w.lockWait, -1)
		}
		lockMu.Unlock()
		raceEnable()
	}
	raceAcquire(unsafe.Pointer(&m.readers))
	if write {
		raceAcquire(unsafe.Pointer(&m.writer))
	}
}

func (m *RWMutex) Lock()   { m.acquire("lock", true) }
func (m *RWMutex) RLock()  { m.acquire("rlock", false) }
func (m *RWMutex) Unlock() { m.unlock("sync: Unlock of unlocked RWMutex") }
func (m *RWMutex) RUnlock() {
	raceReleaseMerge(unsafe.Pointer(&m.writer))
	raceDisable()
	w := Cur()
	if w != nil {
		w.mu.Lock()
		dead := w.dead
		w.mu.Unlock()
		if dead {
			raceEnable()
			return
		}
	}
	lockMu.Lock()
	if m.readers <= 0 {
		lockMu.Unlock()
		raceEnable()
		fatalLock("sync: RUnlock of unlocked RWMutex")
		return
	}
	m.readers--
	m.wake()
	lockMu.Unlock()
	raceEnable()
}

func (m *RWMutex) unlock(msg string) {
	raceReleaseMerge(unsafe.Pointer(&m.readers))
	raceDisable()
	w := Cur()
	if w != nil {
		w.mu.Lock()
		dead := w.dead
		w.mu.Unlock()
		if dead {
			raceEnable()
			return
		}
	}
	lockMu.Lock()
	if !m.writer {
		lockMu.Unlock()
		raceEnable()
		fatalLock(msg)
		return
	}
	m.writer = false
	m.wake()
	lockMu.Unlock()
	raceEnable()
}

// fatalLock: the Go runtime terminates the process here and nothing can recover it.
func fatalLock(msg string) {
	w := Cur()
	if w == nil {
		panic(msg)
	}
	w.crash("fatal error: " + msg)
	runtime.Goexit()
}

func (m *RWMutex) TryLock() bool {
	lockMu.Lock()
	defer lockMu.Unlock()
	if m.canW() {
		m.writer = true
		return true
	}
	return false
}

func (m *RWMutex) TryRLock() bool {
	lockMu.Lock()
	defer lockMu.Unlock()
	if m.canR() {
		m.readers++
		return true
	}
	return false
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() sync.Locker { return rlocker{m} }
