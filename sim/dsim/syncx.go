package dsim

import (
	"fmt"
	"sync"
)

type Locker = sync.Locker

// Mutex replaces sync.Mutex.
type Mutex struct {
	locked  bool
	waiters []*G
	vc      VC
}

func (m *Mutex) Lock() {
	s := S
	if s == nil {
		return
	}
	g := s.point("lock")
	if g == nil || s.aborted {
		return
	}
	for m.locked {
		m.waiters = append(m.waiters, g)
		s.Probe("contended-lock")
		s.park(g, gBlocked, "Mutex.Lock")
		if s.aborted {
			return
		}
	}
	m.locked = true
	s.acquire(m.vc)
}

func (m *Mutex) TryLock() bool {
	s := S
	if s == nil || s.aborted {
		return true
	}
	s.point("trylock")
	if m.locked {
		return false
	}
	m.locked = true
	s.acquire(m.vc)
	return true
}

func wakeAll(s *Sim, ws *[]*G) {
	for _, w := range *ws {
		s.makeReady(w)
	}
	*ws = (*ws)[:0]
}

func (m *Mutex) Unlock() {
	s := S
	if s == nil || s.aborted {
		return
	}
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	s.release(&m.vc)
	m.locked = false
	wakeAll(s, &m.waiters)
	s.point("unlock")
}

// RWMutex replaces sync.RWMutex; like the real one, a waiting writer holds
// back new readers.
type RWMutex struct {
	writer  bool
	readers int
	wwait   int
	waiters []*G
	vcW     VC // released by writers
	vcR     VC // released by readers
}

func (m *RWMutex) Lock() {
	s := S
	if s == nil {
		return
	}
	g := s.point("wlock")
	if g == nil || s.aborted {
		return
	}
	if m.writer || m.readers > 0 {
		m.wwait++
		s.Probe("contended-lock")
		for m.writer || m.readers > 0 {
			m.waiters = append(m.waiters, g)
			s.park(g, gBlocked, "RWMutex.Lock")
			if s.aborted {
				return
			}
		}
		m.wwait--
	}
	m.writer = true
	s.acquire(m.vcW)
	s.acquire(m.vcR)
}

func (m *RWMutex) TryLock() bool {
	s := S
	if s == nil || s.aborted {
		return true
	}
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	s.acquire(m.vcW)
	s.acquire(m.vcR)
	return true
}

func (m *RWMutex) Unlock() {
	s := S
	if s == nil || s.aborted {
		return
	}
	if !m.writer {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	s.release(&m.vcW)
	m.writer = false
	wakeAll(s, &m.waiters)
	s.point("wunlock")
}

func (m *RWMutex) RLock() {
	s := S
	if s == nil {
		return
	}
	g := s.point("rlock")
	if g == nil || s.aborted {
		return
	}
	for m.writer || m.wwait > 0 {
		m.waiters = append(m.waiters, g)
		s.Probe("contended-lock")
		s.park(g, gBlocked, "RWMutex.RLock")
		if s.aborted {
			return
		}
	}
	m.readers++
	s.acquire(m.vcW)
}

func (m *RWMutex) TryRLock() bool {
	s := S
	if s == nil || s.aborted {
		return true
	}
	if m.writer || m.wwait > 0 {
		return false
	}
	m.readers++
	s.acquire(m.vcW)
	return true
}

func (m *RWMutex) RUnlock() {
	s := S
	if s == nil || s.aborted {
		return
	}
	if m.readers <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	s.release(&m.vcR)
	m.readers--
	wakeAll(s, &m.waiters)
	s.point("runlock")
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	n       int
	waiters []*G
	vc      VC
}

func (w *WaitGroup) Add(d int) {
	s := S
	if s == nil || s.aborted {
		return
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if d < 0 {
		s.release(&w.vc)
	}
	if w.n == 0 {
		wakeAll(s, &w.waiters)
	}
	s.point("wg")
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	s := S
	if s == nil {
		return
	}
	g := s.point("wgwait")
	if g == nil || s.aborted {
		return
	}
	for w.n > 0 {
		w.waiters = append(w.waiters, g)
		s.park(g, gBlocked, "WaitGroup.Wait")
		if s.aborted {
			return
		}
	}
	s.acquire(w.vc)
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go("wg.Go", func() { defer w.Done(); f() })
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if S == nil {
		if !o.done {
			defer func() { o.done = true }()
			f()
		}
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Cond replaces sync.Cond.
type Cond struct {
	L       Locker
	waiters []*G
	vc      VC
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	s := S
	g := s.me()
	if g == nil || s.aborted {
		return
	}
	c.waiters = append(c.waiters, g)
	c.L.Unlock()
	for {
		still := false
		for _, w := range c.waiters {
			if w == g {
				still = true
			}
		}
		if !still || s.aborted {
			break
		}
		s.park(g, gBlocked, "Cond.Wait")
	}
	s.acquire(c.vc)
	c.L.Lock()
}
func (c *Cond) Signal() {
	s := S
	if s == nil || s.aborted {
		return
	}
	s.release(&c.vc)
	if n := len(c.waiters); n > 0 {
		i := 0
		if s.Cfg.Strategy != 0 {
			i = s.St[Sched].Intn(n)
		}
		w := c.waiters[i]
		c.waiters = append(c.waiters[:i], c.waiters[i+1:]...)
		s.makeReady(w)
	}
	s.point("signal")
}
func (c *Cond) Broadcast() {
	s := S
	if s == nil || s.aborted {
		return
	}
	s.release(&c.vc)
	wakeAll(s, &c.waiters)
	s.point("broadcast")
}

// Map replaces sync.Map.
type Map struct {
	mu Mutex
	m  map[any]any
	ks []any
}

func (m *Map) Load(k any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v any) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.ks = append(m.ks, k)
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.ks = append(m.ks, k)
	m.m[k] = v
	return v, false
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	delete(m.m, k)
	for i, x := range m.ks {
		if x == k {
			m.ks = append(m.ks[:i:i], m.ks[i+1:]...)
			break
		}
	}
	return v, ok
}
func (m *Map) Swap(k, v any) (any, bool) {
	o, ok := m.Load(k)
	m.Store(k, v)
	return o, ok
}
func (m *Map) Range(f func(k, v any) bool) {
	m.mu.Lock()
	ks := append([]any(nil), m.ks...)
	m.mu.Unlock()
	for _, k := range ks {
		if v, ok := m.Load(k); ok {
			if !f(k, v) {
				return
			}
		}
	}
}

// Pool replaces sync.Pool (never keeps anything: the legal worst case).
type Pool struct{ New func() any }

func (p *Pool) Get() any {
	AtomicSync()
	if p.New == nil {
		return nil
	}
	return p.New()
}
func (p *Pool) Put(any) { AtomicSync() }

// AtomicSync orders the caller with every other atomic operation.
func AtomicSync() {
	s := S
	if s == nil || s.aborted || s.cur == nil {
		return
	}
	s.acquire(s.atomVC)
	s.release(&s.atomVC)
	s.point("atomic")
}

var _ = fmt.Sprint
