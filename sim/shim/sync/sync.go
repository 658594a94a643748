// Package sync replaces the standard package in instrumented code.
package sync

import (
	"fmt"

	"verif/sim/vsim"
)

const (
	siteLock uint32 = 10 + iota
	siteUnlock
	siteRLock
	siteRUnlock
	siteWgAdd
	siteWgWait
	siteOnce
	siteCond
	siteMap
	sitePool
	siteTry
)

func init() {
	vsim.RegisterSites(10, []string{"Lock", "Unlock", "RLock", "RUnlock", "WaitGroup.Add", "WaitGroup.Wait", "Once", "Cond", "sync.Map", "sync.Pool", "TryLock"})
}

// Locker is the standard interface.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is a simulated mutex.
type Mutex struct {
	locked bool
	q      vsim.Waiters
	vc     []uint32
}

// Lock locks m.
func (m *Mutex) Lock() {
	w := vsim.Active()
	if w == nil {
		return
	}
	w.Point(siteLock)
	for m.locked {
		w.Probe("mutex-contended")
		m.q.Wait(w, "Mutex.Lock")
		if vsim.Dying() {
			return
		}
	}
	m.locked = true
	w.VCAcquire(m.vc)
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	w := vsim.Active()
	if w == nil {
		return true
	}
	w.Point(siteTry)
	if m.locked {
		return false
	}
	m.locked = true
	w.VCAcquire(m.vc)
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	w := vsim.Active()
	if w == nil {
		return
	}
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	w.VCRelease(&m.vc)
	m.q.WakeAll(w)
	w.Point(siteUnlock)
}

// RWMutex is a simulated reader/writer mutex that prefers writers.
type RWMutex struct {
	writer  bool
	readers int
	waiting int // writers that wait
	q       vsim.Waiters
	rq      []*rwaiter
	vc, rvc []uint32
}

type rwaiter struct {
	l       vsim.Waiters
	granted bool
}

// Lock locks rw for writing.
func (rw *RWMutex) Lock() {
	w := vsim.Active()
	if w == nil {
		return
	}
	w.Point(siteLock)
	rw.waiting++
	for rw.writer || rw.readers > 0 {
		w.Probe("rwmutex-writer-waited")
		rw.q.Wait(w, "RWMutex.Lock")
		if vsim.Dying() {
			return
		}
	}
	rw.waiting--
	rw.writer = true
	w.VCAcquire(rw.vc)
	w.VCAcquire(rw.rvc)
}

// TryLock tries to lock rw for writing.
func (rw *RWMutex) TryLock() bool {
	w := vsim.Active()
	if w == nil {
		return true
	}
	w.Point(siteTry)
	if rw.writer || rw.readers > 0 {
		return false
	}
	rw.writer = true
	w.VCAcquire(rw.vc)
	w.VCAcquire(rw.rvc)
	return true
}

// Unlock unlocks rw.
func (rw *RWMutex) Unlock() {
	w := vsim.Active()
	if w == nil {
		return
	}
	if !rw.writer {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	rw.writer = false
	w.VCRelease(&rw.vc)
	for _, r := range rw.rq { // readers that waited go before the next writer
		r.granted = true
		rw.readers++
		r.l.WakeAll(w)
	}
	rw.rq = nil
	rw.q.WakeAll(w)
	w.Point(siteUnlock)
}

// RLock locks rw for reading.
func (rw *RWMutex) RLock() {
	w := vsim.Active()
	if w == nil {
		return
	}
	w.Point(siteRLock)
	if rw.writer || rw.waiting > 0 {
		w.Probe("rwmutex-reader-waited")
		r := &rwaiter{}
		rw.rq = append(rw.rq, r)
		for !r.granted {
			r.l.Wait(w, "RWMutex.RLock")
			if vsim.Dying() {
				return
			}
		}
	} else {
		rw.readers++
	}
	w.VCAcquire(rw.vc)
}

// TryRLock tries to lock rw for reading.
func (rw *RWMutex) TryRLock() bool {
	w := vsim.Active()
	if w == nil {
		return true
	}
	w.Point(siteTry)
	if rw.writer || rw.waiting > 0 {
		return false
	}
	rw.readers++
	w.VCAcquire(rw.vc)
	return true
}

// RUnlock undoes one RLock.
func (rw *RWMutex) RUnlock() {
	w := vsim.Active()
	if w == nil {
		return
	}
	if rw.readers <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	rw.readers--
	w.VCRelease(&rw.rvc)
	if rw.readers == 0 {
		rw.q.WakeAll(w)
	}
	w.Point(siteRUnlock)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for reading.
func (rw *RWMutex) RLocker() Locker { return (*rlocker)(rw) }

// WaitGroup is a simulated wait group.
type WaitGroup struct {
	n  int
	q  vsim.Waiters
	vc []uint32
}

// Add adds delta.
func (wg *WaitGroup) Add(delta int) {
	w := vsim.Active()
	if w == nil {
		return
	}
	w.Point(siteWgAdd)
	w.VCRelease(&wg.vc)
	wg.n += delta
	if wg.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if wg.n == 0 {
		wg.q.WakeAll(w)
	}
	if delta < 0 {
		w.Point(siteWgAdd)
	}
}

// Done is Add(-1).
func (wg *WaitGroup) Done() { wg.Add(-1) }

// Wait waits for the counter to be zero.
func (wg *WaitGroup) Wait() {
	w := vsim.Active()
	if w == nil {
		return
	}
	w.Point(siteWgWait)
	if wg.n > 0 {
		for wg.n > 0 {
			wg.q.Wait(w, fmt.Sprintf("WaitGroup.Wait (counter %d)", wg.n))
			if vsim.Dying() {
				return
			}
			break // the counter was zero when we were woken
		}
	}
	w.VCAcquire(wg.vc)
}

// Go runs f in a goroutine and waits for it.
func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	vsim.Go(siteWgAdd, func() {
		defer wg.Done()
		f()
	})
}

// Once is a simulated once.
type Once struct {
	done bool
	m    Mutex
}

// Do calls f once.
func (o *Once) Do(f func()) {
	if vsim.Active() == nil {
		if !vsim.Dying() && !o.done {
			o.done = true
			f()
		}
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is the standard helper.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is the standard helper.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is the standard helper.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// Cond is a simulated condition variable.
type Cond struct {
	L  Locker
	q  []*vsim.Waiters
	vc []uint32
}

// NewCond returns a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for Signal or Broadcast.
func (c *Cond) Wait() {
	w := vsim.Active()
	if w == nil {
		return
	}
	var l vsim.Waiters
	c.q = append(c.q, &l)
	lp := &l
	// the waiter is queued before the lock is released
	c.unlockAndWait(w, lp)
	if vsim.Dying() {
		return
	}
	w.VCAcquire(c.vc)
	c.L.Lock()
}

func (c *Cond) unlockAndWait(w *vsim.World, l *vsim.Waiters) {
	c.L.Unlock()
	for _, x := range c.q {
		if x == l {
			l.Wait(w, "Cond.Wait")
			return
		}
	}
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	w := vsim.Active()
	if w == nil {
		return
	}
	w.Point(siteCond)
	w.VCRelease(&c.vc)
	if len(c.q) > 0 {
		l := c.q[0]
		c.q = c.q[1:]
		l.WakeAll(w)
	}
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	w := vsim.Active()
	if w == nil {
		return
	}
	w.Point(siteCond)
	w.VCRelease(&c.vc)
	for _, l := range c.q {
		l.WakeAll(w)
	}
	c.q = nil
}

// Map is a simulated concurrent map.
type Map struct {
	m    map[any]any
	keys []any
	vc   []uint32
}

func (m *Map) point() {
	if w := vsim.Active(); w != nil {
		w.Point(siteMap)
		w.VCAcquire(m.vc)
		w.VCRelease(&m.vc)
	}
}

// Load returns the value of a key.
func (m *Map) Load(k any) (any, bool) { m.point(); v, ok := m.m[k]; return v, ok }

func (m *Map) store(k, v any) {
	if vsim.Dying() {
		return
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; !ok || vsim.Dying() {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(append([]any(nil), m.keys[:i]...), m.keys[i+1:]...)
			break
		}
	}
}

// Store sets the value of a key.
func (m *Map) Store(k, v any) { m.point(); m.store(k, v) }

// Clear deletes all entries.
func (m *Map) Clear() { m.point(); m.m, m.keys = nil, nil }

// LoadOrStore is the standard method.
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.point()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.store(k, v)
	return v, false
}

// LoadAndDelete is the standard method.
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.point()
	x, ok := m.m[k]
	m.del(k)
	return x, ok
}

// Delete is the standard method.
func (m *Map) Delete(k any) { m.point(); m.del(k) }

// Swap is the standard method.
func (m *Map) Swap(k, v any) (any, bool) {
	m.point()
	x, ok := m.m[k]
	m.store(k, v)
	return x, ok
}

// CompareAndSwap is the standard method.
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.point()
	if x, ok := m.m[k]; !ok || x != o {
		return false
	}
	m.store(k, n)
	return true
}

// CompareAndDelete is the standard method.
func (m *Map) CompareAndDelete(k, o any) bool {
	m.point()
	if x, ok := m.m[k]; !ok || x != o {
		return false
	}
	m.del(k)
	return true
}

// Range calls f for every entry.
func (m *Map) Range(f func(k, v any) bool) {
	m.point()
	for _, k := range append([]any(nil), m.keys...) {
		m.point()
		v, ok := m.m[k]
		if ok && !f(k, v) {
			return
		}
	}
}

// Pool is a simulated pool.
type Pool struct {
	New func() any
	l   []any
	vc  []uint32
}

// Get takes an item.
func (p *Pool) Get() any {
	if w := vsim.Active(); w != nil {
		w.Point(sitePool)
		w.VCAcquire(p.vc)
	}
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put returns an item.
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	if w := vsim.Active(); w != nil {
		w.Point(sitePool)
		w.VCRelease(&p.vc)
	}
	p.l = append(p.l, x)
}
