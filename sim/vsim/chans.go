package vsim

import (
	"fmt"
	"unsafe"
)

// hchan is the simulated state of a channel; the real channel is only the
// handle.
type hchan struct {
	id     int
	cap    int
	buf    []any
	bufvc  [][]uint32
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	vc     []uint32 // released by close
	rvcs   []uint32 // released by receives (for buffered back pressure)
}

type waiter struct {
	g    *G
	val  any
	vc   []uint32
	ok   bool
	sel  *selState // nil for a plain operation
	idx  int
	done bool
}

type selState struct {
	fired bool
	idx   int
}

func (w *World) hc(p uintptr, capacity int, keep any) *hchan {
	h := w.chans[p]
	if h == nil {
		h = &hchan{id: len(w.chans), cap: capacity}
		w.chans[p] = h
		w.chkeep = append(w.chkeep, keep)
	}
	return h
}

func (w *World) relVC() []uint32 {
	if !w.Cfg.Race {
		return nil
	}
	g := w.cur
	c := append([]uint32(nil), g.vc...)
	g.vc[g.ID]++
	return c
}

func (w *World) acqVC(vc []uint32) {
	if w.Cfg.Race && vc != nil {
		w.vcJoin(&w.cur.vc, vc)
	}
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if x.done || x.g.killed || (x.sel != nil && x.sel.fired) {
			continue
		}
		return x
	}
	return nil
}

func (x *waiter) complete(w *World) {
	x.done = true
	if x.sel != nil {
		x.sel.fired = true
		x.sel.idx = x.idx
	}
	w.ready(x.g)
}

// trySend performs a send that can proceed now.
func (h *hchan) trySend(w *World, v any) bool {
	if h.closed {
		panic(chanError("send on closed channel"))
	}
	if r := popWaiter(&h.recvq); r != nil {
		r.val, r.ok = v, true
		r.vc = w.relVC()
		if w.Cfg.Race { // unbuffered: receiver happens before send completes
			w.acqVC(r.g.vc)
			r.g.vc[r.g.ID]++
		}
		r.complete(w)
		return true
	}
	if len(h.buf) < h.cap {
		h.buf = append(h.buf, v)
		h.bufvc = append(h.bufvc, w.relVC())
		w.acqVC(h.rvcs)
		return true
	}
	return false
}

// tryRecv performs a receive that can proceed now.
func (h *hchan) tryRecv(w *World) (v any, ok, done bool) {
	if len(h.buf) > 0 {
		v = h.buf[0]
		w.acqVC(h.bufvc[0])
		h.buf, h.bufvc = h.buf[1:], h.bufvc[1:]
		if w.Cfg.Race {
			w.vcJoin(&h.rvcs, w.relVC())
		}
		if s := popWaiter(&h.sendq); s != nil {
			h.buf = append(h.buf, s.val)
			h.bufvc = append(h.bufvc, s.vc)
			if w.Cfg.Race {
				w.vcJoin(&s.g.vc, h.rvcs)
			}
			s.ok = true
			s.complete(w)
		}
		return v, true, true
	}
	if s := popWaiter(&h.sendq); s != nil {
		w.acqVC(s.vc)
		if w.Cfg.Race {
			w.vcJoin(&s.g.vc, w.relVC())
		}
		s.ok = true
		s.complete(w)
		return s.val, true, true
	}
	if h.closed {
		w.acqVC(h.vc)
		return nil, false, true
	}
	return nil, false, false
}

type chanError string

func (e chanError) Error() string { return string(e) }

func noWorld(what string) {
	panic("vsim: " + what + " outside of a simulation")
}

// Send implements ch <- v.
func Send[T any](ch chan<- T, site uint32) func(T) {
	return func(v T) {
		w := W
		if w == nil {
			noWorld("send")
		}
		if dead(w) {
			return
		}
		w.point(site)
		if ch == nil {
			w.cur.why = "send on nil channel"
			w.block()
		}
		h := w.hc(*(*uintptr)(unsafe.Pointer(&ch)), cap(ch), ch)
		if h.trySend(w, v) {
			w.point(site)
			return
		}
		x := &waiter{g: w.cur, val: v, vc: w.relVC()}
		h.sendq = append(h.sendq, x)
		w.cur.why = fmt.Sprintf("send at %s", SiteName(site))
		w.block()
		if !x.ok {
			panic(chanError("send on closed channel"))
		}
	}
}

func recv[T any](ch <-chan T, site uint32) (v T, ok bool) {
	w := W
	if w == nil {
		noWorld("receive")
	}
	if dead(w) {
		return
	}
	w.point(site)
	if ch == nil {
		w.cur.why = "receive from nil channel"
		w.block()
	}
	h := w.hc(*(*uintptr)(unsafe.Pointer(&ch)), cap(ch), ch)
	r, ok, done := h.tryRecv(w)
	if !done {
		x := &waiter{g: w.cur}
		h.recvq = append(h.recvq, x)
		w.cur.why = fmt.Sprintf("receive at %s", SiteName(site))
		w.block()
		w.acqVC(x.vc)
		r, ok = x.val, x.ok
	} else {
		w.point(site)
	}
	if ok && r != nil {
		v = r.(T)
	}
	return v, ok
}

// Recv implements <-ch.
func Recv[T any](ch <-chan T, site uint32) T { v, _ := recv(ch, site); return v }

// Recv2 implements v, ok := <-ch.
func Recv2[T any](ch <-chan T, site uint32) (T, bool) { return recv(ch, site) }

// ChanZero gives the zero value of the element type.
func ChanZero[T any](ch <-chan T) (z T) { return }

// RecvInto receives for a range loop.
func RecvInto[T any](ch <-chan T, p *T, site uint32) bool {
	v, ok := recv(ch, site)
	if ok {
		*p = v
	}
	return ok
}

// Close implements close(ch).
func Close[T any](ch chan<- T, site uint32) {
	w := W
	if w == nil {
		noWorld("close")
	}
	if dead(w) {
		return
	}
	w.point(site)
	if ch == nil {
		panic(chanError("close of nil channel"))
	}
	h := w.hc(*(*uintptr)(unsafe.Pointer(&ch)), cap(ch), ch)
	h.close(w)
	w.point(site)
}

func (h *hchan) close(w *World) {
	if h.closed {
		panic(chanError("close of closed channel"))
	}
	h.closed = true
	h.vc = w.relVC()
	for {
		r := popWaiter(&h.recvq)
		if r == nil {
			break
		}
		r.ok = false
		r.vc = h.vc
		r.complete(w)
	}
	for {
		s := popWaiter(&h.sendq)
		if s == nil {
			break
		}
		s.complete(w)
	}
}

// ChanLen implements len(ch).
func ChanLen[T any](ch <-chan T, site uint32) int {
	w := W
	if w == nil || ch == nil {
		return 0
	}
	if !dead(w) {
		w.point(site)
	}
	return len(w.hc(*(*uintptr)(unsafe.Pointer(&ch)), cap(ch), ch).buf)
}

// SelCase is one communication of a select statement.
type SelCase interface {
	try(w *World) bool
	enqueue(w *World, s *selState, i int)
	finish(w *World)
}

// SelRecvCase is a receive communication.
type SelRecvCase[T any] struct {
	ch <-chan T
	V  T
	OK bool
	x  *waiter
}

// SelRecv builds a receive communication.
func SelRecv[T any](ch <-chan T) *SelRecvCase[T] { return &SelRecvCase[T]{ch: ch} }

func (c *SelRecvCase[T]) try(w *World) bool {
	if c.ch == nil {
		return false
	}
	h := w.hc(*(*uintptr)(unsafe.Pointer(&c.ch)), cap(c.ch), c.ch)
	r, ok, done := h.tryRecv(w)
	if done {
		c.OK = ok
		if ok && r != nil {
			c.V = r.(T)
		}
	}
	return done
}

func (c *SelRecvCase[T]) enqueue(w *World, s *selState, i int) {
	if c.ch == nil {
		return
	}
	h := w.hc(*(*uintptr)(unsafe.Pointer(&c.ch)), cap(c.ch), c.ch)
	c.x = &waiter{g: w.cur, sel: s, idx: i}
	h.recvq = append(h.recvq, c.x)
}

func (c *SelRecvCase[T]) finish(w *World) {
	w.acqVC(c.x.vc)
	c.OK = c.x.ok
	if c.OK && c.x.val != nil {
		c.V = c.x.val.(T)
	}
}

// SelSendCase is a send communication.
type SelSendCase[T any] struct {
	ch chan<- T
	v  T
	x  *waiter
}

// SelSend builds a send communication.
func SelSend[T any](ch chan<- T) func(T) *SelSendCase[T] {
	return func(v T) *SelSendCase[T] { return &SelSendCase[T]{ch: ch, v: v} }
}

func (c *SelSendCase[T]) try(w *World) bool {
	if c.ch == nil {
		return false
	}
	h := w.hc(*(*uintptr)(unsafe.Pointer(&c.ch)), cap(c.ch), c.ch)
	return h.trySend(w, c.v)
}

func (c *SelSendCase[T]) enqueue(w *World, s *selState, i int) {
	if c.ch == nil {
		return
	}
	h := w.hc(*(*uintptr)(unsafe.Pointer(&c.ch)), cap(c.ch), c.ch)
	c.x = &waiter{g: w.cur, sel: s, idx: i, val: c.v, vc: w.relVC()}
	h.sendq = append(h.sendq, c.x)
}

func (c *SelSendCase[T]) finish(w *World) {
	if !c.x.ok {
		panic(chanError("send on closed channel"))
	}
}

// Select implements the select statement; -1 selects the default clause.
func Select(hasDefault bool, site uint32, cases ...SelCase) int {
	w := W
	if w == nil {
		noWorld("select")
	}
	if dead(w) {
		return -2
	}
	w.point(site)
	w.selCtr++
	off := 0
	if len(cases) > 1 {
		off = int(Hash64(w.Cfg.Sched.MapSeed, 0x5E1EC7, w.selCtr) % uint64(len(cases)))
		if w.Cfg.Sched.MapSeed == 0 {
			off = 0
		}
	}
	for i := range cases {
		j := (i + off) % len(cases)
		if cases[j].try(w) {
			return j
		}
	}
	if hasDefault {
		return -1
	}
	s := &selState{idx: -2}
	for i, c := range cases {
		c.enqueue(w, s, i)
	}
	w.cur.why = fmt.Sprintf("select at %s", SiteName(site))
	w.block()
	cases[s.idx].finish(w)
	return s.idx
}

// TimerSend is the non-blocking send of a timer.
func TimerSend[T any](w *World, ch chan T, v T) {
	h := w.hc(*(*uintptr)(unsafe.Pointer(&ch)), cap(ch), ch)
	if h.closed {
		return
	}
	h.trySend(w, v)
}
