package vsim

import (
	"container/heap"
	"time"
	"unsafe"
)

// Timer is a pending event of the simulated clock.
type Timer struct {
	at    int64
	seq   uint64
	fn    func()
	index int
}

type timerHeap []*Timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || (h[i].at == h[j].at && h[i].seq < h[j].seq)
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].index, h[j].index = i, j }
func (h *timerHeap) Push(x any)   { t := x.(*Timer); t.index = len(*h); *h = append(*h, t) }
func (h *timerHeap) Pop() any {
	o := *h
	t := o[len(o)-1]
	*h = o[:len(o)-1]
	t.index = -1
	return t
}

// After registers fn to be called by the scheduler (not by a task) when d
// nanoseconds of simulated time have passed; fn must not block.
func (w *World) After(d int64, fn func()) *Timer {
	w.tseq++
	t := &Timer{at: w.mono + d, seq: w.tseq, fn: fn}
	heap.Push(&w.timers, t)
	return t
}

// StopTimer cancels a timer; it reports whether it was pending.
func (w *World) StopTimer(t *Timer) bool {
	if t.index < 0 || t.index >= len(w.timers) || w.timers[t.index] != t {
		return false
	}
	heap.Remove(&w.timers, t.index)
	return true
}

func (w *World) fireDue() {
	for len(w.timers) > 0 && w.timers[0].at <= w.mono {
		t := heap.Pop(&w.timers).(*Timer)
		t.fn()
	}
}

// fireNextTimer advances the clock to the next timer.
func (w *World) fireNextTimer() bool {
	if len(w.timers) == 0 {
		return false
	}
	if w.timers[0].at > w.mono {
		w.mono = w.timers[0].at
	}
	w.fireDue()
	return true
}

// Sleep parks the current task for d nanoseconds of simulated time.
func (w *World) Sleep(d int64) {
	if dead(w) {
		return
	}
	w.point(0)
	if d <= 0 {
		return
	}
	g := w.cur
	g.why = "sleep"
	w.After(d, func() { w.ready(g) })
	w.block()
}

// Advance moves the simulated clock forward without scheduling.
func (w *World) Advance(d int64) { w.mono += d }

// JumpWall moves the wall clock by d nanoseconds; the monotonic clock is not
// affected.
func (w *World) JumpWall(d int64) { w.wall += d }

// Mono is the simulated monotonic clock in nanoseconds.
func (w *World) Mono() int64 { return w.mono }

// MonoBase is where the monotonic clock starts.
const MonoBase = int64(5e9)

// WallBase plus MonoBase is where the wall clock starts.
const WallBase = int64(1700000000) * 1e9

// WallNanos is the simulated wall clock.
func (w *World) WallNanos() int64 { return WallBase + w.mono + w.wall }

type rawTime struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

const (
	hasMonotonic = 1 << 63
	// seconds from Jan 1 1885 to Jan 1 1970
	wallToUnix = (1885*365 + 1885/4 - 1885/100 + 1885/400) * 86400
	unixOrigin = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
	y1885      = (1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400
)

// MakeTime builds a time.Time that carries a wall clock reading and a
// monotonic clock reading.
func MakeTime(unixNano, mono int64) time.Time {
	sec, ns := unixNano/1e9, unixNano%1e9
	if ns < 0 {
		sec, ns = sec-1, ns+1e9
	}
	var t time.Time
	r := (*rawTime)(unsafe.Pointer(&t))
	s := uint64(sec + unixOrigin - y1885)
	r.wall = hasMonotonic | s<<30 | uint64(ns)
	r.ext = mono
	r.loc = time.UTC
	return t
}

func init() {
	a := MakeTime(1700000000123456789, 5000000)
	b := MakeTime(1600000000000000000, 7000000)
	if unsafe.Sizeof(a) != unsafe.Sizeof(rawTime{}) || a.UnixNano() != 1700000000123456789 ||
		b.Sub(a) != 2*time.Millisecond || a.Round(0).Sub(b.Round(0)) != 100000000123456789 {
		panic("vsim: unexpected layout of time.Time")
	}
}

// Now is the simulated time.
func Now() time.Time {
	w := W
	if w == nil {
		return MakeTime(WallBase, 1)
	}
	if w.hook == 0 && !dead(w) {
		w.point(1)
	}
	return MakeTime(w.WallNanos(), w.mono)
}
