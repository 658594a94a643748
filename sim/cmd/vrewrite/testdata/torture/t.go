// Package torture exercises language constructs; the instrumented copy must
// print what the original prints.
package torture

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type base struct {
	n  int
	mu sync.Mutex
}

func (b *base) inc() int { b.n++; return b.n }
func (b base) get() int  { return b.n }

type mid struct {
	*base
	name string
	arr  [4]int
	m    map[string][]int
	f    func(int) int
}

type top struct {
	mid
	next *top
	any  interface{}
	st   struct{ a, b int }
}

type shape interface{ area() int }
type sq struct{ s int }
type rc struct{ w, h int }

func (s sq) area() int  { return s.s * s.s }
func (r *rc) area() int { return r.w * r.h }

type enum int

const (
	e0 enum = iota
	e1
	e2
)

func (e enum) String() string { return [...]string{"e0", "e1", "e2"}[e] }

var (
	glob    = initGlob()
	table   = map[enum]string{e0: "zero", e1: "one"}
	counter int64
	garr    [3]struct{ x, y int }
	gfn     = func(a int) int { return a + counterf() }
)

func counterf() int { return int(counter) }

func initGlob() []int { return []int{1, 2, 3} }

func init() { glob = append(glob, 4) }

func named(a int) (r int, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("recovered %v", x)
			r = -a
		}
	}()
	if a > 2 {
		var p []int
		r = p[a]
	}
	r = a * 2
	return
}

func multi() (int, string, error) { return 7, "seven", nil }

func variadic(p string, xs ...int) string {
	s := p
	for _, x := range xs {
		s += fmt.Sprint(x)
	}
	return s
}

type stack[T any] struct{ items []T }

func (s *stack[T]) push(v T) { s.items = append(s.items, v) }
func (s *stack[T]) pop() (v T, ok bool) {
	if len(s.items) == 0 {
		return v, false
	}
	v = s.items[len(s.items)-1]
	s.items = s.items[:len(s.items)-1]
	return v, true
}

func mapf[K comparable, V any, R any](m map[K]V, f func(K, V) R) []R {
	var out []R
	for k, v := range m {
		out = append(out, f(k, v))
	}
	return out
}

func order(log *[]string, s string, v int) int { *log = append(*log, s); return v }

// Run runs everything.
func Run() string {
	var b strings.Builder
	pr := func(a ...interface{}) { fmt.Fprintln(&b, a...) }

	t := &top{mid: mid{base: &base{}, name: "x", m: map[string][]int{}}}
	t.inc()
	t.mid.base.n += 4
	t.n *= 3
	t.arr[1], t.arr[2] = 5, 6
	t.arr[1], t.arr[2] = t.arr[2], t.arr[1]
	t.m["k"] = append(t.m["k"], 1, 2)
	t.m["k"][0]++
	t.m["k"][1] <<= 3
	t.next = t
	t.next.next.st.a = 9
	pr(t.get(), t.arr, t.m, t.next.st, len(t.arr), cap(t.m["k"]) >= 2)
	f := t.inc
	g := (*base).inc
	h := base.get
	pr(f(), g(t.base), h(*t.base))
	t.f = func(i int) int { t.n += i; return t.n }
	pr(t.f(3), t.mid.f(4))

	shapes := []shape{sq{3}, &rc{2, 5}}
	for i, s := range shapes {
		switch v := s.(type) {
		case sq:
			pr(i, "sq", v.s)
		case *rc:
			v.w++
			pr(i, "rc", v.w, s.area())
		}
	}
	if r, ok := shapes[1].(*rc); ok && r.w == 3 {
		pr("ok", r.h)
	}
	_, isSq := shapes[1].(sq)
	pr(isSq, e2, enum(1))

	for i := 0; i < 5; i++ {
		r, err := named(i)
		pr(r, err)
	}
	n, s, err := multi()
	pr(n, s, err)
	var (
		q1, q2 = 1, "two"
		q3     []string
	)
	q3 = append(q3, q2)
	pr(q1, q2, q3, variadic("v", 1, 2, 3), variadic("w"), variadic("z", glob...))

	// maps
	m := map[string]int{"a": 1, "b": 2, "c": 3}
	m["a"] += 10
	m["zz"]++
	if v, ok := m["b"]; ok {
		pr("b", v)
	}
	v, ok := m["nope"]
	pr(v, ok)
	delete(m, "c")
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	pr(keys, len(m), m)
	var nilm map[string]int
	pr(nilm["x"], len(nilm))
	for range nilm {
		pr("never")
	}
	func() {
		defer func() { pr("nil map write:", recover() != nil) }()
		nilm["a"] = 1
	}()
	ms := map[string]struct{ a, b int }{"x": {1, 2}}
	pr(ms["x"].b, table[e1])
	mp := map[string]*base{"p": {n: 3}}
	mp["p"].n++
	mp["p"].inc()
	pr(mp["p"].n)
	for k, v := range map[int]int{1: 1} {
		m["loop"] = k + v
	}
	pr(m["loop"])
	r := mapf(map[string]int{"q": 4}, func(k string, v int) string { return k + fmt.Sprint(v) })
	pr(r)
	st := &stack[string]{}
	st.push("a")
	st.push("b")
	x, ok2 := st.pop()
	pr(x, ok2, len(st.items))

	// evaluation order
	var log []string
	arr := []int{0, 0, 0, 0}
	arr[order(&log, "i", 1)] = order(&log, "v", 5)
	arr[order(&log, "j", 2)] += order(&log, "w", 6)
	mm := map[int]int{}
	mm[order(&log, "mk", 1)] = order(&log, "mv", 2)
	mm[order(&log, "mk2", 1)] *= order(&log, "mv2", 21)
	a1, a2 := order(&log, "x1", 1), order(&log, "x2", 2)
	a1, a2 = a2, a1+a2
	pr(arr, mm, log, a1, a2)

	// labels, goto, switch, fallthrough
outer:
	for i := 0; i < 4; i++ {
		for j := range arr {
			switch {
			case j == 1:
				continue
			case j == 3 && i == 1:
				continue outer
			case i == 3:
				break outer
			}
			pr("ij", i, j)
		}
	}
	switch k := len(arr); k {
	case 4:
		pr("four")
		fallthrough
	case 5:
		pr("five")
	default:
		pr("def")
	}
	i := 0
again:
	i++
	if i < 3 {
		goto again
	}
	pr("goto", i)

	// closures and defers
	var fs []func() int
	for i := 0; i < 3; i++ {
		j := i
		fs = append(fs, func() int { j++; return i*10 + j })
	}
	for _, f := range fs {
		pr(f(), f())
	}
	func() {
		for i := 0; i < 3; i++ {
			defer func(k int) { pr("defer", k, i) }(i)
		}
		defer pr("plain defer")
		defer t.mu.Unlock()
		t.mu.Lock()
	}()

	// slices, copies, strings
	bs := make([]byte, 16)
	c := copy(bs[3:], "hello")
	c2 := copy(bs[4:], bs[3:8])
	binary.LittleEndian.PutUint32(bs[12:], 0xdeadbeef)
	pr(c, c2, bs, string(bs[3:9]))
	for i, r := range "aé☃" {
		pr(i, string(r))
	}
	for i := range [3]int{} {
		pr("arr", i)
	}
	pa := &garr
	for i, e := range pa {
		garr[i].x = i * 2
		pr(e.x)
	}
	pa[1].y += 7
	pp := &pa[1].y
	*pp *= 2
	pr(garr, *pp)
	pi := new(int)
	*pi++
	*pi |= 6
	ppi := &pi
	**ppi -= 2
	pr(*pi, **ppi, &*pi == pi)
	ar2 := [2][2]int{{1, 2}, {3, 4}}
	br2 := ar2
	br2[0][1] = 9
	pr(ar2, br2, ar2 != br2)
	sl := glob[1:3:4]
	sl = append(sl, 99)
	sl = append(sl, 100)
	sl[0] = -1
	pr(glob, sl, len(sl))
	var e error = &os.PathError{Op: "open", Path: "p", Err: io.EOF}
	var pe *os.PathError
	pr(errors.As(e, &pe), errors.Is(e, io.EOF), pe.Op)

	// channels
	ch := make(chan int, 2)
	done := make(chan struct{})
	res := make(chan string)
	go func() {
		defer close(done)
		sum := 0
		for v := range ch {
			sum += v
		}
		res <- fmt.Sprint("sum ", sum)
	}()
	for i := 0; i < 5; i++ {
		ch <- i
	}
	close(ch)
	pr(<-res)
	_, open := <-done
	pr(open)
	sel := make(chan int, 1)
	for i := 0; i < 4; i++ {
		select {
		case v := <-sel:
			pr("recv", v)
		case sel <- i:
			pr("sent", i)
		}
	}
	select {
	case <-sel:
		pr("empty?")
	default:
		pr("default")
	}
	var nilch chan int
	select {
	case <-nilch:
	case <-time.After(time.Millisecond):
		pr("timeout")
	}
	var wg sync.WaitGroup
	var mu sync.RWMutex
	tot := 0
	for i := 1; i <= 4; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			atomic.AddInt64(&counter, int64(i))
			mu.Lock()
			defer mu.Unlock()
			tot += i
		}(i)
	}
	wg.Wait()
	mu.RLock()
	pr(tot, atomic.LoadInt64(&counter), gfn(1))
	mu.RUnlock()
	var once sync.Once
	for i := 0; i < 3; i++ {
		once.Do(func() { pr("once", i) })
	}
	go t.inc()
	errc := make(chan error, 1)
	go func() { errc <- func() (err error) { defer func() { err = errors.New("def") }(); return nil }() }()
	pr(<-errc)
	cond := sync.NewCond(&sync.Mutex{})
	ready := false
	go func() { cond.L.Lock(); ready = true; cond.L.Unlock(); cond.Broadcast() }()
	cond.L.Lock()
	for !ready {
		cond.Wait()
	}
	cond.L.Unlock()
	pr(ready)
	pool := sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}
	bb := pool.Get().(*bytes.Buffer)
	bb.WriteString("pooled")
	pr(bb.String())
	pool.Put(bb)
	var sm sync.Map
	sm.Store("k", 1)
	vv, lo := sm.LoadOrStore("k", 2)
	pr(vv, lo)
	d := time.Duration(1500) * time.Millisecond
	pr(d, time.Unix(0, 0).UTC().Year())
	type local struct {
		a int
		b *local
	}
	l := &local{a: 1, b: &local{a: 2}}
	l.b.b = l
	l.b.b.a++
	l.a, l.b.a = l.b.a, l.a
	pr(l.a, l.b.a)
	lp := *l
	lp.a = 50
	pr(l.a, lp.a)
	fnm := map[string]func(...int) int{"len": func(a ...int) int { return len(a) }}
	pr(fnm["len"](1, 2, 3))
	var iface interface{} = 3
	switch iface {
	case 3:
		pr("three")
	}
	if z := func() int { return 4 }(); z > 3 && t.n > 0 || iface == nil {
		pr("z", z)
	} else if z == 2 {
		pr("no")
	}
	return b.String()
}
