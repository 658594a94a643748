package vsim

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// Every function below is called by instrumented code in place of a memory
// access; it is a scheduling point followed by the access itself.

// Pt is a plain scheduling point.
func Pt(site uint32) {
	if w := W; w != nil && !dead(w) {
		w.point(site)
	}
}

// Rd reads *p.
func Rd[T any](p *T, site uint32) T {
	w := W
	if w != nil && w.hook == 0 && !dead(w) {
		w.point(site)
		if w.shadow != nil && p != nil {
			w.access(unsafe.Pointer(p), unsafe.Sizeof(*p), false, site)
		}
	}
	return *p
}

// MarkR notes a read that happens elsewhere.
func MarkR[T any](p *T, site uint32) {
	w := W
	if w != nil && w.shadow != nil && w.hook == 0 && !dead(w) && p != nil {
		w.access(unsafe.Pointer(p), unsafe.Sizeof(*p), false, site)
	}
}

// MarkW notes a write that happens elsewhere.
func MarkW[T any](p *T, site uint32) {
	w := W
	if w != nil && w.shadow != nil && w.hook == 0 && !dead(w) && p != nil {
		w.access(unsafe.Pointer(p), unsafe.Sizeof(*p), true, site)
	}
}

// Ext announces a call of a method that changes an object of a package that
// is not rewritten.
func Ext[T any](v T, site uint32) T {
	w := W
	if w != nil && w.hook == 0 && !dead(w) {
		w.point(site)
		if w.shadow != nil {
			if r := reflect.ValueOf(v); r.Kind() == reflect.Pointer && !r.IsNil() {
				w.access(r.UnsafePointer(), r.Type().Elem().Size(), true, site)
			}
		}
	}
	return v
}

// Asg returns the store to *p.
func Asg[T any](p *T, site uint32) func(T) {
	return func(v T) {
		w := W
		if w != nil && w.hook == 0 {
			if dead(w) {
				return
			}
			w.point(site)
			if w.shadow != nil && p != nil {
				w.access(unsafe.Pointer(p), unsafe.Sizeof(*p), true, site)
			}
		}
		*p = v
	}
}

// Zero resets a package variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// Touch notes the read of element i by a range loop.
func Touch[T any](s []T, i int, site uint32) {
	w := W
	if w != nil && w.hook == 0 && !dead(w) {
		w.point(site)
		if w.shadow != nil {
			w.access(unsafe.Pointer(&s[i]), unsafe.Sizeof(s[i]), false, site)
		}
	}
}

func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// mapCheck ends the execution as the Go runtime does when a map is used while
// another goroutine writes it; such an error cannot be recovered from.
func (w *World) mapCheck(p unsafe.Pointer, what string, site uint32) {
	if o := w.mapBusy[p]; o != nil && o != w.cur && !o.killed {
		w.Fail("panic", "fatal error: %s, at %s", what, SiteName(site))
	}
}

// mapWrite opens and closes the window in which a map write is under way.
func (w *World) mapWrite(p unsafe.Pointer, site uint32) {
	if p == nil {
		return
	}
	w.mapCheck(p, "concurrent map writes", site)
	if w.mapBusy == nil {
		w.mapBusy = map[unsafe.Pointer]*G{}
	}
	w.mapBusy[p] = w.cur
	w.point(site)
	delete(w.mapBusy, p)
}

// MapR announces a read of the map.
func MapR[M ~map[K]V, K comparable, V any](m M, site uint32) M {
	w := W
	if w != nil && w.hook == 0 && !dead(w) {
		w.point(site)
		if w.mapShadow != nil && m != nil {
			w.accessIn(w.mapShadow, mapPtr[M, K, V](m), 8, false, site)
		}
		w.mapCheck(mapPtr[M, K, V](m), "concurrent map read and map write", site)
	}
	return m
}

// MapW announces a write of the map.
func MapW[M ~map[K]V, K comparable, V any](m M, site uint32) M {
	w := W
	if w != nil && w.hook == 0 && !dead(w) {
		w.point(site)
		if w.mapShadow != nil && m != nil {
			w.accessIn(w.mapShadow, mapPtr[M, K, V](m), 8, true, site)
		}
		w.mapWrite(mapPtr[M, K, V](m), site)
	}
	return m
}

// MapSet returns the store m[k] = v.
func MapSet[M ~map[K]V, K comparable, V any](m M, site uint32) func(K, V) {
	return func(k K, v V) {
		w := W
		if w != nil && w.hook == 0 {
			if dead(w) {
				return
			}
			w.point(site)
			if w.mapShadow != nil && m != nil {
				w.accessIn(w.mapShadow, mapPtr[M, K, V](m), 8, true, site)
			}
			w.mapWrite(mapPtr[M, K, V](m), site)
			if dead(w) {
				return
			}
			switch reflect.TypeOf(&k).Elem().Kind() {
			case reflect.Pointer, reflect.Chan, reflect.UnsafePointer, reflect.Interface:
				addrKey(any(k))
			}
		}
		m[k] = v
	}
}

// MapKey converts a key to the key type.
func MapKey[M ~map[K]V, K comparable, V any](m M, k K) K { return k }

// MapDel implements delete.
func MapDel[M ~map[K]V, K comparable, V any](m M, k K, site uint32) {
	w := W
	if w != nil && dead(w) {
		return
	}
	delete(MapW[M, K, V](m, site), k)
}

// MapIt iterates over a map in an order decided by the simulator.
type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
	site uint32
}

// MapIter starts an iteration.
func MapIter[M ~map[K]V, K comparable, V any](m M, site uint32) *MapIt[K, V] {
	MapR[M, K, V](m, site)
	it := &MapIt[K, V]{m: m, site: site}
	if len(m) == 0 {
		return it
	}
	it.keys = make([]K, 0, len(m))
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sortKeys(it.keys)
	if w := W; w != nil {
		if s := w.nextMapSeed(); s != 0 && len(it.keys) > 1 {
			r := NewRng(s)
			for i := len(it.keys) - 1; i > 0; i-- {
				j := r.Intn(i + 1)
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
			}
		}
	}
	return it
}

// Next advances; k and v may be nil.
func (it *MapIt[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		w := W
		if w != nil && dead(w) {
			return false
		}
		key := it.keys[it.i]
		it.i++
		MapR[map[K]V, K, V](it.m, it.site)
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

// Vars gives variables of the key and value types.
func (it *MapIt[K, V]) Vars() (k K, v V) { return }

// KVar gives a variable of the key type.
func (it *MapIt[K, V]) KVar() (k K) { return }

// VVar gives a variable of the value type.
func (it *MapIt[K, V]) VVar() (v V) { return }

func sortKeys[K comparable](ks []K) {
	switch a := any(ks).(type) {
	case []string:
		sort.Strings(a)
		return
	case []int:
		sort.Ints(a)
		return
	case []uint64:
		sort.Slice(a, func(i, j int) bool { return a[i] < a[j] })
		return
	}
	type kv struct {
		s string
		k K
	}
	l := make([]kv, len(ks))
	for i, k := range ks {
		rv := reflect.ValueOf(&k).Elem()
		s := ""
		switch rv.Kind() {
		case reflect.String:
			s = rv.String()
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			s = fmt.Sprintf("%020d", uint64(rv.Int())+1<<63)
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			s = fmt.Sprintf("%020d", rv.Uint())
		case reflect.Pointer, reflect.Chan, reflect.UnsafePointer, reflect.Interface:
			s = addrKey(any(k))
		default:
			s = fmt.Sprintf("%#v", k)
		}
		l[i] = kv{s, k}
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].s < l[j].s })
	for i := range l {
		ks[i] = l[i].k
	}
}

// addrKey gives pointers a stable number in order of first use.
func addrKey(k any) string {
	w := W
	rv := reflect.ValueOf(k)
	switch rv.Kind() {
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
	default:
		return fmt.Sprintf("%T %#v", k, k)
	}
	if w == nil {
		return ""
	}
	ids, _ := w.Ext["ptrids"].(map[uintptr]int)
	if ids == nil {
		ids = map[uintptr]int{}
		w.Ext["ptrids"] = ids
	}
	p := rv.Pointer()
	id, ok := ids[p]
	if !ok {
		id = len(ids)
		ids[p] = id
		w.keep = append(w.keep, k)
	}
	return fmt.Sprintf("%020d", id)
}

// Copy implements copy(dst, src) for slices.  Up to eight bytes that fit one
// machine store are written at once, longer ranges in ascending pieces.
func Copy[T any](dst, src []T, site uint32) int {
	n := len(dst)
	if len(src) < n {
		n = len(src)
	}
	w := W
	if w == nil || w.hook > 0 {
		return copy(dst, src)
	}
	if dead(w) || n == 0 {
		return n
	}
	w.point(site)
	if w.shadow != nil {
		sz := unsafe.Sizeof(dst[0])
		w.access(unsafe.Pointer(&src[0]), sz*uintptr(n), false, site)
		w.access(unsafe.Pointer(&dst[0]), sz*uintptr(n), true, site)
	}
	bytes := int(unsafe.Sizeof(dst[0])) * n
	if unsafe.Sizeof(dst[0]) != 1 || bytes == 1 || bytes == 2 || bytes == 4 || bytes == 8 || overlaps(dst, src) {
		return copy(dst, src)
	}
	for i := 0; i < n; {
		c := 8
		if n-i < 8 {
			c = 1
			for c*2 <= n-i {
				c *= 2
			}
		}
		if i > 0 {
			w.point(site)
			if dead(w) {
				return n
			}
		}
		copy(dst[i:i+c], src[i:i+c])
		i += c
	}
	return n
}

func overlaps[T any](a, b []T) bool {
	if len(a) == 0 || len(b) == 0 {
		return false
	}
	sz := unsafe.Sizeof(a[0])
	pa, pb := uintptr(unsafe.Pointer(&a[0])), uintptr(unsafe.Pointer(&b[0]))
	return pa < pb+sz*uintptr(len(b)) && pb < pa+sz*uintptr(len(a))
}

// CopyS implements copy(dst, string).
func CopyS[S ~string](dst []byte, src S, site uint32) int {
	return Copy(dst, []byte(src), site)
}

// ---- data race detection

type shAccess struct {
	g     int32
	clk   uint32
	site  uint32
	mask  uint8
	write bool
}

type shadowCell struct {
	keep unsafe.Pointer
	acc  []shAccess
}

func (w *World) vcJoin(dst *[]uint32, src []uint32) {
	d := *dst
	for len(d) < len(src) {
		d = append(d, 0)
	}
	for i, v := range src {
		if v > d[i] {
			d[i] = v
		}
	}
	*dst = d
}

// VCRelease publishes the clock of the current task into a sync object.
func (w *World) VCRelease(vc *[]uint32) {
	if w.Cfg.Race && w.hook == 0 {
		g := w.cur
		w.vcJoin(vc, g.vc)
		g.vc[g.ID]++
	}
}

// VCAcquire orders the current task after the sync object.
func (w *World) VCAcquire(vc []uint32) {
	if w.Cfg.Race && w.hook == 0 {
		w.vcJoin(&w.cur.vc, vc)
	}
}

// ForgetRange drops the shadow of a memory range (new mapping).
func (w *World) ForgetRange(p unsafe.Pointer, n uintptr) {
	if w.shadow == nil {
		return
	}
	for a := uintptr(p) &^ 7; a < uintptr(p)+n; a += 8 {
		delete(w.shadow, a)
	}
}

func (w *World) access(p unsafe.Pointer, n uintptr, write bool, site uint32) {
	w.accessIn(w.shadow, p, n, write, site)
}

func (w *World) accessIn(shadow map[uintptr]*shadowCell, p unsafe.Pointer, n uintptr, write bool, site uint32) {
	g := w.cur
	if n == 0 {
		return
	}
	if n > 4096 {
		n = 4096
	}
	end := uintptr(p) + n
	for a := uintptr(p) &^ 7; a < end; a += 8 {
		mask := uint8(0xff)
		if a < uintptr(p) {
			mask &= 0xff << (uintptr(p) - a)
		}
		if end < a+8 {
			mask &= 0xff >> (a + 8 - end)
		}
		c := shadow[a]
		if c == nil {
			c = &shadowCell{keep: p}
			shadow[a] = c
		}
		out := c.acc[:0]
		for _, x := range c.acc {
			hb := int(x.g) == g.ID || (int(x.g) < len(g.vc) && x.clk <= g.vc[x.g])
			if x.mask&mask != 0 && !hb && (x.write || write) {
				w.race(x, write, site)
			}
			// drop accesses that the new one covers
			if hb && x.mask&^mask == 0 && (write || !x.write) {
				continue
			}
			out = append(out, x)
		}
		c.acc = append(out, shAccess{int32(g.ID), g.vc[g.ID], site, mask, write})
	}
}

func (w *World) race(x shAccess, write bool, site uint32) {
	k := func(wr bool) string {
		if wr {
			return "write"
		}
		return "read"
	}
	a := fmt.Sprintf("%s at %s", k(x.write), SiteName(x.site))
	b := fmt.Sprintf("%s at %s", k(write), SiteName(site))
	if a > b {
		a, b = b, a
	}
	m := a + " / " + b
	if w.Cfg.MapRace {
		w.Fail("panic", "fatal error: concurrent use of a map (%s)", m)
	}
	if !w.races[m] {
		w.races[m] = true
		w.RaceFound = append(w.RaceFound, m)
	}
}
