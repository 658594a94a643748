package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"runtime"
	"strings"
	"syscall"
	"unsafe"

	"github.com/performancecopilot/speed/v4/mmvdump"

	"verif/sim/vsim"
)

// Mut is one corruption of a file.
type Mut struct {
	K string `json:"k"`
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
	V uint64 `json:"v,omitempty"`
}

// lengths of the entries of the sections, by section type
func entryLen(version uint32, t int) int {
	switch t {
	case 1, 4:
		return 32
	case 2:
		if version == 2 {
			return 24
		}
		return 80
	case 3:
		if version == 2 {
			return 48
		}
		return 104
	}
	return 256
}

// mutate applies corruptions; everything is clipped to the data.
func mutate(b []byte, ms []Mut) []byte {
	b = append([]byte(nil), b...)
	toc := func(i int) int {
		if len(b) < 56 {
			return -1
		}
		n := int(le.Uint32(b[24:]))
		if n <= 0 || n > 8 {
			n = 2
		}
		o := 40 + 16*(i%n)
		if o+16 > len(b) {
			return -1
		}
		return o
	}
	w32 := func(o int, v uint32) {
		if o >= 0 && o+4 <= len(b) {
			le.PutUint32(b[o:], v)
		}
	}
	w64 := func(o int, v uint64) {
		if o >= 0 && o+8 <= len(b) {
			le.PutUint64(b[o:], v)
		}
	}
	val := func(v uint64) uint64 { // small numbers stand for positions in the file
		switch {
		case v == 1<<40:
			return uint64(len(b))
		case v>>32 == 0xABCD: // offset of entry
			if o := toc(int(v>>16) & 0xff); o >= 0 {
				return le.Uint64(b[o+8:]) + v&0xffff
			}
		}
		return v
	}
	for _, m := range ms {
		if len(b) == 0 {
			break
		}
		a := m.A % len(b)
		v := val(m.V)
		switch m.K {
		case "relayout":
			b = relayout(b, m.V)
		case "byte":
			b[a] = byte(v)
		case "bit":
			b[a] ^= 1 << uint(m.B%8)
		case "w32":
			w32(a&^3, uint32(v))
		case "w64":
			w64(a&^7, v)
		case "head":
			w32(4*(m.A%10), uint32(v))
		case "tocn":
			w32(24, uint32(v))
		case "toc":
			if o := toc(m.A); o >= 0 {
				switch m.B % 3 {
				case 0:
					w32(o, uint32(v))
				case 1:
					w32(o+4, uint32(v))
				case 2:
					w64(o+8, v)
				}
			}
		case "field": // A: section and entry, B: word
			o := toc(m.A % 8)
			if o < 0 {
				break
			}
			n := int(le.Uint32(b[o+4:]))
			l := entryLen(le.Uint32(b[4:]), int(le.Uint32(b[o:])))
			off := le.Uint64(b[o+8:])
			if n <= 0 || n > 10000 || off > uint64(len(b)) {
				break
			}
			p := int(off) + (m.A/8%n)*l + 4*(m.B%(l/4))
			if m.B&256 != 0 {
				w64(p&^7, v)
			} else {
				w32(p, uint32(v))
			}
		case "trunc":
			b = b[:a]
		case "tail":
			if k := m.A % 64; k < len(b) {
				b = b[:len(b)-k]
			}
		case "cut":
			e := a + m.B
			if e > len(b) {
				e = len(b)
			}
			b = append(b[:a], b[e:]...)
		case "zero":
			for i := a; i < len(b) && i < a+m.B; i++ {
				b[i] = 0
			}
		case "page":
			for i := a &^ 511; i < len(b) && i < a&^511+512; i++ {
				b[i] = 0
			}
		case "ext":
			b = append(b, bytes.Repeat([]byte{byte(v)}, m.B)...)
		}
	}
	return b
}

func (g *gen) mutVal() uint64 {
	switch g.n(12) {
	case 0, 1:
		return uint64(g.n(12))
	case 2:
		return uint64(g.pickI(1<<31-1, 1<<30, 1<<20, 65536, 100, 255, 256, 3000))
	case 3:
		return math.MaxUint64 - uint64(g.n(400))
	case 4:
		return 1 << 63
	case 5:
		return uint64(math.MaxInt64) - uint64(g.n(100))
	case 6:
		return 1 << 40 // file length
	case 7:
		return uint64(1<<31) + uint64(g.n(3))
	case 8, 9:
		return 0xABCD<<32 | uint64(g.n(8))<<16 | uint64(g.pickI(0, 0, 0, 8, 16, 24, 32, 48, 80, 104, 256))
	case 10:
		return uint64(g.n(5000))
	}
	return g.r.Next()
}

func (g *gen) muts() (l []Mut) {
	n := g.pickI(1, 1, 1, 2, 2, 3, 5)
	if g.ch(1, 6) {
		l = append(l, Mut{K: "relayout", V: g.r.Next()})
	}
	for i := 0; i < n; i++ {
		m := Mut{K: g.pick("byte", "bit", "w32", "w64", "head", "tocn", "toc", "toc", "toc", "field", "field", "field", "field", "trunc", "tail", "cut", "zero", "page", "ext"),
			A: g.n(1 << 20), B: g.n(512), V: g.mutVal()}
		l = append(l, m)
	}
	return
}

// ---- running the reader

type dumpRes struct {
	h         *mmvdump.Header
	tocs      []*mmvdump.Toc
	metrics   map[uint64]mmvdump.Metric
	values    map[uint64]*mmvdump.Value
	instances map[uint64]mmvdump.Instance
	indoms    map[uint64]*mmvdump.InstanceDomain
	strings   map[uint64]*mmvdump.String
	err       error
}

func runDump(b []byte) (d dumpRes) {
	d.h, d.tocs, d.metrics, d.values, d.instances, d.indoms, d.strings, d.err = mmvdump.Dump(b)
	return
}

func (d *dumpRes) write(w io.Writer) error {
	return mmvdump.Write(w, d.h, d.tocs, d.metrics, d.values, d.instances, d.indoms, d.strings)
}

// guarded places the bytes directly before memory that cannot be accessed.
type guarded struct {
	mem []byte
	b   []byte
}

func guard(b []byte) *guarded {
	n := (len(b) + 4095) &^ 4095
	mem, err := syscall.Mmap(-1, 0, n+4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	syscall.Mprotect(mem[n:], syscall.PROT_NONE)
	o := n - len(b)
	copy(mem[o:], b)
	return &guarded{mem, mem[o:n:n]}
}

func (g *guarded) free() { syscall.Munmap(g.mem) }

// safely runs f; panics are reported as text, memory faults included.
func safely(f func()) (bad string) {
	defer func() {
		if r := recover(); r != nil {
			if panicClass(r) == "fault" {
				bad = "access outside of the data: " + fmt.Sprint(r)
			} else {
				bad = "panic: " + fmt.Sprint(r)
			}
		}
	}()
	f()
	return ""
}

// within: everything returned lies inside the data.
func (d *dumpRes) within(b []byte) string {
	if d.err != nil {
		return ""
	}
	lo := uintptr(0)
	if len(b) > 0 {
		lo = uintptr(unsafe.Pointer(&b[0]))
	}
	hi := lo + uintptr(len(b))
	in := func(what string, p unsafe.Pointer, n uintptr) string {
		if a := uintptr(p); (a >= lo && a+n > hi && a < hi+4096) || (a < lo && a+n > lo) {
			return fmt.Sprintf("%s reaches outside of the data: byte %d to %d of %d", what, int64(a-lo), int64(a-lo)+int64(n), len(b))
		}
		return ""
	}
	if d.h != nil {
		if s := in("header", unsafe.Pointer(d.h), 40); s != "" {
			return s
		}
	}
	for _, t := range d.tocs {
		if t == nil {
			return "a missing table entry is returned"
		}
		if s := in("table entry", unsafe.Pointer(t), 16); s != "" {
			return s
		}
	}
	for _, m := range d.metrics {
		switch v := m.(type) {
		case *mmvdump.Metric1:
			if s := in("metric", unsafe.Pointer(v), 104); s != "" {
				return s
			}
		case *mmvdump.Metric2:
			if s := in("metric", unsafe.Pointer(v), 48); s != "" {
				return s
			}
		}
	}
	for _, v := range d.values {
		if s := in("value", unsafe.Pointer(v), 32); s != "" {
			return s
		}
	}
	for _, i := range d.instances {
		switch v := i.(type) {
		case *mmvdump.Instance1:
			if s := in("instance", unsafe.Pointer(v), 80); s != "" {
				return s
			}
		case *mmvdump.Instance2:
			if s := in("instance", unsafe.Pointer(v), 24); s != "" {
				return s
			}
		}
	}
	for _, v := range d.indoms {
		if s := in("instance domain", unsafe.Pointer(v), 32); s != "" {
			return s
		}
	}
	for _, v := range d.strings {
		if s := in("string", unsafe.Pointer(v), 256); s != "" {
			return s
		}
	}
	if n := len(d.tocs) + len(d.metrics) + len(d.values) + len(d.instances) + len(d.indoms) + len(d.strings); n > len(b)+8 {
		return fmt.Sprintf("%d items returned for %d bytes", n, len(b))
	}
	return ""
}

// announced: a dump that succeeds holds exactly the items that the table of the
// data announces, as they are stored at the announced places.
func (d *dumpRes) announced(b []byte) string {
	if d.h == nil || len(b) < 40 {
		return "a dump without a header succeeds"
	}
	same := func(p unsafe.Pointer, off, n uint64) bool {
		return off <= uint64(len(b)) && n <= uint64(len(b))-off && string(unsafe.Slice((*byte)(p), n)) == string(b[off:off+n])
	}
	if !same(unsafe.Pointer(d.h), 0, 40) {
		return "the header returned is not the one stored"
	}
	if n := int32(le.Uint32(b[24:])); n < 0 || len(d.tocs) != int(n) {
		return fmt.Sprintf("%d table entries returned, %d announced", len(d.tocs), n)
	}
	version := le.Uint32(b[4:])
	items := [5]map[uint64]unsafe.Pointer{}
	for i := range items {
		items[i] = map[uint64]unsafe.Pointer{}
	}
	for o, v := range d.indoms {
		items[0][o] = unsafe.Pointer(v)
	}
	for o, i := range d.instances {
		switch v := i.(type) {
		case *mmvdump.Instance1:
			items[1][o] = unsafe.Pointer(v)
		case *mmvdump.Instance2:
			items[1][o] = unsafe.Pointer(v)
		}
		if _, ok := i.(*mmvdump.Instance2); ok != (version == 2) {
			return "an instance of the wrong version is returned"
		}
	}
	for o, m := range d.metrics {
		switch v := m.(type) {
		case *mmvdump.Metric1:
			items[2][o] = unsafe.Pointer(v)
		case *mmvdump.Metric2:
			items[2][o] = unsafe.Pointer(v)
		}
		if _, ok := m.(*mmvdump.Metric2); ok != (version == 2) {
			return "a metric of the wrong version is returned"
		}
	}
	for o, v := range d.values {
		items[3][o] = unsafe.Pointer(v)
	}
	for o, v := range d.strings {
		items[4][o] = unsafe.Pointer(v)
	}
	seen := map[uint32]bool{}
	for i, t := range d.tocs {
		o := uint64(40 + 16*i)
		if !same(unsafe.Pointer(t), o, 16) {
			return fmt.Sprintf("table entry %d returned is not the one stored", i)
		}
		ty, n, off := le.Uint32(b[o:]), int32(le.Uint32(b[o+4:])), le.Uint64(b[o+8:])
		if ty < 1 || ty > 5 {
			continue
		}
		if seen[ty] {
			return "" // ambiguous
		}
		seen[ty] = true
		l := uint64(entryLen(version, int(ty)))
		if n < 0 || n > 0 && (off > uint64(len(b)) || uint64(n) > (uint64(len(b))-off)/l) {
			return fmt.Sprintf("a file is accepted whose section %d (%d entries from byte %d) does not lie inside", ty, n, off)
		}
		got := items[ty-1]
		if len(got) != int(n) {
			return fmt.Sprintf("%d entries of section %d returned, %d announced", len(got), ty, n)
		}
		for k := uint64(0); k < uint64(n); k++ {
			p := got[off+k*l]
			if p == nil {
				return fmt.Sprintf("entry %d of section %d is missing", k, ty)
			}
			if !same(p, off+k*l, l) {
				return fmt.Sprintf("entry %d of section %d returned is not the one stored", k, ty)
			}
		}
	}
	for i, m := range items {
		if !seen[uint32(i+1)] && len(m) > 0 {
			return fmt.Sprintf("%d entries of a section %d that does not exist", len(m), i+1)
		}
	}
	return ""
}

// text describes everything a dump returned.
func (d *dumpRes) text() string {
	if d.err != nil {
		return "error"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%+v\n", *d.h)
	for _, t := range d.tocs {
		fmt.Fprintf(&b, "%+v\n", *t)
	}
	fmt.Fprintf(&b, "%d %d %d %d %d\n", len(d.metrics), len(d.values), len(d.instances), len(d.indoms), len(d.strings))
	for _, off := range keys64(d.metrics) {
		m := d.metrics[off]
		fmt.Fprintf(&b, "m%d %v %v %v %v %v %v %v\n", off, m.Item(), m.Typ(), m.Sem(), uint32(m.Unit()), m.Indom(), m.ShortText(), m.LongText())
	}
	for _, off := range keys64(d.values) {
		fmt.Fprintf(&b, "v%d %+v\n", off, *d.values[off])
	}
	for _, off := range keys64(d.instances) {
		i := d.instances[off]
		fmt.Fprintf(&b, "i%d %v %v\n", off, i.Indom(), i.Internal())
	}
	for _, off := range keys64(d.indoms) {
		fmt.Fprintf(&b, "d%d %+v\n", off, *d.indoms[off])
	}
	for _, off := range keys64(d.strings) {
		fmt.Fprintf(&b, "s%d %q\n", off, cstr(d.strings[off].Payload[:]))
	}
	return b.String()
}

func keys64[V any](m map[uint64]V) (l []uint64) {
	for k := range m {
		l = append(l, k)
	}
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
	return
}

// equals compares a dump with what the independent reader finds.
func (d *dumpRes) equals(f *mmvFile) string {
	h := d.h
	if h == nil {
		return "no header returned"
	}
	if uint32(h.Version) != f.Version || h.G1 != f.G1 || h.G2 != f.G2 || h.Flag != f.Flag || h.Process != f.Pid || uint32(h.Cluster) != f.Cluster || int(h.Toc) != len(f.Tocs) {
		return fmt.Sprintf("header %+v differs from the file", *h)
	}
	if len(d.tocs) != len(f.Tocs) {
		return fmt.Sprintf("%d sections instead of %d", len(d.tocs), len(f.Tocs))
	}
	for i, t := range d.tocs {
		if w := f.Tocs[i]; int32(t.Type) != w.Type || t.Count != w.Count || t.Offset != w.Off {
			return fmt.Sprintf("section %d is %+v instead of %+v", i, *t, w)
		}
	}
	if len(d.metrics) != len(f.Metrics) || len(d.values) != f.NVals || len(d.instances) != f.NInst || len(d.indoms) != len(f.Indoms) || len(d.strings) != f.NStrings {
		return fmt.Sprintf("%d metrics %d values %d instances %d instance domains %d strings instead of %d %d %d %d %d", len(d.metrics), len(d.values), len(d.instances), len(d.indoms), len(d.strings),
			len(f.Metrics), f.NVals, f.NInst, len(f.Indoms), f.NStrings)
	}
	str := func(off uint64) (string, bool) {
		if off == 0 {
			return "", true
		}
		s := d.strings[off]
		if s == nil {
			return "", false
		}
		return cstr(s.Payload[:]), true
	}
	for _, w := range f.Metrics {
		m := d.metrics[w.Off]
		if m == nil {
			return fmt.Sprintf("metric at %d is missing", w.Off)
		}
		var name string
		switch v := m.(type) {
		case *mmvdump.Metric1:
			name = cstr(v.Name[:])
		case *mmvdump.Metric2:
			name, _ = str(v.Name)
		}
		sh, ok1 := str(m.ShortText())
		lo, ok2 := str(m.LongText())
		if name != w.Name || m.Item() != w.ID || int32(m.Typ()) != w.Type || int32(m.Sem()) != w.Sem || uint32(m.Unit()) != w.Unit || m.Indom() != w.Indom || sh != w.Short || lo != w.Long || !ok1 || !ok2 {
			return fmt.Sprintf("metric %s is returned differently", short(w.Name))
		}
		for _, wv := range w.Values {
			v := d.values[wv.Off]
			if v == nil || v.Metric != w.Off || v.Instance != wv.InstOff {
				return fmt.Sprintf("the value of %s at %d is missing or wrong", short(w.Name), wv.Off)
			}
			if w.Type == tString {
				if s, ok := str(uint64(v.Extra)); !ok || s != wv.Str {
					return fmt.Sprintf("the text of %s is returned as %q", short(w.Name), short(s))
				}
				continue
			}
			if v.Val != wv.Raw {
				return fmt.Sprintf("the value of %s is returned as %x instead of %x", short(w.Name), v.Val, wv.Raw)
			}
			fv, err := mmvdump.FixedVal(v.Val, m.Typ())
			if c, ok := canonStored(int(w.Type), fv); err != nil || !ok || c != canonFile(int(w.Type), wv.Raw&mask(w.Type)) {
				return fmt.Sprintf("the value %x of type %d of %s is read as %v (%v)", v.Val, w.Type, short(w.Name), fv, err)
			}
		}
	}
	for _, w := range f.Indoms {
		i := d.indoms[w.Off]
		if i == nil || i.Serial != w.Serial || int(i.Count) != len(w.Insts) {
			return fmt.Sprintf("instance domain at %d is missing or wrong", w.Off)
		}
		sh, ok1 := str(i.Shorttext)
		lo, ok2 := str(i.Longtext)
		if sh != w.Short || lo != w.Long || !ok1 || !ok2 {
			return fmt.Sprintf("texts of the instance domain at %d are wrong", w.Off)
		}
		for _, wi := range w.Insts {
			in := d.instances[wi.Off]
			if in == nil || in.Indom() != w.Off || uint32(in.Internal()) != wi.ID {
				return fmt.Sprintf("instance at %d is missing or wrong", wi.Off)
			}
			var name string
			switch v := in.(type) {
			case *mmvdump.Instance1:
				name = cstr(v.External[:])
			case *mmvdump.Instance2:
				name, _ = str(v.External)
			}
			if name != wi.Name {
				return fmt.Sprintf("instance %s is returned as %s", short(wi.Name), short(name))
			}
		}
	}
	return ""
}

func mask(t int32) uint64 {
	if t == tInt32 || t == tUint32 || t == tFloat {
		return math.MaxUint32
	}
	return math.MaxUint64
}

// ---- P16

func dumpSnaps(x *Exec) {
	snaps := x.Snaps
	for c := range x.c.Prog.Clients {
		if q := x.cur[c]; q != nil {
			snaps = append(snaps, append([]byte(nil), q.Ino.Data()...))
		}
	}
	if len(snaps) > 9 { // the last ones and some of the others
		k := len(snaps) / 6
		var l [][]byte
		for i := 0; i < len(snaps)-3; i += k {
			l = append(l, snaps[i])
		}
		snaps = append(l, snaps[len(snaps)-3:]...)
	}
	for _, m := range x.c.Prog.Raw.Muts { // the same contents in other places
		if n := len(snaps); n > 0 && m.K == "relayout" {
			snaps = append(snaps, relayout(snaps[n-1-m.A%n], m.V))
		}
	}
	bad := func(format string, a ...interface{}) {
		if x.Notes["bad"] == nil {
			x.Notes["bad"] = fmt.Sprintf(format, a...)
		}
	}
	g := x.w.Spawn("reader", &vsim.Proc{ID: 99, Name: "reader"}, func() {
		type kept struct {
			d dumpRes
			f *mmvFile
		}
		var old []kept
		defer func() { // what a dump returned stays what it is
			for _, k := range old {
				if s := k.d.equals(k.f); s != "" {
					bad("after later dumps: %s", s)
				}
			}
		}()
		for _, b := range snaps {
			gd := guard(b)
			x.Keep = append(x.Keep, gd)
			var d1, d2 dumpRes
			d1 = runDump(gd.b)
			d2 = runDump(gd.b)
			st := quickStatus(b)
			x.w.Observe(func() {
				x.Notes["dumps"] = x.num("dumps") + 1
				if st == stReady {
					x.Notes["ready"] = x.num("ready") + 1
				}
			})
			if string(gd.b) != string(b) {
				bad("dumping changes the data")
			}
			if d1.text() != d2.text() {
				bad("two dumps of the same bytes differ: %q and %q", d1.text(), d2.text())
			}
			if st != stReady {
				if d1.err == nil {
					bad("a file that is not complete (generations %x %x) is accepted", le.Uint64(b[8:]), le.Uint64(b[16:]))
				}
				continue
			}
			f, perr := parseMMV(b)
			if perr != nil {
				continue
			}
			if d1.err != nil {
				bad("a complete file is refused: %v", d1.err)
				continue
			}
			if s := d1.equals(f); s != "" {
				bad("%s", s)
			}
			old = append(old, kept{d1, f})
			var o1, o2, o3 bytes.Buffer
			e1, e2, e3 := d1.write(&o1), d1.write(&o2), d2.write(&o3)
			if e1 != nil || e2 != nil || e3 != nil {
				bad("rendering a complete file fails: %v", e1)
			} else if o1.String() != o2.String() || o1.String() != o3.String() {
				bad("rendering twice gives different texts")
			}
		}
	})
	x.w.Join(g)
}

func (x *Exec) num(k string) int { n, _ := x.Notes[k].(int); return n }

func (x *Exec) noteBad() string { s, _ := x.Notes["bad"].(string); return s }

// base makes a small client program whose file is used as input.
func (g *gen) base(v2 bool) {
	c := g.client()
	ms := g.metrics(g.amount(0, 3), v2)
	t := g.regAll(c, ms)
	if g.ch(1, 4) {
		t = append(t, &Op{K: "regindom", C: c, M: g.indom(v2)})
	}
	t = append(t, op("start", c))
	if len(ms) > 0 {
		t = append(t, g.work(ms, g.n(4), 0, 0)...)
	}
	g.phase(t)
}

func (x *Exec) input() []byte {
	if x.c.Prog.Raw.Data != nil {
		return mutate(x.c.Prog.Raw.Data, x.c.Prog.Raw.Muts)
	}
	if q := x.cur[0]; q != nil {
		return mutate(q.Ino.Data(), x.c.Prog.Raw.Muts)
	}
	return nil
}

// dumpCorrupt is the scenario of P17.
func dumpCorrupt(x *Exec) {
	b := x.input()
	if b == nil {
		return
	}
	x.w.Observe(func() { x.w.FaultFired("corrupt-file") })
	gd := guard(b)
	x.Keep = append(x.Keep, gd)
	x.w.Cfg.MaxSteps = x.w.Steps() + 60000 + 400*len(b)
	x.w.Cfg.MaxTasks = x.w.Tasks() + 500 + 2*len(b)
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	g := x.w.Spawn("reader", &vsim.Proc{ID: 99, Name: "reader"}, func() {
		var d dumpRes
		if s := safely(func() { d = runDump(gd.b) }); s != "" {
			x.Notes["bad"] = "dumping: " + s
			return
		}
		if string(gd.b) != string(b) {
			x.Notes["bad"] = "dumping changes the data"
			return
		}
		if d.err != nil {
			return
		}
		x.Notes["accepted"] = 1
		if s := d.within(gd.b); s != "" {
			x.Notes["bad"] = s
			return
		}
		if s := d.announced(gd.b); s != "" {
			x.Notes["bad"] = s
			return
		}
		var o countWriter
		if s := safely(func() { d.write(&o) }); s != "" {
			x.Notes["bad"] = "rendering: " + s
			return
		}
		if o.n > 100000+200*len(b) {
			x.Notes["bad"] = fmt.Sprintf("rendering %d bytes of data makes %d bytes of text", len(b), o.n)
		}
	})
	x.w.Join(g)
	runtime.ReadMemStats(&m1)
	if d := m1.TotalAlloc - m0.TotalAlloc; d > 128<<20 && x.Notes["bad"] == nil {
		x.Notes["bad"] = fmt.Sprintf("%d MB of memory are allocated for %d bytes of data", d>>20, len(b))
	}
}

type countWriter struct{ n int }

func (c *countWriter) Write(b []byte) (int, error) { c.n += len(b); return len(b), nil }

// WFault is a failure of an output.
type WFault struct {
	At    int    `json:"at"`   // byte after which it fails
	Mode  string `json:"mode"` // err, partial, short (no error), full (error although all is accepted)
	Once  bool   `json:"once,omitempty"`
	Errno int    `json:"errno,omitempty"`
}

func (f WFault) err() error {
	if f.Errno != 0 {
		return syscall.Errno(f.Errno)
	}
	return errOutput
}

var errOutput = errors.New("output failed")

type failWriter struct {
	f     WFault
	b     []byte
	fired bool
	after int // calls after the failure
	w     *vsim.World
}

func (f *failWriter) Write(b []byte) (int, error) {
	if f.fired {
		f.after++
		if !f.f.Once {
			return 0, f.f.err()
		}
		f.b = append(f.b, b...)
		return len(b), nil
	}
	if len(b) == 0 || len(f.b)+len(b) <= f.f.At {
		f.b = append(f.b, b...)
		return len(b), nil
	}
	f.fired = true
	f.w.FaultFired("output-" + f.f.Mode)
	k := f.f.At - len(f.b)
	switch f.f.Mode {
	case "partial", "short":
		f.b = append(f.b, b[:k]...)
		if f.f.Mode == "short" {
			return k, nil
		}
		return k, f.f.err()
	case "full":
		f.b = append(f.b, b...)
		return len(b), f.f.err()
	}
	return 0, f.f.err()
}

// dumpFailOut is the scenario of P18.
func dumpFailOut(x *Exec) {
	b := x.input()
	if b == nil {
		return
	}
	gd := guard(b)
	x.Keep = append(x.Keep, gd)
	bad := func(format string, a ...interface{}) {
		if x.Notes["bad"] == nil {
			x.Notes["bad"] = fmt.Sprintf(format, a...)
		}
	}
	g := x.w.Spawn("reader", &vsim.Proc{ID: 99, Name: "reader"}, func() {
		d := runDump(gd.b)
		if d.err != nil {
			return
		}
		var full bytes.Buffer
		if err := d.write(&full); err != nil {
			return
		}
		x.Notes["accepted"] = 1
		for _, f := range x.c.Prog.Raw.Faults {
			if full.Len() > 0 {
				f.At %= full.Len() + 20
			}
			w := &failWriter{f: f, w: x.w}
			err := d.write(w)
			switch {
			case !bytes.HasPrefix(full.Bytes(), w.b):
				bad("with an output failing (%s) at byte %d the delivered text is no prefix of the complete one", f.Mode, f.At)
			case w.fired && err == nil:
				bad("the output fails (%s) at byte %d, rendering reports success", f.Mode, f.At)
			case !w.fired && err != nil:
				bad("rendering to a working output fails: %v", err)
			case !w.fired && len(w.b) != full.Len():
				bad("rendering succeeds with %d of %d bytes delivered", len(w.b), full.Len())
			case w.fired && w.after > 0:
				bad("rendering goes on after the output failed (%s) at byte %d", f.Mode, f.At)
			case w.fired && f.Mode != "short" && f.Errno == 0 && !strings.Contains(err.Error(), errOutput.Error()):
				bad("the output fails with %q, rendering reports %q", errOutput, err)
			}
		}
	})
	x.w.Join(g)
}

func init() {
	def(&propDef{id: "P16", classes: "panic fault deadlock", prep: func(x *Exec) {
		x.snapEvery = x.c.Prog.Raw.N
		x.custom = dumpSnaps
	}, gen: func(g *gen) *Case {
		c := g.client()
		ms := g.metrics(g.amount(0, 3), g.ch(1, 3))
		reg := g.regAll(c, ms)
		if g.ch(1, 4) {
			reg = append(reg, &Op{K: "regindom", C: c, M: g.indom(false)})
		}
		if g.ch(1, 3) {
			reg = append(reg, &Op{K: "setflag", C: c, N: int64(g.pickI(1, 2, 4))})
		}
		ts := [][]*Op{cat(reg, ops(op("start", c)))}
		if len(ms) > 0 {
			ts = append(ts, g.work(ms, g.in(1, 6), 0, 0))
		}
		ph := g.phase(ts...)
		if g.ch(1, 4) {
			ph.Crash = g.crash(len(ms))
		}
		g.p.Raw = &RawProg{N: g.pickI(1, 3, 10, 30, 60)}
		if g.big || g.huge || len(ms) > 30 {
			g.p.Raw.N = g.pickI(200, 1000)
		}
		for g.ch(1, 2) {
			g.p.Raw.Muts = append(g.p.Raw.Muts, Mut{K: "relayout", A: g.n(3), V: g.r.Next()})
		}
		return g.done("P16")
	}, check: nilCheck(func(x *Exec) string { return x.noteBad() })})

	def(&propDef{id: "P17", classes: "panic fault deadlock livelock hang fatal", prep: func(x *Exec) { x.custom = dumpCorrupt },
		gen: func(g *gen) *Case {
			g.p.Raw = &RawProg{}
			switch g.n(12) {
			case 0: // made up
				n := g.n(400)
				b := make([]byte, n)
				for i := range b {
					if g.ch(1, 3) {
						b[i] = byte(g.r.Next())
					}
				}
				copy(b, "MMV\x00")
				if n >= 40 && g.ch(4, 5) {
					le.PutUint32(b[4:], uint32(g.in(1, 2)))
					copy(b[8:], "\x05\x00\x00\x00\x00\x00\x00\x00\x05\x00\x00\x00\x00\x00\x00\x00")
					le.PutUint32(b[24:], uint32(g.n(6)))
				}
				g.p.Raw.Data = b
			default:
				g.base(g.ch(1, 3))
			}
			g.p.Raw.Muts = g.muts()
			return g.done("P17")
		}, check: nilCheck(func(x *Exec) string { return x.noteBad() })})

	def(&propDef{id: "P18", classes: "panic livelock", prep: func(x *Exec) { x.custom = dumpFailOut },
		gen: func(g *gen) *Case {
			g.base(g.ch(1, 3))
			g.p.Raw = &RawProg{}
			for n := g.in(3, 10); n > 0; n-- {
				g.p.Raw.Faults = append(g.p.Raw.Faults, WFault{At: g.pickI(g.n(300), g.n(20000)), Mode: g.pick("err", "partial", "short", "full"), Once: g.ch(1, 2)})
			}
			return g.done("P18")
		}, check: nilCheck(func(x *Exec) string { return x.noteBad() })})
}
