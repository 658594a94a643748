package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	histogram "github.com/HdrHistogram/hdrhistogram-go"
)

// ---- instance domains of a program

type indomID struct {
	Name        string
	Inst        []string
	Short, Long string
}

func (a *indomID) same(b *indomID) bool { // same instances
	if len(a.Inst) != len(b.Inst) {
		return false
	}
	for i := range a.Inst {
		if a.Inst[i] != b.Inst[i] {
			return false
		}
	}
	return true
}

func (a *indomID) key() string { return fmt.Sprintf("%q%q%q%q", a.Name, a.Inst, a.Short, a.Long) }

type universe struct {
	l    []indomID
	byK  map[string]int
	decl []int // instance domain objects of the program
	bare []int // made by name
	met  []int // instance domain of each metric, -1: none
}

func (u *universe) add(d indomID) int {
	d.Inst = uniq(d.Inst)
	if i, ok := u.byK[d.key()]; ok {
		return i
	}
	u.byK[d.key()] = len(u.l)
	u.l = append(u.l, d)
	return len(u.l) - 1
}

func (p *Prog) universe() *universe {
	u := &universe{byK: map[string]int{}}
	for _, d := range p.Indoms {
		u.decl = append(u.decl, u.add(indomID{d.Name, d.Inst, d.Short, d.Long}))
		u.bare = append(u.bare, u.add(indomID{d.Name, d.Inst, "", ""}))
	}
	for i, m := range p.Metrics {
		k := -1
		switch {
		case m.Kind == "inst" && m.ByString != "":
			k = u.add(indomID{Name: m.BSIndom, Inst: m.BSInst})
		case m.Kind == "inst":
			k = u.decl[m.Indom]
		case m.Kind == "cvec" || m.Kind == "gvec":
			k = u.add(indomID{Name: m.Name + ".indom", Inst: p.instancesOf(i)})
		case m.Kind == "hist":
			k = u.add(indomID{Name: "histogram", Inst: p.instancesOf(i)})
		}
		u.met = append(u.met, k)
	}
	return u
}

// ---- registry model

type regState struct {
	m, i   uint64
	active int // 1 + the active client
	flag   [8]int
}

type regIn struct {
	op *Op
}

type regOut struct {
	err     bool
	unknown bool
	n       int64
	names   map[string]bool
	flag    int // of the published file; -1 unknown
}

type regModel struct {
	p      *Prog
	u      *universe
	faulty bool // starts may fail
}

func (g *regModel) metricNamed(s regState, name string) int {
	for k := range g.p.Metrics {
		if s.m&(1<<uint(k)) != 0 && g.p.Metrics[k].Name == name {
			return k
		}
	}
	return -1
}

func (g *regModel) indomNamed(s regState, name string) int {
	for k := range g.u.l {
		if s.i&(1<<uint(k)) != 0 && g.u.l[k].Name == name {
			return k
		}
	}
	return -1
}

func (g *regModel) counts(s regState, k string) int64 {
	var n, nv, ni, nin, ns int64
	v2 := false
	txt := func(l ...string) {
		for _, t := range l {
			if t != "" {
				ns++
			}
		}
	}
	for i, m := range g.p.Metrics {
		if s.m&(1<<uint(i)) == 0 {
			continue
		}
		n++
		vals := int64(1)
		if d := g.u.met[i]; d >= 0 {
			vals = int64(len(g.u.l[d].Inst))
		}
		nv += vals
		if g.p.typeOf(i) == tString {
			ns += vals
		}
		if m.ByString == "" {
			txt(m.Short, m.Long)
		}
		v2 = v2 || len(m.Name) > 63
	}
	for i := range g.u.l {
		if s.i&(1<<uint(i)) == 0 {
			continue
		}
		d := &g.u.l[i]
		ni++
		nin += int64(len(d.Inst))
		txt(d.Short, d.Long)
		for _, x := range d.Inst {
			v2 = v2 || len(x) > 63
		}
	}
	if v2 {
		ns += n + nin
	}
	switch k {
	case "nmetrics":
		return n
	case "nvalues":
		return nv
	case "nindoms":
		return ni
	case "ninst":
		return nin
	case "nstr":
		return ns
	}
	panic(k)
}

func (g *regModel) step(state, in, out interface{}) []interface{} {
	s, op, o := state.(regState), in.(regIn).op, out.(regOut)
	// outcomes the model allows: next state and whether an error is returned
	var res []interface{}
	allow := func(ns regState, err bool) {
		if o.unknown || o.err == err {
			res = append(res, ns)
		}
	}
	put := func(ns regState, k int) regState { ns.i |= 1 << uint(k); return ns }
	switch op.K {
	case "regindom", "regindomname":
		k := g.u.decl[op.M]
		if op.K == "regindomname" {
			k = g.u.bare[op.M]
		}
		if s.active != 0 || g.indomNamed(s, g.u.l[k].Name) >= 0 {
			allow(s, true)
		} else {
			allow(put(s, k), false)
		}
	case "reg", "regstr":
		m := g.p.Metrics[op.M]
		ns := s
		ns.m |= 1 << uint(op.M)
		d := g.u.met[op.M]
		switch {
		case s.active != 0 || g.metricNamed(s, m.Name) >= 0 || (op.K == "regstr" && m.Bad):
			allow(s, true)
		case d < 0:
			allow(ns, false)
		default:
			have := g.indomNamed(s, g.u.l[d].Name)
			switch {
			case have < 0:
				allow(put(ns, d), false)
			case !g.u.l[have].same(&g.u.l[d]):
				allow(s, true)
			case have == d && !g.otherObject(d):
				allow(ns, false)
			default: // equal instances, but perhaps another object
				allow(ns, false)
				if op.K == "reg" {
					allow(s, true)
				}
			}
		}
	case "nmetrics", "nvalues", "nindoms", "ninst", "nstr":
		if o.unknown || g.counts(s, op.K) == o.n {
			return []interface{}{s}
		}
		return nil
	case "hasm":
		if o.unknown || (g.metricNamed(s, op.I) >= 0) == (o.n == 1) {
			return []interface{}{s}
		}
		return nil
	case "hasi":
		if o.unknown || (g.indomNamed(s, op.I) >= 0) == (o.n == 1) {
			return []interface{}{s}
		}
		return nil
	case "setflag":
		ns := s
		ns.flag[op.C] = int(op.N)
		if s.active != 0 {
			allow(s, true)
		}
		if s.active != op.C+1 { // of one of several clients while another is active: either
			allow(ns, false)
		}
	case "start":
		ns := s
		ns.active = op.C + 1
		if s.active != 0 {
			allow(s, true)
		} else {
			if o.names != nil {
				for i, m := range g.p.Metrics {
					if s.m&(1<<uint(i)) != 0 && !o.names[m.Name] {
						return nil
					}
				}
				if int64(len(o.names)) != g.counts(s, "nmetrics") {
					return nil
				}
			}
			if o.names == nil || o.flag < 0 || o.flag == s.flag[op.C] {
				allow(ns, false)
			}
			if g.faulty {
				allow(s, true)
			}
		}
	case "stop":
		ns := s
		ns.active = 0
		if s.active == op.C+1 {
			allow(ns, false)
			if g.faulty {
				allow(ns, true)
			}
		} else {
			allow(s, true)
		}
	default:
		panic("registry model " + op.K)
	}
	return res
}

// otherObject: several objects of the program have this content.
func (g *regModel) otherObject(d int) bool {
	n := 0
	for i, k := range g.u.decl {
		if k == d {
			n++
		}
		if g.u.bare[i] == d {
			n++
		}
	}
	for i, k := range g.u.met {
		if m := g.p.Metrics[i]; k == d && (m.ByString != "" || m.Kind == "cvec" || m.Kind == "gvec") {
			n++
		}
	}
	return n > 1
}

var regOps = map[string]bool{"regindom": true, "regindomname": true, "reg": true, "regstr": true, "nmetrics": true, "nvalues": true, "nindoms": true,
	"ninst": true, "nstr": true, "hasm": true, "hasi": true, "setflag": true, "start": true, "stop": true}

// checkRegistry decides the registry history of every client; with names the
// content of the published files takes part.
func (x *Exec) checkRegistry(faulty bool) (bad string, inconclusive int) {
	p := x.c.Prog
	g := &regModel{p: p, u: p.universe(), faulty: faulty}
	for proc := 1; proc <= x.nproc; proc++ {
		for c := range p.Clients {
			if p.reg(c) != c {
				continue
			}
			var ops []linOp
			for _, r := range x.Recs {
				if r.Proc != proc || r.Skip || !regOps[r.Op.K] || p.reg(r.Op.C) != c {
					continue
				}
				if r.Bad != "" {
					return r.Bad, inconclusive
				}
				o := regOut{err: r.Err, n: r.OutI, flag: -1}
				lo := linOp{call: r.Call, ret: r.Ret, in: regIn{r.Op}, desc: regDesc(p, r)}
				if r.Op.K == "start" && !r.Err && r.Ret != 0 {
					if q := x.onlyPub(r); q != nil && q.Parsed != nil {
						o.names = map[string]bool{}
						for _, m := range q.Parsed.Metrics {
							o.names[m.Name] = true
						}
						o.flag = int(q.Parsed.Flag)
						lo.desc += fmt.Sprintf(" publishing %v flag %d", boolKeys(o.names), o.flag)
					}
				}
				if r.Ret == 0 {
					lo.ret, lo.maybe, o.unknown = never, true, true
				}
				lo.out = o
				ops = append(ops, lo)
			}
			if len(ops) == 0 {
				continue
			}
			ok, concl := linCheck(regState{flag: [8]int{2, 2, 2, 2, 2, 2, 2, 2}}, ops, g.step)
			if !concl {
				inconclusive++
			}
			if !ok {
				return fmt.Sprintf("client %s: no sequential order explains %s", p.Clients[c].Name, linDescribe(ops)), inconclusive
			}
		}
	}
	return "", inconclusive
}

func boolKeys(m map[string]bool) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

// onlyPub is the file that became complete during a call, if there is
// exactly one.
func (x *Exec) onlyPub(r *Rec) (q *Pub) {
	for _, p := range x.Pubs {
		if p.C == r.Op.C && p.Proc == r.Proc && p.ReadyAt > r.Call && p.ReadyAt < r.Ret {
			if q != nil {
				return nil
			}
			q = p
		}
	}
	return
}

func regDesc(p *Prog, r *Rec) string {
	s := r.Op.K
	if p.shares(r.Op.C) && (s == "start" || s == "stop" || s == "setflag") {
		s += " " + p.Clients[r.Op.C].Name
	}
	switch r.Op.K {
	case "reg", "regstr":
		s += " " + short(p.Metrics[r.Op.M].Name)
	case "regindom", "regindomname":
		s += " " + short(p.Indoms[r.Op.M].Name)
	case "hasm", "hasi":
		s += " " + short(r.Op.I)
	case "setflag":
		s += " " + fmt.Sprint(r.Op.N)
	}
	switch {
	case r.Ret == 0:
		s += "=?"
	case r.Err:
		s += "=error"
	case strings.HasPrefix(r.Op.K, "n") || strings.HasPrefix(r.Op.K, "has"):
		s += fmt.Sprintf("=%d", r.OutI)
	default:
		s += "=ok"
	}
	return s
}

func short(s string) string {
	if len(s) > 24 {
		return s[:20] + "~" + strconv.Itoa(len(s))
	}
	return s
}

// ---- content of a published file

// registeredSets: what must and what may be registered at a client.
func (x *Exec) registeredSets(c, proc int, t0, t1 int64, u *universe) (must, may map[string][]int, imust, imay map[string][]int) {
	must, may, imust, imay = map[string][]int{}, map[string][]int{}, map[string][]int{}, map[string][]int{}
	add := func(m map[string][]int, k string, v int) {
		for _, w := range m[k] {
			if w == v {
				return
			}
		}
		m[k] = append(m[k], v)
	}
	p := x.c.Prog
	for _, r := range x.Recs {
		if r.Proc != proc || r.Skip || p.reg(r.Op.C) != p.reg(c) || r.Err || r.Call > t1 {
			continue
		}
		sure := r.Ret != 0 && r.Ret <= t0
		d := -1
		switch r.Op.K {
		case "reg", "regstr":
			m := p.Metrics[r.Op.M]
			add(may, m.Name, r.Op.M)
			if sure {
				add(must, m.Name, r.Op.M)
			}
			d = u.met[r.Op.M]
		case "regindom":
			d = u.decl[r.Op.M]
		case "regindomname":
			d = u.bare[r.Op.M]
		}
		if d >= 0 {
			n := u.l[d].Name
			add(imay, n, d)
			if sure {
				add(imust, n, d)
			}
		}
	}
	return
}

// contentCheck compares a parsed file with what was registered when it was
// published; t0..t1 is the interval of the start call.
func (x *Exec) contentCheck(c, proc, pid int, f *mmvFile, t0, t1 int64) string {
	p := x.c.Prog
	u := p.universe()
	must, may, imust, imay := x.registeredSets(c, proc, t0, t1, u)
	seen := map[string]bool{}
	v2 := false
	nv, nin := 0, 0
	for _, m := range f.Metrics {
		if seen[m.Name] {
			return fmt.Sprintf("metric %s appears twice in the file", short(m.Name))
		}
		seen[m.Name] = true
		l := may[m.Name]
		if len(l) == 0 {
			return fmt.Sprintf("the file has metric %q, which is not registered", short(m.Name))
		}
		bad := ""
		for _, k := range l {
			if bad = x.metricCheck(m, k, u); bad == "" {
				break
			}
		}
		if bad != "" {
			return bad
		}
		v2 = v2 || len(m.Name) > 63
		nv += len(m.Values)
	}
	for n := range must {
		if !seen[n] {
			return fmt.Sprintf("registered metric %s is not in the file", short(n))
		}
	}
	names := map[uint32]string{}
	for n := range imay {
		names[fnv32(n, 22)] = n
	}
	iseen := map[string]bool{}
	for _, d := range f.Indoms {
		n, ok := names[d.Serial]
		if !ok {
			return fmt.Sprintf("the file has instance domain %d, which is not registered", d.Serial)
		}
		iseen[n] = true
		bad := ""
		for _, k := range imay[n] {
			if bad = indomCheck(d, &u.l[k]); bad == "" {
				break
			}
		}
		if bad != "" {
			return bad
		}
		for _, in := range d.Insts {
			v2 = v2 || len(in.Name) > 63
		}
		nin += len(d.Insts)
	}
	for n := range imust {
		if !iseen[n] {
			return fmt.Sprintf("registered instance domain %s is not in the file", short(n))
		}
	}
	if nv != f.NVals || nin != f.NInst {
		return fmt.Sprintf("the file has %d values and %d instances, %d and %d are registered", f.NVals, f.NInst, nv, nin)
	}
	want := uint32(1)
	if v2 {
		want = 2
	}
	if f.Version != want {
		return fmt.Sprintf("format version %d, the names need %d", f.Version, want)
	}
	if int(f.Pid) != pid {
		return fmt.Sprintf("the file has process id %d, the process has %d", f.Pid, pid)
	}
	if w := fnv32(p.Clients[c].Name, 12); f.Cluster != w {
		return fmt.Sprintf("cluster identifier %d instead of %d", f.Cluster, w)
	}
	sets := func(q *Rec) bool {
		return q.Proc == proc && q.Op.K == "setflag" && q.Op.C == c && !q.Err && !q.Skip && q.Call <= t1
	}
	flags := map[int]bool{2: true} // the last of those before, or one of those at the same time
	for _, r := range x.Recs {
		if !sets(r) {
			continue
		}
		if r.Ret != 0 && r.Ret <= t0 {
			delete(flags, 2)
		}
	}
	for _, r := range x.Recs {
		later := false
		for _, q := range x.Recs {
			later = later || sets(q) && q.Ret != 0 && q.Ret <= t0 && r.Ret != 0 && q.Call > r.Ret
		}
		if sets(r) && !later {
			flags[int(r.Op.N)] = true
		}
	}
	if !flags[int(f.Flag)] {
		return fmt.Sprintf("flags %d instead of %v", f.Flag, flags)
	}
	return ""
}

func (x *Exec) metricCheck(m *pMetric, k int, u *universe) string {
	p := x.c.Prog
	s := p.Metrics[k]
	t, sem, unit := p.typeOf(k), int32(semVals[s.Sem]), unitBits[s.Unit]
	switch s.Kind {
	case "counter", "cvec":
		sem, unit = 1, 1<<20
	case "gauge", "gvec":
		sem, unit = 3, 1<<20
	case "timer":
		sem, unit = 4, 1<<24|uint32(s.Unit)<<12
	case "hist":
		sem = 3
	}
	sh, lo := s.Short, s.Long
	if s.ByString != "" {
		sh, lo = "", ""
	}
	n := short(s.Name)
	if w := fnv32(s.Name, 10); m.ID != w {
		return fmt.Sprintf("metric %s has item %d instead of %d", n, m.ID, w)
	}
	if int(m.Type) != t || m.Sem != sem || m.Unit != unit {
		return fmt.Sprintf("metric %s has type %d semantics %d unit %x instead of %d %d %x", n, m.Type, m.Sem, m.Unit, t, sem, unit)
	}
	if m.Short != sh || m.Long != lo {
		return fmt.Sprintf("metric %s has texts %q %q instead of %q %q", n, short(m.Short), short(m.Long), short(sh), short(lo))
	}
	want := []string{""}
	if d := u.met[k]; d >= 0 {
		want = u.l[d].Inst
		if uint32(m.Indom) != fnv32(u.l[d].Name, 22) {
			return fmt.Sprintf("metric %s refers to instance domain %d instead of %d", n, m.Indom, fnv32(u.l[d].Name, 22))
		}
	} else if m.Indom != -1 {
		return fmt.Sprintf("metric %s refers to an instance domain", n)
	}
	var got []string
	for _, v := range m.Values {
		got = append(got, v.InstName)
	}
	sort.Strings(got)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Sprintf("metric %s has values for %q instead of %q", n, got, want)
	}
	return ""
}

func indomCheck(d *pIndom, w *indomID) string {
	n := short(w.Name)
	if d.Short != w.Short || d.Long != w.Long {
		return fmt.Sprintf("instance domain %s has texts %q %q instead of %q %q", n, short(d.Short), short(d.Long), short(w.Short), short(w.Long))
	}
	var got []string
	for _, i := range d.Insts {
		got = append(got, i.Name)
		if h := fnv32(i.Name, 0); i.ID != h {
			return fmt.Sprintf("instance %s has identifier %d instead of %d", short(i.Name), i.ID, h)
		}
	}
	sort.Strings(got)
	if fmt.Sprint(got) != fmt.Sprint(w.Inst) {
		return fmt.Sprintf("instance domain %s has instances %q instead of %q", n, got, w.Inst)
	}
	return ""
}

// lone: no other call of the kinds overlaps the call.
func (x *Exec) lone(r *Rec, kinds ...string) bool {
	for _, q := range x.Recs {
		if q == r || q.Proc != r.Proc || x.c.Prog.reg(q.Op.C) != x.c.Prog.reg(r.Op.C) || !has(kinds, q.Op.K) {
			continue
		}
		if q.Call < r.Ret && (q.Ret == 0 || q.Ret > r.Call) {
			return false
		}
	}
	return true
}

// startContent checks the file after every successful start.
func (x *Exec) startContent() string {
	for _, r := range x.Recs {
		if r.Op.K != "start" || r.Err || r.Ret == 0 || r.Skip || !x.lone(r, "stop", "start") {
			continue
		}
		if r.File == nil {
			return fmt.Sprintf("start of %s succeeded, but %s: %v", x.c.Prog.Clients[r.Op.C].Name, r.Status, r.FileErr)
		}
		if bad := x.contentCheck(r.Op.C, r.Proc, x.pid(r), r.File, r.Call, r.Ret); bad != "" {
			return bad
		}
	}
	return ""
}

func (x *Exec) pid(r *Rec) int {
	p := 4242
	for i := 0; i <= r.Ph; i++ {
		ph := x.c.Prog.Phases[i]
		if i == 0 || ph.NewProc {
			p = 4242
			if ph.Pid != 0 {
				p = ph.Pid
			}
		}
	}
	return p
}

// startValues compares the values in the file after every start with the
// values the updates before it left; only for values without concurrent
// updates.
func (x *Exec) startValues() string {
	p := x.c.Prog
	for _, r := range x.Recs {
		if r.Op.K != "start" || r.Err || r.Ret == 0 || r.File == nil || !x.lone(r, "stop", "start") {
			continue
		}
		for _, fm := range r.File.Metrics {
			m := -1
			for k := range p.Metrics {
				if p.Metrics[k].Name == fm.Name && x.registered(r.Op.C, k, r.Proc, r.Ret) {
					m = k
				}
			}
			if m < 0 || x.updating(m, r.Proc, r.Call, r.Ret) {
				continue
			}
			for _, v := range fm.Values {
				got := CV{S: v.Str}
				if fm.Type != tString {
					got = canonFile(int(fm.Type), v.Raw)
				}
				if bad := x.lastValue(m, v.InstName, r.Proc, r.Call, got); bad != "" {
					return bad
				}
			}
		}
	}
	return ""
}

// lastValue checks a value against the operations that ended before t.
func (x *Exec) lastValue(m int, inst string, proc int, t int64, got CV) string {
	p := x.c.Prog
	if k := p.Metrics[m].Kind; k == "hist" || k == "timer" {
		return ""
	}
	ops, _ := x.valueOps(m, inst, proc)
	var l []linOp
	for _, o := range ops {
		// a read that goes on may return a later value
		if o.call < t*tscale && (o.ret <= t*tscale || o.in.(valIn).k != "read") {
			l = append(l, o)
		}
	}
	l = append(l, linOp{call: t * tscale, ret: t*tscale + 1, in: valIn{k: "read"}, out: valOut{v: got}, desc: "file=" + got.String()})
	if ok, _ := linCheck(p.initOf(m, inst), l, valStep); !ok {
		return fmt.Sprintf("the file has %v for %s[%s], initially %v, after %s", got, short(p.Metrics[m].Name), short(inst), p.initOf(m, inst), linDescribe(l))
	}
	return ""
}

// ---- timers

// The clock runs on while an operation is under way, so a start or a stop is
// known to have read it between two times only, and what is accumulated lies
// between two bounds until a result or the file shows it.
type timerState struct {
	run    bool
	s0, s1 int64
	a0, a1 float64
}

type timerIn struct {
	k    string
	t0   int64
	t1   int64
	unit float64
}

// between is true if v is in a..b up to rounding.
func between(v, a, b float64) bool {
	return v >= a && v <= b || near(v, a) || near(v, b)
}

func near(a, b float64) bool {
	if a == b || (a != a && b != b) {
		return true
	}
	d := math.Abs(a - b)
	return d <= 1e-9*math.Max(math.Abs(a), math.Abs(b))
}

func timerStep(state, in, out interface{}) []interface{} {
	s, i, o := state.(timerState), in.(timerIn), out.(valOut)
	fail := func(cond bool) bool { return !o.unknown && o.err != cond }
	switch i.k {
	case "tstart":
		if fail(s.run) {
			return nil
		}
		if !s.run {
			s.run, s.s0, s.s1 = true, i.t0, i.t1
		}
		return []interface{}{s}
	case "tstop":
		if fail(!s.run) {
			return nil
		}
		if s.run {
			e0, e1 := i.t0-s.s1, i.t1-s.s0
			if e0 < 0 {
				e0 = 0
			}
			s.a0, s.a1 = s.a0+float64(e0)/i.unit, s.a1+float64(e1)/i.unit
			s.run, s.s0, s.s1 = false, 0, 0
			if !o.unknown {
				v := math.Float64frombits(o.v.U)
				if !between(v, s.a0, s.a1) {
					return nil
				}
				s.a0, s.a1 = v, v
			}
		}
		return []interface{}{s}
	case "treset":
		if fail(s.run) {
			return nil
		}
		if !s.run {
			s.a0, s.a1 = 0, 0
		}
		return []interface{}{s}
	case "read":
		v := math.Float64frombits(o.v.U)
		if !between(v, s.a0, s.a1) {
			return nil
		}
		s.a0, s.a1 = v, v
		return []interface{}{s}
	}
	panic(i.k)
}

func (x *Exec) checkTimer(m, proc int, file bool) (bad string, conclusive bool) {
	p := x.c.Prog
	var ops []linOp
	for _, r := range x.Recs {
		if r.Proc != proc || r.Skip || r.Op.M != m || (r.Op.K != "tstart" && r.Op.K != "tstop" && r.Op.K != "treset") {
			continue
		}
		o := valOut{err: r.Err, v: CV{U: math.Float64bits(r.OutF)}}
		lo := linOp{call: r.Call * tscale, ret: r.Ret * tscale, in: timerIn{r.Op.K, r.CallNs, r.RetNs, timerNanos[p.Metrics[m].Unit]},
			desc: fmt.Sprintf("%s@%d", r.Op.K, r.CallNs)}
		if r.RetNs > r.CallNs {
			lo.desc += fmt.Sprintf("-%d", r.RetNs)
		}
		switch {
		case r.Ret == 0:
			lo.ret, lo.maybe, o.unknown = never, true, true
			lo.in = timerIn{r.Op.K, r.CallNs, r.CallNs + 1<<60, timerNanos[p.Metrics[m].Unit]}
			lo.desc += "=?"
		case r.Err:
			lo.desc += "=error"
		case r.Op.K == "tstop":
			lo.desc += fmt.Sprintf("=%v", r.OutF)
		}
		lo.out = o
		ops = append(ops, lo)
	}
	if file {
		for _, o := range x.fileReads(m, "", proc) {
			o.in = timerIn{k: "read"}
			o.desc = fmt.Sprintf("file=%v", math.Float64frombits(o.out.(valOut).v.U))
			ops = append(ops, o)
		}
	}
	if len(ops) == 0 {
		return "", true
	}
	ok, c := linCheck(timerState{}, ops, timerStep)
	if !ok {
		return fmt.Sprintf("timer %s: no sequential order explains %s", short(p.Metrics[m].Name), linDescribe(ops)), true
	}
	return "", c
}

// ---- histograms

type histIn struct {
	k    string
	v, n int64
}

type histOut struct {
	err, unknown bool
	f            float64
	i            int64
	b            string
	stats        [5]float64 // max mean min standard_deviation variance
	have         [5]bool
}

type histModel struct {
	low, high int64
	sig       int
	memo      map[string]*histStats
}

type histStats struct {
	h       *histogram.Histogram
	stats   [5]float64
	buckets string
}

func (g *histModel) stats(s string) *histStats {
	if st := g.memo[s]; st != nil {
		return st
	}
	h := histogram.New(g.low, g.high, g.sig)
	n := 0
	for _, e := range strings.Fields(s) {
		var v, c int64
		fmt.Sscanf(e, "%d:%d", &v, &c)
		h.RecordValues(v, c)
		n++
	}
	st := &histStats{h: h}
	if n > 0 {
		sd := h.StdDev()
		st.stats = [5]float64{float64(h.Max()), h.Mean(), float64(h.Min()), sd, sd * sd}
	}
	var b []string
	for _, x := range h.Distribution() {
		b = append(b, fmt.Sprintf("%d-%d:%d", x.From, x.To, x.Count))
	}
	st.buckets = strings.Join(b, " ")
	g.memo[s] = st
	return st
}

func addHist(s string, v, n int64) string {
	m := map[int64]int64{}
	for _, e := range strings.Fields(s) {
		var a, c int64
		fmt.Sscanf(e, "%d:%d", &a, &c)
		m[a] = c
	}
	m[v] += n
	var k []int64
	for a := range m {
		k = append(k, a)
	}
	sort.Slice(k, func(i, j int) bool { return k[i] < k[j] })
	var b []string
	for _, a := range k {
		b = append(b, fmt.Sprintf("%d:%d", a, m[a]))
	}
	return strings.Join(b, " ")
}

func (g *histModel) step(state, in, out interface{}) []interface{} {
	s, i, o := state.(string), in.(histIn), out.(histOut)
	one := func(ok bool) []interface{} {
		if ok {
			return []interface{}{s}
		}
		return nil
	}
	switch i.k {
	case "rec":
		if o.unknown {
			if i.n < 0 || i.v < 0 {
				return one(true)
			}
			return []interface{}{addHist(s, i.v, i.n), s}
		}
		if o.err {
			return one(i.n < 0 || i.v < g.low || i.v > g.high)
		}
		if i.n < 0 || i.v < 0 {
			return nil
		}
		return []interface{}{addHist(s, i.v, i.n)}
	case "max":
		return one(o.f == g.stats(s).stats[0])
	case "mean":
		return one(near(o.f, g.stats(s).stats[1]))
	case "min":
		return one(o.f == g.stats(s).stats[2])
	case "sd":
		return one(near(o.f, g.stats(s).stats[3]))
	case "var":
		return one(near(o.f, g.stats(s).stats[4]))
	case "pct":
		return one(o.i == g.stats(s).h.ValueAtQuantile(float64(i.v)))
	case "buckets":
		return one(o.b == g.stats(s).buckets)
	case "file":
		w := g.stats(s).stats
		for k := range w {
			if o.have[k] && !near(w[k], o.stats[k]) {
				return nil
			}
		}
		return one(true)
	}
	panic(i.k)
}

func (x *Exec) checkHist(m, proc int, file bool) (bad string, conclusive bool) {
	p := x.c.Prog
	s := p.Metrics[m]
	low, high, sig := s.hist()
	g := &histModel{low: low, high: high, sig: sig, memo: map[string]*histStats{}}
	var ops []linOp
	for _, r := range x.Recs {
		if r.Proc != proc || r.Skip || r.Op.M != m {
			continue
		}
		in := histIn{k: r.Op.K, v: r.Op.N, n: r.Op.D}
		o := histOut{err: r.Err, f: r.OutF, i: r.OutI}
		d := r.Op.K
		switch r.Op.K {
		case "rec":
			in.n = 1
			d += fmt.Sprintf("(%d)", in.v)
		case "recn":
			in.k = "rec"
			d += fmt.Sprintf("(%d,%d)", in.v, in.n)
		case "max", "min", "mean", "var", "sd":
			d += fmt.Sprintf("=%v", r.OutF)
		case "pct":
			d += fmt.Sprintf("(%d)=%d", in.v, r.OutI)
		case "buckets":
			var b []string
			for _, k := range r.Buckets {
				b = append(b, fmt.Sprintf("%d-%d:%d", k.From, k.To, k.Count))
			}
			o.b = strings.Join(b, " ")
			d += "=" + o.b
			if len(d) > 200 {
				d = d[:200]
			}
		case "high", "low":
			if r.Ret == 0 {
				continue
			}
			w := high
			if r.Op.K == "low" {
				w = low
			}
			if r.OutI != w {
				return fmt.Sprintf("histogram %s configured with %d..%d reports %s %d", s.Name, s.Low, s.High, r.Op.K, r.OutI), true
			}
			continue
		default:
			continue
		}
		lo := linOp{call: r.Call * tscale, ret: r.Ret * tscale, in: in, desc: d}
		if r.Err {
			lo.desc += "=error"
		}
		if r.Ret == 0 {
			if in.k != "rec" {
				continue
			}
			lo.ret, lo.maybe, o.unknown = never, true, true
		}
		lo.out = o
		ops = append(ops, lo)
	}
	if file {
		ops = append(ops, x.histReads(m, proc)...)
	}
	if len(ops) == 0 {
		return "", true
	}
	ok, c := linCheck("", ops, g.step)
	if !ok {
		return fmt.Sprintf("histogram %s (%d..%d): no sequential order explains %s", short(s.Name), s.Low, s.High, linDescribe(ops)), true
	}
	return "", c
}

// histReads: the five published statistics at times without updates.
func (x *Exec) histReads(m, proc int) (ops []linOp) {
	p := x.c.Prog
	insts := p.instancesOf(m)
	for _, pub := range x.Pubs {
		if pub.Proc != proc || pub.ReadyAt == 0 || pub.Parsed == nil || !x.registered(pub.C, m, proc, pub.ReadyAt) {
			continue
		}
		end, endRet := x.activeEnd(pub, proc)
		var idx [5]int
		for k, in := range insts {
			idx[k] = -1
			for s := range pub.slots {
				if pub.slots[s].Name == p.Metrics[m].Name && pub.slots[s].Inst == in {
					idx[k] = s
				}
			}
		}
		at := func(t int64) (o histOut) {
			for k, s := range idx {
				if s < 0 {
					continue
				}
				v := pub.read(s, pub.Bytes).V
				for _, ch := range pub.Changes {
					if ch.Slot == s && ch.At <= t && ch.Proc == proc {
						v = ch.V
					}
				}
				o.have[k], o.stats[k] = true, math.Float64frombits(v.U)
			}
			return
		}
		add := func(a, b, t int64) {
			o := at(t)
			ops = append(ops, linOp{call: a, ret: b, in: histIn{k: "file"}, out: o, desc: fmt.Sprintf("file=%v", o.stats)})
		}
		if !x.updating(m, proc, pub.ReadyAt, pub.ReadyAt+1) {
			add(pub.ReadyAt*tscale, pub.ReadyAt*tscale+1, pub.ReadyAt)
		}
		for _, r := range x.Recs {
			if r.Proc != proc || r.Ret == 0 || r.Ret <= pub.ReadyAt || r.Ret > end || r.Op.M != m || !isUpdate(r.Op.K) {
				continue
			}
			busy := false
			for _, q := range x.Recs {
				if q.Proc == proc && q != r && q.Op.M == m && isUpdate(q.Op.K) && q.Call < r.Ret && (q.Ret == 0 || q.Ret > r.Ret) {
					busy = true
				}
			}
			if !busy {
				add(r.Ret*tscale+1, r.Ret*tscale+1, r.Ret)
			}
		}
		if endRet > 0 && !x.updating(m, proc, end, endRet) {
			add(end*tscale+1, endRet*tscale-1, never)
		}
	}
	return
}
