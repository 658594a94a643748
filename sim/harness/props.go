package main

import (
	"fmt"
	"math"
	"strings"

	histogram "github.com/HdrHistogram/hdrhistogram-go"

	"verif/sim/simfs"
	"verif/sim/vsim"
)

// propDef is how a property is decided.
type propDef struct {
	id      string
	gen     func(g *gen) *Case
	check   func(x *Exec) (string, int)
	prep    func(x *Exec)
	classes string // failures of the simulation that violate the property
	partial bool   // the oracle applies to executions that end early
}

var props = map[string]*propDef{}

func def(d *propDef) { props[d.id] = d }

func op(k string, c int) *Op { return &Op{K: k, C: c} }

func cat(l ...[]*Op) (o []*Op) {
	for _, x := range l {
		o = append(o, x...)
	}
	return
}

func ops(l ...*Op) []*Op { return l }

// done finishes a case.
func (g *gen) done(id string) *Case {
	n, starts := 0, 0
	for _, ph := range g.p.Phases {
		for _, t := range ph.Tasks {
			n += len(t)
			for _, o := range t {
				if o.K == "start" {
					starts++
				}
				if (o.K == "regstr" || o.K == "regindom") && g.ch(1, 10) {
					o.Must = true
				}
			}
		}
	}
	est := 40*n + starts*(200+150*len(g.p.Metrics)) + 20
	est = est * g.pickI(1, 2, 4, 8) / 4
	c := &Case{Prop: id, Prog: g.p, Sched: g.sched(est), Steps: 4000000}
	switch id {
	case "P09", "P10", "P11", "P13", "P15":
		c.Maps = g.ch(2, 3)
	}
	return c
}

func (g *gen) yields(n int) []*Op {
	if n == 0 {
		return nil
	}
	return ops(&Op{K: "yield", N: int64(n)})
}

// crash at some point of a phase with about n metrics.
func (g *gen) crash(n int) *Crash {
	if g.ch(1, 2) {
		return &Crash{"event", g.in(1, g.pickI(10, 40, 60+40*n))}
	}
	return &Crash{"step", g.in(1, g.pickI(60, 300, 400+400*n))}
}

func (g *gen) stall() simfs.Fault {
	return simfs.Fault{Op: g.pick("open", "write", "mmap", "stat", "remove", "munmap", "close", "mkdir"), Nth: g.pickI(1, 1, 2), Delay: int64(g.pickI(1000, 100000, 5000000, 1000000000))}
}

func (g *gen) maybeStall(ph *Phase) {
	if g.ch(1, 5) {
		ph.Faults = append(ph.Faults, g.stall())
	}
}

func nilCheck(f func(x *Exec) string) func(x *Exec) (string, int) {
	return func(x *Exec) (string, int) { return f(x), 0 }
}

// ---- checks shared by several properties

// pubsComplete: whatever readers accept is a complete, right file.
func (x *Exec) pubsComplete() string {
	for _, p := range x.Pubs {
		if p.ReadyAt == 0 || p.Proc == 0 {
			continue
		}
		if p.ParseErr != nil {
			return fmt.Sprintf("a reader accepts the file of %s at step %d, but %v", x.c.Prog.Clients[p.C].Name, p.ReadyStep, p.ParseErr)
		}
		if p.Broken != "" {
			return fmt.Sprintf("a reader accepts the file of %s, but %s", x.c.Prog.Clients[p.C].Name, p.Broken)
		}
		t0 := p.ReadyAt
		for _, r := range x.Recs {
			if r.Op.K == "start" && r.Proc == p.Proc && r.Op.C == p.C && r.Call < p.ReadyAt && (r.Ret == 0 || r.Ret > p.ReadyAt) && r.Call < t0 {
				t0 = r.Call
			}
		}
		if bad := x.contentCheck(p.C, p.Proc, p.Pid, p.Parsed, t0, p.ReadyAt); bad != "" {
			return fmt.Sprintf("when the file of %s becomes complete: %s", x.c.Prog.Clients[p.C].Name, bad)
		}
	}
	return ""
}

// fileStays: as long as a client is active its file stays and nothing but
// values changes.
func (x *Exec) fileStays() string {
	for _, p := range x.Pubs {
		if p.ReadyAt == 0 || p.Proc == 0 || p.Parsed == nil {
			continue
		}
		end, _ := x.activeEnd(p, p.Proc)
		if p.Alien != "" && p.AlienAt <= end {
			return fmt.Sprintf("while client %s is active its file changes: %s", x.c.Prog.Clients[p.C].Name, p.Alien)
		}
		if p.Gone != 0 && p.Gone <= end {
			return fmt.Sprintf("while client %s is active its file vanishes or is replaced", x.c.Prog.Clients[p.C].Name)
		}
	}
	return ""
}

func (p *Pub) at(s int, t int64) CV {
	v := p.read(s, p.Bytes).V
	for _, ch := range p.Changes {
		if ch.Slot == s && ch.At <= t {
			v = ch.V
		}
	}
	return v
}

func (p *Pub) slotOf(name, inst string) int {
	for k := range p.slots {
		if p.slots[k].Name == name && p.slots[k].Inst == inst {
			return k
		}
	}
	return -1
}

// fileEqualsReads: when a value is not being updated, the file has the value
// that is read.
func (x *Exec) fileEqualsReads() string {
	p := x.c.Prog
	for _, r := range x.Recs {
		if r.Op.K != "read" || r.Ret == 0 || r.Err || r.Skip || x.updating(r.Op.M, r.Proc, r.Call, r.Ret) {
			continue
		}
		m := p.Metrics[r.Op.M]
		for _, pub := range x.Pubs {
			if pub.Proc != r.Proc || pub.ReadyAt == 0 || pub.ReadyAt > r.Call || pub.Parsed == nil || !x.registered(pub.C, r.Op.M, r.Proc, pub.ReadyAt) {
				continue
			}
			if end, _ := x.activeEnd(pub, pub.Proc); r.Ret > end {
				continue
			}
			busy := false // a start of the client is not over yet
			for _, q := range x.Recs {
				if q.Op.K == "start" && q.Op.C == pub.C && q.Proc == r.Proc && q.Call < r.Ret && (q.Ret == 0 || q.Ret > r.Call) {
					busy = true
				}
			}
			s := pub.slotOf(m.Name, r.Op.I)
			if busy || s < 0 {
				continue
			}
			if v := pub.at(s, r.Ret); v != r.Out {
				return fmt.Sprintf("metric %s[%s] reads %v, the file of the active client %s has %v", short(m.Name), r.Op.I, r.Out, p.Clients[pub.C].Name, v)
			}
		}
	}
	return ""
}

// startsSucceed: in programs without faults a start of a stopped client
// succeeds; for clients whose calls do not overlap.
func (x *Exec) startsSucceed() string {
	for proc := 1; proc <= x.nproc; proc++ {
		for c := range x.c.Prog.Clients {
			active := false
			if x.c.Prog.reg(c) != c {
				continue
			}
			for _, r := range x.Recs {
				if r.Proc != proc || x.c.Prog.reg(r.Op.C) != c || r.Skip || r.Ret == 0 || (r.Op.K != "start" && r.Op.K != "stop") {
					continue
				}
				if !x.lone(r, "start", "stop") {
					break
				}
				if r.Op.K == "start" {
					if r.Err && !active && r.Faults == 0 {
						return fmt.Sprintf("starting the stopped client %s fails: %s", x.c.Prog.Clients[r.Op.C].Name, r.ErrS)
					}
					active = active || !r.Err
				} else if !r.Err {
					active = false
				}
			}
		}
	}
	return ""
}

// lengths: the announced length is the size of the file.
func (x *Exec) lengths() string {
	for _, r := range x.Recs {
		if r.Op.K != "length" || r.Ret == 0 || r.Skip {
			continue
		}
		for _, pub := range x.Pubs {
			if pub.C != r.Op.C || pub.Proc != r.Proc || pub.ReadyAt == 0 || pub.ReadyAt > r.Call {
				continue
			}
			if end, _ := x.activeEnd(pub, r.Proc); r.Ret <= end && int(r.OutI) != len(pub.Bytes) {
				return fmt.Sprintf("client %s announces length %d, its file has %d bytes", x.c.Prog.Clients[r.Op.C].Name, r.OutI, len(pub.Bytes))
			}
		}
	}
	return ""
}

func first(l ...string) string {
	for _, s := range l {
		if s != "" {
			return s
		}
	}
	return ""
}

// ---- P01

func init() {
	def(&propDef{id: "P01", partial: true, gen: func(g *gen) *Case {
		v2 := g.ch(1, 3)
		nc := 1
		if g.ch(1, 5) {
			nc = 2
		}
		var pre, main [][]*Op
		total := 0
		for c := 0; c < nc; c++ {
			g.client()
			n := g.few(g.pickI(0, 1, 1, 2, 3, 4))
			total += n
			ms := g.metrics(n, v2)
			if g.ch(1, 4) {
				ms = append(ms, g.byString(g.ch(1, 2)))
			}
			reg := g.regAll(c, ms)
			if g.ch(1, 8) {
				reg = append(reg, &Op{K: "regindom", C: c, M: g.indom(v2)})
			}
			if g.ch(1, 8) {
				reg = append(reg, &Op{K: "setflag", C: c, N: int64(g.pickI(1, 2, 4))})
			}
			var late []*Op
			if len(reg) > 0 && g.ch(1, 3) { // some register while starting
				k := g.n(len(reg))
				late, reg = reg[k:], reg[:k]
			}
			pre = append(pre, reg)
			t := g.yields(g.n(3))
			t = append(t, op("start", c))
			for g.ch(1, 3) {
				t = append(t, op("stop", c), op("start", c))
			}
			if g.ch(1, 3) {
				t = append(t, op("stop", c))
			}
			main = append(main, t)
			if len(late) > 0 {
				main = append(main, late)
			}
			if len(ms) > 0 && g.ch(1, 3) {
				main = append(main, g.work(g.objects(ms), g.in(1, 5), 20, 10))
			}
		}
		if len(g.p.Clients) > 0 && g.ch(1, 6) {
			g.stale(0)
		}
		if g.ch(1, 15) {
			i := g.n(len(main))
			main[i] = g.anotherTime(main[i])
		}
		g.phase(pre...)
		ph := g.phase(main...)
		ph.Erase = g.ch(1, 2)
		if g.ch(2, 5) {
			ph.Crash = g.crash(total)
		} else if g.ch(1, 4) {
			ph.Faults = append(ph.Faults, g.startFault())
		}
		g.maybeStall(ph)
		if ph.Crash != nil && g.ch(1, 2) {
			var again [][]*Op
			for c := range pre {
				again = append(again, cat(pre[c], ops(op("start", c))))
			}
			q := g.phase(again...)
			q.NewProc, q.Pid = true, 777
			if g.ch(1, 3) {
				q.Crash = g.crash(total)
			}
		}
		return g.done("P01")
	}, check: nilCheck(func(x *Exec) string { return x.pubsComplete() })})

	// ---- P02
	def(&propDef{id: "P02", classes: "panic fault deadlock livelock", gen: func(g *gen) *Case {
		v2 := g.ch(1, 2)
		c := g.client()
		ms := g.metrics(g.amount(0, g.pickI(1, 2, 4, 6)), v2)
		for g.ch(1, 3) {
			ms = append(ms, g.byString(g.ch(1, 2)))
		}
		regs := g.regAll(c, ms)
		for i := range g.p.Indoms {
			if g.ch(1, 4) {
				regs = append(regs, &Op{K: "regindom", C: c, M: i})
			}
		}
		for g.ch(1, 3) {
			regs = append(regs, &Op{K: g.pick("regindom", "regindomname"), C: c, M: g.indom(v2)})
		}
		if g.ch(1, 3) {
			regs = append(regs, &Op{K: "setflag", C: c, N: int64(g.pickI(1, 2, 4))})
		}
		regs = g.shuffleOps(regs)
		k := len(regs)
		if g.ch(1, 2) {
			k = g.n(len(regs) + 1)
		}
		upd := func() []*Op {
			if len(ms) == 0 || g.ch(1, 3) {
				return nil
			}
			return g.work(g.objects(ms), g.in(1, 4), 10, 10)
		}
		t := cat(upd(), regs[:k], upd(), ops(op("start", c), op("length", c)), upd())
		for i, rounds := 0, g.pickI(0, 0, 1, 2); i < rounds; i++ {
			j := k + g.n(len(regs)-k+1)
			t = cat(t, ops(op("stop", c)), upd(), regs[k:j], upd(), ops(op("start", c), op("length", c)), upd())
			k = j
		}
		if g.ch(1, 6) {
			g.stale(c)
		}
		t = g.ask(t, ms)
		if g.ch(1, 10) {
			t = g.anotherTime(t)
		}
		ph := g.phase(t)
		ph.Erase = g.ch(1, 2)
		return g.done("P02")
	}, check: nilCheck(func(x *Exec) string {
		return first(x.attrsRight(), x.startsSucceed(), x.startContent(), x.startValues(), x.lengths())
	})})

	// ---- P03
	def(&propDef{id: "P03", gen: func(g *gen) *Case {
		g.live(g.in(1, 3), 40, 8, g.ch(1, 2))
		return g.done("P03")
	}, check: func(x *Exec) (string, int) { return x.checkValues(true, nil) }})

	// ---- P04
	def(&propDef{id: "P04", partial: true, gen: func(g *gen) *Case {
		g.live(g.in(1, 4), 5, 15, g.ch(1, 4), "single", "single", "inst", "counter", "gauge", "cvec", "gvec", "hist", "timer")
		return g.done("P04")
	}, check: nilCheck(checkTorn)})

	// ---- P05
	def(&propDef{id: "P05", classes: "panic fault", gen: func(g *gen) *Case {
		c := g.client()
		ms := g.metrics(g.pickI(1, 1, 2, 3), g.ch(1, 6), "single", "inst", "counter", "gauge", "cvec", "gvec", "counter", "gauge")
		pre := g.regAll(c, ms)
		if g.ch(1, 3) {
			pre = append(pre, op("start", c))
		}
		if g.ch(2, 3) {
			g.phase(pre)
		}
		var ts [][]*Op
		for i, n := 0, g.in(1, 4); i < n; i++ {
			ts = append(ts, g.work(ms, g.in(2, 7), 35, 15))
		}
		if len(g.p.Phases) > 0 && g.ch(1, 5) {
			ts = append(ts, cat(g.yields(g.n(4)), ops(op("stop", c), op("start", c))))
		}
		g.phase(ts...)
		var rd []*Op
		for _, m := range ms {
			for _, in := range g.p.instancesOf(m) {
				rd = append(rd, &Op{K: "read", M: m, I: in})
			}
		}
		g.phase(rd)
		return g.done("P05")
	}, check: func(x *Exec) (string, int) {
		return x.checkValues(false, func(m *MetricSpec) bool { return m.Kind != "hist" && m.Kind != "timer" })
	}})

	// ---- P06
	def(&propDef{id: "P06", gen: genCounters, check: nilCheck(checkMonotone)})

	// ---- P07
	def(&propDef{id: "P07", classes: "panic fault", gen: func(g *gen) *Case {
		c := g.client()
		ms := g.metrics(g.pickI(1, 1, 2), false, "hist")
		if g.ch(2, 3) {
			g.phase(cat(g.regAll(c, ms), g.work(ms, g.n(4), 30, 20), ops(op("start", c))))
		} else if g.ch(1, 2) {
			g.phase(g.regAll(c, ms))
		}
		var ts [][]*Op
		for i, n := 0, g.in(1, 4); i < n; i++ {
			ts = append(ts, g.work(ms, g.in(2, 6), 35, 15))
		}
		if len(g.p.Phases) > 0 && g.ch(1, 4) {
			ts = append(ts, cat(g.yields(g.n(6)), ops(op(g.pick("start", "stop"), c))))
		}
		g.phase(ts...)
		g.phase(cat(g.work(ms, 4, 70, 20), g.reads(ms)))
		return g.done("P07")
	}, check: func(x *Exec) (string, int) {
		return x.checkValues(true, func(m *MetricSpec) bool { return m.Kind == "hist" })
	}})

	// ---- P08
	def(&propDef{id: "P08", classes: "panic fault", gen: func(g *gen) *Case {
		c := g.client()
		ms := g.metrics(g.pickI(1, 1, 2), false, "timer")
		if g.ch(2, 3) {
			g.phase(cat(g.regAll(c, ms), ops(op("start", c))))
		} else if g.ch(1, 3) {
			g.phase(g.regAll(c, ms))
		}
		task := func(n int) (l []*Op) {
			for i := 0; i < n; i++ {
				switch g.n(7) {
				case 0, 1:
					l = append(l, &Op{K: "sleep", D: int64(g.pickI(1, 999, 1000000, 1500000000, 3600000000000, 12345))})
				case 2:
					l = append(l, &Op{K: "jump", D: []int64{-5e9, 7e9, -3600e9 * 24, 3600e9 * 1000, 1}[g.n(5)]})
				default:
					l = append(l, g.update(ms[g.n(len(ms))], false))
				}
			}
			return
		}
		var ts [][]*Op
		for i, n := 0, g.in(1, 3); i < n; i++ {
			ts = append(ts, task(g.in(2, 8)))
		}
		if len(g.p.Phases) > 0 && g.ch(1, 5) {
			ts = append(ts, cat(g.yields(g.n(6)), ops(op("stop", c), op("start", c))))
		}
		g.phase(ts...)
		g.phase(task(4))
		g.p.ZeroTick = true
		return g.done("P08")
	}, check: func(x *Exec) (string, int) {
		return x.checkValues(true, func(m *MetricSpec) bool { return m.Kind == "timer" })
	}})
}

// objects leaves out metrics that do not exist before registration.
func (g *gen) objects(ms []int) (l []int) {
	for _, m := range ms {
		if g.p.Metrics[m].ByString == "" {
			l = append(l, m)
		}
	}
	if len(l) == 0 {
		l = append(l, g.metric("counter", false))
	}
	return
}

func (g *gen) reads(ms []int) (l []*Op) {
	for _, m := range ms {
		s := g.p.Metrics[m]
		switch s.Kind {
		case "timer":
		case "hist":
			for _, k := range []string{"max", "min", "mean", "var", "sd", "buckets"} {
				l = append(l, &Op{K: k, M: m})
			}
			l = append(l, &Op{K: "pct", M: m, N: int64(g.pickI(50, 99))})
		default:
			for _, in := range g.p.instancesOf(m) {
				l = append(l, &Op{K: "read", M: m, I: in})
			}
		}
	}
	return
}

// stale puts a file at the place of a client's file.
func (g *gen) stale(c int) {
	p := g.p
	d := ""
	switch g.n(6) {
	case 0:
		d = "garbage"
	case 1:
		d = pad("MMV", g.in(3, 2000))
	case 2:
		d = "MMV\x00\x01\x00\x00\x00" + strings.Repeat("\x07\x00\x00\x00\x00\x00\x00\x00", 2) + strings.Repeat("\x00", g.pickI(16, 100, 5000))
	case 3:
		d = strings.Repeat("\xff", g.pickI(1, 500, 20000))
	}
	p.Files[p.Loc+"/"+p.Clients[c].Name] = d
	p.Dirs = append(p.Dirs, p.Loc)
}

// live makes a program with an active client and concurrent updates.
func (g *gen) live(nm int, pread, pbad int, during bool, kinds ...string) {
	c := g.client()
	ms := g.metrics(nm, g.ch(1, 5), kinds...)
	if g.ch(1, 6) {
		ms = append(ms, g.byString(g.ch(1, 2)))
	}
	reg := g.regAll(c, ms)
	before := g.work(g.objects(ms), g.in(0, 3), 10, 10)
	var ts [][]*Op
	if during {
		g.phase(cat(reg, before))
		ts = append(ts, cat(g.yields(g.n(3)), ops(op("start", c))))
	} else {
		g.phase(cat(reg, before, ops(op("start", c))))
	}
	for i, n := 0, g.in(1, 3); i < n; i++ {
		ts = append(ts, g.work(ms, g.in(2, 6), pread, pbad))
	}
	ph := g.phase(ts...)
	ph.Erase = g.ch(1, 2)
	g.maybeStall(ph)
	if g.ch(1, 6) {
		ph.Crash = g.crash(nm)
		return
	}
	switch g.n(4) {
	case 0:
		g.phase(cat(g.reads(ms)))
	case 1:
		g.phase(cat(g.work(ms, 2, 30, 10), g.reads(ms)))
	case 2: // stop, update, start again
		q := g.phase(cat(ops(op("stop", c)), g.work(ms, g.in(1, 4), 20, 10), ops(op("start", c)), g.work(ms, 2, 20, 10), g.reads(ms)))
		q.Erase = ph.Erase
	}
}

// ---- P04: torn and foreign values

func checkTorn(x *Exec) string {
	p := x.c.Prog
	for _, pub := range x.Pubs {
		if pub.ReadyAt == 0 || pub.Parsed == nil || pub.Proc == 0 {
			continue
		}
		end, _ := x.activeEnd(pub, pub.Proc)
		if x.CrashAt != 0 && pub.Proc == x.nproc {
			end = never
		}
		if pub.Alien != "" && pub.AlienAt <= end {
			return fmt.Sprintf("while client %s is active: %s", p.Clients[pub.C].Name, pub.Alien)
		}
		memo := map[int]func(CV) bool{}
		for s := range pub.slots {
			if bad := x.tornValue(pub, s, pub.read(s, pub.Bytes), pub.ReadyAt, memo); bad != "" {
				return bad
			}
		}
		for _, ch := range pub.Changes {
			if ch.At > end || ch.Proc != pub.Proc {
				continue
			}
			sl := &pub.slots[ch.Slot]
			if sl.Type != tString && (sl.Type == tInt32 || sl.Type == tUint32 || sl.Type == tFloat) && ch.Raw>>32 != 0 {
				return fmt.Sprintf("the upper half of the 32 bit value %s[%s] becomes %x", short(sl.Name), sl.Inst, ch.Raw)
			}
			busy := false
			for _, r := range x.Recs {
				if r.Proc != pub.Proc || r.Skip || !isUpdate(r.Op.K) || p.Metrics[r.Op.M].Name != sl.Name || r.Call >= ch.At || (r.Ret != 0 && r.Ret <= ch.At) {
					continue
				}
				if r.Op.I == sl.Inst || strings.HasSuffix(r.Op.K, "all") || p.Metrics[r.Op.M].Kind == "hist" {
					busy = true
				}
			}
			if !busy {
				return fmt.Sprintf("value %s[%s] changes to %v, no update of it is in progress", short(sl.Name), sl.Inst, ch.V)
			}
			if bad := x.tornValue(pub, ch.Slot, ch, ch.At, memo); bad != "" {
				return bad
			}
		}
	}
	return ""
}

// tornValue checks a published value against all values the metric can have
// had.
func (x *Exec) tornValue(pub *Pub, s int, ch Change, t int64, memo map[int]func(CV) bool) string {
	p := x.c.Prog
	sl := &pub.slots[s]
	m := -1
	for k := range p.Metrics {
		if p.Metrics[k].Name == sl.Name && x.registered(pub.C, k, pub.Proc, pub.ReadyAt) {
			m = k
		}
	}
	if m < 0 {
		return ""
	}
	sp := p.Metrics[m]
	bad := func() string {
		return fmt.Sprintf("the file shows %v for %s[%s], a value it never had", ch.V, short(sl.Name), sl.Inst)
	}
	if sl.Type == tString {
		ok := strings.HasPrefix(p.initOf(m, sl.Inst).S, ch.V.S)
		for _, r := range x.Recs {
			if r.Proc == pub.Proc && r.Op.M == m && r.Op.K == "set" && r.Op.I == sl.Inst && r.Call < t && len(r.Op.V.S) <= maxText && strings.HasPrefix(r.Op.V.S, ch.V.S) {
				ok = true
			}
		}
		if !ok {
			return bad()
		}
		return ""
	}
	if f := memo[s]; f != nil {
		if !f(ch.V) {
			return bad()
		}
		return ""
	}
	var f func(CV) bool
	switch sp.Kind {
	case "timer":
		f = func(v CV) bool { d := math.Float64frombits(v.U); return d >= 0 && d < 1e15 }
	case "hist":
		max, min := map[float64]bool{0: true}, map[float64]bool{0: true}
		low, high, sig := sp.hist()
		top := float64(high)
		for _, r := range x.Recs {
			if r.Op.M == m && (r.Op.K == "rec" || r.Op.K == "recn") && r.Op.N >= 0 {
				h := histogram.New(low, high, sig)
				if h.RecordValue(r.Op.N) != nil {
					continue
				}
				if v := float64(h.Max()); v > top {
					top = v
				}
				max[float64(h.Max())], min[float64(h.Min())] = true, true
			}
		}
		inst := sl.Inst
		f = func(v CV) bool {
			d := math.Float64frombits(v.U)
			switch inst {
			case "max":
				return max[d]
			case "min":
				return min[d]
			}
			return d == 0 || d > 1e-12 && d <= 4*top*top
		}
	case "counter", "gauge", "cvec", "gvec":
		fl := sp.Kind[0] == 'g'
		base := map[uint64]bool{p.initOf(m, sl.Inst).U: true}
		var incs []uint64
		for _, r := range x.Recs {
			if r.Proc != pub.Proc || r.Op.M != m || r.Skip || !isUpdate(r.Op.K) || (r.Op.I != sl.Inst && !strings.HasSuffix(r.Op.K, "all")) {
				continue
			}
			v := uint64(1)
			if r.Op.V != nil {
				v = uint64(r.Op.V.i64())
				if fl {
					d := r.Op.V.f64()
					if r.Op.K[0] == 'd' {
						d = -d
					}
					v = canonF64(d)
				}
			}
			if r.Op.K[0] == 's' {
				base[v] = true
			} else {
				incs = append(incs, v)
			}
		}
		if len(incs) > 12 {
			return ""
		}
		// any of them, in any order: sums of floats depend on it
		set := map[uint64]bool{}
		sums := make([]map[uint64]bool, 1<<uint(len(incs)))
		sums[0] = base
		size := 0
		for k := range sums {
			if size += len(sums[k]); size > 100000 {
				memo[s] = func(CV) bool { return true }
				return ""
			}
			for v := range sums[k] {
				set[v] = true
				for i, d := range incs {
					if j := k | 1<<uint(i); j != k {
						if sums[j] == nil {
							sums[j] = map[uint64]bool{}
						}
						if fl {
							sums[j][canonF64(math.Float64frombits(v)+math.Float64frombits(d))] = true
						} else {
							sums[j][v+d] = true
						}
					}
				}
			}
			sums[k] = nil
		}
		f = func(v CV) bool { return set[v.U] }
	default:
		set := map[uint64]bool{p.initOf(m, sl.Inst).U: true}
		for _, r := range x.Recs {
			if r.Proc == pub.Proc && r.Op.M == m && r.Op.K == "set" && r.Op.I == sl.Inst {
				if v, ok := accept(sp.Type, r.Op.V.goVal()); ok {
					set[v.U] = true
				}
			}
		}
		f = func(v CV) bool { return set[v.U] }
	}
	memo[s] = f
	if !f(ch.V) {
		return bad()
	}
	return ""
}

// ---- P06

func genCounters(g *gen) *Case {
	c := g.client()
	ms := g.metrics(g.pickI(1, 1, 2), g.ch(1, 8), "counter", "cvec")
	reg := g.regAll(c, ms)
	if g.ch(1, 3) { // one task: every refused update is followed by a read
		t := reg
		for i, n := 0, g.in(3, 10); i < n; i++ {
			m := ms[g.n(len(ms))]
			o := g.update(m, g.ch(1, 2))
			if g.ch(1, 4) && !strings.HasSuffix(o.K, "all") {
				o.K, o.Must = "set", false
				o.V = &Val{"int64", fmt.Sprint(math.MaxInt64 - int64(g.n(3)))}
			}
			if o.I == "" || strings.HasSuffix(o.K, "all") {
				t = append(t, g.reads(ops1(m))...)
				t = append(t, o)
				t = append(t, g.reads(ops1(m))...)
			} else {
				rd := Op{K: "read", M: m, I: o.I}
				a, b := rd, rd
				t = append(t, &a, o, &b)
			}
			if g.ch(1, 5) {
				t = append(t, op(g.pick("start", "stop"), c))
			}
		}
		g.phase(t)
		return g.done("P06")
	}
	if g.ch(1, 2) {
		reg = append(reg, op("start", c))
	}
	g.phase(reg)
	var ts [][]*Op
	for i, n := 0, g.in(1, 3); i < n; i++ {
		ts = append(ts, g.work(ms, g.in(2, 6), 40, 30))
	}
	if g.ch(1, 2) {
		t := cat(g.yields(g.n(5)), ops(op(g.pick("start", "stop"), c)))
		for g.ch(1, 2) {
			t = append(t, op(g.pick("start", "stop"), c))
		}
		ts = append(ts, t)
	}
	ph := g.phase(ts...)
	g.maybeStall(ph)
	if g.ch(1, 2) {
		g.phase(cat(ops(op("stop", c)), g.work(ms, g.in(0, 3), 30, 30), ops(op("start", c)), g.work(ms, g.in(0, 3), 30, 30), g.reads(ms)))
	}
	return g.done("P06")
}

func ops1(m int) []int { return []int{m} }

func checkMonotone(x *Exec) string {
	p := x.c.Prog
	for proc := 1; proc <= x.nproc; proc++ {
		for m, sp := range p.Metrics {
			if sp.Kind != "counter" && sp.Kind != "cvec" {
				continue
			}
			for _, in := range p.instancesOf(m) {
				if bad := x.monotone(m, in, proc); bad != "" {
					return bad
				}
			}
		}
	}
	return ""
}

func (x *Exec) monotone(m int, in string, proc int) string {
	p := x.c.Prog
	name := short(p.Metrics[m].Name)
	type obs struct {
		call, ret int64
		v         int64
		what      string
	}
	var low []obs // the value was at least v at ret
	low = append(low, obs{0, 0, int64(p.initOf(m, in).U), "initially"})
	solo := true
	var prev, prevRead *Rec
	for _, r := range x.Recs {
		if r.Proc != proc || r.Skip || r.Op.M != m || r.Op.K == "start" || r.Op.K == "stop" {
			continue
		}
		if len(x.c.Prog.Phases[r.Ph].Tasks) > 1 {
			solo = false
		}
		if r.Ret == 0 {
			continue
		}
		all := strings.HasSuffix(r.Op.K, "all")
		if !all && r.Op.I != in {
			continue
		}
		switch r.Op.K {
		case "read":
			if r.Err {
				continue
			}
			v := int64(r.Out.U)
			for _, o := range low {
				if o.ret < r.Call && o.v > v {
					return fmt.Sprintf("counter %s[%s] goes backwards: %d %s, then reads %d", name, in, o.v, o.what, v)
				}
			}
			low = append(low, obs{r.Call, r.Ret, v, "read"})
			if solo && prev != nil && prevRead != nil && prev.Err && !strings.HasSuffix(prev.Op.K, "all") && prev.Call > prevRead.Call && prevRead.Out != r.Out {
				return fmt.Sprintf("refused update %s changes counter %s[%s] from %d to %d", prev.Op, name, in, int64(prevRead.Out.U), v)
			}
			prevRead, prev = r, nil
			continue
		case "set", "setall":
			if !r.Err {
				low = append(low, obs{r.Call, r.Ret, r.Op.V.i64(), "set"})
			}
			if solo && !r.Err && prev == nil && prevRead != nil && r.Op.V.i64() < int64(prevRead.Out.U) {
				return fmt.Sprintf("counter %s[%s] with value %d accepts %s", name, in, int64(prevRead.Out.U), r.Op)
			}
		case "inc", "incall":
			d := r.Op.V.i64()
			if d < 0 && !r.Err {
				return fmt.Sprintf("counter %s[%s] accepts %s", name, in, r.Op)
			}
			if solo && !r.Err && prev == nil && prevRead != nil {
				if v := int64(prevRead.Out.U); d > 0 && v+d < v {
					return fmt.Sprintf("counter %s[%s] with value %d accepts %s", name, in, v, r.Op)
				}
			}
		}
		if prev != nil {
			prevRead = nil
		}
		prev = r
	}
	last, have := int64(0), false
	for _, pub := range x.Pubs {
		if pub.Proc != proc || pub.ReadyAt == 0 || pub.Parsed == nil || !x.registered(pub.C, m, proc, pub.ReadyAt) {
			continue
		}
		s := pub.slotOf(p.Metrics[m].Name, in)
		if s < 0 {
			continue
		}
		see := func(v CV) string {
			if have && int64(v.U) < last {
				return fmt.Sprintf("counter %s[%s] goes backwards in the file: %d, then %d", name, in, last, int64(v.U))
			}
			last, have = int64(v.U), true
			return ""
		}
		if bad := see(pub.read(s, pub.Bytes).V); bad != "" {
			return bad
		}
		for _, ch := range pub.Changes {
			if ch.Slot == s && ch.Proc == proc {
				if bad := see(ch.V); bad != "" {
					return bad
				}
			}
		}
	}
	return ""
}

var _ = vsim.Hash64
