package main

import (
	"fmt"
)

func (g *gen) regCounts(c int) []*Op {
	return ops(op("nmetrics", c), op("nvalues", c), op("nindoms", c), op("ninst", c), op("nstr", c))
}

func (g *gen) regQuery(c int) *Op {
	o := op(g.pick("nmetrics", "nvalues", "nindoms", "ninst", "nstr", "hasm", "hasi"), c)
	if o.K == "hasm" {
		o.I = "nosuch"
		if len(g.p.Metrics) > 0 {
			o.I = g.p.Metrics[g.n(len(g.p.Metrics))].Name
		}
	}
	if o.K == "hasi" {
		o.I = "nosuch"
		if len(g.p.Indoms) > 0 {
			o.I = g.p.Indoms[g.n(len(g.p.Indoms))].Name
		}
	}
	return o
}

// contest makes registrations, several of which are for the same name.
func (g *gen) contest(c int, v2 bool) (l []*Op) {
	n := g.in(1, 4)
	for i := 0; i < n; i++ {
		switch g.n(6) {
		case 0, 1: // one object, several times
			m := g.metric(allKinds[g.n(len(allKinds))], v2)
			for k := g.in(1, 3); k > 0; k-- {
				l = append(l, g.regOp(c, m))
			}
		case 2: // several objects of one name
			k := g.pick("single", "counter", "gauge", "timer", "hist")
			m := g.metric(k, v2)
			l = append(l, g.regOp(c, m))
			for j := g.in(1, 2); j > 0; j-- {
				m2 := g.metric(g.pick("single", "counter", "gauge", "timer"), false)
				g.p.Metrics[m2].Name = g.p.Metrics[m].Name
				l = append(l, g.regOp(c, m2))
			}
		case 3: // by string
			m := g.byString(g.ch(1, 2))
			if g.ch(1, 3) {
				g.spoil(g.p.Metrics[m])
			}
			for k := g.in(1, 2); k > 0; k-- {
				l = append(l, g.regOp(c, m))
			}
			if s := g.p.Metrics[m]; s.Kind == "inst" && !s.Bad && g.ch(1, 2) { // another metric of the same instance domain
				n := *s
				n.Name = s.BSIndom + ".w" + fmt.Sprint(g.n(1000))
				n.ByString = s.BSIndom + "[" + joinS(s.BSInst) + "]" + n.Name[len(s.BSIndom):]
				n.Init = map[string]Val{}
				for k := range s.Init {
					n.Init[k] = s.Init[k]
				}
				if !g.names[n.Name] {
					g.names[n.Name] = true
					g.p.Metrics = append(g.p.Metrics, &n)
					l = append(l, g.regOp(c, len(g.p.Metrics)-1))
				}
			}
			if s := g.p.Metrics[m]; s.Kind == "inst" && !s.Bad && g.ch(1, 3) { // an instance named twice
				n := *s
				n.Name = s.BSIndom + ".t" + fmt.Sprint(g.n(1000))
				n.BSInst = append([]string(nil), s.BSInst...)
				if k := len(n.BSInst); k > 1 && g.ch(1, 2) {
					n.BSInst[k-1] = n.BSInst[0] // instead of another one
				} else {
					n.BSInst = append(n.BSInst, n.BSInst[g.n(k)])
				}
				n.ByString = s.BSIndom + "[" + joinS(n.BSInst) + "]" + n.Name[len(s.BSIndom):]
				n.Init = map[string]Val{}
				for k := range s.Init {
					n.Init[k] = s.Init[k]
				}
				n.Bad = len(uniq(n.BSInst)) != len(n.Init)
				if !g.names[n.Name] {
					g.names[n.Name] = true
					g.p.Metrics = append(g.p.Metrics, &n)
					l = append(l, g.regOp(c, len(g.p.Metrics)-1))
				}
			}
		case 4: // instance domains of one name
			d := g.indom(v2)
			l = append(l, &Op{K: "regindom", C: c, M: d})
			for k := g.in(0, 2); k > 0; k-- {
				l = append(l, &Op{K: g.pick("regindom", "regindomname"), C: c, M: d})
			}
			if g.ch(1, 2) { // a metric on it
				m := g.metricOn(d)
				l = append(l, g.regOp(c, m))
			}
			if g.ch(1, 3) { // the same name, other instances
				s := g.p.Indoms[d]
				s.Inst = append([]string{"other"}, s.Inst...)
				g.p.Indoms = append(g.p.Indoms, s)
				d2 := len(g.p.Indoms) - 1
				if g.ch(1, 2) {
					l = append(l, &Op{K: "regindom", C: c, M: d2})
				} else {
					l = append(l, g.regOp(c, g.metricOn(d2)))
				}
			}
			if len(g.p.Indoms[d].Inst) > 1 && g.ch(1, 4) { // the same number of instances, other names
				s := g.p.Indoms[d]
				s.Inst = append([]string{"different"}, s.Inst[1:]...)
				g.p.Indoms = append(g.p.Indoms, s)
				l = append(l, g.regOp(c, g.metricOn(len(g.p.Indoms)-1)))
			}
		case 5: // metrics on one instance domain
			d := g.indom(v2)
			for k := g.in(1, 3); k > 0; k-- {
				l = append(l, g.regOp(c, g.metricOn(d)))
			}
		}
	}
	return
}

func joinS(l []string) string {
	s := ""
	for i, x := range l {
		if i > 0 {
			s += ","
		}
		s += x
	}
	return s
}

// metricOn makes an instance metric on an instance domain.
func (g *gen) metricOn(d int) int {
	m := &MetricSpec{Kind: "inst", Name: g.name(g.ch(1, 8)), Short: g.text(), Type: g.n(7), Sem: g.n(3), Unit: g.n(len(unitSpecs)), Indom: d, Init: map[string]Val{}}
	for _, i := range g.p.Indoms[d].Inst {
		m.Init[i] = g.val(m.Type)
	}
	g.p.Metrics = append(g.p.Metrics, m)
	return len(g.p.Metrics) - 1
}

// statusRules: what a start or stop that overlaps no other leaves behind.
func (x *Exec) statusRules() string {
	p := x.c.Prog
	for _, r := range x.Recs {
		if (r.Op.K != "start" && r.Op.K != "stop") || r.Ret == 0 || r.Skip || !x.lone(r, "start", "stop") {
			continue
		}
		n := p.Clients[r.Op.C].Name
		erase := p.Phases[r.Ph].Erase
		switch {
		case r.Op.K == "start" && !r.Err:
			if r.Status != stReady || r.File == nil {
				return fmt.Sprintf("after starting client %s its file is %s: %v", n, r.Status, r.FileErr)
			}
		case r.Op.K == "start" && r.Faults == 0:
			if r.InoCall != r.InoRet || !p.shares(r.Op.C) && (r.Status != stReady || r.File == nil) {
				return fmt.Sprintf("a refused start of client %s (%s) changes the file", n, r.ErrS)
			}
		case r.Op.K == "stop" && !r.Err && erase:
			if r.Status != stAbsent {
				return fmt.Sprintf("after stopping client %s its file is still there", n)
			}
		case r.Op.K == "stop" && !r.Err:
			if r.Status != stReady || r.File == nil {
				return fmt.Sprintf("after stopping client %s the file that should stay is %s: %v", n, r.Status, r.FileErr)
			}
		}
	}
	return ""
}

// afterStop: a file that stays after stop does not change any more.
func (x *Exec) afterStop() string {
	for _, pub := range x.Pubs {
		if pub.ReadyAt == 0 || pub.Proc == 0 {
			continue
		}
		for _, r := range x.Recs {
			if r.Op.K != "stop" || r.Err || r.Ret == 0 || r.Proc != pub.Proc || r.Op.C != pub.C || r.Call < pub.ReadyAt || !x.lone(r, "start", "stop") {
				continue
			}
			for _, ch := range pub.Changes {
				if ch.At > r.Ret {
					return fmt.Sprintf("value %s changes in the file after client %s is stopped", short(pub.slots[ch.Slot].Name), x.c.Prog.Clients[pub.C].Name)
				}
			}
			break
		}
	}
	return ""
}

func init() {
	// ---- P09
	def(&propDef{id: "P09", classes: "panic fault", gen: func(g *gen) *Case {
		c := g.client()
		v2 := g.ch(1, 4)
		l := g.contest(c, v2)
		for len(l) > 14 {
			l = l[:14]
		}
		for k := g.n(4); k > 0; k-- {
			l = append(l, g.regQuery(c))
		}
		l = g.shuffleOps(l)
		if g.ch(1, 6) {
			g.phase(l)
		} else {
			g.phase(g.split(l, g.in(2, 4))...)
		}
		q := g.regCounts(c)
		for range g.p.Metrics {
			q = append(q, g.regQuery(c))
		}
		g.phase(q)
		return g.done("P09")
	}, check: func(x *Exec) (string, int) { return x.checkRegistry(false) }})

	// ---- P10
	def(&propDef{id: "P10", classes: "panic fault deadlock livelock", gen: func(g *gen) *Case {
		c := g.client()
		v2 := g.ch(1, 4)
		l := g.contest(c, v2)
		for len(l) > 9 {
			l = l[:9]
		}
		if g.ch(1, 2) {
			l = append(l, &Op{K: "setflag", C: c, N: int64(g.pickI(1, 2, 4))})
		}
		l = g.shuffleOps(l)
		k := g.n(len(l) + 1)
		if g.ch(1, 3) {
			g.phase(cat(l[:k], ops(op("start", c))))
		} else {
			g.phase(l[:k])
		}
		ts := g.split(l[k:], g.in(1, 3))
		t := cat(g.yields(g.n(3)), ops(op("start", c)))
		for g.ch(1, 3) {
			t = append(t, op("stop", c), op("start", c))
		}
		ts = append(ts, t)
		if g.ch(1, 3) {
			ts = append(ts, ops(g.regQuery(c), op("length", c), g.regQuery(c)))
		}
		ph := g.phase(ts...)
		ph.Erase = g.ch(1, 2)
		g.maybeStall(ph)
		if g.ch(2, 3) {
			more := g.contest(c, false)
			if len(more) > 4 {
				more = more[:4]
			}
			again := append([]*Op{}, cloneOps(l[k:])...)
			if len(again) > 3 {
				again = again[:3]
			}
			q := g.phase(cat(more[:1], ops(op("stop", c)), again, more[1:], ops(op("start", c))))
			q.Erase = ph.Erase
		}
		return g.done("P10")
	}, check: func(x *Exec) (string, int) {
		if bad := first(x.startContent(), x.pubsComplete()); bad != "" {
			return bad, 0
		}
		return x.checkRegistry(false)
	}})

	// ---- P11
	def(&propDef{id: "P11", classes: "panic fault deadlock livelock", gen: func(g *gen) *Case {
		c := g.client()
		ms := g.metrics(g.pickI(0, 1, 1, 2), false)
		reg := g.regAll(c, ms)
		if g.ch(1, 2) {
			reg = append(reg, op("start", c))
		}
		g.phase(reg)
		erase := g.ch(1, 2)
		if g.ch(4, 5) {
			var ts [][]*Op
			for i, n := 0, g.in(2, 4); i < n; i++ {
				var t []*Op
				for k := g.in(1, 3); k > 0; k-- {
					t = append(t, &Op{K: g.pick("start", "stop"), C: c, Must: g.ch(1, 10)})
				}
				ts = append(ts, t)
			}
			if len(ms) > 0 && g.ch(1, 3) {
				ts = append(ts, g.work(ms, g.in(1, 4), 30, 10))
			}
			if g.ch(1, 4) {
				ts = append(ts, ops(&Op{K: "setflag", C: c, N: 4}))
			}
			if g.ch(1, 4) {
				if l := g.contest(c, false); len(l) > 3 {
					ts = append(ts, l[:3])
				} else {
					ts = append(ts, l)
				}
			}
			ph := g.phase(ts...)
			ph.Erase = erase
			g.maybeStall(ph)
		}
		var t []*Op
		for i, n := 0, g.in(1, 4); i < n; i++ {
			t = append(t, op(g.pick("start", "stop", "start"), c))
			if g.ch(1, 4) {
				t = append(t, g.pause())
			}
			if len(ms) > 0 && g.ch(1, 2) {
				t = cat(t, g.work(ms, 1, 10, 10), g.reads(ms))
			}
		}
		t = append(t, op("stop", c))
		if g.ch(1, 3) {
			t = append(t, g.pause())
		}
		t = append(t, op("start", c))
		if len(ms) > 0 {
			t = cat(t, g.work(ms, 2, 10, 10), g.reads(ms))
		}
		if g.ch(1, 2) {
			t = append(t, op("stop", c))
		}
		g.phase(t).Erase = erase
		return g.done("P11")
	}, check: func(x *Exec) (string, int) {
		bad, inc := x.checkRegistry(false)
		return first(bad, x.statusRules(), x.fileStays(), x.pubsWellFormed(), x.fileEqualsReads(), x.generations()), inc
	}})

	// ---- P12
	def(&propDef{id: "P12", classes: "panic fault deadlock", gen: genFailStart, check: nilCheck(checkFailStart)})

	// ---- P13
	def(&propDef{id: "P13", classes: "panic fault", gen: func(g *gen) *Case {
		c := g.client()
		ms := g.metrics(g.few(g.in(1, 3)), g.ch(1, 8))
		g.phase(cat(g.regAll(c, ms), g.work(ms, g.n(3), 10, 10), ops(op("start", c)), g.work(ms, g.n(3), 10, 10)))
		erase := g.ch(1, 2)
		t := cat(g.yields(g.n(6)), ops(op("stop", c)))
		more := func() (t []*Op) { // metrics that come later
			if g.ch(1, 3) {
				l := g.metrics(1, false)
				t, ms = g.regAll(c, l), append(ms[:len(ms):len(ms)], l...)
			}
			return t
		}
		for g.ch(1, 3) {
			t = cat(t, more(), ops(op("start", c), op("stop", c)))
		}
		ts := [][]*Op{t}
		for i, n := 0, g.in(1, 3); i < n; i++ {
			ts = append(ts, g.work(g.objects(ms), g.in(2, 6), 25, 10))
		}
		ph := g.phase(ts...)
		ph.Erase = erase
		g.maybeStall(ph)
		if g.ch(2, 3) {
			q := cat(g.work(g.objects(ms), g.in(0, 4), 25, 10), more(), ops(op("start", c)), g.work(g.objects(ms), g.in(0, 3), 25, 10), g.reads(ms))
			if g.ch(1, 2) {
				q = cat(q, ops(op("stop", c)), g.work(g.objects(ms), 3, 30, 10))
			}
			g.phase(q).Erase = erase
		}
		return g.done("P13")
	}, check: func(x *Exec) (string, int) {
		bad, inc := x.checkValues(true, nil)
		return first(bad, x.statusRules(), x.afterStop(), x.startValues()), inc
	}})

	// ---- P14
	def(&propDef{id: "P14", classes: "panic fault deadlock livelock", gen: func(g *gen) *Case {
		c := g.client()
		ms := g.metrics(g.few(g.in(0, 3)), g.ch(1, 4))
		if g.ch(1, 5) {
			g.stale(c)
		}
		if g.ch(9, 10) {
			for n := g.in(1, 2); n > 0; n-- {
				t := cat(g.regAll(c, ms), ops(op("start", c)))
				if len(ms) > 0 {
					t = append(t, g.work(ms, g.in(0, 4), 20, 10)...)
				}
				if g.ch(1, 3) {
					t = append(t, op("stop", c))
					if g.ch(1, 2) {
						t = append(t, op("start", c))
					}
				}
				ph := g.phase(t)
				ph.NewProc, ph.Pid = true, 100+n
				ph.Erase = g.ch(1, 2)
				if g.ch(5, 6) {
					ph.Crash = g.crash(len(ms))
				}
				if g.ch(1, 6) {
					ph.Faults = append(ph.Faults, g.startFault())
				}
			}
		}
		t := cat(g.regAll(c, ms), ops(op("start", c)))
		if g.ch(1, 4) {
			t = append(t, g.regAll(c, g.metrics(1, false))...)
			t = append(t[:len(t)-2], t[len(t)-1], op("start", c))
		}
		if len(ms) > 0 {
			t = append(t, g.work(ms, g.in(0, 4), 20, 10)...)
		}
		if g.ch(1, 3) {
			t = append(t, op("stop", c), op("start", c))
		}
		ph := g.phase(t)
		ph.NewProc, ph.Pid, ph.Erase = true, g.in(1000, 1003), g.ch(1, 2)
		return g.done("P14")
	}, check: nilCheck(func(x *Exec) string {
		for _, p := range x.Pubs {
			if p.Touched != "" {
				return p.Touched
			}
		}
		return first(x.startsSucceed(), x.startContent(), x.startValues(), x.newStarts())
	})})

	// ---- P15
	def(&propDef{id: "P15", classes: "panic fault deadlock livelock", gen: func(g *gen) *Case {
		nc := g.in(2, 3)
		g.late = g.ch(1, 2)
		whole := g.ch(1, 3) // from the making of the clients on, all at once
		churn := g.ch(1, 3) // little else than starting and stopping
		shared := -1
		if g.ch(1, 2) {
			shared = g.indom(false)
		}
		var regs, run [][]*Op
		var mss [][]int
		for c := 0; c < nc; c++ {
			g.client()
			n := g.few(g.in(0, 2))
			if churn {
				n = g.n(2)
			}
			ms := g.metrics(n, g.ch(1, 6))
			if g.ch(1, 2) && !churn {
				ms = append(ms, g.metric("hist", false))
			}
			if shared >= 0 && g.ch(3, 4) {
				ms = append(ms, g.metricOn(shared))
			}
			if len(ms) == 0 {
				ms = append(ms, g.metric("counter", false))
			}
			mss = append(mss, ms)
			reg := g.regAll(c, ms)
			if g.late && g.ch(1, 2) {
				g.p.Clients[c].Late = true
				reg = cat(ops(op("mkc", c)), reg)
			}
			regs = append(regs, reg)
			t := ops(op("start", c))
			for churn && g.ch(2, 3) {
				t = append(t, op("stop", c), op("start", c))
			}
			if !churn || g.ch(1, 3) {
				t = append(t, cat(g.work(ms, g.in(0, 3), 10, 10), g.reads(ms))...)
			}
			for g.ch(1, 3) {
				t = cat(t, ops(op("stop", c)), g.work(ms, g.n(2), 10, 10), ops(op("start", c)), g.work(ms, g.in(0, 2), 10, 10), g.reads(ms))
			}
			if g.ch(1, 4) {
				t = append(t, op("stop", c))
			}
			run = append(run, t)
		}
		erase := g.ch(1, 2)
		if whole {
			for i := range run {
				run[i] = cat(regs[i], run[i])
			}
		} else {
			g.phase(regs...)
		}
		if !whole && g.ch(1, 4) { // one is active before
			k := g.n(nc)
			g.phase(ops(op("start", k)))
			run[k] = run[k][1:]
		}
		ph := g.phase(run...)
		ph.Erase = erase
		g.maybeStall(ph)
		g.phase(func() (l []*Op) {
			for _, ms := range mss {
				l = append(l, g.work(ms, 1, 10, 10)...)
				l = append(l, g.reads(ms)...)
			}
			return
		}()).Erase = erase
		return g.done("P15")
	}, check: nilCheck(func(x *Exec) string {
		return first(x.startsSucceed(), x.startContent(), x.startValues(), x.pubsComplete(), x.fileStays(), x.statusRules(), x.fileEqualsReads())
	})})
}

func cloneOps(l []*Op) (o []*Op) {
	for _, x := range l {
		c := *x
		o = append(o, &c)
	}
	return
}

func (x *Exec) pubsWellFormed() string {
	for _, p := range x.Pubs {
		if p.ReadyAt != 0 && p.Proc != 0 && p.ParseErr != nil {
			return fmt.Sprintf("the published file of %s: %v", x.c.Prog.Clients[p.C].Name, p.ParseErr)
		}
		if m := p.Ino.Mode.Perm(); p.ReadyAt != 0 && p.Proc != 0 && m&0444 != 0444 {
			return fmt.Sprintf("the published file of %s has the permissions %o, readers of other users cannot open it", x.c.Prog.Clients[p.C].Name, m)
		}
	}
	return ""
}

// newStarts: what a new process publishes replaces the old file.
func (x *Exec) newStarts() string {
	for _, r := range x.Recs {
		if r.Op.K == "start" && !r.Err && r.Ret != 0 && r.InoCall != 0 && r.InoCall == r.InoRet && x.lone(r, "start", "stop") {
			return "starting rewrites the old file instead of replacing it"
		}
	}
	return ""
}

func genFailStart(g *gen) *Case {
	c := g.client()
	ms := g.metrics(g.few(g.in(0, 3)), g.ch(1, 5))
	stale := g.ch(1, 3)
	if stale {
		g.stale(c)
	}
	pre := g.regAll(c, ms)
	if len(ms) > 0 {
		pre = append(pre, g.work(ms, g.n(4), 10, 10)...)
	}
	if g.ch(1, 3) { // it was active before
		pre = append(pre, op("start", c), op("stop", c))
	}
	g.phase(pre).Erase = g.ch(1, 2)
	for n := g.in(1, 3); n > 0; n-- {
		rd := func() []*Op { return g.reads(ms) }
		fl := g.startFault()
		arm := ops(&Op{K: "arm", F: append([]simFault{}, fl)})
		t := cat(arm, ops(op("start", c)), ops(op("disarm", c)))
		if g.ch(1, 3) {
			t = append(t, op("stop", c)) // refused unless the fault did not matter
		}
		if g.ch(1, 3) && len(ms) > 0 { // concurrent use of the metrics
			ph := g.phase(cat(g.yields(g.n(2)), t), g.work(ms, g.in(1, 5), 30, 10))
			if g.ch(1, 4) {
				ph.Capacity = g.pickI(-1, 1, 100, 600)
			}
		} else {
			ph := g.phase(cat(rd(), t, rd()))
			if g.ch(1, 4) {
				ph.Capacity = g.pickI(-1, 1, 100, 600)
			}
		}
	}
	var t []*Op
	if g.ch(1, 2) {
		t = append(t, g.regAll(c, g.metrics(1, false))...)
	}
	if g.ch(1, 3) {
		t = append(t, &Op{K: "setflag", C: c, N: 4})
	}
	if len(ms) > 0 {
		t = append(t, g.work(ms, g.n(3), 20, 10)...)
	}
	// an earlier start may have succeeded in spite of the fault
	t = cat(t, ops(op("start", c), op("stop", c), op("start", c)), g.reads(ms))
	g.phase(t)
	return g.done("P12")
}

func checkFailStart(x *Exec) string {
	p := x.c.Prog
	active := false
	reads := map[string]*Rec{}
	var last *Rec // last failed start
	for _, r := range x.Recs {
		if r.Ret == 0 || r.Skip {
			continue
		}
		if isUpdate(r.Op.K) && r.Op.K != "start" && r.Op.K != "stop" {
			for k, q := range reads {
				if q.Op.M == r.Op.M {
					delete(reads, k)
				}
			}
		}
		switch r.Op.K {
		case "start":
			if r.Err {
				if active {
					continue
				}
				if r.Faults == 0 {
					if last != nil {
						return fmt.Sprintf("after a failed start (%s) and without a fault a further start fails: %s", last.ErrS, r.ErrS)
					}
					return fmt.Sprintf("a start fails without a fault: %s", r.ErrS)
				}
				last = r
				for _, q := range x.Pubs {
					if q.ReadyAt > r.Call && q.ReadyAt < r.Ret {
						return fmt.Sprintf("a start that fails (%s) leaves a file that readers accept", r.ErrS)
					}
				}
				if r.Handles != 0 || r.Maps != 0 {
					return fmt.Sprintf("a start that fails (%s) leaves %d file handles and %d mappings open", r.ErrS, r.Handles, r.Maps)
				}
			} else {
				active = true
				if r.File == nil {
					return fmt.Sprintf("start reports success, the file is %s: %v", r.Status, r.FileErr)
				}
			}
		case "stop":
			if r.Err && active {
				return fmt.Sprintf("stopping the client fails: %s", r.ErrS)
			}
			if !r.Err && !active {
				return "a client whose start failed can be stopped"
			}
			active = false
		case "reg", "setflag":
			if r.Ph == len(p.Phases)-1 && r.Err && !active {
				return fmt.Sprintf("after a failed start %s fails: %s", r.Op.K, r.ErrS)
			}
		case "read":
			k := fmt.Sprint(r.Op.M, r.Op.I)
			if q := reads[k]; q != nil && !r.Err && q.Out != r.Out && !x.updating(r.Op.M, r.Proc, q.Call, r.Ret) {
				return fmt.Sprintf("metric %s reads %v before and %v after a start that failed", short(p.Metrics[r.Op.M].Name), q.Out, r.Out)
			}
			if !r.Err {
				reads[k] = r
			}
		}
	}
	return first(x.startContent(), x.startValues())
}

// pause lets simulated time pass.
func (g *gen) pause() *Op {
	return &Op{K: "sleep", D: int64(g.pickI(1, 999999, 1000000000, 1500000000, 7200000000000))}
}

// generations: files that were started in different seconds carry different
// generation numbers, or a reader would take the new one for the old.
func (x *Exec) generations() string {
	for _, ph := range x.c.Prog.Phases {
		for _, t := range ph.Tasks {
			for _, o := range t {
				if o.K == "jump" {
					return ""
				}
			}
		}
	}
	gen := func(p *Pub) uint64 { return le.Uint64(p.Bytes[8:]) }
	for i, b := range x.Pubs {
		if b.ReadyAt == 0 {
			continue
		}
		began := b.ReadyNs
		for _, r := range x.Recs {
			if r.Proc == b.Proc && r.Op.K == "start" && r.Op.C == b.C && r.Call <= b.ReadyAt && (r.Ret == 0 || r.Ret >= b.ReadyAt) && r.CallNs < began {
				began = r.CallNs
			}
		}
		for _, a := range x.Pubs[:i] {
			if a.ReadyAt != 0 && a.C == b.C && began-a.ReadyNs >= 1e9 && gen(a) == gen(b) {
				return fmt.Sprintf("the files of %s that were started at %d and %d s carry the same generation number %d", x.c.Prog.Clients[b.C].Name, a.ReadyNs/1e9, began/1e9, gen(a))
			}
		}
	}
	return ""
}
