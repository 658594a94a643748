package main

import (
	"fmt"
)

// ---- P26: clients with one registry

func genTurns(g *gen) *Case {
	c := g.client()
	g.p.Clients[c].Own = true
	cs := []int{c}
	var pre []*Op
	for n := g.pickI(1, 1, 1, 2); n > 0; n-- {
		d := g.client()
		g.p.Clients[d].Own, g.p.Clients[d].With = true, 1+cs[g.n(len(cs))]
		cs = append(cs, d)
	}
	any := func() int { return cs[g.n(len(cs))] }
	if g.ch(1, 6) {
		g.stale(any())
	}
	ms := g.metrics(g.in(1, 3), g.ch(1, 6))
	if g.ch(1, 5) {
		ms = append(ms, g.byString(g.ch(1, 2)))
	}
	var reg []*Op
	if g.ch(1, 3) {
		l := g.contest(c, false)
		if len(l) > 4 {
			l = l[:4]
		}
		reg = cat(reg, l)
	}
	reg = cat(reg, g.regAll(c, ms))
	if g.ch(1, 4) {
		reg = g.shuffleOps(reg)
	}
	last := cs[len(cs)-1]
	k := g.n(len(reg) + 1) // the last client may be made after some of the registrations
	if g.ch(1, 3) {
		g.p.Clients[last].Late = true
		pre = cat(pre, reg[:k], ops(op("mkc", last)), reg[k:])
	} else {
		pre = reg
	}
	for _, o := range pre {
		if o.K == "mkc" {
			break
		}
		if o.C = c; last == c || !g.p.Clients[last].Late {
			o.C = any()
		} else if len(cs) > 2 {
			o.C = cs[g.n(len(cs)-1)]
		}
	}
	for i, o := range pre {
		if o.K == "mkc" {
			for _, o := range pre[i+1:] {
				o.C = any()
			}
		}
	}
	g.phase(cat(pre, g.work(g.objects(ms), g.n(3), 10, 10)))
	erase := g.ch(1, 2)
	calls := func(n int) (t []*Op) {
		for ; n > 0; n-- {
			switch g.n(9) {
			case 0, 1, 2, 3:
				t = append(t, &Op{K: "start", C: any(), Must: g.ch(1, 10)})
			case 4, 5, 6:
				t = append(t, &Op{K: "stop", C: any(), Must: g.ch(1, 10)})
			case 7:
				if g.ch(1, 2) {
					t = append(t, &Op{K: "setflag", C: any(), N: int64(g.pickI(1, 2, 4))})
				} else {
					t = append(t, op("length", any()))
				}
			default:
				t = cat(t, g.work(ms, 1, 30, 10))
			}
		}
		return
	}
	for n := g.in(1, 2); n > 0; n-- {
		var ts [][]*Op
		switch g.n(4) {
		case 0: // one task, all kinds of calls
			ts = append(ts, calls(g.in(4, 12)))
		case 1: // every client has a task
			for _, d := range cs {
				var t []*Op
				for k := g.in(1, 2); k > 0; k-- {
					t = cat(t, g.yields(g.n(2)), ops(op("start", d)), g.work(ms, g.n(3), 20, 10), ops(op("stop", d)))
				}
				ts = append(ts, t[:g.in(1, len(t))])
			}
		case 2:
			for k := g.in(2, 3); k > 0; k-- {
				ts = append(ts, calls(g.in(1, 4)))
			}
		case 3: // one after the other
			var t []*Op
			for k := g.in(1, 3); k > 0; k-- {
				d := any()
				t = cat(t, ops(op("start", d)), calls(g.n(3)), g.work(ms, g.n(3), 30, 10), ops(op("stop", d)), g.work(ms, g.n(3), 30, 10))
				if g.ch(1, 3) {
					m := g.metrics(1, false)
					l := g.regAll(any(), m)
					t = cat(t, l)
				}
			}
			ts = append(ts, t)
		}
		if g.ch(1, 3) {
			ts = append(ts, g.work(g.objects(ms), g.in(1, 4), 30, 10))
		}
		if g.ch(1, 5) { // registrations while it goes on
			m := g.metrics(1, false)
			ts = append(ts, cat(g.regAll(any(), m), ops(g.regQuery(any()))))
		}
		ph := g.phase(ts...)
		ph.Erase = erase
		g.maybeStall(ph)
	}
	// whoever is active stops; then each of them can be started
	var t []*Op
	for _, d := range cs {
		t = append(t, op("stop", d))
	}
	for k := g.in(1, 2); k > 0; k-- {
		d := any()
		t = cat(t, g.work(g.objects(ms), g.n(2), 20, 10))
		if g.ch(1, 4) { // a start that fails does not keep the others from starting
			e := any()
			t = append(t, &Op{K: "arm", F: append([]simFault{}, g.startFault())}, op("start", e), op("disarm", e), op("stop", e))
		}
		t = cat(t, ops(op("start", d)), g.work(g.objects(ms), g.n(3), 20, 10), g.reads(ms), ops(op("stop", d)))
	}
	g.phase(t).Erase = erase
	return g.done("P26")
}

// turns: what is refused changes nothing, and what one client leaves the
// others leave alone.
func (x *Exec) turns() string {
	p := x.c.Prog
	for _, r := range x.Recs {
		if r.Ret == 0 || r.Skip || !r.Err || r.Faults > 0 || (r.Op.K != "start" && r.Op.K != "stop") || !x.lone(r, "start", "stop") {
			continue
		}
		if r.InoCall != r.InoRet {
			return fmt.Sprintf("a refused %s of client %s (%s) replaces its file", r.Op.K, p.Clients[r.Op.C].Name, r.ErrS)
		}
	}
	for _, pub := range x.Pubs {
		if pub.ReadyAt == 0 || pub.Proc == 0 {
			continue
		}
		end, _ := x.activeEnd(pub, pub.Proc)
		own := func(t int64) bool { // during a start or a stop of the client itself
			for _, r := range x.Recs {
				if r.Op.C == pub.C && (r.Op.K == "start" || r.Op.K == "stop") && r.Call <= t && (r.Ret == 0 || r.Ret >= t) {
					return true
				}
			}
			return false
		}
		n := p.Clients[pub.C].Name
		switch {
		case pub.Alien != "" && pub.AlienAt > end && !own(pub.AlienAt):
			return fmt.Sprintf("the file of the stopped client %s changes: %s", n, pub.Alien)
		case pub.Gone > end && !own(pub.Gone):
			return fmt.Sprintf("the file of the stopped client %s vanishes or is replaced by calls of others", n)
		}
	}
	// at every time at most one file is that of an active client
	for _, a := range x.Pubs {
		for _, b := range x.Pubs {
			if a == b || a.C == b.C || a.ReadyAt == 0 || b.ReadyAt == 0 || a.Proc != b.Proc || a.Proc == 0 || b.ReadyAt < a.ReadyAt || p.reg(a.C) != p.reg(b.C) {
				continue
			}
			if end, _ := x.activeEnd(a, a.Proc); b.ReadyAt < end {
				return fmt.Sprintf("client %s publishes while client %s, which has the same registry, is active", p.Clients[b.C].Name, p.Clients[a.C].Name)
			}
		}
	}
	return ""
}

func init() {
	def(&propDef{id: "P26", classes: "panic fault deadlock livelock", gen: genTurns, check: func(x *Exec) (string, int) {
		bad, inc := x.checkRegistry(true)
		bad = first(bad, x.turns(), x.startsSucceed(), x.statusRules(), x.pubsComplete(), x.fileStays(), x.afterStop(), x.lengths(), x.startContent(), x.startValues(), x.fileEqualsReads())
		if bad != "" {
			return bad, inc
		}
		bad, n := x.checkValues(true, nil)
		return bad, inc + n
	}})
}
