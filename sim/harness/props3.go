package main

import (
	"fmt"
	"strings"

	"verif/sim/simfs"
	"verif/sim/vsim"
)

// genMix makes programs that use everything at once.
func genMix(g *gen, id string) *Case {
	nc := g.pickI(1, 1, 2)
	v2 := g.ch(1, 4)
	g.late = g.ch(1, 3)
	var all [][]*Op
	var mss [][]int
	for c := 0; c < nc; c++ {
		g.client()
	}
	if nc > 1 && g.ch(1, 3) { // one registry
		g.p.Clients[0].Own, g.p.Clients[1].Own, g.p.Clients[1].With = true, true, 1
	}
	shared := -1
	if nc > 1 && g.ch(1, 2) {
		shared = g.indom(false)
	}
	for c := 0; c < nc; c++ {
		ms := g.metrics(g.few(g.in(1, 3)), v2)
		if shared >= 0 {
			ms = append(ms, g.metricOn(shared))
		}
		mss = append(mss, ms)
		reg := g.regAll(c, ms)
		if g.ch(1, 4) {
			reg = append(reg, &Op{K: "regindom", C: c, M: g.indom(v2)})
		}
		if g.ch(1, 4) {
			m := g.byString(g.ch(1, 2))
			reg = append(reg, g.regOp(c, m))
		}
		k := len(reg)
		if g.ch(1, 3) {
			k = g.n(len(reg) + 1)
		}
		all = append(all, reg[:k])
		late := reg[k:]
		t := cat(g.yields(g.n(3)), ops(op("start", c)))
		for g.ch(1, 2) {
			t = append(t, op(g.pick("stop", "start", "stop"), c))
		}
		all = append(all, t, late)
		for n := g.in(1, 2); n > 0; n-- {
			w := g.ask(g.work(ms, g.in(1, 5), 35, 10), ms)
			if g.ch(1, 3) {
				w = append(w, g.regQuery(c), op("length", c))
			}
			if g.ch(1, 5) {
				w = append(w, &Op{K: "setflag", C: c, N: 4})
			}
			all = append(all, w)
		}
	}
	if g.ch(2, 3) { // registration first
		var pre [][]*Op
		var rest [][]*Op
		for i, t := range all {
			if len(t) > 0 && strings.HasPrefix(t[0].K, "reg") && g.ch(4, 5) {
				pre = append(pre, t)
			} else {
				rest = append(rest, all[i])
			}
		}
		g.phase(pre...)
		all = rest
	}
	ph := g.phase(all...)
	ph.Erase = g.ch(1, 2)
	for n := g.n(3); n > 0; n-- {
		ph.Faults = append(ph.Faults, g.stall())
	}
	if id == "P20" && g.ch(1, 3) {
		ph.Faults = append(ph.Faults, g.startFault())
	}
	var t []*Op
	for c := 0; c < nc; c++ {
		if g.ch(1, 2) {
			t = append(t, op("start", c))
			t = append(t, g.work(mss[c], 2, 30, 10)...)
		}
		t = append(t, op("stop", c))
	}
	g.phase(t).Erase = ph.Erase
	g.p.Raw = &RawProg{N: g.pickI(10, 40)}
	return g.done(id)
}

func init() {
	// ---- P19
	def(&propDef{id: "P19", gen: func(g *gen) *Case {
		c := genMix(g, "P19")
		for _, ph := range c.Prog.Phases {
			for _, t := range ph.Tasks {
				for _, o := range t {
					if o.K == "read" && c.Prog.Metrics[o.M].Kind == "single" && c.Prog.Metrics[o.M].ByString == "" && g.ch(1, 3) {
						o.K = "text"
					}
				}
			}
		}
		c.Race = true
		return c
	}, prep: func(x *Exec) {
		x.snapEvery = x.c.Prog.Raw.N
		x.custom = func(x *Exec) {
			if len(x.Snaps) == 0 {
				return
			}
			gd := guard(x.Snaps[len(x.Snaps)-1])
			x.Keep = append(x.Keep, gd)
			p := &vsim.Proc{ID: 99, Name: "reader"}
			f := func() {
				if d := runDump(gd.b); d.err == nil {
					var o countWriter
					d.write(&o)
				}
			}
			x.w.Join(x.w.Spawn("r1", p, f), x.w.Spawn("r2", p, f))
		}
	}, partial: true, check: nilCheck(func(x *Exec) string {
		if len(x.w.RaceFound) > 0 {
			return "conflicting unsynchronised accesses: " + strings.Join(x.w.RaceFound[:1], "; ")
		}
		return ""
	})})

	// ---- P20
	def(&propDef{id: "P20", classes: "deadlock livelock hang", gen: func(g *gen) *Case { return genMix(g, "P20") }, prep: func(x *Exec) {
		x.snapEvery = x.c.Prog.Raw.N
		x.custom = func(x *Exec) {
			if x.proc == nil || x.proc.Dead {
				return
			}
			stopped := true
			for c := range x.c.Prog.Clients {
				ok := false
				for _, r := range x.Recs {
					if r.Ph == len(x.c.Prog.Phases)-1 && r.Op.K == "stop" && r.Op.C == c && r.Ret != 0 {
						ok = !r.Err || r.ErrS != "" // stopped now or before
						if r.Err && r.Faults > 0 {
							ok = false
						}
					}
				}
				stopped = stopped && ok
			}
			if stopped {
				x.w.Settle(x.proc, 2000)
				if l := x.w.LibTasks(x.proc); len(l) > 0 {
					x.Notes["bad"] = fmt.Sprintf("after all clients are stopped %d goroutines are left: %s", len(l), strings.Join(l, "; "))
				} else if len(x.fs.Handles) > 0 || len(x.fs.Maps) > 0 {
					x.Notes["bad"] = fmt.Sprintf("after all clients are stopped %d file handles and %d mappings are open", len(x.fs.Handles), len(x.fs.Maps))
				}
			}
			if len(x.Snaps) > 0 {
				b := x.Snaps[len(x.Snaps)-1]
				if len(b) > 100 {
					for _, k := range []int{len(b), len(b) - 50, 60} {
						gd := guard(b[:k])
						x.Keep = append(x.Keep, gd)
						p := &vsim.Proc{ID: 99, Name: "reader"}
						x.w.Join(x.w.Spawn("r1", p, func() {
							if d := runDump(gd.b); d.err == nil {
								var o countWriter
								d.write(&o)
							}
						}))
						x.w.Settle(p, 2000)
						if l := x.w.LibTasks(p); len(l) > 0 && x.Notes["bad"] == nil {
							x.Notes["bad"] = fmt.Sprintf("the dump reader leaves %d goroutines: %s", len(l), strings.Join(l, "; "))
						}
					}
				}
			}
		}
	}, check: nilCheck(func(x *Exec) string { return x.noteBad() })})
}

var _ simfs.Fault
