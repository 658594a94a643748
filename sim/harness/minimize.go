package main

import (
	"time"

	"verif/sim/vsim"
)

type minimizer struct {
	class string
	best  *Case
	until time.Time
	runs  int
	seed  uint64
}

func (m *minimizer) over() bool { return time.Now().After(m.until) }

func (m *minimizer) fails(c *Case) bool {
	m.runs++
	return runCase(c).v.Class == m.class
}

// try accepts a smaller case when some schedule makes it fail the same way.
func (m *minimizer) try(c *Case) bool {
	if m.over() {
		return false
	}
	if m.fails(c) {
		m.best = c
		return true
	}
	for k := 0; k < 8; k++ {
		if m.over() {
			return false
		}
		d := c.clone()
		m.seed++
		d.Sched.Seed, d.Sched.Devs = m.seed, nil
		switch k % 4 {
		case 0:
			d.Sched.Mode, d.Sched.P = "random", 4
		case 1:
			d.Sched.Mode, d.Sched.P = "random", 15
		case 2:
			d.Sched.Mode, d.Sched.Depth, d.Sched.Est = "pct", 3, 600
		case 3:
			d.Sched = c.Sched
			d.Sched.Seed = m.seed
		}
		if m.fails(d) {
			m.best = d
			return true
		}
	}
	return false
}

func (m *minimizer) edit(f func(c *Case) bool) bool {
	c := m.best.clone()
	return f(c) && m.try(c)
}

func cut[T any](l []T, i, n int) []T {
	return append(append([]T{}, l[:i]...), l[i+n:]...)
}

// list shrinks one list of the case.
func shrinkList[T any](m *minimizer, at func(c *Case) *[]T, min int) {
	for n := len(*at(m.best)) / 2; n >= 1; n /= 2 {
		for i := len(*at(m.best)) - n; i >= 0; {
			if m.over() {
				return
			}
			l := *at(m.best)
			if i+n > len(l) {
				i = len(l) - n
				if i < 0 {
					break
				}
			}
			if len(l)-n >= min {
				m.edit(func(c *Case) bool { p := at(c); *p = cut(*p, i, n); return true })
			}
			i -= n
		}
	}
}

func (m *minimizer) shrink() {
	for round := 0; round < 3; round++ {
		before := m.size()
		m.pass()
		if m.over() || m.size() == before {
			return
		}
	}
}

func (m *minimizer) size() int {
	n := 0
	for _, ph := range m.best.Prog.Phases {
		n += 1 + len(ph.Faults)
		for _, t := range ph.Tasks {
			n += 1 + len(t)
		}
	}
	if r := m.best.Prog.Raw; r != nil {
		n += len(r.Muts) + len(r.Faults)
		for _, w := range r.Writes {
			n += 1 + len(w)
		}
	}
	return n + len(m.best.Prog.Metrics)
}

func (m *minimizer) pass() {
	shrinkList(m, func(c *Case) *[]*Phase { return &c.Prog.Phases }, 1)
	for i := 0; i < len(m.best.Prog.Phases); i++ {
		i := i
		shrinkList(m, func(c *Case) *[][]*Op { return &c.Prog.Phases[i].Tasks }, 0)
		for t := 0; t < len(m.best.Prog.Phases[i].Tasks); t++ {
			t := t
			shrinkList(m, func(c *Case) *[]*Op { return &c.Prog.Phases[i].Tasks[t] }, 0)
		}
		shrinkList(m, func(c *Case) *[]simFault { return &c.Prog.Phases[i].Faults }, 0)
		m.edit(func(c *Case) bool { p := c.Prog.Phases[i]; ok := p.Crash != nil; p.Crash = nil; return ok })
		m.edit(func(c *Case) bool { p := c.Prog.Phases[i]; ok := p.Capacity != 0; p.Capacity = 0; return ok })
	}
	if r := m.best.Prog.Raw; r != nil {
		shrinkList(m, func(c *Case) *[]Mut { return &c.Prog.Raw.Muts }, 0)
		shrinkList(m, func(c *Case) *[]WFault { return &c.Prog.Raw.Faults }, 0)
		for t := range r.Writes {
			t := t
			shrinkList(m, func(c *Case) *[]BWWrite { return &c.Prog.Raw.Writes[t] }, 0)
		}
	}
	if m.class == "oracle" {
		for i := len(m.best.Prog.Metrics) - 1; i >= 0; i-- {
			m.edit(func(c *Case) bool { return dropMetric(c, i) })
		}
		for i := len(m.best.Prog.Indoms) - 1; i >= 0; i-- {
			m.edit(func(c *Case) bool { return dropIndom(c, i) })
		}
	}
}

func indomOp(o *Op) bool { return o.K == "regindom" || o.K == "regindomname" }

func dropMetric(c *Case, i int) bool {
	for _, ph := range c.Prog.Phases {
		for _, t := range ph.Tasks {
			for _, o := range t {
				if indomOp(o) {
					continue
				}
				if o.M == i && i > 0 || o.M == i && needsMetric(o) {
					return false
				}
			}
		}
	}
	for _, ph := range c.Prog.Phases {
		for _, t := range ph.Tasks {
			for _, o := range t {
				if !indomOp(o) && o.M > i {
					o.M--
				}
			}
		}
	}
	c.Prog.Metrics = cut(c.Prog.Metrics, i, 1)
	return true
}

func needsMetric(o *Op) bool {
	switch o.K {
	case "start", "stop", "setflag", "length", "sleep", "jump", "arm", "disarm", "yield", "nmetrics", "nvalues", "nindoms", "ninst", "nstr", "hasm", "hasi":
		return false
	}
	return true
}

func dropIndom(c *Case, i int) bool {
	for _, ph := range c.Prog.Phases {
		for _, t := range ph.Tasks {
			for _, o := range t {
				if indomOp(o) && o.M == i {
					return false
				}
			}
		}
	}
	for _, m := range c.Prog.Metrics {
		if m.Kind == "inst" && m.Indom == i {
			return false
		}
	}
	for _, ph := range c.Prog.Phases {
		for _, t := range ph.Tasks {
			for _, o := range t {
				if indomOp(o) && o.M > i {
					o.M--
				}
			}
		}
	}
	for _, m := range c.Prog.Metrics {
		if m.Indom > i {
			m.Indom--
		}
	}
	c.Prog.Indoms = cut(c.Prog.Indoms, i, 1)
	return true
}

// explicit turns the schedule into an explicit list of decisions and shrinks
// the list.
func (m *minimizer) explicit() {
	o := runCase(m.best)
	if o.v.Class != m.class {
		return
	}
	c := m.best.clone()
	c.Sched = vsim.Schedule{Mode: "explicit", MapSeed: m.best.Sched.MapSeed, Devs: append([]vsim.Decision{}, o.x.w.Devs()...)}
	if !m.fails(c) {
		return
	}
	m.best = c
	for n := len(m.best.Sched.Devs); n >= 1; n /= 2 {
		for i := len(m.best.Sched.Devs) - n; i >= 0 && !m.over(); {
			d := m.best.clone()
			d.Sched.Devs = cut(d.Sched.Devs, i, n)
			if m.fails(d) {
				m.best = d
			}
			i -= n
			if i+n > len(m.best.Sched.Devs) {
				i = len(m.best.Sched.Devs) - n
			}
		}
	}
}

func minimize(r *Replay, d time.Duration) *Replay {
	m := &minimizer{class: r.Verdict.Class, best: r.Case, until: time.Now().Add(d * 2 / 3), seed: 1000}
	if !m.fails(r.Case) {
		return nil
	}
	m.shrink()
	m.until = time.Now().Add(d / 3)
	m.explicit()
	o := runCase(m.best)
	if o.v.Class != m.class {
		return nil
	}
	q := *r
	q.Case, q.Verdict, q.Minimised = m.best, o.v, true
	q.fill(&o)
	return &q
}
