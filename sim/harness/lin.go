package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

// linOp is one operation of a history that has to be linearizable.
type linOp struct {
	call, ret int64
	maybe     bool // may have taken effect or not (it never returned)
	in        interface{}
	out       interface{}
	desc      string
}

const never = math.MaxInt64

// linStep returns the possible next states, nil when the operation cannot
// have had its result in the state.  States must be comparable.
type linStep func(state, in, out interface{}) []interface{}

type linMask [6]uint64

type linKey struct {
	m linMask
	s interface{}
}

const linMax = 64 * 6

// linCheck decides whether the history has a sequential explanation.  ok is
// true as well when the search is given up (conclusive false).
func linCheck(init interface{}, ops []linOp, step linStep) (ok, conclusive bool) {
	if len(ops) > linMax {
		return true, false
	}
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].call < ops[j].call })
	n := len(ops)
	need := 0
	for i := range ops {
		if !ops[i].maybe {
			need++
		}
	}
	seen := map[linKey]bool{}
	budget := 150000
	var rec func(m linMask, s interface{}, left int, low int) bool
	rec = func(m linMask, s interface{}, left int, low int) bool {
		if left == 0 {
			return true
		}
		k := linKey{m, s}
		if seen[k] {
			return false
		}
		seen[k] = true
		if budget--; budget < 0 {
			return false
		}
		for low < n && m[low/64]&(1<<(uint(low)%64)) != 0 {
			low++
		}
		minRet := int64(never)
		for i := low; i < n; i++ {
			if ops[i].call > minRet {
				break
			}
			if m[i/64]&(1<<(uint(i)%64)) == 0 && !ops[i].maybe && ops[i].ret < minRet {
				minRet = ops[i].ret
			}
		}
		for i := low; i < n && ops[i].call <= minRet; i++ {
			if m[i/64]&(1<<(uint(i)%64)) != 0 {
				continue
			}
			for _, ns := range step(s, ops[i].in, ops[i].out) {
				m2 := m
				m2[i/64] |= 1 << (uint(i) % 64)
				l := left
				if !ops[i].maybe {
					l--
				}
				if rec(m2, ns, l, low) {
					return true
				}
				if budget < 0 {
					return false
				}
			}
		}
		return false
	}
	if rec(linMask{}, init, need, 0) {
		return true, true
	}
	if budget < 0 {
		return true, false
	}
	return false, true
}

func linDescribe(ops []linOp) string {
	var b []string
	for i, o := range ops {
		if i >= 40 {
			b = append(b, "...")
			break
		}
		r := fmt.Sprint(o.ret)
		if o.ret == never {
			r = "-"
		}
		b = append(b, fmt.Sprintf("[%d,%s] %s", o.call, r, o.desc))
	}
	return strings.Join(b, "; ")
}

// ---- value histories

type valIn struct {
	k    string // set inc read
	ok   bool   // set: the type accepts the value
	v    CV
	t    int
	mono bool // counter rules
}

type valOut struct {
	err     bool
	unknown bool
	v       CV
}

func valStep(state, in, out interface{}) []interface{} {
	s, i, o := state.(CV), in.(valIn), out.(valOut)
	res := func(want CV, wantErr bool) []interface{} {
		if o.unknown {
			if wantErr {
				return []interface{}{s}
			}
			return []interface{}{want}
		}
		if wantErr != o.err {
			return nil
		}
		if wantErr {
			return []interface{}{s}
		}
		return []interface{}{want}
	}
	switch i.k {
	case "read":
		if o.err || o.v != s {
			return nil
		}
		return []interface{}{s}
	case "set":
		if !i.ok {
			return res(s, true)
		}
		if i.mono && int64(i.v.U) < int64(s.U) {
			return res(s, true)
		}
		return res(i.v, false)
	case "inc":
		if !i.ok {
			return res(s, true)
		}
		if i.mono {
			d := int64(i.v.U)
			n := int64(s.U) + d
			if d < 0 || n < int64(s.U) {
				return res(s, true)
			}
			return res(CV{U: uint64(n)}, false)
		}
		f := math.Float64frombits(s.U) + math.Float64frombits(i.v.U)
		return res(CV{U: canonF64(f)}, false)
	}
	panic("model " + i.k)
}

func isUpdate(k string) bool {
	switch k {
	case "set", "inc", "dec", "up", "setall", "incall", "decall", "upall", "rec", "recn", "tstop", "treset":
		return true
	}
	return false
}

// instancesOf lists the instances of a metric ("" for single valued ones).
func (p *Prog) instancesOf(m int) []string {
	s := p.Metrics[m]
	switch s.Kind {
	case "inst":
		if s.ByString != "" {
			return sortedKeys(s.Init)
		}
		return uniq(p.Indoms[s.Indom].Inst)
	case "cvec", "gvec":
		return sortedKeys(s.Init)
	case "hist":
		return []string{"max", "mean", "min", "standard_deviation", "variance"}
	}
	return []string{""}
}

func sortedKeys(m map[string]Val) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

func uniq(l []string) (o []string) {
	m := map[string]bool{}
	for _, s := range l {
		if !m[s] {
			m[s] = true
			o = append(o, s)
		}
	}
	sort.Strings(o)
	return
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// initOf is the initial value of a metric instance.
func (p *Prog) initOf(m int, inst string) CV {
	s := p.Metrics[m]
	switch s.Kind {
	case "timer", "hist":
		return CV{}
	case "gauge", "gvec":
		return CV{U: canonF64(s.Init[inst].f64())}
	case "counter", "cvec":
		return CV{U: uint64(s.Init[inst].i64())}
	}
	c, _ := accept(s.Type, s.Init[inst].goVal())
	return c
}

func (p *Prog) typeOf(m int) int {
	switch s := p.Metrics[m]; s.Kind {
	case "counter", "cvec":
		return tInt64
	case "gauge", "gvec", "timer", "hist":
		return tDouble
	default:
		return s.Type
	}
}

const tscale = 4

// valueOps is the history of one value: in-process operations of one process.
func (x *Exec) valueOps(m int, inst string, proc int) (ops []linOp, skipped bool) {
	p := x.c.Prog
	s := p.Metrics[m]
	mono := s.Kind == "counter" || s.Kind == "cvec"
	for _, r := range x.Recs {
		if r.Proc != proc || r.Skip || r.Op.M != m {
			continue
		}
		op := r.Op
		in := valIn{t: p.typeOf(m), mono: mono, ok: true}
		out := valOut{err: r.Err, v: r.Out}
		all := strings.HasSuffix(op.K, "all")
		switch op.K {
		case "read":
			if op.I != inst && !(inst == "" && s.Kind != "inst" && s.Kind != "cvec" && s.Kind != "gvec") {
				continue
			}
			if r.Ret == 0 {
				continue
			}
			in.k = "read"
		case "set", "setall":
			in.k = "set"
			switch s.Kind {
			case "gauge", "gvec":
				in.v = CV{U: canonF64(op.V.f64())}
			case "counter", "cvec":
				in.v = CV{U: uint64(op.V.i64())}
			default:
				in.v, in.ok = accept(s.Type, op.V.goVal())
			}
		case "inc", "dec", "incall", "decall":
			in.k = "inc"
			if mono {
				in.v = CV{U: uint64(op.V.i64())}
			} else {
				f := op.V.f64()
				if op.K[0] == 'd' {
					f = -f
				}
				in.v = CV{U: canonF64(f)}
			}
		case "up", "upall":
			in.k, in.v = "inc", CV{U: 1}
		default:
			continue
		}
		if !all && op.K != "read" && op.I != inst {
			continue
		}
		lo := linOp{call: r.Call * tscale, ret: r.Ret * tscale, in: in, out: out, desc: op.K + valDesc(op) + outDesc(r)}
		if r.Ret == 0 {
			lo.ret, lo.maybe = never, true
			lo.out = valOut{unknown: true}
		}
		if all {
			if r.Err { // a part of the instances may have been updated
				lo.maybe = true
				lo.out = valOut{unknown: true}
			}
		}
		ops = append(ops, lo)
	}
	return
}

func valDesc(o *Op) string {
	if o.V != nil {
		return "(" + o.V.S + ")"
	}
	return "()"
}

func outDesc(r *Rec) string {
	if r.Ret == 0 {
		return "=?"
	}
	if r.Err {
		return "=error"
	}
	if r.Op.K == "read" {
		return "=" + r.Out.String()
	}
	return "=ok"
}

// fileReads are the observations of a value in published files as
// instantaneous reads.
func (x *Exec) fileReads(m int, inst string, proc int) (ops []linOp) {
	p := x.c.Prog
	name := p.Metrics[m].Name
	for _, pub := range x.Pubs {
		if pub.Proc != proc || pub.ReadyAt == 0 || pub.Parsed == nil || !x.registered(pub.C, m, proc, pub.ReadyAt) {
			continue
		}
		si := -1
		for k := range pub.slots {
			if pub.slots[k].Name == name && pub.slots[k].Inst == inst {
				si = k
			}
		}
		if si < 0 {
			continue
		}
		end, endRet := x.activeEnd(pub, proc)
		str := pub.slots[si].Type == tString
		cur := pub.read(si, pub.Bytes).V
		type tv struct {
			at int64
			v  CV
		}
		hist := []tv{{pub.ReadyAt, cur}}
		for _, ch := range pub.Changes {
			if ch.Slot == si && ch.Proc == proc {
				hist = append(hist, tv{ch.At, ch.V})
			}
		}
		at := func(t int64) CV {
			v := hist[0].v
			for _, h := range hist {
				if h.at <= t {
					v = h.v
				}
			}
			return v
		}
		add := func(c, r int64, v CV, what string) {
			ops = append(ops, linOp{call: c, ret: r, in: valIn{k: "read"}, out: valOut{v: v}, desc: what + "=" + v.String()})
		}
		if !str {
			for i, h := range hist {
				if h.at > end {
					break
				}
				add(h.at*tscale, h.at*tscale+1, h.v, "file")
				if i+1 < len(hist) && hist[i+1].at <= end {
					add(hist[i+1].at*tscale-2, hist[i+1].at*tscale-1, h.v, "file")
				}
			}
		} else {
			for _, r := range x.Recs {
				if r.Proc != proc || r.Ret == 0 || r.Ret <= pub.ReadyAt || r.Ret > end {
					continue
				}
				busy := false
				for _, q := range x.Recs {
					if q.Proc == proc && q.Op.M == m && isUpdate(q.Op.K) && q.Call < r.Ret && (q.Ret == 0 || q.Ret > r.Ret) {
						busy = true
					}
				}
				if !busy && (r.Op.M == m && isUpdate(r.Op.K)) {
					add(r.Ret*tscale+1, r.Ret*tscale+1, at(r.Ret), "file")
				}
			}
		}
		if endRet > 0 { // the last content must be a value of that time
			v := hist[len(hist)-1].v
			if !(str && x.updating(m, proc, end, endRet)) {
				add(end*tscale+1, endRet*tscale-1, v, "file at the end")
			}
		}
	}
	return
}

func (x *Exec) updating(m, proc int, a, b int64) bool {
	for _, q := range x.Recs {
		if q.Proc == proc && q.Op.M == m && isUpdate(q.Op.K) && q.Call < b && (q.Ret == 0 || q.Ret > a) {
			return true
		}
	}
	return false
}

// activeEnd is the time until which the file must be up to date; the second
// result bounds the time the final content stems from (0: unknown).
func (x *Exec) activeEnd(pub *Pub, proc int) (int64, int64) {
	end, ret := int64(never), int64(0)
	for _, r := range x.Recs {
		if r.Proc == proc && r.Op.K == "stop" && r.Op.C == pub.C && r.Call < end && (r.Ret == 0 || r.Ret > pub.ReadyAt) {
			if r.Ret != 0 && r.Err {
				if r.failed("munmap") || r.failed("close") || r.failed("remove") { // stop failed half way
					end, ret = r.Call, 0
				}
				continue
			}
			end, ret = r.Call, r.Ret
		}
	}
	// a crash or the end of the run
	if end == never {
		last := int64(0)
		for i, r := range x.Recs {
			_ = i
			if r.Proc == proc && r.Ret > last {
				last = r.Ret
			}
		}
		if x.CrashAt != 0 && pub.Proc == proc {
			return last, 0
		}
		if last < pub.ReadyAt {
			return pub.ReadyAt, 0
		}
		if x.w.Viol != nil {
			return last, 0
		}
		return last, last + 1
	}
	if end < pub.ReadyAt {
		// stopping began before the file was complete: the stop may belong
		// to this file or to the one before it
		return pub.ReadyAt, 0
	}
	return end, ret
}

// registered says whether metric m is the one registered under its name at
// client c before a time.
func (x *Exec) registered(c, m, proc int, before int64) bool {
	name := x.c.Prog.Metrics[m].Name
	for _, r := range x.Recs {
		if r.Proc == proc && (r.Op.K == "reg" || r.Op.K == "regstr") && x.c.Prog.reg(r.Op.C) == x.c.Prog.reg(c) && !r.Skip && r.Call < before && !r.Err && x.c.Prog.Metrics[r.Op.M].Name == name {
			return r.Op.M == m
		}
	}
	return false
}

// checkValues decides the value histories of all metrics; file selects
// whether the file's content takes part.
func (x *Exec) checkValues(file bool, only func(m *MetricSpec) bool) (bad string, inconclusive int) {
	p := x.c.Prog
	for proc := 1; proc <= x.nproc; proc++ {
		for m, s := range p.Metrics {
			if only != nil && !only(s) {
				continue
			}
			switch s.Kind {
			case "timer":
				b, c := x.checkTimer(m, proc, file)
				if b != "" {
					return b, inconclusive
				}
				if !c {
					inconclusive++
				}
				continue
			case "hist":
				b, c := x.checkHist(m, proc, file)
				if b != "" {
					return b, inconclusive
				}
				if !c {
					inconclusive++
				}
				continue
			}
			insts := p.instancesOf(m)
			for _, r := range x.Recs {
				if r.Proc == proc && r.Op.M == m && r.Bad != "" && (r.Op.K == "read") {
					return r.Bad, inconclusive
				}
				if r.Proc == proc && r.Op.M == m && (r.Op.K == "read" || r.Op.K == "set" || r.Op.K == "inc" || r.Op.K == "dec" || r.Op.K == "up") && !r.Skip && r.Ret != 0 && !has(insts, r.Op.I) && !(len(insts) == 1 && insts[0] == "") {
					zero := r.Op.K == "inc" && s.Kind == "cvec" && r.Op.V.i64() == 0
					if !r.Err && !zero {
						return fmt.Sprintf("%s of metric %s succeeds for an instance it does not have", r.Op, s.Name), inconclusive
					}
				}
			}
			for _, in := range insts {
				ops, _ := x.valueOps(m, in, proc)
				if file {
					ops = append(ops, x.fileReads(m, in, proc)...)
				}
				if len(ops) == 0 {
					continue
				}
				ok, concl := linCheck(p.initOf(m, in), ops, valStep)
				if !concl {
					inconclusive++
				}
				if !ok {
					return fmt.Sprintf("metric %s[%s], initially %v: no sequential order explains %s", s.Name, in, p.initOf(m, in), linDescribe(ops)), inconclusive
				}
			}
		}
	}
	return "", inconclusive
}
