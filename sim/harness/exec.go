package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"

	speed "github.com/performancecopilot/speed/v4"

	shimos "verif/sim/shim/os"
	"verif/sim/simfs"
	"verif/sim/vsim"
)

// Rec is one recorded operation.
type Rec struct {
	Ph, Task, Idx   int
	Proc            int
	Op              *Op
	Call, Ret       int64 // history times; Ret 0: never returned
	CallNs, RetNs   int64
	Err             bool
	ErrS            string
	Skip            bool
	Out             CV
	Bad             string
	OutI            int64
	OutF            float64
	Buckets         []speed.HistogramBucket
	Names           map[string]bool // start: metrics found in the file on return
	Status          string          // start/stop: status of the file on return
	File            *mmvFile        // start/stop: the file on return
	FileErr         error
	InoCall, InoRet int            // start/stop: file at the location before and after
	Faults          int            // start/stop: failures injected meanwhile
	Fired           map[string]int // start/stop: which failures
	Handles, Maps   int            // start/stop: open afterwards
	Leak            string
	FileLen         int // start/stop
	Text            string
}

func (r *Rec) String() string {
	s := fmt.Sprintf("[%d.%d.%d %d-%d] %s", r.Ph, r.Task, r.Idx, r.Call, r.Ret, r.Op)
	if r.Err {
		s += " -> error " + r.ErrS
	} else {
		s += fmt.Sprintf(" -> %v %d %v", r.Out, r.OutI, r.OutF)
	}
	return s
}

// slot is one value of a published file.
type slot struct {
	Name, Inst string
	Type       int
	Off        int // value bytes
	Len        int
	M          int // index of the metric entry in the parsed file
}

// Pub is one file at a client's location.
type Pub struct {
	C         int
	Proc      int
	Ino       *simfs.Inode
	Appear    int64 // history time
	Gone      int64 // 0: still there
	ReadyAt   int64 // 0: never
	ReadyStep int
	ReadyNs   int64
	Parsed    *mmvFile
	ParseErr  error
	Bytes     []byte // content when it became ready
	slots     []slot
	isSlot    []int16 // word -> slot index+1
	last      []byte
	Alien     string // first change of bytes that are no values
	AlienAt   int64
	Changes   []Change
	Appeared  []byte
	Dead      bool // the process that made it is dead
	Touched   string
	Broken    string // complete for the reader protocol, but not well formed
	BrokenAt  int64
	Pid       int
}

// Change is one visible change of a value.
type Change struct {
	At   int64
	Slot int
	V    CV
	Raw  uint64
	Proc int
}

// Exec is one execution.
type Exec struct {
	c          *Case
	w          *vsim.World
	fs         *simfs.FS
	proc       *vsim.Proc
	nproc      int
	env        *procEnv
	Recs       []*Rec
	Pubs       []*Pub
	cur        map[int]*Pub // by client
	byIno      map[*simfs.Inode]*Pub
	setup      []string // errors of object creation by key
	SetupErr   map[string]string
	clientErr  map[int]string
	PhaseEnd   []int64
	Crashed    []bool
	CrashAt    int64
	crashCtr   int
	Leaks      []string
	maxEvents  int
	events     int
	phase      int
	custom     func(x *Exec)
	Notes      map[string]interface{}
	bytesSeen  int
	EndState   []map[int]string // status of the client files after every phase
	EndLens    []map[int]int
	Snaps      [][]byte // sampled file contents
	snapEvery  int
	Keep       []*guarded
	afterSetup func()
	alongside  func(x *Exec, phase int) []*vsim.G
	along      []*cmdRun
}

type procEnv struct {
	clients []*speed.PCPClient
	indoms  []*speed.PCPInstanceDomain
	metrics []interface{}
	owner   map[int][2]int // phase and task that made a metric
	regs    map[int]*speed.PCPRegistry
}

func newExec(c *Case) *Exec {
	x := &Exec{c: c, cur: map[int]*Pub{}, byIno: map[*simfs.Inode]*Pub{}, SetupErr: map[string]string{}, clientErr: map[int]string{}, Notes: map[string]interface{}{}}
	x.w = vsim.NewWorld(vsim.Config{Sched: c.Sched, MaxSteps: c.Steps, Race: c.Race, MapRace: c.Maps, ZeroTick: c.Prog.ZeroTick})
	x.fs = simfs.New(x.w)
	shimos.StdWrite, shimos.OnExit = nil, nil
	p := c.Prog
	for _, d := range p.Dirs {
		x.fs.PutDir(d)
	}
	for k, v := range p.Files {
		x.fs.PutFile(k, []byte(v))
	}
	for k, v := range p.Links {
		x.fs.PutSymlink(v, k)
	}
	for k, v := range p.Env {
		x.fs.Env[k] = v
	}
	x.fs.Watch = append(x.fs.Watch, x.event)
	return x
}

func (x *Exec) path(c int) string { return x.c.Prog.Loc + "/" + x.c.Prog.Clients[c].Name }

// event is called at every change that is visible outside of the process.
func (x *Exec) event(e simfs.Event) {
	x.events++
	if e.Ino == nil {
		x.relook()
		return
	}
	if p := x.byIno[e.Ino]; p != nil {
		x.content(p)
	}
	if x.crashCtr > 0 && !x.proc.Dead {
		x.crashCtr--
		if x.crashCtr == 0 {
			x.kill()
		}
	}
}

func (x *Exec) kill() {
	x.w.FaultFired("process-crash")
	x.CrashAt = x.w.Seq()
	x.Crashed[x.phase] = true
	x.w.KillProc(x.proc)
}

// relook finds out which file is at each client's location.
func (x *Exec) relook() {
	for c := range x.c.Prog.Clients {
		ino := x.fs.Lookup(x.path(c))
		if ino != nil && ino.IsDir() {
			ino = nil
		}
		old := x.cur[c]
		if old != nil && old.Ino == ino {
			continue
		}
		if old != nil {
			old.Gone = x.w.Seq()
			delete(x.cur, c)
		}
		if ino == nil {
			continue
		}
		p := x.byIno[ino]
		if p == nil || p.Gone != 0 {
			p = &Pub{C: c, Ino: ino, Appear: x.w.Seq(), Appeared: append([]byte(nil), ino.Data()...)}
			if x.proc != nil {
				p.Proc = x.proc.ID
				p.Pid = x.fs.Pid
			}
			x.Pubs = append(x.Pubs, p)
			x.byIno[ino] = p
		}
		x.cur[c] = p
		x.content(p)
	}
}

// content examines a file after a change.
func (x *Exec) content(p *Pub) {
	b := p.Ino.Data()
	if x.snapEvery > 0 && x.events%x.snapEvery == 0 && len(x.Snaps) < 40 {
		x.Snaps = append(x.Snaps, append([]byte(nil), b...))
	}
	if p.last != nil && len(p.last) == len(b) && string(p.last) == string(b) {
		return
	}
	now := x.w.Seq()
	if x.proc != nil && p.Proc != x.proc.ID && p.Touched == "" && p.last != nil {
		p.Touched = fmt.Sprintf("process %d changes the file of process %d", x.proc.ID, p.Proc)
	}
	if p.ReadyAt == 0 {
		p.last = append(p.last[:0], b...)
		if quickStatus(b) != stReady {
			return
		}
		p.ReadyAt, p.ReadyStep, p.ReadyNs = now, x.w.Steps(), x.w.Mono()
		p.Bytes = append([]byte(nil), b...)
		p.Parsed, p.ParseErr = parseMMV(b)
		if p.Parsed != nil {
			p.layout()
		}
		return
	}
	if quickStatus(b) != stReady { // it is being written again
		if p.Alien == "" {
			p.Alien, p.AlienAt = "the file is not complete any more", now
		}
		p.Gone = now
		q := &Pub{C: p.C, Ino: p.Ino, Appear: now, Appeared: append([]byte(nil), b...), Touched: p.Touched}
		if x.proc != nil {
			q.Proc = x.proc.ID
			q.Pid = x.fs.Pid
		}
		q.last = append(q.last, b...)
		x.Pubs = append(x.Pubs, q)
		x.byIno[p.Ino] = q
		if x.cur[p.C] == p {
			x.cur[p.C] = q
		}
		return
	}
	if len(b) != len(p.last) {
		if p.Alien == "" {
			p.Alien, p.AlienAt = fmt.Sprintf("size changed from %d to %d", len(p.last), len(b)), now
		}
		p.checkBroken(b, now)
		p.last = append(p.last[:0], b...)
		return
	}
	if p.Parsed == nil {
		p.last = append(p.last[:0], b...)
		return
	}
	seen := -1
	for i := 0; i < len(b); i += 8 {
		j := i + 8
		if j > len(b) {
			j = len(b)
		}
		if string(b[i:j]) == string(p.last[i:j]) {
			continue
		}
		s := int(p.isSlot[i/8]) - 1
		if s < 0 {
			if p.Alien == "" {
				p.Alien, p.AlienAt = fmt.Sprintf("bytes %d..%d changed from %x to %x", i, j, p.last[i:j], b[i:j]), now
			}
			p.checkBroken(b, now)
			continue
		}
		if s == seen {
			continue
		}
		seen = s
		ch := p.read(s, b)
		ch.At = now
		if x.proc != nil {
			ch.Proc = x.proc.ID
		}
		p.Changes = append(p.Changes, ch)
	}
	copy(p.last, b)
}

func (p *Pub) checkBroken(b []byte, now int64) {
	if p.Broken == "" {
		if _, err := parseMMV(b); err != nil {
			p.Broken, p.BrokenAt = err.Error(), now
		}
	}
}

func (p *Pub) read(s int, b []byte) Change {
	sl := &p.slots[s]
	ch := Change{Slot: s}
	if sl.Type == tString {
		ch.V = CV{S: cstr(b[sl.Off : sl.Off+sl.Len])}
	} else {
		ch.Raw = le.Uint64(b[sl.Off:])
		ch.V = canonFile(sl.Type, ch.Raw)
	}
	return ch
}

func (p *Pub) layout() {
	p.isSlot = make([]int16, len(p.Bytes)/8+1)
	for mi, m := range p.Parsed.Metrics {
		for _, v := range m.Values {
			s := slot{Name: m.Name, Inst: v.InstName, Type: int(m.Type), Off: int(v.Off), Len: 8, M: mi}
			if m.Type == tString {
				s.Off, s.Len = int(v.StrOff), 256
			}
			p.slots = append(p.slots, s)
			for i := s.Off; i < s.Off+s.Len; i += 8 {
				p.isSlot[i/8] = int16(len(p.slots))
			}
		}
	}
}

// value at a slot as the file is now.
func (p *Pub) current(s int) CV { return p.read(s, p.Ino.Data()).V }

// ---- execution

func (x *Exec) run() {
	p := x.c.Prog
	defer x.fs.Release()
	defer func() {
		for _, g := range x.Keep {
			g.free()
		}
	}()
	x.w.AddPoller(x.poll)
	x.relook()
	x.w.Run(func() {
		x.phase = -1
		for i, ph := range p.Phases {
			x.phase = i
			x.Crashed = append(x.Crashed, false)
			x.runPhase(i, ph)
			x.PhaseEnd = append(x.PhaseEnd, x.w.Seq())
			st, ln := map[int]string{}, map[int]int{}
			for c := range p.Clients {
				st[c], ln[c] = x.status(c), -1
				if q := x.cur[c]; q != nil {
					ln[c] = len(q.Ino.Data())
				}
			}
			x.EndState = append(x.EndState, st)
			x.EndLens = append(x.EndLens, ln)
		}
		if x.custom != nil {
			x.custom(x)
		}
	})
}

func (x *Exec) status(c int) string {
	q := x.cur[c]
	if q == nil {
		return stAbsent
	}
	return quickStatus(q.Ino.Data())
}

func (x *Exec) poll() {
	if x.stepCrash() {
		x.kill()
	}
}

func (x *Exec) stepCrash() bool {
	if x.phase < 0 || x.phase >= len(x.c.Prog.Phases) || x.proc == nil || x.proc.Dead {
		return false
	}
	ph := x.c.Prog.Phases[x.phase]
	if ph.Crash == nil || ph.Crash.On != "step" || x.Crashed[x.phase] {
		return false
	}
	return x.w.Steps()-x.phaseStart() >= ph.Crash.N
}

func (x *Exec) phaseStart() int { s, _ := x.Notes["phasestart"].(int); return s }

func (x *Exec) runPhase(i int, ph *Phase) {
	w := x.w
	if x.proc == nil || ph.NewProc {
		if x.proc != nil && !x.proc.Dead {
			x.w.FaultFired("process-exit")
			x.w.KillProc(x.proc)
		}
		x.nproc++
		x.proc = &vsim.Proc{ID: x.nproc, Name: fmt.Sprintf("p%d", x.nproc)}
		x.fs.Pid = 4242
		if ph.Pid != 0 {
			x.fs.Pid = ph.Pid
		}
		x.env = nil
	}
	x.Notes["phasestart"] = w.Steps()
	x.crashCtr = 0
	if ph.Crash != nil && ph.Crash.On == "event" {
		x.crashCtr = ph.Crash.N
	}
	// the faults of a phase hit the operations of the clients, those of P21
	// the reading of the configuration
	conf := x.c.Prop == "P21"
	if len(ph.Faults) > 0 && conf {
		x.fs.Arm(ph.Faults...)
	}
	x.fs.Capacity = 0
	if ph.Capacity != 0 {
		x.fs.SetFree(ph.Capacity)
	}
	if x.proc.Dead {
		return
	}
	if x.env == nil {
		g := w.Spawn(fmt.Sprintf("setup%d", i), x.proc, x.setupProc)
		w.JoinOrDead(g)
		if x.proc.Dead {
			return
		}
		if x.afterSetup != nil {
			x.afterSetup()
		}
	}
	if len(ph.Faults) > 0 && !conf {
		x.fs.Arm(ph.Faults...)
	}
	speed.EraseFileOnStop = ph.Erase
	var gs []*vsim.G
	for ti := range ph.Tasks {
		ti := ti
		gs = append(gs, w.Spawn(fmt.Sprintf("t%d.%d", i, ti), x.proc, func() {
			for oi, op := range ph.Tasks[ti] {
				x.do(i, ti, oi, op)
			}
		}))
	}
	if x.alongside != nil {
		gs = append(gs, x.alongside(x, i)...)
	}
	w.JoinOrDead(gs...)
	x.fs.Disarm()
	x.fs.Capacity = 0
}

func (x *Exec) setupProc() {
	vsim.ResetPackages()
	p := x.c.Prog
	e := &procEnv{owner: map[int][2]int{}, regs: map[int]*speed.PCPRegistry{}}
	guard := func(key string, f func() error) {
		defer func() {
			if r := recover(); r != nil {
				x.w.Fail(panicClass(r), "%s: panic: %v", key, r)
			}
		}()
		if err := f(); err != nil {
			x.SetupErr[fmt.Sprintf("%d:%s", x.nproc, key)] = err.Error()
		}
	}
	for i, c := range p.Clients {
		var cl *speed.PCPClient
		if c.Late {
			e.clients = append(e.clients, nil)
			continue
		}
		guard(fmt.Sprintf("client %d", i), func() (err error) { cl, err = x.makeClient(i, e); return })
		e.clients = append(e.clients, cl)
	}
	for i := range p.Indoms {
		d := &p.Indoms[i]
		var in *speed.PCPInstanceDomain
		guard(fmt.Sprintf("indom %d", i), func() (err error) {
			in, err = speed.NewPCPInstanceDomain(d.Name, append([]string(nil), d.Inst...), descs(d.Short, d.Long)...)
			return
		})
		e.indoms = append(e.indoms, in)
	}
	for i, m := range p.Metrics {
		var obj interface{}
		if m.ByString == "" && !m.Late {
			guard(fmt.Sprintf("metric %d", i), func() (err error) { obj, err = x.makeMetric(m, e); return })
		}
		e.metrics = append(e.metrics, obj)
	}
	x.env = e
}

// metric is a metric object; one that a task of the phase has made is known to
// that task alone until the phase ends.
func (e *procEnv) metric(r *Rec, m int) interface{} {
	if o, ok := e.owner[m]; ok && o[0] == r.Ph && o[1] != r.Task {
		return nil
	}
	return e.metrics[m]
}

func descs(s, l string) []string {
	if l != "" {
		return []string{s, l}
	}
	if s != "" {
		return []string{s}
	}
	return nil
}

func (x *Exec) makeMetric(m *MetricSpec, e *procEnv) (obj interface{}, err error) {
	ds := descs(m.Short, m.Long)
	t, s, u := speed.MetricType(m.Type), semVals[m.Sem], makeUnit(m.Unit)
	defer func() {
		if err != nil {
			obj = nil
		}
	}()
	switch m.Kind {
	case "single":
		return speed.NewPCPSingletonMetric(m.Init[""].goVal(), m.Name, t, s, u, ds...)
	case "inst":
		in := e.indoms[m.Indom]
		if in == nil {
			return nil, fmt.Errorf("no indom")
		}
		vals := speed.Instances{}
		for k, v := range m.Init {
			vals[k] = v.goVal()
		}
		return speed.NewPCPInstanceMetric(vals, m.Name, in, t, s, u, ds...)
	case "counter":
		return speed.NewPCPCounter(m.Init[""].i64(), m.Name, ds...)
	case "gauge":
		return speed.NewPCPGauge(m.Init[""].f64(), m.Name, ds...)
	case "timer":
		return speed.NewPCPTimer(m.Name, timerUnits[m.Unit], ds...)
	case "cvec":
		vals := map[string]int64{}
		for k, v := range m.Init {
			vals[k] = v.i64()
		}
		return speed.NewPCPCounterVector(vals, m.Name, ds...)
	case "gvec":
		vals := map[string]float64{}
		for k, v := range m.Init {
			vals[k] = v.f64()
		}
		return speed.NewPCPGaugeVector(vals, m.Name, ds...)
	case "hist":
		return speed.NewPCPHistogram(m.Name, m.Low, m.High, m.Sig, u, ds...)
	}
	panic("kind " + m.Kind)
}

// makeBad makes something that a file cannot hold.
func (x *Exec) makeBad(op *Op, e *procEnv) error {
	p := x.c.Prog
	if op.N == 1 {
		d := IndomSpec{Name: "baddom", Inst: []string{"a", "b"}}
		if len(p.Indoms) > 0 {
			d = p.Indoms[op.M%len(p.Indoms)]
		}
		switch op.I {
		case "name":
			d.Name = ""
		case "short":
			d.Short = op.V.S
		case "long":
			d.Short, d.Long = "text", op.V.S
		default:
			d.Inst = append([]string{op.V.S}, d.Inst...)
		}
		_, err := speed.NewPCPInstanceDomain(d.Name, append([]string(nil), d.Inst...), descs(d.Short, d.Long)...)
		return err
	}
	m := *p.Metrics[op.M]
	m.Init = map[string]Val{}
	for k, v := range p.Metrics[op.M].Init {
		m.Init[k] = v
	}
	inst := m.Kind == "cvec" || m.Kind == "gvec"
	if m.Kind == "inst" && (m.BSInst != nil || e.indoms[m.Indom] == nil) {
		m.Kind = "counter"
		m.Init = map[string]Val{"": vI(0)}
	}
	switch i := op.I; {
	case i == "name":
		m.Name = op.V.S
	case i == "short":
		m.Short = op.V.S
	case i == "long":
		m.Short, m.Long = "text", op.V.S
	case inst && i == "inst":
		m.Init[op.V.S] = vI(1)
	case m.Kind == "inst" && i == "inst": // one more than the domain has
		m.Init["nosuch"] = Val{"int32", "1"}
	case m.Kind == "single" && i == "value":
		m.Init[""] = *op.V
	case m.Kind == "inst" && i == "value" && len(m.Init) > 0:
		m.Init[sortedKeys(m.Init)[0]] = *op.V
	case m.Kind == "inst" && i == "missing" && len(m.Init) > 0:
		delete(m.Init, sortedKeys(m.Init)[0])
	case m.Kind == "inst" && i == "other" && len(m.Init) > 0:
		k := sortedKeys(m.Init)[0]
		m.Init["nosuch"] = m.Init[k]
		delete(m.Init, k)
	default:
		m.Name = ""
	}
	_, err := x.makeMetric(&m, e)
	return err
}

func panicClass(r interface{}) string {
	if e, ok := r.(runtime.Error); ok {
		type addr interface{ Addr() uintptr }
		if a, ok := e.(addr); ok && a.Addr() > 0x10000 {
			return "fault"
		}
	}
	return "panic"
}

// do executes one operation and records it.
func (x *Exec) do(ph, ti, oi int, op *Op) {
	r := &Rec{Ph: ph, Task: ti, Idx: oi, Op: op, Proc: x.nproc}
	w := x.w
	w.Yield()
	x.Recs = append(x.Recs, r) // in the order of the calls
	r.Call, r.CallNs = w.Seq(), w.Mono()
	sw := op.K == "start" || op.K == "stop"
	if sw {
		if q := x.cur[op.C]; q != nil {
			r.InoCall = q.Ino.ID
		}
		r.Faults = -x.faultCount()
		r.Fired = map[string]int{}
		for k, n := range w.Stats().Faults {
			r.Fired[k] = -n
		}
	}
	func() {
		defer func() {
			if v := recover(); v != nil {
				if e, ok := v.(error); ok {
					if _, rt := v.(runtime.Error); !rt && (op.Must || op.K == "up" || strings.HasSuffix(op.K, "all")) {
						r.Err, r.ErrS = true, e.Error()
						return
					}
				}
				w.Fail(panicClass(v), "call %s panics: %v", op, v)
			}
		}()
		if err := x.call(r, op); err != nil {
			r.Err, r.ErrS = true, err.Error()
		}
	}()
	if sw {
		w.RunPollers()
		r.Status = x.status(op.C)
		r.Faults += x.faultCount()
		for k, n := range w.Stats().Faults {
			if r.Fired[k] += n; r.Fired[k] == 0 {
				delete(r.Fired, k)
			}
		}
		r.Handles, r.Maps = len(x.fs.Handles), len(x.fs.Maps)
		if q := x.cur[op.C]; q != nil {
			r.InoRet, r.FileLen = q.Ino.ID, len(q.Ino.Data())
			r.File, r.FileErr = parseMMV(append([]byte(nil), q.Ino.Data()...))
		}
		if op.K == "start" && !r.Err && r.File != nil {
			r.Names = map[string]bool{}
			for _, m := range r.File.Metrics {
				r.Names[m.Name] = true
			}
		}
	}
	w.RunPollers() // stores of the call are stamped before its return
	r.Ret, r.RetNs = w.Seq(), w.Mono()
	w.Yield()
}

func (x *Exec) faultCount() (n int) {
	for k, v := range x.w.Stats().Faults {
		if k != "clock-jump" {
			n += v
		}
	}
	return
}

func (x *Exec) call(r *Rec, op *Op) error {
	e := x.env
	p := x.c.Prog
	w := x.w
	switch op.K {
	case "sleep":
		w.Sleep(op.D)
		return nil
	case "jump":
		w.FaultFired("clock-jump")
		w.JumpWall(op.D)
		return nil
	case "arm":
		x.fs.Arm(op.F...)
		return nil
	case "disarm":
		x.fs.Disarm()
		return nil
	case "yield":
		for i := int64(0); i < op.N; i++ {
			w.Yield()
		}
		return nil
	case "mk":
		if e.metrics[op.M] != nil {
			r.Skip = true
			return nil
		}
		m, err := x.makeMetric(p.Metrics[op.M], e)
		if err == nil {
			e.metrics[op.M] = m
			e.owner[op.M] = [2]int{r.Ph, r.Task}
		}
		return err
	case "mkbad":
		err := x.makeBad(op, e)
		if err == nil {
			r.Bad = "an object that a file cannot hold is made: " + op.I
		}
		return err
	case "mkc":
		if e.clients[op.C] != nil {
			r.Skip = true
			return nil
		}
		c, err := x.makeClient(op.C, e)
		if err == nil {
			e.clients[op.C] = c
		}
		return err
	case "start", "stop", "setflag", "length":
		c := e.clients[op.C]
		if c == nil {
			r.Skip = true
			return nil
		}
		switch op.K {
		case "start":
			if op.Must {
				c.MustStart()
				return nil
			}
			return c.Start()
		case "stop":
			if op.Must {
				c.MustStop()
				return nil
			}
			return c.Stop()
		case "setflag":
			return c.SetFlag(speed.MMVFlag(op.N))
		case "length":
			r.OutI = int64(c.Length())
			return nil
		}
	case "reg", "regstr", "regindom", "regindomname", "nmetrics", "nvalues", "nindoms", "ninst", "nstr", "hasm", "hasi":
		return x.regCall(r, op)
	}
	m := e.metric(r, op.M)
	if m == nil {
		r.Skip = true
		return nil
	}
	if op.K == "attrs" {
		r.Bad = x.attrs(op.M, m)
		return nil
	}
	return x.metricCall(r, op, m)
}

// attrs compares what a metric tells about itself with what it was made with.
func (x *Exec) attrs(k int, obj interface{}) string {
	p := x.c.Prog
	s := p.Metrics[k]
	m := obj.(speed.Metric)
	n := short(s.Name)
	t, sem, unit := p.typeOf(k), int32(semVals[s.Sem]), unitBits[s.Unit]
	switch s.Kind {
	case "counter", "cvec":
		sem, unit = 1, 1<<20
	case "gauge", "gvec":
		sem, unit = 3, 1<<20
	case "timer":
		sem, unit = 4, 1<<24|uint32(s.Unit)<<12
	case "hist":
		sem = 3
	}
	if m.Name() != s.Name || m.ID() != fnv32(s.Name, 10) {
		return fmt.Sprintf("metric %s calls itself %s and has the identifier %d", n, short(m.Name()), m.ID())
	}
	if int(m.Type()) != t || int32(m.Semantics()) != sem || m.Unit().PMAPI() != unit {
		return fmt.Sprintf("metric %s reports type %d semantics %d unit %x instead of %d %d %x", n, m.Type(), m.Semantics(), m.Unit().PMAPI(), t, sem, unit)
	}
	_ = m.Unit().String()
	sh, lo := s.Short, s.Long
	if s.ByString != "" {
		sh, lo = "", ""
	}
	if d, ok := obj.(interface {
		ShortDescription() string
		LongDescription() string
	}); ok && (d.ShortDescription() != sh || d.LongDescription() != lo) {
		return fmt.Sprintf("metric %s reports texts %q %q instead of %q %q", n, short(d.ShortDescription()), short(d.LongDescription()), short(sh), short(lo))
	}
	if t := m.Description(); !strings.Contains(t, sh) || !strings.Contains(t, lo) {
		return fmt.Sprintf("the description of metric %s is %q, its texts are %q %q", n, short(t), short(sh), short(lo))
	}
	d, ok := obj.(interface {
		Indom() *speed.PCPInstanceDomain
	})
	if !ok {
		return ""
	}
	want := p.instancesOf(k)
	if !has([]string{"inst", "cvec", "gvec", "hist"}, s.Kind) {
		if d.Indom() != nil {
			return fmt.Sprintf("metric %s has an instance domain", n)
		}
		return ""
	}
	in := d.Indom()
	if in == nil {
		return fmt.Sprintf("metric %s has no instance domain", n)
	}
	got := in.Instances()
	sort.Strings(got)
	want = append([]string(nil), want...)
	sort.Strings(want)
	if fmt.Sprint(got) != fmt.Sprint(want) || in.InstanceCount() != len(want) || !in.MatchInstances(want) || in.ID() != fnv32(in.Name(), 22) {
		return fmt.Sprintf("metric %s reports the instance domain %s (%d) with instances %q instead of %q", n, short(in.Name()), in.ID(), got, want)
	}
	for _, i := range want {
		if !in.HasInstance(i) {
			return fmt.Sprintf("metric %s: instance %q is missing", n, i)
		}
	}
	_, _ = in.String(), in.Description()
	if l, ok := obj.(interface{ Instances() []string }); ok {
		got := l.Instances()
		sort.Strings(got)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Sprintf("metric %s reports the instances %q instead of %q", n, got, want)
		}
	}
	return ""
}

// attrsRight: every metric tells the truth about itself.
func (x *Exec) attrsRight() string {
	for _, r := range x.Recs {
		if (r.Op.K == "attrs" || r.Op.K == "mkbad") && r.Bad != "" {
			return r.Bad
		}
	}
	return ""
}

func (x *Exec) makeClient(i int, e *procEnv) (*speed.PCPClient, error) {
	c := x.c.Prog.Clients[i]
	if c.Own {
		k := x.c.Prog.reg(i)
		if e.regs[k] == nil {
			e.regs[k] = speed.NewPCPRegistry()
		}
		return speed.NewPCPClientWithRegistry(c.Name, e.regs[k])
	}
	return speed.NewPCPClient(c.Name)
}

func (x *Exec) regCall(r *Rec, op *Op) error {
	e := x.env
	c := e.clients[op.C]
	if c == nil {
		r.Skip = true
		return nil
	}
	reg := c.Registry()
	p := x.c.Prog
	own := p.Clients[op.C].Own
	switch op.K {
	case "reg":
		m, _ := e.metric(r, op.M).(speed.Metric)
		if m == nil {
			r.Skip = true
			return nil
		}
		if op.Must {
			c.MustRegister(m)
			return nil
		}
		if own {
			return reg.AddMetric(m)
		}
		return c.Register(m)
	case "regstr":
		s := p.Metrics[op.M]
		var val interface{}
		if s.Kind == "inst" {
			vals := speed.Instances{}
			for k, v := range s.Init {
				vals[k] = v.goVal()
			}
			val = vals
		} else {
			val = s.Init[""].goVal()
		}
		add := c.RegisterString
		if op.Must {
			add = func(str string, val interface{}, t speed.MetricType, s speed.MetricSemantics, u speed.MetricUnit) (speed.Metric, error) {
				return c.MustRegisterString(str, val, t, s, u), nil
			}
		} else if own {
			add = reg.AddMetricByString
		}
		m, err := add(s.ByString, val, speed.MetricType(s.Type), semVals[s.Sem], makeUnit(s.Unit))
		if err == nil {
			if m == nil || m.Name() != s.Name {
				r.Bad = fmt.Sprintf("registering %q made metric %v", s.ByString, m)
			}
			if e.metrics[op.M] == nil {
				e.metrics[op.M] = m
			}
		}
		return err
	case "regindom":
		d := e.indoms[op.M]
		if d == nil {
			r.Skip = true
			return nil
		}
		if op.Must {
			c.MustRegisterIndom(d)
			return nil
		}
		if own {
			return reg.AddInstanceDomain(d)
		}
		return c.RegisterIndom(d)
	case "regindomname":
		s := p.Indoms[op.M]
		d, err := reg.AddInstanceDomainByName(s.Name, append([]string(nil), s.Inst...))
		if err == nil && (d == nil || d.Name() != s.Name) {
			r.Bad = "wrong instance domain returned"
		}
		return err
	case "nmetrics":
		r.OutI = int64(reg.MetricCount())
	case "nvalues":
		r.OutI = int64(reg.ValuesCount())
	case "nindoms":
		r.OutI = int64(reg.InstanceDomainCount())
	case "ninst":
		r.OutI = int64(reg.InstanceCount())
	case "nstr":
		r.OutI = int64(reg.StringCount())
	case "hasm":
		if reg.HasMetric(op.I) {
			r.OutI = 1
		}
	case "hasi":
		if reg.HasInstanceDomain(op.I) {
			r.OutI = 1
		}
	}
	return nil
}

func (x *Exec) stored(r *Rec, t int, v interface{}) {
	c, ok := canonStored(t, v)
	if !ok {
		r.Bad = fmt.Sprintf("read %v of type %T from a metric of type %d", v, v, t)
	}
	r.Out = c
}

func (x *Exec) metricCall(r *Rec, op *Op, obj interface{}) error {
	spec := x.c.Prog.Metrics[op.M]
	switch m := obj.(type) {
	case *speed.PCPSingletonMetric:
		switch op.K {
		case "read":
			x.stored(r, spec.Type, m.Val())
			return nil
		case "set":
			if op.Must {
				m.MustSet(op.V.goVal())
				return nil
			}
			return m.Set(op.V.goVal())
		case "text":
			r.Text = m.String()
			return nil
		}
	case *speed.PCPInstanceMetric:
		switch op.K {
		case "read":
			v, err := m.ValInstance(op.I)
			if err == nil {
				x.stored(r, spec.Type, v)
			}
			return err
		case "set":
			if op.Must {
				m.MustSetInstance(op.V.goVal(), op.I)
				return nil
			}
			return m.SetInstance(op.V.goVal(), op.I)
		}
	case *speed.PCPCounter:
		switch op.K {
		case "read":
			r.Out = CV{U: uint64(m.Val())}
			return nil
		case "set":
			return m.Set(op.V.i64())
		case "inc":
			if op.Must {
				m.MustInc(op.V.i64())
				return nil
			}
			return m.Inc(op.V.i64())
		case "up":
			m.Up()
			return nil
		}
	case *speed.PCPGauge:
		switch op.K {
		case "read":
			r.Out = CV{U: canonF64(m.Val())}
			return nil
		case "set":
			if op.Must {
				m.MustSet(op.V.f64())
				return nil
			}
			return m.Set(op.V.f64())
		case "inc":
			if op.Must {
				m.MustInc(op.V.f64())
				return nil
			}
			return m.Inc(op.V.f64())
		case "dec":
			if op.Must {
				m.MustDec(op.V.f64())
				return nil
			}
			return m.Dec(op.V.f64())
		}
	case *speed.PCPTimer:
		switch op.K {
		case "tstart":
			return m.Start()
		case "tstop":
			v, err := m.Stop()
			r.OutF = v
			return err
		case "treset":
			return m.Reset()
		}
	case *speed.PCPCounterVector:
		switch op.K {
		case "read":
			v, err := m.Val(op.I)
			r.Out = CV{U: uint64(v)}
			return err
		case "set":
			if op.Must {
				m.MustSet(op.V.i64(), op.I)
				return nil
			}
			return m.Set(op.V.i64(), op.I)
		case "inc":
			if op.Must {
				m.MustInc(op.V.i64(), op.I)
				return nil
			}
			return m.Inc(op.V.i64(), op.I)
		case "up":
			m.Up(op.I)
			return nil
		case "setall":
			m.SetAll(op.V.i64())
			return nil
		case "incall":
			m.IncAll(op.V.i64())
			return nil
		case "upall":
			m.UpAll()
			return nil
		}
	case *speed.PCPGaugeVector:
		switch op.K {
		case "read":
			v, err := m.Val(op.I)
			r.Out = CV{U: canonF64(v)}
			return err
		case "set":
			if op.Must {
				m.MustSet(op.V.f64(), op.I)
				return nil
			}
			return m.Set(op.V.f64(), op.I)
		case "inc":
			if op.Must {
				m.MustInc(op.V.f64(), op.I)
				return nil
			}
			return m.Inc(op.V.f64(), op.I)
		case "dec":
			if op.Must {
				m.MustDec(op.V.f64(), op.I)
				return nil
			}
			return m.Dec(op.V.f64(), op.I)
		case "setall":
			m.SetAll(op.V.f64())
			return nil
		case "incall":
			m.IncAll(op.V.f64())
			return nil
		case "decall":
			m.DecAll(op.V.f64())
			return nil
		}
	case *speed.PCPHistogram:
		switch op.K {
		case "rec":
			if op.Must {
				m.MustRecord(op.N)
				return nil
			}
			return m.Record(op.N)
		case "recn":
			if op.Must {
				m.MustRecordN(op.N, op.D)
				return nil
			}
			return m.RecordN(op.N, op.D)
		case "max":
			r.OutF = float64(m.Max())
		case "min":
			r.OutF = float64(m.Min())
		case "mean":
			r.OutF = m.Mean()
		case "var":
			r.OutF = m.Variance()
		case "sd":
			r.OutF = m.StandardDeviation()
		case "pct":
			r.OutI = m.Percentile(float64(op.N))
		case "high":
			r.OutI = m.High()
		case "low":
			r.OutI = m.Low()
		case "buckets":
			for _, b := range m.Buckets() {
				r.Buckets = append(r.Buckets, *b)
			}
			sort.Slice(r.Buckets, func(i, j int) bool { return r.Buckets[i].From < r.Buckets[j].From })
		default:
			panic("op " + op.K)
		}
		return nil
	}
	panic(fmt.Sprintf("operation %s on %T", op.K, obj))
}
