// Package vsim is the deterministic simulator: a cooperative scheduler that
// owns every goroutine of the instrumented code, the clock, the channels, the
// locks and the memory access points.  Exactly one task runs at a time; which
// one is decided by a seeded policy (or by an explicit list of decisions when
// a recorded execution is replayed).
package vsim

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
)

// Rng is a splitmix64 generator.
type Rng struct{ s uint64 }

// NewRng returns a generator for the seed.
func NewRng(seed uint64) *Rng { return &Rng{seed*0x9E3779B97F4A7C15 + 0x1234567} }

// Next returns 64 random bits.
func (r *Rng) Next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	return mix(r.s)
}

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Intn returns a number in [0,n).
func (r *Rng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

// Chance is true with probability num/den.
func (r *Rng) Chance(num, den int) bool { return r.Intn(den) < num }

// Perm returns a permutation of n.
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

type gstate uint8

const (
	gRunnable gstate = iota
	gBlocked
	gDone
)

// Proc is a simulated operating system process.
type Proc struct {
	ID   int
	Name string
	Dead bool
}

// G is a simulated goroutine.
type G struct {
	ID       int
	Name     string
	Proc     *Proc
	Lib      bool // created by instrumented code
	wake     chan struct{}
	exited   chan struct{}
	st       gstate
	why      string
	killed   bool
	joinWait []*G
	exiting  bool
	vc       []uint32
	prio     int
	runPos   int
	waiting  bool // generic flag used by primitives
	slot     any  // value passed by a waker
	streak   int
}

// Decision is one deviation of the schedule from the default.
type Decision struct {
	N int `json:"n"` // decision number
	G int `json:"g"` // task chosen
}

// Schedule describes the scheduling policy of one execution.
type Schedule struct {
	Mode    string     `json:"mode"` // random, pct, sites, explicit, none
	Seed    uint64     `json:"seed,omitempty"`
	P       int        `json:"p,omitempty"`     // preemption probability 1/P (random)
	Depth   int        `json:"depth,omitempty"` // pct change points
	Est     int        `json:"est,omitempty"`   // pct horizon
	Hot     int        `json:"hot,omitempty"`   // sites: 1/Hot of the sites preempt
	MapSeed uint64     `json:"map_seed,omitempty"`
	Devs    []Decision `json:"devs,omitempty"`
}

// Violation found by the simulator or a scenario.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// Stats of one execution.
type Stats struct {
	Steps, Switches, Preempts, Decisions int
	Faults                               map[string]int
	Probes                               map[string]int
	SimNanos                             int64
	Tasks                                int
}

// Config of one execution.
type Config struct {
	Sched    Schedule
	MaxSteps int
	MaxTasks int
	Race     bool
	MapRace  bool // look for races on maps only
	Trace    bool // keep a readable trace
	ZeroTick bool // steps take no simulated time
	// KillAtStep kills Target process when the step is reached (0: never)
	Log func(string)
}

// World is one simulated execution.
type World struct {
	Cfg   Config
	cur   *G
	gs    []*G
	run   []*G // runnable tasks other than cur
	steps int
	dec   int

	rng      *Rng
	explicit map[int]int
	devs     []Decision
	hashT    uint64 // trace hash
	hashS    uint64 // schedule hash (switches only)
	mapCtr   uint64
	selCtr   uint64

	pctPoints map[int]bool
	pctLow    int

	done     chan struct{}
	finished bool
	stopping bool
	rootDone bool

	Viol   *Violation
	Leaked []string

	stats Stats
	hook  int // >0: inside observer, no scheduling

	// clock
	mono   int64 // simulated monotonic nanoseconds
	wall   int64 // offset: wall = WallBase + mono + wall
	timers timerHeap
	tseq   uint64

	chans  map[uintptr]*hchan
	chkeep []any

	pollers []func()
	onKill  []func(p *Proc)

	shadow    map[uintptr]*shadowCell
	mapShadow map[uintptr]*shadowCell
	keep      []any
	races     map[string]bool
	mapBusy   map[unsafe.Pointer]*G // maps being written
	RaceFound []string

	Trace []string
	// Env for shims
	FS  any
	Ext map[string]any
	// AllowPanic classifies panics in library goroutines; nil: violation
	seq int64
}

// W is the current world; nil outside of an execution.
var W *World

// Seq returns the next event number of the history.
func (w *World) Seq() int64 { w.seq++; return w.seq }

// Steps returns the number of steps so far.
func (w *World) Steps() int { return w.steps }

// Cur returns the current task.
func (w *World) Cur() *G { return w.cur }

// Stats returns the statistics of the run.
func (w *World) Stats() *Stats { return &w.stats }

// TraceHash identifies the execution (points, tasks).
func (w *World) TraceHash() uint64 { return w.hashT }

// SchedHash identifies the interleaving (sequence of switches).
func (w *World) SchedHash() uint64 { return w.hashS }

// Devs are the recorded deviations from the default schedule.
func (w *World) Devs() []Decision { return w.devs }

// Probe counts a rare condition.
func (w *World) Probe(name string) { w.stats.Probes[name]++ }

// FaultFired counts an injected fault.
func (w *World) FaultFired(name string) { w.stats.Faults[name]++ }

// NewWorld prepares an execution.
func NewWorld(cfg Config) *World {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 3000000
	}
	w := &World{Cfg: cfg, done: make(chan struct{}), chans: map[uintptr]*hchan{}, Ext: map[string]any{}}
	w.stats.Faults = map[string]int{}
	w.stats.Probes = map[string]int{}
	w.rng = NewRng(cfg.Sched.Seed ^ 0x5CED)
	w.hashT, w.hashS = 14695981039346656037, 14695981039346656037
	if cfg.Sched.Mode == "explicit" {
		w.explicit = map[int]int{}
		for _, d := range cfg.Sched.Devs {
			w.explicit[d.N] = d.G
		}
	}
	if cfg.Sched.Mode == "pct" {
		w.pctPoints = map[int]bool{}
		est := cfg.Sched.Est
		if est < 10 {
			est = 10
		}
		for i := 0; i < cfg.Sched.Depth; i++ {
			w.pctPoints[w.rng.Intn(est)] = true
		}
	}
	if cfg.MapRace {
		w.Cfg.Race = true
		w.mapShadow = map[uintptr]*shadowCell{}
		w.races = map[string]bool{}
	} else if cfg.Race {
		w.shadow = map[uintptr]*shadowCell{}
		w.mapShadow = w.shadow
		w.races = map[string]bool{}
	}
	w.mono = MonoBase
	return w
}

// Run executes root as the first task and returns when the execution is over.
func (w *World) Run(root func()) {
	if W != nil {
		panic("vsim: nested world")
	}
	W = w
	g := w.newG("main", &Proc{ID: 0, Name: "p0"}, false)
	w.launch(g, func() {
		root()
		w.rootDone = true
	})
	w.removeRun(g)
	w.cur = g
	g.wake <- struct{}{}
	<-w.done
	// release every task that is left
	w.stopping = true
	w.hook = 0
	for i := 0; i < len(w.gs); i++ {
		g := w.gs[i]
		if g.st != gDone {
			g.killed = true
			w.cur = g
			g.wake <- struct{}{}
			<-g.exited
		}
	}
	W = nil
	w.stats.Steps = w.steps
	w.stats.Decisions = w.dec
	w.stats.Tasks = len(w.gs)
	w.stats.SimNanos = w.mono - 5000000000
}

func (w *World) newG(name string, p *Proc, lib bool) *G {
	g := &G{ID: len(w.gs), Name: name, Proc: p, Lib: lib, wake: make(chan struct{}, 1), exited: make(chan struct{})}
	w.gs = append(w.gs, g)
	if w.Cfg.Sched.Mode == "pct" {
		g.prio = 1000 + w.rng.Intn(1000000)
	}
	if w.Cfg.Race {
		if w.cur != nil {
			g.vc = append([]uint32(nil), w.cur.vc...)
		}
		for len(g.vc) <= g.ID {
			g.vc = append(g.vc, 0)
		}
		g.vc[g.ID] = 1
		if w.cur != nil {
			w.cur.vc[w.cur.ID]++
		}
	}
	w.addRun(g)
	return g
}

func (w *World) launch(g *G, fn func()) {
	go func() {
		<-g.wake
		defer close(g.exited)
		defer func() {
			if r := recover(); r != nil {
				if !w.stopping && !g.killed {
					w.crash(g, r)
				}
			}
			w.gexit(g)
		}()
		if g.killed {
			return
		}
		debug.SetPanicOnFault(true)
		fn()
	}()
}

// Spawn starts a task of process p (nil: the process of the caller).
func (w *World) Spawn(name string, p *Proc, fn func()) *G {
	if p == nil {
		p = w.cur.Proc
	}
	g := w.newG(name, p, false)
	w.launch(g, fn)
	return g
}

// Go implements the go statement of instrumented code.
func Go(site uint32, fn func()) {
	w := W
	if w == nil {
		panic("vsim: goroutine started outside of a simulation")
	}
	if w.stopping || w.cur.killed {
		return
	}
	if w.Cfg.MaxTasks > 0 && len(w.gs) > w.Cfg.MaxTasks {
		w.Fail("livelock", "more than %d goroutines started, at %s", w.Cfg.MaxTasks, SiteName(site))
	}
	g := w.newG(fmt.Sprintf("lib@%s", SiteName(site)), w.cur.Proc, true)
	w.launch(g, fn)
	w.point(site)
}

// Join waits until the task has ended.
func (w *World) Join(gs ...*G) {
	for _, g := range gs {
		for g.st != gDone {
			me := w.cur
			me.why = "join " + g.Name
			g.joiners(w, me)
			w.block()
		}
		if w.Cfg.Race {
			w.vcJoin(&w.cur.vc, g.vc)
		}
	}
}

func (g *G) joiners(w *World, me *G) { g.joinWait = append(g.joinWait, me) }

// Done reports whether the task has ended.
func (g *G) Done() bool { return g.st == gDone }

func (w *World) gexit(g *G) {
	g.st = gDone
	for _, j := range g.joinWait {
		w.ready(j)
	}
	g.joinWait = nil
	if w.stopping || w.finished {
		return
	}
	if g != w.cur {
		return // killed by KillProc
	}
	next := w.pickNext()
	if next == nil {
		w.finish()
		return
	}
	w.cur = next
	w.noteSwitch(next)
	next.wake <- struct{}{}
}

func (w *World) finish() {
	if w.finished {
		return
	}
	w.finished = true
	for _, g := range w.gs {
		if g.st == gBlocked && !g.Proc.Dead {
			if g.Lib {
				w.Leaked = append(w.Leaked, g.Name+" blocked on "+g.why)
			} else if w.Viol == nil {
				w.Viol = &Violation{"deadlock", w.blockedReport()}
			}
		}
	}
	if !w.rootDone && w.Viol == nil && !w.gs[0].Proc.Dead {
		w.Viol = &Violation{"deadlock", w.blockedReport()}
	}
	close(w.done)
}

func (w *World) blockedReport() string {
	var b []string
	for _, g := range w.gs {
		if g.st == gBlocked && !g.Proc.Dead {
			b = append(b, fmt.Sprintf("%s blocked on %s", g.Name, g.why))
		}
	}
	sort.Strings(b)
	if len(b) > 12 {
		b = append(b[:12], "...")
	}
	return "no task can proceed: " + strings.Join(b, "; ")
}

// Fail records a violation and ends the execution.  It does not return when
// called from a task.
func (w *World) Fail(class, format string, args ...any) {
	if w.Viol == nil {
		w.Viol = &Violation{class, fmt.Sprintf(format, args...)}
	}
	w.abort()
}

// Failed reports whether a violation has been found.
func (w *World) Failed() bool { return w.Viol != nil }

func (w *World) abort() {
	if w.stopping {
		return
	}
	if !w.finished {
		w.finished = true
		close(w.done)
	}
	// park forever; Run releases us
	g := w.cur
	<-g.wake
	g.exit()
}

// exit unwinds the task; deferred calls run with all primitives disabled.
func (g *G) exit() {
	g.killed = true
	if !g.exiting {
		g.exiting = true
		runtime.Goexit()
	}
}

func (w *World) crash(g *G, r any) {
	if w.Viol == nil {
		msg := fmt.Sprint(r)
		class := "panic"
		if e, ok := r.(runtime.Error); ok {
			if strings.Contains(msg, "invalid memory address") && hasAddr(e) {
				class = "fault"
				msg = "access to memory that is not mapped any more (SIGSEGV)"
			}
		}
		w.Viol = &Violation{class, "goroutine " + g.Name + " died: " + msg + " at " + panicSite()}
	}
	if !w.finished {
		w.finished = true
		close(w.done)
	}
}

func hasAddr(e runtime.Error) bool {
	type addr interface{ Addr() uintptr }
	a, ok := e.(addr)
	return ok && a.Addr() > 0x10000
}

func panicSite() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		l = strings.TrimSpace(l)
		if i := strings.LastIndex(l, "/"); i >= 0 && strings.Contains(l, "speed") && strings.Contains(l, "(") && !strings.HasPrefix(l, "/") {
			f := l[i+1:]
			if j := strings.LastIndex(f, "("); j > 0 {
				f = f[:j]
			}
			out = append(out, f)
			if len(out) == 4 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

// ---- run queue

func (w *World) addRun(g *G) {
	g.st = gRunnable
	g.runPos = len(w.run)
	w.run = append(w.run, g)
}

func (w *World) removeRun(g *G) {
	i := g.runPos
	last := len(w.run) - 1
	w.run[i] = w.run[last]
	w.run[i].runPos = i
	w.run = w.run[:last]
}

// ready makes a blocked task runnable.
func (w *World) ready(g *G) {
	if g.st == gBlocked {
		g.why = ""
		w.addRun(g)
	}
}

// defaultNext is the lowest numbered runnable task.
func (w *World) defaultNext() *G {
	var b *G
	for _, g := range w.run {
		if b == nil || g.ID < b.ID {
			b = g
		}
	}
	return b
}

func (w *World) byID(id int) *G {
	for _, g := range w.run {
		if g.ID == id {
			return g
		}
	}
	return nil
}

// pickNext chooses the task to run after the current one blocked or ended; it
// removes it from the run queue.  When nothing is runnable the clock jumps to
// the next timer; nil means that nothing can happen any more.
func (w *World) pickNext() *G {
	for len(w.run) == 0 {
		if w.rootDone && w.onlyLib() {
			return nil
		}
		if !w.fireNextTimer() {
			return nil
		}
	}
	var next *G
	w.dec++
	if len(w.run) == 1 {
		next = w.run[0]
	} else {
		def := w.defaultNext()
		switch w.Cfg.Sched.Mode {
		case "explicit":
			if id, ok := w.explicit[w.dec]; ok {
				next = w.byID(id)
			}
			if next == nil {
				next = def
			}
		case "none":
			next = def
		case "pct":
			for _, g := range w.run {
				if next == nil || g.prio > next.prio || (g.prio == next.prio && g.ID < next.ID) {
					next = g
				}
			}
		default:
			next = w.run[w.rng.Intn(len(w.run))]
		}
		if next != def {
			w.devs = append(w.devs, Decision{w.dec, next.ID})
		}
	}
	w.removeRun(next)
	next.streak = 0
	return next
}

func (w *World) onlyLib() bool {
	for _, g := range w.gs {
		if g.st == gBlocked && !g.Lib && !g.Proc.Dead {
			return false
		}
	}
	return true
}

func (w *World) noteSwitch(next *G) {
	w.stats.Switches++
	w.hashS = (w.hashS ^ uint64(next.ID) ^ uint64(w.steps)<<8) * 1099511628211
}

// block parks the current task until someone calls ready on it.
func (w *World) block() {
	g := w.cur
	if g.killed || w.stopping {
		g.exit()
		return
	}
	g.st = gBlocked
	next := w.pickNext()
	if next == nil {
		w.finish()
		<-g.wake
		g.exit()
		return
	}
	if next == g { // a timer woke us
		return
	}
	w.cur = next
	w.noteSwitch(next)
	next.wake <- struct{}{}
	<-g.wake
	if g.killed {
		g.exit()
	}
}

func (w *World) switchTo(next *G) {
	g := w.cur
	w.removeRun(next)
	w.addRun(g)
	next.streak = 0
	w.cur = next
	w.stats.Preempts++
	w.noteSwitch(next)
	next.wake <- struct{}{}
	<-g.wake
	if g.killed {
		g.exit()
	}
}

// point is a scheduling point.
func (w *World) point(site uint32) {
	if w.hook > 0 {
		return
	}
	g := w.cur
	if g.killed || w.stopping {
		g.exit()
		return
	}
	w.steps++
	if !w.Cfg.ZeroTick {
		w.mono += 50
	}
	w.hashT = (w.hashT ^ uint64(g.ID)<<32 ^ uint64(site)) * 1099511628211
	if w.steps > w.Cfg.MaxSteps {
		w.Fail("livelock", "no end after %d steps; running %s at %s", w.steps, g.Name, SiteName(site))
	}
	if len(w.pollers) > 0 {
		w.hook++
		for _, p := range w.pollers {
			p()
		}
		w.hook--
		if g.killed {
			g.exit()
			return
		}
	}
	if len(w.timers) > 0 && w.timers[0].at <= w.mono {
		w.fireDue()
	}
	if len(w.run) == 0 {
		return
	}
	w.dec++
	g.streak++
	var next *G
	s := &w.Cfg.Sched
	switch s.Mode {
	case "explicit":
		if id, ok := w.explicit[w.dec]; ok {
			next = w.byID(id)
		}
		if g.streak > 200000 { // keep spinning tasks from starving the rest
			next = w.defaultNext()
			g.streak = 0
		}
	case "none":
		if g.streak > 200000 {
			next = w.defaultNext()
			g.streak = 0
		}
	case "pct":
		if w.pctPoints[w.dec] || g.streak > 3000 {
			w.pctLow--
			g.prio = w.pctLow
			g.streak = 0
		}
		for _, o := range w.run {
			if o.prio > g.prio && (next == nil || o.prio > next.prio || (o.prio == next.prio && o.ID < next.ID)) {
				next = o
			}
		}
	case "sites":
		if h := mix(uint64(site)*77 + s.Seed); h%uint64(s.Hot) == 0 {
			if w.rng.Intn(2) == 0 {
				next = w.run[w.rng.Intn(len(w.run))]
			}
		} else if w.rng.Intn(400) == 0 {
			next = w.run[w.rng.Intn(len(w.run))]
		}
	default:
		if w.rng.Intn(s.P) == 0 {
			next = w.run[w.rng.Intn(len(w.run))]
		}
	}
	if next != nil {
		w.devs = append(w.devs, Decision{w.dec, next.ID})
		w.switchTo(next)
	}
}

// Yield is an explicit scheduling point for harness code.
func (w *World) Yield() { w.point(0) }

// Observe runs f without scheduling points (observer code).
func (w *World) Observe(f func()) {
	w.hook++
	defer func() { w.hook-- }()
	f()
}

// AddPoller registers a function called at every point.
func (w *World) AddPoller(f func()) { w.pollers = append(w.pollers, f) }

// RunPollers calls the pollers now.
func (w *World) RunPollers() {
	w.hook++
	for _, p := range w.pollers {
		p()
	}
	w.hook--
}

// Wait blocks the current task until cond holds; cond is evaluated after
// every wake-up of the waiters list.
type Waiters struct{ gs []*G }

// Wait parks the current task on the list.
func (l *Waiters) Wait(w *World, why string) {
	l.gs = append(l.gs, w.cur)
	w.cur.why = why
	w.block()
}

// WakeAll readies all parked tasks.
func (l *Waiters) WakeAll(w *World) {
	for _, g := range l.gs {
		w.ready(g)
	}
	l.gs = nil
}

// KillProc kills all tasks of a process except, if it is one of them, the
// current one, which dies at its next point.  Only the file system survives.
func (w *World) KillProc(p *Proc) {
	if p.Dead {
		return
	}
	p.Dead = true
	for _, f := range w.onKill {
		f(p)
	}
	for _, g := range w.gs {
		if g.Proc == p && g.st != gDone {
			g.killed = true
			if g == w.cur {
				continue
			}
			if g.st == gBlocked {
				// it will be released at the end of the run
				g.why = "killed"
			} else {
				w.removeRun(g)
				g.st = gBlocked
				g.why = "killed"
			}
			// joiners do not wait for dead tasks
			for _, j := range g.joinWait {
				w.ready(j)
			}
			g.joinWait = nil
		}
	}
}

// OnKill registers a function called when a process dies.
func (w *World) OnKill(f func(p *Proc)) { w.onKill = append(w.onKill, f) }

// JoinOrDead waits until every task has ended or its process is dead.
func (w *World) JoinOrDead(gs ...*G) {
	for _, g := range gs {
		for g.st != gDone && !g.Proc.Dead {
			w.cur.why = "join " + g.Name
			g.joiners(w, w.cur)
			w.block()
		}
		if w.Cfg.Race {
			w.vcJoin(&w.cur.vc, g.vc)
		}
	}
}

// Tracef appends to the readable trace.
func (w *World) Tracef(format string, args ...any) {
	if w.Cfg.Trace {
		w.Trace = append(w.Trace, fmt.Sprintf("%7d %-10s ", w.steps, w.cur.Name)+fmt.Sprintf(format, args...))
	}
}

// Unsupported ends the process: the simulator does not model something.
func Unsupported(what string) {
	fmt.Println("vsim: UNSUPPORTED " + what)
	panic("vsim: unsupported: " + what)
}

// Killed reports whether the current task is being torn down; simulated
// primitives then do nothing.
func dead(w *World) bool { return w == nil || w.stopping || w.cur.killed }

// Hash64 mixes values.
func Hash64(vs ...uint64) uint64 {
	h := uint64(88172645463325252)
	for _, v := range vs {
		h = mix(h ^ v)
	}
	return h
}

// MapOrderHash returns the seed for the next map iteration (0: sorted).
func (w *World) nextMapSeed() uint64 {
	if w.Cfg.Sched.MapSeed == 0 {
		return 0
	}
	w.mapCtr++
	return Hash64(w.Cfg.Sched.MapSeed, w.mapCtr)
}

// siteNames is filled by the instrumented packages.
var siteNames = map[uint32]string{}

// RegisterSites names sites for diagnostics.
func RegisterSites(base uint32, names []string) {
	for i, n := range names {
		siteNames[base+uint32(i)] = n
	}
}

// SiteName returns the source position of a site.
func SiteName(s uint32) string {
	if n, ok := siteNames[s]; ok {
		return n
	}
	return fmt.Sprintf("site%d", s)
}

type resetFn struct {
	pkg string
	fn  func()
}

var resets []resetFn

// OnReset registers the re-initialisation of a package's variables.
func OnReset(pkg string, fn func()) { resets = append(resets, resetFn{pkg, fn}) }

// ResetPackages gives every instrumented package the state it has in a newly
// started process (runs variable initialisers and init functions).
func ResetPackages() {
	for _, r := range resets {
		r.fn()
	}
}

// ResetSome does the same for the packages below a path.
func ResetSome(path string) {
	for _, r := range resets {
		if r.pkg == path || strings.HasPrefix(r.pkg, path+"/") {
			r.fn()
		}
	}
}

// Active returns the world if the caller is a live task; nil when the caller
// runs outside of a simulation, inside an observer or is being torn down.
func Active() *World {
	w := W
	if w == nil || w.hook > 0 || dead(w) {
		return nil
	}
	return w
}

// Dying reports that the current task is being torn down.
func Dying() bool { return W != nil && dead(W) }

// Point is a scheduling point of a shim.
func (w *World) Point(site uint32) { w.point(site) }

// SpawnLib starts a goroutine of the instrumented code (timers).
func (w *World) SpawnLib(name string, fn func()) {
	g := w.newG("lib@"+name, w.cur.Proc, true)
	w.launch(g, fn)
}

// YieldFair lets another task run (runtime.Gosched).
func (w *World) YieldFair() {
	w.point(3)
	if len(w.run) == 0 || w.cur.killed {
		return
	}
	w.dec++
	var next *G
	if w.Cfg.Sched.Mode == "explicit" {
		if id, ok := w.explicit[w.dec]; ok {
			next = w.byID(id)
		}
	}
	if next == nil {
		// the next task in round robin order
		for _, g := range w.run {
			if g.ID > w.cur.ID && (next == nil || g.ID < next.ID) {
				next = g
			}
		}
		if next == nil {
			next = w.defaultNext()
		}
	}
	w.switchTo(next)
}

// LibTasks lists the tasks started by instrumented code in a process that
// have not ended.
func (w *World) LibTasks(p *Proc) (l []string) {
	for _, g := range w.gs {
		if g.Lib && g.Proc == p && g.st != gDone && !g.killed {
			why := g.why
			if g.st == gRunnable {
				why = "nothing (runnable)"
			}
			l = append(l, g.Name+" waiting for "+why)
		}
	}
	return l
}

// Settle lets tasks of the library that are still running come to an end, for
// at most n rounds.
func (w *World) Settle(p *Proc, n int) {
	for i := 0; i < n; i++ {
		busy := false
		for _, g := range w.gs {
			if g.Lib && g.Proc == p && g.st == gRunnable && !g.killed {
				busy = true
				break
			}
		}
		if !busy {
			return
		}
		w.YieldFair()
	}
}

// Tasks is the number of tasks so far.
func (w *World) Tasks() int { return len(w.gs) }

// LiveTasks counts tasks that have not ended.
func (w *World) LiveTasks() int {
	n := 0
	for _, g := range w.gs {
		if g.st != gDone {
			n++
		}
	}
	return n
}

func init() {
	RegisterSites(0, []string{"harness", "time", "rand", "Gosched"})
}
