package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

const caseLimit = 30 * time.Second

func limitMemory() {
	lim := syscall.Rlimit{Cur: 5 << 30, Max: 5 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
	debug.SetMemoryLimit(2 << 30)
	debug.SetMaxStack(256 << 20)
}

// Totals of a worker or of a whole run.
type Totals struct {
	Runs, Nontrivial, Early, Unclear, OracleErr, Rerun, Nondet int
	Steps, Decisions, Switches, Preempts, Tasks                int64
	SimNanos                                                   int64
	Faults, Probes, Modes, EarlyBy                             map[string]int
	FaultRuns                                                  int
	Samples                                                    []json.RawMessage
	Errs                                                       []string
	Hashes                                                     []uint64
	Programs                                                   []uint64
}

func newTotals() *Totals {
	return &Totals{Faults: map[string]int{}, Probes: map[string]int{}, Modes: map[string]int{}, EarlyBy: map[string]int{}}
}

func (t *Totals) add(o *Totals) {
	t.Runs += o.Runs
	t.Nontrivial += o.Nontrivial
	t.Early += o.Early
	t.Unclear += o.Unclear
	t.OracleErr += o.OracleErr
	t.Rerun += o.Rerun
	t.Nondet += o.Nondet
	t.Steps += o.Steps
	t.Decisions += o.Decisions
	t.Switches += o.Switches
	t.Preempts += o.Preempts
	t.Tasks += o.Tasks
	t.SimNanos += o.SimNanos
	t.FaultRuns += o.FaultRuns
	for _, p := range [][2]map[string]int{{t.Faults, o.Faults}, {t.Probes, o.Probes}, {t.Modes, o.Modes}, {t.EarlyBy, o.EarlyBy}} {
		for k, v := range p[1] {
			p[0][k] += v
		}
	}
	if len(t.Samples) < 3 {
		t.Samples = append(t.Samples, o.Samples...)
	}
	t.Errs = append(t.Errs, o.Errs...)
	t.Hashes = append(t.Hashes, o.Hashes...)
	t.Programs = append(t.Programs, o.Programs...)
}

// message of a worker.
type message struct {
	T *Totals `json:",omitempty"`
	V *Replay `json:",omitempty"`
	// Done: the worker has ended in order
	Done bool `json:",omitempty"`
}

func doWorker(prop string, seed uint64, from, me, n int, beat string, budget time.Duration, min int) {
	runtime.GOMAXPROCS(1)
	limitMemory()
	bf, err := os.OpenFile(beat, os.O_RDWR|os.O_CREATE, 0600)
	if err != nil {
		fatal("%v", err)
	}
	var started atomic.Int64
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	go func() { // watchdog
		for {
			time.Sleep(500 * time.Millisecond)
			if s := started.Load(); s != 0 && time.Since(time.Unix(0, s)) > caseLimit {
				fmt.Fprintln(os.Stderr, "HANG")
				os.Exit(7)
			}
		}
	}()
	end := time.Now().Add(budget)
	hard := time.Now().Add(budget + 240*time.Second)
	t := newTotals()
	last := time.Now()
	flush := func() {
		if err := enc.Encode(message{T: t}); err != nil {
			fatal("%v", err)
		}
		out.Flush()
		t = newTotals()
		last = time.Now()
	}
	var b [8]byte
	for i := from + (me-from%n+n)%n; ; i += n {
		now := time.Now()
		if now.After(hard) || now.After(end) && i >= min {
			break
		}
		started.Store(now.UnixNano())
		binary.LittleEndian.PutUint64(b[:], uint64(i)+1)
		bf.WriteAt(b[:], 0)
		c := makeCase(prop, seed, i)
		o := runCase(c)
		h := o.x.w.TraceHash()
		t.count(c, &o, me == 0)
		if o.oracleErr == "" && (o.v.Class != "" || (i/n)%150 == 7) {
			t.Rerun++
			p := runCase(makeCase(prop, seed, i))
			if p.x.w.TraceHash() != h || p.v.Class != o.v.Class {
				t.Nondet++
				t.Errs = append(t.Errs, fmt.Sprintf("case %d is not deterministic: %016x %+v, then %016x %+v", i, h, o.v, p.x.w.TraceHash(), p.v))
				o.v.Class = ""
			}
		}
		started.Store(0)
		if o.v.Class != "" {
			r := &Replay{Property: prop, Verdict: o.v, Seed: seed, Index: i, Case: c}
			r.fill(&o)
			flush()
			enc.Encode(message{V: r})
			out.Flush()
			break
		}
		if time.Since(last) > time.Second {
			flush()
		}
	}
	flush()
	enc.Encode(message{Done: true})
	out.Flush()
}

func (t *Totals) count(c *Case, o *outcome, sample bool) {
	s := o.x.w.Stats()
	t.Runs++
	t.Steps += int64(s.Steps)
	t.Decisions += int64(s.Decisions)
	t.Switches += int64(s.Switches)
	t.Preempts += int64(s.Preempts)
	t.Tasks += int64(s.Tasks)
	t.SimNanos += s.SimNanos
	t.Modes[c.Sched.Mode]++
	for k, v := range s.Faults {
		t.Faults[k] += v
	}
	if len(s.Faults) > 0 {
		t.FaultRuns++
	}
	for k, v := range s.Probes {
		t.Probes[k] += v
	}
	if o.early != "" {
		t.Early++
		t.EarlyBy[o.early]++
	}
	if o.unclear > 0 {
		t.Unclear++
	}
	if o.oracleErr != "" {
		t.OracleErr++
		if len(t.Errs) < 3 {
			t.Errs = append(t.Errs, "oracle: "+o.oracleErr)
		}
	}
	ph := progHash(c)
	t.Programs = append(t.Programs, ph)
	if o.nontrivial() {
		t.Nontrivial++
		t.Hashes = append(t.Hashes, ph^o.x.w.SchedHash())
		if sample && t.Runs%7 == 3 && len(t.Samples) < 1 {
			b, _ := json.Marshal(c)
			if len(b) < 5000 {
				s, _ := json.Marshal(map[string]interface{}{"case": c, "history": history(o.x), "steps": s.Steps, "faults": s.Faults, "trace_hash": fmt.Sprintf("%016x", o.x.w.TraceHash())})
				if len(s) < 12000 {
					t.Samples = append(t.Samples, s)
				}
			}
		}
	}
}

type coord struct {
	prop, tier        string
	seed              uint64
	budget            time.Duration
	min, n            int
	evidence, replays string
	verbose           bool

	mu    sync.Mutex
	t     *Totals
	viols []*Replay
	odd   []string // workers that died
	stop  atomic.Bool
	cmds  map[int]*exec.Cmd
	hunts int
}

func self() string {
	p, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	return p
}

func (co *coord) run() int {
	begin := time.Now()
	co.t = newTotals()
	co.cmds = map[int]*exec.Cmd{}
	tmp, err := os.MkdirTemp("", "speedsim")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmp)
	fmt.Printf("property %s tier %s seed %d\n", co.prop, co.tier, co.seed)
	var wg sync.WaitGroup
	for i := 0; i < co.n; i++ {
		wg.Add(1)
		go func(i int) { defer wg.Done(); co.worker(i, filepath.Join(tmp, fmt.Sprint("beat", i)), begin) }(i)
	}
	wg.Wait()
	explored := time.Since(begin)
	code := co.verdict(tmp)
	wall := time.Since(begin)
	co.writeEvidence(explored, wall, code)
	t := co.t
	fmt.Printf("%s: %d executions, %d distinct non-trivial, %d ended early %v, %d inconclusive, %.1f s simulated, %d faults, %.1f s\n",
		co.prop, t.Runs, distinct(t.Hashes), t.Early, t.EarlyBy, t.Unclear, float64(t.SimNanos)/1e9, sum(t.Faults), wall.Seconds())
	for i, e := range t.Errs {
		if i < 5 {
			fmt.Fprintln(os.Stderr, e)
		}
	}
	for _, e := range co.odd {
		fmt.Fprintln(os.Stderr, e)
	}
	if code == 0 && (t.Runs == 0 || t.OracleErr*10 > t.Runs || t.Nondet > 0) {
		fmt.Fprintln(os.Stderr, "the check could not decide: the machinery failed")
		return 2
	}
	return code
}

// worker runs one worker process, again after it died.
func (co *coord) worker(i int, beat string, begin time.Time) {
	from, deaths := 0, 0
	for !co.stop.Load() {
		left := co.budget - time.Since(begin)
		if left <= 0 && from >= co.min {
			return
		}
		os.Remove(beat)
		cmd := exec.Command(self(), "-worker", fmt.Sprintf("%d/%d/%s", i, co.n, beat), "-prop", co.prop, "-seed", fmt.Sprint(co.seed), "-from", fmt.Sprint(from), "-time", left.String(), "-min", fmt.Sprint(co.min))
		cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
		var errb tail
		cmd.Stderr = &errb
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		pipe, err := cmd.StdoutPipe()
		if err != nil {
			fatal("%v", err)
		}
		if err := cmd.Start(); err != nil {
			fatal("%v", err)
		}
		co.mu.Lock()
		co.cmds[i] = cmd
		co.mu.Unlock()
		done := co.read(pipe)
		err = cmd.Wait()
		if done || co.stop.Load() {
			return
		}
		// it died: which case was it?
		b, _ := os.ReadFile(beat)
		if len(b) < 8 {
			co.note(fmt.Sprintf("worker %d died before its first case: %v %s", i, err, errb.String()))
			return
		}
		idx := int(binary.LittleEndian.Uint64(b)) - 1
		class := "fatal"
		if strings.Contains(errb.String(), "HANG") {
			class = "hang"
		}
		co.note(fmt.Sprintf("case %d ended its worker (%s, %v): %s", idx, class, err, errb.String()))
		if hasWord(props[co.prop].classes, class) {
			co.found(&Replay{Property: co.prop, Verdict: Verdict{class, firstLine(errb.String())}, Seed: co.seed, Index: idx, Case: makeCase(co.prop, co.seed, idx)})
			return
		}
		deaths++
		if deaths > 20 {
			return
		}
		from = idx + 1
	}
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error") || strings.HasPrefix(l, "panic") || strings.HasPrefix(l, "runtime:") {
			return l
		}
	}
	return strings.SplitN(s, "\n", 2)[0]
}

// tail keeps the first part of what is written.
type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if k := 3000 - len(t.b); k > 0 {
		if k > len(p) {
			k = len(p)
		}
		t.b = append(t.b, p[:k]...)
	}
	return len(p), nil
}

func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func (co *coord) note(s string) {
	co.mu.Lock()
	co.odd = append(co.odd, s)
	co.mu.Unlock()
}

func (co *coord) found(r *Replay) {
	co.mu.Lock()
	co.viols = append(co.viols, r)
	co.mu.Unlock()
	co.stop.Store(true)
	// let the others finish what they are at
	time.AfterFunc(1500*time.Millisecond, func() {
		co.mu.Lock()
		defer co.mu.Unlock()
		for _, c := range co.cmds {
			c.Process.Signal(syscall.SIGKILL)
		}
	})
}

func (co *coord) read(r io.Reader) bool {
	dec := json.NewDecoder(r)
	for {
		var m message
		if err := dec.Decode(&m); err != nil {
			return false
		}
		if m.T != nil {
			co.mu.Lock()
			co.t.add(m.T)
			co.mu.Unlock()
		}
		if m.V != nil {
			co.found(m.V)
		}
		if m.Done {
			return true
		}
	}
}

// verdict minimises and confirms what was found.
func (co *coord) verdict(tmp string) int {
	if len(co.viols) == 0 {
		return 0
	}
	sort.Slice(co.viols, func(i, j int) bool { return len(co.viols[i].History) < len(co.viols[j].History) })
	if err := os.MkdirAll(co.replays, 0755); err != nil {
		fatal("%v", err)
	}
	for k, v := range co.viols {
		if k == 4 {
			break
		}
		raw := filepath.Join(tmp, fmt.Sprintf("raw%d.json", k))
		if err := v.write(raw); err != nil {
			fatal("%v", err)
		}
		final := filepath.Join(co.replays, fmt.Sprintf("%s-seed%d-%d.json", co.prop, v.Seed, v.Index))
		ok := false
		if v.Verdict.Class != "hang" && v.Verdict.Class != "fatal" {
			cmd := exec.Command(self(), "-minimize", raw, "-out", final, "-time", "45s")
			timer := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
			err := cmd.Run()
			timer.Stop()
			ok = err == nil && co.confirm(final, v.Verdict.Class)
		}
		if !ok {
			if err := v.write(final); err != nil {
				fatal("%v", err)
			}
			ok = co.confirm(final, v.Verdict.Class)
		}
		if !ok {
			co.note(fmt.Sprintf("case %d (%s: %s) does not reproduce", v.Index, v.Verdict.Class, v.Verdict.Msg))
			os.Remove(final)
			continue
		}
		r, err := readReplay(final)
		if err != nil {
			fatal("%v", err)
		}
		fmt.Printf("%s: %s\n", r.Verdict.Class, r.Verdict.Msg)
		for i, h := range r.History {
			if i < 30 {
				fmt.Println("  ", h)
			}
		}
		co.viols = []*Replay{r}
		fmt.Printf("VIOLATION property=%s replay=%s\n", co.prop, final)
		return 1
	}
	return 2
}

// confirm runs a replay file in a fresh process.
func (co *coord) confirm(path, class string) bool {
	cmd := exec.Command(self(), "-replay", path)
	var eb tail
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if class == "fatal" {
		return err != nil && strings.Contains(eb.String(), "fatal error")
	}
	return err != nil && strings.Contains(string(out), "VIOLATION property="+co.prop+" ")
}

func distinct(l []uint64) int {
	m := make(map[uint64]struct{}, len(l))
	for _, h := range l {
		m[h] = struct{}{}
	}
	return len(m)
}

func sum(m map[string]int) (n int) {
	for _, v := range m {
		n += v
	}
	return
}

func (co *coord) writeEvidence(explored, wall time.Duration, code int) {
	if co.evidence == "" {
		return
	}
	t := co.t
	perHour := func(n int) float64 { return float64(n) * 3600 / explored.Seconds() }
	samples := t.Samples
	if len(samples) == 0 {
		b, _ := json.Marshal(makeCase(co.prop, co.seed, 0))
		samples = []json.RawMessage{b}
	}
	if len(samples) > 3 {
		samples = samples[:3]
	}
	n := 0
	if code == 1 {
		n = 1
	}
	ev := map[string]interface{}{
		"property": co.prop, "tier": co.tier, "seed": co.seed, "level": "exploration",
		"wall_s": wall.Seconds(), "violations": n,
		"coverage": map[string]interface{}{
			"evaluations":           t.Runs,
			"distinct_nontrivial":   distinct(t.Hashes),
			"rule":                  "Every case is generated from (VERIF_SEED, property, case number): program, fault plan and schedule. An execution is non-trivial when the seeded scheduler took at least one decision that differs from running tasks to completion in creation order, or at least one fault fired. Two executions are distinct when the program or the sequence of (step, task) switches differs.",
			"samples":               samples,
			"nontrivial_executions": t.Nontrivial,
			"distinct_programs":     distinct(t.Programs),
			"runs_per_hour":         perHour(t.Runs),
			"seeds_per_hour":        perHour(t.Runs),
			"explored_s":            explored.Seconds(),
			"simulated_s":           float64(t.SimNanos) / 1e9,
			"steps":                 t.Steps, "scheduling_decisions": t.Decisions, "switches": t.Switches, "preemptions": t.Preempts, "tasks": t.Tasks,
			"faults_fired": t.Faults, "executions_with_faults": t.FaultRuns, "probes": t.Probes, "schedulers": t.Modes,
			"ended_early": t.EarlyBy, "inconclusive_histories": t.Unclear, "oracle_errors": t.OracleErr,
			"determinism_reruns": t.Rerun, "determinism_mismatches": t.Nondet,
			"worker_deaths":   len(co.odd),
			"components_real": realParts(co.prop),
			"components_stub": stubParts,
		},
		"assumptions": []string{
			"The code that runs is /repo's, rewritten mechanically by sim/cmd/vrewrite: channel, sync, atomic, time, os, ioutil, rand, map-iteration and memory operations go through the simulator.",
			"Execution is sequentially consistent; interleaving happens at every shared access, byte copy and synchronisation operation.",
			"A clean run is evidence, not proof: schedules, programs and faults are sampled.",
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	os.MkdirAll(filepath.Dir(co.evidence), 0755)
	if err := os.WriteFile(co.evidence, append(b, '\n'), 0644); err != nil {
		fatal("%v", err)
	}
}

var stubParts = []string{
	"goroutine scheduler, channels, sync and sync/atomic (vsim, cooperative, seeded)",
	"clocks, timers, time.Now/Since/Sleep (simulated discrete-event clock)",
	"file system, mmap and process life (simfs: inodes, shared mappings, crash keeps what is in the page cache)",
	"math/rand (seeded), os environment and process id, Go map iteration order (seeded)",
	"the operating system and outside readers of the file (an independent MMV parser)",
}

func realParts(prop string) []string {
	switch prop {
	case "P22":
		return []string{"bytewriter (real)"}
	case "P17", "P18":
		return []string{"mmvdump (real)", "speed client, registry, metrics, bytewriter producing some of the input files (real)"}
	case "P24":
		return []string{"mmvdump command and package (real)", "speed client, registry, metrics, instances, bytewriter (real)", "hdrhistogram (real)"}
	case "P16", "P19", "P20", "P23":
		return []string{"speed client, registry, metrics, instances, bytewriter (real)", "mmvdump (real)", "hdrhistogram (real)"}
	}
	return []string{"speed client, registry, metrics, instances, bytewriter (real)", "hdrhistogram (real)"}
}
