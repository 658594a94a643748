package main

import (
	"fmt"
	"strings"
	"syscall"

	"verif/sim/simfs"
)

// ---- P25: a stop during which file operations fail

var stopFaults = []struct {
	op  string
	err []int
}{
	{"munmap", []int{int(syscall.ENOMEM), int(syscall.EINVAL)}},
	{"close", []int{int(syscall.EIO), int(syscall.ENOSPC)}},
	{"remove", []int{int(syscall.EACCES), int(syscall.EPERM), int(syscall.EROFS), int(syscall.EBUSY)}},
}

// failedStop arms faults, stops and disarms.
func (g *gen) failedStop(c int) []*Op {
	arm := &Op{K: "arm"}
	for n := g.pickI(1, 1, 2, 3); n > 0; n-- {
		f := stopFaults[g.n(len(stopFaults))]
		arm.F = append(arm.F, simfs.Fault{Op: f.op, Nth: 1, Errno: f.err[g.n(len(f.err))]})
	}
	return ops(arm, op("stop", c), op("disarm", c))
}

func genFailStop(g *gen) *Case {
	c := g.client()
	ms := g.metrics(g.few(g.in(1, 3)), g.ch(1, 8))
	t := cat(g.regAll(c, ms), g.work(ms, g.n(3), 10, 10))
	if g.ch(1, 6) {
		t = cat(t, g.failedStop(c)) // of a client that was not started
	}
	g.phase(cat(t, ops(op("start", c)), g.work(ms, g.n(3), 10, 10)))
	for n := g.in(1, 3); n > 0; n-- {
		t := g.failedStop(c)
		if g.ch(1, 3) {
			t = append(t, op("stop", c)) // refused
		}
		t = cat(t, g.work(ms, g.n(3), 30, 10))
		if g.ch(1, 4) {
			m := g.metrics(1, false)
			t = cat(t, g.regAll(c, m))
			ms = append(ms, m...)
		}
		if g.ch(1, 5) {
			t = append(t, &Op{K: "setflag", C: c, N: int64(g.pickI(1, 2, 4))})
		}
		t = cat(t, ops(op("start", c)), g.work(g.objects(ms), g.n(4), 30, 10), g.reads(ms))
		ts := [][]*Op{t}
		for k := g.pickI(0, 0, 1, 2); k > 0; k-- {
			ts = append(ts, g.work(g.objects(ms), g.in(1, 5), 25, 10))
		}
		g.phase(ts...).Erase = g.ch(1, 2)
	}
	g.phase(ops(op("stop", c))).Erase = g.ch(1, 2)
	return g.done("P25")
}

// failed says whether a failure of the operation was injected during a call.
func (r *Rec) failed(op string) bool {
	for k, n := range r.Fired {
		if n > 0 && strings.HasPrefix(k, op+"-") && !strings.HasSuffix(k, "-stall") {
			return true
		}
	}
	return false
}

func checkFailStop(x *Exec) (string, int) {
	p := x.c.Prog
	active, maps := false, 0
	for _, r := range x.Recs {
		if r.Ret == 0 || r.Skip {
			continue
		}
		switch r.Op.K {
		case "start":
			if r.Err != active {
				return fmt.Sprintf("after a stop during which a file operation failed, start of the %s client: %s", map[bool]string{true: "active", false: "stopped"}[active], r.ErrS), 0
			}
			active = true
		case "stop":
			fail := r.failed("munmap") || r.failed("close") || r.failed("remove")
			switch {
			case !active && !r.Err:
				return "a client that is stopped can be stopped again", 0
			case active && r.Err && !fail:
				return fmt.Sprintf("stopping the client fails: %s", r.ErrS), 0
			case active && !r.Err && fail:
				return fmt.Sprintf("a stop during which file operations fail (%v) reports success", r.Fired), 0
			}
			if r.failed("munmap") {
				maps++
			}
			if !active {
				break
			}
			active = false
			if r.Handles != 0 || r.Maps > maps {
				return fmt.Sprintf("after a stop during which file operations fail (%v) %d file handles and %d mappings are open", r.Fired, r.Handles, r.Maps), 0
			}
			switch erase := p.Phases[r.Ph].Erase; {
			case erase && !r.failed("remove") && r.Status != stAbsent:
				return fmt.Sprintf("after a stop during which file operations fail (%v) the file that should be erased is still there", r.Fired), 0
			case !erase && (r.Status != stReady || r.File == nil):
				return fmt.Sprintf("after a stop during which file operations fail (%v) the file that should stay is %s: %v", r.Fired, r.Status, r.FileErr), 0
			}
		case "reg", "setflag":
			if r.Err && !active && r.Op.K == "setflag" {
				return fmt.Sprintf("after a failed stop %s fails: %s", r.Op.K, r.ErrS), 0
			}
		}
	}
	bad, inc := x.checkValues(true, nil)
	return first(bad, x.startContent(), x.startValues()), inc
}

func init() {
	def(&propDef{id: "P25", classes: "panic fault deadlock livelock", gen: genFailStop, check: checkFailStop})
}
