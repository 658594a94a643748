package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"
	"syscall"

	shimflag "verif/sim/shim/flag"
	shimos "verif/sim/shim/os"
	"verif/sim/simfs"
	"verif/sim/vsim"
)

// ---- P24: the mmvdump command

// commandMain is nil where the command could not be built in.
var commandMain func()

const dumpPath = "github.com/performancecopilot/speed/v4/mmvdump"

// cmdRun is one run of the command.
type cmdRun struct {
	proc   *vsim.Proc
	ended  bool
	status int
	why    string
	out    failWriter // what is delivered
	stderr bytes.Buffer
	// what it has read, if that was done in one go
	h    *simfs.Handle
	read []byte
	eof  bool
	odd  bool
}

// command starts the command in a process of its own.
func (x *Exec) command(name string, args []string, f *WFault, wait int) (*cmdRun, *vsim.G) {
	r := &cmdRun{proc: &vsim.Proc{ID: 200 + x.num("commands"), Name: "mmvdump"}}
	x.Notes["commands"] = x.num("commands") + 1
	r.out.w = x.w
	r.out.f.At = 1 << 60
	if f != nil {
		r.out.f = *f
	}
	mine := func() bool { return x.w.Cur().Proc == r.proc && !r.proc.Dead }
	g := x.w.Spawn(name, r.proc, func() {
		end := func(status int, why string) {
			if !r.ended {
				r.ended, r.status, r.why = true, status, why
				x.w.KillProc(r.proc)
			}
		}
		defer func() {
			if e := recover(); e != nil && !r.ended && !vsim.Dying() {
				end(2, fmt.Sprint(e))
			}
		}()
		shimos.Args = append([]string{"mmvdump"}, args...)
		shimos.StdWrite = func(fd int, b []byte) (int, error) {
			if !mine() {
				return len(b), nil
			}
			x.w.Yield()
			if fd == 2 {
				return r.stderr.Write(b)
			}
			return r.out.Write(b)
		}
		shimos.OnExit = func(code int) {
			if mine() {
				end(code, "exit")
				x.w.Yield()
			}
		}
		x.fs.OnRead = func(h *simfs.Handle, off int64, b []byte, err error) {
			if h.Proc != r.proc {
				return
			}
			if r.h != nil && r.h != h || off != int64(len(r.read)) {
				r.odd = true
			}
			r.h = h
			r.read = append(r.read, b...)
			if err == io.EOF {
				r.eof = true
			}
		}
		for i := 0; i < wait; i++ {
			x.w.Yield()
		}
		shimflag.Reset()
		vsim.ResetSome(dumpPath)
		commandMain()
		end(0, "main returns")
	})
	return r, g
}

// cmdText is what the command has to print for these bytes (in-process).
func cmdText(path string, b []byte) (text string, ok bool) {
	d := runDump(b)
	if d.err != nil {
		return "", false
	}
	var o bytes.Buffer
	if err := d.write(&o); err != nil {
		return "", false
	}
	return "File      = " + path + "\n" + o.String(), true
}

// sameLines compares two texts apart from spacing.
func sameLines(got, want []string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		var a, b string
		if i < len(got) {
			a = got[i]
		}
		if i < len(want) {
			b = want[i]
		}
		if a != b {
			return fmt.Sprintf("line %d of the output is %q, it should be %q", i+1, short(a), short(b))
		}
	}
	return ""
}

// judge compares a run without faults with the bytes it worked on.
func (r *cmdRun) judge(path string, b []byte, published bool) string {
	what := fmt.Sprintf("status %d (%s), %d bytes printed", r.status, short(r.why), len(r.out.b))
	if published && quickStatus(b) != stReady {
		if r.status == 0 {
			return "the command succeeds on a file that is not complete: " + what
		}
		return ""
	}
	if _, err := parseMMV(b); err == nil && published {
		if r.status != 0 {
			return "the command fails on a complete file: " + what
		}
		if s := sameLines(normText(string(r.out.b)), normText("File      = "+path+"\n"+renderRaw(b))); s != "" {
			return s
		}
	}
	gd := guard(b)
	defer gd.free()
	want, ok := cmdText(path, gd.b)
	if ok != (r.status == 0) {
		return fmt.Sprintf("the reader accepts the file: %v, the command: %s", ok, what)
	}
	if ok {
		return sameLines(strings.Split(string(r.out.b), "\n"), strings.Split(want, "\n"))
	}
	return ""
}

// runCommand is the scenario of P24.
func runCommand(x *Exec) {
	bad := func(format string, a ...interface{}) {
		if x.Notes["bad"] == nil {
			x.Notes["bad"] = fmt.Sprintf(format, a...)
		}
	}
	raw := x.c.Prog.Raw
	for _, r := range x.along {
		if !r.ended {
			bad("the command does not end")
			return
		}
		if r.status == 0 && r.h == nil {
			continue
		}
		if r.h == nil || r.odd || !r.eof {
			continue // it did not read, or in another way
		}
		x.w.Probe(fmt.Sprintf("command-beside-client-status%d", r.status))
		g := x.w.Spawn("judge", &vsim.Proc{ID: 99, Name: "judge"}, func() {
			if s := r.judge(x.path(0), r.read, true); s != "" {
				bad("%s", "beside a publishing client: "+s)
			}
		})
		x.w.Join(g)
	}
	b := x.input()
	path := x.path(0)
	if b != nil {
		path = raw.Path
		x.fs.PutFile(path, b)
	}
	ref, g := x.command("command", []string{path}, nil, 0)
	x.w.JoinOrDead(g)
	if !ref.ended {
		bad("the command does not end")
		return
	}
	if b == nil {
		if ref.status == 0 {
			bad("the command succeeds without a file")
		}
		return
	}
	x.w.Probe(fmt.Sprintf("command-status%d", ref.status))
	g = x.w.Spawn("judge", &vsim.Proc{ID: 99, Name: "judge"}, func() {
		if s := ref.judge(path, b, len(raw.Muts) == 0); s != "" {
			bad("%s", s)
		}
	})
	x.w.Join(g)
	if ref.status != 0 {
		return
	}
	x.Notes["accepted"] = 1
	full := ref.out.b
	check := func(what string, r *cmdRun) {
		switch {
		case !r.ended:
			bad("%s the command does not end", what)
		case !bytes.HasPrefix(full, r.out.b):
			bad("%s the output is no prefix of the complete one (%d of %d bytes)", what, len(r.out.b), len(full))
		case r.status == 0 && len(r.out.b) != len(full):
			bad("%s the command succeeds with %d of %d bytes delivered", what, len(r.out.b), len(full))
		case r.status != 0 && !r.out.fired && x.num("fired") == 0:
			bad("%s that never happens the command fails: %s", what, r.why)
		}
	}
	for _, f := range raw.Faults {
		f.At %= len(full) + 10
		r, g := x.command("command", []string{path}, &f, 0)
		x.w.JoinOrDead(g)
		check(fmt.Sprintf("with an output failing (%s) at byte %d", f.Mode, f.At), r)
	}
	for _, f := range raw.FFlts {
		x.fs.Arm(f)
		r, g := x.command("command", []string{path}, nil, 0)
		x.w.JoinOrDead(g)
		x.Notes["fired"] = x.fs.Disarm()
		check(fmt.Sprintf("with a failing %s of the file", f.Op), r)
		x.Notes["fired"] = 0
	}
}

func init() {
	def(&propDef{id: "P24", classes: "deadlock livelock", prep: func(x *Exec) {
		x.custom = runCommand
		x.afterSetup = func() { x.fs.MaxRead = x.c.Prog.Raw.Reads }
		if n := x.c.Prog.Raw.N; n > 0 {
			x.alongside = func(x *Exec, phase int) (gs []*vsim.G) {
				for i := 0; i < n; i++ {
					r, g := x.command(fmt.Sprintf("beside%d", i), []string{x.path(0)}, nil, x.c.Prog.Raw.Size)
					x.along = append(x.along, r)
					gs = append(gs, g)
				}
				return
			}
		}
	}, gen: func(g *gen) *Case {
		raw := &RawProg{Path: g.pick("/in.mmv", "/a/b/some file", "/%d%s", "/x")}
		beside := g.ch(1, 3)
		switch {
		case beside:
			c := g.client()
			ms := g.metrics(g.in(0, 3), g.ch(1, 3))
			reg := g.regAll(c, ms)
			ts := [][]*Op{cat(reg, ops(op("start", c)))}
			if len(ms) > 0 {
				ts = append(ts, g.work(ms, g.in(1, 6), 0, 0))
			}
			ph := g.phase(ts...)
			if g.ch(1, 3) {
				ph.Crash = g.crash(len(ms))
			}
			raw.N = 1
			raw.Size = g.pickI(0, 100, 300, 600, 1000, 2000) // steps before the command begins
		default:
			g.base(g.ch(1, 3))
			if g.ch(1, 3) {
				raw.Muts = g.muts()
			}
		}
		for n := g.n(4); n > 0; n-- {
			raw.Faults = append(raw.Faults, WFault{At: g.pickI(g.n(40), g.n(300), g.n(20000)), Mode: g.pick("err", "partial", "short", "full"), Once: g.ch(1, 2), Errno: g.pickI(int(syscall.ENOSPC), int(syscall.EIO), int(syscall.EAGAIN))})
		}
		for n := g.n(3); n > 0; n-- {
			f := simfs.Fault{Op: g.pick("read", "read", "read", "open"), Nth: g.pickI(1, 1, 2, 3), Errno: int(syscall.EIO), Count: g.pickI(0, -1)}
			if f.Op == "open" {
				f.Nth, f.Errno = 1, int(syscall.EACCES)
			} else if g.ch(1, 2) {
				f.Short = g.in(1, 4000)
			}
			raw.FFlts = append(raw.FFlts, f)
		}
		if g.ch(1, 2) {
			raw.Reads = g.pickI(1000, 4095, 511, 40, 56, 4000)
		}
		g.p.Raw = raw
		return g.done("P24")
	}, check: nilCheck(func(x *Exec) string { return x.noteBad() })})
}
