package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"

	"verif/sim/vsim"
)

// Verdict of one execution.
type Verdict struct {
	Class string `json:"class,omitempty"` // empty: the property held
	Msg   string `json:"message,omitempty"`
}

// outcome of one execution.
type outcome struct {
	v         Verdict
	early     string // the execution ended early without violating the property
	unclear   int    // parts of the history that could not be decided
	oracleErr string
	x         *Exec
}

// runCase executes a case once.
func runCase(c *Case) (o outcome) {
	d := props[c.Prop]
	x := newExec(c)
	o.x = x
	if d.prep != nil {
		d.prep(x)
	}
	x.run()
	if v := x.w.Viol; v != nil {
		if hasWord(d.classes, v.Class) {
			o.v = Verdict{v.Class, v.Msg}
			return
		}
		o.early = v.Class
		if !d.partial {
			return
		}
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				o.oracleErr = fmt.Sprintf("%v\n%s", r, debug.Stack())
			}
		}()
		msg, unclear := d.check(x)
		o.unclear = unclear
		if msg != "" {
			o.v = Verdict{"oracle", msg}
		}
	}()
	return
}

func hasWord(l, w string) bool {
	for _, s := range strings.Fields(l) {
		if s == w {
			return true
		}
	}
	return false
}

// makeCase generates case i of a property.
func makeCase(prop string, seed uint64, i int) *Case {
	h := vsim.Hash64(seed, uint64(i))
	for _, b := range []byte(prop) {
		h = vsim.Hash64(h, uint64(b))
	}
	c := props[prop].gen(newGen(h))
	c.Prop = prop
	return c.clone()
}

func progHash(c *Case) uint64 {
	b, _ := json.Marshal(c.Prog)
	h := uint64(14695981039346656037)
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	return h
}

// Replay is a replay file.
type Replay struct {
	Property  string `json:"property"`
	Verdict   Verdict
	Seed      uint64 `json:"verif_seed"`
	Index     int    `json:"case_index"`
	Minimised bool   `json:"minimised"`
	TraceHash string `json:"trace_hash"`
	History   []string
	Case      *Case `json:"case"`
}

func (r *Replay) write(path string) error {
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0644)
}

func readReplay(path string) (*Replay, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		return nil, err
	}
	if r.Case == nil || props[r.Property] == nil {
		return nil, fmt.Errorf("%s: no case", path)
	}
	r.Case.Prop = r.Property
	return &r, nil
}

func history(x *Exec) (l []string) {
	for _, r := range x.Recs {
		l = append(l, r.String())
		if len(l) > 400 {
			return append(l, "...")
		}
	}
	return
}

// nontrivial: the scheduler had and used a choice, or a fault was injected.
func (o *outcome) nontrivial() bool {
	s := o.x.w.Stats()
	return s.Preempts > 0 || len(o.x.w.Devs()) > 0 || len(s.Faults) > 0
}

func (r *Replay) fill(o *outcome) {
	r.TraceHash = fmt.Sprintf("%016x", o.x.w.TraceHash())
	r.History = history(o.x)
}
