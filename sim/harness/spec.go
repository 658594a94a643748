package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"

	speed "github.com/performancecopilot/speed/v4"

	"verif/sim/simfs"
	"verif/sim/vsim"
)

// Val is a typed Go value of an operation.
type Val struct {
	T string `json:"t"` // int int32 int64 uint uint32 uint64 float32 float64 string bool
	S string `json:"s"`
}

func (v Val) goVal() interface{} {
	i, _ := strconv.ParseInt(v.S, 10, 64)
	u, _ := strconv.ParseUint(v.S, 10, 64)
	f, _ := strconv.ParseFloat(v.S, 64)
	switch v.T {
	case "int":
		return int(i)
	case "int32":
		return int32(i)
	case "int64":
		return i
	case "uint":
		return uint(u)
	case "uint32":
		return uint32(u)
	case "uint64":
		return u
	case "float32":
		return float32(f)
	case "float64":
		return f
	case "string":
		return v.S
	case "bool":
		return v.S == "true"
	}
	return nil
}

func (v Val) i64() int64   { i, _ := strconv.ParseInt(v.S, 10, 64); return i }
func (v Val) f64() float64 { f, _ := strconv.ParseFloat(v.S, 64); return f }

func vI(i int64) Val   { return Val{"int64", strconv.FormatInt(i, 10)} }
func vF(f float64) Val { return Val{"float64", strconv.FormatFloat(f, 'g', -1, 64)} }
func vS(s string) Val  { return Val{"string", s} }

// CV is the canonical form of a stored value: the bits in the file slot, or
// the text.
type CV struct {
	U uint64
	S string
}

func (c CV) String() string { return fmt.Sprintf("%x%q", c.U, c.S) }

func canonF64(f float64) uint64 {
	if f == 0 {
		return 0
	}
	if f != f {
		return math.Float64bits(math.NaN())
	}
	return math.Float64bits(f)
}

func canonF32(f float32) uint64 {
	if f == 0 {
		return 0
	}
	if f != f {
		return uint64(math.Float32bits(float32(math.NaN())))
	}
	return uint64(math.Float32bits(f))
}

// canonFile turns the bits of a file slot into canonical form.
func canonFile(t int, raw uint64) CV {
	switch t {
	case tFloat:
		return CV{U: canonF32(math.Float32frombits(uint32(raw)))}
	case tDouble:
		return CV{U: canonF64(math.Float64frombits(raw))}
	}
	return CV{U: raw}
}

const (
	tInt32 = iota
	tUint32
	tInt64
	tUint64
	tFloat
	tDouble
	tString
)

// canonStored is the canonical form of a value read from a metric of type t;
// ok is false when the Go type is not the one of the metric.
func canonStored(t int, v interface{}) (CV, bool) {
	switch x := v.(type) {
	case int32:
		return CV{U: uint64(uint32(x))}, t == tInt32
	case uint32:
		return CV{U: uint64(x)}, t == tUint32
	case int64:
		return CV{U: uint64(x)}, t == tInt64
	case uint64:
		return CV{U: x}, t == tUint64
	case float32:
		return CV{U: canonF32(x)}, t == tFloat
	case float64:
		return CV{U: canonF64(x)}, t == tDouble
	case string:
		return CV{S: x}, t == tString
	}
	return CV{}, false
}

// accept says whether a metric of type t takes the value and what it stores.
// Generators only make values whose acceptance is beyond doubt.
func accept(t int, v interface{}) (CV, bool) {
	switch x := v.(type) {
	case int:
		switch t {
		case tInt32:
			return CV{U: uint64(uint32(int32(x)))}, x >= math.MinInt32 && x <= math.MaxInt32
		case tInt64:
			return CV{U: uint64(int64(x))}, true
		case tUint32:
			return CV{U: uint64(uint32(x))}, x >= 0 && x <= math.MaxUint32
		case tUint64:
			return CV{U: uint64(x)}, x >= 0
		}
		return CV{}, false
	case uint:
		switch t {
		case tUint32:
			return CV{U: uint64(uint32(x))}, x <= math.MaxUint32
		case tUint64:
			return CV{U: uint64(x)}, true
		}
		return CV{}, false
	case float64:
		if t == tFloat {
			return CV{U: canonF32(float32(x))}, x >= -math.MaxFloat32 && x <= math.MaxFloat32
		}
	case string:
		if len(x) > maxText {
			return CV{}, false
		}
	}
	return canonStored(t, v)
}

// maxText is the longest text a string block can hold; texts of exactly the
// block size are not generated.
const maxText = 256

// IndomSpec describes an instance domain.
type IndomSpec struct {
	Name  string   `json:"name"`
	Inst  []string `json:"inst"`
	Short string   `json:"short,omitempty"`
	Long  string   `json:"long,omitempty"`
}

// MetricSpec describes a metric.
type MetricSpec struct {
	Kind     string         `json:"kind"` // single inst counter gauge timer cvec gvec hist
	Name     string         `json:"name"`
	Short    string         `json:"short,omitempty"`
	Long     string         `json:"long,omitempty"`
	Type     int            `json:"type"`
	Sem      int            `json:"sem"`
	Unit     int            `json:"unit"`
	Indom    int            `json:"indom,omitempty"` // inst: index
	Init     map[string]Val `json:"init,omitempty"`  // "" for single values
	Low      int64          `json:"low,omitempty"`
	High     int64          `json:"high,omitempty"`
	Sig      int            `json:"sig,omitempty"`
	ByString string         `json:"bystring,omitempty"` // registration string
	BSIndom  string         `json:"bsindom,omitempty"`
	BSInst   []string       `json:"bsinst,omitempty"`
	Bad      bool           `json:"bad,omitempty"`  // registering by string must fail
	Late     bool           `json:"late,omitempty"` // made by a "mk" of a task
}

var semVals = []speed.MetricSemantics{speed.CounterSemantics, speed.InstantSemantics, speed.DiscreteSemantics}

// unitSpec composes a unit: base is one of the simple units or none, followed
// by parts with their dimensions.
type unitSpec struct {
	base  string
	parts []unitPart
}

type unitPart struct {
	kind       byte // s t c
	scale, dim int
}

var unitSpecs = []unitSpec{
	{base: "c0"}, {base: "s0"}, {base: "s2"}, {base: "t3"}, {base: "t1"}, {base: "t5"},
	{parts: []unitPart{{'s', 1, 1}, {'t', 3, -1}}},
	{base: "s1"}, {base: "s3"}, {base: "s6"}, {base: "t0"}, {base: "t2"}, {base: "t4"},
	{parts: []unitPart{{'s', 2, 2}}},
	{parts: []unitPart{{'t', 3, -2}, {'c', 0, 1}}},
	{base: "c0", parts: []unitPart{{'t', 3, -1}}},
	{base: "s4", parts: []unitPart{{'t', 4, -8}}},
	{base: "t5", parts: []unitPart{{'s', 6, 7}, {'c', 0, -3}}},
	{base: "c0", parts: []unitPart{{'s', 5, -4}, {'t', 0, 6}}},
	{parts: []unitPart{{'c', 0, -2}}},
}

// the encodings of unitSpecs, from the definition of pmUnits
var unitBits = func() (l []uint32) {
	put := func(kind byte, scale, dim int) uint32 {
		d, s := uint32(dim)&15, uint32(scale)&15
		switch kind {
		case 's':
			return d<<28 | s<<16
		case 't':
			return d<<24 | s<<12
		}
		return d<<20 | s<<8
	}
	for _, u := range unitSpecs {
		v := uint32(0)
		if u.base != "" {
			v |= put(u.base[0], int(u.base[1]-'0'), 1)
		}
		for _, p := range u.parts {
			v |= put(p.kind, p.scale, p.dim)
		}
		l = append(l, v)
	}
	return
}()

var (
	spaceUnits = []speed.SpaceUnit{speed.ByteUnit, speed.KilobyteUnit, speed.MegabyteUnit, speed.GigabyteUnit, speed.TerabyteUnit, speed.PetabyteUnit, speed.ExabyteUnit}
	countUnits = []speed.CountUnit{speed.OneUnit}
)

// makeUnit makes a unit by the library.
func makeUnit(i int) speed.MetricUnit {
	s := unitSpecs[i]
	u := speed.NewMetricUnit()
	if s.base != "" {
		n := int(s.base[1] - '0')
		switch s.base[0] {
		case 's':
			u = spaceUnits[n]
		case 't':
			u = timerUnits[n]
		default:
			u = countUnits[n]
		}
	}
	for _, p := range s.parts {
		switch p.kind {
		case 's':
			u = u.Space(spaceUnits[p.scale], int8(p.dim))
		case 't':
			u = u.Time(timerUnits[p.scale], int8(p.dim))
		default:
			u = u.Count(countUnits[p.scale], int8(p.dim))
		}
	}
	return u
}

var timerUnits = []speed.TimeUnit{speed.NanosecondUnit, speed.MicrosecondUnit, speed.MillisecondUnit, speed.SecondUnit, speed.MinuteUnit, speed.HourUnit}
var timerNanos = []float64{1, 1e3, 1e6, 1e9, 60e9, 3600e9}

// ClientSpec describes a client.
type ClientSpec struct {
	Name string `json:"name"`
	Late bool   `json:"late,omitempty"` // made by a "mkc" of a task
	Own  bool   `json:"own,omitempty"`  // gets a registry of the caller, who registers there
	With int    `json:"with,omitempty"` // 1 + another client whose registry it gets
}

// reg is the first of the clients that have the registry of a client.
func (p *Prog) reg(c int) int {
	for c < len(p.Clients) && p.Clients[c].With > 0 {
		c = p.Clients[c].With - 1
	}
	return c
}

// shares: other clients have the registry of the client.
func (p *Prog) shares(c int) bool {
	for i := range p.Clients {
		if i != c && p.reg(i) == p.reg(c) {
			return true
		}
	}
	return false
}

// Op is one call of a task.
type Op struct {
	K    string        `json:"k"`
	C    int           `json:"c,omitempty"` // client
	M    int           `json:"m,omitempty"` // metric or indom
	I    string        `json:"i,omitempty"` // instance
	V    *Val          `json:"v,omitempty"`
	N    int64         `json:"n,omitempty"`
	D    int64         `json:"d,omitempty"`
	Must bool          `json:"must,omitempty"`
	F    []simfs.Fault `json:"f,omitempty"`
}

func (o *Op) String() string { b, _ := json.Marshal(o); return string(b) }

// Crash kills the process of a phase.
type Crash struct {
	On string `json:"on"` // step, event
	N  int    `json:"n"`
}

// Phase is a set of tasks that run concurrently; the next phase starts when
// all of them have ended or the process has died.
type Phase struct {
	NewProc  bool          `json:"newproc,omitempty"`
	Pid      int           `json:"pid,omitempty"`
	Tasks    [][]*Op       `json:"tasks"`
	Faults   []simfs.Fault `json:"faults,omitempty"`
	Capacity int           `json:"capacity,omitempty"`
	Crash    *Crash        `json:"crash,omitempty"`
	Erase    bool          `json:"erase,omitempty"`
}

// Prog is the program of one execution.
type Prog struct {
	Kind     string            `json:"kind"`
	Env      map[string]string `json:"env,omitempty"`
	Files    map[string]string `json:"files,omitempty"`
	Dirs     []string          `json:"dirs,omitempty"`
	Links    map[string]string `json:"links,omitempty"`
	Clients  []ClientSpec      `json:"clients,omitempty"`
	Indoms   []IndomSpec       `json:"indoms,omitempty"`
	Metrics  []*MetricSpec     `json:"metrics,omitempty"`
	Phases   []*Phase          `json:"phases,omitempty"`
	Loc      string            `json:"loc,omitempty"` // directory of the client files
	Raw      *RawProg          `json:"raw,omitempty"`
	ZeroTick bool              `json:"zerotick,omitempty"`
}

// hist is the documented range and accuracy of a histogram.
func (m *MetricSpec) hist() (low, high int64, sig int) {
	cut := func(v, a, b int64) int64 {
		if v < a {
			return a
		}
		if v > b {
			return b
		}
		return v
	}
	return cut(m.Low, 0, 3600000000), cut(m.High, 0, 3600000000), int(cut(int64(m.Sig), 1, 5))
}

// RawProg is the input of the scenarios that are not client programs.
type RawProg struct {
	Data   []byte        `json:"data,omitempty"`
	Muts   []Mut         `json:"muts,omitempty"`
	Faults []WFault      `json:"wfaults,omitempty"`
	Size   int           `json:"size,omitempty"`
	Mapped bool          `json:"mapped,omitempty"`
	Writes [][]BWWrite   `json:"writes,omitempty"`
	N      int           `json:"n,omitempty"`
	FFlts  []simfs.Fault `json:"read_faults,omitempty"`
	Reads  int           `json:"max_read,omitempty"`
	Path   string        `json:"path,omitempty"`
}

// Case is everything that determines one execution.
type Case struct {
	Prop  string        `json:"property"`
	Prog  *Prog         `json:"program"`
	Sched vsim.Schedule `json:"schedule"`
	Race  bool          `json:"race,omitempty"`
	Maps  bool          `json:"maps,omitempty"` // unordered uses of a map end the run
	Steps int           `json:"max_steps,omitempty"`
}

func (c *Case) clone() *Case {
	b, _ := json.Marshal(c)
	var d Case
	if err := json.Unmarshal(b, &d); err != nil {
		panic(err)
	}
	return &d
}
