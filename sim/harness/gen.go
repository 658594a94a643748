package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"verif/sim/simfs"
	"verif/sim/vsim"
)

// gen makes the random programs.
type simFault = simfs.Fault

type gen struct {
	r     *vsim.Rng
	p     *Prog
	names map[string]bool
	ids   map[uint32]bool
	ctr   int64
	late  bool // tasks make metrics
	big   bool // many metrics and instances
	huge  bool // a metric with very many instances
	prev  [7][]Val
}

func newGen(seed uint64) *gen {
	g := &gen{r: vsim.NewRng(seed), names: map[string]bool{}, ids: map[uint32]bool{fnv32("histogram", 22): true}}
	g.p = &Prog{Kind: "client"}
	g.location()
	return g
}

func (g *gen) n(n int) int             { return g.r.Intn(n) }
func (g *gen) in(a, b int) int         { return a + g.r.Intn(b-a+1) }
func (g *gen) ch(num, den int) bool    { return g.r.Chance(num, den) }
func (g *gen) pick(l ...string) string { return l[g.n(len(l))] }
func (g *gen) pickI(l ...int) int      { return l[g.n(len(l))] }

// location decides where the client files go.
func (g *gen) location() {
	p := g.p
	p.Files, p.Env = map[string]string{}, map[string]string{}
	switch g.n(4) {
	case 0: // no PCP
		p.Loc = "/tmp/mmv"
	case 1:
		p.Files["/etc/pcp.conf"] = "# comment\nPCP_TMP_DIR=/var/tmp\nPCP_OTHER=1\n"
		p.Loc = "/var/tmp/mmv"
	case 2:
		p.Env["PCP_DIR"] = "/opt/pcp"
		p.Files["/opt/pcp/etc/pcp.conf"] = "PCP_TMP_DIR=/run\n"
		p.Loc = "/opt/pcp/run/mmv"
	case 3:
		p.Env["PCP_CONF"] = "/c.conf"
		p.Files["/c.conf"] = "PCP_TMP_DIR=/pt\n"
		p.Loc = "/pt/mmv"
	}
	if g.ch(1, 2) {
		p.Dirs = append(p.Dirs, p.Loc)
	}
}

func (g *gen) client() int {
	n := g.pick("app", "cli", "x", "my.app", "app-2")
	for _, c := range g.p.Clients {
		if c.Name == n {
			n += strconv.Itoa(len(g.p.Clients))
		}
	}
	g.p.Clients = append(g.p.Clients, ClientSpec{Name: n, Own: g.ch(1, 4)})
	return len(g.p.Clients) - 1
}

var words = []string{"a", "b.c", "disk.reads", "net.in.bytes", "q", "m1", "proc.cpu", "zeta", "user_time", "x.y.z"}

func (g *gen) name(long bool) string {
	for {
		n := words[g.n(len(words))]
		if g.names[n] || g.ch(1, 2) {
			n += strconv.Itoa(g.n(50))
		}
		if long {
			n = padU(n, g.pickI(63, 64, 65, 100, 200, 250), g.pickI(0, 0, 0, 1, 2, 30))
		} else if g.ch(1, 20) {
			n += "é"
		}
		if !g.names[n] {
			g.names[n] = true
			return n
		}
	}
}

// padU is pad with letters of several bytes.
func padU(s string, n, letters int) string {
	for ; letters > 0 && len(s)+2 <= n; letters-- {
		s += "é"
	}
	return pad(s, n)
}

func pad(s string, n int) string {
	for len(s) < n {
		s += string(rune('a' + len(s)%26))
	}
	return s[:n]
}

func (g *gen) indomName() string {
	for {
		n := g.pick("dom", "disks", "cpus", "ifs") + strconv.Itoa(g.n(30))
		if h := fnv32(n, 22); !g.ids[h] && !g.names[n] {
			g.ids[h] = true
			return n
		}
	}
}

func (g *gen) text() string {
	switch g.n(13) {
	case 12:
		return g.pick("100% of %s", "two\nlines", "a\ttab \"%v\"", "%!d(x)")
	case 6:
		return padU("ü", g.in(3, 255), g.n(100))
	case 0:
		return "help text"
	case 1:
		return pad("long help ", g.in(60, 255))
	case 2:
		return "t" + strconv.Itoa(g.n(100))
	case 7:
		return "help text"
	case 8:
		return pad("long help ", g.in(60, 255))
	}
	return ""
}

func (g *gen) str() string {
	g.ctr++
	s := fmt.Sprintf("v%d", g.ctr)
	switch g.n(4) {
	case 0:
		return pad(s+"_", g.in(9, 250))
	case 1:
		return ""
	case 2:
		return pad(s+"_", g.in(4, 30))
	case 3:
		switch g.n(6) {
		case 0, 1:
			return padU(s, g.in(4, 250), g.n(20))
		case 2:
			return g.pick("%", "%s %d", "\n", " ", "\t\"") + s
		}
	}
	return s
}

// gaugeVal is a value or a change of a gauge.
func (g *gen) gaugeVal(n ...int) Val {
	if g.ch(1, 6) {
		return g.anyOf(vF(0.1), vF(1e-12), vF(-1e-300), vF(5e-324), vF(1e308), vF(-1e308), vF(math.Inf(1)), vF(math.Inf(-1)), vF(math.NaN()), vF(math.Copysign(0, -1)), vF(1e17), vF(0))
	}
	return vF(float64(g.pickI(n...)) / 2)
}

// amount is a number of metrics, rarely a big one.
func (g *gen) amount(lo, hi int) int {
	switch {
	case g.ch(1, 120):
		if g.huge = g.ch(1, 2); !g.huge {
			return g.pickI(60, 100, 129, 200, 258)
		}
		return g.in(1, 2)
	case g.ch(1, 25):
		g.big = true
		return g.in(8, 25)
	}
	return g.in(lo, hi)
}

// few is a number of metrics of programs that are about other things than
// their content, very rarely a big one.
func (g *gen) few(n int) int {
	if g.ch(1, 80) {
		if g.ch(1, 4) {
			return g.pickI(33, 65, 129)
		}
		return g.in(6, 20)
	}
	return n
}

// val is a value a metric of the type accepts.
func (g *gen) val(t int) Val {
	if l := g.prev[t]; len(l) > 0 && g.ch(1, 7) { // again
		return l[g.n(len(l))]
	}
	v := g.newVal(t)
	g.prev[t] = append(g.prev[t], v)
	return v
}

func (g *gen) newVal(t int) Val {
	g.ctr++
	c := g.ctr
	switch t {
	case tInt32:
		return Val{g.pick("int32", "int32", "int"), strconv.FormatInt([]int64{c, -c, math.MaxInt32 - c, math.MinInt32 + c, 0x01010101*c%math.MaxInt32 + 1, -1}[g.n(6)], 10)}
	case tUint32:
		return Val{g.pick("uint32", "uint", "int"), strconv.FormatUint([]uint64{uint64(c), math.MaxUint32 - uint64(c), uint64(0x01010101*c) % math.MaxUint32}[g.n(3)], 10)}
	case tInt64:
		return Val{g.pick("int64", "int64", "int"), strconv.FormatInt([]int64{c, -c, math.MaxInt64 - c, math.MinInt64 + c, 0x0101010101010101 * (c % 100), -1 - 0x0102030405060708*(c%10)}[g.n(6)], 10)}
	case tUint64:
		if g.ch(1, 4) {
			return Val{"int", strconv.FormatInt(0x0101010101010101*(c%100), 10)}
		}
		return Val{g.pick("uint64", "uint"), strconv.FormatUint([]uint64{uint64(c), math.MaxUint64 - uint64(c), 0x0101010101010101 * uint64(c%200)}[g.n(3)], 10)}
	case tFloat:
		if g.ch(1, 12) {
			return Val{"float32", g.pick("NaN", "+Inf", "-Inf", "-0", "3.4028234663852886e+38", "1e-45")}
		}
		return Val{g.pick("float32", "float64"), strconv.FormatFloat([]float64{float64(c), -float64(c) / 3, 1e20 * float64(c), 0.5}[g.n(4)], 'g', -1, 64)}
	case tDouble:
		if g.ch(1, 12) {
			return Val{"float64", g.pick("NaN", "+Inf", "-Inf", "-0", "5e-324", "-1.7976931348623157e+308")}
		}
		return Val{"float64", strconv.FormatFloat([]float64{float64(c), -float64(c) / 3, 1e200 * float64(c), 1e-300 * float64(c), math.MaxFloat64, 0.1}[g.n(6)], 'g', -1, 64)}
	}
	return vS(g.str())
}

// badVal is a value a metric of the type refuses.
func (g *gen) badVal(t int) Val {
	switch t {
	case tString:
		return g.anyOf(Val{"int", "5"}, Val{"float64", "1.5"}, Val{"bool", "true"}, vS(pad("x", 257)), vS(pad("x", 300)), vS(pad("x", 1000)))
	case tInt32:
		return g.anyOf(Val{"int64", "5"}, Val{"int", "2147483648"}, Val{"string", "a"}, Val{"float64", "1"}, Val{"uint32", "5"})
	case tUint32:
		return g.anyOf(Val{"int", "-1"}, Val{"int", "4294967296"}, Val{"uint", "4294967296"}, Val{"uint64", "1"}, vS("a"))
	case tInt64:
		return g.anyOf(Val{"uint64", "5"}, Val{"int32", "5"}, Val{"float64", "1"}, vS("a"))
	case tUint64:
		return g.anyOf(Val{"int", "-1"}, Val{"int64", "5"}, Val{"uint32", "1"}, vS("a"))
	case tFloat:
		return g.anyOf(Val{"float64", "1e300"}, Val{"int", "5"}, vS("a"))
	}
	return g.anyOf(Val{"int", "5"}, Val{"float32", "1"}, vS("a"), Val{"bool", "true"})
}

func (g *gen) anyOf(l ...Val) Val { return l[g.n(len(l))] }

func (g *gen) insts(v2 bool) []string {
	n := g.pickI(1, 1, 2, 2, 3, 4)
	if g.big && g.ch(1, 2) {
		n = g.in(5, 20)
	}
	if g.huge {
		g.huge, n = false, g.pickI(100, 129, 200, 257, 300, 520)
	}
	var l []string
	for i := 0; i < n; i++ {
		s := g.pick("i", "eth", "cpu", "sda") + strconv.Itoa(i)
		if v2 && g.ch(1, 3) {
			s = padU(s+"_", g.pickI(63, 64, 90, 255), g.pickI(0, 0, 1, 20))
		}
		l = append(l, s)
	}
	return l
}

func (g *gen) indom(v2 bool) int {
	d := IndomSpec{Name: g.indomName(), Inst: g.insts(v2), Short: g.text(), Long: g.text()}
	if g.ch(1, 15) {
		d.Inst = nil
	}
	if d.Short == "" && g.ch(2, 3) {
		d.Long = ""
	}
	g.p.Indoms = append(g.p.Indoms, d)
	return len(g.p.Indoms) - 1
}

var allKinds = []string{"single", "single", "inst", "counter", "gauge", "timer", "cvec", "gvec", "hist"}

// metric makes a metric of a kind.
func (g *gen) metric(kind string, v2 bool) int {
	m := &MetricSpec{Kind: kind, Name: g.name(v2 && g.ch(1, 2)), Short: g.text(), Long: g.text(), Type: g.n(7), Sem: g.n(3), Unit: g.n(len(unitSpecs)), Init: map[string]Val{}}
	switch kind {
	case "single":
		m.Init[""] = g.val(m.Type)
	case "inst":
		if len(g.p.Indoms) > 0 && g.ch(1, 3) {
			m.Indom = g.n(len(g.p.Indoms))
		} else {
			m.Indom = g.indom(v2)
		}
		for _, i := range g.p.Indoms[m.Indom].Inst {
			m.Init[i] = g.val(m.Type)
		}
	case "counter":
		m.Init[""] = vI(int64(g.pickI(0, 0, 1, 255, -5, 1<<40, -1, -300, -1<<35)))
	case "gauge":
		m.Init[""] = g.gaugeVal(0, 1, -3, 1<<30)
	case "timer":
		m.Unit = g.n(len(timerUnits))
	case "cvec", "gvec":
		for g.ids[fnv32(m.Name+".indom", 22)] {
			m.Name = g.name(false)
		}
		g.ids[fnv32(m.Name+".indom", 22)] = true
		for _, i := range g.insts(v2) {
			m.Init[i] = vI(int64(g.pickI(0, 0, 1, 255, 1<<33, -5, -1, -300, -1<<35)))
			if kind == "gvec" {
				m.Init[i] = g.gaugeVal(0, 1, -3, 1<<30)
			}
		}
	case "hist":
		m.Low = int64(g.pickI(1, 1, 0, 2, 16))
		m.High = int64(g.pickI(100, 100, 1000, 60, 4000))
		m.Sig = 1
		if m.High <= 100 { // bigger ones take too many steps
			m.Sig = g.pickI(1, 1, 2)
		}
		if g.ch(1, 12) { // beyond the documented limits
			switch g.n(3) {
			case 0:
				m.Low = -int64(g.pickI(1, 100, 1<<40))
			case 1:
				m.High, m.Sig = int64(g.pickI(3600000000, 3600000001, 1<<50)), 1
			case 2:
				m.Sig = -g.n(3)
			}
		}
	}
	g.p.Metrics = append(g.p.Metrics, m)
	return len(g.p.Metrics) - 1
}

func (g *gen) metrics(n int, v2 bool, kinds ...string) (l []int) {
	if len(kinds) == 0 {
		kinds = allKinds
	}
	for i := 0; i < n; i++ {
		l = append(l, g.metric(kinds[g.n(len(kinds))], v2))
	}
	return
}

// byString makes a metric that is registered by a string.
func (g *gen) byString(inst bool) int {
	m := &MetricSpec{Kind: "single", Type: g.n(7), Sem: g.n(3), Unit: g.n(len(unitSpecs)), Init: map[string]Val{}}
	for {
		a, b := g.pick("ba", "bb", "bc.d", "be_f.g", "b9")+strconv.Itoa(g.n(30)), g.pick("", ".r", ".s.t", ".u_v")
		if inst {
			if g.ids[fnv32(a, 22)] {
				continue
			}
			m.Kind, m.BSIndom, m.BSInst = "inst", a, []string{"p", "q", "r_1", "7"}[:g.in(1, 4)]
			m.ByString = a + "[" + strings.Join(m.BSInst, g.pick(",", ", ")) + "]" + b
			m.Name = a + b
			if b == "" && g.ch(1, 2) {
				continue
			}
		} else {
			m.Name = a + b
			m.ByString = m.Name
		}
		if g.names[m.Name] {
			continue
		}
		break
	}
	g.names[m.Name] = true
	if inst {
		g.ids[fnv32(m.BSIndom, 22)] = true
		for _, i := range m.BSInst {
			m.Init[i] = g.val(m.Type)
		}
	} else {
		m.Init[""] = g.val(m.Type)
	}
	g.p.Metrics = append(g.p.Metrics, m)
	return len(g.p.Metrics) - 1
}

// spoil makes the registration by string fail.
func (g *gen) spoil(m *MetricSpec) {
	m.Bad = true
	switch g.n(4) {
	case 3: // too long
		l := pad("b", g.pickI(257, 258, 300, 1000))
		if m.Kind == "inst" {
			m.BSInst, m.Init = []string{l}, map[string]Val{l: g.val(m.Type)}
			m.ByString = m.BSIndom + "[" + l + "]"
		} else {
			m.ByString = l
		}
	case 0:
		if m.Kind == "inst" {
			m.Init["nosuch"] = g.val(m.Type)
		} else {
			m.Init[""] = g.badVal(m.Type)
		}
	case 1:
		for k := range m.Init {
			m.Init[k] = g.badVal(m.Type)
		}
	case 2:
		if m.Kind == "inst" {
			for _, k := range sortedKeys(m.Init) {
				delete(m.Init, k)
				break
			}
		} else {
			m.ByString = g.pick("a..b", "", "a[", "a b", ".a", "a[]", "a[x][y]")
		}
	}
}

// mkbad is an attempt to make what no file can hold.
func (g *gen) mkbad(ms []int) *Op {
	l := g.pickI(257, 257, 258, 300, 1000)
	v := vS(g.pick(padU("x", l, 0), padU("x", l, 0), padU("é", l, 400)))
	o := &Op{K: "mkbad", V: &v}
	if len(ms) == 0 || g.ch(1, 3) {
		o.N, o.M = 1, g.n(4)
		o.I = g.pick("name", "short", "long", "inst", "inst")
		return o
	}
	o.M = ms[g.n(len(ms))]
	if o.I = g.pick("name", "name", "short", "long", "inst", "missing", "other", "value", "value"); o.I == "name" && g.ch(1, 2) {
		v.S = ""
	}
	if s := g.p.Metrics[o.M]; o.I == "value" && (s.Kind == "single" || s.Kind == "inst") {
		v = g.badVal(s.Type)
	}
	return o
}

func (g *gen) regOp(c, m int) *Op {
	if g.p.Metrics[m].ByString != "" {
		return &Op{K: "regstr", C: c, M: m}
	}
	return &Op{K: "reg", C: c, M: m, Must: g.ch(1, 10)}
}

func (g *gen) regAll(c int, ms []int) (l []*Op) {
	for _, m := range ms {
		if s := g.p.Metrics[m]; g.late && s.ByString == "" && g.ch(1, 2) {
			s.Late = true
			l = append(l, &Op{K: "mk", M: m})
		}
		l = append(l, g.regOp(c, m))
	}
	return
}

func (g *gen) inst(m int) string {
	l := g.p.instancesOf(m)
	if len(l) == 0 {
		return ""
	}
	return l[g.n(len(l))]
}

// update is a random update of a metric; bad ones are refused.
func (g *gen) update(m int, bad bool) *Op {
	s := g.p.Metrics[m]
	o := &Op{M: m, K: "set"}
	v := func(x Val) *Val { return &x }
	if s.Kind == "inst" || s.Kind == "cvec" || s.Kind == "gvec" {
		o.I = g.inst(m)
		if bad && g.ch(1, 4) {
			o.I = "no such instance"
		}
	}
	switch s.Kind {
	case "single", "inst":
		if bad && g.ch(1, 2) {
			o.V = v(g.badVal(s.Type))
		} else {
			o.V = v(g.val(s.Type))
		}
		o.Must = g.ch(1, 12)
	case "counter", "cvec":
		o.K = g.pick("inc", "inc", "inc", "up", "set")
		o.V = v(vI(int64(g.pickI(1, 2, 5, 100, 0, 255, 1<<33))))
		if o.K == "set" {
			o.V = v(vI(int64(g.pickI(3, 50, 300, 1<<34, 1<<35+7, -2, -100))))
			if bad {
				o.V = v(vI(int64(g.pickI(-1, 0, 2, 40))))
			}
		} else if bad {
			o.V = v(vI([]int64{-1, -100, math.MinInt64, math.MaxInt64, math.MaxInt64 - 3}[g.n(5)]))
			o.K = "inc"
		}
		if s.Kind == "cvec" && g.ch(1, 6) {
			o.K, o.I = map[string]string{"inc": "incall", "up": "upall", "set": "setall"}[o.K], ""
		}
		if o.K == "inc" && s.Kind == "cvec" || o.K == "inc" {
			o.Must = g.ch(1, 8)
		}
	case "gauge", "gvec":
		o.K = g.pick("set", "inc", "dec", "inc")
		g.ctr++
		o.V = v(g.gaugeVal(1, -2, 3, 1<<20, int(g.ctr)))
		if s.Kind == "gvec" && g.ch(1, 6) {
			o.K, o.I = o.K+"all", ""
		}
		o.Must = g.ch(1, 8)
		if bad && o.I == "" && s.Kind == "gvec" && !strings.HasSuffix(o.K, "all") {
			o.I = "no such instance"
		}
	case "timer":
		o.K = g.pick("tstart", "tstop", "tstart", "tstop", "treset")
	case "hist":
		o.K = g.pick("rec", "rec", "rec", "recn")
		o.Must = g.ch(1, 10)
		low, high, _ := s.hist()
		o.N, o.D = int64(g.in(int(low), int(high))), int64(g.pickI(1, 2, 3, 50, 1000))
		if g.ch(1, 4) {
			o.N = g.pickI64(low, high, high/2)
		}
		if o.K == "recn" && o.N < 1<<28 && g.ch(1, 12) {
			o.D = g.pickI64(1<<31+3, 1<<32, 1<<33+1)
		}
		if bad {
			switch g.n(3) {
			case 0:
				o.N = -1 - int64(g.n(5))
			case 1:
				o.N = high * int64(g.pickI(10, 1000, 1<<30))
			default:
				o.K, o.D = "recn", -int64(g.pickI(1, 2, 1000))
			}
		}
	}
	if o.K == "up" || o.K == "upall" {
		o.V, o.Must = nil, false
	}
	return o
}

func (g *gen) pickI64(l ...int64) int64 { return l[g.n(len(l))] }

// read is a random read of a metric (nil: it has none).
func (g *gen) read(m int) *Op {
	s := g.p.Metrics[m]
	o := &Op{M: m, K: "read"}
	switch s.Kind {
	case "inst", "cvec", "gvec":
		o.I = g.inst(m)
	case "timer":
		return nil
	case "hist":
		o.K = g.pick("max", "min", "mean", "var", "sd", "pct", "buckets", "high", "low", "pct", "buckets")
		if o.K == "pct" {
			o.N = int64(g.pickI(0, 1, 50, 90, 99, 100))
		}
	}
	return o
}

// work is a list of random operations on metrics.
func (g *gen) work(ms []int, n, pread, pbad int) (l []*Op) {
	for len(l) < n {
		m := ms[g.n(len(ms))]
		if g.n(100) < pread {
			if o := g.read(m); o != nil {
				l = append(l, o)
				continue
			}
		}
		l = append(l, g.update(m, g.n(100) < pbad))
	}
	return
}

// ask puts questions about the attributes of metrics between the operations.
func (g *gen) ask(t []*Op, ms []int) []*Op {
	if g.ch(1, 8) {
		i := g.n(len(t) + 1)
		t = append(t[:i:i], append([]*Op{g.mkbad(ms)}, t[i:]...)...)
	}
	for g.ch(1, 4) && len(ms) > 0 {
		i := g.n(len(t) + 1)
		t = append(t[:i:i], append([]*Op{{K: "attrs", M: ms[g.n(len(ms))]}}, t[i:]...)...)
	}
	return t
}

// anotherTime lets the wall clock jump, perhaps to where seconds since 1970
// are zero, negative or need more than 31 or 32 bits.
func (g *gen) anotherTime(t []*Op) []*Op {
	to := []int64{0, 0, 5e8, -1e9, -5e9, 1e9, 1 << 31 * 1e9, 1<<32*1e9 - 1, vsim.WallBase - 1e9, vsim.WallBase + 3600e9}[g.n(10)]
	i := g.n(g.in(1, len(t)+1))
	return append(t[:i:i], append([]*Op{{K: "jump", D: to - vsim.WallBase - vsim.MonoBase}}, t[i:]...)...)
}

func (g *gen) phase(tasks ...[]*Op) *Phase {
	ph := &Phase{Tasks: tasks}
	g.p.Phases = append(g.p.Phases, ph)
	return ph
}

// sched picks a scheduling policy.
func (g *gen) sched(est int) vsim.Schedule {
	s := vsim.Schedule{Seed: g.r.Next(), MapSeed: g.r.Next() | 1}
	switch g.n(10) {
	case 0, 1, 2, 3:
		s.Mode, s.P = "random", g.pickI(2, 4, 10, 30, 100, 400)
	case 4, 5, 6:
		s.Mode, s.Depth, s.Est = "pct", g.in(1, 8), est
	case 7, 8:
		s.Mode, s.Hot = "sites", g.pickI(6, 15, 40, 100)
	default:
		s.Mode, s.P = "random", 1000000 // switches only when a task blocks
	}
	return s
}

func (g *gen) shuffleOps(l []*Op) []*Op {
	o := make([]*Op, len(l))
	for i, k := range g.r.Perm(len(l)) {
		o[i] = l[k]
	}
	return o
}

// split distributes operations over n tasks.
func (g *gen) split(l []*Op, n int) [][]*Op {
	t := make([][]*Op, n)
	for _, o := range l {
		k := g.n(n)
		t[k] = append(t[k], o)
	}
	return t
}

var startFaults = []struct {
	op  string
	err []int
}{
	{"stat", []int{int(syscall.EACCES), int(syscall.EIO)}},
	{"remove", []int{int(syscall.EACCES), int(syscall.EPERM), int(syscall.EROFS)}},
	{"mkdir", []int{int(syscall.EACCES), int(syscall.ENOSPC), int(syscall.EROFS)}},
	{"open", []int{int(syscall.EACCES), int(syscall.EMFILE), int(syscall.ENOSPC)}},
	{"write", []int{int(syscall.ENOSPC), int(syscall.EIO)}},
	{"mmap", []int{int(syscall.ENOMEM), int(syscall.EACCES), int(syscall.EPERM)}},
	{"truncate", []int{int(syscall.ENOSPC), int(syscall.EIO)}},
	{"rename", []int{int(syscall.EACCES), int(syscall.ENOSPC)}},
	{"fsync", []int{int(syscall.EIO)}},
}

func (g *gen) startFault() simfs.Fault {
	f := startFaults[g.n(len(startFaults))]
	if g.ch(3, 4) {
		f = startFaults[g.n(6)]
	}
	x := simfs.Fault{Op: f.op, Nth: g.pickI(1, 1, 1, 2), Errno: f.err[g.n(len(f.err))]}
	if f.op == "write" && g.ch(1, 2) {
		x.Short = g.in(1, 400)
	}
	return x
}

// all metrics registered with a client
func allOf(n int) (l []int) {
	for i := 0; i < n; i++ {
		l = append(l, i)
	}
	return
}

func sortedInts(m map[int]bool) (l []int) {
	for k := range m {
		l = append(l, k)
	}
	sort.Ints(l)
	return
}
