package main

import (
	"bytes"
	"fmt"
	"math"
	"regexp"
	"strings"

	"verif/sim/vsim"
)

// An independent renderer: the text that a dump of a complete file has to be,
// made from the bytes of the file alone.

var typeNames = []string{"Int32Type", "Uint32Type", "Int64Type", "Uint64Type", "FloatType", "DoubleType", "StringType"}

func unitText(u uint32) string {
	type part struct {
		dim   int8
		scale uint32
		names []string
	}
	nib := func(sh uint) int8 { return int8(u>>sh<<4) >> 4 }
	ps := []part{
		{nib(28), u >> 16 & 15, []string{"B", "KiB", "MiB", "GiB", "TiB", "PiB", "EiB"}},
		{nib(24), u >> 12 & 15, []string{"nsec", "usec", "msec", "sec", "min", "hr"}},
		{nib(20), u >> 8 & 15, []string{"count"}},
	}
	var num, den string
	for _, p := range ps {
		if p.dim == 0 {
			continue
		}
		s := "<invalid>"
		if int(p.scale) < len(p.names) {
			s = p.names[p.scale]
			if p.dim > 1 || p.dim < -1 {
				s += fmt.Sprintf("^%d", p.dim)
			}
		}
		if p.dim > 0 {
			num += s
		} else {
			den += s
		}
	}
	if den != "" {
		return num + " / " + den
	}
	return num
}

// renderRaw is the expected text.
func renderRaw(b []byte) string {
	var o strings.Builder
	p := func(format string, a ...interface{}) { fmt.Fprintf(&o, format, a...) }
	u32 := func(off uint64) uint32 { return le.Uint32(b[off:]) }
	i32 := func(off uint64) int32 { return int32(le.Uint32(b[off:])) }
	u64 := func(off uint64) uint64 { return le.Uint64(b[off:]) }
	str := func(off uint64) string { return string(b[off : off+256]) }
	v := u32(4)
	p("Version   = %d\nGenerated = %d\nToc Count = %d\nCluster   = %d\nProcess   = %d\nFlags     = 0x%x\n\n", v, u64(8), u32(24), u32(36), i32(32), i32(28))
	base := func(m uint64) uint64 { // what follows the name
		if v == 1 {
			return m + 64
		}
		return m + 8
	}
	mname := func(m uint64) string {
		if v == 1 {
			return string(b[m : m+64])
		}
		return str(u64(m))
	}
	iname := func(i uint64) string {
		if v == 1 {
			return string(b[i+16 : i+80])
		}
		return str(u64(i + 16))
	}
	texts := func(s, l uint64) {
		for i, t := range []uint64{s, l} {
			n := []string{"shorttext", "longtext"}[i]
			if t == 0 {
				p("\t\t(no %s)\n", n)
			} else {
				p("\t\t%s=%s\n", n, str(t))
			}
		}
	}
	for ti := uint64(0); ti < uint64(u32(24)); ti++ {
		to := 40 + 16*ti
		typ, n, off := u32(to), u32(to+4), u64(to+8)
		p("TOC[%d], offset: %d, %s offset: %d (%d entries)\n", ti, to, []string{"", "indoms", "instances", "metric", "values", "strings"}[typ], off, n)
		for ; n > 0; n-- {
			switch typ {
			case 1:
				p("\t[%d/%d] %d instances, starting at offset %d\n", u32(off), off, u32(off+4), u64(off+8))
				texts(u64(off+16), u64(off+24))
			case 2:
				p("\t[%d/%d] instance = [%d/%s]\n", u32(u64(off)), off, i32(off+12), iname(off))
			case 3:
				x := base(off)
				p("\t[%d/%d] %s\n", u32(x), off, mname(off))
				p("\t\ttype=%s (0x%x), sem=(0x%x), pad=0x%x\n\t\tunits=%s\n", typeNames[u32(x+4)], u32(x+4), u32(x+8), u32(x+20), unitText(u32(x+12)))
				if i32(x+16) == -1 {
					p("\t\t(no indom)\n")
				} else {
					p("\t\tindom=%d\n", i32(x+16))
				}
				texts(u64(x+24), u64(x+32))
			case 4:
				m := u64(off + 16)
				x := base(m)
				p("\t[%d/%d] %s", u32(x), off, mname(m))
				if d := i32(x + 16); d != -1 && d != 0 {
					i := u64(off + 24)
					p("[%d or \"%s\"]", i32(i+12), iname(i))
				}
				raw := u64(off)
				switch u32(x + 4) {
				case tInt32:
					p(" = %d\n", int32(raw))
				case tUint32:
					p(" = %d\n", uint32(raw))
				case tInt64:
					p(" = %d\n", int64(raw))
				case tUint64:
					p(" = %d\n", raw)
				case tFloat:
					p(" = %v\n", math.Float32frombits(uint32(raw)))
				case tDouble:
					p(" = %v\n", math.Float64frombits(raw))
				default:
					p(" = %s\n", str(u64(off+8)))
				}
			case 5:
				p("\t[%d] %s\n", off, str(off))
			}
			off += uint64(entryLen(v, int(typ)))
		}
		p("\n")
	}
	return o.String()
}

var semRe = regexp.MustCompile(`sem=.*?\(0x`)
var padRe = regexp.MustCompile(`\x00+`)
var blankRe = regexp.MustCompile(`[ \t]+`)

// normText leaves out what the text does not need to be exact about: padding,
// spacing, and the name given to the semantics next to their code.
func normText(s string) []string {
	s = padRe.ReplaceAllString(s, "")
	s = semRe.ReplaceAllString(s, "sem=(0x")
	var l []string
	for _, t := range strings.Split(s, "\n") {
		if t = strings.TrimSpace(blankRe.ReplaceAllString(t, " ")); t != "" {
			l = append(l, t)
		}
	}
	return l
}

// relayout gives the complete file b the sections in another order, at other
// places and with other gaps, and their entries in another order; instances
// keep theirs, domains refer to blocks of them. The file says the same.
func relayout(b []byte, seed uint64) []byte {
	f, err := parseMMV(b)
	if err != nil {
		return b
	}
	r := vsim.NewRng(seed)
	n := len(f.Tocs)
	type sect struct {
		old, off, l, size uint64
		perm              []int
	}
	ss := make([]sect, n)
	for i, t := range f.Tocs {
		s := sect{old: t.Off, l: uint64(entryLen(f.Version, int(t.Type)))}
		s.size = s.l * uint64(t.Count)
		if s.perm = r.Perm(int(t.Count)); t.Type == 2 {
			for k := range s.perm {
				s.perm[k] = k
			}
		}
		ss[i] = s
	}
	end := uint64(40 + 16*n)
	for _, i := range r.Perm(n) {
		end += 8 * uint64(r.Intn(4))
		ss[i].off = end
		end += ss[i].size
	}
	end += 8 * uint64(r.Intn(3))
	at := func(off uint64) uint64 {
		for _, s := range ss {
			if off >= s.old && off < s.old+s.size {
				return s.off + uint64(s.perm[(off-s.old)/s.l])*s.l + (off-s.old)%s.l
			}
		}
		return off
	}
	o := make([]byte, end)
	copy(o, b[:40])
	for k, i := range r.Perm(n) {
		copy(o[40+16*k:], b[40+16*i:56+16*i])
		le.PutUint64(o[48+16*k:], ss[i].off)
	}
	for i, t := range f.Tocs {
		for k := uint64(0); k < uint64(t.Count); k++ {
			src := ss[i].old + k*ss[i].l
			e := o[at(src):][:ss[i].l]
			copy(e, b[src:])
			var refs []uint64
			switch x := uint64(8); t.Type {
			case 1:
				refs = []uint64{8, 16, 24}
			case 2:
				refs = []uint64{0}
				if f.Version == 2 {
					refs = append(refs, 16)
				}
			case 3:
				if f.Version == 1 {
					x = 64
				} else {
					refs = append(refs, 0)
				}
				refs = append(refs, x+24, x+32)
			case 4:
				refs = []uint64{16, 24}
				for _, m := range f.Metrics {
					if m.Off == le.Uint64(b[src+16:]) && m.Type == tString {
						refs = append(refs, 8)
					}
				}
			}
			for _, p := range refs {
				if v := le.Uint64(e[p:]); v != 0 {
					le.PutUint64(e[p:], at(v))
				}
			}
		}
	}
	return o
}

// patch changes values and attributes of a complete file without touching
// anything that other parts depend on.
func patch(b []byte, f *mmvFile, ms []Mut) {
	for _, m := range ms {
		switch m.K {
		case "pval", "punit", "psem":
			if len(f.Metrics) == 0 {
				continue
			}
			w := f.Metrics[m.A%len(f.Metrics)]
			x := w.Off + 8
			if f.Version == 1 {
				x = w.Off + 64
			}
			switch m.K {
			case "punit":
				le.PutUint32(b[x+12:], uint32(m.V))
			case "psem":
				le.PutUint32(b[x+8:], uint32(m.V%5))
			default:
				if len(w.Values) > 0 && w.Type != tString {
					le.PutUint64(b[w.Values[m.B%len(w.Values)].Off:], m.V)
				}
			}
		case "phdr":
			le.PutUint32(b[28+4*(m.A%3):], uint32(m.V)&math.MaxInt32)
		case "ptext": // a used string gets another text, padded with zero
			if len(f.StrOffs) > 0 {
				o := f.StrOffs[m.A%len(f.StrOffs)]
				for i := uint64(0); i < 255; i++ {
					c := byte(0)
					if int(i) <= m.B%255 {
						c = '!' + byte((m.V+i*7)%90)
					}
					b[o+i] = c
				}
			}
		}
	}
}

// renderText is the scenario of P23.
func renderText(x *Exec) {
	q := x.cur[0]
	if q == nil {
		return
	}
	data := append([]byte(nil), q.Ino.Data()...)
	for _, m := range x.c.Prog.Raw.Muts {
		if m.K == "relayout" {
			data = relayout(data, m.V)
		}
	}
	if f, err := parseMMV(data); err != nil {
		return
	} else {
		patch(data, f, x.c.Prog.Raw.Muts)
	}
	if _, err := parseMMV(data); err != nil {
		return
	}
	want := normText(renderRaw(data))
	var other []byte
	if len(x.c.Prog.Raw.Muts)%2 == 1 {
		other = relayout(data, uint64(len(data)))
		other[16] ^= byte(len(x.c.Prog.Raw.Muts) & 2)
	}
	bad := func(format string, a ...interface{}) {
		if x.Notes["bad"] == nil {
			x.Notes["bad"] = fmt.Sprintf(format, a...)
		}
	}
	var gs []*vsim.G
	for i := 0; i < 1+x.c.Prog.Raw.N; i++ {
		gd := guard(data)
		x.Keep = append(x.Keep, gd)
		gs = append(gs, x.w.Spawn(fmt.Sprintf("reader%d", i), &vsim.Proc{ID: 90 + i, Name: "reader"}, func() {
			d := runDump(gd.b)
			if d.err != nil {
				return // P16
			}
			if other != nil { // another file is read before this one is rendered
				runDump(other)
			}
			var o bytes.Buffer
			if err := d.write(&o); err != nil {
				bad("rendering a complete file fails: %v", err)
				return
			}
			x.w.Observe(func() { x.Notes["accepted"] = x.num("accepted") + 1 })
			got := normText(o.String())
			for i := 0; i < len(got) || i < len(want); i++ {
				var a, b string
				if i < len(got) {
					a = got[i]
				}
				if i < len(want) {
					b = want[i]
				}
				if a != b {
					bad("line %d of the text is %q, the file holds %q", i+1, short(a), short(b))
					return
				}
			}
		}))
	}
	for _, g := range gs {
		x.w.Join(g)
	}
}

func init() {
	def(&propDef{id: "P23", classes: "panic fault deadlock livelock", prep: func(x *Exec) { x.custom = renderText },
		gen: func(g *gen) *Case {
			v2 := g.ch(1, 2)
			c := g.client()
			ms := g.metrics(g.amount(0, 4), v2)
			t := g.regAll(c, ms)
			if g.ch(1, 3) {
				t = append(t, &Op{K: "regindom", C: c, M: g.indom(v2)})
			}
			if g.ch(1, 3) {
				t = append(t, &Op{K: "setflag", C: c, N: int64(g.pickI(1, 2, 4))})
			}
			t = append(t, op("start", c))
			if len(ms) > 0 {
				t = append(t, g.work(ms, g.n(6), 0, 0)...)
			}
			g.phase(t)
			g.p.Raw = &RawProg{N: g.n(2)}
			if g.ch(1, 3) {
				g.p.Raw.Muts = append(g.p.Raw.Muts, Mut{K: "relayout", V: g.r.Next()})
			}
			for k := g.n(6); k > 0; k-- {
				m := Mut{K: g.pick("pval", "pval", "punit", "punit", "psem", "phdr", "ptext"), A: g.n(20), B: g.n(300), V: g.mutVal()}
				switch {
				case m.K == "punit":
					m.V = uint64(g.n(16))<<28 | uint64(g.n(16))<<24 | uint64(g.n(16))<<20 | uint64(g.n(8))<<16 | uint64(g.n(7))<<12 | uint64(g.n(2)*g.n(2))<<8
				case m.K == "pval" && g.ch(1, 2):
					m.V = g.r.Next()
				}
				g.p.Raw.Muts = append(g.p.Raw.Muts, m)
			}
			return g.done("P23")
		}, check: nilCheck(func(x *Exec) string { return x.noteBad() })})
}
