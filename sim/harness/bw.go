package main

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/performancecopilot/speed/v4/bytewriter"

	"verif/sim/vsim"
)

// BWWrite is one call of a byte writer.
type BWWrite struct {
	K    string `json:"k"` // write val str i32 i64 u32 u64 f32 f64
	Off  int    `json:"off"`
	V    Val    `json:"v"`
	Must bool   `json:"must,omitempty"`
}

// encoding is what the call has to put into the block.
func (o *BWWrite) encoding() []byte {
	w4 := func(v uint32) []byte { b := make([]byte, 4); le.PutUint32(b, v); return b }
	w8 := func(v uint64) []byte { b := make([]byte, 8); le.PutUint64(b, v); return b }
	i, u, f := o.V.i64(), uint64(0), o.V.f64()
	u, _ = strconv.ParseUint(o.V.S, 10, 64)
	switch o.V.T {
	case "int32":
		return w4(uint32(i))
	case "int64":
		return w8(uint64(i))
	case "uint32":
		return w4(uint32(u))
	case "uint64":
		return w8(u)
	case "float32":
		return w4(math.Float32bits(float32(f)))
	case "float64":
		return w8(math.Float64bits(f))
	}
	return []byte(o.V.S)
}

type bwRec struct {
	o    *BWWrite
	off  int
	err  bool
	done bool
}

func callBW(w bytewriter.Writer, o *BWWrite) (off int, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); ok && o.Must {
				if _, rt := r.(interface{ RuntimeError() }); !rt {
					err = e
					return
				}
			}
			panic(r)
		}
	}()
	v := o.V.goVal()
	m := o.Must
	switch o.K {
	case "write":
		if m {
			return w.MustWrite([]byte(o.V.S), o.Off), nil
		}
		return w.Write([]byte(o.V.S), o.Off)
	case "str":
		if m {
			return w.MustWriteString(o.V.S, o.Off), nil
		}
		return w.WriteString(o.V.S, o.Off)
	case "val":
		if m {
			return w.MustWriteVal(v, o.Off), nil
		}
		return w.WriteVal(v, o.Off)
	case "int32":
		if m {
			return w.MustWriteInt32(v.(int32), o.Off), nil
		}
		return w.WriteInt32(v.(int32), o.Off)
	case "int64":
		if m {
			return w.MustWriteInt64(v.(int64), o.Off), nil
		}
		return w.WriteInt64(v.(int64), o.Off)
	case "uint32":
		if m {
			return w.MustWriteUint32(v.(uint32), o.Off), nil
		}
		return w.WriteUint32(v.(uint32), o.Off)
	case "uint64":
		if m {
			return w.MustWriteUint64(v.(uint64), o.Off), nil
		}
		return w.WriteUint64(v.(uint64), o.Off)
	case "float32":
		if m {
			return w.MustWriteFloat32(v.(float32), o.Off), nil
		}
		return w.WriteFloat32(v.(float32), o.Off)
	case "float64":
		if m {
			return w.MustWriteFloat64(v.(float64), o.Off), nil
		}
		return w.WriteFloat64(v.(float64), o.Off)
	}
	panic(o.K)
}

// byteWriter is the scenario of P22.
func byteWriter(x *Exec) {
	raw := x.c.Prog.Raw
	bad := func(format string, a ...interface{}) {
		if x.Notes["bad"] == nil {
			x.Notes["bad"] = fmt.Sprintf(format, a...)
		}
	}
	x.w.Join(x.w.Spawn("owner", &vsim.Proc{ID: 50, Name: "p50"}, func() {
		var w bytewriter.Writer
		var mm *bytewriter.MemoryMappedWriter
		var ext []byte // the block and what surrounds it
		const margin = 64
		path := "/data/blk"
		switch {
		case raw.Mapped:
			var err error
			mm, err = bytewriter.NewMemoryMappedWriter(path, raw.Size)
			if err != nil {
				bad("no mapped writer: %v", err)
				return
			}
			w = mm
		case raw.N == 1:
			ext = make([]byte, raw.Size+2*margin)
			for i := range ext {
				ext[i] = byte(i*7 + 1)
			}
			w = bytewriter.NewByteWriterSlice(ext[margin : margin+raw.Size])
		default:
			w = bytewriter.NewByteWriter(raw.Size)
		}
		if w.Len() != raw.Size || len(w.Bytes()) != raw.Size {
			bad("a writer of size %d has length %d", raw.Size, w.Len())
			return
		}
		want := append([]byte(nil), w.Bytes()...)
		var recs []*bwRec
		var gs []*vsim.G
		for ti, t := range raw.Writes {
			t := t
			rs := make([]*bwRec, len(t))
			for i := range t {
				rs[i] = &bwRec{o: &t[i]}
			}
			recs = append(recs, rs...)
			gs = append(gs, x.w.Spawn(fmt.Sprintf("t%d", ti), x.w.Cur().Proc, func() {
				for _, r := range rs {
					off, err := callBW(w, r.o)
					r.off, r.err, r.done = off, err != nil, true
				}
			}))
		}
		x.w.Join(gs...)
		for _, r := range recs {
			enc := r.o.encoding()
			fits := r.o.Off >= 0 && r.o.Off <= raw.Size && len(enc) <= raw.Size-r.o.Off
			d := fmt.Sprintf("writing %d bytes (%s) at %d of %d", len(enc), r.o.K, r.o.Off, raw.Size)
			switch {
			case fits && r.err:
				bad("%s is refused", d)
			case !fits && !r.err:
				bad("%s succeeds", d)
			case fits && r.off != r.o.Off+len(enc):
				bad("%s returns %d", d, r.off)
			}
			if fits {
				copy(want[r.o.Off:], enc)
			}
		}
		cmp := func(what string, got []byte) {
			if !bytes.Equal(got, want) {
				for i := range want {
					if i >= len(got) || got[i] != want[i] {
						bad("%s: byte %d is wrong after %s", what, i, descWrites(raw.Writes))
						return
					}
				}
				bad("%s has the wrong length", what)
			}
		}
		cmp("the block", append([]byte(nil), w.Bytes()...))
		if ext != nil {
			for i := range ext {
				if (i < margin || i >= margin+raw.Size) && ext[i] != byte(i*7+1) {
					bad("a byte outside of the block changes: %d", i-margin)
				}
			}
		}
		if mm != nil {
			if ino := x.fs.Lookup(path); ino == nil {
				bad("the mapped file is missing")
			} else {
				cmp("the mapped file", append([]byte(nil), ino.Data()...))
			}
			if err := mm.Unmap(x.c.Prog.Raw.N == 2); err != nil {
				bad("unmapping fails: %v", err)
			}
			ino := x.fs.Lookup(path)
			if x.c.Prog.Raw.N == 2 && ino != nil {
				bad("the file is not removed")
			} else if x.c.Prog.Raw.N != 2 && ino == nil {
				bad("the file vanishes")
			} else if ino != nil {
				cmp("the file", append([]byte(nil), ino.Data()...))
			}
			if len(x.fs.Handles)+len(x.fs.Maps) != 0 {
				bad("%d handles and %d mappings stay open", len(x.fs.Handles), len(x.fs.Maps))
			}
		}
	}))
}

func descWrites(l [][]BWWrite) string {
	s := ""
	for i, t := range l {
		for _, o := range t {
			s += fmt.Sprintf(" %d:%s(%d bytes at %d)", i, o.K, len(o.encoding()), o.Off)
		}
	}
	return s
}

func (g *gen) bwVal() (k string, v Val) {
	k = g.pick("write", "str", "val", "val", "int32", "int64", "uint32", "uint64", "float32", "float64")
	n := func() int64 { g.ctr++; return g.ctr*0x0101010101 + int64(g.r.Next()>>33) }
	t := k
	if k == "val" {
		t = g.pick("string", "int32", "int64", "uint32", "uint64", "float32", "float64")
	}
	switch t {
	case "int32":
		v = Val{t, fmt.Sprint(int32(n()) * int32(g.pickI(1, -1)))}
	case "int64":
		v = Val{t, fmt.Sprint(n() * int64(g.pickI(1, -1)))}
	case "uint32":
		v = Val{t, fmt.Sprint(uint32(n()))}
	case "uint64":
		v = Val{t, fmt.Sprint(uint64(n()))}
	case "float32", "float64":
		v = Val{t, strconv.FormatFloat(float64(g.n(100000))/8, 'g', -1, 64)}
	default:
		g.ctr++
		v = vS(strings.Repeat(string(rune('A'+g.ctr%26)), g.pickI(0, 1, 3, 7, 8, 9, 20, 64)))
	}
	return
}

func init() {
	def(&propDef{id: "P22", classes: "panic fault", prep: func(x *Exec) { x.custom = byteWriter }, gen: func(g *gen) *Case {
		raw := &RawProg{Size: g.pickI(0, 1, 8, 40, 100, 256, 1000), N: g.n(3), Mapped: g.ch(1, 2)}
		if raw.Mapped && raw.Size == 0 {
			raw.Size = 5
		}
		g.p.Raw = raw
		nt := g.in(1, 4)
		raw.Writes = make([][]BWWrite, nt)
		// disjoint ranges, in random order, of random tasks
		off := g.n(4)
		var l []BWWrite
		for len(l) < 24 {
			k, v := g.bwVal()
			o := BWWrite{K: k, V: v, Off: off, Must: g.ch(1, 6)}
			n := len(o.encoding())
			if off+n > raw.Size {
				break
			}
			l = append(l, o)
			off += n + g.pickI(0, 0, 0, 1, 3)
		}
		for n := g.n(3); n > 0; n-- { // exactly at the end, and beyond
			k, v := g.bwVal()
			o := BWWrite{K: k, V: v, Must: g.ch(1, 6)}
			n := len(o.encoding())
			if n == 0 {
				continue
			}
			o.Off = g.anyI(raw.Size-n+1, raw.Size, raw.Size+1, raw.Size+1000, -1, -n, -8, math.MaxInt64, math.MaxInt64-n+1, math.MaxInt64-n/2, math.MinInt64, math.MinInt64+3)
			if o.Off >= 0 && o.Off <= raw.Size-n {
				continue
			}
			l = append(l, o)
		}
		for _, i := range g.r.Perm(len(l)) {
			t := g.n(nt)
			raw.Writes[t] = append(raw.Writes[t], l[i])
		}
		c := g.done("P22")
		c.Sched = g.sched(20 * (len(l) + 1))
		return c
	}, check: nilCheck(func(x *Exec) string { return x.noteBad() })})
}

func (g *gen) anyI(l ...int) int { return l[g.n(len(l))] }
