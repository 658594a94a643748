package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"
)

// An independent reader of the MMV format (versions 1 and 2), written from the
// format description; it shares nothing with the library or its dump package.

// File status for a reader that follows the protocol.
const (
	stAbsent   = "absent"
	stNotReady = "not-ready" // the reader must not use the file
	stReady    = "ready"     // the reader will use the file
)

type pInst struct {
	Name string
	ID   uint32
	Off  uint64
}

type pIndom struct {
	Serial      uint32
	Short, Long string
	Insts       []pInst
	Off         uint64
}

type pMetric struct {
	Name        string
	ID          uint32
	Type, Sem   int32
	Unit        uint32
	Indom       int32
	Short, Long string
	Off         uint64
	Values      []pVal
}

type pVal struct {
	Raw      uint64 // numeric types
	Extra    int64
	Str      string
	StrOff   uint64
	Off      uint64
	InstOff  uint64
	InstName string
}

type mmvFile struct {
	Version      uint32
	G1, G2       uint64
	Flag, Pid    int32
	Cluster      uint32
	Tocs         []pToc
	Metrics      []*pMetric
	Indoms       []*pIndom
	NStrings     int
	StrOffs      []uint64
	NVals, NInst int
	Size         int
}

type pToc struct {
	Type, Count int32
	Off         uint64
}

var le = binary.LittleEndian

// quickStatus is what the reader protocol says about the bytes.
func quickStatus(b []byte) string {
	if len(b) < 40 || string(b[:4]) != "MMV\x00" {
		return stNotReady
	}
	if v := le.Uint32(b[4:]); v != 1 && v != 2 {
		return stNotReady
	}
	g1, g2 := le.Uint64(b[8:]), le.Uint64(b[16:])
	if g1 == 0 || g1 != g2 {
		return stNotReady
	}
	return stReady
}

func cstr(b []byte) string {
	if i := bytes.IndexByte(b, 0); i >= 0 {
		return string(b[:i])
	}
	return string(b)
}

// parseMMV reads a file whose status is ready; an error says in what way the
// file is not a complete well formed file.
func parseMMV(b []byte) (*mmvFile, error) {
	if quickStatus(b) != stReady {
		return nil, fmt.Errorf("header does not announce a complete file")
	}
	f := &mmvFile{Version: le.Uint32(b[4:]), G1: le.Uint64(b[8:]), G2: le.Uint64(b[16:]), Size: len(b),
		Flag: int32(le.Uint32(b[28:])), Pid: int32(le.Uint32(b[32:])), Cluster: le.Uint32(b[36:])}
	n := int32(le.Uint32(b[24:]))
	if n < 0 || 40+16*int64(n) > int64(len(b)) {
		return nil, fmt.Errorf("%d sections announced, file has %d bytes", n, len(b))
	}
	mlen, ilen := uint64(104), uint64(80)
	if f.Version == 2 {
		mlen, ilen = 48, 24
	}
	lens := map[int32]uint64{1: 32, 2: ilen, 3: mlen, 4: 32, 5: 256}
	type span struct {
		a, b uint64
		what string
	}
	spans := []span{{0, 40 + 16*uint64(n), "header"}}
	sec := map[int32]pToc{}
	for i := int32(0); i < n; i++ {
		p := b[40+16*i:]
		t := pToc{int32(le.Uint32(p)), int32(le.Uint32(p[4:])), le.Uint64(p[8:])}
		f.Tocs = append(f.Tocs, t)
		l, ok := lens[t.Type]
		if !ok {
			return nil, fmt.Errorf("section %d has unknown type %d", i, t.Type)
		}
		if _, dup := sec[t.Type]; dup {
			return nil, fmt.Errorf("two sections of type %d", t.Type)
		}
		sec[t.Type] = t
		if t.Count < 0 {
			return nil, fmt.Errorf("section type %d has count %d", t.Type, t.Count)
		}
		if t.Count > 0 {
			end := t.Off + uint64(t.Count)*l
			if t.Off > uint64(len(b)) || end > uint64(len(b)) {
				return nil, fmt.Errorf("section type %d [%d,%d) lies outside of the file of %d bytes", t.Type, t.Off, end, len(b))
			}
			if t.Off%8 != 0 {
				return nil, fmt.Errorf("section type %d starts at unaligned offset %d", t.Type, t.Off)
			}
			spans = append(spans, span{t.Off, end, fmt.Sprintf("section type %d", t.Type)})
		}
	}
	sort.Slice(spans, func(i, j int) bool { return spans[i].a < spans[j].a })
	for i := range spans {
		var next uint64 = uint64(len(b))
		if i+1 < len(spans) {
			next = spans[i+1].a
			if spans[i].b > next {
				return nil, fmt.Errorf("%s [%d,%d) overlaps %s at %d", spans[i].what, spans[i].a, spans[i].b, spans[i+1].what, next)
			}
		}
		for _, c := range b[spans[i].b:next] {
			if c != 0 {
				return nil, fmt.Errorf("bytes outside of every section after %s are not zero", spans[i].what)
			}
		}
	}
	inSec := func(t int32, off uint64) bool {
		s, ok := sec[t]
		return ok && off >= s.Off && off < s.Off+uint64(s.Count)*lens[t] && (off-s.Off)%lens[t] == 0
	}
	refs := map[uint64]int{}
	str := func(off uint64, what string) (string, error) {
		if !inSec(5, off) {
			return "", fmt.Errorf("%s refers to a string at %d, which is not an entry of the string section", what, off)
		}
		refs[off]++
		return cstr(b[off : off+256]), nil
	}
	text := func(off uint64, what string) (string, error) {
		if off == 0 {
			return "", nil
		}
		s, err := str(off, what)
		if err == nil && s == "" {
			err = fmt.Errorf("%s refers to an empty string", what)
		}
		return s, err
	}
	var err error
	f.NStrings = int(sec[5].Count)
	for i := 0; i < f.NStrings; i++ {
		f.StrOffs = append(f.StrOffs, sec[5].Off+256*uint64(i))
	}
	instOwner := map[uint64]*pIndom{}
	instName := map[uint64]string{}
	f.NInst = int(sec[2].Count)
	serials := map[uint32]*pIndom{}
	for i := int32(0); i < sec[1].Count; i++ {
		o := sec[1].Off + 32*uint64(i)
		p := b[o:]
		d := &pIndom{Serial: le.Uint32(p), Off: o}
		cnt, io := le.Uint32(p[4:]), le.Uint64(p[8:])
		if d.Short, err = text(le.Uint64(p[16:]), "indom short text"); err != nil {
			return nil, err
		}
		if d.Long, err = text(le.Uint64(p[24:]), "indom long text"); err != nil {
			return nil, err
		}
		if serials[d.Serial] != nil {
			return nil, fmt.Errorf("instance domain %d appears twice", d.Serial)
		}
		serials[d.Serial] = d
		for k := uint64(0); k < uint64(cnt); k++ {
			x := io + k*ilen
			if !inSec(2, x) {
				return nil, fmt.Errorf("instance %d of domain %d at %d is not an entry of the instance section", k, d.Serial, x)
			}
			if instOwner[x] != nil {
				return nil, fmt.Errorf("instance at %d belongs to two domains", x)
			}
			instOwner[x] = d
			q := b[x:]
			in := pInst{ID: le.Uint32(q[12:]), Off: x}
			if back := le.Uint64(q); back != o {
				return nil, fmt.Errorf("instance at %d refers to a domain at %d, it belongs to the one at %d", x, back, o)
			}
			if pad := le.Uint32(q[8:]); pad != 0 {
				return nil, fmt.Errorf("instance at %d has padding %x", x, pad)
			}
			if f.Version == 1 {
				in.Name = cstr(q[16:80])
				if in.Name == "" || len(in.Name) > 63 {
					return nil, fmt.Errorf("instance at %d has name %q", x, in.Name)
				}
			} else if in.Name, err = text(le.Uint64(q[16:]), "instance name"); err != nil {
				return nil, err
			} else if in.Name == "" {
				return nil, fmt.Errorf("instance at %d has no name", x)
			}
			instName[x] = in.Name
			d.Insts = append(d.Insts, in)
		}
		f.Indoms = append(f.Indoms, d)
	}
	if len(instOwner) != f.NInst {
		return nil, fmt.Errorf("%d instances, %d belong to a domain", f.NInst, len(instOwner))
	}
	byOff := map[uint64]*pMetric{}
	for i := int32(0); i < sec[3].Count; i++ {
		o := sec[3].Off + mlen*uint64(i)
		p := b[o:]
		m := &pMetric{Off: o}
		if f.Version == 1 {
			m.Name = cstr(p[:64])
			if m.Name == "" || len(m.Name) > 63 {
				return nil, fmt.Errorf("metric at %d has name %q", o, m.Name)
			}
			p = p[64:]
		} else {
			if m.Name, err = text(le.Uint64(p), "metric name"); err != nil {
				return nil, err
			}
			if m.Name == "" {
				return nil, fmt.Errorf("metric at %d has no name", o)
			}
			p = p[8:]
		}
		m.ID, m.Type, m.Sem, m.Unit, m.Indom = le.Uint32(p), int32(le.Uint32(p[4:])), int32(le.Uint32(p[8:])), le.Uint32(p[12:]), int32(le.Uint32(p[16:]))
		if pad := le.Uint32(p[20:]); pad != 0 {
			return nil, fmt.Errorf("metric %s has padding %x", m.Name, pad)
		}
		if m.Short, err = text(le.Uint64(p[24:]), "metric short text"); err != nil {
			return nil, err
		}
		if m.Long, err = text(le.Uint64(p[32:]), "metric long text"); err != nil {
			return nil, err
		}
		if m.Indom != -1 && serials[uint32(m.Indom)] == nil {
			return nil, fmt.Errorf("metric %s refers to instance domain %d, which is not in the file", m.Name, m.Indom)
		}
		byOff[o] = m
		f.Metrics = append(f.Metrics, m)
	}
	f.NVals = int(sec[4].Count)
	valStr := map[uint64]bool{}
	for i := int32(0); i < sec[4].Count; i++ {
		o := sec[4].Off + 32*uint64(i)
		p := b[o:]
		v := pVal{Raw: le.Uint64(p), Extra: int64(le.Uint64(p[8:])), Off: o, InstOff: le.Uint64(p[24:])}
		m := byOff[le.Uint64(p[16:])]
		if m == nil {
			return nil, fmt.Errorf("value at %d refers to a metric at %d, which is not a metric entry", o, le.Uint64(p[16:]))
		}
		if m.Type == 6 {
			v.StrOff = uint64(v.Extra)
			if v.Str, err = str(v.StrOff, "value of "+m.Name); err != nil {
				return nil, err
			}
			if valStr[v.StrOff] || refs[v.StrOff] > 1 {
				return nil, fmt.Errorf("the string at %d of metric %s is used twice", v.StrOff, m.Name)
			}
			valStr[v.StrOff] = true
		} else if v.Extra != 0 {
			return nil, fmt.Errorf("value of %s has extra %x", m.Name, v.Extra)
		}
		if (m.Type == 0 || m.Type == 1 || m.Type == 4) && v.Raw>>32 != 0 {
			return nil, fmt.Errorf("value of %s has stray upper bytes %x", m.Name, v.Raw)
		}
		if m.Indom == -1 {
			if v.InstOff != 0 {
				return nil, fmt.Errorf("value of %s refers to an instance at %d, the metric has no domain", m.Name, v.InstOff)
			}
		} else {
			d := instOwner[v.InstOff]
			if d == nil {
				return nil, fmt.Errorf("value of %s refers to an instance at %d, which is not an instance entry", m.Name, v.InstOff)
			}
			if d.Serial != uint32(m.Indom) {
				return nil, fmt.Errorf("value of %s refers to instance %s of domain %d, the metric's domain is %d", m.Name, instName[v.InstOff], d.Serial, m.Indom)
			}
			v.InstName = instName[v.InstOff]
		}
		m.Values = append(m.Values, v)
	}
	for _, o := range f.StrOffs {
		if refs[o] == 0 {
			return nil, fmt.Errorf("the string at %d is not used by anything", o)
		}
	}
	return f, nil
}

// fnv32 is the identifier hash of the format.
func fnv32(s string, bits uint) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h ^= uint32(s[i])
		h *= 16777619
	}
	if bits == 0 {
		return h
	}
	return h & (1<<bits - 1)
}
