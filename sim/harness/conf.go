package main

import (
	"fmt"
	"path"
	"regexp"
	"sort"
	"strings"
	"syscall"

	"verif/sim/simfs"
)

// ---- P21: where the files go

var confLine = regexp.MustCompile(`^([A-Z0-9_]+)=(.*)$`)

// confPlaces lists the directories that are right for a configuration.
func (p *Prog) confPlaces(faulty bool) (l []string) {
	tmp := "/tmp"
	if t := p.Env["TMPDIR"]; t != "" {
		tmp = t
	}
	fallback := tmp + "/mmv"
	root := "/"
	if r, ok := p.Env["PCP_DIR"]; ok {
		root = r
	}
	file := path.Join(root, "etc", "pcp.conf")
	if c, ok := p.Env["PCP_CONF"]; ok {
		file = c
	}
	if t, ok := p.Links[file]; ok {
		file = t
	}
	data, ok := p.Files[file]
	if !ok || faulty {
		return []string{fallback}
	}
	long := false
	vals := map[string]bool{}
	for _, ln := range strings.Split(data, "\n") {
		if len(ln) > 60000 {
			long = true
		}
		if m := confLine.FindStringSubmatch(ln); m != nil && m[1] == "PCP_TMP_DIR" {
			vals[path.Join(root, m[2], "mmv")] = true
		}
	}
	if long && len(vals) > 1 { // the last one or, as it cannot be read, none
		l := strings.Split(data, "\n")
		for i := len(l) - 1; i >= 0; i-- {
			if m := confLine.FindStringSubmatch(l[i]); m != nil && m[1] == "PCP_TMP_DIR" {
				return []string{fallback, path.Join(root, m[2], "mmv")}
			}
		}
	}
	if len(vals) == 0 || long {
		l = append(l, fallback)
	}
	for v := range vals {
		l = append(l, v)
	}
	sort.Strings(l)
	return
}

func badName(n string) bool {
	return n == "" || n == "." || n == ".." || strings.ContainsAny(n, "/\x00")
}

func checkConf(x *Exec) string {
	p := x.c.Prog
	faulty := false
	for k, n := range x.w.Stats().Faults {
		if n > 0 && (strings.HasPrefix(k, "read-") || strings.HasPrefix(k, "open-")) {
			faulty = true
		}
	}
	places := p.confPlaces(faulty)
	for i, c := range p.Clients {
		_, refused := x.SetupErr[fmt.Sprintf("1:client %d", i)]
		if badName(c.Name) != refused {
			if refused {
				return fmt.Sprintf("client name %q is refused: %s", c.Name, x.SetupErr[fmt.Sprintf("1:client %d", i)])
			}
			return fmt.Sprintf("client name %q is accepted", c.Name)
		}
	}
	for _, r := range x.Recs {
		if r.Op.K == "start" && r.Err {
			return fmt.Sprintf("client %q cannot be started: %s", p.Clients[r.Op.C].Name, r.ErrS)
		}
		if r.Op.K == "start" && !r.Skip && r.Ret != 0 {
			want := map[string]bool{}
			for _, d := range places {
				want[path.Join(d, p.Clients[r.Op.C].Name)] = true
			}
			found := ""
			for _, f := range x.Notes["tree"].([]string) {
				if strings.HasSuffix(f, "/") {
					continue
				}
				if _, ok := p.Files[f]; ok {
					continue
				}
				if _, ok := p.Links[f]; ok {
					continue
				}
				if path.Base(f) == p.Clients[r.Op.C].Name {
					if !want[f] {
						return fmt.Sprintf("the file of client %q is at %s, it should be in %v", p.Clients[r.Op.C].Name, f, places)
					}
					found = f
				} else if !confKnown(p, path.Base(f)) {
					return fmt.Sprintf("file %s is made", f)
				}
			}
			if found == "" {
				return fmt.Sprintf("the file of client %q is not in %v", p.Clients[r.Op.C].Name, places)
			}
		}
	}
	if n := x.num("inithandles"); n > 0 {
		return fmt.Sprintf("%d handles stay open after the configuration is read", n)
	}
	return ""
}

func confKnown(p *Prog, n string) bool {
	for _, c := range p.Clients {
		if c.Name == n {
			return true
		}
	}
	return false
}

func init() {
	def(&propDef{id: "P21", classes: "panic fault", gen: func(g *gen) *Case {
		p := g.p
		p.Env, p.Files, p.Dirs, p.Links = map[string]string{}, map[string]string{}, nil, map[string]string{}
		p.Loc = "/nowhere"
		root := "/"
		if g.ch(1, 2) {
			root = g.pick("/opt/pcp", "/usr/local", "/r")
			p.Env["PCP_DIR"] = root
		}
		file := path.Join(root, "etc", "pcp.conf")
		if g.ch(1, 3) {
			file = g.pick("/c.conf", "/home/u/pcp.conf", path.Join(root, "etc/other.conf"))
			p.Env["PCP_CONF"] = file
		}
		if g.ch(1, 8) {
			p.Env["TMPDIR"] = g.pick("/alttmp", "/var/alttmp")
		}
		var lines []string
		add := func(s string) { lines = append(lines, s) }
		val := func() string { return g.pick("/var/tmp", "/run/pcp", "/x", "var/lib/t", "/tmp", "/a/b/c") }
		for n := g.n(6); n > 0; n-- {
			switch g.n(8) {
			case 0:
				add("# a comment")
			case 1:
				add("#PCP_TMP_DIR=/wrong" + fmt.Sprint(g.n(9)))
			case 2:
				add("# PCP_TMP_DIR=/wrong" + fmt.Sprint(g.n(9)))
			case 3:
				add("")
			case 4:
				add("PCP_VAR_DIR=/var/lib/pcp")
			case 5:
				add("PCP_RUN_DIR=/run/a=b")
			case 6:
				add("# " + strings.Repeat("x", g.pickI(100, 4000, 5000)))
			case 7:
				add("PCP_TMP_DIR_OLD=/wrong")
			}
		}
		if g.ch(4, 5) {
			add("PCP_TMP_DIR=" + val())
		}
		for n := g.n(3); n > 0; n-- {
			add(g.pick("PCP_LOG_DIR=/var/log", "# end", "# "+strings.Repeat("y", 4000)))
		}
		if g.ch(1, 8) { // a very long line, then another value
			add("# " + strings.Repeat("z", g.pickI(66000, 140000)))
			if g.ch(1, 2) {
				add("PCP_TMP_DIR=" + val())
			}
		}
		data := strings.Join(lines, "\n")
		if g.ch(3, 4) {
			data += "\n"
		}
		ph := g.phase()
		switch g.n(8) {
		case 0: // no file
		case 1:
			p.Dirs = append(p.Dirs, file)
		case 2:
			p.Links[file] = "/etc/real.conf"
			p.Files["/etc/real.conf"] = data
		default:
			p.Files[file] = data
		}
		if g.ch(1, 3) {
			f := simfs.Fault{Op: g.pick("read", "read", "open"), Nth: g.pickI(1, 1, 2, 3), Errno: int(syscall.EIO), Count: -1}
			if f.Op == "open" {
				f.Nth, f.Errno = 1, int(syscall.EACCES)
			} else if g.ch(1, 2) {
				f.Short = g.in(1, 4000)
			}
			ph.Faults = append(ph.Faults, f)
		}
		for n := g.in(1, 3); n > 0; n-- {
			nm := g.pick("app", "a.b", "..x", "x..", "name with space", "...", "-", "a:b", "app", ".", "..", "", "../x", "/abs", "a/b", "sub/../../x", "./x", "x/")
			for _, c := range p.Clients {
				if c.Name == nm {
					nm += "2"
				}
			}
			p.Clients = append(p.Clients, ClientSpec{Name: nm})
		}
		ms := g.metrics(1, false, "counter")
		ph.Tasks = nil
		q := g.phase()
		var t []*Op
		for c := range p.Clients {
			if c == 0 {
				t = append(t, g.regAll(c, ms)...)
			}
			t = append(t, op("start", c))
		}
		q.Tasks = [][]*Op{t}
		if g.ch(1, 4) {
			p.Raw = &RawProg{Reads: g.pickI(1, 7, 100, 4000)}
		}
		return g.done("P21")
	}, prep: func(x *Exec) {
		if r := x.c.Prog.Raw; r != nil {
			x.fs.MaxRead = r.Reads
		}
		x.afterSetup = func() { x.Notes["inithandles"] = len(x.fs.Handles) }
		x.custom = func(x *Exec) { x.Notes["tree"] = x.fs.Tree() }
	}, check: nilCheck(checkConf)})
}
