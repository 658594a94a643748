// Command vrewrite makes the instrumented copy of the library that runs under
// the simulator: every shared memory access, channel operation, goroutine
// start, lock, clock, file and mapping operation of the copy goes through the
// simulator.  The semantics of the code is otherwise unchanged.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	Standard   bool
	Module     *struct {
		Path, Version, Dir, GoVersion string
		Main                          bool
	}
	Error      *struct{ Err string }
	DepsErrors []*struct{ Err string }
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "vrewrite: "+f+"\n", a...)
	os.Exit(3)
}

// usage: vrewrite -src DIR -modfile FILE -out DIR [-level full|sync] [-also path,path] [-commands no]
func main() {
	opts := map[string]string{"src": ".", "level": "full"}
	for i := 1; i+1 < len(os.Args); i += 2 {
		opts[strings.TrimPrefix(os.Args[i], "-")] = os.Args[i+1]
	}
	src, out := opts["src"], opts["out"]
	also := map[string]bool{}
	for _, a := range strings.Split(opts["also"], ",") {
		if a != "" {
			also[a] = true
		}
	}
	args := []string{"list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Name,Export,GoFiles,CgoFiles,Standard,Module,Error,DepsErrors"}
	if opts["modfile"] != "" {
		args = append(args, "-modfile="+opts["modfile"])
	}
	args = append(args, "./...")
	cmd := exec.Command("go", args...)
	cmd.Dir = src
	cmd.Stderr = os.Stderr
	raw, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	var pkgs []*listPkg
	dec := json.NewDecoder(bytes.NewReader(raw))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		pkgs = append(pkgs, &p)
	}
	exports := map[string]string{}
	for _, p := range pkgs {
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
	}
	fset := token.NewFileSet()
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	checked := map[string]*types.Package{}
	imp := importFn(func(path string) (*types.Package, error) {
		if p, ok := checked[path]; ok {
			return p, nil
		}
		if path == "unsafe" {
			return types.Unsafe, nil
		}
		return gc.Import(path)
	})
	index := 0
	type modOut struct{ path, dir, gover string }
	mods := map[string]*modOut{}
	instr := map[string]bool{}
	for _, p := range pkgs {
		if target(p, also) && (p.Name != "main" || opts["commands"] != "no") {
			instr[p.ImportPath] = true
		}
	}
	for _, p := range pkgs {
		if !instr[p.ImportPath] {
			continue
		}
		if p.Error != nil {
			fatal("%s: %s", p.ImportPath, p.Error.Err)
		}
		if len(p.CgoFiles) > 0 {
			fatal("%s uses cgo", p.ImportPath)
		}
		index++
		var files []*ast.File
		for _, f := range p.GoFiles {
			a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				fatal("%v", err)
			}
			files = append(files, a)
		}
		info := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{},
		}
		gover := "1.12"
		if p.Module.GoVersion != "" {
			gover = p.Module.GoVersion
		}
		conf := types.Config{Importer: imp, GoVersion: "go" + gover, Sizes: types.SizesFor("gc", "amd64")}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			fatal("%v", err)
		}
		checked[p.ImportPath] = tp
		m := mods[p.Module.Path]
		if m == nil {
			m = &modOut{p.Module.Path, filepath.Join(out, fmt.Sprintf("m%d", len(mods))), gover}
			mods[p.Module.Path] = m
		}
		rel, err := filepath.Rel(p.Module.Dir, p.Dir)
		if err != nil {
			fatal("%v", err)
		}
		dst := filepath.Join(m.dir, rel)
		if err := os.MkdirAll(dst, 0755); err != nil {
			fatal("%v", err)
		}
		rw := &pkgRewriter{fset: fset, info: info, pkg: tp, base: uint32(1000 + index*100000), instr: instr, root: p.Dir, sizes: conf.Sizes}
		for i, f := range files {
			nf := rw.file(f, i)
			var buf bytes.Buffer
			if err := format.Node(&buf, token.NewFileSet(), nf); err != nil {
				fatal("printing %s: %v", p.GoFiles[i], err)
			}
			if err := os.WriteFile(filepath.Join(dst, p.GoFiles[i]), buf.Bytes(), 0644); err != nil {
				fatal("%v", err)
			}
		}
		if err := os.WriteFile(filepath.Join(dst, "zz_vsim_reset.go"), rw.resetFile(p.Name), 0644); err != nil {
			fatal("%v", err)
		}
	}
	// module files
	var rep strings.Builder
	for path, m := range mods {
		gv := "1.21"
		var maj, min int
		fmt.Sscanf(m.gover, "%d.%d", &maj, &min)
		if maj > 1 || min > 21 {
			gv = m.gover
		}
		os.WriteFile(filepath.Join(m.dir, "go.mod"), []byte("module "+path+"\n\ngo "+gv+"\n"), 0644)
		fmt.Fprintf(&rep, "%s %s\n", path, m.dir)
	}
	if err := os.WriteFile(filepath.Join(out, "modules.txt"), []byte(rep.String()), 0644); err != nil {
		fatal("%v", err)
	}
}

type importFn func(string) (*types.Package, error)

func (f importFn) Import(p string) (*types.Package, error) { return f(p) }

// target selects the packages that are instrumented.
func target(p *listPkg, also map[string]bool) bool {
	if p.Standard || p.Module == nil || p.Name == "main" && !strings.HasSuffix(p.ImportPath, "/cmd/mmvdump") {
		return false
	}
	if also[p.Module.Path] {
		return true
	}
	return p.Module.Main && !strings.Contains(p.ImportPath, "/examples")
}
