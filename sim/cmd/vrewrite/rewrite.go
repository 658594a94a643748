package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"path/filepath"
	"strconv"
	"strings"
)

var shims = map[string]string{
	"sync":          "verif/sim/shim/sync",
	"sync/atomic":   "verif/sim/shim/atomic",
	"os":            "verif/sim/shim/os",
	"io/ioutil":     "verif/sim/shim/ioutil",
	"time":          "verif/sim/shim/time",
	"math/rand":     "verif/sim/shim/rand",
	"runtime":       "verif/sim/shim/runtime",
	"fmt":           "verif/sim/shim/fmt",
	"flag":          "verif/sim/shim/flag",
	"log":           "verif/sim/shim/log",
	"context":       "verif/sim/shim/context",
	"path/filepath": "verif/sim/shim/filepath",
}

type pkgRewriter struct {
	fset   *token.FileSet
	info   *types.Info
	pkg    *types.Package
	base   uint32
	instr  map[string]bool
	root   string
	sizes  types.Sizes
	sites  []string
	inits  []string
	resets map[int]string // init order index -> function
	shared map[*types.Var]bool
	tmp    int
	// named results of the function being rewritten
	results []*types.Var
	zeroFns []string
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func (r *pkgRewriter) site(p token.Pos) ast.Expr {
	pos := r.fset.Position(p)
	n := r.base + uint32(len(r.sites))
	rel, err := filepath.Rel(r.root, pos.Filename)
	if err != nil {
		rel = pos.Filename
	}
	r.sites = append(r.sites, fmt.Sprintf("%s/%s:%d", r.pkg.Name(), rel, pos.Line))
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(int(n))}
}

func (r *pkgRewriter) temp(p string) *ast.Ident {
	r.tmp++
	return id(fmt.Sprintf("vsim%s%d", p, r.tmp))
}

func vs(name string) ast.Expr { return &ast.SelectorExpr{X: id("vsim"), Sel: id(name)} }

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func addr(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.AND, X: e} }

func (r *pkgRewriter) rd(place ast.Expr, p token.Pos) ast.Expr {
	if s, ok := place.(*ast.StarExpr); ok {
		return call(vs("Rd"), s.X, r.site(p))
	}
	return call(vs("Rd"), addr(place), r.site(p))
}

func exprStmt(e ast.Expr) ast.Stmt { return &ast.ExprStmt{X: e} }

func define(lhs []ast.Expr, rhs ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
}

func def1(n ast.Expr, v ast.Expr) ast.Stmt { return define([]ast.Expr{n}, v) }

func block(l ...ast.Stmt) *ast.BlockStmt { return &ast.BlockStmt{List: l} }

// ---- analysis

func (r *pkgRewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[i]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[i]; o != nil {
			return o.Type()
		}
	}
	return types.Typ[types.Invalid]
}

func under(t types.Type) types.Type { return t.Underlying() }

func isPtr(t types.Type) bool { _, ok := under(t).(*types.Pointer); return ok }

func (r *pkgRewriter) varOf(i *ast.Ident) *types.Var {
	if o, ok := r.info.Uses[i].(*types.Var); ok {
		return o
	}
	if o, ok := r.info.Defs[i].(*types.Var); ok {
		return o
	}
	return nil
}

// analyse finds the local variables whose accesses are instrumented: those
// whose address is taken and those captured by a function literal and
// assigned after their declaration.
func (r *pkgRewriter) analyse(fd ast.Node) {
	declIn := map[*types.Var]ast.Node{}
	captured := map[*types.Var]bool{}
	mutated := map[*types.Var]bool{}
	addrTaken := map[*types.Var]bool{}
	var stack []ast.Node // function nodes
	rootVar := func(e ast.Expr) *types.Var {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
			case *ast.SelectorExpr:
				s := r.info.Selections[x]
				if s == nil || s.Kind() != types.FieldVal || s.Indirect() || isPtr(r.typeOf(x.X)) {
					return nil
				}
				e = x.X
			case *ast.IndexExpr:
				if _, ok := under(r.typeOf(x.X)).(*types.Array); !ok {
					return nil
				}
				e = x.X
			case *ast.Ident:
				return r.varOf(x)
			default:
				return nil
			}
		}
	}
	mut := func(e ast.Expr) {
		if v := rootVar(e); v != nil {
			mutated[v] = true
		}
	}
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch x := m.(type) {
			case *ast.FuncLit:
				if m == n {
					return true
				}
				stack = append(stack, x)
				walk(x)
				stack = stack[:len(stack)-1]
				return false
			case *ast.Ident:
				if o, ok := r.info.Defs[x].(*types.Var); ok && !o.IsField() {
					declIn[o] = stack[len(stack)-1]
				}
				if o, ok := r.info.Uses[x].(*types.Var); ok && !o.IsField() && o.Parent() != r.pkg.Scope() {
					if d, ok := declIn[o]; ok && d != stack[len(stack)-1] {
						captured[o] = true
					} else if !ok && o.Pkg() == r.pkg {
						// declared by a type switch clause or later
						captured[o] = captured[o] || false
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					if v := rootVar(x.X); v != nil {
						addrTaken[v] = true
					}
				}
			case *ast.SliceExpr:
				if _, ok := under(r.typeOf(x.X)).(*types.Array); ok {
					if v := rootVar(x.X); v != nil {
						addrTaken[v] = true
					}
				}
			case *ast.SelectorExpr:
				if s := r.info.Selections[x]; s != nil && s.Kind() == types.MethodVal {
					if f, ok := s.Obj().(*types.Func); ok {
						if sig := f.Type().(*types.Signature); sig.Recv() != nil && isPtr(sig.Recv().Type()) && !isPtr(r.typeOf(x.X)) && !types.IsInterface(r.typeOf(x.X)) {
							if v := rootVar(x.X); v != nil {
								addrTaken[v] = true
							}
						}
					}
				}
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					if i, ok := l.(*ast.Ident); ok && x.Tok == token.DEFINE && r.info.Defs[i] != nil {
						continue
					}
					mut(l)
				}
			case *ast.IncDecStmt:
				mut(x.X)
			case *ast.RangeStmt:
				if x.Key != nil {
					mut(x.Key)
				}
				if x.Value != nil {
					mut(x.Value)
				}
			case *ast.ReturnStmt:
				// return with values assigns the named results
				if len(x.Results) > 0 {
					for _, v := range r.resultVars(stack[len(stack)-1]) {
						mutated[v] = true
					}
				}
			}
			return true
		})
	}
	stack = append(stack, fd)
	walk(fd)
	for v := range addrTaken {
		r.shared[v] = true
	}
	for v := range captured {
		if captured[v] && mutated[v] {
			r.shared[v] = true
		}
	}
}

func (r *pkgRewriter) resultVars(fn ast.Node) []*types.Var {
	var ft *ast.FuncType
	switch f := fn.(type) {
	case *ast.FuncDecl:
		ft = f.Type
	case *ast.FuncLit:
		ft = f.Type
	}
	if ft == nil || ft.Results == nil {
		return nil
	}
	var out []*types.Var
	for _, f := range ft.Results.List {
		for _, n := range f.Names {
			if v, ok := r.info.Defs[n].(*types.Var); ok {
				out = append(out, v)
			}
		}
	}
	return out
}

func (r *pkgRewriter) sizeZero(t types.Type) (z bool) {
	defer func() {
		if recover() != nil {
			z = false
		}
	}()
	return r.sizes.Sizeof(t) == 0
}

func (r *pkgRewriter) isSharedVar(v *types.Var) bool {
	if v == nil || v.IsField() || r.sizeZero(v.Type()) {
		return false
	}
	if v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
		return r.instr[v.Pkg().Path()]
	}
	return r.shared[v]
}

// sharedPlace tells whether the storage of an addressable expression may be
// reached by other goroutines.
func (r *pkgRewriter) sharedPlace(e ast.Expr) bool {
	if r.sizeZero(r.typeOf(e)) {
		return false
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.sharedPlace(x.X)
	case *ast.Ident:
		return r.isSharedVar(r.varOf(x))
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		s := r.info.Selections[x]
		if s == nil {
			return r.isSharedVar(r.varOf(x.Sel))
		}
		if s.Kind() != types.FieldVal {
			return false
		}
		if s.Indirect() || isPtr(r.typeOf(x.X)) {
			return true
		}
		return r.addressable(x.X) && r.sharedPlace(x.X)
	case *ast.IndexExpr:
		switch t := under(r.typeOf(x.X)).(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			return true
		case *types.Array:
			_ = t
			return r.addressable(x.X) && r.sharedPlace(x.X)
		}
	}
	return false
}

func (r *pkgRewriter) addressable(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.addressable(x.X)
	case *ast.Ident:
		return r.varOf(x) != nil
	case *ast.SelectorExpr:
		if r.info.Selections[x] == nil {
			return r.varOf(x.Sel) != nil
		}
	}
	tv, ok := r.info.Types[e]
	return ok && tv.Addressable()
}

func (r *pkgRewriter) isMapIndex(e ast.Expr) (*ast.IndexExpr, bool) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	x, ok := e.(*ast.IndexExpr)
	if !ok {
		return nil, false
	}
	_, ok = under(r.typeOf(x.X)).(*types.Map)
	return x, ok
}

// ---- expressions

func (r *pkgRewriter) exprs(l []ast.Expr) []ast.Expr {
	var out []ast.Expr
	for _, e := range l {
		out = append(out, r.expr(e))
	}
	return out
}

func (r *pkgRewriter) untouched(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok {
		return false
	}
	return tv.IsType() || tv.IsBuiltin() || tv.Value != nil || tv.IsNil()
}

// expr rewrites an expression whose value is used.
func (r *pkgRewriter) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if r.untouched(e) {
		return e
	}
	switch x := e.(type) {
	case *ast.Ident:
		if r.isSharedVar(r.varOf(x)) {
			return r.rd(x, x.Pos())
		}
		return x
	case *ast.BasicLit:
		return x
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: r.expr(x.X)}
	case *ast.FuncLit:
		return r.funcLit(x)
	case *ast.CompositeLit:
		return r.composite(x)
	case *ast.SelectorExpr:
		s := r.info.Selections[x]
		if s == nil {
			if r.isSharedVar(r.varOf(x.Sel)) {
				return r.rd(x, x.Pos())
			}
			return x
		}
		switch s.Kind() {
		case types.MethodExpr:
			return x
		case types.MethodVal:
			return r.method(x, s)
		}
		if r.addressable(x) && r.sharedPlace(x) {
			return r.rd(r.place(x), x.Pos())
		}
		return r.place(x)
	case *ast.IndexExpr:
		if _, ok := under(r.typeOf(x.X)).(*types.Map); ok {
			return &ast.IndexExpr{X: call(vs("MapR"), r.expr(x.X), r.site(x.Pos())), Index: r.expr(x.Index)}
		}
		if _, ok := r.typeOf(x.X).(*types.Signature); ok {
			return x // instantiation
		}
		if r.addressable(x) && r.sharedPlace(x) {
			return r.rd(r.place(x), x.Pos())
		}
		return r.place(x)
	case *ast.StarExpr:
		if r.sharedPlace(x) {
			return r.rd(r.place(x), x.Pos())
		}
		return r.place(x)
	case *ast.SliceExpr:
		n := &ast.SliceExpr{Low: r.expr(x.Low), High: r.expr(x.High), Max: r.expr(x.Max), Slice3: x.Slice3}
		if _, ok := under(r.typeOf(x.X)).(*types.Array); ok {
			n.X = r.place(x.X)
		} else {
			n.X = r.expr(x.X)
		}
		return n
	case *ast.TypeAssertExpr:
		return &ast.TypeAssertExpr{X: r.expr(x.X), Type: x.Type}
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			if c, ok := unparen(x.X).(*ast.CompositeLit); ok {
				return &ast.UnaryExpr{Op: token.AND, X: r.composite(c)}
			}
			return addr(r.place(x.X))
		case token.ARROW:
			return call(vs("Recv"), r.expr(x.X), r.site(x.Pos()))
		}
		return &ast.UnaryExpr{Op: x.Op, X: r.expr(x.X)}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: r.expr(x.X), Op: x.Op, Y: r.expr(x.Y)}
	case *ast.KeyValueExpr:
		return &ast.KeyValueExpr{Key: r.expr(x.Key), Value: r.expr(x.Value)}
	case *ast.CallExpr:
		return r.call(x)
	}
	return e
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// place rewrites an operand that is addressed, selected from or indexed; the
// storage itself is not read.
func (r *pkgRewriter) place(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: r.place(x.X)}
	case *ast.Ident:
		return x
	case *ast.StarExpr:
		return &ast.StarExpr{X: r.expr(x.X)}
	case *ast.SelectorExpr:
		s := r.info.Selections[x]
		if s == nil {
			return x
		}
		if s.Kind() == types.MethodVal {
			return r.method(x, s)
		}
		if isPtr(r.typeOf(x.X)) || !r.addressable(x.X) {
			return &ast.SelectorExpr{X: r.operand(x.X), Sel: x.Sel}
		}
		return &ast.SelectorExpr{X: r.place(x.X), Sel: x.Sel}
	case *ast.IndexExpr:
		switch under(r.typeOf(x.X)).(type) {
		case *types.Array:
			if r.addressable(x.X) {
				return &ast.IndexExpr{X: r.place(x.X), Index: r.expr(x.Index)}
			}
		case *types.Map:
			return r.expr(x)
		}
		return &ast.IndexExpr{X: r.operand(x.X), Index: r.expr(x.Index)}
	}
	return r.expr(e)
}

// operand is expr for the left side of a selector or index.
func (r *pkgRewriter) operand(e ast.Expr) ast.Expr { return r.expr(e) }

// stateful are packages whose objects belong to one goroutine at a time;
// their code is not rewritten, a call counts as a write of the object.
var stateful = map[string]bool{
	"bufio": true, "bytes": true, "strings": true, "hash": true, "hash/fnv": true, "hash/maphash": true, "hash/crc32": true,
	"container/list": true, "container/ring": true, "math/big": true, "text/tabwriter": true, "encoding/json": true,
	"encoding/gob": true, "compress/gzip": true, "compress/flate": true, "crypto/md5": true,
}

func statefulType(t types.Type) bool {
	n, ok := types.Unalias(deref(t)).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !stateful[n.Obj().Pkg().Path()] {
		return false
	}
	if n.Obj().Pkg().Path() == "strings" && n.Obj().Name() == "Replacer" {
		return false
	}
	return types.IsInterface(n) || isPtr(t) || !types.IsInterface(t)
}

// method rewrites the receiver of a method value or call.
func (r *pkgRewriter) method(x *ast.SelectorExpr, s *types.Selection) ast.Expr {
	t := r.typeOf(x.X)
	ext := len(s.Index()) == 1 && statefulType(t)
	if isPtr(t) || types.IsInterface(t) || !r.addressable(x.X) {
		recv := r.operand(x.X)
		if ext && (isPtr(t) || types.IsInterface(t)) {
			recv = call(vs("Ext"), recv, r.site(x.Pos()))
		}
		return &ast.SelectorExpr{X: recv, Sel: x.Sel}
	}
	ptrRecv := false
	if f, ok := s.Obj().(*types.Func); ok {
		sig := f.Type().(*types.Signature)
		ptrRecv = sig.Recv() != nil && isPtr(sig.Recv().Type())
	}
	if ptrRecv || s.Indirect() || len(s.Index()) > 1 {
		if ext && ptrRecv {
			return &ast.SelectorExpr{X: call(vs("Ext"), addrOf(r.place(x.X)), r.site(x.Pos())), Sel: x.Sel}
		}
		return &ast.SelectorExpr{X: r.place(x.X), Sel: x.Sel}
	}
	return &ast.SelectorExpr{X: r.operand(x.X), Sel: x.Sel}
}

func (r *pkgRewriter) composite(x *ast.CompositeLit) ast.Expr {
	n := &ast.CompositeLit{Type: x.Type}
	_, isStruct := under(deref(r.typeOf(x))).(*types.Struct)
	_, isMap := under(deref(r.typeOf(x))).(*types.Map)
	for _, el := range x.Elts {
		if kv, ok := el.(*ast.KeyValueExpr); ok {
			k := kv.Key
			if isMap && !isStruct {
				k = r.elem(k)
			}
			n.Elts = append(n.Elts, &ast.KeyValueExpr{Key: k, Value: r.elem(kv.Value)})
			continue
		}
		n.Elts = append(n.Elts, r.elem(el))
	}
	return n
}

func (r *pkgRewriter) elem(e ast.Expr) ast.Expr {
	if c, ok := e.(*ast.CompositeLit); ok {
		return r.composite(c)
	}
	return r.expr(e)
}

func deref(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (r *pkgRewriter) funcLit(x *ast.FuncLit) ast.Expr {
	saved := r.results
	r.results = r.resultVars(x)
	n := &ast.FuncLit{Type: x.Type, Body: r.body(x.Body)}
	r.results = saved
	return n
}

func (r *pkgRewriter) builtin(e ast.Expr) string {
	switch f := unparen(e).(type) {
	case *ast.Ident:
		if b, ok := r.info.Uses[f].(*types.Builtin); ok {
			return b.Name()
		}
	case *ast.SelectorExpr:
		if b, ok := r.info.Uses[f.Sel].(*types.Builtin); ok {
			return "unsafe." + b.Name()
		}
	}
	return ""
}

func (r *pkgRewriter) call(x *ast.CallExpr) ast.Expr {
	tv := r.info.Types[x.Fun]
	if tv.IsType() { // conversion
		return &ast.CallExpr{Fun: x.Fun, Args: r.exprs(x.Args)}
	}
	if b := r.builtin(x.Fun); b != "" {
		switch b {
		case "len", "cap":
			switch under(r.typeOf(x.Args[0])).(type) {
			case *types.Chan:
				if b == "len" {
					return call(vs("ChanLen"), r.expr(x.Args[0]), r.site(x.Pos()))
				}
			case *types.Map:
				return call(x.Fun, call(vs("MapR"), r.expr(x.Args[0]), r.site(x.Pos())))
			case *types.Array:
				return x
			}
		case "copy":
			f := "Copy"
			if bt, ok := under(r.typeOf(x.Args[1])).(*types.Basic); ok && bt.Info()&types.IsString != 0 {
				f = "CopyS"
			}
			return call(vs(f), r.expr(x.Args[0]), r.expr(x.Args[1]), r.site(x.Pos()))
		case "close":
			return call(vs("Close"), r.expr(x.Args[0]), r.site(x.Pos()))
		case "delete":
			return call(vs("MapDel"), r.expr(x.Args[0]), r.expr(x.Args[1]), r.site(x.Pos()))
		case "clear":
			if _, ok := under(r.typeOf(x.Args[0])).(*types.Map); ok {
				return call(x.Fun, call(vs("MapW"), r.expr(x.Args[0]), r.site(x.Pos())))
			}
		}
		return &ast.CallExpr{Fun: x.Fun, Args: r.exprs(x.Args), Ellipsis: x.Ellipsis}
	}
	return &ast.CallExpr{Fun: r.expr(x.Fun), Args: r.exprs(x.Args), Ellipsis: x.Ellipsis}
}

// ---- statements

func (r *pkgRewriter) body(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	return &ast.BlockStmt{List: r.list(b.List)}
}

func (r *pkgRewriter) list(l []ast.Stmt) []ast.Stmt {
	out := []ast.Stmt{}
	for _, s := range l {
		out = append(out, r.stmt(s)...)
	}
	return out
}

// one rewrites a simple statement into exactly one statement.
func (r *pkgRewriter) one(s ast.Stmt) (pre []ast.Stmt, main ast.Stmt) {
	if s == nil {
		return nil, nil
	}
	l := r.stmt(s)
	if len(l) == 1 {
		if b, ok := l[0].(*ast.BlockStmt); ok {
			return []ast.Stmt{b}, nil
		}
		return nil, l[0]
	}
	return l, nil
}

func (r *pkgRewriter) stmt(s ast.Stmt) []ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.ExprStmt:
		return []ast.Stmt{exprStmt(r.expr(x.X))}
	case *ast.SendStmt:
		return []ast.Stmt{exprStmt(call(call(vs("Send"), r.expr(x.Chan), r.site(x.Pos())), r.expr(x.Value)))}
	case *ast.IncDecStmt:
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		return r.opAssign(x.X, op, &ast.BasicLit{Kind: token.INT, Value: "1"}, x.Pos(), x)
	case *ast.AssignStmt:
		return r.assign(x)
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.DeferStmt:
		c, ok := r.call(x.Call).(*ast.CallExpr)
		if !ok {
			fatal("defer")
		}
		return []ast.Stmt{&ast.DeferStmt{Call: c}}
	case *ast.ReturnStmt:
		var out []ast.Stmt
		if len(x.Results) == 0 {
			for _, v := range r.results {
				if r.isSharedVar(v) && v.Name() != "_" && v.Name() != "" {
					out = append(out, exprStmt(call(vs("MarkR"), addr(id(v.Name())), r.site(x.Pos()))))
				}
			}
		}
		return append(out, &ast.ReturnStmt{Results: r.exprs(x.Results)})
	case *ast.BlockStmt:
		return []ast.Stmt{r.body(x)}
	case *ast.DeclStmt:
		return []ast.Stmt{r.localDecl(x)}
	case *ast.LabeledStmt:
		return r.labeled(x)
	case *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
		pre, main := r.compound(s)
		if len(pre) == 0 {
			return []ast.Stmt{main}
		}
		return []ast.Stmt{block(append(pre, main)...)}
	}
	return []ast.Stmt{s} // branch, empty
}

func (r *pkgRewriter) labeled(x *ast.LabeledStmt) []ast.Stmt {
	switch x.Stmt.(type) {
	case *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
		pre, main := r.compound(x.Stmt)
		l := &ast.LabeledStmt{Label: x.Label, Stmt: main}
		if len(pre) == 0 {
			return []ast.Stmt{l}
		}
		return []ast.Stmt{block(append(pre, l)...)}
	}
	l := r.stmt(x.Stmt)
	if len(l) == 0 {
		return []ast.Stmt{&ast.LabeledStmt{Label: x.Label, Stmt: &ast.EmptyStmt{}}}
	}
	l[0] = &ast.LabeledStmt{Label: x.Label, Stmt: l[0]}
	return l
}

func (r *pkgRewriter) localDecl(x *ast.DeclStmt) ast.Stmt {
	g, ok := x.Decl.(*ast.GenDecl)
	if !ok || g.Tok != token.VAR {
		return x
	}
	n := &ast.GenDecl{Tok: token.VAR, Lparen: g.Lparen, Rparen: g.Rparen}
	for _, sp := range g.Specs {
		v := sp.(*ast.ValueSpec)
		nv := &ast.ValueSpec{Names: v.Names, Type: v.Type}
		if len(v.Names) == 2 && len(v.Values) == 1 {
			nv.Values = []ast.Expr{r.commaOK(v.Values[0])}
		} else {
			nv.Values = r.exprs(v.Values)
		}
		n.Specs = append(n.Specs, nv)
	}
	return &ast.DeclStmt{Decl: n}
}

// commaOK rewrites the right side of a two-value assignment.
func (r *pkgRewriter) commaOK(e ast.Expr) ast.Expr {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return call(vs("Recv2"), r.expr(u.X), r.site(u.Pos()))
	}
	return r.expr(e)
}

func isBlank(e ast.Expr) bool { i, ok := e.(*ast.Ident); return ok && i.Name == "_" }

// special tells whether a store to e has to be instrumented.
func (r *pkgRewriter) special(e ast.Expr) bool {
	if isBlank(e) {
		return false
	}
	if _, ok := r.isMapIndex(e); ok {
		return true
	}
	return r.sharedPlace(e)
}

func (r *pkgRewriter) assign(x *ast.AssignStmt) []ast.Stmt {
	switch x.Tok {
	case token.DEFINE, token.ASSIGN:
	default: // op=
		return r.opAssign(x.Lhs[0], x.Tok+token.ADD-token.ADD_ASSIGN, &ast.ParenExpr{X: r.expr(x.Rhs[0])}, x.Pos(), x)
	}
	isNew := func(e ast.Expr) bool {
		i, ok := e.(*ast.Ident)
		return ok && x.Tok == token.DEFINE && (r.info.Defs[i] != nil || i.Name == "_")
	}
	anySpecial := false
	for _, l := range x.Lhs {
		if !isNew(l) && r.special(l) {
			anySpecial = true
		}
	}
	if !anySpecial {
		n := &ast.AssignStmt{Tok: x.Tok}
		for _, l := range x.Lhs {
			if isNew(l) || isBlank(l) {
				n.Lhs = append(n.Lhs, l)
			} else {
				n.Lhs = append(n.Lhs, r.place(l))
			}
		}
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			n.Rhs = []ast.Expr{r.commaOK(x.Rhs[0])}
		} else {
			n.Rhs = r.exprs(x.Rhs)
		}
		return []ast.Stmt{n}
	}
	if len(x.Lhs) == 1 {
		return []ast.Stmt{r.store(x.Lhs[0], r.expr(x.Rhs[0]), x.Pos())}
	}
	// parallel assignment
	var pre, post []ast.Stmt
	type target struct {
		store func(v ast.Expr) ast.Stmt
	}
	var targets []target
	for _, l := range x.Lhs {
		l := l
		switch {
		case isBlank(l):
			targets = append(targets, target{func(v ast.Expr) ast.Stmt {
				return &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}}
			}})
		case isNew(l):
			targets = append(targets, target{func(v ast.Expr) ast.Stmt { return nil }})
		default:
			if m, ok := r.isMapIndex(l); ok {
				mt, kt := r.temp("m"), r.temp("k")
				pre = append(pre, def1(mt, r.expr(m.X)), def1(kt, call(vs("MapKey"), mt, r.expr(m.Index))))
				targets = append(targets, target{func(v ast.Expr) ast.Stmt {
					return exprStmt(call(call(vs("MapSet"), mt, r.site(x.Pos())), kt, v))
				}})
				continue
			}
			if _, ok := unparen(l).(*ast.Ident); ok {
				targets = append(targets, target{func(v ast.Expr) ast.Stmt { return r.store(l, v, x.Pos()) }})
				continue
			}
			pt := r.temp("p")
			pre = append(pre, def1(pt, addr(r.place(l))))
			if r.sharedPlace(l) {
				targets = append(targets, target{func(v ast.Expr) ast.Stmt {
					return exprStmt(call(call(vs("Asg"), pt, r.site(x.Pos())), v))
				}})
			} else {
				targets = append(targets, target{func(v ast.Expr) ast.Stmt {
					return &ast.AssignStmt{Lhs: []ast.Expr{&ast.StarExpr{X: pt}}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}}
				}})
			}
		}
	}
	var vals []ast.Expr
	var names []ast.Expr
	if len(x.Rhs) == 1 { // tuple
		for i, l := range x.Lhs {
			if isNew(l) && !isBlank(l) {
				names = append(names, l)
				vals = append(vals, nil)
				continue
			}
			if isBlank(x.Lhs[i]) {
				names = append(names, id("_"))
				vals = append(vals, nil)
				continue
			}
			t := r.temp("t")
			names = append(names, t)
			vals = append(vals, t)
		}
		pre = append(pre, define(names, r.commaOK(x.Rhs[0])))
	} else {
		for i, l := range x.Lhs {
			if tv := r.info.Types[x.Rhs[i]]; tv.Value != nil || tv.IsNil() {
				if isNew(l) && !isBlank(l) {
					pre = append(pre, def1(l, x.Rhs[i]))
					vals = append(vals, nil)
				} else {
					vals = append(vals, x.Rhs[i])
				}
				continue
			}
			if isNew(l) && !isBlank(l) {
				pre = append(pre, def1(l, r.expr(x.Rhs[i])))
				vals = append(vals, nil)
				continue
			}
			t := r.temp("t")
			pre = append(pre, def1(t, r.expr(x.Rhs[i])))
			vals = append(vals, t)
		}
	}
	for i := range x.Lhs {
		if vals[i] == nil {
			continue
		}
		if s := targets[i].store(vals[i]); s != nil {
			post = append(post, s)
		}
	}
	if x.Tok == token.DEFINE {
		return append(pre, post...)
	}
	return []ast.Stmt{block(append(pre, post...)...)}
}

// store builds the store of a rewritten value to one target.
func (r *pkgRewriter) store(l ast.Expr, v ast.Expr, pos token.Pos) ast.Stmt {
	if m, ok := r.isMapIndex(l); ok {
		return exprStmt(call(call(vs("MapSet"), r.expr(m.X), r.site(pos)), r.expr(m.Index), v))
	}
	if r.special(l) {
		return exprStmt(call(call(vs("Asg"), addrOf(r.place(l)), r.site(pos)), v))
	}
	return &ast.AssignStmt{Lhs: []ast.Expr{r.place(l)}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}}
}

func addrOf(p ast.Expr) ast.Expr {
	if s, ok := p.(*ast.StarExpr); ok {
		return s.X
	}
	return addr(p)
}

func simplePlace(e ast.Expr) bool {
	_, ok := unparen(e).(*ast.Ident)
	return ok
}

func (r *pkgRewriter) opAssign(l ast.Expr, op token.Token, v ast.Expr, pos token.Pos, orig ast.Stmt) []ast.Stmt {
	if m, ok := r.isMapIndex(l); ok {
		mt, kt := r.temp("m"), r.temp("k")
		return []ast.Stmt{block(
			def1(mt, r.expr(m.X)),
			def1(kt, call(vs("MapKey"), mt, r.expr(m.Index))),
			exprStmt(call(call(vs("MapSet"), mt, r.site(pos)), kt,
				&ast.BinaryExpr{X: &ast.IndexExpr{X: call(vs("MapR"), mt, r.site(pos)), Index: kt}, Op: op, Y: v})),
		)}
	}
	if !r.special(l) {
		switch o := orig.(type) {
		case *ast.IncDecStmt:
			return []ast.Stmt{&ast.IncDecStmt{X: r.place(l), Tok: o.Tok}}
		case *ast.AssignStmt:
			return []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{r.place(l)}, Tok: o.Tok, Rhs: []ast.Expr{v}}}
		}
	}
	if simplePlace(l) {
		return []ast.Stmt{exprStmt(call(call(vs("Asg"), addr(l), r.site(pos)),
			&ast.BinaryExpr{X: call(vs("Rd"), addr(l), r.site(pos)), Op: op, Y: v}))}
	}
	p := r.temp("p")
	return []ast.Stmt{block(
		def1(p, addrOf(r.place(l))),
		exprStmt(call(call(vs("Asg"), p, r.site(pos)), &ast.BinaryExpr{X: call(vs("Rd"), p, r.site(pos)), Op: op, Y: v})),
	)}
}

func (r *pkgRewriter) goStmt(x *ast.GoStmt) []ast.Stmt {
	c := x.Call
	site := r.site(x.Pos())
	if r.builtin(c.Fun) != "" || r.info.Types[c.Fun].IsType() {
		return []ast.Stmt{exprStmt(call(vs("Go"), site, &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: block(exprStmt(r.call(c)))}))}
	}
	var pre []ast.Stmt
	var fun ast.Expr
	if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok {
		fun = r.funcLit(fl)
		if len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
			return []ast.Stmt{exprStmt(call(vs("Go"), site, fun))}
		}
	} else {
		f := r.temp("f")
		pre = append(pre, def1(f, r.expr(c.Fun)))
		fun = f
	}
	inner := &ast.CallExpr{Fun: fun, Ellipsis: c.Ellipsis}
	if len(c.Args) == 1 {
		if tup, ok := r.typeOf(c.Args[0]).(*types.Tuple); ok {
			var names []ast.Expr
			for i := 0; i < tup.Len(); i++ {
				names = append(names, r.temp("a"))
			}
			pre = append(pre, define(names, r.expr(c.Args[0])))
			inner.Args = names
			return []ast.Stmt{block(append(pre, exprStmt(call(vs("Go"), site, &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: block(exprStmt(inner))})))...)}
		}
	}
	for _, a := range c.Args {
		if r.untouched(a) {
			inner.Args = append(inner.Args, a)
			continue
		}
		t := r.temp("a")
		pre = append(pre, def1(t, r.expr(a)))
		inner.Args = append(inner.Args, t)
	}
	g := exprStmt(call(vs("Go"), site, &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: block(exprStmt(inner))}))
	return []ast.Stmt{block(append(pre, g)...)}
}

func (r *pkgRewriter) pt(p token.Pos) ast.Stmt { return exprStmt(call(vs("Pt"), r.site(p))) }

func (r *pkgRewriter) compound(s ast.Stmt) (pre []ast.Stmt, main ast.Stmt) {
	switch x := s.(type) {
	case *ast.IfStmt:
		n := &ast.IfStmt{Body: nil}
		pre, n.Init = r.one(x.Init)
		n.Cond = r.expr(x.Cond)
		n.Body = r.body(x.Body)
		if x.Else != nil {
			l := r.stmt(x.Else)
			if len(l) == 1 {
				switch l[0].(type) {
				case *ast.IfStmt, *ast.BlockStmt:
					n.Else = l[0]
				}
			}
			if n.Else == nil {
				n.Else = block(l...)
			}
		}
		return pre, n
	case *ast.ForStmt:
		n := &ast.ForStmt{}
		pre, n.Init = r.one(x.Init)
		if n.Init != nil {
			if _, ok := n.Init.(*ast.DeclStmt); ok {
				pre, n.Init = append(pre, n.Init), nil
			}
		}
		n.Cond = r.expr(x.Cond)
		pp, pm := r.one(x.Post)
		if len(pp) > 0 {
			pm = exprStmt(call(&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: block(pp...)}))
		}
		n.Post = pm
		b := r.body(x.Body)
		n.Body = block(append([]ast.Stmt{r.pt(x.Pos())}, b.List...)...)
		return pre, n
	case *ast.RangeStmt:
		return r.rangeStmt(x)
	case *ast.SwitchStmt:
		n := &ast.SwitchStmt{Tag: r.expr(x.Tag), Body: &ast.BlockStmt{}}
		pre, n.Init = r.one(x.Init)
		for _, cs := range x.Body.List {
			c := cs.(*ast.CaseClause)
			n.Body.List = append(n.Body.List, &ast.CaseClause{List: r.exprs(c.List), Body: r.list(c.Body)})
		}
		return pre, n
	case *ast.TypeSwitchStmt:
		n := &ast.TypeSwitchStmt{Body: &ast.BlockStmt{}}
		pre, n.Init = r.one(x.Init)
		switch a := x.Assign.(type) {
		case *ast.AssignStmt:
			ta := a.Rhs[0].(*ast.TypeAssertExpr)
			n.Assign = &ast.AssignStmt{Lhs: a.Lhs, Tok: a.Tok, Rhs: []ast.Expr{&ast.TypeAssertExpr{X: r.expr(ta.X)}}}
		case *ast.ExprStmt:
			ta := a.X.(*ast.TypeAssertExpr)
			n.Assign = &ast.ExprStmt{X: &ast.TypeAssertExpr{X: r.expr(ta.X)}}
		}
		for _, cs := range x.Body.List {
			c := cs.(*ast.CaseClause)
			n.Body.List = append(n.Body.List, &ast.CaseClause{List: c.List, Body: r.list(c.Body)})
		}
		return pre, n
	case *ast.SelectStmt:
		return r.selectStmt(x)
	}
	panic("compound")
}

func (r *pkgRewriter) selectStmt(x *ast.SelectStmt) (pre []ast.Stmt, main ast.Stmt) {
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	var args []ast.Expr
	hasDefault := "false"
	i := 0
	for _, cs := range x.Body.List {
		c := cs.(*ast.CommClause)
		var head []ast.Stmt
		idx := &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)}
		switch st := c.Comm.(type) {
		case nil:
			hasDefault = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "-1"}}, Body: r.list(c.Body)})
			continue
		case *ast.SendStmt:
			t := r.temp("c")
			pre = append(pre, def1(t, call(call(vs("SelSend"), r.expr(st.Chan)), r.expr(st.Value))))
			args = append(args, t)
		case *ast.ExprStmt:
			u := unparen(st.X).(*ast.UnaryExpr)
			t := r.temp("c")
			pre = append(pre, def1(t, call(vs("SelRecv"), r.expr(u.X))))
			args = append(args, t)
		case *ast.AssignStmt:
			u := unparen(st.Rhs[0]).(*ast.UnaryExpr)
			t := r.temp("c")
			pre = append(pre, def1(t, call(vs("SelRecv"), r.expr(u.X))))
			args = append(args, t)
			vals := []ast.Expr{&ast.SelectorExpr{X: t, Sel: id("V")}, &ast.SelectorExpr{X: t, Sel: id("OK")}}
			if st.Tok == token.DEFINE {
				head = append(head, define(st.Lhs, vals[:len(st.Lhs)]...))
			} else {
				for k, l := range st.Lhs {
					if isBlank(l) {
						continue
					}
					head = append(head, r.store(l, vals[k], st.Pos()))
				}
			}
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{idx}, Body: append(head, r.list(c.Body)...)})
		i++
	}
	// the last clause becomes the default clause, so that a terminating select
	// stays a terminating statement
	if n := len(sw.Body.List); n > 0 {
		sw.Body.List[n-1].(*ast.CaseClause).List = nil
	} else {
		sw.Body.List = []ast.Stmt{&ast.CaseClause{Body: []ast.Stmt{exprStmt(call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: "`unreachable`"}))}}}
	}
	sw.Tag = call(vs("Select"), append([]ast.Expr{id(hasDefault), r.site(x.Pos())}, args...)...)
	return pre, sw
}

func (r *pkgRewriter) rangeStmt(x *ast.RangeStmt) (pre []ast.Stmt, main ast.Stmt) {
	key, val := x.Key, x.Value
	if key != nil && isBlank(key) {
		key = nil
	}
	if val != nil && isBlank(val) {
		val = nil
	}
	t := under(r.typeOf(x.X))
	body := r.body(x.Body).List
	// the assignment form uses fresh variables
	if x.Tok == token.ASSIGN && (key != nil || val != nil) {
		var head []ast.Stmt
		if key != nil {
			k := r.temp("k")
			head = append(head, r.store(key, k, x.Pos()))
			key = k
		}
		if val != nil {
			v := r.temp("v")
			head = append(head, r.store(val, v, x.Pos()))
			val = v
		}
		body = append(head, body...)
	} else {
		var head []ast.Stmt
		for _, e := range []ast.Expr{key, val} {
			if i, ok := e.(*ast.Ident); ok && r.isSharedVar(r.varOf(i)) {
				head = append(head, exprStmt(call(vs("MarkW"), addr(i), r.site(x.Pos()))))
			}
		}
		body = append(head, body...)
	}
	switch t.(type) {
	case *types.Map:
		it := r.temp("it")
		pre = append(pre, def1(it, call(vs("MapIter"), r.expr(x.X), r.site(x.Pos()))))
		ka, va := ast.Expr(id("nil")), ast.Expr(id("nil"))
		meth := func(n string) ast.Expr { return call(&ast.SelectorExpr{X: it, Sel: id(n)}) }
		if key != nil {
			pre = append(pre, def1(key, meth("KVar")))
			ka = addr(key)
		}
		if val != nil {
			pre = append(pre, def1(val, meth("VVar")))
			va = addr(val)
		}
		return pre, &ast.ForStmt{Cond: call(&ast.SelectorExpr{X: it, Sel: id("Next")}, ka, va), Body: block(body...)}
	case *types.Chan:
		c := r.temp("c")
		pre = append(pre, def1(c, r.expr(x.X)))
		v := key
		if v == nil {
			v = r.temp("v")
		}
		pre = append(pre, def1(v, call(vs("ChanZero"), c)))
		return pre, &ast.ForStmt{Cond: call(vs("RecvInto"), c, addr(v), r.site(x.Pos())), Body: block(body...)}
	case *types.Slice:
		sx := r.temp("s")
		pre = append(pre, def1(sx, r.expr(x.X)))
		n := &ast.RangeStmt{X: sx}
		if val != nil {
			if key == nil {
				key = r.temp("i")
			}
			body = append([]ast.Stmt{exprStmt(call(vs("Touch"), sx, key, r.site(x.Pos())))}, body...)
		} else {
			body = append([]ast.Stmt{r.pt(x.Pos())}, body...)
		}
		n.Body = block(body...)
		if key != nil {
			n.Key, n.Tok = key, token.DEFINE
		}
		if val != nil {
			n.Value = val
		}
		return pre, n
	}
	n := &ast.RangeStmt{X: r.expr(x.X), Body: block(append([]ast.Stmt{r.pt(x.Pos())}, body...)...)}
	if key != nil {
		n.Key, n.Tok = key, token.DEFINE
	}
	if val != nil {
		n.Value, n.Tok = val, token.DEFINE
		if key == nil {
			n.Key = id("_")
		}
	}
	return nil, n
}

// ---- declarations

func (r *pkgRewriter) file(f *ast.File, fileNo int) *ast.File {
	if r.shared == nil {
		r.shared = map[*types.Var]bool{}
		r.resets = map[int]string{}
	}
	n := &ast.File{Name: f.Name}
	if f.Name.Name == "main" {
		n.Name = id("command")
	}
	imp := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Rparen: 1}
	imp.Specs = append(imp.Specs, &ast.ImportSpec{Name: id("vsim"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif/sim/vsim"`}})
	n.Decls = append(n.Decls, imp)
	for _, s := range f.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		ns := &ast.ImportSpec{Name: s.Name, Path: &ast.BasicLit{Kind: token.STRING, Value: s.Path.Value}}
		if sh, ok := shims[p]; ok {
			ns.Path.Value = strconv.Quote(sh)
			if ns.Name == nil {
				ns.Name = id(p[strings.LastIndex(p, "/")+1:])
			}
		}
		imp.Specs = append(imp.Specs, ns)
	}
	use := &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{vs("Pt")}}}}
	n.Decls = append(n.Decls, use)
	// variables of this file in initialisation order
	inFile := func(p token.Pos) bool { return r.fset.File(p) == r.fset.File(f.Pos()) }
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			if x.Body != nil {
				r.analyse(x)
			}
			r.results = r.resultVars(x)
			nf := &ast.FuncDecl{Recv: x.Recv, Name: x.Name, Type: x.Type, Body: r.body(x.Body)}
			if x.Recv == nil && x.Name.Name == "init" {
				nm := fmt.Sprintf("vsimInit_%d_%d", fileNo, len(r.inits))
				r.inits = append(r.inits, nm)
				nf.Name = id(nm)
			}
			n.Decls = append(n.Decls, nf)
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				continue
			}
			n.Decls = append(n.Decls, &ast.GenDecl{Tok: x.Tok, Lparen: x.Lparen, Rparen: x.Rparen, Specs: x.Specs})
			if x.Tok == token.VAR {
				for _, sp := range x.Specs {
					v := sp.(*ast.ValueSpec)
					for _, val := range v.Values {
						ast.Inspect(val, func(m ast.Node) bool {
							if fl, ok := m.(*ast.FuncLit); ok {
								r.analyse(fl)
								return false
							}
							return true
						})
					}
					if len(v.Values) == 0 {
						for _, nm := range v.Names {
							if nm.Name != "_" {
								r.zeroFns = append(r.zeroFns, nm.Name)
							}
						}
					}
				}
			}
		}
	}
	for i, in := range r.infoInitOrder() {
		if len(in.Lhs) == 0 || !inFile(in.Rhs.Pos()) {
			continue
		}
		r.results = nil
		var lhs []ast.Expr
		for _, v := range in.Lhs {
			lhs = append(lhs, id(v.Name()))
		}
		name := fmt.Sprintf("vsimVar_%d", i)
		r.resets[i] = name
		var rhs ast.Expr
		if len(lhs) == 2 {
			rhs = r.commaOK(in.Rhs)
		} else {
			rhs = r.expr(in.Rhs)
		}
		n.Decls = append(n.Decls, &ast.FuncDecl{Name: id(name), Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: block(&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}})})
	}
	return n
}

func (r *pkgRewriter) infoInitOrder() []*types.Initializer { return r.info.InitOrder }

func (r *pkgRewriter) resetFile(name string) (out []byte) {
	var b bytes.Buffer
	if name == "main" {
		name = "command"
		defer func() { out = append(out, "\n// Main runs the command.\nfunc Main() { main() }\n"...) }()
	}
	fmt.Fprintf(&b, "package %s\n\nimport vsim \"verif/sim/vsim\"\n\nfunc init() {\n", name)
	fmt.Fprintf(&b, "\tvsim.RegisterSites(%d, []string{\n", r.base)
	for _, s := range r.sites {
		fmt.Fprintf(&b, "\t\t%q,\n", s)
	}
	fmt.Fprintf(&b, "\t})\n\tvsim.OnReset(%q, func() {\n", r.pkg.Path())
	for _, z := range r.zeroFns {
		fmt.Fprintf(&b, "\t\tvsim.Zero(&%s)\n", z)
	}
	for i := range r.info.InitOrder {
		if f, ok := r.resets[i]; ok {
			fmt.Fprintf(&b, "\t\t%s()\n", f)
		}
	}
	for _, f := range r.inits {
		fmt.Fprintf(&b, "\t\t%s()\n", f)
	}
	fmt.Fprintf(&b, "\t})\n}\n")
	return b.Bytes()
}
