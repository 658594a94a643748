// mutate lists small changes of Go source files, one JSON object per line:
// {"file", "off", "end", "new", "what", "line"}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	What string `json:"what"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, f := range os.Args[2:] {
		b, err := os.ReadFile(root + "/" + f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, b, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		src := func(n ast.Node) string { return string(b[off(n.Pos()):off(n.End())]) }
		fn := ""
		emit := func(n ast.Node, new, what string) {
			o := strings.ReplaceAll(src(n), "\n", " ")
			if len(o) > 90 {
				o = o[:90] + "..."
			}
			_ = enc.Encode(mutant{f, off(n.Pos()), off(n.End()), new, what + ": " + o, fset.Position(n.Pos()).Line, fn})
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Name.Name == "String" && strings.HasSuffix(f, "_string.go") {
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.IfStmt:
					emit(n.Cond, "!("+src(n.Cond)+")", "negate")
					emit(n.Cond, "("+src(n.Cond)+") && false", "never")
					if n.Init == nil {
						emit(n, "{}", "drop if")
					}
				case *ast.BinaryExpr:
					rep := map[token.Token][]string{
						token.LSS: {"<=", ">="}, token.GTR: {">=", "<="}, token.LEQ: {"<"}, token.GEQ: {">"},
						token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"},
						token.LAND: {"||"}, token.LOR: {"&&"}, token.EQL: {"!="}, token.NEQ: {"=="},
						token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
					}[n.Op]
					for _, r := range rep {
						emit(n, src(n.X)+" "+r+" "+src(n.Y), "op "+r)
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
							emit(n, fmt.Sprint(v+1), "literal+1")
						}
					}
				case *ast.ExprStmt:
					emit(n, "{}", "drop call")
				case *ast.DeferStmt:
					emit(n, "{}", "drop defer")
					emit(n, src(n.Call), "call now")
				case *ast.GoStmt:
					emit(n, src(n.Call), "no goroutine")
				case *ast.IncDecStmt:
					emit(n, "{}", "drop")
				case *ast.SendStmt:
					emit(n, "{}", "drop send")
				case *ast.AssignStmt:
					if n.Tok == token.ASSIGN || n.Tok == token.ADD_ASSIGN {
						emit(n, "{}", "drop assignment")
					}
					if n.Tok == token.ADD_ASSIGN {
						emit(n, src(n.Lhs[0])+" = "+src(n.Rhs[0]), "= for +=")
					}
				case *ast.ReturnStmt:
					for _, r := range n.Results {
						if id, ok := r.(*ast.Ident); ok {
							switch id.Name {
							case "err":
								emit(r, "nil", "no error")
							case "true":
								emit(r, "false", "result")
							case "false":
								emit(r, "true", "result")
							}
						}
						if c, ok := r.(*ast.CallExpr); ok && strings.HasPrefix(src(c.Fun), "errors.") {
							emit(r, "nil", "no error")
						}
					}
				case *ast.UnaryExpr:
					if n.Op == token.NOT || n.Op == token.SUB {
						emit(n, src(n.X), "drop "+n.Op.String())
					}
				}
				return true
			})
			// swap neighbouring statements
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				bl, ok := n.(*ast.BlockStmt)
				if !ok {
					return true
				}
				for i := 0; i+1 < len(bl.List); i++ {
					x, y := bl.List[i], bl.List[i+1]
					a, e := off(x.Pos()), off(y.End())
					s := src(y) + "\n" + src(x)
					o := strings.ReplaceAll(src(x), "\n", " ")
					if len(o) > 60 {
						o = o[:60] + "..."
					}
					_ = enc.Encode(mutant{f, a, e, s, "swap with next: " + o, fset.Position(x.Pos()).Line, fn})
				}
				return true
			})
		}
	}
}
