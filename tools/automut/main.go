// automut lists single-edit mutants of Go files as JSON lines (development aid).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mut struct {
	ID, File, Kind, Text, Old, New string
	Line, From, To                 int
}

func main() {
	for _, path := range os.Args[1:] {
		src, _ := os.ReadFile(path)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, path, src, parser.SkipObjectResolution)
		if err != nil {
			panic(err)
		}
		n := 0
		for _, d := range f.Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok || fn.Body == nil || fn.Name.Name == "String" || fn.Name.Name == "init" {
				continue
			}
			off := func(p token.Pos) int { return fs.Position(p).Offset }
			emit := func(kind string, a, b token.Pos, repl string) {
				from, to := off(a), off(b)
				old := string(src[from:to])
				if strings.HasPrefix(old, "logrus.") || old == repl {
					return
				}
				n++
				m := mut{Kind: kind, File: path, Line: fs.Position(a).Line, From: from, To: to, Old: old, New: repl,
					ID: fmt.Sprintf("%s:%d:%s:%d", path, fs.Position(a).Line, kind, n)}
				json.NewEncoder(os.Stdout).Encode(m)
			}
			errLast := false
			if r := fn.Type.Results; r != nil && len(r.List) == 1 {
				if id, ok := r.List[0].Type.(*ast.Ident); ok && id.Name == "error" {
					errLast = true
				}
			}
			ast.Inspect(fn.Body, func(x ast.Node) bool {
				switch v := x.(type) {
				case *ast.FuncLit:
					return true
				case *ast.CallExpr:
					if s, ok := v.Fun.(*ast.SelectorExpr); ok {
						if id, ok := s.X.(*ast.Ident); ok && (id.Name == "logrus" || id.Name == "fmt" || id.Name == "errors") {
							return false
						}
					}
				case *ast.ExprStmt:
					emit("del", v.Pos(), v.End(), "")
				case *ast.AssignStmt:
					if v.Tok != token.DEFINE {
						emit("del", v.Pos(), v.End(), "")
					}
				case *ast.IncDecStmt:
					emit("del", v.Pos(), v.End(), "")
				case *ast.SendStmt:
					emit("del", v.Pos(), v.End(), "")
				case *ast.DeferStmt:
					emit("del", v.Pos(), v.End(), "")
					emit("undefer", v.Pos(), v.Call.Pos(), "")
				case *ast.GoStmt:
					emit("del", v.Pos(), v.End(), "")
					emit("ungo", v.Pos(), v.Call.Pos(), "")
				case *ast.IfStmt:
					c := string(src[off(v.Cond.Pos()):off(v.Cond.End())])
					emit("iffalse", v.Cond.Pos(), v.Cond.End(), "("+c+") && falseMut")
					emit("iftrue", v.Cond.Pos(), v.Cond.End(), "("+c+") || !falseMut")
				case *ast.BinaryExpr:
					alt := map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
						token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
						token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}}
					for _, a := range alt[v.Op] {
						emit("op", v.OpPos, v.OpPos+token.Pos(len(v.Op.String())), a)
					}
				case *ast.BasicLit:
					if v.Kind == token.INT {
						emit("int+", v.Pos(), v.End(), "("+v.Value+"+1)")
						emit("int-", v.Pos(), v.End(), "("+v.Value+"-1)")
					}
				case *ast.ReturnStmt:
					if errLast && len(v.Results) == 1 {
						if id, ok := v.Results[0].(*ast.Ident); !ok || id.Name != "nil" {
							emit("retnil", v.Results[0].Pos(), v.Results[0].End(), "nil")
						}
					}
					if len(v.Results) == 1 {
						if id, ok := v.Results[0].(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
							emit("retbool", id.Pos(), id.End(), map[string]string{"true": "false", "false": "true"}[id.Name])
						}
					}
				case *ast.BranchStmt:
					switch v.Tok {
					case token.BREAK:
						emit("brk", v.Pos(), v.End(), "")
					case token.CONTINUE:
						emit("cont", v.Pos(), v.End(), "")
						emit("cont-brk", v.Pos(), v.End(), "break")
					}
				case *ast.UnaryExpr:
					if v.Op == token.NOT {
						emit("not", v.OpPos, v.OpPos+1, "")
					}
				case *ast.CommClause:
					if v.Comm != nil && len(v.Body) >= 0 {
						if _, ok := v.Comm.(*ast.SendStmt); !ok {
							emit("case", v.Pos(), v.Colon, "case <-(chan struct{})(nil)")
						}
					}
				}
				return true
			})
		}
	}
}
