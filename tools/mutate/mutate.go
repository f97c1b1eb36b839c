//go:build ignore

// mutate.go FILE...: prints small changes of Go files, one JSON object per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

// Mutant replaces the bytes [From, To) of a file.
type Mutant struct {
	File string `json:"file"`
	Line int    `json:"line"`
	From int    `json:"from"`
	To   int    `json:"to"`
	New  string `json:"new"`
	Desc string `json:"desc"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		tree, err := parser.ParseFile(fs, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(a, b token.Pos, s, d string) {
			_ = enc.Encode(Mutant{f, fs.Position(a).Line, off(a), off(b), s, d})
		}
		text := func(n ast.Node) string {
			t := string(src[off(n.Pos()):off(n.End())])
			if len(t) > 60 {
				t = t[:60] + "..."
			}
			return t
		}
		swap := map[token.Token][]string{
			token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
			token.REM: {"*"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"},
		}
		list := func(l []ast.Stmt) {
			for i, s := range l {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt, *ast.BranchStmt:
					emit(s.Pos(), s.End(), "", "drop "+text(s))
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(s.Pos(), s.End(), "", "drop "+text(s))
					}
				case *ast.IfStmt:
					if x.Else == nil {
						emit(s.Pos(), s.End(), "", "drop if "+text(x.Cond))
					}
				case *ast.ReturnStmt:
					if len(x.Results) == 0 {
						emit(s.Pos(), s.End(), "", "drop return")
					}
				}
				if i+1 < len(l) {
					_, a := l[i].(*ast.ExprStmt)
					_, b := l[i+1].(*ast.ExprStmt)
					if a && b {
						emit(l[i].Pos(), l[i+1].End(), string(src[off(l[i+1].Pos()):off(l[i+1].End())])+"\n"+string(src[off(l[i].Pos()):off(l[i].End())]), "swap with next "+text(l[i]))
					}
				}
			}
		}
		ast.Inspect(tree, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				for _, s := range swap[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "op "+s+" in "+text(x))
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "!("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")", "negate "+text(x.Cond))
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), "literal "+x.Value+"+1")
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1), "literal "+x.Value+"-1")
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "false")
				}
				if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "true")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x.Pos(), x.X.Pos(), "", "drop ! in "+text(x))
				}
			}
			return true
		})
	}
}
