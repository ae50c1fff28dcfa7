// Command mutate lists small changes of the given Go files, one JSON per line:
// {file, line, off, len, new, op}.  Used to look for gaps in the checks.
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mutant struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	Len  int    `json:"len"`
	New  string `json:"new"`
	Op   string `json:"op"`
	Old  string `json:"old"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		emit := func(a, b token.Pos, repl, op string) {
			p, q := fset.Position(a), fset.Position(b)
			old := string(src[p.Offset:q.Offset])
			if old == repl {
				return
			}
			_ = enc.Encode(mutant{f, p.Line, p.Offset, q.Offset - p.Offset, repl, op, old})
		}
		text := func(n ast.Node) string {
			return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
		}
		swaps := map[token.Token][]string{
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.OR: {"&"}, token.AND: {"|"},
		}
		ast.Inspect(file, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				for _, s := range swaps[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "swap")
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), text(x.X), "left")
					emit(x.Pos(), x.End(), text(x.Y), "right")
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never")
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "always")
			case *ast.ForStmt:
				if x.Cond != nil {
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x.Pos(), x.End(), text(x.X), "nonot")
				}
			case *ast.BlockStmt:
				for i, s := range x.List {
					switch y := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
						emit(s.Pos(), s.End(), "", "drop")
					case *ast.AssignStmt:
						if y.Tok != token.DEFINE {
							emit(s.Pos(), s.End(), "", "drop")
							if len(y.Lhs) == 1 && i > 0 {
								_ = i
							}
						}
					case *ast.BranchStmt:
						if y.Tok == token.CONTINUE {
							emit(s.Pos(), s.End(), "break", "branch")
						}
						if y.Tok == token.BREAK {
							emit(s.Pos(), s.End(), "continue", "branch")
						}
					}
					// two neighbouring statements the other way round
					if i > 0 {
						a, b := x.List[i-1], s
						_, ra := a.(*ast.ReturnStmt)
						_, rb := b.(*ast.ReturnStmt)
						_, ia := a.(*ast.IfStmt)
						_, ib := b.(*ast.IfStmt)
						if !ra && !rb && !(ia && ib && false) {
							emit(a.Pos(), b.End(), text(b)+"\n"+text(a), "order")
						}
					}
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					t := text(r)
					switch {
					case t == "true":
						emit(r.Pos(), r.End(), "false", "ret")
					case t == "false":
						emit(r.Pos(), r.End(), "true", "ret")
					case t == "err" || strings.Contains(strings.ToLower(t), "err"):
						emit(r.Pos(), r.End(), "nil", "ret")
					}
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					switch x.Value {
					case "0":
						emit(x.Pos(), x.End(), "1", "int")
					case "1":
						emit(x.Pos(), x.End(), "0", "int")
						emit(x.Pos(), x.End(), "2", "int")
					default:
						emit(x.Pos(), x.End(), "("+x.Value+"+1)", "int")
					}
				}
			case *ast.CompositeLit:
				for i, e := range x.Elts {
					if _, ok := e.(*ast.KeyValueExpr); ok || len(x.Elts) > 1 {
						end := e.End()
						if i+1 < len(x.Elts) {
							end = x.Elts[i+1].Pos()
						} else if src[fset.Position(end).Offset] == ',' {
							end++
						}
						emit(e.Pos(), end, "", "elt")
					}
				}
			case *ast.CallExpr:
				// neighbouring arguments of a call the other way round
				for i := 1; i < len(x.Args); i++ {
					emit(x.Args[i-1].Pos(), x.Args[i].End(), text(x.Args[i])+", "+text(x.Args[i-1]), "args")
				}
			case *ast.CaseClause:
				if len(x.Body) > 0 && x.List != nil {
					emit(x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "", "case")
				}
			case *ast.Ident:
				if x.Name == "true" && x.Obj == nil {
					emit(x.Pos(), x.End(), "false", "bool")
				}
				if x.Name == "false" && x.Obj == nil {
					emit(x.Pos(), x.End(), "true", "bool")
				}
			}
			return true
		})
	}
}
