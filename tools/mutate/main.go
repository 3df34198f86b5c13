// Command mutate lists small changes of Go files as lines of JSON: {file, from, to, text, what}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File string `json:"file"`
	Line int    `json:"line"`
	From int    `json:"from"`
	To   int    `json:"to"`
	Text string `json:"text"`
	What string `json:"what"`
}

var swaps = map[token.Token][]string{
	token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		emit := func(from, to token.Pos, text, what string) {
			enc.Encode(mutant{name, fset.Position(from).Line, off(from), off(to), text, what})
		}
		str := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.GenDecl:
				return n.Tok == token.VAR && false
			case *ast.BinaryExpr:
				for _, s := range swaps[n.Op] {
					if n.Op == token.ADD {
						if l, ok := n.X.(*ast.BasicLit); ok && l.Kind == token.STRING {
							continue
						}
						if l, ok := n.Y.(*ast.BasicLit); ok && l.Kind == token.STRING {
							continue
						}
					}
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s, n.Op.String()+" -> "+s)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit(n.Pos(), n.End(), str(n.X), "only the left of "+str(n))
					emit(n.Pos(), n.End(), str(n.Y), "only the right of "+str(n))
				}
			case *ast.IfStmt:
				if n.Init == nil {
					emit(n.Cond.Pos(), n.Cond.End(), "!("+str(n.Cond)+")", "negated")
				}
				emit(n.Cond.Pos(), n.Cond.End(), "("+str(n.Cond)+") && false", "never")
				emit(n.Cond.Pos(), n.Cond.End(), "("+str(n.Cond)+") || true", "always")
			case *ast.BasicLit:
				if n.Kind == token.INT {
					v, err := strconv.ParseInt(n.Value, 0, 64)
					if err == nil {
						emit(n.Pos(), n.End(), strconv.FormatInt(v+1, 10), "+1")
						if v > 0 {
							emit(n.Pos(), n.End(), strconv.FormatInt(v-1, 10), "-1")
						}
					}
				}
			case *ast.IncDecStmt:
				emit(n.TokPos, n.TokPos+2, map[token.Token]string{token.INC: "--", token.DEC: "++"}[n.Tok], "inc/dec")
			case *ast.AssignStmt:
				if n.Tok == token.ASSIGN {
					if len(n.Lhs) == 1 {
						emit(n.Pos(), n.End(), "_ = "+str(n.Rhs[0]), "no assignment: "+str(n))
					}
				} else if n.Tok == token.ADD_ASSIGN {
					emit(n.TokPos, n.TokPos+2, "=", "+= -> =")
				}
			case *ast.ExprStmt:
				emit(n.Pos(), n.End(), "{}", "removed: "+str(n))
			case *ast.DeferStmt:
				emit(n.Pos(), n.End(), "{}", "removed: "+str(n))
			case *ast.BranchStmt:
				if n.Label == nil && n.Tok == token.CONTINUE {
					emit(n.Pos(), n.End(), "break", "break")
				}
				if n.Label == nil && n.Tok == token.BREAK {
					emit(n.Pos(), n.End(), "{}", "removed break")
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					if id, ok := r.(*ast.Ident); ok {
						switch id.Name {
						case "err", "errs":
							emit(r.Pos(), r.End(), "nil", "returns nil")
						case "true":
							emit(r.Pos(), r.End(), "false", "returns false")
						case "false":
							emit(r.Pos(), r.End(), "true", "returns true")
						}
					}
				}
			case *ast.CaseClause:
				if len(n.Body) > 0 {
					emit(n.Colon+1, n.Body[len(n.Body)-1].End(), "", "empty case at "+fmt.Sprint(fset.Position(n.Pos()).Line))
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit(n.Pos(), n.End(), str(n.X), "without !")
				}
			}
			return true
		})
	}
}
