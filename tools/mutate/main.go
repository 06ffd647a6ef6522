// Command mutate is a development tool: it lists small changes to the Go files
// given, one JSON object a line, for tools/campaign.py.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	Text string `json:"text"`
	What string `json:"what"`
}

func main() {
	for _, p := range os.Args[1:] {
		src, err := os.ReadFile(p)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		out := func(from, to token.Pos, txt, what string) {
			m := mutant{p, fset.Position(from).Line, off(from), off(to), txt, what}
			b, _ := json.Marshal(m)
			fmt.Println(string(b))
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		neg := func(c ast.Expr) {
			if c != nil {
				out(c.Pos(), c.End(), "!("+text(c)+")", "negate "+text(c))
			}
		}
		stmts := func(l []ast.Stmt) {
			for _, s := range l {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.DeferStmt:
					out(s.Pos(), s.End(), "", "drop "+text(s))
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						out(s.Pos(), s.End(), "", "drop "+text(s))
					}
				case *ast.IfStmt:
					if x.Else == nil && x.Init == nil {
						out(s.Pos(), s.End(), "", "drop if "+text(x.Cond))
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				return x.Tok != token.IMPORT && x.Tok != token.TYPE
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
			case *ast.IfStmt:
				neg(x.Cond)
			case *ast.ForStmt:
				neg(x.Cond)
			case *ast.BinaryExpr:
				to := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.EQL: "!=", token.NEQ: "==",
					token.LAND: "||", token.LOR: "&&", token.ADD: "-", token.SUB: "+"}[x.Op]
				if to != "" {
					out(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), to, x.Op.String()+" to "+to+" in "+text(x))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 32); err == nil {
						out(x.Pos(), x.End(), strconv.FormatInt(v+1, 10), x.Value+" plus one")
						if v > 0 {
							out(x.Pos(), x.End(), strconv.FormatInt(v-1, 10), x.Value+" minus one")
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					out(x.Pos(), x.End(), "false", "true to false")
				}
				if x.Name == "false" {
					out(x.Pos(), x.End(), "true", "false to true")
				}
			case *ast.ReturnStmt:
				if k := len(x.Results); k > 0 && text(x.Results[k-1]) == "err" {
					out(x.Results[k-1].Pos(), x.Results[k-1].End(), "nil", "nil for err")
				}
			}
			return true
		})
	}
}
