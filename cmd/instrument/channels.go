package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// hasChans tells whether the file contains a channel operation.
func hasChans(f *ast.File) bool {
	found := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SendStmt, *ast.SelectStmt, *ast.ChanType:
			found = true
		case *ast.UnaryExpr:
			found = found || x.Op == token.ARROW
		}
		return !found
	})
	return found
}

// hasMaps tells whether the file has types that are maps.
func hasMaps(f *ast.File) bool {
	found := false
	ast.Inspect(f, func(n ast.Node) bool {
		_, ok := n.(*ast.MapType)
		found = found || ok
		return !found
	})
	return found
}

// ranges finds the range statements over channels and over maps. Imports are
// not resolved: what a foreign package returns is not known to be one.
func ranges(fset *token.FileSet, pkg []*ast.File) (chans, maps map[*ast.RangeStmt]bool) {
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	conf := types.Config{Error: func(error) {}, FakeImportC: true, Importer: noImporter{}}
	conf.Check("p", fset, pkg, info)
	chans, maps = map[*ast.RangeStmt]bool{}, map[*ast.RangeStmt]bool{}
	for _, f := range pkg {
		ast.Inspect(f, func(n ast.Node) bool {
			if r, ok := n.(*ast.RangeStmt); ok {
				if tv, ok := info.Types[r.X]; ok && tv.Type != nil {
					switch tv.Type.Underlying().(type) {
					case *types.Chan:
						chans[r] = true
					case *types.Map:
						// values of types that could not be resolved included
						_, k := r.Key.(*ast.Ident)
						_, v := r.Value.(*ast.Ident)
						maps[r] = (r.Key == nil || k && r.Tok == token.DEFINE) && (r.Value == nil || v)
					}
				}
			}
			return true
		})
	}
	return chans, maps
}

type noImporter struct{}

func (noImporter) Import(path string) (*types.Package, error) {
	p := types.NewPackage(path, path[strings.LastIndex(path, "/")+1:])
	p.MarkComplete()
	return p, nil
}

// commClause rewrites the communication of a clause of a select statement;
// index is its number, the result the expression of its case.
func commClause(c *ast.CommClause, index int, text func(ast.Node) string) (expr, head string) {
	v := fmt.Sprintf("simc%d__", index)
	recv := func(e ast.Expr) string {
		for {
			p, ok := e.(*ast.ParenExpr)
			if !ok {
				break
			}
			e = p.X
		}
		return "simrt__.RecvCase(" + text(e.(*ast.UnaryExpr).X) + ")"
	}
	switch s := c.Comm.(type) {
	case *ast.SendStmt:
		return "simrt__.SendCase(" + text(s.Chan) + ")(" + text(s.Value) + ")", fmt.Sprintf("case %d:", index)
	case *ast.ExprStmt:
		return recv(s.X), fmt.Sprintf("case %d:", index)
	case *ast.AssignStmt:
		var l []string
		for _, e := range s.Lhs {
			l = append(l, text(e))
		}
		m := "V"
		if len(l) == 2 {
			m = "V2"
		}
		return recv(s.Rhs[0]), fmt.Sprintf("case %d: %s %s %s.%s();", index, strings.Join(l, ", "), s.Tok, v, m)
	}
	return "", ""
}
