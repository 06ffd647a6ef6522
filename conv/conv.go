// Package conv turns the trees of the code under test into model trees.
package conv

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/token"

	"verif/gen"
)

// Conv converts one tree.
type Conv struct {
	// File is the file name every position must carry.
	File string
	// Bad lists what makes the tree ill-formed: missing mandatory parts,
	// unknown nodes, foreign file names.
	Bad []string
	// Nodes gets, if not nil, the real node behind every converted node, in
	// source order.
	Nodes *[]ast.Node
}

// Tree converts a tree.
func Tree(n ast.Node, file string) (*gen.Node, []string) {
	c := &Conv{File: file}
	t := c.node(n, "tree")
	return t, c.Bad
}

// Node converts a tree.
func (c *Conv) Node(n ast.Node) *gen.Node { return c.node(n, "tree") }

func (c *Conv) bad(f string, a ...interface{}) {
	if len(c.Bad) < 20 {
		c.Bad = append(c.Bad, fmt.Sprintf(f, a...))
	}
}

func (c *Conv) pos(p ast.Pos, what string) gen.Pos {
	if p.Filename != c.File {
		c.bad("%s at %d:%d carries file name %q instead of %q", what, p.Line, p.Column, p.Filename, c.File)
	}
	return gen.Pos{Off: p.Offset, Line: p.Line, Col: p.Column}
}

func isNil(n ast.Node) bool {
	if n == nil {
		return true
	}
	v := reflect.ValueOf(n)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

// need adds a mandatory child.
func (c *Conv) need(g *gen.Node, role string, n ast.Node) {
	if isNil(n) {
		c.bad("%s at %s has no %s", g.Kind, g.Pos, role)
		g.Add(role, &gen.Node{Kind: "nil"})
		return
	}
	g.Add(role, c.node(n, role))
}

// may adds an optional child.
func (c *Conv) may(g *gen.Node, role string, n ast.Node) {
	if n == nil {
		return
	}
	if isNil(n) {
		c.bad("%s at %s has a typed nil %s", g.Kind, g.Pos, role)
		return
	}
	g.Add(role, c.node(n, role))
}

func (c *Conv) stmts(g *gen.Node, role string, l []ast.Statement) {
	for _, s := range l {
		c.need(g, role, s)
	}
}

func (c *Conv) exprs(g *gen.Node, role string, l []ast.Expr) {
	for _, s := range l {
		c.need(g, role, s)
	}
}

// Mods formats modifiers.
func Mods(l []interface{}) string {
	var b strings.Builder
	for _, m := range l {
		mm, ok := m.(map[string]interface{})
		if !ok {
			fmt.Fprintf(&b, "?%v;", m)
			continue
		}
		b.WriteString(fmt.Sprint(mm["name"]))
		var ks []string
		for k := range mm {
			if k != "name" {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for i, k := range ks {
			if i == 0 {
				b.WriteString("(")
			} else {
				b.WriteString(",")
			}
			fmt.Fprintf(&b, "%s=%v", k, mm[k])
		}
		if len(ks) > 0 {
			b.WriteString(")")
		}
		b.WriteString(";")
	}
	return b.String()
}

func (c *Conv) ea(g *gen.Node, x *ast.ExArg) {
	e := &gen.Ea{}
	g.Ea = e
	if x.Cmd != nil {
		e.Name = x.Cmd.Name
	}
	e.Bang = x.Forceit
	e.Mods = Mods(x.Modifiers)
	var r []string
	for _, t := range x.Range {
		r = append(r, fmt.Sprint(t))
	}
	e.Range = strings.Join(r, "|")
	var m []string
	add := func(k, v string) {
		if v != "" && v != "0" {
			m = append(m, k+"="+v)
		}
	}
	add("addr", strconv.Itoa(x.AddrCount))
	add("line1", strconv.Itoa(x.Line1))
	add("line2", strconv.Itoa(x.Line2))
	add("flags", strconv.Itoa(x.Flags))
	add("cmd", x.DoEcmdCmd)
	add("lnum", strconv.Itoa(x.DoEcmdLnum))
	add("append", strconv.Itoa(x.Append))
	if x.Usefilter {
		m = append(m, "filter")
	}
	add("amount", strconv.Itoa(x.Amount))
	add("reg", strconv.Itoa(x.Regname))
	add("bin", strconv.Itoa(x.ForceBin))
	add("edit", strconv.Itoa(x.ReadEdit))
	add("ff", x.ForceFf)
	add("enc", x.ForceEnc)
	add("bad", x.BadChar)
	if len(x.Argopt) > 0 {
		add("argopt", fmt.Sprint(x.Argopt))
	}
	if len(x.Argcmd) > 0 {
		add("argcmd", fmt.Sprint(x.Argcmd))
	}
	e.Misc = strings.Join(m, ",")
	if x.Linepos == nil {
		c.bad("%s at %s has no line position", g.Kind, g.Pos)
	} else {
		e.Line = c.pos(*x.Linepos, g.Kind+" line")
	}
	if x.Cmdpos == nil {
		c.bad("%s at %s has no command position", g.Kind, g.Pos)
	} else {
		e.Cmd = c.pos(*x.Cmdpos, g.Kind+" command")
	}
	if x.Argpos != nil {
		e.HasArg = true
		e.Arg = c.pos(*x.Argpos, g.Kind+" argument")
	}
}

func (c *Conv) node(n ast.Node, role string) *gen.Node {
	g := &gen.Node{}
	if isNil(n) {
		c.bad("nil node as %s", role)
		g.Kind = "nil"
		return g
	}
	if c.Nodes != nil {
		*c.Nodes = append(*c.Nodes, n)
	}
	g.Kind = strings.TrimPrefix(fmt.Sprintf("%T", n), "*ast.")
	g.Pos = c.pos(n.Pos(), g.Kind)
	switch x := n.(type) {
	case *ast.File:
		c.stmts(g, "body", x.Body)
	case *ast.Comment:
		g.Val = x.Text
	case *ast.Excmd:
		g.Val = x.Command
		c.ea(g, &x.ExArg)
	case *ast.Function:
		c.ea(g, &x.ExArg)
		a := 0
		for i, b := range []bool{x.Attr.Range, x.Attr.Abort, x.Attr.Dict, x.Attr.Closure} {
			if b {
				a |= 1 << i
			}
		}
		g.Val = strconv.Itoa(a)
		c.need(g, "name", x.Name)
		ps := x.Params
		var rest *ast.Ident
		if k := len(ps); k > 0 && ps[k-1] != nil && ps[k-1].Name == "..." {
			rest = ps[k-1]
			ps = ps[:k-1]
		}
		nd := len(x.DefaultArgs)
		if nd > len(ps) {
			c.bad("%s at %s has %d parameters and %d defaults", g.Kind, g.Pos, len(ps), nd)
			nd = len(ps)
		}
		for i, p := range ps {
			c.need(g, "param", p)
			if j := i - (len(ps) - nd); j >= 0 {
				c.need(g, "default", x.DefaultArgs[j])
			}
		}
		if rest != nil {
			c.need(g, "param", rest)
		}
		c.stmts(g, "body", x.Body)
		c.need(g, "end", x.EndFunction)
	case *ast.EndFunction:
		c.ea(g, &x.ExArg)
	case *ast.DelFunction:
		c.ea(g, &x.ExArg)
		c.need(g, "name", x.Name)
	case *ast.Return:
		c.ea(g, &x.ExArg)
		c.may(g, "result", x.Result)
	case *ast.ExCall:
		c.ea(g, &x.ExArg)
		c.need(g, "call", x.FuncCall)
	case *ast.Let:
		c.ea(g, &x.ExArg)
		g.Val = x.Op
		c.lhs(g, x.Left, x.List, x.Rest)
		c.need(g, "right", x.Right)
	case *ast.UnLet:
		c.ea(g, &x.ExArg)
		c.exprs(g, "item", x.List)
	case *ast.LockVar:
		c.ea(g, &x.ExArg)
		g.Val = strconv.Itoa(x.Depth)
		c.exprs(g, "item", x.List)
	case *ast.UnLockVar:
		c.ea(g, &x.ExArg)
		g.Val = strconv.Itoa(x.Depth)
		c.exprs(g, "item", x.List)
	case *ast.If:
		c.ea(g, &x.ExArg)
		c.need(g, "cond", x.Condition)
		c.stmts(g, "body", x.Body)
		for _, e := range x.ElseIf {
			c.need(g, "elseif", e)
		}
		if x.Else != nil {
			c.need(g, "else", x.Else)
		}
		c.need(g, "end", x.EndIf)
	case *ast.ElseIf:
		c.ea(g, &x.ExArg)
		c.need(g, "cond", x.Condition)
		c.stmts(g, "body", x.Body)
	case *ast.Else:
		c.ea(g, &x.ExArg)
		c.stmts(g, "body", x.Body)
	case *ast.EndIf:
		c.ea(g, &x.ExArg)
	case *ast.While:
		c.ea(g, &x.ExArg)
		c.need(g, "cond", x.Condition)
		c.stmts(g, "body", x.Body)
		c.need(g, "end", x.EndWhile)
	case *ast.EndWhile:
		c.ea(g, &x.ExArg)
	case *ast.For:
		c.ea(g, &x.ExArg)
		c.lhs(g, x.Left, x.List, x.Rest)
		c.need(g, "right", x.Right)
		c.stmts(g, "body", x.Body)
		c.need(g, "end", x.EndFor)
	case *ast.EndFor:
		c.ea(g, &x.ExArg)
	case *ast.Continue:
		c.ea(g, &x.ExArg)
	case *ast.Break:
		c.ea(g, &x.ExArg)
	case *ast.Try:
		c.ea(g, &x.ExArg)
		c.stmts(g, "body", x.Body)
		for _, e := range x.Catch {
			c.need(g, "catch", e)
		}
		if x.Finally != nil {
			c.need(g, "finally", x.Finally)
		}
		c.need(g, "end", x.EndTry)
	case *ast.Catch:
		c.ea(g, &x.ExArg)
		g.Val = x.Pattern
		c.stmts(g, "body", x.Body)
	case *ast.Finally:
		c.ea(g, &x.ExArg)
		c.stmts(g, "body", x.Body)
	case *ast.EndTry:
		c.ea(g, &x.ExArg)
	case *ast.Throw:
		c.ea(g, &x.ExArg)
		c.need(g, "expr", x.Expr)
	case *ast.Eval:
		c.ea(g, &x.ExArg)
		c.need(g, "expr", x.Expr)
	case *ast.EchoCmd:
		c.ea(g, &x.ExArg)
		g.Val = x.CmdName
		c.exprs(g, "expr", x.Exprs)
	case *ast.Echohl:
		c.ea(g, &x.ExArg)
		g.Val = x.Name
	case *ast.Execute:
		c.ea(g, &x.ExArg)
		c.exprs(g, "expr", x.Exprs)
	case *ast.TernaryExpr:
		g.Kind = "Ternary"
		c.need(g, "cond", x.Condition)
		c.need(g, "left", x.Left)
		c.need(g, "right", x.Right)
	case *ast.BinaryExpr:
		g.Kind = "Binary"
		g.Val = x.Op.String()
		c.need(g, "left", x.Left)
		c.need(g, "right", x.Right)
	case *ast.UnaryExpr:
		g.Kind = "Unary"
		g.Val = x.Op.String()
		c.need(g, "x", x.X)
	case *ast.SubscriptExpr:
		g.Kind = "Subscript"
		c.need(g, "left", x.Left)
		c.need(g, "right", x.Right)
	case *ast.SliceExpr:
		g.Kind = "Slice"
		c.need(g, "x", x.X)
		c.may(g, "low", x.Low)
		c.may(g, "high", x.High)
	case *ast.MethodExpr:
		g.Kind = "Method"
		c.need(g, "left", x.Left)
		c.need(g, "method", x.Method)
		c.exprs(g, "arg", x.Args)
	case *ast.CallExpr:
		g.Kind = "Call"
		c.need(g, "fun", x.Fun)
		c.exprs(g, "arg", x.Args)
	case *ast.DotExpr:
		g.Kind = "Dot"
		c.need(g, "left", x.Left)
		c.need(g, "right", x.Right)
	case *ast.BasicLit:
		g.Val = litKind(x.Kind) + " " + x.Value
	case *ast.List:
		c.exprs(g, "value", x.Values)
	case *ast.Dict:
		for _, e := range x.Entries {
			c.need(g, "key", e.Key)
			c.need(g, "value", e.Value)
		}
	case *ast.CurlyName:
		for _, p := range x.Parts {
			c.need(g, "part", p)
		}
	case *ast.CurlyNameLit:
		g.Kind = "CurlyLit"
		g.Val = x.Value
	case *ast.CurlyNameExpr:
		g.Kind = "CurlyExpr"
		c.need(g, "value", x.Value)
	case *ast.Ident:
		g.Val = x.Name
	case *ast.LambdaExpr:
		g.Kind = "Lambda"
		for _, p := range x.Params {
			c.need(g, "param", p)
		}
		c.need(g, "expr", x.Expr)
	case *ast.ParenExpr:
		g.Kind = "Paren"
		c.need(g, "x", x.X)
	case *ast.HeredocExpr:
		g.Kind = "Heredoc"
		g.Val = x.EndMarker
		c.exprs(g, "flag", x.Flags)
		c.exprs(g, "line", x.Body)
	default:
		c.bad("unknown node %T", n)
	}
	return g
}

func (c *Conv) lhs(g *gen.Node, left ast.Expr, list []ast.Expr, rest ast.Expr) {
	if left == nil && len(list) == 0 {
		c.bad("%s at %s has no left side", g.Kind, g.Pos)
	}
	if left != nil && (len(list) > 0 || rest != nil) {
		c.bad("%s at %s has two left sides", g.Kind, g.Pos)
	}
	c.may(g, "left", left)
	c.exprs(g, "list", list)
	c.may(g, "rest", rest)
}

func litKind(t token.Token) string {
	switch t {
	case token.NUMBER:
		return "NUMBER"
	case token.BLOB:
		return "BLOB"
	case token.STRING:
		return "STRING"
	case token.OPTION:
		return "OPTION"
	case token.ENV:
		return "ENV"
	case token.REG:
		return "REG"
	}
	return t.String()
}
