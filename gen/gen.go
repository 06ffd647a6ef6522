package gen

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"verif/draw"
	"verif/hints"
)

// Opt selects the layout and the size of a script.
type Opt struct {
	CRLF    int // 0 LF, 1 CRLF, 2 mixed
	Fold    int // mean distance of continuation lines; 0 none
	Multi   bool
	Bad     bool // bytes that are not valid UTF-8
	NoFinal bool // no line break at the end
	Stmts   int  // statements at top level
	Depth   int  // nesting of blocks
	EDepth  int  // nesting of expressions
	Filler  int  // 0 none; 1 long line; 2 many lines; 3 both; 4 many continuation lines
	Huge    bool // the filler may have more than 65536 lines
	Tail    bool // may end with a command that swallows the rest
	OneLine bool // no '|' sharing
}

// Unit is a top-level piece of the script that begins and ends with a line.
type Unit struct {
	Start, End int // byte offsets, End includes the line break
	Line0      int // first line
	From, To   int // statements of the file body
	Swallow    bool
}

// Script is a generated script and what must come out of it.
type Script struct {
	Src   []byte
	File  *Node
	Units []Unit
	Lines int
	Opt   Opt
}

type gen struct {
	d         *draw.D
	o         Opt
	buf       []byte
	line      int
	lineStart int
	log       []byte // the current logical text
	bol       bool   // nothing of the logical line is out yet
	pend      []*Pos
	pendW     []*Pos // wait for the next character that is not white
	foldIn    int
	budget    int
	foldBan   int
	fnN       int
}

// DrawOpt draws a layout.
func DrawOpt(d *draw.D) Opt {
	var o Opt
	o.Stmts = 1 + d.W(3, 4, 4, 3, 2, 2, 1, 1, 1, 1)
	o.Depth = d.W(2, 3, 3, 1)
	o.EDepth = 1 + d.W(3, 4, 3, 1)
	o.CRLF = d.W(6, 2, 2)
	if d.P(2, 5) {
		o.Fold = d.Pick2(5, 12, 30, 80)
	}
	o.Multi = d.P(2, 5)
	o.Bad = d.P(1, 5)
	o.NoFinal = d.P(1, 4)
	o.Tail = d.P(1, 6)
	return o
}

// File draws a script.
func File(d *draw.D, o Opt) *Script {
	g := &gen{d: d, o: o, line: 1, bol: true, budget: 400}
	g.newFold()
	s := &Script{Opt: o}
	file := &Node{Kind: "File"}
	g.at(&file.Pos)
	if d.P(1, 20) {
		g.foldBan++
		g.raw("#!/usr/bin/env vim" + g.text(6, ""))
		g.foldBan--
		g.eol()
		s.Units = append(s.Units, Unit{Start: 0, End: len(g.buf), Line0: 1})
	}
	c := ctx{top: true, depth: o.Depth}
	fill := -1
	if o.Filler != 0 {
		fill = d.N(o.Stmts)
	}
	for i := 0; i < o.Stmts; i++ {
		u := Unit{Start: len(g.buf), Line0: g.line, From: len(file.Kids)}
		if i == fill {
			g.filler(file)
		} else if o.Tail && i == o.Stmts-1 && i > 0 {
			g.tail(file)
			u.Swallow = true
		} else {
			g.twice(c, func(ns []*Node) {
				for _, n := range ns {
					file.Add("body", n)
				}
			})
		}
		u.End = len(g.buf)
		u.To = len(file.Kids)
		s.Units = append(s.Units, u)
	}
	if o.NoFinal && len(g.buf) > 0 {
		b := g.buf
		if b[len(b)-1] == '\n' {
			b = b[:len(b)-1]
		}
		if len(b) > 0 && b[len(b)-1] == '\r' {
			b = b[:len(b)-1]
		}
		// a final empty line would disappear
		if len(b) > 0 && b[len(b)-1] != '\n' {
			g.buf = b
			s.Units[len(s.Units)-1].End = len(b)
		}
	}
	s.Src = g.buf
	s.File = file
	s.Lines = strings.Count(string(g.buf), "\n")
	if len(g.buf) > 0 && g.buf[len(g.buf)-1] != '\n' {
		s.Lines++
	}
	return s
}

// Expr draws an expression for ParseExpr.
func Expr(d *draw.D, o Opt) *Script {
	g := &gen{d: d, o: o, line: 1, bol: true, budget: 400}
	g.newFold()
	g.osp()
	n := g.expr(1, o.EDepth+1, 0)
	g.osp()
	if !o.NoFinal {
		g.eol()
	} else {
		g.endPend()
	}
	return &Script{Src: g.buf, File: n, Opt: o, Lines: strings.Count(string(g.buf), "\n") + 1}
}

// ---- output ----

func (g *gen) here() Pos { return Pos{len(g.buf), g.line, len(g.buf) - g.lineStart + 1} }

// at asks for the place of the next character (or line end).
func (g *gen) at(p *Pos) { g.pend = append(g.pend, p) }

func (g *gen) endPend() {
	h := g.here()
	for _, p := range g.pend {
		*p = h
	}
	g.pend = g.pend[:0]
}

// atNext asks for the place of the next character that is not white.
func (g *gen) atNext(p *Pos) { g.pendW = append(g.pendW, p) }

func (g *gen) endPendW() {
	h := g.here()
	for _, p := range g.pendW {
		*p = h
	}
	g.pendW = g.pendW[:0]
}

func (g *gen) newFold() {
	if g.o.Fold > 0 {
		g.foldIn = 1 + g.d.N(2*g.o.Fold)
	}
}

// raw puts characters of a logical line out.
func (g *gen) raw(s string) {
	for len(s) > 0 {
		n := charLen(s)
		if g.o.Fold > 0 && !g.bol && g.foldBan == 0 {
			g.foldIn--
			if g.foldIn <= 0 {
				g.newFold()
				g.lineBreak()
				g.bytes(g.d.Pick("", "  ", "\t", "      ") + "\\")
			}
		}
		if len(g.pend) > 0 {
			g.endPend()
		}
		if len(g.pendW) > 0 && s[0] != ' ' && s[0] != '\t' {
			g.endPendW()
		}
		g.bytes(s[:n])
		g.log = append(g.log, s[:n]...)
		g.bol = false
		s = s[n:]
	}
}

func (g *gen) bytes(s string) { g.buf = append(g.buf, s...) }

func charLen(s string) int {
	b := s[0]
	n := 1
	switch {
	case b >= 0xf0:
		n = 4
	case b >= 0xe0:
		n = 3
	case b >= 0xc2:
		n = 2
	}
	if n > len(s) {
		return 1
	}
	for i := 1; i < n; i++ {
		if s[i] < 0x80 || s[i] >= 0xc0 {
			return 1
		}
	}
	return n
}

func (g *gen) lineBreak() {
	if g.o.CRLF == 1 || g.o.CRLF == 2 && g.d.N(2) == 1 {
		g.bytes("\r")
	}
	g.bytes("\n")
	g.line++
	g.lineStart = len(g.buf)
}

// eol ends the logical line.
func (g *gen) eol() {
	g.endPend()
	g.endPendW()
	g.lineBreak()
	g.log = append(g.log, '\n')
	g.bol = true
}

// sp puts at least one white character out.
func (g *gen) sp() {
	switch g.d.W(20, 2, 1) {
	case 0:
		if v, ok := hints.Number(g.d, 1, 200, 3, 3000); ok {
			g.raw(strings.Repeat(" ", v))
			break
		}
		g.raw(" ")
	case 1:
		g.raw("  ")
	case 2:
		g.raw("\t")
	}
}

// osp puts white space out or not.
func (g *gen) osp() {
	if g.d.P(1, 8) {
		g.sp()
	}
}

// count draws a number of things below n, now and then many more.
func (g *gen) count(n, most int) int {
	if v, ok := hints.Number(g.d, 1, 30, 0, most); ok {
		return v
	}
	k := g.d.N(n)
	if g.d.P(1, 300) {
		k = min(most, g.d.Pick2(9, 17, 33, 65, 130, 260))
	}
	return k
}

// text makes free text without the characters in not.
func (g *gen) text(max int, not string) string {
	n := g.d.N(max + 1)
	var b strings.Builder
	if w, ok := hints.Word(g.d, 1, 8); ok {
		if g.o.Bad || utf8.ValidString(w) {
			for _, c := range strings.FieldsFunc(w, func(r rune) bool { return r == '\n' || r == '\r' || strings.ContainsRune(not, r) }) {
				b.WriteString(c)
			}
			if g.d.P(1, 3) {
				return b.String()
			}
		}
	}
	if v, ok := hints.Number(g.d, 1, 60, 9, 70000); ok && (v < 3000 || g.d.P(1, 8)) {
		return b.String() + strings.Repeat("t", v)
	}
	if max > 1 && g.d.P(1, 400) {
		return b.String() + strings.Repeat(g.d.Pick("t", "uv"), g.d.Pick2(16, 40, 70, 130, 260, 520))
	}
	for i := 0; i < n; i++ {
		c := ""
		switch w := g.d.W(20, 8, 2, 3, 2); {
		case w == 1:
			c = g.d.Pick(" ", ".", ",", "=", "(", ")", "[", "]", "{", "}", "-", ">", "#", ":", "%", "s", "%s", "&", "\t", "~", "|", "'", "\"", "/", "\\", "`", "<")
		case w == 2:
			c = g.d.Pick("\x01", "\x7f", "\x16", "\v", "\x00", "\x1b")
		case w == 3 && g.o.Multi:
			c = g.d.Pick("é", "ß", "日", "本", "𝒳", "\u00a0", "\u2028", "\ufffd", "\ufeff")
		case w == 4 && g.o.Bad:
			c = g.d.Pick("\xff", "\x80", "\xc3", "\xe3\x81", "\xf0\x9f", "\xed\xa0\x80", "\xc0\xaf")
		default:
			c = string(rune('a' + g.d.N(26)))
		}
		if strings.ContainsAny(not, c) && c != "" {
			c = "x"
		}
		b.WriteString(c)
	}
	return b.String()
}

// ---- expressions ----

const (
	fItem  = 1 // later item of a list separated by blanks
	fBrace = 2 // first thing after "{"
)

var idents = []string{"x", "foo", "Bar", "s:baz", "g:x1", "a:arg", "l:v", "b:changed", "w:w", "t:t", "v:count", "pkg#sub#name", "_x", "abc_123", "isnot1", "g:", "if", "endif", "n0"}

func (g *gen) ident() string {
	if w, ok := hints.Ident(g.d, 1, 6); ok {
		switch g.d.N(5) {
		case 0:
			if len(w) > 2 && w != "isnot" {
				return w
			}
		case 1:
			return "s:" + w
		case 2:
			return "g:" + w
		case 3:
			return "x" + w
		}
		return w + "_x"
	}
	if v, ok := hints.Number(g.d, 1, 60, 3, 70000); ok && (v < 3000 || g.d.P(1, 8)) {
		return strings.Repeat("n", v)
	}
	if g.d.P(1, 300) {
		return "s:" + strings.Repeat("n", g.d.Pick2(14, 30, 62, 126, 254, 300)+g.d.N(4))
	}
	return idents[g.d.N(len(idents))]
}

func (g *gen) tokNode(kind, val string) *Node {
	n := &Node{Kind: kind, Val: val}
	g.at(&n.Pos)
	g.raw(val)
	return n
}

var cmpOps = []string{"==", "==?", "==#", "!=", "!=?", "!=#", ">", ">?", ">#", ">=", ">=?", ">=#", "<", "<?", "<#", "<=", "<=?", "<=#", "=~", "=~?", "=~#", "!~", "!~?", "!~#", "is", "is?", "is#", "isnot", "isnot?", "isnot#"}

func (g *gen) expr(lv, dep, fl int) *Node {
	g.budget--
	if dep <= 0 || g.budget <= 0 {
		return g.atom(dep, fl)
	}
	if fl == fBrace {
		n := g.braceAtom(dep)
		if g.d.P(1, 4) {
			return g.binaryTail(n, g.d.Pick(".", "..", "+", "=="), lv, dep)
		}
		return n
	}
	k := g.d.W(8, 2, 1, 1, 3, 4, 2, 2, 9)
	prec := []int{9, 1, 2, 3, 4, 5, 6, 7, 8}[k]
	if prec < lv {
		if fl == fItem {
			return g.postfix(dep, fl)
		}
		return g.paren(dep)
	}
	switch k {
	case 1:
		n := &Node{Kind: "Ternary"}
		c := g.expr(2, dep-1, fl)
		g.sp()
		g.at(&n.Pos)
		g.raw("?")
		g.sp()
		l := g.expr(1, dep-1, 0)
		g.sp()
		g.raw(":")
		g.sp()
		r := g.expr(1, dep-1, 0)
		n.Add("cond", c)
		n.Add("left", l)
		n.Add("right", r)
		return n
	case 2:
		return g.binary("||", 2, dep, fl)
	case 3:
		return g.binary("&&", 3, dep, fl)
	case 4:
		return g.binary(cmpOps[g.d.N(len(cmpOps))], 4, dep, fl)
	case 5:
		return g.binary(g.d.Pick("+", "-", ".", ".."), 5, dep, fl)
	case 6:
		return g.binary(g.d.Pick("*", "/", "%"), 6, dep, fl)
	case 7:
		if fl == fItem {
			return g.postfix(dep, fl)
		}
		n := &Node{Kind: "Unary"}
		n.Val = g.d.Pick("-", "!", "+")
		g.at(&n.Pos)
		g.raw(n.Val)
		g.osp()
		n.Add("x", g.expr(7, dep-1, 0))
		return n
	case 8:
		return g.postfix(dep, fl)
	}
	return g.atom(dep, fl)
}

func (g *gen) binary(op string, prec, dep, fl int) *Node {
	lp := prec
	if prec == 4 { // comparisons do not chain
		lp = 5
	}
	l := g.expr(lp, dep-1, fl)
	n := g.binaryTail(l, op, prec, dep)
	for prec != 4 && g.d.P(1, 6) {
		n = g.binaryTail(n, op, prec, dep)
	}
	return n
}

func (g *gen) binaryTail(l *Node, op string, prec, dep int) *Node {
	n := &Node{Kind: "Binary", Val: op}
	if op == ".." {
		n.Val = "."
	}
	if op == "=" {
		op = "=="
	}
	rp := map[string]int{"||": 2, "&&": 3, "+": 5, "-": 5, ".": 5, "..": 5, "*": 6, "/": 6, "%": 6}[op]
	if rp == 0 {
		rp = 4
	}
	sym := !strings.HasPrefix(op, "is") && op != "." && op != ".."
	if !sym || !g.d.P(1, 4) {
		g.sp()
	}
	g.at(&n.Pos)
	g.raw(op)
	if !(op == "+" || op == "*" || op == "/" || op == "%" || sym && strings.HasSuffix(op, "?") || sym && strings.HasSuffix(op, "#")) || !g.d.P(1, 4) {
		g.sp()
	}
	r := g.expr(rp+1, dep-1, 0)
	n.Add("left", l)
	n.Add("right", r)
	return n
}

func (g *gen) paren(dep int) *Node {
	n := &Node{Kind: "Paren"}
	g.at(&n.Pos)
	g.raw("(")
	g.osp()
	n.Add("x", g.expr(1, dep-1, 0))
	g.osp()
	g.raw(")")
	return n
}

func (g *gen) number() *Node {
	v := g.d.Pick("1", "0", "42", "0x1F", "0XaB", "0b101", "1.5", "3.14e-10", "2.0e+3", "017", "1234567890123456789012", "0z", "0zFF00.11", "0Zdeadbeef")
	if n, ok := hints.Number(g.d, 1, 8, 0, 1<<30); ok {
		v = strconv.Itoa(n)
	}
	k := "NUMBER"
	if strings.HasPrefix(v, "0z") || strings.HasPrefix(v, "0Z") {
		k = "BLOB"
	}
	n := g.tokNode("BasicLit", v)
	n.Val = k + " " + v
	return n
}

func (g *gen) str() *Node {
	v := ""
	if g.d.P(1, 2) {
		v = "'" + strings.ReplaceAll(g.text(8, ""), "'", "''") + "'"
	} else {
		t := g.text(8, "\"\\")
		if g.d.P(1, 3) {
			t += g.d.Pick(`\n`, `\"`, `\\`, `\x41`, `\<CR>`, `\u3042`)
		}
		v = `"` + t + `"`
	}
	n := g.tokNode("BasicLit", v)
	n.Val = "STRING " + v
	return n
}

func (g *gen) braceAtom(dep int) *Node {
	switch g.d.W(3, 3, 2, 1) {
	case 1:
		return g.str()
	case 2:
		return g.tokNode("Ident", g.d.Pick("x", "foo", "abc_123"))
	case 3:
		return g.paren(dep)
	}
	return g.number()
}

func (g *gen) atom(dep, fl int) *Node {
	if fl == fBrace {
		return g.braceAtom(dep)
	}
	switch k := g.d.W(6, 10, 5, 2, 2, 2, 3, 3, 2, 2, 2, 1); k {
	case 1:
		return g.tokNode("Ident", g.ident())
	case 2:
		return g.str()
	case 3:
		v := g.d.Pick("&opt", "&l:et", "&g:ts", "&t_Co")
		n := g.tokNode("BasicLit", v)
		n.Val = "OPTION " + v
		return n
	case 4:
		v := g.d.Pick("$HOME", "$A_1")
		if w, ok := hints.Ident(g.d, 1, 4); ok {
			v = "$" + w
		}
		n := g.tokNode("BasicLit", v)
		n.Val = "ENV " + v
		return n
	case 5:
		v := g.d.Pick("@a", "@/", "@\"", "@0", "@@")
		n := g.tokNode("BasicLit", v)
		n.Val = "REG " + v
		return n
	case 6:
		return g.list(dep)
	case 7:
		return g.dict(dep)
	case 8:
		return g.litDict(dep)
	case 9:
		return g.lambda(dep)
	case 10:
		if dep > 0 {
			return g.curly(dep, fl)
		}
	case 11:
		if fl != fItem && dep > 0 {
			return g.paren(dep)
		}
	}
	return g.number()
}

func (g *gen) comma() {
	g.osp()
	g.raw(",")
	if !g.d.P(1, 6) {
		g.sp()
	}
}

func (g *gen) list(dep int) *Node {
	n := &Node{Kind: "List"}
	g.at(&n.Pos)
	g.raw("[")
	k := 0
	if dep > 0 {
		k = g.count(4, 300)
	}
	g.osp()
	for i := 0; i < k; i++ {
		n.Add("value", g.expr(1, dep-1, 0))
		if i < k-1 || g.d.P(1, 8) {
			g.comma()
		}
	}
	g.osp()
	g.raw("]")
	return n
}

func (g *gen) dict(dep int) *Node {
	n := &Node{Kind: "Dict"}
	g.at(&n.Pos)
	g.raw("{")
	k := 0
	if dep > 0 {
		k = g.count(3, 300)
	}
	for i := 0; i < k; i++ {
		g.osp()
		fl := 0
		if i == 0 {
			fl = fBrace
		}
		n.Add("key", g.expr(2, dep-1, fl))
		g.sp()
		g.raw(":")
		g.sp()
		n.Add("value", g.expr(1, dep-1, 0))
		if i < k-1 || g.d.P(1, 8) {
			g.comma()
		}
	}
	g.osp()
	g.raw("}")
	return n
}

func (g *gen) litDict(dep int) *Node {
	n := &Node{Kind: "Dict"}
	g.at(&n.Pos)
	g.raw("#{")
	k := 0
	if dep > 0 {
		k = g.count(3, 300)
	}
	for i := 0; i < k; i++ {
		g.osp()
		key := g.d.Pick("a", "key", "b-c", "x1", "_u", "is")
		if w, ok := hints.Ident(g.d, 1, 6); ok {
			key = w
		}
		kn := g.tokNode("BasicLit", key)
		kn.Val = "STRING '" + key + "'"
		n.Add("key", kn)
		g.osp()
		g.raw(":")
		g.sp()
		n.Add("value", g.expr(1, dep-1, 0))
		if i < k-1 || g.d.P(1, 8) {
			g.comma()
		}
	}
	g.osp()
	g.raw("}")
	return n
}

func (g *gen) lambda(dep int) *Node {
	n := &Node{Kind: "Lambda"}
	g.at(&n.Pos)
	g.raw("{")
	k := g.count(3, 40)
	names := []string{"x", "y", "val"}
	for i := 0; i < k; i++ {
		for i >= len(names) {
			names = append(names, "v"+strconv.Itoa(len(names)))
		}
		n.Add("param", g.tokNode("Ident", names[i]))
		if i < k-1 {
			g.raw(",")
			g.osp()
		}
	}
	if g.d.P(1, 6) {
		if k > 0 {
			g.raw(",")
			g.sp()
		}
		n.Add("param", g.tokNode("Ident", "..."))
	}
	g.osp()
	g.raw("->")
	g.osp()
	n.Add("expr", g.expr(1, dep-1, 0))
	g.osp()
	g.raw("}")
	return n
}

// curly makes a name with at least one {expr} part.
func (g *gen) curly(dep, fl int) *Node {
	n := &Node{Kind: "CurlyName"}
	g.at(&n.Pos)
	if fl != fItem && g.d.P(1, 6) {
		n.Add("part", g.tokNode("CurlyLit", g.d.Pick("<SID>", "<sid>")))
		if g.d.P(1, 2) {
			n.Add("part", g.tokNode("CurlyLit", "name"))
			return n
		}
	} else if g.d.P(2, 3) {
		n.Add("part", g.tokNode("CurlyLit", g.d.Pick("pre", "s:v", "g:")))
	}
	k := 1 + g.count(2, 40)
	for i := 0; i < k; i++ {
		p := &Node{Kind: "CurlyExpr"}
		g.at(&p.Pos)
		g.raw("{")
		g.osp()
		p.Add("value", g.expr(2, dep-1, fBrace))
		g.osp()
		g.raw("}")
		n.Add("part", p)
		if g.d.P(1, 2) {
			n.Add("part", g.tokNode("CurlyLit", g.d.Pick("_tail", "1", "#a")))
		}
	}
	return n
}

func (g *gen) args(n *Node, dep int) {
	g.raw("(")
	k := g.d.N(2)
	if dep > 0 {
		k = g.count(4, 20)
	}
	g.osp()
	for i := 0; i < k; i++ {
		n.Add("arg", g.expr(1, dep-1, 0))
		if i < k-1 || g.d.P(1, 10) {
			g.comma()
		}
	}
	g.osp()
	g.raw(")")
}

func (g *gen) postfix(dep, fl int) *Node {
	var n *Node
	switch g.d.W(8, 2) {
	case 0:
		n = g.tokNode("Ident", g.d.Pick("x", "foo", "s:baz", "pkg#sub#name", "a:arg"))
	default:
		n = g.atom(dep-1, fl)
	}
	k := 1 + g.d.W(5, 3, 1)
	if v, ok := hints.Number(g.d, 1, 30, 1, 300); ok {
		k = v
	} else if g.d.P(1, 400) {
		k = g.d.Pick2(9, 17, 33, 65, 130)
	}
	for i := 0; i < k; i++ {
		n = g.suffix(n, dep, true)
	}
	return n
}

func dotable(k string) bool {
	switch k {
	case "Ident", "CurlyName", "Dict", "Subscript", "Call", "Dot":
		return true
	}
	return false
}

func (g *gen) suffix(n *Node, dep int, call bool) *Node {
	w := g.d.W(3, 2, 2, 2, 1)
	if !call && (w == 0 || w == 4) {
		w = 1
	}
	if w == 3 && !dotable(n.Kind) {
		w = 1
	}
	switch w {
	case 0:
		m := &Node{Kind: "Call"}
		m.Add("fun", n)
		g.at(&m.Pos)
		g.args(m, dep-1)
		return m
	case 2:
		m := &Node{Kind: "Slice"}
		m.Add("x", n)
		g.at(&m.Pos)
		g.raw("[")
		g.osp()
		if g.d.P(2, 3) {
			m.Add("low", g.expr(2, dep-2, 0))
			g.sp()
		}
		g.raw(":")
		if g.d.P(2, 3) {
			g.sp()
			m.Add("high", g.expr(2, dep-2, 0))
		}
		g.osp()
		g.raw("]")
		return m
	case 3:
		m := &Node{Kind: "Dot"}
		m.Add("left", n)
		g.at(&m.Pos)
		g.raw(".")
		m.Add("right", g.tokNode("Ident", g.d.Pick("name", "k1", "0", "if")))
		return m
	case 4:
		m := &Node{Kind: "Method"}
		m.Add("left", n)
		g.osp()
		g.raw("->")
		if g.d.P(1, 4) {
			m.Add("method", g.lambda(dep-1))
		} else {
			m.Add("method", g.tokNode("Ident", g.d.Pick("len", "s:each", "a#b")))
		}
		g.at(&m.Pos)
		g.args(m, dep-2)
		return m
	}
	m := &Node{Kind: "Subscript"}
	m.Add("left", n)
	g.at(&m.Pos)
	g.raw("[")
	g.osp()
	m.Add("right", g.expr(1, dep-2, 0))
	g.osp()
	g.raw("]")
	return m
}

// lvalue makes something that can be assigned to.
func (g *gen) lvalue(dep int) *Node {
	switch g.d.W(10, 3, 2, 1, 1, 1) {
	case 1:
		n := g.tokNode("Ident", g.d.Pick("x", "s:dict", "a:v"))
		k := 1 + g.d.N(2)
		for i := 0; i < k; i++ {
			n = g.suffix(n, dep, false)
		}
		return n
	case 2:
		return g.curlyLv(dep)
	case 3:
		n := g.tokNode("BasicLit", g.d.Pick("&opt", "&l:et"))
		n.Val = "OPTION " + n.Val
		return n
	case 4:
		n := g.tokNode("BasicLit", "$ENV_V")
		n.Val = "ENV " + n.Val
		return n
	case 5:
		n := g.tokNode("BasicLit", g.d.Pick("@a", "@/"))
		n.Val = "REG " + n.Val
		return n
	}
	return g.tokNode("Ident", g.d.Pick("x", "foo", "s:baz", "g:x1", "l:v", "b:changed", "_x", "g:a#b"))
}

func (g *gen) curlyLv(dep int) *Node {
	n := &Node{Kind: "CurlyName"}
	g.at(&n.Pos)
	if g.d.P(1, 2) {
		n.Add("part", g.tokNode("CurlyLit", g.d.Pick("pre", "s:v")))
	}
	p := &Node{Kind: "CurlyExpr"}
	g.at(&p.Pos)
	g.raw("{")
	p.Add("value", g.expr(2, dep-1, fBrace))
	g.raw("}")
	n.Add("part", p)
	if g.d.P(1, 2) {
		n.Add("part", g.tokNode("CurlyLit", "post"))
	}
	return n
}

// ---- statements ----

type ctx struct {
	fn, loop, top bool
	depth         int
}

// trail kinds
const (
	trBar     = 1 // may be followed by '|'
	trComment = 2 // may be followed by a comment
)

// head writes what comes before and including a command's name.
type head struct {
	ea   *Ea
	pos  *Pos
	mark int
	mods int // 0 plain, 1 modifiers allowed, 2 modifiers and range allowed
}

var modNames = [][2]string{{"silent", "silent(bang=0)"}, {"sil!", "silent(bang=1)"}, {"silent!", "silent(bang=1)"}, {"keepalt", "keepalt"}, {"noautocmd", "noautocmd"}, {"noa", "noautocmd"}, {"verbose", "verbose(count=1)"}, {"3verbose", "verbose(count=3)"}, {"12 verb", "verbose(count=12)"}, {"tab", "tab"}, {"2tab", "tab(count=2)"}, {"botright", "botright"}, {"bo", "botright"}, {"vertical", "vertical"}, {"sandbox", "sandbox"}, {"unsilent", "unsilent"}, {"aboveleft", "aboveleft"}, {"kee", "keepmarks"}, {"confirm", "confirm"}, {"topleft", "topleft"}, {"lockmarks", "lockmarks"}}

var ranges = [][2]string{{"%", "%"}, {"1", "1"}, {"1,5", "1|,|5"}, {".", "."}, {"$", "$"}, {".,$", ".|,|$"}, {"'a,'b", "'a|,|'b"}, {"'<,'>", "'<|,|'>"}, {"/pat/", "pat"}, {"/a[/]b/,$", "a[/]b|,|$"}, {"?back?", "back"}, {"1;+2", "1|;|+2"}, {".-1,.+3", ".|-1|,|.|+3"}, {"%", "%"}, {"*", "*"}, {"10,/x\\/y/", "10|,|x\\/y"}}

func (g *gen) lead() {
	switch g.d.W(14, 4, 2, 1, 1) {
	case 1:
		g.raw("  ")
	case 2:
		g.raw("\t")
	case 3:
		g.raw(":")
	case 4:
		g.raw(" : ")
	}
}

func (g *gen) head(names string, pos *Pos, mods int) (*Ea, int) {
	ea := &Ea{}
	g.at(&ea.Line)
	mark := len(g.log)
	if mods >= 1 && g.d.P(1, 10) {
		k := 1 + g.count(2, 40)
		for i := 0; i < k; i++ {
			m := modNames[g.d.N(len(modNames))]
			g.raw(m[0])
			g.sp()
			ea.Mods += m[1] + ";"
			if strings.HasSuffix(m[0], "!") {
				break
			}
		}
	}
	if mods >= 2 && g.d.P(1, 6) {
		r := ranges[g.d.N(len(ranges))]
		g.raw(r[0])
		ea.Range = r[1]
		g.osp()
	}
	if names == "" { // no command
		return ea, mark
	}
	g.at(&ea.Cmd)
	g.at(pos)
	ns := strings.Split(names, " ")
	nm := ns[0]
	if len(ns) > 1 && g.d.P(1, 4) {
		nm = ns[1+g.d.N(len(ns)-1)]
	}
	g.raw(nm)
	ea.Name = ns[0]
	ea.HasArg = true
	return ea, mark
}

// cmd writes the name of an expression command and the white space after it.
func (g *gen) cmd(kind, names string, mods int) *Node {
	n := &Node{Kind: kind}
	g.lead()
	n.Ea, _ = g.head(names, &n.Pos, mods)
	return n
}

func (g *gen) bang(n *Node) {
	if g.d.P(1, 4) {
		g.raw("!")
		n.Ea.Bang = true
	}
}

func (g *gen) argSp(n *Node) {
	g.sp()
	g.at(&n.Ea.Arg)
}

func (g *gen) argNone(n *Node) {
	g.atNext(&n.Ea.Arg)
}

// trail ends a command. It returns the comment, if one was added, and whether
// the line goes on after a bar.
func (g *gen) trail(how int) (*Node, bool) {
	if how&trBar != 0 && !g.o.OneLine && g.d.P(1, 10) {
		g.raw(" | ")
		return nil, true
	}
	g.osp()
	if how&trComment != 0 && g.d.P(1, 8) {
		c := g.comment()
		g.eol()
		return c, false
	}
	g.eol()
	return nil, false
}

func (g *gen) comment() *Node {
	n := &Node{Kind: "Comment"}
	g.at(&n.Pos)
	n.Val = g.text(12, "")
	g.raw("\"" + n.Val)
	return n
}

// logical writes statements up to the end of a line (or of a block).
func (g *gen) logical(c ctx, add func([]*Node)) {
	for {
		ns, more := g.stmt(c)
		add(ns)
		if !more {
			return
		}
	}
}

// twice writes statements and now and then repeats them word for word.
func (g *gen) twice(c ctx, add func([]*Node)) {
	from := len(g.d.Rec)
	g.logical(c, add)
	to := len(g.d.Rec)
	for m := 0; m < 3 && g.d.P(1, 16); m++ {
		d := g.d
		g.d = draw.Replay(append([]uint32{}, d.Rec[from:to]...))
		g.logical(c, add)
		g.d = d
	}
}

func (g *gen) block(c ctx, n *Node, role string) {
	c.top = false
	c.depth--
	k := g.count(4, 260)
	for i := 0; i < k; i++ {
		g.twice(c, func(ns []*Node) {
			for _, m := range ns {
				n.Add(role, m)
			}
		})
	}
}

// open ends a block's head line; a comment there is the first of the body.
func (g *gen) open(n *Node, how int) {
	if cm, _ := g.trail(how); cm != nil {
		n.Add("body", cm)
	}
}

func (g *gen) after(n *Node, how int) ([]*Node, bool) {
	cm, more := g.trail(how)
	if cm != nil {
		return []*Node{n, cm}, false
	}
	return []*Node{n}, more
}

func (g *gen) stmt(c ctx) ([]*Node, bool) {
	e := g.o.EDepth
	k := g.d.W(6, 9, 6, 5, 2, 2, 2, 3, 8, 4, 3, 3, 3, 4, 3, 2, 2, 2, 2, 2, 2)
	if c.depth <= 0 && k >= 10 && k <= 14 {
		k -= 8
	}
	if g.budget <= 0 {
		k = 0
	}
	switch k {
	case 1:
		return g.let()
	case 2: // echo family
		nm := g.d.Pick("echo ec", "echomsg echom", "echon", "echoerr echoe", "execute exe")
		kind := "EchoCmd"
		if strings.HasPrefix(nm, "exe") {
			kind = "Execute"
		}
		n := g.cmd(kind, strings.Replace(nm, "echoerr echoe", "echoerr", 1), 1)
		if kind == "EchoCmd" {
			n.Val = n.Ea.Name
		}
		m := g.count(4, 260)
		if m == 0 {
			g.argNone(n)
		} else {
			g.argSp(n)
		}
		for i := 0; i < m; i++ {
			fl := 0
			if i > 0 {
				g.sp()
				fl = fItem
			}
			n.Add("expr", g.expr(1, e, fl))
		}
		return g.after(n, trBar)
	case 3: // call
		n := g.cmd("ExCall", "call cal", 2)
		g.argSp(n)
		f := g.tokNode("Ident", g.d.Pick("foo", "s:bar", "pkg#fn", "g:D"))
		for g.d.P(1, 4) {
			f = g.suffix(f, e, true)
		}
		m := &Node{Kind: "Call"}
		m.Add("fun", f)
		g.at(&m.Pos)
		g.args(m, e)
		n.Add("call", m)
		return g.after(n, trBar|trComment)
	case 4: // unlet, lockvar, unlockvar
		var n *Node
		if w := g.d.N(3); w == 0 {
			n = g.cmd("UnLet", "unlet unl", 1)
			g.bang(n)
			g.argSp(n)
		} else {
			if w == 1 {
				n = g.cmd("LockVar", "lockvar lockv", 1)
			} else {
				n = g.cmd("UnLockVar", "unlockvar unlo", 1)
			}
			g.bang(n)
			g.argSp(n)
			n.Val = "0"
			if g.d.P(1, 3) {
				n.Val = g.d.Pick("1", "2", "100", "007")
				g.raw(n.Val)
				v, _ := strconv.Atoi(n.Val)
				n.Val = strconv.Itoa(v)
				g.sp()
			}
		}
		m := 1 + g.count(3, 260)
		for i := 0; i < m; i++ {
			if i > 0 {
				g.sp()
			}
			n.Add("item", g.lvalueNoReg(e))
		}
		return g.after(n, trBar|trComment)
	case 5: // throw, eval
		var n *Node
		if g.d.N(2) == 0 {
			n = g.cmd("Throw", "throw th", 1)
		} else {
			n = g.cmd("Eval", "eval ev", 1)
		}
		g.argSp(n)
		n.Add("expr", g.expr(1, e, 0))
		return g.after(n, trBar|trComment)
	case 6: // echohl
		n := g.cmd("Echohl", "echohl echoh", 1)
		g.argSp(n)
		n.Val = g.d.Pick("None", "WarningMsg", "X\\y", "Err%sMsg")
		g.raw(n.Val)
		mark := len(g.log)
		cm, more := g.trail(trBar | trComment)
		rest := string(g.log[mark:])
		if i := strings.IndexAny(rest, "|\"\n"); i >= 0 {
			rest = rest[:i]
		}
		n.Val += rest
		if cm != nil {
			return []*Node{n, cm}, more
		}
		return []*Node{n}, more
	case 7:
		n := g.cmd("DelFunction", "delfunction delf", 1)
		g.bang(n)
		g.argSp(n)
		n.Add("name", g.funcName(e))
		return g.after(n, trBar|trComment)
	case 8, 9:
		return g.excmd()
	case 10:
		return g.ifStmt(c)
	case 11:
		n := g.cmd("While", "while wh", 1)
		g.argSp(n)
		n.Add("cond", g.expr(1, e, 0))
		g.open(n, trBar|trComment)
		c.loop = true
		g.block(c, n, "body")
		return g.closing(n, "EndWhile", "endwhile endw")
	case 12:
		n := g.cmd("For", "for", 1)
		g.argSp(n)
		g.lhs(n, e)
		g.sp()
		g.raw("in")
		g.sp()
		n.Add("right", g.expr(1, e, 0))
		g.open(n, trBar|trComment)
		c.loop = true
		g.block(c, n, "body")
		return g.closing(n, "EndFor", "endfor endfo")
	case 13:
		return g.function(c)
	case 14:
		return g.try(c)
	case 15:
		if c.fn {
			n := g.cmd("Return", "return retu", 1)
			if g.d.P(1, 4) {
				g.argNone(n)
				return g.after(n, trBar)
			}
			g.argSp(n)
			n.Add("result", g.expr(1, e, 0))
			return g.after(n, trBar|trComment)
		}
	case 16:
		if c.loop {
			var n *Node
			if g.d.N(2) == 0 {
				n = g.cmd("Break", "break brea", 1)
			} else {
				n = g.cmd("Continue", "continue con", 1)
			}
			g.argNone(n)
			return g.after(n, trBar|trComment)
		}
	case 17:
		return g.heredoc()
	case 18: // blank line
		g.lead()
		g.eol()
		return nil, false
	case 19:
		return g.multi()
	case 20: // modifiers or a range alone
		g.lead()
		n := &Node{Kind: "Excmd"}
		ea := &Ea{}
		n.Ea = ea
		g.at(&ea.Line)
		mark := len(g.log)
		if g.d.N(2) == 0 {
			m := modNames[g.d.N(len(modNames))]
			g.raw(m[0])
			ea.Mods = m[1] + ";"
		} else {
			r := ranges[g.d.N(len(ranges)-2)]
			g.raw(r[0])
			ea.Range = r[1]
		}
		remark := g.d.P(1, 6)
		if remark || g.d.P(1, 8) {
			g.raw(" ")
		}
		end := len(g.log)
		g.at(&ea.Cmd)
		g.at(&n.Pos)
		n.Val = string(g.log[mark:end])
		if remark {
			c := g.comment()
			g.eol()
			return []*Node{n, c}, false
		}
		g.eol()
		return []*Node{n}, false
	}
	if g.d.P(1, 2) {
		n := g.cmd("EchoCmd", "echo", 0)
		n.Val = "echo"
		g.argSp(n)
		n.Add("expr", g.number())
		return g.after(n, trBar)
	}
	g.lead()
	n := g.comment()
	g.eol()
	return []*Node{n}, false
}

func (g *gen) lvalueNoReg(e int) *Node {
	if g.d.P(1, 4) {
		return g.suffix(g.tokNode("Ident", g.d.Pick("x", "s:dict")), e, false)
	}
	return g.tokNode("Ident", g.d.Pick("x", "foo", "s:baz", "g:x1", "l:v"))
}

func (g *gen) lhs(n *Node, e int) {
	if g.d.P(1, 3) {
		g.raw("[")
		k := 1 + g.count(3, 260)
		for i := 0; i < k; i++ {
			n.Add("list", g.lvalue(e-1))
			if i < k-1 {
				g.comma()
			}
		}
		if g.d.P(1, 4) {
			g.raw(";")
			if g.d.P(1, 2) {
				g.sp()
			}
			n.Add("rest", g.lvalue(e-1))
		}
		g.osp()
		g.raw("]")
		return
	}
	n.Add("left", g.lvalue(e-1))
}

func (g *gen) let() ([]*Node, bool) {
	e := g.o.EDepth
	if g.d.P(1, 6) {
		n := g.cmd("Let", "const cons", 1)
		g.argSp(n)
		n.Val = "="
		if g.d.P(1, 4) {
			g.raw("[")
			for i, k := 0, 1+g.d.N(3); i < k; i++ {
				if i > 0 {
					g.comma()
				}
				n.Add("list", g.tokNode("Ident", g.d.Pick("s:C", "g:k", "x")))
			}
			g.osp()
			g.raw("]")
		} else {
			n.Add("left", g.tokNode("Ident", g.d.Pick("s:C", "g:k", "x")))
		}
		g.sp()
		g.raw("=")
		g.sp()
		n.Add("right", g.expr(1, e, 0))
		return g.after(n, trBar|trComment)
	}
	n := g.cmd("Let", "let", 1)
	g.argSp(n)
	g.lhs(n, e)
	n.Val = "="
	if g.d.P(1, 3) {
		n.Val = g.d.Pick("+=", "-=", ".=", "..=", "*=", "/=", "%=")
	}
	g.sp()
	g.raw(n.Val)
	if g.d.P(1, 8) {
		// no blank after the operator
		n.Add("right", g.number())
	} else {
		g.sp()
		n.Add("right", g.expr(1, e, 0))
	}
	return g.after(n, trBar|trComment)
}

func (g *gen) bodyLine(not string) string {
	for {
		s := g.text(14, "")
		t := strings.TrimLeft(s, " \t\v\f\r\n\x85\xa0")
		if strings.HasPrefix(t, "\\") || s == not || strings.TrimRight(s, "\r") != s {
			s = "x" + s
		}
		if s == not {
			s += "y"
		}
		return s
	}
}

func (g *gen) heredoc() ([]*Node, bool) {
	n := g.cmd("Let", "let", 1)
	n.Val = "=<<"
	g.argSp(n)
	n.Add("left", g.tokNode("Ident", g.d.Pick("x", "s:text")))
	g.sp()
	h := &Node{Kind: "Heredoc"}
	g.at(&h.Pos)
	g.raw("=<<")
	g.sp()
	if g.d.P(1, 2) {
		f := g.tokNode("BasicLit", "trim")
		f.Val = "STRING trim"
		h.Add("flag", f)
		g.sp()
	}
	h.Val = g.d.Pick("END", "EOF", "_X1", "Marker")
	if w, ok := hints.Ident(g.d, 1, 6); ok {
		h.Val = "M" + w
		if w[0] < 'a' {
			h.Val = w
		}
	}
	g.raw(h.Val)
	g.osp()
	g.eol()
	k := g.count(4, 400)
	for i := 0; i < k; i++ {
		l := &Node{Kind: "BasicLit"}
		g.at(&l.Pos)
		v := g.bodyLine(h.Val)
		g.raw(v)
		l.Val = "STRING " + v
		h.Add("line", l)
		g.eol()
	}
	g.raw(h.Val)
	g.eol()
	n.Add("right", h)
	return []*Node{n}, false
}

// commands that take the rest of the line, or up to a bar or a comment
type plain struct {
	names string
	args  []string
	bar   bool // TRLBAR
	notrl bool // no trailing comment
	bang  bool
	rng   bool
	misc  []string // expected Misc for the args, parallel
}

var plains = []plain{
	{names: "set se", args: []string{"nocompatible", "ts=8 sw=4", "nu!", "stl=%f\\ %m"}, bar: true},
	{names: "quit q", args: []string{""}, bar: true, bang: true},
	{names: "normal norm", args: []string{"ggVG", "a|b", "iтекст"}, notrl: true, bang: true, rng: true},
	{names: "autocmd au", args: []string{"BufRead *.vim echo 'x' | echo \"y", "FileType vim set ts=2"}, notrl: true, bang: true},
	{names: "nnoremap nn", args: []string{"<silent> x :echo 1<CR>", "a \"b"}, bar: true, notrl: true},
	{names: "highlight hi", args: []string{"Normal guifg=red", "link A B"}, bar: true, bang: true},
	{names: "source so", args: []string{"$VIMRUNTIME/a.vim", "x y"}, bar: true, bang: true},
	{names: "colorscheme colo", args: []string{"desert"}, bar: true},
	{names: "augroup aug", args: []string{"END", "name"}, bar: true, bang: true},
	{names: "runtime ru", args: []string{"! a.vim", "syntax/*.vim"}, bar: true},
	{names: "write w", args: []string{"", "file", ">> file"}, bar: true, bang: true, rng: true, misc: []string{"", "", "append=1"}},
	{names: "edit e", args: []string{"f", "++enc=utf-8 f", "++ff=dos f", "+10 f", "++bad=keep f", "++bin ++edit x", "+ f"}, bar: true, bang: true,
		misc: []string{"", "enc=utf-8", "ff=dos", "cmd=10", "bad=keep", "bin=1,edit=1", "cmd=$"}},
	{names: "read", args: []string{"file", "!ls | cat \"x"}, bar: true, rng: true, misc: []string{"", "filter"}},
	{names: "substitute", args: []string{"/a/b/g", "/x|y/\"z/"}, rng: true},
	{names: "global", args: []string{"/pat/d|p", "/x/s//y/"}, bang: true, rng: true},
	{names: "delete d de del dele delet", args: []string{"", "x 3"}, bar: true, rng: true},
	{names: "command com", args: []string{"-nargs=* Foo call s:foo(<q-args>) | x", "Bar"}, notrl: true, bang: true},
	{names: "syntax sy", args: []string{"on", "match X /a|b/", "region Y start=/\"/ end='x' contained"}, bar: true},
	{names: "wincmd winc", args: []string{"w", "gf", "="}, bar: true, rng: true},
	{names: "buffer b", args: []string{"3", "#"}, bar: true, bang: true, rng: true},
	{names: "sleep sl", args: []string{"100m"}, bar: true},
	{names: "mark ma", args: []string{"x"}, bar: true},
	{names: "vimgrep vim", args: []string{"/a|\"b/gj *.c", "word f"}, bar: true, notrl: true},
	{names: "tabnew", args: []string{"", "x"}, bar: true, bang: true},
	{names: "FooBar", args: []string{"", "a b", "x | y \"z"}, bang: true, rng: true, notrl: true},
	{names: "Zed1", args: []string{"arg"}, notrl: true},
	{names: "lua", args: []string{"print('a | b')", "x = \"q\""}, notrl: true, rng: true},
	{names: "python py", args: []string{"print 'x' | y"}, notrl: true, rng: true},
	{names: "let", args: []string{"", "x", "x y"}, notrl: true},
	{names: "function fu", args: []string{"", "/pat", "Foo", "s:bar"}, bang: true, notrl: true},
}

// longDel tells whether the log ends in a form of :delete that a flag can follow at once.
func longDel(log []byte) bool {
	for _, f := range []string{"d", "de", "del"} {
		if strings.HasSuffix(string(log), f) {
			return false
		}
	}
	return true
}

func (g *gen) excmd() ([]*Node, bool) {
	p := plains[g.d.N(len(plains))]
	n := &Node{Kind: "Excmd"}
	g.lead()
	mods := 1
	if p.rng {
		mods = 2
	}
	var mark int
	n.Ea, mark = g.head(p.names, &n.Pos, mods)
	if p.bang {
		g.bang(n)
	}
	ai := g.d.N(len(p.args))
	arg := p.args[ai]
	if p.misc != nil {
		n.Ea.Misc = p.misc[ai]
	}
	if n.Ea.Name == "runtime" && strings.HasPrefix(arg, "!") {
		arg = arg[2:]
	}
	spaced := arg != ""
	if n.Ea.Name == "function" && arg == "/pat" || n.Ea.Name == "substitute" || n.Ea.Name == "global" {
		spaced = g.d.P(1, 4)
	}
	flag := ""
	if n.Ea.Name == "delete" && longDel(g.log) && g.d.P(1, 2) { // flags can follow at once
		g.at(&n.Ea.Arg)
		flag = g.d.Pick("l", "p")
		g.raw(flag)
		if spaced {
			g.sp()
		}
	} else if spaced {
		g.argSp(n)
	} else {
		g.atNext(&n.Ea.Arg)
	}
	g.raw(arg)
	arg = flag + arg
	if !p.bar { // the rest of the line
		if g.d.P(1, 6) || arg == "" && g.d.P(1, 3) {
			g.sp()
		}
		n.Val = string(g.log[mark:])
		g.eol()
		return []*Node{n}, false
	}
	how := trBar
	if !p.notrl {
		how |= trComment
	}
	if n.Ea.Misc == "filter" {
		n.Val = string(g.log[mark:])
		g.eol()
		return []*Node{n}, false
	}
	if n.Ea.Name == "runtime" || n.Ea.Name == "syntax" || n.Ea.Name == "wincmd" {
		how = trBar
	}
	end := len(g.log)
	cm, more := g.trail(how)
	if arg == "" || p.notrl || n.Ea.Name == "syntax" { // white space before the bar or the end belongs to the text
		rest := g.log[end:]
		i := strings.IndexAny(string(rest), "|\n\"")
		end += i
	}
	n.Val = string(g.log[mark:end])
	if cm != nil {
		return []*Node{n, cm}, more
	}
	return []*Node{n}, more
}

// multi makes commands that take the following lines.
func (g *gen) multi() ([]*Node, bool) {
	n := &Node{Kind: "Excmd"}
	g.lead()
	var mark int
	if g.d.N(2) == 0 {
		n.Ea, mark = g.head(g.d.Pick("append a", "insert i"), &n.Pos, 1)
		g.bang(n)
		g.at(&n.Ea.Arg)
		g.eol()
		k := g.count(3, 300)
		for i := 0; i < k; i++ {
			g.raw(g.bodyLine("."))
			g.eol()
		}
		g.raw(".")
	} else {
		n.Ea, mark = g.head(g.d.Pick("python py", "lua", "ruby rub", "perl pe", "tcl tc", "mzscheme mz", "py3", "python3"), &n.Pos, 1)
		g.argSp(n)
		g.raw("<<")
		g.osp()
		m := g.d.Pick("EOF", "END", "")
		g.raw(m)
		if m == "" {
			m = "."
		}
		g.eol()
		k := g.count(3, 300)
		for i := 0; i < k; i++ {
			g.raw(g.bodyLine(m))
			g.eol()
		}
		g.raw(m)
	}
	n.Val = string(g.log[mark:])
	g.eol()
	return []*Node{n}, false
}

// tail makes a command that swallows the rest of the script.
func (g *gen) tail(file *Node) {
	n := &Node{Kind: "Excmd"}
	g.lead()
	var mark int
	switch g.d.N(3) {
	case 0:
		n.Ea, mark = g.head("finish fini", &n.Pos, 0)
		g.at(&n.Ea.Arg)
		n.Val = string(g.log[mark:])
		g.eol()
		for i, k := 0, g.count(3, 300); i < k; i++ {
			g.raw("not ( vim {" + g.text(10, "\\"))
			g.eol()
		}
	case 1:
		n.Ea, mark = g.head("loadkeymap loadk", &n.Pos, 0)
		g.at(&n.Ea.Arg)
		g.eol()
		for i, k := 0, g.count(3, 300); i < k; i++ {
			g.raw("a " + g.text(6, "\\"))
			g.eol()
		}
		n.Val = strings.TrimSuffix(string(g.log[mark:]), "\n")
	case 2:
		n.Ea, mark = g.head("append", &n.Pos, 0)
		g.at(&n.Ea.Arg)
		g.eol()
		for i, k := 0, g.count(3, 300); i < k; i++ {
			g.raw("text " + g.text(6, "\\"))
			g.eol()
		}
		n.Val = strings.TrimSuffix(string(g.log[mark:]), "\n")
	}
	file.Add("body", n)
}

func (g *gen) closing(n *Node, kind, names string) ([]*Node, bool) {
	e := g.cmd(kind, names, 0)
	g.argNone(e)
	n.Add("end", e)
	return g.after(n, trBar|trComment)
}

func (g *gen) ifStmt(c ctx) ([]*Node, bool) {
	e := g.o.EDepth
	n := g.cmd("If", "if", 1)
	g.argSp(n)
	n.Add("cond", g.expr(1, e, 0))
	g.open(n, trBar|trComment)
	g.block(c, n, "body")
	for g.d.P(1, 4) {
		m := g.cmd("ElseIf", "elseif elsei", 0)
		g.argSp(m)
		m.Add("cond", g.expr(1, e, 0))
		g.open(m, trBar|trComment)
		g.block(c, m, "body")
		n.Add("elseif", m)
	}
	if g.d.P(1, 3) {
		m := g.cmd("Else", "else el", 0)
		g.argNone(m)
		g.open(m, trBar|trComment)
		g.block(c, m, "body")
		n.Add("else", m)
	}
	return g.closing(n, "EndIf", "endif en")
}

func (g *gen) try(c ctx) ([]*Node, bool) {
	n := g.cmd("Try", "try", 1)
	g.argNone(n)
	g.open(n, trBar|trComment)
	g.block(c, n, "body")
	for g.d.P(1, 2) {
		m := g.cmd("Catch", "catch cat", 0)
		if g.d.P(2, 3) {
			g.argSp(m)
			m.Val = g.d.Pick("^Vim", "E123:", "a[/]b", "", "x\\/y", "100%s")
			g.raw("/" + m.Val + "/")
		} else {
			g.argNone(m)
		}
		g.open(m, trBar|trComment)
		g.block(c, m, "body")
		n.Add("catch", m)
	}
	if g.d.P(1, 3) {
		m := g.cmd("Finally", "finally fina", 0)
		g.argNone(m)
		g.open(m, trBar|trComment)
		g.block(c, m, "body")
		n.Add("finally", m)
	}
	return g.closing(n, "EndTry", "endtry endt")
}

func (g *gen) funcName(e int) *Node {
	if g.d.P(1, 6) {
		n := &Node{Kind: "Dot"}
		n.Add("left", g.tokNode("Ident", g.d.Pick("s:obj", "dict", "g:D")))
		g.at(&n.Pos)
		g.raw(".")
		n.Add("right", g.tokNode("Ident", "method"))
		return n
	}
	if g.d.P(1, 8) {
		n := &Node{Kind: "CurlyName"}
		g.at(&n.Pos)
		n.Add("part", g.tokNode("CurlyLit", "<SID>"))
		n.Add("part", g.tokNode("CurlyLit", "fn"))
		return n
	}
	g.fnN++
	return g.tokNode("Ident", g.d.Pick("Foo", "s:bar", "pkg#fn", "g:Baz", "F")+fmt.Sprint(g.fnN))
}

func (g *gen) function(c ctx) ([]*Node, bool) {
	e := g.o.EDepth
	n := g.cmd("Function", "function fu fun", 1)
	g.bang(n)
	g.argSp(n)
	n.Add("name", g.funcName(e))
	if g.d.P(1, 10) {
		g.raw(" ")
	}
	g.raw("(")
	g.osp()
	k := g.count(4, 40)
	def := false
	names := []string{"a", "b_1", "Cc"}
	for i := 0; i < k; i++ {
		for i >= len(names) {
			names = append(names, "p"+strconv.Itoa(len(names)))
		}
		n.Add("param", g.tokNode("Ident", names[i]))
		if def || g.d.P(1, 4) {
			def = true
			g.osp()
			g.raw("=")
			g.osp()
			n.Add("default", g.expr(1, e-1, 0))
		}
		if i < k-1 {
			g.raw(",")
			g.osp()
		}
	}
	if g.d.P(1, 4) {
		if k > 0 {
			g.raw(",")
			g.sp()
		}
		n.Add("param", g.tokNode("Ident", "..."))
	} else if k > 0 && g.d.P(1, 8) {
		g.raw(",")
		g.osp()
	}
	if k == 0 || !def {
		g.osp()
	}
	g.raw(")")
	at := 0
	for i, a := range []string{"range", "abort", "dict", "closure"} {
		if g.d.P(1, 5) {
			g.sp()
			g.raw(a)
			at |= 1 << i
		}
	}
	n.Val = strconv.Itoa(at)
	g.open(n, trBar|trComment)
	c.fn = true
	c.loop = false
	g.block(c, n, "body")
	m := g.cmd("EndFunction", "endfunction endf", 0)
	if g.d.P(1, 6) {
		g.argSp(m)
		g.raw(g.d.Pick("\" swallowed", "| echo (", "Foo"))
	} else {
		g.argNone(m)
	}
	g.eol()
	n.Add("end", m)
	return []*Node{n}, false
}

// most is the largest number of lines of a filler.
func (g *gen) most() int {
	if g.o.Huge {
		return 110000
	}
	return 6000
}

// filler makes long lines or many lines at little cost in choices.
func (g *gen) filler(file *Node) {
	g.foldBan++
	defer func() { g.foldBan-- }()
	if g.o.Filler&1 != 0 {
		size := g.d.Pick2(4096, 8192, 16384, 65536, 65536, 131072) + g.d.R(-3, 3)
		most := 200000
		if g.o.Huge {
			most = 1<<22 + 1
			if g.d.P(1, 8) {
				size = g.d.Pick2(1<<18, 1<<19, 1<<20, 1<<21) + g.d.R(-3, 3)
			}
		}
		if v, ok := hints.Number(g.d, 1, 2, 40, most); ok {
			size = v + g.d.R(-2, 2)
		}
		n := g.cmd("Let", "let", 0)
		g.argSp(n)
		n.Val = "="
		n.Add("left", g.tokNode("Ident", "x"))
		g.raw(" = ")
		l := &Node{Kind: "List"}
		g.at(&l.Pos)
		g.raw("[")
		item := 40 + g.d.N(40)
		if size > 200000 {
			item *= 50
		}
		for i := 0; ; i++ {
			left := size - (len(g.buf) - g.lineStart) - 1
			if left < 4 {
				break
			}
			w := item
			if left < item+6 {
				w = left
			}
			s := "'" + strings.Repeat(string(rune('a'+i%26)), w-3) + "'"
			b := g.tokNode("BasicLit", s)
			b.Val = "STRING " + s
			l.Add("value", b)
			g.raw(",")
		}
		g.raw("]")
		n.Add("right", l)
		g.eol()
		file.Add("body", n)
	}
	if g.o.Filler&2 != 0 {
		k := g.d.Pick2(20, 100, 700, 3000)
		if g.o.Huge && g.d.P(1, 3) {
			k = g.d.Pick2(33000, 66000)
		}
		if v, ok := hints.Number(g.d, 1, 2, 5, g.most()); ok {
			k = v
		}
		for i := 0; i < k; i++ {
			if k > 3000 && i%8 != 0 {
				// most lines of a huge script are empty
				if i%8 == 5 {
					g.raw(" ")
				}
				g.eol()
				continue
			}
			if i%7 == 3 {
				g.raw("\" line " + strconv.Itoa(i))
				c := &Node{Kind: "Comment", Val: " line " + strconv.Itoa(i)}
				c.Pos = Pos{g.lineStart, g.line, 1}
				g.eol()
				file.Add("body", c)
				continue
			}
			n := &Node{Kind: "EchoCmd", Val: "echo"}
			n.Ea, _ = g.head("echo", &n.Pos, 0)
			g.raw(" ")
			g.at(&n.Ea.Arg)
			b := g.tokNode("BasicLit", strconv.Itoa(i))
			b.Val = "NUMBER " + b.Val
			n.Add("expr", b)
			g.eol()
			file.Add("body", n)
		}
	}
	if g.o.Filler&4 != 0 {
		k := g.d.Pick2(20, 130, 300, 1100, 5000)
		if g.o.Huge && g.d.P(1, 3) {
			k = g.d.Pick2(33000, 66000)
		}
		if v, ok := hints.Number(g.d, 1, 2, 5, g.most()); ok {
			k = v
		}
		n := g.cmd("Let", "let", 0)
		g.argSp(n)
		n.Val = "="
		n.Add("left", g.tokNode("Ident", "x"))
		g.raw(" = ")
		l := &Node{Kind: "List"}
		g.at(&l.Pos)
		g.raw("[")
		for i := 0; i < k; i++ {
			g.lineBreak()
			g.bytes("\\")
			b := g.tokNode("BasicLit", strconv.Itoa(i))
			b.Val = "NUMBER " + b.Val
			l.Add("value", b)
			g.raw(",")
		}
		g.raw("]")
		n.Add("right", l)
		g.eol()
		file.Add("body", n)
	}
}
