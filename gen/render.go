package gen

import (
	"strings"
)

// Render gives the S-expression text the compiler must produce for the tree.
func Render(n *Node, indent string) string {
	r := &rend{unit: indent}
	r.stmt(n)
	return r.b.String()
}

type rend struct {
	b    strings.Builder
	ind  int
	unit string
}

func (r *rend) put(s string) {
	r.b.WriteString(strings.Repeat(r.unit, r.ind))
	r.b.WriteString(s)
}

// body writes the statements of a block one level deeper.
func (r *rend) body(n *Node, role string) {
	r.ind++
	for _, k := range n.All(role) {
		r.stmt(k)
	}
	r.ind--
}

// shut closes a block behind the last line.
func (r *rend) shut() {
	s := strings.TrimRight(r.b.String(), "\n")
	r.b.Reset()
	r.b.WriteString(s)
	r.b.WriteString(")\n")
}

func list(head string, ns []*Node) string {
	var b strings.Builder
	b.WriteString(head)
	for _, n := range ns {
		if b.Len() > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(ex(n))
	}
	return b.String()
}

func lhs(n *Node) string {
	if l := n.Get("left"); l != nil {
		return ex(l)
	}
	s := "(" + list("", n.All("list"))
	if x := n.Get("rest"); x != nil {
		s += " . " + ex(x)
	}
	return s + ")"
}

func escq(s, cs string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(cs, s[i]) >= 0 {
			switch s[i] {
			case '\n':
				b.WriteString(`\n`)
			case '\t':
				b.WriteString(`\t`)
			case '\r':
				b.WriteString(`\r`)
			default:
				b.WriteByte('\\')
				b.WriteByte(s[i])
			}
			continue
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func (r *rend) stmt(n *Node) {
	name := ""
	if n.Ea != nil {
		name = n.Ea.Name
	}
	switch n.Kind {
	case "File":
		for _, k := range n.Kids {
			r.stmt(k.Node)
		}
	case "Comment":
		r.put(";" + n.Val + "\n")
	case "Excmd":
		r.put(`(excmd "` + escq(n.Val, `\"`) + "\")\n")
	case "Function":
		s := "(function (" + ex(n.Get("name"))
		var ps []string
		for _, k := range n.Kids {
			switch k.Role {
			case "param":
				p := k.Val
				if p == "..." {
					p = ". ..."
				}
				ps = append(ps, p)
			case "default":
				ps[len(ps)-1] = "(" + ps[len(ps)-1] + " " + ex(k.Node) + ")"
			}
		}
		if len(ps) > 0 {
			s += " " + strings.Join(ps, " ")
		}
		r.put(s + ")\n")
		r.body(n, "body")
		r.shut()
	case "DelFunction":
		r.put("(" + name + " " + ex(n.Get("name")) + ")\n")
	case "Return":
		if x := n.Get("result"); x != nil {
			r.put("(" + name + " " + ex(x) + ")\n")
		} else {
			r.put("(" + name + ")\n")
		}
	case "ExCall":
		r.put("(" + name + " " + ex(n.Get("call")) + ")\n")
	case "Let":
		r.put("(" + name + " " + n.Val + " " + lhs(n) + " " + ex(n.Get("right")) + ")\n")
	case "UnLet", "LockVar", "UnLockVar":
		s := "(" + name + " "
		if n.Val != "" && n.Val != "0" && n.Val[0] != '-' {
			s += n.Val + " "
		}
		r.put(s + list("", n.All("item")) + ")\n")
	case "If":
		r.put("(" + name + " " + ex(n.Get("cond")) + "\n")
		r.body(n, "body")
		for _, e := range n.All("elseif") {
			r.put(" " + e.Ea.Name + " " + ex(e.Get("cond")) + "\n")
			r.body(e, "body")
		}
		if e := n.Get("else"); e != nil {
			r.put(" " + e.Ea.Name + "\n")
			r.body(e, "body")
		}
		r.shut()
	case "While":
		r.put("(" + name + " " + ex(n.Get("cond")) + "\n")
		r.body(n, "body")
		r.shut()
	case "For":
		r.put("(" + name + " " + lhs(n) + " " + ex(n.Get("right")) + "\n")
		r.body(n, "body")
		r.shut()
	case "Continue", "Break":
		r.put("(" + name + ")\n")
	case "Try":
		r.put("(" + name + "\n")
		r.body(n, "body")
		for _, e := range n.All("catch") {
			s := " " + e.Ea.Name
			if e.Val != "" {
				s += " /" + e.Val + "/"
			}
			r.put(s + "\n")
			r.body(e, "body")
		}
		if e := n.Get("finally"); e != nil {
			r.put(" " + e.Ea.Name + "\n")
			r.body(e, "body")
		}
		r.shut()
	case "Throw", "Eval":
		r.put("(" + name + " " + ex(n.Get("expr")) + ")\n")
	case "EchoCmd", "Execute":
		r.put("(" + name + " " + list("", n.All("expr")) + ")\n")
	case "Echohl":
		r.put("(" + name + " \"" + escq(n.Val, `\"`) + "\")\n")
	default:
		r.put(ex(n))
	}
}

func litVal(n *Node) string { return n.Val[strings.IndexByte(n.Val, ' ')+1:] }

func ex(n *Node) string {
	switch n.Kind {
	case "Ternary":
		return "(?: " + ex(n.Get("cond")) + " " + ex(n.Get("left")) + " " + ex(n.Get("right")) + ")"
	case "Binary":
		op := n.Val
		if op == "." {
			op = "concat"
		}
		return "(" + op + " " + ex(n.Get("left")) + " " + ex(n.Get("right")) + ")"
	case "Unary":
		return "(" + n.Val + " " + ex(n.Get("x")) + ")"
	case "Subscript":
		return "(subscript " + ex(n.Get("left")) + " " + ex(n.Get("right")) + ")"
	case "Slice":
		lo, hi := "nil", "nil"
		if k := n.Get("low"); k != nil {
			lo = ex(k)
		}
		if k := n.Get("high"); k != nil {
			hi = ex(k)
		}
		return "(slice " + ex(n.Get("x")) + " " + lo + " " + hi + ")"
	case "Method":
		return "(method " + ex(n.Get("left")) + " (" + list(ex(n.Get("method")), n.All("arg")) + "))"
	case "Call":
		return "(" + list(ex(n.Get("fun")), n.All("arg")) + ")"
	case "Dot":
		return "(dot " + ex(n.Get("left")) + " " + ex(n.Get("right")) + ")"
	case "BasicLit":
		return litVal(n)
	case "List":
		return "(" + list("list", n.All("value")) + ")"
	case "Dict":
		s := "(dict"
		ks, vs := n.All("key"), n.All("value")
		for i := range ks {
			s += " (" + ex(ks[i]) + " " + ex(vs[i]) + ")"
		}
		return s + ")"
	case "CurlyName":
		s := ""
		for _, k := range n.Kids {
			s += ex(k.Node)
		}
		return s
	case "CurlyExpr":
		return "{" + ex(n.Get("value")) + "}"
	case "CurlyLit", "Ident":
		return n.Val
	case "Lambda":
		return "(lambda (" + list("", n.All("param")) + ") " + ex(n.Get("expr")) + ")"
	case "Heredoc":
		fl, li := "(list", "(list"
		for _, f := range n.All("flag") {
			fl += ` "` + ex(f) + `"`
		}
		for _, l := range n.All("line") {
			li += ` "` + escq(ex(l), "\n\t\r") + `"`
		}
		return "(heredoc " + fl + ") \"" + n.Val + "\" " + li + "))"
	case "Paren":
		return ex(n.Get("x"))
	}
	return "?" + n.Kind
}

// Printable tells whether the printer supports the expression.
func Printable(n *Node) bool {
	switch n.Kind {
	case "Binary":
		if n.Val == "=~" || n.Val == "=~?" {
			return false
		}
	case "Unary", "Subscript", "BasicLit", "Ident", "Paren":
	default:
		return false
	}
	for _, k := range n.Kids {
		if !Printable(k.Node) {
			return false
		}
	}
	return true
}

// Print gives what the printer must print for a supported expression.
func Print(n *Node) string { return pr(n, 0) }

func prec(n *Node) int {
	switch n.Kind {
	case "Binary":
		switch n.Val {
		case "||":
			return 2
		case "&&":
			return 3
		case "+", "-", ".":
			return 5
		case "*", "/", "%":
			return 6
		}
		return 4
	case "Unary":
		return 7
	case "Subscript":
		return 8
	}
	return 9
}

func pr(n *Node, at int) string {
	p := prec(n)
	s := ""
	switch n.Kind {
	case "Binary":
		s = pr(n.Get("left"), p) + " " + n.Val + " " + pr(n.Get("right"), p+1)
	case "Unary":
		s = n.Val + pr(n.Get("x"), p)
	case "Subscript":
		return pr(n.Get("left"), p) + "[" + pr(n.Get("right"), 0) + "]"
	case "BasicLit":
		return litVal(n)
	case "Ident":
		return n.Val
	case "Paren":
		x := n.Get("x")
		if x.Kind == "Paren" {
			return pr(x, 0)
		}
		return "(" + pr(x, 0) + ")"
	}
	if p < at {
		return "(" + s + ")"
	}
	return s
}
