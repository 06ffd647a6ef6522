package harness

import (
	"bytes"
	"regexp"
	"strings"

	vp "github.com/vim-jp/go-vimlparser"
	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/compiler"

	"verif/conv"
	"verif/draw"
	"verif/gen"
)

// ---- C04 ----

func init() { register("C04", c04) }

// StepBound is the number of statements a parse of n bytes may take. The
// parser is linear: the most expensive constructs take some 190 statements a
// byte, of which this is six times.
func StepBound(n int) int64 { return 60000 + 1200*int64(n) }

// goTexts occur in the texts of Go's own panics.
var goTexts = []string{"runtime error", "nil pointer", "index out of range", "slice bounds", "interface conversion", "NotImplemented", "not implemented", "Not implemented", "NOT REACHED", "strconv", "Unknown node type", "unknown parser", "invalid memory", "makeslice", "assignment to entry", "unhashable"}

// fmtFault is what fmt leaves where a format and its operands disagree.
var fmtFault = regexp.MustCompile(`%![a-zA-Z]\((MISSING|PANIC|BADINDEX|<nil>|[a-z0-9.*\[\]]+=)|%!\((NOVERB|EXTRA |BAD)`)

var contRe = regexp.MustCompile(`\r?\n[ \t]*\\`)

// internalText finds the text of a fault of the implementation in a message,
// unless the script itself contains it, perhaps across continuation lines.
func internalText(msg string, src []byte) bool {
	joined := contRe.ReplaceAll(src, nil)
	has := func(t string) bool { return bytes.Contains(src, []byte(t)) || bytes.Contains(joined, []byte(t)) }
	for _, t := range goTexts {
		if strings.Contains(msg, t) && !has(t) {
			return true
		}
	}
	for _, t := range fmtFault.FindAllString(msg, -1) {
		if !has(t) {
			return true
		}
	}
	return false
}

func drawHostile(d *draw.D) Source {
	switch d.W(10, 8, 2) {
	case 1:
		return DrawSource(d, Weights{Mutant: 1})
	case 2:
		return nested(d)
	}
	return DrawSource(d, Weights{File: 1, Mutant: 12, Soup: 10, Chunk: 1, Corpus: 1, Probe: 1})
}

// nested piles one construct up.
func nested(d *draw.D) Source {
	s := Source{Kind: "piled constructs"}
	n := d.Pick2(3, 10, 33, 100, 200, 300, 400)
	huge := d.P(1, 150)
	if huge { // more than a stack takes
		n = d.Pick2(1000, 3000, 6000, 11000, 60000, 150000, 400000)
	}
	type tp struct{ pre, open, mid, clos, post string }
	expr := d.P(1, 3)
	ts := []tp{
		{"echo ", "(", "1", ")", "\n"}, {"echo ", "[", "1", "]", "\n"}, {"echo ", "{'a':", "1", "}", "\n"}, {"echo ", "{x->", "1", "}", "\n"},
		{"echo ", "-", "1", "", "\n"}, {"echo ", "!", "1", "", "\n"}, {"echo ", "1+", "1", "", "\n"}, {"echo ", "1 ? 2 : ", "3", "", "\n"}, {"echo ", "1 ? ", "3", " : 2", "\n"},
		{"echo ", "a[", "1", "]", "\n"}, {"echo ", "f(", "1", ")", "\n"}, {"echo ", "x{", "1", "}", "\n"}, {"echo ", "{", "x", "}", "\n"}, {"echo x", "", "", ".y", "\n"}, {"echo x", "", "", "[0]", "\n"}, {"echo x", "", "", "->f()", "\n"}, {"echo x", "", "", "(1)", "\n"},
		{"echo ", "#{a:", "1", "}", "\n"}, {"echo ", "1 || ", "1", "", "\n"}, {"echo ", "1 . ", "1", "", "\n"}, {"echo ", "a{b}", "c", "", "\n"}, {"echo ", "a[b:", "c", "]", "\n"},
		{"", "if 1\n", "echo 1\n", "endif\n", ""}, {"", "while 1\n", "break\n", "endwhile\n", ""}, {"", "for x in y\n", "continue\n", "endfor\n", ""}, {"", "try\n", "throw 1\n", "catch /x/\nfinally\nendtry\n", ""},
		{"", "function! F(a, b)\n", "return 1\n", "endfunction\n", ""}, {"", "silent! ", "echo 1", "", "\n"}, {"", "1,", "echo", "", "\n"}, {"", ":", "echo 1", "", "\n"}, {"", "echo 1 | ", "echo 2", "", "\n"},
		{"let x = 1", "", "", "\n  \\ + 1", "\n"}, {"if 1\n", "elseif 2\n", "", "echo 1\n", "endif\n"}, {"let [", "a, ", "b", "", "] = c\n"}, {"let ", "x.", "y", "", " = 1\n"}, {"let ", "x[", "0", "]", " = 1\n"}, {"let ", "x{", "y", "}", " = 1\n"},
		{"unlet ", "x ", "y", "", "\n"}, {"autocmd X * ", "silent ", "echo", "", "\n"}, {"/", "a\\/", "b", "", "/echo\n"}, {"s/", "a", "/b/", "", "\n"}, {"echo '", "''", "", "", "'\n"}, {"echo \"", "\\\\", "", "", "\"\n"}, {"let x =<< trim END\n", "line\n", "", "", "END\n"}, {"python << EOF\n", "x\n", "", "", "EOF\n"}, {"append\n", "text\n", "", "", ".\n"}, {"loadkeymap\n", "a b\n", "", "", ""}, {"try\n", "catch /x/\n", "", "", "endtry\n"}, {"function F()\n", "echo\n", "", "", "endfunction\n"}, {"echo [", "1,", "", "", "]\n"}, {"echo {", "'a':1,", "", "", "}\n"}, {"echo [", "\n\\1,", "", "", "]\n"}, {"echo f(", "1,", "1", "", ")\n"}, {"echo {", "a,", "a", "", "->1}\n"}, {"let x =<< END\n", "E\n", "", "", "END\n"}, {"lua << EOF\n", "EO\n", "", "", "EOF\n"}, {"insert\n", " .\n", "", "", ".\n"}, {"", "let [a, b] = c\n", "", "", ""}, {"while 1\n", "break\ncontinue\n", "", "", "endwhile\n"}, {"", "echo 1\n\\+1\n", "", "", ""}, {"", "\"c\n", "", "", ""}, {"", "\n", "", "", ""}, {"", "\n\\", "x", "", "\n"}, {"", "1;", "", "", "echo\n"}, {"", "'a,", "", "", "echo\n"}, {"", "+", "", "", "echo\n"}, {"", "a", "", "", "\n"}, {"", "X", "", "", "\n"}, {"echo 1", "0", "", "", "\n"}, {"echo 0x", "f", "", "", "\n"}, {"echo 0z", "ff", "", "", "\n"}, {"echo ", "a:", "", "", "\n"}, {"echo ", "a#", "b", "", "\n"}, {"", "9", "echo", "", "\n"}, {"5", "verbose ", "echo", "", "\n"}, {"edit ", "++enc=x ", "", "", "f\n"}, {"echo ", "1 == 2 && ", "3", "", "\n"}, {"call ", "f(1, ", "2", ")", "\n"}, {"execute ", "'a' ", "", "", "\n"}, {"function F(", "a, ", "b", "", ")\nendfunction\n"}, {"lockvar ", "3 ", "x", "", "\n"}, {"return ", "(", "", ")", "\n"}, {"delfunction ", "a.", "b", "", "\n"}, {"command -nargs=* X ", "y ", "", "", "\n"},
	}
	t := ts[d.N(len(ts))]
	if huge {
		t = ts[d.N(27)] // those that nest; others take time in the square of n
	} else if d.P(1, 40) {
		n = d.Pick2(1500, 4000, 9000, 20000) // time in the square of n is noticed
		n = min(n, 100000/(1+len(t.open)+len(t.clos)))
	}
	var b bytes.Buffer
	if !expr || !strings.HasPrefix(t.pre, "echo ") {
		b.WriteString(t.pre)
		expr = false
	}
	shut := n
	if d.P(1, 4) { // unbalanced
		shut = d.N(n + 2)
	}
	b.WriteString(strings.Repeat(t.open, n))
	b.WriteString(t.mid)
	b.WriteString(strings.Repeat(t.clos, shut))
	b.WriteString(t.post)
	s.Src = b.Bytes()
	s.Call = DrawCall(d, expr)
	if !huge && d.P(1, 5) {
		s.Src = Mutate(d, s.Src)
	}
	return s
}

func c04(e *Env) {
	d := e.D
	s := drawHostile(d)
	describe(e, s)
	dl := Delivery{}
	if d.P(1, 3) {
		dl = DrawDelivery(d, s.Src)
	}
	r := NewReader(s.Src, dl, Fault{})
	var res Res
	bound := StepBound(len(s.Src))
	o := e.Alone(bound, func() { res = s.Call.DoReader(r, false) })
	if o.Overrun {
		res.Done = false
	}
	if res.Steps > bound/8 {
		e.Inc("probe:steps above 1/8 of the bound")
	}
	if res.Steps > bound/2 {
		e.Inc("probe:steps above 1/2 of the bound")
	}
	e.Log("%s", res.Brief())
	e.State(HashBytes(s.Src))
	e.NonTriv = true
	e.verdict(s, res, bound)
}

// verdict judges that a call gave one clean answer.
func (e *Env) verdict(s Source, res Res, bound int64) {
	in := clip(s.Src, 2500)
	switch {
	case !res.Done:
		e.Failf("no-end", "%s does not return within %d steps for %d bytes: %s", s.Call, bound, len(s.Src), in)
	case res.Panic != "":
		e.Failf("panic", "%s panics with %q for %s", s.Call, res.Panic, in)
	case res.Err != nil && res.Node != nil:
		e.Failf("tree-and-error", "%s returns a tree and the error %s for %s", s.Call, ErrKey(res.Err), in)
	case res.Err == nil && res.Node == nil:
		e.Failf("nothing", "%s returns neither tree nor error for %s", s.Call, in)
	case res.Err != nil:
		e.Inc("verdict:error")
		p, ok := res.Err.(*vp.ErrVimlParser)
		if !ok {
			e.Failf("internal-error", "%s returns %s instead of a located parse error for %s", s.Call, ErrKey(res.Err), in)
			return
		}
		if internalText(p.Msg, s.Src) {
			e.Failf("internal-error", "%s returns the internal fault %s for %s", s.Call, ErrKey(res.Err), in)
			return
		}
		if p.Msg == "" || p.Line < 1 || p.Column < 0 || p.Offset < 0 {
			e.Failf("no-location", "%s returns an error without text or place: %s for %s", s.Call, ErrKey(res.Err), in)
		}
	default:
		e.Inc("verdict:tree")
		t, bad := conv.Tree(res.Node, s.Call.Name)
		if len(bad) > 0 {
			e.Failf("ill-formed", "%s returns an ill-formed tree (%s) for %s", s.Call, bad[0], in)
			return
		}
		if m := misplaced(t, false, false); m != "" {
			e.Failf("ill-formed", "%s returns a tree with a %s for %s", s.Call, m, in)
			return
		}
		var pw, pc string
		var cerr error
		n := 0
		o := e.Alone(100*StepBound(len(s.Src)), func() {
			pw = caught(func() { ast.Inspect(res.Node, func(ast.Node) bool { n++; return true }) })
			var b bytes.Buffer
			pc = caught(func() { cerr = compiler.Compile(&b, res.Node) })
		})
		switch {
		case o.Overrun:
			e.Failf("not-usable", "Walk or Compile do not end on the tree %s returned for %s", s.Call, in)
		case pw != "":
			e.Failf("not-walkable", "Walk panics (%s) on the tree %s returned for %s", pw, s.Call, in)
		case pc != "":
			e.Failf("not-compilable", "Compile panics (%s) on the tree %s returned for %s", pc, s.Call, in)
		case cerr != nil:
			e.Failf("not-compilable", "Compile refuses (%v) the tree %s returned for %s", cerr, s.Call, in)
		}
	}
}

// misplaced finds a statement outside of the block it cannot be without.
func misplaced(m *gen.Node, function, loop bool) string {
	switch m.Kind {
	case "Function":
		function = true
	case "While", "For":
		loop = true
	case "Return":
		if !function {
			return "Return in no Function"
		}
	case "Break", "Continue":
		if !loop {
			return m.Kind + " in no While or For"
		}
	}
	for _, k := range m.Kids {
		if r := misplaced(k.Node, function, loop); r != "" {
			return r
		}
	}
	return ""
}

func caught(f func()) (p string) {
	defer func() {
		if x := recover(); x != nil {
			p = panicText(x)
			if p == "" {
				p = "panic"
			}
		}
	}()
	f()
	return
}
