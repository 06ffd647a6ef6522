package harness

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	vp "github.com/vim-jp/go-vimlparser"

	"verif/conv"
	"verif/gen"
)

// ---- C05 ----

func init() { register("C05", c05) }

func c05(e *Env) {
	d := e.D
	s := DrawSource(d, Weights{File: 20, Expr: 10, Filler: 1, Corpus: 2, Mutant: 24, Soup: 4, Chunk: 2, Huge: d.P(1, 4)})
	describe(e, s)
	dl := Delivery{}
	if d.P(2, 3) {
		dl = DrawDelivery(d, s.Src)
	}
	r := e.ParseWith(s.Call, NewReader(s.Src, dl, Fault{}), false, len(s.Src))
	e.Log("%s: %s", dl, r.Brief())
	e.State(HashBytes(s.Src))
	in := clip(s.Src, 2500)
	if !r.Done || r.Panic != "" {
		e.Inc("skipped: no verdict")
		return
	}
	if m := modelDiff(s, r, true); m != "" {
		e.Failf("wrong-tree", "%s, delivery [%s]: %s; input %s", s.Call, dl, m, in)
		return
	}
	name := s.Call.Name
	if r.Err != nil {
		if m := errorPlace(r.Err, name, s.Src); m != "" {
			e.Failf("wrong-error-place", "%s: %s; input %s", s.Call, m, in)
		}
		e.Inc("errors located")
		e.NonTriv = true
		return
	}
	t, bad := conv.Tree(r.Node, name)
	if len(bad) > 0 {
		for _, b := range bad {
			if strings.Contains(b, "file name") || strings.Contains(b, "position") {
				e.Failf("wrong-file-name", "%s: %s; input %s", s.Call, b, in)
				return
			}
		}
		e.Inc("skipped: ill-formed tree")
		return
	}
	p := newPlaces(s.Src)
	n := p.tree(t)
	e.Count["positions checked"] += int64(n)
	e.NonTriv = n > 3
	if p.bad != "" {
		e.Failf("wrong-place", "%s, delivery [%s]: %s; input %s", s.Call, dl, p.bad, in)
	}
}

// places knows where everything is in the delivered bytes.
type places struct {
	src   []byte
	start []int // of every line
	bad   string
	n     int
}

func newPlaces(src []byte) *places {
	p := &places{src: src, start: lineStarts(src)}
	if l := len(src); l > 0 && src[l-1] == '\n' {
		p.start = p.start[:len(p.start)-1]
	}
	if len(src) == 0 {
		p.start = p.start[:0]
	}
	return p
}

// check tells what is wrong with a position on its own.
func (p *places) check(q gen.Pos) string {
	if q.Line < 1 || q.Line > len(p.start) {
		return fmt.Sprintf("line %d of %d", q.Line, len(p.start))
	}
	lo := p.start[q.Line-1]
	hi := len(p.src)
	if q.Line < len(p.start) {
		hi = p.start[q.Line] - 1
	} else if hi > 0 && p.src[hi-1] == '\n' {
		hi--
	}
	if q.Col < 1 || q.Col > hi-lo+1 {
		return fmt.Sprintf("column %d of line %d, which has %d bytes", q.Col, q.Line, hi-lo)
	}
	if q.Off != lo+q.Col-1 {
		return fmt.Sprintf("offset %d, while line %d column %d is at offset %d", q.Off, q.Line, q.Col, lo+q.Col-1)
	}
	return ""
}

// at tells whether a text begins at an offset, continuation lines joined.
func (p *places) at(off int, tok string) bool {
	i := off
	for j := 0; j < len(tok); j++ {
		if tok[j] == '\n' {
			// a line break kept in a value
			i = p.fold(i)
			if i < len(p.src) && p.src[i] == '\r' {
				i++
			}
			if i < len(p.src) && p.src[i] == '\n' {
				i++
				continue
			}
			return i >= len(p.src)
		}
		if j > 0 {
			i = p.fold(i)
		}
		if i >= len(p.src) || p.src[i] != tok[j] {
			return false
		}
		i++
	}
	return true
}

// fold skips a joint of continuation lines.
func (p *places) fold(i int) int {
	for {
		k := i
		if k < len(p.src) && p.src[k] == '\r' {
			k++
		}
		if k >= len(p.src) || p.src[k] != '\n' {
			return i
		}
		k++
		for k < len(p.src) && strings.IndexByte(" \t\f\r", p.src[k]) >= 0 {
			k++
		}
		if k >= len(p.src) || p.src[k] != '\\' {
			return i
		}
		i = k + 1
	}
}

func (p *places) text(off int) string {
	if off < 0 || off > len(p.src) {
		return "nothing"
	}
	return clip(p.src[off:min(len(p.src), off+24)], 24)
}

// tree checks all positions of a tree.
func (p *places) tree(t *gen.Node) int {
	p.node(t, nil, "")
	return p.n
}

func (p *places) fail(n *gen.Node, f string, a ...interface{}) {
	if p.bad == "" {
		p.bad = fmt.Sprintf("%s %s at %s: ", n.Kind, clips(n.Val, 60), n.Pos) + fmt.Sprintf(f, a...)
	}
}

func (p *places) node(n, up *gen.Node, role string) {
	if p.bad != "" {
		return
	}
	p.n++
	if n.Kind == "File" {
		q := n.Pos
		if m := p.check(q); m != "" && len(n.Kids) > 0 {
			p.fail(n, "%s", m)
		} else if len(n.Kids) > 0 && p.fold(0) == 0 && q != (gen.Pos{Off: 0, Line: 1, Col: 1}) {
			p.fail(n, "a file begins at offset 0, line 1, column 1")
		}
	} else if m := p.check(n.Pos); m != "" {
		p.fail(n, "%s", m)
	} else {
		p.token(n, up, role)
	}
	if n.Ea != nil {
		p.n += 2
		if m := p.check(n.Ea.Line); m != "" {
			p.fail(n, "line position: %s", m)
		}
		if m := p.check(n.Ea.Cmd); m != "" {
			p.fail(n, "command position: %s", m)
		} else if c := n.Ea.Name; c != "" && n.Kind != "Excmd" {
			if q := n.Ea.Cmd.Off; q >= len(p.src) || p.src[q] != c[0] {
				p.fail(n, "command %q at %s, where the text is %s", c, n.Ea.Cmd, p.text(q))
			}
		}
		if n.Ea.HasArg {
			p.n++
			if m := p.check(n.Ea.Arg); m != "" && n.Ea.Arg.Line <= len(p.start) {
				p.fail(n, "argument position: %s", m)
			}
			if n.Ea.Arg.Off < n.Ea.Cmd.Off {
				p.fail(n, "argument position %s before the command at %s", n.Ea.Arg, n.Ea.Cmd)
			}
		}
	}
	for _, k := range n.Kids {
		p.node(k.Node, n, k.Role)
	}
}

// token compares the text at the position of a node with its token.
func (p *places) token(n, up *gen.Node, role string) {
	var want []string
	switch n.Kind {
	case "Comment":
		want = []string{"\"" + n.Val}
	case "Ternary":
		want = []string{"?"}
	case "Binary":
		want = []string{n.Val}
		switch n.Val {
		case ".":
			want = []string{".", ".."}
		}
	case "Unary":
		want = []string{n.Val}
	case "Subscript", "Slice", "List":
		want = []string{"["}
	case "Method":
		want = []string{"("}
	case "Call", "Paren":
		want = []string{"("}
	case "Dot":
		want = []string{"."}
	case "Dict":
		want = []string{"{", "#{"}
	case "Lambda": // the parser takes #{x -> x} for one as well
		want = []string{"{", "#{"}
	case "CurlyExpr":
		want = []string{"{"}
	case "CurlyLit", "Ident":
		want = []string{n.Val}
	case "BasicLit":
		v := n.Val[strings.IndexByte(n.Val, ' ')+1:]
		want = []string{v}
		if role == "key" && len(v) > 1 {
			want = append(want, v[1:len(v)-1])
		}
	case "Excmd":
		if !p.at(n.Ea.Line.Off, n.Val) {
			p.fail(n, "its text is not at %s, where it begins: %s", n.Ea.Line, p.text(n.Ea.Line.Off))
		}
		return
	default:
		return
	}
	for _, w := range want {
		if p.at(n.Pos.Off, w) {
			return
		}
	}
	p.fail(n, "its token is %q, the text there is %s", want[0], p.text(n.Pos.Off))
}

// errorPlace tells what is wrong with the place of an error.
func errorPlace(err error, name string, src []byte) string {
	var pe *vp.ErrVimlParser
	if !errors.As(err, &pe) {
		return ""
	}
	if pe.Filename != name {
		return fmt.Sprintf("the error names the file %q: %s", pe.Filename, ErrKey(err))
	}
	s := pe.Error()
	want := fmt.Sprintf("%s:%d:%d:", pe.Filename, pe.Line, pe.Column)
	if name == "" {
		want = fmt.Sprintf("line %d col %d", pe.Line, pe.Column)
	}
	if !strings.Contains(s, want) || !strings.Contains(s, pe.Msg) {
		return fmt.Sprintf("the error's text is %q, its fields say %s", s, ErrKey(err))
	}
	p := newPlaces(src)
	q := gen.Pos{Off: pe.Offset, Line: pe.Line, Col: pe.Column}
	if q.Line == len(p.start)+1 {
		// the line just past the end
		if q.Col != 0 && q.Col != 1 {
			return fmt.Sprintf("%s: column %d past the end", ErrKey(err), q.Col)
		}
		end := len(src)
		if end > 0 && src[end-1] != '\n' && !bytes.HasSuffix(src, []byte("\r")) {
			end++
		}
		if q.Off != end && q.Off != len(src) && q.Off != len(src)+1 {
			return fmt.Sprintf("%s: offset %d is not the end (%d)", ErrKey(err), q.Off, len(src))
		}
		return ""
	}
	if m := p.check(q); m != "" {
		return ErrKey(err) + ": " + m
	}
	return ""
}
