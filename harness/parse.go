package harness

import (
	"bytes"
	"errors"
	"fmt"

	vp "github.com/vim-jp/go-vimlparser"
	"github.com/vim-jp/go-vimlparser/ast"

	"verif/conv"
	"verif/gen"
	"verif/hints"
)

// Parse parses the bytes in one piece, alone on the simulator.
func (e *Env) Parse(c Call, src []byte) Res {
	return e.ParseWith(c, NewReader(src, Delivery{}, Fault{}), false, len(src))
}

// ParseWith parses from a reader, alone on the simulator.
func (e *Env) ParseWith(c Call, r *Reader, rich bool, n int) Res {
	var res Res
	o := e.Alone(Budget(n), func() { res = c.DoReader(r, rich) })
	if o.Overrun || o.Deadlock {
		res.Done = false
	}
	return res
}

// modelDiff compares a result with the model of a generated source.
func modelDiff(s Source, r Res, pos bool) string {
	if s.Gen == nil {
		return ""
	}
	if r.Node == nil || r.Err != nil || r.Panic != "" {
		return "the script parses, but the call gave " + r.Brief()
	}
	t, bad := conv.Tree(r.Node, s.Call.Name)
	if d := gen.Diff(s.Gen.File, t, pos); d != "" {
		return d
	}
	if len(bad) > 0 && pos {
		return bad[0]
	}
	return ""
}

func describe(e *Env, s Source) {
	e.Note("input: %s", s)
	e.Sample = s.String()
}

// ---- C01 ----

func init() { register("C01", c01) }

func c01(e *Env) {
	d := e.D
	s := DrawSource(d, Weights{File: 20, Expr: 6, Filler: 1, Corpus: 4, Mutant: 10, Chunk: 2, Huge: true})
	describe(e, s)
	ref := e.Parse(s.Call, s.Src)
	e.Log("in one piece: %s", ref.Brief())
	if m := modelDiff(s, ref, false); m != "" {
		e.Failf("wrong-tree", "%s of the bytes delivered in one piece: %s", s.Call, m)
		return
	}
	want := ref.Key()
	k := 1 + d.N(4)
	if len(s.Src) > 20000 {
		k = 1 + d.N(2)
	}
	var dls []Delivery
	for i := 0; i < k; i++ {
		dls = append(dls, DrawDelivery(d, s.Src))
	}
	rich := d.P(1, 4)
	for _, dl := range dls {
		r := NewReader(s.Src, dl, Fault{})
		got := e.ParseWith(s.Call, r, rich, len(s.Src))
		e.Inc("delivery:" + []string{"whole", "bytewise", "fixed size", "random sizes", "torn at chosen points"}[dl.Mode])
		if dl.Empties > 0 {
			e.Inc("delivery:empty reads")
		}
		if dl.Burst > 0 {
			e.Inc("delivery:burst of empty reads")
		}
		if dl.EOFData {
			e.Inc("delivery:end of file with data")
		}
		e.Log("delivery %s: %d reads, %s", dl, r.nreads, got.Brief())
		e.State(HashString(fmt.Sprint(dl.Mode, dl.Size, dl.Cuts, dl.Seed, dl.EOFData)) ^ HashBytes(s.Src))
		e.NonTriv = e.NonTriv || r.nreads > 2
		if x := DiffBytes(want, got.Key()); x != "" {
			e.Failf("delivery-dependent", "%s gives another result when the same bytes arrive as [%s]: %s", s.Call, dl, x)
			return
		}
	}
	// through readers of the standard library
	if d.P(1, 2) {
		var v *Via
		var got Res
		dl := Delivery{}
		if d.P(1, 2) {
			v = DrawVia(d, len(s.Src))
			dl = DrawDelivery(d, s.Src)
			got = e.ParseVia(s.Call, v, NewReader(s.Src, dl, Fault{}), len(s.Src))
		} else {
			v = DrawMemory(d)
			got, _ = e.ParseMemory(s.Call, v, s.Src)
		}
		e.Inc("through:" + v.Kind)
		e.Log("through %s, %s: %s", v, dl, got.Brief())
		if x := DiffBytes(want, got.Key()); x != "" {
			e.Failf("reader-dependent", "%s gives another result when the same bytes come from a %s (%s): %s", s.Call, v, dl, x)
			return
		}
	}
	// with and without the last line break
	src := s.Src
	if n := len(src); n > 1 && src[n-1] == '\n' && src[n-2] != '\n' && src[n-2] != '\r' {
		src = src[:n-1]
	} else if n > 0 && src[n-1] != '\n' {
		src = append(append([]byte{}, src...), '\n')
	} else {
		return
	}
	got := e.Parse(s.Call, src)
	e.Inc("final line break toggled")
	e.Log("last line break toggled: %s", got.Brief())
	if x := DiffBytes(want, got.Key()); x != "" {
		e.Failf("final-line-break", "%s gives another result with the last line break toggled: %s", s.Call, x)
	}
}

// ---- C02 ----

func init() { register("C02", c02) }

func c02(e *Env) {
	d := e.D
	s := DrawSource(d, Weights{File: 20, Expr: 8, Filler: 1, Corpus: 4, Mutant: 6, Huge: d.P(1, 10)})
	describe(e, s)
	k := 1 + d.N(6)
	for i := 0; i < k && e.Viol == nil; i++ {
		dl := DrawDelivery(d, s.Src)
		f := Fault{Kind: "error"}
		f.ErrNam, f.Err = DrawErr(d)
		switch d.W(6, 2, 2, 2, 3) {
		case 0:
			f.At = d.N(len(s.Src) + 1)
		case 1:
			f.At = len(s.Src)
		case 2:
			f.At = 0
		case 3: // around the block sizes readers use
			f.At = d.Pick2(511, 512, 513, 4095, 4096, 4097, 65535, 65536)
			if v, ok := hints.Number(d, 1, 2, 1, 1<<20); ok {
				f.At = v
			}
			if f.At > len(s.Src) {
				f.At = len(s.Src)
			}
		case 4: // at a line break
			f.At = d.N(len(s.Src) + 1)
			for f.At < len(s.Src) && f.At > 0 && s.Src[f.At-1] != '\n' {
				f.At++
			}
		}
		f.Data = d.P(1, 2)
		f.Heal = d.P(1, 3)
		rich := d.P(1, 5)
		r := NewReader(s.Src, dl, f)
		var got Res
		if !rich && d.P(1, 3) {
			v := DrawVia(d, len(s.Src))
			if v.Kind == "io.LimitedReader" && f.At == len(s.Src) {
				v.Kind = "io.TeeReader" // the limit hides that error
			}
			e.Inc("through:" + v.Kind)
			e.Log("through %s", v)
			got = e.ParseVia(s.Call, v, r, len(s.Src))
		} else {
			got = e.ParseWith(s.Call, r, rich, len(s.Src))
		}
		e.Log("%s; %s: fired %d: %s", dl, f, r.Fired, got.Brief())
		if r.Fired == 0 {
			// the call never got as far as the fault
			e.Failf("unread", "%s returned after %d of %d bytes without reading to the end: %s (fault was %s)", s.Call, r.off, len(s.Src), got.Brief(), f)
			return
		}
		e.NonTriv = true
		e.Inc("read error:" + f.ErrNam)
		if f.Data {
			e.Inc("read error with data")
		}
		if f.Heal {
			e.Inc("read error that heals")
		}
		e.State(HashBytes(s.Src) ^ uint64(f.At)<<20 ^ HashString(f.ErrNam))
		switch {
		case !got.Done:
			e.Failf("hang", "%s does not return after a read error (%s)", s.Call, f)
		case got.Panic != "":
			e.Failf("panic", "%s panics after a read error (%s): %s", s.Call, f, got.Panic)
		case got.Err == nil:
			e.Failf("error-lost", "%s reports success although the reader failed (%s); it returned %s", s.Call, f, got.Brief())
		case got.Node != nil:
			e.Failf("tree-with-error", "%s returned a tree with the read error (%s)", s.Call, f)
		case !errors.Is(got.Err, f.Err):
			e.Failf("error-replaced", "%s: the reader's error (%s) cannot be recovered from %s", s.Call, f, ErrKey(got.Err))
		default:
			if p, ok := got.Err.(*vp.ErrVimlParser); ok && error(p) != f.Err {
				e.Failf("blamed-on-script", "%s presents the read error (%s) as a syntax error: %s", s.Call, f, ErrKey(got.Err))
			}
		}
	}
}

// ---- C03 ----

func init() { register("C03", c03) }

func c03(e *Env) {
	d := e.D
	s := DrawSource(d, Weights{File: 12, Filler: 1, Corpus: 2, Chunk: 1})
	describe(e, s)
	type unit struct {
		start, end, line, to int
		swallow              bool
	}
	var units []unit
	var stmts []ast.Statement
	var want []*gen.Node
	if s.Gen != nil {
		for _, u := range s.Gen.Units {
			units = append(units, unit{u.Start, u.End, u.Line0, u.To, u.Swallow})
		}
		want = s.Gen.File.All("body")
	} else {
		// the intact parse tells where the statements are
		ref := e.Parse(s.Call, s.Src)
		f, ok := ref.Node.(*ast.File)
		if !ok {
			e.Inc("skipped: does not parse intact")
			return
		}
		stmts = f.Body
		t, _ := conv.Tree(f, s.Call.Name)
		want = t.All("body")
		lines := lineStarts(s.Src)
		for i, st := range stmts {
			p := stmtLine(st)
			if p < 1 || p > len(lines) {
				e.Failf("no-location", "statement %d of the intact script claims to be on line %d of %d", i, p, len(lines))
				return
			}
			// a command behind a bar on a continuation line
			for p > 1 && continues(s.Src[lines[p-1]:]) {
				p--
			}
			if n := len(units); n > 0 {
				if units[n-1].line == p {
					units[n-1].to = i + 1
					continue
				}
				units[n-1].end = lines[p-1]
			}
			units = append(units, unit{start: lines[p-1], end: len(s.Src), line: p, to: i + 1})
		}
		for i := range units {
			units[i].swallow = takesRest(want[units[i].to-1])
		}
	}
	if len(units) == 0 {
		return
	}
	k := 1 + d.N(4)
	for i := 0; i < k && e.Viol == nil; i++ {
		// where the damage begins
		at := 0
		switch d.W(5, 3, 2) {
		case 0:
			at = d.N(len(s.Src) + 1)
		case 1: // at the border of a unit
			at = units[d.N(len(units))].end
		case 2: // shortly behind one
			at = min(len(s.Src), units[d.N(len(units))].end+d.N(4))
		}
		b, how := damage(d, s.Src, at)
		e.Inc("damage:" + how)
		intact := 0
		first := -1
		for j, u := range units {
			if u.end <= at {
				intact = u.to
			} else {
				first = j
				break
			}
		}
		// a script without its last line break ends its last unit early
		if first < 0 && len(s.Src) > 0 && s.Src[len(s.Src)-1] != '\n' && len(b) > len(s.Src) {
			first = len(units) - 1
			intact = 0
			if first > 0 {
				intact = units[first-1].to
			}
		}
		last := first - 1
		if first < 0 {
			last = len(units) - 1
		}
		if last >= 0 && units[last].swallow {
			e.Inc("skipped: the statement before takes the rest")
			continue
		}
		// a line that now begins with a backslash belongs to the unit before
		ls := 0
		if first >= 0 {
			ls = units[first].start
		} else {
			ls = len(s.Src)
		}
		rest := bytes.TrimLeft(b[min(ls, len(b)):], " \t\v\f\r")
		if len(rest) > 0 && rest[0] == '\\' {
			e.Inc("skipped: damage continues the line before")
			continue
		}
		r := e.ParseWith(s.Call, NewReader(b, DrawDelivery(d, b), Fault{}), false, len(b))
		e.Log("damage (%s) at byte %d, %d statements intact: %s", how, at, intact, r.Brief())
		e.State(HashBytes(b))
		e.NonTriv = e.NonTriv || intact > 0
		switch {
		case !r.Done || r.Panic != "":
			e.Failf("no-verdict", "%s of the damaged script (%s at byte %d): %s; input %s", s.Call, how, at, r.Brief(), clip(b, 1500))
		case r.Err != nil:
			p, ok := r.Err.(*vp.ErrVimlParser)
			if !ok {
				e.Failf("no-location", "%s of the damaged script (%s at byte %d): %s; input %s", s.Call, how, at, r.Brief(), clip(b, 1500))
				break
			}
			lo := lineOf(s.Src, len(s.Src)) // line after the end
			if first >= 0 {
				lo = units[first].line
			}
			if p.Line < lo {
				e.Failf("error-too-early", "%s of the script damaged (%s) at byte %d: the error %s lies before line %d where the first damaged statement begins; input %s", s.Call, how, at, ErrKey(r.Err), lo, clip(b, 1500))
			}
		default:
			t, bad := conv.Tree(r.Node, s.Call.Name)
			got := t.All("body")
			if len(got) < intact {
				e.Failf("statement-lost", "%s of the script damaged (%s) at byte %d: %d statements came before, the tree has %d; input %s", s.Call, how, at, intact, len(got), clip(b, 1500))
				break
			}
			for j := 0; j < intact; j++ {
				if x := gen.Diff(want[j], got[j], true); x != "" {
					e.Failf("statement-changed", "%s of the script damaged (%s) at byte %d changes statement %d, which came before: %s; input %s", s.Call, how, at, j, x, clip(b, 1500))
					break
				}
			}
			_ = bad
		}
	}
}

// damage breaks a stream from byte at on.
func damage(d *draw_, src []byte, at int) ([]byte, string) {
	pre := append([]byte{}, src[:at]...)
	post := src[at:]
	switch d.W(4, 3, 2, 2, 2, 2, 1) {
	case 0:
		return pre, "truncated"
	case 1:
		if len(post) == 0 {
			return pre, "truncated"
		}
		b := append(pre, post...)
		b[at] ^= byte(1 << uint(d.N(8)))
		k := d.N(4)
		for i := 0; i < k; i++ {
			b[at+d.N(len(post))] = byte(d.N(256))
		}
		return b, "bytes flipped"
	case 2:
		k := min(len(post), 1+d.N(600))
		return append(pre, post[k:]...), "block lost"
	case 3:
		k := min(len(post), 1+d.N(600))
		b := append(pre, post[:k]...)
		return append(b, post...), "block repeated"
	case 4:
		n := 1 + d.N(64)
		return append(pre, bytes.Repeat([]byte{byte(d.Pick2(0, 255, ' ', '\n', 'x'))}, n)...), "tail overwritten"
	case 5:
		return append(append(pre, soup(d)...), post...), "garbage inserted"
	}
	// a block from elsewhere
	if len(src) == 0 {
		return pre, "truncated"
	}
	o := d.N(len(src))
	k := min(len(src)-o, 1+d.N(300))
	return append(append(pre, src[o:o+k]...), post...), "foreign block"
}

func lineStarts(src []byte) []int {
	r := []int{0}
	for i, c := range src {
		if c == '\n' {
			r = append(r, i+1)
		}
	}
	return r
}

func lineOf(src []byte, off int) int {
	return 1 + bytes.Count(src[:min(off, len(src))], []byte("\n"))
}

func stmtLine(s ast.Statement) int {
	if x, ok := s.(ast.ExCommand); ok {
		if p := linepos(x); p != nil {
			return p.Line
		}
	}
	return s.Pos().Line
}

// continues tells whether a line continues the one before.
func continues(l []byte) bool {
	for _, c := range l {
		switch c {
		case ' ', '\t', '\v', '\f', '\r':
			continue
		}
		return c == '\\'
	}
	return false
}

// takesRest tells whether a command may take text to the end of the script.
func takesRest(n *gen.Node) bool {
	if n.Ea == nil {
		return false
	}
	switch n.Ea.Name {
	case "append", "insert", "change", "finish", "loadkeymap":
		return true
	}
	return false
}
