package harness

import (
	"bytes"
	"fmt"
	"io"
	"slices"

	"github.com/vim-jp/go-vimlparser/compiler"
	"github.com/vim-jp/go-vimlparser/printer"

	"verif/hints"
	"verif/simrt"
)

// ---- C18 ----

func init() { register("C18", c18) }

// work is one call that may make another one from within.
type work struct {
	s    *Source // parse
	dl   Delivery
	f    Fault
	rich bool
	at   int

	t *Tree // or operation
	o Op
}

func (w *work) String() string {
	if w.s != nil {
		return fmt.Sprintf("parse (%s, %s) of %s; inner call at byte %d", w.dl, w.f, w.s, w.at)
	}
	return fmt.Sprintf("%s of the tree of %s; inner call at %d", w.o, w.t.src, w.at)
}

// do makes the call, with another one inside, and tells what comes of it.
func (w *work) do(inner func()) []byte {
	if w.s != nil {
		r := NewReader(w.s.Src, w.dl, w.f)
		r.hook, r.hookAt = inner, w.at
		return w.s.Call.DoReader(r, w.rich).Key()
	}
	o := w.o
	k := 0
	var once func()
	if inner != nil {
		o.Hook, o.HookAt = true, w.at
		o.V.Nest = true
		once = func() {
			if k++; k == 1+w.at {
				inner()
			}
		}
		if o.Kind != "walk" && o.Kind != "inspect" {
			once = inner
		}
	}
	var slots Slots
	return opKey(w.t.Do(o, &slots, once))
}

func (w *work) budget() int64 {
	if w.s != nil {
		return Budget(len(w.s.Src))
	}
	return OpBudget(w.t)
}

// drawWork draws a call; the innermost may be of any kind.
func (e *Env) drawWork(trees []*Tree, last bool) *work {
	d := e.D
	w := new(work)
	if len(trees) == 0 || d.P(1, 2) {
		s := DrawSource(d, Weights{File: 8, Expr: 5, Corpus: 1, Mutant: 5, Soup: 3, Probe: 3})
		w.s = &s
		w.dl = DrawDelivery(d, s.Src)
		w.rich = d.P(1, 4)
		if d.P(1, 5) {
			if w.f = drawReaderFault(d, len(s.Src)); w.f.Kind == "stall" {
				w.f = Fault{}
			}
		}
		switch d.W(2, 3, 1) {
		case 1:
			w.at = d.N(len(s.Src) + 1)
		case 2:
			w.at = len(s.Src)
		}
		return w
	}
	w.t = trees[d.N(len(trees))]
	kinds := []int{5, 4, 4, 4, 4, 0, 0}
	if last {
		kinds = []int{5, 4, 4, 3, 3, 2, 1}
	}
	w.o = DrawOp(d, w.t, kinds, 2)
	switch w.o.Kind {
	case "walk", "inspect":
		w.at = d.N(3)
	default:
		if !last {
			w.o.Dest = ""
		}
		if n := len(w.t.Expect(w.o).Out); d.P(1, 2) && n > 0 {
			w.at = d.N(n)
		}
	}
	return w
}

func c18(e *Env) {
	if e.D.P(1, 3) {
		c18pipes(e)
		return
	}
	d := e.D
	var trees []*Tree
	for n := d.N(3); n > 0; n-- {
		if t := e.DrawTree(Weights{File: 8, Expr: 5, Corpus: 1, Mutant: 2}); t != nil {
			trees = append(trees, t)
		}
	}
	depth := 2 + d.W(5, 3, 1)
	if d.P(1, 12) {
		depth = d.Pick2(8, 17, 33, 65, 129)
		if v, ok := hints.Number(d, 1, 2, 2, 300); ok {
			depth = v + 2
		}
		if hints.Cur.Tasks { // they have to take turns with more
			depth = min(depth, 10)
		}
	}
	kinds := depth // how many different calls
	if depth >= 8 {
		kinds = 1 + d.N(3)
	}
	var ws []*work
	what := ""
	size := int64(0)
	for i := 0; i < depth; i++ {
		var w *work
		if i == kinds { // small ones only go on for long
			if depth = max(i, min(depth, int(60000000*int64(i)/size))); depth == i {
				break
			}
		}
		if i >= kinds || i >= 1 && d.P(1, 4) { // one of those before, once more
			w = ws[d.N(len(ws))]
		} else {
			w = e.drawWork(trees, i == depth-1 && i < kinds)
		}
		ws = append(ws, w)
		if i < kinds {
			what += fmt.Sprintf("\n%d: %s", i, w)
		} else {
			what += fmt.Sprintf("\n%d: call %d again", i, slices.Index(ws, w))
		}
		size += w.budget()
	}
	before := make([][]byte, len(trees))
	for i, t := range trees {
		before[i] = Deep(t.Root)
	}
	e.Sample = "each call is made from within the one before:" + what
	e.Note("%s", e.Sample)
	e.State(HashString(what))
	// each result alone, before or after
	want := make([][]byte, depth)
	alone := func() bool {
		for i, w := range ws {
			if j := slices.Index(ws, w); j < i {
				want[i] = want[j]
				continue
			}
			if o := e.Alone(w.budget(), func() { want[i] = w.do(nil) }); o.Overrun || o.Deadlock {
				e.Inc("skipped: a call alone does not end")
				return false
			}
		}
		return true
	}
	first := d.P(1, 2)
	if first && !alone() {
		return
	}
	got := make([][]byte, depth)
	run := make([]func(), depth+1)
	for i := depth - 1; i >= 0; i-- {
		run[i] = func() { got[i] = ws[i].do(run[i+1]) }
	}
	o := e.Alone(size, run[0])
	if o.Overrun || o.Deadlock {
		if first || alone() {
			at := 0
			for at < depth-1 && got[at] == nil {
				at++
			}
			e.Failf("stuck", "calls made from within one another do not return (deadlock=%v), each alone does:%s", o.Deadlock, what)
		}
		return
	}
	if !first && !alone() {
		return
	}
	reached := 0
	for i := range ws {
		if got[i] == nil { // the one around it never got there
			break
		}
		reached++
		e.Logh(HashBytes(got[i]))
		if x := DiffBytes(want[i], got[i]); x != "" {
			e.Failf("reentered", "call %d gives something else when calls are made from within one another than alone: %s; calls:%s", i, x, what)
			return
		}
		if w := ws[i]; i > 0 {
			e.Inc("from within a " + outerKind(ws[i-1]) + ": " + outerKind(w))
		}
	}
	e.Count["deepest nesting, summed over cases"] += int64(reached)
	e.NonTriv = reached > 1
	for i, t := range trees {
		if x := DiffBytes(before[i], Deep(t.Root)); x != "" {
			e.Failf("tree-changed", "a tree has changed: %s; calls:%s", x, what)
			return
		}
	}
}

func outerKind(w *work) string {
	switch {
	case w.s != nil:
		return "reader"
	case w.o.Kind == "walk" || w.o.Kind == "inspect":
		return "visitor"
	case w.o.Kind == "json" || w.o.Kind == "access":
		return w.o.Kind
	}
	return "destination"
}

// pipe carries what one call writes to a call that reads, without a store in
// between.
type pipe struct {
	ch   chan []byte
	gone chan struct{} // the reader has returned
	rest []byte
	eof  bool
	size int // the reader takes so many bytes at once
	sent []byte
}

func (p *pipe) Write(b []byte) (int, error) {
	c := append([]byte(nil), b...)
	p.sent = append(p.sent, c...)
	if simrt.Select(false, simrt.SendCase(p.ch)(c), simrt.RecvCase(p.gone)) == 1 {
		return len(b), nil // nobody wants it
	}
	return len(b), nil
}

func (p *pipe) Read(b []byte) (int, error) {
	for len(p.rest) == 0 {
		if p.eof {
			return 0, io.EOF
		}
		c, ok := simrt.Recv2(p.ch)
		if !ok {
			p.eof = true
		}
		p.rest = c
	}
	n := min(len(b), len(p.rest), p.size)
	copy(b, p.rest[:n])
	p.rest = p.rest[n:]
	return n, nil
}

// c18pipes makes calls that wait for one another: what one writes, the next
// one reads.
func c18pipes(e *Env) {
	d := e.D
	type line struct {
		w    *work
		call Call
		size int
		want []byte
		got  []byte
		out  []byte
		sent []byte
	}
	var lines []*line
	what := ""
	size := int64(0)
	n := 1 + d.W(4, 3, 2)
	if d.P(1, 10) {
		n = d.Pick2(5, 9, 17)
		if v, ok := hints.Number(d, 1, 2, 2, 70); ok {
			n = v + 1
		}
		if hints.Cur.Tasks {
			n = min(n, 5)
		}
	}
	var trees []*Tree
	for k := 1 + d.N(2); k > 0; k-- {
		if t := e.DrawTree(Weights{File: 8, Expr: 6, Corpus: 1}); t != nil {
			trees = append(trees, t)
		}
	}
	if len(trees) == 0 {
		return
	}
	for i := 0; i < n; i++ {
		l := &line{w: &work{t: trees[d.N(len(trees))]}, size: d.Pick2(1<<20, 1, 7, 512)}
		l.w.o = DrawOp(d, l.w.t, []int{5, 4, 5, 0, 0, 0, 0}, 0)
		l.w.o.Dest, l.w.o.Rich = "", false
		l.call = DrawSource(d, Weights{File: 2, Expr: 3}).Call
		lines = append(lines, l)
		what += fmt.Sprintf("\n%d: %s of the tree of %s | %s, %d bytes at most at once", i, l.w.o, l.w.t.src, l.call, l.size)
		size += l.w.budget() + 4*Budget(4*len(l.w.t.src.Src)+1000)
	}
	cfg, how := e.drawSched(size / 100)
	what += "\n" + how
	cfg.Budget = 4 * size
	e.Sample = "what one call writes another one reads:" + what
	e.Note("%s", e.Sample)
	e.State(HashString(what))
	alone := func() bool {
		for _, l := range lines {
			o := e.Alone(size, func() {
				var b bytes.Buffer
				l.out = append([]byte(nil), renderTo(l.w, &b)...)
				l.sent = b.Bytes()
				l.want = l.call.Do(bytes.NewReader(l.sent)).Key()
			})
			if o.Overrun || o.Deadlock {
				e.Inc("skipped: a call alone does not end")
				return false
			}
		}
		return true
	}
	first := d.P(1, 2)
	if first && !alone() {
		return
	}
	var tasks []func()
	outs := make([][]byte, n)
	pipes := make([]*pipe, n)
	for i, l := range lines {
		p := &pipe{ch: make(chan []byte), gone: make(chan struct{}), size: l.size}
		pipes[i] = p
		tasks = append(tasks, func() {
			outs[i] = renderTo(l.w, p)
			simrt.Close(p.ch)
		}, func() {
			l.got = l.call.Do(p).Key()
			simrt.Close(p.gone)
		})
	}
	o := e.Run(cfg, tasks...)
	e.Inc(fmt.Sprintf("%s calls that feed one another", map[bool]string{true: "2", false: "4 and more"}[n == 1]))
	if (o.Overrun || o.Deadlock) && !first && !alone() {
		return
	}
	if !e.judgeRun(o, false, what) {
		return
	}
	if !first && !alone() {
		return
	}
	e.NonTriv = true
	for i, l := range lines {
		e.Logh(HashBytes(l.got))
		if x := DiffBytes(l.sent, pipes[i].sent); x != "" {
			e.Failf("piped", "call %d writes something else into a pipe than into a buffer: %s; calls:%s", i, x, what)
			return
		}
		if x := DiffBytes(l.out, outs[i]); x != "" {
			e.Failf("piped", "call %d ends differently on a pipe than on a buffer: %s; calls:%s", i, x, what)
			return
		}
		if x := DiffBytes(l.want, l.got); x != "" {
			e.Failf("piped", "the parse of what call %d writes gives something else from a pipe than from a buffer: %s; calls:%s", i, x, what)
			return
		}
	}
}

// renderTo renders to a destination of any kind and tells how it ended.
func renderTo(w *work, to io.Writer) (how []byte) {
	how = []byte("did not return")
	defer func() {
		if p := recover(); p != nil {
			how = []byte("panic: " + panicText(p))
		}
	}()
	var err error
	n := w.t.Nodes[w.o.Node]
	switch w.o.Kind {
	case "compile":
		err = compiler.Compile(to, n)
	case "compiler":
		err = (&compiler.Compiler{Config: compiler.Config{Indent: w.o.Indent}}).Compile(to, n)
	case "fprint":
		err = printer.Fprint(to, n, nil)
	}
	return fmt.Appendf(nil, "error=%v", err != nil)
}
