package harness

import (
	"fmt"
	"io"
	"runtime"

	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/compiler"

	"verif/draw"
	"verif/simrt"
)

// ---- C17 ----

func init() { register("C17", c17) }

func c17(e *Env) {
	if e.D.P(1, 25) {
		c17memory(e)
		return
	}
	c17tasks(e)
}

// drawReaderFault draws what goes wrong while n bytes are read.
func drawReaderFault(d *draw.D, n int) Fault {
	f := Fault{}
	switch d.W(2, 4, 2, 2) {
	case 1:
		f = Fault{Kind: "error", At: d.N(n + 1), Data: d.P(1, 2), Heal: d.P(1, 3)}
		f.ErrNam, f.Err = DrawErr(d)
	case 2:
		f = Fault{Kind: "panic", At: d.N(n + 1), Pval: "the reader broke down"}
	case 3:
		f = Fault{Kind: "stall", At: d.N(n + 1)}
	}
	return f
}

// c17tasks makes the same call several times and counts what still runs or
// waits when nothing goes on any more.
func c17tasks(e *Env) {
	d := e.D
	var one func()
	var what string
	var size int64
	if d.P(1, 2) {
		s := DrawSource(d, Weights{File: 8, Expr: 5, Corpus: 1, Mutant: 8, Soup: 4, Probe: 3, Chunk: 2})
		dl := DrawDelivery(d, s.Src)
		f := drawReaderFault(d, len(s.Src))
		rich := d.P(1, 4)
		what = fmt.Sprintf("parse (%s, %s) of %s", dl, f, s)
		size = Budget(len(s.Src))
		one = func() { s.Call.DoReader(NewReader(s.Src, dl, f), rich) }
		e.Inc("call:parse")
		if f.Kind != "" {
			e.Inc("reader fault:" + f.Kind)
			e.NonTriv = true
		}
	} else {
		t := e.DrawTree(Weights{File: 8, Expr: 5, Corpus: 1, Mutant: 2})
		if t == nil {
			return
		}
		o := DrawOp(d, t, []int{5, 4, 4, 3, 3, 2, 1}, 6)
		what = fmt.Sprintf("%s of the tree of %s", o, t.src)
		size = OpBudget(t)
		var slots Slots
		one = func() { t.Do(o, &slots, nil) }
		e.Inc("call:" + o.Kind)
		if o.W.Kind != "" || o.V.How != "" {
			e.Inc("fault:" + o.W.Kind + o.V.How)
			e.NonTriv = true
		}
	}
	cfg, how := e.drawSched(size / 40)
	what += "\n" + how
	e.Sample = what
	e.Note("%s", what)
	e.State(HashString(what))
	run := func(n int) simrt.Outcome {
		c := cfg
		c.Budget = size*int64(n) + 1000000
		return e.Run(c, func() {
			for i := 0; i < n; i++ {
				one()
				simrt.Yield()
			}
		})
	}
	const n = 6
	o := run(n)
	e.Log("%d left: %s", o.Left, what)
	e.Count["goroutines left after a few calls"] += int64(o.Left)
	switch {
	case o.Overrun && o.Left > 0:
		e.Failf("still-running", "%d goroutines go on and on after %d calls have returned: %s", o.Left, n, what)
	case o.Overrun || o.Deadlock:
		e.Inc("skipped: the call does not return")
	case o.Left >= n/2:
		// one for all is no leftover of the calls, one for each is
		if o3 := run(3 * n); o3.Left >= o.Left+n {
			e.Failf("left-waiting", "after %d calls %d goroutines wait for ever, after %d calls %d: %s", n, o.Left, 3*n, o3.Left, what)
		}
	}
}

// live is what the process holds.
func live() (objects, bytes int64) {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapObjects), int64(m.HeapAlloc)
}

type failingWriter struct {
	left  int
	panic bool
}

func (w *failingWriter) Write(b []byte) (int, error) {
	if w.left -= len(b); w.left < 0 {
		if w.panic {
			panic(writerPanic)
		}
		return 0, io.ErrClosedPipe
	}
	return len(b), nil
}

// c17memory makes many different calls, drops what they give and looks whether
// the memory in use keeps growing.
func c17memory(e *Env) {
	d := e.D
	type template struct {
		s      Source
		f      Fault
		out    int
		panics bool
	}
	var ts []template
	what := ""
	size := 0
	for k := 1 + d.N(3); k > 0; k-- {
		t := template{s: DrawSource(d, Weights{File: 6, Expr: 4, Mutant: 5, Soup: 3, Probe: 3}), out: -1}
		if len(t.s.Src) > 1200 {
			t.s.Src = t.s.Src[:1200]
		}
		if d.P(1, 2) {
			if t.f = drawReaderFault(d, len(t.s.Src)); t.f.Kind == "stall" {
				t.f = Fault{}
			}
		}
		if d.P(1, 3) {
			t.out, t.panics = d.N(400), d.P(1, 3)
		}
		ts = append(ts, t)
		size += len(t.s.Src) + 100
		what += fmt.Sprintf("\n%s, destination fails at %d (panic=%v): %s", t.f, t.out, t.panics, t.s)
	}
	e.Sample = "many calls like" + what
	e.Note("%s", e.Sample)
	e.State(HashString(what))
	e.Log("%s", what)
	e.Inc("memory measured over hundreds of calls")
	e.NonTriv = true
	serial := 0
	ended := true
	calls := func(n int) {
		o := e.Alone(int64(n)*(Budget(size)+2000*int64(size)), func() {
			for i := 0; i < n; i++ {
				serial++
				t := &ts[serial%len(ts)]
				var src []byte
				if t.s.Call.Expr {
					src = append(fmt.Appendf(nil, "'v%d'[u%d] . ", serial, serial), t.s.Src...)
				} else {
					src = append(fmt.Appendf(nil, "let u%d = 'v%d'\n", serial, serial), t.s.Src...)
				}
				f := t.f
				if f.Kind != "" {
					f.At += len(src) - len(t.s.Src)
				}
				c := t.s.Call
				if c.Name != "" {
					c.Name = fmt.Sprintf("%s%d", c.Name, serial)
				}
				r := c.DoReader(NewReader(src, Delivery{}, f), false)
				if r.Node == nil || r.Err != nil || r.Panic != "" {
					continue
				}
				use(r.Node, t.out, t.panics)
			}
		})
		ended = ended && !o.Overrun && !o.Deadlock
	}
	const n, least = 100, 10
	calls(n)
	_, was := live()
	for i := 0; i < 3; i++ {
		calls(n)
		_, is := live()
		if !ended {
			e.Inc("skipped: a call does not return")
			return
		}
		if is-was < n*least/2 {
			return
		}
		was = is
	}
	// a store of limited size may still fill up
	e.Inc("memory measured over thousands of calls")
	calls(5000)
	_, was = live()
	for i := 0; i < 2; i++ {
		calls(4000)
		_, is := live()
		if !ended || is-was < 4000*least {
			return
		}
		e.Note("%d bytes more after 4000 calls", is-was)
		was = is
	}
	e.Failf("memory", "the memory in use keeps growing with the number of calls although their results are dropped (see the notes); calls like%s", what)
}

// use renders and visits a tree.
func use(n ast.Node, out int, panics bool) {
	defer func() { recover() }()
	w := &failingWriter{left: out, panic: panics}
	if out < 0 {
		w.left = 1 << 40
	}
	(&compiler.Compiler{Config: compiler.Config{Indent: "  "}}).Compile(w, n)
	compiler.Compile(w, n)
	ast.Inspect(n, func(ast.Node) bool { return true })
}
