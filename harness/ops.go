package harness

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"syscall"

	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/compiler"
	"github.com/vim-jp/go-vimlparser/printer"

	"verif/conv"
	"verif/draw"
	"verif/gen"
	"verif/hints"
	"verif/simrt"
)

// ---- writers ----

// WFault is what goes wrong with a destination.
type WFault struct {
	Kind string // "", "error", "short", "full+error", "panic", "stall"
	At   int    // the first byte it does not take
	Err  error
	Name string
	Heal bool // later writes work
}

func (f WFault) String() string {
	if f.Kind == "" {
		return "healthy"
	}
	return fmt.Sprintf("%s at byte %d (%s) heals=%v", f.Kind, f.At, f.Name, f.Heal)
}

var writeErrs = []struct {
	name string
	make func() error
}{
	{"ENOSPC", func() error { return &os.PathError{Op: "write", Path: "out", Err: syscall.ENOSPC} }},
	{"EIO", func() error { return syscall.EIO }},
	{"EPIPE", func() error { return &os.SyscallError{Syscall: "write", Err: syscall.EPIPE} }},
	{"EAGAIN", func() error { return syscall.EAGAIN }},
	{"EINTR", func() error { return syscall.EINTR }},
	{"short write", func() error { return io.ErrShortWrite }},
	{"io.EOF", func() error { return io.EOF }},
	{"closed pipe", func() error { return io.ErrClosedPipe }},
	{"plain", func() error { return errors.New("no space on tape") }},
	{"unexpected EOF", func() error { return io.ErrUnexpectedEOF }},
	{"wraps io.EOF", func() error { return fmt.Errorf("gone: %w", io.EOF) }},
	{"no progress", func() error { return io.ErrNoProgress }},
	{"timeout", func() error { return timeoutErr{} }},
}

// DrawWFault draws a fault of a destination that n bytes are meant for.
func DrawWFault(d *draw.D, n int, stall bool) WFault {
	f := WFault{}
	f.Kind = []string{"error", "short", "full+error", "panic", "stall"}[d.W(5, 3, 2, 2, map[bool]int{true: 2}[stall])]
	switch d.W(2, 1, 1, 6) {
	case 0:
		f.At = 0
	case 1:
		f.At = max(0, n-1)
	case 2:
		f.At = d.Pick2(1, 511, 512, 4095, 4096, 32767, 32768)
		if v, ok := hints.Number(d, 1, 2, 1, 1<<20); ok {
			f.At = v
		}
	case 3:
		f.At = d.N(n + 1)
	}
	if f.At >= n {
		f.At = max(0, n-1)
	}
	if d.P(1, 3) {
		k := ErrKinds[d.N(len(ErrKinds))]
		f.Name, f.Err = k.Name, k.Make()
	} else {
		k := writeErrs[d.N(len(writeErrs))]
		f.Name, f.Err = k.name, k.make()
	}
	f.Heal = d.P(2, 3)
	return f
}

// Writer is the simulated destination.
type Writer struct {
	f      WFault
	Got    []byte
	Calls  int
	Fired  int
	After  int // calls after the failure
	Offers int // bytes offered
	active bool
	Misuse string
	fault  bool
	hook   func() // called once, in the first Write that reaches byte hookAt
	hookAt int
}

const writerPanic = "the destination broke down"

// Write takes what it can.
func (w *Writer) Write(b []byte) (int, error) {
	simrt.Yield()
	simrt.Advance(lag)
	w.Calls++
	w.Offers += len(b)
	if !w.active && w.Misuse == "" {
		w.Misuse = "Write called outside the call the destination was given to"
	}
	if f := w.hook; f != nil && len(w.Got)+len(b) > w.hookAt {
		w.hook = nil
		f()
	}
	if w.fault && w.f.Kind != "stall" { // a stalled destination works again afterwards
		w.After++
		if !w.f.Heal {
			return 0, w.f.Err
		}
	}
	if w.f.Kind != "" && !w.fault && len(w.Got)+len(b) > w.f.At {
		w.fault = true
		w.Fired++
		n := w.f.At - len(w.Got)
		switch w.f.Kind {
		case "error":
			w.Got = append(w.Got, b[:n]...)
			return n, w.f.Err
		case "short":
			w.Got = append(w.Got, b[:n]...)
			return n, nil
		case "full+error":
			w.Got = append(w.Got, b...)
			return len(b), w.f.Err
		case "panic":
			w.Got = append(w.Got, b[:n]...)
			panic(writerPanic)
		case "stall":
			w.Got = append(w.Got, b[:n]...)
			simrt.Stall()
			simrt.Yield()
			w.Got = append(w.Got, b[n:]...)
			return len(b), nil
		}
	}
	w.Got = append(w.Got, b...)
	simrt.Yield()
	return len(b), nil
}

// RichWriter supports more than Write; everything goes through Write.
type RichWriter struct{ *Writer }

// WriteString takes what it can.
func (w RichWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

// WriteByte takes what it can.
func (w RichWriter) WriteByte(c byte) error {
	n, err := w.Write([]byte{c})
	if err == nil && n < 1 {
		err = io.ErrShortWrite
	}
	return err
}

// Close must not be called.
func (w RichWriter) Close() error { w.Misuse = "Close called"; return nil }

// dests are destinations of the standard library that lie above the simulated
// one or take its place.
var dests = []string{"bufio.Writer", "bufio.Writer on a richer one", "io.MultiWriter", "bytes.Buffer", "strings.Builder"}

// dest is such a destination in use.
type dest struct {
	kind string
	pre  string
	bw   *bufio.Writer
	bb   bytes.Buffer
	sb   strings.Builder
}

// over gives the destination to hand out.
func (s *dest) over(o Op, w *Writer) io.Writer {
	s.kind = o.Dest
	if o.Size%3 != 0 {
		s.pre = preText[:o.Size%len(preText)]
	}
	switch s.kind {
	case "bufio.Writer":
		s.bw = bufio.NewWriterSize(w, o.Size)
		return s.bw
	case "bufio.Writer on a richer one":
		s.bw = bufio.NewWriterSize(RichWriter{w}, o.Size)
		return s.bw
	case "io.MultiWriter":
		return io.MultiWriter(w, &s.bb)
	case "bytes.Buffer":
		s.bb.Grow(o.Size)
		s.bb.WriteString(s.pre)
		return &s.bb
	case "strings.Builder":
		s.sb.WriteString(s.pre)
		return &s.sb
	}
	if o.Rich {
		return RichWriter{w}
	}
	return w
}

// settle brings what the destination still holds to the simulated one.
func (s *dest) settle(r *OpRes) {
	var got string
	switch s.kind {
	case "bufio.Writer", "bufio.Writer on a richer one":
		fired := r.w.Fired
		if err := s.bw.Flush(); err != nil && r.Err == nil && r.w.Fired > fired {
			r.Err = err
		}
		return
	case "io.MultiWriter":
		if r.w.Fired == 0 && !bytes.Equal(s.bb.Bytes(), r.w.Got) {
			r.w.Misuse = "the two destinations of one io.MultiWriter differ"
		}
		return
	case "bytes.Buffer":
		got = s.bb.String()
	case "strings.Builder":
		got = s.sb.String()
	default:
		return
	}
	if !strings.HasPrefix(got, s.pre) {
		r.w.Misuse = "what the " + s.kind + " held before is changed"
		return
	}
	r.w.Got = append(r.w.Got, got[len(s.pre):]...)
}

// ---- trees ----

// Tree is a parsed tree with what is known of it.
type Tree struct {
	Root   ast.Node
	Model  *gen.Node
	Nodes  []ast.Node  // in order of a traversal
	Models []*gen.Node // the same
	Up     []int       // parent, -1
	End    []int       // index behind the subtree
	Index  map[ast.Node]int
	src    Source
}

// NewTree makes a Tree of a parsed one; "" if it is well-formed.
func NewTree(s Source, n ast.Node) (*Tree, string) {
	t := &Tree{Root: n, src: s, Index: map[ast.Node]int{}}
	c := &conv.Conv{File: s.Call.Name, Nodes: &t.Nodes}
	t.Model = c.Node(n)
	if len(c.Bad) > 0 {
		return nil, c.Bad[0]
	}
	t.flat(t.Model, -1)
	if len(t.Models) != len(t.Nodes) {
		return nil, fmt.Sprintf("%d nodes, %d models", len(t.Nodes), len(t.Models))
	}
	for i, x := range t.Nodes {
		if _, dup := t.Index[x]; dup {
			return nil, fmt.Sprintf("%T at %s occurs twice in the tree", x, t.Models[i].Pos)
		}
		t.Index[x] = i
	}
	return t, ""
}

func (t *Tree) flat(m *gen.Node, up int) {
	i := len(t.Models)
	t.Models = append(t.Models, m)
	t.Up = append(t.Up, up)
	t.End = append(t.End, 0)
	for _, k := range m.Kids {
		t.flat(k.Node, i)
	}
	t.End[i] = len(t.Models)
}

// DrawTree draws a source that parses and parses it.
func (e *Env) DrawTree(w Weights) *Tree {
	s := DrawSource(e.D, w)
	describe(e, s)
	r := e.Parse(s.Call, s.Src)
	if r.Node == nil || r.Err != nil || r.Panic != "" {
		if s.Gen != nil {
			e.Inc("skipped: the generated script does not parse")
		} else {
			e.Inc("skipped: the script does not parse")
		}
		return nil
	}
	t, bad := NewTree(s, r.Node)
	if t == nil {
		e.Inc("skipped: ill-formed tree")
		e.Note("ill-formed: %s", bad)
		return nil
	}
	return t
}

// ---- operations ----

// VPlan says how a visitor behaves.
type VPlan struct {
	Prune int // one node in so many is not entered; 0 never
	Seed  uint64
	Cut   int    // -1: no; stop at event number Cut
	How   string // "panic", "prune" (everything from there on), "stall"
	Nest  bool   // runs other operations while visiting
}

// Op is an operation on a tree.
type Op struct {
	Kind   string // compile, compiler, fprint, walk, inspect, json, access
	Node   int
	Indent string
	Slot   int // which Compiler value; -1 a new one
	W      WFault
	Rich   bool
	Dest   string // a destination of the standard library
	Size   int
	V      VPlan
	Hook   bool // the destination runs something else when byte HookAt comes
	HookAt int
}

func (o Op) over() string {
	switch {
	case o.Dest != "":
		return fmt.Sprintf(" under %s (%d)", o.Dest, o.Size)
	case o.Rich:
		return " with more methods"
	}
	return ""
}

func (o Op) String() string {
	switch o.Kind {
	case "compile", "fprint":
		return fmt.Sprintf("%s of node %d, destination %s%s", o.Kind, o.Node, o.W, o.over())
	case "compiler":
		return fmt.Sprintf("Compiler value %d (indent %q) of node %d, destination %s%s", o.Slot, o.Indent, o.Node, o.W, o.over())
	case "walk", "inspect":
		return fmt.Sprintf("%s from node %d, %+v", o.Kind, o.Node, o.V)
	}
	return fmt.Sprintf("%s of node %d", o.Kind, o.Node)
}

// OpRes is what came of an operation.
type OpRes struct {
	Out    []byte
	Err    error
	Panic  string
	Events []int // index of the node visited, -1 for the end of one
	Bad    string
	Done   bool
	w      *Writer
	Steps  int64
}

// Same tells whether two results are alike; "" if so.
func (r OpRes) Same(q OpRes) string {
	switch {
	case r.Done != q.Done:
		return fmt.Sprintf("expected return=%v, got return=%v", r.Done, q.Done)
	case r.Panic != q.Panic:
		return fmt.Sprintf("expected panic %q, got %q", r.Panic, q.Panic)
	case (r.Err == nil) != (q.Err == nil):
		return fmt.Sprintf("expected error %v, got %v", r.Err, q.Err)
	case r.Bad != q.Bad:
		return q.Bad
	}
	if x := DiffBytes(r.Out, q.Out); x != "" {
		return x
	}
	return diffEvents(r.Events, q.Events)
}

func diffEvents(a, b []int) string {
	for i := range a {
		if i >= len(b) {
			return fmt.Sprintf("visit %d (node %d) is missing", i, a[i])
		}
		if a[i] != b[i] {
			return fmt.Sprintf("visit %d: expected node %d, got %d (-1: end of children)", i, a[i], b[i])
		}
	}
	if len(b) > len(a) {
		return fmt.Sprintf("unexpected visit %d (node %d)", len(a), b[len(a)])
	}
	return ""
}

// prune tells whether a visitor enters a node.
func (v VPlan) prune(i int) bool {
	if v.Prune <= 0 {
		return false
	}
	x := (uint64(i) + v.Seed) * 0x9e3779b97f4a7c15
	return (x>>33)%uint64(v.Prune) == 0
}

// Visits gives the visits the plan must lead to.
func (t *Tree) Visits(from int, v VPlan) (ev []int, cut bool) {
	stop := false
	var rec func(i int)
	rec = func(i int) {
		if cut && v.How == "panic" {
			return
		}
		k := len(ev)
		ev = append(ev, i)
		if k == v.Cut {
			cut = true
			stop = v.How == "prune"
			if v.How == "panic" {
				return
			}
		}
		if stop || v.prune(i) {
			return
		}
		for j := i + 1; j < t.End[i]; j = t.End[j] {
			rec(j)
			if cut && v.How == "panic" {
				return
			}
		}
		k = len(ev)
		ev = append(ev, -1)
		if k == v.Cut {
			cut = true
			stop = v.How == "prune"
		}
	}
	rec(from)
	return
}

const visitorPanic = "the visitor gave up"

type visitState struct {
	t    *Tree
	v    VPlan
	res  *OpRes
	stop bool
	nest func()
	open []int // nodes entered and not yet left (Walk only)
}

func (s *visitState) event(n ast.Node) (enter bool) {
	simrt.Yield()
	simrt.Advance(lag)
	i := -1
	if n != nil {
		var ok bool
		if i, ok = s.t.Index[n]; !ok {
			i = -2
			if s.res.Bad == "" {
				s.res.Bad = fmt.Sprintf("a %T that is not in the tree (or nil) was visited", n)
			}
		}
	}
	k := len(s.res.Events)
	if k > 4*len(s.t.Nodes)+16 {
		panic("too many visits")
	}
	s.res.Events = append(s.res.Events, i)
	if k == s.v.Cut {
		switch s.v.How {
		case "panic":
			panic(visitorPanic)
		case "prune":
			s.stop = true
		case "stall":
			simrt.Stall()
			simrt.Yield()
		}
	}
	if s.v.Nest && k%7 == 3 && s.nest != nil {
		s.nest()
	}
	if i == -1 {
		// what the end of children returns is nobody's business
		return s.v.Seed&1 == 0
	}
	return !s.stop && !s.v.prune(i)
}

// chain is a visitor that hands out a new visitor for every node entered.
type chain struct {
	s    *visitState
	node int // whose children it visits; -3 the first
}

func (c *chain) Visit(n ast.Node) ast.Visitor {
	if n != nil {
		if i, ok := c.s.t.Index[n]; ok && c.node != -3 && c.s.t.Up[i] != c.node && c.s.res.Bad == "" {
			c.s.res.Bad = fmt.Sprintf("node %d was visited with the visitor of node %d instead of its parent's (%d)", i, c.node, c.s.t.Up[i])
		}
	} else if c.node == -3 && c.s.res.Bad == "" {
		c.s.res.Bad = "the end of children was told to the visitor of the parent"
	} else if o := c.s.open; c.s.res.Bad == "" && (len(o) == 0 || o[len(o)-1] != c.node) {
		c.s.res.Bad = fmt.Sprintf("the end of children was told to the visitor of node %d, the nodes open are %v", c.node, o)
	}
	if n == nil && len(c.s.open) > 0 {
		c.s.open = c.s.open[:len(c.s.open)-1]
	}
	if !c.s.event(n) {
		return nil
	}
	i := -2
	if n != nil {
		if j, ok := c.s.t.Index[n]; ok {
			i = j
		}
		c.s.open = append(c.s.open, i)
	}
	return &chain{c.s, i}
}

// DrawOp draws an operation on a tree.
func DrawOp(d *draw.D, t *Tree, kinds []int, faults int) Op {
	o := Op{Kind: []string{"compile", "compiler", "fprint", "walk", "inspect", "json", "access"}[d.W(kinds...)]}
	o.V.Cut = -1
	if len(t.Nodes) > 1 && d.P(1, 3) {
		o.Node = d.N(len(t.Nodes))
	}
	switch o.Kind {
	case "compiler":
		o.Indent = d.Pick("  ", "", "\t", "    ", "%d ")
		o.Slot = d.N(3)
		o.Rich = d.P(1, 3)
	case "compile":
		o.Rich = d.P(1, 3)
	case "fprint":
		o.Rich = d.P(1, 3)
		if !gen.Printable(t.Models[o.Node]) {
			// look for one that can be printed
			k := d.N(len(t.Nodes))
			for i := 0; i < len(t.Nodes); i++ {
				if j := (k + i) % len(t.Nodes); gen.Printable(t.Models[j]) {
					o.Node = j
					break
				}
			}
		}
	case "walk", "inspect":
		o.V.Seed = uint64(d.N(1000))
		if d.P(1, 3) {
			o.V.Prune = d.Pick2(2, 3, 5, 12)
		}
		if d.P(faults, 10) {
			o.V.How = d.Pick("panic", "prune")
			ev, _ := t.Visits(o.Node, VPlan{Cut: -1, Prune: o.V.Prune, Seed: o.V.Seed})
			o.V.Cut = d.N(len(ev))
		}
	}
	switch o.Kind {
	case "compile", "compiler", "fprint":
		if d.P(faults, 10) {
			o.W = DrawWFault(d, len(t.Expect(o).Out), false)
		}
		if d.P(1, 5) {
			o.Dest = dests[d.N(map[bool]int{true: 5, false: 3}[o.W.Kind == ""])]
			o.Size = d.Pick2(1, 16, 64, 512, 4096)
			if o.W.Kind == "short" && strings.HasPrefix(o.Dest, "bufio") {
				o.W.Kind = "error" // bufio.Writer writes the rest of a large write again
			}
		}
	}
	return o
}

// Expect gives what the operation must do on a healthy destination, from the
// model; Done is false where the model does not say.
func (t *Tree) Expect(o Op) (r OpRes) {
	m := t.Models[o.Node]
	switch o.Kind {
	case "compile", "compiler":
		ind := "  "
		if o.Kind == "compiler" {
			ind = o.Indent
		}
		switch m.Kind {
		case "EndFor", "EndIf", "Finally", "EndFunction", "EndTry", "EndWhile", "Catch", "Else", "ElseIf":
			r.Err = errors.New("unexpected node")
		default:
			r.Out = []byte(gen.Render(m, ind))
		}
		r.Done = true
	case "fprint":
		if gen.Printable(m) {
			r.Out = []byte(gen.Print(m))
			r.Done = true
		}
	case "walk", "inspect":
		r.Events, _ = t.Visits(o.Node, o.V)
		if o.V.Cut >= 0 && o.V.How == "panic" && o.V.Cut < len(r.Events) {
			r.Panic = visitorPanic
		}
		r.Done = true
	}
	return
}

// Slots are Compiler values that live longer than one operation.
type Slots [3]*compiler.Compiler

// Do runs the operation inside the running task.
func (t *Tree) Do(o Op, slots *Slots, nest func()) (r OpRes) {
	n := t.Nodes[o.Node]
	t0 := simrt.TaskTime()
	defer func() {
		r.Steps = simrt.TaskTime() - t0
		if p := recover(); p != nil {
			r.Panic = panicText(p)
			r.Done = true
		}
		if r.w != nil {
			r.w.active = false
			r.Out = r.w.Got
		}
	}()
	if o.Kind == "compile" || o.Kind == "compiler" || o.Kind == "fprint" {
		r.w = &Writer{f: o.W, active: true}
		if o.Hook {
			r.w.hook, r.w.hookAt = nest, o.HookAt
		}
	}
	var w io.Writer
	var std dest
	if r.w != nil {
		w = std.over(o, r.w)
	}
	switch o.Kind {
	case "compile":
		r.Err = compiler.Compile(w, n)
	case "compiler":
		var c *compiler.Compiler
		if slots == nil || o.Slot < 0 {
			c = &compiler.Compiler{Config: compiler.Config{Indent: o.Indent}}
		} else {
			if slots[o.Slot] == nil {
				slots[o.Slot] = &compiler.Compiler{}
			}
			c = slots[o.Slot]
			c.Config.Indent = o.Indent
		}
		r.Err = c.Compile(w, n)
	case "fprint":
		var cfg *printer.Config
		if o.Node&1 == 1 {
			cfg = &printer.Config{}
		}
		r.Err = printer.Fprint(w, n, cfg)
	case "walk":
		s := &visitState{t: t, v: o.V, res: &r, nest: nest}
		ast.Walk(&chain{s, -3}, n)
	case "inspect":
		s := &visitState{t: t, v: o.V, res: &r, nest: nest}
		ast.Inspect(n, func(n ast.Node) bool { return s.event(n) })
	case "json":
		r.Out, r.Err = json.Marshal(n)
	case "access":
		var b strings.Builder
		for i := o.Node; i < t.End[o.Node]; i++ {
			simrt.Yield()
			x := t.Nodes[i]
			fmt.Fprint(&b, x.Pos())
			if c, ok := x.(ast.ExCommand); ok && t.Models[i].Ea != nil && t.Models[i].Ea.Name != "" {
				fmt.Fprintf(&b, "%v", c.Cmd())
			}
			b.WriteByte('\n')
		}
		r.Out = []byte(b.String())
	}
	if r.w != nil {
		std.settle(&r)
	}
	r.Done = true
	return
}

// DoAlone runs the operation on the simulator.
func (e *Env) DoAlone(t *Tree, o Op, slots *Slots, nest func()) OpRes {
	var r OpRes
	out := e.Alone(OpBudget(t), func() { r = t.Do(o, slots, nest) })
	if out.Overrun || out.Deadlock {
		r.Done = false
	}
	return r
}

// OpBudget bounds the steps of an operation.
func OpBudget(t *Tree) int64 { return 400000 + 4000*int64(len(t.src.Src)) + 2000*int64(len(t.Nodes)) }
