package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"unsafe"

	vp "github.com/vim-jp/go-vimlparser"
	"github.com/vim-jp/go-vimlparser/ast"

	"verif/conv"
	"verif/draw"
	"verif/gen"
	"verif/hints"
)

// ---- C10 ----

func init() { register("C10", c10).Solo = c10solo }

// step is one call of a history. It is drawn without calling the code under
// test, so that a fresh process can make this one call alone.
type step struct {
	kind  string // parse, compile, compiler, fprint, inspect, spoil
	s     Source
	dl    Delivery
	f     Fault
	tree  int // step whose tree is worked on
	node  int
	frac  int // thousandths of the output at which the destination fails
	w     WFault
	v     VPlan
	in    string
	slot  int
	spoil int
	rep   int // how many times more the call is made
}

func (h *step) String() string {
	more := ""
	if h.rep > 0 {
		more = fmt.Sprintf(" (and %d times more)", h.rep)
	}
	switch h.kind {
	case "parse":
		return fmt.Sprintf("parse%s (%s) of %s", more, h.f, h.s)
	case "spoil":
		return fmt.Sprintf("changing the tree of call %d", h.tree)
	}
	return fmt.Sprintf("%s%s of the tree of call %d, node %d, indent %q, destination %s, visitor %+v", h.kind, more, h.tree, h.node, h.in, h.w, h.v)
}

func drawHistory(d *draw.D) []*step {
	n := 2 + d.N(9)
	var l []*step
	var ps []int
	for i := 0; i < n; i++ {
		h := &step{}
		k := d.W(8, 3, 3, 2, 1, 2)
		if len(ps) == 0 {
			k = 0
		}
		h.kind = []string{"parse", "compile", "compiler", "fprint", "inspect", "spoil"}[k]
		if k == 0 {
			if len(ps) > 0 && d.P(1, 4) {
				// the same script, perhaps in another mode
				h.s = l[ps[d.N(len(ps))]].s
				if !h.s.Call.Expr && h.s.Vim == 0 && d.P(1, 2) {
					h.s.Call = DrawCall(d, false)
				}
			} else {
				h.s = DrawSource(d, Weights{File: 8, Expr: 5, Corpus: 2, Mutant: 6, Soup: 3, Probe: 6, Chunk: 1})
			}
			h.dl = DrawDelivery(d, h.s.Src)
			if d.P(1, 4) {
				h.f = Fault{At: d.N(len(h.s.Src) + 1)}
				if d.P(1, 2) {
					h.f.Kind, h.f.Pval = "panic", "the reader broke down"
				} else {
					h.f.Kind, h.f.Data = "error", d.P(1, 2)
					h.f.ErrNam, h.f.Err = DrawErr(d)
				}
			} else {
				ps = append(ps, i)
			}
		} else {
			h.tree = ps[d.N(len(ps))]
			h.node = d.N(1 << 12)
			if d.P(1, 2) {
				h.node = 0
			}
			h.in = d.Pick("  ", "", "\t", "    ")
			h.slot = d.N(3)
			h.v.Cut = -1
			if k == 5 {
				h.spoil = d.N(1 << 16)
			}
			if d.P(1, 2) {
				h.frac = d.N(1000)
				h.w = DrawWFault(d, 1000, false)
				h.v.How = "panic"
			}
		}
		size := len(h.s.Src)
		if k != 0 {
			size = 4 * len(l[h.tree].s.Src)
		}
		if k != 5 && d.P(1, 25) {
			h.rep = d.Pick2(1, 5, 20, 130, 300, 1100)
			if v, ok := hints.Number(d, 1, 2, 3, 70000); ok {
				h.rep = v
			}
			h.rep = min(h.rep, 100000/(size+20))
			if k != 0 {
				h.rep = min(h.rep, 60)
			}
		}
		l = append(l, h)
	}
	return l
}

// op is the operation of a step on the tree at hand.
func (h *step) op(t *Tree) Op {
	o := Op{Kind: h.kind, Node: h.node % len(t.Nodes), Indent: h.in, Slot: h.slot, W: h.w}
	o.V.Cut = -1
	if o.Kind == "fprint" {
		for i := range t.Nodes {
			if j := (o.Node + i) % len(t.Nodes); gen.Printable(t.Models[j]) {
				o.Node = j
				break
			}
		}
	}
	n := len(t.Expect(o).Out)
	o.W.At = n * h.frac / 1000
	if o.Kind == "inspect" && h.v.How != "" {
		o.V.How = h.v.How
		ev, _ := t.Visits(o.Node, VPlan{Cut: -1})
		o.V.Cut = len(ev) * h.frac / 1000
	}
	return o
}

// sharedOpt is the option value of all calls of a history: only its content at
// the time of the call counts.
func (h *step) call(shared *vp.ParseOption) Call {
	c := h.s.Call
	if c.Opt != nil && shared != nil {
		shared.Neovim = c.Opt.Neovim
		c.Opt = shared
	}
	return c
}

func (h *step) parse(e *Env, shared *vp.ParseOption) Res {
	c := h.call(shared)
	var was vp.ParseOption
	if c.Opt != nil {
		was = *c.Opt
	}
	r := e.ParseWith(c, NewReader(h.s.Src, h.dl, h.f), false, len(h.s.Src))
	if c.Opt != nil && *c.Opt != was {
		e.Failf("option-changed", "the option value was %+v before the call and is %+v after it: later calls with it are other calls; %s", was, *c.Opt, h)
	}
	return r
}

func opKey(r OpRes) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "done=%v panic=%q error=%v bad=%q events=%v\n", r.Done, r.Panic, r.Err != nil, r.Bad, r.Events)
	b.Write(r.Out)
	return b.Bytes()
}

func c10(e *Env) {
	d := e.D
	hist := drawHistory(d)
	check := d.N(1 << 12)
	what := fmt.Sprintf("%d calls:", len(hist))
	for i, h := range hist {
		what += fmt.Sprintf("\n  call %d: %s", i, h)
	}
	e.Note("%s", what)
	e.Sample = what
	e.State(HashString(what))
	shared := &vp.ParseOption{}
	var slots Slots
	trees := map[int]*Tree{}
	dumps := map[int][]byte{}
	addrs := map[unsafe.Pointer]int{} // holds on to the parts, so that no address is used again
	results := make([][]byte, len(hist))
	for i, h := range hist {
		at := fmt.Sprintf("call %d of %s", i, what)
		e.Inc("call:" + h.kind)
		if h.kind == "parse" {
			r := h.parse(e, shared)
			e.Log("call %d: %s", i, r.Brief())
			results[i] = r.Key()
			for k := 0; k < h.rep; k++ {
				if x := DiffBytes(results[i], h.parse(e, shared).Key()); x != "" {
					e.Failf("repetition", "the same call gives something else when made %d times: %s; %s", k+2, x, at)
					return
				}
			}
			e.Count["calls repeated at once"] += int64(h.rep)
			if h.f.Kind != "" {
				e.Inc("reader fault:" + h.f.Kind)
				e.NonTriv = true
				continue
			}
			if m := modelDiff(h.s, r, true); m != "" {
				e.Failf("wrong-tree", "%s; %s", m, at)
				return
			}
			if v := h.s.Vim; v != 0 && (v == 1) != (r.Err == nil && r.Node != nil) {
				e.Failf("wrong-mode", "the script is to be %s, but: %s; %s", []string{"", "accepted", "refused"}[v], r.Brief(), at)
				return
			}
			if r.Node == nil || r.Err != nil || r.Panic != "" {
				continue
			}
			t, _ := NewTree(h.s, r.Node)
			if t == nil {
				continue
			}
			for a, ty := range Addrs(t.Root) {
				if j, ok := addrs[a]; ok {
					e.Failf("shared-parts", "the trees of calls %d and %d share a %s; %s", j, i, ty, at)
					return
				}
				addrs[a] = i
			}
			trees[i] = t
			dumps[i] = results[i]
			continue
		}
		t := trees[h.tree]
		if t == nil {
			continue
		}
		if h.kind == "spoil" {
			n := spoil(t.Root, uint64(h.spoil))
			e.Count["fields changed"] += int64(n)
			e.NonTriv = true
			delete(trees, h.tree)
			delete(dumps, h.tree)
		} else {
			o := h.op(t)
			r := e.DoAlone(t, o, &slots, nil)
			e.Log("call %d: err=%v panic=%q out %016x", i, r.Err != nil, r.Panic, HashBytes(r.Out))
			results[i] = opKey(r)
			for k := 0; k < h.rep; k++ {
				if x := DiffBytes(results[i], opKey(e.DoAlone(t, o, &slots, nil))); x != "" {
					e.Failf("repetition", "the same call gives something else when made %d times: %s; %s", k+2, x, at)
					return
				}
			}
			e.Count["calls repeated at once"] += int64(h.rep)
			if r.w != nil && r.w.Fired > 0 {
				e.Inc("write fault:" + o.W.Kind)
				e.NonTriv = true
			}
			if ex := t.Expect(o); ex.Done && ex.Err == nil && (r.w == nil || r.w.Fired == 0) {
				if x := ex.Same(r); x != "" {
					e.Failf("wrong-result", "%s; %s", x, at)
					return
				}
			}
		}
		for j := range hist {
			if t := trees[j]; t != nil {
				if x := DiffBytes(dumps[j], Deep(t.Root)); x != "" {
					e.Failf("other-tree-changed", "the tree of call %d is no longer what it was: %s; %s", j, x, at)
					return
				}
			}
		}
	}
	for i, h := range hist {
		if t := trees[i]; t != nil {
			if x := DiffBytes(dumps[i], Deep(t.Root)); x != "" {
				e.Failf("other-tree-changed", "the tree of call %d is no longer what it was in the end: %s; %s", i, x, what)
				return
			}
		}
		_ = h
	}
	// one call alone in a fresh process: the last one most of the time
	i := len(hist) - 1
	if check%3 == 0 {
		i = check % len(hist)
	}
	for i > 0 && results[i] == nil {
		i--
	}
	if results[i] == nil {
		return
	}
	got, err := alone("C10", d.Rec, i)
	if err != nil {
		e.Failf("alone-died", "call %d alone in a fresh process ends it: %v; %s", i, err, what)
		return
	}
	e.Inc("calls repeated alone in a fresh process")
	e.NonTriv = e.NonTriv || i > 0
	if x := DiffBytes(got, results[i]); x != "" {
		e.Failf("history-dependent", "call %d gives something else than alone in a fresh process: %s; %s", i, x, what)
	}
}

// alone makes one call of a history in a fresh process.
func alone(prop string, choices []uint32, i int) ([]byte, error) {
	rf, _ := json.Marshal(ReplayFile{Property: prop, Choices: choices, Hints: &hints.Cur})
	var err error
	for k := 0; k < 3; k++ {
		c := exec.Command("/proc/self/exe", "-prop", prop, "-solo", fmt.Sprint(i))
		c.Stdin = bytes.NewReader(rf)
		var out, errb bytes.Buffer
		c.Stdout, c.Stderr = &out, &errb
		if err = c.Run(); err == nil {
			return out.Bytes(), nil
		}
		s := errb.String()
		if len(s) > 300 {
			s = s[:300]
		}
		err = fmt.Errorf("%v: %s", err, s)
	}
	return nil, err
}

func c10solo(e *Env, i int) {
	hist := drawHistory(e.D)
	h := hist[i]
	if h.kind == "parse" {
		r := h.parse(e, nil)
		os.Stdout.Write(r.Key())
		return
	}
	p := hist[h.tree]
	r := p.parse(e, nil)
	t, bad := NewTree(p.s, r.Node)
	if t == nil {
		os.Stdout.WriteString("ill-formed: " + bad)
		return
	}
	os.Stdout.Write(opKey(e.DoAlone(t, h.op(t), nil, nil)))
}

// spoil changes everything in a tree that can be changed.
func spoil(n ast.Node, seed uint64) int {
	var nodes []ast.Node
	c := &conv.Conv{Nodes: &nodes}
	c.Node(n)
	k := 0
	seen := map[uintptr]bool{}
	var val func(v reflect.Value, depth int)
	val = func(v reflect.Value, depth int) {
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() && !seen[v.Pointer()] {
				seen[v.Pointer()] = true
				val(v.Elem(), depth+1)
			}
		case reflect.Interface:
			if !v.IsNil() {
				val(v.Elem(), depth+1)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				val(v.Field(i), depth+1)
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				val(v.Index(i), depth+1)
			}
			if v.Len() > 1 && seed&1 == 0 && v.Index(0).CanSet() {
				v.Index(0).Set(v.Index(v.Len() - 1))
				k++
			}
			// what lies behind the end is also this tree's
			if v.CanSet() && v.Cap() > v.Len() {
				w := v.Slice(0, v.Cap())
				for i := v.Len(); i < v.Cap(); i++ {
					w.Index(i).Set(reflect.Zero(v.Type().Elem()))
					k++
				}
			}
		case reflect.Map:
			if v.IsNil() {
				return
			}
			for _, key := range v.MapKeys() {
				if v.Type().Elem().Kind() == reflect.Interface {
					v.SetMapIndex(key, reflect.ValueOf("spoilt"))
					k++
				}
			}
			if v.Type().Key().Kind() == reflect.String && v.Type().Elem().Kind() == reflect.Interface {
				v.SetMapIndex(reflect.ValueOf("spoilt"), reflect.ValueOf(1))
				k++
			}
		case reflect.String:
			if v.CanSet() {
				v.SetString("spoilt")
				k++
			}
		case reflect.Bool:
			if v.CanSet() {
				v.SetBool(!v.Bool())
				k++
			}
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			if v.CanSet() {
				v.SetInt(77)
				k++
			}
		}
	}
	for _, x := range nodes {
		val(reflect.ValueOf(x), 0)
	}
	return k
}
