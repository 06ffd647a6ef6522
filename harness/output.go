package harness

import (
	"bytes"
	"fmt"
)

// ---- C06 ----

func init() { register("C06", c06) }

var treeWeights = Weights{File: 20, Expr: 10, Filler: 0, Corpus: 3, Mutant: 6, Chunk: 1}

func c06(e *Env) {
	d := e.D
	w := treeWeights
	if d.P(1, 40) {
		w = Weights{Filler: 1, Huge: d.P(1, 10)}
	}
	if d.P(1, 3) {
		w = Weights{Expr: 1}
	}
	t := e.DrawTree(w)
	if t == nil {
		return
	}
	var slots Slots
	k := 1 + d.N(5)
	for i := 0; i < k && e.Viol == nil; i++ {
		o := DrawOp(d, t, []int{4, 6, 5}, 7)
		e.judgeOutput(t, o, &slots)
		if e.Viol == nil && o.W.Kind != "" {
			// the same again, to a healthy destination
			o.W = WFault{}
			e.judgeOutput(t, o, &slots)
		}
	}
}

// judgeOutput does a rendering and judges it.
func (e *Env) judgeOutput(t *Tree, o Op, slots *Slots) {
	want := t.Expect(o)
	r := e.DoAlone(t, o, slots, nil)
	e.Log("%s: err=%v panic=%q, %d of %d bytes in %d calls, %d after the failure", o, r.Err != nil, r.Panic, len(r.Out), len(want.Out), r.w.Calls, r.w.After)
	e.State(HashBytes(t.src.Src) ^ HashString(fmt.Sprint(o.Kind, o.Node, o.W.Kind, o.W.At, o.W.Heal, o.Dest)))
	if o.Dest != "" {
		e.Inc("destination:" + o.Dest)
	}
	at := fmt.Sprintf("(%s; %s)", o, t.src)
	if r.w.Misuse != "" {
		e.Failf("misuse", "%s %s", r.w.Misuse, at)
		return
	}
	if !want.Done {
		// not supported by the printer: an error or a panic, but no output
		e.Inc("unsupported node")
		if r.Err == nil && r.Panic == "" && len(r.Out) == 0 {
			e.Failf("nothing-written", "success without output for a node the printer does not support %s", at)
		}
		if r.Err != nil && len(r.Out) > 0 {
			e.Failf("partial-output", "an unsupported node led to an error and to the output %s %s", clip(r.Out, 200), at)
		}
		return
	}
	if want.Err != nil {
		e.Inc("node that is not compiled by itself")
		if r.Err == nil && len(r.Out) == 0 {
			e.Failf("nothing-written", "success without output %s", at)
		}
		if r.Err != nil && len(r.Out) > 0 {
			e.Failf("partial-output", "an error came with the output %s %s", clip(r.Out, 200), at)
		}
		return
	}
	full := want.Out
	switch {
	case !r.Done:
		e.Failf("no-end", "the rendering does not end %s", at)
		return
	case r.w.Fired == 0 && r.Panic != "":
		e.Failf("panic", "panic %q on a healthy destination %s", r.Panic, at)
		return
	case r.w.Fired == 0 && r.Err != nil:
		e.Failf("healthy-error", "error %v on a healthy destination %s", r.Err, at)
		return
	case r.w.Fired == 0:
		if x := DiffBytes(full, r.Out); x != "" {
			e.Failf("wrong-output", "success, but the output is wrong: %s %s", x, at)
		}
		e.Inc("healthy renderings")
		return
	}
	e.NonTriv = true
	e.Inc("write fault:" + o.W.Kind)
	if o.W.Kind == "error" || o.W.Kind == "full+error" {
		e.Inc("write error:" + o.W.Name)
	}
	if o.W.Kind == "panic" {
		if r.Panic != "" && r.Panic != writerPanic {
			e.Failf("other-panic", "the destination's panic became %q %s", r.Panic, at)
		}
		if r.Panic == "" && r.Err == nil {
			e.Failf("failure-lost", "the destination panicked, the call reports success %s", at)
		}
	} else if r.Panic != "" {
		e.Failf("panic", "a write failure became the panic %q %s", r.Panic, at)
	} else if r.Err == nil && o.W.Kind == "short" && bytes.Equal(full, r.Out) {
		// what the short write left out was written afterwards
		e.Inc("short write made up for")
	} else if r.Err == nil {
		e.Failf("failure-lost", "a write failed (%s), the call reports success %s", o.W, at)
	}
	if !bytes.HasPrefix(full, r.Out) {
		e.Failf("not-a-prefix", "what the destination took is no leading part of the rendering: %s %s", DiffBytes(full, r.Out), at)
	}
	if r.w.After > 0 && o.W.Kind != "short" {
		e.Failf("write-after-failure", "%d more writes after the failed one %s", r.w.After, at)
	}
}

// ---- C07 ----

func init() { register("C07", c07) }

func c07(e *Env) {
	d := e.D
	t := e.DrawTree(treeWeights)
	if t == nil {
		return
	}
	before := Deep(t.Root)
	addr := len(Addrs(t.Root))
	var slots Slots
	k := 2 + d.N(8)
	for i := 0; i < k && e.Viol == nil; i++ {
		o := DrawOp(d, t, []int{4, 4, 3, 3, 3, 2, 2}, 4)
		// alone on a fresh tree
		fr := e.Parse(t.src.Call, t.src.Src)
		if fr.Node == nil {
			e.Failf("parse-again", "the same bytes no longer parse: %s (%s)", fr.Brief(), t.src)
			return
		}
		ft, bad := NewTree(t.src, fr.Node)
		if ft == nil {
			e.Failf("parse-again", "the same bytes now give an ill-formed tree: %s (%s)", bad, t.src)
			return
		}
		want := e.DoAlone(ft, o, nil, nil)
		var inner Op
		var innerWant OpRes
		nest := func() {}
		if o.Kind == "walk" || o.Kind == "inspect" {
			if o.V.Nest = d.P(1, 3); o.V.Nest {
				inner = DrawOp(d, t, []int{4, 4, 3, 0, 3, 2, 2}, 3)
				innerWant = e.DoAlone(ft, inner, nil, nil)
				left := 3
				nest = func() {
					if left--; left < 0 {
						return
					}
					r := t.Do(inner, &slots, nil)
					e.Inc("operation inside a visit")
					if x := innerWant.Same(r); x != "" {
						e.Failf("history-dependent", "inside a visit: %s gives another result than on a fresh tree: %s (%s)", inner, x, t.src)
					}
				}
			}
		}
		r := e.DoAlone(t, o, &slots, nest)
		e.Log("%s: err=%v panic=%q out %016x events %d", o, r.Err != nil, r.Panic, HashBytes(r.Out), len(r.Events))
		e.Inc("operation:" + o.Kind)
		if r.Panic != "" {
			e.Inc("operations abandoned by a panic")
			e.NonTriv = true
		}
		if o.W.Kind != "" && r.w.Fired > 0 {
			e.Inc("write fault:" + o.W.Kind)
			e.NonTriv = true
		}
		if !r.Done {
			e.Failf("no-end", "%s does not end (%s)", o, t.src)
			return
		}
		if x := want.Same(r); x != "" {
			e.Failf("history-dependent", "operation %d, %s, gives another result than on a fresh tree: %s (%s)", i, o, x, t.src)
		}
		if ex := t.Expect(o); ex.Done && o.W.Kind == "" && ex.Err == nil {
			if x := ex.Same(r); x != "" {
				e.Failf("wrong-result", "operation %d, %s: %s (%s)", i, o, x, t.src)
			}
		}
		if x := DiffBytes(before, Deep(t.Root)); x != "" {
			e.Failf("tree-changed", "operation %d, %s, changed the tree: %s (%s)", i, o, x, t.src)
		}
	}
	if n := len(Addrs(t.Root)); n != addr && e.Viol == nil {
		e.Failf("tree-changed", "the tree had %d parts before, now %d (%s)", addr, n, t.src)
	}
	e.State(e.LogHash())
}

// ---- C11 ----

func init() { register("C11", c11) }

func c11(e *Env) {
	d := e.D
	t := e.DrawTree(treeWeights)
	if t == nil {
		return
	}
	k := 1 + d.N(5)
	for i := 0; i < k && e.Viol == nil; i++ {
		o := DrawOp(d, t, []int{0, 0, 0, 1, 1}, 5)
		want := t.Expect(o)
		r := e.DoAlone(t, o, nil, nil)
		e.Log("%s: panic=%q %d events", o, r.Panic, len(r.Events))
		e.State(HashBytes(t.src.Src) ^ HashString(fmt.Sprint(o)))
		e.Inc("traversal:" + o.Kind)
		if o.V.Prune > 0 {
			e.Inc("visitor that prunes")
		}
		if o.V.Cut >= 0 {
			e.Inc("visitor that stops: " + o.V.How)
		}
		e.NonTriv = e.NonTriv || len(r.Events) > 4
		at := fmt.Sprintf("(%s; %s)", o, t.src)
		if !r.Done {
			e.Failf("no-end", "the traversal does not end %s", at)
			return
		}
		if r.Bad != "" {
			e.Failf("wrong-visitor", "%s %s", r.Bad, at)
			return
		}
		if r.Panic != want.Panic {
			e.Failf("panic", "expected panic %q, got %q %s", want.Panic, r.Panic, at)
			return
		}
		if x := diffEvents(want.Events, r.Events); x != "" {
			e.Failf("wrong-visits", "%s %s", x, at)
			return
		}
		if o.V.Cut >= 0 {
			o.V.Cut = -1
			o.V.Prune = 0
			want = t.Expect(o)
			r = e.DoAlone(t, o, nil, nil)
			if x := want.Same(r); x != "" {
				e.Failf("not-complete-again", "the traversal after one that was stopped: %s %s", x, at)
			}
		}
	}
}
