package harness

import (
	"fmt"

	vp "github.com/vim-jp/go-vimlparser"

	"verif/draw"
	"verif/hints"
	"verif/simrt"
)

// drawSched draws how the scheduler goes about it.
func (e *Env) drawSched(horizon int64) (simrt.Config, string) {
	d := e.D
	cfg := simrt.Config{Seed: uint64(d.N(1 << 24)), Horizon: horizon}
	switch d.W(5, 3, 2) {
	case 0:
		cfg.Strategy = simrt.RandomWalk
		cfg.Param = int64(d.Pick2(1, 3, 10, 50, 300, 2000, 10000))
		return cfg, fmt.Sprintf("random walk, a switch every %d statements", cfg.Param)
	case 1:
		cfg.Strategy = simrt.PCT
		cfg.Param = int64(1 + d.N(6))
		return cfg, fmt.Sprintf("priorities, %d change points", cfg.Param)
	}
	cfg.Strategy = simrt.RoundRobin
	cfg.Param = int64(d.Pick2(1, 2, 7, 40, 200, 1500))
	return cfg, fmt.Sprintf("round robin, %d statements each", cfg.Param)
}

// judgeRun judges what the scheduler saw.
func (e *Env) judgeRun(o simrt.Outcome, faults bool, what string) bool {
	switch {
	case o.Overrun:
		e.Failf("no-end", "the calls do not all end within the step budget: %s", what)
	case o.Deadlock:
		e.Failf("deadlock", "the calls wait for one another for ever: %s", what)
	case o.Delayed:
		e.Failf("delayed", "a call waited until another one's stalled reader, writer or visitor went on: %s", what)
	case o.Leaked > 0:
		e.Failf("left-running", "%d goroutines were left behind: %s", o.Leaked, what)
	case o.Panic != "":
		e.Failf("panic", "%s: %s", o.Panic, what)
	default:
		return true
	}
	return false
}

// crowd draws how many tasks there are beyond the few: so many that whatever is
// there in a limited number runs out.
func crowd(d *draw.D) int {
	if !d.P(1, 12) {
		return 0
	}
	n := d.Pick2(8, 5, 12, 16, 20)
	if v, ok := hints.Number(d, 1, 2, 2, 260); ok {
		n = v + d.N(2)
	}
	if hints.Cur.Tasks { // each has more of its own, perhaps
		n = min(n, 30)
	}
	return n
}

// ---- C08 ----

func init() { register("C08", c08) }

type parseJob struct {
	s    Source
	dl   Delivery
	f    Fault
	r    *Reader
	res  Res
	keep string
}

func c08(e *Env) {
	d := e.D
	shared := []*vp.ParseOption{nil, {}, {Neovim: true}}
	nt := 2 + d.W(6, 4, 2, 1, 1)
	var jobs [][]*parseJob
	size := int64(0)
	for i := 0; i < nt; i++ {
		var l []*parseJob
		for k := 1 + d.W(5, 3, 1); k > 0; k-- {
			j := &parseJob{}
			if n := len(jobs); n > 0 && d.P(1, 4) {
				// the same script as another one
				o := jobs[d.N(n)]
				j.s = o[d.N(len(o))].s
			} else {
				j.s = DrawSource(d, Weights{File: 10, Expr: 6, Corpus: 2, Mutant: 6, Soup: 2, Probe: 5, Chunk: 1})
			}
			if !j.s.Call.Expr && d.P(3, 4) {
				if j.s.Kind == "mode probe" {
					// the mode is part of the probe
					if j.s.Call.Opt != nil && j.s.Call.Opt.Neovim {
						j.s.Call.Opt = shared[2]
					} else {
						j.s.Call.Opt = shared[d.N(2)]
					}
				} else {
					j.s.Call.Opt = shared[d.N(3)]
				}
			}
			j.dl = DrawDelivery(d, j.s.Src)
			switch d.W(8, 2, 1, 1) {
			case 1:
				j.f = Fault{Kind: "stall", At: d.N(len(j.s.Src) + 1)}
			case 2:
				j.f = Fault{Kind: "error", At: d.N(len(j.s.Src) + 1), Data: d.P(1, 2)}
				j.f.ErrNam, j.f.Err = DrawErr(d)
			case 3:
				j.f = Fault{Kind: "panic", At: d.N(len(j.s.Src) + 1), Pval: "the reader broke down"}
			}
			j.r = NewReader(j.s.Src, j.dl, j.f)
			size += int64(len(j.s.Src)) + 300
			l = append(l, j)
		}
		jobs = append(jobs, l)
	}
	if more := crowd(d); more > 0 {
		// most of them stall, at the same place of the same script
		nt += more
		s := jobs[0][0].s
		if len(s.Src) > 2000 {
			s = DrawSource(d, Weights{Probe: 1})
		}
		at := d.N(len(s.Src) + 1)
		calm := d.N(more + 1)
		for i := 0; i < more; i++ {
			j := &parseJob{s: s}
			if i != calm {
				j.f = Fault{Kind: "stall", At: at}
			}
			j.r = NewReader(s.Src, j.dl, j.f)
			size += int64(len(s.Src)) + 300
			jobs = append(jobs, []*parseJob{j})
		}
		e.Inc("crowds")
	}
	cfg, how := e.drawSched(size * 40)
	cfg.Budget = 0
	for _, l := range jobs {
		for _, j := range l {
			cfg.Budget += Budget(len(j.s.Src))
		}
	}
	var tasks []func()
	for i := range jobs {
		l := jobs[i]
		tasks = append(tasks, func() {
			for _, j := range l {
				j.res = j.s.Call.DoReader(j.r, false)
			}
		})
	}
	what := fmt.Sprintf("%d tasks, %s:", nt, how)
	for i, l := range jobs {
		for _, j := range l {
			what += fmt.Sprintf("\n  task %d: %s, %s", i, j.s, j.f)
		}
	}
	e.Note("%s", what)
	e.Sample = what
	o := e.Run(cfg, tasks...)
	e.Log("%d steps, schedule %016x", o.Steps, o.SchedHash)
	e.State(o.SchedHash ^ HashString(what))
	e.Inc("schedule:" + []string{"sequential", "random walk", "PCT", "round robin", "explicit"}[cfg.Strategy])
	e.Count["context switches"] += int64(len(o.Switches))
	e.NonTriv = len(o.Switches) > nt
	if !e.judgeRun(o, true, what) {
		return
	}
	for i, l := range jobs {
		for k, j := range l {
			e.Log("task %d call %d: %s", i, k, j.res.Brief())
			if j.r.Fired > 0 {
				e.Inc("reader fault:" + j.f.Kind)
			}
			// alone
			f := j.f
			if f.Kind == "stall" {
				f = Fault{}
			}
			want := e.ParseWith(j.s.Call, NewReader(j.s.Src, j.dl, f), false, len(j.s.Src))
			at := fmt.Sprintf("task %d call %d (%s, %s) among %s", i, k, j.s.Call, j.f, what)
			if j.f.Kind == "" || j.f.Kind == "stall" {
				if m := modelDiff(j.s, j.res, true); m != "" {
					e.Failf("wrong-tree", "%s; %s", m, at)
					return
				}
				if v := j.s.Vim; v != 0 && (v == 1) != (j.res.Err == nil && j.res.Node != nil) {
					e.Failf("wrong-mode", "the script is to be %s, but: %s; %s", []string{"", "accepted", "refused"}[v], j.res.Brief(), at)
					return
				}
			}
			if x := DiffBytes(want.Key(), j.res.Key()); x != "" {
				e.Failf("not-as-alone", "alone it gives something else: %s; %s", x, at)
				return
			}
			if len(j.r.Misuse) > 0 {
				e.Failf("misuse", "%s; %s", j.r.Misuse[0], at)
				return
			}
		}
	}
	if shared[1].Neovim || !shared[2].Neovim {
		e.Failf("option-changed", "the shared option values were changed: %s", what)
	}
}

// ---- C09 ----

func init() { register("C09", c09) }

type treeJob struct {
	t     *Tree
	o     Op
	res   OpRes
	parse *parseJob
}

func c09(e *Env) {
	d := e.D
	w := Weights{File: 14, Expr: 8, Corpus: 2, Mutant: 3, Chunk: 1}
	t := e.DrawTree(w)
	if t == nil {
		return
	}
	trees := []*Tree{t}
	if d.P(1, 4) {
		if t2 := e.DrawTree(w); t2 != nil {
			trees = append(trees, t2)
		}
	}
	var before [][]byte
	for _, t := range trees {
		before = append(before, Deep(t.Root))
	}
	nt := 2 + d.W(6, 4, 2, 1, 1)
	var jobs [][]*treeJob
	size := int64(0)
	budget := int64(0)
	kinds := []int{5, 4, 4, 3, 3, 2, 2}
	for i := 0; i < nt; i++ {
		var l []*treeJob
		for k := 1 + d.W(4, 3, 2); k > 0; k-- {
			if d.P(1, 12) {
				p := &parseJob{s: DrawSource(d, Weights{File: 2, Expr: 2, Probe: 1})}
				p.r = NewReader(p.s.Src, DrawDelivery(d, p.s.Src), Fault{})
				l = append(l, &treeJob{parse: p})
				budget += Budget(len(p.s.Src))
				size += int64(len(p.s.Src)) * 40
				continue
			}
			j := &treeJob{t: trees[d.N(len(trees))]}
			j.o = DrawOp(d, j.t, kinds, 3)
			j.o.Slot = -1
			if d.P(1, 5) {
				switch j.o.Kind {
				case "walk", "inspect":
					ev, _ := j.t.Visits(j.o.Node, VPlan{Cut: -1, Prune: j.o.V.Prune, Seed: j.o.V.Seed})
					j.o.V.How, j.o.V.Cut = "stall", d.N(len(ev))
				case "compile", "compiler", "fprint":
					j.o.W = WFault{Kind: "stall", At: d.N(1 + len(j.t.Expect(j.o).Out))}
				}
			}
			l = append(l, j)
			budget += OpBudget(j.t)
			size += int64(len(j.t.Nodes)) * 30
		}
		jobs = append(jobs, l)
	}
	if more := crowd(d); more > 0 {
		nt += more
		o := DrawOp(d, t, kinds[:5], 0)
		o.Slot = -1
		if len(t.Nodes) > 200 {
			o.Node = len(t.Nodes) - 1
		}
		calm := o
		switch o.Kind {
		case "walk", "inspect":
			ev, _ := t.Visits(o.Node, VPlan{Cut: -1, Prune: o.V.Prune, Seed: o.V.Seed})
			o.V.How, o.V.Cut = "stall", d.N(len(ev))
		default:
			o.W = WFault{Kind: "stall", At: d.N(1 + len(t.Expect(o).Out))}
		}
		at := d.N(more + 1)
		for i := 0; i < more; i++ {
			j := &treeJob{t: t, o: o}
			if i == at {
				j.o = calm
			}
			jobs = append(jobs, []*treeJob{j})
			budget += OpBudget(t)
			size += int64(len(t.Nodes)) * 30
		}
		e.Inc("crowds")
	}
	cfg, how := e.drawSched(size)
	cfg.Budget = budget
	var tasks []func()
	for i := range jobs {
		l := jobs[i]
		tasks = append(tasks, func() {
			for _, j := range l {
				if j.parse != nil {
					j.parse.res = j.parse.s.Call.DoReader(j.parse.r, false)
				} else {
					j.res = j.t.Do(j.o, nil, nil)
				}
			}
		})
	}
	what := fmt.Sprintf("%d tasks, %s:", nt, how)
	for i, l := range jobs {
		for _, j := range l {
			if j.parse != nil {
				what += fmt.Sprintf("\n  task %d: parse of %s", i, j.parse.s)
			} else {
				what += fmt.Sprintf("\n  task %d: %s", i, j.o)
			}
		}
	}
	for _, t := range trees {
		what += "\n  tree of " + t.src.String()
	}
	e.Note("%s", what)
	e.Sample = what
	o := e.Run(cfg, tasks...)
	e.Log("%d steps, schedule %016x", o.Steps, o.SchedHash)
	e.State(o.SchedHash ^ HashString(what))
	e.Inc("schedule:" + []string{"sequential", "random walk", "PCT", "round robin", "explicit"}[cfg.Strategy])
	e.Count["context switches"] += int64(len(o.Switches))
	e.NonTriv = len(o.Switches) > nt
	if !e.judgeRun(o, true, what) {
		return
	}
	for i, t := range trees {
		if x := DiffBytes(before[i], Deep(t.Root)); x != "" {
			e.Failf("tree-changed", "tree %d is no longer what it was: %s; %s", i, x, what)
			return
		}
	}
	// alone, on fresh trees
	fresh := map[*Tree]*Tree{}
	for _, t := range trees {
		r := e.Parse(t.src.Call, t.src.Src)
		if r.Node != nil {
			fresh[t], _ = NewTree(t.src, r.Node)
		}
		if fresh[t] == nil {
			e.Failf("parse-again", "the bytes no longer parse: %s; %s", r.Brief(), what)
			return
		}
	}
	for i, l := range jobs {
		for k, j := range l {
			at := fmt.Sprintf("task %d operation %d among %s", i, k, what)
			if p := j.parse; p != nil {
				e.Inc("operation:parse")
				want := e.Parse(p.s.Call, p.s.Src)
				if x := DiffBytes(want.Key(), p.res.Key()); x != "" {
					e.Failf("not-as-alone", "alone it gives something else: %s; %s", x, at)
					return
				}
				continue
			}
			r := j.res
			e.Log("task %d operation %d: err=%v panic=%q out %016x events %d", i, k, r.Err != nil, r.Panic, HashBytes(r.Out), len(r.Events))
			e.Inc("operation:" + j.o.Kind)
			if r.w != nil && r.w.Fired > 0 {
				e.Inc("write fault:" + j.o.W.Kind)
			}
			if j.o.V.How != "" {
				e.Inc("visitor that stops: " + j.o.V.How)
			}
			want := e.DoAlone(fresh[j.t], j.o, nil, nil)
			if x := want.Same(r); x != "" {
				e.Failf("not-as-alone", "alone on a fresh tree it gives something else: %s; %s", x, at)
				return
			}
			if ex := j.t.Expect(j.o); ex.Done && ex.Err == nil && (j.o.W.Kind == "" || j.o.W.Kind == "stall") {
				if x := ex.Same(r); x != "" {
					e.Failf("wrong-result", "%s; %s", x, at)
					return
				}
			}
			if r.w != nil && r.w.Misuse != "" {
				e.Failf("misuse", "%s; %s", r.w.Misuse, at)
				return
			}
		}
	}
}
