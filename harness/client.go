package harness

import (
	"fmt"
	"io"

	"verif/simrt"
)

// ---- C15 ----

func init() { register("C15", c15) }

func c15(e *Env) {
	d := e.D
	s := DrawSource(d, Weights{File: 16, Expr: 8, Filler: 1, Corpus: 3, Mutant: 10, Soup: 4, Chunk: 1, Huge: d.P(1, 3)})
	describe(e, s)
	ref := e.Parse(s.Call, s.Src)
	want := ref.Key()
	if d.P(1, 2) {
		// a reader of the standard library, used a little already
		v := DrawMemory(d)
		got, left := e.ParseMemory(s.Call, v, s.Src)
		e.Inc("reader:" + v.Kind)
		e.Log("%s: %s, %d bytes left", v, got.Brief(), left)
		at := fmt.Sprintf("%s, input %s", s.Call, clip(s.Src, 1500))
		if got.Node != nil && got.Err == nil && left > 0 {
			e.Failf("not-to-the-end", "success was reported with %d bytes left in the %s (%s)", left, v, at)
		} else if x := DiffBytes(want, got.Key()); x != "" {
			e.Failf("reader-misused", "the result is not that of what the %s still held: %s (%s)", v, x, at)
		}
		if e.Viol != nil {
			return
		}
	}
	k := 1 + d.N(3)
	for i := 0; i < k && e.Viol == nil; i++ {
		dl := DrawDelivery(d, s.Src)
		f := Fault{}
		if d.P(1, 3) {
			f.Kind = "error"
			f.ErrNam, f.Err = DrawErr(d)
			f.At = d.N(len(s.Src) + 1)
			f.Data = d.P(1, 2)
			f.Heal = d.P(1, 2)
			e.Inc("read error:" + f.ErrNam)
		} else if d.P(1, 12) {
			f.Kind, f.At, f.Pval = "panic", d.N(len(s.Src)+1), "reader broke"
			e.Inc("reader panics")
		}
		rich := d.P(1, 2)
		r := NewReader(s.Src, dl, f)
		r.Keep = true
		var got Res
		cfg := simrt.Config{Budget: Budget(len(s.Src)), Strategy: simrt.RandomWalk, Seed: uint64(d.N(1 << 20)), Param: int64(d.Pick2(3, 30, 300))}
		o := e.Run(cfg, func() { got = s.Call.DoReader(r, rich) })
		if o.Overrun {
			got.Done = false
		}
		e.Log("%s; %s; rich=%v: %d reads, %s", dl, f, rich, r.nreads, got.Brief())
		e.State(HashString(fmt.Sprint(dl, f.At, f.ErrNam)) ^ HashBytes(s.Src))
		e.NonTriv = e.NonTriv || r.nreads > 1
		if rich {
			e.Inc("reader with further methods")
		}
		if dl.Scrib {
			e.Inc("reader that scribbles on the unused buffer")
		}
		if dl.Empties > 0 {
			e.Inc("empty reads")
		}
		at := fmt.Sprintf("%s, delivery [%s], %s, input %s", s.Call, dl, f, clip(s.Src, 1500))
		last := ""
		if n := len(r.Hist); n > 0 {
			last = r.Hist[n-1].Err
		}
		switch {
		case len(r.Misuse) > 0:
			e.Failf("misuse", "%s (%s)", r.Misuse[0], at)
		case o.Leaked > 0:
			e.Failf("left-running", "the call returned but left %d goroutines behind (%s)", o.Leaked, at)
		case f.Kind == "" && !got.Done:
			e.Failf("no-end", "no return (%s)", at)
		case got.Node != nil && got.Err == nil && last != io.EOF.Error():
			e.Failf("not-to-the-end", "success was reported after %d of %d bytes without having met the end (%s)", r.off, len(s.Src), at)
		case f.Kind == "":
			if x := DiffBytes(want, got.Key()); x != "" {
				e.Failf("buffer-misused", "the result is not that of the bytes delivered: %s (%s)", x, at)
			}
		}
		for j, h := range r.Hist {
			if h.Err != "" && j < len(r.Hist)-1 {
				e.Failf("read-on", "Read number %d reported %q, and %d more followed (%s)", j+1, h.Err, len(r.Hist)-1-j, at)
				break
			}
		}
	}
}
