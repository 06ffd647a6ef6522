// Package harness runs the simulated cases and judges them.
package harness

import (
	"fmt"
	"sort"

	"verif/draw"
	"verif/simrt"
)

// Violation is what a case found.
type Violation struct {
	Class string `json:"class"` // stable under shrinking
	Msg   string `json:"msg"`
}

// Env is one case: a pure function of its draws (and of the explicit switch
// lists when a schedule is replayed).
type Env struct {
	D       *draw.D
	Tier    string
	Viol    *Violation
	Count   map[string]int64
	States  []uint64 // distinct behaviours of this case, by hash
	Steps   int64
	Runs    int64
	Replay  [][]simrt.Switch
	Sched   [][]simrt.Switch
	Clock   int64 // simulated nanoseconds
	Tracing bool
	Trace   []string
	Sample  string
	NonTriv bool
	log     uint64
	Prop    string
	Choices []uint32 // of the whole case, for sub-processes
}

// Case judges one case of a property.
type Case func(e *Env)

// Prop is a registered property.
type Prop struct {
	ID   string
	Case Case
	Solo func(e *Env, op int) // sub-process entry (C10)
}

var props = map[string]*Prop{}

func register(id string, c Case) *Prop {
	p := &Prop{ID: id, Case: c}
	props[id] = p
	return p
}

// Props lists the registered ids.
func Props() []string {
	var r []string
	for k := range props {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Failf records the first violation of the case.
func (e *Env) Failf(class, f string, a ...interface{}) {
	if e.Viol == nil {
		msg := fmt.Sprintf(f, a...)
		if len(msg) > 6000 {
			msg = msg[:6000] + "..."
		}
		e.Viol = &Violation{class, msg}
	}
}

// Inc counts something for the evidence.
func (e *Env) Inc(k string) { e.Count[k]++ }

// State notes a behaviour reached.
func (e *Env) State(h uint64) { e.States = append(e.States, h) }

// Logh mixes an observation into the log of the case.
func (e *Env) Logh(v uint64) { e.log = (e.log ^ v) * 0x100000001b3; e.log ^= e.log >> 31 }

// Log adds an observation to the log of the case and to the trace.
func (e *Env) Log(f string, a ...interface{}) {
	if e.Tracing {
		s := fmt.Sprintf(f, a...)
		e.Logh(HashString(s))
		if len(e.Trace) < 4000 {
			e.Trace = append(e.Trace, s)
		}
		return
	}
	e.Logh(HashString(fmt.Sprintf(f, a...)))
}

// Note adds to the trace only.
func (e *Env) Note(f string, a ...interface{}) {
	if e.Tracing && len(e.Trace) < 4000 {
		e.Trace = append(e.Trace, fmt.Sprintf(f, a...))
	}
}

// LogHash is the hash of all observations.
func (e *Env) LogHash() uint64 { return e.log }

// lag is how long, in simulated nanoseconds, every read, write and visit of
// the case takes.
var lag int64

func beginClock(d *draw.D) {
	simrt.ResetCase()
	lag = 0
	if d.P(1, 8) {
		lag = int64(d.Pick2(1, 40, 1500, 70000, 900000)) * 1e6
	}
}

// Run runs tasks on the simulator; a recorded schedule replaces the drawn one.
func (e *Env) Run(cfg simrt.Config, tasks ...func()) simrt.Outcome {
	k := len(e.Sched)
	if k < len(e.Replay) && e.Replay[k] != nil {
		cfg.Strategy = simrt.Explicit
		cfg.Switches = e.Replay[k]
	}
	o := simrt.Run(cfg, tasks...)
	e.Sched = append(e.Sched, o.Switches)
	e.Steps += o.Steps
	e.Runs++
	e.Logh(o.SchedHash)
	e.Logh(uint64(o.Steps))
	return o
}

// Alone runs one task with a step budget.
func (e *Env) Alone(budget int64, f func()) simrt.Outcome {
	o := simrt.Run(simrt.Config{Budget: budget}, f)
	e.Steps += o.Steps
	e.Runs++
	return o
}

// HashString is FNV-1a.
func HashString(s string) uint64 {
	h := uint64(0xcbf29ce484222325)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return h
}

// HashBytes is FNV-1a.
func HashBytes(s []byte) uint64 {
	h := uint64(0xcbf29ce484222325)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return h
}

func clip(b []byte, n int) string {
	if len(b) > n {
		return fmt.Sprintf("%q... (%d bytes)", b[:n], len(b))
	}
	return fmt.Sprintf("%q", b)
}

func clips(s string, n int) string { return clip([]byte(s), n) }
