package harness

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"

	"verif/draw"
	"verif/hints"
	"verif/simrt"
)

// Found is a violation with what reproduces it.
type Found struct {
	Case    int              `json:"case"`
	Class   string           `json:"class"`
	Msg     string           `json:"msg"`
	Choices []uint32         `json:"choices"`
	Sched   [][]simrt.Switch `json:"sched,omitempty"`
	Trace   []string         `json:"trace,omitempty"`
	LogHash string           `json:"loghash"`
	Hints   hints.Set        `json:"hints"`
}

// Report is what a worker says about a batch.
type Report struct {
	Cases    int              `json:"cases"`
	Runs     int64            `json:"runs"`
	Steps    int64            `json:"steps"`
	Clock    int64            `json:"clock"` // microseconds
	Count    map[string]int64 `json:"count"`
	States   []uint64         `json:"states"`
	NonTriv  []uint64         `json:"nontriv"`
	Samples  []string         `json:"samples"`
	LogHash  string           `json:"loghash"`
	CaseLogs []string         `json:"caselogs,omitempty"`
}

// ReplayFile is the input of a replay. Prefix lists the cases to run first in
// the same process.
type ReplayFile struct {
	Property string             `json:"property"`
	Choices  []uint32           `json:"choices"`
	Sched    [][]simrt.Switch   `json:"sched,omitempty"`
	UseSched bool               `json:"use_sched"`
	Prefix   [][]uint32         `json:"prefix,omitempty"`
	PrefixS  [][][]simrt.Switch `json:"-"`
	Hints    *hints.Set         `json:"hints,omitempty"` // what the generators were given to try
}

func (rf *ReplayFile) useHints() {
	if rf.Hints != nil {
		hints.Cur = *rf.Hints
	}
}

// CaseSeed is the seed of a case.
func CaseSeed(seed uint64, prop string, batch, i int) uint64 {
	return draw.Mix(seed, HashString(prop), uint64(batch), uint64(i))
}

var proto *bufio.Writer

func say(tag string, v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	fmt.Fprintf(proto, "%s %s\n", tag, b)
	proto.Flush()
}

// Main is the worker. post, if not nil, is asked after every case for faults
// that only the process as a whole knows (races).
func Main(post func(e *Env)) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError) // flag.CommandLine is the command's
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	batch := fs.Int("batch", 0, "")
	from := fs.Int("from", 0, "")
	n := fs.Int("n", 1, "")
	tier := fs.String("tier", "quick", "")
	replay := fs.String("replay", "", "")
	trace := fs.Bool("trace", false, "")
	caselogs := fs.Bool("caselogs", false, "")
	solo := fs.Int("solo", -1, "")
	fs.Parse(os.Args[1:])
	runtime.GOMAXPROCS(1)
	debug.SetMaxStack(900 << 20)
	debug.SetGCPercent(200)
	p := props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	w := os.NewFile(3, "protocol")
	if _, err := w.Stat(); err != nil {
		w = os.Stdout
	}
	proto = bufio.NewWriter(w)

	if *solo >= 0 {
		var rf ReplayFile
		if err := json.NewDecoder(os.Stdin).Decode(&rf); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		rf.useHints()
		e := &Env{D: draw.Replay(rf.Choices), Tier: *tier, Count: map[string]int64{}, Prop: *prop}
		hints.Begin(e.D)
		beginClock(e.D)
		p.Solo(e, *solo)
		say("S", e.Count)
		os.Stdout.WriteString(e.Sample)
		os.Exit(0)
	}

	run := func(d *draw.D, sched [][]simrt.Switch, tracing bool) *Env {
		e := &Env{D: d, Tier: *tier, Count: map[string]int64{}, Replay: sched, Tracing: tracing, log: 0xcbf29ce484222325, Prop: *prop}
		hints.Begin(d)
		beginClock(d)
		t0, n0 := simrt.TotalElapsed(), simrt.TotalFired()
		p.Case(e)
		e.Clock += simrt.TotalElapsed() - t0
		if n := simrt.TotalFired() - n0; n > 0 {
			e.Count["probe: timers that went off"] += n
		}
		if post != nil {
			post(e)
		}
		return e
	}
	found := func(i int, e *Env) {
		f := Found{Case: i, Class: e.Viol.Class, Msg: e.Viol.Msg, Choices: e.D.Rec, Sched: e.Sched, Trace: e.Trace, Hints: hints.Cur, LogHash: fmt.Sprintf("%016x", e.log)}
		say("V", f)
	}

	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var rf ReplayFile
		if err := json.Unmarshal(b, &rf); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		rf.useHints()
		for _, c := range rf.Prefix {
			run(draw.Replay(c), nil, false)
		}
		var sc [][]simrt.Switch
		if rf.UseSched {
			sc = rf.Sched
		}
		fmt.Fprintf(proto, "@ %d\n", 0)
		proto.Flush()
		e := run(draw.Replay(rf.Choices), sc, *trace)
		if e.Viol != nil {
			found(0, e)
		}
		say("R", Report{Cases: 1, Steps: e.Steps, Runs: e.Runs, LogHash: fmt.Sprintf("%016x", e.log)})
		os.Exit(0)
	}

	rep := Report{Count: map[string]int64{}}
	states := map[uint64]bool{}
	var all uint64 = 0xcbf29ce484222325
	for i := *from; i < *from+*n; i++ {
		fmt.Fprintf(proto, "@ %d\n", i)
		proto.Flush()
		d := draw.New(CaseSeed(*seed, *prop, *batch, i))
		e := run(d, nil, false)
		rep.Cases++
		rep.Runs += e.Runs
		rep.Steps += e.Steps
		rep.Clock += e.Clock / 1000
		for k, v := range e.Count {
			rep.Count[k] += v
		}
		for _, s := range e.States {
			states[s] = true
		}
		if e.NonTriv {
			rep.NonTriv = append(rep.NonTriv, e.log)
		}
		if e.NonTriv && len(rep.Samples) < 1 && e.Sample != "" {
			s := e.Sample
			if len(s) > 700 {
				s = s[:700] + "..."
			}
			rep.Samples = append(rep.Samples, strings.ToValidUTF8(s, "?"))
		}
		all = (all ^ e.log) * 0x100000001b3
		all ^= all >> 29
		if *caselogs {
			rep.CaseLogs = append(rep.CaseLogs, fmt.Sprintf("%016x", e.log))
		}
		if e.Viol != nil {
			found(i, e)
			break
		}
	}
	for s := range states {
		rep.States = append(rep.States, s)
	}
	rep.LogHash = fmt.Sprintf("%016x", all)
	say("R", rep)
	os.Exit(0)
}
