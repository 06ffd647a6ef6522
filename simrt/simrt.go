// Package simrt is the deterministic run time under the simulated code: a
// cooperative scheduler whose scheduling points are the calls of Y that the
// instrumenter inserts before every statement of the code under test, and a
// step counter that serves as the simulated clock.
//
// Exactly one task runs at a time. The hand-off between tasks goes through
// plain variables in functions the race detector does not instrument, so it
// orders nothing in the detector's eyes: two accesses that only the simulated
// schedule keeps apart are still reported as a race.
//
// Nothing here reads a clock or a random source: given the configuration
// (seed or switch list) the execution is a pure function of the code.
package simrt

import (
	"bytes"
	"runtime"
	"strconv"
)

const (
	MaxTasks    = 512
	MaxSwitches = 1 << 16
)

// Strategy of the scheduler.
const (
	Sequential = iota // run each task to its end in order of id
	RandomWalk        // preempt after random intervals
	PCT               // few preemptions at random steps, random priorities
	RoundRobin        // fixed quantum
	Explicit          // follow a recorded switch list
)

// Switch is one scheduling decision: at step Step task To went on.
type Switch struct {
	Step int64
	To   int32
}

// Config of one simulated execution.
type Config struct {
	Budget   int64 // total steps allowed
	Strategy int
	Seed     uint64
	Param    int64 // mean interval, quantum, or number of change points
	Horizon  int64 // estimate of the total steps, for PCT
	Switches []Switch
}

// Outcome of one simulated execution.
type Outcome struct {
	Steps     int64
	TaskSteps []int64
	Overrun   bool   // step budget exhausted
	Deadlock  bool   // every unfinished task waits
	Delayed   bool   // unfinished tasks could only go on after a stalled one was resumed
	Left      int    // tasks started by the code under test that never end, though the harness's have ended
	Leaked    int    // tasks started by the code under test still alive at the end
	Panic     string // a task ended by a panic (task: value)
	Switches  []Switch
	SchedHash uint64
	Notes     []string
}

const (
	stNone = iota
	stRunnable
	stWaiting // waits for another task (mutex etc.), retried after Wake
	stStalled // simulated stall: goes on when nothing else can
	stBlocked // blocked in a real operation (channel, ...)
	stDone
)

var (
	on       bool
	steps    int64
	next     int64 // step at which Y takes the slow path
	budget   int64
	cur      int32 // running task, -1 none
	ntasks   int32
	nprim    int32 // tasks started by the harness
	state    [MaxTasks]int32
	tsteps   [MaxTasks]int64
	prio     [MaxTasks]int64
	goids    [MaxTasks]int64
	family   [MaxTasks]int32 // the task of the harness on whose behalf it runs
	since    int64
	killing  bool
	nblock   int32
	rng      uint64
	strat    int
	param    int64
	chg      [64]int64
	nchg     int
	sw       [MaxSwitches]Switch
	nsw      int
	rep      []Switch
	repi     int
	overrun  bool
	dead     bool
	delayed  bool
	left     int
	progress int64 // counts hand-offs and steps seen by the monitor
	panics   [MaxTasks]string
	done     [MaxTasks]chan struct{}
	nextPre  int64
	hashv    uint64
	observe  [MaxTasks]bool
)

//go:norace
func splitmix() uint64 {
	rng += 0x9e3779b97f4a7c15
	z := rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Y is the scheduling point inserted before every statement.
//
//go:norace
func Y(site int32) {
	if !on {
		return
	}
	if nblock > 0 || killing {
		slowCheck()
		if !on || killing {
			return
		}
	}
	steps++
	if steps >= next {
		slow()
	}
}

// Steps returns the simulated time.
//
//go:norace
func Steps() int64 { return steps }

// Cur returns the running task.
//
//go:norace
func Cur() int { return int(cur) }

// On reports whether a simulation is running.
//
//go:norace
func On() bool { return on }

// Killing reports whether the running tasks are being abandoned.
//
//go:norace
func Killing() bool { return killing }

//go:norace
func slow() {
	if steps >= budget {
		overrun = true
		kill()
		runtime.Goexit()
	}
	fireDue()
	me := cur
	if strat == Explicit {
		for repi < len(rep) && rep[repi].Step < steps {
			repi++
		}
		if repi < len(rep) && rep[repi].Step == steps {
			to := rep[repi].To
			repi++
			setNext()
			if to >= 0 && to < ntasks && to != me && state[to] == stRunnable {
				switchTo(to)
				waitTurn(me)
			}
			return
		}
		setNext()
		return
	}
	if steps >= nextPre {
		planPreempt()
		setNext()
		to := choose(me, true)
		if to >= 0 && to != me {
			switchTo(to)
			waitTurn(me)
		}
		return
	}
	setNext()
}

//go:norace
func setNext() {
	next = budget
	if timers != nil {
		if at := steps + (timers.when-Elapsed())/StepTime + 1; at < next {
			next = at
		}
		defer func() {
			if next <= steps {
				next = steps + 1
			}
		}()
	}
	if strat == Explicit {
		// one step can have several switches: the task that came in may end
		// or wait at once
		j := repi
		for j < len(rep) && rep[j].Step <= steps {
			j++
		}
		if j < len(rep) && rep[j].Step < next {
			next = rep[j].Step
		}
		return
	}
	if nextPre < next {
		next = nextPre
	}
	if next <= steps {
		next = steps + 1
	}
}

//go:norace
func planPreempt() {
	const never = int64(1) << 62
	switch strat {
	case RandomWalk:
		// geometric-like: uniform in [1, 2*param]
		nextPre = steps + 1 + int64(splitmix()%uint64(2*param))
	case RoundRobin:
		nextPre = steps + param
	case PCT:
		nextPre = never
		for i := 0; i < nchg; i++ {
			if chg[i] > steps && chg[i] < nextPre {
				nextPre = chg[i]
			}
		}
	default:
		nextPre = never
	}
}

// choose picks the next task; -1 when no task is runnable. pre tells a
// preemption from a task that cannot go on.
//
//go:norace
func choose(me int32, pre bool) int32 {
	n := int32(0)
	for i := int32(0); i < ntasks; i++ {
		if state[i] == stRunnable {
			n++
		}
	}
	if n == 0 {
		return -1
	}
	switch strat {
	case PCT:
		if pre && me >= 0 {
			// the running task drops to the lowest priority
			low := int64(1) << 62
			for i := int32(0); i < ntasks; i++ {
				if prio[i] < low {
					low = prio[i]
				}
			}
			prio[me] = low - 1
		}
		best := int32(-1)
		for i := int32(0); i < ntasks; i++ {
			if state[i] == stRunnable && (best < 0 || prio[i] > prio[best]) {
				best = i
			}
		}
		return best
	case RoundRobin:
		for k := int32(1); k <= ntasks; k++ {
			i := (me + k + ntasks) % ntasks
			if state[i] == stRunnable {
				return i
			}
		}
	case RandomWalk:
		k := int32(splitmix() % uint64(n))
		for i := int32(0); i < ntasks; i++ {
			if state[i] == stRunnable {
				if k == 0 {
					return i
				}
				k--
			}
		}
	case Explicit:
		for j := repi; j < len(rep) && rep[j].Step <= steps; j++ {
			if rep[j].Step == steps {
				to := rep[j].To
				if to >= 0 && to < ntasks && state[to] == stRunnable {
					repi = j + 1
					return to
				}
			}
		}
	}
	for i := int32(0); i < ntasks; i++ {
		if state[i] == stRunnable {
			return i
		}
	}
	return -1
}

//go:norace
func switchTo(to int32) {
	if cur >= 0 {
		tsteps[cur] += steps - since
	}
	since = steps
	if nsw < MaxSwitches {
		sw[nsw] = Switch{steps, to}
		nsw++
	}
	hashv = (hashv ^ uint64(steps)<<8 ^ uint64(to)) * 0x100000001b3
	cur = to
	progress++
}

//go:norace
func waitTurn(me int32) {
	for cur != me && !killing {
		runtime.Gosched()
	}
	if killing {
		runtime.Goexit()
	}
}

// giveUp passes control on because the running task cannot continue. It
// returns false when nobody can.
//
//go:norace
func giveUp(me int32) bool {
	to := choose(me, false)
	for to < 0 {
		// a timer, or the end of a stall?
		if !passTime() {
			return false
		}
		to = choose(me, false)
	}
	switchTo(to)
	return true
}

// someoneDelayed tells whether a task of the harness waits although none of
// those that run on its behalf is stalled or sleeps.
//
//go:norace
func someoneDelayed() bool {
	for j := int32(0); j < nprim; j++ {
		if state[j] != stWaiting && state[j] != stBlocked {
			continue
		}
		own := false
		for i := int32(0); i < ntasks; i++ {
			if family[i] == j && state[i] == stStalled {
				own = true
			}
		}
		for t := timers; t != nil; t = t.next {
			own = own || t.fam == j // goes on by itself
		}
		if !own {
			return true
		}
	}
	return false
}

//go:norace
func primDone() bool {
	for j := int32(0); j < nprim; j++ {
		if state[j] != stDone {
			return false
		}
	}
	return true
}

// countLeft counts what stays when the tasks of the harness have ended.
//
//go:norace
func countLeft() {
	if killing || !primDone() {
		return
	}
	left = 0
	for i := nprim; i < ntasks; i++ {
		if state[i] != stDone {
			left++
		}
	}
}

//go:norace
func kill() {
	countLeft()
	killing = true
}

// slowCheck handles the rare modes: being killed, and tasks that were blocked
// in a real operation and woke up on their own.
//
//go:norace
func slowCheck() {
	if killing {
		if isMonitor() {
			return
		}
		runtime.Goexit()
	}
	id := goid()
	for i := int32(0); i < ntasks; i++ {
		if goids[i] == id {
			if state[i] == stBlocked {
				state[i] = stRunnable
				nblock--
			}
			if cur != i {
				waitTurn(i)
			}
			return
		}
	}
}

//go:norace
func isMonitor() bool { return goid() == monitorID }

var monitorID int64

//go:norace
func goid() int64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := bytes.Fields(b[:n])
	if len(f) < 2 {
		return -1
	}
	v, _ := strconv.ParseInt(string(f[1]), 10, 64)
	return v
}

// Block suspends the running task until another task calls Wake.
//
//go:norace
func Block() {
	if !on {
		runtime.Gosched()
		return
	}
	if killing {
		runtime.Goexit()
	}
	if steps++; steps >= budget { // even waiting in turns ends
		overrun = true
		kill()
		runtime.Goexit()
	}
	me := cur
	state[me] = stWaiting
	if !giveUp(me) {
		dead = !overrun && !primDone()
		countLeft()
		kill()
		runtime.Goexit()
	}
	waitTurn(me)
}

// Wake makes all waiting tasks try again.
//
//go:norace
func Wake() {
	if !on {
		return
	}
	for i := int32(0); i < ntasks; i++ {
		if state[i] == stWaiting {
			state[i] = stRunnable
		}
	}
}

// Stall suspends the running task until no other task can go on: a reader or
// writer that hangs.
//
//go:norace
func Stall() {
	if !on || killing {
		return
	}
	me := cur
	n := 0
	if timers != nil {
		n = 1
	}
	for i := int32(0); i < ntasks; i++ {
		if i != me && (state[i] == stRunnable || state[i] == stWaiting || state[i] == stBlocked) {
			n++
		}
	}
	if n == 0 {
		return
	}
	steps++
	stallEnd[me] = Elapsed() + StallTime
	state[me] = stStalled
	if !giveUp(me) {
		state[me] = stRunnable
		return
	}
	waitTurn(me)
}

// Kill abandons all tasks: the simulated process has ended.
//
//go:norace
func Kill() {
	if on {
		kill()
	}
}

// Yield is a scheduling point of the harness: the running task offers to be
// preempted right here with even odds.
//
//go:norace
func Yield() {
	if !on {
		return
	}
	Y(0)
	if !on || killing {
		return
	}
	steps++ // every decision has a step of its own
	if strat == RandomWalk || strat == PCT {
		if splitmix()&1 == 0 {
			return
		}
		me := cur
		to := choose(me, true)
		if to >= 0 && to != me {
			switchTo(to)
			waitTurn(me)
		}
	} else if strat == Explicit {
		me := cur
		for j := repi; j < len(rep) && rep[j].Step <= steps; j++ {
			if rep[j].Step == steps {
				to := rep[j].To
				repi = j + 1
				if to >= 0 && to < ntasks && to != me && state[to] == stRunnable {
					switchTo(to)
					waitTurn(me)
				}
				return
			}
		}
	}
}

//go:norace
func finish(me int32) {
	state[me] = stDone
	if killing {
		return
	}
	// a finished task may have released something
	for i := int32(0); i < ntasks; i++ {
		if state[i] == stWaiting {
			state[i] = stRunnable
		}
	}
	if cur != me {
		return
	}
	steps++
	if !giveUp(me) {
		if cur >= 0 {
			tsteps[cur] += steps - since
			since = steps
		}
		cur = -1
		progress++
	}
}

// Go starts f as a task of the simulation (a go statement of the code under
// test). Outside a simulation it is a plain go statement.
func Go(f func()) {
	if !On() || Killing() {
		go f()
		return
	}
	id := newTask()
	if id < 0 {
		go f()
		return
	}
	start(id, f)
	Y(0)
}

// Family tells on whose behalf the running task runs.
//
//go:norace
func Family() int32 {
	if on && cur >= 0 {
		return family[cur]
	}
	return -1
}

//go:norace
func setFamily(id, fam int32) {
	if fam >= 0 {
		family[id] = fam
	}
}

// Start is Go, on someone's behalf and without giving anyone else a turn: for
// timers.
func Start(fam int32, f func()) {
	if !On() || Killing() {
		go f()
		return
	}
	id := newTask()
	if id < 0 {
		go f()
		return
	}
	setFamily(id, fam)
	start(id, f)
}

//go:norace
func newTask() int32 {
	id := ntasks
	for i := nprim; on && i < ntasks; i++ {
		if state[i] == stDone {
			id = i // its goroutine is gone
			break
		}
	}
	if id >= MaxTasks {
		return -1
	}
	state[id] = stRunnable
	tsteps[id] = 0
	goids[id] = 0
	family[id] = id
	if on && cur >= 0 {
		family[id] = family[cur]
	}
	panics[id] = ""
	if strat == PCT {
		prio[id] = int64(splitmix() >> 2)
	}
	if id == ntasks {
		ntasks++
	}
	return id
}

func start(id int32, f func()) {
	ch := make(chan struct{}, 1)
	setDone(id, ch)
	go func() {
		defer func() {
			// Goexit and normal ends come here too
			if p := recover(); p != nil {
				notePanic(id, p)
			}
			ch <- struct{}{}
			finish(id)
		}()
		enter(id)
		f()
	}()
}

//go:norace
func setDone(id int32, ch chan struct{}) { done[id] = ch }

//go:norace
func enter(id int32) {
	goids[id] = goid()
	waitTurn(id)
}

func notePanic(id int32, p interface{}) {
	s := ""
	switch v := p.(type) {
	case error:
		s = v.Error()
	case string:
		s = v
	default:
		s = "panic"
	}
	setPanic(id, s)
}

//go:norace
func setPanic(id int32, s string) { panics[id] = s }

//go:norace
func setup(cfg Config) {
	steps, since, progress = 0, 0, 0
	budget = cfg.Budget
	if budget <= 0 {
		budget = 1 << 40
	}
	cur, ntasks, nprim = -1, 0, 0
	killing, overrun, dead, delayed = false, false, false, false
	left = 0
	nblock, nsw, repi = 0, 0, 0
	rep = cfg.Switches
	rng = cfg.Seed
	strat, param = cfg.Strategy, cfg.Param
	if param <= 0 {
		param = 1
	}
	hashv = 0xcbf29ce484222325
	nchg = 0
	if strat == PCT {
		h := uint64(cfg.Horizon)
		if h == 0 {
			h = 1000
		}
		for i := int64(0); i < param && nchg < len(chg); i++ {
			chg[nchg] = 1 + int64(splitmix()%h)
			nchg++
		}
	}
	monitorID = goid()
	resetChans()
	resetClock()
}

//go:norace
func begin() {
	nprim = ntasks
	planPreempt()
	setNext()
	on = true
	first := choose(-1, false)
	if first >= 0 {
		switchTo(first)
	}
}

// monitor drives the run from the goroutine that started it: it waits until
// the last task has finished and takes control away from tasks that block in
// a real operation.
//
//go:norace
func monitor() {
	last, lastSteps := int64(-1), int64(-1)
	spins := 0
	for {
		if cur < 0 && !killing {
			// nobody runs: finished, or all blocked
			if allDone() {
				return
			}
			// blocked tasks may have been woken and wait for their turn
			to := choose(-1, false)
			if to >= 0 {
				switchTo(to)
				continue
			}
			spins++
			if spins > 400 {
				if !anyAwake() {
					countLeft()
					return // deadlock or leak, told apart by the caller
				}
				spins = 0
			}
			runtime.Gosched()
			continue
		}
		if killing {
			return
		}
		if progress != last || steps != lastSteps {
			last, lastSteps = progress, steps
			spins = 0
		} else {
			spins++
			if spins > 400 {
				spins = 0
				if blockedNow(cur) {
					state[cur] = stBlocked
					nblock++
					if !giveUp(cur) {
						tsteps[cur] += steps - since
						since = steps
						cur = -1
						progress++
					}
				}
			}
		}
		runtime.Gosched()
	}
}

//go:norace
func allDone() bool {
	for i := int32(0); i < ntasks; i++ {
		if state[i] != stDone {
			return false
		}
	}
	return true
}

// anyAwake reports whether a task marked blocked is in truth on its way.
//
//go:norace
func anyAwake() bool {
	for i := int32(0); i < ntasks; i++ {
		if state[i] == stBlocked && !blockedNow(i) {
			return true
		}
	}
	return false
}

// blockedNow looks at the goroutine's state in the Go run time.
//
//go:norace
func blockedNow(id int32) bool {
	if id < 0 || goids[id] == 0 {
		return false
	}
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	buf = buf[:n]
	key := []byte("goroutine " + strconv.FormatInt(goids[id], 10) + " [")
	i := bytes.Index(buf, key)
	if i < 0 {
		return false
	}
	rest := buf[i+len(key):]
	j := bytes.IndexByte(rest, ']')
	if j < 0 {
		return false
	}
	st := string(rest[:j])
	for _, p := range []string{"chan receive", "chan send", "select", "sync.", "semacquire"} {
		if len(st) >= len(p) && st[:len(p)] == p {
			return true
		}
	}
	return false
}

//go:norace
func result(out *Outcome) (leaked []int32) {
	on = false
	elapsedEnds()
	out.Steps = steps
	out.Overrun = overrun
	out.Deadlock = dead
	out.Delayed = delayed
	out.Left = left
	out.SchedHash = hashv
	out.TaskSteps = make([]int64, ntasks)
	for i := int32(0); i < ntasks; i++ {
		out.TaskSteps[i] = tsteps[i]
		if panics[i] != "" && out.Panic == "" {
			out.Panic = "task " + strconv.Itoa(int(i)) + ": " + panics[i]
		}
		if state[i] != stDone {
			leaked = append(leaked, i)
		}
	}
	out.Switches = make([]Switch, nsw)
	for i := 0; i < nsw; i++ {
		out.Switches[i] = sw[i]
	}
	return leaked
}

//go:norace
func doneChan(i int32) chan struct{} { return done[i] }

//go:norace
func numTasks() int32 { return ntasks }

//go:norace
func isDone(i int32) bool { return state[i] == stDone }

//go:norace
func setKilling(b bool) { killing = b }

//go:norace
func setOn(b bool) { on = b }

// Run executes the tasks under the configuration.
func Run(cfg Config, tasks ...func()) Outcome {
	var out Outcome
	setup(cfg)
	for _, f := range tasks {
		id := newTask()
		start(id, f)
	}
	begin()
	monitor()
	// let abandoned tasks leave
	wasKilling := Killing()
	if wasKilling || !allDone() {
		setKilling(true)
		for spin := 0; spin < 2000 && !allDone(); spin++ {
			runtime.Gosched()
		}
	}
	leaked := result(&out)
	for i := int32(0); i < numTasks(); i++ {
		if isDone(i) {
			<-doneChan(i)
		}
	}
	if len(leaked) > 0 {
		prim := false
		for _, i := range leaked {
			if i < nprim {
				prim = true
			}
		}
		if prim && !out.Overrun {
			out.Deadlock = true
		}
		out.Leaked = len(leaked)
	}
	setKilling(false)
	return out
}

// TaskTime returns the steps the running task has taken.
//
//go:norace
func TaskTime() int64 {
	if cur < 0 {
		return 0
	}
	return tsteps[cur] + steps - since
}
