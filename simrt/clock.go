package simrt

import (
	"sync"
	"time"
)

// The simulated clock. It moves with the statements executed, by what the
// simulated reader, writer and operating system let pass, and, when every task
// waits, to the next timer.

const (
	StepTime  = 50               // nanoseconds that a statement takes
	StallTime = 3600 * 1e9       // a stall lasts an hour unless something goes on before
	Epoch     = 1700000000 * 1e9 // when every simulation starts
)

// Timer of the simulation.
type Timer struct {
	when   int64
	seq    int64
	active bool
	fire   func()
	next   *Timer
	went   bool // since it was set
	fam    int32
	real   *time.Timer
}

// order[t.seq%n] orders the setting of a timer before its going off.
var order [256]sync.Mutex

var (
	skipped    int64 // what passed beyond the statements
	timers     *Timer
	timerSeq   int64
	stallEnd   [MaxTasks]int64
	fired      int64
	simElapsed int64 // of all simulations of the process
	late       int   // times that passed for tasks left behind
	firing     bool
	nrandom    uint64
)

//go:norace
func resetClock() { timers, timerSeq, late, firing = nil, 0, 0, false }

// Ahead is how far the clock of this process is ahead of the Epoch.
var Ahead int64

// ResetCase starts the clock and the orders of maps anew.
//
//go:norace
func ResetCase() { skipped, nrandom = 0, 0 }

// Elapsed returns the nanoseconds since the simulation began.
//
//go:norace
func Elapsed() int64 {
	if !on {
		return skipped
	}
	return skipped + steps*StepTime
}

// TotalElapsed returns the simulated time that passed so far in the process.
//
//go:norace
func TotalElapsed() int64 { return simElapsed }

// TotalFired returns how many timers went off.
//
//go:norace
func TotalFired() int64 { return fired }

//go:norace
func elapsedEnds() {
	skipped += steps * StepTime
	simElapsed += steps * StepTime
}

// Advance lets d nanoseconds pass.
//
//go:norace
func Advance(d int64) {
	if d <= 0 {
		return
	}
	skipped += d
	simElapsed += d
	if on && !killing {
		fireDue()
	}
}

// NewTimer makes a timer that calls f, which must not wait, once it is set.
func NewTimer(f func()) *Timer { return &Timer{fire: f} }

// Set starts the timer and tells whether it was running.
//
//go:norace
func (t *Timer) Set(d int64) bool {
	was := t.Stop()
	if d < 0 {
		d = 0
	}
	t.went = false
	if killing {
		return was
	}
	if !on { // while the process starts: the real thing
		t.real = time.AfterFunc(time.Duration(d), t.goOff)
		return was
	}
	t.when = Elapsed() + d
	t.seq = timerSeq
	timerSeq++
	t.ordered()
	t.active = true
	if !firing {
		t.fam = Family()
	}
	p := &timers
	for *p != nil && (*p).when <= t.when {
		p = &(*p).next
	}
	t.next, *p = *p, t
	setNext()
	return was
}

//go:norace
func (t *Timer) Stop() bool {
	if t.real != nil {
		was := t.real.Stop()
		t.real = nil
		return was
	}
	if !t.active {
		return false
	}
	t.active = false
	for p := &timers; *p != nil; p = &(*p).next {
		if *p == t {
			*p = t.next
			t.next = nil
			break
		}
	}
	return true
}

//go:norace
func (t *Timer) ordered() {
	m := &order[t.seq%int64(len(order))]
	m.Lock()
	m.Unlock()
}

//go:norace
func (t *Timer) goOff() {
	fired++
	t.went = true
	if t.fire != nil {
		t.ordered()
		t.fire()
	}
}

// Went tells whether the timer has gone off since it was set.
//
//go:norace
func (t *Timer) Went() bool { return t.went }

//go:norace
func fireDue() {
	for timers != nil && timers.when <= Elapsed() && !killing {
		t := timers
		timers = t.next
		t.next, t.active = nil, false
		firing = true
		t.goOff()
		firing = false
		Wake()
	}
}

// passTime moves the clock to what happens next, a timer or the end of a
// stall, and tells whether anything did.
//
//go:norace
func passTime() bool {
	if allDone() {
		return false
	}
	if primDone() {
		if late++; late > 1000 {
			return false
		}
	}
	at := int64(-1)
	var who int32 = -1
	for i := int32(0); i < ntasks; i++ {
		if state[i] == stStalled && (at < 0 || stallEnd[i] < at) {
			at, who = stallEnd[i], i
		}
	}
	if timers != nil && (at < 0 || timers.when < at) {
		at, who = timers.when, -1
	}
	if at < 0 {
		return false
	}
	if steps++; steps >= budget {
		overrun = true
		return false
	}
	if e := Elapsed(); at > e {
		skipped += at - e
		simElapsed += at - e
	}
	if who >= 0 {
		if someoneDelayed() {
			delayed = true
		}
		state[who] = stRunnable
		return true
	}
	fireDue()
	return true
}

// Sleep suspends the running task for d nanoseconds.
func Sleep(d int64) {
	Y(0)
	if d <= 0 {
		return
	}
	if !On() || Killing() {
		time.Sleep(time.Duration(d))
		return
	}
	t := NewTimer(nil)
	for t.Set(d); !t.Went(); {
		Block()
	}
}
