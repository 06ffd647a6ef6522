//go:build race

package harness

import "runtime"

var races int

// Post turns reports of the race detector into violations.
var Post = func(e *Env) {
	if n := runtime.RaceErrors(); n > races {
		races = n
		e.Failf("data-race", "the race detector reported a data race (see the report in the replay file)")
	}
}

// Racy tells whether the race detector is on.
const Racy = true
