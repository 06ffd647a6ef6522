//go:build !race

package harness

// Post has nothing to add without the race detector.
var Post func(e *Env)

// Racy tells whether the race detector is on.
const Racy = false
