// Package draw is the single source of choices of a simulated run. A run is a
// pure function of its sequence of draws; 0 is the simplest choice everywhere,
// so a shorter or smaller sequence is a simpler run.
package draw

// D hands out choices, from a seed or from a recorded sequence.
type D struct {
	state  uint64
	rep    []uint32
	replay bool
	i      int
	Rec    []uint32
	Max    int // draws after which every choice is 0; 0 no limit
}

// New draws from a seed.
func New(seed uint64) *D { return &D{state: seed} }

// Replay repeats a recorded sequence; choices beyond its end are 0.
func Replay(rec []uint32) *D { return &D{rep: rec, replay: true} }

// Mix derives a seed from several numbers.
func Mix(vs ...uint64) uint64 {
	h := uint64(0x9e3779b97f4a7c15)
	for _, v := range vs {
		h ^= v
		h *= 0xbf58476d1ce4e5b9
		h ^= h >> 29
		h *= 0x94d049bb133111eb
		h ^= h >> 32
	}
	return h
}

func (d *D) raw() uint32 {
	d.state += 0x9e3779b97f4a7c15
	z := d.state
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return uint32((z ^ (z >> 31)) >> 16)
}

// N returns a choice in [0,n).
func (d *D) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if d.replay {
		if d.i < len(d.rep) {
			v = d.rep[d.i] % uint32(n)
		}
		d.i++
	} else if d.Max == 0 || len(d.Rec) < d.Max {
		v = d.raw() % uint32(n)
	}
	d.Rec = append(d.Rec, v)
	return int(v)
}

// P is true with probability num/den; the simple choice is false.
func (d *D) P(num, den int) bool { return d.N(den) >= den-num }

// W returns an index with the given weights.
func (d *D) W(ws ...int) int {
	t := 0
	for _, w := range ws {
		t += w
	}
	v := d.N(t)
	for i, w := range ws {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}

// R returns a number in [lo,hi].
func (d *D) R(lo, hi int) int { return lo + d.N(hi-lo+1) }

// Seed64 draws a 62-bit seed.
func (d *D) Seed64() uint64 {
	return uint64(d.N(1<<31-1))<<31 | uint64(d.N(1<<31-1))
}

// Pick chooses one of the strings.
func (d *D) Pick(ss ...string) string { return ss[d.N(len(ss))] }

// Pick2 chooses one of the numbers.
func (d *D) Pick2(vs ...int) int { return vs[d.N(len(vs))] }
