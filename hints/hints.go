// Package hints holds words and numbers that the generators should try now and
// then, besides their own. The lists are empty here; the instrumenter replaces
// this file's data by the literals of the tree under test that the reference
// list (cmd/instrument/literals.txt) does not have. They only guide the inputs;
// no oracle looks at them. A replay file carries the lists it was made with.
package hints

import (
	"strings"

	"verif/draw"
)

// Set is what a replay file records.
type Set struct {
	Words   [][]byte `json:",omitempty"` // bytes, because JSON text is UTF-8
	Numbers []int    `json:",omitempty"`
	Tasks   bool     `json:",omitempty"` // the tree starts goroutines
}

// Cur is in force.
var Cur = Make(words, numbers)

var off bool

// Make makes a set.
func Make(words []string, numbers []int) Set {
	s := Set{Numbers: numbers, Tasks: tasks}
	for _, w := range words {
		s.Words = append(s.Words, []byte(w))
	}
	return s
}

// Begin begins a case: some cases go without.
func Begin(d *draw.D) {
	off = false
	if !Empty() {
		off = d.P(1, 3)
	}
}

// Empty tells whether there is nothing to try.
func Empty() bool { return len(Cur.Words) == 0 && len(Cur.Numbers) == 0 }

// Word returns a word with probability num/den.
func Word(d *draw.D, num, den int) (string, bool) {
	if off || len(Cur.Words) == 0 || !d.P(num, den) {
		return "", false
	}
	return string(Cur.Words[d.N(len(Cur.Words))]), true
}

// Number returns a number in [lo,hi] with probability num/den.
func Number(d *draw.D, num, den, lo, hi int) (int, bool) {
	if off || len(Cur.Numbers) == 0 {
		return 0, false
	}
	var l []int
	for _, v := range Cur.Numbers {
		for _, w := range []int{v, v + 1, v - 1} {
			if w >= lo && w <= hi {
				l = append(l, w)
			}
		}
	}
	if len(l) == 0 || !d.P(num, den) {
		return 0, false
	}
	return l[d.N(len(l))], true
}

// Ident returns a word that can be part of a name.
func Ident(d *draw.D, num, den int) (string, bool) {
	if off || len(Cur.Words) == 0 {
		return "", false
	}
	var l []string
	for _, w := range Cur.Words {
		s := strings.Trim(string(w), " \t\n:#.")
		ok := s != ""
		for i := 0; i < len(s); i++ {
			c := s[i]
			if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
				ok = false
			}
		}
		if ok {
			l = append(l, s)
		}
	}
	if len(l) == 0 || !d.P(num, den) {
		return "", false
	}
	return l[d.N(len(l))], true
}
