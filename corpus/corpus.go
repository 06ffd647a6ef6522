// Package corpus holds scripts people wrote: the upstream test scripts and two
// real ones. They have no model; what is known of them is what the parser
// makes of the intact script.
package corpus

import (
	"embed"
	"sort"
)

//go:embed *.vim
var files embed.FS

// Script is one script.
type Script struct {
	Name string
	Data []byte
}

// Small scripts, sorted by name; Big ones.
var Small, Big []Script

func init() {
	es, _ := files.ReadDir(".")
	sort.Slice(es, func(i, j int) bool { return es[i].Name() < es[j].Name() })
	for _, e := range es {
		b, _ := files.ReadFile(e.Name())
		if len(b) > 8000 {
			Big = append(Big, Script{e.Name(), b})
		} else {
			Small = append(Small, Script{e.Name(), b})
		}
	}
}
