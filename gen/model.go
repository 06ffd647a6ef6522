// Package gen makes Vim scripts together with the tree, the positions and the
// renderings that must come out of them, without using the code under test.
package gen

import (
	"fmt"
	"strings"
)

// Pos is a place in the delivered bytes.
type Pos struct{ Off, Line, Col int }

// Ea is what a command's ExArg must say.
type Ea struct {
	Name           string // full command name; "" when there is no command
	Bang           bool
	Mods           string
	Range          string
	Misc           string
	Line, Cmd, Arg Pos
	HasArg         bool // Argpos is set
}

// Node is a node of the expected tree. Kids are in source order, which is the
// order of a traversal.
type Node struct {
	Kind string
	Pos  Pos
	Val  string
	Ea   *Ea
	Kids []Kid
}

// Kid is a child and the part it plays.
type Kid struct {
	Role string
	*Node
}

// Add appends a child.
func (n *Node) Add(role string, k *Node) {
	if k != nil {
		n.Kids = append(n.Kids, Kid{role, k})
	}
}

// Get returns the first child with the role.
func (n *Node) Get(role string) *Node {
	for _, k := range n.Kids {
		if k.Role == role {
			return k.Node
		}
	}
	return nil
}

// All returns the children with the role.
func (n *Node) All(role string) []*Node {
	var r []*Node
	for _, k := range n.Kids {
		if k.Role == role {
			r = append(r, k.Node)
		}
	}
	return r
}

// Count returns the number of nodes in the tree.
func (n *Node) Count() int {
	c := 1
	for _, k := range n.Kids {
		c += k.Node.Count()
	}
	return c
}

// Kinds adds the kinds in the tree to the set.
func (n *Node) Kinds(set map[string]int) {
	set[n.Kind]++
	for _, k := range n.Kids {
		k.Node.Kinds(set)
	}
}

// Diff describes the first difference between the expected tree a and the
// actual tree b, or returns "". With pos, positions must agree as well.
func Diff(a, b *Node, pos bool) string { return diff(a, b, pos, "") }

func diff(a, b *Node, pos bool, path string) string {
	if a == nil || b == nil {
		if a == b {
			return ""
		}
		return fmt.Sprintf("%s: expected %s, got %s", path, a.brief(), b.brief())
	}
	path += "/" + a.Kind
	if a.Kind != b.Kind {
		return fmt.Sprintf("%s: expected %s, got %s", path, a.brief(), b.brief())
	}
	if a.Val != b.Val {
		return fmt.Sprintf("%s: expected %s %s, got %s", path, a.Kind, clip(a.Val), clip(b.Val))
	}
	if pos && a.Pos != b.Pos && !(a.Kind == "File" && len(a.Kids) == 0) {
		return fmt.Sprintf("%s(%s): expected position %s, got %s", path, clip(a.Val), a.Pos, b.Pos)
	}
	if (a.Ea == nil) != (b.Ea == nil) {
		return fmt.Sprintf("%s: command argument present %v, got %v", path, a.Ea != nil, b.Ea != nil)
	}
	if a.Ea != nil {
		x, y := *a.Ea, *b.Ea
		if !pos {
			x.Line, x.Cmd, x.Arg = Pos{}, Pos{}, Pos{}
			y.Line, y.Cmd, y.Arg = Pos{}, Pos{}, Pos{}
		}
		if x != y {
			return fmt.Sprintf("%s: expected command %+v, got %+v", path, x, y)
		}
	}
	for i := range a.Kids {
		if i >= len(b.Kids) {
			return fmt.Sprintf("%s: child %d (%s %s) is missing", path, i, a.Kids[i].Role, a.Kids[i].brief())
		}
		if a.Kids[i].Role != b.Kids[i].Role {
			return fmt.Sprintf("%s: child %d expected as %s (%s), got %s (%s)", path, i, a.Kids[i].Role, a.Kids[i].brief(), b.Kids[i].Role, b.Kids[i].brief())
		}
		if d := diff(a.Kids[i].Node, b.Kids[i].Node, pos, path+"."+a.Kids[i].Role); d != "" {
			return d
		}
	}
	if len(b.Kids) > len(a.Kids) {
		k := b.Kids[len(a.Kids)]
		return fmt.Sprintf("%s: unexpected child %s %s", path, k.Role, k.brief())
	}
	return ""
}

func (p Pos) String() string { return fmt.Sprintf("offset %d line %d column %d", p.Off, p.Line, p.Col) }

func (n *Node) brief() string {
	if n == nil {
		return "nothing"
	}
	return fmt.Sprintf("%s %s", n.Kind, clip(n.Val))
}

func clip(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%q...(%d bytes)", s[:60], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// Dump writes the tree for people and for hashing.
func (n *Node) Dump() string {
	var b strings.Builder
	n.dump(&b, "")
	return b.String()
}

func (n *Node) dump(b *strings.Builder, ind string) {
	fmt.Fprintf(b, "%s%s %q @%d:%d:%d", ind, n.Kind, n.Val, n.Pos.Off, n.Pos.Line, n.Pos.Col)
	if n.Ea != nil {
		fmt.Fprintf(b, " %+v", *n.Ea)
	}
	b.WriteByte('\n')
	for _, k := range n.Kids {
		fmt.Fprintf(b, "%s %s:\n", ind, k.Role)
		k.Node.dump(b, ind+"  ")
	}
}
