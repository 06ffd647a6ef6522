// reexport writes a package that re-exports everything of a standard package
// except the names listed: the base of the simulated os, fmt, log and ioutil.
// Used once when the framework was written; its output is committed.
package main

import (
	"fmt"
	"go/importer"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
)

func main() {
	path, name := os.Args[1], os.Args[2]
	skip := map[string]bool{}
	for _, s := range os.Args[3:] {
		skip[s] = true
	}
	p, err := importer.ForCompiler(token.NewFileSet(), "source", nil).Import(path)
	if err != nil {
		panic(err)
	}
	var b strings.Builder
	fmt.Fprintf(&b, "// Code generated by tools/reexport from package %s. DO NOT EDIT.\n\npackage %s\n\nimport std %q\n\n", path, name, path)
	names := p.Scope().Names()
	sort.Strings(names)
	for _, n := range names {
		o := p.Scope().Lookup(n)
		if !o.Exported() || skip[n] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = std.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = std.%s\n", n, n)
		case *types.TypeName:
			fmt.Fprintf(&b, "type %s = std.%s\n", n, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = std.%s\n", n, n)
		}
	}
	fmt.Print(b.String())
}
