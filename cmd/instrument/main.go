// instrument writes an overlay for `go build -overlay` in which the packages
// under test run on the simulator: a scheduling point before every statement,
// sync and go statements routed to the scheduler, and the command's main
// package turned into an importable package whose operating system is simos.
//
// Nothing in the repository is modified.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	off int
	end int // > off: replace
	txt string
	seq int
}

var site = 1

// spawns: the tree has go statements.
var spawns bool

func main() {
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "", "directory for the rewritten files and overlay.json")
	verif := flag.String("verif", "", "root of the verif module (for the virtual climain package)")
	list := flag.Bool("literals", false, "only print the list of literals")
	race := flag.Bool("race", false, "also replace the pool of package sync")
	flag.Parse()
	raceBuild = *race

	lits := map[string]int{}
	overlay := map[string]string{}
	n := 0
	emit := func(target string, src []byte) {
		n++
		p := filepath.Join(*out, fmt.Sprintf("f%03d_%s", n, filepath.Base(target)))
		if err := os.WriteFile(p, src, 0o644); err != nil {
			fail(err)
		}
		overlay[target] = p
	}

	// library packages: every directory of the module with non-test Go files,
	// except the command and anything under testdata or starting with _ or .
	cmdDir := filepath.Join(*repo, "cmd", "vimlparser")
	err := filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			b := filepath.Base(p)
			if p != *repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(*repo, p)
		literals(lits, rel, src)
		dir := filepath.Dir(p)
		if *list {
			return nil
		}
		if dir == cmdDir {
			res, err := rewrite(p, src, true)
			if err != nil {
				return err
			}
			emit(filepath.Join(*verif, "climain", filepath.Base(p)), res)
			return nil
		}
		res, err := rewrite(p, src, false)
		if err != nil {
			return err
		}
		if res != nil {
			emit(p, res)
		}
		return nil
	})
	if err != nil {
		fail(err)
	}
	if *list {
		printLiterals(lits)
		return
	}
	if *race {
		emit(filepath.Join(runtime.GOROOT(), "src", "sync", "pool.go"), []byte(poolSrc))
	}
	emit(filepath.Join(*verif, "hints", "data.go"), append(novel(lits), fmt.Sprintf("\nvar tasks = %v\n", spawns)...))
	js, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0o644); err != nil {
		fail(err)
	}
	fmt.Println(site)
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, "instrument:", err)
	os.Exit(2)
}

// imports of the command that are served by the simulated operating system
var cliImports = map[string]string{
	"os":        "verif/simos",
	"fmt":       "verif/simfmt",
	"log":       "verif/simlog",
	"os/signal": "verif/simsignal",
	"io/ioutil": "verif/simioutil",

	"path/filepath": "verif/simfilepath",
}

// in race builds the library keeps the real os, whose state the race detector
// knows to be shared
var raceBuild bool

// imports that are served by the simulator everywhere
var libImports = map[string]string{
	"io":           "verif/simio",
	"sync":         "verif/simsync",
	"time":         "verif/simtime",
	"context":      "verif/simcontext",
	"math/rand":    "verif/simrand",
	"math/rand/v2": "verif/simrand2",
}

func rewrite(path string, src []byte, cli bool) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	chans := hasChans(f)
	over, maps := map[*ast.RangeStmt]bool{}, map[*ast.RangeStmt]bool{}
	withMaps := hasMaps(f)
	pkg := []*ast.File{f}
	siblings, _ := filepath.Glob(filepath.Join(filepath.Dir(path), "*.go"))
	for _, s := range siblings {
		if s == path || strings.HasSuffix(s, "_test.go") {
			continue
		}
		if g, err := parser.ParseFile(fset, s, nil, 0); err == nil && g.Name.Name == f.Name.Name {
			pkg = append(pkg, g)
			chans = chans || hasChans(g)
			withMaps = withMaps || hasMaps(g)
		}
	}
	if chans || withMaps {
		over, maps = ranges(fset, pkg)
	}
	if f.Name.Name == "main" && !cli {
		return nil, nil // helper programs
	}
	for _, cg := range f.Comments {
		if cg.Pos() > f.Package {
			break
		}
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:build") && strings.Contains(c.Text, "ignore") {
				return nil, nil
			}
		}
	}
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(at, end int, txt string) {
		edits = append(edits, edit{at, end, txt, len(edits)})
	}
	y := func() string {
		s := "simrt__.Y(" + strconv.Itoa(site) + ");"
		site++
		return s
	}

	// the import of the run time goes on the line of the package clause
	if cli {
		add(off(f.Name.Pos()), off(f.Name.End()), "climain")
	}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		to, ok := libImports[p]
		if !ok && (cli || !raceBuild && (p == "os" || p == "io/ioutil" || p == "path/filepath")) {
			to, ok = cliImports[p]
		}
		if !ok {
			continue
		}
		txt := strconv.Quote(to)
		if im.Name == nil {
			txt = filepath.Base(strings.TrimSuffix(p, "/v2")) + " " + txt
		}
		add(off(im.Path.Pos()), off(im.Path.End()), txt)
	}

	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			add(off(s.Pos()), 0, y())
		}
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	generic := false
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				generic = true
				add(off(x.OpPos), off(x.OpPos)+2, "simrt__.Recv(")
				add(off(x.X.End()), 0, ")")
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := x.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					generic = true
					add(off(u.OpPos), off(u.OpPos)+2, "simrt__.Recv2(")
					ast.Inspect(u.X, visit)
					add(off(u.X.End()), 0, ")")
					for _, e := range x.Lhs {
						ast.Inspect(e, visit)
					}
					return false
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u, ok := x.Values[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					generic = true
					add(off(u.OpPos), off(u.OpPos)+2, "simrt__.Recv2(")
					ast.Inspect(u.X, visit)
					add(off(u.X.End()), 0, ")")
					return false
				}
			}
		case *ast.SendStmt:
			generic = true
			add(off(x.Pos()), 0, "simrt__.Send(")
			ast.Inspect(x.Chan, visit)
			add(off(x.Arrow), off(x.Arrow)+2, ")(")
			ast.Inspect(x.Value, visit)
			add(off(x.Value.End()), 0, ")")
			return false
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && id.Obj == nil && len(x.Args) == 1 {
				generic = true
				add(off(id.Pos()), off(id.End()), "simrt__.Close")
			}
		case *ast.SelectStmt:
			generic = true
			if len(x.Body.List) == 0 {
				add(off(x.Pos()), off(x.End()), "simrt__.Forever()")
				return false
			}
			var names, exprs []string
			nowait := "false"
			for i, s := range x.Body.List {
				c := s.(*ast.CommClause)
				if c.Comm == nil {
					nowait = "true"
				} else {
					names = append(names, fmt.Sprintf("simc%d__", len(names)))
					e, head := commClause(c, len(names)-1, text)
					exprs = append(exprs, e)
					add(off(c.Case), off(c.Colon)+1, head)
				}
				list(c.Body)
				for _, b := range c.Body {
					ast.Inspect(b, visit)
				}
				_ = i
			}
			init := ""
			if len(names) > 0 {
				init = strings.Join(names, ", ") + " := " + strings.Join(exprs, ", ") + "; "
			}
			add(off(x.Select), off(x.Select)+6, "switch "+init+"simrt__.Select("+strings.Join(append([]string{nowait}, names...), ", ")+")")
			return false
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.ForStmt:
			add(off(x.Body.Lbrace)+1, 0, y())
		case *ast.RangeStmt:
			if over[x] {
				generic = true
				vars := "_"
				tok := ":="
				if x.Key != nil {
					vars, tok = text(x.Key), x.Tok.String()
				}
				get := vars + ", simok__ := simrt__.Recv2(simch__)"
				if tok == "=" {
					get = "var simok__ bool; " + vars + ", simok__ = simrt__.Recv2(simch__)"
				}
				add(off(x.For)+3, off(x.Body.Lbrace), " simch__ := "+text(x.X)+"; ; ")
				add(off(x.Body.Lbrace)+1, 0, get+"; if !simok__ { break }; ")
				add(off(x.Body.Lbrace)+1, 0, y())
				ast.Inspect(x.Body, visit)
				return false
			}
			if maps[x] {
				generic = true
				k, v, pk, pv := "_", "_", "nil", "nil"
				if id, ok := x.Key.(*ast.Ident); ok && id.Name != "_" {
					k, pk = id.Name, "&"+id.Name
				}
				if id, ok := x.Value.(*ast.Ident); ok && id.Name != "_" {
					v, pv = id.Name, "&"+id.Name
				}
				add(off(x.For)+3, off(x.X.Pos()), fmt.Sprintf(" %s, %s, simit__ := simrt__.MapIter(", k, v))
				ast.Inspect(x.X, visit)
				add(off(x.X.End()), 0, fmt.Sprintf("); simit__.Next(%s, %s); ", pk, pv))
				add(off(x.Body.Lbrace)+1, 0, y())
				ast.Inspect(x.Body, visit)
				return false
			}
			add(off(x.Body.Lbrace)+1, 0, y())
		case *ast.GoStmt:
			spawns = true
			if fl, ok := x.Call.Fun.(*ast.FuncLit); ok && len(x.Call.Args) == 0 {
				add(off(x.Go), off(x.Go)+2, "simrt__.Go(")
				add(off(fl.End()), off(x.Call.End()), ")")
			} else if x.Call.Ellipsis == token.NoPos {
				var names, args []string
				for i, a := range x.Call.Args {
					names = append(names, fmt.Sprintf("simarg%d__", i))
					args = append(args, string(src[off(a.Pos()):off(a.End())]))
				}
				fun := string(src[off(x.Call.Fun.Pos()):off(x.Call.Fun.End())])
				if strings.Contains(fun+strings.Join(args, ""), "\n") {
					return true // left alone: a plain goroutine
				}
				if len(args) == 0 {
					add(off(x.Go), off(x.Call.End()), "simrt__.Go(func() { "+fun+"() })")
				} else {
					add(off(x.Go), off(x.Call.End()), "{ "+strings.Join(names, ", ")+" := "+strings.Join(args, ", ")+
						"; simrt__.Go(func() { "+fun+"("+strings.Join(names, ", ")+") }) }")
				}
				return false
			}
		case *ast.FuncDecl:
			if cli && x.Recv == nil && x.Name.Name == "main" {
				add(off(x.Name.Pos()), off(x.Name.End()), "Main")
			}
		}
		return true
	}
	ast.Inspect(f, visit)

	used := false
	for _, e := range edits {
		if strings.Contains(e.txt, "simrt__.") {
			used = true
		}
	}
	if used {
		add(off(f.Name.End()), 0, "; import simrt__ \"verif/simrt\"")
	}

	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].seq < edits[j].seq
	})
	var b strings.Builder
	last := 0
	for _, e := range edits {
		if e.off < last {
			continue // inside a replaced range
		}
		b.Write(src[last:e.off])
		b.WriteString(e.txt)
		last = e.off
		if e.end > e.off {
			last = e.end
		}
	}
	b.Write(src[last:])
	res := b.String()
	if generic || cli {
		// The repository's language version has no type parameters; go1.21 has
		// them, and still one loop variable for all iterations. The command
		// moves to a module of another version.
		if v := goVersion(path); v < 21 {
			if !strings.Contains(res[:strings.Index(res, "package ")], "//go:build") {
				res = "//go:build go1.21\n\n" + res
			}
		}
	}
	return []byte(res), nil
}

// In race builds the real sync.Pool drops items at random and orders Put
// before Get; inside fmt, regexp and encoding/json that would both break
// determinism and hide races. A pool that never keeps anything is legal.
const poolSrc = `package sync

type Pool struct {
	noCopy noCopy
	New    func() any
}

func (p *Pool) Put(x any) {}

func (p *Pool) Get() any {
	if p.New != nil {
		return p.New()
	}
	return nil
}

func poolCleanup() {}
`

// goVersion returns the minor language version of the module of path.
func goVersion(path string) int {
	for d := filepath.Dir(path); ; d = filepath.Dir(d) {
		b, err := os.ReadFile(filepath.Join(d, "go.mod"))
		if err == nil {
			for _, l := range strings.Split(string(b), "\n") {
				f := strings.Fields(l)
				if len(f) == 2 && f[0] == "go" {
					p := strings.Split(f[1], ".")
					if len(p) > 1 {
						v, _ := strconv.Atoi(p[1])
						return v
					}
				}
			}
			return 16
		}
		if d == filepath.Dir(d) {
			return 16
		}
	}
}
