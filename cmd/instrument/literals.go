package main

import (
	"bytes"
	_ "embed"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"sort"
	"strconv"
	"strings"
)

// The literals of the tree that the machinery was written for, one
// "count<TAB>file<TAB>literal" a line, made by instrument -literals. What the
// tree under test has beyond them is given to the generators to try.
//
//go:embed literals.txt
var known string

// literals counts the words and numbers in a file.
func literals(m map[string]int, file string, src []byte) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, 0)
	if err != nil || f.Name.Name == "main" && !strings.HasPrefix(file, "cmd/") {
		return
	}
	word := func(s string) {
		if s != "" && len(s) <= 64 {
			m[file+"\ts"+strconv.Quote(s)]++
		}
	}
	number := func(v int64) {
		if v >= 3 && v <= 1<<22 {
			m[file+"\tn"+strconv.FormatInt(v, 10)]++
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.Field:
			x.Tag = nil
		case *ast.BinaryExpr:
			if v, ok := fold(x); ok {
				number(v)
				return false
			}
			if x.Op == token.SHL || x.Op == token.SHR {
				if v, ok := fold(x.Y); ok && v < 23 {
					number(1 << uint(v))
				}
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.STRING:
				if s, err := strconv.Unquote(x.Value); err == nil {
					word(s)
				}
			case token.CHAR:
				if s, err := strconv.Unquote(x.Value); err == nil {
					word(s)
				}
			case token.INT:
				if v, ok := fold(x); ok {
					number(v)
					if strings.HasPrefix(x.Value, "0x") {
						if v >= 0 && v < 256 {
							word(string([]byte{byte(v)}))
						}
						if v > 127 && v < 0x110000 {
							word(string(rune(v)))
						}
					}
				}
			}
		case *ast.Ident:
			switch x.Name {
			case "int8":
				number(128)
			case "uint8", "byte":
				number(256)
			case "int16":
				number(1 << 15)
			case "uint16":
				number(1 << 16)
			}
		}
		return true
	})
}

// fold evaluates an expression of integer literals.
func fold(e ast.Expr) (int64, bool) {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return fold(x.X)
	case *ast.BasicLit:
		if x.Kind != token.INT {
			return 0, false
		}
		v, err := strconv.ParseInt(x.Value, 0, 64)
		return v, err == nil
	case *ast.BinaryExpr:
		a, ok := fold(x.X)
		b, ok2 := fold(x.Y)
		if !ok || !ok2 {
			return 0, false
		}
		switch x.Op {
		case token.ADD:
			return a + b, true
		case token.SUB:
			return a - b, true
		case token.MUL:
			return a * b, true
		case token.SHL:
			if b >= 0 && b < 60 {
				return a << uint(b), true
			}
		}
	}
	return 0, false
}

func printLiterals(m map[string]int) {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%d\t%s", v, k))
	}
	sort.Slice(l, func(i, j int) bool {
		return l[i][strings.IndexByte(l[i], '\t'):] < l[j][strings.IndexByte(l[j], '\t'):]
	})
	fmt.Println(strings.Join(l, "\n"))
}

// novel is the data of package hints.
func novel(m map[string]int) []byte {
	ref := map[string]int{}
	for _, ln := range strings.Split(known, "\n") {
		i := strings.IndexByte(ln, '\t')
		if i < 0 {
			continue
		}
		n, _ := strconv.Atoi(ln[:i])
		ref[ln[i+1:]] = n
	}
	words, numbers := map[string]bool{}, map[int]bool{}
	for k, v := range m {
		if v <= ref[k] {
			continue
		}
		k = k[strings.IndexByte(k, '\t')+1:]
		switch k[0] {
		case 's':
			s, _ := strconv.Unquote(k[1:])
			words[s] = true
		case 'n':
			n, _ := strconv.Atoi(k[1:])
			numbers[n] = true
			if n&(n+1) == 0 { // a mask
				numbers[n+1] = true
			}
		}
	}
	var ws []string
	var ns []int
	for s := range words {
		ws = append(ws, s)
	}
	for n := range numbers {
		ns = append(ns, n)
	}
	sort.Strings(ws)
	sort.Ints(ns)
	if len(ws) > 60 {
		ws = ws[:60]
	}
	if len(ns) > 60 {
		ns = ns[:60]
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package hints\n\nvar words = %#v\n\nvar numbers = %#v\n", ws, ns)
	return b.Bytes()
}
