// Command gencheck is a development tool: it compares generated scripts with
// what the parser makes of them and groups the differences.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"regexp"
	"sort"

	vp "github.com/vim-jp/go-vimlparser"

	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/compiler"
	"github.com/vim-jp/go-vimlparser/printer"

	"verif/conv"
	"verif/draw"
	"verif/gen"
	"verif/hints"
)

func main() {
	n := flag.Int("n", 2000, "")
	pos := flag.Bool("pos", false, "")
	fold := flag.Bool("fold", false, "")
	crlf := flag.Bool("crlf", false, "")
	bad := flag.Bool("bad", false, "")
	multi := flag.Bool("multi", true, "")
	nv := flag.Bool("nvim", false, "")
	fil := flag.Int("filler", 0, "")
	ex := flag.Bool("expr", false, "")
	show := flag.Int("show", 12, "")
	hf := flag.Bool("hints", false, "")
	flag.Parse()
	if *hf {
		hints.Cur = hints.Make([]string{"END", ".", "endfunction", "=<<", "let", "trim", "\\", "`=", "\"", "'", "|", "..", "{{{", "isnot", "is", "in", "eval", "EOF", "\xff", "a b c\n", "x:y", "<SID>", "#{", "->", "vim9script", "\x1a", "A", "_X1", "if", "end", "key", "000", "a", "g", "s", "0z"},
			[]int{3, 7, 20, 40, 100, 300, 4096, 65536})
	}
	digits := regexp.MustCompile(`\d+`)
	type cl struct {
		n   int
		min *gen.Script
		msg string
	}
	classes := map[string]*cl{}
	okN := 0
	for i := 0; i < *n; i++ {
		d := draw.New(draw.Mix(uint64(i), 77))
		o := gen.DrawOpt(d)
		if !*fold {
			o.Fold = 0
		}
		if !*crlf {
			o.CRLF = 0
		}
		if !*bad {
			o.Bad = false
		}
		if !*multi {
			o.Multi = false
		}
		o.Filler = *fil
		var s *gen.Script
		var msg, key string
		var t *gen.Node
		var node ast.Node
		if *ex {
			s = gen.Expr(d, o)
			e, err := vp.ParseExpr(bytes.NewReader(s.Src))
			if err != nil {
				msg = "error: " + err.Error()
			} else {
				t, _ = conv.Tree(e, "")
				node = e
			}
		} else {
			s = gen.File(d, o)
			f, err := vp.ParseFile(bytes.NewReader(s.Src), "f", &vp.ParseOption{Neovim: *nv})
			if err != nil {
				msg = "error: " + err.Error()
			} else {
				var b []string
				t, b = conv.Tree(f, "f")
				node = f
				if len(b) > 0 {
					msg = "bad: " + b[0]
				}
			}
		}
		if msg == "" {
			msg = gen.Diff(s.File, t, *pos)
		}
		if msg == "" {
			var b bytes.Buffer
			if err := compiler.Compile(&b, node); err != nil {
				msg = "compile " + err.Error()
			} else if w := gen.Render(s.File, "  "); w != b.String() {
				msg = "render\n" + w + "\n---\n" + b.String()
			}
		}
		if msg == "" && *ex && gen.Printable(s.File) {
			var b bytes.Buffer
			if err := printer.Fprint(&b, node, nil); err != nil {
				msg = "print " + err.Error()
			} else if w := gen.Print(s.File); w != b.String() {
				msg = "print\n" + w + "\n---\n" + b.String()
			}
		}
		if msg == "" {
			okN++
			continue
		}
		key = digits.ReplaceAllString(msg, "N")
		if len(key) > 300 {
			key = key[len(key)-300:]
		}
		if j := bytes.LastIndexByte([]byte(key), '/'); j > 0 && !bytes.HasPrefix([]byte(key), []byte("error")) {
			key = key[j:]
		}
		c := classes[key]
		if c == nil {
			c = &cl{}
			classes[key] = c
		}
		c.n++
		if c.min == nil || len(s.Src) < len(c.min.Src) {
			c.min, c.msg = s, msg
		}
	}
	var ks []string
	for k := range classes {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		return classes[ks[i]].n > classes[ks[j]].n || classes[ks[i]].n == classes[ks[j]].n && ks[i] < ks[j]
	})
	fmt.Printf("%d ok, %d classes\n", okN, len(ks))
	for i, k := range ks {
		if i >= *show {
			break
		}
		c := classes[k]
		src := c.min.Src
		if len(src) > 1200 {
			src = src[:1200]
		}
		fmt.Printf("---- %d x %s\n%q\n%s\n", c.n, c.msg, src, src)
	}
}
