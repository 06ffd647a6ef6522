package harness

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	vp "github.com/vim-jp/go-vimlparser"

	"verif/corpus"
	"verif/draw"
	"verif/gen"
	"verif/hints"
)

// Source is an input of a parse.
type Source struct {
	Kind string
	Src  []byte
	Gen  *gen.Script // nil: no model
	Call Call
	Vim  int // verdict known for mode probes: 0 unknown, 1 parses, 2 fails
}

func (s Source) String() string {
	return fmt.Sprintf("%s, %s, %d bytes: %s", s.Kind, s.Call, len(s.Src), clip(s.Src, 1500))
}

// Weights of the kinds of sources.
type Weights struct {
	File, Expr, Filler, Corpus, Big, Mutant, Soup, Probe, Chunk int
	Huge                                                        bool
}

var fileNames = []string{"", "dir/x y.vim", "日本.vim", "-", "a:b", "%s.vim", "C:\\x.vim",
	"F.vim", "f.VIM", "g.vim", "./f.vim", "dir/f.vim", "/abs/f.vim", "f", "f.vim ", "é.vim", "e\u0301.vim", "\xff.vim", "a\nb.vim", "x\x00y",
	"init.vim", "/home/u/.config/nvim/init.vim", "ginit.vim", ".vimrc", "_vimrc", "vimrc", ".gvimrc", ".exrc", ".nvimrc", "/etc/vim/vimrc",
	"plugin/p.vim", "autoload/a/b.vim", "ftplugin/lua.vim", "syntax/c.vim", "indent/x.vim", "colors/c.vim", "compiler/c.vim", "after/plugin/p.vim",
	"/usr/share/nvim/runtime/plugin/shada.vim", "C:\\Users\\u\\AppData\\Local\\nvim\\init.vim", "test.vimspec", "x.lua", "x.vim.bak", "/dev/stdin", "<stdin>", "stdin", "CON", "~/f.vim", "$HOME/f.vim", "http://h/f.vim", "nvim", "vim",
}

func drawName(d *draw.D) string {
	if w, ok := hints.Word(d, 1, 4); ok {
		return d.Pick("", "x", "dir/", "/a/") + w + d.Pick("", ".vim", "x")
	}
	if d.P(1, 2) {
		if d.P(1, 200) {
			return strings.Repeat("long/", d.Pick2(20, 52, 1000)) + "f.vim"
		}
		return fileNames[d.N(len(fileNames))]
	}
	return "f.vim"
}

// DrawCall draws the way to parse a script.
func DrawCall(d *draw.D, expr bool) Call {
	if expr {
		return Call{Expr: true}
	}
	c := Call{Name: drawName(d)}
	switch d.W(2, 2, 2) {
	case 1:
		c.Opt = &vp.ParseOption{}
	case 2:
		c.Opt = &vp.ParseOption{Neovim: true}
	}
	return c
}

// DrawSource draws an input.
func DrawSource(d *draw.D, w Weights) Source {
	var s Source
	switch d.W(w.File, w.Expr, w.Filler, w.Corpus, w.Big, w.Mutant, w.Soup, w.Probe, w.Chunk) {
	case 0:
		s.Kind = "generated script"
		s.Call = DrawCall(d, false)
		s.Gen = gen.File(d, gen.DrawOpt(d))
		s.Src = s.Gen.Src
	case 1:
		s.Kind = "generated expression"
		s.Call = DrawCall(d, true)
		s.Gen = gen.Expr(d, gen.DrawOpt(d))
		s.Src = s.Gen.Src
	case 2:
		s.Kind = "generated large script"
		s.Call = DrawCall(d, false)
		o := gen.DrawOpt(d)
		o.Filler = 1 + d.W(5, 5, 2, 4)
		o.Huge = w.Huge
		s.Gen = gen.File(d, o)
		s.Src = s.Gen.Src
	case 3:
		c := corpus.Small[d.N(len(corpus.Small))]
		s.Kind = "script " + c.Name
		s.Call = DrawCall(d, false)
		s.Src = c.Data
		if d.P(1, 4) {
			s.Src = bytes.ReplaceAll(s.Src, []byte("\n"), []byte("\r\n"))
		}
	case 4:
		c := corpus.Big[d.N(len(corpus.Big))]
		s.Kind = "script " + c.Name
		s.Call = DrawCall(d, false)
		s.Src = c.Data
	case 5:
		var b Source
		expr := d.P(1, 4)
		if expr {
			b = DrawSource(d, Weights{Expr: 1})
		} else {
			b = DrawSource(d, Weights{File: 5, Corpus: 2})
		}
		s.Kind = "mutated " + b.Kind
		s.Call = b.Call
		s.Src = Mutate(d, b.Src)
		if d.P(1, 8) { // parse it as the other thing
			s.Call = DrawCall(d, !s.Call.Expr)
		}
	case 6:
		s.Kind = "token soup"
		s.Call = DrawCall(d, d.P(1, 3))
		s.Src = soup(d)
	case 7:
		s = probe(d)
	case 8:
		c := corpus.Big[d.N(len(corpus.Big))]
		s.Kind = "piece of " + c.Name
		s.Call = DrawCall(d, false)
		n := 300 + d.N(4000)
		at := d.N(len(c.Data))
		for at > 0 && c.Data[at-1] != '\n' {
			at--
		}
		if at+n > len(c.Data) {
			n = len(c.Data) - at
		}
		s.Src = c.Data[at : at+n]
	}
	return s
}

// probes are lines whose verdict depends on the mode.
var probes = []struct {
	line      string
	vim, nvim bool
}{
	{"rshada", true, true}, // placeholder, replaced below
}

func init() {
	probes = probes[:0]
	for _, c := range []string{"rshada", "wshada", "rsh", "wsh"} {
		probes = append(probes, struct {
			line      string
			vim, nvim bool
		}{c, false, true})
	}
	for _, c := range []string{"fixdel", "fix", "helpfind", "open", "o", "shell", "sh", "tearoff x", "te x", "gvim"} {
		probes = append(probes, struct {
			line      string
			vim, nvim bool
		}{c, true, false})
	}
}

func probe(d *draw.D) Source {
	p := probes[d.N(len(probes))]
	s := Source{Kind: "mode probe", Call: DrawCall(d, false)}
	pre := d.Pick("", "echo 1\n", "let x = [1, 2]\n", "function! F(a)\n  return a:a\nendfunction\n")
	s.Src = []byte(pre + p.line + d.Pick("\n", "", "\necho 2\n"))
	ok := p.vim
	if s.Call.Opt != nil && s.Call.Opt.Neovim {
		ok = p.nvim
	}
	s.Vim = 2
	if ok {
		s.Vim = 1
	}
	return s
}

var vocab = []string{
	"let", "if", "endif", "else", "elseif", "while", "endwhile", "for", "in", "endfor", "function", "function!", "endfunction", "return", "call", "echo", "echon",
	"execute", "try", "catch", "finally", "endtry", "throw", "unlet", "lockvar", "unlockvar", "const", "eval", "delfunction", "append", "insert", "change", "a", "i", "c",
	"python <<", "ruby << EOF", "lua", "perl", "py3", "normal", "autocmd", "augroup", "syntax", "highlight", "set", "map", "nnoremap", "s/a/b/g", "g/x/", "global", "command!",
	"silent", "silent!", "verbose", "5verbose", "noautocmd", "keepmarks", "belowright", "tab", "vertical", "%", "1,2", "'<,'>", ".,$", "/pat/", "?pat?", "\\/", "+5", "-1", ";", "@", "*", "=", "!", "#", "&", "<", ">", "x", "k",
	"write", "w!", "w>>", "read", "r!", "edit", "++enc=utf8", "+cmd", "substitute", "~", "&&", "||", "==", "!=", "=~", "!~", "=~?", "is", "isnot", "is#", ">=", "<=", "..", ".", "->", "+=", "-=", ".=", "*=", "/=", "%=", "..=",
	"(", ")", "[", "]", "{", "}", ":", ",", "|", "\"", "'", "'s'", "\"s\"", "0z", "0zFF", "0z0", "0x", "0x1f", "1.5e3", "1.", "1e", "99999999999999999999", "2147483648", "$", "$X", "@a", "@", "&opt", "&l:", "&", "a:", "a:000", "g:x", "s:", "<SID>f", "<sid>", "x", "F", "f()", "d.k", "{'a':1}", "#{a:1}", "{x->x}", "{->1}", "{a,b->", "...",
	"=<< trim END", "=<< eval X", "=<<", "END", "\\", "\n", "\n", "\n", "\n\\", "\n  \\", "\r\n", "\t", " ", " ", "\x00", "\xff", "é", "日", "\x16", "\v", "`=x`", "#!", "finish", "endf", "en", "el", "fu", "range", "dict", "abort", "closure", "!", "?", "x:y:z", "1:2", "'t", "'", "\\", "/", "\\&", "\\?", "\\x", "{{{{", "}}}}", "[[[[",
}

// token draws a piece of a script.
func token(d *draw.D) string {
	if w, ok := hints.Word(d, 1, 4); ok {
		return w
	}
	if v, ok := hints.Number(d, 1, 20, 0, 1<<21); ok {
		return strconv.Itoa(v)
	}
	return vocab[d.N(len(vocab))]
}

func soup(d *draw.D) []byte {
	n := 1 + d.N(40)
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, token(d)...)
		if d.P(1, 2) {
			b = append(b, ' ')
		}
	}
	return b
}

// specials are bytes that some program or other gives a meaning to.
var specials = []string{
	"\ufeff", "\xff\xfe", "\xfe\xff", "\x1a", "\x00", "\f", "\v", "\u2028", "\u0085", "\r", "\r\r\n", "\xc0\x80", "\xed\xa0\x80", "\u00a0", "\u200b",
	"scriptencoding latin1\n", "vim9script\n", "\" vim: ff=dos\n", "scriptversion 3\n", "#!/bin/vim\n", "finish\n", "\x1b", "\x7f", "\x04", "\x1f\x8b", "\\\n", "\n\n", "\t",
}

func special(d *draw.D) string {
	if w, ok := hints.Word(d, 1, 3); ok {
		return w
	}
	return specials[d.N(len(specials))]
}

// Mutate damages a script.
func Mutate(d *draw.D, src []byte) []byte {
	b := append([]byte{}, src...)
	n := 1 + d.W(6, 3, 2, 1)
	for i := 0; i < n; i++ {
		if len(b) == 0 {
			b = append(b, token(d)...)
			continue
		}
		at := d.N(len(b))
		switch d.W(4, 3, 3, 4, 2, 2, 2, 3, 1, 1, 1, 2, 2, 2) {
		case 0: // cut the rest
			b = b[:at]
		case 1: // flip a byte
			b[at] = byte(d.N(256))
		case 2: // flip a bit
			b[at] ^= 1 << uint(d.N(8))
		case 3: // insert a token
			t := token(d)
			b = splice(b, at, at, []byte(t))
		case 4: // lose a piece
			k := 1 + d.N(min(64, len(b)-at))
			b = splice(b, at, at+k, nil)
		case 5: // repeat a piece
			k := 1 + d.N(min(200, len(b)-at))
			b = splice(b, at, at, append([]byte{}, b[at:at+k]...))
		case 6: // lose a byte class
			c := b[at]
			b = bytes.ReplaceAll(b, []byte{c}, nil)
		case 7: // replace a token by another
			k := at
			for k < len(b) && isWord(b[k]) == isWord(b[at]) && k < at+20 {
				k++
			}
			b = splice(b, at, k, []byte(token(d)))
		case 8: // repeat many times
			k := 1 + d.N(min(12, len(b)-at))
			m := d.Pick2(3, 20, 100, 300)
			if v, ok := hints.Number(d, 1, 3, 3, 5000); ok {
				m = v
			}
			b = splice(b, at, at, bytes.Repeat(append([]byte{}, b[at:at+k]...), m))
		case 9: // nest
			m := d.Pick2(5, 50, 200, 400)
			if v, ok := hints.Number(d, 1, 3, 3, 400); ok {
				m = v
			}
			o := d.Pick("(", "[", "{'a':", "{->", "-", "!", "x{", "x[", "f(", "'a'.", "a ? b : ", "if 1\n", "try\n", "while 1\n", "function F()\n", "for x in y\n", "silent ", "1;", "x.", "x->f(")
			b = splice(b, at, at, []byte(strings.Repeat(o, m)))
		case 10: // a big number
			b = splice(b, at, at, []byte(d.Pick("9223372036854775807", "9223372036854775808", "4294967296", "99999999999999999999999999", "-1", "0", strconv.Itoa(d.N(1<<20)))))
		case 11: // repeat a line
			lo, hi := at, at
			for lo > 0 && b[lo-1] != '\n' {
				lo--
			}
			for hi < len(b) && b[hi] != '\n' {
				hi++
			}
			if hi < len(b) {
				hi++
			}
			b = splice(b, lo, lo, append([]byte{}, b[lo:hi]...))
		case 12: // lose a line
			lo, hi := at, at
			for lo > 0 && b[lo-1] != '\n' {
				lo--
			}
			for hi < len(b) && b[hi] != '\n' {
				hi++
			}
			if hi < len(b) {
				hi++
			}
			b = splice(b, lo, hi, nil)
		case 13: // special bytes where they may matter
			switch d.W(4, 2, 2) {
			case 0:
				at = 0
			case 1:
				at = len(b)
			case 2:
				for at > 0 && b[at-1] != '\n' {
					at--
				}
			}
			b = splice(b, at, at, []byte(special(d)))
		}
		if len(b) > 60000 {
			b = b[:60000]
		}
	}
	return b
}

func splice(b []byte, lo, hi int, ins []byte) []byte {
	r := make([]byte, 0, len(b)+len(ins))
	r = append(r, b[:lo]...)
	r = append(r, ins...)
	return append(r, b[hi:]...)
}

func isWord(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}
