From 56d8405c570c04f149f17327483740471fd3339f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 01/19] fix: report read errors and read lines of any length

readlines ignored the error of the scanner: a script whose reader failed was
parsed as far as it had been read, and a line longer than 64 KB ended the
script silently.
---
 vimlparser.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/vimlparser.go b/vimlparser.go
index 9f5a97c..59f4313 100644
--- a/vimlparser.go
+++ b/vimlparser.go
@@ -1,9 +1,10 @@
 package vimlparser
 
 import (
-	"bufio"
 	"fmt"
 	"io"
+	"io/ioutil"
+	"strings"
 
 	"github.com/vim-jp/go-vimlparser/ast"
 	internal "github.com/vim-jp/go-vimlparser/go"
@@ -50,7 +51,10 @@ func ParseFile(r io.Reader, filename string, opt *ParseOption) (node *ast.File,
 			// log.Printf("%s", debug.Stack())
 		}
 	}()
-	lines := readlines(r)
+	lines, err := readlines(r)
+	if err != nil {
+		return nil, err
+	}
 	reader := internal.NewStringReader(lines)
 	neovim := false
 	if opt != nil {
@@ -78,18 +82,27 @@ func ParseExpr(r io.Reader) (node ast.Expr, err error) {
 			// log.Printf("%s", debug.Stack())
 		}
 	}()
-	lines := readlines(r)
+	lines, err := readlines(r)
+	if err != nil {
+		return nil, err
+	}
 	reader := internal.NewStringReader(lines)
 	p := internal.NewExprParser(reader)
 	node = p.Parse()
 	return
 }
 
-func readlines(r io.Reader) []string {
-	lines := []string{}
-	scanner := bufio.NewScanner(r)
-	for scanner.Scan() {
-		lines = append(lines, scanner.Text())
+func readlines(r io.Reader) ([]string, error) {
+	data, err := ioutil.ReadAll(r)
+	if err != nil {
+		return nil, err
+	}
+	lines := strings.Split(string(data), "\n")
+	if last := len(lines) - 1; lines[last] == "" {
+		lines = lines[:last]
+	}
+	for i, l := range lines {
+		lines[i] = strings.TrimSuffix(l, "\r")
 	}
-	return lines
+	return lines, nil
 }
-- 
2.43.0


From a91954658a32d6398bbfafc1227edd23b9ed57c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 02/19] fix: give characters of continuation lines their offset

Every character of a continuation line had offset 0.
---
 go/type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/type.go b/go/type.go
index e34d543..252492f 100644
--- a/go/type.go
+++ b/go/type.go
@@ -215,7 +215,7 @@ func (self *StringReader) __init__(lines []string) {
 					}
 				} else {
 					self.buf = append(self.buf, c)
-					self.pos = append(self.pos, pos{lnum: lnum + 2, col: col + 1})
+					self.pos = append(self.pos, pos{lnum: lnum + 2, col: col + 1, offset: offset})
 				}
 				col += len(c)
 				offset += len(c)
-- 
2.43.0


From 0089845e0c655cd9c90c961e274a90b0171a805a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 03/19] fix: report the byte offset of a parse error

Offset was an index into the parser's buffer of characters, which differs
from the byte offset after a multi-byte character or a continuation line.
---
 go/type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/type.go b/go/type.go
index 252492f..cdadc61 100644
--- a/go/type.go
+++ b/go/type.go
@@ -333,5 +333,5 @@ func (e *ParseError) Error() string {
 }
 
 func Err(msg string, pos *pos) *ParseError {
-	return &ParseError{Offset: pos.i, Line: pos.lnum, Column: pos.col, Msg: msg}
+	return &ParseError{Offset: pos.offset, Line: pos.lnum, Column: pos.col, Msg: msg}
 }
-- 
2.43.0


From 1fa1a5143e2944ce4297f36d208495fad0705c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 04/19] fix: keep bytes that are not valid UTF-8 as they are

Each such byte was replaced by U+FFFD, which also moved the column and the
offset of everything after it.
---
 go/type.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/go/type.go b/go/type.go
index cdadc61..1a19db6 100644
--- a/go/type.go
+++ b/go/type.go
@@ -3,6 +3,7 @@ package vimlparser
 import (
 	"fmt"
 	"strings"
+	"unicode/utf8"
 )
 
 type ExArg struct {
@@ -197,8 +198,7 @@ func (self *StringReader) __init__(lines []string) {
 	var offset = 0
 	for lnum < len(lines) {
 		var col = 0
-		for _, r := range lines[lnum] {
-			c := string(r)
+		for _, c := range splitChars(lines[lnum]) {
 			self.buf = append(self.buf, c)
 			self.pos = append(self.pos, pos{lnum: lnum + 1, col: col + 1, offset: offset})
 			col += len(c)
@@ -207,8 +207,7 @@ func (self *StringReader) __init__(lines []string) {
 		for lnum+1 < len(lines) && viml_eqregh(lines[lnum+1], "^\\s*\\\\") {
 			var skip = true
 			col = 0
-			for _, r := range lines[lnum+1] {
-				c := string(r)
+			for _, c := range splitChars(lines[lnum+1]) {
 				if skip {
 					if c == "\\" {
 						skip = false
@@ -233,6 +232,18 @@ func (self *StringReader) __init__(lines []string) {
 	self.i = 0
 }
 
+// splitChars splits s into characters. A byte that is not part of a valid
+// UTF-8 sequence is a character of its own.
+func splitChars(s string) []string {
+	chars := make([]string, 0, len(s))
+	for len(s) > 0 {
+		_, n := utf8.DecodeRuneInString(s)
+		chars = append(chars, s[:n])
+		s = s[n:]
+	}
+	return chars
+}
+
 func (self *StringReader) getpos() *pos {
 	p := self.pos[self.i]
 	p.i = self.i
-- 
2.43.0


From e2104927b54bdf31695077eea9a1393d8a574d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 05/19] fix: write bytes that are not valid UTF-8 unchanged in
 quoted strings

escape replaced them by U+FFFD.
---
 compiler/compiler.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/compiler/compiler.go b/compiler/compiler.go
index b0412ac..838ecf6 100644
--- a/compiler/compiler.go
+++ b/compiler/compiler.go
@@ -494,8 +494,11 @@ func (c *Compiler) compileExpr(node ast.Expr) string {
 
 func escape(s string, chars string) string {
 	r := ""
-	for _, c := range s {
-		if strings.IndexRune(chars, c) != -1 {
+	// chars are ASCII, so s can be taken byte by byte, which keeps bytes that
+	// are not valid UTF-8.
+	for i := 0; i < len(s); i++ {
+		c := s[i]
+		if strings.IndexByte(chars, c) != -1 {
 			switch c {
 			case '\n':
 				r += `\n`
@@ -504,10 +507,10 @@ func escape(s string, chars string) string {
 			case '\r':
 				r += `\r`
 			default:
-				r += `\` + string(c)
+				r += `\` + string(rune(c))
 			}
 		} else {
-			r += string(c)
+			r += s[i : i+1]
 		}
 	}
 	return r
-- 
2.43.0


From 90e7bc29a6cf4e6a6cfdab0996d731fcc5a9f1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 06/19] fix: count the CR of CRLF line breaks in offsets

Offsets were one less per preceding CRLF line.
---
 go/type.go    | 16 +++++++++++++---
 vimlparser.go |  5 ++---
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/go/type.go b/go/type.go
index 1a19db6..0c1c12c 100644
--- a/go/type.go
+++ b/go/type.go
@@ -198,7 +198,8 @@ func (self *StringReader) __init__(lines []string) {
 	var offset = 0
 	for lnum < len(lines) {
 		var col = 0
-		for _, c := range splitChars(lines[lnum]) {
+		line, cr := trimCR(lines[lnum])
+		for _, c := range splitChars(line) {
 			self.buf = append(self.buf, c)
 			self.pos = append(self.pos, pos{lnum: lnum + 1, col: col + 1, offset: offset})
 			col += len(c)
@@ -207,7 +208,9 @@ func (self *StringReader) __init__(lines []string) {
 		for lnum+1 < len(lines) && viml_eqregh(lines[lnum+1], "^\\s*\\\\") {
 			var skip = true
 			col = 0
-			for _, c := range splitChars(lines[lnum+1]) {
+			offset += cr
+			line, cr = trimCR(lines[lnum+1])
+			for _, c := range splitChars(line) {
 				if skip {
 					if c == "\\" {
 						skip = false
@@ -225,13 +228,20 @@ func (self *StringReader) __init__(lines []string) {
 		self.buf = append(self.buf, "<EOL>")
 		self.pos = append(self.pos, pos{lnum: lnum + 1, col: col + 1, offset: offset})
 		lnum += 1
-		offset += 1
+		offset += 1 + cr
 	}
 	// for <EOF>
 	self.pos = append(self.pos, pos{lnum: lnum + 1, col: 0, offset: offset})
 	self.i = 0
 }
 
+// trimCR returns the line without the CR of a CRLF line break and the size of
+// what it left out.
+func trimCR(line string) (string, int) {
+	l := strings.TrimSuffix(line, "\r")
+	return l, len(line) - len(l)
+}
+
 // splitChars splits s into characters. A byte that is not part of a valid
 // UTF-8 sequence is a character of its own.
 func splitChars(s string) []string {
diff --git a/vimlparser.go b/vimlparser.go
index 59f4313..4b1e932 100644
--- a/vimlparser.go
+++ b/vimlparser.go
@@ -92,6 +92,8 @@ func ParseExpr(r io.Reader) (node ast.Expr, err error) {
 	return
 }
 
+// readlines returns the lines of r without their final '\n'. A CR before it is
+// kept: it counts for the offsets of the lines that follow.
 func readlines(r io.Reader) ([]string, error) {
 	data, err := ioutil.ReadAll(r)
 	if err != nil {
@@ -101,8 +103,5 @@ func readlines(r io.Reader) ([]string, error) {
 	if last := len(lines) - 1; lines[last] == "" {
 		lines = lines[:last]
 	}
-	for i, l := range lines {
-		lines[i] = strings.TrimSuffix(l, "\r")
-	}
 	return lines, nil
 }
-- 
2.43.0


From a1b09f930f2a872533eb51f274d6a8d495ee79ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 07/19] fix: do not take a compiled expression for a format
 string

Compiling an expression on its own mangled every % in it.
---
 compiler/compiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/compiler.go b/compiler/compiler.go
index 838ecf6..873764e 100644
--- a/compiler/compiler.go
+++ b/compiler/compiler.go
@@ -78,7 +78,7 @@ func (c *Compiler) compile(node interface{}) error {
 			}
 		}
 	case ast.Expr:
-		c.fprint(c.compileExpr(n))
+		c.fprint("%s", c.compileExpr(n))
 	}
 	return nil
 }
-- 
2.43.0


From bc45b570f3145ec71c65541f77687002f25bb0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:08 +0000
Subject: [PATCH 08/19] fix: leave the parameters of a function alone when
 compiling it

Compile removed a final ... from the tree, so that compiling the tree again
gave another result, and did so without synchronisation.
---
 compiler/compiler.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/compiler/compiler.go b/compiler/compiler.go
index 873764e..dd00d3d 100644
--- a/compiler/compiler.go
+++ b/compiler/compiler.go
@@ -154,16 +154,17 @@ func (c *Compiler) compileFunction(node *ast.Function) {
 		c.fprint(" ")
 		ps := make([]string, 0, len(node.Params))
 		var remaining bool
-		if node.Params[len(node.Params)-1].Name == token.DOTDOTDOT.String() {
-			node.Params = node.Params[:len(node.Params)-1]
+		params := node.Params
+		if params[len(params)-1].Name == token.DOTDOTDOT.String() {
+			params = params[:len(params)-1]
 			remaining = true
 		}
-		for i, p := range node.Params {
-			if i < len(node.Params)-len(node.DefaultArgs) {
+		for i, p := range params {
+			if i < len(params)-len(node.DefaultArgs) {
 				ps = append(ps, p.Name)
 			} else {
 				ps = append(ps, fmt.Sprintf("(%s %s)", p.Name,
-					c.compileExpr(node.DefaultArgs[i+len(node.DefaultArgs)-len(node.Params)])))
+					c.compileExpr(node.DefaultArgs[i+len(node.DefaultArgs)-len(params)])))
 			}
 		}
 		if remaining {
-- 
2.43.0


From 095322830ffbdb63e379543f8b54f9f3a4f33daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 09/19] fix: indent the head of a nested function once

The indentation was repeated in the middle of the line, before each piece of
the head of a function that is not at the top level.
---
 compiler/compiler.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/compiler/compiler.go b/compiler/compiler.go
index dd00d3d..cfdda36 100644
--- a/compiler/compiler.go
+++ b/compiler/compiler.go
@@ -149,9 +149,8 @@ func (c *Compiler) compileExcmd(node *ast.Excmd) {
 }
 
 func (c *Compiler) compileFunction(node *ast.Function) {
-	c.fprint("(function (%s", c.compileExpr(node.Name))
+	signature := c.compileExpr(node.Name)
 	if len(node.Params) > 0 {
-		c.fprint(" ")
 		ps := make([]string, 0, len(node.Params))
 		var remaining bool
 		params := node.Params
@@ -170,9 +169,9 @@ func (c *Compiler) compileFunction(node *ast.Function) {
 		if remaining {
 			ps = append(ps, ". ...")
 		}
-		c.fprint("%s", strings.Join(ps, " "))
+		signature += " " + strings.Join(ps, " ")
 	}
-	c.fprintln(")")
+	c.fprintln("(function (%s)", signature)
 	c.indent++
 	c.compile(node.Body)
 	c.trimLineBreak()
-- 
2.43.0


From 52696b1245ed21a6d8f6e0700fc813ddf8a4719b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:28 +0000
Subject: [PATCH 10/19] fix: accept counts that do not fit in 32 bits

A script with a large count or depth, such as :lockvar 99999999999 x, failed
with an error of the number conversion instead of being parsed.
---
 go/vimlfunc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index 8896232..2652443 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -141,6 +141,9 @@ func viml_split(s string, sep string) []string {
 func viml_str2nr(s string, base int) int {
 	r, err := strconv.ParseInt(s, base, 32)
 	if err != nil {
+		if e, ok := err.(*strconv.NumError); ok && e.Err == strconv.ErrRange {
+			return int(r) // the nearest value
+		}
 		panic(fmt.Errorf("viml_str2nr: %v", err))
 	}
 	return int(r)
-- 
2.43.0


From 56db395a2df13b8db798c8fb2ffa7a0d550aed1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 11/19] fix: give a heredoc the position of its =<<

HeredocExpr.OpPos is documented as the position of =<< but was that of the
command.
---
 autoload/vimlparser.vim | 2 ++
 go/vimlparser.go        | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index a7ae041..a979148 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1596,10 +1596,12 @@ function! s:VimLParser.parse_cmd_let() abort
     call self.reader.getn(len(s2))
     let node.op = s2
   elseif s2 ==# '=<<'
+    let oppos = self.reader.getpos()
     call self.reader.getn(len(s2))
     call self.reader.skip_white()
     let node.op = s2
     let node.right = self.parse_heredoc()
+    let node.right.pos = oppos
     call self.add_node(node)
     return
   elseif s1 ==# '='
diff --git a/go/vimlparser.go b/go/vimlparser.go
index d642d7a..f2ca8d8 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1453,10 +1453,12 @@ func (self *VimLParser) parse_cmd_let() {
 		self.reader.getn(len(s2))
 		node.op = s2
 	} else if s2 == "=<<" {
+		var oppos = self.reader.getpos()
 		self.reader.getn(len(s2))
 		self.reader.skip_white()
 		node.op = s2
 		node.right = self.parse_heredoc()
+		node.right.pos = oppos
 		self.add_node(node)
 		return
 	} else if s1 == "=" {
-- 
2.43.0


From 36e5c1dfbaccfc4f183cb193008047ecce92fdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 12/19] fix: give a literal dictionary key the position of its
 first character

It had that of the second one.
---
 autoload/vimlparser.vim | 2 +-
 go/vimlparser.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index a979148..50f2252 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -3604,8 +3604,8 @@ function! s:ExprTokenizer.parse_dict_literal_key() abort
   endif
   let node = s:Node(s:NODE_STRING)
   let s = c
-  call self.reader.seek_cur(1)
   let node.pos = self.reader.getpos()
+  call self.reader.seek_cur(1)
   while s:TRUE
     let c = self.reader.p(0)
     if c ==# '<EOF>' || c ==# '<EOL>'
diff --git a/go/vimlparser.go b/go/vimlparser.go
index f2ca8d8..ccac0a7 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -2343,8 +2343,8 @@ func (self *ExprTokenizer) parse_dict_literal_key() *VimNode {
 	}
 	var node = Node(NODE_STRING)
 	var s = c
-	self.reader.seek_cur(1)
 	node.pos = self.reader.getpos()
+	self.reader.seek_cur(1)
 	for true {
 		c = self.reader.p(0)
 		if c == "<EOF>" || c == "<EOL>" {
-- 
2.43.0


From 562dd2bf312c0cd81a8aead9b4dba95c6fe8e24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:02 +0000
Subject: [PATCH 13/19] fix: give the {expr} part of a curly name the position
 of its brace

CurlyNameExpr had the position after the brace, which need not even be the
place of the expression.
---
 autoload/vimlparser.vim | 2 +-
 go/vimlparser.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 50f2252..f4bf1ab 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -4445,8 +4445,8 @@ function! s:ExprParser.parse_curly_parts() abort
       let node.value = name
       call add(curly_parts, node)
     elseif c ==# '{'
-      call self.reader.get()
       let pos = self.reader.getpos()
+      call self.reader.get()
       let node = s:Node(s:NODE_CURLYNAMEEXPR)
       let node.curly = s:TRUE " Keep backword compatibility for the curly attribute
       let node.pos = pos
diff --git a/go/vimlparser.go b/go/vimlparser.go
index ccac0a7..7e845ec 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -3183,8 +3183,8 @@ func (self *ExprParser) parse_curly_parts() []*VimNode {
 			node.value = name
 			curly_parts = append(curly_parts, node)
 		} else if c == "{" {
-			self.reader.get()
 			pos = self.reader.getpos()
+			self.reader.get()
 			var node = Node(NODE_CURLYNAMEEXPR)
 			node.curly = true
 			// Keep backword compatibility for the curly attribute
-- 
2.43.0


From 6ad798b1072c7894ea2a4056f81eff63eebb1501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 14/19] fix: parse nested {expr} names in linear time

{expr} at the start of a curly name was parsed as a dictionary key first and
then, when no colon followed, once more, so that the time was exponential in
the nesting depth: thirty nested braces took minutes.
---
 autoload/vimlparser.vim | 23 +++++++++++++++++++++--
 go/typedefs.vim         |  1 +
 go/vimlparser.go        | 30 +++++++++++++++++++++++++-----
 3 files changed, 47 insertions(+), 7 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index f4bf1ab..eba6754 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -4293,8 +4293,22 @@ function! s:ExprParser.parse_expr9() abort
         if !empty(node.value)
           throw s:Err(printf('unexpected token: %s', token.value), token.pos)
         endif
-        call self.reader.seek_set(pos)
-        let node = self.parse_identifier()
+        if is_litdict
+          call self.reader.seek_set(pos)
+          let node = self.parse_identifier()
+          break
+        endif
+        " {expr}.  Don't parse expr again: when nested that takes time
+        " exponential in the depth.
+        let part = s:Node(s:NODE_CURLYNAMEEXPR)
+        let part.curly = s:TRUE " Keep backword compatibility for the curly attribute
+        let part.pos = nodepos
+        let part.value = key
+        let curly_parts = []
+        call add(curly_parts, part)
+        let node = s:Node(s:NODE_CURLYNAME)
+        let node.pos = nodepos
+        let node.value = self.parse_curly_tail(curly_parts)
         break
       endif
       if token.type !=# s:TOKEN_COLON
@@ -4434,6 +4448,11 @@ function! s:ExprParser.parse_curly_parts() abort
     let node.value = name
     call add(curly_parts, node)
   endif
+  return self.parse_curly_tail(curly_parts)
+endfunction
+
+function! s:ExprParser.parse_curly_tail(parts) abort
+  let curly_parts = a:parts
   while s:TRUE
     let c = self.reader.peek()
     if s:isnamec(c)
diff --git a/go/typedefs.vim b/go/typedefs.vim
index c53be39..d699856 100644
--- a/go/typedefs.vim
+++ b/go/typedefs.vim
@@ -145,6 +145,7 @@ call extend(s:typedefs.func, {
 \   'ExprParser.parse_concat': { 'in': ['*ExprToken', '*VimNode'], 'out': ['*VimNode'] },
 \   'ExprParser.parse_identifier': { 'in': [], 'out': ['*VimNode'] },
 \   'ExprParser.parse_curly_parts': { 'in': [], 'out': ['[]*VimNode'] },
+\   'ExprParser.parse_curly_tail': { 'in': ['[]*VimNode'], 'out': ['[]*VimNode'] },
 \ })
 
 call extend(s:typedefs.func, {
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 7e845ec..870b384 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -3029,8 +3029,23 @@ func (self *ExprParser) parse_expr9() *VimNode {
 				if !viml_empty(node.value) {
 					panic(Err(viml_printf("unexpected token: %s", token.value), token.pos))
 				}
-				self.reader.seek_set(pos)
-				node = self.parse_identifier()
+				if is_litdict {
+					self.reader.seek_set(pos)
+					node = self.parse_identifier()
+					break
+				}
+				// {expr}.  Don't parse expr again: when nested that takes time
+				// exponential in the depth.
+				var part = Node(NODE_CURLYNAMEEXPR)
+				part.curly = true
+				// Keep backword compatibility for the curly attribute
+				part.pos = nodepos
+				part.value = key
+				var curly_parts []*VimNode
+				curly_parts = append(curly_parts, part)
+				node = Node(NODE_CURLYNAME)
+				node.pos = nodepos
+				node.value = self.parse_curly_tail(curly_parts)
 				break
 			}
 			if token.type_ != TOKEN_COLON {
@@ -3171,10 +3186,15 @@ func (self *ExprParser) parse_curly_parts() []*VimNode {
 		node.value = name
 		curly_parts = append(curly_parts, node)
 	}
+	return self.parse_curly_tail(curly_parts)
+}
+
+func (self *ExprParser) parse_curly_tail(parts []*VimNode) []*VimNode {
+	var curly_parts = parts
 	for true {
-		c = self.reader.peek()
+		var c = self.reader.peek()
 		if isnamec(c) {
-			pos = self.reader.getpos()
+			var pos = self.reader.getpos()
 			var name = self.reader.read_name()
 			var node = Node(NODE_CURLYNAMEPART)
 			node.curly = false
@@ -3183,7 +3203,7 @@ func (self *ExprParser) parse_curly_parts() []*VimNode {
 			node.value = name
 			curly_parts = append(curly_parts, node)
 		} else if c == "{" {
-			pos = self.reader.getpos()
+			var pos = self.reader.getpos()
 			self.reader.get()
 			var node = Node(NODE_CURLYNAMEEXPR)
 			node.curly = true
-- 
2.43.0


From fbce34508f4052d6a4dc5d2297a5b54f847e71c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 15/19] fix: walk lambda bodies and parameter defaults

Walk and Inspect never visited LambdaExpr.Expr and Function.DefaultArgs.
---
 ast/walk.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/ast/walk.go b/ast/walk.go
index 41587bf..4530417 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -39,7 +39,7 @@ func Walk(v Visitor, node Node) {
 
 	case *Function:
 		Walk(v, n.Name)
-		walkIdentList(v, n.Params)
+		walkParams(v, n)
 		walkStmtList(v, n.Body)
 		Walk(v, n.EndFunction)
 
@@ -205,6 +205,7 @@ func Walk(v Visitor, node Node) {
 
 	case *LambdaExpr:
 		walkIdentList(v, n.Params)
+		Walk(v, n.Expr)
 
 	case *ParenExpr:
 		Walk(v, n.X)
@@ -227,6 +228,22 @@ func walkIdentList(v Visitor, list []*Ident) {
 	}
 }
 
+// walkParams walks the parameters of a function, each with its default. The
+// defaults belong to the last parameters before a final "...".
+func walkParams(v Visitor, f *Function) {
+	params := len(f.Params)
+	if params > 0 && f.Params[params-1].Name == "..." {
+		params--
+	}
+	first := params - len(f.DefaultArgs)
+	for i, p := range f.Params {
+		Walk(v, p)
+		if i >= first && i < params {
+			Walk(v, f.DefaultArgs[i-first])
+		}
+	}
+}
+
 func walkExprList(v Visitor, list []Expr) {
 	for _, x := range list {
 		Walk(v, x)
-- 
2.43.0


From 281db1ea919f72c475c8fd0e45c7952a0a8c0d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 16/19] fix: call the function given to Inspect with nil after
 the children

Inspect documents it, but the call was swallowed.
---
 ast/walk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/walk.go b/ast/walk.go
index 4530417..395b90f 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -259,7 +259,7 @@ func walkStmtList(v Visitor, list []Statement) {
 type inspector func(Node) bool
 
 func (f inspector) Visit(node Node) Visitor {
-	if node != nil && f(node) {
+	if f(node) {
 		return f
 	}
 	return nil
-- 
2.43.0


From 2de8a17dd5ee32f1816acd1a17a4219a585ca6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 17/19] fix: report a short write in Fprint

---
 printer/printer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/printer/printer.go b/printer/printer.go
index 7be5979..058d889 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -30,10 +30,11 @@ func Fprint(output io.Writer, node ast.Node, cfg *Config) error {
 	if err := p.printNode(node); err != nil {
 		return err
 	}
-	if _, err := output.Write(p.output); err != nil {
-		return err
+	n, err := output.Write(p.output)
+	if err == nil && n < len(p.output) {
+		err = io.ErrShortWrite
 	}
-	return nil
+	return err
 }
 
 type printer struct {
-- 
2.43.0


From f477164f053721209ba8dfc9541ee366739993e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:44 +0000
Subject: [PATCH 18/19] fix: count the line break before a continuation line in
 its offsets

The offset of a character on the n-th continuation line was one too small:
the preceding line break was only counted after the line.
---
 go/type.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/go/type.go b/go/type.go
index 0c1c12c..9bc3a9e 100644
--- a/go/type.go
+++ b/go/type.go
@@ -208,7 +208,7 @@ func (self *StringReader) __init__(lines []string) {
 		for lnum+1 < len(lines) && viml_eqregh(lines[lnum+1], "^\\s*\\\\") {
 			var skip = true
 			col = 0
-			offset += cr
+			offset += 1 + cr
 			line, cr = trimCR(lines[lnum+1])
 			for _, c := range splitChars(line) {
 				if skip {
@@ -223,7 +223,6 @@ func (self *StringReader) __init__(lines []string) {
 				offset += len(c)
 			}
 			lnum += 1
-			offset += 1
 		}
 		self.buf = append(self.buf, "<EOL>")
 		self.pos = append(self.pos, pos{lnum: lnum + 1, col: col + 1, offset: offset})
-- 
2.43.0


From 444520f438b099cec85dfce3f7cdcd310d5b4bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:47 +0000
Subject: [PATCH 19/19] fix: deeply nested scripts ended the process with a
 stack overflow

200 KB of opening parentheses, or a chain of 400000 operators, made the parser
or the conversion of its tree run out of stack, which no caller can recover
from. Bound the nesting and report an error as Vim does (E1169).
---
 autoload/vimlparser.vim | 21 ++++++++++++++++++
 go/export.go            | 48 +++++++++++++++++++++++++++++++++++++++--
 go/type.go              | 13 ++++++++---
 go/typedefs.vim         |  8 +++++++
 go/vimlparser.go        | 20 +++++++++++++++++
 5 files changed, 105 insertions(+), 5 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index eba6754..9f4270d 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -215,6 +215,7 @@ let s:TOKEN_DOTDOT = 68
 let s:TOKEN_HEREDOC = 69
 
 let s:MAX_FUNC_ARGS = 20
+let s:MAX_EXPR_DEPTH = 10000
 
 function! s:isalpha(c) abort
   return a:c =~# '^[A-Za-z]$'
@@ -3640,6 +3641,7 @@ endfunction
 
 " expr1: expr2 ? expr1 : expr1
 function! s:ExprParser.parse_expr1() abort
+  call self.reader.enter()
   let left = self.parse_expr2()
   let pos = self.reader.tell()
   let token = self.tokenizer.get()
@@ -3657,6 +3659,7 @@ function! s:ExprParser.parse_expr1() abort
   else
     call self.reader.seek_set(pos)
   endif
+  call self.reader.leave()
   return left
 endfunction
 
@@ -3984,26 +3987,31 @@ endfunction
 "        - expr7
 "        + expr7
 function! s:ExprParser.parse_expr7() abort
+  call self.reader.enter()
   let pos = self.reader.tell()
   let token = self.tokenizer.get()
   if token.type ==# s:TOKEN_NOT
     let node = s:Node(s:NODE_NOT)
     let node.pos = token.pos
     let node.left = self.parse_expr7()
+    call self.reader.leave()
     return node
   elseif token.type ==# s:TOKEN_MINUS
     let node = s:Node(s:NODE_MINUS)
     let node.pos = token.pos
     let node.left = self.parse_expr7()
+    call self.reader.leave()
     return node
   elseif token.type ==# s:TOKEN_PLUS
     let node = s:Node(s:NODE_PLUS)
     let node.pos = token.pos
     let node.left = self.parse_expr7()
+    call self.reader.leave()
     return node
   else
     call self.reader.seek_set(pos)
     let node = self.parse_expr8()
+    call self.reader.leave()
     return node
   endif
 endfunction
@@ -4645,6 +4653,19 @@ function! s:StringReader.__init__(lines) abort
   " for <EOF>
   call add(self.pos, [lnum + 1, 0, offset])
   let self.i = 0
+  let self.depth = 0
+endfunction
+
+" enter is called where an expression nests, to bound the recursion.
+function! s:StringReader.enter() abort
+  let self.depth += 1
+  if self.depth > s:MAX_EXPR_DEPTH
+    throw s:Err('E1169: Expression too recursive', self.getpos())
+  endif
+endfunction
+
+function! s:StringReader.leave() abort
+  let self.depth -= 1
 endfunction
 
 function! s:StringReader.eof() abort
diff --git a/go/export.go b/go/export.go
index 5218549..0f84b2e 100644
--- a/go/export.go
+++ b/go/export.go
@@ -9,16 +9,60 @@ import (
 
 // Parse parses Vim script in reader and returns Node.
 func (p *VimLParser) Parse(reader *StringReader, filename string) ast.Node {
-	return newAstNode(p.parse(reader), filename)
+	n := p.parse(reader)
+	checkDepth(n, 0)
+	return newAstNode(n, filename)
 }
 
 // Parse parses Vim script expression.
 func (p *ExprParser) Parse() ast.Expr {
-	return newExprNode(p.parse(), "")
+	n := p.parse()
+	checkDepth(n, 0)
+	return newExprNode(n, "")
 }
 
 // ----
 
+// maxDepth is how deep a tree may be, so that functions which descend it do not
+// run out of stack, which ends the process.
+const maxDepth = 50000
+
+// checkDepth reports a tree that is too deep. While the parser bounds blocks
+// and nested expressions, a chain of operators takes no recursion to parse.
+func checkDepth(n *VimNode, depth int) {
+	if n == nil {
+		return
+	}
+	if depth > maxDepth {
+		panic(Err("nesting too deep", n.pos))
+	}
+	depth++
+	for _, x := range []*VimNode{n.left, n.right, n.cond, n.rest, n.endfunction, n.else_, n.endif, n.endwhile, n.endfor, n.endtry, n.finally} {
+		checkDepth(x, depth)
+	}
+	for _, l := range [][]*VimNode{n.list, n.rlist, n.default_args, n.body, n.elseif, n.catch} {
+		for _, x := range l {
+			checkDepth(x, depth)
+		}
+	}
+	checkValueDepth(n.value, depth)
+}
+
+func checkValueDepth(v interface{}, depth int) {
+	switch v := v.(type) {
+	case *VimNode:
+		checkDepth(v, depth)
+	case []*VimNode:
+		for _, x := range v {
+			checkDepth(x, depth)
+		}
+	case []interface{}:
+		for _, x := range v {
+			checkValueDepth(x, depth)
+		}
+	}
+}
+
 // newAstNode converts internal node type to ast.Node.
 // n.type_ must no be zero value.
 // n.pos must no be nil except TOPLEVEL node.
diff --git a/go/type.go b/go/type.go
index 9bc3a9e..9303c40 100644
--- a/go/type.go
+++ b/go/type.go
@@ -124,7 +124,13 @@ func (self *VimLParser) __init__(neovim bool) {
 	self.neovim = neovim
 }
 
+// maxBlockDepth is how many blocks may be open at a time.
+const maxBlockDepth = 10000
+
 func (self *VimLParser) push_context(n *VimNode) {
+	if len(self.context) > maxBlockDepth {
+		panic(Err("block nesting too deep", n.pos))
+	}
 	self.context = append([]*VimNode{n}, self.context...)
 }
 
@@ -176,9 +182,10 @@ func NewLvalueParser(reader *StringReader) *LvalueParser {
 }
 
 type StringReader struct {
-	i   int
-	pos []pos
-	buf []string
+	i     int
+	pos   []pos
+	buf   []string
+	depth int
 }
 
 func NewStringReader(lines []string) *StringReader {
diff --git a/go/typedefs.vim b/go/typedefs.vim
index d699856..c522319 100644
--- a/go/typedefs.vim
+++ b/go/typedefs.vim
@@ -159,6 +159,14 @@ call extend(s:typedefs.func, {
 \     'in': ['[]string'],
 \     'out': [],
 \   },
+\   'StringReader.enter': {
+\     'in': [],
+\     'out': [],
+\   },
+\   'StringReader.leave': {
+\     'in': [],
+\     'out': [],
+\   },
 \   'StringReader.eof': {
 \     'in': [],
 \     'out': ['bool'],
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 870b384..1c53364 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -171,6 +171,7 @@ var TOKEN_LITCOPEN = 67
 var TOKEN_DOTDOT = 68
 var TOKEN_HEREDOC = 69
 var MAX_FUNC_ARGS = 20
+var MAX_EXPR_DEPTH = 10000
 
 func isalpha(c string) bool {
 	return viml_eqregh(c, "^[A-Za-z]$")
@@ -2371,6 +2372,7 @@ func (self *ExprParser) parse() *VimNode {
 
 // expr1: expr2 ? expr1 : expr1
 func (self *ExprParser) parse_expr1() *VimNode {
+	self.reader.enter()
 	var left = self.parse_expr2()
 	var pos = self.reader.tell()
 	var token = self.tokenizer.get()
@@ -2388,6 +2390,7 @@ func (self *ExprParser) parse_expr1() *VimNode {
 	} else {
 		self.reader.seek_set(pos)
 	}
+	self.reader.leave()
 	return left
 }
 
@@ -2717,26 +2720,31 @@ func (self *ExprParser) parse_expr6() *VimNode {
 //        - expr7
 //        + expr7
 func (self *ExprParser) parse_expr7() *VimNode {
+	self.reader.enter()
 	var pos = self.reader.tell()
 	var token = self.tokenizer.get()
 	if token.type_ == TOKEN_NOT {
 		var node = Node(NODE_NOT)
 		node.pos = token.pos
 		node.left = self.parse_expr7()
+		self.reader.leave()
 		return node
 	} else if token.type_ == TOKEN_MINUS {
 		var node = Node(NODE_MINUS)
 		node.pos = token.pos
 		node.left = self.parse_expr7()
+		self.reader.leave()
 		return node
 	} else if token.type_ == TOKEN_PLUS {
 		var node = Node(NODE_PLUS)
 		node.pos = token.pos
 		node.left = self.parse_expr7()
+		self.reader.leave()
 		return node
 	} else {
 		self.reader.seek_set(pos)
 		var node = self.parse_expr8()
+		self.reader.leave()
 		return node
 	}
 }
@@ -3334,6 +3342,18 @@ func (self *LvalueParser) parse_lv9() *VimNode {
 	return node
 }
 
+// enter is called where an expression nests, to bound the recursion.
+func (self *StringReader) enter() {
+	self.depth += 1
+	if self.depth > MAX_EXPR_DEPTH {
+		panic(Err("E1169: Expression too recursive", self.getpos()))
+	}
+}
+
+func (self *StringReader) leave() {
+	self.depth -= 1
+}
+
 func (self *StringReader) eof() bool {
 	return self.i >= len(self.buf)
 }
-- 
2.43.0

