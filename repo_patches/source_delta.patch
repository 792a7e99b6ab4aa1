From b9c12cff089894e52034e11fda3db39c287a5499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:16 +0000
Subject: [PATCH 1/9] fix: parser results and errors depend on earlier calls on
 the same Parser

Word returned the memoized *Word again on a second call at the same
offset, and Text and Word shared nodes, so a caller's change leaked
into later results. A failing Word built its error from the full_text
rule at offset 0 with a relative error position, and any error depended
on which calls were made before.
---
 ast/parser.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/ast/parser.go b/ast/parser.go
index db2add7..cde08e7 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -52,7 +52,7 @@ func NewParser(text string) *Parser {
 
 // Tree returns the full parse tree of the text.
 func (p *Parser) Tree() (*peg.Node, Error) {
-	if err := p.parse(_full_textAccepts, 0); err != nil {
+	if err := p.parse(_full_textAccepts, _full_textFail, 0); err != nil {
 		return nil, err
 	}
 	_, t := _full_textNode(p._Parser, 0)
@@ -66,20 +66,20 @@ func (p *Parser) Tree() (*peg.Node, Error) {
 // Word returns the word at the given byte-offset into the text
 // with any trailing whitespace attached and the number of bytes parsed.
 func (p *Parser) Word(offs int) (*Word, int, Error) {
-	if err := p.parse(_wordAccepts, offs); err != nil {
+	if err := p.parse(_wordAccepts, _wordFail, offs); err != nil {
 		return nil, 0, err
 	}
 	pos, t := _wordAction(p._Parser, offs)
 	// Reset so a subsequent call returns a different tree.
 	// This allows the caller to modify the returned tree
 	// without affecting the tree made by subsequent calls.
-	p._Parser.node = make(map[_key]*peg.Node)
+	p._Parser.act = make(map[_key]interface{})
 	return *t, pos - offs, nil
 }
 
 // Text returns the AST of the text.
 func (p *Parser) Text() (*Text, Error) {
-	if err := p.parse(_full_textAccepts, 0); err != nil {
+	if err := p.parse(_full_textAccepts, _full_textFail, 0); err != nil {
 		return nil, err
 	}
 	_, txt := _full_textAction(p._Parser, 0)
@@ -90,12 +90,17 @@ func (p *Parser) Text() (*Text, Error) {
 	return txt, nil
 }
 
-func (p *Parser) parse(rule func(*_Parser, int) (int, int), start int) Error {
-	pos, perr := rule(p._Parser, start)
-	if pos >= 0 {
+func (p *Parser) parse(accepts func(*_Parser, int) (int, int), fail func(*_Parser, int, int) (int, *peg.Fail), start int) Error {
+	dpos, derr := accepts(p._Parser, start)
+	if dpos >= 0 {
 		return nil
 	}
-	_, failTree := _full_textFail(p._Parser, 0, perr)
+	// The fail pass must depend only on the text, the rule, and start,
+	// not on the calls made before on the same Parser,
+	// and the caller may modify the tree of an earlier error.
+	p._Parser.fail = make(map[_key]*peg.Fail)
+	p._Parser.lastFail = start + derr
+	_, failTree := fail(p._Parser, start, start+derr)
 	return &parseError{
 		fail: failTree,
 		err:  peg.SimpleError(p._Parser.text, failTree),
-- 
2.43.0


From 00a6f44c577382eb4fc6c0a70fdf7d63a4c93165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:48 +0000
Subject: [PATCH 2/9] fix: server reports an interpreter run-time error as
 "fragment"

safeInterp swallowed every panic whose value is not a string, such as a
failed type assertion, and returned no statement and no error.
---
 server/server.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/server.go b/server/server.go
index bf6a6b7..3a4746a 100644
--- a/server/server.go
+++ b/server/server.go
@@ -2,7 +2,7 @@ package main
 
 import (
 	"encoding/json"
-	"errors"
+	"fmt"
 	"html/template"
 	"io/ioutil"
 	"net/http"
@@ -86,8 +86,8 @@ func rootHandler(w http.ResponseWriter, req *http.Request) {
 // on some things that are unimplemented.
 func safeInterp(text *ast.Text) (st logic.Statement, err error) {
 	defer func() {
-		if str, ok := recover().(string); ok {
-			err = errors.New("bug: " + str)
+		if r := recover(); r != nil {
+			err = fmt.Errorf("bug: %v", r)
 		}
 	}()
 	return logic.Interpret(text), nil
-- 
2.43.0


From 5e9ce2ddd09a3367118f37c3488b0bd43b440de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:49 +0000
Subject: [PATCH 3/9] fix: server exits silently with status 0 when it cannot
 listen

---
 server/server.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index 3a4746a..65bee7e 100644
--- a/server/server.go
+++ b/server/server.go
@@ -22,7 +22,10 @@ func main() {
 	if port == "" {
 		port = "8080"
 	}
-	http.ListenAndServe(":"+port, nil)
+	if err := http.ListenAndServe(":"+port, nil); err != nil {
+		fmt.Println(err)
+		os.Exit(1)
+	}
 }
 
 func rootHandler(w http.ResponseWriter, req *http.Request) {
-- 
2.43.0


From f1114fd9e6eba7a3433681af4e4e9d8d568bdb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:49 +0000
Subject: [PATCH 4/9] fix: server sends 200 and part of the page when the
 template fails to render

---
 server/server.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index 65bee7e..3bb0b73 100644
--- a/server/server.go
+++ b/server/server.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"html/template"
@@ -36,10 +37,12 @@ func rootHandler(w http.ResponseWriter, req *http.Request) {
 			http.Error(w, err.Error(), http.StatusInternalServerError)
 			return
 		}
-		if err := t.ExecuteTemplate(w, "template", nil); err != nil {
+		var page bytes.Buffer
+		if err := t.ExecuteTemplate(&page, "template", nil); err != nil {
 			http.Error(w, "", http.StatusInternalServerError)
 			return
 		}
+		page.WriteTo(w)
 	case http.MethodPost:
 		input, err := ioutil.ReadAll(req.Body)
 		if err != nil {
-- 
2.43.0


From 0bce6f48e6bf4a47ca8c575fda0dcdee679cf1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:49 +0000
Subject: [PATCH 5/9] fix: a text on which the interpreter panics kills the bot
 on all channels

---
 bot/bot.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/bot/bot.go b/bot/bot.go
index 2bc85ea..ed9e6f3 100644
--- a/bot/bot.go
+++ b/bot/bot.go
@@ -80,15 +80,29 @@ func parse(input string) string {
 		parse += "\n"
 	}
 	var math string
-	stmt := logic.Interpret(text)
-	if stmt == nil {
+	switch stmt, err := safeInterp(text); {
+	case err != nil:
+		math = err.Error()
+	case stmt == nil:
 		math = "fragment"
-	} else {
+	default:
 		math = logic.PrettyString(stmt)
 	}
 	return parse + math
 }
 
+// safeInterp calls the interpreter and recovers any panics.
+// The interpreter should not panic, but currently it does
+// on some things that are unimplemented.
+func safeInterp(text *ast.Text) (st logic.Statement, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("bug: %v", r)
+		}
+	}()
+	return logic.Interpret(text), nil
+}
+
 func fixBridgeMessage(msg *chat.Message) {
 	if msg.From == nil ||
 		msg.From.Nick != "ToaqBridgeBot" ||
-- 
2.43.0


From c9020589487f8eaea197d0bd9d074f3a085a1858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:49 +0000
Subject: [PATCH 6/9] fix: dict.Load panics on a reply without data or without
 an error message

---
 dict/dict.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dict/dict.go b/dict/dict.go
index 25e3946..6a56c37 100644
--- a/dict/dict.go
+++ b/dict/dict.go
@@ -41,7 +41,14 @@ func Load(url string, query string) (map[string]Word, error) {
 		return nil, err
 	}
 	if !response.Success {
-		return nil, fmt.Errorf("Toadua returned error: %s", *response.Error)
+		msg := "no error message"
+		if response.Error != nil {
+			msg = *response.Error
+		}
+		return nil, fmt.Errorf("Toadua returned error: %s", msg)
+	}
+	if response.Entries == nil {
+		return nil, fmt.Errorf("Toadua returned no data")
 	}
 	entries := *response.Entries
 	ws := make(map[string]Word)
-- 
2.43.0


From 04d86e0e6f95001a4da9e5c94f8338e8f5eb6502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:49 +0000
Subject: [PATCH 7/9] fix: dictionary generator destroys or corrupts its output
 file

The output was truncated before it was known to be valid and written in
place, so a failure, a full disk, or a kill lost the old file; errors of
Close were ignored; and "dict." was deleted from the words' own strings.
---
 dict/main.go | 64 +++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 53 insertions(+), 11 deletions(-)

diff --git a/dict/main.go b/dict/main.go
index 2ad08df..5ef36f9 100644
--- a/dict/main.go
+++ b/dict/main.go
@@ -6,13 +6,17 @@
 package main
 
 import (
+	"bytes"
 	"flag"
 	"fmt"
 	"go/format"
 	"go/parser"
 	"go/token"
 	"io"
+	"io/ioutil"
 	"os"
+	"path/filepath"
+	"sort"
 	"strings"
 	"time"
 
@@ -31,25 +35,63 @@ func main() {
 
 	ws, err := dict.Load(url, query)
 	if err != nil {
-		fmt.Printf(err.Error())
+		fmt.Print(err)
 		os.Exit(1)
 	}
-	f, err := os.Create(*out)
-	if err != nil {
-		fmt.Printf(err.Error())
-		os.Exit(1)
+	var keys []string
+	for k := range ws {
+		keys = append(keys, k)
 	}
-	defer f.Close()
+	sort.Strings(keys)
 
-	src := fmt.Sprintf("package dict\n"+
+	var src strings.Builder
+	fmt.Fprintf(&src, "package dict\n"+
 		"// Words contains the dictionary of words.\n"+
 		"// Last updated: %v.\n"+
-		"var Words = %#v\n", time.Now(), ws)
-	src = strings.Replace(src, "dict.", "", -1)
-	if err := gofmt(f, src); err != nil {
-		fmt.Printf(err.Error())
+		"var Words = map[string]Word{", time.Now())
+	for i, k := range keys {
+		if i > 0 {
+			src.WriteString(", ")
+		}
+		// Only strip the package qualifier from the type name;
+		// the strings of the word may also contain "dict.".
+		lit := strings.TrimPrefix(fmt.Sprintf("%#v", ws[k]), "dict.")
+		fmt.Fprintf(&src, "%#v: %s", k, lit)
+	}
+	src.WriteString("}\n")
+
+	var formatted bytes.Buffer
+	if err := gofmt(&formatted, src.String()); err != nil {
+		fmt.Print(err)
 		os.Exit(1)
 	}
+	if err := writeFile(*out, formatted.Bytes()); err != nil {
+		fmt.Print(err)
+		os.Exit(1)
+	}
+}
+
+// writeFile writes the data to a temporary file and renames it to path,
+// so that path never has partial contents.
+func writeFile(path string, data []byte) error {
+	f, err := ioutil.TempFile(filepath.Dir(path), filepath.Base(path)+".tmp")
+	if err != nil {
+		return err
+	}
+	_, err = f.Write(data)
+	if err == nil {
+		err = f.Chmod(0644)
+	}
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), path)
+	}
+	if err != nil {
+		os.Remove(f.Name())
+	}
+	return err
 }
 
 func gofmt(w io.Writer, s string) error {
-- 
2.43.0


From d96cc206a47327fc0d6087aeebc263bda250fc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:04 +0000
Subject: [PATCH 8/9] fix: command exits with status 0 when its output could
 not be written

---
 main.go | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/main.go b/main.go
index 2c15c5a..6725a70 100644
--- a/main.go
+++ b/main.go
@@ -47,18 +47,36 @@ func main() {
 	if err != nil {
 		panic(err) // can't fail since ParseTree succeeded.
 	}
-	fmt.Println(peg.Pretty(parseTree))
-	fmt.Println(pretty.String(text))
-	fmt.Println(toString(text))
-	fmt.Println(ast.BracesString(text))
-	stmt := logic.Interpret(text)
-	if stmt == nil {
-		fmt.Println("fragment")
-		return
+	out := &errWriter{w: os.Stdout}
+	fmt.Fprintln(out, peg.Pretty(parseTree))
+	fmt.Fprintln(out, pretty.String(text))
+	fmt.Fprintln(out, toString(text))
+	fmt.Fprintln(out, ast.BracesString(text))
+	if stmt := logic.Interpret(text); stmt == nil {
+		fmt.Fprintln(out, "fragment")
+	} else {
+		logic.NillOutAST(stmt)
+		fmt.Fprintln(out, pretty.String(stmt))
+		fmt.Fprintln(out, logic.String(stmt))
 	}
-	logic.NillOutAST(stmt)
-	fmt.Println(pretty.String(stmt))
-	fmt.Println(logic.String(stmt))
+	if out.err != nil {
+		fmt.Fprintf(os.Stderr, "failed to write output: %v\n", out.err)
+		os.Exit(1)
+	}
+}
+
+// An errWriter is a writer that remembers its first error.
+type errWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (w *errWriter) Write(b []byte) (int, error) {
+	n, err := w.w.Write(b)
+	if err != nil && w.err == nil {
+		w.err = err
+	}
+	return n, err
 }
 
 func toString(node ast.Node) string {
-- 
2.43.0


From 63fa50b28e6de31a7e06e78b0df40c5fa6dfc338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:54 +0000
Subject: [PATCH 9/9] fix: parser panics on a tone spelled with a digit after a
 syllable of several letters

---
 ast/nodes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ast/nodes.go b/ast/nodes.go
index 1c3c4cd..3ee2bae 100644
--- a/ast/nodes.go
+++ b/ast/nodes.go
@@ -131,6 +131,9 @@ func endParen(p Parenthetical, s *Mod, ki Word) *Parenthetical {
 // addTone swaps the first letter of des with its diacritic variant given the tone rune.
 func addTone(des, ton string) string {
 	t, _ := utf8.DecodeRuneInString(ton)
+	if '1' <= t && t <= '7' {
+		t = rune(`-/V?^\~`[t-'1'])
+	}
 	_, w := utf8.DecodeRuneInString(des)
 	return tone.Diacritic[t][des[:w]][0] + des[w:]
 }
-- 
2.43.0

