// Package libx computes what the library says about a text.
package libx

import (
	"fmt"
	"runtime"
	"strings"

	"github.com/eaburns/peggy/peg"
	"github.com/eaburns/pretty"
	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/dict"
	"github.com/eaburns/toaq/logic"
	"github.com/eaburns/toaq/tone"

	"toaqsim/dump"
	"toaqsim/plan"
)

// DumpLimit is the longest text whose structures are dumped in full.
const DumpLimit = 1500

// WordLimit is the longest text whose words are parsed at every offset.
const WordLimit = 48

// ToString concatenates the words of an AST.
func ToString(node ast.Node) string {
	var s strings.Builder
	ast.Visit(node, ast.FuncVisitor(func(n ast.Node) {
		if w, ok := n.(*ast.Word); ok {
			s.WriteString(w.T)
		}
	}))
	return s.String()
}

// VisitTrace lists the types of the nodes visited.
func VisitTrace(node ast.Node) string {
	var s strings.Builder
	ast.Visit(node, ast.FuncVisitor(func(n ast.Node) {
		fmt.Fprintf(&s, "%T ", n)
	}))
	return s.String()
}

// Interp interprets, reporting a panic as kind "panic".
func Interp(t *ast.Text) (st logic.Statement, kind, msg string, isStr bool) {
	defer func() {
		if r := recover(); r != nil {
			_, isStr = r.(string)
			if _, ok := r.(runtime.Error); ok {
				isStr = false
			}
			st, kind, msg = nil, "panic", fmt.Sprint(r)
		}
	}()
	st = logic.Interpret(t)
	if st == nil {
		return nil, "fragment", "", false
	}
	return st, "stmt", "", false
}

// ErrString renders a parse error in full.
func ErrOff(err ast.Error, n int) int {
	if n > 400 {
		return -1
	}
	peg.DedupFails(err.Tree())
	return err.ByteOffset()
}

// FailDump dumps the failure tree as it was returned.
func FailDump(err ast.Error) string { return dump.String(err.Tree()) }

// Tones runs the tone functions over the text.
func Tones(s string) string {
	var b strings.Builder
	b.WriteString(tone.ToASCII(s))
	b.WriteByte('|')
	b.WriteString(tone.Strip(s))
	b.WriteByte('|')
	for i, w := range strings.Fields(s) {
		if i > 20 {
			break
		}
		fmt.Fprintf(&b, "%d ", tone.Tone(w))
		if i < 8 {
			for _, t := range []rune{tone.None, '-', '/', 'V', '?', '^', '\\', '~'} {
				b.WriteString(safeWithTone(w, t))
				b.WriteByte(' ')
			}
		}
	}
	return b.String()
}

// Dict looks up the words of the text.
func Dict(s string) string {
	var b strings.Builder
	for i, w := range strings.Fields(s) {
		if i > 20 {
			break
		}
		e, ok := dict.Words[strings.ToLower(tone.Strip(w))]
		fmt.Fprintf(&b, "%v %q %q %q %d|", ok, e.Word, e.Def, e.By, e.Score)
	}
	fmt.Fprint(&b, len(dict.Words))
	return b.String()
}

func safeWithTone(w string, t rune) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "panic"
		}
	}()
	return tone.WithTone(w, t)
}

// LVisit lists the types of the formula's nodes.
func LVisit(st logic.Statement) string {
	var s strings.Builder
	st.Visit(func(n logic.Node) { fmt.Fprintf(&s, "%T ", n) })
	return s.String()
}

// StmtDump dumps a formula.
func StmtDump(st logic.Statement) string { return dump.String(st) }

// Compute computes everything about a text, each with a fresh parser. If
// anything but the interpreter panics the kind is "crash".
func Compute(s string) (r plan.Ref) {
	defer func() {
		if x := recover(); x != nil {
			r = plan.Ref{Text: s, Kind: "crash", PanicMsg: fmt.Sprint(x)}
		}
	}()
	return compute(s)
}

func compute(s string) plan.Ref {
	r := plan.Ref{Text: s}
	r.Tones = plan.Hash(Tones(s))
	r.Dict = plan.Hash(Dict(s))
	tree, err := ast.NewParser(s).Tree()
	if len(s) <= WordLimit {
		for off := 0; off <= len(s); off++ {
			r.Words = append(r.Words, WordAt(ast.NewParser(s), off))
		}
	}
	if err != nil {
		r.HasErr = true
		r.Kind = "error"
		r.Err = err.Error()
		if len(s) <= DumpLimit {
			r.Fail = plan.Hash(FailDump(err))
		}
		r.ErrOff = ErrOff(err, len(s))
		r.BotReply = plan.Hash("syntax error " + r.Err)
		_, err2 := ast.NewParser(s).Tree()
		ft := err2.Tree()
		peg.DedupFails(ft)
		var b strings.Builder
		peg.PrettyWrite(&b, ft)
		b.WriteString("\n")
		r.CLIOut = plan.Hash(b.String()) // followed by the path and the error
		return r
	}
	r.Parse = plan.Hash(peg.Pretty(tree))
	if len(s) <= DumpLimit {
		r.TreeDump = plan.Hash(dump.String(tree))
	}
	text, err := ast.NewParser(s).Text()
	if err != nil {
		r.Kind = "inconsistent"
		return r
	}
	if len(s) <= DumpLimit {
		r.TextDump = plan.Hash(dump.String(text))
	}
	braces := ast.BracesString(text)
	r.BracesH = plan.Hash(braces)
	if len(braces) <= 4096 {
		r.Braces = braces
	}
	aststr := pretty.String(text)
	r.AST = plan.Hash(aststr)
	str := ToString(text)
	r.Str = plan.Hash(str)
	r.Visit = plan.Hash(VisitTrace(text))
	r.Self = ast.Equal(text, text)
	st, kind, msg, isStr := Interp(text)
	r.Kind, r.PanicMsg, r.PanicStr = kind, msg, isStr
	math := "fragment"
	cli := peg.Pretty(tree) + "\n" + aststr + "\n" + str + "\n" + braces + "\n"
	switch kind {
	case "fragment":
		cli += "fragment\n"
	case "stmt":
		if len(s) <= DumpLimit {
			r.StmtDump = plan.Hash(StmtDump(st))
		}
		p := logic.PrettyString(st)
		math = p
		r.Pretty = plan.Hash(p)
		if len(p) < 4096 {
			r.PrettyS = p
		}
		r.LogicStr = plan.Hash(logic.String(st))
		r.LVisit = plan.Hash(LVisit(st))
		logic.NillOutAST(st)
		if len(s) <= DumpLimit {
			r.NillDump = plan.Hash(StmtDump(st))
		}
		cli += pretty.String(st) + "\n" + logic.String(st) + "\n"
	}
	r.CLIOut = plan.Hash(cli)
	if braces != "" {
		braces += "\n"
	}
	r.BotReply = plan.Hash(braces + math)
	return r
}

// WordAt parses one word.
func WordAt(p *ast.Parser, off int) plan.WordRef {
	w, n, err := p.Word(off)
	if err != nil {
		return plan.WordRef{Off: off, Err: err.Error(), Fail: plan.Hash(FailDump(err)), EOff: ErrOff(err, 0)}
	}
	return plan.WordRef{Off: off, N: n, Dump: plan.Hash(dump.String(w))}
}
