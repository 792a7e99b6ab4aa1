// The library world: the real library, called by simulated concurrent
// callers.
package w_lib

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"testing"
	"time"

	"github.com/eaburns/peggy/peg"
	"github.com/eaburns/pretty"
	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/logic"

	"toaqsim/dump"
	"toaqsim/libx"
	"toaqsim/plan"
	"toaqsim/simrt"
	"toaqsim/world"
)

func TestWorld(t *testing.T) { world.Main(t, run) }

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "…"
	}
	return s
}

type shared struct {
	ref  *plan.Ref
	text *ast.Text
	copy *ast.Text // an equal AST of another parse
	st   logic.Statement
	kind string
	td   string
	sd   string
}

type kept struct {
	v    interface{}
	what string
	sum  plan.FH
	err  ast.Error
	msg  string
}

type lib struct {
	*world.W
	p       *plan.Lib
	sh      []*shared
	done    int
	running int
}

type caller struct {
	*lib
	id      int
	parsers map[[2]int]*ast.Parser
	kept    []kept
	hist    map[[2]int]string
}

func (l *lib) bad(kind string, format string, args ...interface{}) {
	prop := l.Spec.Prop
	l.Violate(kind, fmt.Sprintf(format, args...), prop)
}

func run(w *world.W) {
	l := &lib{W: w, p: w.Spec.Lib}
	for _, k := range l.p.Shared {
		l.sh = append(l.sh, &shared{ref: &w.Spec.Texts[k]})
	}
	ready := make(chan bool)
	if len(l.sh) > 0 {
		simrt.Spawn("setup", func() {
			for _, s := range l.sh {
				var err ast.Error
				if s.text, err = ast.NewParser(s.ref.Text).Text(); err != nil {
					s.text = nil
					continue
				}
				s.copy, _ = ast.NewParser(s.ref.Text).Text()
				s.st, s.kind, _, _ = libx.Interp(s.text)
			}
			close(ready)
		})
		world.Settle(time.Second)
		simrt.Published(ready)
		for _, s := range l.sh {
			if s.text != nil {
				s.td = dump.String(s.text)
			}
			if s.st != nil {
				s.sd = dump.String(s.st)
			}
		}
	}
	if simrt.Exited {
		l.bad("panic", "the library panicked: %s", clip(simrt.Crash))
		return
	}
	l.running = len(l.p.Tasks)
	for i := range l.p.Tasks {
		i := i
		c := &caller{lib: l, id: i, parsers: map[[2]int]*ast.Parser{}, hist: map[[2]int]string{}}
		simrt.Spawn("caller"+strconv.Itoa(i), func() {
			for k := range l.p.Tasks[i] {
				c.do(k, &l.p.Tasks[i][k])
				simrt.Y(-1)
			}
			c.recheck()
			l.done++
		})
	}
	simrt.Loop(func() []simrt.Choice { return nil }, func() bool { return l.done == len(l.p.Tasks) }, func() time.Duration {
		return -1
	})
	if simrt.Exited {
		l.bad("panic", "a call panicked: %s", clip(simrt.Crash))
		return
	}
	if l.done < len(l.p.Tasks) {
		l.bad("hang", "%d of %d callers are blocked for ever", len(l.p.Tasks)-l.done, len(l.p.Tasks))
		return
	}
	for _, s := range l.sh {
		if s.text != nil {
			if d := dump.String(s.text); d != s.td {
				l.bad("modified", "text %q: the shared AST was changed: %s", clip(s.ref.Text), diff(s.td, d))
			}
		}
		if s.st != nil {
			if d := dump.String(s.st); d != s.sd {
				l.bad("modified", "text %q: the shared formula was changed: %s", clip(s.ref.Text), diff(s.sd, d))
			}
		}
	}
}

func diff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	j := i - 30
	if j < 0 {
		j = 0
	}
	at := func(s string) string {
		if j > len(s) {
			return ""
		}
		s = s[j:]
		if len(s) > 100 {
			s = s[:100]
		}
		return s
	}
	return fmt.Sprintf("at %d: was %q, is %q", i, at(a), at(b))
}

func (c *caller) eq(k int, op *plan.LibOp, what string, h plan.FH, got string) {
	c.Res.Checked++
	if len(c.p.Tasks) > 1 || k > 0 {
		c.Res.Nontrivial++
	}
	if !h.Is(got) {
		c.bad("wrong-result", "caller %d call %d %s(%q) after %v: %s is %q (%d bytes), want %q (%d bytes)", c.id, k, op.Op, clip(c.Spec.Texts[op.Text].Text), c.before(op), what, clip(got), len(got), h.Pre, h.N)
	}
}

func (c *caller) before(op *plan.LibOp) string { return c.hist[[2]int{op.Parser, op.Text}] }

func (c *caller) parser(op *plan.LibOp) *ast.Parser {
	s := c.Spec.Texts[op.Text].Text
	if op.Parser == 0 {
		return ast.NewParser(s)
	}
	key := [2]int{op.Parser, op.Text}
	p := c.parsers[key]
	if p == nil {
		p = ast.NewParser(s)
		c.parsers[key] = p
	}
	return p
}

func (c *caller) keep(op *plan.LibOp, what string, v interface{}) {
	if len(c.Spec.Texts[op.Text].Text) > libx.DumpLimit {
		return
	}
	switch op.Mutate {
	case "scribble":
		dump.Scribble(v)
		c.Probe("result-scribbled")
	case "clear":
		dump.ClearNodes(v)
		c.Probe("result-cleared")
	default:
		c.kept = append(c.kept, kept{v: v, what: what, sum: plan.Hash(dump.String(v))})
	}
}

func (c *caller) keepErr(op *plan.LibOp, what string, err ast.Error) {
	if len(c.Spec.Texts[op.Text].Text) > libx.DumpLimit {
		return
	}
	switch op.Mutate {
	case "scribble":
		dump.Scribble(err.Tree())
		c.Probe("error-scribbled")
	case "clear":
		peg.DedupFails(err.Tree())
		c.Probe("error-dedupped")
	default:
		c.kept = append(c.kept, kept{what: what, err: err, msg: err.Error(), sum: plan.Hash(libx.FailDump(err))})
	}
}

// recheck: what was returned earlier has not changed.
func (c *caller) recheck() {
	for _, k := range c.kept {
		c.Res.Checked++
		if k.err != nil {
			if k.err.Error() != k.msg || !k.sum.Is(libx.FailDump(k.err)) {
				c.bad("result-changed", "caller %d: the error of %s changed afterwards from %q to %q", c.id, k.what, k.msg, k.err.Error())
			}
			continue
		}
		if d := dump.String(k.v); !k.sum.Is(d) {
			c.bad("result-changed", "caller %d: the result of %s changed afterwards from %q to %q", c.id, k.what, k.sum.Pre, clip(d))
		}
	}
}

func (c *caller) do(k int, op *plan.LibOp) {
	ref := &c.Spec.Texts[op.Text]
	what := fmt.Sprintf("call %d %s(%q)", k, op.Op, clip(ref.Text))
	defer func() {
		key := [2]int{op.Parser, op.Text}
		if op.Parser > 0 && len(c.hist[key]) < 200 {
			c.hist[key] += op.Op + " "
		}
	}()
	dumped := len(ref.Text) <= libx.DumpLimit
	gotErr := func(err ast.Error) bool {
		if (err != nil) != ref.HasErr {
			c.bad("wrong-result", "caller %d %s after %v: error %v, want %q", c.id, what, c.before(op), err, ref.Err)
			return true
		}
		if err == nil {
			return false
		}
		c.eq(k, op, "error", plan.Hash(ref.Err), err.Error())
		if dumped {
			c.eq(k, op, "failure tree", ref.Fail, libx.FailDump(err))
			if op.Mutate == "" && op.Arg%2 == 1 {
				if o := libx.ErrOff(err, len(ref.Text)); o != ref.ErrOff {
					c.bad("wrong-result", "caller %d %s after %v: error offset %d, want %d", c.id, what, c.before(op), o, ref.ErrOff)
				}
			}
		}
		c.keepErr(op, what, err)
		return true
	}
	switch op.Op {
	case "tree":
		tree, err := c.parser(op).Tree()
		if gotErr(err) {
			return
		}
		if dumped {
			c.eq(k, op, "tree", ref.TreeDump, dump.String(tree))
		} else {
			c.eq(k, op, "tree", ref.Parse, peg.Pretty(tree))
		}
		c.keep(op, what, tree)
	case "text":
		text, err := c.parser(op).Text()
		if gotErr(err) {
			return
		}
		if dumped {
			c.eq(k, op, "AST", ref.TextDump, dump.String(text))
		} else {
			c.eq(k, op, "AST", ref.AST, pretty.String(text))
		}
		c.keep(op, what, text)
	case "word":
		p := c.parser(op)
		if op.Off >= len(ref.Words) {
			return
		}
		want := ref.Words[op.Off]
		w, n, err := p.Word(op.Off)
		what += fmt.Sprintf(" at %d", op.Off)
		if (err != nil) != (want.Err != "") {
			c.bad("wrong-result", "caller %d %s after %v: error %v, want %q", c.id, what, c.before(op), err, want.Err)
			return
		}
		if err != nil {
			c.eq(k, op, "word error", plan.Hash(want.Err), err.Error())
			c.eq(k, op, "word failure tree", want.Fail, libx.FailDump(err))
			c.keepErr(op, what, err)
			return
		}
		c.eq(k, op, "word length", plan.Hash(strconv.Itoa(want.N)), strconv.Itoa(n))
		c.eq(k, op, "word", want.Dump, dump.String(w))
		c.keep(op, what, w)
	case "interp":
		text, err := c.parser(op).Text()
		if gotErr(err) {
			return
		}
		st, kind, msg, _ := libx.Interp(text)
		if kind != ref.Kind || msg != ref.PanicMsg {
			c.bad("wrong-result", "caller %d %s: interpretation is %s %q, want %s %q", c.id, what, kind, msg, ref.Kind, ref.PanicMsg)
			return
		}
		if dumped {
			c.eq(k, op, "AST after interpretation", ref.TextDump, dump.String(text))
		}
		if st == nil {
			return
		}
		if dumped {
			c.eq(k, op, "formula", ref.StmtDump, dump.String(st))
		}
		c.eq(k, op, "formula", ref.Pretty, logic.PrettyString(st))
		c.eq(k, op, "formula", ref.LogicStr, logic.String(st))
		c.keep(op, what, st)
	case "braces":
		text, err := c.parser(op).Text()
		if gotErr(err) {
			return
		}
		c.eq(k, op, "braces", ref.BracesH, ast.BracesString(text))
		c.eq(k, op, "AST", ref.AST, pretty.String(text))
		c.eq(k, op, "words", ref.Str, libx.ToString(text))
	case "tones":
		c.eq(k, op, "tones", ref.Tones, libx.Tones(ref.Text))
	case "dict":
		c.eq(k, op, "dictionary entries", ref.Dict, libx.Dict(ref.Text))
	case "compute":
		got := libx.Compute(ref.Text)
		c.Res.Checked++
		if len(c.p.Tasks) > 1 || k > 0 || c.Spec.MapSeed > 0 {
			c.Res.Nontrivial++
		}
		if f, a, b := differ(ref, &got); f != "" {
			c.bad("wrong-result", "caller %d %s: %s is %s, want %s", c.id, what, f, clip(b), clip(a))
		}
	default:
		c.shared(k, op, what)
	}
}

// differ names the first member in which two references differ.
func differ(a, b *plan.Ref) (string, string, string) {
	va, vb := reflect.ValueOf(a).Elem(), reflect.ValueOf(b).Elem()
	for i := 0; i < va.NumField(); i++ {
		x, _ := json.Marshal(va.Field(i).Interface())
		y, _ := json.Marshal(vb.Field(i).Interface())
		if string(x) != string(y) {
			return va.Type().Field(i).Name, string(x), string(y)
		}
	}
	return "", "", ""
}

// shared calls work on values other callers read at the same time.
func (c *caller) shared(k int, op *plan.LibOp, what string) {
	if len(c.sh) == 0 {
		return
	}
	s := c.sh[op.Arg%len(c.sh)]
	if s.text == nil {
		return
	}
	ref := s.ref
	eq := func(name string, h plan.FH, got string) {
		c.Res.Checked++
		c.Res.Nontrivial++
		if !h.Is(got) {
			c.bad("wrong-result", "caller %d call %d %s on the shared value of %q: %s is %q, want %q", c.id, k, op.Op, clip(ref.Text), name, clip(got), h.Pre)
		}
	}
	switch op.Op {
	case "s-braces":
		eq("braces", ref.BracesH, ast.BracesString(s.text))
	case "s-pretty":
		eq("AST", ref.AST, pretty.String(s.text))
	case "s-str":
		eq("words", ref.Str, libx.ToString(s.text))
	case "s-visit":
		eq("nodes", ref.Visit, libx.VisitTrace(s.text))
	case "s-equal":
		if !ast.Equal(s.text, s.copy) || ast.Equal(s.copy, s.text) != true {
			if ref.Self {
				c.bad("wrong-result", "caller %d call %d: the shared AST of %q is not equal to that of another parse", c.id, k, clip(ref.Text))
			}
		}
		c.Res.Checked++
	case "s-interp", "s-own":
		st, kind, msg, _ := libx.Interp(s.text)
		if kind != ref.Kind || msg != ref.PanicMsg {
			c.bad("wrong-result", "caller %d call %d: interpreting the shared AST of %q gives %s %q, want %s %q", c.id, k, clip(ref.Text), kind, msg, ref.Kind, ref.PanicMsg)
			return
		}
		if st == nil {
			return
		}
		if op.Op == "s-interp" {
			if ref.StmtDump.N > 0 {
				eq("formula", ref.StmtDump, dump.String(st))
			}
			eq("formula", ref.Pretty, logic.PrettyString(st))
			return
		}
		logic.NillOutAST(st)
		if ref.NillDump.N > 0 {
			eq("formula without AST links", ref.NillDump, dump.String(st))
		}
		dump.Scribble(st)
		c.Probe("own-formula-scribbled")
	case "s-lstr":
		if s.st != nil {
			eq("formula", ref.LogicStr, logic.String(s.st))
		}
	case "s-lpretty":
		if s.st != nil {
			eq("formula", ref.Pretty, logic.PrettyString(s.st))
		}
	case "s-lvisit":
		if s.st != nil {
			eq("nodes", ref.LVisit, libx.LVisit(s.st))
		}
	default:
		panic("world: unknown operation " + op.Op)
	}
}
