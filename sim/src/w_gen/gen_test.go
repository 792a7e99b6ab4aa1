// The generator world: the real dictionary generator, loader and net/http
// client; a simulated service, network and file-operation layer.
package w_gen

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	simmain "github.com/eaburns/toaq/dict/zgen_main"

	"toaqsim/plan"
	"toaqsim/simnet"
	"toaqsim/simos"
	"toaqsim/simrt"
	"toaqsim/simsvc"
	"toaqsim/world"
)

func TestWorld(t *testing.T) { world.Main(t, run) }

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "…"
	}
	return s
}

type word struct {
	Word, Def, By string
	Score         int
}

func run(w *world.W) {
	p := w.Spec.Gen
	dir := filepath.Join(world.Scratch, "out")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, "words.go")
	arg := path
	if p.Rel {
		arg = "out/words.go"
	}
	if p.NoDir {
		path = filepath.Join(dir, "missing", "words.go")
		arg = path
	}
	had := p.Old != "-"
	if p.Old == "=" {
		b, err := os.ReadFile(path)
		had, p.Old = err == nil, string(b)
		if len(p.FS)+p.KillAt == 0 && w.Spec.Life > 0 {
			w.Res.Nontrivial++
		}
	} else if had {
		os.WriteFile(path, []byte(p.Old), 0644)
	}
	svc := &simsvc.Service{Fault: w.Fault}
	svc.Find = func(host, body string) (*plan.Reply, int) { return &p.Reply, 0 }
	svc.Refuse = func(host string) error {
		if p.Reply.Fault == "refuse" {
			w.Fault("dial-refused")
			return simnet.Fault("ECONNREFUSED")
		}
		return nil
	}
	svc.Install()
	if len(p.FS) > 0 {
		simos.Faults = p.FS
	}
	if p.KillAt > 0 {
		simrt.KillAt(uint64(p.KillAt), func() { simos.Killed = true; w.Fault("kill-at-step") })
	}
	os.Args = []string{"main", "-o", arg}
	simrt.Spawn("main", func() { simmain.SimMain(); simos.Exit(0) })
	var waited time.Duration
	simrt.Loop(svc.Env, func() bool { return simrt.Exited }, func() time.Duration {
		if at := svc.NextAt(); at >= 0 {
			return at - simrt.SimTime()
		}
		if waited > 60*time.Second {
			return -1
		}
		waited += time.Second
		return time.Second
	})
	w.Res.Checked++
	if len(p.FS) > 0 || p.KillAt > 0 || p.Reply.Fault != "" || p.Reply.Kind != "ok" {
		w.Res.Nontrivial++
	}
	if !simrt.Exited {
		w.Violate("hang", "the generator has not ended although nothing more will arrive", "C12")
		return
	}
	if len(simos.Escapes) > 0 {
		w.Violate("escape", fmt.Sprintf("the generator touched files elsewhere: %v", simos.Escapes), "C12")
	}
	got, err := os.ReadFile(path)
	exists := err == nil
	isOld := exists == had && (!had || string(got) == p.Old)
	isNew, why := complete(string(got), exists, &p.Reply)
	loadOK := p.Reply.Kind == "ok" && p.Reply.Fault == ""
	if !loadOK {
		isNew, why = false, "the dictionary could not be loaded"
	}
	fsfail := 0
	for k, n := range simos.Injected {
		if n > 0 && !strings.HasPrefix(k, "stdout") {
			fsfail += n
		}
	}
	ops := strings.Join(simos.OpLog, ", ")
	switch {
	case simos.Killed:
		w.Probe("killed")
		if !isOld && !isNew {
			w.Violate("torn", fmt.Sprintf("killed (file operations: %s): the output file is neither the old one nor a complete new one: exists %v, %d bytes, %s: %q", ops, exists, len(got), why, clip(string(got))), "C12")
		}
	case simrt.ExitCode == 0:
		if !isNew {
			w.Violate("bad-success", fmt.Sprintf("exit status 0 (faults %v; file operations: %s) but the output is not the complete dictionary: exists %v, %d bytes, %s: %q", simos.Injected, ops, exists, len(got), why, clip(string(got))), "C12")
		}
	default:
		if loadOK && fsfail == 0 && !p.NoDir {
			w.Violate("bad-failure", fmt.Sprintf("exit status %d although nothing failed: %s %s", simrt.ExitCode, clip(string(simos.StdoutV.Buf)), clip(simrt.Crash)), "C12")
		}
		if !isOld {
			w.Violate("destroyed", fmt.Sprintf("exit status %d (faults %v; file operations: %s) but the previous output is gone: exists %v, %d bytes: %q", simrt.ExitCode, simos.Injected, ops, exists, len(got), clip(string(got))), "C12")
		}
		if simrt.Crash != "" {
			w.Violate("panic", "the generator crashed: "+clip(simrt.Crash), "C12")
		}
		if len(simos.StdoutV.Buf)+len(simos.StderrV.Buf) == 0 {
			w.Violate("silent", "the generator failed without a message", "C12")
		}
	}
}

// complete tells whether the source declares exactly the entries of the reply.
func complete(src string, exists bool, r *plan.Reply) (bool, string) {
	if !exists {
		return false, "missing"
	}
	want := map[string]word{}
	for _, e := range r.Entries {
		body, by, score := e.Fields()
		want[e.Key] = word{e.Key, body, by, score}
	}
	f, err := parser.ParseFile(token.NewFileSet(), "words.go", src, 0)
	if err != nil {
		return false, "not Go source: " + err.Error()
	}
	if f.Name.Name != "dict" {
		return false, "package " + f.Name.Name
	}
	got := map[string]word{}
	found := false
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			vs := s.(*ast.ValueSpec)
			if len(vs.Names) != 1 || vs.Names[0].Name != "Words" || len(vs.Values) != 1 {
				continue
			}
			cl, ok := vs.Values[0].(*ast.CompositeLit)
			if !ok {
				return false, "Words is not a literal"
			}
			if mt, ok := cl.Type.(*ast.MapType); !ok || ident(mt.Key) != "string" || ident(mt.Value) != "Word" {
				return false, "Words is not a map[string]Word"
			}
			found = true
			for _, e := range cl.Elts {
				kv, ok := e.(*ast.KeyValueExpr)
				if !ok {
					return false, "bad element"
				}
				k, ok := str(kv.Key)
				if !ok {
					return false, "bad key"
				}
				if _, dup := got[k]; dup {
					return false, "duplicate key " + k
				}
				wl, ok := kv.Value.(*ast.CompositeLit)
				if !ok || (wl.Type != nil && ident(wl.Type) != "Word") {
					return false, "bad value for " + k
				}
				var x word
				for _, fe := range wl.Elts {
					fkv, ok := fe.(*ast.KeyValueExpr)
					if !ok {
						return false, "unkeyed fields"
					}
					switch ident(fkv.Key) {
					case "Word":
						x.Word, ok = str(fkv.Value)
					case "Def":
						x.Def, ok = str(fkv.Value)
					case "By":
						x.By, ok = str(fkv.Value)
					case "Score":
						x.Score, ok = num(fkv.Value)
					default:
						return false, "unknown field " + ident(fkv.Key)
					}
					if !ok {
						return false, "bad field of " + k
					}
				}
				got[k] = x
			}
		}
	}
	if !found {
		return false, "no Words"
	}
	var bad []string
	for k, x := range want {
		if g, ok := got[k]; !ok {
			bad = append(bad, fmt.Sprintf("%q missing", k))
		} else if g != x {
			bad = append(bad, fmt.Sprintf("%q is %+v, want %+v", k, g, x))
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			bad = append(bad, fmt.Sprintf("%q is extra", k))
		}
	}
	if len(bad) > 0 {
		sort.Strings(bad)
		return false, clip(strings.Join(bad, "; "))
	}
	return true, "complete"
}

func ident(e ast.Expr) string {
	if id, ok := e.(*ast.Ident); ok {
		return id.Name
	}
	return ""
}

func str(e ast.Expr) (string, bool) {
	switch e := e.(type) {
	case *ast.BasicLit:
		s, err := strconv.Unquote(e.Value)
		return s, err == nil
	case *ast.BinaryExpr:
		if e.Op == token.ADD {
			a, ok1 := str(e.X)
			b, ok2 := str(e.Y)
			return a + b, ok1 && ok2
		}
	}
	return "", false
}

func num(e ast.Expr) (int, bool) {
	switch e := e.(type) {
	case *ast.BasicLit:
		n, err := strconv.Atoi(e.Value)
		return n, err == nil
	case *ast.UnaryExpr:
		n, ok := num(e.X)
		if e.Op == token.SUB {
			n = -n
		}
		return n, ok
	}
	return 0, false
}
