// Package simgo copies a Go source tree into a scratch module and puts the
// simulator's seams into it: a yield before every statement, the scheduler
// under every go statement and lock, simulated files, streams, listeners and
// chat service, and seeded map iteration. It works on syntax and types only,
// never on names of the program under test, so any program that type-checks
// can be instrumented.
package simgo

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// ModPath is the module path of the program under test.
const ModPath = "github.com/eaburns/toaq"

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Standard   bool
	ImportMap  map[string]string
	Module     *struct{ Main bool }
	DepOnly    bool
}

// overrides maps package path and name to the simulator's package and name.
var overrides = map[string]map[string][2]string{}

func ov(pkg, simpkg string, names ...string) {
	m := overrides[pkg]
	if m == nil {
		m = map[string][2]string{}
		overrides[pkg] = m
	}
	for _, n := range names {
		to := n
		if i := strings.IndexByte(n, '='); i >= 0 {
			n, to = n[:i], n[i+1:]
		}
		m[n] = [2]string{simpkg, to}
	}
}

func init() {
	ov("os", "simos", "Exit", "Stdin", "Stdout", "Stderr", "File", "Open", "Create", "OpenFile", "ReadFile", "WriteFile",
		"Rename", "Remove", "RemoveAll", "Mkdir", "MkdirAll", "CreateTemp", "MkdirTemp", "Chmod", "Truncate", "Link", "Symlink", "Chtimes")
	ov("io/ioutil", "simos", "ReadFile", "WriteFile", "TempFile", "TempDir")
	ov("fmt", "simos", "Print", "Println", "Printf")
	ov("log", "simos", "Print=LogPrint", "Println=LogPrintln", "Printf=LogPrintf", "Fatal=LogFatal", "Fatalf=LogFatalf", "Fatalln=LogFatalln",
		"Panic=LogPanic", "Panicf=LogPanicf", "Panicln=LogPanicln")
	ov("sync", "simsync", "Mutex", "RWMutex", "Once", "OnceFunc", "OnceValue", "OnceValues", "WaitGroup", "Cond", "NewCond", "Pool")
	ov("net", "simnet", "Listen")
	ov("net/http", "simnet", "ListenAndServe")
	ov("github.com/velour/chat/discord", "simdiscord", "Dial", "Client", "Channel")
}

// methods maps receiver type and method to a function taking the receiver.
var methods = map[string][2]string{
	"net/http.Server.ListenAndServe": {"simnet", "ServerListenAndServe"},
	"net.ListenConfig.Listen":        {"simnet", "ListenConfigListen"},
	"log.Logger.Fatal":               {"simos", "LoggerFatal"},
	"log.Logger.Fatalf":              {"simos", "LoggerFatalf"},
	"log.Logger.Fatalln":             {"simos", "LoggerFatalln"},
}

// curried methods return a function instead of being called with the receiver only.
var curried = map[string]bool{"ListenConfigListen": true, "LoggerFatal": true, "LoggerFatalf": true, "LoggerFatalln": true}

// Result describes what was instrumented.
type Result struct {
	Yields    int
	Hot       int
	MapRanges int
	Gos       int
	Calls     int // calls rerouted
	Packages  []string
	Programs  map[string]string // directory of a main package -> import path in the scratch module
	Notes     []string
}

type edit struct {
	off, end int
	text     string
	prio     int
}

// Options select the depth of the instrumentation.
type Options struct {
	Yield bool // false: only seams, no yields
}

type imp struct {
	pkgs map[string]*listPkg
	done map[string]*types.Package
	fset *token.FileSet
	cur  *listPkg
}

func (im *imp) Import(path string) (*types.Package, error) { return im.load(path) }

func (im *imp) load(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p := im.done[path]; p != nil {
		return p, nil
	}
	lp := im.pkgs[path]
	if lp == nil {
		// A package go list knows under a vendored name.
		lp = im.pkgs["vendor/"+path]
	}
	if lp == nil {
		p := types.NewPackage(path, filepath.Base(path))
		p.MarkComplete()
		im.done[path] = p
		return p, nil
	}
	var files []*ast.File
	for _, f := range lp.GoFiles {
		af, err := parser.ParseFile(im.fset, filepath.Join(lp.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil && af == nil {
			continue
		}
		files = append(files, af)
	}
	conf := types.Config{Importer: im, IgnoreFuncBodies: true, FakeImportC: true, Error: func(error) {}}
	p, _ := conf.Check(path, im.fset, files, nil)
	im.done[path] = p
	return p, nil
}

// Instrument copies repo into out/repo.
func Instrument(repo, out string, env []string, opt Options) (*Result, error) {
	res := &Result{Programs: map[string]string{}}
	type srcPkg struct {
		rel   string // directory relative to repo
		out   string // directory relative to out/repo
		files []string
		gen   bool // files under an ignore tag
	}
	var pkgs []*srcPkg
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !fi.IsDir() {
			return nil
		}
		b := fi.Name()
		if p != repo && (b == "vendor" || b == "testdata" || strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_")) {
			return filepath.SkipDir
		}
		ents, err := os.ReadDir(p)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		norm := &srcPkg{rel: rel, out: rel}
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") || strings.HasPrefix(n, "_") || strings.HasPrefix(n, ".") {
				continue
			}
			src, err := os.ReadFile(filepath.Join(p, n))
			if err != nil {
				return err
			}
			switch tagged(src, n) {
			case tagIn:
				norm.files = append(norm.files, n)
			case tagIgnore:
				pkgs = append(pkgs, &srcPkg{rel: rel, out: filepath.Join(rel, "zgen_"+strings.TrimSuffix(n, ".go")), files: []string{n}, gen: true})
			}
		}
		if len(norm.files) > 0 {
			pkgs = append(pkgs, norm)
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	// Dependencies, from the go command.
	im := &imp{pkgs: map[string]*listPkg{}, done: map[string]*types.Package{}, fset: token.NewFileSet()}
	args := [][]string{{"list", "-e", "-deps", "-json=ImportPath,Dir,Name,GoFiles,Standard,ImportMap", "./..."}}
	for _, p := range pkgs {
		if p.gen {
			args = append(args, []string{"list", "-e", "-deps", "-json=ImportPath,Dir,Name,GoFiles,Standard,ImportMap", "./" + filepath.Join(p.rel, p.files[0])})
		}
	}
	for _, a := range args {
		cmd := exec.Command("go", a...)
		cmd.Dir = repo
		cmd.Env = append(append([]string{}, env...), "CGO_ENABLED=0")
		var eb bytes.Buffer
		cmd.Stderr = &eb
		ob, err := cmd.Output()
		if err != nil {
			return nil, fmt.Errorf("go list: %v\n%s", err, eb.String())
		}
		dec := json.NewDecoder(bytes.NewReader(ob))
		for dec.More() {
			var lp listPkg
			if err := dec.Decode(&lp); err != nil {
				return nil, err
			}
			if lp.ImportPath == "command-line-arguments" {
				continue
			}
			q := lp
			im.pkgs[lp.ImportPath] = &q
		}
	}
	id := int32(0)
	for _, p := range pkgs {
		var files []*ast.File
		var srcs [][]byte
		for _, n := range p.files {
			src, err := os.ReadFile(filepath.Join(repo, p.rel, n))
			if err != nil {
				return nil, err
			}
			af, err := parser.ParseFile(im.fset, filepath.Join(repo, p.rel, n), src, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			files = append(files, af)
			srcs = append(srcs, src)
		}
		info := &types.Info{
			Types:      map[ast.Expr]types.TypeAndValue{},
			Defs:       map[*ast.Ident]types.Object{},
			Uses:       map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{},
		}
		path := ModPath
		if p.rel != "." {
			path += "/" + p.rel
		}
		var terrs []error
		conf := types.Config{Importer: im, FakeImportC: true, Error: func(e error) { terrs = append(terrs, e) }}
		tp, _ := conf.Check(path, im.fset, files, info)
		if len(terrs) > 0 {
			res.Notes = append(res.Notes, fmt.Sprintf("%s: %d type errors while instrumenting, first: %v", p.rel, len(terrs), terrs[0]))
		}
		dir := filepath.Join(out, "repo", p.out)
		if err := os.MkdirAll(dir, 0755); err != nil {
			return nil, err
		}
		isMain := files[0].Name.Name == "main"
		in := &inst{fset: im.fset, info: info, pkg: tp, id: &id, res: res, opt: opt, isMain: isMain}
		if p.rel == "." || p.gen || isMain {
			// programs
		}
		for i, f := range files {
			b := in.file(f, srcs[i], filepath.Join(repo, p.rel, p.files[i]))
			if err := os.WriteFile(filepath.Join(dir, p.files[i]), b, 0644); err != nil {
				return nil, err
			}
		}
		ipath := ModPath
		if p.out != "." {
			ipath += "/" + filepath.ToSlash(p.out)
		}
		if isMain {
			res.Programs[p.out] = ipath
		}
		res.Packages = append(res.Packages, ipath)
	}
	// go.mod of the program, as it is.
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	return res, os.WriteFile(filepath.Join(out, "repo", "go.mod"), mod, 0644)
}

const (
	tagIn = iota
	tagOut
	tagIgnore
)

func tagged(src []byte, name string) int {
	base := strings.TrimSuffix(name, ".go")
	parts := strings.Split(base, "_")
	if len(parts) > 1 {
		oses := map[string]bool{"windows": true, "darwin": true, "freebsd": true, "js": true, "plan9": true, "wasm": true, "arm64": true, "386": true, "arm": true, "openbsd": true, "netbsd": true}
		for _, x := range parts[1:] {
			if oses[x] {
				return tagOut
			}
		}
	}
	eval := func(tag string) bool {
		switch tag {
		case "linux", "amd64", "gc", "unix", "cgo":
			return true
		}
		return strings.HasPrefix(tag, "go1.")
	}
	for _, l := range strings.Split(string(src), "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "package ") {
			break
		}
		if constraint.IsGoBuild(t) || constraint.IsPlusBuild(t) {
			x, err := constraint.Parse(t)
			if err != nil {
				continue
			}
			if !x.Eval(eval) {
				if x.Eval(func(s string) bool { return s == "ignore" || eval(s) }) {
					return tagIgnore
				}
				return tagOut
			}
		}
	}
	return tagIn
}

type inst struct {
	fset   *token.FileSet
	info   *types.Info
	pkg    *types.Package
	id     *int32
	res    *Result
	opt    Options
	isMain bool
	nfile  int

	// per file
	edits  []edit
	src    []byte
	base   int
	needs  map[string]bool // simulator packages
	keep   map[string]string
	big    bool
	locals []map[types.Object]bool
	gens   int
	again  []again
}

func (in *inst) pkgName(f *ast.File) string {
	if in.isMain {
		return "simmain"
	}
	return f.Name.Name
}

func (in *inst) off(p token.Pos) int { return in.fset.PositionFor(p, false).Offset }

func (in *inst) ins(p token.Pos, s string, prio int) {
	o := in.off(p)
	in.edits = append(in.edits, edit{o, o, s, prio})
}
func (in *inst) rep(a, b token.Pos, s string) {
	in.edits = append(in.edits, edit{in.off(a), in.off(b), s, 0})
}
func (in *inst) text(n ast.Node) string { return string(in.src[in.off(n.Pos()):in.off(n.End())]) }

func (in *inst) sim(pkg string) string { in.needs[pkg] = true; return "zz_" + pkg }

func (in *inst) file(f *ast.File, src []byte, path string) []byte {
	in.edits, in.src, in.again = nil, src, nil
	inits := 0
	in.needs = map[string]bool{}
	in.keep = map[string]string{}
	in.big = len(f.Decls) > 1500 // generated parser: yield at function entry only
	imports := map[string]string{}
	for _, s := range f.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		n := ""
		if s.Name != nil {
			n = s.Name.Name
		}
		imports[p] = n
	}

	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "main" && in.isMain {
				in.rep(d.Name.Pos(), d.Name.End(), "SimMain")
			}
			if d.Recv == nil && d.Name.Name == "init" && d.Body != nil && in.makesChan(d.Body) {
				// Done when the simulation starts, for the same reason.
				inits++
				in.rep(d.Name.Pos(), d.Name.End(), fmt.Sprintf("zz_init%d_%d", in.nfile, inits))
			}
			if d.Body != nil {
				in.fn(d.Body, d)
				if d.Recv == nil && d.Name.Name == "Interpret" && in.pkg != nil && strings.HasSuffix(in.pkg.Path(), "/logic") && in.opt.Yield {
					in.ins(d.Body.Lbrace+1, "defer "+in.sim("simrt")+".Scope(\"interp\")();", -20)
				}
			}
		case *ast.GenDecl:
			if d.Tok == token.VAR {
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					in.chanVar(vs)
					for _, v := range vs.Values {
						ast.Inspect(v, func(n ast.Node) bool {
							if fl, ok := n.(*ast.FuncLit); ok {
								in.fn(fl.Body, fl)
								return false
							}
							return true
						})
					}
				}
			}
		}
	}
	in.exprs(f)
	if inits+len(in.again) > 0 {
		in.sim("simrt")
	}
	if _, ok := imports["net/http"]; ok {
		// The default transport is the simulator's before the package's
		// variables are initialised.
		in.keep["zz_simnet"] = in.sim("simnet") + ".Dial"
	}

	// Header.
	var hdr bytes.Buffer
	fmt.Fprintf(&hdr, "//go:build go1.21\n\n//line %s:1\n", path)
	var imps bytes.Buffer
	var ps []string
	for p := range in.needs {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		fmt.Fprintf(&imps, "; import zz_%s \"toaqsim/%s\"", p, p)
	}
	in.edits = append(in.edits, edit{in.off(f.Name.Pos()), in.off(f.Name.End()), in.pkgName(f) + imps.String(), 0})
	var tail bytes.Buffer
	var ks []string
	for p := range in.keep {
		ks = append(ks, p)
	}
	sort.Strings(ks)
	for _, p := range ks {
		fmt.Fprintf(&tail, "\nvar _ = %s", in.keep[p])
	}
	tail.WriteByte('\n')

	sort.SliceStable(in.edits, func(i, j int) bool {
		if in.edits[i].off != in.edits[j].off {
			return in.edits[i].off < in.edits[j].off
		}
		return in.edits[i].prio < in.edits[j].prio
	})
	for _, a := range in.again {
		var t bytes.Buffer
		pos := a.off
		for _, e := range in.edits {
			if e.off < pos || e.end > a.end {
				continue
			}
			t.Write(src[pos:e.off])
			t.WriteString(e.text)
			pos = e.end
		}
		t.Write(src[pos:a.end])
		fmt.Fprintf(&tail, "func init() { zz_simrt.OnStart(func() { %s = %s }) }\n", a.name, t.String())
	}
	for i := 1; i <= inits; i++ {
		fmt.Fprintf(&tail, "func init() { zz_simrt.OnStart(zz_init%d_%d) }\n", in.nfile, i)
	}
	in.nfile++
	var b bytes.Buffer
	b.Write(hdr.Bytes())
	pos := 0
	pkgOff := in.off(f.Package)
	blank := func(s []byte, start int) []byte {
		// Remove build constraints above the package clause.
		if start >= pkgOff {
			return s
		}
		ls := strings.Split(string(s), "\n")
		for i, l := range ls {
			t := strings.TrimSpace(l)
			if constraint.IsGoBuild(t) || constraint.IsPlusBuild(t) {
				ls[i] = "//"
			}
		}
		return []byte(strings.Join(ls, "\n"))
	}
	for _, e := range in.edits {
		if e.off < pos {
			continue // inside a replaced range
		}
		b.Write(blank(src[pos:e.off], pos))
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(blank(src[pos:], pos))
	b.Write(tail.Bytes())
	return b.Bytes()
}

// makesChan tells whether the node makes a channel, function literals apart.
func (in *inst) makesChan(n ast.Node) bool {
	has := false
	ast.Inspect(n, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			return false
		}
		if c, ok := n.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "make" && len(c.Args) > 0 {
				if tv, ok := in.info.Types[c.Args[0]]; ok && tv.Type != nil {
					if _, ok := tv.Type.Underlying().(*types.Chan); ok {
						has = true
					}
				}
			}
		}
		return true
	})
	return has
}

// hasChan tells whether values of the type may hold a channel of the program.
func hasChan(t types.Type, seen map[types.Type]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	if n, ok := t.(*types.Named); ok {
		if p := n.Obj().Pkg(); p == nil || !strings.HasPrefix(p.Path(), ModPath) {
			return false
		}
	}
	switch t := t.Underlying().(type) {
	case *types.Chan:
		return true
	case *types.Pointer:
		return hasChan(t.Elem(), seen)
	case *types.Slice:
		return hasChan(t.Elem(), seen)
	case *types.Array:
		return hasChan(t.Elem(), seen)
	case *types.Map:
		return hasChan(t.Elem(), seen)
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if hasChan(t.Field(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

// chanVar arranges for package-level channels to be made again inside the
// simulation, where blocking on them is visible to the scheduler.
func (in *inst) chanVar(vs *ast.ValueSpec) {
	if len(vs.Values) != len(vs.Names) {
		return
	}
	for i, v := range vs.Values {
		if vs.Names[i].Name == "_" {
			continue
		}
		has := in.makesChan(v)
		if o := in.info.Defs[vs.Names[i]]; !has && o != nil && hasChan(o.Type(), map[types.Type]bool{}) {
			ast.Inspect(v, func(n ast.Node) bool {
				if _, ok := n.(*ast.FuncLit); ok {
					return false
				}
				if _, ok := n.(*ast.CallExpr); ok {
					has = true
				}
				return true
			})
		}
		if has {
			in.again = append(in.again, again{vs.Names[i].Name, in.off(v.Pos()), in.off(v.End())})
		}
	}
}

// again is a package variable to initialise again.
type again struct {
	name     string
	off, end int
}

// fn instruments one function body (and the function literals in it).
func (in *inst) fn(body *ast.BlockStmt, fnode ast.Node) {
	in.block(body.List, body.Lbrace+1, fnode, true)
}

func (in *inst) yield(p token.Pos, hot bool, prio int) {
	if !in.opt.Yield {
		return
	}
	*in.id++
	k := "Y"
	if hot {
		k = "H"
		in.res.Hot++
	} else {
		in.res.Yields++
	}
	in.ins(p, fmt.Sprintf("%s.%s(%d);", in.sim("simrt"), k, *in.id), prio-10)
}

func (in *inst) block(list []ast.Stmt, start token.Pos, fnode ast.Node, entry bool) {
	if in.big {
		if entry {
			in.yield(start, false, 0)
		}
		// Function literals inside still get their entry yield.
		for _, s := range list {
			ast.Inspect(s, func(n ast.Node) bool {
				if fl, ok := n.(*ast.FuncLit); ok {
					in.fn(fl.Body, fl)
					return false
				}
				return true
			})
		}
		return
	}
	if len(list) == 0 {
		in.yield(start, false, 0)
		return
	}
	for _, s := range list {
		in.stmt(s, fnode)
	}
}

func (in *inst) stmt(s ast.Stmt, fnode ast.Node) {
	if _, ok := s.(*ast.EmptyStmt); ok {
		return
	}
	in.yield(s.Pos(), in.hot(s, fnode), 0)
	t := s
	for {
		l, ok := t.(*ast.LabeledStmt)
		if !ok {
			break
		}
		t = l.Stmt
	}
	if sel, ok := t.(*ast.SelectStmt); ok && in.opt.Yield && len(sel.Body.List) > 1 {
		in.ins(s.Pos(), in.sim("simrt")+".Sel();", -9)
	}
	in.inner(s, fnode)
}

// inner instruments the statement lists nested in s.
func (in *inst) inner(s ast.Stmt, fnode ast.Node) {
	switch s := s.(type) {
	case *ast.BlockStmt:
		in.block(s.List, s.Lbrace+1, fnode, false)
	case *ast.IfStmt:
		in.lits(s.Init, s.Cond)
		in.block(s.Body.List, s.Body.Lbrace+1, fnode, false)
		if s.Else != nil {
			in.inner(s.Else, fnode)
		}
	case *ast.ForStmt:
		in.lits(s.Init, s.Cond, s.Post)
		in.block(s.Body.List, s.Body.Lbrace+1, fnode, false)
	case *ast.RangeStmt:
		in.lits(s.X)
		in.block(s.Body.List, s.Body.Lbrace+1, fnode, false)
	case *ast.SwitchStmt:
		in.lits(s.Init, s.Tag)
		in.clauses(s.Body, fnode)
	case *ast.TypeSwitchStmt:
		in.lits(s.Init, s.Assign)
		in.clauses(s.Body, fnode)
	case *ast.SelectStmt:
		in.clauses(s.Body, fnode)
	case *ast.LabeledStmt:
		in.inner(s.Stmt, fnode)
	default:
		in.lits(s)
	}
}

func (in *inst) clauses(b *ast.BlockStmt, fnode ast.Node) {
	for _, c := range b.List {
		switch c := c.(type) {
		case *ast.CaseClause:
			for _, e := range c.List {
				in.lits(e)
			}
			if len(c.Body) > 0 {
				in.block(c.Body, c.Colon+1, fnode, false)
			}
		case *ast.CommClause:
			if c.Comm != nil {
				in.lits(c.Comm)
			}
			if len(c.Body) > 0 {
				in.block(c.Body, c.Colon+1, fnode, false)
			}
		}
	}
}

// lits instruments function literals in expressions.
func (in *inst) lits(ns ...ast.Node) {
	for _, n := range ns {
		if n == nil {
			continue
		}
		// A typed nil in an interface.
		switch x := n.(type) {
		case ast.Expr:
			if x == nil {
				continue
			}
		case ast.Stmt:
			if x == nil {
				continue
			}
		}
		ast.Inspect(n, func(n ast.Node) bool {
			if fl, ok := n.(*ast.FuncLit); ok {
				in.fn(fl.Body, fl)
				return false
			}
			return true
		})
	}
}

// hot tells whether the statement itself (not its nested blocks) touches
// state that other goroutines may see: package variables, captured variables,
// channels.
func (in *inst) hot(s ast.Stmt, fnode ast.Node) bool {
	h := false
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		if h {
			return false
		}
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.BlockStmt:
			if n != ast.Node(s) {
				return false
			}
			return false
		case *ast.SendStmt, *ast.SelectStmt, *ast.GoStmt:
			h = true
			return false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				h = true
				return false
			}
		case *ast.Ident:
			o := in.info.Uses[n]
			if o == nil {
				o = in.info.Defs[n]
			}
			v, ok := o.(*types.Var)
			if !ok || v.IsField() || v.Pkg() == nil {
				return true
			}
			if v.Parent() == v.Pkg().Scope() {
				h = strings.HasPrefix(v.Pkg().Path(), ModPath)
				return true
			}
			if fl, ok := fnode.(*ast.FuncLit); ok && v.Pos() != token.NoPos && (v.Pos() < fl.Pos() || v.Pos() > fl.End()) {
				h = true
			}
		}
		return true
	}
	ast.Inspect(s, visit)
	return h
}

// exprs reroutes calls, go statements and map ranges.
func (in *inst) exprs(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GoStmt:
			if id, ok := n.Call.Fun.(*ast.Ident); ok {
				if _, ok := in.info.Uses[id].(*types.Builtin); ok {
					return true
				}
			}
			in.res.Gos++
			in.ins(n.Call.Fun.Pos(), in.sim("simrt")+".W(", -2)
			in.ins(n.Call.Fun.End(), ")", -5)
		case *ast.RangeStmt:
			in.mapRange(n)
		case *ast.CallExpr:
			in.methodCall(n)
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "new" && len(n.Args) == 1 {
				if _, ok := in.info.Uses[id].(*types.Builtin); ok && in.isTransport(n.Args[0]) {
					in.ins(n.Pos(), in.sim("simnet")+".Transport(", -1)
					in.ins(n.End(), ")", -5)
				}
			}
		case *ast.UnaryExpr:
			if cl, ok := n.X.(*ast.CompositeLit); ok && n.Op == token.AND && in.isTransport(cl) {
				in.ins(n.Pos(), in.sim("simnet")+".Transport(", -1)
				in.ins(n.End(), ")", -5)
			}
		case *ast.SelectorExpr:
			in.selector(n)
		}
		return true
	})
}

// isTransport tells whether an expression is of type http.Transport.
func (in *inst) isTransport(e ast.Expr) bool {
	tv, ok := in.info.Types[e]
	return ok && tv.Type != nil && tv.Type.String() == "net/http.Transport"
}

func (in *inst) selector(n *ast.SelectorExpr) {
	id, ok := n.X.(*ast.Ident)
	if !ok {
		return
	}
	pn, ok := in.info.Uses[id].(*types.PkgName)
	if !ok {
		return
	}
	path := pn.Imported().Path()
	to, ok := overrides[path][n.Sel.Name]
	if !ok {
		return
	}
	in.res.Calls++
	in.rep(n.Pos(), n.End(), in.sim(to[0])+"."+to[1])
	keep := map[string]string{"os": "Getpid", "io/ioutil": "ReadAll", "fmt": "Sprint", "log": "New", "sync": "NewCond", "net": "ParseIP", "net/http": "StatusText", "github.com/velour/chat/discord": "Dial"}
	in.keep[path] = id.Name + "." + keep[path]
}

func (in *inst) methodCall(n *ast.CallExpr) {
	se, ok := n.Fun.(*ast.SelectorExpr)
	if !ok {
		return
	}
	sel := in.info.Selections[se]
	if sel == nil || sel.Kind() != types.MethodVal {
		return
	}
	fo, ok := sel.Obj().(*types.Func)
	if !ok {
		return
	}
	sig := fo.Type().(*types.Signature)
	if sig.Recv() == nil {
		return
	}
	rt := sig.Recv().Type()
	if p, ok := rt.(*types.Pointer); ok {
		rt = p.Elem()
	}
	nt, ok := rt.(*types.Named)
	if !ok || nt.Obj().Pkg() == nil {
		return
	}
	to, ok := methods[nt.Obj().Pkg().Path()+"."+nt.Obj().Name()+"."+fo.Name()]
	if !ok || len(sel.Index()) != 1 {
		return
	}
	amp := ""
	if _, ok := sel.Recv().Underlying().(*types.Pointer); !ok {
		amp = "&"
	}
	in.res.Calls++
	// X.M(args) -> zz.F(X)(args) or zz.F(X)
	in.ins(se.X.Pos(), in.sim(to[0])+"."+to[1]+"("+amp, -1)
	if curried[to[1]] {
		in.rep(se.X.End(), se.Sel.End(), ")")
	} else {
		in.rep(se.X.End(), n.Lparen+1, "")
	}
}

func (in *inst) mapRange(n *ast.RangeStmt) {
	tv, ok := in.info.Types[n.X]
	if !ok || tv.Type == nil {
		return
	}
	if _, ok := tv.Type.Underlying().(*types.Map); !ok {
		return
	}
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	hasK, hasV := !blank(n.Key), !blank(n.Value)
	if !hasK && !hasV {
		return
	}
	in.res.MapRanges++
	in.gens++
	it := fmt.Sprintf("zz_it%d", in.gens)
	rt := in.sim("simrt")
	args, m := "", ""
	names := ""
	if hasK {
		m += "K"
		args = "&" + in.text(n.Key)
		names = ", " + in.text(n.Key)
	}
	if hasV {
		m += "V"
		if args != "" {
			args += ", "
		}
		args += "&" + in.text(n.Value)
		names += ", " + in.text(n.Value)
	}
	// for k, v := range X {  ->  for it, k, v := MIKV(X); it.KV(&k, &v); {
	pre := ""
	if n.Tok == token.DEFINE {
		pre = fmt.Sprintf("%s%s := %s.MI%s(", it, names, rt, m)
	} else {
		pre = fmt.Sprintf("%s := %s.MI0(", it, rt)
	}
	in.rep(n.Key.Pos(), n.X.Pos(), pre)
	in.ins(n.X.End(), fmt.Sprintf("); %s.%s(%s); ", it, m, args), -3)
}
