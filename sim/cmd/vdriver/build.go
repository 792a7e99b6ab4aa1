package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/simgo"
)

const repoDir = "/repo"

// Builder makes the scratch modules and the binaries of one check.
type Builder struct {
	Home string // /verif/sim
	Dir  string // scratch
	Res  *simgo.Result
	Bin  map[string]string
	Took time.Duration
	mu   sync.Mutex
}

func goEnv(extra ...string) []string {
	var env []string
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		if strings.HasPrefix(k, "GO") || k == "CGO_ENABLED" || k == "HOME" || k == "PATH" || strings.HasPrefix(k, "VERIF_") {
			continue
		}
		env = append(env, e)
	}
	home := os.Getenv("HOME")
	if home == "" {
		home = "/root"
	}
	cache := os.Getenv("GOCACHE")
	if cache == "" {
		cache = filepath.Join(home, ".cache/go-build")
	}
	env = append(env,
		"HOME="+home,
		"PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOROOT=/opt/veriftools/go1.27.3", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE="+cache,
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GO111MODULE=on", "CGO_ENABLED=1", "GOSUMDB=off", "GOFLAGS=-mod=mod")
	return append(env, extra...)
}

func copyTree(from, to string, keep func(rel string, d fs.DirEntry) bool) error {
	return filepath.WalkDir(from, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if rel != "." && !keep(rel, d) {
			if d.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		if d.IsDir() {
			return os.MkdirAll(filepath.Join(to, rel), 0755)
		}
		if !d.Type().IsRegular() {
			return nil
		}
		return copyFile(p, filepath.Join(to, rel))
	})
}

func copyFile(from, to string) error {
	in, err := os.Open(from)
	if err != nil {
		return err
	}
	defer in.Close()
	out, err := os.Create(to)
	if err != nil {
		return err
	}
	_, err = io.Copy(out, in)
	if e := out.Close(); err == nil {
		err = e
	}
	return err
}

func newBuilder(home string) (*Builder, error) {
	d, err := os.MkdirTemp("", "toaqsim-")
	if err != nil {
		return nil, err
	}
	return &Builder{Home: home, Dir: d, Bin: map[string]string{}}, nil
}

func (b *Builder) Close() {
	if b.Dir != "" && strings.Contains(b.Dir, "toaqsim-") {
		os.RemoveAll(b.Dir)
	}
}

// sums merges the go.sum files.
func sums(dir, home string) error {
	m := map[string]bool{}
	for _, f := range []string{filepath.Join(repoDir, "go.sum"), filepath.Join(home, "extra.sum")} {
		x, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		for _, l := range strings.Split(string(x), "\n") {
			if strings.TrimSpace(l) != "" {
				m[l] = true
			}
		}
	}
	var ls []string
	for l := range m {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	return os.WriteFile(filepath.Join(dir, "go.sum"), []byte(strings.Join(ls, "\n")+"\n"), 0644)
}

// requires copies the program's requirements into the scratch module, so that
// resolution picks the same versions.
func writeMod(dir, home string) error {
	t, err := os.ReadFile(filepath.Join(home, "src", "go.mod.tmpl"))
	if err != nil {
		return err
	}
	mod, err := os.ReadFile(filepath.Join(repoDir, "go.mod"))
	if err != nil {
		return err
	}
	s := string(t)
	in := false
	for _, l := range strings.Split(string(mod), "\n") {
		x := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(x, "require ("):
			in = true
			s += "\nrequire (\n"
		case in && x == ")":
			in = false
			s += ")\n"
		case in:
			s += "\t" + x + "\n"
		case strings.HasPrefix(x, "require "):
			s += x + "\n"
		}
	}
	if err := os.WriteFile(filepath.Join(dir, "go.mod"), []byte(s), 0644); err != nil {
		return err
	}
	return sums(dir, home)
}

// Prepare instruments the program.
func (b *Builder) Prepare(yield bool) error {
	// A go.mod and go.sum of its own for go list in the repository.
	m := filepath.Join(b.Dir, "mod")
	if err := os.MkdirAll(m, 0755); err != nil {
		return err
	}
	if err := copyFile(filepath.Join(repoDir, "go.mod"), filepath.Join(m, "go.mod")); err != nil {
		return err
	}
	if err := sums(m, b.Home); err != nil {
		return err
	}
	env := goEnv("GOFLAGS=-mod=mod -modfile=" + filepath.Join(m, "go.mod"))
	inst := filepath.Join(b.Dir, "inst")
	os.RemoveAll(inst)
	if err := copyTree(filepath.Join(b.Home, "src"), inst, func(rel string, d fs.DirEntry) bool { return rel != "go.mod.tmpl" }); err != nil {
		return err
	}
	if err := writeMod(inst, b.Home); err != nil {
		return err
	}
	res, err := simgo.Instrument(repoDir, inst, env, simgo.Options{Yield: yield})
	if err != nil {
		return err
	}
	b.Res = res
	plain := filepath.Join(b.Dir, "plain")
	os.RemoveAll(plain)
	for _, p := range []string{"plan", "dump", "libx", "ref"} {
		if err := copyTree(filepath.Join(b.Home, "src", p), filepath.Join(plain, p), func(string, fs.DirEntry) bool { return true }); err != nil {
			return err
		}
	}
	if err := writeMod(plain, b.Home); err != nil {
		return err
	}
	return copyTree(repoDir, filepath.Join(plain, "repo"), func(rel string, d fs.DirEntry) bool {
		n := d.Name()
		return !(n == ".git" || n == "vendor" || strings.HasSuffix(n, "_test.go"))
	})
}

func (b *Builder) run(dir string, args ...string) error {
	cmd := exec.Command("/opt/veriftools/go1.27.3/bin/go", args...)
	cmd.Dir = dir
	cmd.Env = goEnv()
	var o bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &o
	if err := cmd.Run(); err != nil {
		s := o.String()
		if len(s) > 6000 {
			s = s[:6000]
		}
		return fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, s)
	}
	return nil
}

// Build makes the named binaries: "ref", or a world, with ":race" for the
// race detector.
func (b *Builder) Build(names ...string) error {
	t0 := time.Now()
	defer func() { b.Took += time.Since(t0) }()
	var wg sync.WaitGroup
	errs := make([]error, len(names))
	for i, n := range names {
		i, n := i, n
		out := filepath.Join(b.Dir, "bin-"+strings.Replace(n, ":", "-", -1))
		wg.Add(1)
		go func() {
			defer wg.Done()
			switch {
			case n == "ref":
				errs[i] = b.run(filepath.Join(b.Dir, "plain"), "build", "-o", out, "./ref")
			case strings.HasSuffix(n, ":race"):
				errs[i] = b.run(filepath.Join(b.Dir, "inst"), "test", "-c", "-vet=off", "-race", "-gcflags=toaqsim/...=-race=false", "-o", out, "./w_"+strings.TrimSuffix(n, ":race"))
			default:
				errs[i] = b.run(filepath.Join(b.Dir, "inst"), "test", "-c", "-vet=off", "-o", out, "./w_"+n)
			}
			b.mu.Lock()
			b.Bin[n] = out
			b.mu.Unlock()
		}()
	}
	wg.Wait()
	return errors.Join(errs...)
}
