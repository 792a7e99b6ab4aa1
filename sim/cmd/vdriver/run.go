package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif/src/plan"
)

// Outcome is what became of one simulated run.
type Outcome struct {
	Res  *plan.Result
	Vs   []plan.Violation
	Err  string // the run gave no answer: trouble of the machinery
	Late bool   // it was stopped because it took too long
	Wall time.Duration
}

const runLimit = 90 * time.Second

// exec runs one specification: each life of the program in a process of its
// own, all of them in one directory.
func (b *Builder) exec(spec *plan.Spec, keepLog bool) *Outcome {
	t0 := time.Now()
	dir, err := os.MkdirTemp(b.Dir, "run-")
	if err != nil {
		return &Outcome{Err: err.Error()}
	}
	defer os.RemoveAll(dir)
	work := filepath.Join(dir, "w")
	os.Mkdir(work, 0755)
	var before []*Outcome
	for i := range spec.Prior {
		s := spec.Prior[i]
		s.World, s.Prop, s.Env, s.Texts, s.Life = spec.World, spec.Prop, spec.Env, spec.Texts, i
		o := b.life(&s, dir, work, keepLog)
		if o.Err != "" {
			o.Wall = time.Since(t0)
			return o
		}
		before = append(before, o)
	}
	s := *spec
	s.Prior, s.Life = nil, len(before)
	o := b.life(&s, dir, work, keepLog)
	o.Wall = time.Since(t0)
	if o.Err != "" {
		return o
	}
	for i := len(before) - 1; i >= 0; i-- {
		r, p := o.Res, before[i].Res
		if r.Faults == nil {
			r.Faults = map[string]int{}
		}
		r.LogHash = p.LogHash + "+" + r.LogHash
		r.SchedHash = p.SchedHash + "+" + r.SchedHash
		r.Steps += p.Steps
		r.Switches += p.Switches
		r.Hot += p.Hot
		r.SimMS += p.SimMS
		for k, n := range p.Faults {
			r.Faults[k] += n
		}
		r.Faults["process-killed"]++
		if keepLog {
			r.Log = append(append(p.Log, fmt.Sprintf("-- killed; life %d begins --", i+1)), r.Log...)
		}
	}
	return o
}

// life runs one process.
func (b *Builder) life(spec *plan.Spec, dir, work string, keepLog bool) *Outcome {
	o := &Outcome{}
	s := *spec
	s.KeepLog = keepLog
	js, err := json.Marshal(&s)
	if err != nil {
		o.Err = err.Error()
		return o
	}
	sf, of := filepath.Join(dir, "spec.json"), filepath.Join(dir, "out.json")
	os.Remove(of)
	if err := os.WriteFile(sf, js, 0644); err != nil {
		o.Err = err.Error()
		return o
	}
	name := s.World
	if s.Race {
		name += ":race"
	}
	cmd := exec.Command(b.Bin[name], "-test.run=TestWorld", "-test.timeout=0")
	cmd.Dir = work
	env := map[string]string{
		"PATH": "/usr/bin:/bin", "HOME": work, "TMPDIR": work, "TZ": "UTC",
		"GODEBUG": "asyncpreemptoff=1", "GOTRACEBACK": "all",
	}
	for k, v := range s.Env {
		env[k] = v
	}
	env["VERIF_SPEC"], env["VERIF_OUT"], env["VERIF_DIR"] = sf, of, work
	env["VERIF_MAPSEED"] = fmt.Sprint(s.MapSeed)
	if s.Race {
		env["GORACE"] = "log_path=" + filepath.Join(dir, "race") + " halt_on_error=0 exitcode=0 history_size=3"
	}
	var ks []string
	for k := range env {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		cmd.Env = append(cmd.Env, k+"="+env[k])
	}
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		o.Err = err.Error()
		return o
	}
	late := false
	tm := time.AfterFunc(runLimit, func() { late = true; syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	werr := cmd.Wait()
	tm.Stop()
	if late {
		o.Late = true
		o.Err = fmt.Sprintf("a run took more than %v", runLimit)
		return o
	}
	rb, rerr := os.ReadFile(of)
	if rerr == nil && werr == nil {
		o.Res = &plan.Result{}
		if err := json.Unmarshal(rb, o.Res); err != nil {
			o.Err = err.Error()
			return o
		}
		o.Vs = o.Res.Violations
	} else {
		txt := out.String()
		i := strings.Index(txt, "panic: ")
		if j := strings.Index(txt, "fatal error: "); j >= 0 && (i < 0 || j < i) {
			i = j
		}
		if i < 0 || strings.Contains(txt, "world: ") || !ours(txt[i:]) {
			o.Err = fmt.Sprintf("the run's process ended without a result (%v): %s", werr, clip(tailOf(txt, i), 3000))
			return o
		}
		o.Vs = []plan.Violation{{Props: []string{s.Prop}, Kind: "crash", Msg: "the process died: " + clip(txt[i:], 2500)}}
		o.Res = &plan.Result{Violations: o.Vs, Faults: map[string]int{}, Probes: map[string]int{}}
	}
	if s.Race {
		if m := raceReport(dir); m != "" {
			o.Vs = append(o.Vs, plan.Violation{Props: []string{s.Prop}, Kind: "race", Msg: m})
		}
	}
	return o
}

func tailOf(s string, i int) string {
	if i >= 0 {
		return s[i:]
	}
	return s
}

// ours tells whether the first frame of the crashing goroutine that is
// neither the Go runtime's nor the standard library's is the program's.
func ours(txt string) bool {
	i := strings.Index(txt, "goroutine ")
	if i < 0 {
		return false
	}
	st := txt[i:]
	if j := strings.Index(st, "\n\n"); j >= 0 {
		st = st[:j]
	}
	if strings.HasPrefix(txt, "fatal error: stack overflow") {
		// Whatever was called last, the frames are those of the recursion.
		return strings.Count(st, "github.com/eaburns/toaq") > strings.Count(st, "toaqsim/")
	}
	return firstFrame(st) == "repo"
}

var frameRE = regexp.MustCompile(`^\s*([A-Za-z0-9_./\-]+)\.[^/]*\(`)

// firstFrame classifies the first frame that is not Go's own: repo, sim, or
// other.
func firstFrame(stack string) string {
	for _, l := range strings.Split(stack, "\n") {
		m := frameRE.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		p := m[1]
		switch {
		case strings.HasPrefix(p, "github.com/eaburns/toaq"):
			return "repo"
		case strings.HasPrefix(p, "toaqsim/"):
			return "sim"
		case strings.HasPrefix(p, "github.com/"):
			return "other"
		}
	}
	return ""
}

// raceReport returns a data race between two accesses made by the program.
func raceReport(dir string) string {
	fs, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, rep := range strings.Split(string(b), "==================") {
			if !strings.Contains(rep, "WARNING: DATA RACE") {
				continue
			}
			parts := strings.Split(rep, "\n\n")
			if len(parts) < 2 {
				continue
			}
			if firstFrame(parts[0]) == "repo" && firstFrame(parts[1]) == "repo" {
				return "data race: " + clip(scrub(parts[0]+"\n"+parts[1]), 2500)
			}
		}
	}
	return ""
}

var addrRE = regexp.MustCompile(`0x[0-9a-f]+|goroutine [0-9]+|\+0x[0-9a-f]+`)

func scrub(s string) string { return addrRE.ReplaceAllString(strings.TrimSpace(s), "·") }
