package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/src/plan"
)

// part is one kind of run of a check.
type part struct {
	world    string // with :race for the race detector
	gen      func(*G)
	quick    int
	thorough int
}

type prop struct {
	id    string
	parts []part
	texts int
	bigs  []int
	rule  string
	real  []string
	stub  []string
}

var realSrv = []string{"server (main, handlers), ast, logic, tone and dict packages of /repo: real code, instrumented with yields", "net/http server, html/template, encoding/json: real, uninstrumented", "template and font files: real files in a scratch directory"}
var stubSrv = []string{"listener and connections (in-memory, every byte delivered by the simulator)", "HTTP clients (the simulator)", "clock (testing/synctest)", "locks and goroutine scheduling of the program", "process exit"}
var realBot = []string{"bot (main, run, parse), ast and logic packages of /repo: real code, instrumented with yields", "github.com/velour/chat types and Say: real"}
var stubBot = []string{"Discord client and channels (in-memory implementation of chat.Channel)", "chat users (the simulator)", "clock, scheduling, standard output, process exit"}
var realDict = []string{"dict.Load and tone of /repo: real code, instrumented", "net/http client and transport, encoding/json: real, uninstrumented"}
var stubDict = []string{"the dictionary service and its connections", "clock, scheduling"}
var realLib = []string{"ast, logic, tone and dict packages of /repo: real code, instrumented with yields", "peggy/peg and pretty: real"}
var stubLib = []string{"callers (simulated tasks)", "scheduling and map iteration order"}

const (
	ruleSrv = "a run is one seed: clients, requests, wire pieces, faults and the schedule are drawn from it; non-trivial: at least one judged reply overlapped another request or followed an injected fault; distinct: by the hash of the recorded schedule together with the specification"
	ruleBot = "a run is one seed: channels, events, faults and the schedule are drawn from it; non-trivial: at least one judged reply while another channel had a command outstanding, or after an injected fault; distinct: by the hash of the recorded schedule together with the specification"
	ruleGen = "a run is one seed: the workload, the faults and the schedule are drawn from it; non-trivial: a fault fired, a read or reply was split, or calls overlapped or followed one another; distinct: by the hash of the recorded schedule together with the specification"
)

const (
	ruleLives  = "a run is one seed: one to three lives of a program, each killed at a step, a file operation or at its end drawn from the seed, then a last one in the same directory that is judged; non-trivial: the last life made at least one judged reply after, or overlapping, something else, or ended after an earlier life was killed; distinct: by the hash of the recorded schedules together with the specification"
	ruleRounds = "a run is one seed: a workload with its faults and schedule, made again and again by the same process; non-trivial: every run whose rounds ended, since what is held is compared between them; distinct: by the hash of the recorded schedule together with the specification"
)

var props = []*prop{
	{id: "C01", parts: []part{{"srv", genC01, 6000, 84000}}, texts: 1680, bigs: []int{4000, 16000, 70000}, rule: ruleSrv, real: realSrv, stub: stubSrv},
	{id: "C02", parts: []part{{"srv", genC02, 6000, 84000}}, texts: 1200, bigs: []int{5000, 20000}, rule: ruleSrv, real: realSrv, stub: stubSrv},
	{id: "C03", parts: []part{{"srv", genC03, 6000, 84000}}, texts: 1680, bigs: []int{6000, 70000}, rule: ruleSrv, real: realSrv, stub: stubSrv},
	{id: "C04", parts: []part{{"srv", genC04srv, 3600, 50400}, {"bot", genC04bot, 3600, 50400}}, texts: 2000, rule: ruleSrv, real: append(append([]string{}, realSrv...), realBot...), stub: append(append([]string{}, stubSrv...), stubBot...)},
	{id: "C05", parts: []part{{"srv", genC05, 7200, 100800}}, texts: 600, rule: ruleSrv, real: realSrv, stub: stubSrv},
	{id: "C06", parts: []part{{"bot", genC06, 7200, 100800}}, texts: 1600, bigs: []int{5000}, rule: ruleBot, real: realBot, stub: stubBot},
	{id: "C07", parts: []part{{"bot", genC07, 7200, 100800}}, texts: 2000, rule: ruleBot, real: realBot, stub: stubBot},
	{id: "C08", parts: []part{{"srv", genC08srv, 1800, 25200}, {"bot", genC08bot, 5400, 75600}}, texts: 800, rule: ruleBot, real: append(append([]string{}, realSrv...), realBot...), stub: append(append([]string{}, stubSrv...), stubBot...)},
	{id: "C09", parts: []part{{"bot", genC09, 7200, 100800}}, texts: 1200, rule: ruleBot, real: realBot, stub: stubBot},
	{id: "C10", parts: []part{{"dict", genC10, 16000, 224000}}, texts: 0, rule: ruleGen, real: realDict, stub: stubDict},
	{id: "C11", parts: []part{{"dict", genC11, 16000, 224000}}, texts: 0, rule: ruleGen, real: realDict, stub: stubDict},
	{id: "C12", parts: []part{{"gen", genC12, 16000, 224000}}, texts: 0, rule: ruleGen, real: append([]string{"dict generator main: real code, instrumented", "output files: real files in a scratch directory"}, realDict...), stub: append([]string{"every file operation passes the simulator, which fails, cuts or kills at it"}, stubDict...)},
	{id: "C13", parts: []part{{"lib", genC13, 8400, 117600}}, texts: 2000, bigs: []int{3500}, rule: ruleGen, real: realLib, stub: stubLib},
	{id: "C14", parts: []part{{"lib", genC14, 4800, 67200}, {"lib:race", genC14, 1080, 15120}}, texts: 1800, rule: ruleGen, real: realLib, stub: stubLib},
	{id: "C15", parts: []part{{"lib", genC15, 6000, 84000}}, texts: 2000, bigs: []int{4000}, rule: ruleGen, real: realLib, stub: stubLib},
	{id: "C16", parts: []part{{"cli", genC16, 16000, 224000}}, texts: 1600, bigs: []int{5000, 70000}, rule: ruleGen, real: []string{"main, ast, logic and tone of /repo: real code, instrumented", "peggy/peg and pretty: real", "input files: real files in a scratch directory"}, stub: []string{"standard input and output, file reads, process exit"}},
	{id: "C17", parts: []part{{"lib", genC17, 5400, 75600}, {"lib:race", genC17, 1080, 15120}}, texts: 1800, rule: ruleGen, real: realLib, stub: stubLib},
	{id: "C18", parts: []part{{"srv", genC18, 6000, 84000}}, texts: 1200, rule: ruleSrv, real: realSrv, stub: stubSrv},
	{id: "C20", parts: []part{{"srv", genC20srv, 1500, 21000}, {"bot", genC20bot, 1500, 21000}, {"gen", genC20gen, 4000, 56000}}, texts: 1000, rule: ruleLives, real: append(append(append([]string{}, realSrv...), realBot...), "dict generator main and dict.Load: real code, instrumented"), stub: append(append(append([]string{}, stubSrv...), stubBot...), stubDict...)},
	{id: "C21", parts: []part{{"srv", genC21srv, 1200, 16800}, {"bot", genC21bot, 1200, 16800}, {"dict", genC21dict, 1500, 21000}}, texts: 800, rule: ruleRounds, real: append(append(append([]string{}, realSrv...), realBot...), realDict...), stub: append(append(append([]string{}, stubSrv...), stubBot...), stubDict...)},
	{id: "C19", parts: []part{{"bot", genC19, 7200, 100800}}, texts: 1200, rule: ruleBot, real: realBot, stub: stubBot},
}

func findProp(id string) *prop {
	for _, p := range props {
		if p.id == id {
			return p
		}
	}
	return nil
}

// job is one planned run.
type job struct {
	part int
	i    int
	spec *plan.Spec
	out  *Outcome
}

type checker struct {
	knownRun string
	p        *prop
	tier     string
	seed     uint64
	home     string
	b        *Builder
	c        *Corpus
	genMu    sync.Mutex
	known    []knownFinding
	t0       time.Time

	runs, errs  int
	late        int // runs stopped because they took too long
	firstLate   string
	nontriv     map[uint64]bool
	schedules   map[string]bool
	specs       map[uint64]bool
	faults      map[string]int
	probes      map[string]int
	simMS       int64
	steps       uint64
	switches    int
	hot         int
	checked     int
	ntcheck     int
	sites       int
	maxTasks    int
	perWorld    map[string]int
	samples     []interface{}
	runWall     time.Duration
	detChecked  int
	detBad      int
	firstErr    string
	knownSeen   map[string]bool
	fallback    string
	planned     int
	jobs        []*job
	next        int
	deadlineHit bool
}

func (k *checker) spec(pi, i int) *plan.Spec {
	k.genMu.Lock()
	defer k.genMu.Unlock()
	pt := k.p.parts[pi]
	r := newRng(k.seed, k.p.id, pt.world, itoa(pi), itoa(i))
	s := &plan.Spec{Prop: k.p.id, Seed: r.Next()}
	g := &G{Rng: r, c: k.c, t: newTable(k.c), s: s}
	g.schedule()
	pt.gen(g)
	g.lighten()
	s.Texts = g.t.list
	s.Race = strings.HasSuffix(pt.world, ":race")
	return s
}

func specHash(s *plan.Spec) uint64 {
	b, _ := json.Marshal(s)
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func (k *checker) mine(vs []plan.Violation) []plan.Violation {
	var out []plan.Violation
	for _, v := range vs {
		for _, p := range v.Props {
			if p == k.p.id {
				out = append(out, v)
				break
			}
		}
	}
	return out
}

func (k *checker) count(j *job) {
	o := j.out
	k.runs++
	k.perWorld[k.p.parts[j.part].world]++
	if o.Late {
		k.late++
		if k.firstLate == "" {
			k.firstLate = fmt.Sprintf("%s run %d", k.p.parts[j.part].world, j.i)
		}
		if k.late <= 2+len(k.jobs)/1000 {
			// Too much work for one run: counted, but no reason to give no answer.
			return
		}
	}
	if o.Err != "" {
		k.errs++
		if k.firstErr == "" {
			k.firstErr = fmt.Sprintf("run %d: %s", j.i, o.Err)
		}
		return
	}
	r := o.Res
	h := fnv.New64a()
	sh := specHash(j.spec)
	fmt.Fprintf(h, "%x %s", sh, r.SchedHash)
	if r.Nontrivial > 0 {
		k.nontriv[h.Sum64()] = true
	}
	k.schedules[r.SchedHash] = true
	k.specs[sh] = true
	for f, n := range r.Faults {
		k.faults[f] += n
	}
	for f, n := range r.Probes {
		k.probes[f] += n
	}
	k.simMS += r.SimMS
	k.steps += r.Steps
	k.switches += r.Switches
	k.hot += r.Hot
	k.checked += r.Checked
	k.ntcheck += r.Nontrivial
	if r.Sites > k.sites {
		k.sites = r.Sites
	}
	if r.Tasks > k.maxTasks {
		k.maxTasks = r.Tasks
	}
	k.runWall += o.Wall
	if len(k.samples) < 3 && r.Nontrivial > 0 && j.i%7 == 3 {
		s := *j.spec
		s.Texts = append([]plan.Ref{}, s.Texts...)
		for i := range s.Texts {
			s.Texts[i] = plan.Ref{Text: clip(s.Texts[i].Text, 80), Kind: s.Texts[i].Kind}
		}
		k.samples = append(k.samples, map[string]interface{}{"world": s.World, "run_seed": s.Seed, "spec": s, "steps": r.Steps, "switches": r.Switches, "preemptions": len(r.Preempts), "schedule_hash": r.SchedHash, "log_hash": r.LogHash, "faults": r.Faults, "judged": r.Checked})
	}
}

func cloneSpec(s *plan.Spec) *plan.Spec {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	var c plan.Spec
	if err := json.Unmarshal(b, &c); err != nil {
		panic(err)
	}
	return &c
}

// plan lists the runs.
func (k *checker) plan() {
	var jobs []*job
	max := 0
	for _, p := range k.p.parts {
		n := p.quick
		if k.tier == "thorough" {
			n = p.thorough
		}
		if n > max {
			max = n
		}
	}
	// Interleave the parts in proportion.
	for i := 0; i < max; i++ {
		for pi, p := range k.p.parts {
			n := p.quick
			if k.tier == "thorough" {
				n = p.thorough
			}
			if i*n/max != (i+1)*n/max || n == max {
				jobs = append(jobs, &job{part: pi, i: i})
			}
		}
	}
	k.planned = len(jobs)
	k.jobs = jobs
}

// sweep runs what is left until a run violates the property;
// it returns the runs that did, in order.
func (k *checker) sweep(end time.Time) []*job {
	jobs := k.jobs
	var bads []*job
	var mu sync.Mutex
	stop := false
	var wg sync.WaitGroup
	for w := 0; w < workers(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || k.next >= len(jobs) {
					mu.Unlock()
					return
				}
				if time.Now().After(end) {
					k.deadlineHit = true
					mu.Unlock()
					return
				}
				j := jobs[k.next]
				k.next++
				mu.Unlock()
				j.spec = k.spec(j.part, j.i)
				j.out = k.b.exec(j.spec, false)
				det := 0
				if j.out.Err == "" && len(j.out.Vs) == 0 && !j.spec.Race && j.i%50 == 11 {
					o2 := k.b.exec(j.spec, false)
					det = 1
					if o2.Err == "" && (o2.Res.LogHash != j.out.Res.LogHash || o2.Res.SchedHash != j.out.Res.SchedHash) {
						det = 2
					}
				}
				mu.Lock()
				if det > 0 {
					k.detChecked++
				}
				if det == 2 {
					k.detBad++
				}
				k.count(j)
				var vs []plan.Violation
				for _, v := range k.mine(j.out.Vs) {
					if f := k.isKnown(v); f != nil {
						k.knownSeen[f.Text] = true
					} else {
						vs = append(vs, v)
					}
				}
				if len(vs) > 0 {
					j.out.Vs = vs
					bads = append(bads, j)
					stop = true
				}
				if k.errs > 20 {
					stop = true
				}
				if len(vs) == 0 {
					j.spec, j.out = nil, nil
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	sort.Slice(bads, func(a, b int) bool { return bads[a].i < bads[b].i })
	return bads
}

func workers() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 1 {
		n = 1
	}
	return n
}

// ---- known findings ----

type knownFinding struct {
	Prop, Kind, Match, Run, Text string
}

// loadKnown reads lines "finding: property=C01 kind=... match=...".
func loadKnown(file string) []knownFinding {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var ks []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		var f knownFinding
		f.Text = strings.TrimPrefix(l, "finding: ")
		rest := f.Text
		if i := strings.Index(rest, " -- "); i >= 0 {
			rest, f.Text = rest[:i], rest[i+4:]
		}
		if i := strings.Index(rest, " match="); i >= 0 {
			f.Match = rest[i+7:]
			rest = rest[:i]
		}
		for _, x := range strings.Fields(rest) {
			if strings.HasPrefix(x, "property=") {
				f.Prop = x[9:]
			}
			if strings.HasPrefix(x, "kind=") {
				f.Kind = x[5:]
			}
			if strings.HasPrefix(x, "run=") {
				f.Run = x[4:]
			}
		}
		f.Text = "property=" + f.Prop + " " + strings.TrimPrefix(f.Text, "property="+f.Prop+" ")
		if f.Prop != "" && f.Kind != "" && f.Match != "" {
			ks = append(ks, f)
		}
	}
	return ks
}

func (k *checker) isKnown(v plan.Violation) *knownFinding {
	for i, f := range k.known {
		if f.Run == "" && f.Prop == k.p.id && f.Kind == v.Kind && strings.Contains(v.Msg, f.Match) {
			return &k.known[i]
		}
	}
	return nil
}

// knownRuns repeats the runs that the known-findings file lists by name
// ("run=NAME"): each is one input known to fail, outside what the sweep
// generates, so nothing else is suppressed.
func (k *checker) knownRuns() {
	for _, f := range k.known {
		if f.Prop != k.p.id || f.Run != "giant-text" {
			continue
		}
		t := strings.Repeat("mo? ", 220_000)
		spec := &plan.Spec{Prop: k.p.id, World: "srv", Seed: 1, Texts: []plan.Ref{{Text: t, Kind: "crash"}}}
		spec.Sched.MaxSteps = 1 << 40
		spec.Srv = &plan.Srv{Conns: []plan.SConn{{Reqs: []plan.SReq{{Method: "POST", Path: "/", Text: 0}}}}}
		o := k.b.exec(spec, false)
		k.knownRun = "no stack overflow"
		for _, v := range o.Vs {
			if v.Kind == f.Kind && strings.Contains(v.Msg, f.Match) {
				k.knownSeen[f.Text] = true
				k.knownRun = "stack overflow, as listed"
			}
		}
		if o.Err != "" {
			k.knownRun = "no answer: " + clip(o.Err, 200)
		}
	}
}

// ---- main flow ----

func (k *checker) prepare() error {
	b, err := newBuilder(k.home)
	if err != nil {
		return err
	}
	k.b = b
	if err := b.Prepare(true); err != nil {
		return err
	}
	seen := map[string]bool{}
	var names []string
	if k.p.texts > 0 {
		names = append(names, "ref")
	}
	for _, p := range k.p.parts {
		if !seen[p.world] {
			seen[p.world] = true
			names = append(names, p.world)
		}
	}
	if err := b.Build(names...); err != nil {
		// The program may use something the instrumenter turns into code that
		// does not compile: fall back to switching at blocking points only.
		k.fallback = clip(err.Error(), 400)
		if e := b.Prepare(false); e != nil {
			return fmt.Errorf("%v\n%v", err, e)
		}
		if e := b.Build(names...); e != nil {
			return fmt.Errorf("%v\nwithout yields: %v", err, e)
		}
	}
	k.c = newCorpus(b.Bin["ref"])
	for _, p := range k.p.parts {
		k.c.Valid = k.c.Valid || p.world == "srv" || p.world == "bot"
		k.c.Strict = k.c.Strict || p.world == "bot"
	}
	if k.p.texts > 0 {
		n := k.p.texts
		if k.tier == "thorough" {
			n *= 2
		}
		r := newRng(k.seed, "corpus", k.p.id)
		ts := texts(r, n)
		for _, z := range k.p.bigs {
			ts = append(ts, bigText(r, z))
		}
		ts = append(ts, "")
		for _, t := range append([]string{}, ts...) {
			if tr := strings.TrimSpace(t); tr != t {
				ts = append(ts, tr)
			}
		}
		k.c.Add(dedup(ts))
		sizes := []int{300, 600, 900}
		switch k.p.parts[0].world {
		case "srv", "bot", "cli":
			sizes = append(sizes, 1500, 2000, 2500, 3200, 4500)
		}
		k.c.long(r, sizes)
		if len(k.c.List) < n/2 {
			return fmt.Errorf("only %d of %d texts have a reference: %v", len(k.c.List), n, k.c.Bad[0])
		}
	}
	return nil
}

func dedup(ts []string) []string {
	m := map[string]bool{}
	var o []string
	for _, t := range ts {
		if !m[t] {
			m[t] = true
			o = append(o, t)
		}
	}
	return o
}

func newChecker(p *prop, tier string, seed uint64, home string) *checker {
	k := &checker{p: p, tier: tier, seed: seed, home: home, t0: time.Now()}
	k.nontriv = map[uint64]bool{}
	k.schedules = map[string]bool{}
	k.specs = map[uint64]bool{}
	k.faults = map[string]int{}
	k.probes = map[string]int{}
	k.perWorld = map[string]int{}
	k.knownSeen = map[string]bool{}
	k.known = loadKnown(filepath.Join(filepath.Dir(home), "KNOWN_FINDINGS.txt"))
	return k
}

func (k *checker) check() int {
	defer func() {
		if k.b != nil {
			k.b.Close()
		}
	}()
	if err := k.prepare(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot build the simulation:", err)
		return 2
	}
	limit := 170 * time.Second
	if k.tier == "thorough" {
		limit = 600 * time.Second
	}
	k.plan()
	end := time.Now().Add(limit)
	violations := 0
	code := 0
	lost := 0 // runs whose violation did not repeat
	for code == 0 && lost < 10 {
		bads := k.sweep(end)
		if len(bads) == 0 {
			break
		}
		for _, bad := range bads {
			file, v, err := k.report(bad)
			if err != nil {
				// Say so only if nothing else is found.
				fmt.Fprintln(os.Stderr, err)
				lost++
				continue
			}
			violations = 1
			fmt.Printf("%s: %s: %s\n", k.p.id, v.Kind, clip(v.Msg, 1500))
			fmt.Printf("VIOLATION property=%s replay=%s\n", k.p.id, file)
			code = 1
			break
		}
	}
	if code == 0 && lost > 0 {
		code = 2
	}
	if code == 0 && k.errs > 0 {
		fmt.Fprintf(os.Stderr, "%d runs gave no answer; first: %s\n", k.errs, clip(k.firstErr, 2000))
		code = 2
	}
	if code == 0 {
		k.knownRuns()
	}
	var ks []string
	for t := range k.knownSeen {
		ks = append(ks, t)
	}
	sort.Strings(ks)
	for _, t := range ks {
		fmt.Println("KNOWN-FINDING: " + t)
	}
	if err := k.evidence(violations); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s seed %d: %d runs (%d planned), %d distinct non-trivial, %d comparisons, %d schedules, %.0f s\n", k.p.id, k.tier, k.seed, k.runs, k.planned, len(k.nontriv), k.checked, len(k.schedules), time.Since(k.t0).Seconds())
	if k.late > 0 {
		fmt.Printf("warning: %d runs took too long and were stopped; first: %s\n", k.late, k.firstLate)
	}
	if k.detBad > 0 {
		fmt.Printf("warning: %d of %d repeated runs differed\n", k.detBad, k.detChecked)
	}
	return code
}

func (k *checker) evidence(violations int) error {
	hours := k.runWall.Hours()
	wall := time.Since(k.t0)
	perHour := 0.0
	if wall > 0 {
		perHour = float64(k.runs) / wall.Hours()
	}
	_ = hours
	cov := map[string]interface{}{
		"evaluations":            k.runs,
		"distinct_nontrivial":    len(k.nontriv),
		"rule":                   k.p.rule,
		"samples":                k.samples,
		"planned_runs":           k.planned,
		"runs_stopped":           k.late,
		"runs_by_world":          k.perWorld,
		"runs_per_hour":          int(perHour),
		"simulated_seconds":      float64(k.simMS) / 1000,
		"faults_injected":        k.faults,
		"probes":                 k.probes,
		"distinct_interleavings": len(k.schedules),
		"interleaving_measure":   "hash of the sequence of scheduler decisions (environment action, or task and its local step count)",
		"distinct_specs":         len(k.specs),
		"program_steps":          k.steps,
		"task_switches":          k.switches,
		"switches_at_shared":     k.hot,
		"max_yield_sites_hit":    k.sites,
		"max_tasks":              k.maxTasks,
		"oracle_comparisons":     k.checked,
		"nontrivial_comparisons": k.ntcheck,
		"reference_texts":        len(k.c.List),
		"texts_without_ref":      len(k.c.Bad),
		"texts_crashing_library": k.c.Crash,
		"determinism_repeats":    k.detChecked,
		"determinism_mismatches": k.detBad,
		"real_components":        k.p.real,
		"stubbed_components":     k.p.stub,
		"build_seconds":          k.b.Took.Seconds(),
	}
	if k.b.Res != nil {
		cov["instrumentation"] = fmt.Sprintf("%+v", *k.b.Res)
	}
	if k.knownRun != "" {
		cov["known_finding_run"] = k.knownRun
	}
	if k.fallback != "" {
		cov["instrumentation_fallback"] = k.fallback
	}
	if k.deadlineHit {
		cov["stopped_by_time_limit"] = true
	}
	if len(k.samples) == 0 {
		cov["samples"] = []interface{}{"none collected"}
	}
	ev := map[string]interface{}{
		"property": k.p.id, "tier": k.tier, "seed": int(k.seed), "level": "exploration", "coverage": cov,
		"wall_s": time.Since(k.t0).Seconds(), "violations": violations,
		"assumptions": []string{
			"references are what the same tree's library computes alone in a fresh process",
			"interleavings switch between statements, at locks, channels and I/O, not inside one statement",
			"standard library and third-party packages run uninstrumented",
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(filepath.Dir(k.home), "evidence")
	if err := os.MkdirAll(dir, 0755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, k.p.id+".json"), append(b, '\n'), 0644)
}
