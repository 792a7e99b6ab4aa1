package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"time"

	"verif/src/plan"
)

// Replay is a replay file: the minimised run and the violation it shows.
type Replay struct {
	Property  string         `json:"property"`
	CheckSeed uint64         `json:"check_seed"`
	Tier      string         `json:"tier"`
	Run       int            `json:"run"`
	Violation plan.Violation `json:"violation"`
	Original  plan.Violation `json:"original"`
	Shrunk    string         `json:"shrunk"`
	LogHash   string         `json:"log_hash"`
	Log       []string       `json:"log,omitempty"`
	Spec      *plan.Spec     `json:"spec"`
}

func (k *checker) same(o *Outcome, kind string) *plan.Violation {
	if o.Err != "" {
		return nil
	}
	for _, v := range k.mine(o.Vs) {
		if v.Kind == kind && k.isKnown(v) == nil {
			v := v
			return &v
		}
	}
	return nil
}

// report confirms, minimises and writes the replay file.
func (k *checker) report(j *job) (string, *plan.Violation, error) {
	orig := j.out.Vs[0]
	var cur *Outcome
	for i := 0; i < 8; i++ {
		if o := k.b.exec(j.spec, false); k.same(o, orig.Kind) != nil {
			cur = o
			break
		}
	}
	if cur == nil {
		return "", nil, fmt.Errorf("run %d reported %s (%s) but does not repeat", j.i, orig.Kind, clip(orig.Msg, 600))
	}
	budget := 45 * time.Second
	if cur.Wall > 5*time.Second {
		budget = 90 * time.Second
	}
	s := &shrinker{k: k, kind: orig.Kind, best: j.spec, out: cur, end: time.Now().Add(budget)}
	s.run()
	// The race detector does not keep every access: a run may have to be
	// repeated for it to report.
	var final *Outcome
	var v *plan.Violation
	for _, spec := range []*plan.Spec{s.best, j.spec} {
		for i := 0; i < 5 && v == nil; i++ {
			s.best = spec
			final = k.b.exec(spec, true)
			v = k.same(final, orig.Kind)
		}
	}
	if v == nil {
		return "", nil, fmt.Errorf("run %d: the violation %s does not repeat", j.i, orig.Kind)
	}
	rep := Replay{Property: k.p.id, CheckSeed: k.seed, Tier: k.tier, Run: j.i, Violation: *v, Original: orig,
		Shrunk: fmt.Sprintf("%d bytes of specification to %d in %d runs", size(j.spec), size(s.best), s.tries), Spec: s.best}
	if final.Res != nil {
		rep.LogHash = final.Res.LogHash
		rep.Log = final.Res.Log
		if len(rep.Log) > 400 {
			rep.Log = rep.Log[:400]
		}
	}
	dir := filepath.Join(filepath.Dir(k.home), "replays")
	if err := os.MkdirAll(dir, 0755); err != nil {
		return "", nil, err
	}
	b, err := json.MarshalIndent(&rep, "", " ")
	if err != nil {
		return "", nil, err
	}
	file := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", k.p.id, k.seed, j.i))
	return file, v, os.WriteFile(file, b, 0644)
}

func size(s *plan.Spec) int {
	b, _ := json.Marshal(s)
	return len(b)
}

type shrinker struct {
	k     *checker
	kind  string
	best  *plan.Spec
	out   *Outcome
	end   time.Time
	tries int
}

func (s *shrinker) left() bool { return time.Now().Before(s.end) && s.tries < 400 }

// first tries candidates in parallel and adopts the first that still fails.
func (s *shrinker) first(cs []*plan.Spec) bool {
	for len(cs) > 0 && s.left() {
		n := workers()
		if n > len(cs) {
			n = len(cs)
		}
		outs := make([]*Outcome, n)
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			i := i
			wg.Add(1)
			go func() { defer wg.Done(); outs[i] = s.k.b.exec(cs[i], false) }()
		}
		wg.Wait()
		s.tries += n
		for i := 0; i < n; i++ {
			if s.k.same(outs[i], s.kind) != nil {
				s.best, s.out = cs[i], outs[i]
				return true
			}
		}
		cs = cs[n:]
	}
	return false
}

func (s *shrinker) run() {
	// Structure first, with the random schedule of the same seed.
	for s.left() {
		if !s.first(reductions(s.best)) {
			break
		}
	}
	// Then the schedule: an explicit list of preemptions and picks.
	if s.out.Res == nil || s.best.Sched.Replay || len(s.out.Res.Preempts) > 20000 || !s.left() {
		return
	}
	c := cloneSpec(s.best)
	c.Sched.Replay = true
	c.Sched.Preempts = s.out.Res.Preempts
	c.Sched.Picks = s.out.Res.Picks
	if !s.first([]*plan.Spec{c}) {
		return
	}
	// Fewer preemptions.
	for chunk := (len(s.best.Sched.Preempts) + 1) / 2; chunk >= 1 && s.left(); {
		var cs []*plan.Spec
		ps := s.best.Sched.Preempts
		for i := 0; i < len(ps); i += chunk {
			e := i + chunk
			if e > len(ps) {
				e = len(ps)
			}
			c := cloneSpec(s.best)
			c.Sched.Preempts = append(append([]plan.Preempt{}, ps[:i]...), ps[e:]...)
			cs = append(cs, c)
		}
		if len(cs) == 0 {
			break
		}
		if s.first(cs) {
			if n := len(s.best.Sched.Preempts); chunk > (n+1)/2 {
				chunk = (n + 1) / 2
			}
			continue
		}
		if chunk == 1 {
			break
		}
		chunk = (chunk + 1) / 2
	}
	// Shorter picks.
	for n := len(s.best.Sched.Picks); n > 0 && s.left(); {
		c := cloneSpec(s.best)
		c.Sched.Picks = c.Sched.Picks[:n/2]
		if !s.first([]*plan.Spec{c}) {
			break
		}
		n = len(s.best.Sched.Picks)
	}
}

// reductions lists simpler runs.
func reductions(b *plan.Spec) []*plan.Spec {
	var cs []*plan.Spec
	add := func(f func(s *plan.Spec)) {
		c := cloneSpec(b)
		f(c)
		cs = append(cs, c)
	}
	if b.Sched.MeanRun != 0 && b.Sched.HotP != 0 {
		add(func(s *plan.Spec) { s.Sched.MeanRun = 0 })
		add(func(s *plan.Spec) { s.Sched.HotP = 0 })
	} else if b.Sched.MeanRun+b.Sched.HotP != 0 {
		add(func(s *plan.Spec) { s.Sched.MeanRun, s.Sched.HotP = 0, 0 })
	}
	if b.MapSeed != 0 {
		add(func(s *plan.Spec) { s.MapSeed = 0 })
	}
	if len(b.Env) > 0 {
		add(func(s *plan.Spec) { s.Env = nil })
	}
	for i := range b.Prior {
		i := i
		if len(b.Prior) > 1 {
			add(func(s *plan.Spec) {
				if i == 0 && s.Gen != nil {
					s.Prior[1].Gen.Old = s.Prior[0].Gen.Old
				}
				s.Prior = append(s.Prior[:i], s.Prior[i+1:]...)
			})
		}
		if b.Prior[i].KillAt > 0 {
			add(func(s *plan.Spec) { s.Prior[i].KillAt = 0 })
		}
		if len(b.Prior[i].FS) > 0 {
			add(func(s *plan.Spec) { s.Prior[i].FS = nil })
		}
		if p := b.Prior[i].Srv; p != nil && len(p.Conns) > 1 {
			add(func(s *plan.Spec) { x := s.Prior[i].Srv; x.Conns = x.Conns[:1]; clampAfter(x.Conns) })
		}
		if p := b.Prior[i].Bot; p != nil && len(p.Chans) > 1 {
			add(func(s *plan.Spec) { x := s.Prior[i].Bot; x.Chans, x.Faults = x.Chans[:1], nil })
		}
		if p := b.Prior[i].Gen; p != nil && len(p.Reply.Entries) > 1 {
			add(func(s *plan.Spec) { x := &s.Prior[i].Gen.Reply; x.Entries = x.Entries[:1] })
		}
	}
	if n := len(b.Sched.Pauses); n > 0 {
		if n > 1 {
			add(func(s *plan.Spec) { s.Sched.Pauses = nil })
		}
		for i := range b.Sched.Pauses {
			i := i
			add(func(s *plan.Spec) { s.Sched.Pauses = append(s.Sched.Pauses[:i], s.Sched.Pauses[i+1:]...) })
		}
	}
	for i := range b.Sched.Panics {
		i := i
		add(func(s *plan.Spec) { s.Sched.Panics = append(s.Sched.Panics[:i], s.Sched.Panics[i+1:]...) })
	}
	if p := b.Srv; p != nil {
		for i := range p.Conns {
			i := i
			if len(p.Conns) > 1 {
				add(func(s *plan.Spec) {
					s.Srv.Conns = append(s.Srv.Conns[:i], s.Srv.Conns[i+1:]...)
					clampAfter(s.Srv.Conns)
				})
			}
			for k := range p.Conns[i].Reqs {
				k := k
				if len(p.Conns[i].Reqs) > 1 {
					add(func(s *plan.Spec) {
						s.Srv.Conns[i].Reqs = append(s.Srv.Conns[i].Reqs[:k], s.Srv.Conns[i].Reqs[k+1:]...)
						clampAfter(s.Srv.Conns)
					})
				}
			}
		}
		for i := range p.Files {
			i := i
			add(func(s *plan.Spec) { s.Srv.Files = append(s.Srv.Files[:i], s.Srv.Files[i+1:]...) })
		}
		for i := range p.Accept {
			i := i
			add(func(s *plan.Spec) { s.Srv.Accept = append(s.Srv.Accept[:i], s.Srv.Accept[i+1:]...) })
		}
		if len(p.ProbeTexts) > 0 {
			add(func(s *plan.Spec) { s.Srv.ProbeTexts = nil })
		}
		if p.IdleMS > 0 {
			add(func(s *plan.Spec) { s.Srv.IdleMS = 0 })
		}
		if p.HangUp {
			add(func(s *plan.Spec) { s.Srv.HangUp = false })
		}
		for i := range p.Conns {
			i := i
			c := p.Conns[i]
			if c.MaxRead != 0 || c.Pipeline || c.After != 0 {
				add(func(s *plan.Spec) { x := &s.Srv.Conns[i]; x.MaxRead, x.Pipeline, x.After = 0, false, 0 })
			}
			for k, r := range c.Reqs {
				k := k
				if len(r.Wire) > 0 {
					add(func(s *plan.Spec) { s.Srv.Conns[i].Reqs[k].Wire = nil })
				}
				if r.Chunked != nil && r.Fault == "" {
					add(func(s *plan.Spec) { s.Srv.Conns[i].Reqs[k].Chunked = nil })
				}
				if r.Expect || r.CType != "" || r.HTTP10 {
					add(func(s *plan.Spec) { x := &s.Srv.Conns[i].Reqs[k]; x.Expect, x.CType, x.HTTP10 = false, "", false })
				}
			}
		}
	}
	if p := b.Bot; p != nil {
		for i := range p.Chans {
			i := i
			if len(p.Chans) > 1 && p.JoinErr < 0 {
				add(func(s *plan.Spec) {
					s.Bot.Chans = append(s.Bot.Chans[:i], s.Bot.Chans[i+1:]...)
					var fs []plan.BFault
					for _, f := range s.Bot.Faults {
						if f.Chan == i {
							continue
						}
						if f.Chan > i {
							f.Chan--
						}
						fs = append(fs, f)
					}
					s.Bot.Faults = fs
				})
			}
			for k := range p.Chans[i].Events {
				k := k
				add(func(s *plan.Spec) {
					e := s.Bot.Chans[i].Events
					s.Bot.Chans[i].Events = append(e[:k], e[k+1:]...)
					for q := range s.Bot.Faults {
						if f := &s.Bot.Faults[q]; f.Chan == i && f.After > k {
							f.After--
						}
					}
				})
			}
			if len(p.Chans[i].Gap) > 0 {
				add(func(s *plan.Spec) { s.Bot.Chans[i].Gap = nil })
			}
		}
		for i := range p.Faults {
			i := i
			add(func(s *plan.Spec) { s.Bot.Faults = append(s.Bot.Faults[:i], s.Bot.Faults[i+1:]...) })
		}
		if p.StallMS > 0 {
			add(func(s *plan.Spec) { s.Bot.StallMS = 0 })
		}
	}
	if p := b.Cli; p != nil {
		if len(p.Chunks) > 0 {
			add(func(s *plan.Spec) { s.Cli.Chunks = nil })
		}
		for i := range p.FS {
			i := i
			add(func(s *plan.Spec) { s.Cli.FS = append(s.Cli.FS[:i], s.Cli.FS[i+1:]...) })
		}
		if p.OutAt > 0 {
			add(func(s *plan.Spec) { s.Cli.OutAt = 0 })
		}
		if p.Cut > 0 {
			add(func(s *plan.Spec) { s.Cli.Cut /= 2 })
		}
	}
	reply := func(get func(s *plan.Spec) *plan.Reply) {
		r := get(b)
		n := len(r.Entries)
		if n > 1 {
			add(func(s *plan.Spec) { x := get(s); x.Entries = x.Entries[:n/2] })
			add(func(s *plan.Spec) { x := get(s); x.Entries = x.Entries[n/2:] })
		}
		if n > 0 && n < 6 {
			for i := 0; i < n; i++ {
				i := i
				add(func(s *plan.Spec) { x := get(s); x.Entries = append(x.Entries[:i], x.Entries[i+1:]...) })
			}
		}
		if len(r.Wire) > 0 || r.DelayMS > 0 || r.Extra != "" || r.Shuffle {
			add(func(s *plan.Spec) { x := get(s); x.Wire, x.DelayMS, x.Extra, x.Shuffle = nil, 0, "", false })
		}
		if r.Chunked {
			add(func(s *plan.Spec) { get(s).Chunked = false })
		}
	}
	if p := b.Dict; p != nil {
		for i := range p.Loads {
			i := i
			if len(p.Loads) > 1 {
				add(func(s *plan.Spec) { s.Dict.Loads = append(s.Dict.Loads[:i], s.Dict.Loads[i+1:]...) })
			}
		}
		for i := range p.Loads {
			i := i
			reply(func(s *plan.Spec) *plan.Reply { return &s.Dict.Loads[i].Reply })
			if p.Loads[i].Mutate {
				add(func(s *plan.Spec) { s.Dict.Loads[i].Mutate = false })
			}
		}
	}
	if p := b.Gen; p != nil {
		for i := range p.FS {
			i := i
			add(func(s *plan.Spec) { s.Gen.FS = append(s.Gen.FS[:i], s.Gen.FS[i+1:]...) })
		}
		reply(func(s *plan.Spec) *plan.Reply { return &s.Gen.Reply })
		if p.Old != "-" && p.Old != "=" && len(p.Old) > 20 {
			add(func(s *plan.Spec) { s.Gen.Old = "old" })
		}
	}
	if p := b.Lib; p != nil {
		for i := range p.Tasks {
			i := i
			if len(p.Tasks) > 1 {
				add(func(s *plan.Spec) { s.Lib.Tasks = append(s.Lib.Tasks[:i], s.Lib.Tasks[i+1:]...) })
			}
			for k := range p.Tasks[i] {
				k := k
				add(func(s *plan.Spec) { s.Lib.Tasks[i] = append(s.Lib.Tasks[i][:k], s.Lib.Tasks[i][k+1:]...) })
			}
		}
	}
	return cs
}
