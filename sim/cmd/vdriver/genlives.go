package main

import "verif/src/plan"

// ---- lives (C20) ----

// lives adds earlier lives of the program, made by one of the generators.
func (g *G) lives(gens ...func(*G)) {
	n := g.Int(1, 1, 2, 3)
	var texts []string
	for _, r := range g.t.list {
		texts = append(texts, r.Text)
	}
	for i := 0; i < n; i++ {
		s := plan.Spec{Seed: g.Next()}
		h := &G{Rng: g.Rng, c: g.c, t: g.t, s: &s, share: texts}
		h.schedule()
		gens[g.Intn(len(gens))](h)
		if g.P(75) {
			s.KillAt = 1 + g.Log(g.Int(60, 3000, 40000, 400000))
		}
		if g.P(50) {
			s.FS = append(s.FS, plan.FSFault{At: g.Log(40), Kind: g.Str("kill", "kill-after", "torn"), Arg: g.Intn(100)})
		}
		g.s.Prior = append(g.s.Prior, s)
	}
	g.s.Life = n
}

func genC20srv(g *G) {
	gens := []func(*G){genC01, genC03, genC05}
	gens[g.Intn(len(gens))](g)
	g.lives(gens...)
}

func genC20bot(g *G) {
	gens := []func(*G){genC06, genC07, genC19}
	gens[g.Intn(2)](g)
	g.lives(gens...)
}

func genC20gen(g *G) {
	genC12(g)
	p := g.s.Gen
	p.Old, p.NoDir = "=", false
	if g.P(80) {
		p.FS, p.KillAt = nil, 0
		p.Reply = g.reply(0, 0)
		p.Reply.Wire = []int{g.Int(50, 400, 4000)}
	}
	n := g.Int(1, 1, 2, 3)
	for i := 0; i < n; i++ {
		s := plan.Spec{Seed: g.Next()}
		h := &G{Rng: g.Rng, c: g.c, t: g.t, s: &s}
		h.schedule()
		genC12(h)
		s.Gen.NoDir = false
		if i > 0 {
			s.Gen.Old = "="
		}
		if len(s.Gen.FS)+s.Gen.KillAt == 0 && g.P(60) {
			s.Gen.FS = []plan.FSFault{{At: g.Range(0, 9), Kind: g.Str("kill", "kill-after", "torn"), Arg: g.Intn(1000)}}
		}
		g.s.Prior = append(g.s.Prior, s)
	}
	g.s.Life = n
}

// ---- rounds (C21) ----

const (
	rounds = 7
	memory = 15 // of a hundred runs count objects, the others files
)

func genC21srv(g *G) {
	gens := []func(*G){genC01, genC02, genC03, genC03, genC05, genC18, genC18}
	gens[g.Intn(len(gens))](g)
	s := g.s.Srv
	s.Rounds, s.HangUp = rounds, g.P(50)
	g.s.Mem = g.P(memory)
	s.ProbeTexts, s.IdleMS = nil, 0
	if len(s.Conns) > 12 {
		s.Conns = s.Conns[len(s.Conns)-12:]
	}
	for i := range s.Conns {
		// Every round makes them all again.
		if c := &s.Conns[i]; len(c.Reqs) > 24 {
			c.Reqs = c.Reqs[len(c.Reqs)-24:]
		}
	}
	clampAfter(s.Conns)
	g.everyRound(countPosts(s))
}

// everyRound makes the interpreter fail now and then, in all of the rounds.
func (g *G) everyRound(n int) {
	g.s.Sched.Panics = nil
	if n == 0 || !g.P(40) {
		return
	}
	p := g.Int(20, 50, 90)
	for k := 1; k <= n*rounds && k < 400; k++ {
		if g.P(p) {
			g.s.Sched.Panics = append(g.s.Sched.Panics, plan.PanicPlan{Scope: "interp", K: k, N: g.Log(2000), Kind: g.Str(panicKinds...)})
		}
	}
}

func genC21bot(g *G) {
	gens := []func(*G){genC06, genC07, genC09, genC19}
	gens[g.Intn(len(gens))](g)
	b := g.s.Bot
	b.Rounds, b.StallMS = rounds, 0
	g.s.Mem = g.P(memory)
	if len(b.Chans) > 10 {
		b.Chans = b.Chans[:10]
		var fs []plan.BFault
		for _, f := range b.Faults {
			if f.Chan < 10 {
				fs = append(fs, f)
			}
		}
		b.Faults = fs
	}
	n := 0
	for i := range b.Chans {
		c := &b.Chans[i]
		if len(c.Events) > 8 {
			c.Events = c.Events[:8]
		}
		for k := range b.Faults {
			if f := &b.Faults[k]; f.Chan == i && f.After > len(c.Events) {
				f.After = len(c.Events)
			}
		}
		n += len(c.Events)
	}
	g.everyRound(n)
}

func genC21dict(g *G) {
	g.dictRun(g.Int(10, 40), g.Int(10, 40))
	d := g.s.Dict
	d.Rounds = rounds
	g.s.Mem = g.P(memory)
	if len(d.Loads) > 8 {
		d.Loads = d.Loads[:8]
	}
	for i := range d.Loads {
		if r := &d.Loads[i].Reply; len(r.Entries) > 12 {
			r.Entries = r.Entries[:12]
		}
	}
}
