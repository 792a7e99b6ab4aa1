// Vdriver builds the simulation of /repo's working tree and runs checks.
//
//	vdriver check ID tier      decide a property
//	vdriver replay FILE        run a replay file again
//	vdriver determinism N      run N specifications of every property twice
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"time"

	"verif/src/plan"
)

func home() string {
	if h := os.Getenv("VERIF_HOME"); h != "" {
		return h
	}
	return "/verif/sim"
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vdriver check ID tier | replay FILE | determinism N")
		os.Exit(2)
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			fmt.Fprintln(os.Stderr, "VERIF_SEED:", err)
			os.Exit(2)
		}
		seed = uint64(n)
	}
	switch os.Args[1] {
	case "check":
		p := findProp(os.Args[2])
		if p == nil {
			fmt.Fprintln(os.Stderr, "no such property:", os.Args[2])
			os.Exit(2)
		}
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(newChecker(p, tier, seed, home()).check())
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "determinism":
		n, _ := strconv.Atoi(os.Args[2])
		os.Exit(determinism(n, seed))
	case "run":
		part, _ := strconv.Atoi(os.Args[3])
		i, _ := strconv.Atoi(os.Args[4])
		os.Exit(runOne(os.Args[2], part, i, seed))
	case "build":
		b, err := newBuilder(home())
		if err == nil {
			defer b.Close()
			if err = b.Prepare(true); err == nil {
				fmt.Printf("%+v\n", *b.Res)
				err = b.Build(os.Args[2:]...)
			}
			fmt.Println(b.Took)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	default:
		os.Exit(2)
	}
}

// runOne makes one run of a check and prints its specification and its log.
func runOne(id string, part, i int, seed uint64) int {
	p := findProp(id)
	if p == nil || part >= len(p.parts) {
		return 2
	}
	k := newChecker(p, "quick", seed, home())
	if err := k.prepare(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer k.b.Close()
	s := k.spec(part, i)
	js, _ := json.Marshal(s)
	fmt.Printf("%s\n", js)
	o := k.b.exec(s, true)
	if o.Err != "" {
		fmt.Fprintln(os.Stderr, o.Err)
		return 2
	}
	for _, l := range o.Res.Log {
		fmt.Println("  " + l)
	}
	fmt.Printf("%d steps, %d simulated ms, %v wall\n", o.Res.Steps, o.Res.SimMS, o.Wall)
	for _, v := range k.mine(o.Vs) {
		fmt.Printf("%s: %s: %s\n", id, v.Kind, v.Msg)
	}
	return 0
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rep Replay
	if err := json.Unmarshal(b, &rep); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := findProp(rep.Property)
	if p == nil {
		return 2
	}
	k := newChecker(p, "quick", rep.CheckSeed, home())
	k.known = nil
	bld, err := newBuilder(k.home)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer bld.Close()
	k.b = bld
	world := rep.Spec.World
	if rep.Spec.Race {
		world += ":race"
	}
	if err := bld.Prepare(true); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if err := bld.Build(world); err != nil {
		if e := bld.Prepare(false); e != nil {
			fmt.Fprintln(os.Stderr, err, e)
			return 2
		}
		if e := bld.Build(world); e != nil {
			fmt.Fprintln(os.Stderr, err, e)
			return 2
		}
	}
	o := bld.exec(rep.Spec, true)
	for i := 0; i < 5 && rep.Spec.Race && k.same(o, rep.Violation.Kind) == nil; i++ {
		// The race detector does not keep every access.
		o = bld.exec(rep.Spec, true)
	}
	if o.Err != "" {
		fmt.Fprintln(os.Stderr, o.Err)
		return 2
	}
	for _, l := range o.Res.Log {
		fmt.Println("  " + l)
	}
	for _, v := range k.mine(o.Vs) {
		fmt.Printf("%s: %s: %s\n", rep.Property, v.Kind, v.Msg)
	}
	if v := k.same(o, rep.Violation.Kind); v != nil {
		abs, _ := filepath.Abs(file)
		if o.Res.LogHash == rep.LogHash {
			fmt.Println("the event log is identical to the recorded one")
		} else {
			fmt.Println("the event log differs from the recorded one (the program has changed)")
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", rep.Property, abs)
		return 1
	}
	fmt.Println("the violation does not occur")
	return 0
}

// determinism runs specifications twice, the second time under load.
func determinism(n int, seed uint64) int {
	bad := 0
	for _, p := range props {
		if only := os.Getenv("ONLY"); only != "" && only != p.id {
			continue
		}
		t0 := time.Now()
		k := newChecker(p, "quick", seed, home())
		if err := k.prepare(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		type pair struct {
			s    *plan.Spec
			a, b *Outcome
		}
		var ps []*pair
		for i := 0; i < n; i++ {
			ps = append(ps, &pair{s: k.spec(i%len(p.parts), i)})
		}
		pass := func(w int, f func(*pair)) {
			sem := make(chan bool, w)
			for _, x := range ps {
				x := x
				sem <- true
				go func() { f(x); <-sem }()
			}
			for i := 0; i < w; i++ {
				sem <- true
			}
		}
		pass(4, func(x *pair) { x.a = k.b.exec(x.s, true) })
		pass(16, func(x *pair) { x.b = k.b.exec(x.s, true) })
		d, errs, vs := 0, 0, 0
		for i, x := range ps {
			if x.a.Err != "" || x.b.Err != "" {
				errs++
				if errs <= 3 {
					fmt.Printf("%s run %d: %s %s\n", p.id, i, clip(x.a.Err, 1500), clip(x.b.Err, 300))
				}
				continue
			}
			for _, v := range k.mine(x.a.Vs) {
				vs++
				if vs <= 3 {
					fmt.Printf("%s run %d: VIOLATES %s %s\n", p.id, i, v.Kind, clip(v.Msg, 700))
				}
			}
			if x.a.Res.LogHash != x.b.Res.LogHash || x.a.Res.SchedHash != x.b.Res.SchedHash || x.a.Res.Steps != x.b.Res.Steps {
				d++
				if d <= 3 {
					fmt.Printf("%s run %d differs: log %s %s, schedule %s %s, steps %d %d\n", p.id, i, x.a.Res.LogHash, x.b.Res.LogHash, x.a.Res.SchedHash, x.b.Res.SchedHash, x.a.Res.Steps, x.b.Res.Steps)
					for q := range x.a.Res.Log {
						if q >= len(x.b.Res.Log) || x.a.Res.Log[q] != x.b.Res.Log[q] {
							o := ""
							if q < len(x.b.Res.Log) {
								o = x.b.Res.Log[q]
							}
							fmt.Printf("   line %d: %q | %q\n", q, x.a.Res.Log[q], o)
							break
						}
					}
				}
			}
		}
		k.b.Close()
		fmt.Printf("%s: %d runs twice, %d differ, %d errors, %d violations, %.1fs\n", p.id, n, d, errs, vs, time.Since(t0).Seconds())
		bad += d + errs
	}
	if bad > 0 {
		return 2
	}
	return 0
}
