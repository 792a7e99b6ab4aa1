// The dictionary world: the real loader and the real net/http client, a
// simulated service and network.
package w_dict

import (
	"fmt"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/eaburns/toaq/dict"

	"toaqsim/plan"
	"toaqsim/simnet"
	"toaqsim/simrt"
	"toaqsim/simsvc"
	"toaqsim/world"
)

func TestWorld(t *testing.T) { world.Main(t, run) }

type result struct {
	started, done bool
	ws            map[string]dict.Word
	err           error
	mutated       bool
	overlap       bool
	asked         bool // the service got its request
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "…"
	}
	return s
}

func run(w *world.W) {
	p := w.Spec.Dict
	res := make([]result, len(p.Loads))
	svc := &simsvc.Service{Fault: w.Fault}
	svc.Find = func(host, body string) (*plan.Reply, int) {
		// Loads may ask the same thing; then it is the one that is under way,
		// and if several are, their replies are alike.
		first := -1
		for k := range p.Loads {
			if p.Loads[k].Query != body || p.Loads[k].At() != host {
				continue
			}
			if res[k].started && !res[k].done && !res[k].asked {
				res[k].asked = true
				return &p.Loads[k].Reply, k
			}
			if first < 0 || res[k].started && !res[k].done {
				first = k
			}
		}
		if first >= 0 {
			return &p.Loads[first].Reply, first
		}
		w.Violate("query", fmt.Sprintf("the service got the query %q, which nobody asked", clip(body)), "C10", "C11")
		return &plan.Reply{Kind: "garbage"}, -1
	}
	svc.Refuse = func(host string) error {
		if strings.HasPrefix(host, "refuse") {
			w.Fault("dial-refused")
			return simnet.Fault("ECONNREFUSED")
		}
		return nil
	}
	tr := svc.Install()

	// once makes the loads and tells whether all returned.
	once := func() bool {
		ntask := 0
		for _, l := range p.Loads {
			if l.Task >= ntask {
				ntask = l.Task + 1
			}
		}
		for t := 0; t < ntask; t++ {
			t := t
			simrt.Spawn("caller"+strconv.Itoa(t), func() {
				for k := range p.Loads {
					l := &p.Loads[k]
					if l.Task != t {
						continue
					}
					host := l.At()
					if l.Reply.Fault == "refuse" {
						host = fmt.Sprintf("refuse%d.sim", k)
					}
					for o := range res {
						if o != k && res[o].started && !res[o].done {
							res[o].overlap, res[k].overlap = true, true
						}
					}
					res[k].started = true
					ws, err := dict.Load("http://"+host+"/api", l.Query)
					res[k].ws, res[k].err = ws, err
					res[k].done = true
					simrt.Log("load %d returned %d entries, error %v", k, len(ws), err != nil)
					check(w, k, l, &res[k], "")
					if l.Mutate && ws != nil {
						for h := range ws {
							ws[h] = dict.Word{Word: "✗", Def: "✗"}
						}
						ws["✗"] = dict.Word{}
						res[k].mutated = true
						w.Probe("result-mutated")
					}
					simrt.Y(-1)
				}
			})
		}
		all := func() bool {
			for k := range res {
				if !res[k].done {
					return false
				}
			}
			return true
		}
		var waited time.Duration
		last := -1
		simrt.Loop(svc.Env, all, func() time.Duration {
			n := len(svc.Requests)
			for k := range res {
				if res[k].done {
					n++
				}
			}
			for _, r := range svc.Requests {
				if r.Delivered() {
					n++
				}
			}
			if n != last {
				last, waited = n, 0
			}
			d := 50 * time.Millisecond
			if at := svc.NextAt(); at >= 0 {
				return at - simrt.SimTime()
			}
			if waited > 60*time.Second {
				return -1
			}
			if waited > time.Second {
				d = time.Second
			}
			waited += d
			return d
		})
		if simrt.Exited {
			w.Violate("panic", "loading crashed: "+clip(simrt.Crash), "C10")
			return false
		}
		if !all() {
			for k := range res {
				if res[k].started && !res[k].done {
					w.Violate("hang", fmt.Sprintf("load %d (reply %s, fault %q) has not returned although nothing more will arrive", k, p.Loads[k].Reply.Kind, p.Loads[k].Reply.Fault), "C10")
				}
			}
			return false
		}
		return true
	}
	if p.Rounds > 0 {
		us := []world.Usage{w.Held()}
		conns := []int{0}
		for n := 1; n <= p.Rounds; n++ {
			for k := range res {
				res[k] = result{}
			}
			if !once() {
				return
			}
			world.Settle(10 * time.Minute)
			us = append(us, w.Held())
			n, _ := svc.Open()
			conns = append(conns, n)
		}
		w.Leaks(us, conns)
		return
	}
	if !once() {
		return
	}
	// Earlier results did not change under later loads.
	for k := range res {
		if !res[k].mutated {
			check(w, k, &p.Loads[k], &res[k], " (looked at again at the end)")
		}
	}
	tr.CloseIdleConnections()
	if dt, ok := http.DefaultTransport.(*http.Transport); ok {
		dt.CloseIdleConnections()
	}
	world.Settle(time.Second)
	if n, who := svc.Open(); n > 0 {
		failed := false
		for _, k := range who {
			if k >= 0 && res[k].err != nil {
				failed = true
			}
		}
		if failed {
			w.Violate("leak", fmt.Sprintf("%d connections are still open after loads %v, of which some failed", n, who), "C10")
		} else {
			w.Probe("connection-left-open-by-success")
		}
	}
}

// check judges the result of one load.
func check(w *world.W, k int, l *plan.Load, r *result, when string) {
	w.Res.Checked++
	if r.overlap || l.Reply.Fault != "" || l.Reply.Kind != "ok" {
		w.Res.Nontrivial++
	}
	id := fmt.Sprintf("load %d (reply %s, fault %q)%s", k, l.Reply.Kind, l.Reply.Fault, when)
	good := l.Reply.Kind == "ok" && l.Reply.Fault == ""
	if !good {
		if r.err == nil {
			w.Violate("partial-success", fmt.Sprintf("%s: returned %d entries and no error", id, len(r.ws)), "C10")
		} else if len(r.ws) > 0 {
			w.Violate("entries-with-error", fmt.Sprintf("%s: returned an error and %d entries", id, len(r.ws)), "C10")
		}
		return
	}
	if r.err != nil {
		w.Violate("failed", fmt.Sprintf("%s: returned the error %v although the reply was complete and successful", id, r.err), "C11", "C10")
		return
	}
	want := map[string]dict.Word{}
	for _, e := range l.Reply.Entries {
		body, by, score := e.Fields()
		want[e.Key] = dict.Word{Word: e.Key, Def: body, By: by, Score: score}
	}
	var bad []string
	for h, x := range want {
		if g, ok := r.ws[h]; !ok {
			bad = append(bad, fmt.Sprintf("%q is missing", h))
		} else if g != x {
			bad = append(bad, fmt.Sprintf("%q is %+v, want %+v", h, g, x))
		}
	}
	for h := range r.ws {
		if _, ok := want[h]; !ok {
			bad = append(bad, fmt.Sprintf("%q is not in the reply", h))
		}
	}
	if len(bad) > 0 {
		sort.Strings(bad)
		props := []string{"C11"}
		if len(r.ws) < len(want) {
			props = append(props, "C10")
		}
		w.Violate("wrong-entries", fmt.Sprintf("%s: %d entries, want %d: %s", id, len(r.ws), len(want), clip(strings.Join(bad, "; "))), props...)
	}
}
