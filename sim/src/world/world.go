// Package world is the frame every simulated world runs in: it reads the
// specification, owns the bubble, and writes the result.
package world

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"toaqsim/plan"
	"toaqsim/simos"
	"toaqsim/simrt"
)

// W is a running world.
type W struct {
	Spec *plan.Spec
	Res  plan.Result
	t    *testing.T
	out  string
}

// Violate records a broken property.
func (w *W) Violate(kind, msg string, props ...string) {
	if len(msg) > 3000 {
		msg = msg[:3000]
	}
	for _, v := range w.Res.Violations {
		if v.Kind == kind && len(w.Res.Violations) > 20 {
			return
		}
	}
	if w.Spec.Prop == "C20" && w.Spec.Life > 0 {
		props = append(props, "C20")
	}
	w.Res.Violations = append(w.Res.Violations, plan.Violation{Props: props, Kind: kind, Msg: msg})
}

// Fault counts an injected fault.
func (w *W) Fault(k string) { w.Res.Faults[k]++ }

// Probe counts a rare condition reached.
func (w *W) Probe(k string) { w.Res.Probes[k]++ }

// Scratch is the world's directory.
var Scratch string

// Main runs one world; call it from the test.
func Main(t *testing.T, body func(w *W)) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	b, err := os.ReadFile(os.Getenv("VERIF_SPEC"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "world:", err)
		syscall.Exit(9)
	}
	w := &W{Spec: &plan.Spec{}, out: os.Getenv("VERIF_OUT"), t: t}
	if err := json.Unmarshal(b, w.Spec); err != nil {
		fmt.Fprintln(os.Stderr, "world:", err)
		syscall.Exit(9)
	}
	w.Res.Faults = map[string]int{}
	w.Res.Probes = map[string]int{}
	Scratch, _ = os.Getwd()
	if d := os.Getenv("VERIF_DIR"); d != "" {
		Scratch = d
		if err := os.Chdir(d); err != nil {
			fmt.Fprintln(os.Stderr, "world:", err)
			syscall.Exit(9)
		}
	}
	simos.Root = Scratch
	simrt.KeepLog = w.Spec.KeepLog
	if w.Spec.Mem {
		runtime.MemProfileRate = 1
		debug.SetGCPercent(-1)
	} else if w.Spec.Prop == "C21" {
		// A forgotten file must not be closed by the garbage collector.
		debug.SetGCPercent(-1)
		debug.SetMemoryLimit(1 << 30)
	}
	simos.Faults = w.Spec.FS
	synctest.Test(t, func(t *testing.T) {
		simrt.Start(w.Spec.Sched, func(kind, msg string) {
			w.Violate("hang", msg, w.Spec.Prop)
			w.finish()
		})
		if w.Spec.KillAt > 0 {
			simrt.KillAt(uint64(w.Spec.KillAt), func() { simos.Killed = true; w.Fault("kill-at-step") })
		}
		body(w)
		w.finish()
	})
}

func (w *W) finish() {
	simrt.Deactivate()
	w.Res.OK = true
	w.Res.LogHash = strconv.FormatUint(simrt.LogHash(), 16)
	w.Res.SchedHash = strconv.FormatUint(simrt.SchedHash(), 16)
	w.Res.Steps = simrt.Steps()
	w.Res.Switches = simrt.Switches
	w.Res.Hot = simrt.HotSwitches
	w.Res.Sites = simrt.Sites()
	w.Res.Tasks = simrt.NTasks()
	w.Res.SimMS = int64(simrt.SimTime() / time.Millisecond)
	w.Res.Preempts = simrt.RecPreempts
	w.Res.Picks = simrt.RecPicks
	w.Res.FSOps = simos.Ops
	for k, n := range simrt.Injected {
		w.Res.Faults[k] += n
	}
	if simrt.Pauses > 0 {
		w.Res.Faults["program-pause"] += simrt.Pauses
	}
	for k, n := range simos.Injected {
		w.Res.Faults[k] += n
	}
	if simrt.MapRanges > 0 {
		w.Res.Probes["map-range-ordered"] = simrt.MapRanges
	}
	w.Res.Log = simrt.LogLines()
	b, err := json.Marshal(&w.Res)
	if err == nil {
		err = os.WriteFile(w.out, b, 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "world:", err)
		syscall.Exit(9)
	}
	syscall.Exit(0)
}

// Settle runs the world with no environment actions until it is at rest for
// the given simulated time.
func Settle(d time.Duration) {
	var waited time.Duration
	simrt.Loop(func() []simrt.Choice { return nil }, func() bool { return false }, func() time.Duration {
		if waited >= d {
			return -1
		}
		s := d / 8
		if s <= 0 {
			s = 1
		}
		waited += s
		return s
	})
}

// Leaks judges what was held at the start and after each round.
func (w *W) Leaks(us []Usage, conns []int) {
	var gs, fs, ms []int
	for _, u := range us {
		gs = append(gs, u.Gos)
		fs = append(fs, u.Files)
		n := 0
		for _, k := range u.Mem {
			n += k
		}
		ms = append(ms, n)
	}
	w.Res.Checked++
	w.Res.Nontrivial++
	simrt.Log("goroutines %v connections %v", gs, conns)
	if Grows(gs) {
		w.Violate("goroutines", fmt.Sprintf("goroutines of the program before and after each round of the same work, at rest and with everybody gone: %v\n%s", gs, held()), "C21")
	}
	if Grows(fs) {
		w.Violate("files", fmt.Sprintf("open files before and after each round of the same work, at rest and with everybody gone: %v", fs), "C21")
	}
	if w.Spec.Mem {
		w.Probe("memory-measured")
	}
	if steady(ms) {
		w.Violate("memory", fmt.Sprintf("objects allocated by the program and still in use, before and after each round of the same work, at rest and with everybody gone: %v; most of them by %s", ms, growing(us)), "C21")
	}
	if Grows(conns) {
		w.Violate("connections", fmt.Sprintf("open connections before and after each round of the same work, at rest: %v", conns), "C21")
	}
}

// held shows one of the program's goroutines.
func held() string {
	gs := strings.Split(simrt.Stacks(), "\n\n")
	for i := len(gs) - 1; i >= 0; i-- {
		if strings.Contains(gs[i], "github.com/eaburns/toaq") {
			return gs[i]
		}
	}
	return ""
}

// Usage counts what the program holds.
type Usage struct {
	Gos, Files int
	Mem        map[string]int // objects in use by the function that made them
}

// Held counts the goroutines that run, or were started by, the program, and
// the open files of the process, or the objects in use. Call it when everybody
// is at rest.
func (w *W) Held() Usage {
	var u Usage
	for _, g := range strings.Split(simrt.Stacks(), "\n\n") {
		if strings.Contains(g, "github.com/eaburns/toaq") && !strings.Contains(g, "simrt.Exit(") {
			u.Gos++
		}
	}
	if w.Spec.Mem {
		// Files are not counted: collecting garbage closes forgotten ones.
		u.Mem = inUse()
		return u
	}
	if fs, err := os.ReadDir("/proc/self/fd"); err == nil {
		u.Files = len(fs)
	}
	return u
}

// inUse counts the objects in use that the program made, itself or through
// the libraries, but not those the simulator made on its behalf.
func inUse() map[string]int {
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	var rs []runtime.MemProfileRecord
	for n := 1000; ; n *= 2 {
		rs = make([]runtime.MemProfileRecord, n)
		k, ok := runtime.MemProfile(rs, false)
		if ok {
			rs = rs[:k]
			break
		}
	}
	m := map[string]int{}
	for i := range rs {
		if rs[i].InUseBytes() <= 16*rs[i].InUseObjects() {
			continue // many may share a block, and keep one another
		}
		fs := runtime.CallersFrames(rs[i].Stack())
		for {
			f, more := fs.Next()
			if f.Function == "toaqsim/simdiscord.give" {
				m["chat.Channel"] += int(rs[i].InUseObjects())
				break
			}
			if strings.HasPrefix(f.Function, "toaqsim/") || strings.HasPrefix(f.Function, "runtime.") && strings.HasSuffix(f.Function, "Cache") {
				break
			}
			if strings.HasPrefix(f.Function, "github.com/eaburns/toaq") {
				m[f.Function] += int(rs[i].InUseObjects())
				break
			}
			if !more {
				break
			}
		}
	}
	return m
}

// growing is the function whose objects have grown most.
func growing(us []Usage) string {
	best, at := 0, ""
	for f, n := range us[len(us)-1].Mem {
		if d := n - us[1].Mem[f]; d > best || d == best && d > 0 && f < at {
			best, at = d, f
		}
	}
	return at
}

// steady tells whether the numbers grow in every round, the first apart, and
// by more than what the runtime and the libraries may keep of their own.
func steady(us []int) bool {
	if len(us) < 6 || us[len(us)-1]-us[1] < 12 {
		return false
	}
	for i := 2; i < len(us); i++ {
		if us[i] <= us[i-1] {
			return false
		}
	}
	return true
}

// Grows tells whether what is held after each round grows with the rounds: in
// at least three of them, the first apart, and by at least three in all.
func Grows(us []int) bool {
	if len(us) < 4 {
		return false
	}
	n := 0
	for i := 2; i < len(us); i++ {
		if us[i] > us[i-1] {
			n++
		}
	}
	return n >= 3 && us[len(us)-1]-us[1] >= 3
}
