// Package simrt is the simulator's runtime: a seeded scheduler that owns
// every interleaving of the program under test.
//
// The instrumented program calls Y before each statement. Exactly one task
// (goroutine) holds the baton; every other one is parked in Y or blocked in a
// channel operation, a timer or (simulated) I/O. The scheduler goroutine runs
// inside a testing/synctest bubble, whose Wait tells it that everybody is at
// rest, and whose clock is the simulated clock.
package simrt

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash"
	"hash/fnv"
	"math/bits"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"testing/synctest"
	"time"
	"unsafe"

	"toaqsim/plan"
)

func getg() uintptr

var goidOff uintptr // offset of goid in the g structure, found at start-up

func goidSlow() uint64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	s := strings.TrimPrefix(string(b[:n]), "goroutine ")
	i := strings.IndexByte(s, ' ')
	id, _ := strconv.ParseUint(s[:i], 10, 64)
	return id
}

//go:norace
//go:nocheckptr
func goidAt(off uintptr) uint64 { return *(*uint64)(unsafe.Pointer(getg() + off)) }

//go:norace
//go:nocheckptr
func goid() uint64 { return *(*uint64)(unsafe.Pointer(getg() + goidOff)) }

func init() {
	cand := map[uintptr]bool{}
	first := true
	done := make(chan bool)
	for i := 0; i < 24; i++ {
		go func() {
			id := goidSlow()
			cur := map[uintptr]bool{}
			for off := uintptr(0); off < 400; off += 8 {
				if goidAt(off) == id {
					cur[off] = true
				}
			}
			if first {
				cand = cur
				first = false
			} else {
				for o := range cand {
					if !cur[o] {
						delete(cand, o)
					}
				}
			}
			done <- true
		}()
		<-done
	}
	if len(cand) != 1 {
		panic(fmt.Sprintf("simrt: cannot locate goid: %v", cand))
	}
	for o := range cand {
		goidOff = o
	}
}

// A Choice is something the scheduler can do next.
type Choice struct {
	ID  string
	Do  func() // an environment action; nil for a task
	tsk *task
}

type (
	Config    = plan.Config
	Preempt   = plan.Preempt
	PanicPlan = plan.PanicPlan
)

type task struct {
	id      int
	g       uint64
	ch      chan struct{}
	parked  bool // waiting for the baton
	spin    bool // parked because a lock was taken: only useful after progress
	spinSeq uint64
	spinN   int    // n when it last found the lock taken
	wasSpin bool   // granted the baton to look at the lock again
	grantAt uint64 // progress before that grant
	dead    bool
	env     bool
	n       int // local yields
	name    string
	scopes  []*scope
	lock    int // >0: preemption disabled (simulator code)
}

type scope struct {
	name string
	k, n int
	fire int // -1: none
	kind string
}

var (
	active   bool
	cfg      Config
	rng      Rand
	tasks    []*task
	cur      *task
	curG     uint64
	steps    uint64
	stopAt   uint64
	progress uint64 // number of baton grants
	scopeCnt = map[string]int{}

	preemptAt map[Preempt]bool // replay
	pickPos   int

	// Recorded decisions.
	RecPreempts []Preempt
	RecPicks    []string
	Switches    int
	HotSwitches int

	logh       hash.Hash64
	schedh     hash.Hash64
	logLines   []string
	KeepLog    bool
	Exited     bool
	ExitCode   int
	ExitTask   string
	Crash      string // unrecovered panic of a program goroutine
	CrashVal   string
	Injected   = map[string]int{}
	initGos    int64
	pendingGo  []func()
	started    time.Time
	onFatal    func(kind, msg string)
	yieldSites [1 << 13]uint64
)

//go:norace
func find(g uint64) *task {
	for i := len(tasks) - 1; i >= 0; i-- {
		if tasks[i].g == g {
			return tasks[i]
		}
	}
	return nil
}

// Rand is a small deterministic generator (splitmix64).
type Rand struct{ S uint64 }

//go:norace
func (r *Rand) Next() uint64 {
	r.S += 0x9e3779b97f4a7c15
	z := r.S
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

// Log appends to the event log, which is hashed.
//
//go:norace
func Log(format string, args ...interface{}) {
	raceOff()
	s := fmt.Sprintf(format, args...)
	if active {
		s = fmt.Sprintf("%v %s", time.Since(started), s)
	}
	if logh != nil {
		logh.Write([]byte(s))
		logh.Write([]byte{'\n'})
	}
	if KeepLog {
		logLines = append(logLines, s)
	}
	raceOn()
}

func LogLines() []string { return logLines }
func LogHash() uint64    { return logh.Sum64() }
func SchedHash() uint64  { return schedh.Sum64() }
func Steps() uint64      { return steps }
func Sites() int {
	n := 0
	for _, w := range yieldSites {
		n += bits.OnesCount64(w)
	}
	return n
}
func NTasks() int { return len(tasks) }
func SimTime() time.Duration {
	return time.Since(started)
}

// WorkTime is SimTime without the pauses of the program.
func WorkTime() time.Duration { return SimTime() - Paused }

var (
	pauses  []plan.Pause
	pausing time.Duration
	// Paused is how long the program stood still, Pauses how often.
	Paused time.Duration
	Pauses int
)

// Start initialises the runtime; it must be called inside the bubble, by the
// goroutine that will call Loop.
func Start(c Config, fatal func(kind, msg string)) {
	cfg = c
	pauses = c.Pauses
	rng = Rand{c.Seed ^ 0x5ca1ab1e}
	logh = fnv.New64a()
	schedh = fnv.New64a()
	started = time.Now()
	onFatal = fatal
	preemptAt = map[Preempt]bool{}
	for _, p := range c.Preempts {
		preemptAt[p] = true
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 400_000_000
	}
	// Goroutines started during package initialisation belong to the program.
	for i := 0; i < 1000 && atomic.LoadInt64(&initGos) > 0; i++ {
		runtime.Gosched()
	}
	for _, f := range onStart {
		f()
	}
	raceOff()
	active = true
	setStop()
	for _, f := range pendingGo {
		Spawn("init", f)
	}
	pendingGo = nil
}

//go:norace
func setStop() {
	setStopAt()
	if len(pauses) > 0 && stopAt > pauses[0].At {
		stopAt = pauses[0].At
	}
}

//go:norace
func setStopAt() {
	if cfg.Replay || cfg.MeanRun == 0 {
		stopAt = ^uint64(0)
		if cfg.Replay {
			stopAt = 0 // every yield is looked up
		}
		return
	}
	// Geometric-like: uniform in [1, 2*mean), mixed with occasional long runs.
	m := cfg.MeanRun
	if rng.Intn(8) == 0 {
		m *= 16
	} else if rng.Intn(4) == 0 {
		m = 1 + m/8
	}
	stopAt = steps + 1 + uint64(rng.Intn(2*m))
}

// Y is called before every statement of the program under test.
//
//go:norace
func Y(id int32) {
	if !active {
		return
	}
	if goid() == curG {
		// Only the one with the baton counts: a goroutine just woken comes
		// here at no fixed point of the other's work.
		steps++
		cur.n++
		if steps < stopAt && len(cur.scopes) == 0 && steps < cfg.MaxSteps {
			return
		}
	}
	slow(id, false)
}

// H is Y at a statement that touches shared state.
//
//go:norace
func H(id int32) {
	if !active {
		return
	}
	if goid() == curG {
		steps++
		cur.n++
	}
	slow(id, true)
}

//go:norace
func slow(id int32, hot bool) {
	raceOff()
	defer raceOn()
	g := goid()
	t := find(g)
	if killAt > 0 && steps >= killAt {
		killAt = 0
		cfg.MaxSteps = 1 << 40
		onKill()
		Exit(137)
	}
	if steps >= cfg.MaxSteps {
		onFatal("budget", fmt.Sprintf("no progress: the run took more than %d program steps; stack:\n%s", cfg.MaxSteps, debug.Stack()))
	}
	if t == nil {
		// A goroutine started by library code (net/http, a timer).
		t = newTask("ext")
		t.g = g
		park(t)
		afterGrant(t, id)
		return
	}
	if t.lock > 0 {
		return
	}
	if t != cur || g != curG {
		// Woken from a channel operation or a timer while somebody else has the baton.
		park(t)
		afterGrant(t, id)
		return
	}
	inject(t)
	pre := false
	if len(pauses) > 0 && steps >= pauses[0].At {
		pausing = time.Duration(pauses[0].MS) * time.Millisecond
		pauses = pauses[1:]
		park(t)
		afterGrant(t, id)
		return
	}
	if cfg.Replay {
		pre = preemptAt[Preempt{t.id, t.n}]
	} else {
		if steps >= stopAt {
			pre = true
		} else if hot && cfg.HotP > 0 && rng.Intn(cfg.HotP) == 0 {
			pre = true
			HotSwitches++
		}
	}
	if !pre {
		return
	}
	RecPreempts = append(RecPreempts, Preempt{t.id, t.n})
	yieldSites[(uint32(id)>>6)%(1<<13)] |= 1 << (uint32(id) & 63)
	park(t)
	afterGrant(t, id)
}

func afterGrant(t *task, id int32) { inject(t) }

func inject(t *task) {
	if len(t.scopes) == 0 {
		return
	}
	s := t.scopes[len(t.scopes)-1]
	s.n++
	if s.fire >= 0 && s.n > s.fire {
		s.fire = -1
		Injected["panic:"+s.kind]++
		Log("inject panic %s in %s entry %d", s.kind, s.name, s.k)
		raceOn()
		defer raceOff() // balance the caller's deferred raceOn
		doPanic(s.kind)
	}
}

type simErr struct{ code int }

func (e *simErr) Error() string { return fmt.Sprintf("injected failure %d", e.code) }

type simVal struct{ Code int }

func doPanic(kind string) {
	switch kind {
	case "string":
		panic("injected failure 7")
	case "error":
		panic(&simErr{7})
	case "struct":
		panic(simVal{7})
	case "int":
		panic(7)
	case "nilmap":
		var m map[string]int
		m["injected failure 7"] = 1
	case "index":
		a := []int{}
		i := 7
		_ = a[i]
	case "nilptr":
		var p *simVal
		p.Code = 7
	case "assert":
		var x interface{} = 7
		_ = x.(string)
	default:
		panic("injected failure 7 " + kind)
	}
}

// Scope marks the dynamic extent of a function in which panics can be injected.
//
//	defer simrt.Scope("interp")()
//
//go:norace
func Scope(name string) func() {
	if !active {
		return func() {}
	}
	raceOff()
	defer raceOn()
	t := find(goid())
	if t == nil || t != cur {
		return func() {}
	}
	scopeCnt[name]++
	k := scopeCnt[name]
	s := &scope{name: name, k: k, fire: -1}
	for _, p := range cfg.Panics {
		if p.Scope == name && p.K == k {
			s.fire = p.N
			s.kind = p.Kind
		}
	}
	if s.fire < 0 {
		return func() {}
	}
	t.scopes = append(t.scopes, s)
	return func() {
		raceOff()
		for i, x := range t.scopes {
			if x == s {
				t.scopes = t.scopes[:i]
			}
		}
		raceOn()
		if s.fire >= 0 {
			if r := recover(); r != nil {
				panic(r)
			}
			// The function was shorter than the planned point: fail at its end.
			s.fire = -1
			raceOff()
			Injected["panic:"+s.kind]++
			Log("inject panic %s at the end of %s entry %d", s.kind, s.name, s.k)
			raceOn()
			doPanic(s.kind)
		}
	}
}

// ScopeInjected reports how many scope entries happened.
func ScopeCount(name string) int { return scopeCnt[name] }

func newTask(name string) *task {
	t := &task{id: len(tasks), ch: make(chan struct{}, 1), name: name}
	tasks = append(tasks, t)
	return t
}

// park gives up the baton and waits for it. Called with race events off.
func park(t *task) {
	t.parked = true
	if cur == t {
		cur = nil
		curG = 0
	}
	<-t.ch
}

// Block parks the calling task until somebody else has made progress;
// used by the simulated locks.
//
//go:norace
func Block(what string) {
	if !active {
		runtime.Gosched()
		return
	}
	raceOff()
	defer raceOn()
	g := goid()
	t := find(g)
	if t == nil {
		t = newTask("ext")
		t.g = g
	}
	steps++
	if t.wasSpin && t.spinN == t.n {
		// It looked and did nothing: not progress, or spinners would keep
		// one another going for ever.
		progress = t.grantAt
	}
	t.spinN = t.n
	t.spin = true
	t.spinSeq = progress
	park(t)
}

// NoPreempt runs f without switching tasks at its yields.
func NoPreempt(f func()) {
	if !active {
		f()
		return
	}
	t := find(goid())
	if t == nil {
		f()
		return
	}
	t.lock++
	defer func() { t.lock-- }()
	f()
}

// Spawn starts a task running f.
func Spawn(name string, f func()) int {
	t := newTask(name)
	t.parked = true
	raceOn() // the task is ordered after everything the world has done
	go runTask(t, f)
	raceOff()
	return t.id
}

//go:norace
func runTask(t *task, f func()) {
	raceOff()
	t.g = goid()
	<-t.ch
	raceOn()
	defer func() {
		if t.dead {
			return
		}
		r := recover()
		raceOff()
		t.dead = true
		t.g = 0
		if cur == t {
			cur, curG = nil, 0
		}
		if r != nil && !Exited {
			Crash = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
			CrashVal = fmt.Sprint(r)
			Exited = true
			ExitCode = 2
			ExitTask = t.name
			Log("crash: task %d %s: %v", t.id, t.name, firstLine(CrashVal))
		}
		raceOn()
	}()
	f()
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// Exit is os.Exit for the program under test.
//
//go:norace
func Exit(code int) {
	if !active {
		os.Exit(code)
	}
	raceOff()
	if !Exited {
		Exited = true
		ExitCode = code
		if t := find(goid()); t != nil {
			ExitTask = t.name
		}
		Log("exit %d", code)
	}
	// The process is gone: nothing of it runs again.
	t := find(goid())
	if t != nil {
		t.dead = true
		if cur == t {
			cur, curG = nil, 0
		}
	}
	select {}
}

// W wraps the function of a go statement.
func W[F any](f F) F {
	v := reflect.ValueOf(f)
	ty := v.Type()
	if ty.Kind() != reflect.Func {
		return f
	}
	var t *task
	if active {
		raceOff()
		t = newTask("go")
		t.parked = true
		raceOn()
	} else {
		atomic.AddInt64(&initGos, 1)
	}
	w := reflect.MakeFunc(ty, func(args []reflect.Value) []reflect.Value {
		out := make([]reflect.Value, ty.NumOut())
		for i := range out {
			out[i] = reflect.Zero(ty.Out(i))
		}
		call := func() {
			if ty.IsVariadic() {
				v.CallSlice(args)
			} else {
				v.Call(args)
			}
		}
		if t == nil {
			pendingGo = append(pendingGo, call)
			atomic.AddInt64(&initGos, -1)
			return out
		}
		runTask(t, call)
		return out
	})
	return w.Interface().(F)
}

// Loop runs the world until stop returns true. env lists the environment
// actions enabled now; idle is called when there is nothing to do and
// returns how long to let the clock run, or a negative value to end.
func Loop(env func() []Choice, stop func() bool, idle func() time.Duration) {
	for {
		synctest.Wait()
		for released() {
			synctest.Wait()
		}
		if Exited || stop() {
			return
		}
		if d := pausing; d > 0 {
			// Whoever has work stays where it is; only timers fire.
			pausing = 0
			Paused += d
			Pauses++
			Log("the program stands still for %v", d)
			before := progress
			time.Sleep(d)
			progress = before + 1
			continue
		}
		var cs []Choice
		nt := 0
		var spinners []*task
		for _, t := range tasks {
			if t.dead || !t.parked {
				continue
			}
			if t.spin && t.spinSeq == progress {
				spinners = append(spinners, t)
				continue
			}
			cs = append(cs, Choice{ID: "t" + strconv.Itoa(t.id), tsk: t})
			nt++
		}
		es := env()
		if Exited {
			return
		}
		cs = append(cs, es...)
		if len(cs) == 0 {
			d := idle()
			if d < 0 {
				return
			}
			Log("idle %v", d)
			before := progress
			time.Sleep(d)
			progress = before + 1 // let spinners look again: a timer may have released the lock
			continue
		}
		c := pick(cs, nt)
		grant(c)
	}
}

// Rest waits until everybody is at rest; for the world, between two things
// that each wake somebody.
func Rest() { synctest.Wait() }

// AtRest registers a function called when everybody is at rest; it lets one
// thing go on and tells whether it did, so that library goroutines started
// together still reach the program one at a time.
func AtRest(f func() bool) { atRest = append(atRest, f) }

var atRest []func() bool

func released() bool {
	for i := 0; i < len(atRest); i++ {
		if atRest[i]() {
			return true
		}
	}
	return false
}

func pick(cs []Choice, nt int) Choice {
	if len(cs) == 1 {
		return cs[0]
	}
	var c Choice
	if cfg.Replay {
		c = cs[0]
		if pickPos < len(cfg.Picks) {
			want := cfg.Picks[pickPos]
			pickPos++
			for _, x := range cs {
				if x.ID == want {
					c = x
				}
			}
		}
	} else {
		switch ne := len(cs) - nt; {
		case ne > 0 && nt > 0:
			if rng.Intn(100) < cfg.EnvBias {
				c = cs[nt+rng.Intn(ne)]
			} else {
				c = cs[rng.Intn(nt)]
			}
		default:
			c = cs[rng.Intn(len(cs))]
		}
	}
	RecPicks = append(RecPicks, c.ID)
	return c
}

var lastTask = -1

func grant(c Choice) {
	before := progress
	progress++
	schedh.Write([]byte(c.ID))
	if c.Do != nil {
		Log("env %s", c.ID)
		c.Do()
		return
	}
	t := c.tsk
	if t.id != lastTask {
		Switches++
		lastTask = t.id
	}
	var b [12]byte
	binary.LittleEndian.PutUint64(b[:], uint64(t.n))
	schedh.Write(b[:])
	t.parked = false
	t.wasSpin, t.grantAt = t.spin, before
	t.spin = false
	cur = t
	setStop()
	if t.g == 0 {
		// A task that has not run yet registers itself.
		cur = t
	}
	curG = t.g
	t.ch <- struct{}{}
}

// Event records an event of the program under test in the log.
func Event(format string, args ...interface{}) { Log(format, args...) }

// IsTask reports whether the caller is a task, for simulated devices.
func IsTask() bool { return active && find(goid()) != nil }

// Stacks returns all goroutine stacks.
func Stacks() string {
	var b bytes.Buffer
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	b.Write(buf[:n])
	return b.String()
}

// Deactivate stops scheduling; used before the process ends.
func Deactivate() { active = false }

var (
	killAt uint64
	onKill func()
)

// KillAt ends the process abruptly when it has taken n steps.
func KillAt(n uint64, f func()) {
	killAt, onKill = n, f
	if cfg.MaxSteps > n {
		cfg.MaxSteps = n
	}
}

// Active reports whether the simulation runs.
func Active() bool { return active }

var onStart []func()

// OnStart registers a function to run inside the bubble before the program.
func OnStart(f func()) { onStart = append(onStart, f) }

// Published waits for a task's announcement and takes over what it made,
// in the eyes of the race detector too.
func Published(ch chan bool) {
	raceOn()
	<-ch
	raceOff()
}
