//go:build go1.24

// Package core is the deterministic simulator: it owns every scheduling
// decision, the clock, the event queue and every injected fault of a run.
//
// Real goroutines execute the code under test, but exactly one of them is ever
// running: all the others are parked on a private channel.  Every operation
// that another goroutine could observe (locks, channels, atomics, timers,
// network, files) first calls Yield, where the Chooser decides which goroutine
// goes on.  The package is compiled without race instrumentation and hides its
// hand-offs from the race detector, so that the happens-before edges the
// detector sees are exactly those of the simulated primitives.
package core

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"unsafe"
)

// ---------------------------------------------------------------- goroutines

type G struct {
	ID       int
	Name     string
	Group    *Group
	wake     chan struct{}
	done     chan struct{}
	runnable bool
	dead     bool
	dying    bool
	started  bool
	fn       func()
	why      string // what it is blocked on
	prio     int    // PCT priority
	tok      int64  // race token of the creation edge
	wsel     *waiter
	timedOut bool
	poll     func() bool
	NoStall  bool
	harness  bool
	unblock  int64 // step at which it became runnable
}

// Group is a set of goroutines that live and die together (a process).
type Group struct {
	Name   string
	Dead   bool
	onKill []func()
	endTok int64
}

type Violation struct {
	Kind   string // "crash", "race", "deadlock", "livelock", "property"
	Detail string
	Stack  string
}

var (
	cur       *G
	all       []*G // live goroutines of the run
	ready     []*G // runnable ones
	nextGID   int
	now       int64 // simulated monotonic nanoseconds
	wallOff   int64
	wallBase  int64
	events    evHeap
	evSeq     int64
	running   bool
	ending    bool
	vio       *Violation
	runnerG   *G
	steps     int64
	sinceTick int64
	loops     int64
	switches  int64
	hash      uint64
	stateHash uint64
	raceBase  int
	endTok    int64
	MaxSteps  int64 = 3_000_000
	MaxSpin   int64 = 400_000
	MaxLoops  int64 = 60_000_000
	pollers   []*G
	rootGroup *Group
	tracing   bool
	trace     []string
	spawnReq  func()
)

func tokp(p *int64) unsafe.Pointer { return unsafe.Pointer(p) }

var (
	trackAll bool
	allTok   int64
)

// TrackAll makes every switch between goroutines leave an edge that AcqAll
// takes up, so that the checker may look at the memory of stopped goroutines.
func TrackAll() { trackAll = true }

func AcqAll() {
	raceAcquire(tokp(&allTok))
	raceAcquire(tokp(&endTok))
}

// Acq and Rel expose race-detector edges to the sibling packages.
func Acq(p *int64)      { raceAcquire(unsafe.Pointer(p)) }
func Rel(p *int64)      { raceRelease(unsafe.Pointer(p)) }
func RelMerge(p *int64) { raceReleaseMerge(unsafe.Pointer(p)) }

// Now is the simulated monotonic clock in nanoseconds.
func Now() int64 { return now }

// WallNow is the simulated wall clock: it may jump.
func WallNow() (sec int64, nsec int64) {
	t := wallBase + now + wallOff
	return t / 1e9, t % 1e9
}

// JumpWall moves the wall clock (not the monotonic one).
func JumpWall(d int64) { wallOff += d; Note("clock", "wall clock jumps by %dms", d/1e6) }

func SetWallBase(sec int64) { wallBase = sec * 1e9 }

func Cur() *G { return cur }

// Dying reports whether the current goroutine is being torn down; every
// simulated operation is then a no-op.
func Dying() bool { return !running || cur == nil || cur.dying }

func mix(v uint64) {
	hash ^= v
	hash *= 1099511628211
	hash ^= hash >> 29
}

// Mark folds a value into the run's execution hash.
func Mark(v uint64) { mix(v) }

// Note adds a line to the trace (only when tracing) and to the hash.
func Note(kind string, format string, args ...any) {
	for i := 0; i < len(kind); i++ {
		mix(uint64(kind[i]))
	}
	mix(uint64(now))
	if tracing {
		id := "-"
		if cur != nil {
			id = fmt.Sprintf("g%d:%s", cur.ID, cur.Name)
		}
		if len(trace) < 6000 {
			trace = append(trace, fmt.Sprintf("%12.6fs %-22s %-8s %s", float64(now)/1e9, id, kind, fmt.Sprintf(format, args...)))
		}
	}
}

// Go starts a simulated goroutine in the current group.
func Go(fn func()) { goNamed("", cur.groupOf(), fn, false) }

func (g *G) groupOf() *Group {
	if g == nil {
		return rootGroup
	}
	return g.Group
}

// GoIn starts a goroutine in the given group.
func GoIn(gr *Group, name string, fn func()) *G { return goNamed(name, gr, fn, true) }

func goNamed(name string, gr *Group, fn func(), harness bool) *G {
	if Dying() || gr.Dead {
		return nil
	}
	nextGID++
	g := &G{ID: nextGID, Name: name, Group: gr, wake: make(chan struct{}, 1), done: make(chan struct{}), fn: fn, harness: harness}
	if name == "" {
		g.Name = "s"
	}
	g.prio = ch.newPrio()
	all = append(all, g)
	makeReady(g)
	raceRelease(tokp(&g.tok))
	go g.top()
	Note("go", "starts g%d %s", g.ID, name)
	if !harness {
		Yield("go")
	}
	return g
}

func (g *G) top() {
	raceDisable()
	<-g.wake
	raceEnable()
	defer g.finish()
	if g.dying {
		return
	}
	g.started = true
	raceAcquire(tokp(&g.tok))
	fn := g.fn
	g.fn = nil // what it refers to is not kept alive by the simulator
	fn()
}

// finish is the outermost deferred call of every simulated goroutine.
func (g *G) finish() {
	if r := recover(); r != nil && !g.dying {
		st := string(debug.Stack())
		setViolation("crash", fmt.Sprintf("panic escapes a goroutine (the process dies): %v", r), st)
	}
	raceReleaseMerge(tokp(&g.Group.endTok))
	raceReleaseMerge(tokp(&endTok))
	wasDying := g.dying
	g.dead = true
	remove(&all, g)
	if g.runnable {
		g.runnable = false
		remove(&ready, g)
	}
	if wasDying {
		raceDisable()
		close(g.done)
		raceEnable()
		return
	}
	Note("exit", "")
	next := pick(nil)
	cur = next
	raceDisable()
	next.wake <- struct{}{}
	raceEnable()
}

func remove(l *[]*G, g *G) {
	s := *l
	for i, x := range s {
		if x == g {
			for j := i + 1; j < len(s); j++ { // not copy: the runtime reports that to the race detector
				s[j-1] = s[j]
			}
			s[len(s)-1] = nil
			*l = s[:len(s)-1]
			return
		}
	}
}

func makeReady(g *G) {
	if g.dead || g.runnable {
		return
	}
	g.runnable = true
	g.why = ""
	g.unblock = steps
	ready = append(ready, g)
}

// Ready makes a parked goroutine runnable (used by the primitives).
func Ready(g *G) { makeReady(g) }

func setViolation(kind, detail, stack string) {
	if vio == nil {
		vio = &Violation{Kind: kind, Detail: detail, Stack: stack}
		Note("VIOLATION", "%s: %s", kind, detail)
	}
	ending = true
}

// Fail records a violation and ends the run; it does not return when called
// from a simulated goroutine.
func Fail(format string, args ...any) { failKind("property", format, args...) }

func failKind(kind, format string, args ...any) {
	if Dying() {
		return
	}
	setViolation(kind, fmt.Sprintf(format, args...), "")
	switchAway(cur)
}

// FailSoft records the violation without unwinding (usable from event code).
func FailSoft(format string, args ...any) {
	setViolation("property", fmt.Sprintf(format, args...), "")
}

func Failed() bool { return vio != nil }

// pick returns the goroutine to run next, running due events as needed.
// self is the goroutine giving up control if it is still runnable.
func pick(self *G) *G {
	for {
		if ending {
			return runnerG
		}
		if spawnReq != nil {
			return runnerG
		}
		if runtime_RaceErrors() != raceBase {
			raceBase = runtime_RaceErrors()
			setViolation("race", "data race: two goroutines access the same memory without synchronisation, at least one of them writing", "")
			return runnerG
		}
		if n := len(ready); n > 0 {
			steps++
			sinceTick++
			if steps > MaxSteps {
				setViolation("livelock", fmt.Sprintf("no end after %d scheduling steps", steps), dump())
				continue
			}
			if sinceTick > MaxSpin {
				setViolation("livelock", fmt.Sprintf("%d scheduling steps without simulated time advancing", sinceTick), dump())
				continue
			}
			if n == 1 {
				return ready[0]
			}
			return ch.schedule(self)
		}
		if len(events) == 0 {
			setViolation("deadlock", "nothing can run and nothing is scheduled", dump())
			continue
		}
		fireNext()
	}
}

func fireNext() {
	e := events.pop()
	if e.at > now {
		now = e.at
		sinceTick = 0
	}
	e.fired = true
	mix(uint64(now))
	e.fn()
}

func dump() string {
	s := ""
	for _, g := range all {
		if len(s) > 4000 {
			break
		}
		w := g.why
		if g.runnable {
			w = "runnable"
		}
		s += fmt.Sprintf("g%d %s [%s]; ", g.ID, g.Name, w)
	}
	return s
}

// switchAway gives up control; g is not runnable unless it is in ready.
func switchAway(g *G) {
	var self *G
	if g.runnable {
		self = g
	}
	next := pick(self)
	if next == g {
		return
	}
	switches++
	mix(uint64(next.ID))
	cur = next
	if trackAll {
		raceReleaseMerge(tokp(&allTok))
	}
	raceDisable()
	next.wake <- struct{}{}
	<-g.wake
	raceEnable()
	if g.dying {
		runtime.Goexit()
	}
}

// Yield is a preemption point before an operation others can observe.
func Yield(op string) {
	if Dying() {
		return
	}
	g := cur
	loops = 0
	if ending {
		switchAway(g)
		return
	}
	if ch.stallP > 0 && !g.NoStall && (!g.harness || g.Group != rootGroup) && (g.harness || !ch.stallOwn) {
		if d := ch.stall(); d > 0 {
			Note("stall", "goroutine stalls %dms before %s", d/1e6, op)
			Counts.add("goroutine stall")
			SleepFor(d)
		}
	}
	if len(ready) <= 1 && ready0(g) && runtime_RaceErrors() == raceBase && spawnReq == nil {
		steps++
		sinceTick++
		if steps > MaxSteps || sinceTick > MaxSpin {
			switchAway(g)
		}
		return
	}
	switchAway(g)
}

func ready0(g *G) bool { return len(ready) == 1 && ready[0] == g }

// Park blocks the current goroutine until someone calls Ready on it.
func Park(why string) {
	g := cur
	if Dying() {
		return
	}
	loops = 0
	g.runnable = false
	g.why = why
	remove(&ready, g)
	switchAway(g)
}

// Loop is called at the head of every loop body of the code under test.
func Loop() {
	loops++
	if loops > MaxLoops {
		loops = 0
		if cur != nil && cur.dying {
			panic("gosim: endless loop while unwinding")
		}
		failKind("livelock", "a loop spins without ever blocking")
	}
}

// ---------------------------------------------------------------- events

type Event struct {
	at    int64
	seq   int64
	fn    func()
	idx   int
	fired bool
	dead  bool
}

type evHeap []*Event

func (h evHeap) less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h evHeap) swap(i, j int) {
	h[i], h[j] = h[j], h[i]
	h[i].idx = i
	h[j].idx = j
}
func (h *evHeap) push(e *Event) {
	*h = append(*h, e)
	i := len(*h) - 1
	e.idx = i
	h.up(i)
}
func (h *evHeap) up(i int) {
	for i > 0 {
		p := (i - 1) / 2
		if !h.less(i, p) {
			break
		}
		h.swap(i, p)
		i = p
	}
}
func (h *evHeap) down(i int) {
	n := len(*h)
	for {
		l := 2*i + 1
		if l >= n {
			return
		}
		m := l
		if l+1 < n && h.less(l+1, l) {
			m = l + 1
		}
		if !h.less(m, i) {
			return
		}
		h.swap(i, m)
		i = m
	}
}
func (h *evHeap) pop() *Event {
	e := (*h)[0]
	h.remove(e)
	return e
}
func (h *evHeap) remove(e *Event) {
	i := e.idx
	n := len(*h) - 1
	if i != n {
		h.swap(i, n)
	}
	(*h)[n] = nil
	*h = (*h)[:n]
	if i < n {
		h.down(i)
		h.up(i)
	}
	e.idx = -1
}

// At schedules fn (which must not block) to run at simulated time now+d.
func At(d int64, fn func()) *Event {
	if d < 0 {
		d = 0
	}
	evSeq++
	e := &Event{at: now + d, seq: evSeq, fn: fn}
	events.push(e)
	return e
}

// Cancel removes a pending event; it reports whether it was still pending.
func Cancel(e *Event) bool {
	if e == nil || e.fired || e.dead {
		return false
	}
	e.dead = true
	events.remove(e)
	return true
}

// SleepFor blocks the current goroutine for d simulated nanoseconds.
func SleepFor(d int64) {
	if Dying() {
		return
	}
	g := cur
	At(d, func() { makeReady(g) })
	Park("sleep")
}

// WaitFor blocks until cond holds (evaluated at every Poke and once per
// scheduling change) or d passes; it returns the final value of cond.
func WaitFor(d int64, cond func() bool) bool {
	if Dying() {
		return false
	}
	if cond() {
		return true
	}
	g := cur
	g.poll = cond
	pollers = append(pollers, g)
	ev := At(d, func() {
		if g.poll != nil {
			g.poll = nil
			remove(&pollers, g)
			makeReady(g)
		}
	})
	Park("wait")
	if g.poll != nil {
		g.poll = nil
		remove(&pollers, g)
	}
	Cancel(ev)
	return cond()
}

// Poke re-evaluates the conditions of the goroutines in WaitFor.
func Poke() {
	for i := 0; i < len(pollers); {
		g := pollers[i]
		if g.poll != nil && g.poll() {
			g.poll = nil
			remove(&pollers, g)
			makeReady(g)
			continue
		}
		i++
	}
}

// ---------------------------------------------------------------- groups

func NewGroup(name string) *Group { return &Group{Name: name} }

func (gr *Group) OnKill(fn func()) { gr.onKill = append(gr.onKill, fn) }

// Kill ends every goroutine of the group at the point where it happens to be,
// as a process crash does.  It must not be called from inside the group.
func (gr *Group) Kill() {
	if Dying() {
		return
	}
	me := cur
	if me.Group == gr {
		panic("gosim: group kills itself")
	}
	gr.Dead = true
	for _, f := range gr.onKill {
		f()
	}
	gr.onKill = nil
	Note("crash", "process %s is killed", gr.Name)
	for {
		var v *G
		for _, g := range all {
			if g.Group == gr {
				v = g
				break
			}
		}
		if v == nil {
			break
		}
		unwind(v)
	}
	cur = me
	raceAcquire(tokp(&gr.endTok))
}

func unwind(g *G) {
	g.dying = true
	if g.poll != nil {
		g.poll = nil
		remove(&pollers, g)
	}
	cur = g
	raceDisable()
	g.wake <- struct{}{}
	<-g.done
	raceEnable()
}

// ---------------------------------------------------------------- runs

type Result struct {
	Violation *Violation
	Steps     int64
	Switches  int64
	SimTime   int64
	Hash      uint64
	State     uint64
	Trace     []string
	Choices   []Choice
	Counts    Counter
	Draws     [NStreams]uint32
	Gs        int
}

var resets []func()

// RegisterReset registers a function restoring package-level state.
func RegisterReset(f func()) { resets = append(resets, f) }

// ResetGlobals restores every package-level variable of the rewritten
// packages, as a process start does.
func ResetGlobals() {
	for _, f := range resets {
		f()
	}
}

var runHooks []func()

// OnRunStart registers a function that clears per-run state of a package.
func OnRunStart(f func()) { runHooks = append(runHooks, f) }

// Run executes main as the first simulated goroutine.
func Run(c *Chooser, doTrace bool, main func()) Result {
	ch = c
	cur = nil
	all = nil
	ready = nil
	nextGID = 0
	now = 0
	wallOff = 0
	trackAll = false
	wallBase = 1600000000 * 1e9
	events = nil
	evSeq = 0
	ending = false
	vio = nil
	steps, sinceTick, loops, switches = 0, 0, 0, 0
	hash = 14695981039346656037
	stateHash = 0
	pollers = nil
	tracing = doTrace
	trace = nil
	endTok = 0
	spawnReq = nil
	chans.reset()
	Counts = Counter{}
	rootGroup = NewGroup("root")
	raceBase = runtime_RaceErrors()
	ResetGlobals()
	for _, f := range runHooks {
		f()
	}
	runnerG = &G{ID: 0, Name: "runner", wake: make(chan struct{}, 1)}
	running = true
	cur = nil
	// the first goroutine
	g := &G{ID: 1, Name: "main", Group: rootGroup, wake: make(chan struct{}, 1), done: make(chan struct{}), harness: true}
	nextGID = 1
	g.fn = func() {
		main()
		ending = true
	}
	all = append(all, g)
	makeReady(g)
	go g.top()
	for !ending {
		if f := spawnReq; f != nil {
			spawnReq = nil
			cur = nil
			f()
			continue
		}
		next := pick(nil)
		if next == runnerG {
			continue
		}
		cur = next
		raceDisable()
		next.wake <- struct{}{}
		<-runnerG.wake
		raceEnable()
	}
	// tear down
	for len(all) > 0 {
		unwind(all[0])
	}
	cur = nil
	running = false
	raceAcquire(tokp(&endTok))
	r := Result{Violation: vio, Steps: steps, Switches: switches, SimTime: now, Hash: hash, State: stateHash, Trace: trace, Choices: c.Recorded(), Counts: Counts, Draws: c.pos, Gs: nextGID}
	if vio == nil && runtime_RaceErrors() != raceBase {
		r.Violation = &Violation{Kind: "race", Detail: "data race: two goroutines access the same memory without synchronisation, at least one of them writing"}
	}
	raceBase = runtime_RaceErrors()
	events = nil
	pollers = nil
	chans.reset()
	return r
}

// SpawnClean starts fn on a goroutine created by the runner, so that the race
// detector sees no edge from whichever goroutine happened to run the event.
func SpawnClean(name string, gr *Group, tok *int64, fn func()) {
	if gr.Dead {
		return
	}
	prev := spawnReq
	spawnReq = func() {
		if prev != nil {
			prev()
		}
		if gr.Dead {
			return
		}
		nextGID++
		g := &G{ID: nextGID, Name: name, Group: gr, wake: make(chan struct{}, 1), done: make(chan struct{})}
		g.fn = func() {
			if tok != nil {
				raceAcquire(tokp(tok))
			}
			fn()
		}
		g.prio = ch.newPrio()
		all = append(all, g)
		makeReady(g)
		go g.top()
	}
}

// Checkpoint lets harness code fold an abstract state into the state measure.
func State(v uint64) {
	stateHash ^= v
	stateHash *= 1099511628211
}

// ---------------------------------------------------------------- counters

type Counter struct {
	names []string
	n     []int64
}

func (c *Counter) add(k string) { c.Add(k, 1) }
func (c *Counter) Add(k string, d int64) {
	for i, x := range c.names {
		if x == k {
			c.n[i] += d
			return
		}
	}
	c.names = append(c.names, k)
	c.n = append(c.n, d)
}
func (c *Counter) Each(f func(k string, n int64)) {
	for i, x := range c.names {
		f(x, c.n[i])
	}
}
func (c *Counter) Get(k string) int64 {
	for i, x := range c.names {
		if x == k {
			return c.n[i]
		}
	}
	return 0
}

// Counts holds how often each fault kind (and probe) occurred in the run.
var Counts Counter

func Count(k string) { Counts.add(k) }

// CurGroup is the group of the running goroutine.
func CurGroup() *Group { return cur.groupOf() }

// Crash reports that the process under test would die here.
func Crash(msg string) { failKind("crash", "%s", msg) }

// NumGoroutine counts the live simulated goroutines.
func NumGoroutine() int { return len(all) }

// Hello does nothing.
func Hello() {}

// LiveIn counts the live goroutines of a group.
func LiveIn(gr *Group) int {
	n := 0
	for _, g := range all {
		if g.Group == gr {
			n++
		}
	}
	return n
}

// Dump describes the live goroutines.
func Dump() string { return dump() }

// Copied returns a copy of s without element skip (-1: all of them).  The
// builtin copy and append of pointer slices report their accesses to the race
// detector even from uninstrumented code; this loop does not.
func Copied[T any](s []T, skip int) []T {
	out := make([]T, 0, len(s)+1)
	for i := range s {
		if i != skip {
			out = append(out, s[i])
		}
	}
	return out
}
