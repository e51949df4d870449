// Package vsched is the controlled scheduler every instrumented package runs under.
//
// Exactly one managed thread runs at a time. Every synchronisation operation, every I/O operation
// of the shimmed environment and every instrumented access to shared memory is a scheduling
// point; what happens next is decided by the explorer (see explore.go), never by the Go runtime.
package vsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
)

// Outcome of one execution.
type Outcome int

const (
	OK       Outcome = iota
	Crash            // uncaught panic in some thread: the host process would die
	Exit             // os.Exit / log.Fatal: the host process would die
	Deadlock         // main cannot continue and nothing can run
	Runaway          // step or loop budget exhausted
	Horizon          // virtual time limit reached
	Fatal            // unrecoverable Go runtime error (concurrent map access, unlock of unlocked mutex)
	Killed           // the harness ended the execution on purpose (simulated process death)
	Hang             // no scheduling point reached for a long time
)

func (o Outcome) String() string {
	return [...]string{"ok", "crash", "exit", "deadlock", "runaway", "horizon", "fatal", "killed", "hang"}[o]
}

const (
	stReady = iota
	stBlocked
	stSleeping
	stDone
)

// Th is a managed thread.
type Th struct {
	ID     int
	pos    int // in ths
	Name   string
	wake   chan struct{}
	state  int
	pred   func() bool
	wakeAt int64 // for sleepers, and the deadline of timed blocks (0: none)
	why    string
	killed bool
	daemon bool
	timed  bool // set when a timed block ended by its deadline
	last   int  // when it ran last or was created, in switches
}

// Config of one execution.
type Config struct {
	Pkgs      []string // package suffixes whose memory-access sites are scheduling points
	TimerDev  bool     // may a sleeper wake up early, relative to running threads (a slow runner)?
	Recent    bool     // when a thread stops, the one that ran most recently goes on (a preempted thread waits for all others) instead of the next in the ring
	MaxSteps  int
	MaxTicks  int
	HorizonNs int64
	MapOrder  bool // explore reversed map iteration orders
}

type choiceRec struct {
	n    uint16
	cost uint8
}

type dev struct {
	Pos int
	Val int
}

var (
	active   bool
	killing  bool
	cfg      Config
	cur      *Th
	ths      []*Th // in the order of their start
	nextID   int
	ended    int // of ths
	now      int64
	steps    int
	ticks    int
	explore  bool
	devs     []dev
	devIdx   int
	trace    []choiceRec
	ctl      chan Outcome
	exited   chan *Th
	outcome  Outcome
	outMsg   string
	progress int64
	log      []string
	logOn    bool
	diverged bool

	siteNames []string
	sitePkg   []int32
	pkgNames  []string
	siteOn    []bool

	resetHooks []func()
	// TotalSteps counts scheduling points over all executions of this process.
	TotalSteps int64
)

// Epoch is virtual time zero.
var Epoch = time.Date(2021, 3, 4, 5, 6, 7, 0, time.UTC)

// OnReset registers a function that clears shim state before each execution.
func OnReset(f func()) { resetHooks = append(resetHooks, f) }

// RegisterSites is called by generated code.
func RegisterSites(names []string) {
	siteNames = names
	siteOn = make([]bool, len(names))
}

func setSites(pkgs []string) {
	for i, n := range siteNames {
		on := false
		for _, p := range pkgs {
			if p == "*" || strings.HasPrefix(n, p+"/") && !strings.Contains(n[len(p)+1:], "/") {
				on = true
				break
			}
		}
		siteOn[i] = on
	}
}

// Active says whether a controlled execution is under way.
func Active() bool { return active && !killing }

// Now is the virtual clock.
func Now() int64 { return now }

// Advance moves the virtual clock (used by harnesses for elapsed time inside a transaction).
func Advance(d time.Duration) { now += int64(d) }

// Explore switches recording of choices on or off; while off every choice takes its default.
func Explore(on bool) { explore = on }

// Self is the running thread.
func Self() *Th { return cur }

// Steps so far in this execution.
func Steps() int { return steps }

// Logf adds to the execution's log (only kept on replay).
func Logf(f string, a ...interface{}) {
	if logOn {
		log = append(log, fmt.Sprintf("[%s t=%dms] ", thName(), now/1e6)+fmt.Sprintf(f, a...))
	}
}

// Quiet stops the log of this execution.
func Quiet() { logOn = false }

func thName() string {
	if cur == nil {
		return "-"
	}
	return fmt.Sprintf("T%d:%s", cur.ID, cur.Name)
}

func choose(n int, cost int) int {
	if n <= 1 || (!explore && cost > 0) {
		return 0
	}
	pos := len(trace)
	trace = append(trace, choiceRec{uint16(n), uint8(cost)})
	if devIdx < len(devs) && devs[devIdx].Pos == pos {
		v := devs[devIdx].Val
		devIdx++
		if v >= n {
			diverged = true
			return 0
		}
		return v
	}
	return 0
}

// Choose is a harness-level enumeration: all n alternatives are explored at no cost.
func Choose(n int, label string) int {
	if killing {
		return 0
	}
	v := choose(n, 0)
	if logOn {
		Logf("choose %s = %d of %d", label, v, n)
	}
	return v
}

// Fault is an environment deviation: alternatives other than 0 cost one deviation.
func Fault(n int, label string) int {
	if killing {
		return 0
	}
	v := choose(n, 1)
	if v != 0 {
		Logf("fault %s = %d", label, v)
	}
	return v
}

// Y is a scheduling point before an access to possibly shared memory.
func Y(site int) {
	if !active || killing || !siteOn[site] {
		return
	}
	point(site, "")
}

// V is Y between evaluating a right-hand side and storing it.
func V[T any](site int, v T) T {
	if active && !killing && siteOn[site] {
		point(site, "")
	}
	return v
}

// Add is a non-atomic read-modify-write.
func Add[T int | int8 | int16 | int32 | int64 | uint | uint8 | uint16 | uint32 | uint64 | uintptr | float32 | float64 | string](site int, p *T, d T) {
	t := *p
	if active && !killing && siteOn[site] {
		point(site, "")
	}
	*p = t + d
}

// Point is an unconditional scheduling point (synchronisation and I/O operations).
func Point(why string) {
	if !active {
		return
	}
	if killing {
		if !cur.killed {
			runtime.Goexit()
		}
		return
	}
	point(-1, why)
}

// Tick is called at the head of every loop iteration of instrumented code.
func Tick() {
	if !active || killing {
		return
	}
	ticks++
	if ticks > cfg.MaxTicks {
		finish(Runaway, "loop does not end: "+stackHere())
	}
}

// StackHere is a short stack of target frames.
func StackHere() string { return stackHere() }

func stackHere() string {
	s := string(debug.Stack())
	return trimStack(s)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	out := []string{}
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "goroutine ") {
			continue
		}
		if strings.Contains(l, "vshim/") || strings.HasPrefix(l, "runtime") || strings.HasPrefix(l, "panic(") {
			continue
		}
		loc := strings.TrimSpace(lines[i+1])
		if k := strings.LastIndex(loc, "/"); k >= 0 {
			loc = loc[k+1:]
		}
		if k := strings.Index(loc, " +0x"); k >= 0 {
			loc = loc[:k]
		}
		if k := strings.LastIndex(l, "("); k > 0 {
			l = l[:k]
		}
		if k := strings.LastIndex(l, "/"); k >= 0 {
			l = l[k+1:]
		}
		out = append(out, l+"@"+loc)
		if len(out) > 8 {
			break
		}
	}
	return strings.Join(out, " < ")
}

func point(site int, why string) {
	steps++
	TotalSteps++
	progress++
	if steps > cfg.MaxSteps {
		finish(Runaway, "step budget exhausted in "+thName())
	}
	if logOn {
		if site >= 0 {
			Logf("at %s", siteNames[site])
		} else {
			Logf("%s", why)
		}
	}
	schedule()
}

func enabled(t *Th) bool {
	switch t.state {
	case stReady:
		return true
	case stBlocked:
		if t.pred() {
			return true
		}
		if t.wakeAt != 0 && t.wakeAt <= now {
			return true
		}
	case stSleeping:
		return t.wakeAt <= now
	}
	return false
}

var candBuf []*Th
var switches int

// A scenario without limits still ends if its main thread waits for something that never comes.
const (
	patienceNs    = int64(24 * time.Hour)
	patienceSteps = 50000000
)

var (
	mainTh    *Th
	mainNow   int64 // time and steps when the main thread last ran
	mainSteps int
	movedStep int // steps when the time last moved
)

// schedule picks who runs next and hands over. Called by the current thread, which may be ready,
// blocked, sleeping or done.
func schedule() {
	me := cur
	if me == mainTh {
		mainNow, mainSteps = now, steps
	} else if steps-mainSteps > patienceSteps && steps-movedStep > patienceSteps {
		finish(Runaway, "no time passes in "+thName()+": "+describe())
	}
	cand := candBuf[:0]
	if me.state != stDone && enabled(me) {
		cand = append(cand, me)
	}
	n := len(ths)
	// without exploration the first candidate runs
	first := !explore
	for i := 1; i <= n && !(first && len(cand) > 0); i++ {
		t := ths[(me.pos+i)%n]
		if t == me || t.state == stDone {
			continue
		}
		if enabled(t) {
			cand = append(cand, t)
		}
	}
	var early *Th
	if len(cand) == 0 || cfg.TimerDev && explore {
		for _, t := range ths {
			if t.state == stDone || t.wakeAt == 0 || t.wakeAt <= now || t.state == stReady {
				continue
			}
			if early == nil || t.wakeAt < early.wakeAt {
				early = t
			}
		}
	}
	if len(cand) == 0 {
		if early == nil {
			finish(Deadlock, "no thread can run: "+describe())
		}
		if early.wakeAt > cfg.HorizonNs {
			finish(Horizon, "virtual time limit: "+describe())
		}
		if mainTh.state == stBlocked && mainTh.wakeAt == 0 && early.wakeAt-mainNow > patienceNs {
			finish(Horizon, "blocked for ever: "+describe())
		}
		now = early.wakeAt
		movedStep = steps
		for i := 0; i < n; i++ {
			t := ths[(me.pos+i)%n]
			if t.state != stDone && enabled(t) {
				cand = append(cand, t)
			}
		}
		early = nil
	}
	if early != nil && early.wakeAt <= cfg.HorizonNs {
		cand = append(cand, early)
	} else {
		early = nil
	}
	if cfg.Recent && explore && len(cand) > 1 && cand[0] != me {
		// insertion sort, stable: latest first
		m := len(cand)
		if early != nil {
			m--
		}
		for i := 1; i < m; i++ {
			for j := i; j > 0 && cand[j].last > cand[j-1].last; j-- {
				cand[j], cand[j-1] = cand[j-1], cand[j]
			}
		}
	}
	candBuf = cand[:0]
	k := choose(len(cand), 1)
	next := cand[k]
	if next == early && next.wakeAt > now {
		now = next.wakeAt
	}
	if next != me || me.state != stReady {
		if next.state == stBlocked {
			next.timed = !next.pred()
		}
		next.state = stReady
		next.pred = nil
		next.wakeAt = 0
	}
	if next == me {
		return
	}
	if logOn {
		Logf("-> T%d:%s", next.ID, next.Name)
	}
	switches++
	me.last = switches
	cur = next
	done := me.state == stDone
	next.wake <- struct{}{}
	if done {
		return
	}
	<-me.wake
	if killing {
		me.killed = true
		runtime.Goexit()
	}
}

func describe() string {
	var sb strings.Builder
	for _, t := range ths {
		if t.state == stDone {
			continue
		}
		fmt.Fprintf(&sb, "[T%d:%s %s %s]", t.ID, t.Name, [...]string{"ready", "blocked", "sleeping"}[t.state], t.why)
	}
	return sb.String()
}

// Block waits until pred holds.
func Block(why string, pred func() bool) {
	BlockUntil(why, pred, 0)
}

// BlockUntil waits until pred holds or the virtual deadline passes (0: never); true if it timed out.
func BlockUntil(why string, pred func() bool, deadline int64) bool {
	if !active {
		return false
	}
	if killing {
		if !cur.killed {
			cur.killed = true
			runtime.Goexit()
		}
		return false
	}
	me := cur
	me.state = stBlocked
	me.pred = pred
	me.wakeAt = deadline
	me.why = why
	me.timed = false
	steps++
	TotalSteps++
	progress++
	if steps > cfg.MaxSteps {
		finish(Runaway, "step budget exhausted in "+thName())
	}
	if logOn {
		Logf("%s", why)
	}
	schedule()
	return me.timed
}

// Sleep in virtual time.
func Sleep(ns int64) {
	if !active || killing {
		if active && !cur.killed {
			cur.killed = true
			runtime.Goexit()
		}
		return
	}
	if ns <= 0 {
		Point("sleep 0")
		return
	}
	me := cur
	me.state = stSleeping
	me.wakeAt = now + ns
	me.why = "sleep"
	steps++
	TotalSteps++
	progress++
	if steps > cfg.MaxSteps {
		finish(Runaway, "step budget exhausted in "+thName())
	}
	if logOn {
		Logf("sleep %dms", ns/1e6)
	}
	schedule()
}

// Go starts a managed thread.
func Go(name string, f func()) *Th {
	if !active {
		return nil
	}
	if killing {
		return nil
	}
	compact()
	if len(ths)-ended > 6000 && cfg.MaxSteps < 1<<40 {
		finish(Runaway, "goroutines pile up, the last one: "+name)
	}
	t := &Th{ID: nextID, pos: len(ths), Name: name, wake: make(chan struct{}, 1), state: stReady}
	nextID++
	switches++
	t.last = switches
	ths = append(ths, t)
	go t.body(f)
	Point("go " + name)
	return t
}

// Rank makes the first thread the most recent one.
func Rank(l ...*Th) {
	for i := len(l) - 1; i >= 0; i-- {
		if l[i] != nil {
			switches++
			l[i].last = switches
		}
	}
}

// compact forgets ended threads, so that long executions that start many do not slow down.
func compact() {
	if ended < 64 || ended*2 < len(ths) {
		return
	}
	forget()
}

func forget() {
	live := ths[:0]
	for _, t := range ths {
		if t.state != stDone {
			t.pos = len(live)
			live = append(live, t)
		}
	}
	for i := len(live); i < len(ths); i++ {
		ths[i] = nil
	}
	ths, ended = live, 0
}

func (t *Th) body(f func()) {
	defer func() {
		if r := recover(); r != nil {
			msg := fmt.Sprintf("%v", r)
			if !killing {
				st := trimStack(string(debug.Stack()))
				t.state = stReady
				cur = t
				outcome, outMsg = Crash, "uncaught panic in "+t.Name+": "+msg+" at "+st
				ctl <- Crash
				<-t.wake
			}
			t.state = stDone
			exited <- t
			return
		}
		t.state = stDone
		ended++
		if killing {
			exited <- t
			return
		}
		if t.ID == 0 {
			outcome = OK
			ctl <- OK
			return
		}
		// ended normally, or by runtime.Goexit in the target
		schedule()
	}()
	<-t.wake
	if killing {
		t.killed = true
		return
	}
	f()
}

// finish ends the execution from the running thread and never returns.
func finish(o Outcome, msg string) {
	outcome, outMsg = o, msg
	me := cur
	dead := me.state == stDone
	ctl <- o
	if dead {
		runtime.Goexit() // called from schedule() of a finished thread
	}
	<-me.wake
	me.killed = true
	runtime.Goexit()
}

// Finish ends the execution with the given outcome (used by shims for exit, fatal errors, crashes).
func Finish(o Outcome, msg string) {
	if !active || killing {
		return
	}
	finish(o, msg)
}

// Done says whether a thread has ended.
func (t *Th) Done() bool { return t == nil || t.state == stDone }

// Join waits for a thread.
func Join(ts ...*Th) {
	for _, t := range ts {
		t := t
		if t == nil || t.state == stDone {
			continue
		}
		Block("join "+t.Name, func() bool { return t.state == stDone })
	}
}

// Threads alive, by name prefix.
func Alive(prefix string) int {
	n := 0
	for _, t := range ths {
		if t.state != stDone && strings.HasPrefix(t.Name, prefix) {
			n++
		}
	}
	return n
}

// NumAlive threads.
func NumAlive() int {
	n := 0
	for _, t := range ths {
		if t.state != stDone {
			n++
		}
	}
	return n
}

// Settle lets every other thread run until all of them are asleep or blocked.
func Settle() {
	me := cur
	Block("settle", func() bool {
		for _, t := range ths {
			if t == me || t.state == stDone || t.why == "settle" && t.state == stBlocked {
				continue
			}
			if enabledNoSettle(t) {
				return false
			}
		}
		return true
	})
}

func enabledNoSettle(t *Th) bool { return enabled(t) }

// Result of one execution.
type Result struct {
	Outcome  Outcome
	Msg      string
	Steps    int
	Choices  int
	Log      []string
	Diverged bool
	trace    []choiceRec
}

// RunOne executes body once along the given deviations.
func RunOne(c Config, ds []dev, withLog bool, body func()) *Result {
	if c.MaxSteps == 0 {
		c.MaxSteps = 200000
	}
	if c.MaxTicks == 0 {
		c.MaxTicks = 20000000
	}
	if c.MaxTicks > 1<<33 {
		c.MaxTicks = 1 << 33 // some 10 s
	}
	if c.HorizonNs == 0 {
		c.HorizonNs = int64(48 * time.Hour)
	}
	cfg = c
	setSitesCached(c.Pkgs)
	now, steps, ticks = 0, 0, 0
	explore = false
	devs, devIdx = ds, 0
	trace = trace[:0]
	ths = ths[:0]
	nextID, ended = 1, 0
	log = nil
	logOn = withLog
	diverged = false
	outcome, outMsg = OK, ""
	ctl = make(chan Outcome, 4)
	exited = make(chan *Th, 4)
	resetChans()
	for _, h := range resetHooks {
		h()
	}
	active, killing = true, false
	main := &Th{ID: 0, Name: "main", wake: make(chan struct{}, 1), state: stReady}
	ths = append(ths, main)
	cur, mainTh = main, main
	mainNow, mainSteps, movedStep = 0, 0, 0
	go main.body(body)
	main.wake <- struct{}{}
	last := progress
	lastTicks := 0
	stuck := 0
	for waiting := true; waiting; {
		select {
		case <-ctl:
			waiting = false
		case <-hangTimer(time.Second):
			if progress == last && ticks == lastTicks {
				stuck++
				if stuck >= 20 {
					buf := make([]byte, 1<<16)
					k := runtime.Stack(buf, true)
					return &Result{Outcome: Hang, Msg: "no scheduling point reached for 20 s in " + thName() + "\n" + string(buf[:k])}
				}
			} else {
				stuck = 0
			}
			last = progress
			lastTicks = ticks
		}
	}
	res := &Result{Outcome: outcome, Msg: outMsg, Steps: steps, Choices: len(trace), Log: log, Diverged: diverged || devIdx < len(devs)}
	res.trace = trace
	killing = true
	for i := 0; i < len(ths); i++ {
		t := ths[i]
		if t.state == stDone {
			continue
		}
		cur = t
		t.wake <- struct{}{}
		<-exited
	}
	active = false
	killing = false
	return res
}

var hangT *time.Timer

func hangTimer(d time.Duration) <-chan time.Time {
	if hangT == nil {
		hangT = time.NewTimer(d)
	} else {
		hangT.Reset(d)
	}
	return hangT.C
}

var lastPkgs = "\x00"

func setSitesCached(p []string) {
	k := strings.Join(p, ",")
	if k != lastPkgs {
		setSites(p)
		lastPkgs = k
	}
}

// GoValue is used for "go f(args)": the results of f are dropped.
func RunCall(f func()) { f() }
