// Package vsched is a cooperative scheduler that owns every scheduling decision of the code under test.
//
// The instrumenter (verif/instr) rewrites a scratch copy of /repo's packages so that every statement is
// preceded by P(id) and sync.Mutex/RWMutex/Once/WaitGroup/Cond, time.Now/Sleep/Since and go statements go
// through this package. One execution runs its threads strictly one at a time; at every point with more
// than one enabled thread a choice is taken from the prefix being replayed, or is 0 ("keep running the
// current thread; if it cannot run, the lowest enabled id"). Explore enumerates all executions whose number
// of preemptions (switching away from a thread that could have continued) is within the bound.
//
// Outside an execution (cur == nil) all primitives fall through to the real ones.
package vsched

import (
	"bytes"
	"fmt"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

type status int

const (
	ready status = iota
	blocked
	external // inside a channel operation or other wait the scheduler does not model
	finished
)

// Thread is one controlled thread of an execution.
type Thread struct {
	ID     int
	Name   string
	gate   gate
	fin    chan struct{}
	st     status
	waitOn func() bool
	why    string
	daemon bool
	visits map[int]int
	gid    int64
	panicV interface{}
	stack  string
	wake   int64
}

// ChoicePoint is one recorded scheduling decision.
type ChoicePoint struct {
	N       int  // enabled threads
	Cur     bool // the running thread was among them (as choice 0)
	Chosen  int
	Where   int // statement id, or negative for lock operations
	ThreadN int // id of the thread that was running
}

// Exec is one controlled execution.
type Exec struct {
	mu       sync.Mutex // guards st of external threads only
	threads  []*Thread
	run      *Thread
	prefix   []int
	Points   []ChoicePoint
	Steps    int
	done     chan struct{}
	over     bool
	aborting atomic.Bool
	Deadlock string
	Diverged string
	Crash    string // fatal runtime error equivalents: unlock of unlocked mutex, ...
	visitCap int
	clock    int64
	nExt     int
	atomic   int
}

var cur *Exec

const clockBase = int64(1700000000) * 1000000000

// freeClock is the virtual clock outside executions; nil means real time.
var freeClock *int64

// UseVirtualClock makes Now() deterministic outside executions too. It starts at the same base and
// advances by 1ns per call.
//
//go:noinline
func UseVirtualClock() { c := int64(0); freeClock = &c }

// Active reports whether a controlled execution is running.
//
//go:noinline
func Active() bool { return cur != nil }

// Clock returns the virtual clock (ns since base).
//
//go:noinline
func Clock() int64 {
	if cur != nil {
		return cur.clock
	}
	if freeClock != nil {
		return *freeClock
	}
	return 0
}

// Tick is how much the virtual clock advances at each reading.
var Tick int64 = 1

// Advance moves the virtual clock.
//
//go:noinline
func Advance(d time.Duration) {
	if cur != nil {
		cur.clock += int64(d)
		return
	}
	if freeClock != nil {
		*freeClock += int64(d)
	}
}

type abortSignal struct{}

// Body is one thread of a harness.
type Body struct {
	Name string
	F    func()
}

// Run executes the bodies under the given prefix and returns the finished execution.
//
//go:noinline
func Run(prefix []int, visitCap int, bodies []Body, final func()) *Exec {
	if cur != nil {
		panic("vsched: nested Run")
	}
	settleBackground()
	e := &Exec{prefix: prefix, done: make(chan struct{}), visitCap: visitCap}
	if freeClock != nil {
		e.clock = *freeClock
	}
	for _, b := range bodies {
		e.spawn(b.Name, b.F, false)
	}
	cur = e
	e.start()
	if e.Deadlock == "" && e.Crash == "" && e.Diverged == "" && e.firstPanic() == nil && final != nil {
		e.join()
		// the final observation runs as one more controlled thread, so that a lock left behind shows up as
		// a deadlock and not as a hang
		e.over = false
		e.done = make(chan struct{})
		e.spawn("final", final, false)
		e.start()
	}
	var parked []*Thread
	for _, t := range e.threads {
		if t.st != finished && t.st != external {
			parked = append(parked, t)
		}
	}
	e.abort()
	e.join()
	for _, t := range parked {
		<-t.fin
	}
	if freeClock != nil {
		*freeClock = e.clock
	}
	cur = nil
	return e
}

// join orders the caller after every finished thread.
func (e *Exec) join() {
	for _, t := range e.threads {
		if t.st == finished {
			<-t.fin
		}
	}
}

// RaceErrors is the number of data races reported so far in this process.
//
//go:noinline
func RaceErrors() int { return raceErrors() }

func (e *Exec) start() {
	e.run = nil
	e.next(nil, -1)
	t := time.NewTimer(60 * time.Second)
	select {
	case <-e.done:
		t.Stop()
	case <-t.C:
		e.Diverged = "stuck: a controlled thread did not come back within 60s of real time (unmodelled blocking operation?)"
		panic(e.Diverged)
	}
}

func (e *Exec) firstPanic() *Thread {
	for _, t := range e.threads {
		if t.panicV != nil {
			return t
		}
	}
	return nil
}

// Failure describes what went wrong in the execution itself, or "".
//
//go:noinline
func (e *Exec) Failure() string {
	if e.Crash != "" {
		return "fatal: " + e.Crash
	}
	if t := e.firstPanic(); t != nil {
		return fmt.Sprintf("panic in %s: %v\n%s", t.Name, t.panicV, t.stack)
	}
	if e.Deadlock != "" {
		return "deadlock: " + e.Deadlock
	}
	return ""
}

func (e *Exec) spawn(name string, f func(), daemon bool) *Thread {
	t := &Thread{ID: len(e.threads), Name: name, gate: newGate(), fin: make(chan struct{}), daemon: daemon, visits: map[int]int{}}
	e.threads = append(e.threads, t)
	go func() {
		defer close(t.fin)
		t.gid = goid()
		if !t.gate.recv() {
			t.st = finished
			return
		}
		normal := false
		defer func() {
			if !normal {
				if r := recover(); r != nil {
					if _, ok := r.(abortSignal); !ok && !e.aborting.Load() {
						buf := make([]byte, 4096)
						t.panicV, t.stack = r, string(buf[:runtime.Stack(buf, false)])
					}
				}
			}
			t.st = finished
			if e.aborting.Load() {
				return
			}
			if t.panicV != nil {
				// a panic in any thread ends the execution: report it
				e.finish()
				return
			}
			e.next(nil, -1)
		}()
		f()
		normal = true
	}()
	return t
}

func (e *Exec) finish() {
	if !e.over {
		e.over = true
		close(e.done)
	}
}

// abort releases all parked threads so that their goroutines end.
func (e *Exec) abort() {
	e.aborting.Store(true)
	for _, t := range e.threads {
		if t.st != finished && t.st != external {
			t.gate.send(false)
		}
	}
}

func (t *Thread) enabled() bool {
	switch t.st {
	case ready:
		return true
	case blocked:
		return t.waitOn()
	}
	return false
}

// next picks the thread to run. self is the calling thread if it is still alive (ready or blocked), nil if
// it has finished or is leaving for an external wait.
func (e *Exec) next(self *Thread, where int) {
	e.Steps++
	if e.atomic > 0 && self != nil && self.enabled() {
		self.st = ready
		e.run = self
		return
	}
	for {
		if e.nExt > 0 {
			e.settle()
		}
		var en []*Thread
		curEnabled := false
		if self != nil && self.enabled() {
			en = append(en, self)
			curEnabled = true
		}
		for _, t := range e.threads {
			if t != self && t.enabled() {
				en = append(en, t)
			}
		}
		if len(en) == 0 {
			// discrete-event time: if a live non-daemon thread sleeps, move the clock to the earliest wake-up
			if w, ok := e.earliestWake(); ok {
				e.clock = w
				continue
			}
			live := ""
			for _, t := range e.threads {
				if t.st != finished && !t.daemon {
					live += fmt.Sprintf("%s waits for %s; ", t.Name, t.why)
				}
			}
			if live != "" {
				e.Deadlock = live
			}
			e.finish()
			if self != nil {
				e.park(self)
			}
			return
		}
		// daemons alone do not keep an execution alive
		onlyDaemons := true
		for _, t := range e.threads {
			if t.st != finished && !t.daemon {
				onlyDaemons = false
			}
		}
		if onlyDaemons {
			alive := false
			for _, t := range en {
				if t.wake == 0 {
					alive = true // a spawned goroutine that can still run is run to its next wait
				}
			}
			if !alive {
				e.finish()
				if self != nil {
					e.park(self)
				}
				return
			}
		}
		c := 0
		if len(en) > 1 {
			i := len(e.Points)
			if i < len(e.prefix) {
				c = e.prefix[i]
				if c >= len(en) {
					e.Diverged = fmt.Sprintf("replay diverged at choice %d: %d of %d", i, c, len(en))
					e.finish()
					if self != nil {
						e.park(self)
					}
					return
				}
			}
			tn := -1
			if self != nil {
				tn = self.ID
			}
			e.Points = append(e.Points, ChoicePoint{N: len(en), Cur: curEnabled, Chosen: c, Where: where, ThreadN: tn})
		}
		t := en[c]
		t.st = ready
		e.run = t
		if t == self {
			return
		}
		t.gate.send(true)
		if self != nil {
			e.park(self)
		}
		return
	}
}

func (e *Exec) earliestWake() (int64, bool) {
	best, ok := int64(0), false
	for _, t := range e.threads {
		if t.st == blocked && t.wake > 0 && !t.daemon {
			if !ok || t.wake < best {
				best, ok = t.wake, true
			}
		}
	}
	return best, ok
}

func (e *Exec) park(t *Thread) {
	if !t.gate.recv() {
		panic(abortSignal{})
	}
}

func (e *Exec) me() *Thread { return e.run }

// Atomic runs f without giving way to other threads (unless f has to wait).
//
//go:noinline
func Atomic(f func()) {
	e := cur
	if e == nil {
		f()
		return
	}
	e.atomic++
	f()
	e.atomic--
}

// P is a scheduling point before a statement.
//
//go:noinline
func P(id int) {
	e := cur
	if e == nil || e.aborting.Load() {
		return
	}
	t := e.run
	if t == nil {
		return
	}
	if e.atomic > 0 {
		return
	}
	t.visits[id]++
	if t.visits[id] > e.visitCap {
		return
	}
	e.next(t, id)
}

// wait blocks the current thread until cond holds.
func wait(e *Exec, why string, cond func() bool) {
	t := e.me()
	for !cond() {
		t.st, t.waitOn, t.why = blocked, cond, why
		e.next(t, -2)
	}
	t.st = ready
}

// Go replaces go statements.
//
//go:noinline
func Go(f func()) {
	e := cur
	if e == nil {
		started := make(chan int64)
		go func() {
			started <- goid()
			f()
		}()
		background = append(background, <-started)
		return
	}
	if e.aborting.Load() {
		return
	}
	e.spawn(fmt.Sprintf("go%d", len(e.threads)), f, true)
	e.next(e.run, -3)
}

// background are the goroutines started outside executions since the last settling.
var background []int64

// settleBackground waits until they have ended or wait for something.
func settleBackground() {
	for i := 0; len(background) > 0 && i < 20000; i++ {
		buf := make([]byte, 16<<20)
		buf = buf[:runtime.Stack(buf, true)]
		busy := background[:0]
		for _, g := range background {
			if !stateBlocked(buf, g) && bytes.Contains(buf, []byte("goroutine "+strconv.FormatInt(g, 10)+" [")) {
				busy = append(busy, g)
			}
		}
		background = busy
		if len(busy) > 0 {
			time.Sleep(50 * time.Microsecond)
		}
	}
	background = nil
}

// BlockEnter is called before a statement with channel operations; BlockExit after it.
//
//go:noinline
func BlockEnter() {
	e := cur
	if e == nil || e.aborting.Load() {
		return
	}
	t := e.run
	if t == nil {
		return
	}
	e.mu.Lock()
	t.st = external
	t.why = "channel operation"
	e.nExt++
	e.mu.Unlock()
	// the caller goes on into its channel operation; somebody else decides who runs meanwhile
	go e.next(nil, -4)
}

// BlockExit ends an external wait.
//
//go:noinline
func BlockExit() {
	e := cur
	if e == nil {
		return
	}
	g := goid()
	for _, t := range e.threads {
		if t.gid == g {
			if e.aborting.Load() {
				panic(abortSignal{})
			}
			e.mu.Lock()
			was := t.st
			t.st = ready
			if was == external {
				e.nExt--
			}
			e.mu.Unlock()
			if was == external {
				e.park(t)
			}
			return
		}
	}
}

// settle waits until every external thread is either back at its gate or really blocked.
func (e *Exec) settle() {
	for i := 0; i < 20000; i++ {
		busy := false
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		e.mu.Lock()
		for _, t := range e.threads {
			if t.st == external && !stateBlocked(buf, t.gid) {
				busy = true
			}
		}
		e.mu.Unlock()
		if !busy {
			return
		}
		time.Sleep(50 * time.Microsecond)
	}
}

func stateBlocked(dump []byte, gid int64) bool {
	key := []byte("goroutine " + strconv.FormatInt(gid, 10) + " [")
	i := bytes.Index(dump, key)
	if i < 0 {
		return false
	}
	rest := dump[i+len(key):]
	for _, s := range []string{"chan receive", "chan send", "select", "sleep", "semacquire", "sync."} {
		if bytes.HasPrefix(rest, []byte(s)) {
			return true
		}
	}
	return false
}

func goid() int64 {
	// no conversions: the runtime would report them to the happens-before monitor
	var b [64]byte
	n := runtime.Stack(b[:], false)
	id := int64(0)
	for _, c := range b[len("goroutine "):n] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + int64(c-'0')
	}
	return id
}

// Now replaces time.Now.
//
//go:noinline
func Now() time.Time {
	if e := cur; e != nil {
		e.clock += Tick
		return time.Unix(0, clockBase+e.clock)
	}
	if freeClock != nil {
		*freeClock += Tick
		return time.Unix(0, clockBase+*freeClock)
	}
	return time.Now()
}

// Since replaces time.Since.
//
//go:noinline
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until replaces time.Until.
//
//go:noinline
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep replaces time.Sleep.
//
//go:noinline
func Sleep(d time.Duration) {
	e := cur
	if e == nil {
		if freeClock != nil {
			*freeClock += int64(d)
			return
		}
		time.Sleep(d)
		return
	}
	if e.aborting.Load() {
		panic(abortSignal{})
	}
	t := e.run
	t.wake = e.clock + int64(d)
	w := t.wake
	wait(e, "time", func() bool { return e.clock >= w })
	t.wake = 0
}

var stamp int64

// Stamp returns the next number of a global counter; it orders the events of a history. Unlike a shared
// variable of the harness it is invisible to the happens-before monitor.
//
//go:noinline
func Stamp() int64 { stamp++; return stamp }
