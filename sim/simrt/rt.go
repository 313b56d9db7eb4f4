// Package simrt is the deterministic simulator runtime: the cooperative scheduler that decides every
// interleaving of caller threads, the seeded pseudo-random generator, and the iteration order of maps.
//
// All simulated threads are goroutines of which exactly one runs at a time; control changes hands only
// inside Y, W, Park or when a thread ends. The handoff happens with the race detector's
// synchronisation tracking off, so that in a -race build the detector sees only the
// synchronisation the system under test performs itself.
package simrt

import "fmt"

// Rand is splitmix64: tiny, seedable, identical everywhere.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed} }

//go:norace
func (r *Rand) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

//go:norace
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

//go:norace
func (r *Rand) Bool(percent int) bool { return int(r.U64()%100) < percent }

func (r *Rand) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }
func (r *Rand) Fork() *Rand          { return &Rand{r.U64()} }
func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Mix derives an independent seed.
func Mix(a, b uint64) uint64 {
	r := Rand{a ^ (b+0x632BE59BD9B4E019)*0xD6E8FEB86659FD93}
	r.U64()
	return r.U64()
}

const (
	maxThreads  = 16
	maxSwitches = 1 << 16
)

// Switch is one recorded scheduling decision: at scheduling point Step, thread To got control.
type Switch struct {
	Step uint64
	To   int
}

// Hang is the panic value that unwinds a thread of a run which exceeded its step bound.
type Hang struct{ Steps uint64 }

func (h Hang) Error() string { return fmt.Sprintf("no progress: %d scheduling points passed", h.Steps) }

// Deadlock is the panic value when all threads wait for each other.
type Deadlock struct{}

func (Deadlock) Error() string { return "all threads are blocked" }

type thread struct {
	id   int
	wake chan struct{}
	done bool
	fn   func()
	pan  interface{}
	pst  []byte
}

var (
	steps     uint64 // scheduling points passed in this run
	nextEvent uint64 // the step at which slow() has to run
	limit     uint64 // step bound of the run
	active    bool   // threads are running

	threads    [maxThreads]*thread
	nThreads   int
	cur        int
	rng        Rand
	mean       int
	wbias      int
	replay     bool
	plan       []Switch
	planPos    int
	trace      [maxSwitches]Switch
	nTrace     int
	lastSwitch uint64
	parks      int
	quiet      bool
	endWake    chan struct{}
	schedHash  uint64

	spawned int // threads created by the system under test
)

const never = ^uint64(0)

// Reset prepares a run: the step counter restarts and the step bound applies to everything after it.
//
//go:norace
func Reset(stepLimit uint64) {
	steps, nextEvent, limit = 0, stepLimit, stepLimit
	active = false
	nThreads = 0
	nTrace = 0
	quiet = false
	schedHash = 0
	spawned = 0
}

// Steps returns the number of scheduling points passed since Reset.
//
//go:norace
func Steps() uint64 { return steps }

// Y is the scheduling point the instrumenter puts in front of every statement.
//
//go:norace
func Y(site int) {
	steps++
	if steps < nextEvent {
		return
	}
	slow(false)
}

// W is Y in front of a statement that writes to memory other threads may see.
//
//go:norace
func W(site int) {
	steps++
	if steps < nextEvent && (wbias == 0 || !active || replay) {
		return
	}
	slow(true)
}

//go:norace
func slow(write bool) {
	if steps >= limit {
		if quiet {
			nextEvent = never
			return
		}
		n := steps
		limit += limit/4 + 1000 // let deferred functions finish
		nextEvent = limit
		panic(Hang{n})
	}
	if !active {
		nextEvent = limit
		return
	}
	if replay {
		for planPos < len(plan) && plan[planPos].Step < steps {
			planPos++
		}
		if planPos < len(plan) && plan[planPos].Step == steps {
			to := plan[planPos].To
			planPos++
			setNext()
			if to < nThreads && !threads[to].done && to != cur {
				switchTo(to)
			}
			return
		}
		if steps-lastSwitch > fairness { // a spinning thread must not starve the others
			if to := otherThread(0); to >= 0 {
				switchTo(to)
			}
		}
		setNext()
		return
	}
	due := steps >= nextEvent
	if !due && write {
		if int(rng.U64()&1023) >= wbias {
			return
		}
		due = true
	}
	if due {
		if to := otherThread(rng.U64()); to >= 0 {
			setNext()
			switchTo(to)
			return
		}
	}
	setNext()
}

const fairness = 4 << 20

//go:norace
func setNext() {
	if replay {
		nextEvent = steps + fairness
		if planPos < len(plan) && plan[planPos].Step < nextEvent {
			nextEvent = plan[planPos].Step
		}
	} else {
		// geometric-like gaps: a random fraction of a random multiple of the mean
		g := uint64(mean)
		r := rng.U64()
		nextEvent = steps + 1 + r%(2*g+1)
	}
	if nextEvent > limit {
		nextEvent = limit
	}
}

//go:norace
func otherThread(r uint64) int {
	n := 0
	for i := 0; i < nThreads; i++ {
		if i != cur && !threads[i].done {
			n++
		}
	}
	if n == 0 {
		return -1
	}
	k := int(r % uint64(n))
	for i := 0; i < nThreads; i++ {
		if i != cur && !threads[i].done {
			if k == 0 {
				return i
			}
			k--
		}
	}
	return -1
}

//go:norace
func record(to int) {
	if nTrace < maxSwitches {
		trace[nTrace] = Switch{steps, to}
		nTrace++
	}
	schedHash = (schedHash^steps)*0x100000001b3 ^ uint64(to)
	lastSwitch = steps
}

//go:norace
func switchTo(to int) {
	record(to)
	me := threads[cur]
	untouch()
	cur = to
	next := threads[to]
	raceOff()
	next.wake <- struct{}{}
	<-me.wake
	raceOn()
}

// Park gives up control because the calling thread cannot proceed (a lock is taken, a channel is
// empty). The caller retries when it gets control again.
//
//go:norace
func Park() {
	if !active {
		panic(Deadlock{})
	}
	steps++
	parks++
	if parks > 20000 {
		parks = 0
		panic(Deadlock{})
	}
	to := -1
	if replay {
		if planPos < len(plan) && plan[planPos].Step == steps {
			if t := plan[planPos].To; t < nThreads && !threads[t].done && t != cur {
				to = t
			}
			planPos++
		}
		if to < 0 {
			to = otherThread(steps)
		}
	} else {
		to = otherThread(rng.U64())
	}
	if to < 0 {
		panic(Deadlock{})
	}
	setNext()
	switchTo(to)
}

// Progress tells the deadlock detector that something was achieved.
//
//go:norace
func Progress() { parks = 0 }

// Go starts a thread on behalf of the system under test.
//
//go:norace
func Go(f func()) {
	if !active {
		// code that spawns outside a threaded run: run the spawner as thread 0 is not possible any
		// more, so queue the function and let RunThreads-less callers run it when they block
		panic("simrt: go statement outside of a simulated thread group")
	}
	if nThreads == maxThreads {
		// out of slots: reuse a finished one
		for i := 0; i < nThreads; i++ {
			if threads[i].done && i != cur {
				startThread(i, f)
				return
			}
		}
		f() // a legal schedule: the new goroutine runs to completion at once
		return
	}
	nThreads++
	startThread(nThreads-1, f)
}

//go:norace
func startThread(i int, f func()) {
	spawned++
	t := &thread{id: i, wake: make(chan struct{}), fn: f}
	threads[i] = t
	go threadMain(t)
}

//go:norace
func threadMain(t *thread) {
	raceOff()
	<-t.wake
	raceOn()
	runThread(t)
	t.done = true
	parks = 0
	// hand control to another thread, or end the run
	to := -1
	if replay {
		if planPos < len(plan) && plan[planPos].Step <= steps+1 && plan[planPos].Step >= steps {
			if x := plan[planPos].To; x < nThreads && !threads[x].done {
				to = x
				planPos++
			}
		}
		if to < 0 {
			to = otherThread(0)
		}
	} else {
		to = otherThread(rng.U64())
	}
	if to < 0 {
		active = false
		endWake <- struct{}{} // with synchronisation: the driver may look at the results
		return
	}
	steps++
	record(to)
	cur = to
	setNext()
	next := threads[to]
	untouch()
	release()
	raceOff()
	next.wake <- struct{}{}
	raceOn()
}

func runThread(t *thread) {
	defer func() {
		if r := recover(); r != nil {
			t.pan = r
			t.pst = stack()
		}
	}()
	t.fn()
}

// Sched configures the interleaving of one thread group.
type Sched struct {
	Seed  uint64
	Mean  int      // mean number of scheduling points between switches
	WBias int      // chance in 1024 to switch right before a shared write
	Fixed bool     // replay List instead of drawing switches
	List  []Switch `json:",omitempty"`
}

// Panic describes the uncaught panic of a thread.
type Panic struct {
	Value interface{}
	Stack []byte
}

// RunThreads runs the functions as concurrent simulated threads and returns their panics (nil entries
// for threads that ended normally) once all of them, and all threads they spawned, have ended.
func RunThreads(s Sched, fns []func()) []*Panic {
	start(s, fns)
	<-endWake
	acquire()
	res := make([]*Panic, nThreads)
	for i := 0; i < nThreads; i++ {
		if threads[i].pan != nil {
			res[i] = &Panic{threads[i].pan, threads[i].pst}
		}
		threads[i] = nil
	}
	nThreads = 0
	return res
}

//go:norace
func start(s Sched, fns []func()) {
	if len(fns) > maxThreads-2 {
		panic("simrt: too many threads")
	}
	nThreads = len(fns)
	rng = Rand{s.Seed}
	mean, wbias = s.Mean, s.WBias
	if mean < 1 {
		mean = 1
	}
	replay, plan, planPos = s.Fixed, s.List, 0
	lastSwitch = steps
	parks = 0
	nTrace = 0
	if endWake == nil {
		endWake = make(chan struct{})
	}
	for i, f := range fns {
		t := &thread{id: i, wake: make(chan struct{}), fn: f}
		threads[i] = t
		go threadMain(t)
	}
	active = true
	first := 0
	if replay {
		if planPos < len(plan) && plan[planPos].Step <= steps+1 {
			if plan[planPos].To < nThreads {
				first = plan[planPos].To
			}
			planPos++
		}
	} else {
		first = rng.Intn(nThreads)
	}
	steps++
	record(first)
	cur = first
	setNext()
	t := threads[first]
	raceOff()
	t.wake <- struct{}{}
	raceOn()
}

// Trace returns the scheduling decisions of the last thread group.
func Trace() []Switch { return append([]Switch(nil), trace[:nTrace]...) }

// SchedHash identifies the interleaving of the run so far.
func SchedHash() uint64 { return schedHash }

// Spawned counts threads started by the system under test.
func Spawned() int { return spawned }

// Active tells whether a thread group is running.
//
//go:norace
func Active() bool { return active }

// Cur returns the running thread.
//
//go:norace
func Cur() int {
	if !active {
		return 0
	}
	return cur
}

// Quiet switches the step bound off (used while oracles, not the workload, run instrumented code).
//
//go:norace
func Quiet(on bool) {
	quiet = on
	if !on && !active {
		nextEvent = limit
	}
}
