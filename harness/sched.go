package main

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"

	"github.com/jayloop/radix"
)

// instrumentation points, as in /repo/hooks.go
const (
	ptRestart = iota
	ptGeneration
	ptWait
	ptLock
	ptPublish
	ptUnlock
	ptRecycle
	ptAllocate
	ptReserve
	ptRead
	ptAcquire
	ptRelease
	ptClient // between operations and between prepare and finalize, added by the harness
	ptAtomic // before an atomic operation, in builds where these are observed
	numPoints
)

var pointName = []string{"restart", "generation", "wait", "lock", "publish", "unlock", "recycle", "allocate", "reserve", "read", "acquire", "release", "client", "atomic"}

const (
	modeOff = iota
	modeCount
	modeCoop
	modeFree
	modeBarrier
	modeRace
)

// mode is only changed while no instrumented goroutine is running
var mode int

func setMode(m int) { mode = m }

// counts of points reached in modeCount
var (
	steps    [numPoints]int64
	stepsSum int64
	stepCap  int64 // steps allowed, panics when exceeded
	waitCap  int64 // waits allowed
)

// free running perturbation: one of freeGosched points yields, one of freeSleep sleeps
var (
	freeGosched uint32 = 40
	freeSleep   uint32 = 5000
	freePoints  atomic.Int64
	freeWaits   atomic.Int64
)

// barrier monitoring: points reached while stopped is set are violations
var (
	barrierStopped atomic.Int32
	barrierHits    atomic.Int64
	barrierPoint   atomic.Int32
)

func hook(p int) {
	switch mode {
	case modeOff:
		return
	case modeCount:
		steps[p]++
		stepsSum++
		if stepsSum > stepCap {
			panic(violation{fmt.Sprintf("operation needs more than %d steps with nothing else running (%s)", stepCap, stepSummary())})
		}
		if p == ptWait && steps[ptWait] > waitCap {
			panic(violation{fmt.Sprintf("operation waits with nothing else running (%s)", stepSummary())})
		}
	case modeCoop:
		theSched.point(p)
	case modeRace:
		// nothing here may synchronise goroutines
		if x := rand.Uint32(); p != ptWait && x%freeGosched == 0 {
			if (x>>8)%(freeSleep/freeGosched) == 0 {
				time.Sleep(time.Duration(1+(x>>20)%50) * time.Microsecond)
			} else {
				runtime.Gosched()
			}
		}
	case modeFree, modeBarrier:
		if mode == modeBarrier && p != ptWait && p != ptRelease && p != ptAcquire && barrierStopped.Load() != 0 {
			if barrierHits.Add(1) == 1 {
				barrierPoint.Store(int32(p))
			}
		}
		x := rand.Uint32()
		if p == ptWait {
			freeWaits.Add(1)
			return
		}
		if x%freeGosched == 0 {
			freePoints.Add(1)
			if (x>>8)%(freeSleep/freeGosched) == 0 {
				time.Sleep(time.Duration(1+(x>>20)%50) * time.Microsecond)
			} else {
				runtime.Gosched()
			}
		}
	}
}

func stepSummary() string {
	s := ""
	for i, n := range steps {
		if n > 0 {
			s += fmt.Sprintf("%s:%d ", pointName[i], n)
		}
	}
	return s
}

// countSteps runs f, counting its steps
func countSteps(stepLimit, waitLimit int64, f func()) {
	steps = [numPoints]int64{}
	stepsSum = 0
	stepCap, waitCap = stepLimit, waitLimit
	old := mode
	mode = modeCount
	defer func() { mode = old }()
	f()
}

// quiet runs an operation of the harness goroutine, which must not wait or restart since nothing else is in progress
func quiet(c *ctx, what string, f func()) {
	countSteps(2000000, 8, f)
	if steps[ptRestart] > 8 {
		c.Fail("%s restarts (%d times) with nothing else in progress", what, steps[ptRestart]-1)
	}
}

func installHooks() {
	radix.VerifHook = hook
}

// atomicHook is called before atomic operations, by any goroutine. Long runs of loads, where the children of a node are read, are thinned out.
func atomicHook(load bool) {
	if mode != modeCoop {
		return
	}
	s := theSched
	if s == nil || s.released.Load() {
		return
	}
	t := s.cur
	if t == nil || t.goid != goid() {
		return
	}
	if !load {
		t.loads = 0
	} else if t.loads++; t.loads > 3 && t.loads%12 != 0 {
		return
	}
	s.point(ptAtomic)
}

// ---------- cooperative scheduler ----------
// Exactly one thread runs at a time; control changes hands only at instrumentation points, as decided by the strategy.

type thread struct {
	id      int
	wake    chan struct{}
	done    bool
	waiting bool // at a wait or repeated restart: running it again is pointless until another thread has moved
	prio    int
	steps   int
	atWait  int
	point   int
	client  bool // inside a client callback
	reading bool // nodes were read, and the operation did not end yet
	goid    uintptr
	loads   int // 64-bit loads since the last other atomic operation
}

type strategy interface {
	// next returns the thread to run; cur is the running thread (done if it has ended)
	next(s *sched, cur *thread, p int) *thread
}

type sched struct {
	threads []*thread
	cur     *thread
	strat   strategy
	total   int
	budget  int
	clock   int64
	main    chan struct{}
	hash    hasher
	switch_ int
	unfair  bool // budget exhausted: random scheduling until hard limit
	r       *rng
	fail    string
	points  [numPoints]int
	aborted bool
	path    []byte // thread ids at each point (for traces)

	beat     atomic.Int64 // points reached, for the stall monitor
	mu       sync.Mutex   // guards the end of threads, and what threads record if they were released
	released atomic.Bool  // threads run freely, see stallMonitor
	onPoint  func(t *thread, p int)
	atomics  bool
	readers  int     // threads that must never wait, bit by thread id
	limit    [16]int // steps allowed for these
}

var theSched *sched
var running atomic.Pointer[sched]

// stalls counts schedules where the running thread reached no instrumentation point for a long time
var stalls atomic.Int32

const maxStalls = 2

// stallMonitor releases all threads of a schedule where nothing happens, since the running thread waits for another one without telling (a loop
// without instrumentation point). This says nothing about the tree: what the threads observe is checked as always. If it repeats then
// threads are not scheduled at all any more.
func stallMonitor() {
	var last *sched
	var beat int64
	n := 0
	for {
		time.Sleep(500 * time.Millisecond)
		s := running.Load()
		if s == nil || s != last || s.beat.Load() != beat {
			last, n = s, 0
			if s != nil {
				beat = s.beat.Load()
			}
			continue
		}
		if n++; n == 20 {
			stalls.Add(1)
			s.release()
		}
	}
}

func (s *sched) release() {
	s.mu.Lock()
	s.released.Store(true)
	for _, t := range s.threads {
		if !t.done {
			select {
			case t.wake <- struct{}{}:
			default:
			}
		}
	}
	s.mu.Unlock()
}

// now is called by the running thread, or with mu held
func (s *sched) now() int64 { s.clock++; return s.clock }

// tick is the current time, for a thread
func (s *sched) tick() int64 {
	s.lock()
	defer s.unlock()
	return s.now()
}

// lock is needed for data shared by threads only after they were released
func (s *sched) lock()   { s.mu.Lock() }
func (s *sched) unlock() { s.mu.Unlock() }

type schedAbort struct{}

func (s *sched) runnable() (n int) {
	for _, t := range s.threads {
		if !t.done {
			n++
		}
	}
	return
}

func (s *sched) choose(cur *thread, p int) *thread {
	if s.unfair {
		// anyone, fairly
		k := s.r.Intn(s.runnable())
		for _, t := range s.threads {
			if !t.done {
				if k == 0 {
					return t
				}
				k--
			}
		}
	}
	return s.strat.next(s, cur, p)
}

func (s *sched) point(p int) {
	if s.released.Load() {
		s.beat.Add(1)
		if rand.Uint32()%4 == 0 {
			runtime.Gosched()
		}
		return
	}
	s.beat.Add(1)
	t := s.cur
	if s.aborted {
		panic(schedAbort{})
	}
	if p == ptAtomic {
		if t.waiting {
			return
		}
	} else if s.readers>>t.id&1 == 1 {
		if p == ptWait {
			panic(violation{fmt.Sprintf("reader (thread %d) waits", t.id)})
		}
		if s.limit[t.id]--; s.limit[t.id] < 0 {
			panic(violation{fmt.Sprintf("reader (thread %d) needs too many steps", t.id)})
		}
	}
	if s.onPoint != nil && p != ptAtomic {
		s.onPoint(t, p)
	}
	s.total++
	t.steps++
	t.point = p
	s.points[p]++
	if s.total > s.budget {
		if !s.unfair {
			s.unfair = true
			s.budget *= 4
		} else {
			s.fail = fmt.Sprintf("no progress: %d threads are not done after %d steps of fair scheduling", s.runnable(), s.total)
			s.aborted = true
			panic(schedAbort{})
		}
	}
	if p == ptWait {
		t.waiting = true
	} else if p != ptRestart && p != ptAtomic {
		for _, o := range s.threads {
			if o != t {
				o.waiting = false
			}
		}
		if p != ptGeneration && p != ptRead && p != ptLock && p != ptReserve && p != ptAcquire {
			t.waiting = false
		}
	}
	n := s.choose(t, p)
	if n == t || n == nil {
		return
	}
	s.transfer(t, n)
}

func (s *sched) transfer(t, n *thread) {
	s.switch_++
	if len(s.path) < 400 {
		s.path = append(s.path, byte('0'+n.id))
	}
	s.hash.add(uint64(s.total), uint64(n.id))
	s.cur = n
	n.wake <- struct{}{}
	<-t.wake
	if s.aborted && !s.released.Load() {
		panic(schedAbort{})
	}
}

// run executes the thread functions under the strategy. A non-empty result describes what went wrong.
func (s *sched) run(c *ctx, fs []func(t *thread)) string {
	s.main = make(chan struct{}, 1)
	s.threads = nil
	for i, f := range fs {
		t := &thread{id: i, wake: make(chan struct{}, 1)}
		s.threads = append(s.threads, t)
		go func() {
			<-t.wake
			t.goid = goid()
			func() {
				defer func() {
					if e := recover(); e != nil {
						s.lock()
						defer s.unlock()
						switch v := e.(type) {
						case schedAbort:
						case violation:
							if s.fail == "" {
								s.fail = v.msg
							}
							s.aborted = true
						default:
							if s.fail == "" {
								s.fail = fmt.Sprintf("panic: %v\n%s", e, trimStack(debug.Stack()))
							}
							s.aborted = true
						}
					}
				}()
				if !s.aborted || s.released.Load() {
					f(t)
				}
			}()
			s.lock()
			defer s.unlock()
			t.done = true
			for _, o := range s.threads {
				o.waiting = false
			}
			if s.released.Load() {
				if s.runnable() == 0 {
					s.main <- struct{}{}
				}
				return
			}
			var n *thread
			if s.aborted {
				for _, o := range s.threads {
					if !o.done {
						n = o
						break
					}
				}
			} else if s.runnable() > 0 {
				n = s.choose(t, ptClient)
			}
			if n == nil {
				s.main <- struct{}{}
				return
			}
			s.cur = n
			n.wake <- struct{}{}
		}()
	}
	theSched = s
	if c.atomics() {
		s.budget *= 4
		s.atomics = true
		radix.VerifSetAtomic(atomicHook)
		defer radix.VerifSetAtomic(nil)
		c.r.count("schedules with preemption at every atomic operation", 1)
	}
	first := s.choose(s.threads[0], ptClient)
	if first == nil {
		first = s.threads[0]
	}
	s.cur = first
	mode = modeCoop
	if stalls.Load() >= maxStalls {
		s.release()
	} else {
		running.Store(s)
		first.wake <- struct{}{}
	}
	<-s.main
	running.Store(nil)
	mode = modeOff
	theSched = nil
	if s.released.Load() {
		c.r.count("schedules not controlled", 1)
	}
	return s.fail
}

// ----- strategies -----

// randomStrategy changes thread with probability 1/n at each point
type randomStrategy struct {
	r *rng
	n int
}

func (st *randomStrategy) next(s *sched, cur *thread, p int) *thread {
	if !cur.done && !cur.waiting && p != ptWait && !st.r.Chance(1, st.n) {
		return cur
	}
	return pickOther(s, st.r, cur)
}

// pickOther returns a thread that is not waiting if there is one, else any, preferring others than cur
func pickOther(s *sched, r *rng, cur *thread) *thread {
	var cand [16]*thread
	n := 0
	for _, t := range s.threads {
		if !t.done && !t.waiting && t != cur {
			cand[n] = t
			n++
		}
	}
	if n == 0 {
		if !cur.done && !cur.waiting {
			return cur
		}
		for _, t := range s.threads {
			if !t.done {
				cand[n] = t
				n++
			}
		}
	}
	if n == 0 {
		return nil
	}
	return cand[r.Intn(n)]
}

// pctStrategy runs the thread of highest priority, priorities change at d random steps
type pctStrategy struct {
	r      *rng
	change []int
	init   bool
	low    int
}

func newPCT(r *rng, length, d int) *pctStrategy {
	p := &pctStrategy{r: r}
	for i := 0; i < d; i++ {
		p.change = append(p.change, r.Intn(length+1))
	}
	return p
}

func (st *pctStrategy) next(s *sched, cur *thread, p int) *thread {
	if !st.init {
		st.init = true
		for i, k := range st.r.Perm(len(s.threads)) {
			s.threads[i].prio = 100 + k
		}
	}
	for _, c := range st.change {
		if c == s.total {
			st.low--
			cur.prio = st.low
		}
	}
	if p == ptWait {
		st.low--
		cur.prio = st.low
	}
	var best *thread
	for _, t := range s.threads {
		if !t.done && (best == nil || t.prio > best.prio) {
			best = t
		}
	}
	return best
}

// pauseStrategy is deterministic: it runs thread order[i] for upto[i] points (or to its end if negative), one after the other, then all others to the end.
type pauseStrategy struct {
	order []int
	upto  []int
	i     int
	base  int
	used  bool // all pauses were reached
	start bool
}

func (st *pauseStrategy) next(s *sched, cur *thread, p int) *thread {
	for st.i < len(st.order) {
		t := s.threads[st.order[st.i]]
		if !st.start {
			st.start = true
			st.base = t.steps
			if cur != t && !t.done {
				return t
			}
		}
		if t.done || st.upto[st.i] >= 0 && t.steps-st.base >= st.upto[st.i] || t.waiting {
			if !t.done && st.upto[st.i] >= 0 && st.i == len(st.order)-1 {
				st.used = true
			}
			st.i++
			st.start = false
			continue
		}
		return t
	}
	if !cur.done && !cur.waiting {
		return cur
	}
	for _, t := range s.threads {
		if !t.done && !t.waiting {
			return t
		}
	}
	if !cur.done {
		for _, t := range s.threads {
			if !t.done && t != cur {
				return t
			}
		}
		return cur
	}
	for _, t := range s.threads {
		if !t.done {
			return t
		}
	}
	return nil
}
