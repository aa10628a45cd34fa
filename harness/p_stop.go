package main

import (
	"bytes"
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/jayloop/radix"
)

// C13: Stop is a barrier. C14: ownership of allocators.

func init() {
	checks["C13"] = check{
		seq: func(r *run) {
			r.Each("scheduled", r.n(1500, 15000), func(c *ctx) { scheduledOwners(c, true) })
			r.Each("histories", r.n(300, 3000), stoppedHistories)
		},
		par: func(r *run) {
			r.Each("stop-and-go", r.n(60, 600), func(c *ctx) { freeOwners(c, true) })
		},
	}
	checks["C14"] = check{
		seq: func(r *run) {
			r.Each("scheduled", r.n(1200, 12000), func(c *ctx) { scheduledOwners(c, false) })
			r.Each("outcomes", r.n(500, 5000), outcomes)
			r.Each("small", r.n(1000, 10000), func(c *ctx) {
				w := history(c, histOpt{kind: -1, n: 1 + c.i%7, phases: 4, aborts: 2, noHeld: true, allocs: 1 + c.i%3, each: ownersEach})
				w.done()
			})
			r.Each("sizes", r.n(60, 600), poolSizes)
		},
		par: func(r *run) {
			r.Each("reserve-and-release", r.n(50, 500), func(c *ctx) { freeOwners(c, false) })
		},
	}
}

// owners monitors who uses the tree. All times are taken inside of the periods they stand for: an operation is open from after its prepare returned
// until before it is finalized, a tree is stopped from after Stop returned until before the next Start is called.
type owners struct {
	c       *ctx
	t       *radix.Tree
	allocs  int
	mu      sync.Mutex
	open    int
	openMax int
	what    map[int]string // of the open operations
	next    int
	held    map[*radix.Allocator]bool

	starts, startsNow int // calls of Start, and those that did not return yet
	sure              bool
	period            int64 // identifies a period in which the tree is stopped
	periods           int64
	stoppedLen        int // Len in this period, -1: not known

	// bounds for the number of keys: operations called that may insert or delete, and those that did
	insCalled, insDone, delCalled, delDone int
	pool                                   *pool
	saved                                  []savedState
	saving                                 sync.Mutex // with free running goroutines: no Start while the state is written
}

func newOwners(c *ctx, t *radix.Tree, n int, p *pool) *owners {
	return &owners{c: c, t: t, allocs: n, held: map[*radix.Allocator]bool{}, what: map[int]string{}, pool: p}
}

func (o *owners) fail(format string, args ...interface{}) {
	o.mu.Unlock()
	o.c.Fail(format, args...)
}

// begin is called before an operation that needs an allocator; the result is given to end when it has returned
func (o *owners) begin() int64 {
	o.mu.Lock()
	defer o.mu.Unlock()
	if o.sure {
		return o.period
	}
	return -1
}

func (o *owners) end(p int64, what string) {
	o.mu.Lock()
	if p >= 0 && o.sure && o.period == p {
		o.fail("%s began and ended between Stop and Start", what)
	}
	o.mu.Unlock()
}

// opened is called when an allocator is certainly in use
func (o *owners) opened(what string) int {
	o.mu.Lock()
	if o.sure {
		o.fail("%s holds an allocator between Stop and Start", what)
	}
	o.open++
	if o.open > o.openMax {
		o.openMax = o.open
	}
	o.next++
	o.what[o.next] = what
	if o.open > o.allocs {
		o.fail("%d operations and holders use an allocator at the same time, there are %d allocators: %v", o.open, o.allocs, o.what)
	}
	id := o.next
	o.mu.Unlock()
	return id
}

// closing is called before it is given back
func (o *owners) closing(id int) {
	o.mu.Lock()
	if o.sure {
		o.fail("%s is still in progress between Stop and Start", o.what[id])
	}
	o.open--
	delete(o.what, id)
	o.mu.Unlock()
}

func (o *owners) reserve() (*radix.Allocator, int) {
	p := o.begin()
	a := o.t.GetAllocator()
	o.end(p, "GetAllocator")
	id := o.opened("a reserved allocator")
	o.mu.Lock()
	if a == nil || o.held[a] {
		o.fail("GetAllocator gave an allocator that is reserved by someone else")
	}
	o.held[a] = true
	o.mu.Unlock()
	return a, id
}

func (o *owners) release(a *radix.Allocator, id int) {
	o.closing(id)
	o.mu.Lock()
	delete(o.held, a)
	o.mu.Unlock()
	o.t.ReleaseAllocator(a)
}

func (o *owners) stop() {
	o.mu.Lock()
	seen, now := o.starts, o.startsNow
	o.mu.Unlock()
	o.t.Stop()
	o.mu.Lock()
	if seen == o.starts && now == 0 && !o.sure {
		if o.open > 0 {
			var list []string
			for _, s := range o.what {
				list = append(list, s)
			}
			o.fail("Stop returned while %v still in progress", list)
		}
		o.sure = true
		o.period++
		o.periods++
		o.stoppedLen = -1
		barrierStopped.Store(1)
		o.mu.Unlock()
		o.atRest()
		return
	}
	o.mu.Unlock()
}

// atRest inspects the tree if it is certainly stopped: an operation that is still in progress although its allocator came back shows as a lock or a
// reservation that is held, or memory that is used twice
func (o *owners) atRest() {
	if mode == modeBarrier {
		o.saving.Lock()
		defer o.saving.Unlock()
	}
	o.mu.Lock()
	sure, period := o.sure, o.period
	o.mu.Unlock()
	if !sure {
		return
	}
	problems, info := radix.VerifInspect(o.t)
	o.mu.Lock()
	sure = o.sure && period == o.period
	o.mu.Unlock()
	if len(problems) > 0 && sure {
		o.c.Fail("Stop returned, but something is still in progress: %s", strings.Join(problems, "; "))
	}
	if info != nil {
		o.c.r.count("inspections between Stop and Start", 1)
	}
}

func (o *owners) start() {
	free := mode == modeBarrier
	if free {
		o.saving.Lock()
	}
	o.mu.Lock()
	o.sure = false
	o.starts++
	o.startsNow++
	barrierStopped.Store(0)
	o.mu.Unlock()
	if free {
		o.saving.Unlock()
	}
	o.t.Start()
	o.mu.Lock()
	o.startsNow--
	o.mu.Unlock()
}

// len verifies the bounds of Len, and that it does not change while the tree is stopped
func (o *owners) len() {
	o.mu.Lock()
	lo, hi := o.insDone, o.delDone
	p := int64(-1)
	if o.sure {
		p = o.period
	}
	o.mu.Unlock()
	l := o.t.Len()
	o.mu.Lock()
	if l < lo-o.delCalled || l > o.insCalled-hi {
		o.fail("Len is %d, should be between %d and %d", l, lo-o.delCalled, o.insCalled-hi)
	}
	if o.sure && p == o.period {
		if o.stoppedLen >= 0 && o.stoppedLen != l {
			o.fail("Len was %d and is %d now, but the tree was stopped all the time", o.stoppedLen, l)
		}
		o.stoppedLen = l
	}
	o.mu.Unlock()
}

// do executes an operation through tree or allocator; for the tree it is tracked as a user of an allocator
func (o *owners) do(a api, kind int, i int, mid func()) {
	tracked := false
	if _, is := a.(*radix.Tree); is {
		tracked = true
	}
	begin := func() int64 {
		if tracked {
			return o.begin()
		}
		return -1
	}
	end := func(p int64, what string) {
		if tracked {
			o.end(p, what)
		}
	}
	opened := func(what string) int {
		if tracked {
			return o.opened(what)
		}
		return 0
	}
	closing := func(id int) {
		if tracked {
			o.closing(id)
		}
	}
	keys := o.pool.keys
	key := keys[i]
	switch kind {
	case 0: // lookup
		p := begin()
		a.Lookup(key)
		end(p, "Lookup")
	case 1, 2, 3: // increment, or abort
		o.mu.Lock()
		if kind != 3 {
			o.insCalled++
		}
		o.mu.Unlock()
		inserted := false
		for {
			p := begin()
			found, op := a.PrepareUpdate(key)
			end(p, "PrepareUpdate")
			id := opened("an update")
			old := uint64(0)
			if found {
				j := o.pool.keyOf(op.Value)
				if j < 0 || j >= len(keys) {
					o.c.Fail("PrepareUpdate(%s) gives value %d which was never stored", show(key), op.Value)
				}
				op.FetchedKey = append(op.FetchedKey[:0], keys[j]...)
				if op.Match = i == j; op.Match {
					old = op.Value >> 17
				}
			}
			inserted = !op.Match
			mid()
			closing(id)
			if kind == 3 {
				op.Abort()
				return
			}
			if op.Finalize((old+1)<<17 | uint64(i)) {
				break
			}
		}
		o.pool.added[i].Add(1)
		o.mu.Lock()
		if inserted {
			o.insDone++
		} else {
			o.insCalled--
		}
		o.mu.Unlock()
	case 4, 5, 6: // take
		o.mu.Lock()
		o.delCalled++
		o.mu.Unlock()
		deleted := false
		for {
			p := begin()
			found, op := a.PrepareDelete(key)
			end(p, "PrepareDelete")
			if !found {
				break
			}
			id := opened("a delete")
			j := o.pool.keyOf(op.Value)
			if j < 0 || j >= len(keys) {
				o.c.Fail("PrepareDelete(%s) gives value %d which was never stored", show(key), op.Value)
			}
			mid()
			v := op.Value
			closing(id)
			if j != i || kind == 6 {
				op.Abort()
				break
			}
			if op.Finalize() {
				deleted = true
				o.pool.taken[i].Add(int64(v >> 17))
				break
			}
		}
		o.mu.Lock()
		if deleted {
			o.delDone++
		} else {
			o.delCalled--
		}
		o.mu.Unlock()
	case 7:
		if tracked {
			p := o.begin()
			o.t.Count(key[:len(key)/2])
			o.end(p, "Count")
		}
	case 8:
		if tracked {
			p := o.begin()
			o.t.MinKey(key[:len(key)/2])
			o.end(p, "MinKey")
		}
	case 9:
		if tracked {
			p := o.begin()
			o.t.MaxKey(nil)
			o.end(p, "MaxKey")
		}
	case 10:
		if tracked {
			it := o.t.NewIterator(nil)
			for n := 0; it.Next() && n < 300; n++ {
				if n%100 == 50 {
					mid()
				}
			}
			it.Close()
		}
	}
}

const ownerKinds = 11

var ownerNames = []string{"lookup", "inc", "inc", "update-abort", "take", "take", "delete-abort", "count", "min", "max", "iterate"}

// scheduledOwners: threads share few allocators under a controlled schedule; with stops, some of them stop and start the tree and ask for its length
func scheduledOwners(c *ctx, stops bool) {
	keys, stored, name := template(c)
	if len(keys) == 0 {
		return
	}
	if len(keys) > 100 {
		// size is not interesting here
		keys, stored = keys[len(keys)-12:], stored[len(stored)-12:]
	}
	allocs := c.Range(1, 3)
	t := radix.NewTree(&radix.Options{NumAllocators: allocs})
	defer c.close(t)
	p := newPool(c, t, keys)
	ow := newOwners(c, t, allocs, p)
	for i, s := range stored {
		if s {
			ow.do(t, 1, i, func() {})
		}
	}
	runs := 60
	length := 60
	var last [][]string
	for n := 0; n < runs; n++ {
		hot := hotKeys(c, len(keys))
		workers := c.Range(1, 3)
		if !stops {
			workers = c.Range(2, 5)
		}
		var progs [][]string
		var fs []func(*thread, *sched)
		worker := map[int]bool{}
		for g := 0; g < workers; g++ {
			var prog []string
			type step struct{ kind, key int }
			var steps []step
			hold := -1
			if c.Chance(1, 3) {
				hold = 0
				prog = append(prog, "hold")
			}
			for j := c.Range(1, 4); j > 0; j-- {
				s := step{c.Intn(ownerKinds), hot[c.Intn(len(hot))]}
				steps = append(steps, s)
				prog = append(prog, fmt.Sprintf("%s(%d)", ownerNames[s.kind], s.key))
			}
			worker[len(fs)] = true
			progs = append(progs, prog)
			fs = append(fs, func(th *thread, s *sched) {
				mid := func() { s.point(ptClient) }
				var a api = t
				if hold >= 0 {
					al, id := ow.reserve()
					mid()
					a = al
					defer func() {
						if e := recover(); e != nil {
							panic(e)
						}
						ow.release(al, id)
						mid()
					}()
				}
				for _, x := range steps {
					ow.do(a, x.kind, x.key, mid)
					mid()
				}
			})
		}
		if stops {
			for g := c.Range(1, 2); g > 0; g-- {
				var prog []string
				for j := c.Range(1, 5); j > 0; j-- {
					prog = append(prog, pick(c.rng, "stop", "stop", "start", "len", "list", "stats"))
				}
				prog = append(prog, "start")
				progs = append(progs, prog)
				fs = append(fs, func(th *thread, s *sched) {
					for _, x := range prog {
						ow.control(x)
						s.point(ptClient)
					}
				})
			}
		} else if c.Chance(1, 3) {
			progs = append(progs, []string{"len"})
			fs = append(fs, func(*thread, *sched) { ow.len() })
		}
		if len(fs) == 1 {
			continue
		}
		ow.reset()
		last = progs
		var st strategy = someStrategy(c, len(fs), length)
		describe := func() string { return fmt.Sprintf("%s, %d allocators, programs: %v", name, allocs, progs) }
		s := &sched{strat: st, budget: 12000, r: newRng(c.Uint64())}
		s.onPoint = func(th *thread, pt int) {
			if ow.sure && worker[th.id] && pt != ptWait && pt != ptClient && pt != ptRelease && !s.released.Load() {
				panic(violation{fmt.Sprintf("thread %d continues (at point %s) between Stop and Start", th.id, pointName[pt])})
			}
		}
		ts := make([]func(th *thread), len(fs))
		for i := range fs {
			ts[i] = func(th *thread) {
				s.point(ptClient)
				fs[i](th, s)
			}
		}
		if fail := s.run(c, ts); fail != "" {
			c.Fail("%s\n%s\nschedule (running thread at each change): %s", fail, describe(), s.path)
		}
		length = max(20, s.total)
		c.Exec(1)
		h := s.hash
		h.add(hashString(fmt.Sprint(progs)), c.seed)
		if s.switch_ > 1 {
			c.Distinct(uint64(h))
		}
		if ow.open != 0 || len(ow.held) != 0 {
			c.Fail("bookkeeping: %d open", ow.open)
		}
		c.r.count("schedules", 1)
		c.r.count("waits", int64(s.points[ptWait]))
		func() {
			defer func() {
				if e := recover(); e != nil {
					if v, ok := e.(violation); ok {
						c.Fail("%s\n%s\nschedule (running thread at each change): %s", v.msg, describe(), s.path)
					}
					panic(e)
				}
			}()
			allFree(c, t, allocs)
			ow.len()
			if n%8 == 0 {
				p.check("after the schedule")
			}
		}()
		if n%40 == 0 {
			nonFree(c, t, allocs)
		}
	}
	p.check("at the end")
	inspect(c, t)
	c.r.count("stopped periods", ow.periods)
	c.Sample("%s, %d keys, %d allocators (at most %d in use at a time), last programs %v, %d stopped periods", name, len(keys), allocs, ow.openMax, last, ow.periods)
}

func (o *owners) control(x string) {
	switch x {
	case "stop":
		o.stop()
	case "start":
		o.start()
	case "len":
		o.len()
	case "list":
		o.t.Admin(io.Discard, []string{"allocators"})
	case "stats":
		statsOf(o.t)
	case "save":
		o.save()
	}
}

// reset forgets stops of a previous schedule, which ended with Start
func (o *owners) reset() {
	o.sure = false
	barrierStopped.Store(0)
}

// save writes the state, if the tree is certainly stopped, and verifies that it is the state of one moment
func (o *owners) save() {
	o.mu.Lock()
	p := int64(-1)
	if o.sure {
		p = o.period
	}
	o.mu.Unlock()
	if p < 0 {
		return
	}
	l := o.t.Len()
	var buf bytes.Buffer
	same := false
	var err error
	func() {
		if mode == modeBarrier {
			o.saving.Lock()
			defer o.saving.Unlock()
		}
		o.mu.Lock()
		same = o.sure && o.period == p
		o.mu.Unlock()
		if same {
			_, err = o.t.WriteState(&buf)
		}
	}()
	if err != nil {
		o.c.Fail("WriteState: %v", err)
	}
	if !same {
		return
	}
	l2 := o.t.Len()
	o.mu.Lock()
	same = o.sure && o.period == p
	o.mu.Unlock()
	if !same {
		return
	}
	if l != l2 {
		o.c.Fail("Len was %d and is %d after writing the state of a stopped tree", l, l2)
	}
	o.mu.Lock()
	o.saved = append(o.saved, savedState{buf.Bytes(), l})
	o.mu.Unlock()
}

type savedState struct {
	data []byte
	len  int
}

// checkSaved loads the states that were saved
func (o *owners) checkSaved() {
	for _, s := range o.saved {
		t := load(o.c, s.data)
		n := 0
		it := t.NewIterator(nil)
		for it.Next() {
			n++
		}
		it.Close()
		if n != s.len || t.Len() != s.len {
			o.c.Fail("the state written while stopped has %d keys (Len %d), Len of the tree was %d", n, t.Len(), s.len)
		}
		inspect(o.c, t)
		t.Close()
		o.c.r.count("states saved while others wait", 1)
	}
}

// nonFree verifies that one more reservation than there are allocators waits, and is served by the first release
func nonFree(c *ctx, t *radix.Tree, n int) {
	var all []*radix.Allocator
	seen := map[*radix.Allocator]bool{}
	for i := 0; i < n; i++ {
		a := t.GetAllocator()
		if seen[a] {
			c.Fail("the same allocator was reserved twice")
		}
		seen[a] = true
		all = append(all, a)
	}
	got := make(chan *radix.Allocator, 1)
	kind := c.Intn(4)
	var err atomic.Value
	go func() {
		defer func() {
			if e := recover(); e != nil {
				err.Store(fmt.Sprint(e))
				got <- nil
			}
		}()
		switch kind {
		case 0:
			t.Lookup([]byte{1, 0})
		case 1:
			t.Count(nil)
		case 2:
			t.MinKey(nil)
		default:
			got <- t.GetAllocator()
			return
		}
		got <- nil
	}()
	for j := 0; j < 30; j++ {
		runtime.Gosched()
		if j%10 == 9 {
			time.Sleep(20 * time.Microsecond)
		}
		if len(got) > 0 {
			c.Fail("with all %d allocators reserved, one more operation (kind %d) does not wait", n, kind)
		}
	}
	k := c.Intn(n)
	t.ReleaseAllocator(all[k])
	select {
	case a := <-got:
		if e := err.Load(); e != nil {
			c.Fail("%s", e)
		}
		if kind == 3 {
			if a != all[k] {
				c.Fail("a waiting reservation did not get the allocator that was released")
			}
			t.ReleaseAllocator(a)
		}
	case <-time.After(60 * time.Second):
		c.Fail("an operation waiting for an allocator never continues after one was released")
	}
	for i, a := range all {
		if i != k {
			t.ReleaseAllocator(a)
		}
	}
	c.r.count("requests beyond all allocators", 1)
}

// ownersEach verifies after an operation that all allocators are back
func ownersEach(w *world, k int) {
	c := w.c
	n := len(statsAllocators(w.t))
	switch c.Intn(12) {
	case 0:
		countSteps(1<<40, 0, func() { w.checkMinMax(w.somePrefix()) })
	case 1:
		countSteps(1<<40, 0, func() { w.checkCount(w.somePrefix()) })
	case 2:
		countSteps(1<<40, 0, func() { w.checkIter(w.somePrefix()) })
	case 3:
		// an iterator abandoned anywhere
		it := w.t.NewIterator(w.somePrefix())
		countSteps(1<<40, 0, func() {
			for j := c.Intn(4 + w.n); j > 0; j-- {
				it.Next()
			}
		})
		if c.Chance(1, 2) {
			it.Close()
		}
	case 4:
		w.probe(w.somePrefix(), false)
	case 5:
		countSteps(1<<40, 0, func() { w.checkLen() })
	case 6:
		var b bytes.Buffer
		countSteps(1<<40, 0, func() { w.t.Admin(&b, []string{"allocators"}) })
	}
	allFree(c, w.t, n)
	c.r.count("all allocators reserved", 1)
}

// outcomes: after every outcome of every operation all allocators are back; operations on a reserved allocator do not give it back
func outcomes(c *ctx) {
	n := c.Range(1, 3)
	own := c.Chance(1, 3) && n > 1
	var mine *radix.Allocator
	opt := histOpt{kind: c.i % numUniverses, maxN: 300, aborts: 3, noHeld: true, allocs: n, phases: 3}
	opt.each = func(w *world, k int) {
		if !own {
			ownersEach(w, k)
			return
		}
		// operations alternate between the tree and an allocator that stays reserved
		if mine == nil {
			mine = w.t.GetAllocator()
		}
		if w.a == api(w.t) {
			w.a = mine
		} else {
			w.a = w.t
		}
		seen := map[*radix.Allocator]bool{mine: true}
		countSteps(1000000, 0, func() {
			for i := 1; i < n; i++ {
				a := w.t.GetAllocator()
				if seen[a] {
					c.Fail("an allocator that is reserved was given to someone else")
				}
				seen[a] = true
			}
		})
		for a := range seen {
			if a != mine {
				w.t.ReleaseAllocator(a)
			}
		}
		c.r.count("all other allocators reserved", 1)
	}
	opt.rest = func(w *world) {
		if mine != nil {
			w.t.ReleaseAllocator(mine)
			mine = nil
			w.a = w.t
		}
		allFree(c, w.t, n)
		nonFree(c, w.t, n)
		w.atRest()
		if own && c.Chance(1, 2) {
			w.checkIter(nil)
		}
	}
	// the allocators are there from the start, whatever the history begins with
	w := history(c, opt)
	w.done()
}

// poolSizes: pools of all sizes
func poolSizes(c *ctx) {
	sizes := []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 300}
	n := sizes[c.i%len(sizes)]
	t := radix.NewTree(&radix.Options{NumAllocators: n})
	u := genUniverse(c.rng, c.Intn(numUniverses), 30)
	w := newWorld(c, t, u.keys)
	for i := range w.keys {
		w.put(i)
	}
	use := func(what string) {
		for round := 0; round < 3; round++ {
			allFree(c, w.t, n)
			nonFree(c, w.t, n)
			if got := len(statsAllocators(w.t)); got != n {
				c.Fail("%s: there are %d allocators, should be %d", what, got, n)
			}
			// partial reservations in any order
			held := map[*radix.Allocator]bool{}
			for j := 0; j < 3*n; j++ {
				if len(held) < n && c.Chance(2, 3) {
					a := w.t.GetAllocator()
					if held[a] {
						c.Fail("%s: an allocator was reserved twice", what)
					}
					held[a] = true
					old := w.a
					w.a = a
					w.put(c.Intn(len(w.keys)))
					w.a = old
				} else {
					for a := range held {
						delete(held, a)
						w.t.ReleaseAllocator(a)
						break
					}
				}
			}
			for a := range held {
				w.t.ReleaseAllocator(a)
			}
			w.checkLen()
		}
	}
	if len(w.keys) > 0 {
		use("a new tree")
		t2 := load(c, save(c, t))
		t.Close()
		w.adopt(t2)
		use("a loaded tree")
		w.atRest()
	}
	w.t.Close()
	c.Exec(1)
	c.Distinct(uint64(w.h) ^ c.seed)
	c.Sample("%d allocators, new and loaded from a state", n)
	w.flushKinds()
}

// stoppedHistories: a single goroutine stops and starts the tree at any place of a history, in all combinations
func stoppedHistories(c *ctx) {
	w := history(c, histOpt{kind: c.i % numUniverses, maxN: 200, phases: 3, aborts: 4, allocs: c.Range(1, 4), restRate: 30,
		rest: func(w *world) {
			stopped := false
			n := len(statsAllocators(w.t))
			for j := c.Range(1, 6); j > 0; j-- {
				switch c.Intn(6) {
				case 0, 1:
					w.t.Stop()
					stopped = true
				case 2:
					w.t.Start()
					stopped = false
				case 3:
					w.checkLen()
				case 4:
					w.t.Admin(io.Discard, []string{"allocators"})
				case 5:
					if stopped {
						d := save(c, w.t)
						if c.Chance(1, 4) {
							t := load(c, d)
							if t.Len() != w.n {
								c.Fail("the state of a stopped tree has %d keys, should be %d", t.Len(), w.n)
							}
							t.Close()
						}
					}
				}
				if stopped {
					checkStopped(c, w)
				} else if c.Chance(1, 4) {
					allFreeEventually(c, w.t, n)
				}
			}
			w.t.Start()
			allFreeEventually(c, w.t, n)
			w.checkLen()
			if c.Chance(1, 8) {
				w.checkAll()
			}
		}})
	w.done()
}

// allFreeEventually is allFree where some waiting goroutine of checkStopped may still be about to give back an allocator
func allFreeEventually(c *ctx, t *radix.Tree, n int) {
	ok := make(chan string, 1)
	go func() {
		seen := map[*radix.Allocator]bool{}
		for i := 0; i < n; i++ {
			a := t.GetAllocator()
			if seen[a] {
				ok <- "the same allocator was reserved twice"
				return
			}
			seen[a] = true
		}
		for a := range seen {
			t.ReleaseAllocator(a)
		}
		ok <- ""
	}()
	select {
	case s := <-ok:
		if s != "" {
			c.Fail("%s", s)
		}
	case <-time.After(60 * time.Second):
		c.Fail("not all %d allocators can be reserved", n)
	}
}

// freeOwners: the same with free running goroutines
func freeOwners(c *ctx, stops bool) {
	perturb(c)
	keys, name := hotUniverse(c)
	if len(keys) == 0 {
		return
	}
	n := len(keys)
	workers := c.Range(3, 10)
	allocs := c.Range(1, 6)
	if c.Chance(1, 8) {
		allocs = pick(c.rng, 64, 65, 128)
		workers = 12
	}
	t := radix.NewTree(&radix.Options{NumAllocators: allocs})
	p := newPool(c, t, keys)
	ow := newOwners(c, t, allocs, p)
	// ownership of each allocator, taken by compare and swap
	owner := map[*radix.Allocator]*atomic.Int32{}
	for i := 0; i < allocs; i++ {
		owner[t.GetAllocator()] = new(atomic.Int32)
	}
	if len(owner) != allocs {
		c.Fail("%d different allocators can be reserved, should be %d", len(owner), allocs)
	}
	for a := range owner {
		t.ReleaseAllocator(a)
	}
	barrierStopped.Store(0)
	barrierHits.Store(0)
	var ended atomic.Int32
	var reservations atomic.Int64
	var digest atomic.Uint64
	ops := 1200
	var fs []func(int)
	for g := 0; g < workers; g++ {
		seed := c.Uint64()
		fs = append(fs, func(g int) {
			defer ended.Add(1)
			r := newRng(seed)
			mid := func() {
				if r.Chance(1, 4) {
					runtime.Gosched()
				}
				if r.Chance(1, 200) {
					time.Sleep(time.Duration(r.Intn(40)) * time.Microsecond)
				}
			}
			for k := 0; k < ops && !c.stop(); k++ {
				i := r.Intn(n)
				if r.Chance(1, 6) {
					pd := ow.begin()
					a := t.GetAllocator()
					ow.end(pd, "GetAllocator")
					own := owner[a]
					if own == nil || !own.CompareAndSwap(0, int32(g+1)) {
						c.Fail("GetAllocator gave an allocator that is reserved by someone else")
					}
					id := ow.opened("a reserved allocator")
					for j := r.Intn(5); j > 0; j-- {
						ow.do(a, r.Intn(7), r.Intn(n), mid)
					}
					mid()
					ow.closing(id)
					if !own.CompareAndSwap(int32(g+1), 0) {
						c.Fail("a reserved allocator was given to someone else")
					}
					t.ReleaseAllocator(a)
					reservations.Add(1)
					continue
				}
				kind := r.Intn(ownerKinds)
				if kind == 10 && r.Chance(3, 4) {
					kind = 0
				}
				ow.do(t, kind, i, mid)
				digest.Add(uint64(kind))
			}
		})
	}
	if stops {
		for g := c.Range(1, 3); g > 0; g-- {
			seed := c.Uint64()
			first := g == 1
			fs = append(fs, func(int) {
				r := newRng(seed)
				saves := 0
				for k := 0; !c.stop(); k++ {
					if ended.Load() == int32(workers) {
						break
					}
					switch x := r.Intn(12); {
					case x < 4:
						ow.control("stop")
						for j := r.Intn(40); j > 0; j-- {
							runtime.Gosched()
						}
						if r.Chance(1, 3) {
							ow.control("len")
						}
						if r.Chance(1, 10) {
							time.Sleep(50 * time.Microsecond)
						}
						if first && saves < 3 && r.Chance(1, 4) {
							ow.control("save")
							saves++
						}
						if r.Chance(1, 6) {
							ow.control("stop")
						}
						ow.control("start")
					case x < 6:
						ow.control("start")
					case x < 8:
						ow.control("len")
					case x < 9:
						ow.control("list")
					default:
						for j := r.Intn(30); j > 0; j-- {
							runtime.Gosched()
						}
						if r.Chance(1, 4) {
							time.Sleep(100 * time.Microsecond)
						}
					}
				}
				ow.control("start")
			})
		}
	}
	c.freeMode(modeBarrier, fs...)
	barrierStopped.Store(0)
	if h := barrierHits.Load(); h > 0 {
		c.Fail("%d instrumentation points were reached between Stop and Start, the first one: %s", h, pointName[barrierPoint.Load()])
	}
	p.check("at the end")
	ow.checkSaved()
	ow.len()
	allFree(c, t, allocs)
	nonFree(c, t, allocs)
	inspect(c, t)
	c.Exec(int64(workers * ops))
	c.r.count("reservations", reservations.Load())
	c.r.count("stopped periods", ow.periods)
	for i := range keys {
		digest.Add(mix(uint64(p.taken[i].Load())<<20 ^ uint64(i)))
	}
	c.Distinct(digest.Load() ^ uint64(ow.periods))
	c.Sample("%s, %d keys, %d goroutines, %d allocators (at most %d in use), %d reservations, %d stopped periods", name, n, workers, allocs, ow.openMax, reservations.Load(), ow.periods)
	t.Close()
}
