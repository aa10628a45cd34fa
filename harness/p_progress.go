package main

import (
	"fmt"
	"sync/atomic"
	"time"

	"github.com/jayloop/radix"
)

// C19: readers never wait for writers. C20: writers always make progress.

func init() {
	checks["C19"] = check{
		seq: func(r *run) {
			r.Each("prepared", r.n(500, 5000), readersBesidePrepared)
			r.Each("stopped-writers", r.n(700, 7000), readersBesideStopped)
		},
	}
	checks["C20"] = check{
		seq: func(r *run) {
			o := coopOpt{mixes: []coopMix{mixWriters}, ops: 3, held: 1}
			r.Each("pairs", r.n(500, 5000), func(c *ctx) { coopPairs(c, o, 160) })
			o = coopOpt{mixes: []coopMix{mixAborts, mixWriters, mixReaders}, ops: 4}
			r.Each("threads", r.n(400, 4000), func(c *ctx) { coopRandom(c, o, 160) })
			r.Each("shared-locks", r.n(120, 1200), func(c *ctx) { coopAlias(c, mixAborts, 80) })
			r.Each("nested", r.n(200, 2000), func(c *ctx) {
				coopNested(c, coopOpt{mixes: []coopMix{mixAborts, mixWriters}, ops: 2, doers: 5, stairs: true}, 8, 40)
			})
			r.Each("few-allocators", r.n(300, 3000), fewAllocators)
			r.Each("at-rest", r.n(400, 4000), progressAtRest)
			r.Each("blocked-then-released", r.n(300, 3000), blockedThenReleased)
		},
		par: func(r *run) {
			r.Each("contention", r.n(40, 400), contention)
		},
	}
}

// openOp is an operation that is prepared
type openOp struct {
	i   int
	up  *radix.UpdateOperation
	del *radix.DeleteOperation
	a   *radix.Allocator
	key []byte
}

func (o *openOp) String() string {
	if o.del != nil {
		return fmt.Sprintf("delete(%d)", o.i)
	}
	return fmt.Sprintf("update(%d)", o.i)
}

// prepareOpen prepares an operation on key i with allocator a
func (w *world) prepareOpen(a *radix.Allocator, i int, del bool) *openOp {
	o := &openOp{i: i, a: a, key: append([]byte(nil), w.keys[i]...)}
	if del {
		found, op := a.PrepareDelete(o.key)
		if !found {
			w.c.Fail("PrepareDelete of stored key %d finds nothing", i)
		}
		if op.Value != w.val[i] {
			w.c.Fail("PrepareDelete of key %d gives value %d, should be %d", i, op.Value, w.val[i])
		}
		o.del = op
		return o
	}
	found, op := a.PrepareUpdate(o.key)
	if found {
		j := w.candidate("PrepareUpdate", o.key, op.Value)
		op.FetchedKey = append(op.FetchedKey[:0], w.keys[j]...)
		op.Match = i == j
	}
	o.up = op
	return o
}

// end finalizes or aborts it
func (w *world) end(o *openOp, abort bool) {
	switch {
	case o.del != nil && abort:
		o.del.Abort()
	case o.del != nil:
		if !o.del.Finalize() {
			w.c.Fail("Finalize of %s failed", o)
		}
		w.set(o.i, 0)
		w.n--
	case abort:
		o.up.Abort()
	default:
		v := w.value(o.i)
		if !o.up.Finalize(v) {
			w.c.Fail("Finalize of %s failed", o)
		}
		if w.val[o.i] == 0 {
			w.n++
		}
		w.set(o.i, v)
	}
}

// readersBesidePrepared: as many operations as possible are prepared, then every reading interface is used
func readersBesidePrepared(c *ctx) {
	var keys [][]byte
	var stored []bool
	name := ""
	if c.Chance(1, 2) {
		keys, stored, name = template(c)
	} else {
		u := genUniverse(c.rng, c.i%numUniverses, pick(c.rng, 1, 2, 4, 8, 30, 100, 400))
		keys, name = u.keys, u.name
		stored = make([]bool, len(keys))
		for i := range stored {
			stored[i] = c.Chance(3, 4)
		}
	}
	if len(keys) == 0 {
		return
	}
	n := len(keys)
	open := c.Range(1, 8)
	t := radix.NewTree(&radix.Options{NumAllocators: open + 2})
	defer c.close(t)
	w := newWorld(c, t, keys)
	for i, s := range stored {
		if s {
			w.put(i)
		}
	}
	var allocs []*radix.Allocator
	for i := 0; i < open; i++ {
		allocs = append(allocs, t.GetAllocator())
	}
	defer func() {
		if !c.broken {
			w.atRestHeld()
		}
	}()
	spare := w.spare()
	_ = spare
	for round := 0; round < 6; round++ {
		var ops []*openOp
		used := map[int]bool{}
		for try := 0; try < 4*open && len(ops) < open; try++ {
			i := c.Intn(n)
			if used[i] || !w.canLock(i) {
				continue
			}
			used[i] = true
			ops = append(ops, w.prepareOpen(allocs[len(ops)], i, w.val[i] != 0 && c.Chance(1, 2)))
		}
		c.r.count("operations open", int64(len(ops)))
		if w.spareAlloc != nil {
			// reservation left by an attempt
			w.spareAlloc.Lookup([]byte{0})
		}
		// one single allocator is free for the readers
		t.ReleaseAllocator(w.spareAlloc)
		second := t.GetAllocator()
		w.spareAlloc = nil
		check := func() {
			for k := 0; k < 40; k++ {
				i := c.Intn(n)
				if len(ops) > 0 && c.Chance(1, 2) {
					i = ops[c.Intn(len(ops))].i
				}
				prefix := keys[i][:c.Intn(len(keys[i])+1)]
				// bounded by what is stored: a few steps for each node and leaf
				limit := int64(20 + 6*n + len(prefix))
				countSteps(limit, 0, func() {
					switch c.Intn(6) {
					case 0, 1:
						w.lookup(i)
					case 2:
						w.checkMinMax(prefix)
					case 3:
						w.checkCount(prefix)
					case 4:
						stepCap *= 4
						w.checkIter(prefix)
					case 5:
						w.checkMinMax(nil)
					}
				})
				c.r.count("reads beside open operations", 1)
			}
		}
		check()
		for len(ops) > 0 {
			k := c.Intn(len(ops))
			w.end(ops[k], c.Chance(1, 3))
			ops = append(ops[:k], ops[k+1:]...)
			if c.Chance(1, 3) {
				check()
			}
		}
		t.ReleaseAllocator(second)
		c.Exec(1)
	}
	for _, a := range allocs {
		t.ReleaseAllocator(a)
	}
	w.spareAlloc = nil
	w.checkLen()
	c.Distinct(uint64(w.h) ^ c.seed)
	c.Sample("%s, %d keys, %d operations open at a time, all reads with one free allocator", name, n, open)
	w.flushKinds()
}

// readersBesideStopped: writers are stopped anywhere between their steps and never continue until the reader has ended, which may not wait
func readersBesideStopped(c *ctx) {
	keys, stored, name := template(c)
	if len(keys) == 0 {
		return
	}
	runs := 60
	if len(keys) > 100 {
		runs = 8
	}
	writers := c.Range(1, 3)
	e := newCoopEnv(c, keys, stored, writers+1)
	defer e.close(c)
	e.poison = c.Chance(1, 3)
	var progs [][]cop
	n := 0
	for ; n < runs; n++ {
		if n%8 == 0 {
			hot := hotKeys(c, len(keys))
			progs = [][]cop{e.genProgram(mixReaders, c.Range(1, 3), hot)}
			for i := 0; i < writers; i++ {
				progs = append(progs, e.genProgram(coopMix{opPut, opPut, opInsert, opDelete, opDelete, opPutAbort, opDelAbort, opBump}, c.Range(1, 3), hot))
			}
		}
		st := &pauseStrategy{}
		for i := 1; i <= writers; i++ {
			st.order = append(st.order, i)
			st.upto = append(st.upto, c.Intn(30))
		}
		e.readers = 1
		e.readerLimit = 400 + 40*len(keys)*len(progs[0])
		st.order = append(st.order, 0)
		st.upto = append(st.upto, -1)
		s := e.runSchedule(progs, st, false)
		e.readers = 0
		c.Exec(1)
		h := s.hash
		h.add(hashString(fmt.Sprint(progs)), c.seed)
		if s.switch_ > 1 {
			c.Distinct(uint64(h))
		}
	}
	c.Sample("%s, %d keys: %v read while %d writers %v are stopped, %d schedules", name, len(keys), progs[0], writers, progs[1:], n)
	e.w.flushKinds()
	e.w.quietPrepare()
	e.w.atRest()
}

// fewAllocators: fewer allocators than threads
func fewAllocators(c *ctx) {
	keys, stored, name := template(c)
	if len(keys) == 0 {
		return
	}
	runs := 80
	if len(keys) > 100 {
		runs = 8
	}
	allocs := c.Range(1, 2)
	e := newCoopEnv(c, keys, stored, allocs)
	defer e.close(c)
	length := 60
	var progs [][]cop
	for n := 0; n < runs; n++ {
		if n%8 == 0 {
			hot := hotKeys(c, len(keys))
			progs = nil
			for i := c.Range(2, 4); i > 0; i-- {
				progs = append(progs, e.genProgram(coopMix{opPut, opInsert, opDelete, opDelete, opPutAbort, opDelAbort, opLookup, opMin, opCount}, c.Range(1, 3), hot))
			}
		}
		s := e.runSchedule(progs, someStrategy(c, len(progs), length), false)
		length = max(20, s.total)
		c.Exec(1)
		h := s.hash
		h.add(hashString(fmt.Sprint(progs)), c.seed)
		if s.switch_ > 1 {
			c.Distinct(uint64(h))
		}
		e.w.kinds["point wait"] += int64(s.points[ptWait])
	}
	e.w.flushKinds()
	// all allocators came back
	allFree(c, e.w.t, allocs)
	c.Sample("%s, %d keys, %d allocators: last programs %v", name, len(keys), allocs, progs)
	e.w.quietPrepare()
	e.w.atRest()
}

// progressAtRest: after every step of a history, nothing being in progress, prepares on all keys neither wait nor restart
func progressAtRest(c *ctx) {
	w := history(c, histOpt{kind: c.i % numUniverses, maxN: 200, aborts: 4, poison: true, restRate: 40, allocs: pick(c.rng, 1, 1, 2), noHeld: c.Chance(1, 2),
		rest: func(w *world) {
			w.release()
			w.quietPrepare()
			allFree(c, w.t, len(statsAllocators(w.t)))
			w.atRest()
		}})
	w.done()
}

// statsAllocators has as many elements as the tree has allocators
func statsAllocators(t *radix.Tree) []struct{} {
	n, _ := statsOf(t)["allocators"].(int)
	return make([]struct{}, n)
}

// allFree verifies that all n allocators can be reserved at the same time, and are different
func allFree(c *ctx, t *radix.Tree, n int) {
	seen := map[*radix.Allocator]bool{}
	countSteps(1000000, 0, func() {
		for i := 0; i < n; i++ {
			a := t.GetAllocator()
			if seen[a] {
				c.Fail("the same allocator was reserved twice")
			}
			seen[a] = true
		}
	})
	for a := range seen {
		t.ReleaseAllocator(a)
	}
}

// blockedThenReleased: operations that conflict with prepared ones wait, and all of them finish once these end
func blockedThenReleased(c *ctx) {
	keys, stored, name := template(c)
	if len(keys) == 0 {
		return
	}
	runs := 24
	if len(keys) > 100 {
		runs = 6
	}
	e := newCoopEnv(c, keys, stored, 4)
	defer e.close(c)
	for n := 0; n < runs; n++ {
		hot := hotKeys(c, len(keys))
		// the first is prepared and stopped for long, others work on the same keys
		progs := [][]cop{e.genProgram(mixAborts, 1, hot)}
		for i := c.Range(1, 3); i > 0; i-- {
			progs = append(progs, e.genProgram(mixAborts, c.Range(1, 2), hot[:1]))
		}
		s := e.runSchedule(progs, &starveStrategy{r: c.rng, from: c.Intn(20), length: c.Range(20, 400)}, false)
		c.Exec(1)
		h := s.hash
		h.add(hashString(fmt.Sprint(progs)), c.seed)
		if s.switch_ > 1 {
			c.Distinct(uint64(h))
		}
		e.w.kinds["point wait"] += int64(s.points[ptWait])
		e.w.kinds["point restart"] += int64(s.points[ptRestart])
	}
	e.w.flushKinds()
	c.Sample("%s, %d keys, one operation stopped while up to 3 others want the same keys, %d schedules", name, len(keys), runs)
	e.w.quietPrepare()
	e.w.atRest()
}

// starveStrategy runs thread 0 for some points, then all others (at random, even if they wait) for a long time, and then everything at random
type starveStrategy struct {
	r            *rng
	from, length int
}

func (st *starveStrategy) next(s *sched, cur *thread, p int) *thread {
	if t := s.threads[0]; !t.done && t.steps < st.from {
		return t
	}
	var cand []*thread
	for _, t := range s.threads {
		if !t.done && (t.id != 0 || st.length <= 0) {
			cand = append(cand, t)
		}
	}
	st.length--
	if len(cand) == 0 {
		if s.threads[0].done {
			return nil
		}
		return s.threads[0]
	}
	if !cur.done && (cur.id != 0 || st.length <= 0) && !st.r.Chance(1, 4) {
		return cur
	}
	return cand[st.r.Intn(len(cand))]
}

// contention: free running goroutines on few keys, some of them keeping operations prepared for a while. All must finish.
func contention(c *ctx) {
	perturb(c)
	keys, name := hotUniverse(c)
	if len(keys) == 0 {
		return
	}
	n := len(keys)
	workers := c.Range(3, 12)
	allocs := c.Range(1, workers)
	t := radix.NewTree(&radix.Options{NumAllocators: allocs})
	p := &parTree{c: c, t: t, keys: keys, keyOf: func(v uint64) int { return int(v & (1<<17 - 1)) }}
	slow := c.Chance(1, 2)
	if slow {
		p.mid = func() {
			hook(ptRead)
			if x := freePoints.Load(); x%64 == 0 {
				time.Sleep(20 * time.Microsecond)
			}
		}
	}
	var total atomic.Int64
	var fs []func(int)
	for g := 0; g < workers; g++ {
		seed := c.Uint64()
		fs = append(fs, func(int) {
			r := newRng(seed)
			for k := 0; k < 1000 && !c.stop(); k++ {
				i := r.Intn(n)
				if r.Chance(2, 3) {
					i = r.Intn(min(n, 2))
				}
				switch r.Intn(5) {
				case 0, 1:
					if _, present, stored := p.put(t, i, func(uint64, bool) (uint64, bool) { return 1<<20 | uint64(i), true }); stored && !present {
						total.Add(1)
					}
				case 2, 3:
					if _, ok := p.del(t, i); ok {
						total.Add(-1)
					}
				default:
					p.put(t, i, func(uint64, bool) (uint64, bool) { return 0, false })
				}
			}
		})
	}
	w0 := freeWaits.Load()
	c.free(fs...)
	w := newWorld(c, t, keys)
	for i, k := range keys {
		if v, found := t.Lookup(k); found && p.keyOf(v) == i {
			w.val[i] = v
			w.n++
		}
	}
	if int64(w.n) != total.Load() {
		c.Fail("%d keys are found, the successful operations of all goroutines add up to %d", w.n, total.Load())
	}
	w.quietPrepare()
	allFree(c, t, allocs)
	inspect(c, t)
	c.r.count("waits", freeWaits.Load()-w0)
	c.Exec(int64(workers * 1000))
	c.Distinct(mix(uint64(freeWaits.Load()-w0)) ^ c.seed)
	c.Sample("%s, %d keys, %d goroutines, %d allocators, %d waits", name, n, workers, allocs, freeWaits.Load()-w0)
	t.Close()
}
