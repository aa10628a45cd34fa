package main

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/jayloop/radix"
)

// C06: conservation of what read-modify-write operations add and take.

func init() {
	checks["C06"] = check{
		seq: func(r *run) {
			r.Each("scheduled-counters", r.n(500, 5000), scheduledCounters)
			r.Each("scheduled-races", r.n(300, 3000), scheduledRaces)
			o := coopOpt{mixes: []coopMix{{opInsert, opInsert, opPut, opDelete}}, ops: 2, held: 1}
			r.Each("scheduled-registers", r.n(300, 3000), func(c *ctx) { coopPairs(c, o, 120) })
			r.Each("nested-registers", r.n(200, 2000), func(c *ctx) { coopNested(c, nestedMap, 8, 40) })
		},
		par: func(r *run) {
			r.Each("counters", r.n(60, 600), freeCounters)
			r.Each("races", r.n(60, 600), freeRaces)
		},
	}
}

// pool is a set of stored counters. Values are count<<17 | key, so the same value is written again and again.
type pool struct {
	parTree
	added, taken []atomic.Int64
	conflicts    atomic.Int64
}

func newPool(c *ctx, t *radix.Tree, keys [][]byte) *pool {
	p := &pool{parTree: parTree{c: c, t: t, keys: keys, keyOf: func(v uint64) int { return int(v & (1<<17 - 1)) }}}
	p.added = make([]atomic.Int64, len(keys))
	p.taken = make([]atomic.Int64, len(keys))
	return p
}

func (p *pool) inc(a api, i int, by int64) {
	tries := int64(0)
	p.put(a, i, func(old uint64, present bool) (uint64, bool) {
		tries++
		if !present {
			old = 0
		}
		return (old>>17+uint64(by))<<17 | uint64(i), true
	})
	p.added[i].Add(by)
	p.conflicts.Add(tries - 1)
}

// sub takes one from the counter, leaving it stored
func (p *pool) sub(a api, i int) {
	_, _, stored := p.put(a, i, func(old uint64, present bool) (uint64, bool) {
		if !present || old>>17 == 0 {
			return 0, false
		}
		return (old>>17-1)<<17 | uint64(i), true
	})
	if stored {
		p.taken[i].Add(1)
	}
}

// take removes the counter
func (p *pool) take(a api, i int) {
	if old, ok := p.del(a, i); ok {
		p.taken[i].Add(int64(old >> 17))
	}
}

// check compares what is stored to the sums, and the counts to the number of keys found
func (p *pool) check(what string) int {
	n := 0
	for i, k := range p.keys {
		have := int64(0)
		if v, found := p.t.Lookup(k); found && p.keyOf(v) == i {
			have = int64(v >> 17)
			n++
		}
		if e := p.added[i].Load() - p.taken[i].Load(); have != e {
			p.c.Fail("%s: key %d (%s) has count %d, but %d were added and %d taken", what, i, show(k), have, p.added[i].Load(), p.taken[i].Load())
		}
	}
	it := p.t.NewIterator(nil)
	m, last := 0, -1
	for it.Next() {
		if i := p.keyOf(it.Value()); i <= last {
			p.c.Fail("%s: iteration returns key %d after key %d", what, i, last)
		} else {
			last = i
		}
		m++
	}
	it.Close()
	if m != n || p.t.Len() != n {
		p.c.Fail("%s: %d keys are found, iteration returns %d, Len is %d", what, n, m, p.t.Len())
	}
	return n
}

// schedule runs the functions as threads under the strategy
func (c *ctx) schedule(st strategy, describe func() string, fs ...func(th *thread, s *sched)) *sched {
	s := &sched{strat: st, budget: 12000, r: newRng(c.Uint64())}
	ts := make([]func(th *thread), len(fs))
	for i := range fs {
		ts[i] = func(th *thread) {
			s.point(ptClient)
			fs[i](th, s)
		}
	}
	if fail := s.run(c, ts); fail != "" {
		c.Fail("%s\n%s\nschedule (running thread at each change): %s", fail, describe(), s.path)
	}
	c.Exec(1)
	c.r.count("scheduled points", int64(s.total))
	return s
}

// someStrategy is any strategy for n threads that need about length points together
func someStrategy(c *ctx, n, length int) strategy {
	switch c.Intn(4) {
	case 0:
		return newPCT(c.rng, length, c.Range(1, 4))
	case 1:
		a := c.Intn(n)
		b := (a + 1 + c.Intn(n-1)) % n
		if c.Chance(1, 2) {
			return &pauseStrategy{order: []int{a, b, a}, upto: []int{c.Intn(length/n + 2), -1, -1}}
		}
		return &pauseStrategy{order: []int{a, b, a, b}, upto: []int{c.Intn(length/n + 2), c.Intn(length/n + 2), -1, -1}}
	default:
		return &randomStrategy{c.rng, pick(c.rng, 2, 3, 6, 12)}
	}
}

func scheduledCounters(c *ctx) {
	keys, stored, name := template(c)
	if len(keys) == 0 {
		return
	}
	runs := 80
	if len(keys) > 100 {
		runs = 10
	}
	t := radix.NewTree(&radix.Options{NumAllocators: 5})
	defer c.close(t)
	p := newPool(c, t, keys)
	for i, s := range stored {
		if s {
			p.inc(t, i, 1)
		}
	}
	length := 60
	var last string
	for n := 0; n < runs; n++ {
		hot := hotKeys(c, len(keys))
		if c.Chance(1, 2) {
			hot = hot[:1+c.Intn(len(hot))]
		}
		threads := c.Range(2, 4)
		progs := make([][]string, threads)
		var fs []func(*thread, *sched)
		for g := 0; g < threads; g++ {
			var ops []func(a api)
			for j := c.Range(1, 3); j > 0; j-- {
				i := hot[c.Intn(len(hot))]
				switch c.Intn(5) {
				case 0, 1:
					ops = append(ops, func(a api) { p.inc(a, i, 1) })
					progs[g] = append(progs[g], fmt.Sprintf("inc(%d)", i))
				case 2:
					ops = append(ops, func(a api) { p.sub(a, i) })
					progs[g] = append(progs[g], fmt.Sprintf("sub(%d)", i))
				default:
					ops = append(ops, func(a api) { p.take(a, i) })
					progs[g] = append(progs[g], fmt.Sprintf("take(%d)", i))
				}
			}
			fs = append(fs, func(th *thread, s *sched) {
				for _, o := range ops {
					o(t)
					s.point(ptClient)
				}
			})
		}
		describe := func() string { return fmt.Sprintf("programs: %v", progs) }
		s := func() *sched {
			p.mid = func() { theSched.point(ptClient) }
			defer func() { p.mid = nil }()
			return c.schedule(someStrategy(c, threads, length), describe, fs...)
		}()
		length = max(20, s.total)
		func() {
			defer func() {
				if e := recover(); e != nil {
					if v, ok := e.(violation); ok {
						panic(violation{fmt.Sprintf("%s\nprograms: %v\nschedule %s", v.msg, progs, s.path)})
					}
					panic(e)
				}
			}()
			p.check("after schedule")
		}()
		if s.switch_ > 1 {
			h := s.hash
			h.add(hashString(fmt.Sprint(progs)), c.seed)
			c.Distinct(uint64(h))
		}
		last = fmt.Sprintf("%v schedule %s", progs, s.path)
	}
	c.r.count("conflicts", p.conflicts.Load())
	c.Sample("%s, %d keys: last programs %s", name, len(keys), last)
	inspect(c, t)
}

// scheduledRaces: all threads insert the same absent keys, then all delete them; exactly one succeeds each time
func scheduledRaces(c *ctx) {
	keys, stored, name := template(c)
	if len(keys) == 0 {
		return
	}
	runs := 60
	if len(keys) > 100 {
		runs = 10
	}
	t := radix.NewTree(&radix.Options{NumAllocators: 5})
	defer c.close(t)
	p := newPool(c, t, keys)
	present := make([]bool, len(keys))
	for i, s := range stored {
		if s {
			p.inc(t, i, 0)
			present[i] = true
		}
	}
	length := 60
	for n := 0; n < runs; n++ {
		hot := hotKeys(c, len(keys))
		threads := c.Range(2, 4)
		won := make([]atomic.Int32, len(keys))
		del := make([]bool, len(keys))
		for i := range del {
			del[i] = present[i]
		}
		var fs []func(*thread, *sched)
		for g := 0; g < threads; g++ {
			order := c.Perm(len(hot))
			fs = append(fs, func(th *thread, s *sched) {
				done := map[int]bool{}
				for _, j := range order {
					i := hot[j]
					if done[i] {
						continue
					}
					done[i] = true
					if del[i] {
						if _, ok := p.del(t, i); ok {
							won[i].Add(1)
						}
					} else if _, _, ok := p.put(t, i, func(_ uint64, present bool) (uint64, bool) { return uint64(i), !present }); ok {
						won[i].Add(1)
					}
				}
			})
		}
		describe := func() string { return fmt.Sprintf("%d threads insert or delete keys %v, stored %v", threads, hot, del) }
		s := func() *sched {
			p.mid = func() { theSched.point(ptClient) }
			defer func() { p.mid = nil }()
			return c.schedule(someStrategy(c, threads, length), describe, fs...)
		}()
		length = max(20, s.total)
		for _, i := range hot {
			if w := won[i].Load(); w != 1 {
				c.Fail("%d of %d threads succeeded to %s key %d (%s)\n%s\nschedule %s", w, threads, map[bool]string{true: "delete", false: "insert"}[del[i]], i, show(keys[i]), describe(), s.path)
			}
			present[i] = !del[i]
		}
		for i := range keys {
			v, found := t.Lookup(keys[i])
			if is := found && p.keyOf(v) == i; is != present[i] {
				c.Fail("key %d (%s): stored is %v, should be %v\n%s\nschedule %s", i, show(keys[i]), is, present[i], describe(), s.path)
			}
		}
		if s.switch_ > 1 {
			h := s.hash
			h.add(uint64(n), c.seed)
			c.Distinct(uint64(h))
		}
	}
	c.Sample("%s, %d keys, %d races of 2-4 threads each for 2-4 keys", name, len(keys), runs)
	inspect(c, t)
}

// hotUniverse is a small set of keys, so that free running goroutines meet often
func hotUniverse(c *ctx) ([][]byte, string) {
	if c.Chance(1, 2) {
		keys, _, name := template(c)
		return keys, name
	}
	u := genUniverse(c.rng, c.Intn(numUniverses), pick(c.rng, 2, 4, 8, 20, 60, 300))
	return u.keys, u.name
}

func freeCounters(c *ctx) {
	perturb(c)
	keys, name := hotUniverse(c)
	if len(keys) == 0 {
		return
	}
	n := len(keys)
	workers := c.Range(3, 12)
	t := radix.NewTree(&radix.Options{NumAllocators: workers + c.Range(0, 3)})
	p := newPool(c, t, keys)
	if c.Chance(1, 2) {
		p.mid = func() { hook(ptRead) }
	}
	total := 0
	var digest atomic.Uint64
	for round := 0; round < 3; round++ {
		var fs []func(int)
		// deletes are rare, medium or frequent
		dels := pick(c.rng, 1, 4, 12)
		for g := 0; g < workers; g++ {
			seed := c.Uint64()
			fs = append(fs, func(g int) {
				r := newRng(seed)
				var a api = t
				if g%2 == 0 {
					h := t.GetAllocator()
					defer t.ReleaseAllocator(h)
					a = h
				}
				var h hasher
				for k := 0; k < 1200 && !c.stop(); k++ {
					i := r.Intn(n)
					if r.Chance(1, 2) {
						i = r.Intn(min(n, 3))
					}
					switch x := r.Intn(20); {
					case x < dels:
						p.take(a, i)
					case x < dels+2:
						p.sub(a, i)
					default:
						p.inc(a, i, 1)
					}
					h.add(uint64(i))
				}
				digest.Add(uint64(h))
			})
		}
		c.free(fs...)
		total = p.check(fmt.Sprintf("after round %d of %d goroutines", round, workers))
		inspect(c, t)
		c.Exec(int64(workers * 1200))
	}
	c.r.count("conflicts", p.conflicts.Load())
	// depends on the actual interleaving
	for i := range keys {
		digest.Add(mix(uint64(p.taken[i].Load())<<20 ^ uint64(i)))
	}
	c.Distinct(digest.Load())
	c.Sample("%s, %d keys, %d goroutines: %d stored at the end, %d conflicts", name, n, workers, total, p.conflicts.Load())
	t.Close()
}

func freeRaces(c *ctx) {
	perturb(c)
	keys, name := hotUniverse(c)
	if len(keys) == 0 {
		return
	}
	n := len(keys)
	workers := c.Range(2, 8)
	t := radix.NewTree(&radix.Options{NumAllocators: workers})
	p := newPool(c, t, keys)
	rounds := 60
	present := make([]bool, n)
	won := make([]atomic.Int32, n)
	bad := make([]string, 0)
	var digest atomic.Uint64
	// all goroutines meet before each round
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	waiting, gen := 0, 0
	meet := func(last func()) bool {
		mu.Lock()
		defer mu.Unlock()
		g := gen
		if waiting++; waiting == workers {
			last()
			waiting = 0
			gen++
			cond.Broadcast()
		}
		for gen == g {
			cond.Wait()
		}
		return len(bad) == 0
	}
	var fs []func(int)
	for g := 0; g < workers; g++ {
		seed := c.Uint64()
		fs = append(fs, func(g int) {
			r := newRng(seed)
			mine := hasher(0)
			defer func() {
				// the others must not wait for this one
				if e := recover(); e != nil {
					mu.Lock()
					bad = append(bad, fmt.Sprintf("%v", e))
					workers--
					if waiting == workers {
						waiting = 0
						gen++
					}
					cond.Broadcast()
					mu.Unlock()
					panic(e)
				}
				digest.Add(uint64(mine))
			}()
			for round := 0; round < rounds; round++ {
				// every goroutine works through some keys in its own order, all of them in every second round
				all := round%2 == 0
				for _, i := range r.Perm(n) {
					if !all && i%5 > 1 {
						continue
					}
					ok := false
					if present[i] {
						_, ok = p.del(t, i)
					} else {
						_, _, ok = p.put(t, i, func(_ uint64, is bool) (uint64, bool) { return uint64(i), !is })
					}
					if ok {
						won[i].Add(1)
						mine.add(uint64(round)<<20 | uint64(i))
					}
				}
				if !meet(func() {
					for i := range won {
						e := int32(0)
						if all || i%5 <= 1 {
							e = 1
							present[i] = !present[i]
						}
						if w := won[i].Swap(0); w != e {
							bad = append(bad, fmt.Sprintf("round %d: %d of %d goroutines succeeded to %s key %d (%s)", round, w, workers, map[bool]string{false: "delete", true: "insert"}[present[i]], i, show(keys[i])))
						}
					}
				}) {
					return
				}
			}
		})
	}
	c.free(fs...)
	if len(bad) > 0 {
		c.Fail("%s", strings.Join(bad, "; "))
	}
	cnt := 0
	for i := range keys {
		v, found := t.Lookup(keys[i])
		if is := found && p.keyOf(v) == i; is != present[i] {
			c.Fail("key %d (%s): stored is %v, should be %v", i, show(keys[i]), is, present[i])
		}
		if present[i] {
			cnt++
		}
	}
	if l := t.Len(); l != cnt {
		c.Fail("Len is %d, should be %d", l, cnt)
	}
	inspect(c, t)
	c.Exec(int64(rounds))
	c.Distinct(digest.Load())
	c.Sample("%s: %d goroutines race for %d keys, %d rounds", name, workers, n, rounds)
	t.Close()
	runtime.GC()
}
