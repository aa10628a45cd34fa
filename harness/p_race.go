package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"runtime"
	"time"

	"github.com/jayloop/radix"
)

// C08: everything the documented interface allows to run at the same time runs at the same time in a build with the race detector.
// The harness itself must not synchronise the goroutines while they run: no atomics, locks or channels, except where an object is handed over.

func init() {
	checks["C08"] = check{race: func(r *run) {
		r.Each("mix", r.n(45, 900), func(c *ctx) { raceMix(c, false) })
		r.Each("loaded", r.n(15, 300), func(c *ctx) { raceMix(c, true) })
		r.Each("pairs", r.n(240, 4800), racePairs)
		r.Each("blocks", r.n(24, 240), raceBlocks)
		r.Each("first-use", r.n(60, 1200), raceFirst)
		r.Each("shared-pools", r.n(12, 240), racePools)
		r.Each("handover", r.n(24, 480), raceHandover)
		r.Each("epochs", r.n(12, 240), raceEpochs)
	}}
}

func poisonPlain(slots []uint64) {
	for i := range slots {
		slots[i] = 0xdeadbeef00000000 | uint64(i)
	}
}

const raceKinds = 14

var raceKindName = [raceKinds]string{"writer", "held writer", "reader", "held reader", "iterator", "counter", "min/max", "len", "stats", "stop/start", "save", "admin", "aborter", "deleter"}

// raceEnv is a tree used by several goroutines
type raceEnv struct {
	c    *ctx
	t    *radix.Tree
	p    *parTree
	ops  int
	seen [64]int64 // per goroutine, what was done
}

func newRaceEnv(c *ctx, n, allocs int) *raceEnv {
	u := genUniverse(c.rng, c.i%numUniverses, n)
	t := radix.NewTree(&radix.Options{NumAllocators: allocs})
	return &raceEnv{c: c, t: t, p: &parTree{c: c, t: t, keys: u.keys, keyOf: func(v uint64) int { return int(v & (1<<17 - 1)) }}}
}

func (e *raceEnv) fill(a api, share int) {
	for i := range e.p.keys {
		if e.c.Chance(share, 100) {
			e.p.put(a, i, func(uint64, bool) (uint64, bool) { return 1<<20 | uint64(i), true })
		}
	}
}

// value found for some key
func (e *raceEnv) check(what string, v uint64) {
	if i := v & (1<<17 - 1); int(i) >= len(e.p.keys) || v>>20 == 0 {
		e.c.Fail("%s gives value %d which was never stored", what, v)
	}
}

// worker returns a goroutine of a kind. steps is scaled to take comparable time.
func (e *raceEnv) worker(kind, steps int) func(int) {
	seed := e.c.Uint64()
	t, p, n := e.t, e.p, len(e.p.keys)
	return func(g int) {
		r := newRng(seed)
		lo, span := r.Intn(n), 1+r.Intn(n)
		key := func() int { return (lo + r.Intn(span)) % n }
		put := func(a api) {
			i := key()
			p.put(a, i, func(old uint64, present bool) (uint64, bool) { return (1+r.Uint64()>>40)<<20 | uint64(i), true })
		}
		work := func(a api) {
			if r.Chance(1, 25) {
				radix.VerifBumpEpoch(t) // as if many more nodes had been recycled
			}
			switch r.Intn(10) {
			case 0, 1, 2, 3:
				put(a)
			case 4, 5, 6, 7:
				p.del(a, key())
			case 8:
				i := key()
				_, op := a.PrepareUpdate(p.keys[i])
				if r.Chance(1, 3) {
					_ = op.String()
				}
				op.Abort()
			case 9:
				if found, op := a.PrepareDelete(p.keys[key()]); found {
					if r.Chance(1, 3) {
						_ = op.String()
					}
					op.Abort()
				}
			}
		}
		held := func(f func(a *radix.Allocator)) {
			for k := 0; k < steps; {
				a := t.GetAllocator()
				for j := 1 + r.Intn(40); j > 0; j-- {
					f(a)
					k++
				}
				t.ReleaseAllocator(a)
			}
		}
		done := int64(0)
		switch kind {
		case 0:
			for k := 0; k < steps; k++ {
				work(t)
			}
		case 1:
			held(func(a *radix.Allocator) {
				work(a)
				if r.Chance(1, 20) {
					a.FlushStats()
				}
			})
		case 2:
			for k := 0; k < 2*steps; k++ {
				if v, found := t.Lookup(p.keys[key()]); found {
					e.check("Lookup", v)
					done++
				}
			}
		case 3:
			held(func(a *radix.Allocator) {
				for j := 0; j < 2; j++ {
					if v, found := a.Lookup(p.keys[key()]); found {
						e.check("Lookup", v)
						done++
					}
				}
			})
		case 4:
			it := t.NewIterator(nil)
			for k := 0; k < steps; {
				i := p.keys[key()]
				it.Reset(i[:r.Intn(len(i)+1)])
				k++
				for it.Next() {
					e.check("Iterator", it.Value())
					done++
					k++
					if r.Chance(1, 500) {
						break
					}
				}
				if r.Chance(1, 4) {
					it.Close()
					it = radix.NewIterator(t, nil)
				}
			}
			it.Close()
		case 5:
			ct := radix.NewCounter(t)
			for k := 0; k < steps; k += 5 {
				i := p.keys[key()]
				i = i[:r.Intn(len(i)+1)]
				if r.Chance(1, 4) {
					_, l := t.Count(i)
					k += l
				} else {
					_, l := ct.Count(i)
					k += l
				}
			}
		case 6:
			for k := 0; k < steps; k++ {
				i := p.keys[key()]
				i = i[:r.Intn(len(i)+1)]
				if r.Chance(1, 2) {
					t.MinKey(i)
				} else {
					t.MaxKey(i)
				}
			}
		case 7:
			for k := 0; k < steps; k += 10 {
				if l := t.Len(); l < 0 || l > n {
					e.c.Fail("Len is %d with %d possible keys", l, n)
				}
				if r.Chance(1, 2) {
					runtime.Gosched()
				}
			}
		case 8:
			for k := 0; k < steps; k += 2 {
				s := map[string]interface{}{}
				t.Stats(s)
				done += int64(len(s))
			}
		case 9:
			for k := 0; k < steps; k += 20 {
				t.Stop()
				if r.Chance(1, 2) {
					runtime.Gosched()
				}
				t.Start()
				if r.Chance(1, 2) {
					time.Sleep(time.Duration(r.Intn(50)) * time.Microsecond)
				}
			}
		case 10:
			// only one goroutine may do this, since another one could start the tree
			for k := 0; k < steps; k += 200 {
				t.Stop()
				var buf bytes.Buffer
				if _, err := t.WriteState(&buf); err != nil {
					e.c.Fail("WriteState fails: %v", err)
				}
				s := map[string]interface{}{}
				t.Stats(s)
				t.Len()
				t.Start()
				done += int64(buf.Len())
				time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
			}
		case 11:
			for k := 0; k < steps; k += 20 {
				switch r.Intn(4) {
				case 0:
					t.Admin(io.Discard, []string{"info"})
				case 1:
					t.Admin(io.Discard, []string{"blocks"})
				case 2:
					t.Admin(io.Discard, []string{"allocators"})
				case 3:
					t.Admin(io.Discard, nil)
				}
			}
		case 12:
			for k := 0; k < steps; k++ {
				_, op := t.PrepareUpdate(p.keys[key()])
				op.Abort()
				if found, op := t.PrepareDelete(p.keys[key()]); found {
					op.Abort()
				}
			}
		case 13:
			for k := 0; k < steps; k++ {
				p.del(t, key())
				if k&7 == 0 {
					put(t)
				}
			}
		}
		e.seen[g%64] = done
	}
}

func (e *raceEnv) run(fs []func(int)) {
	radix.VerifReuse = nil
	if e.c.Chance(1, 2) {
		radix.VerifReuse = poisonPlain
	}
	e.c.freeMode(modeRace, fs...)
	radix.VerifReuse = nil
}

// settle compares what is found afterwards by different ways
func (e *raceEnv) settle() {
	w := newWorld(e.c, e.t, e.p.keys)
	for i, k := range e.p.keys {
		if v, found := e.t.Lookup(k); found && e.p.keyOf(v) == i {
			w.val[i] = v
			w.n++
		}
	}
	if l := e.t.Len(); l != w.n {
		var vs []uint64
		it := e.t.NewIterator(nil)
		for it.Next() {
			vs = append(vs, it.Value())
		}
		it.Close()
		_, leaves := e.t.Count(nil)
		e.c.Fail("Len is %d, %d keys are found, Count gives %d leaves, iteration gives %v", l, w.n, leaves, vs[:min(len(vs), 10)])
	}
	w.checkCount(nil)
	w.checkIter(nil)
	w.atRest()
	d := uint64(w.n)
	for _, s := range e.seen {
		d = mix(d ^ uint64(s))
	}
	e.c.Distinct(d ^ e.c.seed)
	e.c.Exec(1)
}

func raceMix(c *ctx, loaded bool) {
	perturb(c)
	n := pick(c.rng, 3, 20, 100, 400)
	workers := c.Range(4, 10)
	e := newRaceEnv(c, n, pick(c.rng, workers, workers, workers+3, 2, 1))
	e.fill(e.t, c.Range(0, 100))
	if loaded {
		data := save(c, e.t)
		e.t.Close()
		e.t = load(c, data)
		e.p.t = e.t
	}
	names := ""
	var fs []func(int)
	stopper := false
	for g := 0; g < workers; g++ {
		kind := c.Intn(raceKinds)
		if g == 0 {
			kind = c.Intn(2)
		}
		if kind == 9 || kind == 10 {
			// Start ends any Stop, so only one goroutine may rely on being stopped
			if stopper {
				kind = 2
			}
			stopper = true
		}
		names += " " + raceKindName[kind]
		fs = append(fs, e.worker(kind, 300))
	}
	e.run(fs)
	e.settle()
	c.Sample("%d keys:%s", len(e.p.keys), names)
	e.t.Close()
}

// racePairs: two kinds of goroutines, with few synchronisation by others
func racePairs(c *ctx) {
	perturb(c)
	a := c.i % raceKinds
	b := (c.i / raceKinds) % raceKinds
	if b < a {
		a, b = b, a
	}
	if a >= 9 && a <= 10 && b >= 9 && b <= 10 {
		a = 0
	}
	e := newRaceEnv(c, pick(c.rng, 2, 5, 30, 200), pick(c.rng, 4, 2, 8))
	e.fill(e.t, 60)
	fs := []func(int){e.worker(a, 400), e.worker(b, 400)}
	e.run(fs)
	e.settle()
	c.Sample("%s and %s", raceKindName[a], raceKindName[b])
	e.t.Close()
}

// raceBlocks: memory blocks are added while nodes in them are read
func raceBlocks(c *ctx) {
	perturb(c)
	workers := c.Range(2, 6)
	t := radix.NewTree(&radix.Options{NumAllocators: workers + 4})
	e := &raceEnv{c: c, t: t}
	l := pick(c.rng, 100000, 200000, 700000)
	var keys [][]byte
	for g := 0; g < workers; g++ {
		for j := 0; j < 12; j++ {
			k := bytes.Repeat([]byte{byte(17*g + j)}, l)
			k[0] = byte(g)
			k[1] = byte(j)
			keys = append(keys, append(append([]byte(nil), k...), 1), append(append([]byte(nil), k...), 2))
		}
	}
	e.p = &parTree{c: c, t: t, keys: keys, keyOf: func(v uint64) int { return int(v & (1<<17 - 1)) }}
	var fs []func(int)
	for g := 0; g < workers; g++ {
		held := c.Chance(1, 2)
		fs = append(fs, func(g int) {
			var a api = t
			if held {
				h := t.GetAllocator()
				defer t.ReleaseAllocator(h)
				a = h
			}
			for j := 0; j < 24; j++ {
				i := g*24 + j
				p := e.p
				p.put(a, i, func(uint64, bool) (uint64, bool) { return 1<<20 | uint64(i), true })
				if v, found := a.Lookup(keys[i]); !found || p.keyOf(v) != i {
					c.Fail("a key just stored is not found")
				}
			}
		})
	}
	fs = append(fs, e.worker(2, 30), e.worker(8, 200), e.worker(6, 20), e.worker(11, 100))
	e.run(fs)
	b := blocksOf(t)
	if b < 1 {
		c.Fail("only %d blocks", b)
	}
	c.r.count("blocks added", int64(b))
	e.settle()
	c.Sample("%d goroutines, keys of %d bytes, %d blocks", workers, l, b)
	t.Close()
}

// raceFirst: a tree is used by several goroutines right after it was created or loaded
func raceFirst(c *ctx) {
	perturb(c)
	n := c.Range(2, 10)
	e := newRaceEnv(c, pick(c.rng, 5, 50), c.Range(1, 10))
	var data []byte
	if c.i%3 == 0 {
		e.fill(e.t, 50)
		data = save(c, e.t)
	}
	e.t.Close()
	for k := 0; k < 3; k++ {
		if data != nil {
			e.t = load(c, data)
		} else {
			e.t = radix.NewTree(&radix.Options{NumAllocators: c.Range(1, 10)})
		}
		e.p.t = e.t
		var fs []func(int)
		for g := 0; g < n; g++ {
			kind := c.Intn(raceKinds)
			if kind == 9 || kind == 10 {
				kind = 0
			}
			fs = append(fs, e.worker(kind, 5))
		}
		e.run(fs)
		e.settle()
		e.t.Close()
	}
}

// racePools: several trees share the pools of operations and iterators
func racePools(c *ctx) {
	perturb(c)
	var fs []func(int)
	var es []*raceEnv
	for k := 0; k < 3; k++ {
		e := newRaceEnv(c, pick(c.rng, 5, 50), 4)
		es = append(es, e)
		for g := 0; g < 3; g++ {
			fs = append(fs, e.worker(pick(c.rng, 0, 1, 4, 4, 12, 5, 13), 200))
		}
	}
	// trees come and go as well
	seed := c.Uint64()
	fs = append(fs, func(int) {
		r := newRng(seed)
		for k := 0; k < 6; k++ {
			t := radix.NewTree(&radix.Options{NumAllocators: 1 + r.Intn(3)})
			for j := 0; j < 20; j++ {
				_, op := t.PrepareUpdate([]byte{byte(j), byte(r.Intn(9))})
				if r.Chance(1, 3) {
					op.Abort()
				} else {
					op.Finalize(7)
				}
			}
			it := t.NewIterator(nil)
			for it.Next() {
			}
			it.Close()
			t.Close()
		}
	})
	es[0].run(fs)
	for _, e := range es {
		e.settle()
		e.t.Close()
	}
}

// raceHandover: allocators, operations, iterators and counters move from one goroutine to another, which is synchronised by the user
func raceHandover(c *ctx) {
	perturb(c)
	e := newRaceEnv(c, pick(c.rng, 10, 100), 12)
	e.fill(e.t, 60)
	t, p, n := e.t, e.p, len(e.p.keys)
	type object struct {
		op  *radix.UpdateOperation
		del *radix.DeleteOperation
		it  *radix.Iterator
		a   *radix.Allocator
		ct  *radix.Counter
		i   int
	}
	ch := make(chan object, 3)
	seed := c.Uint64()
	const rounds = 300
	fs := []func(int){func(int) {
		r := newRng(seed)
		for k := 0; k < rounds; k++ {
			i := r.Intn(n)
			switch r.Intn(5) {
			case 0:
				found, op := t.PrepareUpdate(p.keys[i])
				if found {
					j := p.keyOf(op.Value)
					op.FetchedKey = append(op.FetchedKey[:0], p.keys[j]...)
					op.Match = i == j
				}
				ch <- object{op: op, i: i}
			case 1:
				if found, op := t.PrepareDelete(p.keys[i]); found {
					if p.keyOf(op.Value) != i { // only a candidate
						op.Abort()
						continue
					}
					ch <- object{del: op, i: i}
				}
			case 2:
				it := t.NewIterator(nil)
				it.Next()
				ch <- object{it: it}
			case 3:
				a := t.GetAllocator()
				p.put(a, i, func(uint64, bool) (uint64, bool) { return 1<<20 | uint64(i), true })
				ch <- object{a: a, i: i}
			case 4:
				ct := radix.NewCounter(t)
				ct.Count(nil)
				ch <- object{ct: ct}
			}
		}
		close(ch)
	}, func(int) {
		defer func() {
			for o := range ch { // after a failure
				switch {
				case o.op != nil:
					o.op.Abort()
				case o.del != nil:
					o.del.Abort()
				case o.a != nil:
					t.ReleaseAllocator(o.a)
				}
			}
		}()
		for o := range ch {
			switch {
			case o.op != nil:
				if rand.IntN(3) == 0 {
					o.op.Abort()
				} else {
					o.op.Finalize(1<<20 | uint64(o.i))
				}
			case o.del != nil:
				if rand.IntN(3) == 0 {
					o.del.Abort()
				} else {
					o.del.Finalize()
				}
			case o.it != nil:
				for o.it.Next() {
					e.check("Iterator", o.it.Value())
				}
				o.it.Close()
			case o.a != nil:
				// no changes: these might have to wait for an operation that is waiting to be handed over
				o.a.Lookup(p.keys[o.i])
				t.ReleaseAllocator(o.a)
			case o.ct != nil:
				o.ct.Count(p.keys[0])
			}
		}
	}}
	fs = append(fs, e.worker(2, 200), e.worker(1, 200))
	e.run(fs)
	e.settle()
	c.Sample("%d handovers over %d keys", rounds, n)
	t.Close()
	_ = fmt.Sprint
}

// raceEpochs: goroutines with an allocator of their own recycle so much that epochs pass and numbers are flushed on the way
func raceEpochs(c *ctx) {
	perturb(c)
	workers := c.Range(2, 4)
	e := newRaceEnv(c, pick(c.rng, 20, 100, 400), workers+2)
	e.fill(e.t, 50)
	p, n := e.p, len(e.p.keys)
	var fs []func(int)
	for g := 0; g < workers; g++ {
		seed := c.Uint64()
		fs = append(fs, func(g int) {
			r := newRng(seed)
			a := e.t.GetAllocator()
			defer e.t.ReleaseAllocator(a)
			for k := 0; k < 3500; k++ {
				i := r.Intn(n)
				if r.Chance(1, 2) {
					p.put(a, i, func(uint64, bool) (uint64, bool) { return (1+r.Uint64()>>40)<<20 | uint64(i), true })
				} else {
					p.del(a, i)
				}
			}
		})
	}
	kind := pick(c.rng, 2, 3, 4, 7, 8)
	fs = append(fs, e.worker(kind, 200))
	e.run(fs)
	e.settle()
	if v, ok := statsOf(e.t)["current_epoch"].(uint64); ok {
		c.r.count("epochs passed", int64(v))
	}
	c.Sample("%d goroutines toggling %d keys, %s", workers, n, raceKindName[kind])
	e.t.Close()
}
