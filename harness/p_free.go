package main

import (
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/jayloop/radix"
)

// free runs the functions in goroutines with perturbation, waiting for all of them
func (c *ctx) free(fs ...func(g int)) { c.freeMode(modeFree, fs...) }

func (c *ctx) freeMode(m int, fs ...func(g int)) {
	setMode(m)
	var wg sync.WaitGroup
	start := make(chan bool)
	for i, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer c.guard()
			<-start
			f(i)
		}()
	}
	close(start)
	wg.Wait()
	setMode(modeOff)
	c.checkFailed()
}

func perturb(c *ctx) {
	freeGosched = uint32(pick(c.rng, 4, 10, 40, 400))
	freeSleep = freeGosched * uint32(pick(c.rng, 10, 100, 1000))
}

// stop reports that some goroutine of the case failed
func (c *ctx) stop() bool { return c.hasFailed() != "" }

// insertLoop, deleteLoop: complete operations with retry. keys and values identify each other through keyOf.
type parTree struct {
	c     *ctx
	t     *radix.Tree
	keys  [][]byte
	keyOf func(v uint64) int
	mid   func() // called between prepare and finalize, if set
}

// put stores f(old) for key i. It returns what was stored before.
func (p *parTree) put(a api, i int, f func(old uint64, present bool) (v uint64, store bool)) (old uint64, present, stored bool) {
	for {
		found, op := a.PrepareUpdate(p.keys[i])
		present = false
		if found {
			j := p.keyOf(op.Value)
			if j < 0 || j >= len(p.keys) {
				p.c.Fail("PrepareUpdate(%s) gives value %d which was never stored", show(p.keys[i]), op.Value)
			}
			op.FetchedKey = append(op.FetchedKey[:0], p.keys[j]...)
			op.Match = i == j
			present = op.Match
			old = op.Value
		}
		v, store := f(old, present)
		if p.mid != nil {
			p.mid()
		}
		if !store {
			op.Abort()
			return old, present, false
		}
		if op.Finalize(v) {
			return old, present, true
		}
	}
}

func (p *parTree) del(a api, i int) (old uint64, deleted bool) {
	for {
		found, op := a.PrepareDelete(p.keys[i])
		if !found {
			return 0, false
		}
		j := p.keyOf(op.Value)
		if j < 0 || j >= len(p.keys) {
			p.c.Fail("PrepareDelete(%s) gives value %d which was never stored", show(p.keys[i]), op.Value)
		}
		if p.mid != nil {
			p.mid()
		}
		if i != j {
			op.Abort()
			return 0, false
		}
		old = op.Value
		if op.Finalize() {
			return old, true
		}
	}
}

// parallelCounts: goroutines with tree-level operations and with held allocators, at the end all counts are compared
func parallelCounts(c *ctx) {
	perturb(c)
	u := genUniverse(c.rng, c.i%numUniverses, pick(c.rng, 20, 100, 300, 1000))
	n := len(u.keys)
	workers := c.Range(3, 12)
	t := radix.NewTree(&radix.Options{NumAllocators: workers + c.Range(0, 4)})
	p := &parTree{c: c, t: t, keys: u.keys, keyOf: func(v uint64) int { return int(v & (1<<17 - 1)) }}
	var total atomic.Int64
	rounds := c.Range(1, 3)
	var digest atomic.Uint64
	for round := 0; round < rounds; round++ {
		var fs []func(int)
		for g := 0; g < workers; g++ {
			seed := c.Uint64()
			fs = append(fs, func(g int) {
				r := newRng(seed)
				var a api = t
				held := g%2 == 0
				if held {
					h := t.GetAllocator()
					defer t.ReleaseAllocator(h)
					a = h
				}
				mine := int64(0)
				lo := r.Intn(n)
				span := 1 + r.Intn(n)
				for k := 0; k < 1500 && !c.stop(); k++ {
					i := (lo + r.Intn(span)) % n
					switch r.Intn(8) {
					case 0, 1, 2:
						_, present, _ := p.put(a, i, func(uint64, bool) (uint64, bool) { return 1<<20 | uint64(i), true })
						if !present {
							mine++
						}
					case 3, 4, 5:
						if _, deleted := p.del(a, i); deleted {
							mine--
						}
					case 6:
						p.put(a, i, func(uint64, bool) (uint64, bool) { return 0, false })
					case 7:
						if h, ok := a.(*radix.Allocator); ok {
							h.FlushStats()
						}
						if rand.IntN(40) == 0 {
							runtime.Gosched()
						}
					}
				}
				total.Add(mine)
				digest.Add(mix(uint64(mine) ^ uint64(g)))
			})
		}
		c.free(fs...)
		w := newWorld(c, t, u.keys)
		for i, k := range u.keys {
			if v, found := t.Lookup(k); found && p.keyOf(v) == i {
				w.val[i] = v
				w.n++
			}
		}
		if int64(w.n) != total.Load() {
			c.Fail("%d keys are found, the successful operations of all goroutines add up to %d", w.n, total.Load())
		}
		w.checkLen()
		w.checkCount(nil)
		w.checkIter(nil)
		w.checkStats()
		for j := 0; j < 10; j++ {
			w.checkCount(w.somePrefix())
		}
		w.atRest()
	}
	c.Exec(1)
	c.Distinct(digest.Load() ^ c.seed)
	c.Sample("%s, %d keys, %d goroutines, %d rounds: %d stored", u.name, n, workers, rounds, total.Load())
	t.Close()
}
