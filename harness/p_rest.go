package main

import (
	"bytes"
	"fmt"

	"github.com/jayloop/radix"
)

// prefixes of interest: all short ones, those at branching points, whole keys
func (w *world) prefixes(n int) (ps [][]byte) {
	c := w.c
	ps = append(ps, nil, []byte{})
	for j := 0; j < n; j++ {
		ps = append(ps, w.somePrefix())
	}
	for j := 0; j < n/2 && len(w.keys) > 1; j++ {
		i := c.Intn(len(w.keys) - 1)
		l := commonPrefix(w.keys[i], w.keys[i+1])
		k := w.keys[i]
		ps = append(ps, k[:l], k[:min(len(k), l+1)])
		if l > 0 {
			ps = append(ps, k[:l-1])
		}
		ps = append(ps, k)
		switch c.Intn(4) {
		case 0:
			ps = append(ps, append(append([]byte(nil), k...), byte(c.Uint64())))
		case 1:
			q := append([]byte(nil), k[:min(len(k), l+1)]...)
			q[len(q)-1] += byte(1 + c.Intn(3))
			ps = append(ps, q)
		}
	}
	return
}

func init() {
	checks["C09"] = check{seq: func(r *run) {
		rest := func(w *world) {
			w.checkIter(nil)
			for _, p := range w.prefixes(8) {
				w.checkIter(p)
			}
			if w.c.Chance(1, 6) {
				for b := 0; b < 256; b++ {
					w.checkIter([]byte{byte(b)})
				}
			}
		}
		r.Each("histories", r.n(700, 7000), func(c *ctx) {
			w := history(c, histOpt{kind: c.i % numUniverses, rest: rest, restRate: 400, poison: true})
			w.done()
		})
		r.Each("small", r.n(900, 9000), func(c *ctx) {
			w := history(c, histOpt{kind: c.i % numUniverses, n: c.Range(1, 16), phases: c.Range(3, 7), rest: rest, restRate: 4})
			w.done()
		})
		// numbers of keys around multiples of the batch size, ending at all kinds of positions
		r.Each("batches", r.n(700, 7000), func(c *ctx) {
			base := pick(c.rng, 256, 256, 256, 512, 768, 1024)
			u := genUniverse(c.rng, pick(c.rng, 0, 1, 2, 6, 7, 8, 8, 10, 10, 11, 14, 9), base*2)
			t := radix.NewTree(&radix.Options{NumAllocators: 2})
			w := newWorld(c, t, u.keys)
			// a random subset of this size
			perm := c.Perm(len(u.keys))
			start := max(0, min(len(perm), base-c.Range(0, 4)))
			for _, i := range perm[:start] {
				w.put(i)
			}
			if len(perm) > start {
				for _, i := range perm[start:min(len(perm), start+8)] {
					w.checkIter(nil)
					w.put(i)
				}
			}
			w.checkIter(nil)
			for j := 0; j < 12; j++ {
				w.checkIter(w.somePrefix())
			}
			// and on the way down
			for j := 0; j < 10 && w.n > 0; j++ {
				i := w.stored()
				w.del(i, doFinalize)
				w.checkIter(nil)
			}
			c.Distinct(uint64(w.h) ^ c.seed)
			c.Sample("%s: %d keys of %d, iterated at each size from %d", u.name, w.n, len(u.keys), start)
			w.done()
		})
	}}

	minmax := func(w *world) {
		w.checkMinMax(nil)
		for _, p := range w.prefixes(10) {
			w.checkMinMax(p)
		}
		for j := 0; j < 6; j++ {
			// prefixes of stored keys
			if i := w.stored(); i >= 0 {
				k := w.keys[i]
				w.checkMinMax(k[:w.c.Intn(len(k)+1)])
			}
		}
		if w.c.Chance(1, 4) {
			for b := 0; b < 256; b++ {
				w.checkMinMax([]byte{byte(b)})
			}
		}
	}
	checks["C11"] = check{seq: func(r *run) {
		r.Each("histories", r.n(700, 7000), func(c *ctx) {
			w := history(c, histOpt{kind: c.i % numUniverses, rest: minmax, restRate: 60, aborts: 20, maxN: 900, poison: true})
			w.done()
		})
		r.Each("small", r.n(900, 9000), func(c *ctx) {
			w := history(c, histOpt{kind: c.i % numUniverses, n: c.Range(1, 12), phases: c.Range(3, 7), rest: minmax, restRate: 3})
			w.done()
		})
		// wide nodes that are emptied, at all levels
		r.Each("emptied", r.n(160, 1600), func(c *ctx) {
			w := emptiedUniverse(c)
			order := c.Perm(len(w.keys))
			for _, i := range order {
				w.put(i)
			}
			for round := 0; round < 3; round++ {
				order = c.Perm(len(w.keys))
				switch c.Intn(3) {
				case 0:
					for i := range order {
						order[i] = i
					}
				case 1:
					for i := range order {
						order[i] = len(order) - 1 - i
					}
				}
				cut := len(order) - c.Intn(8)
				for j, i := range order[:max(1, cut)] {
					if w.val[i] == 0 {
						continue
					}
					w.del(i, doFinalize)
					if w.n < 6 || c.Chance(1, 40) || j%61 == 0 {
						minmax(w)
					}
				}
				minmax(w)
				for _, i := range c.Perm(len(w.keys))[:c.Range(1, min(40, len(w.keys)))] {
					w.put(i)
					w.checkMinMax(nil)
				}
				minmax(w)
			}
			c.Distinct(uint64(w.h) ^ c.seed)
			w.done()
		})
		o := coopOpt{mixes: []coopMix{{opMin, opMax}, mixWriters}, ops: 2}
		r.Each("concurrent-pairs", r.n(700, 7000), func(c *ctx) { coopPairs(c, o, 160) })
		r.Each("nested", r.n(150, 1500), func(c *ctx) {
			coopNested(c, coopOpt{mixes: []coopMix{mixWriters, {opMin, opMax}, mixWriters}, ops: 1, doers: 5}, 8, 40)
		})
		r.Each("concurrent", r.n(240, 2400), func(c *ctx) { coopRandom(c, o, 160) })
	}}

	counts := func(w *world) {
		w.checkLen()
		w.checkCount(nil)
		for _, p := range w.prefixes(6) {
			w.checkCount(p)
		}
		w.checkStats()
	}
	checks["C12"] = check{
		seq: func(r *run) {
			r.Each("histories", r.n(700, 7000), func(c *ctx) {
				w := history(c, histOpt{kind: c.i % numUniverses, rest: counts, restRate: 100, aborts: 5, poison: true,
					each: func(w *world, k int) {
						if w.c.Chance(1, 5) {
							// failing operations: delete what is not there, look for what is not there
							w.del(w.c.Intn(len(w.keys)), doAbort)
							w.lookup(w.c.Intn(len(w.keys)))
						}
						if w.held != nil && w.c.Chance(1, 30) {
							w.held.FlushStats()
						}
					}})
				w.done()
			})
			r.Each("small", r.n(900, 9000), func(c *ctx) {
				w := history(c, histOpt{kind: c.i % numUniverses, n: c.Range(1, 12), phases: c.Range(3, 7), rest: counts, restRate: 3, aborts: 3})
				w.done()
			})
			// numbers flushed on the way, every 1000 recycled nodes
			r.Each("long", r.n(24, 240), func(c *ctx) {
				w := history(c, histOpt{kind: c.i % numUniverses, n: c.Range(20, 400), phases: 30, noBump: true, aborts: 10, rest: counts})
				w.done()
			})
			o := coopOpt{mixes: []coopMix{{opPut, opInsert, opDelete, opDelete, opPutAbort, opDelAbort}}, ops: 2, held: 1}
			r.Each("concurrent-pairs", r.n(500, 5000), func(c *ctx) { coopPairs(c, o, 160) })
			r.Each("nested", r.n(150, 1500), func(c *ctx) {
				coopNested(c, coopOpt{mixes: []coopMix{mixWriters}, ops: 1, doers: 7}, 8, 40)
			})
			o.ops = 3
			r.Each("concurrent", r.n(240, 2400), func(c *ctx) { coopRandom(c, o, 160) })
		},
		par: func(r *run) {
			r.Each("parallel", r.n(40, 300), func(c *ctx) { parallelCounts(c) })
			r.Each("flushes", r.n(12, 100), parallelFlushes)
		},
	}

	checks["C15"] = check{seq: func(r *run) {
		r.Each("histories", r.n(500, 5000), func(c *ctx) {
			w := history(c, histOpt{kind: c.i % numUniverses, maxN: 500, rest: abortAll, restRate: 200, poison: true})
			w.done()
		})
		r.Each("small", r.n(900, 9000), func(c *ctx) {
			w := history(c, histOpt{kind: c.i % numUniverses, n: c.Range(1, 12), phases: c.Range(3, 7), rest: abortAll, restRate: 5})
			w.done()
		})
		r.Each("emptied", r.n(40, 400), func(c *ctx) {
			w := emptiedUniverse(c)
			for _, i := range c.Perm(len(w.keys)) {
				w.put(i)
			}
			abortAll(w)
			for _, i := range c.Perm(len(w.keys)) {
				w.del(i, doFinalize)
				if w.n < 3 || c.Chance(1, 100) {
					abortAll(w)
				}
			}
			c.Distinct(uint64(w.h) ^ c.seed)
			w.done()
		})
		// aborting while other operations, also on the same nodes, are in progress
		o := coopOpt{mixes: []coopMix{mixAborts}, ops: 2, held: 1}
		r.Each("concurrent-pairs", r.n(600, 6000), func(c *ctx) { coopPairs(c, o, 160) })
		o.ops = 3
		r.Each("concurrent", r.n(240, 2400), func(c *ctx) { coopRandom(c, o, 160) })
		r.Each("nested", r.n(200, 2000), func(c *ctx) {
			coopNested(c, coopOpt{mixes: []coopMix{mixWriters, {opPutAbort, opDelAbort}, mixAborts}, ops: 1, doers: 1}, 8, 40)
		})
		r.Each("shared-locks", r.n(80, 800), func(c *ctx) { coopAlias(c, mixAborts, 80) })
	}}

	shape := func(w *world) {
		w.checkShape(false)
		w.atRest()
	}
	checks["C23"] = check{seq: func(r *run) {
		r.Each("histories", r.n(900, 9000), func(c *ctx) {
			w := history(c, histOpt{kind: c.i % numUniverses, rest: shape, restRate: 120, aborts: 12, poison: true})
			w.done()
		})
		r.Each("small", r.n(1400, 14000), func(c *ctx) {
			w := history(c, histOpt{kind: c.i % numUniverses, n: c.Range(1, 14), phases: c.Range(3, 8), rest: func(w *world) { w.checkShape(false) }, restRate: 1, aborts: 6})
			w.done()
		})
		// number of branches around the switch to 256-way nodes
		r.Each("transition", r.n(160, 1600), func(c *ctx) {
			p := make([]byte, pick(c.rng, boundaryLens...))
			var keys [][]byte
			fan := pick(c.rng, 124, 125, 126, 127, 127, 128, 129, 130, 200, 255, 256)
			for _, b := range c.Perm(256)[:fan] {
				k := append(append([]byte(nil), p...), byte(b))
				keys = append(keys, k)
				if c.Chance(1, 20) {
					keys[len(keys)-1] = append(k, 1)
					keys = append(keys, append(append([]byte(nil), k...), 2))
				}
			}
			if len(p) > 0 {
				q := append([]byte(nil), p[:c.Intn(len(p))]...)
				keys = append(keys, append(q, 9, 1), append(append([]byte(nil), q...), 9, 2))
			}
			t := radix.NewTree(&radix.Options{NumAllocators: 1})
			w := newWorld(c, t, finish("transition", keys).keys)
			for _, i := range c.Perm(len(w.keys)) {
				w.put(i)
				if w.n > 100 || c.Chance(1, 10) {
					w.checkShape(true)
				}
			}
			w.checkShape(true)
			// the node stays; if it never was wide, it shrinks
			everWide := w.wideNow()
			for j := 0; j < 40; j++ {
				i := c.Intn(len(w.keys))
				if w.val[i] != 0 {
					w.del(i, doFinalize)
				} else {
					w.put(i)
				}
				if !everWide {
					w.checkShape(false)
				} else {
					w.wide = true
					w.checkShape(false)
				}
			}
			c.Distinct(uint64(w.h) ^ c.seed)
			c.Sample("%d branches after a prefix of %d bytes", fan, len(p))
			w.done()
		})
		// shape after concurrent histories is checked by every schedule
		o := coopOpt{mixes: []coopMix{mixWriters}, ops: 2}
		r.Each("concurrent-pairs", r.n(500, 5000), func(c *ctx) { coopPairs(c, o, 120) })
		r.Each("nested", r.n(150, 1500), func(c *ctx) {
			coopNested(c, coopOpt{mixes: []coopMix{mixWriters}, ops: 1, doers: 7, stairs: true}, 8, 40)
		})
	}}
}

// stored returns a stored key, -1 if there is none
func (w *world) stored() int {
	if w.n == 0 {
		return -1
	}
	i := w.c.Intn(len(w.keys))
	for w.val[i] == 0 {
		i = (i + 1) % len(w.keys)
	}
	return i
}

// checkStats flushes all allocators and compares the statistics
func (w *world) checkStats() {
	w.release()
	if w.allocs == 0 {
		s := map[string]interface{}{}
		w.t.Stats(s)
		w.allocs, _ = s["allocators"].(int)
	}
	var as []*radix.Allocator
	for i := 0; i < w.allocs; i++ {
		as = append(as, w.t.GetAllocator())
	}
	for _, a := range as {
		a.FlushStats()
	}
	for _, a := range as {
		w.t.ReleaseAllocator(a)
	}
	s := map[string]interface{}{}
	w.t.Stats(s)
	if fmt.Sprint(s["objects_approx"]) != fmt.Sprint(w.n) {
		w.c.Fail("statistics report %v objects after all allocators have flushed, there are %d", s["objects_approx"], w.n)
	}
	w.checkLen()
}

// parallelFlushes: all allocators add their counters to the total at the same time, over and over
func parallelFlushes(c *ctx) {
	perturb(c)
	g := c.Range(2, 9)
	t := radix.NewTree(&radix.Options{NumAllocators: g})
	defer c.close(t)
	var fs []func(int)
	var keys [][]byte
	for i := 0; i < g; i++ {
		for j := 0; j < 4; j++ {
			keys = append(keys, []byte{byte(i), 1, byte(j), 3})
		}
	}
	w := newWorld(c, t, keys)
	p := &parTree{c: c, t: t, keys: w.keys, keyOf: func(v uint64) int { return int(v - 1) }}
	stored := make([]bool, len(w.keys))
	for i := 0; i < g; i++ {
		seed := c.Uint64()
		fs = append(fs, func(int) {
			r := newRng(seed)
			a := t.GetAllocator()
			defer t.ReleaseAllocator(a)
			for k := 0; k < 4000 && !c.stop(); k++ {
				j := 4*i + r.Intn(4)
				if stored[j] {
					p.del(a, j)
				} else {
					p.put(a, j, func(uint64, bool) (uint64, bool) { return uint64(j) + 1, true })
				}
				stored[j] = !stored[j]
				a.FlushStats()
			}
		})
	}
	c.free(fs...)
	for i := range stored {
		if stored[i] {
			w.val[i] = uint64(i) + 1
			w.n++
		}
	}
	w.checkStats()
	c.Exec(int64(4000 * g))
	c.Distinct(hashString(fmt.Sprint(stored)))
	c.r.count("counters flushed by goroutines at the same time", int64(4000*g))
	c.Sample("%d goroutines flushed 4000 times each, %d keys are left", g, w.n)
}

// emptiedUniverse: wide nodes next to each other and below each other
func emptiedUniverse(c *ctx) *world {
	var keys [][]byte
	pre := func() []byte {
		b := make([]byte, pick(c.rng, 0, 0, 1, 3, 8, 255))
		for i := range b {
			b[i] = byte(c.Intn(2))
		}
		return b
	}
	wide := func(p []byte, n int) {
		p = append(append([]byte(nil), p...), pre()...)
		for _, b := range c.Perm(256)[:n] {
			keys = append(keys, append(append([]byte(nil), p...), byte(b)))
		}
	}
	switch c.Intn(4) {
	case 0: // siblings of a small node
		q := pre()
		for j := 0; j < c.Range(2, 4); j++ {
			wide(append(append([]byte(nil), q...), byte(50*j+c.Intn(50))), c.Range(100, 160))
		}
		keys = append(keys, append(append([]byte(nil), q...), 251, 1))
	case 1: // below a wide node
		q := pre()
		for j := 0; j < 3; j++ {
			wide(append(append([]byte(nil), q...), byte(80*j+c.Intn(40))), c.Range(128, 140))
		}
		for b := 0; b < 140; b++ {
			k := append(append([]byte(nil), q...), byte(b+c.Intn(100)), 255, 254)
			keys = append(keys, k)
		}
	case 2: // root
		wide(nil, c.Range(128, 256))
	default: // nested
		wide([]byte{1, 2}, 130)
		wide([]byte{1, 3, 7}, 130)
		wide([]byte{1, 3, 9}, 130)
		keys = append(keys, []byte{1, 1}, []byte{1, 200}, []byte{0}, []byte{255})
	}
	t := radix.NewTree(&radix.Options{NumAllocators: pick(c.rng, 1, 2)})
	return newWorld(c, t, finish("emptied", keys).keys)
}

// abortAll prepares and aborts operations at every kind of position
func abortAll(w *world) {
	c := w.c
	w.release()
	before := treeDigest(w.t)
	n := len(w.keys)
	for j := 0; j < min(n, 120); j++ {
		i := j
		if n > 120 {
			i = c.Intn(n)
		}
		w.update(i, 0, doAbort)
		w.del(i, doAbort)
		if c.Chance(1, 6) {
			w.lookup(i)
		}
		// on extensions of keys, and on variations
		k := append([]byte(nil), w.keys[i]...)
		switch c.Intn(4) {
		case 0:
			w.probe(append(k, byte(c.Uint64())), true)
		case 1:
			k[c.Intn(len(k))] ^= byte(1 << uint(c.Intn(8)))
			w.probe(k, !w.hasPrefixed(k))
		}
		if c.Chance(1, 8) {
			// with an allocator
			w.hold()
			w.update(i, 0, doAbort)
			w.del(i, doAbort)
			w.release()
		}
	}
	after := treeDigest(w.t)
	if d := before.diff(&after); d != "" {
		c.Fail("aborted operations changed the tree: %s", d)
	}
	if len(after.values) != w.n || after.length != w.n {
		c.Fail("after aborted operations iteration gives %d values and Len is %d, %d keys are stored", len(after.values), after.length, w.n)
	}
	w.atRest()
	// nothing is locked, on any key
	for j := 0; j < min(n, 40); j++ {
		i := c.Intn(n)
		quiet(c, "PrepareUpdate "+show(w.keys[i]), func() { w.update(i, 0, doAbort) })
		quiet(c, "PrepareDelete "+show(w.keys[i]), func() { w.del(i, doAbort) })
	}
	w.c.r.count("aborted operations checked", int64(2*min(n, 120)))
}

var _ = bytes.Equal
