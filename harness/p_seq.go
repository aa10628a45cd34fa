package main

import (
	"bytes"
	"runtime"
	"strings"

	"github.com/jayloop/radix"
)

func init() {
	checks["C01"] = check{seq: func(r *run) {
		r.Each("histories", r.n(900, 9000), func(c *ctx) {
			w := history(c, histOpt{kind: c.i % numUniverses, aborts: 12, poison: true,
				rest: func(w *world) { w.checkLookups() },
				each: func(w *world, k int) {
					w.lookup(k)
					if w.c.Chance(1, 3) {
						w.lookup(min(len(w.keys)-1, k+1))
						w.lookup(max(0, k-1))
					}
					if w.c.Chance(1, 4) {
						w.lookup(w.c.Intn(len(w.keys)))
					}
				}})
			w.atRest()
			w.done()
		})
		// every step of small histories is followed by a complete comparison
		r.Each("small", r.n(1600, 20000), func(c *ctx) {
			w := history(c, histOpt{kind: c.i % numUniverses, n: c.Range(2, 14), phases: c.Range(3, 8), aborts: 6, poison: true,
				each: func(w *world, k int) {
					for i := range w.keys {
						if len(w.keys) < 40 || i == k || w.c.Chance(1, 16) {
							w.lookup(i)
						}
					}
				},
				rest: func(w *world) { w.checkLookups(); w.quietPrepare() }})
			w.atRest()
			w.done()
		})
		// long enough for memory to be recycled without help, all epochs passing by themselves
		r.Each("long", r.n(16, 160), func(c *ctx) {
			w := history(c, histOpt{kind: c.i % numUniverses, n: c.Range(20, 400), phases: 40, noBump: true, aborts: 30, poison: true,
				rest: func(w *world) { w.checkLookups() }, each: func(w *world, k int) { w.lookup(k) }})
			w.atRest()
			w.done()
		})
		r.Each("wide-reuse", r.n(24, 240), wideReuse)
		r.Each("block-ends", r.n(32, 320), func(c *ctx) { blockEnds(c, false) })
	}}

	checks["C02"] = check{seq: func(r *run) {
		r.Each("probes", r.n(800, 8000), func(c *ctx) {
			w := history(c, histOpt{kind: c.i % numUniverses, maxN: 700, aborts: 12, poison: true, restRate: 150, rest: probeAll})
			w.done()
		})
		r.Each("small", r.n(1200, 12000), func(c *ctx) {
			w := history(c, histOpt{kind: c.i % numUniverses, n: c.Range(2, 12), phases: c.Range(3, 7), aborts: 6, poison: true, restRate: 4, rest: probeAll})
			w.done()
		})
		// a removed value is never reported again while memory is reused
		r.Each("removed", r.n(24, 240), func(c *ctx) {
			w := history(c, histOpt{kind: c.i % numUniverses, n: c.Range(20, 300), phases: 20, poison: true,
				each: func(w *world, k int) {
					w.lookup(k)
					w.del(w.absent(), doFinalize)
				}, rest: probeAll})
			w.done()
		})
		r.Each("emptied-wide-node", 24, emptiedWide)
	}}
}

// wideReuse: 256-way nodes are replaced (when their prefix is split, and when the node above is merged with them), and their memory is used
// for other 256-way nodes. What was there before must not show up.
func wideReuse(c *ctx) {
	t := radix.NewTree(&radix.Options{NumAllocators: pick(c.rng, 1, 1, 2)})
	var keys [][]byte
	groups := c.Range(2, 4)
	var group [][]int
	for g := 0; g < groups; g++ {
		p := make([]byte, pick(c.rng, 2, 3, 5, 8, 9, 17))
		for i := range p {
			p[i] = byte(1 + c.Intn(3))
		}
		p[0] = byte(10 + g)
		lo, hi := pick(c.rng, 0, 0, 1, 100), pick(c.rng, 255, 255, 254, 230)
		for b := lo; b <= hi; b++ {
			k := append(append([]byte(nil), p...), byte(b))
			if b%50 == 7 {
				k = append(k, byte(c.Intn(256)))
			}
			keys = append(keys, k)
		}
		for s := 0; s < 2; s++ {
			keys = append(keys, append(append([]byte(nil), p[:1+c.Intn(len(p)-1)]...), byte(200+s), 1))
		}
	}
	u := finish("wide-reuse", keys)
	w := newWorld(c, t, u.keys)
	group = make([][]int, groups)
	var split [][]int = make([][]int, groups)
	for i, k := range w.keys {
		g := int(k[0]) - 10
		if k[len(k)-1] == 1 && len(k) > 2 && (k[len(k)-2] == 200 || k[len(k)-2] == 201) {
			split[g] = append(split[g], i)
		} else {
			group[g] = append(group[g], i)
		}
	}
	if c.Chance(2, 3) {
		radix.VerifReuse = poisonReuse(c)
	}
	for step := 0; step < 14; step++ {
		g := c.Intn(groups)
		switch c.Intn(4) {
		case 0:
			for _, j := range c.Perm(len(group[g])) {
				w.put(group[g][j])
			}
		case 1:
			for _, j := range c.Perm(len(group[g])) {
				if i := group[g][j]; w.val[i] != 0 && c.Chance(9, 10) {
					w.del(i, doFinalize)
				}
			}
		default:
			// the prefix is split and joined again, some times
			for n := c.Range(1, 6); n > 0 && len(split[g]) > 0; n-- {
				i := split[g][c.Intn(len(split[g]))]
				if w.val[i] == 0 {
					w.put(i)
				} else {
					w.del(i, doFinalize)
				}
				radix.VerifBumpEpoch(t)
			}
		}
		radix.VerifBumpEpoch(t)
		w.checkLookups()
		w.checkIter(nil)
		w.checkCount(nil)
		w.checkMinMax(nil)
		p := w.keys[group[g][0]][:2]
		w.checkIter(p)
		w.checkMinMax(p)
	}
	w.checkLen()
	w.atRest()
	c.Distinct(uint64(w.h) ^ c.seed)
	c.Sample("%d wide nodes, %d keys", groups, len(w.keys))
	w.done()
}

func (w *world) absent() int {
	i := w.c.Intn(len(w.keys))
	for j := 0; j < 4 && w.val[i] != 0; j++ {
		i = w.c.Intn(len(w.keys))
	}
	if w.val[i] != 0 {
		// delete it first, then it is absent
		w.del(i, doFinalize)
	}
	return i
}

// hasPrefixed tells if key is a prefix of a key that may have been stored at some time. Such keys may not be updated: see also the
// workload "emptied-wide-node".
func (w *world) hasPrefixed(key []byte) bool {
	lo, hi := w.span(key)
	return hi > lo
}

func probeAll(w *world) {
	c := w.c
	before := treeDigest(w.t)
	bumps := radix.VerifWhiteBox && c.Chance(1, 2)
	n := len(w.keys)
	// all keys of the universe that are not stored, all interfaces
	for j := 0; j < min(n, 200); j++ {
		i := j
		if n > 200 {
			i = c.Intn(n)
		}
		w.lookup(i)
		if w.val[i] == 0 {
			w.probe(w.keys[i], true)
		}
	}
	w.probe([]byte{}, false)
	for j := 0; j < 40 && n > 0; j++ {
		k := append([]byte(nil), w.keys[c.Intn(n)]...)
		switch c.Intn(6) {
		case 0: // strict prefixes, for lookups and deletes
			if len(k) > 1 {
				k = k[:1+c.Intn(len(k)-1)]
			}
			w.probe(k, !w.hasPrefixed(k))
		case 1: // all prefixes near the end
			for l := max(1, len(k)-10); l <= len(k); l++ {
				w.probe(k[:l], !w.hasPrefixed(k[:l]))
			}
		case 2: // extensions
			for e := c.Range(1, 20); e > 0; e-- {
				k = append(k, byte(c.Uint64()))
			}
			w.probe(k, true)
		case 3: // one bit changed
			k[c.Intn(len(k))] ^= 1 << uint(c.Intn(8))
			w.probe(k, !w.hasPrefixed(k))
		case 4: // changed and cut
			p := c.Intn(len(k))
			k[p] = pick(c.rng, byte(0), 255, k[p]+1, k[p]-1, byte(c.Uint64()))
			if c.Chance(1, 2) {
				k = k[:p+1]
			}
			w.probe(k, !w.hasPrefixed(k))
		case 5:
			k = make([]byte, c.Range(1, 12))
			for i := range k {
				k[i] = byte(c.Uint64())
			}
			w.probe(k, !w.hasPrefixed(k))
		}
		if bumps && c.Chance(1, 10) {
			radix.VerifBumpEpoch(w.t)
		}
	}
	// single bytes, all of them
	if c.Chance(1, 4) {
		for b := 0; b < 256; b++ {
			k := []byte{byte(b)}
			w.probe(k, !w.hasPrefixed(k))
		}
	}
	after := treeDigest(w.t)
	if d := before.diff(&after); d != "" {
		c.Fail("probing for keys that are not stored changed the tree: %s", d)
	}
	if len(after.values) != w.n {
		c.Fail("iteration gives %d values, %d keys are stored", len(after.values), w.n)
	}
	w.atRest()
}

// emptiedWide prepares an insert of a key that is a prefix of keys that were all deleted, which is within the rules (no stored key is
// a prefix of another one). After a branching point had 128 branches its node is kept when it is emptied.
func emptiedWide(c *ctx) {
	t := radix.NewTree(&radix.Options{NumAllocators: 1})
	p := make([]byte, c.Range(1, 20))
	for i := range p {
		p[i] = byte(1 + c.Intn(3))
	}
	var keys [][]byte
	fan := 100 + 28*(c.i%2) + c.Intn(20)
	for b := 0; b < fan; b++ {
		keys = append(keys, append(append([]byte(nil), p...), byte(b)))
	}
	keys = append(keys, []byte("zz"), []byte("zy"))
	w := newWorld(c, t, finish("emptied", keys).keys)
	for i := range w.keys {
		w.put(i)
	}
	for i, k := range w.keys {
		if bytes.HasPrefix(k, p) {
			w.del(i, doFinalize)
		}
	}
	for l := len(p); l > 0; l-- {
		k := p[:l]
		w.probe(k, false)
		func() {
			defer func() {
				if e := recover(); e != nil {
					if re, ok := e.(runtime.Error); ok && fan >= 128 && strings.Contains(re.Error(), "index out of range") {
						c.r.finding("emptied-wide-node", "PrepareUpdate of a key that is a prefix of deleted keys below a node that once had 128 or more branches panics: %v", e)
						return
					}
					panic(e)
				}
			}()
			found, op := t.PrepareUpdate(k)
			if found {
				w.candidate("PrepareUpdate", k, op.Value)
			}
			op.Abort()
		}()
		if c.r.res.Findings["emptied-wide-node"] != "" && fan >= 128 {
			break // its allocator is lost now
		}
	}
	w.flushKinds()
	c.Exec(1)
	c.Distinct(w.c.seed)
}
