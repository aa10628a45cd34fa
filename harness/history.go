package main

import (
	"fmt"

	"github.com/jayloop/radix"
)

// histOpt describes generated sequential histories
type histOpt struct {
	kind     int // universe kind, -1 random
	n        int // approximate number of keys, 0 random
	maxN     int
	phases   int
	rest     func(w *world)        // called with nothing in progress after every phase, and at times within them
	restRate int                   // within a phase: once in that many operations (0: never)
	each     func(w *world, k int) // called after every operation with the key operated on
	aborts   int                   // once in that many operations an aborted operation is added
	allocs   int
	noBump   bool
	poison   bool
	noHeld   bool
}

// release gives back an allocator held by the world
func (w *world) release() {
	if w.held != nil {
		w.t.ReleaseAllocator(w.held)
		w.held = nil
		w.a = w.t
	}
}

func (w *world) hold() {
	w.release()
	w.held = w.t.GetAllocator()
	w.a = w.held
}

// poisonReuse overwrites memory that is reused, so that nothing may depend on what it contained
func poisonReuse(c *ctx) func([]uint64) {
	r := newRng(c.Uint64())
	return func(slots []uint64) {
		switch r.Intn(3) {
		case 0:
			for i := range slots {
				slots[i] = r.Uint64()
			}
		case 1:
			for i := range slots {
				slots[i] = ^uint64(0)
			}
		default:
			for i := range slots {
				slots[i] = 0
			}
		}
	}
}

func pickSize(c *ctx, maxN int) int {
	n := pick(c.rng, 2, 4, 8, 16, 30, 60, 60, 150, 150, 300, 300, 600, 1200)
	if c.Chance(1, 30) {
		n = 4000
	}
	if maxN > 0 && n > maxN {
		n = 2 + c.Intn(maxN-1)
	}
	return n
}

// history runs a sequential history of several phases, returning the world at its end (the tree is still open)
func history(c *ctx, o histOpt) *world {
	kind, n := o.kind, o.n
	if kind < 0 {
		kind = c.Intn(numUniverses)
	}
	if n == 0 {
		n = pickSize(c, o.maxN)
	}
	u := genUniverse(c.rng, kind, n)
	allocs := o.allocs
	if allocs == 0 {
		allocs = pick(c.rng, 1, 1, 2, 3, 8)
	}
	t := radix.NewTree(&radix.Options{NumAllocators: allocs})
	w := newWorld(c, t, u.keys)
	w.name = u.name
	if o.poison && c.Chance(2, 3) {
		radix.VerifReuse = poisonReuse(c)
	}
	c.Sample("universe %s, %d keys, %d allocators", u.name, len(u.keys), allocs)
	runPhases(w, o)
	c.Distinct(uint64(w.h) ^ hashString(u.name))
	return w
}

func (w *world) done() {
	radix.VerifReuse = nil
	w.release()
	if w.iter != nil {
		w.iter.Close()
		w.iter = nil
	}
	w.flushKinds()
	w.c.Exec(1)
	w.t.Close()
}

func runPhases(w *world, o histOpt) {
	c := w.c
	bumps := !o.noBump && radix.VerifWhiteBox && c.Chance(3, 4)
	after := func(k int) {
		if bumps && c.Chance(1, 24) {
			radix.VerifBumpEpoch(w.t)
		}
		if o.aborts > 0 && c.Chance(1, o.aborts) {
			j := c.Intn(len(w.keys))
			if c.Chance(1, 2) {
				j = min(len(w.keys)-1, max(0, k+c.Range(-2, 2)))
			}
			if c.Chance(1, 2) {
				w.update(j, 0, doAbort)
			} else {
				w.del(j, doAbort)
			}
		}
		if o.each != nil {
			o.each(w, k)
		}
		if o.restRate > 0 && c.Chance(1, o.restRate) && o.rest != nil {
			h := w.held != nil
			w.release()
			o.rest(w)
			if h {
				w.hold()
			}
		}
	}
	put := func(i int) { w.put(i); after(i) }
	del := func(i int) { w.del(i, doFinalize); after(i) }
	N := len(w.keys)
	if N == 0 {
		if o.rest != nil {
			o.rest(w)
		}
		return
	}
	phases := o.phases
	if phases == 0 {
		phases = c.Range(2, 6)
	}
	for ph := 0; ph < phases; ph++ {
		if !o.noHeld && c.Chance(1, 2) {
			w.hold()
		} else {
			w.release()
		}
		order := c.Perm(N)
		switch c.Intn(4) {
		case 0:
			for i := range order {
				order[i] = i
			}
		case 1:
			for i := range order {
				order[i] = N - 1 - i
			}
		}
		kind := c.Intn(8)
		if ph == 0 {
			kind = c.Intn(2)
		}
		w.log("phase %d kind %d", ph, kind)
		c.r.count(fmt.Sprintf("phases %d", kind), 1)
		switch kind {
		case 0: // grow to all
			for _, i := range order {
				put(i)
			}
		case 1: // grow partly
			for _, i := range order[:1+c.Intn(N)] {
				put(i)
			}
		case 2: // shrink to nothing
			for _, i := range order {
				if w.val[i] != 0 || c.Chance(1, 8) {
					del(i)
				}
			}
		case 3: // shrink to a few
			left := c.Intn(4)
			for _, i := range order {
				if w.n > left && w.val[i] != 0 {
					del(i)
				}
			}
		case 4: // mixed
			pd := pick(c.rng, 2, 5, 8)
			for j := min(3*N, 1500); j > 0; j-- {
				i := c.Intn(N)
				if c.Chance(pd, 10) {
					del(i)
				} else {
					put(i)
				}
			}
		case 5: // churn in one area
			lo := c.Intn(N)
			width := c.Range(1, 6)
			for j := c.Range(20, 300); j > 0; j-- {
				i := min(N-1, lo+c.Intn(width))
				if w.val[i] != 0 && c.Chance(2, 3) {
					del(i)
				} else {
					put(i)
				}
			}
		case 6: // churn of neighbours at random places: splits and merges
			for j := c.Range(5, 60); j > 0; j-- {
				i := c.Intn(N)
				for k := c.Range(1, 4); k > 0; k-- {
					if w.val[i] != 0 {
						del(i)
					} else {
						put(i)
					}
				}
			}
		case 7: // updates and repeats
			for j := c.Range(5, 60); j > 0; j-- {
				i := c.Intn(N)
				put(i)
				if c.Chance(1, 3) {
					del(i)
					del(i)
				}
			}
		}
		w.release()
		if o.rest != nil {
			o.rest(w)
		}
	}
}
