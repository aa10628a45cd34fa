package main

import (
	"fmt"

	"github.com/jayloop/radix"
)

func init() {
	checks["C18"] = check{seq: func(r *run) {
		r.Each("cycles", r.n(48, 480), func(c *ctx) { memoryCycles(c, 24, 6000) })
		r.Each("long", r.n(16, 96), func(c *ctx) { memoryCycles(c, 12, r.n(100000, 400000)) })
		r.Each("wide", r.n(8, 64), wideCycles)
		r.Each("afterwards", r.n(3*numUses, 12*numUses), memoryAfterUse)
	}}
}

// universe whose nodes are small enough to be recycled
func recycledUniverse(c *ctx) *universe {
next:
	for kind := c.i; ; kind++ {
		u := genUniverse(c.rng, kind%numUniverses, pick(c.rng, 3, 10, 50, 300, 1500, 5000))
		if u.name == "trie-recycle-boundary" || len(u.keys) < 2 {
			continue
		}
		for p := range wideOf(u.keys) {
			// such a node may get a prefix of more than one word, and then is too large to be recycled
			if len(p) > 8 {
				continue next
			}
		}
		for _, k := range u.keys {
			if len(k) > 1000 { // 126 words of prefix and 127 children are the most a node can get
				continue next
			}
		}
		return u
	}
}

// memoryUse monitors what cycles of work that always return to the same contents do to the memory of a tree with one allocator.
type memoryUse struct {
	c          *ctx
	t          *radix.Tree
	what       string
	slots      int64
	last       int64
	fresh      []int64 // words never used before taken, per cycle
	lost       []int64 // words neither live nor waiting for reuse, at the end of each cycle
	blocks     []int
	white      bool
	perCycle   []uint64
	recycled   int64
	inspectErr int
}

func newMemoryUse(c *ctx, t *radix.Tree, what string) *memoryUse {
	bs, _ := statsOf(t)["block_size"].(int)
	m := &memoryUse{c: c, t: t, what: what, slots: int64(bs >> 3), white: radix.VerifWhiteBox}
	m.last = m.position()
	return m
}

// position is the number of words taken so far
func (m *memoryUse) position() int64 {
	b := int64(blocksOf(m.t)) * m.slots
	if !m.white || b == 0 {
		return b
	}
	next := int64(radix.VerifNextFree(m.t))
	if next == 0 {
		return b
	}
	return next
}

func (m *memoryUse) cycle() {
	p := m.position()
	m.fresh = append(m.fresh, p-m.last)
	m.last = p
	m.blocks = append(m.blocks, blocksOf(m.t))
	problems, info := radix.VerifInspect(m.t)
	if len(problems) > 0 {
		m.c.Fail("after %d cycles of %s: %v", len(m.fresh), m.what, problems)
	}
	m.lost = append(m.lost, info["lost"])
	m.recycled = info["recycled_slots"]
	// every retired extent is on a list: only the ends of full blocks may be left over
	if allowed := int64(64 + 600*max(0, m.blocks[len(m.blocks)-1]-1)); m.white && info["lost"] > allowed {
		m.c.Fail("after %d cycles of %s: %d words are neither in use nor available again (%d blocks)", len(m.fresh), m.what, info["lost"], m.blocks[len(m.blocks)-1])
	}
}

// judge looks at all cycles after the warm-up. tail is the largest node, which may be left over at the end of a block.
func (m *memoryUse) judge(warm int, tail int64) {
	n := len(m.blocks)
	if grown := m.blocks[n-1] - m.blocks[warm]; grown > 2 {
		m.c.Fail("%s: blocks grow although the contents are the same after each cycle: %v (fresh words %v, lost %v)", m.what, m.blocks, m.fresh, m.lost)
	}
	if !m.white {
		return
	}
	growing, total := 0, int64(0)
	for i := warm + 1; i < n; i++ {
		if d := m.lost[i] - m.lost[i-1]; d > 0 {
			growing++
			total += d - tail*int64(m.blocks[i]-m.blocks[i-1])
		}
	}
	m.c.r.count("measured cycles", int64(n-warm-1))
	if growing*4 >= (n-warm-1)*3 && total > 100 {
		m.c.Fail("%s: memory gets lost in each cycle: words lost %v (fresh %v)", m.what, m.lost, m.fresh)
	}
	// recycled memory must be used again
	fresh, using := int64(0), 0
	for i := n - (n-warm)/2; i < n; i++ {
		if m.fresh[i] > 0 {
			using++
		}
		fresh += m.fresh[i]
	}
	cyc := n - (n - (n-warm)/2)
	if using == cyc && fresh > 3000 && fresh*10 > m.fresh[0]*int64(cyc) {
		m.c.Fail("%s: retired memory does not become available: fresh words used by each cycle %v, waiting for reuse %d", m.what, m.fresh, m.recycled)
	}
}

func memoryCycles(c *ctx, cycles, opsPerCycle int) {
	u := recycledUniverse(c)
	allocators := pick(c.rng, 1, 1, 1, 2, 5)
	t := radix.NewTree(&radix.Options{NumAllocators: allocators})
	w := newWorld(c, t, u.keys)
	n := len(w.keys)
	var held *radix.Allocator
	if allocators > 1 || c.Chance(1, 2) {
		held = t.GetAllocator()
		w.a = held
	}
	keep := make([]bool, n) // stored at the end of each cycle
	for i := range keep {
		keep[i] = c.Chance(1, 3)
	}
	kind := c.Intn(4)
	noise := pick(c.rng, 0, 0, 10, 100)
	m := newMemoryUse(c, t, fmt.Sprintf("%s, %d keys, kind %d, noise %d", u.name, n, kind, noise))
	step := func(i int) {
		if w.val[i] == 0 {
			w.put(i)
		} else {
			w.del(i, doFinalize)
		}
		if noise > 0 && c.Chance(1, noise) {
			j := c.Intn(n)
			switch c.Intn(6) {
			case 0:
				w.update(j, 0, doAbort)
			case 1:
				w.del(j, doAbort)
			case 2:
				w.lookup(j)
			case 3, 4: // these need an allocator too
				if held != nil && allocators == 1 {
					t.ReleaseAllocator(held)
				}
				if n <= 300 {
					w.checkIter(w.somePrefix())
					w.checkMinMax(w.somePrefix())
				} else {
					w.checkMinMax(w.keys[j])
				}
				if held != nil && allocators == 1 {
					held = t.GetAllocator()
					w.a = held
				}
			case 5:
				if w.val[j] != 0 {
					w.put(j)
				}
			}
		}
	}
	for cyc := 0; cyc < cycles; cyc++ {
		for ops := 0; ops < opsPerCycle; {
			switch kind {
			case 0: // fill and empty
				for _, i := range c.Perm(n) {
					if w.val[i] == 0 {
						step(i)
					}
				}
				for _, i := range c.Perm(n) {
					if w.val[i] != 0 {
						step(i)
					}
				}
				ops += 2 * n
			case 1: // toggle
				for _, i := range c.Perm(n) {
					step(i)
				}
				ops += n
			case 2: // toggle neighbours
				k := c.Intn(n)
				for j := 0; j < 5; j++ {
					step((k + j) % n)
				}
				ops += 5
			case 3: // a window moves through the keys
				lo := c.Intn(n)
				for j := 0; j < n; j++ {
					if i := (lo + j) % n; w.val[i] == 0 {
						step(i)
					}
					if i := (lo + j + n - n/4) % n; w.val[i] != 0 {
						step(i)
					}
				}
				ops += 2 * n
			}
		}
		for i := range keep {
			if keep[i] != (w.val[i] != 0) {
				step(i)
			}
		}
		m.cycle()
	}
	if held != nil {
		t.ReleaseAllocator(held)
	}
	w.a = t
	w.checkLookups()
	w.checkLen()
	m.judge(cycles/3, 600)
	w.flushKinds()
	c.Exec(int64(cycles))
	c.Distinct(mix(c.seed) ^ uint64(m.last))
	c.Sample("%s: fresh words %v", m.what, m.fresh)
	t.Close()
}

// wideCycles: nodes up to 257 slots grow and shrink, all sizes of nodes are retired and used again
func wideCycles(c *ctx) {
	t := radix.NewTree(&radix.Options{NumAllocators: 1})
	width := pick(c.rng, 60, 120, 127, 128, 129, 200, 256)
	groups := c.Range(1, 12)
	plen := pick(c.rng, 1, 4, 8, 40, 200, 254, 255, 300, 1000)
	var keys [][]byte
	for g := 0; g < groups; g++ {
		p := make([]byte, plen)
		for i := range p {
			p[i] = byte(c.Intn(256))
		}
		p[0] = byte(g * 7)
		for b := 0; b < width; b++ {
			keys = append(keys, append(append([]byte(nil), p...), byte(b), 'x'))
		}
	}
	u := finish("wide", keys)
	w := newWorld(c, t, u.keys)
	m := newMemoryUse(c, t, fmt.Sprintf("wide, %d groups of %d keys of %d bytes", groups, width, plen+2))
	cycles := 16
	for cyc := 0; cyc < cycles; cyc++ {
		for ops := 0; ops < 30000; ops += 2 * len(w.keys) {
			up, down := c.Perm(len(w.keys)), c.Perm(len(w.keys))
			for _, i := range up {
				w.put(i)
			}
			for _, i := range down {
				w.del(i, doFinalize)
			}
		}
		m.cycle()
	}
	m.judge(cycles/3, 600)
	w.checkAll()
	w.flushKinds()
	c.Exec(int64(cycles))
	c.Distinct(mix(c.seed) ^ uint64(m.last))
	c.Sample("%s: fresh words %v", m.what, m.fresh)
	t.Close()
}

const numUses = 30

// memoryAfterUse: another allocator is used, in a single way, and is then idle. What it did is over, and may not keep memory from being used again.
func memoryAfterUse(c *ctx) {
	allocators := c.Range(2, 4)
	t := radix.NewTree(&radix.Options{NumAllocators: allocators})
	width := c.Range(60, 120)
	var keys [][]byte
	for b := 0; b < width; b++ {
		keys = append(keys, append([]byte("ab"), byte(2*b), 'x'))
	}
	lone, twin, absent := []byte("b-lone"), []byte("c-twin"), []byte("d")
	keys = append(keys, lone, append([]byte(nil), twin...), append(append([]byte(nil), twin...), 'y', 'y'), append(append([]byte(nil), twin...), 'z'))
	for b := 0; b < 600; b++ {
		keys = append(keys, []byte{'e', byte(b / 20), byte(b % 20 * 3)}) // more than an iterator reads at once
	}
	u := finish("afterwards", keys)
	w := newWorld(c, t, u.keys)
	held := t.GetAllocator()
	w.a = held
	id := func(k []byte) int {
		for i, o := range w.keys {
			if string(o) == string(k) {
				return i
			}
		}
		c.Fail("no such key")
		return 0
	}
	group, rest := []int{}, []int{}
	for i, k := range w.keys {
		if k[0] == 'a' {
			group = append(group, i)
		} else {
			rest = append(rest, i)
		}
	}
	use, moment := c.i%numUses, c.i/numUses%3
	if use >= 24 {
		moment = 2
	}
	names := []string{"empty", "holding one key", "filled"}
	what := fmt.Sprintf("a tree with %d allocators, used (%d) while %s", allocators, use, names[moment])
	m := newMemoryUse(c, t, what)
	prefix := [][]byte{nil, absent, lone, twin, []byte("e")}[use/4%5]
	work := func() {
		switch {
		case use < 20:
			switch use % 4 {
			case 0:
				t.Lookup(append(append([]byte(nil), prefix...), "ab"[:c.Intn(3)]...))
			case 1:
				radix.NewCounter(t).Count(prefix)
			case 2:
				it := t.NewIterator(prefix)
				for n := []int{5, 2, 3, 1000, 1000}[use/4%5]; n > 0 && it.Next(); n-- { // the first is left early
				}
				it.Close()
			case 3:
				if (use/4+c.i/numUses)%2 == 0 {
					t.MinKey(prefix)
				} else {
					t.MaxKey(prefix)
				}
			}
		case use == 20:
			_, op := t.PrepareUpdate(w.keys[group[0]])
			op.Abort()
		case use == 21:
			if found, op := t.PrepareDelete(w.keys[group[0]]); found {
				op.Abort()
			}
		case use == 22:
			if found, op := t.PrepareDelete(absent); found {
				op.Abort()
			}
		case use == 23:
			_, op := t.PrepareUpdate(absent)
			op.Abort()
		case use == 24:
			w.a = t
			w.put(group[1])
			w.a = held
		case use == 25:
			w.a = t
			w.del(group[2], doFinalize)
			w.a = held
		case use == 26:
			a := t.GetAllocator()
			a.Lookup(w.keys[group[0]])
			if _, op := a.PrepareUpdate(w.keys[group[1]]); op != nil {
				op.Abort()
			}
			t.ReleaseAllocator(a)
		case use == 27:
			t.ReleaseAllocator(t.GetAllocator())
		default: // these need all allocators
			t.ReleaseAllocator(held)
			if use == 28 {
				t.Len()
				t.Stats(map[string]interface{}{})
			} else {
				t.Stop()
				t.WriteState(&failWriter{left: c.Intn(4000), err: errTest})
				t.Start()
			}
			held = t.GetAllocator()
			w.a = held
		}
	}
	if moment == 0 {
		work()
	}
	w.put(id(lone))
	if moment == 1 {
		work()
	}
	for _, i := range append(append([]int(nil), rest...), group...) {
		if w.val[i] == 0 {
			w.put(i)
		}
	}
	const cycles = 9
	for cyc := 0; cyc < cycles; cyc++ {
		if cyc == 1 && moment == 2 {
			work()
		}
		for n := 0; n < 2500; n++ {
			i := group[c.Intn(len(group))]
			if w.val[i] != 0 {
				w.del(i, doFinalize)
			}
			w.put(i)
		}
		m.cycle()
	}
	t.ReleaseAllocator(held)
	w.a = t
	w.checkLen()
	m.judge(cycles/3, 600)
	w.flushKinds()
	c.Exec(cycles)
	c.Distinct(mix(uint64(c.i)) ^ uint64(m.last))
	c.Sample("%s: blocks %v, fresh words %v", what, m.blocks, m.fresh)
	t.Close()
}
