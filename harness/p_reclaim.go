package main

import (
	"bytes"
	"fmt"
	"sort"
	"sync"
	"sync/atomic"

	"github.com/jayloop/radix"
)

// C07: readers while memory is recycled as fast as possible.

func init() {
	checks["C07"] = check{
		seq: func(r *run) {
			o := coopOpt{mixes: []coopMix{mixReaders, mixRecycle}, ops: 2, poison: true}
			r.Each("pairs", r.n(500, 5000), func(c *ctx) { coopPairs(c, o, 160) })
			r.Each("stages", r.n(900, 9000), reclaimStages)
			o = coopOpt{mixes: []coopMix{mixReaders, mixRecycle, mixRecycle}, ops: 4, poison: true}
			r.Each("threads", r.n(300, 3000), func(c *ctx) { coopRandom(c, o, 160) })
			o = coopOpt{mixes: []coopMix{mixMap, mixRecycle, mixRecycle}, ops: 4, poison: true, held: 1}
			r.Each("writers", r.n(300, 3000), func(c *ctx) { coopRandom(c, o, 160) })
			r.Each("nested", r.n(450, 4500), func(c *ctx) {
				o := coopOpt{mixes: []coopMix{mixRecycle, mixReaders, mixRecycle}, ops: 1, doers: 5, poison: true, stairs: true}
				if c.i%4 == 0 {
					o.mixes[1] = mixMap
				}
				coopNested(c, o, 6, 40)
			})
			r.Each("batch-boundaries", r.n(240, 2400), func(c *ctx) { batchBoundaries(c, true) })
			r.Each("long-reservations", r.n(120, 1200), longReservations)
		},
		par: func(r *run) {
			r.Each("churn", r.n(36, 360), churn)
		},
	}
}

// poisonAll overwrites reused memory with words that look like leaves with impossible values
func poisonAll(slots []uint64) {
	for i := range slots {
		atomic.StoreUint64(&slots[i], 1<<63|uint64(i)<<20|1<<8|uint64(byte(i)))
	}
}

// reclaimStages: one reader (or prepared writer) is stopped at each of its points in turn while another thread removes and replaces nodes around it,
// lets epochs pass and reuses memory of all sizes, and is then continued.
func reclaimStages(c *ctx) {
	keys, stored, name := template(c)
	if len(keys) == 0 {
		return
	}
	// two threads, and sometimes a third one that lets epochs pass
	allocators := c.Range(2, 4)
	e := newCoopEnv(c, keys, stored, allocators)
	defer e.close(c)
	e.poison = true
	hot := hotKeys(c, len(keys))
	mix := mixReaders
	if c.Chance(1, 3) {
		mix = coopMix{opPut, opDelete, opPutAbort, opInsert}
	}
	reader := e.genProgram(mix, 1, hot)
	// the other thread: remove or add what the reader may look at, let the epoch pass, and use memory again
	var other []cop
	for j := c.Range(1, 3); j > 0; j-- {
		other = append(other, e.genProgram(coopMix{opDelete, opDelete, opPut, opInsert}, c.Range(1, 3), hot)...)
		other = append(other, cop{kind: opBump})
		if c.Chance(1, 2) {
			other = append(other, cop{kind: opBump})
		}
		for k := c.Range(1, 4); k > 0; k-- {
			i := c.Intn(len(keys))
			other = append(other, cop{kind: opDelete, key: i}, cop{kind: opPut, key: i})
			if c.Chance(1, 2) {
				other = append(other, cop{kind: opPut, key: hot[c.Intn(len(hot))]})
			}
		}
	}
	progs := [][]cop{reader, other}
	passing := c.Chance(1, 2)
	if passing {
		progs = append(progs, []cop{{kind: opBump}, {kind: opBump}})
	}
	limit := 60
	step := 1
	if len(keys) > 100 {
		limit, step = 12, 1+c.Intn(12)
	}
	n := 0
	for k := 0; n < limit; k += step {
		st := &pauseStrategy{order: []int{0, 1, 0}, upto: []int{k, -1, -1}}
		if c.Chance(1, 6) {
			// the other thread is also stopped for a while
			st = &pauseStrategy{order: []int{0, 1, 0, 1, 0}, upto: []int{k, c.Intn(40), 1 + c.Intn(3), -1, -1}}
		}
		if passing && c.Chance(2, 3) {
			// the other thread has started, an epoch passes, then the reader starts
			st = &pauseStrategy{order: []int{1, 2, 0, 1, 2, 0}, upto: []int{c.Intn(25), 2 + c.Intn(3), k, -1, -1, -1}}
		}
		s := e.runSchedule(progs, st, allocators > len(progs) && c.Chance(1, 2))
		n++
		c.Exec(1)
		h := s.hash
		h.add(hashString(fmt.Sprint(progs)), c.seed)
		if s.switch_ > 1 {
			c.Distinct(uint64(h))
		}
		if len(e.s.threads) > 0 && e.s.threads[0].steps < k {
			break
		}
	}
	c.Sample("%s: %v stopped at each of %d points for %v", name, reader, n, other)
	e.w.flushKinds()
	e.w.atRest()
}

// batchBoundaries: an iteration is stopped around the moment when it has read its first batch and remembers where to go on, while the nodes it
// goes back to are replaced and their memory is used again.
func batchBoundaries(c *ctx, recycle bool) {
	var p, q []byte
	for _, b := range []*[]byte{&p, &q} {
		*b = make([]byte, pick(c.rng, 0, 0, 1, 3, 8, 9, 254, 255, 300))
		for i := range *b {
			(*b)[i] = byte(c.Intn(3))
		}
	}
	cat := func(parts ...[]byte) (k []byte) {
		for _, part := range parts {
			k = append(k, part...)
		}
		return
	}
	var ks [][]byte
	first := pick(c.rng, 140, 200)
	for i := 0; i < first; i++ {
		ks = append(ks, cat(p, []byte{10}, q, []byte{20, byte(i)}))
	}
	// the first batch ends in or after these
	for i := 0; i < pick(c.rng, 255, 256, 257, 258, 280)-first; i++ {
		ks = append(ks, cat(p, []byte{10}, q, []byte{30, 1, byte(i)}))
	}
	late := len(ks)
	for i := c.Range(2, 5); i > 0; i-- {
		ks = append(ks, cat(p, []byte{10}, q, []byte{30, byte(2 + i)}))
		ks = append(ks, cat(p, []byte{10}, q, []byte{byte(30 + i)}, bytes.Repeat([]byte{byte(i)}, c.Intn(3)), []byte{byte(c.Intn(3)), byte(i)}))
		ks = append(ks, cat(p, []byte{byte(10 + i), byte(c.Intn(3)), 1}))
		if c.Chance(1, 2) {
			ks = append(ks, cat(p, []byte{byte(10 + i), 7}))
		}
	}
	ks = append(ks, cat(p, []byte{5}), cat(p, []byte{10}, q, []byte{15}))
	if len(p) > 1 {
		ks = append(ks, cat(p[:len(p)-1], []byte{8, 1}))
	}
	if len(q) > 1 {
		ks = append(ks, cat(p, []byte{10}, q[:len(q)-1], []byte{9, 1}))
	}
	u := finish("batches", ks)
	keys := u.keys
	if late > len(keys)-3 {
		late = len(keys) - 3
	}
	stored := make([]bool, len(keys))
	for i := range stored {
		stored[i] = i < late || c.Chance(2, 3)
	}
	e := newCoopEnv(c, keys, stored, c.Range(2, 4))
	defer e.close(c)
	e.poison = recycle
	mix := coopMix{opDelete, opDelete, opPut, opInsert}
	var hot []int
	for j := c.Range(2, 5); j > 0; j-- {
		hot = append(hot, late+c.Intn(len(keys)-late))
	}
	if c.Chance(1, 3) {
		hot = append(hot, c.Intn(3))
	}
	length := 0
	for n := 0; n < 14; n++ {
		var prefix []byte
		if c.Chance(1, 3) {
			prefix = keys[late/2][:c.Intn(len(p)+len(q)+2)]
		}
		progs := [][]cop{{{kind: opIter, prefix: prefix}}}
		var other []cop
		for j := c.Range(1, 3); j > 0; j-- {
			other = append(other, e.genProgram(mix, c.Range(1, 3), hot)...)
			if recycle {
				other = append(other, cop{kind: opBump})
				for k := c.Range(0, 3); k > 0; k-- {
					i := late + c.Intn(len(keys)-late)
					other = append(other, cop{kind: opDelete, key: i}, cop{kind: opPut, key: i})
				}
			}
		}
		progs = append(progs, other)
		st := &pauseStrategy{order: []int{0, 1, 0}, upto: []int{-1, -1, -1}}
		if n > 0 {
			// most of the first part is not interesting
			k := length - c.Intn(70)
			if k < 1 {
				k = 1
			}
			st.upto[0] = k
			if c.Chance(1, 3) {
				st = &pauseStrategy{order: []int{0, 1, 0, 1, 0}, upto: []int{k, c.Intn(30), 1 + c.Intn(3), -1, -1}}
			}
		}
		s := e.runSchedule(progs, st, false)
		if n == 0 || s.threads[0].steps < length {
			length = s.threads[0].steps
		}
		c.Exec(1)
		h := s.hash
		h.add(hashString(fmt.Sprint(progs)), c.seed)
		if s.switch_ > 1 {
			c.Distinct(uint64(h))
		}
	}
	c.Sample("batches: %d keys, the first batch ends around key %d", len(keys), late)
	e.w.flushKinds()
	e.w.atRest()
}

// longReservations: operations stay prepared, and iterations half way, while everything else is replaced many times
func longReservations(c *ctx) {
	u := genUniverse(c.rng, c.i%numUniverses, pick(c.rng, 20, 60, 200))
	n := len(u.keys)
	t := radix.NewTree(&radix.Options{NumAllocators: 6})
	defer c.close(t)
	w := newWorld(c, t, u.keys)
	radix.VerifReuse = poisonReuse(c)
	defer func() { radix.VerifReuse = nil }()
	for _, i := range c.Perm(n)[:n-n/4] {
		w.put(i)
	}
	alloc := t.GetAllocator()
	defer t.ReleaseAllocator(alloc)
	for round := 0; round < 12; round++ {
		// prepare
		i := c.Intn(n)
		del := w.val[i] != 0 && c.Chance(1, 2)
		var up *radix.UpdateOperation
		var dl *radix.DeleteOperation
		key := append([]byte(nil), u.keys[i]...)
		if del {
			_, dl = alloc.PrepareDelete(key)
			if dl == nil {
				c.Fail("PrepareDelete of a stored key finds nothing")
			}
		} else {
			var found bool
			found, up = alloc.PrepareUpdate(key)
			if found {
				j := w.candidate("PrepareUpdate", key, up.Value)
				up.FetchedKey = append(up.FetchedKey[:0], u.keys[j]...)
				up.Match = i == j
			}
		}
		// keys whose operations do not need anything this operation has locked
		reserve := func() {
			for k := 0; k < 60; k++ {
				j := c.Intn(n)
				if j == i || !w.canLock(j) {
					continue
				}
				if w.val[j] != 0 && c.Chance(1, 2) {
					w.del(j, doFinalize)
				} else {
					w.put(j)
				}
				if k%10 == 0 {
					radix.VerifBumpEpoch(t)
				}
			}
		}
		reserve()
		// the prepared operation still sees what it saw
		if del {
			if dl.Value != w.val[i] || !dl.Finalize() {
				c.Fail("delete of key %d prepared for long does not succeed, or has another value", i)
			}
			w.set(i, 0)
			w.n--
		} else {
			abort := c.Chance(1, 4)
			if abort {
				up.Abort()
			} else {
				// the candidate may have changed only if it was another key sharing the position
				v := w.value(i)
				if !up.Finalize(v) {
					c.Fail("update of key %d prepared for long does not succeed", i)
				}
				if w.val[i] == 0 {
					w.n++
				}
				w.set(i, v)
			}
		}
		w.checkLookups()
		w.checkIter(nil)
		w.checkLeaves()
	}
	w.atRestHeld()
	c.Exec(1)
	c.Distinct(uint64(w.h))
	c.Sample("%s, %d keys: 12 operations prepared for 60 others", u.name, n)
	w.flushKinds()
}

// canLock tells if operations on the key could be prepared now without waiting for another one
func (w *world) canLock(i int) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(violation); !is {
				panic(e)
			}
		}
	}()
	// a prepare that would wait is given up by a panic; its allocator is lost then, so a spare one is used
	a := w.spare()
	countSteps(100000, 0, func() {
		_, op := a.PrepareUpdate(w.keys[i])
		op.Abort()
		if found, op := a.PrepareDelete(w.keys[i]); found {
			op.Abort()
		}
	})
	return true
}

// spare is an allocator used for attempts
func (w *world) spare() *radix.Allocator {
	if w.spareAlloc == nil {
		w.spareAlloc = w.t.GetAllocator()
	}
	return w.spareAlloc
}

// checkLeaves is checkLen for a tree where allocators are held: the leaves counted
func (w *world) checkLeaves() {
	_, leaves := w.t.Count(nil)
	if leaves != w.n {
		w.c.Fail("%d leaves are counted, there are %d stored keys", leaves, w.n)
	}
}

func (w *world) atRestHeld() {
	if w.spareAlloc != nil {
		// an attempt that was given up leaves its reservation
		w.spareAlloc.Lookup([]byte{0})
		w.t.ReleaseAllocator(w.spareAlloc)
		w.spareAlloc = nil
	}
	w.atRest()
}

// supersede records when versions of a key stopped being stored
type supersede struct {
	mu   sync.Mutex
	ring [64]struct {
		v    uint64
		time int64
	}
	n int
}

func (s *supersede) add(v uint64, time int64) {
	s.mu.Lock()
	s.ring[s.n%64].v = v
	s.ring[s.n%64].time = time
	s.n++
	s.mu.Unlock()
}

// removed returns the time v was removed, or 0 if that is not known
func (s *supersede) removed(v uint64) int64 {
	s.mu.Lock()
	defer s.mu.Unlock()
	for k := s.n - 1; k >= 0 && k >= s.n-64; k-- {
		if s.ring[k%64].v == v {
			return s.ring[k%64].time
		}
	}
	if s.n > 64 && v < s.ring[s.n%64].v {
		// older than anything known
		return s.ring[s.n%64].time
	}
	return 0
}

// churn: writers replace nodes as fast as they can, each key being written by one goroutine only, while readers verify that they only see what is stored,
// and always find what nobody touches.
func churn(c *ctx) {
	perturb(c)
	u := genUniverse(c.rng, c.i%numUniverses, pick(c.rng, 8, 30, 100, 300, 1000))
	n := len(u.keys)
	writers, readers := c.Range(2, 4), c.Range(2, 4)
	t := radix.NewTree(&radix.Options{NumAllocators: writers + readers + 2})
	keyOf := func(v uint64) int { return int(v & (1<<17 - 1)) }
	p := &parTree{c: c, t: t, keys: u.keys, keyOf: keyOf}
	if c.Chance(3, 4) {
		radix.VerifReuse = poisonAll
	}
	defer func() { radix.VerifReuse = nil }()
	// version: value = 1<<54 | version<<17 | key, sentinels have version 0
	sentinel := make([]bool, n)
	cur := make([]uint64, n)
	gone := make([]supersede, n)
	frac := pick(c.rng, 2, 3, 8)
	for i := range sentinel {
		if sentinel[i] = c.Chance(1, frac); sentinel[i] {
			v := 1<<54 | uint64(i)
			p.put(t, i, func(uint64, bool) (uint64, bool) { return v, true })
			cur[i] = v
		}
	}
	var clock atomic.Int64
	clock.Store(1)
	// see verifies a value returned by an operation called at the given time
	see := func(what string, v uint64, call int64) int {
		k := keyOf(v)
		if v>>54 != 1 || k >= n {
			c.Fail("%s returned value %x which was never stored", what, v)
		}
		if sentinel[k] {
			if v != 1<<54|uint64(k) {
				c.Fail("%s returned value %x for key %d, which always had %x", what, v, k, 1<<54|uint64(k))
			}
			return k
		}
		if at := gone[k].removed(v); at != 0 && at <= call {
			c.Fail("%s returned version %d of key %d, which was removed before the call", what, v<<10>>27, k)
		}
		return k
	}
	var stop atomic.Bool
	left := atomic.Int32{}
	left.Store(int32(readers))
	var fs []func(int)
	var versions, reads atomic.Int64
	for g := 0; g < writers; g++ {
		seed := c.Uint64()
		g := g
		fs = append(fs, func(int) {
			r := newRng(seed)
			var a api = t
			if g%2 == 0 {
				h := t.GetAllocator()
				defer t.ReleaseAllocator(h)
				a = h
			}
			ver := uint64(0)
			mine := []int{}
			for i := range u.keys {
				if !sentinel[i] && i%writers == g {
					mine = append(mine, i)
				}
			}
			if len(mine) == 0 {
				return
			}
			for k := 0; !stop.Load() && !c.stop(); k++ {
				i := mine[r.Intn(len(mine))]
				old := cur[i]
				if old != 0 && r.Chance(1, 2) {
					v, ok := p.del(a, i)
					if !ok || v != old {
						c.Fail("delete of key %d (only written by this goroutine) gives %x,%v, should be %x", i, v, ok, old)
					}
					cur[i] = 0
				} else {
					ver++
					v := 1<<54 | ver<<17 | uint64(i)
					was, present, _ := p.put(a, i, func(uint64, bool) (uint64, bool) { return v, true })
					if present != (old != 0) || present && was != old {
						c.Fail("update of key %d (only written by this goroutine) sees %x,%v, should be %x", i, was, present, old)
					}
					cur[i] = v
				}
				if old != 0 {
					gone[i].add(old, clock.Add(1))
				}
				if k%8 == 0 && g == 0 {
					radix.VerifBumpEpoch(t)
				}
			}
			versions.Add(int64(ver))
		})
	}
	var digest atomic.Uint64
	for g := 0; g < readers; g++ {
		seed := c.Uint64()
		fs = append(fs, func(int) {
			defer func() {
				if left.Add(-1) == 0 {
					stop.Store(true)
				}
			}()
			r := newRng(seed)
			var h hasher
			var a api = t
			if g%2 == 0 {
				al := t.GetAllocator()
				defer t.ReleaseAllocator(al)
				a = al
			}
			var it *radix.Iterator
			for k := 0; k < 4000 && !c.stop(); k++ {
				call := clock.Load()
				i := r.Intn(n)
				switch x := r.Intn(40); {
				case x < 34:
					v, found := a.Lookup(u.keys[i])
					if sentinel[i] && (!found || v != 1<<54|uint64(i)) {
						c.Fail("Lookup of key %d gives %x,%v, it always had %x", i, v, found, 1<<54|uint64(i))
					}
					if found {
						see("Lookup", v, call)
					}
					h.add(v)
				case x < 38:
					key := u.keys[i]
					prefix := key[:r.Intn(min(len(key), 4)+1)]
					lo := sort.Search(n, func(i int) bool { return bytes.Compare(u.keys[i], prefix) >= 0 })
					hi := lo
					first, last := -1, -1
					for ; hi < n && bytes.HasPrefix(u.keys[hi], prefix); hi++ {
						if sentinel[hi] {
							if first < 0 {
								first = hi
							}
							last = hi
						}
					}
					v, ok := t.MinKey(prefix)
					if ok {
						if k := see("MinKey", v, call); first >= 0 && (k > first || k < lo) {
							c.Fail("MinKey(%s) gives key %d, but key %d is always stored", show(prefix), k, first)
						}
					} else if first >= 0 {
						c.Fail("MinKey(%s) finds nothing, but key %d is always stored", show(prefix), first)
					}
					call = clock.Load()
					v, ok = t.MaxKey(prefix)
					if ok {
						if k := see("MaxKey", v, call); first >= 0 && (k < last || k >= hi) {
							c.Fail("MaxKey(%s) gives key %d, but key %d is always stored", show(prefix), k, last)
						}
					} else if first >= 0 {
						c.Fail("MaxKey(%s) finds nothing, but key %d is always stored", show(prefix), last)
					}
				case x == 38:
					_, leaves := t.Count(nil)
					s := 0
					for i := range sentinel {
						if sentinel[i] {
							s++
						}
					}
					if leaves < s {
						c.Fail("Count gives %d leaves, but %d keys are always stored", leaves, s)
					}
				default:
					if it == nil {
						it = t.NewIterator(nil)
					} else {
						it.Reset(nil)
					}
					pos, prev, cnt := 0, -1, 0
					for pos < n && !sentinel[pos] {
						pos++
					}
					for {
						// values are read in batches, the first of a batch may be older than this call
						if !it.Next() {
							break
						}
						v := it.Value()
						k := see("iteration", v, call)
						if cnt++; cnt > 40*n+1000 {
							c.Fail("iteration does not end")
						}
						if !sentinel[k] || k == prev {
							continue
						}
						if k != pos {
							c.Fail("iteration returned key %d, the next always stored key is %d", k, pos)
						}
						prev = k
						for pos++; pos < n && !sentinel[pos]; pos++ {
						}
					}
					if pos < n {
						c.Fail("iteration missed key %d", pos)
					}
					h.add(uint64(cnt))
				}
			}
			if it != nil {
				it.Close()
			}
			reads.Add(4000)
			digest.Add(uint64(h))
		})
	}
	c.free(fs...)
	// everything is as the writers left it
	for i, k := range u.keys {
		v, found := t.Lookup(k)
		if is := found && keyOf(v) == i; is != (cur[i] != 0) || is && v != cur[i] {
			c.Fail("at the end Lookup of key %d gives %x,%v, should be %x", i, v, found, cur[i])
		}
	}
	inspect(c, t)
	c.Exec(reads.Load())
	c.r.count("versions written", versions.Load())
	c.Distinct(digest.Load())
	c.Sample("%s, %d keys: %d writers wrote %d versions during %d reads, %d epochs", u.name, n, writers, versions.Load(), reads.Load(), statsOf(t)["current_epoch"])
	t.Close()
}
