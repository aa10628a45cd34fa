package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/jayloop/radix"
)

func init() {
	checks["C21"] = check{seq: func(r *run) {
		r.Each("configurations", r.n(400, 4000), configurations)
		r.Each("builds", r.n(160, 1600), func(c *ctx) {
			h := runScript(c, makeScript(c), pick(c.rng, 1, 2, 7), pick(c.rng, "tree", "held", "mixed"))
			c.r.mu.Lock()
			c.r.res.Digests[fmt.Sprintf("builds %d", c.i)] = fmt.Sprintf("%016x", uint64(h))
			c.r.mu.Unlock()
			c.Exec(1)
			c.Distinct(uint64(h))
		})
		r.Each("crowded", r.n(160, 1600), func(c *ctx) {
			c.crowd = true
			switch c.i % 4 {
			case 0:
				coopRandom(c, coopOpt{mixes: []coopMix{mixReaders, mixRecycle, mixRecycle}, ops: 4, poison: true, held: 1}, 100)
			case 1:
				coopNested(c, nestedMap, 4, 30)
			default:
				reclaimStages(c)
			}
		})
	}}
	checks["C22"] = check{seq: func(r *run) {
		r.Each("interleaved-trees", r.n(300, 3000), interleavedTrees)
		r.Each("open-operations", r.n(300, 3000), openOperations)
		r.Each("buffers", r.n(300, 3000), func(c *ctx) {
			dirtyPools(c)
			w := history(c, histOpt{kind: c.i % numUniverses, maxN: 200, aborts: 4, poison: true, restRate: 30,
				each: func(w *world, k int) {
					w.lookup(k)
					if c.Chance(1, 20) {
						dirtyPools(c)
					}
				},
				rest: func(w *world) {
					w.checkAll()
					for _, p := range w.prefixes(4) {
						w.checkIter(p)
						w.checkMinMax(p)
						w.checkCount(p)
					}
				}})
			w.done()
		})
	}}
	checks["C24"] = check{
		seq: func(r *run) {
			r.Each("lifecycle", r.n(120, 1200), lifecycle)
			r.Each("failed-loads", r.n(40, 400), failedLoads)
			r.Each("close-waits", r.n(60, 600), closeWaits)
			r.Each("close-needs-memory", r.n(80, 800), closeNeedsBlock)
		},
		par: func(r *run) {
			r.Each("first-use", r.n(600, 6000), firstUse)
		},
	}
	checks["C25"] = check{seq: func(r *run) {
		r.Each("histories", r.n(300, 3000), func(c *ctx) {
			w := history(c, histOpt{kind: c.i % numUniverses, maxN: 400, aborts: 10, restRate: 60, rest: diagnose, each: describeOps})
			w.done()
		})
		r.Each("small", r.n(400, 4000), func(c *ctx) {
			w := history(c, histOpt{kind: c.i % numUniverses, n: c.Range(1, 8), phases: 4, restRate: 3, rest: diagnose, each: describeOps})
			w.done()
		})
		r.Each("descriptions", r.n(200, 2000), descriptions)
		r.Each("while-busy", r.n(60, 600), busyDiagnostics)
	}}
}

// ---- C21 ----

type scriptOp struct {
	kind   int
	key    int
	value  uint64
	prefix []byte
}

type script struct {
	u   *universe
	ops []scriptOp
}

func makeScript(c *ctx) *script {
	s := &script{u: genUniverse(c.rng, c.i%numUniverses, pick(c.rng, 2, 6, 20, 60, 200, 500))}
	n := len(s.u.keys)
	if n == 0 {
		return s
	}
	bias := 5
	for j := 0; j < min(8*n, 1200); j++ {
		if j%200 == 0 {
			bias = c.Range(1, 9)
		}
		o := scriptOp{key: c.Intn(n)}
		switch c.Intn(16) {
		case 0, 1, 2, 3, 4, 5, 6, 7:
			if c.Intn(10) < bias {
				o.kind = 0
				o.value = c.Uint64()>>10<<17 | uint64(o.key)
			} else {
				o.kind = 1
			}
		case 8, 9:
			o.kind = 2
		case 10:
			o.kind = 3
		case 11:
			o.kind = 4
		case 12:
			o.kind = 5 + c.Intn(2)
		case 13:
			o.kind = 7
		case 14:
			o.kind = 8
		case 15:
			o.kind = 9
		}
		k := s.u.keys[o.key]
		o.prefix = append([]byte(nil), k[:c.Intn(min(len(k), 6)+1)]...)
		if o.kind == 2 && c.Chance(1, 4) {
			o.prefix = append(o.prefix, byte(c.Uint64()))
			o.kind = 10
		}
		s.ops = append(s.ops, o)
	}
	return s
}

// runScript executes the script in the given configuration, returning a hash of all results
func runScript(c *ctx, s *script, allocs int, mode string) (h hasher) {
	t := radix.NewTree(&radix.Options{NumAllocators: allocs})
	defer c.close(t)
	if x := fmt.Sprint(statsOf(t)["allocators"]); x != fmt.Sprint(allocs) {
		c.Fail("%d allocators were requested, there are %s", allocs, x)
	}
	bumpEvery := newRng(c.seed ^ uint64(allocs))
	var held []*radix.Allocator
	release := func() {
		for _, a := range held {
			t.ReleaseAllocator(a)
		}
		held = nil
	}
	use := func(j int) api {
		switch {
		case mode == "tree", mode == "mixed" && j%3 == 0:
			release()
			return t
		}
		if len(held) == 0 {
			for k := 0; k < allocs; k++ {
				held = append(held, t.GetAllocator())
			}
		}
		return held[j%len(held)]
	}
	b := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	keys := s.u.keys
	for j, o := range s.ops {
		if radix.VerifWhiteBox && bumpEvery.Chance(1, 20) {
			radix.VerifBumpEpoch(t)
		}
		h.add(uint64(o.kind))
		switch o.kind {
		case 0, 3: // update, or its abort
			found, op := use(j).PrepareUpdate(keys[o.key])
			h.add(b(found), op.Value)
			if found {
				k := keys[op.Value&(1<<17-1)]
				op.FetchedKey = append(op.FetchedKey[:0], k...)
				op.Match = bytes.Equal(k, keys[o.key])
			}
			if o.kind == 3 {
				op.Abort()
			} else {
				h.add(b(op.Finalize(o.value)))
			}
		case 1, 4:
			found, op := use(j).PrepareDelete(keys[o.key])
			h.add(b(found))
			if found {
				h.add(op.Value)
				if o.kind == 4 || int(op.Value&(1<<17-1)) != o.key {
					op.Abort()
				} else {
					h.add(b(op.Finalize()))
				}
			}
		case 2:
			v, found := use(j).Lookup(keys[o.key])
			h.add(v, b(found))
		case 10:
			v, found := use(j).Lookup(o.prefix)
			h.add(v, b(found))
		case 5, 6:
			release()
			it := t.NewIterator(o.prefix)
			for it.Next() {
				h.add(it.Value())
			}
			it.Close()
		case 7:
			release()
			v, ok := t.MinKey(o.prefix)
			h.add(v, b(ok))
			v, ok = t.MaxKey(o.prefix)
			h.add(v, b(ok))
		case 8:
			release()
			n, l := t.Count(o.prefix)
			h.add(uint64(n), uint64(l))
		case 9:
			release()
			h.add(uint64(t.Len()))
		}
	}
	release()
	d := treeDigest(t)
	h.add(d.values...)
	h.add(hashString(d.shape), uint64(d.nodes), uint64(d.leaves), uint64(d.length))
	c.r.count("operations", int64(len(s.ops)))
	return
}

func configurations(c *ctx) {
	s := makeScript(c)
	want := runScript(c, s, 1, "tree")
	for _, allocs := range []int{1, 2, 3, pick(c.rng, 4, 5, 8), pick(c.rng, 16, 33, 64)} {
		for _, mode := range []string{"tree", "held", "mixed"} {
			if c.Chance(1, 3) {
				continue
			}
			if got := runScript(c, s, allocs, mode); got != want {
				c.Fail("%d operations give other results with %d allocators (%s) than with 1 (tree)", len(s.ops), allocs, mode)
			}
			c.Exec(1)
		}
	}
	c.Distinct(uint64(want))
	c.Sample("%s: %d keys, %d operations", s.u.name, len(s.u.keys), len(s.ops))
}

// ---- C22 ----

// dirtyPools leaves operations, iterators and buffers with all kinds of contents in the pools
func dirtyPools(c *ctx) {
	t := radix.NewTree(&radix.Options{NumAllocators: 3})
	defer c.close(t)
	u := genUniverse(c.rng, pick(c.rng, 6, 7, 9, 10, 11, 8), c.Range(4, 60))
	w := newWorld(c, t, u.keys)
	var uops []*radix.UpdateOperation
	for j := 0; j < 3*len(w.keys); j++ {
		i := c.Intn(len(w.keys))
		switch c.Intn(4) {
		case 0:
			w.del(i, doFinalize)
		case 1:
			w.update(i, 0, doAbort)
		default:
			w.put(i)
		}
	}
	// several at a time, so that there is more than one in the pool; left by kinds of their own
	for j := 0; j < 2 && len(w.keys) > 4; j++ {
		i := c.Intn(len(w.keys) / 2)
		if j == 1 {
			i += len(w.keys) / 2
		}
		// operations on the same nodes would wait for each other: only take it if it does not
		if len(uops) == 0 {
			found, op := t.PrepareUpdate(w.keys[i])
			op.FetchedKey = append(op.FetchedKey[:0], "a fetched key that was left"...)
			op.Match = true
			_ = found
			uops = append(uops, op)
		}
	}
	for _, op := range uops {
		op.Abort()
	}
	it := t.NewIterator(nil)
	for j := c.Intn(5); j > 0; j-- {
		it.Next()
	}
	it.Close()
	it2 := t.NewIterator(w.somePrefix())
	for it2.Next() {
	}
	it2.Close()
}

func interleavedTrees(c *ctx) {
	n := c.Range(2, 4)
	var ws []*world
	var its []*radix.Iterator
	for k := 0; k < n; k++ {
		u := genUniverse(c.rng, c.Intn(numUniverses), pick(c.rng, 3, 10, 40, 150))
		if k > 0 && c.Chance(1, 2) {
			// the same keys as another one
			u = &universe{"same", ws[0].keys}
		}
		w := newWorld(c, radix.NewTree(&radix.Options{NumAllocators: pick(c.rng, 1, 2, 4)}), u.keys)
		w.ver = uint64(k) << 30
		ws = append(ws, w)
	}
	counter := radix.NewCounter(ws[0].t)
	for j := 0; j < 400; j++ {
		w := ws[c.Intn(n)]
		if len(w.keys) == 0 {
			continue
		}
		i := c.Intn(len(w.keys))
		switch c.Intn(9) {
		case 0, 1, 2:
			w.put(i)
		case 3, 4:
			w.del(i, doFinalize)
		case 5:
			w.update(i, 0, doAbort)
		case 6:
			w.del(i, doAbort)
		case 7:
			w.lookup(i)
		case 8:
			w.checkIter(w.somePrefix())
		}
		if radix.VerifWhiteBox && c.Chance(1, 30) {
			radix.VerifBumpEpoch(w.t)
		}
		if c.Chance(1, 20) {
			for _, o := range ws {
				if len(o.keys) > 0 {
					o.lookup(c.Intn(len(o.keys)))
				}
				o.checkLen()
			}
			// a counter that was used before on the tree
			w := ws[0]
			p := w.somePrefix()
			ids := w.present(p)
			nodes, leaves := counter.Count(p)
			fresh := radix.NewCounter(w.t)
			fn, fl := fresh.Count(p)
			if nodes != fn || leaves != fl || fmt.Sprint(counter.NodeSizes) != fmt.Sprint(fresh.NodeSizes) || counter.TotalPrefixLength != fresh.TotalPrefixLength ||
				counter.NodesWithPrefix != fresh.NodesWithPrefix || counter.TotalPrefixBytes != fresh.TotalPrefixBytes || counter.LargePrefixes != fresh.LargePrefixes {
				c.Fail("a counter used before gives %d nodes %d leaves %+v, a new one %d nodes %d leaves", nodes, leaves, counter.TotalPrefixLength, fn, fl)
			}
			if len(ids) > 0 && leaves != len(ids) {
				c.Fail("counter gives %d leaves for prefix %s, there are %d keys", leaves, show(p), len(ids))
			}
		}
	}
	// iterations over all trees at the same time
	for _, w := range ws {
		its = append(its, w.t.NewIterator(nil))
	}
	pos := make([][]int, n)
	at := make([]int, n)
	for k, w := range ws {
		pos[k] = w.present(nil)
	}
	for open := n; open > 0; {
		k := c.Intn(n)
		if at[k] < 0 {
			continue
		}
		more := its[k].Next()
		if more != (at[k] < len(pos[k])) {
			c.Fail("iteration over tree %d: next is %v at position %d of %d", k, more, at[k], len(pos[k]))
		}
		if !more {
			at[k] = -1
			open--
			its[k].Close()
			continue
		}
		if v := its[k].Value(); v != ws[k].val[pos[k][at[k]]] {
			c.Fail("iteration over tree %d gives %d at position %d, should be %d", k, v, at[k], ws[k].val[pos[k][at[k]]])
		}
		at[k]++
	}
	for _, w := range ws {
		w.checkAll()
		w.atRest()
		c.Distinct(uint64(w.h))
	}
	c.Sample("%d trees with %d, %d keys", n, len(ws[0].keys), len(ws[1].keys))
	for _, w := range ws {
		w.done()
	}
}

// openOperations: operations on several trees, and on independent parts of one tree, are prepared at the same time and ended in any order
func openOperations(c *ctx) {
	const trees = 3
	var ws []*world
	for k := 0; k < trees; k++ {
		u := genUniverse(c.rng, pick(c.rng, 0, 3, 6, 7, 8, 9, 11), pick(c.rng, 3, 10, 60))
		w := newWorld(c, radix.NewTree(&radix.Options{NumAllocators: 2}), u.keys)
		w.ver = uint64(k) << 30
		for i := range w.keys {
			if c.Chance(2, 3) {
				w.put(i)
			}
		}
		ws = append(ws, w)
	}
	for round := 0; round < 60; round++ {
		type open struct {
			w   *world
			i   int
			up  *radix.UpdateOperation
			del *radix.DeleteOperation
			key []byte
			cp  []byte
		}
		var ops []*open
		for _, k := range c.Perm(trees) {
			w := ws[k]
			if len(w.keys) == 0 || c.Chance(1, 4) {
				continue
			}
			o := &open{w: w, i: c.Intn(len(w.keys))}
			o.key = append([]byte(nil), w.keys[o.i]...)
			o.cp = append([]byte(nil), o.key...)
			if c.Chance(1, 2) {
				found, op := w.t.PrepareUpdate(o.key)
				o.up = op
				if w.val[o.i] != 0 && (!found || op.Value != w.val[o.i]) {
					c.Fail("PrepareUpdate(%s) gives %v %d, should be %d", show(o.key), found, op.Value, w.val[o.i])
				}
				if found {
					j := w.candidate("PrepareUpdate", o.key, op.Value)
					op.FetchedKey = append(op.FetchedKey[:0], w.keys[j]...)
					op.Match = j == o.i
				} else if op.Match || op.Value != 0 || len(op.FetchedKey) > 0 {
					c.Fail("a newly prepared operation has Match=%v, value %d and fetched key %s", op.Match, op.Value, show(op.FetchedKey))
				}
			} else {
				found, op := w.t.PrepareDelete(o.key)
				if w.val[o.i] != 0 && (!found || op.Value != w.val[o.i]) {
					c.Fail("PrepareDelete(%s) gives %v, should find %d", show(o.key), found, w.val[o.i])
				}
				if !found {
					continue
				}
				o.del = op
				j := w.candidate("PrepareDelete", o.key, op.Value)
				if j != o.i {
					op.Abort()
					continue
				}
			}
			ops = append(ops, o)
			// readers of this and the other trees meanwhile
			for _, x := range ws {
				if len(x.keys) > 0 {
					x.lookup(c.Intn(len(x.keys)))
				}
			}
		}
		for _, k := range c.Perm(len(ops)) {
			o := ops[k]
			v := o.w.value(o.i)
			switch {
			case c.Chance(1, 3):
				if o.up != nil {
					o.up.Abort()
				} else {
					o.del.Abort()
				}
			case o.up != nil:
				if !o.up.Finalize(v) {
					c.Fail("Finalize failed with nothing else in progress on this tree")
				}
				if o.w.val[o.i] == 0 {
					o.w.n++
				}
				o.w.set(o.i, v)
			default:
				if !o.del.Finalize() {
					c.Fail("Finalize failed with nothing else in progress on this tree")
				}
				o.w.set(o.i, 0)
				o.w.n--
			}
			if !bytes.Equal(o.key, o.cp) {
				c.Fail("the key slice of an operation was modified")
			}
			for b := range o.key {
				o.key[b] = 0x5a
			}
			o.w.lookup(o.i)
		}
	}
	for _, w := range ws {
		w.checkAll()
		w.atRest()
		c.Distinct(uint64(w.h) ^ c.seed)
		w.done()
	}
	c.Sample("3 trees, 60 rounds of operations prepared at the same time")
}

// ---- C24 ----

func lifecycle(c *ctx) {
	base := runtime.NumGoroutine()
	var trees []*radix.Tree
	var held []*world
	n := c.Range(1, 12)
	for k := 0; k < n; k++ {
		u := genUniverse(c.rng, c.Intn(numUniverses), pick(c.rng, 1, 5, 40, 300))
		opt := &radix.Options{NumAllocators: pick(c.rng, 0, 1, 2, 8)}
		if c.Chance(1, 4) {
			opt = nil
		}
		t := radix.NewTree(opt)
		w := newWorld(c, t, u.keys)
		for i := range w.keys {
			w.put(i)
		}
		switch c.Intn(7) {
		case 0:
			w.checkAll()
		case 1:
			data := save(c, t)
			t.Start()
			t2 := load(c, data)
			if len(w.keys) > 0 {
				v, found := t2.Lookup(w.keys[0])
				if !found || v != w.val[0] {
					c.Fail("the loaded tree does not find key %s at once", show(w.keys[0]))
				}
				putRaw(t2, w.keys[0], 7, w.keys[0])
			}
			trees = append(trees, t2)
		case 2:
			t.Stop()
			if c.Chance(1, 2) {
				t.Start()
			}
		case 3:
			t.Stop()
			t.WriteState(&failWriter{left: c.Intn(2000), err: errTest})
			t.Start()
		case 4:
			it := t.NewIterator(nil)
			it.Next() // abandoned
		case 5:
			a := t.GetAllocator()
			t.ReleaseAllocator(a)
			t.Count(nil)
		case 6:
			t.Len()
			t.Admin(io.Discard, []string{"allocators"})
			statsOf(t)
		}
		if w.iter != nil {
			w.iter.Close()
			w.iter = nil
		}
		trees = append(trees, t)
		held = append(held, w)
		if c.Chance(1, 3) {
			// close some on the way
			j := c.Intn(len(trees))
			trees[j].Close()
			trees = append(trees[:j], trees[j+1:]...)
		}
	}
	_ = held
	for _, t := range trees {
		done := make(chan bool)
		go func() {
			t.Close()
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			c.Fail("Close never returns")
		}
	}
	settle(c, base, fmt.Sprintf("%d trees were closed", n))
	c.Exec(1)
	c.Distinct(c.seed)
	c.Sample("%d trees, goroutines before %d, after %d", n, base, runtime.NumGoroutine())
}

func failedLoads(c *ctx) {
	base := runtime.NumGoroutine()
	w := smallTree(c, pick(c.rng, 1, 10, 200), pick(c.rng, 1, 4))
	data := save(c, w.t)
	w.t.Start()
	for k := 0; k < 60; k++ {
		cut := c.Intn(len(data))
		if c.Chance(1, 4) {
			mustRefuse(c, "a state from a failing reader", &chunkReader{data: data, next: func() int { return 100 }, fail: cut, err: errTest})
		} else {
			mustRefuse(c, "a truncated state", bytes.NewReader(data[:cut]))
		}
	}
	settle(c, base+1, "60 failed loads (one tree is open)")
	w.done()
	settle(c, base, "the tree was closed")
	c.Exec(60)
	c.Distinct(c.seed)
	c.Sample("state of %d bytes", len(data))
}

// closeWaits: Close does not return while an operation or a reserved allocator is in use
// closeNeedsBlock: an operation in progress while the tree is closed gets the memory it needs
func closeNeedsBlock(c *ctx) {
	base := runtime.NumGoroutine()
	allocs := c.Range(1, 4)
	t := radix.NewTree(&radix.Options{NumAllocators: allocs})
	bs, _ := statsOf(t)["block_size"].(int)
	var a *radix.Allocator
	var work func()
	kind := c.Intn(3)
	switch kind {
	case 0: // nothing stored so far: the first node takes the first block
		a = t.GetAllocator()
		work = func() {
			putRaw2(a, []byte("a"), 1, nil)
			putRaw2(a, []byte("b"), 2, []byte("a"))
		}
	case 1: // a prepared insert
		putRaw(t, []byte("a"), 1, nil)
		found, op := t.PrepareUpdate([]byte("b"))
		work = func() {
			if found {
				op.FetchedKey = append(op.FetchedKey[:0], 'a')
			}
			if !op.Finalize(2) {
				c.setFailed("an insert prepared before Close fails")
			}
		}
	case 2: // several blocks
		a = t.GetAllocator()
		work = func() {
			for j := 0; j < 3; j++ {
				k := append([]byte{byte(j)}, bytes.Repeat([]byte{9}, bs*3/4)...)
				putRaw2(a, append(k, 1), 1, nil)
				putRaw2(a, append(append([]byte(nil), k...), 2), 2, append(k, 1))
			}
		}
	}
	var closed atomic.Bool
	closedCh := make(chan bool)
	go func() {
		t.Close()
		closed.Store(true)
		close(closedCh)
	}()
	for j := 0; j < 100; j++ {
		runtime.Gosched()
		if j%25 == 0 {
			time.Sleep(200 * time.Microsecond)
		}
	}
	worked := make(chan bool)
	go func() {
		work()
		if closed.Load() && a != nil {
			c.setFailed("Close returned while an allocator was held")
		}
		if a != nil {
			t.ReleaseAllocator(a)
		}
		close(worked)
	}()
	for _, ch := range []chan bool{worked, closedCh} {
		select {
		case <-ch:
		case <-time.After(60 * time.Second):
			c.Fail("the tree is being closed while an operation of kind %d needs memory: neither ends (%d allocators)", kind, allocs)
		}
	}
	c.checkFailed()
	settle(c, base, "Close")
	c.Exec(1)
	c.Distinct(c.seed)
	c.Sample("kind %d, %d allocators", kind, allocs)
}

func putRaw2(a *radix.Allocator, key []byte, v uint64, other []byte) {
	found, op := a.PrepareUpdate(key)
	if found {
		op.FetchedKey = append(op.FetchedKey[:0], other...)
		op.Match = bytes.Equal(other, key)
	}
	op.Finalize(v)
}

func closeWaits(c *ctx) {
	base := runtime.NumGoroutine()
	w := smallTree(c, 30, pick(c.rng, 1, 2, 4))
	t := w.t
	var end func()
	i := w.stored()
	switch c.i % 4 {
	case 0:
		_, op := t.PrepareUpdate(w.keys[i])
		end = op.Abort
	case 1:
		_, op := t.PrepareDelete(w.keys[i])
		end = func() { op.Finalize() }
	case 2:
		a := t.GetAllocator()
		end = func() { t.ReleaseAllocator(a) }
	case 3:
		_, op := t.PrepareUpdate(w.keys[i])
		end = func() {
			op.FetchedKey = append(op.FetchedKey[:0], w.keys[i]...)
			op.Match = true
			op.Finalize(5)
		}
	}
	var closed atomic.Bool
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		t.Close()
		closed.Store(true)
	}()
	for j := 0; j < 300; j++ {
		runtime.Gosched()
		if j%50 == 0 {
			time.Sleep(200 * time.Microsecond)
		}
		if closed.Load() {
			c.Fail("Close returned while an operation was in progress (kind %d)", c.i%4)
		}
	}
	end()
	ok := make(chan bool)
	go func() { wg.Wait(); close(ok) }()
	select {
	case <-ok:
	case <-time.After(60 * time.Second):
		c.Fail("Close never returns after the operation ended (kind %d)", c.i%4)
	}
	settle(c, base, "Close")
	c.Exec(1)
	c.Distinct(c.seed)
	c.Sample("operation of kind %d in progress while closing", c.i%4)
}

// firstUse: new trees are used at once, from several goroutines
func firstUse(c *ctx) {
	perturb(c)
	base := runtime.NumGoroutine()
	var data []byte
	if c.Chance(1, 3) {
		w := smallTree(c, 20, 2)
		data = save(c, w.t)
		w.done()
	}
	for k := 0; k < 4; k++ {
		var t *radix.Tree
		n0 := 0
		if data != nil {
			t = load(c, data)
		} else {
			t = radix.NewTree(&radix.Options{NumAllocators: pick(c.rng, 1, 2, 4, 8)})
		}
		n := c.Range(1, 8)
		var fs []func(int)
		for g := 0; g < n; g++ {
			key := []byte{0xfe, byte(g), byte(c.Intn(3)), 0}
			what := c.Intn(6)
			fs = append(fs, func(g int) {
				switch what {
				case 0:
					t.Lookup(key)
				case 1:
					it := t.NewIterator(nil)
					it.Next()
					it.Close()
				case 2:
					t.Count(nil)
				case 3:
					t.MinKey(nil)
				case 4:
					t.Len()
				case 5:
					statsOf(t)
				}
				for try := 0; ; try++ {
					found, op := t.PrepareUpdate(key)
					if found {
						op.FetchedKey = append(op.FetchedKey[:0], 0xfe, byte(op.Value), byte(op.Value>>8), 0)
						if data != nil && op.Value>>20 != 1 {
							c.Fail("unexpected candidate %d", op.Value)
						}
					}
					if op.Finalize(1<<20 | uint64(key[1]) | uint64(key[2])<<8) {
						break
					}
				}
				if v, found := t.Lookup(key); !found || v != 1<<20|uint64(key[1])|uint64(key[2])<<8 {
					c.Fail("a key stored right after creation is not found")
				}
			})
		}
		if data == nil {
			c.free(fs...)
		} else {
			// candidates of the loaded keys have no key to compare with: only if the first byte is free
			n0 = t.Len()
			lo, _ := t.MaxKey([]byte{0xfe})
			_ = lo
			if _, l := t.Count([]byte{0xfe}); l > 0 {
				t.Close()
				continue
			}
			if _, found := t.Lookup([]byte{0xfe, 1}); found {
				t.Close()
				continue
			}
			if _, l := t.Count(nil); l < 2 {
				t.Close()
				continue
			}
			c.free(fs...)
		}
		if l := t.Len(); l != n0+n {
			c.Fail("Len is %d after %d goroutines stored one key each in a tree of %d", l, n, n0)
		}
		t.Close()
	}
	settle(c, base, "closing the trees")
	c.Exec(4)
	c.Distinct(c.seed)
}

// ---- C25 ----

var describeCount atomic.Int64

// describeOps prepares an operation, describes it several times and aborts it
func describeOps(w *world, k int) {
	c := w.c
	if !c.Chance(1, 3) {
		return
	}
	i := k
	if c.Chance(1, 2) {
		i = c.Intn(len(w.keys))
	}
	found, op := w.a.PrepareUpdate(w.keys[i])
	s := op.String()
	if s == "" {
		c.Fail("empty description of an update")
	}
	if found {
		op.FetchedKey = append(op.FetchedKey[:0], w.keys[w.candidate("PrepareUpdate", w.keys[i], op.Value)]...)
		op.Match = bytes.Equal(op.FetchedKey, w.keys[i])
	}
	v := op.Value
	if s2 := op.String(); s2 != s && !found {
		c.Fail("describing an operation twice gives %q and %q", s, s2)
	}
	if op.Value != v {
		c.Fail("describing an operation changed its value")
	}
	if c.Chance(1, 2) {
		op.Abort()
	} else {
		v := w.value(i)
		if !op.Finalize(v) {
			c.Fail("an operation that was described cannot be finalized")
		}
		if w.val[i] == 0 {
			w.n++
		}
		w.set(i, v)
	}
	w.lookup(i)
	if found, op := w.a.PrepareDelete(w.keys[i]); found {
		if op.String() == "" {
			c.Fail("empty description of a delete")
		}
		op.Abort()
	}
	w.c.r.count("operations described", 1)
}

func diagnose(w *world) {
	c := w.c
	w.release()
	before := treeDigest(w.t)
	stopped := c.Chance(1, 3)
	if stopped {
		w.t.Stop()
	}
	call := func(argv ...string) string {
		var out bytes.Buffer
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(violation); ok {
						panic(e)
					}
					c.Fail("Admin(%q) crashes: %v\n%s", argv, e, trimStack(stack()))
				}
			}()
			w.t.Admin(&out, argv)
		}()
		w.c.r.count("commands", 1)
		return out.String()
	}
	call()
	call("info")
	call("blocks")
	call("root")
	for j := 0; j < 6; j++ {
		root, _ := statsOf(w.t)["root_node"].(uint64)
		var id string
		switch c.Intn(9) {
		case 0:
			id = fmt.Sprint(root)
		case 1:
			id = fmt.Sprint(root ^ 1<<uint(c.Intn(64)))
		case 2:
			id = fmt.Sprint(c.Uint64())
		case 3:
			id = fmt.Sprint(c.Uint64() &^ 0x100) // not a leaf
		case 4:
			id = fmt.Sprint(c.Uint64() & 0xffff00ffffffffff &^ 0x100)
		case 5:
			id = pick(c.rng, "", "x", "-1", "0x10", "1.5", "18446744073709551615", "18446744073709551616", "0", "256", strings.Repeat("9", 300))
		case 6:
			id = fmt.Sprint(root + uint64(c.Intn(1000))<<9)
		case 7: // other prefix lengths and counts
			id = fmt.Sprint(root&0x0000ffffffffffff | c.Uint64()<<48)
		default:
			id = fmt.Sprint(uint64(255)<<48 | uint64(c.Intn(256))<<56 | uint64(c.Intn(300000))<<9)
		}
		call("node", id)
	}
	// follow the tree from the root by the numbers it prints
	out := call("root")
	for j := 0; j < 4; j++ {
		f := strings.Fields(out)
		var ids []string
		for k := 0; k+1 < len(f); k++ {
			if strings.HasPrefix(f[k], "0x") {
				ids = append(ids, f[k+1])
			}
		}
		if len(ids) == 0 {
			break
		}
		out = call("node", ids[c.Intn(len(ids))])
	}
	call(pick(c.rng, "", "nothing", "INFO", "node", "stats", "\x00", strings.Repeat("a", 1000)))
	call("node", "1", "2")
	call("allocators", "reservations")
	call("info", "x", "y")
	list := call("allocators")
	st := statsOf(w.t)
	if n := strings.Count(list, "Allocator "); n != 0 && n != st["allocators"] {
		c.Fail("allocator listing has %d entries, there are %v", n, st["allocators"])
	}
	if stopped {
		// still stopped: nothing can be done until Start
		checkStopped(c, w)
		if l := w.t.Len(); l != w.n {
			c.Fail("Len of the stopped tree is %d, should be %d", l, w.n)
		}
		checkStopped(c, w)
		w.t.Start()
	}
	// still started: all allocators can be reserved
	n, _ := st["allocators"].(int)
	as := make([]*radix.Allocator, n)
	got := make(chan bool)
	go func() {
		for i := range as {
			as[i] = w.t.GetAllocator()
		}
		close(got)
	}()
	select {
	case <-got:
	case <-time.After(30 * time.Second):
		c.Fail("after diagnostics not all %d allocators can be reserved", n)
	}
	for _, a := range as {
		a.FlushStats()
		w.t.ReleaseAllocator(a)
	}
	st = statsOf(w.t)
	if fmt.Sprint(st["objects_approx"]) != fmt.Sprint(w.n) {
		c.Fail("statistics report %v objects after all allocators have flushed, there are %d", st["objects_approx"], w.n)
	}
	w.allocs = n
	bs, _ := st["block_size"].(int)
	blocks, _ := st["blocks_allocated"].(int)
	bytesAlloc, _ := st["bytes_allocated"].(int)
	if bs < 4096 || bytesAlloc != bs*blocks || blocks < 1 {
		c.Fail("statistics: block size %v, %v blocks, %v bytes", st["block_size"], st["blocks_allocated"], st["bytes_allocated"])
	}
	// the block listing agrees with the statistics
	bl := call("blocks")
	if k := strings.Count(bl, "in use") + strings.Count(bl, "allocated"); k != blocks && blocks != 0 {
		c.Fail("block listing has %d blocks, statistics report %d", k, blocks)
	}
	if k := strings.Count(bl, "in use"); k != blocks-1 {
		c.Fail("block listing has %d blocks in use, statistics report %d with the one that is prepared", k, blocks)
	}
	if info := call("info"); !strings.Contains(info, fmt.Sprint(bs)) {
		c.Fail("info does not contain the block size: %q", info)
	}
	// statistics add to a map, leaving other entries
	m := map[string]interface{}{"other": 5, "allocators": "x"}
	w.t.Stats(m)
	if m["other"] != 5 || m["allocators"] != n {
		c.Fail("Stats changed another entry or did not update its own: %v", m)
	}
	after := treeDigest(w.t)
	if d := before.diff(&after); d != "" {
		c.Fail("diagnostics changed the tree: %s", d)
	}
	w.atRest()
	if len(w.keys) > 0 {
		w.lookup(c.Intn(len(w.keys)))
	}
}

// checkStopped verifies that no allocator is available
func checkStopped(c *ctx, w *world) {
	got := make(chan *radix.Allocator, 1)
	go func() { got <- w.t.GetAllocator() }()
	for j := 0; j < 20; j++ {
		runtime.Gosched()
		if j%10 == 0 {
			time.Sleep(20 * time.Microsecond)
		}
	}
	select {
	case <-got:
		c.Fail("an allocator of a stopped tree can be reserved")
	default:
	}
	// it gets one after Start: return it then
	w.c.r.count("stopped state checked", 1)
	go func() {
		a := <-got
		w.t.ReleaseAllocator(a)
	}()
}

// descriptions: the blocks in use are those a test can know from what was stored
// busyDiagnostics: statistics and listings that need no allocator are given while all of them are in use
func busyDiagnostics(c *ctx) {
	w := smallTree(c, pick(c.rng, 2, 30, 300), c.Range(1, 5))
	t := w.t
	n, _ := statsOf(t)["allocators"].(int)
	var as []*radix.Allocator
	var abort func()
	for k := 0; k < n; k++ {
		if k == 0 && w.n > 0 && c.Chance(1, 2) {
			_, op := t.PrepareUpdate(w.keys[w.stored()]) // takes one as well
			abort = op.Abort
			continue
		}
		as = append(as, t.GetAllocator())
	}
	if abort == nil && len(as) > 0 && w.n > 0 {
		switch c.Intn(3) {
		case 0:
			_, op := as[0].PrepareUpdate(w.keys[c.Intn(len(w.keys))])
			abort = op.Abort
		case 1:
			if found, op := as[0].PrepareDelete(w.keys[w.stored()]); found {
				abort = op.Abort
			}
		}
	}
	before := statsOf(t)["root_node"]
	done := make(chan string, 1)
	at := new(atomic.Value)
	go func() {
		at.Store("Stats")
		st := statsOf(t)
		if st["allocators"] != n || st["root_node"] != before {
			done <- fmt.Sprintf("statistics %v, there are %d allocators, root %v", st, n, before)
			return
		}
		for _, cmd := range []string{"", "info", "blocks", "unknown"} {
			at.Store(cmd)
			argv := []string{cmd}
			if cmd == "" {
				argv = nil
			}
			t.Admin(io.Discard, argv)
		}
		done <- ""
	}()
	select {
	case msg := <-done:
		if msg != "" {
			c.Fail("%s", msg)
		}
	case <-time.After(60 * time.Second):
		c.Fail("%q does not return while all %d allocators are in use", at.Load(), n)
	}
	if abort != nil {
		abort()
	}
	for _, a := range as {
		t.ReleaseAllocator(a)
	}
	w.checkLookups()
	w.atRest()
	c.Exec(1)
	c.Distinct(c.seed)
	c.Sample("%d allocators in use, %d keys", n, w.n)
	w.done()
}

func descriptions(c *ctx) {
	t := radix.NewTree(&radix.Options{NumAllocators: pick(c.rng, 1, 3)})
	bs, _ := statsOf(t)["block_size"].(int)
	a := t.GetAllocator()
	n := c.Range(0, 5)
	var keys [][]byte
	for j := 0; j < n; j++ {
		p := append([]byte{byte(j)}, bytes.Repeat([]byte{1}, bs*3/4)...)
		keys = append(keys, append(append([]byte(nil), p...), 1), append(append([]byte(nil), p...), 2))
	}
	w := newWorld(c, t, finish("blocks", keys).keys)
	w.a = a
	for i := range w.keys {
		w.put(i)
	}
	t.ReleaseAllocator(a)
	w.a = t
	// n large nodes, each in a block of its own (the small ones share)
	if b := blocksOf(t); b < n || b > n+1 {
		c.Fail("%d blocks in use, should be %d", b, n)
	}
	diagnose(w)
	c.Exec(1)
	c.Distinct(c.seed)
	c.Sample("%d large nodes: %v", n, statsOf(t))
	w.done()
}

var _ = os.Stdout
