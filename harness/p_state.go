package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"github.com/jayloop/radix"
)

func save(c *ctx, t *radix.Tree) []byte {
	t.Stop()
	var buf bytes.Buffer
	n, err := t.WriteState(&buf)
	if err != nil {
		c.Fail("WriteState fails: %v", err)
	}
	if n != buf.Len() {
		c.Fail("WriteState reports %d bytes, it wrote %d", n, buf.Len())
	}
	return buf.Bytes()
}

func load(c *ctx, data []byte) *radix.Tree {
	t, err := radix.NewTreeFromState(bytes.NewReader(data))
	if err != nil || t == nil {
		c.Fail("loading a state of %d bytes fails: %v", len(data), err)
	}
	return t
}

// adopt continues with another tree that should have the same contents
func (w *world) adopt(t *radix.Tree) {
	w.release()
	if w.iter != nil {
		w.iter.Close()
		w.iter = nil
	}
	w.counter = nil
	w.t, w.a = t, t
	w.allocs = 0
}

func statsOf(t *radix.Tree) map[string]interface{} {
	s := map[string]interface{}{}
	t.Stats(s)
	return s
}

// blocksOf is the number of memory blocks in use: all but the prepared one
func blocksOf(t *radix.Tree) int {
	n, _ := statsOf(t)["blocks_allocated"].(int)
	return n - 1
}

func init() {
	checks["C16"] = check{
		seq: func(r *run) {
			r.Each("roundtrips", r.n(160, 1600), func(c *ctx) {
				saves := 0
				w := history(c, histOpt{kind: c.i % numUniverses, maxN: 1200, aborts: 12, poison: true, rest: func(w *world) {
					if saves > 3 && !c.Chance(1, 3) {
						return
					}
					saves++
					roundtrip(w)
				}})
				w.atRest()
				w.done()
			})
			r.Each("small", r.n(160, 1600), func(c *ctx) {
				saves := 0
				w := history(c, histOpt{kind: c.i % numUniverses, n: c.Range(1, 8), phases: 3, restRate: 6, allocs: pick(c.rng, 1, 2, 5, 17), rest: func(w *world) {
					if saves++; saves < 10 {
						roundtrip(w)
					}
				}})
				w.done()
			})
			// saved at the moment an allocator has just started another block
			r.Each("block-edges", r.n(24, 240), blockEdge)
			r.Each("many-blocks", r.n(8, 48), manyBlocks)
			r.Each("block-ends", r.n(24, 240), func(c *ctx) { blockEnds(c, true) })
		},
		par: func(r *run) {
			r.Each("after-parallel-writes", r.n(16, 160), parallelSave)
		},
	}
	checks["C17"] = check{seq: func(r *run) {
		r.Each("every-cut", r.n(8, 40), everyCut)
		r.Each("cuts", r.n(32, 320), someCuts)
		r.Each("readers", r.n(40, 400), strangeReaders)
		r.Each("writers", r.n(48, 480), failingWriters)
	}}
	checks["C26"] = check{seq: func(r *run) {
		r.Each("cycles", r.n(120, 1200), saveLoadCycles)
		r.Each("recycled", r.n(16, 160), recycledAfterLoad)
		r.Each("retired-wide", r.n(80, 800), retiredWide)
	}}
}

// memoryInfo is what a tree at rest has recycled for later use, in words, and what is neither in use nor available
type memoryUsage struct{ recycled, lost int64 }

func memoryInfo(t *radix.Tree) memoryUsage {
	_, info := radix.VerifInspect(t)
	return memoryUsage{info["recycled_slots"], info["lost"]}
}

// kept verifies that a loaded tree has the same memory to use again
func (m memoryUsage) kept(c *ctx, t *radix.Tree) {
	c.r.count("recycled words saved and loaded", m.recycled)
	if l := memoryInfo(t); l.recycled < m.recycled || l.lost > m.lost {
		c.Fail("the loaded tree can use %d recycled words and lost %d, it were %d and %d when it was saved", l.recycled, l.lost, m.recycled, m.lost)
	}
}

// retiredWide retires nodes of all kinds of sizes, also the largest that are recycled, and saves
func retiredWide(c *ctx) {
	var keys [][]byte
	for j := 0; j < c.Range(1, 5); j++ {
		p := append([]byte{byte(7 * j)}, fillPrefix(c, pick(c.rng, 0, 1, 2, 4, 7, 8, 9, 16))...)
		fan := pick(c.rng, 60, 100, 126, 127, 128, 128, 130, 256)
		for _, b := range c.Perm(256)[:fan] {
			keys = append(keys, append(append([]byte(nil), p...), byte(b)))
		}
		// a key that splits the prefix, so that the node is replaced by one with a shorter prefix
		for l := len(p) - 1; l > 0; l -= 1 + c.Intn(3) {
			keys = append(keys, append(append([]byte(nil), p[:l]...), p[l]^1))
		}
	}
	w := newWorld(c, radix.NewTree(&radix.Options{NumAllocators: pick(c.rng, 1, 2, 5)}), finish("wide", keys).keys)
	saves := 0
	splitters := func(i int) bool { return len(w.keys[i]) > 1 && len(w.keys[i]) < 20 }
	for _, i := range c.Perm(len(w.keys)) {
		w.put(i)
		if c.Chance(1, 150) && saves < 4 {
			saves++
			roundtrip(w)
		}
	}
	for j := 0; j < 60; j++ {
		i := c.Intn(len(w.keys))
		if w.val[i] != 0 {
			w.del(i, doFinalize)
		} else if splitters(i) {
			w.put(i)
		}
	}
	roundtrip(w)
	c.Distinct(uint64(w.h) ^ c.seed)
	c.Sample("%d keys, memory %+v", len(w.keys), memoryInfo(w.t))
	w.atRest()
	w.done()
}

// blockEnds fills a block up to its last words, and adds nodes that just fit or just do not fit
func blockEnds(c *ctx, saving bool) {
	t := radix.NewTree(&radix.Options{NumAllocators: 1})
	bs, _ := statsOf(t)["block_size"].(int)
	words := uint64(bs / 8)
	pairs := 2 * c.Range(2, 5)
	// pairs of keys: what they share, and so the size of the node the second key takes, is decided when it is added
	var keys [][]byte
	for j := 0; j < pairs; j++ {
		l := bs + 8
		if j%2 == 1 {
			l = 40000
		}
		a := append([]byte{byte(10 * j)}, bytes.Repeat([]byte{byte(100 + j)}, l)...)
		keys = append(keys, a, []byte{a[0], a[1] + 1})
	}
	w := newWorld(c, t, keys)
	for j := 0; j < pairs; j++ {
		w.put(2 * j)
	}
	left := func() uint64 {
		if next := radix.VerifNextFree(t); next != 0 {
			return words - next%words
		}
		return 0
	}
	add := func(j int, size uint64) {
		l := int(size-2) * 8
		if l >= 263 {
			l -= 8
		} else if l >= 255 {
			l = 254
		}
		l -= c.Intn(8)
		a := w.keys[2*j]
		l = max(0, min(l, len(a)-2))
		w.keys[2*j+1] = append(append([]byte(nil), a[:1+l]...), a[1]+1)
		w.put(2*j + 1)
	}
	exact := int64(0)
	for j := 0; j+1 < pairs; j += 2 {
		rest := left()
		if rest < 8000 {
			rest = words - 1 // a new block
		}
		add(j, rest-uint64(pick(c.rng, 12, 16, 33, 34, 35, 36, 60, 100, 250, 260, 400, 1000)))
		d := pick(c.rng, -2, -1, 0, 0, 0, 1, 2)
		size := 50
		if rest = left(); rest >= 8 && rest <= 4000 {
			size = int(rest) + d
			if d == 0 {
				exact++
			}
		}
		add(j+1, uint64(size))
		w.checkLookups()
		inspect(c, t)
		if saving && c.Chance(1, 2) {
			roundtrip(w)
		}
	}
	for j := 0; j < 30; j++ {
		i := c.Intn(len(w.keys))
		if w.val[i] != 0 {
			w.del(i, doFinalize)
		} else {
			w.put(i)
		}
	}
	w.checkAll()
	w.atRest()
	if saving {
		roundtrip(w)
	}
	c.r.count("nodes taking the last words of a block", exact)
	c.Distinct(uint64(w.h) ^ c.seed)
	c.Sample("%d keys in %d blocks", len(w.keys), blocksOf(t))
	w.done()
}

// roundtrip saves and loads the tree, comparing everything
func roundtrip(w *world) {
	c := w.c
	before := treeDigest(w.t)
	memory := memoryInfo(w.t)
	data := save(c, w.t)
	// the saved tree is as it was and usable after Start
	again := new(bytes.Buffer)
	if c.Chance(1, 4) {
		if n, err := w.t.WriteState(again); err != nil || n != len(data) && again.Len() != n {
			c.Fail("writing the state a second time gives %d bytes and error %v", n, err)
		}
	}
	if l := w.t.Len(); l != w.n {
		c.Fail("Len of the stopped tree is %d, should be %d", l, w.n)
	}
	w.t.Start()
	after := treeDigest(w.t)
	if d := before.diff(&after); d != "" {
		c.Fail("WriteState changed the tree: %s", d)
	}
	src := data
	if again.Len() > 0 && c.Chance(1, 2) {
		src = again.Bytes()
	}
	t2 := load(c, src)
	for i := range data {
		data[i] = 0xee // the loaded tree must not refer to what it was loaded from
	}
	// immediately usable
	w2 := *w
	w2.val = append([]uint64(nil), w.val...)
	w2.iter, w2.counter, w2.held, w2.allocs = nil, nil, nil, 0
	w2.kinds = map[string]int64{}
	w2.t, w2.a = t2, t2
	w2.ops = 0
	if i := w.stored(); i >= 0 {
		w2.lookup(i)
	}
	if a, b := statsOf(w.t)["allocators"], statsOf(t2)["allocators"]; a != b {
		c.Fail("the loaded tree has %v allocators, should be %v", b, a)
	}
	var list, list2 bytes.Buffer
	w.t.Admin(&list, []string{"allocators"})
	t2.Admin(&list2, []string{"allocators"})
	if n := strings.Count(list.String(), "Allocator "); n > 0 && n == strings.Count(list2.String(), "Allocator ") {
		if a, b := strings.Count(list.String(), "EMPTY"), strings.Count(list2.String(), "EMPTY"); a != b {
			c.Fail("%d allocators of the loaded tree are reported to have no memory, %d did when it was saved", b, a)
		}
	}
	loaded := treeDigest(t2)
	if d := before.diff(&loaded); d != "" {
		c.Fail("the loaded tree differs: %s", d)
	}
	if c.r.prop == "C26" {
		memory.kept(c, t2)
	}
	w2.checkLookups()
	w2.checkAll()
	w2.atRest()
	w2.checkStats()
	// and changed
	for j := 0; j < 12 && len(w.keys) > 0; j++ {
		i := c.Intn(len(w.keys))
		if c.Chance(1, 2) {
			w2.put(i)
		} else {
			w2.del(i, doFinalize)
		}
	}
	w2.checkAll()
	w2.atRest()
	if w2.iter != nil {
		w2.iter.Close()
	}
	t2.Close()
	w.checkLookups()
	w.ops += w2.ops
	w.ver = w2.ver
	c.r.count("round trips", 1)
	c.r.count("keys saved and loaded", int64(w.n))
}

// pad allocates a node of about that many bytes by sharing a prefix, without changing the contents
func (w *world) padKeys(size int) (a, b []byte) {
	p := bytes.Repeat([]byte{251}, size)
	return append(append([]byte(nil), p...), 1), append(append([]byte(nil), p...), 2)
}

// blockEdge moves close to the end of a block with large nodes, and then saves after each small write
func blockEdge(c *ctx) {
	u := genTrie(c.rng, "others", trieOpt{n: 120, fanouts: []int{2, 3, 8, 60}, prefixes: []int{0, 1, 9, 30}, maxDepth: 6, suffix: 3, bytes: 120})
	allocs := pick(c.rng, 1, 1, 2, 3)
	t := radix.NewTree(&radix.Options{NumAllocators: allocs})
	bs, _ := statsOf(t)["block_size"].(int)
	if bs == 0 {
		bs = 2 << 20
	}
	keys := append([][]byte(nil), u.keys...)
	// keys sharing large prefixes, each pair takes most of a block
	var big [][]byte
	used := 0
	for j := 0; j < c.Range(1, 3); j++ {
		size := bs - c.Range(200, 6000)
		if j > 0 {
			size = c.Range(bs/4, bs-400)
		}
		p := append([]byte{byte(230 + j)}, bytes.Repeat([]byte{7}, size)...)
		big = append(big, append(append([]byte(nil), p...), 1), append(append([]byte(nil), p...), 2))
		used += size
	}
	keys = append(keys, big...)
	w := newWorld(c, t, finish("edge", keys).keys)
	w.hold()
	for _, k := range big {
		w.put(indexOf(w.keys, k))
	}
	edges := 0
	last := blocksOf(t)
	order := c.Perm(len(w.keys))
	for pass := 0; pass < 4; pass++ {
		for _, i := range order {
			if len(w.keys[i]) > 10000 {
				continue
			}
			if w.val[i] != 0 && c.Chance(1, 3) {
				w.del(i, doFinalize)
			} else {
				w.put(i)
			}
			now := blocksOf(t)
			if now != last || edges == 0 && c.Chance(1, 60) {
				if now != last {
					edges++
				}
				last = now
				w.release()
				if edges < 6 {
					roundtrip(w)
				}
				w.hold()
			}
		}
	}
	w.release()
	roundtrip(w)
	c.r.count("saves right after a new block", int64(edges))
	c.Distinct(uint64(w.h) ^ c.seed)
	c.Sample("%d keys, %d large, %d blocks", len(w.keys), len(big), last)
	w.done()
}

// slowWriter verifies that what it writes does not change before it returns
type slowWriter struct {
	buf     bytes.Buffer
	changed int
}

func (w *slowWriter) Write(p []byte) (int, error) {
	at := w.buf.Len()
	w.buf.Write(p)
	if len(p) > 1000 || bytes.HasPrefix(p, []byte("block ")) {
		time.Sleep(300 * time.Microsecond)
		if !bytes.Equal(p, w.buf.Bytes()[at:]) {
			w.changed = len(p)
		}
	}
	return len(p), nil
}

func manyBlocks(c *ctx) {
	t := radix.NewTree(&radix.Options{NumAllocators: pick(c.rng, 1, 3, 8)})
	bs, _ := statsOf(t)["block_size"].(int)
	var keys [][]byte
	for j := 0; j < c.Range(3, 24); j++ {
		p := append([]byte{byte(j)}, fillPrefix(c, bs/2+c.Intn(bs/3))...)
		for k := 0; k < c.Range(2, 5); k++ {
			keys = append(keys, append(append([]byte(nil), p...), byte(20*k+c.Intn(20))))
		}
	}
	w := newWorld(c, t, finish("blocks", keys).keys)
	for _, i := range c.Perm(len(w.keys)) {
		w.put(i)
	}
	for j := 0; j < 10; j++ {
		if i := w.stored(); c.Chance(1, 2) {
			w.del(i, doFinalize)
		}
	}
	before := treeDigest(t)
	data := save(c, t)
	// a writer that is slow and looks at what it was given until it returns
	sw := new(slowWriter)
	if n, err := t.WriteState(sw); err != nil || n != sw.buf.Len() {
		c.Fail("WriteState to a slow writer gives %d, %v for %d bytes", n, err, sw.buf.Len())
	}
	if sw.changed > 0 {
		c.Fail("%d bytes given to a slow writer changed before it returned", sw.changed)
	}
	if c.Chance(1, 2) {
		data = sw.buf.Bytes()
	}
	t.Start()
	w.checkLookups()
	t2 := load(c, data)
	d2 := treeDigest(t2)
	if d := before.diff(&d2); d != "" {
		c.Fail("the loaded tree differs: %s", d)
	}
	if blocksOf(t) != blocksOf(t2) {
		c.Fail("the loaded tree has %d blocks, should be %d", blocksOf(t2), blocksOf(t))
	}
	t.Close()
	w.adopt(t2)
	w.checkLookups()
	w.atRest()
	for j := 0; j < 20; j++ {
		i := c.Intn(len(w.keys))
		if w.val[i] != 0 {
			w.del(i, doFinalize)
		} else {
			w.put(i)
		}
	}
	w.checkAll()
	w.atRest()
	c.r.count("blocks saved", int64(blocksOf(t2)))
	c.Distinct(uint64(w.h) ^ c.seed)
	c.Sample("%d keys in %d blocks, state of %d bytes", len(w.keys), blocksOf(t2), len(data))
	w.done()
}

// parallelSave stops a tree amidst parallel writes and saves it at once
func parallelSave(c *ctx) {
	perturb(c)
	u := genUniverse(c.rng, c.i%numUniverses, pick(c.rng, 300, 2000, 6000))
	n := len(u.keys)
	t := radix.NewTree(&radix.Options{NumAllocators: pick(c.rng, 1, 4, 8)})
	p := &parTree{c: c, t: t, keys: u.keys, keyOf: func(v uint64) int { return int(v & (1<<17 - 1)) }}
	for round := 0; round < 4; round++ {
		present := make([]int32, n) // exact: each key belongs to one goroutine
		for i, k := range u.keys {
			if v, found := t.Lookup(k); found && p.keyOf(v) == i {
				present[i] = 1
			}
		}
		var fs []func(int)
		var saved *radix.Tree
		var want []int32
		var stopped atomic.Bool
		const workers = 6
		for g := 0; g < workers; g++ {
			seed := c.Uint64()
			fs = append(fs, func(g int) {
				r := newRng(seed)
				for k := 0; k < 4000 && !c.stop() && !stopped.Load(); k++ {
					i := r.Intn((n+workers-1)/workers)*workers + g
					if i >= n {
						continue
					}
					if r.Chance(1, 3) {
						if _, ok := p.del(t, i); ok {
							atomic.StoreInt32(&present[i], 0)
						}
					} else {
						p.put(t, i, func(uint64, bool) (uint64, bool) { return 1<<30 | uint64(i), true })
						atomic.StoreInt32(&present[i], 1)
					}
				}
			})
		}
		fs = append(fs, func(int) {
			time.Sleep(time.Duration(200+c.Intn(3000)) * time.Microsecond)
			stopped.Store(true)
			data := save(c, t)
			// operations that ended before are all included; those in progress have ended, but their goroutine may not have recorded it
			t.Start()
			saved = load(c, data)
		})
		c.free(fs...)
		want = present
		// after all goroutines are done the record is exact, and so is the tree. At most the last operation of each goroutine came after the save.
		got := make([]int32, n)
		stale := 0
		total := 0
		for i, k := range u.keys {
			v, found := saved.Lookup(k)
			if found && p.keyOf(v) == i {
				got[i] = 1
				total++
			}
			if got[i] != want[i] {
				stale++
			}
		}
		if stale > workers {
			c.Fail("%d keys of the loaded tree differ, at most %d operations were done after the save", stale, workers)
		}
		if l := saved.Len(); l != total {
			c.Fail("Len of the loaded tree is %d, it has %d keys", l, total)
		}
		it := saved.NewIterator(nil)
		cnt := 0
		for it.Next() {
			cnt++
		}
		it.Close()
		if cnt != total {
			c.Fail("iteration over the loaded tree gives %d values, it has %d keys", cnt, total)
		}
		inspect(c, saved)
		inspect(c, t)
		t.Close()
		t = saved
		p.t = t
		c.Distinct(mix(c.seed^uint64(total)) ^ uint64(round))
	}
	c.Exec(4)
	c.Sample("%s, %d keys", u.name, n)
	t.Close()
}

// ---- C17 ----

// mustRefuse loads a damaged state; everything but an error and no tree is wrong
func mustRefuse(c *ctx, what string, rd io.Reader) {
	defer func() {
		if e := recover(); e != nil {
			if v, ok := e.(violation); ok {
				panic(v)
			}
			c.Fail("loading %s crashes: %v\n%s", what, e, trimStack(stack()))
		}
	}()
	t, err := radix.NewTreeFromState(rd)
	if err == nil {
		c.Fail("loading %s succeeds", what)
	}
	if t != nil {
		c.Fail("loading %s gives an error but also a tree", what)
	}
	c.r.count("damaged states refused", 1)
}

func smallTree(c *ctx, n, allocs int) *world {
	u := genUniverse(c.rng, pick(c.rng, 0, 3, 4, 6, 9, 11), n)
	w := newWorld(c, radix.NewTree(&radix.Options{NumAllocators: allocs}), u.keys)
	for _, i := range c.Perm(len(w.keys)) {
		w.put(i)
	}
	// recycled memory of several sizes in the state
	for j := 0; j < len(w.keys)/2; j++ {
		w.del(c.Intn(len(w.keys)), doFinalize)
	}
	return w
}

func everyCut(c *ctx) {
	n := pick(c.rng, 0, 1, 2, 10, 40)
	w := smallTree(c, max(n, 1), pick(c.rng, 1, 2, 3))
	if n == 0 {
		w.done()
		w = newWorld(c, radix.NewTree(&radix.Options{NumAllocators: 2}), nil)
	}
	data := save(c, w.t)
	w.t.Start()
	headers := bytes.Index(data, []byte("compression"))
	k := 0
	for cut := 0; cut < len(data); cut++ {
		// the bytes of the compressed blocks are many and alike
		if headers > 0 && cut > headers+300 && cut < len(data)-600 && cut%97 != 0 {
			continue
		}
		mustRefuse(c, fmt.Sprintf("the first %d of %d bytes of a state", cut, len(data)), bytes.NewReader(data[:cut]))
		k++
	}
	t := load(c, data)
	if t.Len() != w.n {
		c.Fail("Len of the loaded tree is %d, should be %d", t.Len(), w.n)
	}
	t.Close()
	c.Exec(int64(k))
	c.Distinct(c.seed)
	c.Sample("%d keys, state of %d bytes, cut at %d places", w.n, len(data), k)
	w.checkLookups()
	w.done()
}

func someCuts(c *ctx) {
	w := smallTree(c, pick(c.rng, 100, 1000, 4000), pick(c.rng, 1, 4, 16))
	// several blocks
	for j := 0; j < c.Intn(3); j++ {
		a, b := w.padKeys(1<<20 + c.Intn(1<<19))
		a[0], b[0] = byte(252+j), byte(252+j)
		if c.Chance(1, 2) {
			putRaw(w.t, a, 1, nil)
			putRaw(w.t, b, 2, a)
		}
	}
	before := treeDigest(w.t)
	data := save(c, w.t)
	w.t.Start()
	// cuts at the places where something ends: all line ends in the headers, and before each block
	var cuts []int
	for p := 0; p < len(data); {
		q := bytes.IndexByte(data[p:], '\n')
		if q < 0 {
			break
		}
		p += q + 1
		cuts = append(cuts, p)
		if len(cuts) > 300 {
			break
		}
	}
	for p := 0; ; {
		q := bytes.Index(data[p:], []byte("block "))
		if q < 0 {
			break
		}
		cuts = append(cuts, p+q, p+q+1, p+q+6, p+q+8, p+q+12, p+q+30, p+q+60)
		p += q + 1
	}
	for j := 0; j < 40; j++ {
		cuts = append(cuts, c.Intn(len(data)))
	}
	cuts = append(cuts, 0, 1, len(data)-1, len(data)-2, len(data)-7)
	for _, cut := range cuts {
		if cut >= 0 && cut < len(data) {
			mustRefuse(c, fmt.Sprintf("the first %d of %d bytes of a state", cut, len(data)), bytes.NewReader(data[:cut]))
		}
	}
	t := load(c, data)
	after := treeDigest(t)
	if d := before.diff(&after); d != "" {
		c.Fail("the loaded tree differs: %s", d)
	}
	t.Close()
	c.Exec(int64(len(cuts)))
	c.Distinct(c.seed)
	c.Sample("%d keys, state of %d bytes, %d cuts", w.n, len(data), len(cuts))
	w.done()
}

func putRaw(t *radix.Tree, key []byte, v uint64, other []byte) {
	found, op := t.PrepareUpdate(key)
	if found {
		op.FetchedKey = append(op.FetchedKey[:0], other...)
		op.Match = bytes.Equal(other, key)
	}
	op.Finalize(v)
}

// chunkReader returns data in pieces of the given sizes
type chunkReader struct {
	data   []byte
	next   func() int
	fail   int // position to fail at, -1 never
	pos    int
	err    error
	eofNow bool // returns io.EOF together with the last data
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if r.fail >= 0 && r.pos >= r.fail {
		return 0, r.err
	}
	if r.pos >= len(r.data) {
		return 0, io.EOF
	}
	n := r.next()
	if n > len(p) {
		n = len(p)
	}
	if n > len(r.data)-r.pos {
		n = len(r.data) - r.pos
	}
	if r.fail >= 0 && r.pos+n > r.fail {
		n = r.fail - r.pos
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.eofNow && r.pos == len(r.data) {
		return n, io.EOF
	}
	return n, nil
}

var errTest = errors.New("test error")

func strangeReaders(c *ctx) {
	w := smallTree(c, pick(c.rng, 1, 20, 300, 2000), pick(c.rng, 1, 3, 8))
	before := treeDigest(w.t)
	data := save(c, w.t)
	w.t.Start()
	readers := map[string]func() int{
		"one byte at a time": func() int { return 1 },
		"random pieces":      func() int { return 1 + c.Intn(5000) },
		"small pieces":       func() int { return 1 + c.Intn(4) },
		"pieces of 4095":     func() int { return 4095 },
		"pieces of 4096":     func() int { return 4096 },
		"sometimes nothing": func() int {
			if c.Chance(1, 3) {
				return 0
			}
			return 1 + c.Intn(300)
		},
		"all": func() int { return len(data) },
	}
	for name, next := range readers {
		for _, eof := range []bool{false, true} {
			t, err := radix.NewTreeFromState(&chunkReader{data: data, next: next, fail: -1, eofNow: eof})
			if err != nil {
				c.Fail("loading %s (end with data: %v) fails: %v", name, eof, err)
			}
			after := treeDigest(t)
			if d := before.diff(&after); d != "" {
				c.Fail("the tree loaded %s differs: %s", name, d)
			}
			inspect(c, t)
			t.Close()
			c.r.count("loads through strange readers", 1)
		}
		// failing
		for j := 0; j < 6; j++ {
			at := c.Intn(len(data))
			switch j {
			case 0:
				at = 0
			case 1:
				at = len(data) - 1
			case 2:
				at = len(data)
			}
			err := pick(c.rng, errTest, io.ErrUnexpectedEOF, io.ErrNoProgress)
			rd := &chunkReader{data: data, next: next, fail: at, err: err}
			mustRefuse(c, fmt.Sprintf("a state of %d bytes from a reader failing at %d", len(data), at), rd)
		}
	}
	// another block size
	s := fmt.Sprintf("blocksize %v\n", statsOf(w.t)["block_size"])
	i := bytes.Index(data, []byte(s))
	if i < 0 {
		c.r.count("no block size in the state", 1)
	} else {
		for _, bs := range []string{"8388608", "16777216", "4096", "0", "2097151", "2097153"} {
			if strings.Contains(s, " "+bs+"\n") {
				continue
			}
			other := append(append([]byte(nil), data[:i]...), "blocksize "+bs+"\n"...)
			other = append(other, data[i+len(s):]...)
			mustRefuse(c, "a state with block size "+bs, bytes.NewReader(other))
		}
	}
	c.Exec(int64(len(readers) * 8))
	c.Distinct(c.seed)
	c.Sample("%d keys, state of %d bytes", w.n, len(data))
	w.checkLookups()
	w.done()
}

// failWriter fails at a position, or with every nth write
type failWriter struct {
	left     int
	partial  bool // accepts a part of the failing write
	n        int
	err      error
	recovers bool // later writes succeed
	failed   bool
	delay    bool
}

func (w *failWriter) Write(p []byte) (int, error) {
	if w.failed && w.recovers {
		w.n += len(p)
		return len(p), nil
	}
	if w.left < len(p) || w.failed {
		k := 0
		if w.partial && !w.failed {
			k = w.left
		}
		w.failed = true
		w.n += k
		return k, w.err
	}
	w.left -= len(p)
	w.n += len(p)
	if w.delay {
		time.Sleep(50 * time.Microsecond)
	}
	return len(p), nil
}

func failingWriters(c *ctx) {
	w := smallTree(c, pick(c.rng, 1, 50, 1000), pick(c.rng, 1, 3, 8))
	// many blocks: more than fit in the queues of WriteState
	blocks := pick(c.rng, 0, 0, 3, 40, 70)
	if c.i%4 == 0 {
		blocks = 80
	}
	t := w.t
	var bigKeys [][]byte
	for j := 0; j < blocks; j++ {
		p := bytes.Repeat([]byte{byte(j)}, 1200000)
		copy(p, []byte{255, 255, byte(j), 9})
		a, b := append(append([]byte(nil), p...), 1), append(append([]byte(nil), p...), 2)
		for _, k := range [][]byte{a, b} {
			found, op := t.PrepareUpdate(k)
			if found {
				v := op.Value
				switch {
				case v>>40 == 1:
					op.FetchedKey = append(op.FetchedKey[:0], bigKeys[v&0xffff]...)
				default:
					op.FetchedKey = append(op.FetchedKey[:0], w.keys[w.keyOf(v)]...)
				}
			}
			bigKeys = append(bigKeys, k)
			op.Finalize(1<<40 | uint64(len(bigKeys)-1))
		}
	}
	before := treeDigest(t)
	t.Stop()
	var good bytes.Buffer
	n, err := t.WriteState(&good)
	if err != nil || n != good.Len() {
		c.Fail("WriteState gives %d, %v for %d bytes", n, err, good.Len())
	}
	size := good.Len()
	goroutines := runtime.NumGoroutine()
	tries := 24
	if blocks > 10 {
		tries = 8
	}
	for j := 0; j < tries; j++ {
		at := c.Intn(size)
		switch {
		case j == 0:
			at = 0
		case j == 1:
			at = size - 1
		case j%3 == 0:
			at = c.Intn(min(size, 1200))
		}
		fw := &failWriter{left: at, partial: c.Chance(1, 2), err: errTest, recovers: c.Chance(1, 4), delay: c.Chance(1, 4)}
		done := make(chan error, 1)
		go func() {
			_, err := t.WriteState(fw)
			done <- err
		}()
		select {
		case err := <-done:
			if err == nil {
				c.Fail("WriteState to a writer failing after %d of %d bytes reports no error", at, size)
			}
		case <-time.After(60 * time.Second):
			c.Fail("WriteState to a writer failing after %d of %d bytes never returns (%d blocks)", at, size, blocks)
		}
		c.r.count("failed writes reported", 1)
	}
	// the tree is intact
	var again bytes.Buffer
	if _, err := t.WriteState(&again); err != nil {
		c.Fail("WriteState fails after failed attempts: %v", err)
	}
	t.Start()
	after := treeDigest(t)
	if d := before.diff(&after); d != "" {
		c.Fail("failed attempts to write the state changed the tree: %s", d)
	}
	inspect(c, t)
	t2 := load(c, again.Bytes())
	loaded := treeDigest(t2)
	if d := before.diff(&loaded); d != "" {
		c.Fail("the tree loaded after failed attempts differs: %s", d)
	}
	t2.Close()
	settle(c, goroutines, "failed attempts to write the state")
	c.Exec(int64(tries))
	c.Distinct(c.seed)
	c.Sample("%d keys, %d large, state of %d bytes, %d failing writers", w.n, len(bigKeys), size, tries)
	t.Close()
}

// settle waits until the number of goroutines is no more than before
func settle(c *ctx, n int, what string) {
	for i := 0; ; i++ {
		m := runtime.NumGoroutine()
		if m <= n {
			return
		}
		if i > 400 {
			buf := make([]byte, 1<<16)
			k := runtime.Stack(buf, true)
			c.Fail("%d goroutines are left after %s, %d before\n%s", m, what, n, trimStack(buf[:k]))
		}
		if i < 100 {
			runtime.Gosched()
			time.Sleep(100 * time.Microsecond)
		} else {
			time.Sleep(50 * time.Millisecond)
		}
	}
}

// ---- C26 ----

func saveLoadCycles(c *ctx) {
	u := genUniverse(c.rng, c.i%numUniverses, pick(c.rng, 5, 40, 200, 600))
	w := newWorld(c, radix.NewTree(&radix.Options{NumAllocators: pick(c.rng, 1, 1, 2, 4)}), u.keys)
	if len(w.keys) == 0 {
		w.done()
		return
	}
	if c.Chance(1, 2) {
		radix.VerifReuse = poisonReuse(c)
	}
	cycles := c.Range(2, 6)
	for k := 0; k < cycles; k++ {
		runPhases(w, histOpt{phases: c.Range(1, 3), aborts: 10, each: func(w *world, i int) { w.lookup(i) }})
		w.checkLookups()
		before := treeDigest(w.t)
		memory := memoryInfo(w.t)
		data := save(c, w.t)
		t2 := load(c, data)
		memory.kept(c, t2)
		after := treeDigest(t2)
		if d := before.diff(&after); d != "" {
			c.Fail("the loaded tree differs: %s", d)
		}
		// the old one may go on, independently
		if c.Chance(1, 3) {
			w.t.Start()
			old := *w
			old.val = append([]uint64(nil), w.val...)
			old.kinds = map[string]int64{}
			old.held = nil
			old.iter = nil
			for j := 0; j < 30; j++ {
				i := c.Intn(len(w.keys))
				old.put(i)
				old.del(c.Intn(len(w.keys)), doFinalize)
			}
			old.checkLookups()
		}
		if c.Chance(1, 3) {
			// a second load of the same data
			t3 := load(c, data)
			d3 := treeDigest(t3)
			if d := before.diff(&d3); d != "" {
				c.Fail("the second loaded tree differs: %s", d)
			}
			t3.Close()
		}
		w.t.Close()
		w.adopt(t2)
		w.atRest()
		c.r.count("cycles", 1)
	}
	runPhases(w, histOpt{phases: 3, each: func(w *world, i int) { w.lookup(i) }})
	w.checkAll()
	w.atRest()
	c.Distinct(uint64(w.h))
	c.Sample("%s, %d keys, %d cycles", u.name, len(w.keys), cycles)
	w.done()
}

// largeNodes gives pairs of keys that need a node of up to 257 slots each
func largeNodes(c *ctx, pairs int) *universe {
	var keys [][]byte
	for i := 0; i < pairs; i++ {
		p := append(be(uint64(i), 2), bytes.Repeat([]byte{byte(i)}, c.Range(1000, 2020))...)
		keys = append(keys, append(append([]byte(nil), p...), 1), append(append([]byte(nil), p...), 2))
	}
	return finish("large-nodes", keys)
}

// recycledAfterLoad: memory recycled before a save is used again after the load: no new block is needed for the same work
func recycledAfterLoad(c *ctx) {
	u := genUniverse(c.rng, pick(c.rng, 0, 1, 2, 3, 6, 8, 9), pick(c.rng, 400, 1500, 3000))
	if c.i%2 == 0 {
		u = largeNodes(c, 1600)
	}
	w := newWorld(c, radix.NewTree(&radix.Options{NumAllocators: 1}), u.keys)
	work := func() {
		for _, i := range c.Perm(len(w.keys)) {
			w.put(i)
		}
		for _, i := range c.Perm(len(w.keys)) {
			w.del(i, doFinalize)
		}
	}
	// until the number of blocks is constant
	last, same := -1, 0
	for k := 0; k < 40 && same < 4; k++ {
		work()
		if b := blocksOf(w.t); b == last {
			same++
		} else {
			last, same = b, 0
		}
	}
	for cycle := 0; cycle < 12; cycle++ {
		if c.Chance(1, 2) {
			for _, i := range c.Perm(len(w.keys)) {
				w.put(i)
			}
		}
		data := save(c, w.t)
		t2 := load(c, data)
		w.t.Close()
		w.adopt(t2)
		w.atRest()
		for k := 0; k < 2; k++ {
			work()
		}
		w.checkLen()
		w.atRest()
		// each load may need some room for the nodes waiting for the next epoch
		if b := blocksOf(w.t); b > last+2 {
			c.Fail("the tree uses %d blocks after %d save/load cycles with the same contents, %d before", b, cycle+1, last)
		}
	}
	c.r.count("blocks at the end", int64(blocksOf(w.t)))
	c.Distinct(uint64(w.h))
	c.Sample("%s, %d keys: %d blocks before, %d after 12 cycles", u.name, len(w.keys), last, blocksOf(w.t))
	w.done()
}
