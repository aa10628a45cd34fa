package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/jayloop/radix"
)

// api is implemented by *radix.Tree and *radix.Allocator
type api interface {
	Lookup(key []byte) (uint64, bool)
	PrepareUpdate(key []byte) (bool, *radix.UpdateOperation)
	PrepareDelete(key []byte) (bool, *radix.DeleteOperation)
}

const valueBits = 55

// world is one tree together with its reference model: the sorted universe of keys and the value stored for each.
type world struct {
	c    *ctx
	t    *radix.Tree
	a    api
	keys [][]byte
	val  []uint64 // 0: absent
	n    int      // present
	ver  uint64
	h    hasher

	scratch, shadow []byte
	// rawValues: values are not constructed from key ids, candidates are identified through owner
	owner      map[uint64]int
	trace      bool
	kinds      map[string]int64
	kindTry    int
	wide       bool // some branching point reached 128 branches at some time
	points     map[string]*[256]int32
	counter    *radix.Counter
	held       *radix.Allocator
	spareAlloc *radix.Allocator
	name       string
	allocs     int
	iter       *radix.Iterator
	// branches are counted to know when a node-256 has to appear
	ops int64
}

func newWorld(c *ctx, t *radix.Tree, keys [][]byte) *world {
	return &world{c: c, t: t, a: t, keys: keys, val: make([]uint64, len(keys)), kinds: map[string]int64{}}
}

// value returns a new unique value for key i
func (w *world) value(i int) uint64 {
	w.ver++
	return w.ver<<17 | uint64(i)
}
func (w *world) keyOf(v uint64) int {
	if w.owner != nil {
		i, ok := w.owner[v]
		if !ok {
			return -1
		}
		return i
	}
	i := int(v & (1<<17 - 1))
	if i >= len(w.keys) {
		return -1
	}
	return i
}

// key returns a private copy of the key, to be scribbled by used()
func (w *world) key(k []byte) []byte {
	w.scratch = append(w.scratch[:0], k...)
	w.shadow = append(w.shadow[:0], k...)
	return w.scratch
}

// used verifies that the tree did not write to the key buffer, and then overwrites it
func (w *world) used() {
	if !bytes.Equal(w.scratch, w.shadow) {
		w.c.Fail("key slice given to the tree was modified: %s is now %s", show(w.shadow), show(w.scratch))
	}
	for i := range w.scratch {
		w.scratch[i] ^= 0xa5
	}
}

func show(k []byte) string {
	if len(k) > 40 {
		return fmt.Sprintf("%x..(%d bytes)..%x", k[:12], len(k), k[len(k)-12:])
	}
	return fmt.Sprintf("%x", k)
}

func (w *world) log(format string, args ...interface{}) {
	if len(w.c.trace) > 4000 {
		w.c.trace = append(w.c.trace[:0], w.c.trace[2000:]...)
	}
	w.c.trace = append(w.c.trace, fmt.Sprintf(format, args...))
}

func (w *world) kindOf(s string) {
	if i := strings.IndexByte(s, '\n'); i > 0 {
		s = s[:i]
	}
	w.kinds[strings.TrimPrefix(s, "Operation: ")]++
}

func (w *world) flushKinds() {
	for k, n := range w.kinds {
		w.c.r.count("kind:"+k, n)
	}
	w.kinds = map[string]int64{}
	w.c.r.count("operations", w.ops)
	w.ops = 0
}

// candidate verifies a value found for key i (stored or not), returning the key it belongs to
func (w *world) candidate(what string, key []byte, v uint64) int {
	j := w.keyOf(v)
	if j < 0 || w.val[j] != v {
		w.c.Fail("%s(%s) gives value %d which is not stored (key id %d)", what, show(key), v, j)
	}
	return j
}

type finish8 int

const (
	doFinalize finish8 = iota
	doAbort
)

// update prepares an update of key i and finalizes or aborts it.
func (w *world) update(i int, v uint64, how finish8) {
	k := w.key(w.keys[i])
	w.ops++
	found, op := w.a.PrepareUpdate(k)
	if op == nil {
		w.c.Fail("PrepareUpdate(%s) gave no operation", show(w.keys[i]))
	}
	if len(w.keys[i]) < 1000 {
		w.log("update key %d (%s) present=%v found=%v value=%d how=%d", i, show(w.keys[i]), w.val[i] != 0, found, op.Value, how)
	} else {
		w.log("update key %d present=%v how=%d", i, w.val[i] != 0, how)
	}
	if w.kindTry++; w.kindTry%16 == 1 && len(k) < 300 {
		w.kindOf(op.String())
	}
	if w.c.r.prop == "C22" && (op.Match || len(op.FetchedKey) > 0 || !found && op.Value != 0) {
		w.c.Fail("a newly prepared operation (found: %v) has Match=%v, value %d and fetched key %s", found, op.Match, op.Value, show(op.FetchedKey))
	}
	if !bytes.Equal(op.Key, w.keys[i]) {
		w.c.Fail("operation on key %s has key %s", show(w.keys[i]), show(op.Key))
	}
	if w.val[i] != 0 {
		if !found {
			w.c.Fail("PrepareUpdate(%s): stored key is not found", show(w.keys[i]))
		}
		if op.Value != w.val[i] {
			w.c.Fail("PrepareUpdate(%s): value is %d, should be %d", show(w.keys[i]), op.Value, w.val[i])
		}
	}
	if found {
		j := w.candidate("PrepareUpdate", w.keys[i], op.Value)
		op.FetchedKey = append(op.FetchedKey[:0], w.keys[j]...)
		op.Match = j == i
	}
	w.h.add(1, uint64(i), op.Value, uint64(how))
	if how == doAbort {
		op.Abort()
		w.used()
		return
	}
	if !op.Finalize(v) {
		w.c.Fail("Finalize of update of %s failed with no other operation in progress", show(w.keys[i]))
	}
	w.used()
	if w.val[i] == 0 {
		w.n++
	}
	w.set(i, v)
}

func (w *world) set(i int, v uint64) {
	v &= 1<<valueBits - 1
	if w.owner != nil && w.val[i] != 0 {
		delete(w.owner, w.val[i])
	}
	if (w.val[i] == 0) != (v == 0) {
		w.countBranch(i, v != 0)
	}
	w.val[i] = v
	if w.owner != nil && v != 0 {
		w.owner[v] = i
	}
}

// wideOf returns the points where 128 or more branches are possible
func wideOf(keys [][]byte) map[string]*[256]int32 {
	points := map[string]*[256]int32{}
	var walk func(ks [][]byte, depth int)
	walk = func(ks [][]byte, depth int) {
		if len(ks) < 128 {
			return
		}
		d := commonPrefix(ks[0], ks[len(ks)-1])
		branches := 0
		for i := 0; i < len(ks); {
			j := i
			for j < len(ks) && ks[j][d] == ks[i][d] {
				j++
			}
			branches++
			walk(ks[i:j], d+1)
			i = j
		}
		if branches >= 128 {
			points[string(ks[0][:d])] = new([256]int32)
		}
	}
	walk(keys, 0)
	return points
}

// countBranch follows the number of branches at points where a node-256 is possible, to know if there ever was one
func (w *world) countBranch(i int, stored bool) {
	if w.wide {
		return
	}
	if w.points == nil {
		w.points = wideOf(w.keys)
		for j := range w.keys {
			if w.val[j] != 0 {
				w.countBranch(j, true)
			}
		}
	}
	k := w.keys[i]
	for p, n := range w.points {
		if len(p) >= len(k) || string(k[:len(p)]) != p {
			continue
		}
		if !stored {
			n[k[len(p)]]--
			continue
		}
		n[k[len(p)]]++
		branches := 0
		for _, x := range n {
			if x > 0 {
				branches++
			}
		}
		if branches >= 128 {
			w.wide = true
		}
	}
}

// put inserts or updates key i with a new value
func (w *world) put(i int) {
	v := w.value(i)
	if w.val[i] != 0 && w.c.Chance(1, 12) {
		v = w.val[i] // the same again
	}
	w.update(i, v, doFinalize)
}

// del prepares a delete of key i and finalizes (or aborts) it
func (w *world) del(i int, how finish8) {
	k := w.key(w.keys[i])
	w.ops++
	found, op := w.a.PrepareDelete(k)
	if found != (op != nil) {
		w.c.Fail("PrepareDelete(%s) reports found=%v with operation %v", show(w.keys[i]), found, op != nil)
	}
	w.log("delete key %d (%s) present=%v found=%v how=%d", i, show(w.keys[i]), w.val[i] != 0, found, how)
	w.h.add(2, uint64(i), uint64(how))
	if !found {
		if w.val[i] != 0 {
			w.c.Fail("PrepareDelete(%s): stored key is not found", show(w.keys[i]))
		}
		w.used()
		return
	}
	if w.kindTry++; w.kindTry%16 == 1 {
		w.kindOf(op.String())
	}
	if w.val[i] != 0 && op.Value != w.val[i] {
		w.c.Fail("PrepareDelete(%s): value is %d, should be %d", show(w.keys[i]), op.Value, w.val[i])
	}
	if w.c.r.prop == "C22" && len(op.FetchedKey) > 0 {
		w.c.Fail("a newly prepared delete has fetched key %s", show(op.FetchedKey))
	}
	j := w.candidate("PrepareDelete", w.keys[i], op.Value)
	op.FetchedKey = append(op.FetchedKey[:0], w.keys[j]...)
	if j != i || how == doAbort {
		op.Abort()
		w.used()
		return
	}
	if !op.Finalize() {
		w.c.Fail("Finalize of delete of %s failed with no other operation in progress", show(w.keys[i]))
	}
	w.used()
	w.set(i, 0)
	w.n--
}

func (w *world) lookup(i int) {
	k := w.key(w.keys[i])
	w.ops++
	v, found := w.a.Lookup(k)
	w.used()
	if w.val[i] != 0 {
		if !found {
			w.c.Fail("Lookup(%s): stored key is not found", show(w.keys[i]))
		}
		if v != w.val[i] {
			w.c.Fail("Lookup(%s): value is %d, should be %d", show(w.keys[i]), v, w.val[i])
		}
		return
	}
	if found {
		if j := w.candidate("Lookup", w.keys[i], v); j == i {
			w.c.Fail("Lookup(%s): found though not stored", show(w.keys[i]))
		}
	}
}

// probe does lookups and aborted operations on a key outside of the universe. update tells if the key may be given to PrepareUpdate.
func (w *world) probe(key []byte, update bool) {
	w.ops++
	if v, found := w.a.Lookup(w.key(key)); found {
		w.candidate("Lookup", key, v)
	}
	w.used()
	found, op := w.a.PrepareDelete(w.key(key))
	if found != (op != nil) {
		w.c.Fail("PrepareDelete(%s) reports found=%v with operation %v", show(key), found, op != nil)
	}
	if found {
		w.candidate("PrepareDelete", key, op.Value)
		op.Abort()
	}
	w.used()
	if update {
		found, op := w.a.PrepareUpdate(w.key(key))
		if found {
			w.candidate("PrepareUpdate", key, op.Value)
		}
		op.Abort()
		w.used()
	}
}

// span returns the range of universe keys having the prefix
func (w *world) span(prefix []byte) (lo, hi int) {
	lo = sort.Search(len(w.keys), func(i int) bool { return bytes.Compare(w.keys[i], prefix) >= 0 })
	hi = lo + sort.Search(len(w.keys)-lo, func(i int) bool { return !bytes.HasPrefix(w.keys[lo+i], prefix) })
	return
}

// present returns the ids of stored keys with prefix
func (w *world) present(prefix []byte) (ids []int) {
	lo, hi := w.span(prefix)
	for i := lo; i < hi; i++ {
		if w.val[i] != 0 {
			ids = append(ids, i)
		}
	}
	return
}

func (w *world) checkIter(prefix []byte) {
	ids := w.present(prefix)
	p := w.key(prefix)
	var it *radix.Iterator
	switch w.c.Intn(3) {
	case 0:
		it = w.t.NewIterator(p)
		defer it.Close()
	case 1:
		it = radix.NewIterator(w.t, p)
		defer it.Close()
	default:
		if w.iter == nil {
			w.iter = w.t.NewIterator(nil)
		}
		it = w.iter
		it.Reset(p)
	}
	w.used()
	w.iterate(it, prefix, ids)
	if w.c.Chance(1, 16) && it == w.iter {
		// an iterator abandoned half way and reset starts over
		it.Reset(w.key(prefix))
		w.used()
		for j := w.c.Intn(len(ids) + 1); j > 0; j-- {
			it.Next()
		}
		it.Reset(w.key(prefix))
		w.used()
		w.iterate(it, prefix, ids)
	}
}

func (w *world) iterate(it *radix.Iterator, prefix []byte, ids []int) {
	j := 0
	for it.Next() {
		v := it.Value()
		if len(ids) == 0 {
			if j > 0 {
				w.c.Fail("iteration over prefix %s, which no stored key has, returns more than one value", show(prefix))
			}
			w.candidate("iteration", prefix, v)
			j++
			continue
		}
		if j >= len(ids) {
			w.c.Fail("iteration over prefix %s returns value %d (key id %d) after all %d keys were returned", show(prefix), v, w.keyOf(v), len(ids))
		}
		if v != w.val[ids[j]] {
			w.c.Fail("iteration over prefix %s: value %d of %d is %d (key id %d), should be %d (key id %d)", show(prefix), j, len(ids), v, w.keyOf(v), w.val[ids[j]], ids[j])
		}
		j++
	}
	if j < len(ids) {
		w.c.Fail("iteration over prefix %s ends after %d of %d keys", show(prefix), j, len(ids))
	}
	if it.Next() {
		w.c.Fail("iteration over prefix %s continues after its end", show(prefix))
	}
	w.h.add(3, uint64(j))
}

func (w *world) checkMinMax(prefix []byte) {
	ids := w.present(prefix)
	vmin, okmin := w.t.MinKey(w.key(prefix))
	w.used()
	vmax, okmax := w.t.MaxKey(w.key(prefix))
	w.used()
	if len(ids) == 0 {
		if w.n == 0 && (okmin || okmax) {
			w.c.Fail("minimum/maximum found in an empty tree")
		}
		if okmin {
			w.candidate("MinKey", prefix, vmin)
		}
		if okmax {
			w.candidate("MaxKey", prefix, vmax)
		}
		return
	}
	if e := w.val[ids[0]]; !okmin || vmin != e {
		w.c.Fail("MinKey(%s) is %d,%v (key id %d), should be %d (key id %d)", show(prefix), vmin, okmin, w.keyOf(vmin), e, ids[0])
	}
	if e := w.val[ids[len(ids)-1]]; !okmax || vmax != e {
		w.c.Fail("MaxKey(%s) is %d,%v (key id %d), should be %d (key id %d)", show(prefix), vmax, okmax, w.keyOf(vmax), e, ids[len(ids)-1])
	}
	w.h.add(4, vmin, vmax)
}

func (w *world) checkCount(prefix []byte) {
	ids := w.present(prefix)
	var leaves int
	if w.c.Chance(1, 2) {
		_, leaves = w.t.Count(w.key(prefix))
	} else {
		if w.counter == nil {
			w.counter = radix.NewCounter(w.t)
		}
		_, leaves = w.counter.Count(w.key(prefix))
	}
	w.used()
	if len(ids) == 0 && (leaves < 0 || leaves > 1 || leaves == 1 && w.n == 0) || len(ids) > 0 && leaves != len(ids) {
		w.c.Fail("Count(%s) gives %d leaves, there are %d stored keys with this prefix", show(prefix), leaves, len(ids))
	}
}

func (w *world) checkLen() {
	if l := w.t.Len(); l != w.n {
		w.c.Fail("Len is %d, there are %d stored keys", l, w.n)
	}
}

func (w *world) checkLookups() {
	for i := range w.keys {
		w.lookup(i)
	}
}

// somePrefix returns a prefix of some universe key, or a variation of one
func (w *world) somePrefix() []byte {
	if len(w.keys) == 0 {
		return nil
	}
	k := w.keys[w.c.Intn(len(w.keys))]
	n := w.c.Intn(len(k) + 1)
	if w.c.Chance(1, 4) {
		n = min(len(k), w.c.Intn(4))
	}
	p := append([]byte(nil), k[:n]...)
	switch w.c.Intn(8) {
	case 0:
		if n > 0 {
			p[w.c.Intn(n)] ^= byte(1 << w.c.Intn(8))
		}
	case 1:
		p = append(p, byte(w.c.Uint64()))
	}
	return p
}

// shape is the structure of the minimal prefix compressed tree
type shape struct {
	nodes, leaves, withPrefix, prefixLength, prefixBytes, large int
	sizes                                                       [257]int
}

func commonPrefix(a, b []byte) int {
	n := min(len(a), len(b))
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return i
		}
	}
	return n
}

func canonical(keys [][]byte) *shape {
	s := &shape{}
	var walk func(ks [][]byte, depth int)
	walk = func(ks [][]byte, depth int) {
		if len(ks) == 1 {
			s.leaves++
			return
		}
		s.nodes++
		l := commonPrefix(ks[0], ks[len(ks)-1]) - depth
		if l > 0 {
			s.withPrefix++
			s.prefixLength += l
			slots := (l + 7) / 8
			if l >= 255 {
				slots++
				s.large++
			}
			s.prefixBytes += 8 * slots
		}
		d := depth + l
		branches := 0
		for i := 0; i < len(ks); {
			j := i
			for j < len(ks) && ks[j][d] == ks[i][d] {
				j++
			}
			branches++
			walk(ks[i:j], d+1)
			i = j
		}
		if branches >= 128 {
			s.sizes[256]++
		} else {
			s.sizes[branches]++
		}
	}
	if len(keys) > 0 {
		walk(keys, 0)
	}
	return s
}

func (w *world) storedKeys() [][]byte {
	var ks [][]byte
	for i, k := range w.keys {
		if w.val[i] != 0 {
			ks = append(ks, k)
		}
	}
	return ks
}

// checkShape compares the structure to the minimal one. growOnly means that no key was ever deleted.
func (w *world) checkShape(growOnly bool) {
	e := canonical(w.storedKeys())
	if e.sizes[256] > 0 && !growOnly {
		w.wide = true
	}
	cnt := radix.NewCounter(w.t)
	nodes, leaves := cnt.Count(nil)
	if leaves != e.leaves {
		w.c.Fail("counter finds %d leaves, there are %d stored keys", leaves, e.leaves)
	}
	if w.wide && !growOnly {
		// nodes that once were wide are kept, so the structure is at least the minimal one
		if nodes < e.nodes || cnt.NodeSizes[256] < e.sizes[256] {
			w.c.Fail("%d nodes (%d wide) for a tree that needs at least %d (%d wide)", nodes, cnt.NodeSizes[256], e.nodes, e.sizes[256])
		}
		total := 0
		for _, n := range cnt.NodeSizes {
			total += n
		}
		if total != nodes {
			w.c.Fail("counter reports %d nodes but the sizes of %d", nodes, total)
		}
		return
	}
	if nodes != e.nodes {
		w.c.Fail("tree has %d nodes, the minimal tree of its %d keys has %d", nodes, w.n, e.nodes)
	}
	for s := range e.sizes {
		if s < len(cnt.NodeSizes) && cnt.NodeSizes[s] != e.sizes[s] {
			w.c.Fail("tree has %d nodes of size %d, the minimal tree of its %d keys has %d", cnt.NodeSizes[s], s, w.n, e.sizes[s])
		}
	}
	if cnt.NodesWithPrefix != e.withPrefix || cnt.TotalPrefixLength != e.prefixLength || cnt.LargePrefixes != e.large || cnt.TotalPrefixBytes != e.prefixBytes {
		w.c.Fail("prefixes: %d nodes, %d long, total length %d in %d bytes; minimal tree: %d nodes, %d long, total length %d in %d bytes",
			cnt.NodesWithPrefix, cnt.LargePrefixes, cnt.TotalPrefixLength, cnt.TotalPrefixBytes, e.withPrefix, e.large, e.prefixLength, e.prefixBytes)
	}
	w.h.add(5, uint64(nodes), uint64(leaves))
}

// wideNow tells if some branching point of the stored keys has 128 or more branches
func (w *world) wideNow() bool { return canonical(w.storedKeys()).sizes[256] > 0 }

// digest identifies everything observable about the tree, read without help of the model
func treeDigest(t *radix.Tree) (d digest) {
	it := t.NewIterator(nil)
	defer it.Close()
	for it.Next() {
		d.values = append(d.values, it.Value())
	}
	cnt := radix.NewCounter(t)
	d.nodes, d.leaves = cnt.Count(nil)
	d.shape = fmt.Sprint(cnt.NodesWithPrefix, cnt.TotalPrefixLength, cnt.TotalPrefixBytes, cnt.LargePrefixes)
	for s, n := range cnt.NodeSizes {
		if n > 0 {
			d.shape += fmt.Sprintf(" %dx%d", s, n)
		}
	}
	d.min, d.minOK = t.MinKey(nil)
	d.max, d.maxOK = t.MaxKey(nil)
	d.length = t.Len()
	return
}

type digest struct {
	values       []uint64
	nodes        int
	leaves       int
	shape        string
	min, max     uint64
	minOK, maxOK bool
	length       int
}

func (d *digest) diff(e *digest) string {
	if len(d.values) != len(e.values) {
		return fmt.Sprintf("iteration gives %d values, before %d", len(e.values), len(d.values))
	}
	for i := range d.values {
		if d.values[i] != e.values[i] {
			return fmt.Sprintf("iteration: value %d is %d, before %d", i, e.values[i], d.values[i])
		}
	}
	if d.nodes != e.nodes || d.leaves != e.leaves || d.shape != e.shape {
		return fmt.Sprintf("shape is %d nodes %d leaves (%s), before %d nodes %d leaves (%s)", e.nodes, e.leaves, e.shape, d.nodes, d.leaves, d.shape)
	}
	if d.min != e.min || d.minOK != e.minOK || d.max != e.max || d.maxOK != e.maxOK {
		return fmt.Sprintf("minimum/maximum is %d,%d, before %d,%d", e.min, e.max, d.min, d.max)
	}
	if d.length != e.length {
		return fmt.Sprintf("Len is %d, before %d", e.length, d.length)
	}
	return ""
}

// checkAll is the complete comparison with the model
func (w *world) checkAll() {
	w.checkLookups()
	w.checkIter(nil)
	w.checkMinMax(nil)
	w.checkCount(nil)
	w.checkLen()
	for j := 0; j < 8; j++ {
		p := w.somePrefix()
		w.checkIter(p)
		w.checkMinMax(p)
		w.checkCount(p)
	}
}

// atRest verifies that nothing is left locked or reserved: white box, and by preparing an operation on every key
func (w *world) atRest() {
	inspect(w.c, w.t)
}

func inspect(c *ctx, t *radix.Tree) {
	if c.r.phase == "race" {
		return // the inspector is not synchronised with the block allocator
	}
	problems, info := radix.VerifInspect(t)
	if len(problems) > 0 {
		c.Fail("tree at rest is damaged: %s", strings.Join(problems, "; "))
	}
	if info != nil {
		c.r.count("inspections", 1)
		c.r.count("inspected extents", info["extents"])
	}
}

// quietPrepare verifies that, nothing else being in progress, prepares on every key neither wait nor restart
func (w *world) quietPrepare() {
	for i := range w.keys {
		quiet(w.c, "PrepareUpdate "+show(w.keys[i]), func() { w.update(i, 0, doAbort) })
		quiet(w.c, "PrepareDelete "+show(w.keys[i]), func() { w.del(i, doAbort) })
	}
}
