package main

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/jayloop/radix"
)

func init() {
	checks["C03"] = check{seq: func(r *run) {
		lens := prefixLens()
		fans := []int{1, 2, 2, 3, 4, 5, 7, 8, 16, 47, 48, 49, 64, 100, 126, 127, 128, 129, 200, 254, 255, 256}
		per := r.n(4, 22)
		r.Each("lengths", len(lens)*per, func(c *ctx) {
			l := lens[c.i%len(lens)]
			f := fans[(c.i/len(lens)+c.i*7)%len(fans)]
			prefixCase(c, l, f)
		})
		// every single length, splits at every position close to an interesting one
		r.Each("splits", r.n(700, 3000), func(c *ctx) {
			l := c.i % 700
			if c.i >= 700 {
				l = c.Intn(3000)
			}
			splitCase(c, l)
		})
		r.Each("fan-outs", 255*r.n(1, 6), func(c *ctx) { fanCase(c, 2+c.i%255) })
		r.Each("too-large", r.n(16, 64), tooLarge)
		r.Each("histories", r.n(300, 3000), func(c *ctx) {
			w := history(c, histOpt{kind: pick(c.rng, 9, 10, 12, 13, 8, 14, 7), maxN: 300, aborts: 12, poison: true, restRate: 100, rest: func(w *world) { w.checkAll(); w.checkShape(false); w.atRest() }})
			w.done()
		})
	}}

	checks["C04"] = check{seq: func(r *run) {
		r.Each("values", r.n(900, 9000), valueCase)
	}}

	checks["C10"] = check{
		seq: func(r *run) {
			r.Each("interleaved", r.n(1500, 15000), interleavedIteration)
			r.Each("batch-boundaries", r.n(240, 2400), func(c *ctx) { batchBoundaries(c, false) })
			r.Each("batch-edge", r.n(600, 6000), batchEdge)
			o := coopOpt{mixes: []coopMix{{opIter}, mixWriters}, ops: 2}
			r.Each("concurrent-pairs", r.n(700, 7000), func(c *ctx) { coopPairs(c, o, 160) })
			o = coopOpt{mixes: []coopMix{{opIter, opIter, opLookup}, {opInsert, opPut, opInsert}}, ops: 3}
			r.Each("nested", r.n(150, 1500), func(c *ctx) {
				coopNested(c, coopOpt{mixes: []coopMix{mixWriters, {opIter}, mixWriters}, ops: 1, doers: 5}, 8, 40)
			})
			r.Each("concurrent-inserts", r.n(240, 2400), func(c *ctx) { coopRandom(c, o, 160) })
			o = coopOpt{mixes: []coopMix{{opIter}, mixWriters, mixWriters}, ops: 3}
			r.Each("concurrent", r.n(240, 2400), func(c *ctx) { coopRandom(c, o, 160) })
		},
		par: func(r *run) {
			r.Each("parallel", r.n(24, 200), parallelIteration)
		},
	}
}

func prefixLens() (lens []int) {
	add := func(a, b int) {
		for l := a; l <= b; l++ {
			lens = append(lens, l)
		}
	}
	add(0, 40)
	add(60, 66)
	add(126, 130)
	add(240, 275)
	add(500, 525)
	add(760, 770)
	add(1015, 1030)
	add(1990, 2060)
	add(4085, 4100)
	add(32760, 32770)
	add(65525, 65540)
	lens = append(lens, 70000, 131071, 131072, 131073, 262143, 262144, 262145, 300001, 524287, 524288, 1<<20-1, 1<<20, 1<<20+1, 1500000, 2000000, 2090000, 2094000, 2097000)
	return
}

func fillPrefix(c *ctx, l int) []byte {
	p := make([]byte, l)
	switch c.Intn(5) {
	case 0:
		for i := range p {
			p[i] = byte(c.Uint64())
		}
	case 1:
		for i := range p {
			p[i] = 0xff
		}
	case 2: // zero
	case 3:
		for i := range p {
			p[i] = byte(i)
		}
	default:
		for i := range p {
			p[i] = byte(c.Intn(2))
		}
	}
	return p
}

// prefixCase: f keys sharing a prefix of exactly l bytes, changed in many ways
func prefixCase(c *ctx, l, f int) {
	c.Sample("shared prefix of %d bytes, fan-out %d", l, f)
	big := l > 5000
	if big && f > 8 {
		f = pick(c.rng, 2, 3, 5, 8)
	}
	p := fillPrefix(c, l)
	var keys [][]byte
	bs := c.Perm(256)[:f]
	if c.Chance(1, 2) && f >= 2 {
		bs[0], bs[1] = 0, 255
		if f > 2 {
			for i := 2; i < f; i++ {
				if bs[i] == 0 || bs[i] == 255 {
					bs[i] = 1
				}
			}
		}
	}
	suffix := pick(c.rng, 0, 0, 1, 7, 8, 9)
	for _, b := range bs {
		k := append(append([]byte(nil), p...), byte(b))
		for j := 0; j < suffix; j++ {
			k = append(k, byte(j))
		}
		keys = append(keys, k)
	}
	// something below one of the branches
	if c.Chance(1, 2) && l < 2000000 {
		q := append(append(append([]byte(nil), p...), 77), fillPrefix(c, pick(c.rng, 0, 1, 8, 255, 257))...)
		for j := 0; j < 3; j++ {
			keys = append(keys, append(append([]byte(nil), q...), byte(60+j), 1))
		}
	}
	// something above
	if l > 0 {
		for j := 0; j < 4; j++ {
			cut := splitAt(c, l)
			if cut >= l {
				continue
			}
			k := append([]byte(nil), p[:cut]...)
			k = append(k, p[cut]^byte(1<<uint(c.Intn(8))))
			k = append(k, fillPrefix(c, c.Intn(12))...)
			keys = append(keys, k)
		}
	}
	t := radix.NewTree(&radix.Options{NumAllocators: 1})
	w := newWorld(c, t, finish("prefix", keys).keys)
	checkSome := func() {
		w.checkLookups()
		w.checkIter(nil)
		w.checkMinMax(nil)
		w.checkCount(nil)
		for j := 0; j < 3; j++ {
			q := p[:splitAt(c, l)]
			w.checkIter(q)
			w.checkMinMax(q)
			w.checkCount(q)
		}
	}
	var poisoned bool
	if poisoned = c.Chance(1, 2); poisoned {
		radix.VerifReuse = poisonReuse(c)
	}
	defer func() { radix.VerifReuse = nil }()
	for round := 0; round < 2; round++ {
		for _, i := range c.Perm(len(w.keys)) {
			w.put(i)
			if !big && c.Chance(1, 6) {
				checkSome()
				if radix.VerifWhiteBox {
					radix.VerifBumpEpoch(t)
				}
			}
		}
		checkSome()
		w.checkShape(round == 0)
		w.atRest()
		for _, i := range c.Perm(len(w.keys)) {
			w.update(i, 0, doAbort)
			w.del(i, doFinalize)
			if !big && c.Chance(1, 6) || big && w.n < 3 {
				checkSome()
			}
		}
		w.checkLen()
		w.atRest()
		if big {
			break
		}
	}
	c.Distinct(uint64(w.h) ^ c.seed)
	w.done()
}

func splitAt(c *ctx, l int) int {
	cut := pick(c.rng, 0, 1, 7, 8, 9, 15, 16, l-1, l-2, l-7, l-8, l-9, l-254, l-255, l-256, l-257, l-258, 253, 254, 255, 256, 257, l/2, c.Intn(l+1), c.Intn(l+1))
	if cut < 0 || cut > l {
		cut = c.Intn(l + 1)
	}
	return cut
}

// splitCase: one long prefix is split and joined again at many positions
func splitCase(c *ctx, l int) {
	p := fillPrefix(c, l)
	cat := func(a []byte, bs ...byte) []byte { return append(append([]byte(nil), a...), bs...) }
	keys := [][]byte{cat(p, 10), cat(p, 20)}
	for j := 0; j < c.Range(1, 10); j++ {
		keys = append(keys, cat(p, byte(30+j)))
	}
	cuts := map[int]bool{}
	for j := 0; j < 24 && l > 0; j++ {
		cut := splitAt(c, l)
		if cut < l && !cuts[cut] {
			cuts[cut] = true
			keys = append(keys, cat(p[:cut], p[cut]+byte(1+c.Intn(255)), byte(j)))
		}
	}
	t := radix.NewTree(&radix.Options{NumAllocators: 1})
	w := newWorld(c, t, finish("split", keys).keys)
	lo, _ := w.span(p)
	w.put(lo)
	w.put(lo + 1)
	for round := 0; round < 40; round++ {
		i := c.Intn(len(w.keys))
		if i == lo || i == lo+1 {
			continue
		}
		if w.val[i] != 0 {
			w.del(i, doFinalize)
		} else {
			w.put(i)
		}
		w.checkLookups()
		if c.Chance(1, 4) {
			w.checkShape(false)
			w.checkIter(p[:splitAt(c, l)])
			w.checkMinMax(p[:splitAt(c, l)])
			w.checkCount(p[:splitAt(c, l)])
		}
	}
	w.checkAll()
	w.atRest()
	c.Distinct(uint64(w.h) ^ c.seed)
	w.done()
}

// fanCase: a branching point grows from 2 to f branches and shrinks again
func fanCase(c *ctx, f int) {
	p := fillPrefix(c, pick(c.rng, boundaryLens...))
	var keys [][]byte
	for _, b := range c.Perm(256)[:f] {
		k := append(append([]byte(nil), p...), byte(b))
		keys = append(keys, k)
	}
	// one child is a node
	k := keys[c.Intn(f)]
	keys = append(keys, append(append([]byte(nil), k...), 5, 1), append(append([]byte(nil), k...), 5, 2))
	keys[indexOf(keys, k)] = append(append([]byte(nil), k...), 4)
	t := radix.NewTree(&radix.Options{NumAllocators: 1})
	w := newWorld(c, t, finish("fan", keys).keys)
	for _, i := range c.Perm(len(w.keys)) {
		w.put(i)
		w.lookup(c.Intn(len(w.keys)))
		if c.Chance(1, 12) {
			w.checkAll()
			w.checkShape(true)
		}
	}
	w.checkAll()
	w.checkShape(true)
	for _, i := range c.Perm(len(w.keys)) {
		w.del(i, doFinalize)
		w.lookup(c.Intn(len(w.keys)))
		if c.Chance(1, 12) || w.n < 3 {
			w.checkAll()
		}
	}
	w.checkAll()
	w.atRest()
	c.Distinct(uint64(w.h) ^ c.seed)
	w.done()
}

func indexOf(keys [][]byte, k []byte) int {
	for i := range keys {
		if bytes.Equal(keys[i], k) {
			return i
		}
	}
	return -1
}

// tooLarge: a shared prefix that does not fit in a memory block must be refused by a panic, leaving everything else in place
func tooLarge(c *ctx) {
	t := radix.NewTree(&radix.Options{NumAllocators: 2})
	s := map[string]interface{}{}
	t.Stats(s)
	blockSize, _ := s["block_size"].(int)
	if blockSize == 0 {
		blockSize = 2 << 20
	}
	u := genTrie(c.rng, "others", trieOpt{n: 200, fanouts: []int{2, 3, 8}, prefixes: []int{0, 1, 9, 300}, maxDepth: 6, suffix: 3, bytes: 120})
	l := blockSize + pick(c.rng, 0, 1, 8, 1000, blockSize)
	p := bytes.Repeat([]byte{200}, l)
	small := bytes.Repeat([]byte{200}, 3)
	keys := append([][]byte(nil), u.keys...)
	keys = append(keys, append(append([]byte(nil), small...), 7))
	a, b := append(append([]byte(nil), p...), 1), append(append([]byte(nil), p...), 2)
	keys = append(keys, a, b)
	w := newWorld(c, t, finish("too-large", keys).keys)
	ia, ib := indexOf(w.keys, a), indexOf(w.keys, b)
	for i := range w.keys {
		if i != ia && i != ib {
			w.put(i)
		}
	}
	// the rest of the memory: after the panic nothing of it may have changed
	refused := func(what string, f func()) {
		defer func() {
			e := recover()
			if e == nil {
				c.Fail("%s needs a shared prefix of %d bytes in blocks of %d, but is not refused", what, l, blockSize)
			}
			if v, ok := e.(violation); ok {
				panic(v)
			}
			w.log("refused: %v", e)
		}()
		f()
	}
	check := func() {
		w.checkLookups()
		w.checkIter(nil)
		w.checkMinMax(nil)
		w.checkCount(nil)
	}
	if c.i%2 == 0 {
		w.put(ia)
		refused("an insert", func() { w.put(ib) })
		check()
	} else {
		// joining two nodes on a delete
		l1, l2 := blockSize*5/8, blockSize*5/8
		q := append(append([]byte{250}, bytes.Repeat([]byte{3}, l1)...), 9)
		r := append(append([]byte(nil), q...), bytes.Repeat([]byte{4}, l2)...)
		k1 := append(append([]byte(nil), r...), 1)
		k2 := append(append([]byte(nil), r...), 2)
		k3 := append(append([]byte(nil), q[:len(q)-1]...), 8)
		k4 := []byte{250, 1}
		w2 := newWorld(c, t, finish("join", append(append([][]byte(nil), u.keys...), k1, k2, k3, k4)).keys)
		w = newWorld(c, radix.NewTree(&radix.Options{NumAllocators: 2}), w2.keys)
		for i := range w.keys {
			w.put(i)
		}
		check()
		refused("a delete that joins two nodes", func() { w.del(indexOf(w.keys, k3), doFinalize) })
		check()
	}
	c.Exec(1)
	c.Distinct(c.seed)
	c.Sample("prefix of %d bytes in blocks of %d", l, blockSize)
}

// valueCase writes arbitrary 64 bit values
func valueCase(c *ctx) {
	u := genUniverse(c.rng, c.i%numUniverses, pick(c.rng, 1, 2, 3, 5, 10, 40, 150, 300))
	n := len(u.keys)
	if n == 0 {
		return
	}
	t := radix.NewTree(&radix.Options{NumAllocators: 2})
	defer c.close(t)
	const mask = 1<<55 - 1
	val := make([]uint64, n)
	stored := make([]bool, n)
	value := func() uint64 {
		switch c.Intn(8) {
		case 0:
			return 1 << uint(c.Intn(64))
		case 1:
			return 1<<uint(c.Intn(64)) - 1
		case 2:
			return ^(uint64(1) << uint(c.Intn(64)))
		case 3:
			return pick(c.rng, uint64(0), 1, 0xff, 0x100, 0x1ff, mask, mask+1, mask-1, ^uint64(0), 1<<63, 1<<54, 1<<55, 3<<54, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa)
		case 4:
			return c.Uint64() >> uint(c.Intn(64))
		}
		return c.Uint64()
	}
	verify := func(i int) {
		v, found := t.Lookup(u.keys[i])
		if !found || v != val[i]&mask {
			c.Fail("Lookup(%s) is %x,%v; value %x was written", show(u.keys[i]), v, found, val[i])
		}
		found, op := t.PrepareUpdate(u.keys[i])
		if !found || op.Value != val[i]&mask {
			c.Fail("PrepareUpdate(%s) gives %x,%v; value %x was written", show(u.keys[i]), op.Value, found, val[i])
		}
		op.Abort()
		found, dop := t.PrepareDelete(u.keys[i])
		if !found || dop.Value != val[i]&mask {
			c.Fail("PrepareDelete(%s) gives %v; value %x was written", show(u.keys[i]), found, val[i])
		}
		dop.Abort()
	}
	all := func() {
		var want []uint64
		for i := range val {
			if stored[i] {
				want = append(want, val[i]&mask)
			}
		}
		it := t.NewIterator(nil)
		j := 0
		for it.Next() {
			if j >= len(want) || it.Value() != want[j] {
				c.Fail("iteration gives %x at position %d of %d", it.Value(), j, len(want))
			}
			j++
		}
		it.Close()
		if j != len(want) {
			c.Fail("iteration gives %d of %d values", j, len(want))
		}
		_, leaves := t.Count(nil)
		if leaves != len(want) || t.Len() != len(want) {
			c.Fail("Count is %d, Len %d, there are %d keys", leaves, t.Len(), len(want))
		}
		if len(want) > 0 {
			if v, ok := t.MinKey(nil); !ok || v != want[0] {
				c.Fail("MinKey is %x,%v, should be %x", v, ok, want[0])
			}
			if v, ok := t.MaxKey(nil); !ok || v != want[len(want)-1] {
				c.Fail("MaxKey is %x,%v, should be %x", v, ok, want[len(want)-1])
			}
		}
		for i := range val {
			if stored[i] {
				verify(i)
			}
		}
	}
	var h hasher
	// inserts: the value must identify the key as long as other keys are inserted
	owner := map[uint64]int{}
	for _, i := range c.Perm(n) {
		v := value()
		for {
			if _, dup := owner[v&mask]; !dup {
				break
			}
			v = c.Uint64()
		}
		found, op := t.PrepareUpdate(u.keys[i])
		if found {
			j, ok := owner[op.Value]
			if !ok {
				c.Fail("PrepareUpdate(%s) gives value %x, which is not stored", show(u.keys[i]), op.Value)
			}
			op.FetchedKey = append(op.FetchedKey[:0], u.keys[j]...)
		}
		if !op.Finalize(v) {
			c.Fail("Finalize failed")
		}
		owner[v&mask] = i
		val[i], stored[i] = v, true
		verify(i)
		h.add(v)
		if n < 12 {
			all()
		}
	}
	all()
	nodes, _ := t.Count(nil)
	for round := 0; round < min(3*n, 400); round++ {
		i := c.Intn(n)
		v := value()
		found, op := t.PrepareUpdate(u.keys[i])
		if !found || op.Value != val[i]&mask {
			c.Fail("PrepareUpdate(%s) gives %x,%v; value %x was written", show(u.keys[i]), op.Value, found, val[i])
		}
		op.FetchedKey = append(op.FetchedKey[:0], u.keys[i]...)
		op.Match = true
		if !op.Finalize(v) {
			c.Fail("Finalize failed")
		}
		val[i] = v
		h.add(v)
		verify(i)
		if n > 1 {
			verify((i + 1) % n)
			verify((i + n - 1) % n)
		}
		if n < 12 {
			all()
		}
	}
	all()
	if m, _ := t.Count(nil); m != nodes {
		c.Fail("updating values changed the number of nodes from %d to %d", nodes, m)
	}
	c.r.count("values written", int64(n+min(3*n, 400)))
	for _, i := range c.Perm(n) {
		found, op := t.PrepareDelete(u.keys[i])
		if !found || op.Value != val[i]&mask {
			c.Fail("PrepareDelete(%s) gives %v; value %x was written", show(u.keys[i]), found, val[i])
		}
		if !op.Finalize() {
			c.Fail("Finalize failed")
		}
		stored[i] = false
		if n < 40 {
			all()
		}
	}
	all()
	inspect(c, t)
	c.Exec(1)
	c.Distinct(uint64(h))
	c.Sample("%s: %d keys, last value %x", u.name, n, val[0])
}

// iteration with writes between calls of Next
type iterMonitor struct {
	w       *world
	prefix  []byte
	lasting map[int]bool
	order   []int           // lasting keys at start, in order
	seen    map[uint64]bool // all values stored at some time during the iteration
	deleted bool
	got     []int
	gone    map[uint64]int // number of values returned when a value was removed
	run     int            // position where the last increasing sequence of keys returned begins
}

func startMonitor(w *world, prefix []byte) *iterMonitor {
	m := &iterMonitor{w: w, prefix: append([]byte(nil), prefix...), lasting: map[int]bool{}, seen: map[uint64]bool{}, gone: map[uint64]int{}}
	for _, v := range w.val {
		if v != 0 {
			m.seen[v] = true
		}
	}
	for _, i := range w.present(prefix) {
		m.lasting[i] = true
		m.order = append(m.order, i)
	}
	return m
}

func (m *iterMonitor) put(i int) {
	if v := m.w.val[i]; v != 0 {
		m.gone[v] = len(m.got)
	}
	m.w.put(i)
	m.seen[m.w.val[i]] = true
	delete(m.gone, m.w.val[i]) // it may be the same value again
}

func (m *iterMonitor) del(i int) {
	if m.w.val[i] == 0 {
		return
	}
	m.gone[m.w.val[i]] = len(m.got)
	m.w.del(i, doFinalize)
	delete(m.lasting, i)
	m.deleted = true
}

func (m *iterMonitor) value(v uint64) {
	if !m.seen[v] {
		m.w.c.Fail("iteration over prefix %s returned value %d (key id %d), which was not stored at any time during the iteration", show(m.prefix), v, m.w.keyOf(v))
	}
	k := m.w.keyOf(v)
	// what is read at once comes in order: what is returned now was read not earlier than at the begin of this increasing sequence
	if p := len(m.got); p > 0 && k <= m.got[p-1] {
		m.run = p
	}
	if at, ok := m.gone[v]; ok && at <= m.run {
		m.w.c.Fail("iteration over prefix %s returned as number %d value %d (key id %d), which was removed when %d values were returned (reading ahead can be excluded, order of the last ones: %v)",
			show(m.prefix), len(m.got), v, k, at, m.got[max(0, len(m.got)-5):])
	}
	m.got = append(m.got, k)
	if len(m.got) > 20*len(m.w.keys)+1000 {
		m.w.c.Fail("iteration over prefix %s does not end", show(m.prefix))
	}
}

func (m *iterMonitor) end() {
	c := m.w.c
	var want []int
	for _, i := range m.order {
		if m.lasting[i] {
			want = append(want, i)
		}
	}
	pos, prev := 0, -1
	for _, k := range m.got {
		if !m.lasting[k] {
			if len(want) > 0 && !bytes.HasPrefix(m.w.keys[k], m.prefix) {
				c.Fail("iteration over prefix %s returned key %d, which does not have it", show(m.prefix), k)
			}
			continue
		}
		if k == prev {
			if !m.deleted {
				c.Fail("iteration over prefix %s returned key %d (%s) twice though nothing was deleted", show(m.prefix), k, show(m.w.keys[k]))
			}
			c.r.count("repeated lasting keys (deletions around)", 1)
			continue
		}
		if pos >= len(want) || want[pos] != k {
			nxt := "none"
			if pos < len(want) {
				nxt = fmt.Sprintf("%d (%s)", want[pos], show(m.w.keys[want[pos]]))
			}
			c.Fail("iteration over prefix %s returned lasting key %d (%s), next of the %d lasting keys should be %s (number %d)", show(m.prefix), k, show(m.w.keys[k]), len(want), nxt, pos)
		}
		prev = k
		pos++
	}
	if pos != len(want) {
		c.Fail("iteration over prefix %s returned only %d of %d lasting keys, missing key %d (%s)", show(m.prefix), pos, len(want), want[pos], show(m.w.keys[want[pos]]))
	}
	c.r.count("lasting keys checked", int64(len(want)))
	c.r.count("iterations with writes", 1)
}

// interleavedIteration: an iteration that reads several batches, writes in between
func interleavedIteration(c *ctx) {
	kind := c.i % numUniverses
	u := genUniverse(c.rng, kind, pick(c.rng, 20, 300, 300, 600, 900, 1500))
	t := radix.NewTree(&radix.Options{NumAllocators: pick(c.rng, 1, 2, 3)})
	w := newWorld(c, t, u.keys)
	n := len(w.keys)
	if n == 0 {
		return
	}
	fill := pick(c.rng, 3, 5, 9, 10)
	for _, i := range c.Perm(n) {
		if c.Chance(fill, 10) {
			w.put(i)
		}
	}
	for round := 0; round < 3; round++ {
		var prefix []byte
		if c.Chance(1, 3) {
			prefix = w.somePrefix()
			if len(prefix) > 3 {
				prefix = prefix[:c.Intn(4)]
			}
		}
		m := startMonitor(w, prefix)
		it := t.NewIterator(w.key(prefix))
		w.used()
		mode := c.Intn(5)
		burst := pick(c.rng, 1, 1, 2, 5, 20)
		rate := pick(c.rng, 1, 5, 40, 200)
		cur := 0
		step := 0
		for it.Next() {
			m.value(it.Value())
			cur = m.got[len(m.got)-1]
			step++
			// the batch is full at multiples of 256
			near := step%256 == 0 || step%256 == 255
			if !near && !c.Chance(1, rate) {
				continue
			}
			for k := 0; k < burst; k++ {
				i := cur + c.Range(-3, 3)
				if c.Chance(1, 4) {
					i = c.Intn(n)
				}
				if c.Chance(1, 3) {
					i = cur + 256 + c.Range(-4, 4)
				}
				if i < 0 || i >= n {
					i = c.Intn(n)
				}
				switch mode {
				case 0: // inserts only
					m.put(i)
				case 1:
					if c.Chance(1, 2) {
						m.del(i)
					} else {
						m.put(i)
					}
				case 2: // deletes
					m.del(i)
				case 3: // updates of what is stored
					if w.val[i] != 0 {
						m.put(i)
					}
				case 4: // delete and reinsert, changing the structure back and forth
					if w.val[i] != 0 {
						m.del(i)
						if c.Chance(1, 2) {
							m.put(i)
						}
					} else {
						m.put(i)
						m.del(i)
					}
				}
			}
			if radix.VerifWhiteBox && c.Chance(1, 10) {
				radix.VerifBumpEpoch(t)
			}
		}
		if c.Chance(1, 2) && it.Next() {
			c.Fail("iteration continues after its end")
		}
		it.Close()
		m.end()
		c.r.count(fmt.Sprintf("mode %d", mode), 1)
	}
	w.checkIter(nil)
	c.Distinct(uint64(w.h) ^ c.seed)
	c.Sample("%s: %d of %d keys stored", u.name, w.n, n)
	w.done()
}

// batchEdge: the structure around the position where the iterator resumes is changed in a focused way
func batchEdge(c *ctx) {
	u := genTrie(c.rng, "edge", trieOpt{n: pick(c.rng, 300, 500, 700), fanouts: []int{2, 2, 3, 4, 16, 127, 128}, prefixes: []int{0, 0, 1, 2, 8, 255}, maxDepth: 12, suffix: 2, bytes: pick(c.rng, 0, 3, 200), maxBytes: 1 << 20})
	t := radix.NewTree(&radix.Options{NumAllocators: 2})
	w := newWorld(c, t, u.keys)
	n := len(w.keys)
	if n < 270 {
		w.done()
		return
	}
	for _, i := range c.Perm(n) {
		if c.Chance(9, 10) {
			w.put(i)
		}
	}
	for round := 0; round < 6; round++ {
		m := startMonitor(w, nil)
		it := t.NewIterator(nil)
		step := 0
		for it.Next() {
			m.value(it.Value())
			step++
			if step%256 != 0 {
				continue
			}
			// everything near the boundary: keys within a window
			cur := m.got[len(m.got)-1]
			win := c.Range(1, 12)
			what := c.Intn(5)
			for _, d := range c.Perm(2*win + 1) {
				i := cur - win + d
				if i < 0 || i >= n || c.Chance(1, 4) {
					continue
				}
				switch {
				case what == 0: // only inserts and updates
					m.put(i)
				case what == 1 || w.val[i] != 0 && c.Chance(1, 2):
					m.del(i)
				default:
					m.put(i)
				}
			}
			if what == 4 {
				// all but one or two
				keep := map[int]bool{pick(c.rng, cur, cur+1, cur-1, c.Intn(n), 0, n-1): true}
				if c.Chance(1, 3) {
					keep[pick(c.rng, cur, cur+1, c.Intn(n))] = true
				}
				for _, i := range c.Perm(n) {
					if !keep[i] {
						m.del(i)
					}
				}
			}
			if what == 3 {
				// all before, or all after
				if c.Chance(1, 2) {
					for i := 0; i < cur; i++ {
						m.del(i)
					}
				} else {
					for i := cur + 1; i < n; i++ {
						if c.Chance(7, 8) {
							m.del(i)
						}
					}
				}
			}
		}
		it.Close()
		m.end()
		for _, i := range c.Perm(n) {
			if w.val[i] == 0 && c.Chance(8, 10) {
				w.put(i)
			}
		}
	}
	c.Distinct(uint64(w.h) ^ c.seed)
	c.Sample("%d of %d keys stored", w.n, n)
	w.done()
}

// parallelIteration: sentinels that are never touched must all be returned in order by iterations while everything around them changes
func parallelIteration(c *ctx) {
	perturb(c)
	u := genUniverse(c.rng, pick(c.rng, 0, 1, 2, 3, 6, 7, 8, 10, 11), pick(c.rng, 300, 900, 2000))
	n := len(u.keys)
	t := radix.NewTree(&radix.Options{NumAllocators: 16})
	p := &parTree{c: c, t: t, keys: u.keys, keyOf: func(v uint64) int { return int(v & (1<<17 - 1)) }}
	sentinel := make([]bool, n)
	for i := range sentinel {
		if sentinel[i] = c.Chance(1, 3); sentinel[i] {
			p.put(t, i, func(uint64, bool) (uint64, bool) { return 1<<40 | uint64(i), true })
		}
	}
	deletions := c.i%3 != 0
	var writers, readers []func(int)
	stop := make(chan bool)
	var done = func() bool {
		select {
		case <-stop:
			return true
		default:
			return c.stop()
		}
	}
	for g := 0; g < 4; g++ {
		seed := c.Uint64()
		writers = append(writers, func(g int) {
			r := newRng(seed)
			a := t.GetAllocator()
			defer t.ReleaseAllocator(a)
			for k := 0; !done(); k++ {
				i := r.Intn(n)
				if sentinel[i] {
					continue
				}
				if deletions && r.Chance(1, 2) {
					p.del(a, i)
				} else {
					p.put(a, i, func(uint64, bool) (uint64, bool) { return 1<<40 | uint64(i), true })
				}
			}
		})
	}
	hs := make([]hasher, 4)
	left := make(chan bool, 4)
	for g := 0; g < 4; g++ {
		seed := c.Uint64()
		readers = append(readers, func(_ int) {
			defer func() { left <- true }()
			r := newRng(seed)
			for round := 0; round < 100 && !c.stop(); round++ {
				var prefix []byte
				if r.Chance(1, 2) {
					k := u.keys[r.Intn(n)]
					prefix = k[:r.Intn(min(3, len(k))+1)]
				}
				lo := sort.Search(n, func(i int) bool { return bytes.Compare(u.keys[i], prefix) >= 0 })
				it := t.NewIterator(prefix)
				pos, prev, cnt := lo, -1, 0
				nextSentinel := func() {
					for pos < n && !sentinel[pos] {
						pos++
					}
				}
				nextSentinel()
				any := pos < n && bytes.HasPrefix(u.keys[pos], prefix)
				for it.Next() {
					v := it.Value()
					k := p.keyOf(v)
					if v>>17 != 1<<23 || k >= n {
						c.Fail("iteration returned value %x which was never stored", v)
					}
					if any && !bytes.HasPrefix(u.keys[k], prefix) {
						c.Fail("iteration over prefix %s returned key %s", show(prefix), show(u.keys[k]))
					}
					if cnt++; cnt > 30*n {
						c.Fail("iteration does not end")
					}
					if !sentinel[k] {
						continue
					}
					if k == prev {
						if !deletions {
							c.Fail("iteration returned key %s twice though nothing was deleted", show(u.keys[k]))
						}
						continue
					}
					if k != pos {
						if !any {
							break
						}
						c.Fail("iteration over prefix %s returned key %d (%s), the next of the untouched keys is %d", show(prefix), k, show(u.keys[k]), pos)
					}
					prev = k
					pos++
					nextSentinel()
				}
				it.Close()
				if pos < n && any && bytes.HasPrefix(u.keys[pos], prefix) {
					c.Fail("iteration over prefix %s missed untouched key %d (%s)", show(prefix), pos, show(u.keys[pos]))
				}
				hs[g].add(uint64(cnt))
			}
		})
	}
	go func() {
		for range readers {
			<-left
		}
		close(stop)
	}()
	c.free(append(writers, readers...)...)
	inspect(c, t)
	c.Exec(400)
	for _, h := range hs {
		c.Distinct(uint64(h) ^ c.seed)
	}
	t.Close()
}
