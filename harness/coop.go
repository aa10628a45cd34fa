package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/jayloop/radix"
)

type copKind int

const (
	opLookup copKind = iota
	opPut            // insert or update, returns what was there before
	opInsert         // insert if absent
	opDelete
	opPutAbort
	opDelAbort
	opIter
	opMin
	opMax
	opCount
	opBump // one epoch passes
	opPut2 // update, with a lookup of the same key between prepare and finalize through another allocator
)

var copName = map[copKind]string{opLookup: "lookup", opPut: "put", opInsert: "insert", opDelete: "delete", opPutAbort: "put-abort", opDelAbort: "delete-abort",
	opIter: "iterate", opMin: "min", opMax: "max", opCount: "count", opBump: "bump", opPut2: "put2"}

type cop struct {
	kind   copKind
	key    int
	prefix []byte
	beside int // key+1 looked up with the same allocator while the operation is prepared
}

func (o cop) String() string {
	if o.kind == opIter || o.kind == opMin || o.kind == opMax || o.kind == opCount {
		return fmt.Sprintf("%s(%x)", copName[o.kind], o.prefix)
	}
	return fmt.Sprintf("%s(%d)", copName[o.kind], o.key)
}

// life is the period in which a value may be seen
type life struct {
	key     int
	start   int64 // call of the operation writing it
	removed int64 // return of the operation that replaced it
}

const forever = math.MaxInt64

type regIn struct {
	kind copKind
	arg  uint64
}
type regOut struct{ old uint64 }

// register is the sequential specification of one key: 0 means not stored
var register = porcupine.Model{
	Init: func() interface{} { return uint64(0) },
	Step: func(state, input, output interface{}) (bool, interface{}) {
		s, in, out := state.(uint64), input.(regIn), output.(regOut)
		if out.old != s {
			return false, s
		}
		switch in.kind {
		case opPut:
			return true, in.arg
		case opInsert:
			if s == 0 {
				return true, in.arg
			}
			return true, s
		case opDelete:
			return true, uint64(0)
		}
		return true, s
	},
	Equal:         func(a, b interface{}) bool { return a.(uint64) == b.(uint64) },
	DescribeState: func(s interface{}) string { return fmt.Sprint(s) },
}

type rangeObs struct {
	op        cop
	call, ret int64
	keys      []int // keys of the values returned, in order
	vals      []uint64
	ok        bool
}

type keyEvent struct {
	key       int
	call, ret int64
	insert    bool // else delete
}

// coopEnv is a tree with a fixed set of keys on which many schedules are executed
type coopEnv struct {
	c       *ctx
	w       *world
	tmpl    []bool // presence at start
	lives   map[uint64]*life
	hist    [][]porcupine.Operation
	ranges  []rangeObs
	events  []keyEvent
	holders bool
	s       *sched
	log     []string
	poison  bool
	allocs  []*radix.Allocator
	runs    int
	strict  bool // canonical shape is required after each schedule
	dels    int
	pads    int // allocators that are in use by someone else during all schedules

	// threads that may not wait, and their steps
	readers     int
	readerLimit int
}

func newCoopEnv(c *ctx, keys [][]byte, tmpl []bool, allocators int) *coopEnv {
	e := &coopEnv{c: c, tmpl: tmpl}
	if c.Chance(1, 14) || c.crowd {
		e.pads = pick(c.rng, 6, 14, 30, 62, 64, 66, 126, 130)
	}
	t := radix.NewTree(&radix.Options{NumAllocators: allocators + e.pads})
	e.w = newWorld(c, t, keys)
	e.strict = canonical(keys).sizes[256] == 0
	e.poison = c.Chance(1, 4)
	return e
}

// close ends the use of the tree. When deferred while a failure is reported the tree is left alone.
func (e *coopEnv) close(c *ctx) {
	radix.VerifReuse = nil
	if x := recover(); x != nil {
		c.rethrow(x)
	}
	if !c.broken {
		e.w.t.Close()
	}
}

// reset brings the tree back to the contents of the template
func (e *coopEnv) reset() {
	for i, p := range e.tmpl {
		if p && e.w.val[i] == 0 {
			e.w.put(i)
		} else if !p && e.w.val[i] != 0 {
			e.w.del(i, doFinalize)
		}
	}
	e.c.trace = e.c.trace[:0]
	e.lives = make(map[uint64]*life, 32)
	e.hist = make([][]porcupine.Operation, len(e.w.keys))
	for i, v := range e.w.val {
		if v != 0 {
			e.lives[v] = &life{i, -1, forever}
			e.hist[i] = append(e.hist[i], porcupine.Operation{ClientId: 0, Input: regIn{opPut, v}, Output: regOut{0}, Call: -2, Return: -1})
		}
	}
	e.ranges = e.ranges[:0]
	e.events = e.events[:0]
	e.log = e.log[:0]
	e.dels = 0
}

func (e *coopEnv) note(format string, args ...interface{}) {
	e.s.lock()
	defer e.s.unlock()
	if len(e.log) < 200 {
		e.log = append(e.log, fmt.Sprintf(format, args...))
	}
}

// see verifies that a value read by an operation that was called at the given time can have been stored then. It returns its key.
func (e *coopEnv) see(what string, v uint64, call int64) int {
	e.s.lock()
	defer e.s.unlock()
	l := e.lives[v]
	if l == nil {
		e.c.Fail("%s returned value %d (key id %d) which no operation in this history stored", what, v, v&(1<<17-1))
	}
	if l.removed < call {
		e.c.Fail("%s called at %d returned value %d of key %d which was removed by an operation that ended at %d", what, call, v, l.key, l.removed)
	}
	return l.key
}

func (e *coopEnv) record(tid, key int, in regIn, old uint64, call int64) int64 {
	e.s.lock()
	defer e.s.unlock()
	ret := e.s.now()
	e.hist[key] = append(e.hist[key], porcupine.Operation{ClientId: tid + 1, Input: in, Output: regOut{old}, Call: call, Return: ret})
	if in.kind == opPut || in.kind == opDelete {
		if l := e.lives[old]; old != 0 && l != nil {
			l.removed = ret
		}
	}
	if old == 0 && (in.kind == opPut || in.kind == opInsert) {
		e.events = append(e.events, keyEvent{key, call, ret, true})
	}
	if old != 0 && in.kind == opDelete {
		e.events = append(e.events, keyEvent{key, call, ret, false})
		e.dels++
	}
	return ret
}

// do executes one operation in a thread
func (e *coopEnv) do(th *thread, a api, o cop) {
	s := e.s
	keys := e.w.keys
	client := func() {
		s.point(ptClient)
		if h, ok := a.(*radix.Allocator); ok && o.beside > 0 && o.kind != opIter {
			e.do(th, h, cop{kind: opLookup, key: o.beside - 1})
			s.point(ptClient)
		}
	}
	call := s.tick()
	what := fmt.Sprintf("thread %d %s", th.id, o)
	switch o.kind {
	case opLookup:
		v, found := a.Lookup(keys[o.key])
		var old uint64
		if found && e.see(what, v, call) == o.key {
			old = v
		}
		ret := e.record(th.id, o.key, regIn{kind: opLookup}, old, call)
		e.note("%d-%d %s = %d", call, ret, what, old)

	case opPut, opInsert, opPutAbort:
		for {
			found, op := a.PrepareUpdate(keys[o.key])
			var old uint64
			if found {
				j := e.see(what, op.Value, call)
				op.FetchedKey = append(op.FetchedKey[:0], keys[j]...)
				if j == o.key {
					op.Match = true
					old = op.Value
				}
			}
			client()
			if o.kind == opPutAbort || o.kind == opInsert && op.Match {
				op.Abort()
				ret := e.record(th.id, o.key, regIn{kind: opLookup}, old, call)
				e.note("%d-%d %s aborted, saw %d", call, ret, what, old)
				break
			}
			s.lock()
			v := e.w.value(o.key)
			e.lives[v] = &life{o.key, call, forever}
			s.unlock()
			if op.Finalize(v) {
				k := opPut
				if o.kind == opInsert {
					k = opInsert
				}
				ret := e.record(th.id, o.key, regIn{k, v}, old, call)
				e.note("%d-%d %s %d -> %d", call, ret, what, old, v)
				break
			}
			// never visible
			s.lock()
			delete(e.lives, v)
			s.unlock()
			e.note("%s conflict", what)
		}

	case opDelete, opDelAbort:
		for {
			found, op := a.PrepareDelete(keys[o.key])
			if !found {
				ret := e.record(th.id, o.key, regIn{kind: opLookup}, 0, call)
				e.note("%d-%d %s: not found", call, ret, what)
				break
			}
			j := e.see(what, op.Value, call)
			old := op.Value
			client()
			if j != o.key || o.kind == opDelAbort {
				op.Abort()
				if j != o.key {
					old = 0
				}
				ret := e.record(th.id, o.key, regIn{kind: opLookup}, old, call)
				e.note("%d-%d %s aborted, saw %d", call, ret, what, old)
				break
			}
			if op.Finalize() {
				ret := e.record(th.id, o.key, regIn{kind: opDelete}, old, call)
				e.note("%d-%d %s removed %d", call, ret, what, old)
				break
			}
			e.note("%s conflict", what)
		}

	case opIter:
		r := rangeObs{op: o, call: call}
		it := e.w.t.NewIterator(o.prefix)
		n := 0
		for it.Next() {
			v := it.Value()
			r.keys = append(r.keys, e.see(what, v, call))
			r.vals = append(r.vals, v)
			client()
			if n++; n > 10000 {
				e.c.Fail("iteration does not end")
			}
		}
		it.Close()
		s.lock()
		r.ret = s.now()
		e.ranges = append(e.ranges, r)
		s.unlock()
		e.note("%d-%d %s = keys %v", call, r.ret, what, r.keys)

	case opMin, opMax:
		r := rangeObs{op: o, call: call}
		var v uint64
		if o.kind == opMin {
			v, r.ok = e.w.t.MinKey(o.prefix)
		} else {
			v, r.ok = e.w.t.MaxKey(o.prefix)
		}
		if r.ok {
			r.keys = append(r.keys, e.see(what, v, call))
			r.vals = append(r.vals, v)
		}
		s.lock()
		r.ret = s.now()
		e.ranges = append(e.ranges, r)
		s.unlock()
		e.note("%d-%d %s = keys %v", call, r.ret, what, r.keys)

	case opCount:
		_, leaves := e.w.t.Count(o.prefix)
		if leaves < 0 || leaves > 100000 {
			e.c.Fail("%s gives %d leaves", what, leaves)
		}
		e.note("%s = %d", what, leaves)

	case opBump:
		radix.VerifBumpEpoch(e.w.t)
	}
	client()
}

// runSchedule executes the programs under the strategy and checks everything that was observed
func (e *coopEnv) runSchedule(progs [][]cop, st strategy, held bool) *sched {
	e.reset()
	return e.runFromHere(progs, st, held)
}

func (e *coopEnv) runFromHere(progs [][]cop, st strategy, held bool) *sched {
	s := &sched{strat: st, budget: 6000, r: newRng(e.c.Uint64())}
	for _, p := range progs {
		for _, o := range p {
			if o.kind == opIter {
				s.budget += 40 * len(e.w.keys)
			}
		}
	}
	s.readers = e.readers
	if e.c.r.prop == "C07" {
		s.onPoint = e.reservations
	}
	for i := range s.limit {
		s.limit[i] = e.readerLimit
	}
	e.s = s
	e.w.h = 0
	var apis []api
	var allocs, pads []*radix.Allocator
	for i := 0; i < e.pads; i++ {
		pads = append(pads, e.w.t.GetAllocator())
	}
	if e.pads > 0 {
		e.c.r.count("schedules beside many allocators in use", 1)
	}
	for range progs {
		if held {
			a := e.w.t.GetAllocator()
			allocs = append(allocs, a)
			apis = append(apis, a)
		} else {
			apis = append(apis, e.w.t)
		}
	}
	if e.poison {
		radix.VerifReuse = func(slots []uint64) {
			for i := range slots {
				slots[i] = 1<<63 | uint64(i)<<20 | 1<<8 | uint64(byte(i))
			}
			e.c.r.count("reused extents", 1)
			hook(ptAllocate)
		}
		radix.VerifBumpEpoch(e.w.t)
	}
	fs := make([]func(t *thread), len(progs))
	for i := range progs {
		fs[i] = func(t *thread) {
			s.point(ptClient)
			for _, o := range progs[i] {
				e.do(t, apis[i], o)
			}
		}
	}
	fail := s.run(e.c, fs)
	radix.VerifReuse = nil
	if fail == "" {
		for _, a := range append(allocs, pads...) {
			e.w.t.ReleaseAllocator(a)
		}
		fail = e.try(func() { e.check() })
	}
	e.runs++
	if fail != "" {
		var ps []string
		for i, p := range progs {
			ps = append(ps, fmt.Sprintf("thread %d: %v", i, p))
		}
		var ks []string
		for i, k := range e.w.keys {
			if i < 40 {
				ks = append(ks, fmt.Sprintf("%d:%s(%v)", i, show(k), e.tmpl[i]))
			}
		}
		e.c.Fail("%s\nkeys (stored at start): %s\nprograms: %s\nhistory:\n  %s\nschedule (running thread at each change): %s", fail, strings.Join(ks, " "), strings.Join(ps, " | "), strings.Join(e.log, "\n  "), s.path)
	}
	return s
}

// reservations verifies that all threads that are reading nodes have reserved the epoch, since memory they look at could be used again otherwise
func (e *coopEnv) reservations(t *thread, p int) {
	if e.s.atomics {
		// threads might be switched between the end of a reservation and the end of the operation
		return
	}
	switch p {
	case ptRelease, ptClient:
		t.reading = false
	case ptRead:
		t.reading = true
		n := 0
		for _, o := range e.s.threads {
			if o.reading {
				n++
			}
		}
		if r := radix.VerifReservations(e.w.t); r >= 0 {
			e.c.r.count("reads with the epoch reserved", 1)
			if r < n {
				e.c.Fail("%d operations are reading nodes, but only %d have reserved the epoch", n, r)
			}
		}
	}
}

func (e *coopEnv) try(f func()) (msg string) {
	defer func() {
		if x := recover(); x != nil {
			if v, ok := x.(violation); ok {
				msg = v.msg
				return
			}
			msg = fmt.Sprintf("panic: %v\n%s", x, trimStack(stack()))
		}
	}()
	f()
	return ""
}

func (e *coopEnv) check() {
	w := e.w
	s := e.s
	// final state, read by lookups that come after everything else
	w.n = 0
	for i, k := range w.keys {
		call := s.tick()
		v, found := w.t.Lookup(k)
		var cur uint64
		if found && e.see("final lookup", v, call) == i {
			cur = v
		}
		w.val[i] = cur
		if cur != 0 {
			w.n++
		}
		if len(e.hist[i]) > 1 || e.hist[i] == nil && cur != 0 || len(e.hist[i]) == 1 {
			e.record(99, i, regIn{kind: opLookup}, cur, call)
		}
	}
	e.c.r.count("histories", 1)
	for i := range w.keys {
		h := e.hist[i]
		if len(h) <= 1 && w.val[i] == 0 {
			continue
		}
		if len(h) == 2 && h[0].Call == -2 {
			// untouched key: initial value and final read
			if h[1].Output.(regOut).old != h[0].Input.(regIn).arg {
				e.c.Fail("key %d was not written during the history but its value changed from %d to %d", i, h[0].Input.(regIn).arg, h[1].Output.(regOut).old)
			}
			continue
		}
		e.c.r.count("linearizability checks", 1)
		switch porcupine.CheckOperationsTimeout(register, h, 20*time.Second) {
		case porcupine.Illegal:
			e.c.Fail("operations on key %d are not linearizable", i)
		case porcupine.Unknown:
			e.c.r.count("inconclusive checks", 1)
		}
	}
	for i := range e.ranges {
		e.checkRange(&e.ranges[i])
	}
	// contents at rest
	w.checkIter(nil)
	w.checkCount(nil)
	w.checkLen()
	if e.strict {
		w.checkShape(false)
	}
	if e.runs%32 == 0 {
		w.checkMinMax(nil)
		w.atRest()
	}
	if e.runs%8 == 0 {
		w.quietPrepare()
	}
}

// lasting returns the keys with prefix that were certainly stored throughout the given period
func (e *coopEnv) lasting(prefix []byte, call, ret int64) (ids []int, deletions bool) {
	for i, k := range e.w.keys {
		if !bytes.HasPrefix(k, prefix) {
			continue
		}
		// an insert that ended before the period, with every delete either certainly before that insert or after the period
		last := func(insCall int64) bool {
			for _, ev := range e.events {
				if ev.key == i && !ev.insert && ev.ret >= insCall && ev.call <= ret {
					return false
				}
			}
			return true
		}
		ok := e.tmpl[i] && last(-1)
		for _, ev := range e.events {
			if ev.key == i && ev.insert && ev.ret < call && last(ev.call) {
				ok = true
			}
		}
		if ok {
			ids = append(ids, i)
		}
	}
	for _, ev := range e.events {
		if !ev.insert && ev.call < ret && ev.ret > call {
			deletions = true
		}
	}
	return
}

func (e *coopEnv) checkRange(r *rangeObs) {
	lasting, deletions := e.lasting(r.op.prefix, r.call, r.ret)
	switch r.op.kind {
	case opIter:
		pos := 0
		isLasting := map[int]bool{}
		for _, i := range lasting {
			isLasting[i] = true
		}
		prev := -1
		for _, k := range r.keys {
			if !isLasting[k] {
				if !bytes.HasPrefix(e.w.keys[k], r.op.prefix) && len(lasting) > 0 {
					e.c.Fail("%s returned key %d which does not have the prefix, though others have", r.op, k)
				}
				continue
			}
			if k == prev {
				if !deletions {
					e.c.Fail("%s returned key %d twice though nothing was deleted meanwhile", r.op, k)
				}
				continue
			}
			if pos >= len(lasting) || lasting[pos] != k {
				e.c.Fail("%s returned keys %v, but keys %v were stored all the time and must appear in this order", r.op, r.keys, lasting)
			}
			prev = k
			pos++
		}
		if pos != len(lasting) {
			e.c.Fail("%s returned keys %v, but keys %v were stored all the time", r.op, r.keys, lasting)
		}
	case opMin, opMax:
		if len(lasting) == 0 {
			return
		}
		if !r.ok {
			e.c.Fail("%s found nothing, but keys %v were stored all the time", r.op, lasting)
		}
		k := r.keys[0]
		if !bytes.HasPrefix(e.w.keys[k], r.op.prefix) {
			e.c.Fail("%s returned key %d which does not have the prefix, but keys %v were stored all the time", r.op, k, lasting)
		}
		if r.op.kind == opMin && k > lasting[0] || r.op.kind == opMax && k < lasting[len(lasting)-1] {
			e.c.Fail("%s returned key %d, but keys %v were stored all the time", r.op, k, lasting)
		}
	}
}

// coopMix is the distribution of operations
type coopMix []copKind

var (
	mixMap     = coopMix{opLookup, opLookup, opPut, opPut, opPut, opInsert, opDelete, opDelete, opDelete, opPutAbort, opDelAbort}
	mixWriters = coopMix{opPut, opPut, opInsert, opDelete, opDelete}
	mixAborts  = coopMix{opPut, opDelete, opPutAbort, opPutAbort, opDelAbort, opDelAbort, opLookup}
	mixReaders = coopMix{opLookup, opIter, opMin, opMax, opCount}
	mixRecycle = coopMix{opPut, opInsert, opDelete, opDelete, opDelete, opBump}
)

func (e *coopEnv) genProgram(mix coopMix, n int, hot []int) []cop {
	var p []cop
	c := e.c
	for i := 0; i < n; i++ {
		k := hot[c.Intn(len(hot))]
		if c.Chance(1, 6) {
			k = c.Intn(len(e.w.keys))
		}
		o := cop{kind: mix[c.Intn(len(mix))], key: k}
		if o.kind == opIter || o.kind == opMin || o.kind == opMax || o.kind == opCount {
			key := e.w.keys[k]
			l := c.Intn(len(key) + 1)
			if c.Chance(1, 2) {
				l = 0
			}
			o.prefix = append([]byte(nil), key[:l]...)
		} else if c.Chance(1, 3) {
			o.beside = 1 + c.Intn(len(e.w.keys))
		}
		p = append(p, o)
		if e.poison && i < n-1 && c.Chance(1, 6) {
			p = append(p, cop{kind: opBump})
		}
	}
	return p
}

// template generates a small set of keys, and which of them are stored at start
func template(c *ctx) (keys [][]byte, stored []bool, name string) {
	long := func() []byte {
		n := pick(c.rng, 0, 0, 0, 1, 2, 7, 8, 9, 254, 255, 256, 300)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(c.Intn(3))
		}
		return b
	}
	cat := func(parts ...interface{}) []byte {
		var b []byte
		for _, p := range parts {
			switch v := p.(type) {
			case []byte:
				b = append(b, v...)
			case string:
				b = append(b, v...)
			case int:
				b = append(b, byte(v))
			}
		}
		return b
	}
	var ks [][]byte
	kind := c.i % 11
	switch kind {
	case 0: // around an empty or single leaf root
		p := long()
		ks = [][]byte{cat(p, "a"), cat(p, "b"), cat(p, "ca"), cat(p, "cb"), cat("zz")}
		name = "root"
	case 1: // a chain of nodes with two children, a leaf and a node each
		d := c.Range(2, 5)
		path := []byte{}
		for i := 0; i < d; i++ {
			path = append(path, long()...)
			lo, hi := 3+c.Intn(100), 110+c.Intn(100)
			if c.Chance(1, 2) {
				lo, hi = hi, lo
			}
			ks = append(ks, cat(path, lo, long()))
			path = append(path, byte(hi))
		}
		ks = append(ks, cat(path, long()))
		// keys that split the prefixes
		n := len(ks)
		for j := 0; j < 3; j++ {
			k := ks[c.Intn(n)]
			if len(k) > 1 {
				cut := c.Intn(len(k) - 1)
				ks = append(ks, cat(append([]byte(nil), k[:cut]...), 250, 1))
			}
		}
		name = "chain"
	case 2: // two levels
		p := long()
		for i := 0; i < c.Range(2, 4); i++ {
			q := long()
			for j := 0; j < c.Range(2, 3); j++ {
				ks = append(ks, cat(p, 10*i+5, q, 7*j+3))
			}
		}
		name = "two-levels"
	case 3: // a node about to be switched to 256-way, or already that
		p := long()
		m := pick(c.rng, 126, 127, 128, 129, 140)
		for i := 0; i < m; i++ {
			ks = append(ks, cat(p, 40+i))
		}
		ks = append(ks, cat(1, "x"), cat(p, 3, 5), cat(p, 3, 6))
		if len(p) > 2 {
			ks = append(ks, cat(p[:1], 200, 1))
		}
		name = "wide"
	case 4: // below a wide node
		p, q := long(), long()
		for i := 0; i < 130; i++ {
			ks = append(ks, cat(p, 40+i))
		}
		ks = append(ks, cat(p, 3, q, 5), cat(p, 3, q, 6), cat(p, 3, q, 7, 1), cat(p, 3, q, 7, 2), cat(p, 2, 2))
		name = "below-wide"
	case 5: // a wide node with a prefix that other keys split
		p := make([]byte, pick(c.rng, 1, 2, 3, 8, 9, 255, 260))
		for i := range p {
			p[i] = byte(c.Intn(3))
		}
		for i := 0; i < 128; i++ {
			ks = append(ks, cat(p, 60+i))
		}
		for j := 0; j < 3; j++ {
			ks = append(ks, cat(append([]byte(nil), p[:c.Intn(len(p))]...), 4+j, 1))
		}
		name = "wide-split"
	default:
		u := genUniverse(c.rng, pick(c.rng, 1, 3, 4, 6, 6, 7, 9, 11, 11, 13), c.Range(3, 14))
		ks = u.keys
		name = u.name
	}
	u := finish(name, ks)
	stored = make([]bool, len(u.keys))
	den := pick(c.rng, 2, 3, 4)
	for i := range stored {
		stored[i] = c.Chance(den-1, den)
		if kind >= 3 && kind <= 5 && len(u.keys) > 100 {
			stored[i] = c.Chance(40, 41)
		}
	}
	return u.keys, stored, name
}

// hotKeys chooses a few keys close to each other
func hotKeys(c *ctx, n int) []int {
	m := c.Range(2, 4)
	base := c.Intn(n)
	hot := []int{}
	for j := 0; j < m; j++ {
		k := base + j
		if c.Chance(1, 4) {
			k = c.Intn(n)
		}
		hot = append(hot, k%n)
	}
	if n > 100 && c.Chance(3, 4) {
		hot = []int{c.Range(4, n-4), c.Range(4, n-4), c.Intn(4), n - 1 - c.Intn(4)}[c.Intn(2):]
	}
	return hot
}

type coopOpt struct {
	mixes  []coopMix // one per thread, cycled
	poison bool
	held   int  // 0 never, 1 random
	ops    int  // max operations per thread
	stairs bool // nested schedules: also directed ones
	doers  int  // bits of threads that usually change something (nested schedules)
}

// coopPairs enumerates, for two threads with a short program each, all ways to pause the first at one point, and (sampled) both at one point
func coopPairs(c *ctx, o coopOpt, limit int) {
	keys, stored, name := anyTemplate(c)
	if len(keys) == 0 {
		return
	}
	wide := len(keys) > 100
	if wide {
		limit = limit / 12
	}
	e := newCoopEnv(c, keys, stored, 3)
	defer e.close(c)
	e.poison = e.poison || o.poison
	hot := hotKeys(c, len(keys))
	var progs [][]cop
	for i := 0; i < 2; i++ {
		progs = append(progs, e.genProgram(o.mixes[i%len(o.mixes)], c.Range(1, o.ops), hot))
	}
	if c.Chance(1, 5) {
		// a third party that changes the structure in the middle
		progs = append(progs, e.genProgram(mixWriters, 1, hot))
	}
	held := o.held > 0 && c.Chance(1, 2)
	run := func(order, upto []int) (st *pauseStrategy, s *sched) {
		st = &pauseStrategy{order: order, upto: upto}
		s = e.runSchedule(progs, st, held)
		c.Exec(1)
		h := s.hash
		h.add(hashString(fmt.Sprint(progs)), c.seed)
		if s.switch_ > 1 {
			c.Distinct(uint64(h))
		}
		for p, n := range s.points {
			if n > 0 {
				e.w.kinds["point "+pointName[p]] += int64(n)
			}
		}
		return
	}
	defer e.w.flushKinds()
	n := 0
	maxK := 0
	// one pause of each
	for t := 0; t < len(progs); t++ {
		for k := 0; k < 400 && n < limit; k++ {
			o := (t + 1) % len(progs)
			st, _ := run([]int{t, o, t}, []int{k, -1, -1})
			n++
			if !st.used && k > 1 && e.s.threads[t].done && e.s.threads[t].steps < k {
				break
			}
			if k > maxK {
				maxK = k
			}
			if wide && k > 60 {
				k += 7
			}
		}
	}
	if maxK > 60 {
		maxK = 60
	}
	// two pauses
	for ; n < limit; n++ {
		a := c.Intn(len(progs))
		b := (a + 1 + c.Intn(len(progs)-1)) % len(progs)
		j, k := c.Intn(maxK+1), c.Intn(maxK+1)
		if c.Chance(1, 3) {
			run([]int{a, b, a, b, a}, []int{j, k, 1 + c.Intn(6), 1 + c.Intn(6), -1})
		} else {
			run([]int{a, b, a}, []int{j, k, -1})
		}
	}
	c.Sample("%s keys=%d stored=%v programs=%v: %d schedules, last %s", name, len(keys), countTrue(stored), progs, n, e.s.path)
	e.w.quietPrepare()
	e.w.atRest()
}

func anyTemplate(c *ctx) (keys [][]byte, stored []bool, name string) {
	if c.Chance(1, 5) {
		return levels(c)
	}
	return template(c)
}

// levels: a chain of nodes, a leaf or two next to each, where most deletes merge a node with the one below
func levels(c *ctx) (keys [][]byte, stored []bool, name string) {
	var path []byte
	var ks [][]byte
	absent := map[string]bool{}
	add := func(always bool, parts ...byte) {
		k := append(append([]byte(nil), path...), parts...)
		if !always && c.Chance(1, 3) {
			absent[string(k)] = true
		}
		ks = append(ks, k)
	}
	d := c.Range(3, 7)
	for i := 0; i < d; i++ {
		if c.Chance(1, 4) {
			path = append(path, make([]byte, pick(c.rng, 1, 2, 8))...)
		}
		add(false, 10)
		if c.Chance(1, 2) {
			k := byte(c.Range(20, 200))
			add(false, k, 1)
			if c.Chance(1, 3) {
				add(false, k, 2)
			}
		}
		path = append(path, byte(pick(c.rng, 5, 15, 220)))
	}
	add(true, 1)
	add(true, 2)
	u := finish("levels", ks)
	for _, k := range u.keys {
		stored = append(stored, !absent[string(k)])
	}
	return u.keys, stored, u.name
}

// stairs is a chain of nodes with a stored leaf each, and a spare key where only some have it stored; leaf and spare are the ids by level
func stairs(c *ctx) (keys [][]byte, stored []bool, leaf, spare []int) {
	var path []byte
	var ks [][]byte
	d := c.Range(4, 6)
	var want []string
	for i := 0; i < d; i++ {
		if c.Chance(1, 3) {
			path = append(path, make([]byte, pick(c.rng, 1, 2, 8, 9))...)
		}
		for _, b := range []byte{10, 12} {
			k := append(append([]byte(nil), path...), b)
			ks = append(ks, k)
			want = append(want, string(k))
		}
		path = append(path, byte(pick(c.rng, 5, 11, 220)))
	}
	ks = append(ks, append(append([]byte(nil), path...), 1), append(append([]byte(nil), path...), 2))
	u := finish("stairs", ks)
	id := map[string]int{}
	for i, k := range u.keys {
		id[string(k)] = i
	}
	stored = make([]bool, len(u.keys))
	for i := range stored {
		stored[i] = true
	}
	for i := 0; i < len(want); i += 2 {
		leaf, spare = append(leaf, id[want[i]]), append(spare, id[want[i+1]])
		stored[id[want[i+1]]] = c.Chance(1, 4)
	}
	return u.keys, stored, leaf, spare
}

// coopNested: three operations, where the first is paused, the second gets past a place changed by the first, then the first goes on for
// some steps, the third runs to its end, and the second goes on while the first has not ended
func coopNested(c *ctx, opt coopOpt, programs, runs int) {
	var keys [][]byte
	var stored []bool
	var name string
	var leaf, spare []int
	switch {
	case c.i%3 == 0:
		keys, stored, name = template(c)
	case c.i%3 == 1 && opt.stairs:
		keys, stored, leaf, spare = stairs(c)
		name = "stairs"
	default:
		keys, stored, name = levels(c)
	}
	if len(keys) < 3 {
		return
	}
	if len(keys) > 100 {
		runs = runs / 8
	}
	e := newCoopEnv(c, keys, stored, 4)
	defer e.close(c)
	e.poison = e.poison || opt.poison
	var progs [][]cop
	n := 0
	for p := 0; p < programs; p++ {
		progs = nil
		for i := 0; i < 3; i++ {
			k := c.Intn(len(keys))
			if len(keys) > 100 {
				h := hotKeys(c, len(keys))
				k = h[c.Intn(len(h))]
			}
			prog := e.genProgram(opt.mixes[i%len(opt.mixes)], c.Range(1, opt.ops), []int{k})
			o := &prog[0]
			if opt.doers>>i&1 == 1 && c.Chance(3, 4) { // do something
				o.key = k
				if stored[k] && i != 1 {
					o.kind = opDelete
				} else {
					o.kind = opPut
				}
			}
			if e.poison && i != 1 {
				// memory is used again while the second is paused
				prog = append(prog, cop{kind: opBump}, cop{kind: opBump}, cop{kind: opDelete, key: c.Intn(len(keys))}, cop{kind: opPut, key: c.Intn(len(keys))},
					cop{kind: opInsert, key: c.Intn(len(keys))})
				if c.Chance(1, 2) {
					// nodes of the same two sizes, so that the most recently recycled are used
					prog = append(prog[:1], cop{kind: opBump})
					for x := 0; x < 6; x++ {
						o := cop{kind: opPut, key: k}
						if x%2 == 0 == (prog[0].kind == opPut) {
							o.kind = opDelete
						}
						prog = append(prog, o)
					}
				}
			}
			progs = append(progs, prog)
		}
		if leaf != nil && c.Chance(3, 4) {
			// the first replaces a node, the third the one below it, the second gets to the one below that one before it is known
			l := c.Intn(len(leaf) - 2)
			toggle := func(k int) cop {
				if stored[k] {
					return cop{kind: opDelete, key: k}
				}
				return cop{kind: opPut, key: k}
			}
			progs[0][0], progs[2][0] = toggle(spare[l]), toggle(spare[l+1])
			second := pick(c.rng, leaf, leaf, spare)[min(l+2+c.Intn(2), len(leaf)-1)]
			if progs[1][0] = toggle(second); c.Chance(1, 4) {
				progs[1][0].kind = pick(c.rng, opPut, opDelAbort, opPutAbort)
			}
		}
		held := c.Chance(1, 2)
		epochs := e.poison && p%3 == 1
		if epochs {
			// an epoch passes while the first is paused, and then the second starts
			progs[2] = []cop{{kind: opBump}}
		}
		main := progs
		if e.poison {
			main = [][]cop{progs[0][:1], progs[1], progs[2][:1]}
		}
		first := e.runSchedule(main, &pauseStrategy{order: []int{0, 1, 2}, upto: []int{-1, -1, -1}}, held)
		sa, sb := first.threads[0].steps, first.threads[1].steps
		for i := 0; i < runs; i++ {
			j, m := c.Range(1, max(sa-1, 2)), c.Range(1, 3)
			if c.Chance(1, 4) {
				m = c.Range(1, max(sa, 2))
			}
			k := c.Range(1, max(sb, 2))
			st := &pauseStrategy{order: []int{0, 1, 0, 2, 1, 0}, upto: []int{j, k, m, -1, -1, -1}}
			if c.Chance(1, 4) {
				st = &pauseStrategy{order: []int{0, 1, 2, 1, 0}, upto: []int{j, k, -1, c.Range(1, 12), -1}}
			}
			if epochs {
				st = &pauseStrategy{order: []int{0, 2, 1, 0, 1}, upto: []int{j, -1, k, -1, -1}}
			}
			s := e.runSchedule(progs, st, held)
			n++
			c.Exec(1)
			h := s.hash
			h.add(hashString(fmt.Sprint(progs)), c.seed)
			if s.switch_ > 1 {
				c.Distinct(uint64(h))
			}
		}
	}
	e.w.flushKinds()
	c.Sample("%s keys=%d stored=%v programs=%v: %d schedules, last %s", name, len(keys), countTrue(stored), progs, n, e.s.path)
	e.w.quietPrepare()
	e.w.atRest()
}

// coopRandom runs more threads under random and priority based schedules
func coopRandom(c *ctx, o coopOpt, runs int) {
	keys, stored, name := anyTemplate(c)
	if len(keys) == 0 {
		return
	}
	if len(keys) > 100 {
		runs = runs / 8
	}
	e := newCoopEnv(c, keys, stored, 5)
	defer e.close(c)
	e.poison = e.poison || o.poison
	length := 60
	var progs [][]cop
	for n := 0; n < runs; n++ {
		if n%8 == 0 {
			hot := hotKeys(c, len(keys))
			progs = nil
			for i := 0; i < c.Range(2, 4); i++ {
				progs = append(progs, e.genProgram(o.mixes[i%len(o.mixes)], c.Range(1, o.ops), hot))
			}
		}
		var st strategy
		switch c.Intn(3) {
		case 0:
			st = newPCT(c.rng, length, c.Range(1, 4))
		default:
			st = &randomStrategy{c.rng, pick(c.rng, 2, 3, 6, 12)}
		}
		s := e.runSchedule(progs, st, o.held > 0 && c.Chance(1, 2))
		length = max(20, s.total)
		c.Exec(1)
		h := s.hash
		h.add(hashString(fmt.Sprint(progs)), c.seed)
		if s.switch_ > 1 {
			c.Distinct(uint64(h))
		}
		for p, n := range s.points {
			if n > 0 {
				e.w.kinds["point "+pointName[p]] += int64(n)
			}
		}
	}
	e.w.flushKinds()
	c.Sample("%s keys=%d stored=%v programs=%v: %d schedules, last %s", name, len(keys), countTrue(stored), progs, runs, e.s.path)
	e.w.quietPrepare()
	e.w.atRest()
}

func countTrue(b []bool) (n int) {
	for _, x := range b {
		if x {
			n++
		}
	}
	return
}

// coopAlias places parent, node and child so that they share locks, and then runs schedules of operations on them. Needs the white-box overlay to see addresses.
func coopAlias(c *ctx, mix coopMix, runs int) {
	if !radix.VerifWhiteBox {
		return
	}
	pre := func() []byte {
		b := make([]byte, pick(c.rng, 0, 0, 1, 3, 9))
		for i := range b {
			b[i] = byte(1 + c.Intn(2))
		}
		return b
	}
	cat := func(a []byte, bs ...byte) []byte { return append(append([]byte(nil), a...), bs...) }
	n := int(radix.VerifLocksPerBlock())
	// parent: leaves 20, 30(spare), node 40; node: leaf 50, child 60; child: leaves 70, 80, 90(spare)
	p := append([]byte{100}, pre()...)
	q := append(cat(p, 40), pre()...)
	u := append(cat(q, 60), append([]byte{5}, pre()...)...)
	var ks [][]byte
	ks = append(ks, cat(p, 20), cat(p, 30), cat(q, 50), cat(u, 70), cat(u, 80), cat(u, 90), []byte{10, 1}, []byte{10, 2})
	if c.Chance(1, 2) {
		ks = append(ks, cat(p, 25)) // not stored at start
	}
	un := finish("alias", ks)
	keys := un.keys
	id := func(k []byte) int {
		for i := range keys {
			if bytes.Equal(keys[i], k) {
				return i
			}
		}
		panic("no key")
	}
	iSpareP, iLeaf, iSpareC := id(cat(p, 30)), id(cat(q, 50)), id(cat(u, 90))
	stored := make([]bool, len(keys))
	for i := range stored {
		stored[i] = len(ks) < 9 || !bytes.Equal(keys[i], cat(p, 25))
	}
	e := newCoopEnv(c, keys, stored, 4)
	defer e.close(c)
	// pad(slots) allocates a node of that many slots through allocator 0 and removes it again
	pad := func(slots int) {
		k := make([]byte, (slots-3)*8+2)
		k[0] = 200
		put := func() {
			found, op := e.w.t.PrepareUpdate(k)
			if found {
				op.FetchedKey = append(op.FetchedKey[:0], k...)
				op.FetchedKey[len(k)-1] = 0
			}
			op.Finalize(uint64(len(keys)))
		}
		put()
		k[len(k)-1] = 1
		put()
		for _, last := range []byte{1, 0} {
			k[len(k)-1] = last
			_, op := e.w.t.PrepareDelete(k)
			op.Finalize()
		}
	}
	place := func(spare int, before int, node func() uint64) bool {
		for try := 0; try < 4; try++ {
			if e.w.val[spare] != 0 {
				e.w.del(spare, doFinalize)
			}
			// what a pad of minimal size costs in addition
			a := radix.VerifNextFree(e.w.t)
			pad(40)
			b := radix.VerifNextFree(e.w.t)
			if a == 0 || b < a+40 {
				continue
			}
			overhead := int(b-a) - 40
			s := (int(node()%uint64(n)) - int(b%uint64(n)) - overhead - before) % n
			for s < 40 {
				s += n
			}
			pad(s)
			if int((radix.VerifNextFree(e.w.t)+uint64(before))%uint64(n)) != int(node()%uint64(n)) {
				continue
			}
			e.w.put(spare)
			return true
		}
		return false
	}
	var which int
	setup := func() bool {
		if e.runs%600 == 599 {
			e.close(c)
			runs := e.runs + 1
			*e = *newCoopEnv(c, keys, stored, 4)
			e.runs = runs
		}
		e.reset()
		path := func() []uint64 { ns, _ := radix.VerifPath(e.w.t, keys[iSpareC]); return ns }
		lk := func(i, j int) bool {
			ns := path()
			return len(ns) == 4 && radix.VerifLockOf(e.w.t, ns[i]) == radix.VerifLockOf(e.w.t, ns[j])
		}
		if len(path()) != 4 {
			return false
		}
		if which == 1 || which == 2 { // parent next to node
			place(iSpareP, 0, func() uint64 { return path()[2] })
		}
		switch which {
		case 0, 1: // child shares with node
			place(iSpareC, 0, func() uint64 { return path()[2] })
		case 3: // child shares with parent
			place(iSpareC, 0, func() uint64 { return path()[1] })
		}
		e.reset()
		ok := false
		switch which {
		case 0:
			ok = lk(3, 2)
		case 1:
			ok = lk(3, 2) && lk(2, 1)
		case 2:
			ok = lk(2, 1)
		case 3:
			ok = lk(3, 1)
		}
		return ok
	}
	hot := []int{iSpareP, iLeaf, iSpareC, id(cat(p, 20)), id(cat(u, 70))}
	aliased := int64(0)
	for n := 0; n < runs; n++ {
		which = n % 4
		progs := [][]cop{{{kind: opDelete, key: iLeaf}}, e.genProgram(mix, c.Range(1, 2), hot)}
		switch c.Intn(6) {
		case 0:
			progs[0] = e.genProgram(mix, 1, hot)
		case 1: // the leaf itself is changed, nothing is replaced
			progs[1] = []cop{{kind: opPut, key: iLeaf}}
		case 2: // the child is replaced
			progs[1] = []cop{{kind: pick(c.rng, opPut, opDelete), key: pick(c.rng, iSpareC, id(cat(u, 70)))}}
		}
		if c.Chance(1, 4) {
			progs = append(progs, e.genProgram(mixWriters, 1, hot))
		}
		if !setup() {
			continue
		}
		aliased++
		steps := 22
		if c.atomics() {
			steps = 70
		}
		k := c.Intn(steps)
		var st strategy = &pauseStrategy{order: []int{0, 1, 0}, upto: []int{k, -1, -1}}
		if c.Chance(1, 3) {
			st = &pauseStrategy{order: []int{0, 1, 0, 1}, upto: []int{k, c.Intn(steps), c.Intn(8), -1}}
		}
		s := e.runFromHere(progs, st, false)
		c.Exec(1)
		h := s.hash
		h.add(hashString(fmt.Sprint(progs)), c.seed, uint64(which))
		if s.switch_ > 1 {
			c.Distinct(uint64(h))
		}
		if n%40 == 0 {
			c.Sample("nodes sharing locks (kind %d), programs=%v, schedule %s", which, progs, s.path)
		}
	}
	c.r.count("schedules on nodes sharing a lock", aliased)
	e.w.flushKinds()
}
