package main

import (
	"fmt"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/jayloop/radix"
)

// C05: linearizability per key.

func init() {
	checks["C05"] = check{
		seq: func(r *run) {
			o := coopOpt{mixes: []coopMix{mixMap}, held: 1, ops: 2}
			r.Each("pairs", r.n(1200, 12000), func(c *ctx) { coopPairs(c, o, 240) })
			o.ops = 3
			r.Each("threads", r.n(600, 8000), func(c *ctx) { coopRandom(c, o, 200) })
			r.Each("shared-locks", r.n(160, 1600), func(c *ctx) { coopAlias(c, mixWriters, 100) })
			r.Each("nested", r.n(800, 8000), func(c *ctx) { coopNested(c, nestedMap, 12, 60) })
		},
		par: func(r *run) {
			r.Each("free-histories", r.n(80, 800), freeHistories)
		},
	}
}

var nestedMap = coopOpt{mixes: []coopMix{mixMap}, ops: 1, doers: 7, stairs: true}

// freeHistories records histories of free running goroutines and checks them for linearizability
func freeHistories(c *ctx) {
	perturb(c)
	keys, name := hotUniverse(c)
	if len(keys) == 0 {
		return
	}
	n := len(keys)
	workers := c.Range(3, 8)
	t := radix.NewTree(&radix.Options{NumAllocators: c.Range(workers, workers+4)})
	p := &parTree{c: c, t: t, keys: keys, keyOf: func(v uint64) int { return int(v & (1<<17 - 1)) }}
	if c.Chance(1, 2) {
		p.mid = func() { hook(ptRead) }
	}
	if c.Chance(1, 2) {
		radix.VerifReuse = poisonAll
	}
	defer func() { radix.VerifReuse = nil }()
	var clock atomic.Int64
	val := make([]uint64, n)
	for i := range keys {
		if c.Chance(1, 2) {
			val[i] = uint64(1)<<17 | uint64(i)
			p.put(t, i, func(uint64, bool) (uint64, bool) { return val[i], true })
		}
	}
	var overlaps int64
	rounds := 40
	if n > 100 {
		rounds = 12
	}
	for round := 0; round < rounds; round++ {
		hot := hotKeys(c, n)
		logs := make([][]porcupine.Operation, workers)
		on := make([][]int, workers)
		var fs []func(int)
		for g := 0; g < workers; g++ {
			seed := c.Uint64()
			fs = append(fs, func(g int) {
				r := newRng(seed)
				var a api = t
				if g%2 == 0 {
					h := t.GetAllocator()
					defer t.ReleaseAllocator(h)
					a = h
				}
				for k := 0; k < 24 && !c.stop(); k++ {
					i := hot[r.Intn(len(hot))]
					if r.Chance(1, 10) {
						i = r.Intn(n)
					}
					op := porcupine.Operation{ClientId: g + 1, Call: clock.Add(1)}
					v := uint64(round+2)<<40 | uint64(g)<<32 | uint64(k)<<24 | uint64(i)
					switch r.Intn(8) {
					case 0, 1:
						old, present, _ := p.put(a, i, func(uint64, bool) (uint64, bool) { return v, true })
						op.Input = regIn{opPut, v}
						op.Output = regOut{ifPresent(old, present)}
					case 2:
						old, present, _ := p.put(a, i, func(_ uint64, present bool) (uint64, bool) { return v, !present })
						op.Input = regIn{opInsert, v}
						op.Output = regOut{ifPresent(old, present)}
					case 3, 4, 5:
						old, ok := p.del(a, i)
						op.Input = regIn{kind: opDelete}
						op.Output = regOut{ifPresent(old, ok)}
					case 6:
						old, present, _ := p.put(a, i, func(uint64, bool) (uint64, bool) { return 0, false })
						op.Input = regIn{kind: opLookup}
						op.Output = regOut{ifPresent(old, present)}
					default:
						old, found := a.Lookup(keys[i])
						op.Input = regIn{kind: opLookup}
						op.Output = regOut{ifPresent(old, found && p.keyOf(old) == i)}
					}
					op.Return = clock.Add(1)
					logs[g] = append(logs[g], op)
					on[g] = append(on[g], i)
				}
			})
		}
		c.free(fs...)
		hist := map[int][]porcupine.Operation{}
		for g := range logs {
			for k, op := range logs[g] {
				hist[on[g][k]] = append(hist[on[g][k]], op)
			}
		}
		var h hasher
		for i := 0; i < n; i++ {
			ops := hist[i]
			final := uint64(0)
			if v, found := t.Lookup(keys[i]); found && p.keyOf(v) == i {
				final = v
			}
			if len(ops) == 0 {
				if final != val[i] {
					c.Fail("key %d was not used but its value changed from %x to %x", i, val[i], final)
				}
				continue
			}
			for a := range ops {
				for b := range ops[:a] {
					if ops[a].Call < ops[b].Return && ops[b].Call < ops[a].Return {
						overlaps++
						h.add(uint64(ops[a].ClientId), uint64(ops[b].ClientId), uint64(a), uint64(b))
					}
				}
			}
			end := clock.Add(1)
			ops = append(ops, porcupine.Operation{ClientId: 0, Input: regIn{opPut, val[i]}, Output: regOut{0}, Call: -2, Return: -1},
				porcupine.Operation{ClientId: 0, Input: regIn{kind: opLookup}, Output: regOut{final}, Call: end, Return: end})
			if val[i] == 0 {
				ops[len(ops)-2].Input = regIn{kind: opDelete}
			}
			switch porcupine.CheckOperationsTimeout(register, ops, 10*time.Second) {
			case porcupine.Illegal:
				s := ""
				for _, o := range ops {
					s += fmt.Sprintf("  client %d [%d,%d] %s %x saw %x\n", o.ClientId, o.Call, o.Return, copName[o.Input.(regIn).kind], o.Input.(regIn).arg, o.Output.(regOut).old)
				}
				c.Fail("operations on key %d (%s) are not linearizable:\n%s", i, show(keys[i]), s)
			case porcupine.Unknown:
				c.r.count("inconclusive checks", 1)
			}
			c.r.count("linearizability checks", 1)
			val[i] = final
		}
		c.Distinct(uint64(h) ^ c.seed)
		c.Exec(1)
	}
	c.r.count("pairs of overlapping operations on one key", overlaps)
	inspect(c, t)
	c.Sample("%s, %d keys, %d goroutines, %d rounds, %d pairs of operations on the same key overlapped", name, n, workers, rounds, overlaps)
	t.Close()
}

func ifPresent(v uint64, ok bool) uint64 {
	if ok {
		return v
	}
	return 0
}
