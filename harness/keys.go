package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"
)

// A universe is a sorted prefix-free set of keys.
type universe struct {
	name string
	keys [][]byte
}

func finish(name string, keys [][]byte) *universe {
	sort.Slice(keys, func(i, j int) bool { return bytes.Compare(keys[i], keys[j]) < 0 })
	out := keys[:0]
	for _, k := range keys {
		if len(k) == 0 {
			continue
		}
		if n := len(out); n > 0 && bytes.HasPrefix(k, out[n-1]) {
			continue // duplicate, or would break prefix-freeness
		}
		out = append(out, k)
	}
	return &universe{name, out}
}

func be(v uint64, n int) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], v)
	return append([]byte(nil), b[8-n:]...)
}

// trieOpt controls the random trie generator, the most general source of prefix-free keys
type trieOpt struct {
	n         int   // approximate number of keys
	fanouts   []int // possible number of branches
	prefixes  []int // possible lengths of shared parts
	maxDepth  int
	suffix    int  // max length of key remainder after the last branching point
	bytes     int  // if > 0 only bytes below this value are used
	edgeBytes bool // prefer bytes 0, 255 and their neighbours
	maxBytes  int  // bound on the total number of key bytes (default 4 MB)
}

func genTrie(r *rng, name string, o trieOpt) *universe {
	var keys [][]byte
	total := 0
	if o.maxBytes == 0 {
		o.maxBytes = 4 << 20
	}
	nb := 256
	if o.bytes > 0 {
		nb = o.bytes
	}
	rb := func() byte {
		if o.edgeBytes && r.Chance(1, 2) {
			return pick(r, byte(0), 1, 2, 254, 255, 127, 128)
		}
		return byte(r.Intn(nb))
	}
	add := func(k []byte) {
		for j := r.Intn(o.suffix + 1); j > 0; j-- {
			k = append(k, rb())
		}
		keys = append(keys, append([]byte(nil), k...))
		total += len(k)
	}
	var gen func(path []byte, depth, budget int)
	gen = func(path []byte, depth, budget int) {
		if budget <= 1 || depth >= o.maxDepth || total > o.maxBytes {
			add(path)
			return
		}
		pl := pick(r, o.prefixes...)
		fill := rb()
		rnd := r.Chance(1, 2)
		for j := 0; j < pl; j++ {
			if rnd {
				fill = rb()
			}
			path = append(path, fill)
		}
		f := pick(r, o.fanouts...)
		if f > nb {
			f = nb
		}
		if f > budget {
			f = budget
		}
		if f < 2 {
			f = 2
		}
		var chars []int
		switch {
		case o.edgeBytes && f <= 7 && r.Chance(1, 2):
			chars = []int{0, 1, 2, 127, 128, 254, 255}
			p := r.Perm(7)
			cs := make([]int, 7)
			for i := range p {
				cs[i] = chars[p[i]]
			}
			chars = cs[:f]
		default:
			chars = r.Perm(nb)[:f]
		}
		rest := budget
		for i, ch := range chars {
			b := rest / (f - i)
			if i < f-1 && b > 1 {
				if r.Chance(1, 3) {
					b = 1
				} else if r.Chance(1, 4) && rest-2*b > 0 {
					b = 2 * b
				}
			}
			rest -= b
			if b < 1 {
				b = 1
			}
			gen(append(append([]byte(nil), path...), byte(ch)), depth+1, b)
		}
	}
	gen(nil, 0, o.n)
	return finish(name, keys)
}

var boundaryLens = []int{0, 0, 0, 1, 2, 6, 7, 8, 9, 15, 16, 17, 246, 247, 248, 249, 252, 253, 254, 255, 256, 257, 258, 263, 264, 265, 300, 511, 512}

// sizes around the largest recycled node (257 slots)
var recycleLens = []int{1960, 1976, 2023, 2024, 2025, 2030, 2031, 2032, 2033, 2037, 2038, 2039, 2040, 2041, 2048, 2100}

func genUniverse(r *rng, kind, n int) *universe {
	var keys [][]byte
	switch kind % numUniverses {
	case 0: // dense 8 byte integers
		base := r.Uint64() >> uint(r.Intn(64))
		for i := 0; i < n; i++ {
			keys = append(keys, be(base+uint64(i), 8))
		}
		return finish("dense-int64", keys)
	case 1: // short integers
		w := r.Range(2, 4)
		base := r.Uint64()
		step := uint64(pick(r, 1, 1, 1, 2, 3, 255, 256, 257))
		for i := 0; i < n; i++ {
			keys = append(keys, be(base+uint64(i)*step, w))
		}
		return finish(fmt.Sprintf("int-%d-bytes", w), keys)
	case 2: // sparse
		for i := 0; i < n; i++ {
			keys = append(keys, be(r.Uint64(), 8))
		}
		return finish("sparse-int64", keys)
	case 3: // small alphabet, fixed length
		l, al := r.Range(3, 10), r.Range(2, 4)
		for i := 0; i < n; i++ {
			k := make([]byte, l)
			for j := range k {
				k[j] = 'a' + byte(r.Intn(al))
			}
			keys = append(keys, k)
		}
		return finish("small-alphabet", keys)
	case 4: // zero terminated strings
		al := r.Range(2, 6)
		for i := 0; i < n; i++ {
			k := make([]byte, r.Intn(12))
			for j := range k {
				k[j] = 1 + byte(r.Intn(al))
			}
			keys = append(keys, append(k, 0))
		}
		return finish("zero-terminated", keys)
	case 5: // path like strings
		words := []string{"usr", "lib", "share", "local", "a", "ab", "abc", "documentation-of-everything", "x86_64-linux-gnu", "0"}
		for i := 0; i < n; i++ {
			var k []byte
			for j := r.Range(1, 7); j > 0; j-- {
				k = append(append(k, '/'), words[r.Intn(len(words))]...)
			}
			keys = append(keys, append(k, 0))
		}
		return finish("paths", keys)
	case 6:
		return genTrie(r, "trie-narrow", trieOpt{n: n, fanouts: []int{2, 2, 2, 3, 4}, prefixes: []int{0, 0, 1, 2, 7, 8, 9}, maxDepth: 12, suffix: 3})
	case 7:
		return genTrie(r, "trie-edge-bytes", trieOpt{n: n, fanouts: []int{2, 2, 3, 5, 7}, prefixes: []int{0, 0, 1, 3}, maxDepth: 10, suffix: 2, edgeBytes: true})
	case 8:
		return genTrie(r, "trie-wide", trieOpt{n: n, fanouts: []int{2, 4, 16, 100, 126, 127, 128, 129, 200, 255, 256}, prefixes: []int{0, 0, 1, 8}, maxDepth: 5, suffix: 2})
	case 9:
		return genTrie(r, "trie-boundary-prefixes", trieOpt{n: n, fanouts: []int{2, 2, 3, 6}, prefixes: boundaryLens, maxDepth: 6, suffix: 2, maxBytes: 1 << 20})
	case 10:
		return genTrie(r, "trie-mixed", trieOpt{n: n, fanouts: []int{2, 2, 3, 40, 127, 128, 256}, prefixes: []int{0, 1, 7, 8, 9, 20, 254, 255, 256}, maxDepth: 6, suffix: 4, maxBytes: 1 << 20})
	case 11:
		return genTrie(r, "trie-two-bytes", trieOpt{n: n, fanouts: []int{2}, prefixes: []int{0, 0, 0, 1, 2}, maxDepth: 16, suffix: 1, bytes: 2})
	case 12: // one wide node, the rest below one of its branches
		return genTrie(r, "trie-recycle-boundary", trieOpt{n: min(n, 60), fanouts: []int{2, 3, 4}, prefixes: recycleLens, maxDepth: 4, suffix: 1, maxBytes: 1 << 20})
	case 13: // a single chain: every key branches off the same long path
		path := []byte{}
		for i := 0; i < n && len(path) < 600; i++ {
			for j := r.Intn(3); j > 0; j-- {
				path = append(path, byte(r.Intn(3)))
			}
			b := byte(r.Intn(255))
			keys = append(keys, append(append([]byte(nil), path...), b+1))
			path = append(path, b)
		}
		keys = append(keys, append(path, 9, 9))
		return finish("chain", keys)
	}
	// 14: all single bytes and some two byte extensions
	ext := r.Intn(256)
	for i := 0; i < 256; i++ {
		if i == ext || r.Chance(1, 6) {
			m := r.Range(2, 256)
			for _, j := range r.Perm(256)[:m] {
				keys = append(keys, []byte{byte(i), byte(j)})
			}
		} else {
			keys = append(keys, []byte{byte(i)})
		}
		if len(keys) > n+256 {
			break
		}
	}
	return finish("bytes", keys)
}

const numUniverses = 15
