package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/jayloop/radix"
)

// ---------- random numbers ----------

type rng struct{ s uint64 }

func newRng(seed uint64) *rng { return &rng{seed} }

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func (r *rng) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}
func (r *rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}
func (r *rng) Range(a, b int) int       { return a + r.Intn(b-a+1) }
func (r *rng) Chance(num, den int) bool { return r.Intn(den) < num }
func (r *rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}
func pick[T any](r *rng, xs ...T) T { return xs[r.Intn(len(xs))] }

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

type hasher uint64

func (h *hasher) add(vs ...uint64) {
	x := uint64(*h)
	for _, v := range vs {
		x = mix(x ^ v)
	}
	*h = hasher(x)
}
func (h *hasher) bytes(b []byte) { h.add(hashString(string(b)), uint64(len(b))) }

// ---------- results ----------

type violationRec struct {
	Workload string `json:"workload"`
	Case     int    `json:"case"`
	Msg      string `json:"msg"`
}

type result struct {
	Property   string            `json:"property"`
	Phase      string            `json:"phase"`
	Executions int64             `json:"executions"`
	Cases      map[string]int64  `json:"cases"`
	Counters   map[string]int64  `json:"counters"`
	Samples    []string          `json:"samples"`
	Violations []violationRec    `json:"violations"`
	Findings   map[string]string `json:"findings"`
	WhiteBox   bool              `json:"white_box"`
	Distinct   int               `json:"distinct"`
	Digests    map[string]string `json:"digests,omitempty"`
}

// run is one worker process deciding (a shard of) one property.
type run struct {
	prop, tier, phase string
	seed              uint64
	shard, shards     int
	outFile           string
	onlyWorkload      string
	onlyCase          int
	res               result
	hashes            map[uint64]struct{}
	mu                sync.Mutex
	progress          *os.File
	caseStart         atomic.Int64
	caseName          atomic.Value
}

func (r *run) thorough() bool { return r.tier == "thorough" }

// finding records a defect by its identity. The driver reports it as a violation unless it is a known finding.
func (r *run) finding(id, format string, args ...interface{}) {
	r.mu.Lock()
	if r.res.Findings[id] == "" {
		r.res.Findings[id] = fmt.Sprintf(format, args...)
	}
	r.mu.Unlock()
}

// n selects the number of cases by tier
// scale of the number of cases of each property, in halves, so that all quick checks take about 20 s
var scale = map[string]int{"C01": 12, "C02": 8, "C03": 5, "C04": 12, "C05": 3, "C06": 5, "C07": 7, "C08": 2, "C09": 14, "C10": 7, "C11": 8, "C12": 7, "C13": 5, "C14": 8,
	"C15": 5, "C16": 7, "C17": 4, "C18": 3, "C19": 20, "C20": 6, "C21": 3, "C22": 12, "C23": 12, "C24": 5, "C25": 3, "C26": 12}

func (r *run) n(quick, thorough int) int {
	k := scale[r.prop]
	if k == 0 {
		k = 2
	}
	if r.thorough() {
		return thorough * k / 2
	}
	return quick * k / 2
}

func (r *run) count(name string, n int64) {
	r.mu.Lock()
	r.res.Counters[name] += n
	r.mu.Unlock()
}

// ctx is one case.
type ctx struct {
	*rng
	r        *run
	workload string
	i        int
	seed     uint64

	failMu sync.Mutex
	failed string
	crowd  bool // controlled schedules run beside many allocators in use
	broken bool // the case failed, trees may be left in any state
	trace  []string
}

// atomics tells if threads of controlled schedules may also be switched before each atomic operation, in this case
func (c *ctx) atomics() bool {
	return radix.VerifAtomics && haveGoid && mix(c.seed^77)%3 == 0
}

type violation struct{ msg string }

// close is deferred to close a tree, except if there was a failure
func (c *ctx) close(t *radix.Tree) {
	if e := recover(); e != nil {
		c.rethrow(e)
	}
	if !c.broken && c.hasFailed() == "" {
		t.Close()
	}
}

// rethrow continues a panic that was recovered, keeping its stack
func (c *ctx) rethrow(e interface{}) {
	switch e.(type) {
	case violation, stopCase, exitRun:
		panic(e)
	}
	panic(violation{fmt.Sprintf("panic: %v\n%s", e, trimStack(debug.Stack()))})
}

// stopCase ends the goroutine of a case that already failed elsewhere
type stopCase struct{}

func (c *ctx) Fail(format string, args ...interface{}) {
	c.failMu.Lock()
	c.broken = true
	c.failMu.Unlock()
	panic(violation{fmt.Sprintf(format, args...)})
}

// setFailed records a failure seen in another goroutine
func (c *ctx) setFailed(msg string) {
	c.failMu.Lock()
	if c.failed == "" {
		c.failed = msg
	}
	c.failMu.Unlock()
}
func (c *ctx) hasFailed() string {
	c.failMu.Lock()
	defer c.failMu.Unlock()
	return c.failed
}
func (c *ctx) checkFailed() {
	if s := c.hasFailed(); s != "" {
		panic(violation{s})
	}
}

// guard is deferred in goroutines of a case
func (c *ctx) guard() {
	if e := recover(); e != nil {
		switch v := e.(type) {
		case violation:
			c.setFailed(v.msg)
		case stopCase:
		default:
			c.setFailed(fmt.Sprintf("panic: %v\n%s", e, trimStack(debug.Stack())))
		}
	}
}

func trimStack(b []byte) string {
	s := string(b)
	if len(s) > 6000 {
		s = s[:6000] + "..."
	}
	return s
}

// Distinct records that this case, identified by a hash of what was executed and observed, was non-trivial.
func (c *ctx) Distinct(h uint64) {
	c.r.mu.Lock()
	c.r.hashes[h] = struct{}{}
	c.r.mu.Unlock()
}

func (c *ctx) Sample(format string, args ...interface{}) {
	c.r.mu.Lock()
	n := 0
	pre := c.workload + ": "
	for _, s := range c.r.res.Samples {
		if strings.HasPrefix(s, pre) {
			n++
		}
	}
	if n < 2 && len(c.r.res.Samples) < 40 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 700 {
			s = s[:700] + "..."
		}
		c.r.res.Samples = append(c.r.res.Samples, pre+s)
	}
	c.r.mu.Unlock()
}

func (c *ctx) Exec(n int64) {
	c.r.mu.Lock()
	c.r.res.Executions += n
	c.r.mu.Unlock()
}

type exitRun struct{}

// Each runs the cases of a workload that belong to this shard.
func (r *run) Each(name string, n int, f func(c *ctx)) {
	if r.onlyWorkload != "" && r.onlyWorkload != name {
		return
	}
	t0 := time.Now()
	done := 0
	for i := 0; i < n; i++ {
		if r.onlyWorkload != "" {
			if i != r.onlyCase && r.onlyCase >= 0 {
				continue
			}
		} else if (i+int(hashString(name)%uint64(r.shards)))%r.shards != r.shard {
			continue
		}
		seed := mix(r.seed ^ hashString(r.prop+"/"+name) ^ uint64(i)*0x9e3779b97f4a7c15)
		c := &ctx{rng: newRng(seed), r: r, workload: name, i: i, seed: seed}
		r.caseName.Store(fmt.Sprintf("%s %d", name, i))
		r.caseStart.Store(time.Now().UnixNano())
		if r.progress != nil {
			r.progress.WriteAt([]byte(fmt.Sprintf("%-60s\n", fmt.Sprintf("%s %d", name, i))), 0)
		}
		msg := r.runCase(c, f)
		r.caseStart.Store(0)
		done++
		if msg != "" {
			if len(c.trace) > 0 {
				k := 0
				if len(c.trace) > 60 {
					k = len(c.trace) - 60
				}
				msg += "\ntrace:\n  " + strings.Join(c.trace[k:], "\n  ")
			}
			r.res.Violations = append(r.res.Violations, violationRec{name, i, msg})
			panic(exitRun{})
		}
	}
	r.mu.Lock()
	r.res.Cases[name] += int64(done)
	r.res.Counters["ms:"+name] += time.Since(t0).Milliseconds()
	r.mu.Unlock()
}

func (r *run) runCase(c *ctx, f func(c *ctx)) (msg string) {
	defer func() {
		setMode(modeOff)
		if e := recover(); e != nil {
			switch v := e.(type) {
			case violation:
				msg = v.msg
			case stopCase:
				msg = c.hasFailed()
			case exitRun:
				panic(e)
			default:
				msg = fmt.Sprintf("panic: %v\n%s", e, trimStack(debug.Stack()))
			}
			if msg == "" {
				msg = "unknown failure"
			}
		}
	}()
	f(c)
	c.checkFailed()
	return ""
}

// watchdog ends the worker if one case, which takes at most a few seconds on an idle machine, is not done after a long time.
func (r *run) watchdog() {
	limit := 150 * time.Second
	if r.thorough() {
		limit = 300 * time.Second
	}
	if r.phase == "race" {
		limit *= 2
	}
	for {
		time.Sleep(time.Second)
		s := r.caseStart.Load()
		if s == 0 || time.Since(time.Unix(0, s)) < limit {
			continue
		}
		buf := make([]byte, 1<<20)
		n := runtime.Stack(buf, true)
		name, _ := r.caseName.Load().(string)
		var wl string
		var i int
		fmt.Sscanf(name, "%s %d", &wl, &i)
		stacks := string(buf[:n])
		if len(stacks) > 20000 {
			stacks = stacks[:20000]
		}
		r.res.Violations = append(r.res.Violations, violationRec{wl, i, fmt.Sprintf("an operation never returned (case not done after %v)\n%s", limit, stacks)})
		r.write()
		if r.outFile == "/dev/null" {
			fmt.Println("VIOLATION never returned", name)
		}
		os.Exit(0)
	}
}

func (r *run) write() {
	// the watchdog may race with the running case here, this only affects counters
	r.res.Distinct = len(r.hashes)
	b, err := json.MarshalIndent(&r.res, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	hs := make([]byte, 0, 8*len(r.hashes))
	for h := range r.hashes {
		for k := 0; k < 8; k++ {
			hs = append(hs, byte(h>>(8*k)))
		}
	}
	os.WriteFile(r.outFile+".hashes", hs, 0644)
	if err := os.WriteFile(r.outFile, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
}

func sortedKeys(m map[string]int64) []string {
	k := make([]string, 0, len(m))
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}
