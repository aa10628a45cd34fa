package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"

	"github.com/jayloop/radix"
)

func stack() []byte { return debug.Stack() }

// A property check consists of workloads for the phases "seq" (sharded over processes) and "par" and "race" (few processes using all cores).
type check struct {
	seq, par, race func(r *run)
}

var checks = map[string]check{}

func main() {
	r := &run{hashes: map[uint64]struct{}{}}
	flag.StringVar(&r.prop, "prop", "", "property id")
	flag.StringVar(&r.tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&r.phase, "phase", "seq", "seq, par or race")
	seed := flag.Uint64("seed", 1, "seed")
	flag.IntVar(&r.shard, "shard", 0, "shard")
	flag.IntVar(&r.shards, "shards", 1, "number of shards")
	flag.StringVar(&r.outFile, "out", "", "result file")
	flag.StringVar(&r.onlyWorkload, "workload", "", "only run this workload")
	flag.IntVar(&r.onlyCase, "case", 0, "with -workload, only run this case")
	phases := flag.Bool("phases", false, "print the phases of the property and exit")
	flag.Parse()
	ck, ok := checks[r.prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", r.prop)
		os.Exit(4)
	}
	if *phases {
		var p []string
		if ck.seq != nil {
			p = append(p, "seq")
		}
		if ck.par != nil {
			p = append(p, "par")
		}
		if ck.race != nil {
			p = append(p, "race")
		}
		fmt.Println(strings.Join(p, " "))
		return
	}
	r.seed = *seed
	r.res = result{Property: r.prop, Phase: r.phase, Cases: map[string]int64{}, Counters: map[string]int64{}, Findings: map[string]string{}, Digests: map[string]string{}, WhiteBox: radix.VerifWhiteBox}
	if r.outFile == "" {
		r.outFile = "/dev/null"
	} else {
		f, err := os.Create(r.outFile + ".progress")
		if err == nil {
			r.progress = f
		}
	}
	if r.phase == "seq" {
		runtime.GOMAXPROCS(2)
	}
	debug.SetGCPercent(200)
	installHooks()
	go r.watchdog()
	go stallMonitor()
	f := map[string]func(*run){"seq": ck.seq, "par": ck.par, "race": ck.race}[r.phase]
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(exitRun); !ok {
					panic(e)
				}
			}
		}()
		if f != nil {
			f(r)
		}
	}()
	r.caseStart.Store(0)
	r.write()
	if r.outFile == "/dev/null" {
		for _, v := range r.res.Violations {
			fmt.Printf("VIOLATION %s case %d: %s\n", v.Workload, v.Case, v.Msg)
		}
		for k, v := range r.res.Findings {
			fmt.Printf("FINDING %s: %s\n", k, v)
		}
		fmt.Printf("executions %d distinct %d violations %d\n", r.res.Executions, len(r.hashes), len(r.res.Violations))
		for _, k := range sortedKeys(r.res.Cases) {
			fmt.Printf("  cases %-40s %d\n", k, r.res.Cases[k])
		}
		for _, k := range sortedKeys(r.res.Counters) {
			fmt.Printf("  %-46s %d\n", k, r.res.Counters[k])
		}
	}
}
