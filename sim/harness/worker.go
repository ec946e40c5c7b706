//go:build go1.22

package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"time"

	"github.com/schemalex/schemalex/verifsim/core"
)

// Stats are a worker's totals.
type Stats struct {
	Runs       uint64          `json:"runs"`
	Nontrivial uint64          `json:"nontrivial"`
	Decisions  uint64          `json:"decisions"`
	Steps      uint64          `json:"steps"`
	Switches   uint64          `json:"switches"`
	SimNanos   float64         `json:"sim_nanos"`
	Fired      map[string]int  `json:"fired"`
	Probes     map[string]int  `json:"probes"`
	FaultRuns  uint64          `json:"fault_runs"`
	Scenarios  map[string]int  `json:"scenarios"`
	Samples    []SampleCase    `json:"samples"`
	CPU        float64         `json:"cpu_s"`
	Violation  *core.Violation `json:"violation,omitempty"`
	ViolRun    uint64          `json:"viol_run"`
}

// SampleCase is one executed case with its hashes.
type SampleCase struct {
	Run   uint64     `json:"run"`
	Hash  uint64     `json:"hash"`
	State uint64     `json:"state"`
	Case  *core.Case `json:"case"`
}

func collect() {
	debug.SetGCPercent(100)
	runtime.GC()
	debug.SetGCPercent(-1)
}

// warmRuns is how many runs per scenario a process makes before those that count.
const warmRuns = 12

// warm brings lazily initialised state of the process into the state every
// later run sees, by running the first runs of the seed.
func warm(prop string, seed uint64, note func(run uint64)) {
	debug.SetGCPercent(-1)
	// what is set up by the first process, connection or file of a process
	for _, p := range map[string][]string{"C11": {"C05", "C08"}, "C12": {"C05", "C08"}, "C14": {"C14"}, "C16": {"C14", "C16"}}[prop] {
		runs := uint64(4)
		if p == "C14" || p == "C16" { // every kind of connection
			runs = 100
		}
		for i := uint64(0); i < runs; i++ {
			if note != nil {
				note(i)
			}
			core.Run(core.GenCase(p, seed, i))
		}
	}
	n := uint64(len(core.Scenarios(prop)))
	for i := uint64(0); i < n*warmRuns; i++ {
		if note != nil {
			note(i)
		}
		core.Run(core.GenCase(prop, seed, i))
		if i%8 == 7 {
			collect()
		}
	}
	collect()
}

// freshWorkers is the number of workers whose cases run in fresh processes.
var freshWorkers = map[string]uint64{"C03": 2, "C15": 1, "C02": 1, "C04": 1}

func worker(args []string) int {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	w := fs.Uint64("w", 0, "")
	W := fs.Uint64("W", 1, "")
	secs := fs.Float64("secs", 10, "")
	max := fs.Uint64("max", 0, "")
	status := fs.String("status", "", "")
	out := fs.String("out", "", "")
	fs.Parse(args)

	sf, err := os.Create(*status)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	st := &Stats{Fired: map[string]int{}, Probes: map[string]int{}, Scenarios: map[string]int{}}
	seen := map[uint64]struct{}{}
	warm(*prop, *seed, func(run uint64) {
		var b [16]byte
		binary.LittleEndian.PutUint64(b[:], run)
		sf.WriteAt(b[:], 0)
	})
	// Some workers run every case in a process of its own, so that package
	// state is met untouched (what is made on first use is made concurrently).
	cold := *W > 3 && *w >= *W-freshWorkers[*prop]
	start := time.Now()
	deadline := start.Add(time.Duration(*secs * float64(time.Second)))
	var buf [16]byte
	var done uint64
	var ms runtime.MemStats
	for run := *w; ; run += *W {
		if *max != 0 && run >= *max {
			break
		}
		if time.Now().After(deadline) {
			break
		}
		binary.LittleEndian.PutUint64(buf[:], run)
		binary.LittleEndian.PutUint64(buf[8:], done+1)
		sf.WriteAt(buf[:], 0)
		c := core.GenCase(*prop, *seed, run)
		if c.Race = raceBuild; c.Race {
			st.Probes["process/race-detector"]++
		}
		var o *core.Outcome
		if cold {
			c.Cold = true
			r, err := eval(c, caseTimeout, "-brief")
			if err != nil {
				fmt.Fprintf(os.Stderr, "run %d in a process of its own: %v\n", run, err)
				return 2
			}
			o = r.Outcome
			st.Probes["process/fresh"]++
		} else {
			o, _ = execute(c)
		}
		done++
		st.Runs++
		st.Decisions += o.Decisions
		st.Steps += o.Steps
		st.Switches += o.Switches
		st.SimNanos += float64(o.SimNanos)
		for k, v := range o.Fired {
			st.Fired[k] += v
		}
		for k, v := range o.Probes {
			st.Probes[k] += v
		}
		if len(o.Fired) > 0 {
			st.FaultRuns++
		}
		st.Scenarios[c.Scenario]++
		if !o.Trivial && (o.Decisions > 0 || len(o.Fired) > 0) {
			st.Nontrivial++
			if len(seen) < 4000000 {
				seen[o.Hash*1099511628211^o.State] = struct{}{}
			}
		}
		if len(st.Samples) < 6 && done%7 == 3 || done == 40 || done == 400 || done == 4000 {
			st.Samples = append(st.Samples, SampleCase{run, o.Hash, o.State, c})
		}
		if o.Violation != nil {
			st.Violation = o.Violation
			st.ViolRun = run
			break
		}
		if o.Decisions > 20000 || done%16 == 0 {
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 200<<20 {
				collect()
			}
		}
	}
	st.CPU = time.Since(start).Seconds()
	b, _ := json.Marshal(st)
	if err := os.WriteFile(*out, b, 0o644); err != nil {
		return 2
	}
	hb := make([]byte, 0, 8*len(seen))
	for h := range seen {
		hb = binary.LittleEndian.AppendUint64(hb, h)
	}
	if err := os.WriteFile(*out+".set", hb, 0o644); err != nil {
		return 2
	}
	return 0
}

// CaseResult is what runcase prints.
type CaseResult struct {
	Outcome *core.Outcome `json:"outcome"`
	Over    [][2]uint64   `json:"over,omitempty"`
	Log     []string      `json:"log,omitempty"`
	Abort   string        `json:"abort,omitempty"`
	Detail  string        `json:"detail,omitempty"`
}

func runcase(args []string) int {
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		return 2
	}
	var c core.Case
	if err := json.Unmarshal(b, &c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	core.Debug, _ = strconv.ParseUint(os.Getenv("VERIF_DECISIONS"), 10, 64)
	if !c.Cold {
		warm(c.Property, c.Seed, nil)
	}
	for i, b := range c.Before {
		core.Run(core.GenCase(c.Property, c.Seed, b))
		if i%64 == 63 {
			collect()
		}
	}
	o, e := execute(&c)
	debug.SetGCPercent(100)
	res := CaseResult{Outcome: o}
	if len(args) == 0 {
		res.Over, res.Log = o.Over, e.Log
	}
	json.NewEncoder(os.Stdout).Encode(res)
	return 0
}

// runone runs one generated case and prints what happened (for development).
func runone(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	run := fs.Uint64("run", 0, "")
	n := fs.Uint64("n", 1, "")
	verbose := fs.Bool("v", false, "")
	debugAt := fs.Uint64("debug", 0, "print the decisions of the last run, and the stack at this one plus 2")
	all := fs.Int("all", 0, "print this many violations, with reduced workloads")
	fs.Parse(args)
	warm(*prop, *seed, nil)
	t := time.Now()
	for i := uint64(0); i < *n; i++ {
		c := core.GenCase(*prop, *seed, *run+i)
		if i == *n-1 {
			core.Debug = *debugAt
		}
		o, e := execute(c)
		if *all > 0 {
			if o.Violation != nil {
				triage(c, o)
				if *all--; *all == 0 {
					return 1
				}
			}
			if i%64 == 0 {
				collect()
			}
			continue
		}
		if *verbose || o.Violation != nil {
			b, _ := json.MarshalIndent(c, "", " ")
			fmt.Println(string(b))
			for _, l := range e.Log {
				fmt.Println("  |", l)
			}
			ob, _ := json.Marshal(o)
			fmt.Println(string(ob))
			if o.Violation != nil {
				fmt.Println("VIOL", c.Run, o.Violation.Class, "\n", o.Violation.Msg)
				return 1
			}
		}
		if i%64 == 0 {
			collect()
		}
	}
	d := time.Since(t)
	fmt.Printf("%d runs in %v (%.0f/s)\n", *n, d, float64(*n)/d.Seconds())
	return 0
}

// triage reduces a violating workload in this process and prints it.
func triage(c *core.Case, o *core.Outcome) {
	for again := true; again; {
		again = false
		for _, d := range core.Shrinks(c) {
			x := *c
			x.Data = d
			if p, _ := core.Run(&x); p.Violation != nil && p.Violation.Class == o.Violation.Class {
				c, o, again = &x, p, true
				break
			}
		}
		collect()
	}
	b, _ := json.Marshal(c.Faults)
	fmt.Printf("==== VIOL run %d %s\n%s\nfaults %s\n%s\n", c.Run, o.Violation.Class, c.Data, b, o.Violation.Msg)
}
