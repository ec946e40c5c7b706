//go:build go1.22

package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/schemalex/schemalex/verifsim/core"
)

var verifDir = "/verif"

// eval runs a case in a fresh process.
func eval(c *core.Case, timeout time.Duration, opts ...string) (*CaseResult, error) {
	b, err := json.Marshal(c)
	if err != nil {
		return nil, err
	}
	exe, _ := os.Executable()
	if c.Race {
		if exe = raceExe(); exe == "" {
			return nil, fmt.Errorf("the case needs the build with the race detector (simrace)")
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, exe, append([]string{"runcase"}, opts...)...)
	cmd.Stdin = bytes.NewReader(b)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	rerr := cmd.Run()
	if ctx.Err() != nil {
		return nil, fmt.Errorf("case %s/%d timed out after %v", c.Property, c.Run, timeout)
	}
	var r CaseResult
	if rerr == nil {
		if err := json.Unmarshal(so.Bytes(), &r); err != nil {
			return nil, fmt.Errorf("bad runcase output: %v", err)
		}
		return &r, nil
	}
	r.Outcome = &core.Outcome{}
	class, detail := crashClass(se.String())
	if class == "" {
		return nil, fmt.Errorf("runcase failed: %v\n%s", rerr, tail(se.String(), 2000))
	}
	r.Abort = class
	r.Detail = detail
	r.Outcome.Violation = &core.Violation{Class: class, Msg: detail}
	return &r, nil
}

// crashClass classifies the standard error of a process that died.
func crashClass(s string) (class, detail string) {
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		switch {
		case strings.HasPrefix(l, "SIMABORT "):
			w := strings.Fields(l)
			return "abort:" + w[1], tail2(lines[i:], 60)
		case strings.HasPrefix(l, "fatal error: "):
			if strings.Contains(l, "concurrent map") && harnessFrame(lines[i:]) {
				return "", ""
			}
			return "crash:" + strings.TrimPrefix(l, "fatal error: "), tail2(lines[i:], 60)
		case strings.HasPrefix(l, "panic: "), strings.HasPrefix(l, "runtime: goroutine stack exceeds"):
			m := l
			if j := strings.Index(m, " ["); j > 0 {
				m = m[:j]
			}
			if len(m) > 100 {
				m = m[:100]
			}
			return "crash:" + m, tail2(lines[i:], 60)
		}
	}
	return "", ""
}

// harnessFrame tells whether the first schemalex frame of a trace is the harness's own.
func harnessFrame(lines []string) bool {
	const m = "github.com/schemalex/schemalex"
	for _, l := range lines {
		if strings.HasPrefix(l, m) {
			r := l[len(m):]
			return strings.HasPrefix(r, "/verifsim/") && !strings.HasPrefix(r, "/verifsim/cmd")
		}
	}
	return false
}

func tail2(l []string, n int) string {
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func tail(s string, n int) string {
	if len(s) > n {
		s = s[len(s)-n:]
	}
	return s
}

func viol(r *CaseResult) *core.Violation {
	if r == nil || r.Outcome == nil {
		return nil
	}
	return r.Outcome.Violation
}

type workerState struct {
	cmd    *exec.Cmd
	stderr bytes.Buffer
	done   chan error
	status string
	out    string
}

const caseTimeout = 120 * time.Second

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	vdir := fs.String("verif", "/verif", "")
	secs := fs.Float64("secs", 0, "")
	max := fs.Uint64("max", 0, "")
	nw := fs.Int("workers", 0, "")
	fs.Parse(args)
	verifDir = *vdir
	start := time.Now()
	scs := core.Scenarios(*prop)
	if len(scs) == 0 {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 2
	}
	if *secs == 0 {
		*secs = 75
		if *tier == "thorough" {
			*secs = 600
		}
		if s := os.Getenv("VERIF_SECS"); s != "" {
			*secs, _ = strconv.ParseFloat(s, 64)
		}
	}
	W := *nw
	if W == 0 {
		W = 8
	}
	fmt.Printf("check %s tier=%s seed=%d workers=%d budget=%.0fs\n", *prop, *tier, *seed, W, *secs)
	tmp, err := os.MkdirTemp("", "verifsim")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)

	findings, err := runFindings(*prop)
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}

	exe, _ := os.Executable()
	ws := make([]*workerState, W)
	racy := func(w uint64) bool { return W > 3 && w < raceWorkers[*prop] && raceExe() != "" }
	for i := range ws {
		exe := exe
		if racy(uint64(i)) {
			exe = raceExe()
		}
		w := &workerState{status: filepath.Join(tmp, fmt.Sprintf("st%d", i)), out: filepath.Join(tmp, fmt.Sprintf("out%d", i)), done: make(chan error, 1)}
		w.cmd = exec.Command(exe, "worker", "-prop", *prop, "-seed", fmt.Sprint(*seed), "-w", fmt.Sprint(i), "-W", fmt.Sprint(W), "-secs", fmt.Sprint(*secs), "-max", fmt.Sprint(*max), "-status", w.status, "-out", w.out)
		w.cmd.Stderr = &w.stderr
		w.cmd.Stdout = &w.stderr
		if err := w.cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		go func() { w.done <- w.cmd.Wait() }()
		ws[i] = w
	}
	total := &Stats{Fired: map[string]int{}, Probes: map[string]int{}, Scenarios: map[string]int{}}
	set := map[uint64]struct{}{}
	cand := map[uint64]*core.Violation{} // run -> violation seen in a worker
	var fatal string
	running := W
	finished := make([]bool, W)
	lastRun := make([][16]byte, W)
	lastChange := make([]time.Time, W)
	for i := range lastChange {
		lastChange[i] = time.Now()
	}
	stop := func() {
		for i, w := range ws {
			if !finished[i] {
				w.cmd.Process.Kill()
			}
		}
	}
	var stopAt time.Time
	for running > 0 {
		time.Sleep(20 * time.Millisecond)
		for i, w := range ws {
			if finished[i] {
				continue
			}
			select {
			case werr := <-w.done:
				finished[i] = true
				running--
				if werr != nil {
					if !stopAt.IsZero() && strings.Contains(werr.Error(), "killed") {
						continue
					}
					class, detail := crashClass(w.stderr.String())
					b, _ := os.ReadFile(w.status)
					if class == "" || len(b) != 16 {
						fatal = fmt.Sprintf("worker %d: %v\n%s", i, werr, tail(w.stderr.String(), 4000))
					} else {
						cand[binary.LittleEndian.Uint64(b)] = &core.Violation{Class: class, Msg: detail}
					}
					if stopAt.IsZero() {
						stopAt = time.Now().Add(500 * time.Millisecond)
					}
					continue
				}
				b, err := os.ReadFile(w.out)
				var st Stats
				if err == nil {
					err = json.Unmarshal(b, &st)
				}
				if err != nil {
					fatal = fmt.Sprintf("worker %d: %v", i, err)
					continue
				}
				merge(total, &st)
				hb, _ := os.ReadFile(w.out + ".set")
				for j := 0; j+8 <= len(hb); j += 8 {
					set[binary.LittleEndian.Uint64(hb[j:])] = struct{}{}
				}
				if st.Violation != nil {
					cand[st.ViolRun] = st.Violation
					if stopAt.IsZero() {
						stopAt = time.Now().Add(500 * time.Millisecond)
					}
				}
			default:
				b, _ := os.ReadFile(w.status)
				var a [16]byte
				copy(a[:], b)
				if a != lastRun[i] {
					lastRun[i] = a
					lastChange[i] = time.Now()
				} else if time.Since(lastChange[i]) > caseTimeout {
					fatal = fmt.Sprintf("worker %d: run %d made no progress for %v", i, binary.LittleEndian.Uint64(a[:8]), caseTimeout)
					stopAt = time.Now()
				}
			}
		}
		if !stopAt.IsZero() && time.Now().After(stopAt) {
			stop()
		}
	}
	searchWall := time.Since(start).Seconds()

	rc := 0
	nviol := 0
	var lines []string
	if len(cand) > 0 {
		var runs []uint64
		for r := range cand {
			runs = append(runs, r)
		}
		sort.Slice(runs, func(i, j int) bool { return runs[i] < runs[j] })
		reported := false
		for _, run := range runs {
			c := core.GenCase(*prop, *seed, run)
			c.Cold = true
			c.Race = racy(run % uint64(W))
			r, err := eval(c, caseTimeout*2)
			if err == nil && viol(r) == nil {
				c.Cold = false
				r, err = eval(c, caseTimeout*2)
			}
			if err != nil {
				fatal = fmt.Sprintf("run %d: %v", run, err)
				continue
			}
			v := viol(r)
			if v == nil {
				c, r = withHistory(c, uint64(W))
				v = viol(r)
			}
			if v == nil {
				fatal = fmt.Sprintf("run %d: violation %q of a worker did not reproduce in a fresh process: %s", run, cand[run].Class, cand[run].Msg)
				continue
			}
			path, line := reportViolation(*prop, *seed, c, r)
			nviol++
			fmt.Printf("violation class %s (seed %d run %d)\n%s\n", v.Class, *seed, run, tail2(strings.Split(line, "\n"), 40))
			lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", *prop, path))
			reported = true
			break
		}
		if reported {
			rc = 1
			fatal = ""
		}
	}
	for _, f := range findings {
		if f.unlisted != "" {
			nviol++
			rc = 1
			lines = append(lines, f.unlisted)
		}
	}

	// determinism sample: executed cases again, in fresh processes
	mism, checked := 0, 0
	if rc == 0 && fatal == "" {
		n := len(total.Samples)
		limit := 16
		if *tier == "thorough" {
			limit = 48
		}
		step := 1
		if n > limit {
			step = n / limit
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		sem := make(chan bool, runtime.NumCPU())
		for i := 0; i < n; i += step {
			s := total.Samples[i]
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				r, err := eval(s.Case, caseTimeout)
				mu.Lock()
				defer mu.Unlock()
				checked++
				if err != nil || r.Outcome.Hash != s.Hash || r.Outcome.State != s.State {
					mism++
					fmt.Printf("determinism: run %d of %s/%s differs in a fresh process (%v)\n", s.Run, *prop, s.Case.Scenario, err)
				}
			}()
		}
		wg.Wait()
	}
	if fatal != "" {
		fmt.Fprintln(os.Stderr, "error:", fatal)
		if rc == 0 {
			rc = 2
		}
	}
	writeEvidence(*prop, *tier, *seed, total, len(set), searchWall, time.Since(start).Seconds(), nviol, mism, checked, W, findings)
	for _, f := range findings {
		if f.line != "" {
			fmt.Println(f.line)
		}
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	fmt.Printf("%s: %d runs, %d distinct non-trivial, %d decisions, %.0f simulated s, faults %v, rc=%d\n", *prop, total.Runs, len(set), total.Decisions, total.SimNanos/1e9, total.Fired, rc)
	return rc
}

func merge(t, s *Stats) {
	t.Runs += s.Runs
	t.Nontrivial += s.Nontrivial
	t.Decisions += s.Decisions
	t.Steps += s.Steps
	t.Switches += s.Switches
	t.SimNanos += s.SimNanos
	t.FaultRuns += s.FaultRuns
	t.CPU += s.CPU
	for k, v := range s.Fired {
		t.Fired[k] += v
	}
	for k, v := range s.Probes {
		t.Probes[k] += v
	}
	for k, v := range s.Scenarios {
		t.Scenarios[k] += v
	}
	t.Samples = append(t.Samples, s.Samples...)
}

// ---- minimisation ------------------------------------------------------------

// Replay is a replay file.
type Replay struct {
	Property  string          `json:"property"`
	Violation *core.Violation `json:"violation"`
	Seed      uint64          `json:"seed"`
	Run       uint64          `json:"run"`
	Case      *core.Case      `json:"case"`
	Original  *core.Case      `json:"original_case,omitempty"`
	Log       []string        `json:"history"`
	Note      string          `json:"note"`
	HowTo     string          `json:"how_to_replay"`
}

// withHistory looks for a violation that depends on what the process ran
// before: the runs its worker executed earlier, then fewer of them.
func withHistory(c *core.Case, W uint64) (*core.Case, *CaseResult) {
	var all []uint64
	for b := c.Run % W; b < c.Run; b += W {
		all = append(all, b)
	}
	end := time.Now().Add(120 * time.Second)
	try := func(before []uint64) *CaseResult {
		d := clone(c)
		d.Before = before
		r, err := eval(d, caseTimeout*3)
		if err == nil && viol(r) != nil {
			return r
		}
		return nil
	}
	var best *CaseResult
	var bestB []uint64
	for n := 1; ; n *= 4 { // the shortest suffix that is enough
		if n > len(all) {
			n = len(all)
		}
		if r := try(all[len(all)-n:]); r != nil {
			best, bestB = r, all[len(all)-n:]
			break
		}
		if n == len(all) || time.Now().After(end) {
			break
		}
	}
	if best == nil {
		return c, nil
	}
	for size := (len(bestB) + 1) / 2; size > 0 && time.Now().Before(end); {
		cut := false
		for i := 0; i+size <= len(bestB) && time.Now().Before(end); {
			x := append(append([]uint64(nil), bestB[:i]...), bestB[i+size:]...)
			if r := try(x); r != nil {
				best, bestB, cut = r, x, true
			} else {
				i += size
			}
		}
		if !cut || size > len(bestB) {
			size /= 2
		}
	}
	c.Before = bestB
	return c, best
}

func clone(c *core.Case) *core.Case {
	d := *c
	d.Faults = append([]core.Fault(nil), c.Faults...)
	d.Sched.Over = append([][2]uint64(nil), c.Sched.Over...)
	d.Sched.Change = append([]uint64(nil), c.Sched.Change...)
	d.Sched.Stalls = append([][2]uint64(nil), c.Sched.Stalls...)
	return &d
}

type minimiser struct {
	class    string
	deadline time.Time
	evals    int
}

func (m *minimiser) ok() bool { return time.Now().Before(m.deadline) }

// first returns the first candidate (in order) that still fails the same way.
func (m *minimiser) first(cands []*core.Case) (*core.Case, *CaseResult) {
	const par = 8
	for i := 0; i < len(cands) && m.ok(); i += par {
		end := i + par
		if end > len(cands) {
			end = len(cands)
		}
		res := make([]*CaseResult, end-i)
		var wg sync.WaitGroup
		for j := i; j < end; j++ {
			m.evals++
			wg.Add(1)
			go func() {
				defer wg.Done()
				r, err := eval(cands[j], 30*time.Second)
				if err == nil {
					if v := viol(r); v != nil && v.Class == m.class {
						res[j-i] = r
					}
				}
			}()
		}
		wg.Wait()
		for j := range res {
			if res[j] != nil {
				return cands[i+j], res[j]
			}
		}
	}
	return nil, nil
}

func minimise(c *core.Case, r *CaseResult, budget time.Duration) (*core.Case, *CaseResult) {
	m := &minimiser{class: viol(r).Class, deadline: time.Now().Add(budget)}
	best, bestR := c, r
	try := func(cands ...*core.Case) bool {
		if x, xr := m.first(cands); x != nil {
			best, bestR = x, xr
			return true
		}
		return false
	}
	// 1. the default schedule, with and without preemption points
	mk := func(f func(d *core.Case)) *core.Case { d := clone(best); f(d); return d }
	deflt := func(d *core.Case) {
		d.Sched.Replay, d.Sched.Over, d.Sched.Change = true, nil, nil
		d.Sched.Stalls = nil
		d.Sched.Strategy, d.Sched.YieldSync, d.Sched.YieldMalloc, d.Sched.YieldStmt = 0, 0, 0, 0
	}
	quiet := func(d *core.Case) { st := d.Sched.Stalls; deflt(d); d.Sched.Stalls = st }
	try(mk(func(d *core.Case) { deflt(d); d.Sched.MapSeed = 0 }), mk(deflt), mk(func(d *core.Case) { quiet(d); d.Sched.MapSeed = 0 }), mk(quiet))
	// 2. fewer faults, smaller workload, until nothing helps
	for changed := true; changed && m.ok(); {
		changed = false
		if len(best.Faults) > 0 {
			var cands []*core.Case
			cands = append(cands, mk(func(d *core.Case) { d.Faults = nil }))
			for i := range best.Faults {
				cands = append(cands, mk(func(d *core.Case) { d.Faults = append(d.Faults[:i:i], d.Faults[i+1:]...) }))
			}
			if try(cands...) {
				changed = true
				continue
			}
		}
		if len(best.Sched.Stalls) > 0 {
			var cands []*core.Case
			cands = append(cands, mk(func(d *core.Case) { d.Sched.Stalls = nil }))
			for i := range best.Sched.Stalls {
				cands = append(cands, mk(func(d *core.Case) { d.Sched.Stalls = append(d.Sched.Stalls[:i:i], d.Sched.Stalls[i+1:]...) }))
			}
			if try(cands...) {
				changed = true
				continue
			}
		}
		var cands []*core.Case
		for _, data := range core.Shrinks(best) {
			cands = append(cands, mk(func(d *core.Case) { d.Data = data }))
		}
		if len(cands) > 0 && try(cands...) {
			changed = true
		}
	}
	// 3. the schedule: turn it into explicit decisions and drop what is not needed
	if !best.Sched.Replay && m.ok() {
		if r2, err := eval(best, caseTimeout); err == nil && len(r2.Over) > 0 {
			x := mk(func(d *core.Case) { d.Sched.Replay = true; d.Sched.Over = r2.Over; d.Sched.Change = nil })
			if try(x) {
				n := 2
				for len(best.Sched.Over) > 0 && m.ok() {
					L := len(best.Sched.Over)
					if n > L {
						n = L
					}
					var cands []*core.Case
					for i := 0; i < n; i++ {
						lo, hi := i*L/n, (i+1)*L/n
						cands = append(cands, mk(func(d *core.Case) {
							o := d.Sched.Over
							d.Sched.Over = append(append([][2]uint64(nil), o[:lo]...), o[hi:]...)
						}))
					}
					if try(cands...) {
						if n > 2 {
							n--
						}
						continue
					}
					if n == L {
						break
					}
					n *= 2
				}
			}
		}
	}
	if best.Sched.MapSeed != 0 {
		try(mk(func(d *core.Case) { d.Sched.MapSeed = 0 }))
	}
	return best, bestR
}

func reportViolation(prop string, seed uint64, c *core.Case, r *CaseResult) (path, line string) {
	budget := 60 * time.Second
	if s := os.Getenv("VERIF_MIN_SECS"); s != "" {
		f, _ := strconv.ParseFloat(s, 64)
		budget = time.Duration(f * float64(time.Second))
	}
	mc, mr := minimise(c, r, budget)
	dir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	path = filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", prop, seed, c.Run))
	note := "minimised"
	if r2, err := eval(mc, caseTimeout); err != nil || viol(r2) == nil || viol(r2).Class != viol(r).Class || r2.Outcome.State != mr.Outcome.State {
		mc, mr = c, r
		note = "not minimised: the minimised case did not replay identically"
	}
	rp := Replay{Property: prop, Violation: viol(mr), Seed: seed, Run: c.Run, Case: mc, Original: c, Log: mr.Log, Note: note,
		HowTo: fmt.Sprintf("/verif/check replay %s", path)}
	b, _ := json.MarshalIndent(rp, "", " ")
	os.WriteFile(path, b, 0o644)
	return path, viol(mr).Msg
}

func replay(args []string) int {
	if len(args) != 1 {
		fmt.Fprintln(os.Stderr, "usage: replay FILE")
		return 2
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r, err := eval(rp.Case, caseTimeout*2)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, l := range r.Log {
		fmt.Println("  |", l)
	}
	if v := viol(r); v != nil {
		fmt.Printf("%s: %s\n", v.Class, v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, args[0])
		return 1
	}
	fmt.Println("no violation")
	return 0
}

// ---- known findings ------------------------------------------------------------

type finding struct {
	line     string
	unlisted string
}

// Finding is a recorded genuine defect that is not repaired: a directed case
// and the violation class it shows.
type Finding struct {
	Property string     `json:"property"`
	What     string     `json:"what"`
	Class    string     `json:"class"`
	Case     *core.Case `json:"case"`
}

func runFindings(prop string) ([]finding, error) {
	var out []finding
	files, _ := filepath.Glob(filepath.Join(verifDir, "findings", prop+"-*.json"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		var k Finding
		if err := json.Unmarshal(b, &k); err != nil {
			return nil, fmt.Errorf("%s: %v", f, err)
		}
		r, err := eval(k.Case, caseTimeout)
		if err != nil {
			return nil, err
		}
		v := viol(r)
		switch {
		case v == nil:
			out = append(out, finding{line: fmt.Sprintf("note: known finding %s no longer shows", filepath.Base(f))})
		case v.Class == k.Class:
			out = append(out, finding{line: fmt.Sprintf("KNOWN-FINDING: property=%s %s", prop, k.What)})
		default:
			out = append(out, finding{unlisted: fmt.Sprintf("VIOLATION property=%s replay=%s", prop, f)})
			fmt.Printf("case %s now fails as %s: %s\n", f, v.Class, v.Msg)
		}
	}
	return out, nil
}

// ---- evidence --------------------------------------------------------------------

func writeEvidence(prop, tier string, seed uint64, t *Stats, distinct int, searchWall, wall float64, nviol, mism, checked, W int, findings []finding) {
	var samples []interface{}
	scSeen := map[string]int{}
	for _, s := range t.Samples {
		if scSeen[s.Case.Scenario] < 2 && len(samples) < 8 {
			scSeen[s.Case.Scenario]++
			samples = append(samples, s.Case)
		}
	}
	m := core.MetaOf(prop)
	perHour := 0.0
	if searchWall > 0 {
		perHour = float64(t.Runs) / searchWall * 3600
	}
	known := 0
	for _, f := range findings {
		if strings.HasPrefix(f.line, "KNOWN-FINDING") {
			known++
		}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations":            t.Runs,
			"distinct_nontrivial":    distinct,
			"rule":                   m.Rule + " Run i of VERIF_SEED s is generated from hash(s, i, property, scenario); each run draws its own scheduling strategy, preemption rates, workload and fault plan. A run is non-trivial when the simulated scheduler took at least one decision or a fault took effect; two runs are distinct when the hash of (all scheduling decisions, recorded history) differs.",
			"samples":                samples,
			"runs_per_hour":          int64(perHour),
			"seeds_per_hour":         int64(perHour),
			"nontrivial_runs":        t.Nontrivial,
			"simulated_seconds":      t.SimNanos / 1e9,
			"scheduling_decisions":   t.Decisions,
			"context_switches":       t.Switches,
			"scheduler_steps":        t.Steps,
			"runs_with_faults_fired": t.FaultRuns,
			"faults_fired":           t.Fired,
			"probes":                 t.Probes,
			"runs_by_scenario":       t.Scenarios,
			"workers":                W,
			"determinism_sample":     map[string]int{"reexecuted_in_fresh_process": checked, "mismatches": mism},
			"real_components":        m.Real,
			"simulated_components":   m.Stub,
			"known_findings_shown":   known,
		},
		"assumptions": append([]string{}, m.Assume...),
		"wall_s":      wall,
		"violations":  nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644)
}

// ---- determinism self test ---------------------------------------------------------

func selftest(args []string) int {
	fs := flag.NewFlagSet("selftest", flag.ExitOnError)
	n := fs.Int("n", 20, "")
	only := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	cold := fs.Bool("cold", false, "")
	fs.Parse(args)
	bad := 0
	for _, prop := range core.Properties() {
		if *only != "" && prop != *only {
			continue
		}
		// in process, in one order
		exe, _ := os.Executable()
		tmp, _ := os.MkdirTemp("", "verifself")
		out := filepath.Join(tmp, "o")
		cmd := exec.Command(exe, "worker", "-prop", prop, "-seed", fmt.Sprint(*seed), "-w", "0", "-W", "1", "-secs", "60", "-max", "200", "-status", filepath.Join(tmp, "s"), "-out", out)
		if b, err := cmd.CombinedOutput(); err != nil {
			fmt.Println(prop, "worker failed", err, string(b))
			bad++
			continue
		}
		var st Stats
		b, _ := os.ReadFile(out)
		json.Unmarshal(b, &st)
		os.RemoveAll(tmp)
		r := rand.New(rand.NewSource(int64(*seed)))
		var wg sync.WaitGroup
		var mu sync.Mutex
		sem := make(chan bool, 8)
		miss := 0
		total := 0
		same := func(c *core.Case, hash, state uint64, what string) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			res, err := eval(c, caseTimeout)
			mu.Lock()
			defer mu.Unlock()
			total++
			if err != nil || res.Outcome.Hash != hash || res.Outcome.State != state {
				miss++
				fmt.Println(prop, what, "run", c.Run, "differs", err)
			}
		}
		for _, s := range st.Samples {
			wg.Add(1)
			go same(s.Case, s.Hash, s.State, "worker-vs-fresh")
		}
		for i := 0; i < *n; i++ {
			c := core.GenCase(prop, *seed, uint64(r.Intn(100000)))
			c.Cold = *cold
			a, err := eval(c, caseTimeout)
			if err != nil {
				fmt.Println(err)
				miss++
				continue
			}
			wg.Add(2)
			go same(c, a.Outcome.Hash, a.Outcome.State, "fresh-vs-fresh")
			// explicit replay of the recorded decisions
			d := clone(c)
			d.Sched.Replay, d.Sched.Over = true, a.Over
			go func() {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				if a.Abort != "" || len(a.Over) == 0 && a.Outcome.Switches > 100000 { // too many to record
					return
				}
				res, err := eval(d, caseTimeout)
				mu.Lock()
				defer mu.Unlock()
				total++
				if err != nil || res.Outcome.State != a.Outcome.State {
					miss++
					fmt.Println(prop, "replay of decisions, run", c.Run, "differs", err)
				}
			}()
		}
		wg.Wait()
		fmt.Printf("selftest %s: %d re-executions, %d differ\n", prop, total, miss)
		bad += miss
	}
	if bad > 0 {
		return 2
	}
	return 0
}
