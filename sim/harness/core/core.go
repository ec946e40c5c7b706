//go:build go1.22

// Package core runs one simulated execution: a workload in a synctest bubble
// whose scheduling, clock, randomness and faults are functions of a Case.
package core

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"reflect"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unicode/utf8"
)

// Fault is one planned fault: the Nth time (1-based) site Site is reached, do
// Kind (with Arg, meaning depends on the kind).
type Fault struct {
	Site string `json:"site"`
	Nth  int    `json:"nth"`
	Kind string `json:"kind"`
	Arg  int    `json:"arg,omitempty"`
}

// Sched configures the simulated scheduler.
type Sched struct {
	Strategy    int      `json:"strategy"`
	Seed        uint64   `json:"seed"`
	YieldSync   int      `json:"yield_sync"`
	YieldMalloc int      `json:"yield_malloc"`
	YieldStmt   int      `json:"yield_stmt"`
	Change      []uint64 `json:"change,omitempty"`
	// Stalls lists {step, nanoseconds}: the goroutine that executes a statement
	// of schemalex at that step stops for that much simulated time.
	Stalls   [][2]uint64 `json:"stalls,omitempty"`
	MapSeed  uint64      `json:"map_seed"`
	RandSeed uint64      `json:"rand_seed"`
	// Explicit decisions; when Replay is set the scheduler takes decision 0
	// everywhere except where Over says otherwise.
	Replay bool        `json:"replay,omitempty"`
	Over   [][2]uint64 `json:"decisions,omitempty"`
}

// Case is one fully determined execution.
type Case struct {
	Property string          `json:"property"`
	Scenario string          `json:"scenario"`
	Seed     uint64          `json:"seed"`
	Run      uint64          `json:"run"`
	Sched    Sched           `json:"sched"`
	Faults   []Fault         `json:"faults,omitempty"`
	Data     json.RawMessage `json:"data"`
	// Cold skips the runs a process otherwise makes first (see warm).
	Cold bool `json:"cold,omitempty"`
	// Race asks for the build with the race detector.
	Race bool `json:"race_detector,omitempty"`
	// Before lists the runs of the same seed that the process executed before
	// this one (needed only when the failure depends on state they left behind).
	Before []uint64 `json:"before,omitempty"`
}

// Violation is what an oracle reports. Class is stable across runs of the
// same defect; Msg has the details.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// Outcome is the result of running a case.
type Outcome struct {
	Violation *Violation     `json:"violation,omitempty"`
	Hash      uint64         `json:"hash"`  // rolling hash of all scheduling decisions
	State     uint64         `json:"state"` // hash of the recorded history / observations
	Decisions uint64         `json:"decisions"`
	Steps     uint64         `json:"steps"`
	Switches  uint64         `json:"switches"`
	SimNanos  int64          `json:"sim_nanos"`
	Fired     map[string]int `json:"fired,omitempty"`  // fault kind -> times it took effect
	Probes    map[string]int `json:"probes,omitempty"` // rare conditions reached
	Over      [][2]uint64    `json:"-"`                // non-default decisions of this run
	Trivial   bool           `json:"trivial,omitempty"`
	stalls    int
	sched     Sched
	own       bool
}

// Env is what a scenario sees while it runs.
type Env struct {
	Case   *Case
	Log    []string // history, for the state hash and for replay output
	fired  map[string]int
	probes map[string]int
	counts map[string]int
	faults map[string][]Fault
	quiet  bool
	paused bool // faults have ended
	took   []Fault
	viol   *Violation
	Done   bool // the scenario has finished; what is still blocked was left behind
}

// Addresses are not part of a history (schemalex prints some in error texts).
var pointer = regexp.MustCompile(`0x[0-9a-f]{6,}`)

// Logf appends to the history. It never draws randomness or reads a clock
// other than the simulated one.
func (e *Env) Logf(f string, a ...interface{}) {
	runtime.SimHold()
	defer runtime.SimUnhold()
	if len(e.Log) < 4000 {
		l := fmt.Sprintf(f, a...)
		if strings.Contains(l, "0x") {
			l = pointer.ReplaceAllString(l, "0xPTR")
		}
		e.Log = append(e.Log, l)
	}
}

// Probe notes that a rare condition was reached.
func (e *Env) Probe(name string) {
	runtime.SimHold()
	defer runtime.SimUnhold()
	e.probes[name]++
}

// Fired notes that a fault took effect.
func (e *Env) Fired(kind string) {
	runtime.SimHold()
	defer runtime.SimUnhold()
	e.fired[kind]++
}

// FiredKinds lists the fault kinds that took effect, sorted.
func (e *Env) FiredKinds() []string {
	runtime.SimHold()
	defer runtime.SimUnhold()
	var l []string
	for k := range e.fired {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// Hit counts a visit of a fault site and returns the fault planned for it.
func (e *Env) Hit(site string) *Fault {
	runtime.SimHold()
	defer runtime.SimUnhold()
	if e.paused {
		return nil
	}
	e.counts[site]++
	n := e.counts[site]
	for i, f := range e.faults[site] {
		if f.Nth == n || f.Nth == 0 {
			e.took = append(e.took, f)
			return &e.faults[site][i]
		}
	}
	return nil
}

// Took lists the faults that Hit gave out.
func (e *Env) Took() []Fault { return e.took }

// Pause suspends fault injection, and the counting of visits, until called with
// false.
func (e *Env) Pause(on bool) {
	runtime.SimHold()
	defer runtime.SimUnhold()
	e.paused = on
}

// StopFaults ends fault injection.
func (e *Env) StopFaults() {
	runtime.SimHold()
	defer runtime.SimUnhold()
	e.faults = nil
	e.quiet = true
}

// FaultFor returns the case's fault at a site with a kind, while faults happen.
func (e *Env) FaultFor(site, kind string) *Fault {
	if e.quiet || e.paused {
		return nil
	}
	return e.Case.FaultFor(site, kind)
}

// Count is the number of visits of a site so far.
func (e *Env) Count(site string) int { return e.counts[site] }

// Fail reports a violation; the first one wins.
func (e *Env) Fail(class, f string, a ...interface{}) {
	runtime.SimHold()
	defer runtime.SimUnhold()
	if e.viol == nil {
		e.viol = &Violation{Class: class, Msg: fmt.Sprintf(f, a...)}
	}
}

// Failed tells whether a violation was reported.
func (e *Env) Failed() bool { return e.viol != nil }

// Scenario generates and runs cases.
type Scenario interface {
	Name() string
	// Gen makes the workload and fault plan of one run.
	Gen(r *rand.Rand, run uint64) (data interface{}, faults []Fault, s Sched)
	// Run executes the case. It is called inside the bubble.
	Run(e *Env)
}

// Outer is implemented by scenarios that do something before or after the
// bubble (comparisons across bubbles, say).
type Outer interface {
	Before(e *Env)
	After(e *Env, deadlock string)
}

// Multi is implemented by scenarios that drive several bubbles themselves.
type Multi interface {
	RunMulti(e *Env, bubble func(s Sched, f func()) (deadlock string))
}

// DeadlockOK is implemented by scenarios that judge blocked goroutines themselves.
type DeadlockJudge interface {
	JudgeDeadlock(e *Env, d string)
}

// Shrinker proposes smaller workloads.
type Shrinker interface {
	Shrink(data json.RawMessage) []interface{}
}

var scenarios = map[string][]Scenario{}

// Register adds a scenario to a property.
func Register(prop string, s Scenario) { scenarios[prop] = append(scenarios[prop], s) }

// Properties lists the registered properties.
func Properties() []string {
	var l []string
	for p := range scenarios {
		l = append(l, p)
	}
	sort.Strings(l)
	return l
}

// Scenarios lists a property's scenarios.
func Scenarios(prop string) []Scenario { return scenarios[prop] }

func find(prop, name string) Scenario {
	for _, s := range scenarios[prop] {
		if s.Name() == name {
			return s
		}
	}
	return nil
}

func mix(a ...uint64) uint64 {
	var s uint64 = 0x243f6a8885a308d3
	for _, x := range a {
		s ^= x
		s += 0x9e3779b97f4a7c15
		s = (s ^ (s >> 30)) * 0xbf58476d1ce4e5b9
		s = (s ^ (s >> 27)) * 0x94d049bb133111eb
		s ^= s >> 31
	}
	return s
}

func strHash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// GenCase makes run number run of a property.
func GenCase(prop string, seed, run uint64) *Case {
	ss := scenarios[prop]
	if len(ss) == 0 {
		return nil
	}
	sc := ss[run%uint64(len(ss))]
	r := rand.New(rand.NewSource(int64(mix(seed, run, strHash(prop), strHash(sc.Name())))))
	data, faults, sch := sc.Gen(r, run)
	raw, err := json.Marshal(data)
	if err != nil {
		panic(err)
	}
	return &Case{Property: prop, Scenario: sc.Name(), Seed: seed, Run: run, Sched: sch, Faults: faults, Data: raw}
}

// RandSched draws a scheduling configuration (swarm style).
func RandSched(r *rand.Rand, malloc bool) Sched {
	s := Sched{Seed: r.Uint64() | 1, MapSeed: r.Uint64() | 1, RandSeed: r.Uint64() | 1}
	s.Strategy = []int{0, 0, 1, 1, 2, 3}[r.Intn(6)]
	s.YieldSync = []int{0, 2000, 16000, 32768, 50000}[r.Intn(5)]
	if malloc {
		s.YieldMalloc = []int{0, 0, 500, 3000, 12000, 30000}[r.Intn(6)]
		s.YieldStmt = []int{0, 0, 500, 3000, 12000, 30000}[r.Intn(6)]
	}
	if s.Strategy == 1 {
		n := r.Intn(5)
		max := []int{20, 100, 500, 3000}[r.Intn(4)]
		for i := 0; i < n; i++ {
			s.Change = append(s.Change, uint64(1+r.Intn(max)))
		}
		sort.Slice(s.Change, func(i, j int) bool { return s.Change[i] < s.Change[j] })
	}
	randStalls(r, &s)
	return s
}

// randStalls lets the goroutines of schemalex stall (slow tasks) in some runs.
func randStalls(r *rand.Rand, s *Sched) {
	if r.Intn(3) != 0 {
		return
	}
	max := []float64{30, 300, 3000, 30000}[r.Intn(4)]
	for n := 1 + r.Intn(3); n > 0; n-- {
		at := uint64(math.Exp(r.Float64() * math.Log(max)))
		ns := uint64(1e3 * math.Exp(r.Float64()*math.Log(3.6e9))) // 1 us to 1 h
		s.Stalls = append(s.Stalls, [2]uint64{at, ns})
	}
	sort.Slice(s.Stalls, func(i, j int) bool { return s.Stalls[i][0] < s.Stalls[j][0] })
}

const maxTrace = 1 << 18

var trIdx = make([]uint64, maxTrace)
var trVal = make([]uint32, maxTrace)

// StepMax and BytesMax bound a run; the worker process exits when exceeded.
var StepMax uint64 = 20000000
var BytesMax uint64 = 3 << 29

// Debug makes runs print their decisions.
var Debug uint64

func setSched(s Sched) {
	sim := &runtime.Sim
	sim.Strategy = uint8(s.Strategy)
	sim.SchedRng = s.Seed
	sim.MapRng = s.MapSeed
	sim.RandRng = s.RandSeed
	sim.YieldSync = uint32(s.YieldSync)
	sim.YieldMalloc = uint32(s.YieldMalloc)
	sim.YieldStmt = uint32(s.YieldStmt)
	sim.Replay = s.Replay
	sim.OverIdx, sim.OverVal = nil, nil
	for _, o := range s.Over {
		sim.OverIdx = append(sim.OverIdx, o[0])
		sim.OverVal = append(sim.OverVal, uint32(o[1]))
	}
	for i := range sim.Change {
		sim.Change[i] = ^uint64(0)
	}
	for i, c := range s.Change {
		if i < len(sim.Change) {
			sim.Change[i] = c
		}
	}
	sim.NStall = 0
	for i, x := range s.Stalls {
		if i < len(sim.StallAt) {
			sim.StallAt[i], sim.StallNs[i] = x[0], int64(x[1])
			sim.NStall++
		}
	}
	sim.TrIdx, sim.TrVal = trIdx, trVal
	sim.StepMax = StepMax
	sim.BytesMax = BytesMax
	sim.Debug = Debug
}

// Bubble runs f under the simulator and returns the deadlock report, if any.
func Bubble(s Sched, o *Outcome, f func()) (deadlock string) {
	setSched(s)
	var t0, t1 time.Time
	var pan interface{}
	var stack []byte
	runtime.SimBegin()
	func() {
		defer func() {
			if x := recover(); x != nil {
				if err, ok := x.(error); ok && strings.HasPrefix(err.Error(), "deadlock: ") {
					deadlock = err.Error()
					return
				}
				pan = x
				stack = debug.Stack()
			}
		}()
		runtime.SimRun(func() {
			t0 = time.Now()
			defer func() {
				t1 = time.Now()
				if x := recover(); x != nil {
					pan = x
					stack = debug.Stack()
				}
				runtime.SimSettle()
			}()
			f()
		})
	}()
	runtime.SimEnd()
	if o != nil {
		sim := &runtime.Sim
		o.Hash = mix(o.Hash, sim.Hash)
		o.Decisions += sim.ND
		o.Steps += sim.Steps
		o.Switches += sim.Switches
		o.stalls += sim.Stalled
		if !t1.IsZero() {
			o.SimNanos += int64(t1.Sub(t0))
		}
		// what is recorded is the execution under the case's own schedule, or
		// the last one where that never ran
		if own := reflect.DeepEqual(s, o.sched); own || !o.own {
			o.own, o.Over = own, nil
			for i := 0; i < sim.NTr && !sim.TrLost; i++ {
				o.Over = append(o.Over, [2]uint64{sim.TrIdx[i], uint64(sim.TrVal[i])})
			}
		}
	}
	if pan != nil {
		panic(fmt.Sprintf("%v\n%s", pan, stack))
	}
	return deadlock
}

// NewEnv makes the environment of a case.
func NewEnv(c *Case) *Env {
	e := &Env{Case: c, fired: map[string]int{}, probes: map[string]int{}, counts: map[string]int{}, faults: map[string][]Fault{}}
	for _, f := range c.Faults {
		e.faults[f.Site] = append(e.faults[f.Site], f)
	}
	return e
}

// Run executes a case.
func Run(c *Case) (out *Outcome, env *Env) {
	sc := find(c.Property, c.Scenario)
	out = &Outcome{sched: c.Sched}
	e := NewEnv(c)
	env = e
	if sc == nil {
		panic("unknown scenario " + c.Property + "/" + c.Scenario)
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				msg := fmt.Sprint(x)
				e.Fail("panic", "%s", firstLines(msg, 40))
			}
		}()
		if m, ok := sc.(Multi); ok {
			m.RunMulti(e, func(s Sched, f func()) string { return Bubble(s, out, f) })
			return
		}
		if o, ok := sc.(Outer); ok {
			o.Before(e)
		}
		d := Bubble(c.Sched, out, func() { sc.Run(e) })
		if d != "" {
			if j, ok := sc.(DeadlockJudge); ok {
				j.JudgeDeadlock(e, d)
			} else {
				e.Fail("stuck", "%s", d)
			}
		}
		if o, ok := sc.(Outer); ok {
			o.After(e, d)
		}
	}()
	if out.stalls > 0 {
		e.fired["sched/stall"] += out.stalls
	}
	out.Violation = e.viol
	out.Fired = e.fired
	out.Probes = e.probes
	h := fnv.New64a()
	for _, l := range e.Log {
		h.Write([]byte(l))
		h.Write([]byte{'\n'})
	}
	out.State = h.Sum64()
	return out, env
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// Decode unmarshals the case's workload.
func (e *Env) Decode(v interface{}) {
	if err := json.Unmarshal(e.Case.Data, v); err != nil {
		panic(err)
	}
}

// FaultFor returns the case's fault at a site with a kind.
func (c *Case) FaultFor(site, kind string) *Fault {
	for i, f := range c.Faults {
		if f.Site == site && f.Kind == kind {
			return &c.Faults[i]
		}
	}
	return nil
}

// Meta describes a property's check for its evidence.
type Meta struct {
	Rule   string
	Real   []string
	Stub   []string
	Assume []string
}

var metas = map[string]Meta{}

// Describe sets a property's description.
func Describe(prop string, m Meta) { metas[prop] = m }

// MetaOf returns it.
func MetaOf(prop string) Meta { return metas[prop] }

// Shrinks proposes smaller workloads for a case.
func Shrinks(c *Case) (l []json.RawMessage) {
	s, ok := find(c.Property, c.Scenario).(Shrinker)
	if !ok {
		return nil
	}
	for _, d := range s.Shrink(c.Data) {
		b, err := json.Marshal(d)
		if err == nil && string(b) != string(c.Data) {
			l = append(l, b)
		}
	}
	return l
}

// Text is a byte string that survives JSON unchanged.
type Text string

// MarshalJSON keeps valid UTF-8 readable.
func (t Text) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(t)) {
		return json.Marshal(string(t))
	}
	return json.Marshal(map[string][]byte{"b64": []byte(t)})
}

// UnmarshalJSON is the inverse.
func (t *Text) UnmarshalJSON(b []byte) error {
	var s string
	if json.Unmarshal(b, &s) == nil {
		*t = Text(s)
		return nil
	}
	var m map[string][]byte
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	*t = Text(m["b64"])
	return nil
}

// Default is the schedule that takes the first choice everywhere.
func Default() Sched { return Sched{Replay: true} }
