// Simulation support added to package runtime through a build overlay
// (see /verif/sim/overlay/gen.py). Nothing here is part of the shipped
// schemalex: the file exists only in the simulator's build.

package runtime

import _ "unsafe" // for go:linkname

// SimT holds the state of the simulated scheduler. There is one scheduler
// thread (GOMAXPROCS=1), so the fields need no synchronisation.
type SimT struct {
	On     bool // the seeded scheduler decides which bubble goroutine runs
	Replay bool // decisions come from Over (0 where Over says nothing)

	Strategy    uint8  // 0 uniform, 1 PCT priorities, 2 FIFO with rare deviations, 3 LIFO-biased
	SchedRng    uint64 // decision stream
	MapRng      uint64 // map seeds / iteration starts (0: every draw is 0)
	RandRng     uint64 // everything else that is random in the process
	YieldSync   uint32 // chance (of 65536) to yield at a channel / lock / go statement
	YieldMalloc uint32 // chance (of 65536) to yield at a heap allocation
	YieldStmt   uint32 // chance (of 65536) to yield before a statement of schemalex

	OverIdx []uint64 // replay: decision numbers with a non-default value
	OverVal []uint32
	overPos int

	TrIdx  []uint64 // recorded non-default decisions
	TrVal  []uint32
	NTr    int
	TrLost bool

	ND       uint64 // decisions taken
	Hash     uint64 // rolling hash of (decision arity, value)
	Steps    uint64
	StepMax  uint64
	Debug    uint64 // development: print decisions, and the stack at decision Debug-2
	Bytes    uint64
	BytesMax uint64
	Switches uint64
	Yields   uint64

	Change    [8]uint64 // PCT: step numbers at which the running goroutine is demoted
	changePos int
	lowPrio   uint32

	StallAt  [8]uint64 // step numbers at which the running goroutine of schemalex stalls
	StallNs  [8]int64  // for how long, in simulated time
	NStall   int
	Stalled  int // stalls that happened
	Asleep   int // goroutines that are stalled now
	stallPos int

	gen uint32

	hold int // >0: the harness is in a section that must not be interrupted

	n int
	q [8192]guintptr
}

var Sim SimT

func simMix(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// SimBegin resets per-run counters. Called outside the bubble.
func SimBegin() {
	s := &Sim
	s.overPos = 0
	s.NTr = 0
	s.TrLost = false
	s.ND = 0
	s.Hash = 1469598103934665603
	s.Steps = 0
	s.Bytes = 0
	s.Switches = 0
	s.Yields = 0
	s.changePos = 0
	s.stallPos = 0
	s.Stalled = 0
	s.Asleep = 0
	s.lowPrio = 1 << 20
	s.gen++
	s.n = 0
	s.hold = 0
	mp := acquirem()
	mp.p.ptr().schedtick = 1
	releasem(mp)
	s.On = true
}

// SimEnd switches the simulated scheduler off.
func SimEnd() { Sim.On = false }

// SimRun runs f in a synctest bubble.
func SimRun(f func()) { synctestRun(f) }

// SimWait is synctest.Wait.
func SimWait() { synctestWait() }

// SimInBubble reports whether the caller is a simulated goroutine.
func SimInBubble() bool { return Sim.On && getg().bubble != nil }

// SimNow is the bubble clock in nanoseconds.
func SimNow() int64 {
	if b := getg().bubble; b != nil {
		return b.now
	}
	return 0
}

// SimDecide takes one recorded decision among n.
func SimDecide(n int) int {
	if !Sim.On || getg().bubble == nil || n <= 1 {
		return 0
	}
	return int(simDecide(uint32(n), simKindUser))
}

// SimRand draws from the run's non-schedule random stream.
func SimRand() uint64 { return simMix(&Sim.RandRng) }

// SimGoid identifies the calling goroutine.
func SimGoid() uint64 { return getg().goid }

const (
	simKindPick = iota
	simKindSync
	simKindMalloc
	simKindSelect
	simKindUser
	simKindStmt
	simKindMap
)

func simAbort(what string) {
	print("SIMABORT ", what, " steps=", Sim.Steps, " bytes=", Sim.Bytes, " decisions=", Sim.ND, "\n")
	gp := getg().m.curg
	if gp != nil && what != "" {
		traceback(^uintptr(0), ^uintptr(0), 0, gp)
	}
	exit(97)
}

func simStep() {
	s := &Sim
	s.Steps++
	if s.StepMax != 0 && s.Steps > s.StepMax {
		systemstack(func() { simAbort("step-limit") })
	}
}

func simDecide(n uint32, kind uint8) uint32 {
	s := &Sim
	idx := s.ND
	s.ND++
	var v uint32
	if s.Replay {
		for s.overPos < len(s.OverIdx) && s.OverIdx[s.overPos] < idx {
			s.overPos++
		}
		if s.overPos < len(s.OverIdx) && s.OverIdx[s.overPos] == idx {
			v = s.OverVal[s.overPos]
			s.overPos++
			if v >= n {
				v = n - 1
			}
		}
	} else {
		switch kind {
		case simKindPick:
			v = simStrategyPick(n)
		case simKindSync:
			if uint32(simMix(&s.SchedRng)&0xffff) < s.YieldSync {
				v = 1
			}
		case simKindMalloc:
			if uint32(simMix(&s.SchedRng)&0xffff) < s.YieldMalloc {
				v = 1
			}
		case simKindMap:
			if simMix(&s.SchedRng)&7 == 0 {
				v = 1
			}
		case simKindStmt:
			if uint32(simMix(&s.SchedRng)&0xffff) < s.YieldStmt {
				v = 1
			}
		default:
			v = uint32(simMix(&s.SchedRng) % uint64(n))
		}
	}
	if v != 0 {
		if s.NTr < len(s.TrIdx) {
			s.TrIdx[s.NTr] = idx
			s.TrVal[s.NTr] = v
			s.NTr++
		} else {
			s.TrLost = true
		}
	}
	if s.Debug != 0 {
		print("D ", idx, " ", kind, " ", n, " ", v, " s", s.Steps, " sw", s.Switches, "\n")
		if s.Debug == idx+2 {
			gp := getg().m.curg
			traceback(^uintptr(0), ^uintptr(0), 0, gp)
		}
	}
	quiet := kind == simKindMalloc || kind == simKindStmt || kind == simKindMap
	if !quiet || v != 0 {
		s.Hash = (s.Hash ^ uint64(v) ^ uint64(n)<<16 ^ uint64(kind)<<48) * 1099511628211
		if quiet {
			s.Hash ^= idx << 20
		}
	}
	return v
}

func simStrategyPick(n uint32) uint32 {
	s := &Sim
	switch s.Strategy {
	case 1:
		best := uint32(0)
		var bp uint32
		for i := uint32(0); i < n; i++ {
			gp := s.q[i].ptr()
			if i == 0 || gp.simPrio > bp {
				best, bp = i, gp.simPrio
			}
		}
		for s.changePos < len(s.Change) && s.Change[s.changePos] < s.Steps {
			s.changePos++
			s.lowPrio--
			s.q[best].ptr().simPrio = s.lowPrio
		}
		return best
	case 2:
		if simMix(&s.SchedRng)%16 == 0 {
			return uint32(simMix(&s.SchedRng) % uint64(n))
		}
		return 0
	case 3:
		if simMix(&s.SchedRng)%4 == 0 {
			return uint32(simMix(&s.SchedRng) % uint64(n))
		}
		return n - 1
	}
	return uint32(simMix(&s.SchedRng) % uint64(n))
}

// simEnqueue makes a bubble goroutine runnable.
func simEnqueue(gp *g) {
	s := &Sim
	if s.n >= len(s.q) {
		throw("simq overflow")
	}
	if gp.simGen != s.gen {
		gp.simGen = s.gen
		gp.simPrio = 1<<20 + uint32(simMix(&s.SchedRng)&0xfffffff)
	}
	s.q[s.n].set(gp)
	s.n++
}

// simPick chooses the next bubble goroutine.
func simPick() *g {
	s := &Sim
	if s.n == 0 {
		return nil
	}
	i := 0
	s.Steps++
	if s.StepMax != 0 && s.Steps > s.StepMax {
		simAbort("step-limit")
	}
	if s.n > 1 {
		i = int(simDecide(uint32(s.n), simKindPick))
	}
	gp := s.q[i].ptr()
	for j := i; j+1 < s.n; j++ {
		s.q[j] = s.q[j+1]
	}
	s.n--
	s.q[s.n] = 0
	s.Switches++
	return gp
}

func simCanYield(gp *g) bool {
	mp := gp.m
	return gp.bubble != nil && Sim.hold == 0 && mp.curg == gp && mp.locks == 0 && mp.mallocing == 0 && mp.preemptoff == "" && mp.throwing == 0 && mp.dying == 0
}

// simYield is a possible context switch at a synchronisation operation.
func simYield() {
	if !Sim.On {
		return
	}
	gp := getg()
	if !simCanYield(gp) {
		return
	}
	simStep()
	if Sim.n == 0 {
		return
	}
	if simDecide(2, simKindSync) == 1 {
		Sim.Yields++
		mcall(goyield_m)
	}
}

// SimStmt runs before every statement of schemalex.
func SimStmt() {
	s := &Sim
	if !s.On {
		return
	}
	gp := getg()
	if gp.bubble == nil {
		return
	}
	simStep()
	if s.stallPos < s.NStall && s.StallAt[s.stallPos] <= s.Steps && simCanYield(gp) {
		ns := s.StallNs[s.stallPos]
		s.stallPos++
		s.Stalled++
		s.Asleep++
		timeSleep(ns)
		s.Asleep--
		return
	}
	if s.YieldStmt == 0 || s.n == 0 || !simCanYield(gp) {
		return
	}
	if simDecide(2, simKindStmt) == 1 {
		s.Yields++
		mcall(goyield_m)
	}
}

// SimSettle ends stalling and waits until no goroutine is stalled. The clock of
// a bubble stops when its first goroutine returns, so this comes before that.
func SimSettle() {
	s := &Sim
	s.stallPos = s.NStall
	for s.Asleep > 0 {
		timeSleep(1e9)
	}
}

// simMapYield runs while a map is being written.
//
//go:linkname simMapYield internal/runtime/maps.simMapYield
func simMapYield() {
	s := &Sim
	if !s.On || s.YieldStmt == 0 || s.n == 0 {
		return
	}
	gp := getg()
	if !simCanYield(gp) {
		return
	}
	if simDecide(2, simKindMap) == 1 {
		s.Yields++
		mcall(goyield_m)
	}
}

// SimHold starts a section in which no goroutine switch is forced; it must not block.
func SimHold() { Sim.hold++ }

// SimUnhold ends it.
func SimUnhold() { Sim.hold-- }

// SimGen identifies the running bubble.
func SimGen() uint32 { return Sim.gen }

// SimSwitch lets another goroutine of the bubble run, if there is one.
func SimSwitch() {
	if Sim.On && simCanYield(getg()) && Sim.n > 0 {
		Sim.Yields++
		mcall(goyield_m)
	}
}

// SimYield is simYield for other packages.
func SimYield() { simYield() }

// simMalloc is a possible context switch at a heap allocation.
func simMalloc(size uintptr) {
	gp := getg()
	if gp.bubble == nil {
		return
	}
	s := &Sim
	s.Bytes += uint64(size)
	if s.BytesMax != 0 && s.Bytes > s.BytesMax {
		systemstack(func() { simAbort("allocation-limit") })
	}
	if s.YieldMalloc == 0 || s.n == 0 || !simCanYield(gp) {
		return
	}
	s.Steps++
	if simDecide(2, simKindMalloc) == 1 {
		s.Yields++
		mcall(goyield_m)
	}
}

func simSelect(n uint32) uint32 {
	if Sim.On && getg().bubble != nil {
		if n <= 1 {
			return 0
		}
		return simDecide(n, simKindSelect)
	}
	return cheaprandn(n)
}

//go:nosplit
func simRand64() (uint64, bool) {
	if !Sim.On || getg().bubble == nil {
		return 0, false
	}
	return simMix(&Sim.RandRng), true
}

func simMapRand() uint64 {
	if !Sim.On || getg().bubble == nil {
		return 0x5bd1e995
	}
	if Sim.MapRng == 0 {
		return 0
	}
	return simMix(&Sim.MapRng)
}
