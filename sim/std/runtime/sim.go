// Deterministic-simulation scheduler hooks. This file is added to package
// runtime (through go build -overlay) only when the simulator binary is built;
// nothing of it is part of the shipped program.

package runtime

import (
	"unsafe"
)

// simMapFD is the descriptor of the shared memory file the driver passes in.
const simMapFD = 3
const simMapSize = 48 << 20
const simMagic = 0x62616273696d3031

// simHeader is the start of the shared mapping. The driver writes the
// configuration words before the process starts and reads the result words
// after it has ended; because the mapping is shared, they survive any way
// the process ends.
type simHeader struct {
	magic     uint64
	seed      uint64 // scheduler decisions
	randSeed  uint64 // runtime rand(): map iteration order, hash seeds, ...
	policy    uint64 // 0 sparse list only, 1 uniform, 2 priorities (PCT), 3 FIFO
	yieldP    uint64 // probability of a preemption at a yield point, of 65536
	startWall uint64
	cfgOff    uint64
	cfgLen    uint64
	devOff    uint64 // sparse deviation list: (step, choice) pairs of uint64
	devCnt    uint64
	trOff     uint64
	trCap     uint64
	decOff    uint64 // recorded non-default decisions
	decCap    uint64 // in pairs
	maxTicks  uint64
	maxSim    uint64 // simulated nanoseconds after which the run is cut off, 0 = none

	// results
	trLen     uint64
	decLen    uint64
	steps     uint64 // decisions with more than one alternative
	ticks     uint64 // yield points and kernel calls passed
	schedHash uint64
	simNow    uint64
	status    uint64
	switches  uint64
	kinds     [8]uint64
}

const (
	simStatusRunning  = 0
	simStatusTicks    = 1 // tick budget exhausted
	simStatusOverflow = 2 // trace overflow
	simStatusTime     = 3 // simulated time budget exhausted
)

var (
	sim        *simHeader
	simOn      bool // decisions are active (from main.main on)
	simIsSim   bool
	simRng     uint64
	simRand    uint64
	simDevPos  uint64
	simIdleG   guintptr
	simWallOff int64
	simStart   int64
	simPrioN   int
	simPrioG   [64]uint64
	simPrioV   [64]uint64

	// SimExitHook, if set, runs when the program exits deliberately.
	SimExitHook func(code int)
)

func simInit() {
	p, err := mmap(nil, simMapSize, _PROT_READ|_PROT_WRITE, 1 /* MAP_SHARED */, simMapFD, 0)
	if err != 0 {
		print("sim: no shared mapping on fd 3\n")
		exit(97)
	}
	h := (*simHeader)(p)
	if h.magic != simMagic {
		print("sim: bad magic\n")
		exit(97)
	}
	sim = h
	simIsSim = true
	simRng = h.seed ^ 0x9e3779b97f4a7c15
	simRand = h.randSeed ^ 0x2545f4914f6cdd1d
	faketime = int64(h.startWall)
	simStart = faketime
	h.simNow = 0
	numCPUStartup = 4
}

func simGosched() {
	if simOn && sim.policy == 2 {
		simLower(getg().goid)
	}
}

//go:nosplit
func simMix(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func simRand64() uint64 { return simMix(&simRand) }

// Decision kinds.
const (
	SimKSched  = 0
	SimKYield  = 1
	SimKSelect = 2
	SimKKernel = 3
)

// simDecide returns a choice in [0, n). Alternative 0 is the default.
//
//go:nosplit
func simDecide(kind int, n uint32, pref int64) uint32 {
	if !simOn || n <= 1 {
		return 0
	}
	h := sim
	step := h.steps
	h.steps++
	h.kinds[kind&7]++
	var c uint32
	switch h.policy {
	case 0:
		dev := (*[1 << 24]uint64)(add(unsafe.Pointer(h), uintptr(h.devOff)))
		for simDevPos < h.devCnt && dev[2*simDevPos] < step {
			simDevPos++
		}
		if simDevPos < h.devCnt && dev[2*simDevPos] == step {
			c = uint32(dev[2*simDevPos+1])
			if c >= n {
				c = c % n
			}
			simDevPos++
		}
	default:
		r := simMix(&simRng)
		if pref >= 0 {
			c = uint32(pref)
		} else if kind == SimKYield {
			if r&0xffff < h.yieldP {
				c = 1
			}
		} else {
			c = uint32((r >> 32) * uint64(n) >> 32)
		}
	}
	if c != 0 {
		if h.decLen < h.decCap {
			dec := (*[1 << 24]uint64)(add(unsafe.Pointer(h), uintptr(h.decOff)))
			dec[2*h.decLen] = step
			dec[2*h.decLen+1] = uint64(c)
		}
		h.decLen++
		h.schedHash = (h.schedHash ^ (step<<8 | uint64(c))) * 0x100000001b3
	}
	return c
}

func simPrio(goid uint64) uint64 {
	for i := 0; i < simPrioN; i++ {
		if simPrioG[i] == goid {
			return simPrioV[i]
		}
	}
	x := sim.seed ^ goid*0x9e3779b97f4a7c15
	return simMix(&x)>>1 | 1<<63
}

func simLower(goid uint64) {
	for i := 0; i < simPrioN; i++ {
		if simPrioG[i] == goid {
			simPrioV[i] = uint64(len(simPrioG)) - uint64(simPrioN)
			return
		}
	}
	if simPrioN < len(simPrioG) {
		simPrioG[simPrioN] = goid
		simPrioV[simPrioN] = uint64(len(simPrioG)) - uint64(simPrioN)
		simPrioN++
	}
}

// simPick chooses which of the n goroutines queued on pp from head h runs.
func simPick(pp *p, head, n uint32) uint32 {
	if !simOn || n <= 1 {
		return 0
	}
	sim.switches++
	pref := int64(-1)
	switch sim.policy {
	case 2:
		best := uint64(0)
		pref = 0
		for i := uint32(0); i < n; i++ {
			gp := pp.runq[(head+i)%uint32(len(pp.runq))].ptr()
			if v := simPrio(gp.goid); v > best {
				best = v
				pref = int64(i)
			}
		}
	case 3:
		pref = 0
	}
	return simDecide(SimKSched, n, pref)
}

type simHook struct {
	tick uint64
	f    func()
}

var simHooks []simHook
var simHookNext uint64 = ^uint64(0)

// SimTickAt arranges for f to run at the given tick.
func SimTickAt(tick uint64, f func()) {
	simHooks = append(simHooks, simHook{tick, f})
	if tick < simHookNext {
		simHookNext = tick
	}
}

func simRunHooks() {
	now := sim.ticks
	next := ^uint64(0)
	var due []func()
	k := 0
	for _, h := range simHooks {
		if h.tick <= now {
			due = append(due, h.f)
			continue
		}
		if h.tick < next {
			next = h.tick
		}
		simHooks[k] = h
		k++
	}
	simHooks = simHooks[:k]
	simHookNext = next
	for _, f := range due {
		f()
	}
}

func simTick() {
	h := sim
	h.ticks++
	if h.ticks > h.maxTicks {
		h.status = simStatusTicks
		h.simNow = uint64(faketime - simStart)
		exit(96)
	}
}

// SimYield is a potential preemption point.
func SimYield() {
	if !simOn {
		return
	}
	simTick()
	gp := getg()
	if gp.m.locks != 0 || gp == gp.m.g0 {
		return
	}
	if sim.ticks >= simHookNext {
		simRunHooks()
	}
	pp := gp.m.p.ptr()
	if pp.runqhead == pp.runqtail && sched.runq.size == 0 {
		return
	}
	pref := int64(-1)
	switch sim.policy {
	case 2:
		x := simRng
		if simMix(&x)%4096 < sim.yieldP>>6 {
			simLower(gp.goid)
		}
		me := simPrio(gp.goid)
		pref = 0
		for i := pp.runqhead; i != pp.runqtail; i++ {
			o := pp.runq[i%uint32(len(pp.runq))].ptr()
			if simPrio(o.goid) > me {
				pref = 1
			}
		}
	case 3:
		pref = 0
	}
	if simDecide(SimKYield, 2, pref) == 1 {
		mcall(gosched_m)
	}
}

// simIdle is called by the scheduler when nothing is runnable. It advances
// the simulated clock to the next timer, or wakes the goroutine registered
// with SimIdlePark when there is none: the program is deadlocked.
//
//go:yeswritebarrierrec
func simIdle(pp *p) bool {
	if !simIsSim {
		return false
	}
	ts := &pp.timers
	ts.lock()
	if len(ts.heap) > 0 {
		ts.adjust(faketime, true)
	}
	ts.unlock()
	when := ts.wakeTime()
	if when != 0 && when < maxWhen {
		if when > faketime {
			faketime = when
			sim.simNow = uint64(faketime - simStart)
			if sim.maxSim != 0 && sim.simNow > sim.maxSim {
				sim.status = simStatusTime
				exit(96)
			}
		}
		return true
	}
	if simIdleG != 0 {
		gp := simIdleG.ptr()
		simIdleG = 0
		ready(gp, 0, false)
		return true
	}
	return false
}

// SimIdlePark parks the calling goroutine until the program is deadlocked.
func SimIdlePark() {
	gopark(simIdleCommit, nil, waitReasonZero, traceBlockGeneric, 1)
}

func simIdleCommit(gp *g, _ unsafe.Pointer) bool {
	simIdleG.set(gp)
	return true
}

var simVersion string

// SimSetVersion says what the program was built as; SimVersion tells its main
// package.
func SimSetVersion(v string) { simVersion = v }
func SimVersion() string     { return simVersion }

func SimStart() { simOn = true }
func SimStop()  { simOn = false }
func SimTick() {
	if simOn {
		simTick()
	}
}
func SimDecide(kind, n int) int  { return int(simDecide(kind, uint32(n), -1)) }
func SimRand() uint64            { return simMix(&simRng) }
func SimNow() int64              { return faketime - simStart }
func SimWallBase() int64         { return simStart }
func SimSleep(ns int64)          { timeSleep(ns) }
func SimSetWallOffset(off int64) { simWallOff = off }
func SimWallOffset() int64       { return simWallOff }
func SimStatus() uint64          { return sim.status }
func SimGoid() uint64            { return getg().goid }
func SimExitNow(code int)        { sim.simNow = uint64(faketime - simStart); exit(int32(code)) }
func SimConfig() []byte {
	return unsafe.Slice((*byte)(add(unsafe.Pointer(sim), uintptr(sim.cfgOff))), int(sim.cfgLen))
}

// SimEmit appends b to the trace.
func SimEmit(b []byte) {
	h := sim
	if h.trLen+uint64(len(b)) > h.trCap {
		h.status = simStatusOverflow
		exit(95)
	}
	dst := unsafe.Slice((*byte)(add(unsafe.Pointer(h), uintptr(h.trOff+h.trLen))), len(b))
	copy(dst, b)
	h.trLen += uint64(len(b))
	h.simNow = uint64(faketime - simStart)
}
