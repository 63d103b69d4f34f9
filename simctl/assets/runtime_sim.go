// Added to package runtime through `go build -overlay` by the verification
// framework in /verif.  It replaces the goroutine scheduler's choices, the
// clock and the sources of randomness by ones driven from a seed.

package runtime

import (
	"internal/runtime/sys"
	"unsafe"
)

const (
	simMaxQ     = 1 << 15
	simMaxNodes = 64
	simMaxSites = 1 << 15
	simMaxWin   = 64
)

// Node states.
const (
	simRun = iota
	simStalled
	simDead
)

var (
	// simNow is the virtual monotonic clock (ns since process start).
	simNow int64 = 1e6
	// simEpoch is the wall clock at simNow == 0.
	simEpoch int64 = 1600000000 * 1e9
	// simOff is each node's wall clock offset from true time.
	simOff [simMaxNodes]int64

	simState [simMaxNodes]uint8

	simQ     [simMaxQ]guintptr
	simQn    int
	simHoldQ [simMaxQ]guintptr
	simHoldN int

	simTimerNode int32
	simGSeq      uint32

	// policy
	simPolicy   int    // 0 fifo, 1 uniform, 2 priorities, 3 sticky-random
	simRng      uint64 // scheduling choices
	simRandRng  uint64 = 0x1234567 // runtime.rand and friends
	simCost     int64  = 1000
	simSiteP    [simMaxSites]uint8
	simPauseP   uint32 // of 1<<16, per taken yield
	simPauseMax int64
	simWinLo    [simMaxWin]uint64
	simWinHi    [simMaxWin]uint64
	simWinN     int
	simDecision uint64 // index of the next scheduling decision
	simLast     uint32
	simLastN    int
	simChangeAt [16]uint64
	simChangeN  int

	// accounting
	simPicks     uint64
	simNonFifo   uint64
	simYields    uint64
	simPauses    uint64
	simPauseNs   int64
	simHold      [simMaxNodes]int64
	simHolds     int
	simHeldN     uint64
	simHeldNs    int64
	simHeldTo    [64]int64
	simHash      uint64 = 14695981039346656037
	simSpin      uint64
	simMaxPicks  uint64 = 1 << 62
	simOverrun   int // 1: too many scheduling steps, 2: spinning without blocking
	simOverNode  int32
	simSwitches  uint64

	simSiteHit [simMaxSites]bool

	simDeathKind [simMaxNodes]uint8 // 0 none 1 killed 2 panic 3 exit
	simPanicVal  [simMaxNodes]any
	simPanicPCs  [simMaxNodes][64]uintptr
	simPanicN    [simMaxNodes]int
	simExitCode  [simMaxNodes]int
)

func simNext(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func simRand64() uint64 {
	simRandRng += 0x9e3779b97f4a7c15
	z := simRandRng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nowritebarrierrec
func simEnqueue(gp *g) {
	if simQn >= simMaxQ {
		throw("sim: run queue overflow")
	}
	simQ[simQn].set(gp)
	simQn++
}

func simInherit(callergp *g) int32 {
	if callergp == nil || callergp.m == nil {
		return 0
	}
	if callergp == callergp.m.g0 {
		return simTimerNode
	}
	return callergp.simNode
}

func simInitG(newg, callergp *g) {
	newg.simNode = simInherit(callergp)
	simGSeq++
	newg.simSeq = simGSeq
	newg.simPrio = 0
	if newg.simNode != 0 && simPolicy == 2 {
		newg.simPrio = simNext(&simRng) | 1
	}
}

// simRandomOn reports whether the current scheduling decision may be random.
func simRandomOn() bool {
	for i := 0; i < simWinN; i++ {
		if simDecision >= simWinLo[i] && simDecision < simWinHi[i] {
			return true
		}
	}
	return false
}

func simFind(pp *p) *g {
	for {
		if next := pp.timers.wakeTime(); next != 0 && next <= simNow {
			pp.timers.check(simNow, nil)
		}
		n := 0
		for i := 0; i < simQn; i++ {
			gp := simQ[i].ptr()
			switch simState[gp.simNode] {
			case simDead:
				continue
			case simStalled:
				simHoldQ[simHoldN].set(gp)
				simHoldN++
				continue
			}
			simQ[n].set(gp)
			n++
		}
		simQn = n
		if n > 0 {
			return simPick()
		}
		next := pp.timers.wakeTime()
		if next == 0 {
			println("sim: everything is blocked and no timer is pending")
			exit(97)
		}
		if next > simNow {
			simNow = next
		}
	}
}

func simTake(i int) *g {
	gp := simQ[i].ptr()
	for j := i + 1; j < simQn; j++ {
		simQ[j-1] = simQ[j]
	}
	simQn--
	return gp
}

func simPick() *g {
	simSpin = 0
	// The harness (node 0) goes first, in order: it stands for the outside
	// world, whose delays are modelled explicitly.
	for i := 0; i < simQn; i++ {
		if simQ[i].ptr().simNode == 0 {
			return simTake(i)
		}
	}
	simPicks++
	simNow += simCost
	if simPicks > simMaxPicks+uint64(simNow)/200000 && simOverrun == 0 {
		simOverrun = 1
		simOverNode = simQ[0].ptr().simNode
		for i := 1; i < simMaxNodes; i++ {
			if simState[i] == simRun {
				simState[i] = simStalled
			}
		}
	}
	idx := 0
	if simQn > 1 {
		if simPolicy != 0 && simRandomOn() {
			switch simPolicy {
			case 1:
				idx = int(simNext(&simRng) % uint64(simQn))
			case 2:
				for i := 0; i < simChangeN; i++ {
					if simChangeAt[i] == simDecision && simLastN > 0 {
						// demote whoever ran last
						for j := 0; j < simQn; j++ {
							if simQ[j].ptr().simSeq == simLast {
								simQ[j].ptr().simPrio = uint64(16 - i)
							}
						}
					}
				}
				best := uint64(0)
				for i := 0; i < simQn; i++ {
					gp := simQ[i].ptr()
					if gp.simPrio == 0 {
						gp.simPrio = simNext(&simRng) | 1
					}
					if gp.simPrio > best {
						best = gp.simPrio
						idx = i
					}
				}
				if simQ[idx].ptr().simSeq == simLast {
					simLastN++
					if simLastN > 200 {
						// no goroutine may starve the others for ever
						simQ[idx].ptr().simPrio = simNext(&simRng)>>32 | 1
						simLastN = 1
					}
				}
			case 3:
				if simNext(&simRng)%8 == 0 {
					idx = int(simNext(&simRng) % uint64(simQn))
				} else {
					idx = simQn - 1
					if simNext(&simRng)%4 == 0 {
						idx = 0
					}
				}
			}
		}
		simDecision++
		if idx != 0 {
			simNonFifo++
		}
	}
	gp := simTake(idx)
	if gp.simSeq != simLast {
		simSwitches++
		simLast = gp.simSeq
		simLastN = 1
	}
	simHash = (simHash ^ uint64(gp.simSeq)<<8 ^ uint64(gp.simNode)) * 1099511628211
	simHash ^= simHash >> 29
	return gp
}

// SimYield is a potential preemption point.  The instrumented sources call it
// between statements.
func SimYield(site uint32) {
	simSpin++
	simSiteHit[site&(simMaxSites-1)] = true
	if simHolds != 0 {
		simHoldNow()
	}
	if simSiteP[site&(simMaxSites-1)] == 0 {
		if simSpin > 1<<29 {
			simSpinning()
		}
		return
	}
	simYieldSlow(site)
}

// simHoldNow makes the goroutine sleep if one of its node is to be held.
func simHoldNow() {
	gp := getg()
	d := simHold[gp.simNode]
	if d == 0 || gp.m.locks != 0 || gp == gp.m.g0 || simState[gp.simNode] == simDead {
		return
	}
	simHold[gp.simNode] = 0
	simHolds--
	simHeldN++
	simHeldNs += d
	i := 0
	for i < len(simHeldTo)-1 && simHeldTo[i] != 0 {
		i++
	}
	simHeldTo[i] = nanotime() + d
	timeSleep(d)
	simHeldTo[i] = 0
}

// simHeldLag is how long goroutines have been held so far.
func simHeldLag() int64 {
	n, now := simHeldNs, nanotime()
	for _, t := range simHeldTo {
		if t > now {
			n -= t - now
		}
	}
	return n
}

// SimHold holds the goroutine of a node that reaches a preemption point next.
func SimHold(node int32, ns int64) {
	if simHold[node] == 0 && ns != 0 {
		simHolds++
	}
	if simHold[node] != 0 && ns == 0 {
		simHolds--
	}
	simHold[node] = ns
}

// SimHeld is the number of goroutines that have been held.
func SimHeld() uint64 { return simHeldN }

// SimHeldLag is the part of SimLag that they have caused.
func SimHeldLag() int64 { return simHeldLag() }

// SimCPULag is the delay that scheduling steps alone have caused.
func SimCPULag() int64 { return int64(simPicks) * simCost }

func simSpinning() {
	gp := getg()
	if gp.simNode == 0 {
		simSpin = 0
		return
	}
	if simOverrun == 0 {
		simOverrun = 2
		simOverNode = gp.simNode
	}
	simState[gp.simNode] = simDead
	gopark(nil, nil, waitReasonZero, traceBlockGeneric, 1)
}

func simYieldSlow(site uint32) {
	gp := getg()
	if gp.simNode == 0 || gp.m.locks != 0 || gp == gp.m.g0 || simState[gp.simNode] == simDead {
		return
	}
	if simWinN == 0 || !simRandomOn() {
		return
	}
	if uint8(simNext(&simRng)>>40) >= simSiteP[site&(simMaxSites-1)] {
		return
	}
	simYields++
	simDecision++
	if simPauseP != 0 && uint32(simNext(&simRng)&0xffff) < simPauseP {
		simPauses++
		// log-uniform between 1us and simPauseMax
		d := int64(1000)
		for d < simPauseMax && simNext(&simRng)%4 != 0 {
			d *= 4
		}
		if d > simPauseMax {
			d = simPauseMax
		}
		simPauseNs += d
		timeSleep(d)
		return
	}
	Gosched()
}

// simNodePanic is called for a panic that nothing recovered.
func simNodePanic(p *_panic) {
	gp := getg()
	if gp.simNode == 0 {
		return
	}
	n := gp.simNode
	simPanicVal[n] = p.arg
	simPanicN[n] = callers(1, simPanicPCs[n][:])
	simDeathKind[n] = 2
	simState[n] = simDead
	gopark(nil, nil, waitReasonZero, traceBlockGeneric, 1)
}

// SimExit ends the calling node, if it is one.
func SimExit(code int) {
	gp := getg()
	if gp.simNode == 0 {
		return
	}
	n := gp.simNode
	simExitCode[n] = code
	simPanicN[n] = callers(1, simPanicPCs[n][:])
	simDeathKind[n] = 3
	simState[n] = simDead
	gopark(nil, nil, waitReasonZero, traceBlockGeneric, 1)
}

// The functions below are for the harness.

func SimNow() int64 { return simNow }

// SimTrueWall is the wall clock of an observer without clock error.
func SimTrueWall() int64 { return simEpoch + simNow }

func SimSetEpoch(ns int64) { simEpoch = ns }

func SimNode() int32 { return getg().simNode }

func SimSetNode(n int32) int32 {
	gp := getg()
	old := gp.simNode
	gp.simNode = n
	return old
}

func SimSeed(sched, rnd uint64) {
	simRng = sched
	simRandRng = rnd
}

func SimSetPolicy(policy int, cost int64, pauseP uint32, pauseMax int64, maxPicks uint64) {
	simPolicy = policy
	simCost = cost
	simPauseP = pauseP
	simPauseMax = pauseMax
	simMaxPicks = maxPicks
}

func SimSetSite(site int, p uint8) { simSiteP[site&(simMaxSites-1)] = p }

func SimAddWindow(lo, hi uint64) {
	if simWinN < simMaxWin {
		simWinLo[simWinN] = lo
		simWinHi[simWinN] = hi
		simWinN++
	}
}

func SimAddChange(at uint64) {
	if simChangeN < len(simChangeAt) {
		simChangeAt[simChangeN] = at
		simChangeN++
	}
}

func SimSetOffset(node int32, off int64) { simOff[node] = off }
func SimOffset(node int32) int64         { return simOff[node] }

// SimSetState changes a node's state: 0 runs, 1 is stalled, 2 is dead.
func SimSetState(node int32, st uint8) {
	if simState[node] == simDead && st == simStalled {
		return
	}
	simState[node] = st
	if st == simDead && simDeathKind[node] == 0 {
		simDeathKind[node] = 1
	}
	if st == simRun {
		n := 0
		for i := 0; i < simHoldN; i++ {
			gp := simHoldQ[i].ptr()
			if gp.simNode == node {
				simEnqueue(gp)
			} else {
				simHoldQ[n] = simHoldQ[i]
				n++
			}
		}
		simHoldN = n
	}
}

func SimState(node int32) uint8 { return simState[node] }

func SimDeath(node int32) (kind int, val any, code int, pcs []uintptr) {
	return int(simDeathKind[node]), simPanicVal[node], simExitCode[node], simPanicPCs[node][:simPanicN[node]]
}

func SimStats() (picks, nonFifo, yields, pauses, decisions, hash, switches uint64, overrun int, overNode int32) {
	return simPicks, simNonFifo, simYields, simPauses, simDecision, simHash, simSwitches, simOverrun, simOverNode
}

// SimRunnable counts runnable goroutines of a node.
func SimRunnable(node int32) int {
	n := 0
	for i := 0; i < simQn; i++ {
		if simQ[i].ptr().simNode == node {
			n++
		}
	}
	return n
}

// SimLag bounds the processing time that the scheduler has given out so far:
// what a chain of computations took between two moments is at most the
// difference.
func SimLag() int64 { return int64(simPicks)*simCost + simPauseNs + simHeldLag() }

// SimSiteHits tells which preemption points were reached.
func SimSiteHits() []bool { return simSiteHit[:] }

// SimGoroutines counts a node's goroutines.
func SimGoroutines(node int32) int {
	n := 0
	for _, gp := range allgs {
		if gp.simNode == node && readgstatus(gp)&^_Gscan != _Gdead {
			n++
		}
	}
	return n
}

var _ = unsafe.Pointer(nil)
var _ = sys.GetCallerPC

const simAlways = true

var simStartup = [16]byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}

var simTSeq uint32

// SimRandBytes stands in for the kernel's random number generator.
func SimRandBytes(b []byte) {
	for i := range b {
		b[i] = byte(simRand64() >> 24)
	}
}
