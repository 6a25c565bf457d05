// Controlled scheduler for model checking: a copy of this file is laid into
// package runtime through a build overlay (see gen_overlay.py).
//
// While an execution is in progress (mc.on), exactly one managed goroutine
// holds the token and runs; every other managed goroutine is parked or in
// mc.runq. At each scheduling point (an operation on a synchronisation object
// performed by code under test) the next goroutine is chosen from the enabled
// ones: by the forced prefix, or by the deterministic default policy. Each
// choice is logged together with the set of enabled goroutines, so that the
// explorer (package main of the check) can enumerate all alternatives.

package runtime

import (
	"internal/runtime/sys"
	"unsafe"
)

const (
	mcMaxG     = 64
	mcClock    = 63 // pseudo goroutine id of the virtual clock
	mcNone     = 255
	mcDelay    = 254 // in a prefix: delay what would be chosen by default
	mcMaxLog   = 1 << 20
	mcMaxAcc   = 1 << 18
	mcMaxEv    = 1 << 16
	mcObjBits  = 14
	mcSpin     = 60
	mcBaseTime = 946684800000000000
)

// End states of an execution.
const (
	MCEndQuiet    = 1 // nothing can run and no timer is pending
	MCEndPanic    = 2
	MCEndFatal    = 3
	MCEndExit     = 4
	MCEndSteps    = 5 // step limit reached
	MCEndStop     = 6 // stopped by the harness
	MCEndInternal = 7 // limit of the machinery
)

// Access kinds.
const (
	MCRead   = 0
	MCWrite  = 1
	MCWake   = 2
	MCCreate = 3
)

// MCEntry is one logged choice.
type MCEntry struct {
	Enabled uint64 // goroutines that could be chosen
	Sleep   uint64 // goroutines asleep at this node (sleep-set mode)
	Acc     uint32 // index of the first access made after this choice
	Kind    uint8  // 0 scheduling, 1 data, 2 data chosen by the harness (free)
	Chosen  uint8
	Cur     uint8 // goroutine that was running and could continue, or 255
	Dflt    uint8 // what the default policy would choose
	N       uint8 // number of options of a data choice
	Flags   uint8 // 1: no branching here (quiet); 2: the default choice was delayed
}

// MCAccess is one access to a synchronisation object, or a wake/create edge.
type MCAccess struct {
	Obj  uint32
	Kind uint8
}

// MCEvent is a harness event.
type MCEvent struct {
	G    int32
	Code int32
	A, B int64
	T    int64
	Step int32
}

var mc struct {
	on      bool
	track   bool // number the objects (needed by the partial-order mode)
	clockOn bool // the clock may fire early
	quiet   int32
	end     int32
	ncpu    int32

	bubble *synctestBubble
	driver guintptr
	token  guintptr
	forced uint8 // chosen goroutine for the next dispatch, or mcNone

	runq uint64 // runnable managed goroutines
	// Goroutines without an id: how many live, and the queue of those that can run.
	npend        int
	ovf          [1 << 12]guintptr
	ovfLo, ovfHi int
	live uint64
	n    int
	last int // last goroutine that ran
	run  int // consecutive choices of the same goroutine
	low  uint64 // delayed: only run when nothing else can
	gs   [mcMaxG]guintptr

	maxSteps int
	steps    int
	nlog     int
	nacc     int
	nev      int
	npre     int
	div      int
	blocked  int // entry at which every enabled goroutine was asleep, or -1
	lost     int

	sleepAt   int // entry index whose step is the first to filter the sleep set
	sleep     uint64
	sleepKnow [mcMaxG]uint32
	sleepLo   [mcMaxG]uint32
	sleepHi   [mcMaxG]uint32
	nsleepAcc int
	sleepAcc  [1 << 14]MCAccess

	rng   uint64
	epoch uint32
	nobj  uint32
	objK  [1 << mcObjBits]uintptr
	objE  [1 << mcObjBits]uint32
	objV  [1 << mcObjBits]uint32

	log [mcMaxLog]MCEntry
	acc [mcMaxAcc]MCAccess
	ev  [mcMaxEv]MCEvent
	pre [mcMaxLog]uint8

	ctr [256]int64

	panicVal  any
	panicPCs  [64]uintptr
	panicN    int
	livePCs   [32]uintptr
	endG      int
	firstTick int64
	msg       [512]byte
	msgN      int

	pcKey [4096]uintptr
	pcVal [4096]uint8
}

//go:nosplit
func mcManaged(gp *g) bool {
	return mc.on && gp.bubble != nil && gp.bubble == mc.bubble
}

// mcCur returns the managed goroutine that is running on this thread (on its
// own stack), or nil.
//
//go:nosplit
func mcCur() *g {
	if !mc.on {
		return nil
	}
	gp := getg()
	if gp.bubble == nil || gp.bubble != mc.bubble || gp.m.curg != gp {
		return nil
	}
	return gp
}

// ---- object numbering and access log ----

func mcObj(p uintptr) uint32 {
	h := (p >> 3) * 0x9E3779B97F4A7C15 >> (64 - mcObjBits)
	for i := 0; i < 1<<mcObjBits; i++ {
		if mc.objE[h] != mc.epoch {
			mc.objE[h] = mc.epoch
			mc.objK[h] = p
			mc.nobj++
			mc.objV[h] = mc.nobj
			return mc.nobj
		}
		if mc.objK[h] == p {
			return mc.objV[h]
		}
		h = (h + 1) & (1<<mcObjBits - 1)
	}
	throw("mc: too many objects")
	return 0
}

func mcRecord(p uintptr, kind uint8) {
	if !mc.track || p == 0 {
		return
	}
	if mc.nacc >= mcMaxAcc {
		mc.lost++
		return
	}
	o := mcObj(p)
	// Merge with an identical access of the same step.
	lo := 0
	if mc.nlog > 0 {
		lo = int(mc.log[mc.nlog-1].Acc)
	}
	n := 0
	for i := mc.nacc - 1; i >= lo && n < 8; i-- {
		if mc.acc[i].Obj == o && mc.acc[i].Kind <= 1 && mc.acc[i].Kind >= kind {
			return
		}
		n++
	}
	mc.acc[mc.nacc] = MCAccess{Obj: o, Kind: kind}
	mc.nacc++
}

func mcEdge(id int, kind uint8) {
	if !mc.track || mc.nacc >= mcMaxAcc {
		return
	}
	mc.acc[mc.nacc] = MCAccess{Obj: uint32(id), Kind: kind}
	mc.nacc++
}

// ---- choices ----

// mcSleepFilter wakes sleeping goroutines whose next step depends on the step
// that has just been executed.
func mcSleepFilter() {
	if mc.sleep == 0 || mc.nlog == 0 || mc.nlog <= mc.sleepAt {
		return
	}
	// Find the last scheduling entry: the step just executed.
	k := mc.nlog - 1
	for k > mc.sleepAt && mc.log[k].Kind != 0 {
		k--
	}
	if k < mc.sleepAt {
		return
	}
	if mc.log[k].Chosen == mcClock {
		mc.sleep = 0
		return
	}
	lo, hi := int(mc.log[k].Acc), mc.nacc
	for id := 0; id < mcMaxG; id++ {
		if mc.sleep&(1<<uint(id)) == 0 {
			continue
		}
		if id == int(mc.log[k].Chosen) {
			mc.sleep &^= 1 << uint(id)
			continue
		}
		know := mc.sleepKnow[id]
		dep := false
	outer:
		for i := mc.sleepLo[id]; i < mc.sleepHi[id]; i++ {
			a := mc.sleepAcc[i]
			for j := lo; j < hi; j++ {
				b := mc.acc[j]
				if b.Kind > 1 || a.Kind > 1 {
					continue
				}
				if a.Kind == 0 && b.Kind == 0 {
					continue
				}
				if a.Obj > know {
					if b.Obj > know {
						dep = true
						break outer
					}
				} else if a.Obj == b.Obj {
					dep = true
					break outer
				}
			}
		}
		if dep {
			mc.sleep &^= 1 << uint(id)
		}
	}
}

func mcAppend(e MCEntry) {
	if mc.nlog < mcMaxLog {
		e.Acc = uint32(mc.nacc)
		mc.log[mc.nlog] = e
	}
	mc.nlog++
}

// mcDecide chooses the next goroutine. cur is the id of the running goroutine
// if it can continue, else mcNone. It returns mcNone if the execution must end.
func mcDecide(cur uint8) uint8 {
	mc.steps++
	if mc.steps > mc.maxSteps || mc.nlog >= mcMaxLog-64 || mc.nacc >= mcMaxAcc-256 {
		mc.end = MCEndSteps
		return mcNone
	}
	mcSleepFilter()
	if mc.ovfLo < mc.ovfHi {
		mcDrain()
	}
	en := mc.runq
	if cur != mcNone {
		en |= 1 << cur
	}
	if mc.clockOn && mc.quiet == 0 && mcWake() > 0 {
		en |= 1 << mcClock
	}
	var d uint8
	cand := en &^ (1 << mcClock)
	all := cand
	if mc.sleep != 0 && mc.blocked < 0 && mc.nlog > mc.sleepAt {
		c2 := cand &^ mc.sleep
		if c2 == 0 {
			if cand != 0 {
				mc.blocked = mc.nlog
			}
		} else {
			cand = c2
		}
	}
	spun := false
	if cur != mcNone && cand&(1<<cur) != 0 {
		if mc.last == int(cur) {
			mc.run++
		} else {
			mc.run = 0
		}
		if mc.run >= mcSpin && cand&^(1<<cur) != 0 {
			spun = true
			mc.low = 0
		}
	}
	if c2 := cand &^ mc.low; c2 != 0 {
		cand = c2
	}
	if cur != mcNone && cand&(1<<cur) != 0 && !spun {
		d = cur
	} else {
		if spun {
			mc.run = 0
			cand &^= 1 << cur
		}
		d = mcNext(cand)
	}
	c := d
	var fl uint8
	if mc.nlog < mc.npre {
		c = mc.pre[mc.nlog]
		if c == mcDelay && d != mcClock && all&^(1<<d) != 0 {
			fl = 2
			mc.low |= 1 << d
			all &^= 1 << d
			if c2 := all &^ mc.low; c2 != 0 {
				all = c2
			}
			c = mcNext(all)
		}
		if c >= mcMaxG || en&(1<<c) == 0 {
			if mc.div < 0 {
				mc.div = mc.nlog
			}
			c = d
		}
	}
	if mc.quiet > 0 {
		fl |= 1
	}
	mcAppend(MCEntry{Kind: 0, Chosen: c, Cur: cur, Dflt: d, Enabled: en, Sleep: mc.sleep, Flags: fl})
	if c != mcClock {
		if mc.last != int(c) {
			mc.run = 0
		}
		mc.last = int(c)
		mc.low &^= 1 << c
	}
	return c
}

// mcNext is the next of a set of goroutines in cyclic order after the last one
// that ran.
func mcNext(set uint64) uint8 {
	for k := 1; k <= mcMaxG; k++ {
		id := (mc.last + k) & (mcMaxG - 1)
		if set&(1<<uint(id)) != 0 {
			return uint8(id)
		}
	}
	return mcClock
}

// mcChoose makes a data choice among n options.
func mcChoose(n int, kind uint8) int {
	if n <= 1 {
		return 0
	}
	c := 0
	if mc.nlog < mc.npre {
		c = int(mc.pre[mc.nlog])
		if c >= n {
			if mc.div < 0 {
				mc.div = mc.nlog
			}
			c = 0
		}
	}
	var fl uint8
	if mc.quiet > 0 {
		fl = 1
	}
	mcAppend(MCEntry{Kind: kind, Chosen: uint8(c), N: uint8(n), Cur: mcNone, Flags: fl, Sleep: mc.sleep})
	return c
}

// mcWake is the time of the next timer that can do something, or 0. It cleans
// the heap of timers that nobody waits for any more.
func mcWake() int64 {
	ts := &mc.bubble.timers
	if ts.wakeTime() == 0 {
		return 0
	}
	systemstack(mcCleanTimers)
	return ts.wakeTime()
}

//go:yeswritebarrierrec
func mcCleanTimers() {
	ts := &mc.bubble.timers
	ts.lock()
	// The channel timers that nobody waits for are evaluated when their channel
	// is used. A Reset brings them back to the heap, where they would tick for
	// ever; they leave it as if the Reset had come first.
	for i := range ts.heap {
		t := ts.heap[i].timer
		t.lock()
		if t.isChan && t.blocked == 0 && t.state&timerHeaped != 0 && t.state&timerZombie == 0 {
			t.state |= timerZombie
			ts.zombies.Add(1)
		}
		t.unlock()
	}
	if len(ts.heap) > 0 {
		ts.adjust(0, true)
	}
	if len(ts.heap) == 0 {
		ts.minWhenModified.Store(0)
		ts.minWhenHeap.Store(0)
	}
	ts.unlock()
}

// mcFireTimers advances the virtual clock to the next timer and runs the
// timers that are due. It runs on g0.
func mcFireTimers() bool {
	b := mc.bubble
	next := mcWake()
	if next == 0 {
		return false
	}
	if next > b.now {
		b.now = next
	}
	if mc.firstTick == 0 {
		mc.firstTick = next
	}
	b.timers.check(b.now, b)
	return true
}

// mcPick is called by findRunnable on g0.
func mcPick() *g {
	if !mc.on || mc.token != 0 {
		return nil
	}
	for {
		if mc.ovfLo < mc.ovfHi {
			mcDrain()
		}
		var c uint8
		if mc.forced != mcNone {
			c = mc.forced
			mc.forced = mcNone
		} else if mc.runq == 0 {
			if mcWake() == 0 {
				mc.end = MCEndQuiet
				mcFinish()
				return nil
			}
			mc.steps++
			if mc.steps > mc.maxSteps || mc.nlog >= mcMaxLog-64 {
				mc.end = MCEndSteps
				mcFinish()
				return nil
			}
			mcSleepFilter()
			if mc.nlog < mc.npre && mc.pre[mc.nlog] != mcClock && mc.div < 0 {
				mc.div = mc.nlog
			}
			mcAppend(MCEntry{Kind: 0, Chosen: mcClock, Cur: mcNone, Dflt: mcClock, Enabled: 1 << mcClock, Sleep: mc.sleep})
			c = mcClock
		} else {
			c = mcDecide(mcNone)
			if c == mcNone {
				mcFinish()
				return nil
			}
		}
		if c == mcClock {
			mcFireTimers()
			continue
		}
		mc.runq &^= 1 << c
		mc.token = mc.gs[c]
		return mc.gs[c].ptr()
	}
}

// mcFinish ends the execution; on g0 or from an unlockf.
func mcFinish() {
	mc.on = false
	mc.token = 0
	ready(mc.driver.ptr(), 0, false)
}

// A goroutine needs an id to be chosen. When more goroutines live than there are
// ids, those that are blocked give theirs up, and those that can run but find
// none wait in a queue (mcPend). The partial-order mode needs ids that are used
// once and is limited to as many goroutines as there are ids.
const mcPend = 0xfe

// mcTakeID returns a free id, or -1.
func mcTakeID() int {
	if mc.n < mcMaxG-1 {
		mc.n++
		return mc.n - 1
	}
	if mc.track {
		mc.end = MCEndInternal
		throw("mc: too many goroutines in one execution")
	}
	for id := 1; id < mcMaxG-1; id++ {
		if mc.live&(1<<uint(id)) == 0 {
			return id
		}
	}
	for id := 1; id < mcMaxG-1; id++ {
		if mc.runq&(1<<uint(id)) == 0 && mc.gs[id] != mc.token && mc.forced != uint8(id) {
			mc.gs[id].ptr().mcid = mcPend
			mc.npend++
			mc.live &^= 1 << uint(id)
			mc.low &^= 1 << uint(id)
			return id
		}
	}
	return -1
}

// mcAdmit makes gp, which has no id, runnable. It is already counted in npend.
func mcAdmit(gp *g) bool {
	id := mcTakeID()
	if id < 0 {
		return false
	}
	gp.mcid = uint8(id)
	mc.npend--
	mc.gs[id].set(gp)
	mc.live |= 1 << uint(id)
	mc.runq |= 1 << uint(id)
	return true
}

func mcQueue(gp *g) {
	if mc.ovfHi-mc.ovfLo == len(mc.ovf) {
		mc.end = MCEndInternal
		throw("mc: too many goroutines in one execution")
	}
	mc.ovf[mc.ovfHi%len(mc.ovf)].set(gp)
	mc.ovfHi++
}

// mcDrain gives ids to those that wait for one.
func mcDrain() {
	for mc.ovfLo < mc.ovfHi && mcAdmit(mc.ovf[mc.ovfLo%len(mc.ovf)].ptr()) {
		mc.ovfLo++
	}
}

func mcNew(newg *g) {
	newg.mcid = mcPend
	newg.mcnostop = 0
	mc.npend++
	if !mcAdmit(newg) {
		mcQueue(newg)
		return
	}
	mcEdge(int(newg.mcid), MCCreate)
}

func mcReady(gp *g) {
	if gp.mcid == mcPend {
		if !mcAdmit(gp) {
			mcQueue(gp)
		}
		return
	}
	mc.runq |= 1 << gp.mcid
	mcEdge(int(gp.mcid), MCWake)
}

// mcRelease is called when gp, which held the token, has parked.
func mcRelease(gp *g) {
	if mc.token.ptr() == gp {
		mc.token = 0
	}
}

func mcExit(gp *g) {
	mc.live &^= 1 << gp.mcid
	mc.gs[gp.mcid] = 0
	if mc.token.ptr() == gp {
		mc.token = 0
	}
}

// ---- scheduling points ----

// Classes of return addresses.
const (
	mcPCSkip  = 1 // runtime, sync/atomic: look at the caller
	mcPCSync  = 2 // sync, context
	mcPCAllow = 3 // code whose operations are scheduling points
	mcPCDeny  = 4
)

func mcHasPrefix(s, p string) bool {
	return len(s) >= len(p) && s[:len(p)] == p
}

func mcClassify(pc uintptr) uint8 {
	h := (pc * 0x9E3779B97F4A7C15) >> (64 - 12)
	if mc.pcKey[h] == pc {
		return mc.pcVal[h]
	}
	f := findfunc(pc - 1)
	v := uint8(mcPCDeny)
	if f.valid() {
		n := funcname(f)
		switch {
		case mcHasPrefix(n, "runtime."), mcHasPrefix(n, "sync/atomic."), mcHasPrefix(n, "internal/runtime/"):
			v = mcPCSkip
		case mcHasPrefix(n, "sync."), mcHasPrefix(n, "context."), mcHasPrefix(n, "internal/sync."):
			v = mcPCSync
		case mcHasPrefix(n, "main."),
			mcHasPrefix(n, "github.com/gostdlib/concurrency/"),
			mcHasPrefix(n, "github.com/johnsiilver/dynamics/demux."),
			mcHasPrefix(n, "github.com/johnsiilver/pools/"):
			v = mcPCAllow
		}
	}
	mc.pcKey[h] = pc
	mc.pcVal[h] = v
	return v
}

// mcFP is the position of the caller's frame, as an offset from the top of the
// stack (a stack may move when it grows).
//
//go:nosplit
func mcFP(gp *g, fp uintptr) uintptr { return gp.stack.hi - fp }

// mcAllowed walks the physical frames up from the frame at offset off (return
// address at frame pointer + 8).
func mcAllowed(gp *g, off uintptr, sync bool) bool {
	for i := 0; i < 12; i++ {
		if off <= 16 || off > gp.stack.hi-gp.stack.lo {
			return false
		}
		pc := *(*uintptr)(unsafe.Pointer(gp.stack.hi - off + 8))
		switch mcClassify(pc) {
		case mcPCAllow:
			return true
		case mcPCDeny:
			return false
		case mcPCSync:
			if !sync {
				return false
			}
		}
		off = gp.stack.hi - *(*uintptr)(unsafe.Pointer(gp.stack.hi - off))
	}
	return false
}

// mcPoint is a scheduling point before an operation on obj.
func mcPoint(gp *g, off uintptr, obj uintptr, kind uint8, sync bool) {
	if gp.mcnostop != 0 || mc.quiet > 0 || gp.m.locks != 0 || gp.m.mallocing != 0 || !mcAllowed(gp, off, sync) {
		mcRecord(obj, kind)
		return
	}
	mcStop(gp)
	mcRecord(obj, kind)
}

func mcStop(gp *g) {
	for {
		c := mcDecide(gp.mcid)
		if c == gp.mcid {
			return
		}
		if c == mcNone {
			mcEndHere()
		}
		if c == mcClock {
			systemstack(func() {
				mp := getg().m
				curg := mp.curg
				mp.curg = nil
				mcFireTimers()
				mp.curg = curg
			})
			continue
		}
		mc.forced = c
		mcall(mcSwitch_m)
		return
	}
}

func mcSwitch_m(gp *g) {
	casgstatus(gp, _Grunning, _Grunnable)
	dropg()
	mc.runq |= 1 << gp.mcid
	mc.token = 0
	schedule()
}

// mcEndHere ends the execution from a managed goroutine; never returns.
func mcEndHere() {
	gp := getg()
	mc.endG = int(gp.mcid)
	for {
		gopark(mcEnd_c, nil, waitReasonForceGCIdle, traceBlockGeneric, 1)
	}
}

func mcEnd_c(gp *g, _ unsafe.Pointer) bool {
	if mc.on {
		mcFinish()
	}
	return true
}

func mcAbortPanic(v any, kind int32) {
	if mc.end == 0 {
		mc.end = kind
		mc.panicVal = v
		mc.panicN = callers(2, mc.panicPCs[:])
	}
	mcEndHere()
}

func mcAbortMsg(s string, kind int32) {
	if mc.end == 0 {
		mc.end = kind
		mc.msgN = copy(mc.msg[:], s)
		mc.panicN = callers(2, mc.panicPCs[:])
	}
	mcEndHere()
}

//go:nosplit
func mcFatal(s string) {
	if gp := mcCur(); gp != nil {
		mcAbortMsg(s, MCEndFatal)
	}
}

// mcChan is called at the entry of channel operations that are compiled into
// direct calls from user code.
//
//go:nosplit
func mcChan(p unsafe.Pointer) {
	if mc.on {
		mcChan1(uintptr(p))
	}
}

//go:noinline
func mcChan1(p uintptr) {
	gp := getg()
	if gp.bubble == nil || gp.bubble != mc.bubble {
		return
	}
	if gp.m.curg != gp {
		mcRecord(p, MCWrite)
		return
	}
	mcPoint(gp, mcFP(gp, getfp()), p, MCWrite, false)
}

// mcSelectPoint is called at the entry of selectgo.
func mcSelectPoint(scases []scase) {
	gp := mcCur()
	if gp == nil {
		return
	}
	mcPoint(gp, mcFP(gp, getfp()), 0, MCWrite, false)
	mcSelectTouch(scases)
}

func mcSelectTouch(scases []scase) {
	if mc.track {
		for i := range scases {
			if scases[i].c != nil {
				mcRecord(uintptr(unsafe.Pointer(scases[i].c)), MCWrite)
			}
		}
	}
}

// mcSelectOrder moves the chosen ready case to the front of pollorder.
// All channels are locked.
func mcSelectOrder(scases []scase, pollorder []uint16, nsends int) {
	if mcCur() == nil {
		return
	}
	// Sort by index: the order was not randomised.
	nready := 0
	for i, casei := range pollorder {
		c := scases[casei].c
		r := false
		if int(casei) >= nsends {
			r = mcQReady(&c.sendq) || c.qcount > 0 || c.closed != 0
		} else {
			r = c.closed != 0 || mcQReady(&c.recvq) || c.qcount < c.dataqsiz
		}
		if r {
			// Keep the ready cases in front, in index order.
			for j := i; j > nready; j-- {
				pollorder[j], pollorder[j-1] = pollorder[j-1], pollorder[j]
			}
			nready++
		}
	}
	if nready > 1 {
		k := mcChoose(nready, 1)
		pollorder[0], pollorder[k] = pollorder[k], pollorder[0]
	}
}

// mcQReady reports whether dequeue would return a waiter.
func mcQReady(q *waitq) bool {
	for s := q.first; s != nil; s = s.next {
		if s.isSelect && s.g.selectDone.Load() != 0 {
			continue
		}
		return true
	}
	return false
}

func mcRand() uint64 {
	mc.rng += 0x9E3779B97F4A7C15
	z := mc.rng
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// ---- API for the patched standard library ----

// MCAtomic is called by the methods of sync/atomic types.
//
//go:nosplit
func MCAtomic(p unsafe.Pointer, write uint8) {
	if mc.on {
		mcAtomic1(uintptr(p), write)
	}
}

//go:noinline
func mcAtomic1(p uintptr, write uint8) {
	gp := getg()
	if gp.bubble == nil || gp.bubble != mc.bubble || gp.m.curg != gp {
		return
	}
	mcPoint(gp, mcFP(gp, getfp()), p, write, false)
}

// MCSync is called at the entry of the operations of package sync and context.
//
//go:noinline
func MCSync(p unsafe.Pointer, write uint8) {
	if gp := mcCur(); gp != nil {
		mcPoint(gp, mcFP(gp, getfp()), uintptr(p), write, true)
	}
}

// MCTouch records an access without a scheduling point.
func MCTouch(p unsafe.Pointer, write uint8) {
	if mcCur() != nil {
		mcRecord(uintptr(p), write)
	}
}

// MCNoStop enters (+1) or leaves (-1) a region without scheduling points.
func MCNoStop(d int32) {
	if gp := mcCur(); gp != nil {
		gp.mcnostop += d
	}
}

// MCEpoch identifies the execution (0: none in progress).
func MCEpoch() uint32 {
	if mcCur() != nil {
		return mc.epoch
	}
	return 0
}

// ---- API for the harness ----

// MCPoint is an explicit scheduling point, on a harness object (0: none).
func MCPoint(obj uintptr, write uint8) {
	if gp := mcCur(); gp != nil {
		if gp.mcnostop == 0 && mc.quiet == 0 {
			mcStop(gp)
		}
		mcRecord(obj, write)
	}
}

// MCChoose makes a data choice in the harness.
func MCChoose(n int) int {
	if mcCur() == nil {
		return 0
	}
	return mcChoose(n, 2)
}

// MCQuiet enters or leaves a globally quiet (non-branching) region.
func MCQuiet(d int32) {
	if mcCur() != nil {
		mc.quiet += d
	}
}

// MCEv logs a harness event.
func MCEv(code int32, a, b int64) {
	gp := mcCur()
	if gp == nil {
		return
	}
	if mc.nev < mcMaxEv {
		mc.ev[mc.nev] = MCEvent{G: int32(gp.mcid), Code: code, A: a, B: b, T: mc.bubble.now - mcBaseTime, Step: int32(mc.nlog)}
		mc.nev++
		// Logging counts as a step, and a goroutine that logs for ever without
		// ever getting to a scheduling point does not come to rest either.
		mc.steps++
	} else {
		mcAbortMsg("too many events", MCEndSteps)
	}
}

// MCEvents returns the events logged so far in this execution.
func MCEvents() []MCEvent { return mc.ev[:mc.nev] }

// MCCtr adds d to a counter that lives outside the instrumented heap, and
// returns the new value.
func MCCtr(i int, d int64) int64 {
	mc.ctr[i] += d
	return mc.ctr[i]
}

// MCSetCtr sets a counter.
func MCSetCtr(i int, v int64) { mc.ctr[i] = v }

// MCSteps returns the number of choices logged so far.
func MCSteps() int { return mc.nlog }

// MCNow is the virtual time since the start of the execution.
func MCNow() int64 {
	if mc.bubble == nil {
		return 0
	}
	return mc.bubble.now - mcBaseTime
}

// MCG is the id of the calling managed goroutine.
func MCG() int {
	if gp := mcCur(); gp != nil {
		return int(gp.mcid)
	}
	return -1
}

// MCFail ends the execution with a message; called on a managed goroutine.
func MCFail(s string) {
	if mcCur() != nil {
		mcAbortMsg(s, MCEndStop)
	}
}

// MCIsManaged reports whether the caller runs inside an execution.
func MCIsManaged() bool { return mcCur() != nil }

// MCConfig configures MCRun.
type MCConfig struct {
	Prefix   []uint8
	MaxSteps int
	Track    bool
	Clock    bool
	NCPU     int
	SleepAt  int // -1: none
	Sleep    uint64
	SleepSet [64][]MCAccess
	Know     [64]uint32
}

// MCResult describes a finished execution. The slices are valid until the
// next call of MCRun.
type MCResult struct {
	End       int
	Steps     int
	Log       []MCEntry
	Acc       []MCAccess
	Events    []MCEvent
	Diverged  int
	Blocked   int
	Live      uint64
	LivePend  int // live goroutines without an id
	N         int
	EndG      int
	PanicVal  any
	PanicPCs  []uintptr
	Msg       string
	Lost      int
	NObj      uint32
	VTime     int64
	FirstTick int64
}

// MCRun executes f and every goroutine it starts under the controlled
// scheduler, until nothing can run any more.
func MCRun(f func(), cfg *MCConfig) MCResult {
	gp := getg()
	if gp.bubble != nil || mc.on {
		panic("mc: nested MCRun")
	}
	b := &synctestBubble{id: bubbleGen.Add(1), total: 1, running: 1, root: gp, active: 1 << 20}
	b.now = mcBaseTime
	lockInit(&b.mu, lockRankSynctest)
	lockInit(&b.timers.mu, lockRankTimers)
	mc.bubble = b
	mc.driver.set(gp)
	mc.token = 0
	mc.forced = mcNone
	mc.runq = 0
	mc.live = 0
	mc.npend, mc.ovfLo, mc.ovfHi = 0, 0, 0
	mc.n = 0
	mc.last = 0
	mc.run = 0
	mc.low = 0
	mc.quiet = 0
	mc.end = 0
	mc.steps = 0
	mc.nlog = 0
	mc.nacc = 0
	mc.nev = 0
	mc.div = -1
	mc.blocked = -1
	mc.lost = 0
	mc.rng = 42
	mc.nobj = 0
	mc.epoch++
	mc.track = cfg.Track
	mc.clockOn = cfg.Clock
	mc.ncpu = int32(cfg.NCPU)
	mc.maxSteps = cfg.MaxSteps
	mc.panicVal = nil
	mc.panicN = 0
	mc.msgN = 0
	mc.endG = -1
	mc.firstTick = 0
	mc.npre = copy(mc.pre[:], cfg.Prefix)
	for i := range mc.ctr {
		mc.ctr[i] = 0
	}
	mc.sleepAt = cfg.SleepAt
	mc.sleep = 0
	if cfg.SleepAt >= 0 {
		mc.sleep = cfg.Sleep
		n := 0
		for i := 0; i < mcMaxG; i++ {
			if cfg.Sleep&(1<<uint(i)) == 0 {
				continue
			}
			mc.sleepKnow[i] = cfg.Know[i]
			mc.sleepLo[i] = uint32(n)
			n += copy(mc.sleepAcc[n:], cfg.SleepSet[i])
			mc.sleepHi[i] = uint32(n)
		}
	}
	pc := sys.GetCallerPC()
	systemstack(func() {
		fv := *(**funcval)(unsafe.Pointer(&f))
		gp.bubble = b
		newg := newproc1(fv, gp, pc, false, waitReasonZero)
		gp.bubble = nil
		mcNew(newg)
	})
	gopark(mcStart_c, nil, waitReasonForceGCIdle, traceBlockGeneric, 1)
	if raceenabled {
		raceacquireg(gp, b.raceaddr())
	}
	r := MCResult{
		End: int(mc.end), Steps: mc.steps, Diverged: mc.div, Blocked: mc.blocked, Live: mc.live, LivePend: mc.npend, N: mc.n,
		EndG: mc.endG, PanicVal: mc.panicVal, PanicPCs: mc.panicPCs[:mc.panicN], Msg: string(mc.msg[:mc.msgN]), Lost: mc.lost,
		NObj: mc.nobj, VTime: b.now - mcBaseTime, FirstTick: mc.firstTick,
	}
	nl := mc.nlog
	if nl > mcMaxLog {
		nl = mcMaxLog
	}
	r.Log = mc.log[:nl]
	r.Acc = mc.acc[:mc.nacc]
	r.Events = mc.ev[:mc.nev]
	mc.ncpu = 0
	return r
}

func mcStart_c(gp *g, _ unsafe.Pointer) bool {
	mc.on = true
	return true
}

// MCLiveStacks returns, for each goroutine left at the end of the execution,
// its id, its wait reason and the pc of its frames.
func MCLiveStacks(f func(id int, reason string, started bool, pcs []uintptr)) {
	for id := 0; id < mc.n; id++ {
		if mc.live&(1<<uint(id)) == 0 {
			continue
		}
		gp := mc.gs[id].ptr()
		if gp == nil {
			continue
		}
		n := 0
		systemstack(func() {
			n = gcallers(gp, 0, mc.livePCs[:])
		})
		f(id, gp.waitreason.String(), true, mc.livePCs[:n])
	}
}

// MCHeapLive is the number of bytes allocated since the last collection.
func MCHeapLive() uint64 { return gcController.heapLive.Load() }
