#!/usr/bin/env python3
"""Generates the patched copies of Go standard library files that implement the
controlled scheduler, and returns the overlay map. Every edit is anchored on
text that must occur exactly the given number of times."""
import os, re, subprocess, sys

GOROOT = os.environ.get("MC_GOROOT", "/opt/veriftools/go1.27.3")

class Patch:
    def __init__(self, rel):
        self.rel = rel
        self.path = os.path.join(GOROOT, "src", rel)
        self.text = open(self.path).read()
    def sub(self, old, new, n=1):
        c = self.text.count(old)
        if c != n:
            raise SystemExit(f"overlay: {self.rel}: anchor occurs {c} times, expected {n}: {old!r}")
        self.text = self.text.replace(old, new)
        return self
    def resub(self, pat, new, n):
        t, c = re.subn(pat, new, self.text, flags=re.M)
        if c != n:
            raise SystemExit(f"overlay: {self.rel}: pattern matched {c} times, expected {n}: {pat!r}")
        self.text = t
        return self

def patches():
    out = []
    def P(rel):
        p = Patch(rel); out.append(p); return p

    # --- runtime ---
    # Timers of the same instant fire in the order of the heap, before anything else
    # runs: what they wake up is then ordered by the explorer.
    P("runtime/time.go").sub("			t.rand = cheaprand()", "			t.rand = 0")
    P("runtime/runtime2.go").sub(
        "\tsecret          int32 // current nesting of runtime/secret.Do calls.",
        "\tsecret          int32 // current nesting of runtime/secret.Do calls.\n\tmcid            uint8 // id in the controlled execution\n\tmcnostop        int32 // >0: no scheduling points")
    p = P("runtime/proc.go")
    p.sub("""	runqput(mp.p.ptr(), gp, next)
	wakep()
	releasem(mp)
}
""", """	if mcManaged(gp) {
		mcReady(gp)
		releasem(mp)
		return
	}
	runqput(mp.p.ptr(), gp, next)
	wakep()
	releasem(mp)
}
""")
    p.sub("""		newg := newproc1(fn, gp, pc, false, waitReasonZero)

		pp := getg().m.p.ptr()
""", """		newg := newproc1(fn, gp, pc, false, waitReasonZero)
		if mcManaged(newg) {
			mcNew(newg)
			return
		}

		pp := getg().m.p.ptr()
""")
    # park_m: the g has parked for good; the token becomes free.
    p.sub("""	if bubble != nil {
		bubble.decActive()
	}

	schedule()
}
""", """	if bubble != nil {
		bubble.decActive()
	}
	mcRelease(gp)

	schedule()
}
""")
    p.sub("""	dropg()
	if preempted && sched.gcwaiting.Load() {
""", """	dropg()
	if mcManaged(gp) && mc.token.ptr() == gp {
		if preempted {
			runqput(pp, gp, true)
		} else {
			mc.runq |= 1 << gp.mcid
			mc.token = 0
		}
		schedule()
	}
	if preempted && sched.gcwaiting.Load() {
""")
    p.sub("""func goyield() {
	checkTimeouts()
""", """func goyield() {
	if mcCur() != nil {
		return
	}
	checkTimeouts()
""")
    p.sub("""	casgstatus(gp, _Grunning, _Gdead)
	gcController.addScannableStack(pp, -int64(gp.stack.hi-gp.stack.lo))
""", """	if mcManaged(gp) {
		mcExit(gp)
	}
	casgstatus(gp, _Grunning, _Gdead)
	gcController.addScannableStack(pp, -int64(gp.stack.hi-gp.stack.lo))
""")
    p.sub("""	if pp.runSafePointFn != 0 {
		runSafePointFn()
	}

	// now and pollUntil are saved for work stealing later,
""", """	if pp.runSafePointFn != 0 {
		runSafePointFn()
	}
	if mc.on {
		if gp := mcPick(); gp != nil {
			return gp, false, false
		}
	}

	// now and pollUntil are saved for work stealing later,
""")
    p.sub("""func os_beforeExit(exitCode int) {
""", """func os_beforeExit(exitCode int) {
	if mcCur() != nil {
		mcAbortMsg("os.Exit called", MCEndExit)
	}
""")
    p.sub("""	if gp.bubble != nil {
		systemstack(func() {
			gp.bubble.changegstatus(gp, oldval, newval)
		})
	}
""", """	if gp.bubble != nil && (raceenabled || gp.bubble != mc.bubble) {
		systemstack(func() {
			gp.bubble.changegstatus(gp, oldval, newval)
		})
	}
""")
    p = P("runtime/panic.go")
    p.sub("""	// ran out of deferred calls - old-school panic now
	// Because it is unsafe to call arbitrary user code after freezing
""", """	if mcCur() != nil {
		mcAbortPanic(p.arg, MCEndPanic)
	}
	// ran out of deferred calls - old-school panic now
	// Because it is unsafe to call arbitrary user code after freezing
""")
    p.resub(r"^(func (?:maps_fatal|internal_sync_fatal|sync_fatal)\(s string\) \{)$", lambda m: m.group(1) + "\n\tmcFatal(s)", 3)
    p = P("runtime/chan.go")
    p.sub("""func chansend1(c *hchan, elem unsafe.Pointer) {
""", """func chansend1(c *hchan, elem unsafe.Pointer) {
	mcChan(unsafe.Pointer(c))
""")
    p.sub("""func closechan(c *hchan) {
""", """func closechan(c *hchan) {
	mcChan(unsafe.Pointer(c))
""")
    p.sub("""func chanrecv1(c *hchan, elem unsafe.Pointer) {
""", """func chanrecv1(c *hchan, elem unsafe.Pointer) {
	mcChan(unsafe.Pointer(c))
""")
    p.sub("""func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {
""", """func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {
	mcChan(unsafe.Pointer(c))
""")
    p.sub("""func selectnbsend(c *hchan, elem unsafe.Pointer) (selected bool) {
""", """func selectnbsend(c *hchan, elem unsafe.Pointer) (selected bool) {
	mcChan(unsafe.Pointer(c))
""")
    p.sub("""func selectnbrecv(elem unsafe.Pointer, c *hchan) (selected, received bool) {
""", """func selectnbrecv(elem unsafe.Pointer, c *hchan) (selected, received bool) {
	mcChan(unsafe.Pointer(c))
""")
    p.sub("""func reflect_chansend(c *hchan, elem unsafe.Pointer, nb bool) (selected bool) {
""", """func reflect_chansend(c *hchan, elem unsafe.Pointer, nb bool) (selected bool) {
	mcChan(unsafe.Pointer(c))
""")
    p.sub("""func reflect_chanrecv(c *hchan, nb bool, elem unsafe.Pointer) (selected bool, received bool) {
""", """func reflect_chanrecv(c *hchan, nb bool, elem unsafe.Pointer) (selected bool, received bool) {
	mcChan(unsafe.Pointer(c))
""")
    p = P("runtime/select.go")
    p.sub("""	scases := cas1[:ncases:ncases]
	pollorder := order1[:ncases:ncases]
	lockorder := order1[ncases:][:ncases:ncases]
	// NOTE: pollorder""", """	scases := cas1[:ncases:ncases]
	if mc.on {
		mcSelectPoint(scases)
	}
	pollorder := order1[:ncases:ncases]
	lockorder := order1[ncases:][:ncases:ncases]
	// NOTE: pollorder""")
    p.sub("""		j := cheaprandn(uint32(norder + 1))
		pollorder[norder]""", """		j := cheaprandn(uint32(norder + 1))
		if mc.on && mcCur() != nil {
			j = uint32(norder)
		}
		pollorder[norder]""")
    p.sub("""	// pass 1 - look for something already waiting
	var casi int
""", """	if mc.on {
		mcSelectOrder(scases, pollorder, nsends)
	}
	// pass 1 - look for something already waiting
	var casi int
""")
    p.sub("""	gp.activeStackChans = false

	sellock(scases, lockorder)

	gp.selectDone.Store(0)
""", """	gp.activeStackChans = false
	if mc.on && mcCur() != nil {
		mcSelectTouch(scases)
	}

	sellock(scases, lockorder)

	gp.selectDone.Store(0)
""")
    p = P("runtime/sema.go")
    p.sub("""func internal_sync_nanotime() int64 {
	return nanotime()
}""", """func internal_sync_nanotime() int64 {
	if gp := mcCur(); gp != nil {
		return mc.bubble.now
	}
	return nanotime()
}""")
    p.sub("""	semacquire1(addr, lifo, semaBlockProfile|semaMutexProfile, skipframes, waitReasonSyncMutexLock)
}""", """	semacquire1(addr, lifo, semaBlockProfile|semaMutexProfile, skipframes, waitReasonSyncMutexLock)
	if mc.on && mcCur() != nil {
		mcRecord(uintptr(unsafe.Pointer(addr))-4, MCWrite)
	}
}""")
    P("runtime/synctest.go").sub("""func synctest_isInBubble() bool {
	return getg().bubble != nil
}""", """func synctest_isInBubble() bool {
	return getg().bubble != nil && getg().bubble != mc.bubble
}""")
    P("runtime/rand.go").sub("""	mp := getg().m
	c := &mp.chacha8
	for {
		// Note: c.Next is marked nosplit,""", """	if mc.on && mcCur() != nil {
		return mcRand()
	}
	mp := getg().m
	c := &mp.chacha8
	for {
		// Note: c.Next is marked nosplit,""")
    P("runtime/debug.go").sub("""func NumCPU() int {
	return int(numCPUStartup)""", """func NumCPU() int {
	if mc.on && mc.ncpu != 0 && mcCur() != nil {
		return int(mc.ncpu)
	}
	return int(numCPUStartup)""")

    # --- sync/atomic ---
    p = P("sync/atomic/type.go")
    p.sub('import "unsafe"', 'import (\n\t"runtime"\n\t"unsafe"\n)')
    A = lambda w: f" runtime.MCAtomic(unsafe.Pointer(x), {w});"
    p.resub(r"^(func \(x \*[A-Za-z0-9\[\]]+\) Load\(\) [^{]*\{)", lambda m: m.group(1) + A(0), 7)
    p.resub(r"^(func \(x \*[A-Za-z0-9\[\]]+\) (?:Store|Swap|Add|And|Or|CompareAndSwap)\([^{]*\{)", lambda m: m.group(1) + A(1), 7*3 + 5*3)
    p = P("sync/atomic/value.go")
    p.sub('import (\n\t"unsafe"\n)', 'import (\n\t"runtime"\n\t"unsafe"\n)')
    p.resub(r"^(func \(v \*Value\) Load\([^{]*\{)", lambda m: m.group(1) + " runtime.MCAtomic(unsafe.Pointer(v), 0)", 1)
    p.resub(r"^(func \(v \*Value\) (?:Store|Swap|CompareAndSwap)\([^{]*\{)", lambda m: m.group(1) + " runtime.MCAtomic(unsafe.Pointer(v), 1)", 3)

    # --- sync ---
    p = P("sync/mutex.go")
    p.sub('import (\n\tisync "internal/sync"\n)', 'import (\n\tisync "internal/sync"\n\t"runtime"\n\t"unsafe"\n)')
    p.sub("func (m *Mutex) Lock() {\n", "//\n//go:noinline\nfunc (m *Mutex) Lock() {\n\truntime.MCSync(unsafe.Pointer(m), 1)\n")
    p.sub("func (m *Mutex) TryLock() bool {\n", "//\n//go:noinline\nfunc (m *Mutex) TryLock() bool {\n\truntime.MCSync(unsafe.Pointer(m), 1)\n")
    p.sub("func (m *Mutex) Unlock() {\n", "//\n//go:noinline\nfunc (m *Mutex) Unlock() {\n\truntime.MCTouch(unsafe.Pointer(m), 1)\n")
    p = P("sync/rwmutex.go")
    p.sub('\t"internal/race"\n', '\t"internal/race"\n\t"runtime"\n')
    for fn, w, pt in [("RLock()", 1, 1), ("TryRLock() bool", 1, 1), ("RUnlock()", 1, 0), ("Lock()", 1, 1), ("TryLock() bool", 1, 1), ("Unlock()", 1, 0)]:
        call = "MCSync" if pt else "MCTouch"
        p.sub(f"func (rw *RWMutex) {fn} {{\n", f"//\n//go:noinline\nfunc (rw *RWMutex) {fn} {{\n\truntime.{call}(unsafe.Pointer(rw), {w})\n\truntime.MCNoStop(1)\n\tdefer runtime.MCNoStop(-1)\n")
    p = P("sync/waitgroup.go")
    p.sub('\t"internal/synctest"\n', '\t"internal/synctest"\n\t"runtime"\n')
    p.sub("func (wg *WaitGroup) Add(delta int) {\n", "//\n//go:noinline\nfunc (wg *WaitGroup) Add(delta int) {\n\truntime.MCSync(unsafe.Pointer(wg), 1)\n")
    p.sub("func (wg *WaitGroup) Wait() {\n", "//\n//go:noinline\nfunc (wg *WaitGroup) Wait() {\n\truntime.MCSync(unsafe.Pointer(wg), 1)\n")
    p = P("sync/cond.go")
    p.sub('import (\n', 'import (\n\t"runtime"\n')
    p.sub("func (c *Cond) Wait() {\n", "//\n//go:noinline\nfunc (c *Cond) Wait() {\n\truntime.MCTouch(unsafe.Pointer(c), 1)\n")
    for fn in ("Signal", "Broadcast"):
        p.sub(f"func (c *Cond) {fn}() {{\n", f"//\n//go:noinline\nfunc (c *Cond) {fn}() {{\n\truntime.MCSync(unsafe.Pointer(c), 1)\n")
    p = P("sync/map.go")
    p.sub('import (\n', 'import (\n\t"runtime"\n\t"unsafe"\n')
    p.resub(r"^(func \(m \*Map\) [A-Z][^{]*\{)\n", lambda m: "//\n//go:noinline\n" + m.group(1) + "\n\truntime.MCSync(unsafe.Pointer(m), 1)\n", 10)

    # --- context ---
    p = P("context/context.go")
    p.sub('\t"internal/reflectlite"\n', '\t"internal/reflectlite"\n\t"runtime"\n\t"unsafe"\n')
    p.sub("func (c *cancelCtx) Err() error {\n", "//go:noinline\nfunc (c *cancelCtx) Err() error {\n\truntime.MCSync(unsafe.Pointer(c), 0)\n")
    p.sub("func (c *cancelCtx) cancel(removeFromParent bool, err, cause error) {\n",
          "//\n//go:noinline\nfunc (c *cancelCtx) cancel(removeFromParent bool, err, cause error) {\n\truntime.MCSync(unsafe.Pointer(c), 1)\n\truntime.MCNoStop(1)\n\tdefer runtime.MCNoStop(-1)\n")
    p.sub("func (c *timerCtx) cancel(removeFromParent bool, err, cause error) {\n",
          "//go:noinline\nfunc (c *timerCtx) cancel(removeFromParent bool, err, cause error) {\n\truntime.MCSync(unsafe.Pointer(&c.cancelCtx), 1)\n\truntime.MCNoStop(1)\n\tdefer runtime.MCNoStop(-1)\n")
    return out

POOL = r'''
package sync

import (
	"internal/race"
	"runtime"
	"unsafe"
)

// A Pool is a set of temporary objects (controlled-execution version: a LIFO
// free list that is emptied between executions).
type Pool struct {
	noCopy noCopy

	epoch uint32
	free  []any

	New func() any
}

var poolRaceHash [128]uint64

func poolRaceAddr(x any) unsafe.Pointer {
	ptr := uintptr((*[2]unsafe.Pointer)(unsafe.Pointer(&x))[1])
	h := uint32((uint64(uint32(ptr)) * 0x85ebca6b) >> 16)
	return unsafe.Pointer(&poolRaceHash[h%uint32(len(poolRaceHash))])
}

// Put adds x to the pool.
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	runtime.MCTouch(unsafe.Pointer(p), 1)
	if race.Enabled {
		race.ReleaseMerge(poolRaceAddr(x))
		race.Disable()
	}
	e := runtime.MCEpoch()
	runtime_procPin()
	if p.epoch != e {
		p.free = nil
		p.epoch = e
	}
	if e != 0 && len(p.free) < cap(p.free) {
		p.free = append(p.free, x)
		runtime_procUnpin()
	} else if e != 0 {
		runtime_procUnpin()
		n := make([]any, len(p.free), 2*len(p.free)+8)
		runtime_procPin()
		copy(n, p.free)
		p.free = append(n, x)
		runtime_procUnpin()
	} else {
		runtime_procUnpin()
	}
	if race.Enabled {
		race.Enable()
	}
}

// Get selects an item from the Pool, removes it, and returns it to the caller.
func (p *Pool) Get() any {
	runtime.MCTouch(unsafe.Pointer(p), 1)
	if race.Enabled {
		race.Disable()
	}
	e := runtime.MCEpoch()
	var x any
	runtime_procPin()
	if p.epoch == e {
		if n := len(p.free); n > 0 {
			x = p.free[n-1]
			p.free[n-1] = nil
			p.free = p.free[:n-1]
		}
	}
	runtime_procUnpin()
	if race.Enabled {
		race.Enable()
		if x != nil {
			race.Acquire(poolRaceAddr(x))
		}
	}
	if x == nil && p.New != nil {
		x = p.New()
	}
	return x
}

func poolCleanup() {}

func init() { runtime_registerPoolCleanup(poolCleanup) }

func runtime_registerPoolCleanup(cleanup func())
func runtime_procPin() int
func runtime_procUnpin()
'''

def generate(outdir):
    """Writes the patched files below outdir; returns {original: patched}."""
    m = {}
    os.makedirs(outdir, exist_ok=True)
    def put(rel, text):
        dst = os.path.join(outdir, rel.replace("/", "__"))
        open(dst, "w").write(text)
        m[os.path.join(GOROOT, "src", rel)] = dst
    for p in patches():
        put(p.rel, p.text)
    here = os.path.dirname(os.path.abspath(__file__))
    put("runtime/mc.go", open(os.path.join(here, "mc.go")).read())
    put("sync/pool.go", POOL.lstrip())
    return m

if __name__ == "__main__":
    import json
    d = sys.argv[1]
    print(json.dumps({"Replace": generate(d)}, indent=1))
