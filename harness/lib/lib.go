// Package main: explorer shared by all check binaries. It enumerates the
// executions of a scenario under the controlled scheduler (runtime.MCRun).
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"math/bits"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Scenario is one closed program over the code under test.
type Scenario struct {
	Name string
	// Body runs as the first managed goroutine.
	Body func(x *X)
	// Check runs after the execution has come to rest. It may be nil.
	Check func(x *X) error
	// AllowLive is the number of goroutines that may remain (default 0).
	AllowLive int
	// Props are the properties that the scenario decides.
	Props []string
	// QK and TK are the deviation bounds of the quick and thorough tier.
	QK, TK int
	// DPOR: 1 in the quick and the thorough tier, 2 only in the thorough tier.
	DPOR int
	// Race: also explored in the race-detector build.
	Race bool
	// RK is the deviation bound in the race build (default min(QK,2)).
	RK int
	// FK is the deviation bound in the statement-level build: 0 means 1, a
	// negative number that the scenario is not explored there.
	FK int
	// DK and DFK are the bounds on delays in the quick tier, in the normal and in the
	// statement-level build: 0 means 2 if QK > 0 and 1 if not, and 1 if FK > 0; a
	// negative number none.
	DK, DFK int
	// Clock lets timers fire early (in deviation mode).
	Clock bool
	// NCPU is what runtime.NumCPU reports (default 2).
	NCPU int
	// MaxSteps bounds one execution (default 20000).
	MaxSteps int
	// ExpectEnd is the accepted end states (default: quiet).
	AllowPanic func(x *X) bool
	// NoOutcome disables outcome hashing.
	Outcome func(x *X) string
	// MinOutcomes is the number of distinct outcomes that the exploration must
	// produce to count as non-trivial (vacuity guard; reported only).
	Setup func()
	// LogOut receives package log output.
	CaptureLog bool
	// ZeroOK: executions in which nothing is logged are fine.
}

// X is the view of one execution.
type X struct {
	Res  *runtime.MCResult
	Ev   []runtime.MCEvent
	err  string
	Done bool
	// N is scratch for scenarios (driver side).
	Data any
	logs []logLine
}

type logLine struct {
	t int64
	s string
}

// Ev logs an event (race free, no scheduling point).
func Ev(code int, a, b int) { runtime.MCEv(int32(code), int64(a), int64(b)) }

// P is a scheduling point.
func P() { runtime.MCPoint(0, 0) }

// Pt is a scheduling point with an access to harness object i: all points on
// the same object are ordered by the exploration.
func Pt(i int) { runtime.MCPoint(uintptr(1+i)<<3, 1) }

// Pr is a read access.
func Pr(i int) { runtime.MCPoint(uintptr(1+i)<<3, 0) }

// EvP logs an event at a scheduling point on the shared harness object 0, so
// that every order of such events is explored.
func EvP(code int, a, b int) {
	runtime.MCPoint(8, 1)
	runtime.MCEv(int32(code), int64(a), int64(b))
}

// Fail ends the execution with a violation.
func Fail(format string, a ...any) {
	runtime.MCFail(fmt.Sprintf(format, a...))
}

// Ctr adds to counter i and returns the new value.
func Ctr(i, d int) int { return int(runtime.MCCtr(i, int64(d))) }

// Choose picks one of n inputs; all are explored.
func Choose(n int) int { return runtime.MCChoose(n) }

// Quiet runs f without branching.
func Quiet(f func()) {
	runtime.MCQuiet(1)
	f()
	runtime.MCQuiet(-1)
}

// Count returns how many events with the code were logged.
func (x *X) Count(code int) int {
	n := 0
	for i := range x.Ev {
		if int(x.Ev[i].Code) == code {
			n++
		}
	}
	return n
}

// Select returns the events with the given code, in order.
func (x *X) Select(codes ...int) []runtime.MCEvent {
	var out []runtime.MCEvent
	for i := range x.Ev {
		for _, c := range codes {
			if int(x.Ev[i].Code) == c {
				out = append(out, x.Ev[i])
			}
		}
	}
	return out
}

var scenarios []*Scenario

// Reg registers a scenario.
func Reg(s *Scenario) {
	for _, o := range scenarios {
		if o.Name == s.Name {
			panic("duplicate scenario " + s.Name)
		}
	}
	if slowDPOR[s.Name] && s.DPOR == 1 {
		s.DPOR = 2
	}
	if s.FK == 0 {
		s.FK = 1
		if s.QK < 1 || slowFine.MatchString(s.Name) {
			s.FK = -1
		}
	}
	if s.DK == 0 {
		s.DK = 2
		if s.QK < 1 {
			s.DK = 1
		}
		if manyInputs.MatchString(s.Name) {
			s.DK = -1
		}
	}
	if s.DFK == 0 {
		s.DFK = min(s.FK, 1)
	}
	scenarios = append(scenarios, s)
}

// slowFine are the scenarios with so many statements or inputs that even one
// departure at statement level takes long.
var slowFine = regexp.MustCompile(`^(delay-|ord-sleep-n[34]|stats-(n2s1g2|n3)|stages-s2pp2f|stages-s3|p06-seq|p06-names)`)

// manyInputs are the scenarios with so many inputs that not every delay of each
// is explored.
var manyInputs = regexp.MustCompile(`^(delay-(long|slow|slow-ord|mixed|fast|days|nanos)|stages-s3pp3f)$`)

// slowDPOR are the scenarios of families whose unbounded exploration takes too
// long for the quick tier.
var slowDPOR = map[string]bool{
	"a01-[1 1 1]":           true,
	"p03-pooled2-nb1w0":     true,
	"p06-par-g3o1":          true,
	"w02-n2-pooled2":        true,
	"w03-fail-n2-pooled1nb": true,
	"w03-fail-n2-pooled2":   true,
	"w03-fail-n2-lim2":      true,
}

// ---- running one execution ----

type explorer struct {
	s        *Scenario
	cfg      runtime.MCConfig
	x        X
	execs    int64
	trans    int64
	nodes    int64
	maxDepth int
	maxG     int
	outcomes map[uint64]int64
	samples  []string
	deadline time.Time
	timedOut bool
	viol     *Violation
	race     bool
	races    int
	k        int
	done     bool
	steplim  int64
	internal string
	lastGC   uint64
	blocked  int64
	evHash   bool
	maxExecs int64
	dpor     bool
	onlyRace bool
	delay    bool
}

// Violation is a found counterexample.
type Violation struct {
	Scenario string   `json:"scenario"`
	Msg      string   `json:"msg"`
	Prefix   []int    `json:"prefix"`
	Events   []string `json:"events"`
	Stacks   []string `json:"stacks"`
	Race     bool     `json:"-"`
	Clock    bool     `json:"clock"`
	Devs     int      `json:"deviations"`
	Repro    int      `json:"reproduced"`
}

var capture struct {
	x *X
}

type capWriter struct{}

func (capWriter) Write(b []byte) (int, error) {
	if capture.x != nil && runtime.MCIsManaged() {
		capture.x.logs = append(capture.x.logs, logLine{runtime.MCNow(), string(b)})
	}
	return len(b), nil
}

func (e *explorer) run(prefix []uint8, track bool) *runtime.MCResult {
	s := e.s
	e.cfg.Prefix = prefix
	e.cfg.Track = track
	e.cfg.MaxSteps = s.MaxSteps
	if e.cfg.MaxSteps == 0 {
		e.cfg.MaxSteps = 20000
	}
	e.cfg.Clock = s.Clock
	e.cfg.NCPU = s.NCPU
	if e.cfg.NCPU == 0 {
		e.cfg.NCPU = 2
	}
	e.x = X{}
	x := &e.x
	if s.CaptureLog {
		capture.x = x
	}
	if s.Setup != nil {
		s.Setup()
	}
	res := runtime.MCRun(func() {
		s.Body(x)
		x.Done = true
	}, &e.cfg)
	capture.x = nil
	x.Res = &res
	x.Ev = res.Events
	e.execs++
	e.trans += int64(len(res.Log))
	if nn := len(res.Log) - len(prefix); nn > 0 {
		e.nodes += int64(nn)
	}
	if len(res.Log) > e.maxDepth {
		e.maxDepth = len(res.Log)
	}
	if res.N > e.maxG {
		e.maxG = res.N
	}
	if e.execs&63 == 0 {
		if runtime.MCHeapLive() > 192<<20 {
			runtime.GC()
		}
	}
	return &res
}

// verdict returns "" if the execution satisfies the scenario.
func (e *explorer) verdict(res *runtime.MCResult) string {
	if e.race && res.Diverged < 0 {
		if n := raceErrors(); n > e.races {
			e.races = n
			return "data race reported by the race detector"
		}
		if e.onlyRace {
			return ""
		}
	}
	return e.judge(res)
}

func (e *explorer) judge(res *runtime.MCResult) string {
	x := &e.x
	s := e.s
	if res.Diverged >= 0 {
		return ""
	}
	switch res.End {
	case runtime.MCEndQuiet:
	case runtime.MCEndPanic:
		if s.AllowPanic != nil && s.AllowPanic(x) {
			break
		}
		return "panic: " + panicString(res.PanicVal)
	case runtime.MCEndFatal:
		return "fatal error: " + res.Msg
	case runtime.MCEndExit:
		return "the process was terminated: " + res.Msg
	case runtime.MCEndStop:
		return res.Msg
	case runtime.MCEndSteps:
		if e.dpor || e.delay {
			// The schedules of these modes need not be fair.
			e.steplim++
			return ""
		}
		return fmt.Sprintf("livelock: the execution does not come to rest within %d steps", len(res.Log))
	default:
		e.internal = fmt.Sprintf("unexpected end state %d", res.End)
		return ""
	}
	if res.End == runtime.MCEndQuiet {
		if n := bits.OnesCount64(res.Live) + res.LivePend; n > s.AllowLive {
			if !x.Done {
				return fmt.Sprintf("deadlock: the main goroutine and %d others can never proceed", n-1)
			}
			return fmt.Sprintf("%d goroutine(s) never terminate", n)
		}
		if !x.Done {
			return "deadlock: the main goroutine can never proceed"
		}
	}
	if s.Check != nil {
		if err := s.Check(x); err != nil {
			return err.Error()
		}
	}
	return ""
}

func panicString(v any) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "(panic value cannot be printed)"
		}
	}()
	return fmt.Sprint(v)
}

func (e *explorer) liveStacks(res *runtime.MCResult) []string {
	var out []string
	sym := func(pcs []uintptr) string {
		var b strings.Builder
		fr := runtime.CallersFrames(pcs)
		for {
			f, more := fr.Next()
			if f.Function != "" && !strings.HasPrefix(f.Function, "runtime.") {
				fmt.Fprintf(&b, " < %s:%d", f.Function, f.Line)
			}
			if !more {
				break
			}
		}
		return b.String()
	}
	if len(res.PanicPCs) > 0 {
		out = append(out, fmt.Sprintf("g%d at the end:%s", res.EndG, sym(res.PanicPCs)))
	}
	runtime.MCLiveStacks(func(id int, reason string, started bool, pcs []uintptr) {
		out = append(out, fmt.Sprintf("g%d [%s]%s", id, reason, sym(pcs)))
	})
	return out
}

func chosen(log []runtime.MCEntry) []uint8 {
	p := make([]uint8, len(log))
	for i := range log {
		p[i] = log[i].Chosen
	}
	return p
}

func (e *explorer) report(res *runtime.MCResult, msg string) {
	pre := chosen(res.Log)
	v := &Violation{Scenario: e.s.Name, Msg: msg, Race: e.race, Clock: e.s.Clock}
	for i, c := range pre {
		v.Prefix = append(v.Prefix, int(c))
		if res.Log[i].Kind == 0 && c != res.Log[i].Dflt || res.Log[i].Kind >= 1 && c != 0 {
			v.Devs++
		}
	}
	v.Stacks = e.liveStacks(res)
	for i := range e.x.Ev {
		ev := &e.x.Ev[i]
		v.Events = append(v.Events, fmt.Sprintf("step %d t=%d g%d code %d (%d,%d)", ev.Step, ev.T, ev.G, ev.Code, ev.A, ev.B))
		if i > 300 {
			break
		}
	}
	e.viol = v
}

// consider judges a finished execution; true: stop exploring.
func (e *explorer) consider(res *runtime.MCResult) bool {
	if res.Diverged >= 0 {
		e.internal = fmt.Sprintf("replay diverged at choice %d of %d", res.Diverged, len(e.cfg.Prefix))
		return true
	}
	if res.Lost > 0 {
		e.internal = "event log overflow"
		return true
	}
	if msg := e.verdict(res); msg != "" {
		e.report(res, msg)
		return true
	}
	if e.internal != "" {
		return true
	}
	h := e.hash(res)
	if len(e.outcomes) < 200000 {
		if e.outcomes[h] == 0 && len(e.samples) < 6 {
			e.samples = append(e.samples, e.sample(res))
		}
		e.outcomes[h]++
	}
	if !e.deadline.IsZero() && e.execs&15 == 0 && time.Now().After(e.deadline) {
		e.timedOut = true
		return true
	}
	if e.maxExecs > 0 && e.execs >= e.maxExecs {
		e.timedOut = true
		return true
	}
	return false
}

func (e *explorer) hash(res *runtime.MCResult) uint64 {
	h := uint64(14695981039346656037)
	mix := func(v uint64) {
		h ^= v
		h *= 1099511628211
		h ^= h >> 29
	}
	mix(uint64(res.End))
	if e.s.Outcome != nil {
		for _, c := range []byte(e.s.Outcome(&e.x)) {
			mix(uint64(c))
		}
		return h
	}
	for i := range e.x.Ev {
		ev := &e.x.Ev[i]
		mix(uint64(ev.Code))
		mix(uint64(ev.A))
		mix(uint64(ev.B))
	}
	return h
}

func (e *explorer) sample(res *runtime.MCResult) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s: %d choices, %d goroutines; schedule ", e.s.Name, len(res.Log), res.N)
	for i := range res.Log {
		if i > 60 {
			b.WriteString("...")
			break
		}
		if res.Log[i].Kind != 0 {
			fmt.Fprintf(&b, "#%d ", res.Log[i].Chosen)
		} else if res.Log[i].Chosen == 63 {
			b.WriteString("T ")
		} else {
			fmt.Fprintf(&b, "%d ", res.Log[i].Chosen)
		}
	}
	b.WriteString("; events ")
	for i := range e.x.Ev {
		if i > 24 {
			b.WriteString("...")
			break
		}
		ev := &e.x.Ev[i]
		fmt.Fprintf(&b, "%d(%d,%d) ", ev.Code, ev.A, ev.B)
	}
	return b.String()
}

// ---- deviation-bounded exploration ----

// exploreDev explores every execution with at most k departures from the
// default schedule. part/parts select a share of the first-level departures.
func (e *explorer) exploreDev(kmin, k, part, parts int) {
	e.cfg.SleepAt = -1
	e.k = kmin - 1
	for kk := kmin; kk <= k; kk++ {
		if e.devRec(nil, kk, 0, part, parts) {
			return
		}
		e.k = kk
	}
	e.done = true
}

// Codes of a prefix with a meaning of their own (see mc.go).
const (
	codeClock = 63
	codeDelay = 254
)

type alt struct {
	idx  int
	opt  uint8
	cost uint8
}

// devRec runs the execution forced by prefix and then everything with exactly
// left more departures behind it. Choices made by the harness (inputs) are free.
func (e *explorer) devRec(prefix []uint8, left, depth, part, parts int) bool {
	res := e.run(prefix, false)
	if res.Diverged >= 0 {
		e.internal = fmt.Sprintf("replay diverged at choice %d of %d", res.Diverged, len(prefix))
		return true
	}
	if left == 0 && (depth > 0 || part == 0) {
		if e.consider(res) {
			return true
		}
	}
	base := chosen(res.Log)
	if e.delay {
		for i := range res.Log {
			if res.Log[i].Flags&2 != 0 {
				base[i] = codeDelay
			}
		}
	}
	var alts []alt
	for i := len(prefix); i < len(res.Log); i++ {
		en := &res.Log[i]
		if en.Kind == 2 {
			for o := 0; o < int(en.N); o++ {
				if uint8(o) != en.Chosen {
					alts = append(alts, alt{i, uint8(o), 0})
				}
			}
			continue
		}
		if en.Flags&1 != 0 || left == 0 {
			continue
		}
		if en.Kind == 1 {
			for o := 0; o < int(en.N); o++ {
				if uint8(o) != en.Chosen {
					alts = append(alts, alt{i, uint8(o), 1})
				}
			}
			continue
		}
		m := en.Enabled &^ (1 << en.Chosen)
		if e.delay {
			// What runs by default is delayed until nothing else can run.
			if m&^(1<<codeClock) != 0 && en.Chosen != codeClock {
				alts = append(alts, alt{i, codeDelay, 1})
			}
			m &= 1 << codeClock
		}
		for m != 0 {
			o := bits.TrailingZeros64(m)
			m &= m - 1
			alts = append(alts, alt{i, uint8(o), 1})
		}
	}
	for j, a := range alts {
		if depth == 0 && parts > 1 && j%parts != part {
			continue
		}
		p2 := make([]uint8, a.idx+1)
		copy(p2, base[:a.idx])
		p2[a.idx] = a.opt
		if e.devRec(p2, left-int(a.cost), depth+1, part, parts) {
			return true
		}
	}
	return false
}

// ---- worker ----

type workerOut struct {
	Scenario string           `json:"scenario"`
	Mode     string           `json:"mode"`
	K        int              `json:"k"`
	Part     int              `json:"part"`
	Parts    int              `json:"parts"`
	Race     bool             `json:"race"`
	Execs    int64            `json:"execs"`
	Trans    int64            `json:"transitions"`
	Nodes    int64            `json:"nodes"`
	Depth    int              `json:"max_choices"`
	MaxG     int              `json:"max_goroutines"`
	Outcomes []string         `json:"outcomes"`
	NOut     int              `json:"n_outcomes"`
	Samples  []string         `json:"samples"`
	Done     bool             `json:"complete"`
	TimedOut bool             `json:"timed_out"`
	StepLim  int64            `json:"step_limited"`
	Blocked  int64            `json:"sleep_blocked"`
	KDone    int              `json:"k_done"`
	Internal string           `json:"internal"`
	Viol     *Violation       `json:"violation"`
	Secs     float64          `json:"secs"`
	Coverage map[string]int64 `json:"-"`
}

func main() {
	list := flag.Bool("list", false, "list scenarios")
	run := flag.String("run", "", "scenario")
	mode := flag.String("mode", "dev", "dev, delay or dpor")
	k := flag.Int("k", 1, "deviation bound")
	kmin := flag.Int("kmin", 0, "least number of deviations")
	onlyRace := flag.Bool("onlyrace", false, "report nothing but data races")
	part := flag.String("part", "0/1", "share of the first-level departures")
	budget := flag.Float64("budget", 0, "seconds")
	maxExecs := flag.Int64("maxexecs", 0, "executions")
	replay := flag.String("replay", "", "violation file")
	ignorePanic := flag.Bool("show", false, "print the default execution")
	flag.Parse()
	debug.SetGCPercent(-1)
	runtime.GOMAXPROCS(1)
	if os.Getenv("MC_KEEPLOG") == "" {
		log.SetOutput(capWriter{})
	}
	_ = io.Discard
	if *list {
		for _, s := range scenarios {
			b, _ := json.Marshal(map[string]any{"name": s.Name, "props": s.Props, "qk": s.QK, "tk": s.TK, "dpor": s.DPOR, "race": s.Race, "rk": s.RK, "fk": s.FK, "dk": s.DK, "dfk": s.DFK, "clock": s.Clock})
			fmt.Println(string(b))
		}
		return
	}
	find := func(n string) *Scenario {
		for _, s := range scenarios {
			if s.Name == n {
				return s
			}
		}
		fmt.Fprintf(os.Stderr, "no scenario %s\n", n)
		os.Exit(2)
		return nil
	}
	warm()
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		e := &explorer{s: find(v.Scenario), race: raceEnabled, onlyRace: *onlyRace, outcomes: map[uint64]int64{}}
		e.cfg.SleepAt = -1
		pre := make([]uint8, len(v.Prefix))
		for i, c := range v.Prefix {
			pre[i] = uint8(c)
		}
		res := e.run(pre, false)
		if res.Diverged >= 0 {
			fmt.Printf("DIVERGED at %d\n", res.Diverged)
			os.Exit(3)
		}
		msg := e.verdict(res)
		if msg == "" {
			fmt.Println("REPLAY OK: the execution satisfies the property")
			return
		}
		e.report(res, msg)
		fmt.Printf("REPLAY VIOLATION: %s\n", msg)
		for _, s := range e.viol.Events {
			fmt.Println("  ", s)
		}
		for _, s := range e.viol.Stacks {
			fmt.Println("  ", s)
		}
		os.Exit(1)
	}
	s := find(*run)
	var pi, pn int
	fmt.Sscanf(*part, "%d/%d", &pi, &pn)
	e := &explorer{s: s, race: raceEnabled, onlyRace: *onlyRace, outcomes: map[uint64]int64{}, maxExecs: *maxExecs}
	if *budget > 0 {
		e.deadline = time.Now().Add(time.Duration(*budget * float64(time.Second)))
	}
	start := time.Now()
	if *ignorePanic {
		e.cfg.SleepAt = -1
		res := e.run(nil, true)
		fmt.Println(e.sample(res))
		fmt.Println("end", res.End, "verdict", e.verdict(res), "live", bits.OnesCount64(res.Live)+res.LivePend, "entries", len(res.Log), "msg", res.Msg)
		for i := range e.x.Ev {
			fmt.Println("  ", e.x.Ev[i])
		}
		for _, l := range e.liveStacks(res) {
			fmt.Println("  ", l)
		}
		return
	}
	switch *mode {
	case "delay":
		e.delay = true
		e.exploreDev(*kmin, *k, pi, pn)
	case "dev":
		e.exploreDev(*kmin, *k, pi, pn)
	case "dpor":
		e.dpor = true
		e.exploreDPOR()
	}
	out := workerOut{Scenario: s.Name, Mode: *mode, K: *k, Part: pi, Parts: pn, Race: raceEnabled, Execs: e.execs, Trans: e.trans, Nodes: e.nodes,
		Depth: e.maxDepth, MaxG: e.maxG, NOut: len(e.outcomes), Samples: e.samples, Done: e.done && e.steplim == 0, TimedOut: e.timedOut,
		StepLim: e.steplim, Blocked: e.blocked, KDone: e.k, Internal: e.internal, Viol: e.viol, Secs: time.Since(start).Seconds()}
	if len(e.outcomes) <= 2000 {
		for h := range e.outcomes {
			out.Outcomes = append(out.Outcomes, fmt.Sprintf("%x", h))
		}
		sort.Strings(out.Outcomes)
	}
	w := bufio.NewWriter(os.Stdout)
	b, _ := json.Marshal(out)
	w.Write(b)
	w.WriteString("\n")
	w.Flush()
}

// warm initialises lazily created process state outside executions.
func warm() {
	_ = fmt.Sprintf("%v %d %s", 1.5, 3, "x")
	_ = time.Now().UTC().String()
}
