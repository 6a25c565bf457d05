package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/johnsiilver/dynamics/method"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
)

// Event codes of the pipeline scenarios. A is the request (or group), B the group.
const (
	pvSub    = 20 // Submit about to be called
	pvAcc    = 21 // Submit returned nil
	pvRef    = 22 // Submit returned an error
	pvStart  = 23 // the first stage of the request begins
	pvLast   = 24 // the stage after which the request is finished ends
	pvOut    = 25 // delivered: request A on the output of group B
	pvClosed = 26 // the output of group A was closed
	pvSMC    = 27 // the state machine was closed
	pvPC     = 28 // Pipelines.Close returned
	pvStage  = 29 // stage B of request A runs
	pvGC     = 30 // RequestGroup.Close of group A returned
	pvStat   = 31
	pvStat2  = 32
	pvBad    = 33
	pvFree   = 34 // the output is not ordered
)

// pdata is the data of a request. Trail lists the stages and preprocessors
// that it has been through.
type pdata struct {
	ID    int
	Trail string
	F     float64 // NaN cannot be encoded
}

type preq = stagedpipe.Request[pdata]
type pstage = stagedpipe.Stage[pdata]
type pgroup = stagedpipe.RequestGroup[pdata]
type ppipes = stagedpipe.Pipelines[pdata]

// What a stage does.
const (
	doStop   = iota // Next stays unset
	doA             // Next = Start
	doB             // Next = StageB
	doC             // Next = StageC
	doErr           // Err is set
	doErrA          // Err is set, and Next
	doErrB          // Err and Next are set
	doCancel        // the context of the request is cancelled, Next = StageB
)

// smBase is shared by the state machines. It has no public methods.
type smBase struct {
	// plan decides what visit number v (0, 1, ...) of request id does, which is
	// a visit of the given stage.
	plan func(r *preq, v int, stage byte) int
	// cancel cancels the context of a request.
	cancel func(id int)
	// quiet: log only first and last stages.
	next map[byte]pstage
	ev   bool
	// closed is called by Close.
	closed func()
}

var errStage = errors.New("stage error")

func (b *smBase) run(stage byte, req preq) preq {
	if req.Next != nil {
		Fail("stage %c of request %d was entered with Next set", stage, req.Data.ID)
	}
	v := 0
	for i := 0; i < len(req.Data.Trail); i++ {
		if c := req.Data.Trail[i]; c >= 'A' && c <= 'Z' {
			v++
		}
	}
	req.Data.Trail += string(stage)
	must(len(req.Data.Trail) < 4000, "request %d goes round for ever", req.Data.ID)
	if v == 0 {
		Ev(pvStart, req.Data.ID, 0)
	}
	if b.ev {
		Ev(pvStage, req.Data.ID, int(stage))
	}
	do := doStop
	if b.plan != nil {
		do = b.plan(&req, v, stage)
	}
	switch do {
	case doA:
		req.Next = b.next['A']
	case doB:
		req.Next = b.next['B']
	case doC:
		req.Next = b.next['C']
	case doErr:
		req.Err = errStage
	case doErrA:
		req.Err = errStage
		req.Next = b.next['A']
	case doErrB:
		req.Err = errStage
		req.Next = b.next['B']
	case doCancel:
		b.cancel(req.Data.ID)
		req.Next = b.next['B']
	}
	if do == doStop || do == doErr || do == doErrA || do == doErrB || do == doCancel {
		Ev(pvLast, req.Data.ID, 0)
	}
	return req
}

func (b *smBase) close() {
	Ev(pvSMC, 0, 0)
	if b.closed != nil {
		b.closed()
	}
}

// sm1, sm2 and sm3 have one, two and three stages.
type sm1 struct{ b *smBase }

func (s *sm1) Start(req preq) preq { return s.b.run('A', req) }
func (s *sm1) Close()              { s.b.close() }

type sm2 struct{ b *smBase }

func (s *sm2) Start(req preq) preq  { return s.b.run('A', req) }
func (s *sm2) StageB(req preq) preq { return s.b.run('B', req) }
func (s *sm2) Close()               { s.b.close() }

type sm3 struct{ b *smBase }

func (s *sm3) Start(req preq) preq  { return s.b.run('A', req) }
func (s *sm3) StageB(req preq) preq { return s.b.run('B', req) }
func (s *sm3) StageC(req preq) preq { return s.b.run('C', req) }
func (s *sm3) Close()               { s.b.close() }

// sub2 has two stages that count as sub-stages.
type sub2 struct{ b *smBase }

func (s *sub2) SubB(req preq) preq { return s.b.run('B', req) }
func (s *sub2) SubC(req preq) preq { return s.b.run('C', req) }

// Helper is no stage.
func (s *sub2) Helper(i int) int { return i }

// State machines that are no pointers to a type with its own methods.
type smValue struct{ b *smBase }

func (s smValue) Start(req preq) preq  { return s.b.run('A', req) }
func (s smValue) StageB(req preq) preq { return s.b.run('B', req) }
func (s smValue) Close()               { s.b.close() }

type smEmbedded struct {
	x int
	sm2
}
type smEmbeddedPtr struct{ *sm2 }
type smIface struct{ stagedpipe.StateMachine[pdata] }
type smEmbeddedVal struct {
	x int
	smValue
}
type smDeep struct {
	x string
	*smEmbedded
}
type smPtrs struct{ *smValue }
type smNamed struct {
	other smValue
	again smSub
	*sm2
}
type smSub struct{ *sm3 }

// The methods of smValue are the shallower ones.
type smDepths struct {
	smSub
	smValue
}
type smGeneric[T any] struct {
	t T
	b *smBase
}

func (s *smGeneric[T]) Start(req preq) preq  { return s.b.run('A', req) }
func (s *smGeneric[T]) StageB(req preq) preq { return s.b.run('B', req) }
func (s *smGeneric[T]) Close()               { s.b.close() }

func (s *smGeneric[T]) Other() T { return s.t }

type smGenericEmb struct{ *smGeneric[string] }
type smGenericEmbVal struct{ smGeneric[string] }
type smGenericDeep[T any] struct{ smGenericEmb }
type smGenericSelf[T any] struct {
	*smGenericSelf[T]
	smGenericEmb
}
type smMap map[string]*smBase

func (s smMap) Start(req preq) preq  { return s["b"].run('A', req) }
func (s smMap) StageB(req preq) preq { return s["b"].run('B', req) }
func (s smMap) Close()               { s["b"].close() }

func mkSM(stages int, b *smBase) stagedpipe.StateMachine[pdata] {
	switch stages {
	case 1:
		m := &sm1{b}
		b.next = map[byte]pstage{'A': m.Start}
		return m
	case 2:
		m := &sm2{b}
		b.next = map[byte]pstage{'A': m.Start, 'B': m.StageB}
		return m
	}
	m := &sm3{b}
	b.next = map[byte]pstage{'A': m.Start, 'B': m.StageB, 'C': m.StageC}
	return m
}

// warmPipes fills the caches of package reflect outside executions.
func warmPipes() {
	var sig pstage
	for _, sm := range []any{&sm1{}, &sm2{}, &sm3{}, &sub2{}, smValue{}, &smEmbedded{}, smEmbeddedPtr{&sm2{}}, &smIface{&sm1{}}} {
		for range method.MatchesSignature(reflect.ValueOf(sm), reflect.ValueOf(sig)) {
		}
	}
}

func newPipes(num, stages int, b *smBase, o ...stagedpipe.Option[pdata]) *ppipes {
	var p *ppipes
	var err error
	Quiet(func() { p, err = stagedpipe.New("p", num, mkSM(stages, b), o...) })
	if err != nil {
		Fail("New failed: %v", err)
	}
	return p
}

// submitReq submits request id to group gi and logs what happens.
func submitReq(ctx context.Context, g *pgroup, gi, id int) error {
	Ev(pvSub, id, gi)
	err := g.Submit(preq{Ctx: ctx, Data: pdata{ID: id}})
	if err != nil {
		Ev(pvRef, id, gi)
	} else {
		Ev(pvAcc, id, gi)
	}
	return err
}

// drain receives everything from a group.
func drain(g *pgroup, gi int, each func(r preq)) {
	for r := range g.Out() {
		Ev(pvOut, r.Data.ID, gi)
		if each != nil {
			each(r)
		}
	}
	Ev(pvClosed, gi, 0)
}

func mustAccept(err error) {
	if err != nil {
		Fail("a submission with a live context was refused: %v", err)
	}
}

// checkDelivered: every accepted request came out of its group exactly once,
// the others did not, and every output was closed after the last request.
func checkDelivered(x *X, groups int) error {
	for _, e := range x.Ev {
		switch e.Code {
		case pvAcc:
			n := 0
			for _, f := range x.Ev {
				if f.Code == pvOut && f.A == e.A {
					n++
					if f.B != e.B {
						return fmt.Errorf("request %d was submitted to group %d and delivered by group %d", e.A, e.B, f.B)
					}
				}
			}
			if n != 1 {
				return fmt.Errorf("request %d was accepted once and delivered %d times", e.A, n)
			}
		case pvRef:
			if num(x.Ev, pvOut, int(e.A)) != 0 && num(x.Ev, pvAcc, int(e.A)) == 0 {
				return fmt.Errorf("request %d was refused and delivered", e.A)
			}
		case pvOut:
			if num(x.Ev, pvAcc, int(e.A)) == 0 {
				return fmt.Errorf("request %d was delivered and never accepted", e.A)
			}
		}
	}
	for g := 0; g < groups; g++ {
		c := pos(x.Ev, pvClosed, g)
		if c < 0 {
			return fmt.Errorf("the output of group %d was not closed", g)
		}
		for _, f := range x.Ev[c:] {
			if f.Code == pvOut && int(f.B) == g {
				return fmt.Errorf("group %d delivered request %d after its output was closed", g, f.A)
			}
		}
	}
	return nil
}

// checkOrder: each group's output is the sequence of its accepted requests,
// where the submissions of a group do not overlap.
func checkOrder(x *X, groups int) error {
	for g := 0; g < groups; g++ {
		var in, out []int64
		for _, e := range x.Ev {
			if e.Code == pvAcc && int(e.B) == g {
				in = append(in, e.A)
			}
			if e.Code == pvOut && int(e.B) == g {
				out = append(out, e.A)
			}
		}
		if fmt.Sprint(in) != fmt.Sprint(out) {
			return fmt.Errorf("group %d accepted %v and delivered %v", g, in, out)
		}
	}
	return nil
}

// checkClosed: the state machine was closed exactly once, after the last
// accepted request had finished.
func checkClosed(x *X, n int) error {
	if c := x.Count(pvSMC); c != n {
		return fmt.Errorf("the state machine was closed %d times", c)
	}
	c := pos(x.Ev, pvSMC, 0)
	for _, e := range x.Ev[c:] {
		if n == 1 && (e.Code == pvLast || e.Code == pvStage || e.Code == pvStart) {
			return fmt.Errorf("request %d was still in a stage after the state machine was closed", e.A)
		}
	}
	return nil
}

func all(fs ...error) error {
	for _, f := range fs {
		if f != nil {
			return f
		}
	}
	return nil
}

func yieldPlan(r *preq, v int, stage byte) int {
	P()
	return doStop
}

// routePlan: the request goes through all n stages.
func routePlan(n int) func(r *preq, v int, stage byte) int {
	return func(r *preq, v int, stage byte) int {
		P()
		if v+1 >= n {
			return doStop
		}
		return doB + v
	}
}

// flow: groups*reqs requests over num pipelines with the given stages; the
// submitters are goroutines of their own if par, and the pipelines are closed
// before (early) or after the groups.
func flow(num, stages, groups, reqs int, par, early bool, b *smBase, o ...stagedpipe.Option[pdata]) {
	p := newPipes(num, stages, b, o...)
	gs := make([]*pgroup, groups)
	drained := make(chan struct{}, groups)
	for i := range gs {
		gs[i] = p.NewRequestGroup()
		go func() {
			drain(gs[i], i, func(r preq) {
				if r.Err != nil {
					Fail("request %d came out with error %v", r.Data.ID, r.Err)
				}
			})
			drained <- struct{}{}
		}()
	}
	sub := func(i int) {
		for j := 0; j < reqs; j++ {
			mustAccept(submitReq(bg(), gs[i], i, i*10+j))
		}
		if !early {
			gs[i].Close()
		}
	}
	if par {
		done := make(chan struct{}, groups)
		for i := range gs {
			go func() {
				sub(i)
				done <- struct{}{}
			}()
		}
		for range gs {
			<-done
		}
	} else {
		for i := range gs {
			sub(i)
		}
	}
	if early {
		p.Close()
		Ev(pvPC, 0, 0)
		for i := range gs {
			gs[i].Close()
		}
	}
	for range gs {
		<-drained
	}
	if !early {
		p.Close()
		Ev(pvPC, 0, 0)
	}
}

func init() {
	// T01, T06: flows.
	for _, v := range []struct {
		num, stages, groups, reqs int
		par, early, ordered       bool
		qk, tk, dpor              int
		race                      bool
	}{
		{1, 1, 1, 1, false, false, false, 3, 4, 0, true},
		{1, 1, 1, 2, false, false, false, 2, 3, 0, false},
		{1, 1, 1, 5, false, false, false, 1, 2, 0, false},
		{2, 1, 1, 3, false, false, false, 1, 2, 0, true},
		{1, 2, 1, 3, false, false, false, 1, 2, 0, true},
		{3, 1, 1, 4, false, true, false, 1, 2, 0, false},
		{1, 1, 2, 1, true, false, false, 1, 2, 0, true},
		{2, 1, 2, 2, true, false, false, 1, 2, 0, false},
		{2, 1, 2, 2, true, true, false, 1, 2, 0, true},
		{1, 2, 3, 1, true, false, false, 1, 2, 0, false},
		{2, 2, 3, 1, true, true, false, 1, 2, 0, false},
		{1, 1, 1, 2, false, false, true, 2, 3, 0, true},
		{2, 1, 1, 3, false, false, true, 1, 2, 0, true},
		{2, 1, 2, 2, true, false, true, 1, 2, 0, true},
		{1, 2, 2, 1, true, true, true, 1, 2, 0, false},
		{3, 1, 1, 4, false, true, true, 1, 2, 0, false},
	} {
		name := fmt.Sprintf("flow-n%ds%dg%dr%d", v.num, v.stages, v.groups, v.reqs)
		props := []string{"T01", "T06"}
		var o []stagedpipe.Option[pdata]
		if v.par {
			name += "-par"
		}
		if v.early {
			name += "-early"
		}
		if v.ordered {
			name += "-ord"
			o = append(o, stagedpipe.Ordered[pdata]())
			props = append(props, "T02")
		}
		if v.race {
			props = append(props, "D01")
		}
		Reg(&Scenario{Name: name, Props: props, QK: v.qk, TK: v.tk, DPOR: v.dpor, Race: v.race, RK: 1, AllowLive: 1, Setup: warmPipes,
			Body: func(x *X) {
				flow(v.num, v.stages, v.groups, v.reqs, v.par, v.early, &smBase{plan: routePlan(v.stages)}, o...)
			},
			Check: func(x *X) error {
				err := all(checkDelivered(x, v.groups), checkClosed(x, 1))
				if err == nil && v.ordered {
					err = checkOrder(x, v.groups)
				}
				return err
			},
		})
	}
	// T01: several submitters of one group.
	for _, ordered := range []bool{false, true} {
		name, props := "flow-subs2", []string{"T01", "T06", "D01"}
		var o []stagedpipe.Option[pdata]
		if ordered {
			name += "-ord"
			props = append(props, "T02")
			o = append(o, stagedpipe.Ordered[pdata]())
		}
		Reg(&Scenario{Name: name, Props: props, QK: 1, TK: 2, Race: true, RK: 1, AllowLive: 1, Setup: warmPipes,
			Body: func(x *X) {
				p := newPipes(2, 1, &smBase{plan: yieldPlan}, o...)
				g := p.NewRequestGroup()
				drained := make(chan struct{})
				go func() {
					drain(g, 0, nil)
					close(drained)
				}()
				done := make(chan struct{}, 2)
				for s := 0; s < 2; s++ {
					go func() {
						for j := 0; j < 2; j++ {
							mustAccept(submitReq(bg(), g, 0, s*10+j))
						}
						done <- struct{}{}
					}()
				}
				<-done
				<-done
				g.Close()
				<-drained
				p.Close()
			},
			Check: func(x *X) error {
				if err := all(checkDelivered(x, 1), checkClosed(x, 1)); err != nil || !ordered {
					return err
				}
				// Each submitter's requests keep their order.
				for s := 0; s < 2; s++ {
					if pos(x.Ev, pvOut, s*10) > pos(x.Ev, pvOut, s*10+1) {
						return fmt.Errorf("requests %d and %d were delivered in the wrong order", s*10, s*10+1)
					}
				}
				return nil
			},
		})
	}
	initOrdered()
	initStages()
	initDAG()
	initConc()
	initPClose()
	initSubmit()
	initStats()
	initChurn()
	initDelay()
}

// T02: durations, failures and refusals.
func initOrdered() {
	ordered := stagedpipe.Ordered[pdata]()
	// Every assignment of the durations 1s, 2s and 4s to the requests.
	for _, v := range []struct{ num, reqs, qk, tk int }{{2, 2, 1, 2}, {2, 3, 0, 1}, {3, 3, 0, 1}, {3, 4, 0, 1}, {4, 5, -1, 0}} {
		Reg(&Scenario{Name: fmt.Sprintf("ord-sleep-n%dr%d", v.num, v.reqs), Props: []string{"T02", "T01"}, QK: v.qk, TK: v.tk, AllowLive: 1, Setup: warmPipes,
			Body: func(x *X) {
				p := newPipes(v.num, 1, &smBase{plan: func(r *preq, vis int, stage byte) int {
					c := Choose(4)
					if c < 3 {
						time.Sleep(time.Second << c)
						return doStop
					}
					return doErr
				}}, ordered)
				g := p.NewRequestGroup()
				drained := make(chan struct{})
				go func() {
					drain(g, 0, nil)
					close(drained)
				}()
				for j := 0; j < v.reqs; j++ {
					mustAccept(submitReq(bg(), g, 0, j))
				}
				g.Close()
				<-drained
				p.Close()
			},
			Check: func(x *X) error { return all(checkDelivered(x, 1), checkOrder(x, 1), checkClosed(x, 1)) },
		})
	}
	// A request must not be withheld once all before it are delivered.
	Reg(&Scenario{Name: "ord-prompt", Props: []string{"T02"}, QK: 2, TK: 3, AllowLive: 1, Setup: warmPipes,
		Body: func(x *X) {
			p := newPipes(2, 1, &smBase{plan: func(r *preq, vis int, stage byte) int {
				if r.Data.ID == 0 {
					P()
				}
				return doStop
			}}, ordered)
			g := p.NewRequestGroup()
			for j := 0; j < 2; j++ {
				mustAccept(submitReq(bg(), g, 0, j))
			}
			// Both come out although nothing is submitted or closed.
			for j := 0; j < 2; j++ {
				r := <-g.Out()
				Ev(pvOut, r.Data.ID, 0)
			}
			mustAccept(submitReq(bg(), g, 0, 2))
			r := <-g.Out()
			Ev(pvOut, r.Data.ID, 0)
			done := make(chan struct{})
			go func() {
				drain(g, 0, nil)
				close(done)
			}()
			g.Close()
			<-done
			p.Close()
		},
		Check: func(x *X) error { return all(checkDelivered(x, 1), checkOrder(x, 1)) },
	})
	// Refused submissions in between: every subset of the requests is submitted
	// with a cancelled context.
	for _, v := range []struct{ num, reqs, qk, tk int }{{1, 3, 1, 2}, {2, 3, 1, 2}, {2, 4, 0, 1}} {
		Reg(&Scenario{Name: fmt.Sprintf("ord-refused-n%dr%d", v.num, v.reqs), Props: []string{"T02", "T07", "T01"}, QK: v.qk, TK: v.tk, AllowLive: 1, Setup: warmPipes,
			Body: func(x *X) {
				p := newPipes(v.num, 1, &smBase{plan: yieldPlan}, ordered)
				g := p.NewRequestGroup()
				drained := make(chan struct{})
				go func() {
					drain(g, 0, nil)
					close(drained)
				}()
				for j := 0; j < v.reqs; j++ {
					ctx, cancel := context.WithCancel(bg())
					bad := Choose(2) == 1
					if bad {
						cancel()
					}
					err := submitReq(ctx, g, 0, j)
					if !bad {
						mustAccept(err)
					} else if err != nil && !errors.Is(err, context.Canceled) {
						Fail("the submission was refused with %v", err)
					}
				}
				g.Close()
				<-drained
				p.Close()
			},
			Check: func(x *X) error { return all(checkDelivered(x, 1), checkOrder(x, 1), checkClosed(x, 1)) },
		})
	}
	// A blocked submission of one submitter is cancelled while another waits.
	Reg(&Scenario{Name: "ord-refused-blocked", Props: []string{"T02", "T07", "T01"}, QK: 1, TK: 2, AllowLive: 1, Setup: warmPipes,
		Body: func(x *X) {
			gate := make(chan struct{})
			p := newPipes(1, 1, &smBase{plan: func(r *preq, vis int, stage byte) int {
				<-gate
				return doStop
			}}, ordered)
			g := p.NewRequestGroup()
			drained := make(chan struct{})
			go func() {
				drain(g, 0, nil)
				close(drained)
			}()
			mustAccept(submitReq(bg(), g, 0, 0))
			mustAccept(submitReq(bg(), g, 0, 1))
			ctx, cancel := context.WithCancel(bg())
			done := make(chan struct{}, 2)
			go func() {
				err := submitReq(ctx, g, 0, 2)
				if err != nil && !errors.Is(err, context.Canceled) {
					Fail("the submission was refused with %v", err)
				}
				done <- struct{}{}
			}()
			go func() {
				mustAccept(submitReq(bg(), g, 0, 3))
				done <- struct{}{}
			}()
			P()
			cancel()
			P()
			close(gate)
			<-done
			<-done
			g.Close()
			<-drained
			p.Close()
		},
		Check: func(x *X) error {
			if err := all(checkDelivered(x, 1), checkClosed(x, 1)); err != nil {
				return err
			}
			if !(pos(x.Ev, pvOut, 0) < pos(x.Ev, pvOut, 1) && pos(x.Ev, pvOut, 1) < pos(x.Ev, pvOut, 3)) {
				return errors.New("requests were delivered in the wrong order")
			}
			if c := pos(x.Ev, pvOut, 2); c >= 0 && c < pos(x.Ev, pvOut, 1) {
				return errors.New("request 2 was delivered before request 1")
			}
			return nil
		},
	})
	// Two submissions of a group wait; the context of one is cancelled, or its deadline
	// passes: it is refused although nothing else moves.
	for _, deadline := range []bool{false, true} {
		name := "ord-refused-waiting"
		if deadline {
			name += "-deadline"
		}
		Reg(&Scenario{Name: name, Props: []string{"T07", "T02"}, QK: 1, TK: 2, AllowLive: 1, Setup: warmPipes,
			Body: func(x *X) {
				gate := make(chan struct{})
				p := newPipes(1, 1, &smBase{plan: func(r *preq, vis int, stage byte) int {
					<-gate
					return doStop
				}}, ordered)
				g := p.NewRequestGroup()
				drained := make(chan struct{})
				go func() {
					drain(g, 0, nil)
					close(drained)
				}()
				mustAccept(submitReq(bg(), g, 0, 0))
				mustAccept(submitReq(bg(), g, 0, 1))
				ctx, cancel := context.WithCancel(bg())
				if deadline {
					ctx, cancel = context.WithTimeout(bg(), time.Second)
				}
				defer cancel()
				refused, done := make(chan struct{}), make(chan struct{})
				go func() {
					mustAccept(submitReq(bg(), g, 0, 3))
					close(done)
				}()
				go func() {
					err := submitReq(ctx, g, 0, 2)
					must(err != nil && err == ctx.Err(), "a submission that waits was answered with %v, its context has %v", err, ctx.Err())
					close(refused)
				}()
				P()
				if !deadline {
					cancel()
				}
				<-refused
				close(gate)
				<-done
				g.Close()
				<-drained
				p.Close()
			},
			Check: func(x *X) error { return all(checkDelivered(x, 1), checkOrder(x, 1), checkClosed(x, 1)) },
		})
	}
	// Two groups: a stuck request of one holds back only its own group.
	Reg(&Scenario{Name: "ord-two-groups", Props: []string{"T02", "T09"}, QK: 1, TK: 2, AllowLive: 1, Setup: warmPipes,
		Body: func(x *X) {
			gate := make(chan struct{})
			p := newPipes(2, 1, &smBase{plan: func(r *preq, vis int, stage byte) int {
				if r.Data.ID == 0 {
					<-gate
				}
				return doStop
			}}, ordered)
			g0, g1 := p.NewRequestGroup(), p.NewRequestGroup()
			drained := make(chan struct{}, 2)
			go func() {
				drain(g0, 0, nil)
				drained <- struct{}{}
			}()
			mustAccept(submitReq(bg(), g0, 0, 0))
			mustAccept(submitReq(bg(), g1, 1, 10))
			mustAccept(submitReq(bg(), g0, 0, 1))
			mustAccept(submitReq(bg(), g1, 1, 11))
			for j := 0; j < 2; j++ {
				r := <-g1.Out()
				Ev(pvOut, r.Data.ID, 1)
			}
			must(pos(evNow(), pvOut, 1) < 0, "request 1 overtook request 0")
			close(gate)
			g1.Close()
			go func() {
				drain(g1, 1, nil)
				drained <- struct{}{}
			}()
			g0.Close()
			<-drained
			<-drained
			p.Close()
		},
		Check: func(x *X) error { return all(checkDelivered(x, 2), checkOrder(x, 2), checkClosed(x, 1)) },
	})
	// The context of an accepted request is cancelled while it is processed.
	Reg(&Scenario{Name: "ord-cancelled-later", Props: []string{"T02", "T03"}, QK: 1, TK: 2, AllowLive: 1, Setup: warmPipes,
		Body: func(x *X) {
			p := newPipes(2, 2, &smBase{plan: func(r *preq, vis int, stage byte) int {
				P()
				if vis == 0 {
					return doB
				}
				return doStop
			}}, ordered)
			g := p.NewRequestGroup()
			drained := make(chan struct{})
			ctx, cancel := context.WithCancel(bg())
			go func() {
				drain(g, 0, func(r preq) {
					switch {
					case r.Data.ID == 1 && r.Err != nil:
						must(r.Err == context.Canceled, "a cancelled request came out with %v", r.Err)
						must(r.Data.Trail != "AB", "a request that ran all its stages came out with %v", r.Err)
					default:
						must(r.Err == nil && r.Data.Trail == "AB", "request %d came out with %q, %v", r.Data.ID, r.Data.Trail, r.Err)
					}
				})
				close(drained)
			}()
			mustAccept(submitReq(bg(), g, 0, 0))
			mustAccept(submitReq(ctx, g, 0, 1))
			mustAccept(submitReq(bg(), g, 0, 2))
			cancel()
			g.Close()
			<-drained
			p.Close()
		},
		Check: func(x *X) error { return all(checkDelivered(x, 1), checkOrder(x, 1)) },
	})
}

// oneShot submits one request and returns what comes out.
func oneShot(p *ppipes, g *pgroup, ctx context.Context, r preq) preq {
	r.Ctx = ctx
	mustAccept(g.Submit(r))
	out, ok := <-g.Out()
	must(ok, "the output was closed before the request came out")
	return out
}

func initStages() {
	// T03: every script of a single request.
	for _, v := range []struct {
		name           string
		stages, visits int
		pps            int
		ppFail         bool
		preset         bool
		qk, tk         int
	}{
		{"s1", 1, 3, 0, false, false, 1, 2},
		{"s2", 2, 4, 0, false, false, 0, 1},
		{"s3", 3, 4, 0, false, false, 0, 0},
		{"s3v5", 3, 5, 0, false, false, -1, 0},
		{"s3pp", 3, 3, 1, false, false, 0, 1},
		{"s2pp2", 2, 3, 2, false, true, 0, 1},
		{"s2pp2f", 2, 3, 2, true, false, 0, 0},
		{"s3pp3f", 3, 3, 3, true, true, 0, 0},
	} {
		Reg(&Scenario{Name: "stages-" + v.name, Props: []string{"T03"}, QK: v.qk, TK: v.tk, AllowLive: 1, Setup: warmPipes,
			Body: func(x *X) {
				ctx, cancel := context.WithCancel(bg())
				defer cancel()
				want := ""
				var wantErr error
				var b *smBase
				over := false
				for i := 0; i < v.pps; i++ {
					want += string(rune('1' + i)) // before the first stage
				}
				b = &smBase{
					cancel: func(int) { cancel() },
					plan: func(r *preq, vis int, stage byte) int {
						if over {
							Fail("stage %c ran although the request was finished", stage)
						}
						want += string(stage)
						if r.Data.Trail != want {
							Fail("stage %d saw the data %q instead of %q", vis, r.Data.Trail, want)
						}
						do := doStop
						if vis+1 < v.visits {
							do = []int{doStop, doErr, doA, doErrB, doCancel, doB, doC}[Choose(v.stages+4)]
							if v.stages == 1 && do >= doErrB {
								do = doStop
							}
						} else if Choose(2) == 1 {
							do = doErr
						}
						switch do {
						case doA, doB, doC:
							for i := 0; i < v.pps; i++ {
								want += string(rune('1' + i))
							}
						case doErr, doErrB:
							over = true
							wantErr = errStage
						case doCancel:
							over = true
							wantErr = context.Canceled
						default:
							over = true
						}
						return do
					},
				}
				var o []stagedpipe.Option[pdata]
				var pps []stagedpipe.PreProcesor[pdata]
				for i := 0; i < v.pps; i++ {
					pps = append(pps, func(r preq) preq {
						if over {
							Fail("preprocessor %d ran although the request was finished", i)
						}
						r.Data.Trail += string(rune('1' + i))
						if v.ppFail && Choose(3) == 1 {
							over = true
							wantErr = errs[i]
							r.Err = wantErr
							// The rest of the preprocessors of this visit does not run.
							want = want[:len(want)-(v.pps-1-i)]
						}
						return r
					})
				}
				if len(pps) > 0 {
					if len(pps) > 1 {
						o = append(o, stagedpipe.PreProcessors(pps[0]), stagedpipe.PreProcessors(pps[1:]...))
					} else {
						o = append(o, stagedpipe.PreProcessors(pps...))
					}
				}
				p := newPipes(1, v.stages, b, o...)
				g := p.NewRequestGroup()
				r := preq{Data: pdata{ID: 7}}
				if v.preset {
					r.Next = b.next['B'] // must have no influence
				}
				out := oneShot(p, g, ctx, r)
				must(out.Data.ID == 7 && out.Data.Trail == want, "the request came out with the data %q instead of %q", out.Data.Trail, want)
				must(out.Err == wantErr, "the request came out with error %v instead of %v", out.Err, wantErr)
				must(over, "the request came out before it was finished")
				Ev(pvOut, len(want), b2i(wantErr != nil))
				g.Close()
				_, ok := <-g.Out()
				must(!ok, "something came out after the last request")
				p.Close()
			},
		})
	}
	// Contexts: already cancelled, and with a deadline in a stage.
	Reg(&Scenario{Name: "stages-ctx-cancelled", Props: []string{"T03", "T07"}, QK: 2, TK: 3, AllowLive: 1, Setup: warmPipes,
		Body: func(x *X) {
			b := &smBase{plan: func(r *preq, vis int, stage byte) int {
				Fail("a stage of a cancelled request ran")
				return doStop
			}}
			p := newPipes(1, 2, b)
			g := p.NewRequestGroup()
			ctx, cancel := context.WithCancel(bg())
			cancel()
			err := submitReq(ctx, g, 0, 1)
			done := make(chan struct{})
			go func() {
				drain(g, 0, func(r preq) {
					must(r.Err == context.Canceled, "a cancelled request came out with error %v", r.Err)
				})
				close(done)
			}()
			must(err == nil || err == context.Canceled, "Submit returned %v", err)
			g.Close()
			<-done
			p.Close()
		},
		Check: func(x *X) error { return checkDelivered(x, 1) },
	})
	Reg(&Scenario{Name: "stages-ctx-deadline", Props: []string{"T03"}, QK: 1, TK: 2, AllowLive: 1, Setup: warmPipes,
		Body: func(x *X) {
			d := Choose(4)
			b := &smBase{plan: func(r *preq, vis int, stage byte) int {
				time.Sleep(2 * time.Second)
				if stage == 'C' {
					return doStop
				}
				return doB + vis
			}}
			p := newPipes(1, 3, b)
			g := p.NewRequestGroup()
			ctx, cancel := context.WithTimeout(bg(), time.Duration(2*d+1)*time.Second)
			defer cancel()
			out := oneShot(p, g, ctx, preq{})
			want := "ABC"[:min(d+1, 3)]
			must(out.Data.Trail == want, "stages %q ran instead of %q", out.Data.Trail, want)
			if d < 2 {
				must(out.Err == context.DeadlineExceeded, "the request came out with %v", out.Err)
			} else {
				must(out.Err == nil, "the request came out with %v", out.Err)
			}
			g.Close()
			_, ok := <-g.Out()
			must(!ok, "something came out after the last request")
			p.Close()
		},
	})
	// A stage that replaces the context: the next stages use the new one.
	Reg(&Scenario{Name: "stages-ctx-replaced", Props: []string{"T03"}, QK: 1, TK: 2, AllowLive: 1, Setup: warmPipes,
		Body: func(x *X) {
			cancelled := Choose(2) == 1
			b := &smBase{plan: func(r *preq, vis int, stage byte) int {
				if vis == 0 {
					ctx, cancel := context.WithCancel(withID(r.Ctx, 5))
					if cancelled {
						cancel()
					}
					r.Ctx = ctx
					return doB
				}
				must(idOf(r.Ctx) == 5, "the context set by a stage is lost")
				return doStop
			}}
			p := newPipes(1, 2, b)
			g := p.NewRequestGroup()
			out := oneShot(p, g, bg(), preq{})
			must(idOf(out.Ctx) == 5, "the context set by a stage is lost")
			if cancelled {
				must(out.Err == context.Canceled && out.Data.Trail == "A", "got %v, %q", out.Err, out.Data.Trail)
			} else {
				must(out.Err == nil && out.Data.Trail == "AB", "got %v, %q", out.Err, out.Data.Trail)
			}
			g.Close()
			_, ok := <-g.Out()
			must(!ok, "something came out after the last request")
			p.Close()
		},
	})
	// Two requests with different routes at the same time.
	for _, v := range []struct {
		name string
		num  int
		dag  bool
		ord  bool
		qk   int
	}{{"", 1, false, false, 1}, {"-dag", 2, true, false, 1}, {"-ord", 2, false, true, 1}} {
		var o []stagedpipe.Option[pdata]
		if v.dag {
			o = append(o, stagedpipe.DAG[pdata]())
		}
		if v.ord {
			o = append(o, stagedpipe.Ordered[pdata]())
		}
		Reg(&Scenario{Name: "stages-two" + v.name, Props: []string{"T03", "T01", "D01"}, QK: v.qk, TK: 2, Race: true, RK: 1, AllowLive: 1, Setup: warmPipes,
			Body: func(x *X) {
				routes := [][]int{{doB, doC, doStop}, {doC, doB, doErr}, {doStop}}
				want := []string{"ABC", "ACB", "A"}
				b := &smBase{plan: func(r *preq, vis int, stage byte) int {
					P()
					return routes[r.Data.ID][vis]
				}}
				p := newPipes(v.num, 3, b, o...)
				g := p.NewRequestGroup()
				drained := make(chan struct{})
				go func() {
					drain(g, 0, func(r preq) {
						must(r.Data.Trail == want[r.Data.ID], "request %d ran %q", r.Data.ID, r.Data.Trail)
						if r.Data.ID == 1 {
							must(r.Err == errStage, "request 1 came out with %v", r.Err)
						} else {
							must(r.Err == nil, "request %d came out with %v", r.Data.ID, r.Err)
						}
					})
					close(drained)
				}()
				for j := 0; j < 3; j++ {
					mustAccept(submitReq(bg(), g, 0, j))
				}
				g.Close()
				<-drained
				p.Close()
			},
			Check: func(x *X) error { return checkDelivered(x, 1) },
		})
	}
	// Values in the data and an error in the data survive; preprocessors see
	// what the previous stage produced.
	Reg(&Scenario{Name: "stages-pp-order", Props: []string{"T03"}, QK: 1, TK: 2, AllowLive: 1, Setup: warmPipes,
		Body: func(x *X) {
			var pps []stagedpipe.PreProcesor[pdata]
			for i := 0; i < 3; i++ {
				pps = append(pps, func(r preq) preq {
					must(r.Next == nil, "preprocessor %d was entered with Next set", i)
					r.Data.Trail += string(rune('1' + i))
					return r
				})
			}
			p := newPipes(2, 2, &smBase{plan: routePlan(2)}, stagedpipe.PreProcessors(pps[:2]...), stagedpipe.PreProcessors(pps[2]))
			g := p.NewRequestGroup()
			drained := make(chan struct{})
			go func() {
				drain(g, 0, func(r preq) {
					must(r.Data.Trail == "123A123B" && r.Err == nil, "request %d: %q, %v", r.Data.ID, r.Data.Trail, r.Err)
				})
				close(drained)
			}()
			for j := 0; j < 2; j++ {
				mustAccept(submitReq(bg(), g, 0, j))
			}
			g.Close()
			<-drained
			p.Close()
		},
		Check: func(x *X) error { return checkDelivered(x, 1) },
	})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

var stageNames = map[byte]string{'A': "Start", 'B': "StageB", 'C': "StageC"}

// checkDAG compares what came out with what the DAG option demands for a
// request that was routed along the stages of route.
func checkDAG(r preq, route string, ended bool) {
	seen := ""
	cyc := false
	for i := 0; i < len(route); i++ {
		if strings.IndexByte(seen, route[i]) >= 0 {
			cyc = true
			break
		}
		seen += string(route[i])
	}
	must(r.Data.Trail == seen, "request %d was routed along %q and ran %q", r.Data.ID, route, r.Data.Trail)
	if !cyc {
		must(!stagedpipe.IsErrCyclic(r.Err), "request %d visited no stage twice (%q) and came out with %v", r.Data.ID, route, r.Err)
		must(r.Err == nil, "request %d came out with %v", r.Data.ID, r.Err)
		return
	}
	must(stagedpipe.IsErrCyclic(r.Err), "request %d was routed along %q and came out with error %v", r.Data.ID, route, r.Err)
	for i := 0; i < len(seen); i++ {
		must(strings.Contains(r.Err.Error(), stageNames[seen[i]]), "the error %q does not name stage %s", r.Err, stageNames[seen[i]])
	}
	for _, c := range []byte("ABC") {
		if strings.IndexByte(seen, c) < 0 {
			must(!strings.Contains(r.Err.Error(), stageNames[c]), "the error %q names stage %s, which was not visited", r.Err, stageNames[c])
		}
	}
}

func initDAG() {
	dag := stagedpipe.DAG[pdata]()
	followed := func(routes *[8]string) func(r *preq, vis int, stage byte) int {
		return func(r *preq, vis int, stage byte) int {
			route := routes[r.Data.ID]
			P()
			if vis+1 >= len(route) {
				return doStop
			}
			return doA + int(route[vis+1]-'A')
		}
	}
	chooseRoute := func(stages, n int) string {
		route := "A"
		for len(route) < n {
			c := Choose(stages + 1)
			if c == stages {
				break
			}
			route += string(rune('A' + c))
		}
		return route
	}
	// Every route of a single request, with and without the option.
	for _, v := range []struct {
		name        string
		stages, len int
		dag         bool
		qk, tk      int
	}{
		{"s1", 1, 3, true, 1, 2}, {"s2", 2, 4, true, 0, 1}, {"s3", 3, 4, true, 0, 1}, {"s3l5", 3, 5, true, 0, 0}, {"off-s2", 2, 4, false, 0, 1}, {"off-s3", 3, 4, false, 0, 0},
	} {
		Reg(&Scenario{Name: "dag-" + v.name, Props: []string{"T04"}, QK: v.qk, TK: v.tk, AllowLive: 1, Setup: warmPipes,
			Body: func(x *X) {
				var routes [8]string
				routes[0] = chooseRoute(v.stages, v.len)
				var o []stagedpipe.Option[pdata]
				if v.dag {
					o = append(o, dag)
				}
				p := newPipes(1, v.stages, &smBase{plan: followed(&routes)}, o...)
				g := p.NewRequestGroup()
				out := oneShot(p, g, bg(), preq{})
				if v.dag {
					checkDAG(out, routes[0], true)
				} else {
					must(out.Data.Trail == routes[0] && out.Err == nil, "routed along %q, ran %q, error %v", routes[0], out.Data.Trail, out.Err)
				}
				Ev(pvOut, len(out.Data.Trail), b2i(out.Err != nil))
				g.Close()
				_, ok := <-g.Out()
				must(!ok, "something came out after the last request")
				p.Close()
			},
		})
	}
	// State machines of other kinds of types, which route back to Start.
	for _, kind := range []string{"value", "embedded", "embedded-ptr", "iface", "via-iface", "value-ptr", "embedded-val", "embedded-val-ptr", "deep", "ptrs", "ptrs-ptr", "generic", "map", "map-ptr", "named", "depths", "generic-embedded", "generic-embedded-val", "generic-deep", "generic-self"} {
		Reg(&Scenario{Name: "dag-kind-" + kind, Props: []string{"T04"}, QK: 0, TK: 1, AllowLive: 1, Setup: warmPipes,
			Body: func(x *X) {
				var routes [8]string
				routes[0] = chooseRoute(2, 3)
				b := &smBase{plan: followed(&routes)}
				var sm stagedpipe.StateMachine[pdata]
				m := &sm2{b}
				b.next = map[byte]pstage{'A': m.Start, 'B': m.StageB}
				switch kind {
				case "value":
					v := smValue{b}
					b.next = map[byte]pstage{'A': v.Start, 'B': v.StageB}
					sm = v
				case "embedded":
					e := &smEmbedded{sm2: *m}
					b.next = map[byte]pstage{'A': e.Start, 'B': e.StageB}
					sm = e
				case "embedded-ptr":
					e := smEmbeddedPtr{m}
					b.next = map[byte]pstage{'A': e.Start, 'B': e.StageB}
					sm = e
				case "iface":
					e := &smIface{m}
					b.next = map[byte]pstage{'A': e.Start, 'B': m.StageB}
					sm = e
				case "via-iface":
					sm = m
					b.next['A'] = sm.Start
				case "value-ptr":
					v := &smValue{b}
					b.next = map[byte]pstage{'A': v.Start, 'B': v.StageB}
					sm = v
				case "embedded-val":
					e := smEmbeddedVal{smValue: smValue{b}}
					b.next = map[byte]pstage{'A': e.Start, 'B': e.StageB}
					sm = e
				case "embedded-val-ptr":
					e := &smEmbeddedVal{smValue: smValue{b}}
					b.next = map[byte]pstage{'A': e.Start, 'B': e.StageB}
					sm = e
				case "deep":
					e := smDeep{smEmbedded: &smEmbedded{sm2: *m}}
					b.next = map[byte]pstage{'A': e.Start, 'B': e.StageB}
					sm = e
				case "ptrs", "ptrs-ptr":
					e := smPtrs{&smValue{b}}
					b.next = map[byte]pstage{'A': e.Start, 'B': e.StageB}
					sm = e
					if kind == "ptrs-ptr" {
						sm = &e
					}
				case "named":
					e := smNamed{sm2: m}
					b.next = map[byte]pstage{'A': e.Start, 'B': e.StageB}
					sm = e
				case "depths":
					e := smDepths{smValue: smValue{b}}
					b.next = map[byte]pstage{'A': e.Start, 'B': e.StageB}
					sm = e
				case "generic":
					e := &smGeneric[int]{b: b}
					b.next = map[byte]pstage{'A': e.Start, 'B': e.StageB}
					sm = e
				case "generic-embedded":
					e := smGenericEmb{&smGeneric[string]{b: b}}
					b.next = map[byte]pstage{'A': e.Start, 'B': e.StageB}
					sm = e
				case "generic-embedded-val":
					e := &smGenericEmbVal{smGeneric[string]{b: b}}
					b.next = map[byte]pstage{'A': e.Start, 'B': e.StageB}
					sm = e
				case "generic-deep":
					e := &smGenericDeep[int]{smGenericEmb{&smGeneric[string]{b: b}}}
					b.next = map[byte]pstage{'A': e.Start, 'B': e.StageB}
					sm = e
				case "generic-self":
					e := smGenericSelf[int]{smGenericEmb: smGenericEmb{&smGeneric[string]{b: b}}}
					b.next = map[byte]pstage{'A': e.Start, 'B': e.StageB}
					sm = e
				case "map", "map-ptr":
					e := smMap{"b": b}
					b.next = map[byte]pstage{'A': e.Start, 'B': e.StageB}
					sm = e
					if kind == "map-ptr" {
						sm = &e
					}
				}
				var p *ppipes
				var err error
				Quiet(func() { p, err = stagedpipe.New("p", 1, sm, dag) })
				must(err == nil, "New failed: %v", err)
				g := p.NewRequestGroup()
				checkDAG(oneShot(p, g, bg(), preq{}), routes[0], true)
				g.Close()
				_, ok := <-g.Out()
				must(!ok, "something came out after the last request")
				p.Close()
			},
		})
	}
	// The distinguishable error is only for this case.
	Reg(&Scenario{Name: "dag-other-errors", Props: []string{"T04", "T03"}, QK: 1, TK: 2, AllowLive: 1, Setup: warmPipes,
		Body: func(x *X) {
			// The failing stage also names a next one, which does not matter.
			ctx, cancel := context.WithCancel(bg())
			how := []int{doErr, doErrA, doErrB}[Choose(3)]
			cancelled := Choose(2) == 1
			p := newPipes(1, 2, &smBase{plan: func(r *preq, vis int, stage byte) int {
				if r.Ctx.Done() != nil && cancelled {
					cancel()
				}
				return how
			}}, dag)
			g := p.NewRequestGroup()
			out := oneShot(p, g, bg(), preq{})
			must(out.Err == errStage && !stagedpipe.IsErrCyclic(out.Err) && !stagedpipe.IsErrCyclic(nil), "got %v", out.Err)
			must(out.Data.Trail == "A", "%q ran", out.Data.Trail)
			out = oneShot(p, g, ctx, preq{})
			must(out.Err == errStage && out.Data.Trail == "A", "got %v after %q", out.Err, out.Data.Trail)
			g.Close()
			_, ok := <-g.Out()
			must(!ok, "something came out after the last request")
			p.Close()
		},
	})
	// Concurrent requests, among them cyclic ones.
	for _, v := range []struct {
		name   string
		num    int
		routes []string
		qk, tk int
		race   bool
	}{
		{"two", 1, []string{"AB", "AB"}, 2, 2, true},
		{"three", 1, []string{"ABC", "ACB", "ABAC"}, 1, 2, true},
		{"cyc2", 2, []string{"AA", "AB", "ABB"}, 1, 2, false},
		{"seq4", 1, []string{"AB", "ABA", "AB", "AC"}, 1, 1, false},
	} {
		Reg(&Scenario{Name: "dag-conc-" + v.name, Props: []string{"T04", "D01"}, QK: v.qk, TK: v.tk, Race: v.race, RK: 1, AllowLive: 1, Setup: warmPipes,
			Body: func(x *X) {
				var routes [8]string
				copy(routes[:], v.routes)
				p := newPipes(v.num, 3, &smBase{plan: followed(&routes)}, dag)
				g := p.NewRequestGroup()
				drained := make(chan struct{})
				go func() {
					drain(g, 0, func(r preq) { checkDAG(r, routes[r.Data.ID], true) })
					close(drained)
				}()
				for j := range v.routes {
					mustAccept(submitReq(bg(), g, 0, j))
				}
				g.Close()
				<-drained
				p.Close()
			},
			Check: func(x *X) error { return checkDelivered(x, 1) },
		})
	}
	// A request is submitted again, alone or together with others.
	for _, first := range []bool{true, false} {
		for _, second := range []bool{true, false} {
			for _, same := range []bool{true, false} {
				if !first && !second || same && first != second {
					continue
				}
				n := "again"
				if first {
					n += "-dag"
				} else {
					n += "-plain"
				}
				if same {
					n += "-same"
				} else if second {
					n += "-dag"
				} else {
					n += "-plain"
				}
				opt := func(b bool) []stagedpipe.Option[pdata] {
					if b {
						return []stagedpipe.Option[pdata]{dag}
					}
					return nil
				}
				Reg(&Scenario{Name: "dag-" + n, Props: []string{"T04"}, QK: 0, TK: 1, AllowLive: 2, Setup: warmPipes,
					Body: func(x *X) {
						var routes [8]string
						r0 := chooseRoute(2, 3)
						r1 := chooseRoute(2, 3)
						routes[0], routes[1] = r0, "AB"
						p := newPipes(1, 2, &smBase{plan: followed(&routes)}, opt(first)...)
						g := p.NewRequestGroup()
						out := oneShot(p, g, bg(), preq{})
						if first {
							checkDAG(out, r0, true)
						}
						p2, g2 := p, g
						if !same {
							p2 = newPipes(1, 2, &smBase{plan: followed(&routes)}, opt(second)...)
							g2 = p2.NewRequestGroup()
						}
						routes[0] = r1
						out.Err = nil
						out.Data.Trail = ""
						// Another request runs at the same time.
						drained := make(chan struct{})
						go func() {
							drain(g2, 0, func(r preq) {
								if second {
									checkDAG(r, routes[r.Data.ID], true)
								} else {
									must(r.Data.Trail == routes[r.Data.ID] && r.Err == nil, "request %d: routed along %q, ran %q, error %v", r.Data.ID, routes[r.Data.ID], r.Data.Trail, r.Err)
								}
							})
							close(drained)
						}()
						out.Ctx = bg()
						mustAccept(g2.Submit(out))
						mustAccept(g2.Submit(preq{Ctx: bg(), Data: pdata{ID: 1}}))
						g2.Close()
						<-drained
						p2.Close()
						if !same {
							g.Close()
							_, ok := <-g.Out()
							must(!ok, "something came out after the last request")
							p.Close()
						}
					},
					Check: func(x *X) error {
						if x.Count(pvOut) != 2 {
							return fmt.Errorf("%d requests were delivered", x.Count(pvOut))
						}
						return nil
					},
				})
			}
		}
	}
}

// T05.
func initConc() {
	for _, v := range []struct {
		num, stages, sub int
		extra            int
		qk, tk           int
		dag, ord         bool
	}{
		{1, 1, 0, 2, 2, 3, false, false}, {2, 1, 0, 2, 1, 2, false, false}, {1, 2, 0, 2, 1, 2, false, false}, {1, 3, 0, 2, 1, 1, false, false}, {2, 2, 0, 2, 1, 1, false, false},
		{3, 1, 0, 1, 1, 1, false, false}, {1, 1, 1, 2, 1, 2, false, false}, {2, 1, 1, 1, 1, 1, false, false}, {1, 2, 2, 1, 1, 1, false, false}, {3, 3, 0, 2, 0, 1, false, false}, {4, 2, 1, 2, 0, 0, false, false},
		{2, 2, 0, 1, 0, 1, true, false}, {2, 2, 0, 1, 0, 1, false, true},
	} {
		c := v.num * (v.stages + 2*v.sub)
		name := fmt.Sprintf("conc-n%ds%dsub%d", v.num, v.stages, v.sub)
		var o []stagedpipe.Option[pdata]
		if v.dag {
			name += "-dag"
			o = append(o, stagedpipe.DAG[pdata]())
		}
		if v.ord {
			name += "-ord"
			o = append(o, stagedpipe.Ordered[pdata]())
		}
		Reg(&Scenario{Name: name, Props: []string{"T05"}, QK: v.qk, TK: v.tk, AllowLive: 1, Setup: warmPipes,
			Body: func(x *X) {
				all := make(chan struct{})
				arrived := 0
				b := &smBase{plan: func(r *preq, vis int, stage byte) int {
					n := Ctr(0, 1)
					if n > c {
						Fail("%d requests are processed at the same time, the limit is %d", n, c)
					}
					if arrived = Ctr(1, 1); arrived == c {
						close(all)
					}
					// Nobody goes on before as many as possible are here.
					<-all
					P()
					Ctr(0, -1)
					return doStop
				}}
				if v.sub == 1 {
					o2 := append([]stagedpipe.Option[pdata]{stagedpipe.CountSubStages[pdata](&sub2{b})}, o...)
					flow(v.num, v.stages, 1, c+v.extra, false, false, b, o2...)
					return
				}
				if v.sub == 2 {
					flow(v.num, v.stages, 1, c+v.extra, false, false, b, stagedpipe.CountSubStages[pdata](&sub2{b}, &sub2{b}))
					return
				}
				flow(v.num, v.stages, 1, c+v.extra, false, false, b, o...)
			},
			Check: func(x *X) error { return checkDelivered(x, 1) },
		})
	}
	// Failing creations start nothing that processes requests: at most the two
	// goroutines of the demultiplexer stay.
	bad := errors.New("bad option")
	for name, f := range map[string]func() (*ppipes, error){
		"zero": func() (*ppipes, error) { return stagedpipe.New[pdata]("p", 0, mkSM(3, &smBase{})) },
		"neg":  func() (*ppipes, error) { return stagedpipe.New[pdata]("p", -1, mkSM(3, &smBase{})) },
		"nosm": func() (*ppipes, error) { return stagedpipe.New[pdata]("p", 3, nil) },
		"delay": func() (*ppipes, error) {
			return stagedpipe.New("p", 3, mkSM(3, &smBase{}), stagedpipe.DelayWarning[pdata](-1))
		},
		"delay2": func() (*ppipes, error) {
			return stagedpipe.New("p", 3, mkSM(3, &smBase{}), stagedpipe.DAG[pdata](), stagedpipe.DelayWarning[pdata](-time.Hour), stagedpipe.Ordered[pdata]())
		},
		"option": func() (*ppipes, error) {
			return stagedpipe.New("p", 3, mkSM(3, &smBase{}), func(p *ppipes) error { return bad })
		},
		"option2": func() (*ppipes, error) {
			return stagedpipe.New("p", 3, mkSM(3, &smBase{}), stagedpipe.Ordered[pdata](), func(p *ppipes) error { return bad }, stagedpipe.DAG[pdata]())
		},
	} {
		props := []string{"T05"}
		if strings.HasPrefix(name, "delay") {
			props = append(props, "T10")
		}
		Reg(&Scenario{Name: "create-bad-" + name, Props: props, QK: 3, TK: 4, AllowLive: 2, Setup: warmPipes,
			Body: func(x *X) {
				p, err := f()
				must(err != nil, "an invalid creation succeeded")
				must(p == nil, "an invalid creation returned a value")
				if strings.HasPrefix(name, "option") {
					must(errors.Is(err, bad), "the error of the option was replaced by %v", err)
				}
			},
		})
	}
}
