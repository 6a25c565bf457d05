package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
)

// T06.
func initPClose() {
	ordered := stagedpipe.Ordered[pdata]()
	// No groups, unused groups, groups made after the close.
	for _, v := range []struct {
		name     string
		num      int
		groups   int
		when     int // 0: pipelines closed last, 1: first, 2: group made after
		o        []stagedpipe.Option[pdata]
		qk, tk   int
		stages   int
		parallel bool
	}{
		{"none", 1, 0, 0, nil, 3, 5, 1, false},
		{"none-n2s2", 2, 0, 0, nil, 2, 3, 2, false},
		{"unused", 1, 1, 0, nil, 3, 4, 1, false},
		{"unused-first", 1, 1, 1, nil, 3, 4, 1, false},
		{"unused-ord", 1, 1, 1, []stagedpipe.Option[pdata]{ordered}, 2, 3, 1, false},
		{"unused2-par", 1, 2, 1, nil, 2, 3, 1, true},
		{"after", 1, 1, 2, nil, 2, 3, 1, false},
	} {
		Reg(&Scenario{Name: "pclose-" + v.name, Props: []string{"T06", "T09"}, QK: v.qk, TK: v.tk, AllowLive: 1, Setup: warmPipes,
			Body: func(x *X) {
				closed := make(chan struct{})
				b := &smBase{closed: func() { close(closed) }}
				p := newPipes(v.num, v.stages, b, v.o...)
				var gs []*pgroup
				if v.when == 2 {
					p.Close()
				}
				drained := make(chan struct{}, 4)
				for i := 0; i < v.groups; i++ {
					g := p.NewRequestGroup()
					gs = append(gs, g)
					go func() {
						drain(g, i, nil)
						drained <- struct{}{}
					}()
				}
				if v.when == 1 {
					p.Close()
				}
				for _, g := range gs {
					if v.parallel {
						go g.Close()
					} else {
						g.Close()
					}
				}
				for range gs {
					<-drained
				}
				if v.when == 0 {
					p.Close()
				}
				<-closed
			},
			Check: func(x *X) error { return all(checkDelivered(x, v.groups), checkClosed(x, 1)) },
		})
	}
	// Closed while requests are in flight, by another goroutine than the one
	// that closes the group.
	for _, v := range []struct {
		name         string
		num, stages  int
		reqs, qk, tk int
		o            []stagedpipe.Option[pdata]
		race         bool
	}{
		{"n1", 1, 1, 2, 2, 2, nil, true},
		{"n2", 2, 1, 3, 1, 2, nil, false},
		{"s2", 1, 2, 3, 1, 2, nil, false},
		{"ord", 2, 1, 3, 1, 2, []stagedpipe.Option[pdata]{ordered}, true},
		{"dag", 2, 1, 2, 1, 2, []stagedpipe.Option[pdata]{stagedpipe.DAG[pdata]()}, false},
		{"delay", 2, 1, 2, 1, 2, []stagedpipe.Option[pdata]{stagedpipe.DelayWarning[pdata](time.Second)}, false},
	} {
		Reg(&Scenario{Name: "pclose-flight-" + v.name, Props: []string{"T06", "T01", "D01"}, QK: v.qk, TK: v.tk, Race: v.race, RK: 1, AllowLive: 1, Setup: warmPipes,
			Body: func(x *X) {
				closed := make(chan struct{})
				b := &smBase{plan: routePlan(v.stages), closed: func() { close(closed) }, ev: true}
				p := newPipes(v.num, v.stages, b, v.o...)
				g := p.NewRequestGroup()
				drained := make(chan struct{})
				go func() {
					drain(g, 0, func(r preq) {
						must(r.Err == nil && len(r.Data.Trail) == v.stages, "request %d came out with %q, %v", r.Data.ID, r.Data.Trail, r.Err)
					})
					close(drained)
				}()
				for j := 0; j < v.reqs; j++ {
					mustAccept(submitReq(bg(), g, 0, j))
				}
				go func() {
					p.Close()
					Ev(pvPC, 0, 0)
				}()
				g.Close()
				<-drained
				<-closed
			},
			Check: func(x *X) error { return all(checkDelivered(x, 1), checkClosed(x, 1)) },
		})
	}
	// A slow consumer and slow stages: everything accepted comes out after the close.
	Reg(&Scenario{Name: "pclose-slow", Props: []string{"T06", "T01"}, QK: 1, TK: 2, AllowLive: 1, Setup: warmPipes,
		Body: func(x *X) {
			closed := make(chan struct{})
			b := &smBase{plan: func(r *preq, vis int, stage byte) int {
				time.Sleep(time.Duration(1+Choose(3)) * time.Second)
				return doStop
			}, closed: func() { close(closed) }, ev: true}
			p := newPipes(2, 1, b)
			g := p.NewRequestGroup()
			for j := 0; j < 3; j++ {
				mustAccept(submitReq(bg(), g, 0, j))
			}
			p.Close()
			drained := make(chan struct{})
			go func() {
				time.Sleep(10 * time.Second)
				drain(g, 0, func(r preq) { time.Sleep(time.Second) })
				close(drained)
			}()
			g.Close()
			<-drained
			<-closed
		},
		Check: func(x *X) error { return all(checkDelivered(x, 1), checkClosed(x, 1)) },
	})
	// Refused submissions before the close do not keep the pipelines alive.
	Reg(&Scenario{Name: "pclose-refused", Props: []string{"T06", "T07"}, QK: 2, TK: 3, AllowLive: 1, Setup: warmPipes,
		Body: func(x *X) {
			var o []stagedpipe.Option[pdata]
			if Choose(2) == 1 {
				o = append(o, ordered)
			}
			closed := make(chan struct{})
			p := newPipes(1, 1, &smBase{plan: yieldPlan, closed: func() { close(closed) }}, o...)
			g := p.NewRequestGroup()
			drained := make(chan struct{})
			go func() {
				drain(g, 0, nil)
				close(drained)
			}()
			ctx, cancel := context.WithCancel(bg())
			cancel()
			submitReq(ctx, g, 0, 0)
			mustAccept(submitReq(bg(), g, 0, 1))
			submitReq(ctx, g, 0, 2)
			g.Close()
			<-drained
			p.Close()
			<-closed
		},
		Check: func(x *X) error { return all(checkDelivered(x, 1), checkClosed(x, 1)) },
	})
}

// T07: saturated pipelines.
func initSubmit() {
	for _, v := range []struct {
		name   string
		o      []stagedpipe.Option[pdata]
		nsub   int // concurrent submitters that are cancelled
		qk, tk int
		race   bool
	}{
		{"", nil, 1, 2, 3, true},
		{"-ord", []stagedpipe.Option[pdata]{stagedpipe.Ordered[pdata]()}, 1, 2, 3, true},
		{"-two", nil, 2, 1, 2, false},
		{"-ord-two", []stagedpipe.Option[pdata]{stagedpipe.Ordered[pdata]()}, 2, 1, 2, false},
		{"-dag", []stagedpipe.Option[pdata]{stagedpipe.DAG[pdata]()}, 1, 1, 2, false},
	} {
		Reg(&Scenario{Name: "sat-cancel" + v.name, Props: []string{"T07", "D01"}, QK: v.qk, TK: v.tk, Race: v.race, RK: 1, AllowLive: 1, Setup: warmPipes,
			Body: func(x *X) {
				gate := make(chan struct{})
				p := newPipes(1, 1, &smBase{plan: func(r *preq, vis int, stage byte) int {
					<-gate
					return doStop
				}}, v.o...)
				g := p.NewRequestGroup()
				drained := make(chan struct{})
				go func() {
					drain(g, 0, nil)
					close(drained)
				}()
				// One in the stage and one that waits: everything after that blocks.
				mustAccept(submitReq(bg(), g, 0, 0))
				mustAccept(submitReq(bg(), g, 0, 1))
				must(g.Submit(preq{Data: pdata{ID: 5}}) != nil, "a request without a context was accepted")
				ctx, cancel := context.WithCancel(bg())
				done := make(chan struct{}, 4)
				for s := 0; s < v.nsub; s++ {
					go func() {
						err := submitReq(ctx, g, 0, 2+s)
						if err != nil && err != context.Canceled {
							Fail("Submit returned %v", err)
						}
						done <- struct{}{}
					}()
				}
				P()
				cancel()
				// The gate is still closed, so that only the cancellation can help.
				for s := 0; s < v.nsub; s++ {
					<-done
				}
				close(gate)
				mustAccept(submitReq(bg(), g, 0, 8))
				must(g.Submit(preq{Data: pdata{ID: 6}}) != nil, "a request without a context was accepted")
				g.Close()
				<-drained
				p.Close()
			},
			Check: func(x *X) error { return all(checkDelivered(x, 1), checkClosed(x, 1)) },
		})
		// The same with a deadline, and a consumer that does not drain for a while.
		Reg(&Scenario{Name: "sat-deadline" + v.name, Props: []string{"T07"}, QK: min(v.qk, 1), TK: 2, AllowLive: 1, Setup: warmPipes,
			Body: func(x *X) {
				p := newPipes(1, 1, &smBase{plan: func(r *preq, vis int, stage byte) int {
					time.Sleep(time.Second)
					return doStop
				}}, v.o...)
				g := p.NewRequestGroup()
				for j := 0; j < 12; j++ {
					ctx, cancel := context.WithTimeout(bg(), 5*time.Second)
					err := submitReq(ctx, g, 0, j)
					if err != nil && err != context.DeadlineExceeded {
						Fail("Submit returned %v", err)
					}
					if err != nil && ctx.Err() == nil {
						Fail("Submit was refused before the deadline")
					}
					_ = cancel
					if err != nil {
						break
					}
				}
				drained := make(chan struct{})
				go func() {
					drain(g, 0, nil)
					close(drained)
				}()
				mustAccept(submitReq(bg(), g, 0, 20))
				g.Close()
				<-drained
				p.Close()
			},
			Check: func(x *X) error { return all(checkDelivered(x, 1), checkClosed(x, 1)) },
		})
	}
	// No context at all, first and later, on a group that is used otherwise or not.
	for _, ord := range []bool{false, true} {
		n := "nilctx"
		var o []stagedpipe.Option[pdata]
		if ord {
			n += "-ord"
			o = append(o, stagedpipe.Ordered[pdata]())
		}
		Reg(&Scenario{Name: n, Props: []string{"T07"}, QK: 1, TK: 2, AllowLive: 1, Setup: warmPipes,
			Body: func(x *X) {
				p := newPipes(1, 1, &smBase{plan: yieldPlan}, o...)
				g := p.NewRequestGroup()
				drained := make(chan struct{})
				go func() {
					drain(g, 0, nil)
					close(drained)
				}()
				for j := 0; j < 3; j++ {
					if Choose(2) == 0 {
						must(g.Submit(preq{Data: pdata{ID: 9}}) != nil, "a request without a context was accepted")
					} else {
						mustAccept(submitReq(bg(), g, 0, j))
					}
				}
				g.Close()
				<-drained
				p.Close()
			},
			Check: func(x *X) error { return all(checkDelivered(x, 1), checkClosed(x, 1)) },
		})
	}
}

// T08.
func initStats() {
	for _, v := range []struct {
		num, stages, groups, reqs int
		zero                      bool
		qk, tk                    int
	}{
		{1, 1, 1, 1, true, 2, 3}, {1, 1, 1, 2, true, 1, 2}, {1, 1, 1, 3, false, 0, 1}, {2, 1, 1, 3, true, 0, 1}, {1, 2, 1, 2, false, 0, 1}, {2, 1, 2, 2, false, 0, 1}, {3, 1, 1, 4, true, -1, 0},
	} {
		unit := time.Second
		switch {
		case v.reqs == 3 && v.num == 1:
			unit = 100 * time.Hour
		case v.groups == 2:
			unit = 1
		}
		Reg(&Scenario{Name: fmt.Sprintf("stats-n%ds%dg%dr%d", v.num, v.stages, v.groups, v.reqs), Props: []string{"T08"}, QK: v.qk, TK: v.tk, AllowLive: 1, Setup: warmPipes,
			Body: func(x *X) {
				b := &smBase{}
				b.plan = func(r *preq, vis int, stage byte) int {
					var d int
					if v.zero {
						d = Choose(3)
					} else {
						d = 1 + Choose(3)
					}
					if vis+1 < v.stages {
						time.Sleep(time.Duration(d) * 12 * unit)
						return doB + vis
					}
					time.Sleep(time.Duration(d) * 24 * unit)
					return doStop
				}
				p := newPipes(v.num, v.stages, b)
				must(p.Stats() == stagedpipe.Stats{}, "statistics before the first request: %+v", p.Stats())
				gs := make([]*pgroup, v.groups)
				drained := make(chan struct{}, v.groups)
				for i := range gs {
					gs[i] = p.NewRequestGroup()
					go func() {
						drain(gs[i], i, nil)
						drained <- struct{}{}
					}()
				}
				for j := 0; j < v.reqs; j++ {
					for i := range gs {
						mustAccept(submitReq(bg(), gs[i], i, i*10+j))
						if Choose(2) == 1 {
							time.Sleep(12 * time.Second)
						}
					}
				}
				for i := range gs {
					gs[i].Close()
				}
				for range gs {
					<-drained
				}
				s := p.Stats()
				p.Close()
				must(s == p.Stats(), "the statistics changed without a request")
				// What has to come out.
				var n, sum, qsum, mn, mx, qmn, qmx int64
				for _, e := range evNow() {
					if e.Code != pvLast {
						continue
					}
					ev := evNow()
					sub, st := ev[pos(ev, pvSub, int(e.A))].T, ev[pos(ev, pvStart, int(e.A))].T
					d, q := e.T-st, st-sub
					if n == 0 || d < mn {
						mn = d
					}
					if n == 0 || q < qmn {
						qmn = q
					}
					mx, qmx = max(mx, d), max(qmx, q)
					sum += d
					qsum += q
					n++
				}
				must(int(n) == v.groups*v.reqs, "only %d requests ran", n)
				must(s.Completed == n && s.Running == 0, "%d requests were processed, the statistics say %d completed and %d running", n, s.Completed, s.Running)
				must(int64(s.Min) == mn && int64(s.Max) == mx, "processing took %v to %v, the statistics say %v to %v", time.Duration(mn), time.Duration(mx), s.Min, s.Max)
				must(avgOK(s.Avg, sum, n), "processing took %v on average, the statistics say %v", time.Duration(sum/n), s.Avg)
				must(int64(s.IngestStats.Min) == qmn && int64(s.IngestStats.Max) == qmx, "queueing took %v to %v, the statistics say %v to %v", time.Duration(qmn), time.Duration(qmx), s.IngestStats.Min, s.IngestStats.Max)
				must(avgOK(s.IngestStats.Avg, qsum, n), "queueing took %v on average, the statistics say %v", time.Duration(qsum/n), s.IngestStats.Avg)
				Ev(pvStat, int(mn/1e9), int(qmx/1e9))
			},
			Check: func(x *X) error { return checkDelivered(x, v.groups) },
		})
	}
	// Requests that fail, are cancelled, or are cyclic count as well.
	Reg(&Scenario{Name: "stats-failed", Props: []string{"T08"}, QK: 1, TK: 2, AllowLive: 1, Setup: warmPipes,
		Body: func(x *X) {
			ctx, cancel := context.WithCancel(bg())
			b := &smBase{cancel: func(int) { cancel() }, plan: func(r *preq, vis int, stage byte) int {
				switch r.Data.ID {
				case 0:
					return doErr
				case 1:
					return doA
				case 2:
					return doCancel
				}
				return doStop
			}}
			p := newPipes(1, 2, b, stagedpipe.DAG[pdata]())
			g := p.NewRequestGroup()
			n := 0
			for j := 0; j < 5; j++ {
				c := bg()
				if j == 2 || j == 3 {
					c = ctx
				}
				if submitReq(c, g, 0, j) == nil {
					n++
					r := <-g.Out()
					Ev(pvOut, r.Data.ID, 0)
					s := p.Stats()
					must(s.Completed == int64(n) && s.Running == 0, "%d requests were processed, the statistics say %d completed and %d running", n, s.Completed, s.Running)
				} else {
					must(j == 3, "request %d was refused", j)
					s := p.Stats()
					must(s.Completed == int64(n) && s.Running == 0, "%d requests were processed, the statistics say %d completed and %d running", n, s.Completed, s.Running)
				}
			}
			g.Close()
			drain(g, 0, nil)
			p.Close()
		},
		Check: func(x *X) error { return checkDelivered(x, 1) },
	})
	// An observer while requests are in flight.
	for _, v := range []struct {
		name   string
		num    int
		reqs   int
		obs    int
		qk, tk int
		race   bool
	}{{"n1", 1, 2, 2, 2, 3, true}, {"n2", 2, 2, 2, 2, 2, true}, {"n2r3", 2, 3, 3, 1, 2, false}} {
		Reg(&Scenario{Name: "stats-live-" + v.name, Props: []string{"T08", "D01"}, QK: v.qk, TK: v.tk, Race: v.race, RK: 1, AllowLive: 1, Setup: warmPipes,
			Body: func(x *X) {
				p := newPipes(v.num, 1, &smBase{plan: yieldPlan})
				g := p.NewRequestGroup()
				drained := make(chan struct{}, 2)
				go func() {
					drain(g, 0, nil)
					drained <- struct{}{}
				}()
				go func() {
					for i := 0; i < v.obs; i++ {
						Ev(pvStat, i, 0)
						s := p.Stats()
						Ev(pvStat2, int(s.Running), int(s.Completed))
					}
					drained <- struct{}{}
				}()
				for j := 0; j < v.reqs; j++ {
					mustAccept(submitReq(bg(), g, 0, j))
				}
				g.Close()
				<-drained
				<-drained
				s := p.Stats()
				must(s.Running == 0 && int(s.Completed) == v.reqs, "%d requests were processed, the statistics say %d completed and %d running", v.reqs, s.Completed, s.Running)
				p.Close()
			},
			Check: func(x *X) error {
				subs, outs, outsBefore, last := 0, 0, 0, int64(0)
				for _, e := range x.Ev {
					switch e.Code {
					case pvSub:
						subs++
					case pvOut:
						outs++
					case pvStat:
						outsBefore = outs
					case pvStat2:
						if e.A < 0 || int(e.A) > subs-outsBefore {
							return fmt.Errorf("the statistics say %d requests run while at most %d are in flight", e.A, subs-outsBefore)
						}
						if e.B < last || int(e.B) > subs {
							return fmt.Errorf("the completed count is %d after %d, with %d requests submitted", e.B, last, subs)
						}
						last = e.B
					}
				}
				return checkDelivered(x, 1)
			},
		})
	}
	// Running counts what is in the stages: exact while everything is held.
	Reg(&Scenario{Name: "stats-held", Props: []string{"T08"}, QK: 1, TK: 2, AllowLive: 1, Setup: warmPipes,
		Body: func(x *X) {
			in := make(chan struct{}, 4)
			gate := make(chan struct{})
			p := newPipes(2, 1, &smBase{plan: func(r *preq, vis int, stage byte) int {
				in <- struct{}{}
				<-gate
				return doStop
			}})
			g := p.NewRequestGroup()
			drained := make(chan struct{})
			go func() {
				drain(g, 0, nil)
				close(drained)
			}()
			for j := 0; j < 2; j++ {
				mustAccept(submitReq(bg(), g, 0, j))
				<-in
			}
			s := p.Stats()
			must(s.Running >= 0 && s.Running <= 2 && s.Completed == 0, "two requests are in a stage, the statistics say %d running and %d completed", s.Running, s.Completed)
			gate <- struct{}{}
			gate <- struct{}{}
			g.Close()
			<-drained
			s = p.Stats()
			must(s.Running == 0 && s.Completed == 2, "two requests were processed, the statistics say %d completed and %d running", s.Completed, s.Running)
			p.Close()
		},
	})
}

// T09.
func initChurn() {
	for _, v := range []struct {
		name          string
		num           int
		gor, rounds   int
		reqs          []int // requests of goroutine i in each round
		traffic       int   // requests of a steady group
		o             []stagedpipe.Option[pdata]
		qk, tk        int
		race          bool
		wait          bool // close the group only when everything came out
		consumerFirst bool
	}{
		{"2x0", 1, 2, 1, []int{0, 0}, 0, nil, 2, 3, true, false, false},
		{"2x1", 1, 2, 1, []int{1, 1}, 0, nil, 1, 2, true, false, false},
		{"2x2rounds", 2, 2, 2, []int{1, 0}, 0, nil, 1, 2, false, false, false},
		{"3x0", 1, 3, 1, []int{0, 0, 0}, 0, nil, 1, 2, false, false, false},
		{"3x1", 2, 3, 1, []int{1, 0, 1}, 0, nil, 1, 2, false, false, false},
		{"traffic", 1, 1, 2, []int{0}, 2, nil, 1, 2, true, false, false},
		{"traffic2", 2, 2, 1, []int{1, 0}, 2, nil, 1, 2, false, false, false},
		{"2x1-ord", 1, 2, 1, []int{1, 1}, 0, []stagedpipe.Option[pdata]{stagedpipe.Ordered[pdata]()}, 1, 2, true, false, false},
		{"traffic-ord", 2, 1, 2, []int{1}, 2, []stagedpipe.Option[pdata]{stagedpipe.Ordered[pdata]()}, 1, 2, false, false, false},
	} {
		Reg(&Scenario{Name: "churn-" + v.name, Props: []string{"T09", "T01", "D01"}, QK: v.qk, TK: v.tk, Race: v.race, RK: 1, AllowLive: 1, Setup: warmPipes,
			Body: func(x *X) {
				p := newPipes(v.num, 1, &smBase{plan: yieldPlan}, v.o...)
				done := make(chan struct{}, 8)
				use := func(gi, n int) {
					g := p.NewRequestGroup()
					drained := make(chan struct{})
					go func() {
						drain(g, gi, nil)
						close(drained)
					}()
					for j := 0; j < n; j++ {
						mustAccept(submitReq(bg(), g, gi, gi*10+j))
					}
					g.Close()
					Ev(pvGC, gi, 0)
					<-drained
				}
				if v.traffic > 0 {
					go func() {
						use(0, v.traffic)
						done <- struct{}{}
					}()
				}
				for i := 0; i < v.gor; i++ {
					go func() {
						for r := 0; r < v.rounds; r++ {
							use(1+i*v.rounds+r, v.reqs[i])
						}
						done <- struct{}{}
					}()
				}
				for i := 0; i < v.gor+b2i(v.traffic > 0); i++ {
					<-done
				}
				p.Close()
			},
			Check: func(x *X) error {
				for g := b2i(v.traffic == 0); g <= v.gor*v.rounds; g++ {
					if pos(x.Ev, pvClosed, g) < 0 {
						return fmt.Errorf("the output of group %d was not closed", g)
					}
				}
				return all(checkDelivered(x, 0), checkClosed(x, 1))
			},
		})
	}
	// Close is called at once and the output is drained by the same goroutine
	// afterwards, as long as everything fits.
	// While a group waits to be closed because a stage holds its request, others
	// are used, made and closed.
	for _, ord := range []bool{false, true} {
		name := "churn-stuck"
		var o []stagedpipe.Option[pdata]
		if ord {
			name += "-ord"
			o = append(o, stagedpipe.Ordered[pdata]())
		}
		Reg(&Scenario{Name: name, Props: []string{"T09"}, QK: 1, TK: 2, AllowLive: 1, Setup: warmPipes,
			Body: func(x *X) {
				gate := make(chan struct{})
				p := newPipes(2, 1, &smBase{plan: func(r *preq, vis int, stage byte) int {
					if r.Data.ID == 0 {
						<-gate
					}
					return doStop
				}}, o...)
				drained := make(chan struct{}, 2)
				g0, g1 := p.NewRequestGroup(), p.NewRequestGroup()
				mustAccept(submitReq(bg(), g0, 0, 0))
				for i, g := range []*pgroup{g0, g1} {
					go func() {
						drain(g, i, nil)
						drained <- struct{}{}
					}()
				}
				closed := make(chan struct{})
				go func() {
					g0.Close()
					close(closed)
				}()
				P()
				mustAccept(submitReq(bg(), g1, 1, 1))
				g1.Close()
				<-drained
				g2 := p.NewRequestGroup()
				mustAccept(submitReq(bg(), g2, 2, 2))
				r := <-g2.Out()
				Ev(pvOut, r.Data.ID, 2)
				g2.Close()
				_, ok := <-g2.Out()
				must(!ok, "something came out after the last request")
				Ev(pvClosed, 2, 0)
				close(gate)
				<-closed
				<-drained
				p.Close()
			},
			Check: func(x *X) error { return all(checkDelivered(x, 3), checkClosed(x, 1)) },
		})
	}
	Reg(&Scenario{Name: "churn-unused", Props: []string{"T09"}, QK: 3, TK: 4, AllowLive: 1, Setup: warmPipes,
		Body: func(x *X) {
			p := newPipes(1, 1, &smBase{})
			for i := 0; i < 3; i++ {
				g := p.NewRequestGroup()
				g.Close()
				_, ok := <-g.Out()
				must(!ok, "an unused group delivered a request")
			}
			p.Close()
		},
	})
	// Many groups at once; each one's id is its own.
	Reg(&Scenario{Name: "churn-many", Props: []string{"T09", "T01"}, QK: 0, TK: 1, AllowLive: 1, Setup: warmPipes,
		Body: func(x *X) {
			p := newPipes(2, 2, &smBase{plan: routePlan(2)})
			drained := make(chan struct{}, 8)
			var gs []*pgroup
			for i := 0; i < 6; i++ {
				g := p.NewRequestGroup()
				gs = append(gs, g)
				go func() {
					drain(g, i, nil)
					drained <- struct{}{}
				}()
			}
			for j := 0; j < 2; j++ {
				for i, g := range gs {
					mustAccept(submitReq(bg(), g, i, i*10+j))
				}
				gs[j*2].Close()
				gs = append(gs[:j*2:j*2], gs[j*2+1:]...)
				// The remaining groups keep their numbers through the ids below.
				break
			}
			for i := range gs {
				mustAccept(submitReq(bg(), gs[i], i+1, (i+1)*10+5))
			}
			for _, g := range gs {
				g.Close()
			}
			for i := 0; i < 6; i++ {
				<-drained
			}
			p.Close()
		},
		Check: func(x *X) error { return all(checkDelivered(x, 6), checkClosed(x, 1)) },
	})
}

// T10.
func initDelay() {
	// Virtual time: the requests of one pipeline, a consumer that sleeps.
	for _, v := range []struct {
		name    string
		reqs    int
		sleeps  []int // seconds, chosen for each delivery
		work    int   // seconds a stage takes
		ordered bool
		qk, tk  int
	}{
		{"fast", 10, []int{0, 1}, 1, false, 0, 0},
		{"slow", 11, []int{5, 11}, 1, false, 0, 0},
		{"mixed", 12, []int{1, 9}, 0, false, 0, 0},
		{"slow-k", 10, []int{9}, 1, false, 1, 1},
		{"slow-ord", 11, []int{5, 11}, 1, true, 0, 0},
		{"long", 12, []int{3, 17}, 2, false, 0, 0},
		{"days", 11, []int{3, 17}, 2, false, 0, 0},
		{"nanos", 11, []int{5, 11}, 1, true, 0, 0},
	} {
		period, unit := 4*time.Second, time.Second
		switch v.name {
		case "days":
			period, unit = period*100000, unit*100000
		case "nanos":
			period, unit = 40, 10
		}
		o := []stagedpipe.Option[pdata]{stagedpipe.DelayWarning[pdata](period)}
		if v.ordered {
			o = append(o, stagedpipe.Ordered[pdata]())
		}
		Reg(&Scenario{Name: "delay-" + v.name, Props: []string{"T10"}, QK: v.qk, TK: v.tk, AllowLive: 1, CaptureLog: true, Setup: warmPipes,
			Body: func(x *X) {
				p := newPipes(1, 1, &smBase{plan: func(r *preq, vis int, stage byte) int {
					time.Sleep(time.Duration(v.work) * unit)
					return doStop
				}}, o...)
				g := p.NewRequestGroup()
				drained := make(chan struct{})
				go func() {
					for r := range g.Out() {
						Ev(pvOut, r.Data.ID, 0)
						must(r.Err == nil && r.Data.Trail == "A", "request %d came out with %q, %v", r.Data.ID, r.Data.Trail, r.Err)
						// Half a unit more: no two events coincide with a warning.
						time.Sleep(time.Duration(v.sleeps[Choose(len(v.sleeps))])*unit + unit/2)
					}
					Ev(pvClosed, 0, 0)
					close(drained)
				}()
				for j := 0; j < v.reqs; j++ {
					mustAccept(submitReq(bg(), g, 0, j))
				}
				g.Close()
				<-drained
				p.Close()
			},
			Check: func(x *X) error {
				if err := all(checkDelivered(x, 1), checkOrder(x, 1), checkClosed(x, 1)); err != nil {
					return err
				}
				// The only runner was blocked from the end of request j to the
				// start of request j+1, where that one was submitted already.
				type iv struct{ from, to int64 }
				var blocked []iv
				at := func(code, id int) int64 { return x.Ev[pos(x.Ev, code, id)].T }
				for j := 0; j < v.reqs; j++ {
					from := at(pvLast, j)
					to := at(pvOut, j)
					if j+1 < v.reqs {
						to = at(pvStart, j+1)
						if at(pvAcc, j+1) > from {
							// It may have waited for its successor: the end is not known.
							blocked = append(blocked, iv{from, min(to, at(pvOut, j))})
							continue
						}
					}
					blocked = append(blocked, iv{from, to})
					if j+1 < v.reqs {
						n := 0
						for _, l := range x.logs {
							if l.t >= from && l.t <= to {
								n++
							}
						}
						if w := int((to - from) / int64(period)); n < w {
							return fmt.Errorf("the delivery of request %d was blocked for %v and %d warnings were logged", j, time.Duration(to-from), n)
						}
					}
				}
				for _, l := range x.logs {
					ok := false
					for _, b := range blocked {
						ok = ok || l.t >= b.from+int64(period) && l.t <= b.to
					}
					if !ok {
						return fmt.Errorf("a warning was logged at %v although no delivery was blocked for %v: %s", time.Duration(l.t), period, strings.TrimSpace(l.s))
					}
				}
				return nil
			},
			Outcome: func(x *X) string { return fmt.Sprint(len(x.logs), x.Res.End) },
		})
	}
	// The warning fires at any moment.
	const period = 4 * time.Second
	for _, v := range []struct {
		name   string
		num    int
		reqs   int
		ord    bool
		qk, tk int
	}{{"n1", 1, 2, false, 2, 3}, {"n1r4", 1, 4, false, 1, 2}, {"n2", 2, 3, false, 1, 2}, {"n2-ord", 2, 3, true, 1, 2}} {
		o := []stagedpipe.Option[pdata]{stagedpipe.DelayWarning[pdata](period)}
		if v.ord {
			o = append(o, stagedpipe.Ordered[pdata]())
		}
		Reg(&Scenario{Name: "delay-any-" + v.name, Props: []string{"T10", "T01"}, QK: v.qk, TK: v.tk, Clock: true, CaptureLog: true, AllowLive: 1, Setup: warmPipes,
			Body: func(x *X) {
				flow(v.num, 1, 1, v.reqs, false, false, &smBase{plan: yieldPlan}, o...)
			},
			Check: func(x *X) error {
				err := all(checkDelivered(x, 1), checkClosed(x, 1))
				if err == nil && v.ord {
					err = checkOrder(x, 1)
				}
				return err
			},
		})
	}
	// Nothing is delivered for a while, then everything.
	Reg(&Scenario{Name: "delay-stuck", Props: []string{"T10", "T01"}, QK: 1, TK: 2, CaptureLog: true, AllowLive: 1, Setup: warmPipes,
		Body: func(x *X) {
			p := newPipes(2, 1, &smBase{plan: yieldPlan}, stagedpipe.DelayWarning[pdata](period))
			g := p.NewRequestGroup()
			drained := make(chan struct{})
			go func() {
				time.Sleep(21 * time.Second)
				drain(g, 0, nil)
				close(drained)
			}()
			for j := 0; j < 14; j++ {
				mustAccept(submitReq(bg(), g, 0, j))
			}
			g.Close()
			<-drained
			p.Close()
		},
		Check: func(x *X) error {
			if len(x.logs) == 0 {
				return errors.New("deliveries were blocked for 20s and no warning was logged")
			}
			return all(checkDelivered(x, 1), checkClosed(x, 1))
		},
		Outcome: func(x *X) string { return fmt.Sprint(len(x.logs)) },
	})
	// Without the option nothing is logged.
	Reg(&Scenario{Name: "delay-off", Props: []string{"T10"}, QK: 1, TK: 2, CaptureLog: true, AllowLive: 1, Setup: warmPipes,
		Body: func(x *X) {
			var o []stagedpipe.Option[pdata]
			if Choose(2) == 1 {
				o = append(o, stagedpipe.DelayWarning[pdata](0))
			}
			p := newPipes(1, 1, &smBase{}, o...)
			g := p.NewRequestGroup()
			drained := make(chan struct{})
			go func() {
				time.Sleep(time.Hour)
				drain(g, 0, nil)
				close(drained)
			}()
			for j := 0; j < 6; j++ {
				mustAccept(submitReq(bg(), g, 0, j))
			}
			g.Close()
			<-drained
			p.Close()
		},
		Check: func(x *X) error {
			if len(x.logs) != 0 {
				return fmt.Errorf("a warning was logged without the option: %s", x.logs[0].s)
			}
			return checkDelivered(x, 1)
		},
	})
}

// avgOK allows any rounding to a nanosecond.
func avgOK(avg time.Duration, sum, n int64) bool {
	d := int64(avg)*n - sum
	return d > -n && d < n
}
