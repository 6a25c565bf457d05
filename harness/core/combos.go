package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
	"github.com/gostdlib/concurrency/prim/chans"
	"github.com/gostdlib/concurrency/prim/slices"
	"github.com/gostdlib/concurrency/prim/wait"
)

// Features used together.
func init() {
	// The options of the parallel operations repeated, in any order, and with
	// options of the pool; one element at a time.
	for api := 0; api < 3; api++ {
		prop := []string{"S02", "C02", "C02"}[api]
		for _, mode := range []int{poolNone, poolLim1, poolPooled1} {
			Reg(&Scenario{Name: fmt.Sprintf("par-opts-%s-%s", apiNames[api], poolNames[mode]), Props: []string{prop, "C03"}[:1+b2i(api == 2)], QK: 1, TK: 2, NCPU: 1,
				Body: func(x *X) {
					p, _ := mkPool(mode)
					order := "-s:ss:ps:sp:sps:psp:ssp"
					if mode == poolNone {
						order = "-s:ss:sss"
					}
					list := splitList(order)
					use := list[Choose(len(list))]
					var po []goroutines.SubmitOption
					if mode != poolNone {
						for i := Choose(3); i > 0; i-- {
							po = append(po, caller(b2i(mode == poolPooled1)))
						}
					}
					var so []slices.SliceOption
					var co []chans.Option
					for _, c := range use {
						switch c {
						case 's':
							so, co = append(so, slices.WithStopOnErr()), append(co, chans.WithStopOnErr())
						case 'p':
							so, co = append(so, slices.WithPoolOptions(p, po...)), append(co, chans.WithPoolOptions(p, po...))
						}
					}
					const n = 4
					mask := Choose(1 << (n - 1))
					bad := -1
					one := poolSize(mode) != 0 || mode == poolNone && api > 0
					f := func(ctx context.Context, i int) error {
						a := Ctr(0, 1)
						must(!one || a == 1, "%d accessors run at the same time", a)
						must(!one || bad < 0, "element %d was accessed after the accessor of element %d had failed", i, bad)
						Ev(evStart, i, 0)
						P()
						Ev(evEnd, i, 0)
						Ctr(0, -1)
						if mask>>i&1 == 1 {
							bad = i
							return errs[i]
						}
						return nil
					}
					var err error
					if api == 0 {
						err = slices.Access(bg(), make([]int, n), func(ctx context.Context, i, v int, m slices.Modifier[int]) error { return f(ctx, i) }, so...)
					} else {
						in := make(chan int, n)
						for i := 0; i < n; i++ {
							in <- i
						}
						close(in)
						if api == 1 {
							err = chans.Access(bg(), in, f, co...)
						} else {
							out := make(chan chans.StreamResult[int], n)
							err = callModify(bg(), in, out, func(ctx context.Context, i int) (int, error) { return i, f(ctx, i) }, co...)
							for range out {
							}
						}
					}
					Ev(evWaited, 0, 0)
					failed, skipped, match := 0, 0, false
					for i := 0; i < n; i++ {
						if pos(evNow(), evStart, i) < 0 {
							skipped++
						} else if mask>>i&1 == 1 {
							failed++
							match = match || errors.Is(err, errs[i])
						}
					}
					must((err == nil) == (failed == 0), "the call returned %v; %d accessors failed, %d elements were skipped", err, failed, skipped)
					must(skipped == 0 || failed > 0, "%d elements were skipped although nothing had failed", skipped)
					must(failed == 0 || match, "the error %v matches no failed accessor", err)
					if p != nil {
						p.Close()
					}
				},
				Check: func(x *X) error { return accessed(x.Ev, 4, false) },
			})
		}
	}

	// Contexts that have ended, or end, in every way: the running accessors can
	// see it, and the error tells.
	for api := 0; api < 4; api++ {
		name := append(apiNames[:3:3], "wait")[api]
		props := [][]string{{"S02"}, {"C02"}, {"C02", "C03"}, {"W03", "W02"}}[api]
		for mode := 0; mode < nPoolModes; mode++ {
			run := func(c *parCall, ctx context.Context, f func(context.Context, int) error) error {
				if api < 3 {
					return c.run(ctx, f)
				}
				g := wait.Group{Pool: c.pool, PoolOptions: c.po}
				for i := 0; i < c.n; i++ {
					g.Go(ctx, func(ctx context.Context) error { return f(ctx, i) })
				}
				return g.Wait(bg())
			}
			Reg(&Scenario{Name: "ends-" + name + "-" + poolNames[mode], Props: props, QK: 1, TK: 2,
				Body: func(x *X) {
					p, o := mkPool(mode)
					const n = 3
					c := &parCall{api: api, n: n, pool: p, po: o, stop: Choose(2) == 1}
					how, before, fail := Choose(4), Choose(2) == 1, Choose(2) == 1
					ctx := withID(bg(), 5)
					var cancel func()
					switch how {
					case 0:
						ctx, cancel = context.WithCancel(ctx)
					case 1:
						c, f := context.WithCancelCause(ctx)
						ctx, cancel = c, func() { f(errs[1]) }
					case 2:
						c, f := context.WithTimeout(ctx, time.Second)
						defer f()
						ctx, cancel = c, func() { time.Sleep(2 * time.Second) }
					case 3:
						c, f := context.WithDeadlineCause(ctx, time.Now().Add(time.Second), errs[2])
						defer f()
						ctx, cancel = c, func() { time.Sleep(2 * time.Second) }
					}
					want := context.Canceled
					if how >= 2 {
						want = context.DeadlineExceeded
					}
					done := make(chan bool)
					if before {
						cancel()
						close(done)
					} else {
						go func() { cancel(); close(done) }()
					}
					ran := 0
					err := run(c, ctx, func(ctx context.Context, i int) error {
						must(!before, "element %d was accessed although the context had ended", i)
						must(idOf(ctx) == 5, "the accessor does not run with the context of the call")
						ran++
						<-ctx.Done() // must not need anything else
						must(errors.Is(ctx.Err(), want), "the context of an accessor ended with %v", ctx.Err())
						if fail && i == 0 {
							return errs[0]
						}
						return nil
					})
					<-done
					must(ran == n || err != nil, "%d of %d elements were accessed and nil was returned", ran, n)
					must(ran < n || fail || err == nil || api == 1 || api == 2, "all elements were accessed and %v was returned", err)
					ok := errors.Is(err, want)
					if fail && ran > 0 {
						ok = ok || errors.Is(err, errs[0])
					}
					must(err == nil || ok, "the call returned %v", err)
					if p != nil {
						p.Close()
					}
				},
			})
		}
	}

	// Jobs and stages see the end of the context they were submitted with, with
	// and without a span.
	for kind := 0; kind < 3; kind++ {
		name := append(kindNames[:2:2], "pipe")[kind]
		props := [][]string{{"P01"}, {"P01"}, {"T03", "T11"}}[kind]
		Reg(&Scenario{Name: "ends-seen-" + name, Props: props, QK: 1, TK: 2, AllowLive: b2i(kind == 2), Setup: warmSpans,
			Body: func(x *X) {
				const n = 2
				how, traced, nb := Choose(3), Choose(2) == 1, Choose(2)
				rec := &recorder{}
				var ends []func()
				var cs []context.Context
				for i := 0; i < n; i++ {
					ctx := withID(bg(), i)
					if traced {
						ctx, _ = rec.rootSpan(ctx)
					}
					var cancel func()
					switch how {
					case 0:
						ctx, cancel = context.WithCancel(ctx)
					case 1:
						c, f := context.WithTimeout(ctx, time.Second)
						defer f()
						ctx, cancel = c, func() { time.Sleep(2 * time.Second) }
					case 2:
						c, f := context.WithCancelCause(ctx)
						ctx, cancel = c, func() { f(errs[i]) }
					}
					cs, ends = append(cs, ctx), append(ends, cancel)
				}
				want := context.Canceled
				if how == 1 {
					want = context.DeadlineExceeded
				}
				see := func(c context.Context, id int) {
					must(idOf(c) == id, "%d runs with the context of %d", id, idOf(c))
					d, ok := c.Deadline()
					wd, wok := cs[id].Deadline()
					must(ok == wok && d.Equal(wd), "%d has the deadline %v, %v instead of %v, %v", id, d, ok, wd, wok)
					<-c.Done()
					must(c.Err() == want, "the context of %d ended with %v", id, c.Err())
					must(how != 2 || context.Cause(c) == errs[id], "the cause is %v", context.Cause(c))
				}
				if kind < 2 {
					p := mustPool(kind, n)
					for i := 0; i < n; i++ {
						submit1(p, cs[i], func(c context.Context) {
							Ev(evStart, i, idOf(c))
							see(c, i)
							Ev(evEnd, i, 0)
						}, submitOpts(kind, nb)...)
					}
					for _, e := range ends {
						e()
					}
					p.Close()
					for i := 0; i < n; i++ {
						must(num(evNow(), evEnd, i) == 1, "job %d ended %d times", i, num(evNow(), evEnd, i))
					}
					return
				}
				in := make(chan bool, n)
				p := newPipes(n, 2, &smBase{plan: func(r *preq, vis int, stage byte) int {
					must(vis == 0, "a stage ran although the context had ended")
					in <- true
					see(r.Ctx, r.Data.ID)
					return doB
				}})
				g := p.NewRequestGroup()
				for i := 0; i < n; i++ {
					mustAccept(submitReq(cs[i], g, 0, i))
				}
				for i := 0; i < n; i++ {
					<-in
				}
				for _, e := range ends {
					e()
				}
				go g.Close()
				got := 0
				drain(g, 0, func(r preq) {
					must(r.Err == want, "request %d came out with %v", r.Data.ID, r.Err)
					must(idOf(r.Ctx) == r.Data.ID && r.Ctx.Err() == want, "request %d came out with the context of %d, which ended with %v", r.Data.ID, idOf(r.Ctx), r.Ctx.Err())
					got++
				})
				must(got == n, "%d of %d requests were delivered", got, n)
				p.Close()
			},
		})
	}

	// Requests that are cancelled while several of them are in the stages: the
	// statistics are exact when they are out.
	for _, num := range []int{2, 3} {
		Reg(&Scenario{Name: fmt.Sprintf("stats-cancelled-n%d", num), Props: []string{"T08", "T01"}, QK: 0, TK: 1, AllowLive: 1, Setup: warmPipes,
			Body: func(x *X) {
				in := make(chan struct{}, num)
				gate := make(chan struct{})
				mask := Choose(1 << num)
				how := Choose(3)
				b := &smBase{plan: func(r *preq, vis int, stage byte) int {
					if vis == 0 {
						in <- struct{}{}
						<-gate
						switch {
						case how == 1 && r.Data.ID%2 == 0:
							return doErr
						case how == 2:
							return doStop
						}
						return doB
					}
					return doStop
				}}
				p := newPipes(num, 2, b)
				g := p.NewRequestGroup()
				drained := make(chan struct{})
				go func() {
					drain(g, 0, func(r preq) {
						id := r.Data.ID
						c := mask>>id&1 == 1
						switch {
						case how == 1 && id%2 == 0:
							must(r.Err == errStage, "request %d came out with %v", id, r.Err)
						case how != 2 && c:
							must(r.Err == context.Canceled, "request %d came out with %v", id, r.Err)
						default:
							must(r.Err == nil, "request %d came out with %v", id, r.Err)
						}
					})
					close(drained)
				}()
				var cancels []context.CancelFunc
				for j := 0; j < num; j++ {
					ctx, cancel := context.WithCancel(bg())
					cancels = append(cancels, cancel)
					mustAccept(submitReq(ctx, g, 0, j))
					<-in
				}
				for j := 0; j < num; j++ {
					if mask>>j&1 == 1 {
						cancels[j]()
					}
				}
				s := p.Stats()
				must(s.Running >= 0 && s.Running <= int64(num) && s.Completed == 0, "%d requests are in a stage, the statistics say %d running and %d completed", num, s.Running, s.Completed)
				close(gate)
				g.Close()
				<-drained
				s = p.Stats()
				must(s.Running == 0 && s.Completed == int64(num), "%d requests were processed, the statistics say %d completed and %d running", num, s.Completed, s.Running)
				p.Close()
			},
			Check: func(x *X) error { return checkDelivered(x, 1) },
		})
	}

	// Preprocessors in a DAG of many stages, with and without a span, that set
	// the context.
	Reg(&Scenario{Name: "pp-big", Props: []string{"T03", "T04", "T11"}, QK: 0, TK: 1, AllowLive: 1, Setup: func() { warmSpans(); warmBig() },
		Body: func(x *X) {
			npp, last, fail := 1+Choose(3), 5+14*Choose(2), Choose(3)
			dag, traced := Choose(2) == 1, Choose(2) == 1
			rec := &recorder{}
			ctx := withID(bg(), 1)
			var root *rspan
			if traced {
				ctx, root = rec.rootSpan(ctx)
			}
			var pps []stagedpipe.PreProcesor[pdata]
			var stageSpans []*rspan
			runs, over := 0, false
			for i := 0; i < npp; i++ {
				pps = append(pps, func(r preq) preq {
					must(!over, "preprocessor %d ran although the request was finished", i)
					must(runs%npp == i, "preprocessor %d ran as number %d", i, runs)
					must(idOf(r.Ctx) == runs+1, "preprocessor %d ran with the context of number %d instead of %d", i, idOf(r.Ctx), runs+1)
					if traced {
						liveUnder(r.Ctx, "a preprocessor", root)
					}
					runs++
					r.Ctx = withID(r.Ctx, runs+1)
					if fail == 1 && runs == (last+1)*npp {
						over = true
						r.Err = errs[1]
					}
					return r
				})
			}
			o := []stagedpipe.Option[pdata]{stagedpipe.PreProcessors(pps[:1]...), stagedpipe.PreProcessors(pps[1:]...)}
			if npp == 1 {
				o = o[:1]
			}
			if dag {
				o = append(o, stagedpipe.DAG[pdata]())
			}
			visits := 0
			p := bigPipes(1, newBig(func(r *preq, stage int) int {
				must(!over, "stage %d ran although the request was finished", stage)
				visits++
				must(runs == visits*npp, "%d preprocessors ran before visit %d", runs, visits)
				must(idOf(r.Ctx) == runs+1, "a stage ran with the context of preprocessor run %d instead of %d", idOf(r.Ctx)-1, runs)
				if traced {
					stageSpans = append(stageSpans, liveUnder(r.Ctx, "a stage", root))
				}
				if stage < last {
					return stage + 1
				}
				over = true
				if fail == 2 {
					r.Err = errs[2]
				}
				return -1
			}), o...)
			g := p.NewRequestGroup()
			out := oneShot(p, g, ctx, preq{Data: pdata{ID: 1}})
			wantV := last + 1 - b2i(fail == 1)
			must(visits == wantV, "%d stages were visited instead of %d", visits, wantV)
			must(out.Err == []error{nil, errs[1], errs[2]}[fail], "the request came out with %v", out.Err)
			must(idOf(out.Ctx) == runs+1, "the request came out with the context of preprocessor run %d instead of %d", idOf(out.Ctx)-1, runs)
			if traced {
				must(spanOf(out.Ctx) != nil && spanOf(out.Ctx).under(root), "the request came out with the span of something else")
				for _, s := range stageSpans {
					must(s.ended() && !spanOf(out.Ctx).under(s), "the request came out with the context of the finished stage %q", s.name)
				}
			}
			g.Close()
			_, ok := <-g.Out()
			must(!ok, "something came out after the last request")
			rec.allEnded("although the group was closed and drained")
			p.Close()
		},
	})
	// A stage sets a context and ends the request in any way.
	Reg(&Scenario{Name: "span-pipe-setctx-end", Props: []string{"T11", "T03"}, QK: 0, TK: 1, AllowLive: 1, Setup: warmSpans,
		Body: func(x *X) {
			rec := &recorder{}
			at, how, derive := Choose(2), Choose(4), Choose(3)
			var roots, stageSpans []*rspan
			b := &smBase{}
			b.plan = func(r *preq, vis int, stage byte) int {
				stageSpans = append(stageSpans, liveUnder(r.Ctx, "a stage", roots...))
				if vis < at {
					return doB
				}
				must(vis == at, "the stage ran although the request was finished")
				switch derive {
				case 0:
					r.Ctx = withID(r.Ctx, 77)
				case 1:
					c, cancel := context.WithCancel(withID(r.Ctx, 77))
					_ = cancel
					r.Ctx = c
				case 2: // replaced
					c, root := rec.rootSpan(withID(bg(), 77))
					roots = append(roots, root)
					r.Ctx = c
				}
				return []int{doStop, doErr, doErrB, doA}[how]
			}
			var o []stagedpipe.Option[pdata]
			if how == 3 {
				o = append(o, stagedpipe.DAG[pdata]())
			}
			p := newPipes(1, 2, b, o...)
			g := p.NewRequestGroup()
			ctx, root := rec.rootSpan(bg())
			roots = append(roots, root)
			out := oneShot(p, g, ctx, preq{Data: pdata{ID: 1}})
			switch how {
			case 0:
				must(out.Err == nil, "the request came out with %v", out.Err)
			case 3:
				must(stagedpipe.IsErrCyclic(out.Err), "the request came out with %v", out.Err)
			default:
				must(out.Err == errStage, "the request came out with %v", out.Err)
			}
			must(idOf(out.Ctx) == 77, "the context that the stage had set is lost")
			s := spanOf(out.Ctx)
			must(s != nil && s.under(roots[len(roots)-1]), "the request came out with the span of something else")
			for _, st := range stageSpans {
				must(st.ended() && !s.under(st), "the request came out with the context of the finished stage %q", st.name)
			}
			g.Close()
			_, ok := <-g.Out()
			must(!ok, "something came out after the last request")
			rec.allEnded("although the group was closed and drained")
			p.Close()
		},
	})

	// The same as without a span: functions whose context has been cancelled
	// are skipped.
	for mode := 0; mode < nPoolModes; mode++ {
		Reg(&Scenario{Name: "span-wait-cancelled-" + poolNames[mode], Props: []string{"T11", "W03"}, QK: 1, TK: 2, Setup: warmSpans,
			Body: func(x *X) {
				rec := &recorder{}
				p, o := mkPool(mode)
				g := wait.Group{Pool: p, PoolOptions: o}
				if Choose(2) == 1 {
					g.Name = "name"
				}
				kind := Choose(4)
				var cs []context.Context
				var roots []*rspan
				var end []context.CancelFunc
				for i := 0; i < 3; i++ {
					c, cancel := context.WithCancel(withID(bg(), i))
					if kind == 3 {
						c, cancel = context.WithTimeout(withID(bg(), i), time.Hour*time.Duration(1+i))
					}
					c, root := rec.rootSpan(c)
					cs, roots, end = append(cs, c), append(roots, root), append(end, cancel)
				}
				fails := Choose(2) == 1
				done := make(chan bool)
				switch kind {
				case 0:
					end[1]()
					close(done)
				case 1:
					go func() { end[1](); close(done) }()
				case 2: // by another function
					close(done)
					g.CancelOnErr = end[2]
				case 3: // the deadlines of the first and the second have passed
					time.Sleep(150 * time.Minute)
					close(done)
				}
				ran := [3]bool{}
				for i := 0; i < 3; i++ {
					g.Go(cs[i], func(c context.Context) error {
						ran[i] = true
						must(idOf(c) == i, "function %d has the context of function %d", i, idOf(c))
						if kind != 1 {
							must(isDone(cs[i]) == isDone(c), "function %d has a context that is not the given one", i)
						}
						liveUnder(c, "a function", roots...)
						P()
						if i == 0 && fails {
							return errs[0]
						}
						return nil
					})
				}
				err := g.Wait(bg())
				<-done
				skipped := 0
				for i := range ran {
					if !ran[i] {
						skipped++
						must(isDone(cs[i]), "function %d was skipped although its context is live", i)
						must(errors.Is(err, cs[i].Err()) || ran[0] && fails, "the error of the context is missing: %v", err)
					}
				}
				switch kind {
				case 0:
					must(ran[0] && !ran[1] && ran[2], "executed: %v, but only the second context is cancelled", ran)
				case 1:
					must(ran[0] && ran[2], "executed: %v, but only the second context is cancelled", ran)
				case 2:
					must(ran[0] && ran[1], "executed: %v, but only the third context is cancelled", ran)
				case 3:
					must(!ran[0] && !ran[1] && ran[2], "executed: %v, but the first two deadlines have passed", ran)
				}
				must((err != nil) == (skipped > 0 || ran[0] && fails), "Wait returned %v, executed: %v", err, ran)
				must(!fails || !ran[0] || errors.Is(err, errs[0]), "the error of the function is missing: %v", err)
				rec.allEnded("although the group was waited for")
				for _, c := range end {
					c()
				}
				if p != nil {
					p.Close()
				}
			},
		})
	}
}

func splitList(s string) []string {
	var out []string
	cur := ""
	for _, c := range s + ":" {
		if c == ':' {
			out = append(out, cur)
			cur = ""
			continue
		}
		if c != '-' {
			cur += string(c)
		}
	}
	return out
}
