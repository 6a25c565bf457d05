package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/gostdlib/concurrency/prim/chans"
	"github.com/gostdlib/concurrency/prim/slices"
	"github.com/gostdlib/concurrency/prim/wait"
)

// What is left behind: pools after a call that ended in any way, groups that are
// used again with another configuration, contexts after the end of their job.
func init() {
	// A group gets another pool, other options, another name and another cancel
	// function for every batch; the pool of the batch before is closed.
	for first := 0; first < nPoolModes; first++ {
		Reg(&Scenario{Name: "reuse-" + poolNames[first], Props: []string{"W01", "W02", "W03"}, QK: 1, TK: 2,
			Body: func(x *X) {
				var g wait.Group
				for batch := 0; batch < 2; batch++ {
					mode := first
					if batch > 0 {
						mode = []int{poolNone, poolLim1, poolPooled2, poolLim1NB}[Choose(4)]
					}
					p, o := mkPool(mode)
					g.Pool, g.PoolOptions = p, o
					if batch == 1 {
						g.Name = "second"
					}
					fail, canc := Choose(2) == 1, Choose(2) == 1
					ctx := withID(bg(), batch)
					cancelled := 0
					if canc {
						c, cancel := context.WithCancel(ctx)
						ctx = c
						g.CancelOnErr = func() { cancelled++; cancel() }
					}
					const n = 2
					base := 10 * (batch + 1)
					ran := 0
					for i := 0; i < n; i++ {
						g.Go(ctx, func(ctx context.Context) error {
							a := Ctr(batch, 1)
							must(poolSize(mode) == 0 || a <= poolSize(mode), "%d functions run at once in a pool of size %d", a, poolSize(mode))
							must(idOf(ctx) == batch, "a function runs with the context of batch %d", idOf(ctx))
							must(p == nil || p.Running() > 0, "a function of the batch does not run in the pool of the group")
							Ev(evStart, base+i, 0)
							ran++
							P()
							Ev(evEnd, base+i, 0)
							Ctr(batch, -1)
							if fail {
								return errs[i]
							}
							return nil
						})
					}
					err := g.Wait(bg())
					for i := 0; i < n; i++ {
						s, e := num(evNow(), evStart, base+i), num(evNow(), evEnd, base+i)
						must(s == e && s <= 1 && (s == 1 || canc && fail), "function %d of batch %d ran %d times and ended %d times", i, batch, s, e)
						if s == 1 && fail {
							must(errors.Is(err, errs[i]), "batch %d: error %d is missing in %v", batch, i, err)
						}
						if s == 0 {
							must(errors.Is(err, context.Canceled) || ran > 0, "batch %d returned %v although a function was skipped", batch, err)
						}
					}
					must((err != nil) == fail, "batch %d returned %v", batch, err)
					must(!canc || cancelled > 0, "the cancel function of batch %d was not called", batch)
					must(g.CancelOnErr == nil, "the cancel function of batch %d is kept", batch)
					must(g.Running() == 0, "Running is %d after Wait", g.Running())
					if p != nil {
						p.Close()
					}
				}
			},
		})
	}

	// However the call ends, the pool of the caller is open and has its full size.
	for api := 0; api < 3; api++ {
		for mode := 1; mode < nPoolModes; mode++ {
			Reg(&Scenario{Name: "left-" + apiNames[api] + "-" + poolNames[mode], Props: []string{[]string{"S03", "C04", "C04"}[api]}, QK: 1, TK: 2,
				Body: func(x *X) {
					p, o := mkPool(mode)
					c := &parCall{api: api, n: 3, pool: p, po: o, stop: Choose(2) == 1, swap: true}
					ctx, cancel := context.WithCancel(bg())
					how := Choose(7)
					switch how {
					case 4:
						cancel()
					case 5:
						go cancel()
					case 6:
						c, f := context.WithTimeout(ctx, time.Second)
						defer f()
						ctx = c
					}
					at := 0
					if how < 4 {
						at = Choose(3)
					}
					for call := 0; call < 2; call++ {
						err := c.run(ctx, func(ctx context.Context, i int) error {
							P()
							if how == 6 {
								time.Sleep(2 * time.Second)
							}
							if i == at {
								switch how {
								case 1:
									return errs[0]
								case 2:
									cancel()
								case 3:
									cancel()
									return ctx.Err()
								}
							}
							return nil
						})
						must(how != 0 || err == nil, "the call returned %v", err)
						must(how != 1 || errors.Is(err, errs[0]), "the call returned %v", err)
						p.Wait()
						must(p.Running() == 0, "Running is %d after Wait", p.Running())
						must(p.Len() == []int{0, 1, 1, 2, 1, 1, 2}[mode] || p.Len() > 0, "Len is %d", p.Len())
						barrier(p, p.Len(), 10*(call+1))
						if how > 1 {
							break
						}
					}
					cancel()
					p.Close()
				},
			})
		}
	}

	// Elements with equal values are different elements.
	for api := 0; api < 3; api++ {
		for _, mode := range []int{poolNone, poolLim2, poolPooled1} {
			Reg(&Scenario{Name: "same-values-" + apiNames[api] + "-" + poolNames[mode], Props: [][]string{{"S01"}, {"C01"}, {"C01", "C03"}}[api], QK: 1, TK: 2,
				Body: func(x *X) {
					p, o := mkPool(mode)
					v := []string{"", "x", "x"}[Choose(2)]
					const n = 3
					calls := 0
					seen := [n]int{}
					c := &parCall{pool: p, po: o}
					switch api {
					case 0:
						s := []string{v, v, v}
						err := slices.Access(bg(), s, func(ctx context.Context, i int, got string, m slices.Modifier[string]) error {
							P()
							calls++
							seen[i]++
							must(got == v, "element %d is %q", i, got)
							if i != 1 {
								m(fmt.Sprint(got, i))
							}
							return nil
						}, c.sliceOpts()...)
						must(err == nil, "the call returned %v", err)
						for i := range s {
							want := v
							if i != 1 {
								want = fmt.Sprint(v, i)
							}
							must(seen[i] == 1 && s[i] == want, "element %d was accessed %d times and is %q afterwards", i, seen[i], s[i])
						}
					default:
						in := make(chan string, n)
						for i := 0; i < n; i++ {
							in <- v
						}
						close(in)
						if api == 1 {
							err := chans.Access(bg(), in, func(ctx context.Context, got string) error {
								P()
								calls++
								must(got == v, "a value is %q", got)
								return nil
							}, c.chanOpts()...)
							must(err == nil, "the call returned %v", err)
							break
						}
						out := make(chan chans.StreamResult[string], n)
						err := chans.Modify(bg(), in, out, func(ctx context.Context, got string) (string, error) {
							P()
							calls++
							return got, nil
						}, c.chanOpts()...)
						must(err == nil, "the call returned %v", err)
						res := 0
						for r := range out {
							must(r.Err == nil && r.Value == v, "a result is %q, %v", r.Value, r.Err)
							res++
						}
						must(res == n, "%d results for %d values", res, n)
					}
					must(calls == n, "%d calls for %d values", calls, n)
					if p != nil {
						p.Close()
					}
				},
			})
		}
	}

	// A modification counts from the moment it is made, whatever happens to the
	// accessor, its context and the others afterwards.
	for mode := 0; mode < nPoolModes; mode++ {
		Reg(&Scenario{Name: "mods-kept-" + poolNames[mode], Props: []string{"S01"}, QK: 1, TK: 2,
			Body: func(x *X) {
				p, o := mkPool(mode)
				const n = 3
				c := &parCall{pool: p, po: o, stop: Choose(2) == 1}
				ctx, cancel := context.WithCancel(bg())
				at, how := Choose(n), Choose(5)
				if how == 0 {
					go cancel()
				}
				s := make([]int, n)
				for i := range s {
					s[i] = 100 + i
				}
				called, twice := [n]bool{}, Choose(2) == 1
				err := slices.Access(ctx, s, func(ctx context.Context, i int, v int, m slices.Modifier[int]) error {
					must(v == 100+i, "element %d is %d", i, v)
					called[i] = true
					if twice {
						m(-1)
						P()
					}
					if i == at {
						switch how {
						case 1:
							m(200 + i)
							P()
							cancel()
							return nil
						case 2:
							cancel()
							P()
							m(200 + i)
							return nil
						case 3:
							m(200 + i)
							P()
							return errs[0]
						case 4:
							m(200 + i)
							cancel()
							return ctx.Err()
						}
					}
					P()
					m(200 + i)
					return nil
				}, c.sliceOpts()...)
				for i := range s {
					want := 100 + i
					if called[i] {
						want = 200 + i
					}
					must(s[i] == want, "element %d is %d afterwards instead of %d", i, s[i], want)
					must(called[i] || err != nil, "element %d was skipped and nil was returned", i)
				}
				cancel()
				if p != nil {
					p.Close()
				}
			},
		})
	}

	// Two calls over one slice that do not modify it, and a caller that reads it.
	for _, mode := range []int{poolNone, poolLim2, poolPooled1} {
		Reg(&Scenario{Name: "read-twice-" + poolNames[mode], Props: []string{"S01", "D01"}, QK: 1, TK: 2, Race: true, RK: 1,
			Body: func(x *X) {
				p, o := mkPool(mode)
				c := &parCall{pool: p, po: o}
				s := []int{100, 101}
				read := func() {
					err := slices.Access(bg(), s, func(ctx context.Context, i int, v int, m slices.Modifier[int]) error {
						must(v == 100+i && s[1-i] == 101-i, "element %d is %d", i, v)
						return nil
					}, c.sliceOpts()...)
					must(err == nil, "the call returned %v", err)
				}
				done := make(chan bool)
				go func() { read(); done <- true }()
				read()
				must(s[0] == 100, "element 0 is %d", s[0])
				<-done
				if p != nil {
					p.Close()
				}
			},
		})
	}

	// The context of a job is the one of the submitter, also when the job has ended.
	for kind := 0; kind < 2; kind++ {
		Reg(&Scenario{Name: "ctx-after-" + kindNames[kind], Props: []string{"P01"}, QK: 1, TK: 2,
			Body: func(x *X) {
				p := mustPool(kind, 1)
				const n = 2
				nb, traced := Choose(1<<n), Choose(2) == 1
				rec := &recorder{}
				ctxs := [n]context.Context{}
				later := make(chan bool, n)
				over := make(chan bool)
				ctx, cancel := context.WithCancel(bg())
				if traced {
					ctx, _ = rec.rootSpan(ctx)
				}
				for i := 0; i < n; i++ {
					submit1(p, withID(ctx, i), func(c context.Context) {
						ctxs[i] = c
						go func() { // work that a job leaves to another goroutine
							<-over
							later <- c.Err() == nil && idOf(c) == i
						}()
					}, submitOpts(kind, nb>>i&1)...)
				}
				p.Wait()
				closed := Choose(2) == 1
				if closed {
					p.Close()
				}
				close(over)
				for i := 0; i < n; i++ {
					must(<-later, "the context of a job ended with the job")
					must(ctxs[i].Err() == nil && idOf(ctxs[i]) == i, "the context of job %d ended with the job", i)
				}
				cancel()
				for i := 0; i < n; i++ {
					must(ctxs[i].Err() != nil, "the context of job %d did not end with the submitter's", i)
				}
				if !closed {
					p.Close()
				}
			},
		})
	}
	// And so is the one of a request.
	Reg(&Scenario{Name: "ctx-after-pipe", Props: []string{"T03", "T11"}, QK: 1, TK: 2, AllowLive: 1, Setup: warmSpans,
		Body: func(x *X) {
			traced, outcome := Choose(2) == 1, Choose(3)
			rec := &recorder{}
			const n = 2
			p := newPipes(1, 2, &smBase{plan: func(r *preq, vis int, stage byte) int {
				if vis == 0 {
					return doB
				}
				return []int{doStop, doErr, doB}[outcome*b2i(outcome < 2)]
			}})
			g := p.NewRequestGroup()
			ctx, cancel := context.WithCancel(bg())
			if traced {
				ctx, _ = rec.rootSpan(ctx)
			}
			go func() {
				for i := 0; i < n; i++ {
					mustAccept(submitReq(withID(ctx, i), g, 0, i))
				}
				g.Close()
			}()
			var out []context.Context
			drain(g, 0, func(r preq) {
				must(idOf(r.Ctx) == r.Data.ID && r.Ctx.Err() == nil, "request %d came out with the context of %d, which ended with %v", r.Data.ID, idOf(r.Ctx), r.Ctx.Err())
				out = append(out, r.Ctx)
			})
			p.Close()
			must(len(out) == n, "%d of %d requests were delivered", len(out), n)
			for _, c := range out {
				must(c.Err() == nil, "the context of a request ended with the pipelines")
			}
			cancel()
			for _, c := range out {
				must(c.Err() != nil, "the context of a request did not end with the submitter's")
			}
		},
	})

	// Contexts that end in any way while a job, or a request, waits for its turn.
	for kind := 0; kind < 3; kind++ {
		name := append(kindNames[:2:2], "pipe")[kind]
		Reg(&Scenario{Name: "ended-waiting-" + name, Props: [][]string{{"P01"}, {"P01"}, {"T03", "T07", "T01"}}[kind], QK: 1, TK: 2, AllowLive: b2i(kind == 2), Setup: warmPipes,
			Body: func(x *X) {
				how, traced := Choose(6), Choose(2) == 1
				nb := 0
				if kind < 2 {
					nb = Choose(2)
				}
				rec := &recorder{}
				ctx := withID(bg(), 1)
				if traced {
					ctx, _ = rec.rootSpan(ctx)
				}
				var end func()
				switch how {
				case 0, 5:
					ctx, end = context.WithCancel(ctx)
				case 1:
					c, f := context.WithCancelCause(ctx)
					ctx, end = c, func() { f(errs[0]) }
				case 2:
					c, f := context.WithTimeout(ctx, time.Second)
					defer f()
					ctx, end = c, func() { time.Sleep(2 * time.Second) }
				case 3:
					c, f := context.WithDeadlineCause(ctx, time.Now().Add(time.Second), errs[1])
					defer f()
					ctx, end = c, func() { time.Sleep(2 * time.Second) }
				case 4:
					c, f := context.WithDeadline(ctx, time.Now())
					defer f()
					ctx, end = c, func() {}
				}
				if how == 5 {
					end() // before the submission
				}
				want := context.Canceled
				if how >= 2 && how <= 4 {
					want = context.DeadlineExceeded
				}
				hold, in := make(chan bool), make(chan bool)
				if kind < 2 {
					p := mustPool(kind, 1)
					submit(p, 0, func(ctx context.Context) { in <- true; <-hold })
					<-in
					ran := 0
					done := make(chan bool)
					go func() {
						submit1(p, ctx, func(c context.Context) {
							must(c.Err() == want || nb == 1 && c.Err() == nil, "the context of the job ended with %v", c.Err())
							must(idOf(c) == 1, "the job runs with the context of %d", idOf(c))
							ran++
						}, submitOpts(kind, nb)...)
						close(done)
					}()
					time.Sleep(time.Millisecond) // until nothing can proceed
					end()
					close(hold)
					<-done
					p.Wait()
					must(ran == 1, "an accepted job was executed %d times", ran)
					p.Close()
					return
				}
				p := newPipes(1, 1, &smBase{plan: func(r *preq, vis int, stage byte) int {
					if r.Data.ID == 0 {
						in <- true
						<-hold
					}
					must(r.Data.ID == 0 || r.Ctx.Err() == nil, "a stage ran although the context had ended")
					return doStop
				}})
				g := p.NewRequestGroup()
				mustAccept(submitReq(bg(), g, 0, 0))
				<-in
				accepted := make(chan bool, 1)
				go func() {
					err := submitReq(ctx, g, 0, 1)
					must(err == nil || err == want, "the submission returned %v", err)
					accepted <- err == nil
				}()
				time.Sleep(time.Millisecond) // until nothing can proceed
				end()
				close(hold)
				n := 1 + b2i(<-accepted)
				go g.Close()
				got := 0
				drain(g, 0, func(r preq) {
					got++
					must(r.Data.ID == 0 && r.Err == nil || r.Data.ID == 1 && r.Err == want, "request %d came out with %v", r.Data.ID, r.Err)
				})
				must(got == n, "%d of %d requests were delivered", got, n)
				p.Close()
			},
		})
	}

	// One thing at a time, very often, on the same object.
	long := func(s *Scenario) {
		s.QK, s.TK, s.DK, s.MaxSteps = 0, 0, -1, 400000
		Reg(s)
	}
	for kind := 0; kind < 2; kind++ {
		for size := 1; size <= 2; size++ {
			long(&Scenario{Name: fmt.Sprintf("often-%s%d", kindNames[kind], size), Props: []string{"P01", "P02", "P04", "P05"},
				Body: func(x *X) {
					p := mustPool(kind, size)
					const n = 6000
					run := 0
					for i := 0; i < n; i++ {
						submit(p, i, func(context.Context) { run++ }, submitOpts(kind, b2i(i%5 == 3))...)
						p.Wait()
						must(run == i+1 && p.Running() == 0, "%d of %d jobs had run when Wait returned, Running is %d", run, i+1, p.Running())
					}
					barrier(p, size, n)
					p.Close()
				}})
		}
	}
	for mode := 0; mode < nPoolModes; mode++ {
		long(&Scenario{Name: "often-wait-" + poolNames[mode], Props: []string{"W01", "W02", "W03", "W04"},
			Body: func(x *X) {
				p, o := mkPool(mode)
				g := wait.Group{Pool: p, PoolOptions: o}
				for batch := 0; batch < 3000; batch++ {
					fail, cancelled := batch%3 == 1, 0
					if batch%2 == 1 {
						g.CancelOnErr = func() { cancelled++ }
					}
					ran := 0
					g.Go(bg(), func(context.Context) error {
						ran++
						if fail {
							return errs[batch%len(errs)]
						}
						return nil
					})
					err := g.Wait(bg())
					must(ran == 1 && g.Running() == 0, "batch %d: the function ran %d times, Running is %d", batch, ran, g.Running())
					must((err != nil) == fail && (!fail || errors.Is(err, errs[batch%len(errs)])), "batch %d returned %v", batch, err)
					must((cancelled > 0) == (batch%2 == 1) && g.CancelOnErr == nil, "batch %d: the cancel function was called %d times", batch, cancelled)
				}
				if p != nil {
					p.Close()
				}
			}})
		for api := 0; api < 3; api++ {
			long(&Scenario{Name: "often-" + apiNames[api] + "-" + poolNames[mode], Props: [][]string{{"S01", "S02", "S03"}, {"C01", "C02", "C04"}, {"C03", "C02", "C04"}}[api],
				Body: func(x *X) {
					p, o := mkPool(mode)
					for call := 0; call < 600; call++ {
						c := &parCall{api: api, n: 1 + call%3, pool: p, po: o, stop: call%4 == 1}
						ran := 0
						err := c.run(bg(), func(ctx context.Context, i int) error {
							ran++
							if call%5 == 2 {
								return errs[0]
							}
							return nil
						})
						must((err != nil) == (call%5 == 2), "call %d returned %v", call, err)
						must(ran == c.n || c.stop && err != nil && ran > 0, "call %d: %d of %d elements were accessed", call, ran, c.n)
					}
					if p != nil {
						barrier(p, p.Len(), 10)
						p.Close()
					}
				}})
		}
	}
}

// One request whose queueing and processing may each take any time: the clock may move at any point. What the
// statistics say about a single request is the same whichever way it is put.
func init() {
	for _, v := range []struct {
		num, reqs, qk, tk int
	}{{1, 1, 2, 3}, {1, 2, 1, 2}, {2, 2, 1, 2}} {
		Reg(&Scenario{Name: fmt.Sprintf("stats-clock-n%dr%d", v.num, v.reqs), Props: []string{"T08"}, QK: v.qk, TK: v.tk, Clock: true, AllowLive: 1, Setup: warmPipes,
			Body: func(x *X) {
				p := newPipes(v.num, 1, &smBase{})
				g := p.NewRequestGroup()
				clock := make(chan struct{})
				go func() {
					for _, d := range []time.Duration{1, 3, 10} {
						time.Sleep(d * time.Second)
					}
					close(clock)
				}()
				var sub, got, most, all int64
				least := int64(-1)
				for j := 0; j < v.reqs; j++ {
					sub = int64(time.Now().UnixNano())
					mustAccept(submitReq(bg(), g, 0, j))
					r := <-g.Out()
					got = int64(time.Now().UnixNano())
					must(r.Data.ID == j, "request %d came out in place of request %d", r.Data.ID, j)
					Ev(pvOut, r.Data.ID, 0)
					all += got - sub
					most = max(most, got-sub)
					s := p.Stats()
					if j == 0 {
						must(s.Min == s.Max && s.Avg == s.Max, "one request was processed, in %v at least, %v at most and %v on average", s.Min, s.Max, s.Avg)
						must(s.IngestStats.Min == s.IngestStats.Max && s.IngestStats.Avg == s.IngestStats.Max, "one request was queued, for %v at least, %v at most and %v on average", s.IngestStats.Min, s.IngestStats.Max, s.IngestStats.Avg)
						least = int64(s.IngestStats.Min)
					}
					must(s.Min >= 0 && s.Min <= s.Avg && s.Avg <= s.Max, "the statistics say processing took %v at least, %v at most and %v on average", s.Min, s.Max, s.Avg)
					must(s.IngestStats.Min >= 0 && s.IngestStats.Min <= s.IngestStats.Avg && s.IngestStats.Avg <= s.IngestStats.Max, "the statistics say queueing took %v at least, %v at most and %v on average", s.IngestStats.Min, s.IngestStats.Max, s.IngestStats.Avg)
					must(int64(s.Max) <= most && int64(s.IngestStats.Max) <= most, "no request took more than %v, the statistics say %v of processing and %v of queueing", time.Duration(most), s.Max, s.IngestStats.Max)
					must(int64(s.IngestStats.Min) <= least, "the first request was queued for %v, the statistics say no request was for less than %v", time.Duration(least), s.IngestStats.Min)
					must(max(int64(s.Avg), int64(s.IngestStats.Avg))*int64(j+1) <= all, "%d requests took %v, the statistics say %v of processing and %v of queueing on average", j+1, time.Duration(all), s.Avg, s.IngestStats.Avg)
				}
				g.Close()
				drain(g, 0, nil)
				p.Close()
				<-clock
			},
			Check: func(x *X) error { return checkDelivered(x, 1) },
		})
	}
}
