package main

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"time"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
	"github.com/gostdlib/concurrency/prim/atomics"
	"github.com/gostdlib/concurrency/prim/chans"
	"github.com/gostdlib/concurrency/prim/slices"
	"github.com/gostdlib/concurrency/prim/wait"
)

// Two instances in use at the same time, or one after the other: what is
// guaranteed for one must hold whatever the other does.
func init() {
	// Two pools. Jobs of the second are held back while the first is used, waited
	// for, asked for its counts and closed; then the second goes on.
	for ka := 0; ka < 2; ka++ {
		for kb := 0; kb < 2; kb++ {
			Reg(&Scenario{Name: "twin-pools-" + kindNames[ka] + "-" + kindNames[kb], Props: []string{"P01", "P02", "P03", "P04", "P05", "P07"}, QK: 2, TK: 3, DPOR: 2,
				Body: func(x *X) {
					a, b := mustPool(ka, 1), mustPool(kb, 2)
					gate := make(chan bool)
					held := func(id int) goroutines.Job {
						return func(ctx context.Context) {
							Ev(evStart, id, idOf(ctx))
							<-gate
							Ev(evEnd, id, 0)
						}
					}
					submit(b, 0, held(0))
					submit(b, 1, held(1), submitOpts(kb, Choose(2))...)
					submit(a, 2, plainJob(2), submitOpts(ka, Choose(2))...)
					submit(a, 3, plainJob(3))
					must(a.Submit(bg(), plainJob(9), nonBlocking(1-ka)) != nil && a.Submit(bg(), nil) != nil, "an invalid submission was accepted")
					a.Wait()
					must(num(evNow(), evEnd, 2) == 1 && num(evNow(), evEnd, 3) == 1, "Wait returned before a job had finished")
					must(num(evNow(), evEnd, 0) == 0 && num(evNow(), evEnd, 1) == 0, "a job that is held back has ended")
					must(a.Running() == 0 && a.Len() == 1 && b.Len() == 2, "the idle pool reports %d jobs and size %d, the other one size %d", a.Running(), a.Len(), b.Len())
					time.Sleep(time.Second)
					must(b.Running() == 2, "%d jobs are reported while 2 are running", b.Running())
					a.Close()
					submit(b, 4, plainJob(4), nonBlocking(kb))
					time.Sleep(time.Second)
					must(num(evNow(), evEnd, 4) == 1, "a non-blocking job did not run although only other jobs are held back")
					close(gate)
					submit(b, 5, plainJob(5))
					b.Close()
					for _, id := range []int{0, 1, 4, 5} {
						must(num(evNow(), evEnd, id) == 1, "Close returned before job %d had finished", id)
					}
				},
				Check: func(x *X) error { return jobOnce(x.Ev, 0, 1, 2, 3, 4, 5) },
			})
			// The limit of each pool, with submitters of its own.
			Reg(&Scenario{Name: "twin-limit-" + kindNames[ka] + "-" + kindNames[kb], Props: []string{"P02", "P01", "P04"}, QK: 1, TK: 3,
				Body: func(x *X) {
					ps := []goroutines.Pool{mustPool(ka, 1), mustPool(kb, 1)}
					done := make(chan bool)
					for i, p := range ps {
						go func() {
							for j := 0; j < 2; j++ {
								submit(p, 10*i+j, func(ctx context.Context) {
									Ev(evStart, 10*i+j, idOf(ctx))
									must(Ctr(i, 1) == 1, "two blocking jobs run at once in a pool of size 1")
									P()
									Ctr(i, -1)
									Ev(evEnd, 10*i+j, 0)
								})
							}
							p.Close()
							must(num(evNow(), evEnd, 10*i) == 1 && num(evNow(), evEnd, 10*i+1) == 1, "Close returned before a job had finished")
							done <- true
						}()
					}
					<-done
					<-done
				},
				Check: func(x *X) error { return jobOnce(x.Ev, 0, 1, 10, 11) },
			})
		}
	}
	// A full pool does not stop another one.
	for k := 0; k < 2; k++ {
		Reg(&Scenario{Name: "twin-full-" + kindNames[k], Props: []string{"P02", "P04"}, QK: 2, TK: 3, DPOR: 2,
			Body: func(x *X) {
				a, b := mustPool(k, 1), mustPool(k, 1)
				gate := make(chan bool)
				for i := 0; i < 2; i++ {
					go submit(a, i, func(ctx context.Context) {
						Ev(evStart, i, idOf(ctx))
						<-gate
						Ev(evEnd, i, 0)
					})
				}
				submit(b, 2, func(ctx context.Context) {
					Ev(evStart, 2, idOf(ctx))
					close(gate)
					Ev(evEnd, 2, 0)
				})
				time.Sleep(time.Second)
				a.Close()
				b.Close()
			},
			Check: func(x *X) error { return jobOnce(x.Ev, 0, 1, 2) },
		})
	}

	// Two groups, with goroutines, pools of their own or one pool for both. The
	// function of the second is held back until the Wait of the first has returned.
	for _, mode := range []int{poolNone, poolLim2, poolPooled2, poolLim1NB, poolPooled1NB} {
		for _, shared := range []bool{true, false} {
			name := "twin-groups-" + poolNames[mode]
			if !shared {
				name += "-own"
			}
			if mode == poolNone && !shared {
				continue
			}
			Reg(&Scenario{Name: name, Props: []string{"W01", "W02", "W03", "W04"}, QK: 2, TK: 3, DPOR: 2,
				Body: func(x *X) {
					p, o := mkPool(mode)
					q := p
					if !shared {
						q, _ = mkPool(mode)
					}
					ctxA, cancelA := context.WithCancel(bg())
					ctxB, cancelB := context.WithCancel(bg())
					defer cancelB()
					a, b := wait.Group{Pool: p, PoolOptions: o, CancelOnErr: cancelA}, wait.Group{Pool: q, PoolOptions: o, CancelOnErr: cancelB}
					failA, failB := Choose(2) == 1, Choose(2) == 1
					gate := make(chan bool)
					b.Go(ctxB, func(ctx context.Context) error {
						Ev(evStart, 10, 0)
						<-gate
						must(ctx.Err() == nil, "the context of a function was cancelled by another group")
						Ev(evEnd, 10, 0)
						if failB {
							return errs[1]
						}
						return nil
					})
					a.Go(ctxA, func(ctx context.Context) error {
						Ev(evStart, 0, 0)
						P()
						Ev(evEnd, 0, 0)
						if failA {
							return errs[0]
						}
						return nil
					})
					err := a.Wait(bg())
					Ev(evWaited, 0, 0)
					must((err != nil) == failA && errors.Is(err, errs[0]) == failA && !errors.Is(err, errs[1]), "Wait returned %v, failed: %v", err, failA)
					must(a.Running() == 0 && b.Running() == 1, "the groups report %d and %d functions instead of 0 and 1", a.Running(), b.Running())
					must(isDone(ctxA) && !isDone(ctxB), "the contexts of the groups are cancelled: %v, %v", isDone(ctxA), isDone(ctxB))
					close(gate)
					err = b.Wait(bg())
					Ev(evWaited, 1, 0)
					must((err != nil) == failB && errors.Is(err, errs[1]) == failB && !errors.Is(err, errs[0]), "Wait returned %v, failed: %v", err, failB)
					must(b.Running() == 0, "a group reports %d functions after Wait", b.Running())
					// Used again, the other way round.
					a.Go(bg(), func(ctx context.Context) error { return nil })
					b.Go(bg(), func(ctx context.Context) error { return errs[2] })
					must(errors.Is(b.Wait(bg()), errs[2]), "the error of the function is missing")
					err = a.Wait(bg())
					must(err == nil, "Wait returned %v although no function failed", err)
					if p != nil {
						p.Close()
						if q != p {
							q.Close()
						}
					}
				},
				Check: func(x *X) error { return checkOnce(x, 2, 1) },
			})
			// Both at work at the same time.
			Reg(&Scenario{Name: name + "-par", Props: []string{"W01", "W02", "W04"}, QK: 1, TK: 3,
				Body: func(x *X) {
					p, o := mkPool(mode)
					q := p
					if !shared {
						q, _ = mkPool(mode)
					}
					mask := Choose(16)
					done := make(chan bool)
					for k := 0; k < 2; k++ {
						go func() {
							g := wait.Group{Pool: p, PoolOptions: o}
							if k == 1 {
								g.Pool = q
							}
							for i := 0; i < 2; i++ {
								id := 2*k + i
								g.Go(bg(), func(ctx context.Context) error {
									Ev(evStart, 10*k+i, k)
									P()
									Ev(evEnd, 10*k+i, 0)
									if mask>>id&1 == 1 {
										return errs[id]
									}
									return nil
								})
							}
							err := g.Wait(bg())
							Ev(evWaited, k, 0)
							for id := 0; id < 4; id++ {
								want := id/2 == k && mask>>id&1 == 1
								must(errors.Is(err, errs[id]) == want, "group %d: error %d in %v: expected %v", k, id, err, want)
							}
							must((err != nil) == (mask>>(2*k)&3 != 0), "Wait returned %v, failed: %b", err, mask)
							must(g.Running() == 0, "%d functions are reported after Wait", g.Running())
							done <- true
						}()
					}
					<-done
					<-done
					if p != nil {
						p.Close()
						if q != p {
							q.Close()
						}
					}
				},
				Check: func(x *X) error { return checkOnce(x, 2, 2) },
			})
		}
	}

	// Two collectors.
	Reg(&Scenario{Name: "twin-errors", Props: []string{"E01"}, QK: 3, TK: 4, DPOR: 1,
		Body: func(x *X) {
			var es [2]goroutines.Errors
			done := make(chan bool, 2)
			for k := range es {
				go func() {
					for i := 0; i < 2; i++ {
						es[k].Record(typedErr{10*k + i})
					}
					done <- true
				}()
			}
			<-done
			<-done
			for k := range es {
				l := es[k].Errors()
				must(len(l) == 2 && l[0] == typedErr{10 * k} && l[1] == typedErr{10*k + 1} && es[k].Error() == typedErr{10 * k}, "collector %d holds %v, first %v", k, l, es[k].Error())
			}
		}})

	// Two values, of the same and of different types: a replacement of one neither
	// blocks nor changes the other, also from within.
	Reg(&Scenario{Name: "twin-values", Props: []string{"A01", "A02"}, QK: 3, TK: 4, DPOR: 1,
		Body: func(x *X) {
			var a, b atomics.RWValue[pair]
			var c atomics.RWValue[string]
			a.Store(mkPair(1))
			inside := make(chan bool)
			other := make(chan bool)
			nested := Choose(2)
			go func() {
				<-inside
				b.Store(mkPair(5))
				must(b.LoadReplace(func(p pair) (pair, error) { return mkPair(p.val() + 1), nil }) == nil, "a replacement failed")
				c.Store("x")
				must(b.Load().val() == 6 && c.Load() == "x" && a.Load().val() == 1, "the values are %d, %q, %d", b.Load().val(), c.Load(), a.Load().val())
				close(other)
			}()
			err := a.LoadReplace(func(p pair) (pair, error) {
				close(inside)
				<-other
				if nested == 1 {
					must(c.LoadReplace(func(s string) (string, error) { return s + "y", nil }) == nil, "a replacement failed")
				}
				return mkPair(p.val() + 1), nil
			})
			want := "x"
			if nested == 1 {
				want = "xy"
			}
			must(err == nil && a.Load().val() == 2 && b.Load().val() == 6 && c.Load() == want, "the values are %d, %d, %q (%v)", a.Load().val(), b.Load().val(), c.Load(), err)
		}})

	// Two calls of the parallel functions at the same time, with a pool for both, their own or
	// none; one of them fails or is cancelled.
	for api := 0; api < 3; api++ {
		prop, pb := []string{"S01", "C01", "C03"}[api], []string{"S02", "C02", "C02"}[api]
		for _, mode := range []int{poolNone, poolLim1, poolPooled2, poolPooled1NB} {
			Reg(&Scenario{Name: "twin-par-" + apiNames[api] + "-" + poolNames[mode], Props: []string{prop, pb}, QK: 1, TK: 2,
				Body: func(x *X) {
					p, o := mkPool(mode)
					how := Choose(3) // what the second call does
					ctx, cancel := context.WithCancel(bg())
					done := make(chan bool)
					go func() {
						c := parCall{api: api, n: 2, pool: p, po: o, stop: how == 1}
						err := c.run(ctx, func(ctx context.Context, i int) error {
							if how == 2 && i == 0 {
								cancel()
							}
							if how == 1 && i == 0 {
								return errs[1]
							}
							return nil
						})
						switch how {
						case 0:
							must(err == nil, "the call returned %v although nothing failed", err)
						case 1:
							must(errors.Is(err, errs[1]) && !errors.Is(err, errs[0]), "the call returned %v", err)
						case 2:
							must(err == nil || errors.Is(err, context.Canceled) && !errors.Is(err, errs[0]), "the call returned %v", err)
						}
						done <- true
					}()
					c := parCall{api: api, n: 3, pool: p, po: o}
					err := c.run(bg(), func(ctx context.Context, i int) error {
						must(ctx.Err() == nil, "the context of an accessor was cancelled by another call")
						Ev(evStart, i, 0)
						P()
						Ev(evEnd, i, 0)
						if i == 1 {
							return errs[0]
						}
						return nil
					})
					Ev(evWaited, 0, 0)
					must(errors.Is(err, errs[0]) && !errors.Is(err, errs[1]) && !errors.Is(err, context.Canceled), "the call returned %v", err)
					<-done
					cancel()
					if p != nil {
						p.Close()
					}
				},
				Check: func(x *X) error { return accessed(x.Ev, 3, true) },
			})
		}
	}
	// A call within an accessor of another one; different element types.
	Reg(&Scenario{Name: "twin-nested", Props: []string{"S01", "S03", "C01", "C03", "C04"}, QK: 1, TK: 2,
		Body: func(x *X) {
			mode := []int{poolNone, poolPooled1NB, poolLim1NB}[Choose(3)]
			p, o := mkPool(mode)
			var so []slices.SliceOption
			var co []chans.Option
			if p != nil {
				so, co = append(so, slices.WithPoolOptions(p, o...)), append(co, chans.WithPoolOptions(p, o...))
			}
			s := []string{"a", "b"}
			err := slices.Access(bg(), s, func(ctx context.Context, i int, v string, m slices.Modifier[string]) error {
				in := make(chan int, 2)
				in <- 10 * i
				in <- 10*i + 1
				close(in)
				out := make(chan chans.StreamResult[string], 2)
				if err := chans.Modify(ctx, in, out, func(ctx context.Context, n int) (string, error) {
					Ev(evStart, n, 0)
					return fmt.Sprint(n), nil
				}, co...); err != nil {
					return err
				}
				got := map[string]bool{}
				for r := range out {
					got[r.Value] = true
				}
				must(len(got) == 2 && got[fmt.Sprint(10*i)] && got[fmt.Sprint(10*i+1)], "the inner call %d yielded %v", i, got)
				m(v + v)
				return nil
			}, so...)
			must(err == nil && s[0] == "aa" && s[1] == "bb", "the call returned %v and left %v", err, s)
			for _, n := range []int{0, 1, 10, 11} {
				must(num(evNow(), evStart, n) == 1, "value %d was processed %d times", n, num(evNow(), evStart, n))
			}
			if p != nil {
				p.Close()
			}
		}})

	twinPipes()
}

// other is a second type of request.
type other struct{ n int }
type smOther struct {
	b    *smBase
	stop chan bool
}

func (s *smOther) Start(r stagedpipe.Request[other]) stagedpipe.Request[other] {
	Ev(pvStage, r.Data.n, 'A')
	if s.stop != nil {
		<-s.stop
	}
	r.Next = s.Start2
	return r
}
func (s *smOther) Start2(r stagedpipe.Request[other]) stagedpipe.Request[other] {
	Ev(pvStage, r.Data.n, 'B')
	r.Data.n += 1000
	return r
}
func (s *smOther) Close() { Ev(pvSMC, 1, 0) }

func twinPipes() {
	// Two sets of pipelines with different options at the same time; the groups have
	// the same numbers.
	for v := 0; v < 4; v++ {
		var o [2][]stagedpipe.Option[pdata]
		props := []string{"T01", "T03", "T06", "T08"}
		pre := func(r preq) preq {
			r.Data.Trail += "p"
			return r
		}
		switch v {
		case 1:
			o[0] = append(o[0], stagedpipe.Ordered[pdata]())
			o[1] = append(o[1], stagedpipe.PreProcessors(pre))
			props = append(props, "T02")
		case 2:
			o[0] = append(o[0], stagedpipe.DAG[pdata]())
			o[1] = append(o[1], stagedpipe.DAG[pdata]())
			props = append(props, "T04")
		case 3:
			o[0] = append(o[0], stagedpipe.DAG[pdata](), stagedpipe.Ordered[pdata]())
			o[1] = append(o[1], stagedpipe.Ordered[pdata](), stagedpipe.PreProcessors(pre))
			props = append(props, "T02", "T04")
		}
		Reg(&Scenario{Name: fmt.Sprintf("twin-pipes-%d", v), Props: props, QK: 1, TK: 2, AllowLive: 2, Setup: warmPipes,
			Body: func(x *X) {
				ps := []*ppipes{newPipes(1, 2, &smBase{plan: routePlan(2)}, o[0]...), newPipes(1, 2, &smBase{plan: func(r *preq, vis int, stage byte) int {
					if vis == 0 {
						return doA // Start once more
					}
					if vis == 1 {
						return doB
					}
					return doStop
				}}, o[1]...)}
				trail := []string{"AB", "AAB"}
				if v == 1 || v == 3 {
					trail[1] = "pApApB"
				}
				if v == 2 {
					trail[1] = "A"
				}
				done := make(chan bool)
				for k, p := range ps {
					go func() {
						g := p.NewRequestGroup()
						go func() {
							for j := 0; j < 2; j++ {
								mustAccept(submitReq(bg(), g, k, 10*k+j))
							}
							g.Close()
						}()
						drain(g, k, func(r preq) {
							must(r.Data.Trail == trail[k] && (stagedpipe.IsErrCyclic(r.Err) == (v == 2 && k == 1)) && (r.Err == nil) == (v != 2 || k == 0), "request %d of pipelines %d ran %q and came out with %v", r.Data.ID, k, r.Data.Trail, r.Err)
						})
						st := p.Stats()
						must(st.Completed == 2 && st.Running == 0, "the statistics of pipelines %d report %d running and %d completed requests", k, st.Running, st.Completed)
						done <- true
					}()
				}
				<-done
				<-done
				for _, p := range ps {
					p.Close()
				}
			},
			Check: func(x *X) error {
				err := all(checkDelivered(x, 2), checkClosed(x, 2))
				if err == nil && (v == 1 || v == 3) {
					err = checkOrder(x, 1)
				}
				if err == nil && v == 3 {
					err = checkOrder(x, 2)
				}
				return err
			},
		})
	}
	// Other pipelines that stand still, of another or the same type, do not keep
	// these from working, ending and closing their state machine.
	for _, same := range []bool{true, false} {
		Reg(&Scenario{Name: fmt.Sprintf("twin-stuck-%d", b2i(same)), Props: []string{"T01", "T05", "T06", "T08", "T09"}, QK: 1, TK: 2, AllowLive: 2, Setup: func() {
			warmPipes()
			twinWarm()
		},
			Body: func(x *X) {
				gate := make(chan bool)
				var finish func()
				if same {
					b := &smBase{plan: func(*preq, int, byte) int { <-gate; return doStop }}
					q := newPipes(1, 1, b)
					h := q.NewRequestGroup()
					mustAccept(submitReq(bg(), h, 1, 100))
					finish = func() {
						st := q.Stats()
						must(st.Running == 1 && st.Completed == 0, "%d running and %d completed requests are reported instead of 1 and 0", st.Running, st.Completed)
						close(gate)
						mustAccept(submitReq(bg(), h, 1, 101))
						go h.Close()
						drain(h, 1, nil)
						q.Close()
					}
				} else {
					var q *stagedpipe.Pipelines[other]
					Quiet(func() {
						var err error
						q, err = stagedpipe.New[other]("p", 1, &smOther{stop: gate})
						mustAccept(err)
					})
					h := q.NewRequestGroup()
					mustAccept(h.Submit(stagedpipe.Request[other]{Ctx: bg(), Data: other{100}}))
					finish = func() {
						st := q.Stats()
						must(st.Running == 1 && st.Completed == 0, "%d running and %d completed requests are reported instead of 1 and 0", st.Running, st.Completed)
						close(gate)
						mustAccept(h.Submit(stagedpipe.Request[other]{Ctx: bg(), Data: other{101}}))
						go h.Close()
						got := map[int]int{}
						for r := range h.Out() {
							must(r.Err == nil, "a request came out with %v", r.Err)
							got[r.Data.n]++
						}
						must(len(got) == 2 && got[1100] == 1 && got[1101] == 1, "delivered: %v", got)
						q.Close()
					}
				}
				p := newPipes(1, 2, &smBase{plan: routePlan(2)})
				g := p.NewRequestGroup()
				go func() {
					for j := 0; j < 3; j++ {
						mustAccept(submitReq(bg(), g, 0, j))
					}
					g.Close()
				}()
				drain(g, 0, func(r preq) {
					must(r.Err == nil && r.Data.Trail == "AB", "request %d ran %q and came out with %v", r.Data.ID, r.Data.Trail, r.Err)
				})
				st := p.Stats()
				must(st.Running == 0 && st.Completed == 3, "%d running and %d completed requests are reported instead of 0 and 3", st.Running, st.Completed)
				p.Close()
				time.Sleep(time.Second)
				must(num(evNow(), pvSMC, 0) == 1, "the state machine was closed %d times", num(evNow(), pvSMC, 0))
				finish()
			},
			Check: func(x *X) error {
				if same {
					return all(checkDelivered(x, 2), checkClosed(x, 2))
				}
				return checkDelivered(x, 1)
			},
		})
	}
}

func twinWarm() {
	var q *stagedpipe.Pipelines[other]
	q, _ = stagedpipe.New[other]("p", 1, &smOther{})
	q.Close()
	runtime.Gosched()
}
