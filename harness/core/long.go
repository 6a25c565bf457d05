package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
	"github.com/gostdlib/concurrency/prim/atomics"
	"github.com/gostdlib/concurrency/prim/chans"
	"github.com/gostdlib/concurrency/prim/slices"
	"github.com/gostdlib/concurrency/prim/wait"
)

// Long runs: many operations on one object, few schedules (no departure in the
// quick tier). They reach what depends on counts: numbers that wrap, buffers that
// grow, state that is left behind by each operation.

const nLong = 300

// tally counts how often each of n ids occurred.
type tally struct{ n []int }

func (t *tally) add(i int) {
	must(i >= 0 && i < len(t.n), "id %d does not exist", i)
	t.n[i]++
}

func (t *tally) once(what string) {
	for i, n := range t.n {
		must(n == 1, "%s %d: %d times instead of once", what, i, n)
	}
}

func newTally(n int) *tally { return &tally{make([]int, n)} }

func init() {
	long := func(s *Scenario) {
		s.QK, s.TK, s.DK, s.MaxSteps = 0, 0, -1, 31000
		Reg(s)
	}
	for mode := 0; mode < nPoolModes; mode++ {
		// Wait groups: many batches, then a batch of many.
		long(&Scenario{Name: "long-wait-" + poolNames[mode], Props: []string{"W01", "W02", "W04"},
			Body: func(x *X) {
				p, o := mkPool(mode)
				g := wait.Group{Pool: p, PoolOptions: o}
				yield := Choose(2) == 1
				for b := 0; b < 60; b++ {
					n := b % 7
					fail := b % 3
					t := newTally(n)
					for i := 0; i < n; i++ {
						g.Go(bg(), func(ctx context.Context) error {
							if yield {
								P()
							}
							t.add(i)
							if i < fail {
								return errs[i]
							}
							return nil
						})
						r := g.Running()
						must(r >= 0 && r <= i+1, "Running is %d with %d functions handed over", r, i+1)
					}
					err := g.Wait(bg())
					t.once("function")
					must(g.Running() == 0, "Running is %d after Wait", g.Running())
					must((err == nil) == (min(fail, n) == 0), "batch %d: Wait returned %v with %d failing functions", b, err, min(fail, n))
					for i := 0; i < n; i++ {
						must(errors.Is(err, errs[i]) == (i < fail), "batch %d: errors.Is(%v, %v) is wrong", b, err, errs[i])
					}
				}
				n := 40
				t := newTally(n)
				es := make([]error, n)
				for i := range es {
					es[i] = fmt.Errorf("error %d", i)
				}
				for i := 0; i < n; i++ {
					g.Go(bg(), func(ctx context.Context) error {
						t.add(i)
						return es[i]
					})
				}
				err := g.Wait(bg())
				t.once("function")
				for i := range es {
					must(errors.Is(err, es[i]), "the error of function %d of %d is lost", i, n)
				}
				if p != nil {
					p.Close()
				}
			}})
		for api := 0; api < 3; api++ {
			n := nLong
			if mode == poolNone || mode == poolLim1NB || mode == poolPooled1NB {
				n = 45
			}
			prop := []string{"S01", "C01", "C03"}[api]
			long(&Scenario{Name: fmt.Sprintf("long-par-%s-%s", apiNames[api], poolNames[mode]), Props: []string{prop, []string{"S02", "C02", "C02"}[api]},
				Body: func(x *X) {
					p, o := mkPool(mode)
					c := parCall{pool: p, po: o}
					t := newTally(n)
					f := func(i int) error {
						t.add(i)
						if i%5 == 3 {
							return errs[1]
						}
						return nil
					}
					var err error
					switch api {
					case 0:
						s := make([]int, n)
						for i := range s {
							s[i] = i * 3
						}
						err = slices.Access(bg(), s, func(ctx context.Context, i int, v int, m slices.Modifier[int]) error {
							must(v == i*3, "the accessor for index %d got the value %d", i, v)
							if i%2 == 0 {
								m(-i)
							}
							return f(i)
						}, c.sliceOpts()...)
						for i := range s {
							must(i%2 == 0 && s[i] == -i || i%2 == 1 && s[i] == i*3, "element %d is %d afterwards", i, s[i])
						}
					default:
						in := make(chan int)
						go func() {
							for i := 0; i < n; i++ {
								in <- i
							}
							close(in)
						}()
						if api == 1 {
							err = chans.Access(bg(), in, func(ctx context.Context, i int) error { return f(i) }, c.chanOpts()...)
							break
						}
						out := make(chan chans.StreamResult[int], 3)
						res, bad := newTally(n), 0
						cd := make(chan bool)
						go func() {
							for r := range out {
								if r.Err != nil {
									must(errors.Is(r.Err, errs[1]) && r.Value == 0, "a result holds %v, %v", r.Value, r.Err)
									bad++
									continue
								}
								res.add(r.Value - 1000)
							}
							close(cd)
						}()
						err = callModify(bg(), in, out, func(ctx context.Context, i int) (int, error) {
							if e := f(i); e != nil {
								return 0, e
							}
							return i + 1000, nil
						}, c.chanOpts()...)
						<-cd
						must(bad == n/5, "%d modifications failed, %d error results came out", n/5, bad)
						for i, k := range res.n {
							must(k == b2i(i%5 != 3), "value %d has %d results", i, k)
						}
					}
					t.once("value")
					must(errors.Is(err, errs[1]), "the call returned %v although accessors failed", err)
					if p != nil {
						p.Close()
					}
				}})
		}
	}
	for kind := 0; kind < 2; kind++ {
		for size := 1; size <= 3; size++ {
			long(&Scenario{Name: fmt.Sprintf("long-pool-%s%d", kindNames[kind], size), Props: []string{"P01", "P02", "P04", "P05"},
				Body: func(x *X) {
					p := mustPool(kind, size)
					nb := Choose(3) // every, every third, no submission is non-blocking
					t := newTally(nLong)
					now := 0
					for i := 0; i < nLong; i++ {
						blocking := nb == 2 || nb == 1 && i%3 != 0
						submit(p, i, func(ctx context.Context) {
							must(idOf(ctx) == i, "job %d was run with the context of job %d", i, idOf(ctx))
							if blocking {
								now++
								must(now <= size, "%d blocking jobs are executing in a pool of size %d", now, size)
							}
							P()
							if blocking {
								now--
							}
							t.add(i)
						}, submitOpts(kind, b2i(!blocking))...)
						r := p.Running()
						must(r >= 0 && r <= i+1, "Running is %d after %d submissions", r, i+1)
						if i%50 == 49 {
							p.Wait()
							for j := 0; j <= i; j++ {
								must(t.n[j] == 1, "job %d was executed %d times when Wait had returned", j, t.n[j])
							}
							must(p.Running() == 0 && p.Len() == size, "after Wait Running is %d and Len is %d", p.Running(), p.Len())
							barrier(p, size, 1000)
						}
					}
					p.Close()
					t.once("job")
				}})
		}
	}
	long(&Scenario{Name: "long-errors", Props: []string{"E01"},
		Body: func(x *X) {
			var e goroutines.Errors
			var kept [][]error
			for i := 0; i < nLong; i++ {
				e.Record(typedErr{i})
				must(e.Error() == typedErr{0}, "the earliest error is reported as %v", e.Error())
				l := e.Errors()
				must(len(l) == i+1, "%d errors are listed of %d", len(l), i+1)
				kept = append(kept, l)
			}
			for k, l := range kept {
				must(len(l) == k+1, "a list has changed its length")
				for i := range l {
					must(l[i] == typedErr{i}, "entry %d of a list is %v", i, l[i])
				}
			}
		}})
	long(&Scenario{Name: "long-value", Props: []string{"A01", "A02"},
		Body: func(x *X) {
			var v atomics.RWValue[[2]int]
			done := make(chan bool)
			for g := 0; g < 3; g++ {
				go func() {
					for i := 0; i < 100; i++ {
						err := v.LoadReplace(func(o [2]int) ([2]int, error) {
							must(o[0] == -o[1], "half of a value was read: %v", o)
							if i%10 == 9 {
								return [2]int{7, 7}, errs[0]
							}
							if i%10 == g {
								P()
							}
							return [2]int{o[0] + 1, o[1] - 1}, nil
						})
						must((err != nil) == (i%10 == 9), "LoadReplace returned %v", err)
						o := v.Load()
						must(o[0] == -o[1] && o[0] > 0, "Load gave %v", o)
					}
					done <- true
				}()
			}
			for g := 0; g < 3; g++ {
				<-done
			}
			must(v.Load() == [2]int{270, -270}, "270 updates were made and the value is %v", v.Load())
		}})
	// Pipelines.
	for _, v := range []struct {
		num, stages, groups, reqs int
		ordered, dag, delay       bool
	}{
		{1, 1, 1, nLong, false, false, false},
		{2, 1, 1, nLong, true, false, false},
		{2, 2, 2, 120, true, true, false},
		{1, 2, 3, 80, false, true, true},
		{1, 1, 1, nLong, true, false, true},
	} {
		name := fmt.Sprintf("long-pipe-n%ds%dg%d", v.num, v.stages, v.groups)
		props := []string{"T01", "T03", "T06", "T07", "T08"}
		var o []stagedpipe.Option[pdata]
		if v.ordered {
			name += "-ord"
			props = append(props, "T02")
			o = append(o, stagedpipe.Ordered[pdata]())
		}
		if v.dag {
			name += "-dag"
			props = append(props, "T04")
			o = append(o, stagedpipe.DAG[pdata]())
		}
		if v.delay {
			name += "-delay"
			props = append(props, "T10")
			o = append(o, stagedpipe.DelayWarning[pdata](time.Hour))
		}
		long(&Scenario{Name: name, Props: props, AllowLive: 1, Setup: warmPipes,
			Body: func(x *X) {
				cancelled, cancel := context.WithCancel(bg())
				cancel()
				p := newPipes(v.num, v.stages, &smBase{plan: func(r *preq, vis int, stage byte) int {
					if r.Data.ID%3 == 1 {
						P()
					}
					if r.Data.ID%11 == 5 {
						return doErr
					}
					if vis+1 < v.stages {
						return doB
					}
					return doStop
				}}, o...)
				accepted := 0
				drained := make(chan []int, v.groups)
				took := make([][]int, v.groups)
				for gi := 0; gi < v.groups; gi++ {
					go func() {
						g := p.NewRequestGroup()
						go func() {
							var l []int
							for r := range g.Out() {
								must(r.Data.ID/1000 == gi, "group %d delivered request %d", gi, r.Data.ID)
								l = append(l, r.Data.ID)
								if r.Data.ID%1000%10 == 7 {
									must(r.Data.Trail == "" && r.Err == context.Canceled, "cancelled request %d ran %q and came out with %v", r.Data.ID, r.Data.Trail, r.Err)
									continue
								}
								want := "AB"[:v.stages]
								if r.Data.ID%11 == 5 {
									want = "A"
								}
								must(r.Data.Trail == want && (r.Err == errStage) == (r.Data.ID%11 == 5), "request %d ran %q and came out with %v", r.Data.ID, r.Data.Trail, r.Err)
							}
							drained <- l
						}()
						for j := 0; j < v.reqs; j++ {
							ctx := bg()
							if j%10 == 7 {
								ctx = cancelled
							}
							id := gi*1000 + j
							err := g.Submit(preq{Ctx: ctx, Data: pdata{ID: id}})
							// A request with a cancelled context may be accepted.
							must(err == nil || j%10 == 7, "a submission with a live context was refused: %v", err)
							if err != nil {
								continue
							}
							accepted++
							took[gi] = append(took[gi], id)
						}
						g.Close()
					}()
				}
				for i := 0; i < v.groups; i++ {
					l := <-drained
					gi := 0
					if len(l) > 0 {
						gi = l[0] / 1000
					}
					if v.ordered {
						must(fmt.Sprint(l) == fmt.Sprint(took[gi]), "group %d accepted %v and delivered %v", gi, took[gi], l)
						continue
					}
					t := newTally(gi*1000 + v.reqs)
					for _, id := range l {
						t.add(id)
					}
					must(len(l) == len(took[gi]), "group %d accepted %d requests and delivered %d", gi, len(took[gi]), len(l))
					for _, id := range took[gi] {
						must(t.n[id] == 1, "request %d was delivered %d times", id, t.n[id])
					}
				}
				st := p.Stats()
				must(st.Completed == int64(accepted) && st.Running == 0, "%d requests were accepted; %d completed, %d running", accepted, st.Completed, st.Running)
				p.Close()
			},
			Check: func(x *X) error { return checkClosed(x, 1) },
		})
	}
}
