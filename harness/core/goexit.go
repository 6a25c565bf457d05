package main

import (
	"context"
	"errors"
	"fmt"
	"runtime"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/prim/atomics"
	"github.com/gostdlib/concurrency/prim/wait"
)

// Jobs and functions that end with runtime.Goexit (as a failing test does) have
// finished as well.
func init() {
	for kind := 0; kind < 2; kind++ {
		for size := 1; size <= 2; size++ {
			Reg(&Scenario{Name: fmt.Sprintf("goexit-%s%d", kindNames[kind], size), Props: []string{"P08"}, QK: 1, TK: 2,
				Body: func(x *X) {
					p := mustPool(kind, size)
					n := size + 1
					mask, opts := Choose(1<<n), Choose(1<<n)
					for i := 0; i < n; i++ {
						submit(p, i, func(ctx context.Context) {
							Ev(evStart, i, idOf(ctx))
							P()
							Ev(evEnd, i, 0)
							if mask>>i&1 == 1 {
								runtime.Goexit()
							}
						}, submitOpts(kind, opts>>i&1)...)
					}
					if Choose(2) == 1 {
						p.Wait()
						must(jobOnce(evNow(), 0, 1) == nil, "Wait returned before the last job had finished")
						must(p.Running() == 0, "Running is %d after Wait", p.Running())
						barrier(p, size, 10) // the capacity is as before
					}
					p.Close()
					must(jobOnce(evNow(), 0, 1) == nil, "Close returned before the last job had finished")
					must(p.Running() == 0, "Running is %d after Close", p.Running())
				},
				Check: func(x *X) error { return jobOnce(x.Ev, 0, size) }})
		}
	}
	for mode := 0; mode < nPoolModes; mode++ {
		Reg(&Scenario{Name: "goexit-wait-" + poolNames[mode], Props: []string{"P08"}, QK: 1, TK: 2,
			Body: func(x *X) {
				p, o := mkPool(mode)
				g := wait.Group{Pool: p, PoolOptions: o}
				for batch := 0; batch < 2; batch++ {
					const n = 3
					mask, fail := Choose(1<<n), Choose(2) == 1
					ended := 0
					for i := 0; i < n; i++ {
						g.Go(bg(), func(context.Context) error {
							P()
							ended++
							if mask>>i&1 == 1 {
								runtime.Goexit()
							}
							if fail && i == 1 {
								return errs[1]
							}
							return nil
						})
					}
					err := g.Wait(bg())
					must(ended == n, "Wait returned when %d of %d functions had ended", ended, n)
					must(g.Running() == 0, "Running is %d after Wait", g.Running())
					if fail && mask>>1&1 == 0 {
						must(errors.Is(err, errs[1]), "Wait returned %v", err)
					} else {
						must(err == nil, "Wait returned %v", err)
					}
				}
				if p != nil {
					p.Close()
				}
			}})
	}
	Reg(&Scenario{Name: "goexit-value", Props: []string{"P08"}, QK: 2, TK: 3,
		Body: func(x *X) {
			var v atomics.RWValue[int]
			v.Store(1)
			done := make(chan bool)
			go func() {
				defer close(done)
				v.LoadReplace(func(o int) (int, error) {
					runtime.Goexit()
					return 5, nil
				})
			}()
			must(v.LoadReplace(func(o int) (int, error) { return o + 1, nil }) == nil, "a replacement failed")
			<-done
			must(v.Load() == 2, "the value is %d", v.Load())
			v.Store(7)
			must(v.Load() == 7, "the value is %d", v.Load())
		}})
	// On a saturated pool with submissions that wait; jobs that submit others.
	for kind := 0; kind < 2; kind++ {
		Reg(&Scenario{Name: "goexit-sat-" + kindNames[kind], Props: []string{"P08"}, QK: 1, TK: 2,
			Body: func(x *X) {
				const size = 2
				p := mustPool(kind, size)
				mask, nested := Choose(16), Choose(2) == 1
				gate := make(chan bool)
				job := func(id int) goroutines.Job {
					return func(ctx context.Context) {
						a := Ctr(0, 1)
						must(a <= size, "%d blocking-submitted jobs are executing in a pool of size %d", a, size)
						Ev(evStart, id, idOf(ctx))
						if nested && id < size {
							submit(p, 10+id, func(ctx context.Context) {
								Ev(evStart, 10+id, idOf(ctx))
								P()
								Ev(evEnd, 10+id, 0)
								if mask>>id&1 == 0 {
									runtime.Goexit()
								}
							}, nonBlocking(kind))
						}
						if id < size {
							<-gate
						}
						Ctr(0, -1)
						Ev(evEnd, id, 0)
						if mask>>id&1 == 1 {
							runtime.Goexit()
						}
					}
				}
				done := make(chan bool, 4)
				for i := 0; i < 4; i++ {
					go func() { submit(p, i, job(i)); done <- true }()
				}
				if Choose(2) == 1 {
					for i := 0; i < size; i++ {
						<-done
					}
					close(gate)
					for i := 0; i < 4-size; i++ {
						<-done
					}
				} else {
					close(gate)
					for i := 0; i < 4; i++ {
						<-done
					}
				}
				p.Wait()
				must(p.Running() == 0, "Running is %d after Wait", p.Running())
				for i := 0; i < 4; i++ {
					must(num(evNow(), evEnd, i) == 1, "Wait returned before job %d had finished", i)
				}
				barrier(p, size, 20)
				p.Close()
			},
			Check: func(x *X) error { return jobOnce(x.Ev, 0, 1, 2, 3) }})
	}
	for api := 0; api < 3; api++ {
		for mode := 0; mode < nPoolModes; mode++ {
			Reg(&Scenario{Name: fmt.Sprintf("goexit-par-%s-%s", apiNames[api], poolNames[mode]), Props: []string{"P08"}, QK: 1, TK: 2,
				Body: func(x *X) {
					p, o := mkPool(mode)
					const n = 3
					mask := Choose(1 << n)
					c := parCall{api: api, n: n, pool: p, po: o, stop: Choose(2) == 1}
					c.run(bg(), func(ctx context.Context, i int) error {
						Ev(evStart, i, 0)
						P()
						Ev(evEnd, i, 0)
						if mask>>i&1 == 1 {
							runtime.Goexit()
						}
						return nil
					})
					Ev(evWaited, 0, 0)
					if p != nil {
						p.Wait()
						must(p.Running() == 0, "Running is %d after Wait", p.Running())
						barrier(p, p.Len(), 10)
						p.Close()
					}
				},
				Check: func(x *X) error { return accessed(x.Ev, 3, true) },
			})
		}
	}
}
