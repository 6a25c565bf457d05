package main

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"time"

	"github.com/gostdlib/concurrency/prim/wait"
)

// Event codes of the wait scenarios. B is the batch.
const (
	evHand   = 1 // about to call Go for function A
	evStart  = 2
	evEnd    = 3
	evWaitIn = 4 // Wait about to be called
	evWaited = 5
	evObs0   = 6 // observation A begins
	evObs1   = 7 // observation A ended with value B
	evCancel = 8
	evClosed = 9
)

// checkOnce: functions 0..n-1 of each batch were started and ended exactly
// once, before the Wait of their batch returned. Function ids are batch*10+i.
func checkOnce(x *X, batches, n int) error {
	for b := 0; b < batches; b++ {
		w := pos(x.Ev, evWaited, b)
		if w < 0 {
			return fmt.Errorf("Wait of batch %d did not return", b)
		}
		for i := 0; i < n; i++ {
			id := b*10 + i
			if s, e := num(x.Ev, evStart, id), num(x.Ev, evEnd, id); s != 1 || e != 1 {
				return fmt.Errorf("function %d of batch %d was executed %d times and returned %d times", i, b, s, e)
			}
			if pos(x.Ev, evEnd, id) > w {
				return fmt.Errorf("Wait of batch %d returned before function %d had returned", b, i)
			}
		}
	}
	return nil
}

func init() {
	// W01: batches of functions that do nothing but be there.
	for mode := 0; mode < nPoolModes; mode++ {
		for _, v := range []struct {
			name       string
			batches, n int
			pt         bool
			qk, tk     int
			dpor       int
		}{
			{"b1n2", 1, 2, true, 3, 5, 1},
			{"b1n3", 1, 3, false, 3, 5, 2},
			{"b2n2", 2, 2, false, 3, 4, 2},
			{"b3n2", 3, 2, false, 2, 3, 0},
		} {
			Reg(&Scenario{Name: "w01-" + v.name + "-" + poolNames[mode], Props: []string{"W01", "D01"}, Race: v.n == 2, QK: v.qk, TK: v.tk, DPOR: v.dpor,
				Body: func(x *X) {
					p, o := mkPool(mode)
					g := wait.Group{Pool: p, PoolOptions: o}
					for b := 0; b < v.batches; b++ {
						for i := 0; i < v.n; i++ {
							id := b*10 + i
							g.Go(bg(), func(ctx context.Context) error {
								Ev(evStart, id, b)
								if v.pt {
									EvP(evEnd, id, b)
								} else {
									P()
									Ev(evEnd, id, b)
								}
								return nil
							})
						}
						err := g.Wait(bg())
						if v.pt {
							EvP(evWaited, b, 0)
						} else {
							Ev(evWaited, b, 0)
						}
						must(err == nil, "Wait returned %v although no function failed", err)
					}
					if p != nil {
						p.Close()
					}
				},
				Check: func(x *X) error { return checkOnce(x, v.batches, v.n) },
			})
		}
	}
	// Functions that start further functions, and Go from several goroutines.
	for _, mode := range []int{poolNone, poolLim2, poolPooled2, poolLim1NB, poolPooled1NB} {
		Reg(&Scenario{Name: "w01-nested-" + poolNames[mode], Props: []string{"W01", "D01"}, Race: true, QK: 3, TK: 4, DPOR: 2,
			Body: func(x *X) {
				p, o := mkPool(mode)
				g := wait.Group{Pool: p, PoolOptions: o}
				f := func(id int) func(context.Context) error {
					return func(ctx context.Context) error {
						Ev(evStart, id, 0)
						P()
						if id == 0 {
							g.Go(ctx, func(ctx context.Context) error {
								Ev(evStart, 2, 0)
								P()
								Ev(evEnd, 2, 0)
								return nil
							})
						}
						Ev(evEnd, id, 0)
						return nil
					}
				}
				g.Go(bg(), f(0))
				must(g.Wait(bg()) == nil, "Wait returned an error although no function failed")
				Ev(evWaited, 0, 0)
				g.Go(bg(), f(11))
				must(g.Wait(bg()) == nil, "Wait returned an error although no function failed")
				Ev(evWaited, 1, 0)
				if p != nil {
					p.Close()
				}
			},
			Check: func(x *X) error {
				w := pos(x.Ev, evWaited, 0)
				for _, id := range []int{0, 2} {
					if num(x.Ev, evStart, id) != 1 || num(x.Ev, evEnd, id) != 1 {
						return fmt.Errorf("function %d was not executed exactly once", id)
					}
					if pos(x.Ev, evEnd, id) > w {
						return fmt.Errorf("Wait returned before function %d had returned", id)
					}
				}
				if e := pos(x.Ev, evEnd, 11); e < 0 || e > pos(x.Ev, evWaited, 1) {
					return fmt.Errorf("the second Wait returned before the second function had returned")
				}
				return nil
			},
		})
		Reg(&Scenario{Name: "w01-multigo-" + poolNames[mode], Props: []string{"W01", "D01"}, Race: true, QK: 3, TK: 4,
			Body: func(x *X) {
				p, o := mkPool(mode)
				g := wait.Group{Pool: p, PoolOptions: o}
				done := make(chan bool, 2)
				for s := 0; s < 2; s++ {
					go func() {
						g.Go(bg(), func(ctx context.Context) error {
							Ev(evStart, s, 0)
							P()
							Ev(evEnd, s, 0)
							return nil
						})
						done <- true
					}()
				}
				<-done
				<-done
				must(g.Wait(bg()) == nil, "Wait returned an error although no function failed")
				Ev(evWaited, 0, 0)
				if p != nil {
					p.Close()
				}
			},
			Check: func(x *X) error { return checkOnce(x, 1, 2) },
		})
	}

	// W02: every combination of results of the functions.
	for mode := 0; mode < nPoolModes; mode++ {
		for _, v := range []struct {
			n, kinds, qk, tk int
		}{{2, 6, 3, 5}, {3, 3, 2, 4}, {4, 2, 2, 3}} {
			Reg(&Scenario{Name: fmt.Sprintf("w02-n%d-%s", v.n, poolNames[mode]), Props: []string{"W02"}, QK: v.qk, TK: v.tk, DPOR: map[int]int{2: 1, 3: 2, 4: 0}[v.n],
				Body: func(x *X) {
					p, o := mkPool(mode)
					g := wait.Group{Pool: p, PoolOptions: o}
					kind := make([]int, v.n)
					for i := range kind {
						kind[i] = Choose(v.kinds)
					}
					runBatch(&g, kind, 0, poolSize(mode) == 1)
					if p != nil {
						p.Close()
					}
				}})
		}
		Reg(&Scenario{Name: "w02-b2-" + poolNames[mode], Props: []string{"W02", "D01"}, Race: true, QK: 2, TK: 4,
			Body: func(x *X) {
				p, o := mkPool(mode)
				g := wait.Group{Pool: p, PoolOptions: o}
				k := Choose(8)
				first := [][]int{{1, 1}, {1, 0}, {0, 3}, {3, 1}}[k%4]
				second := [][]int{{0, 0}, {2, 1}}[k/4]
				runBatch(&g, first, 0, poolSize(mode) == 1)
				runBatch(&g, second, 2, poolSize(mode) == 1)
				runBatch(&g, []int{0}, 4, false)
				if p != nil {
					p.Close()
				}
			}})
	}

	// W03
	for mode := 0; mode < nPoolModes; mode++ {
		for _, n := range []int{2, 3} {
			// Some functions fail; the group's cancel function is configured.
			Reg(&Scenario{Name: fmt.Sprintf("w03-fail-n%d-%s", n, poolNames[mode]), Props: []string{"W03", "D01"}, Race: n == 2, QK: map[int]int{2: 3, 3: 2}[n], TK: 4, DPOR: map[int]int{2: 1, 3: 2}[n],
				Body: func(x *X) {
					p, o := mkPool(mode)
					mask := Choose(1 << n)
					ctx, cancel := context.WithCancel(bg())
					g := wait.Group{Pool: p, PoolOptions: o, CancelOnErr: func() { Ev(evCancel, 0, 0); cancel() }}
					for i := 0; i < n; i++ {
						g.Go(ctx, func(ctx context.Context) error {
							Ev(evStart, i, 0)
							P()
							Ev(evEnd, i, 0)
							if mask&(1<<i) != 0 {
								return errs[i]
							}
							return nil
						})
					}
					err := g.Wait(bg())
					Ev(evWaited, 0, 0)
					must(g.CancelOnErr == nil, "the cancel function is still configured after Wait")
					failed := 0
					skipped := 0
					for i := 0; i < n; i++ {
						if pos(evNow(), evStart, i) < 0 {
							skipped++
							continue
						}
						if mask&(1<<i) != 0 {
							failed++
							must(errors.Is(err, errs[i]), "the error of function %d is lost: %v", i, err)
						}
					}
					must(pos(evNow(), evCancel, 0) >= 0, "the configured cancel function was not called by the time Wait returned")
					must((err == nil) == (failed == 0 && skipped == 0), "Wait returned %v with %d failed and %d skipped functions", err, failed, skipped)
					must(failed > 0 || skipped == 0, "a function was skipped although its context was live")
					if poolSize(mode) == 1 {
						// One at a time: nothing runs once a function has failed.
						bad := -1
						for _, e := range evNow() {
							if e.Code == evStart && bad >= 0 {
								Fail("function %d was executed after function %d had failed", e.A, bad)
							}
							if e.Code == evEnd && mask&(1<<e.A) != 0 {
								bad = int(e.A)
							}
						}
					}
					// The next batch has no cancel function and a fresh context.
					g.Go(bg(), func(ctx context.Context) error { Ev(evStart, 10, 1); return nil })
					nc := num(evNow(), evCancel, 0)
					must(g.Wait(bg()) == nil, "the next batch of the group fails")
					must(pos(evNow(), evStart, 10) >= 0, "the function of the next batch was not executed")
					must(num(evNow(), evCancel, 0) == nc, "the cancel function of the previous batch was called again")
					if p != nil {
						p.Close()
					}
				}})
		}
		// The cancel function is called as soon as a function has failed: a
		// function that waits for the cancellation is released by it.
		for _, more := range []bool{false, true} {
			name, qk, tk, dpor := "w03-release-", 3, 4, 2
			if more {
				name, qk, tk, dpor = "w03-release2-", 1, 2, 0
			}
			Reg(&Scenario{Name: name + poolNames[mode], Props: []string{"W03"}, QK: qk, TK: tk, DPOR: dpor,
				Body: func(x *X) {
					p, o := mkPool(mode)
					ctx, cancel := context.WithCancel(bg())
					g := wait.Group{Pool: p, PoolOptions: o, CancelOnErr: func() { Ev(evCancel, 0, 0); cancel() }}
					fails := 1 + Choose(2)
					kind := 0 // what the failing functions return
					if more {
						kind = Choose(3)
					}
					// A function of another, cancelled context that is skipped.
					if more && Choose(2) == 1 {
						dead, c := context.WithCancel(bg())
						c()
						g.Go(dead, func(context.Context) error {
							Fail("a function was executed although its context was already cancelled")
							return nil
						})
						if Choose(2) == 1 {
							time.Sleep(time.Second) // until it has been skipped
						}
					}
					waiterFirst := poolSize(mode) != 1 && Choose(2) == 1
					waiter := func(ctx context.Context) error {
						Ev(evStart, 9, 0)
						<-ctx.Done()
						Ev(evEnd, 9, 0)
						return nil
					}
					if waiterFirst {
						g.Go(ctx, waiter)
					}
					for i := 0; i < fails; i++ {
						g.Go(ctx, func(ctx context.Context) error {
							Ev(evStart, i, 0)
							P()
							Ev(evEnd, i, 0)
							switch kind {
							case 1:
								return context.Canceled
							case 2:
								return ctxWrap{i}
							}
							return errs[i]
						})
					}
					if !waiterFirst {
						g.Go(ctx, waiter)
					}
					err := g.Wait(bg()) // deadlocks when nothing cancels the context
					some := false
					for i := 0; i < fails; i++ {
						if pos(evNow(), evStart, i) >= 0 {
							some = true
							switch kind {
							case 0:
								must(errors.Is(err, errs[i]), "the error of function %d is missing in %v", i, err)
							case 2:
								must(errors.Is(err, ctxWrap{i}), "the error of function %d is missing in %v", i, err)
							}
						}
					}
					must(err != nil, "Wait returned nil although a function failed")
					must(some, "no function was executed although no context was cancelled")
					if p != nil {
						p.Close()
					}
				}})
		}
		// A context that is already cancelled, or cancelled at any time.
		Reg(&Scenario{Name: "w03-ext-" + poolNames[mode], Props: []string{"W03", "W02", "D01"}, Race: true, QK: 3, TK: 4, DPOR: 2,
			Body: func(x *X) {
				p, o := mkPool(mode)
				kind := Choose(3)
				ctx, cancel := context.WithCancel(bg())
				defer cancel()
				g := wait.Group{Pool: p, PoolOptions: o}
				done := make(chan bool)
				switch kind {
				case 0: // before anything starts
					cancel()
					Ev(evCancel, 0, 0)
					close(done)
				case 1: // at any time
					go func() { Ev(evCancel, 0, 0); cancel(); close(done) }()
				case 2: // never
					close(done)
				}
				for i := 0; i < 2; i++ {
					c := ctx
					if i == 1 {
						c = bg()
					}
					g.Go(c, func(ctx context.Context) error {
						Ev(evStart, i, 0)
						P()
						Ev(evEnd, i, 0)
						return nil
					})
				}
				err := g.Wait(bg())
				<-done
				r0, r1 := pos(evNow(), evStart, 0) >= 0, pos(evNow(), evStart, 1) >= 0
				must(r1, "a function whose context is live was skipped")
				switch kind {
				case 0:
					must(!r0, "a function was executed although its context was already cancelled")
					must(errors.Is(err, context.Canceled), "the context's error is missing: %v", err)
				case 1:
					must(r0 == (err == nil), "executed=%v but Wait returned %v", r0, err)
					must(r0 || errors.Is(err, context.Canceled), "the context's error is missing: %v", err)
				case 2:
					must(r0 && err == nil, "executed=%v, error %v although nothing was cancelled", r0, err)
				}
				if p != nil {
					p.Close()
				}
			}})
		Reg(&Scenario{Name: "w03-deadline-" + poolNames[mode], Props: []string{"W03"}, QK: 2, TK: 3, Clock: true,
			Body: func(x *X) {
				p, o := mkPool(mode)
				ctx, cancel := context.WithTimeout(bg(), time.Second)
				defer cancel()
				g := wait.Group{Pool: p, PoolOptions: o}
				for i := 0; i < 3; i++ {
					g.Go(ctx, func(ctx context.Context) error {
						Ev(evStart, i, 0)
						time.Sleep(600 * time.Millisecond)
						return nil
					})
				}
				err := g.Wait(bg())
				n := 0
				for i := 0; i < 3; i++ {
					if pos(evNow(), evStart, i) >= 0 {
						n++
					}
				}
				must((n == 3) == (err == nil), "%d of 3 functions were executed, but Wait returned %v", n, err)
				must(err == nil || errors.Is(err, context.DeadlineExceeded), "the deadline error is missing: %v", err)
				must(n == 3 || isDone(ctx), "a function was skipped although its context is live")
				if p != nil {
					p.Close()
				}
			}})
	}

	// W04: observers of the running count.
	for mode := 0; mode < nPoolModes; mode++ {
		// Exact when nothing can make progress: functions whose Go has returned
		// and which are unfinished count, finished ones do not.
		Reg(&Scenario{Name: "w04-rest-" + poolNames[mode], Props: []string{"W04"}, QK: 2, TK: 3, DPOR: 2,
			Body: func(x *X) {
				p, o := mkPool(mode)
				g := wait.Group{Pool: p, PoolOptions: o}
				n := 1 + Choose(3)
				gate := make(chan int)
				for b := 0; b < 2; b++ {
					handed, accepted, finished := 0, 0, 0
					done := make(chan bool)
					go func() {
						for i := 0; i < n; i++ {
							handed++
							g.Go(bg(), func(ctx context.Context) error {
								if <-gate == 1 {
									return errs[0]
								}
								return nil
							})
							accepted++
						}
						close(done)
					}()
					for k := 0; ; k++ {
						time.Sleep(time.Second) // until nothing can proceed
						r := g.Running()
						must(r >= accepted-finished && r <= handed-finished, "Running is %d at rest although %d functions are unfinished (%d including the Go calls in progress)", r, accepted-finished, handed-finished)
						if k == n {
							break
						}
						gate <- k & 1
						finished++
					}
					<-done
					g.Wait(bg())
					must(g.Running() == 0, "Running is %d after Wait", g.Running())
				}
				if p != nil {
					p.Close()
				}
			}})
		for _, v := range []struct{ batches, n, qk, tk, dpor int }{{1, 2, 3, 4, 2}, {2, 1, 3, 5, 2}, {2, 2, 2, 4, 0}} {
			Reg(&Scenario{Name: fmt.Sprintf("w04-b%dn%d-%s", v.batches, v.n, poolNames[mode]), Props: []string{"W04", "D01"}, Race: true, QK: v.qk, TK: v.tk, DPOR: v.dpor,
				Body: func(x *X) {
					p, o := mkPool(mode)
					g := wait.Group{Pool: p, PoolOptions: o}
					stop := make(chan bool)
					go func() {
						for k := 0; k < 3; k++ {
							Ev(evObs0, k, 0)
							r := g.Running()
							Ev(evObs1, k, r)
						}
						close(stop)
					}()
					for b := 0; b < v.batches; b++ {
						for i := 0; i < v.n; i++ {
							id := b*10 + i
							Ev(evHand, id, b)
							g.Go(bg(), func(ctx context.Context) error {
								Ev(evStart, id, b)
								P()
								Ev(evEnd, id, b)
								if i == 1 {
									return errs[0]
								}
								return nil
							})
						}
						g.Wait(bg())
						Ev(evWaited, b, 0)
						Ev(evObs0, 100+b, 0)
						r := g.Running()
						Ev(evObs1, 100+b, r)
					}
					<-stop
					Ev(evObs0, 200, 0)
					r := g.Running()
					Ev(evObs1, 200, r)
					if p != nil {
						p.Close()
					}
				},
				Check: func(x *X) error { return checkRunning(x.Ev, true) },
			})
		}
	}
}

func evNow() []runtime.MCEvent { return runtime.MCEvents() }

// checkRunning checks the observations against the functions handed over and
// executing. For a group (batch=true) the count restarts with each batch.
func checkRunning(ev []runtime.MCEvent, batch bool) error {
	for i := range ev {
		if ev[i].Code != evObs1 {
			continue
		}
		r := int(ev[i].B)
		i0 := -1
		for j := i - 1; j >= 0; j-- {
			if ev[j].Code == evObs0 && ev[j].A == ev[i].A {
				i0 = j
				break
			}
		}
		// Functions executing during the whole observation.
		low := 0
		for j := 0; j < i0; j++ {
			if ev[j].Code == evStart {
				ended := false
				for k := j; k < i; k++ {
					if ev[k].Code == evEnd && ev[k].A == ev[j].A {
						ended = true
					}
				}
				if !ended {
					low++
				}
			}
		}
		// Functions handed over before the end of the observation, in batches
		// that were not over when it began.
		high := 0
		for j := 0; j < i; j++ {
			if ev[j].Code != evHand {
				continue
			}
			over := false
			for k := j; k < i0; k++ {
				if ev[k].Code == evWaited && ev[k].A == ev[j].B {
					over = true
				}
			}
			if !over {
				high++
			}
		}
		if r < low || r > high || r < 0 {
			return fmt.Errorf("the running count was %d while %d functions were executing and %d had been handed over", r, low, high)
		}
	}
	return nil
}

// ctxWrap is an error that wraps a context's error without being one.
type ctxWrap struct{ n int }

func (e ctxWrap) Error() string { return fmt.Sprintf("interrupted %d", e.n) }
func (e ctxWrap) Unwrap() error {
	if e.n%2 == 0 {
		return context.Canceled
	}
	return context.DeadlineExceeded
}

// runBatch runs functions with the given results: 0 success, 1 error, 2 wrapped
// typed error, 3 context.Canceled, 4 context.DeadlineExceeded, 5 an error of its
// own that wraps context.Canceled or, for odd ids, context.DeadlineExceeded.
func runBatch(g *wait.Group, kind []int, base int, sequential bool) {
	for i, k := range kind {
		g.Go(bg(), func(ctx context.Context) error {
			P()
			Ev(evEnd, base+i, 0)
			switch k {
			case 1:
				return errs[base+i]
			case 2:
				return fmt.Errorf("wrapped: %w", typedErr{base + i})
			case 3:
				return context.Canceled
			case 4:
				return context.DeadlineExceeded
			case 5:
				return ctxWrap{base + i}
			}
			return nil
		})
	}
	err := g.Wait(bg())
	real, bare := 0, 0
	for i, k := range kind {
		id := base + i
		switch k {
		case 1:
			real++
			must(errors.Is(err, errs[id]), "the error of function %d is missing in %q", i, err)
		case 2:
			real++
			must(errors.Is(err, typedErr{id}), "the error of function %d is missing in %q", i, err)
			var te typedErr
			must(errors.As(err, &te), "the type of the error of function %d is lost in %q", i, err)
		case 5:
			real++
			must(errors.Is(err, ctxWrap{id}), "the error of function %d, which wraps a context error, is missing in %q", i, err)
		case 3, 4:
			bare++
		}
	}
	must((err == nil) == (real+bare == 0), "Wait returned %v, but %d functions failed", err, real+bare)
	if bare > 0 && real == 0 {
		ok := false
		for _, k := range kind {
			if k == 3 && errors.Is(err, context.Canceled) || k == 4 && errors.Is(err, context.DeadlineExceeded) {
				ok = true
			}
		}
		must(ok, "the context error is missing in %q", err)
	}
	// No error that was not returned.
	for id, e := range errs {
		in := id >= base && id < base+len(kind) && kind[id-base] == 1
		must(in || !errors.Is(err, e), "Wait returned %q, which no function of the batch returned", e)
	}
	for id := range errs {
		in := id >= base && id < base+len(kind) && kind[id-base] == 2
		must(in || !errors.Is(err, typedErr{id}), "Wait returned an error that no function of the batch returned")
	}
	hasC, hasD := false, false
	wraps := false
	for i, k := range kind {
		hasC = hasC || k == 3 || k == 5 && (base+i)%2 == 0
		hasD = hasD || k == 4 || k == 5 && (base+i)%2 == 1
		wraps = wraps || k == 5
	}
	must(hasC || !errors.Is(err, context.Canceled), "Wait returned a cancellation that did not happen")
	must(hasD || !errors.Is(err, context.DeadlineExceeded), "Wait returned a deadline error that did not happen")
	if sequential {
		// Functions finish one after the other: a bare context error is kept if
		// and only if it was the first error.
		for i := range evNow() {
			e := evNow()[i]
			if e.Code != evEnd || int(e.A) < base || int(e.A) >= base+len(kind) {
				continue
			}
			k := kind[int(e.A)-base]
			if k == 0 {
				continue
			}
			must(k != 3 || errors.Is(err, context.Canceled), "the first error, a cancellation, is missing in %q", err)
			must(k != 4 || errors.Is(err, context.DeadlineExceeded), "the first error, a deadline error, is missing in %q", err)
			if k < 3 && !wraps {
				must(!errors.Is(err, context.Canceled) && !errors.Is(err, context.DeadlineExceeded), "a bare context error that came later was kept: %q", err)
			}
			break
		}
	}
}
