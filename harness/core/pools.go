package main

import (
	"context"
	"fmt"
	"regexp"
	"runtime"
	"strings"
	"time"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"
)

// kind of pool: 0 limited, 1 pooled.
var kindNames = []string{"lim", "pooled"}

func newPool(kind int, name string, size int) (goroutines.Pool, error) {
	if kind == 0 {
		p, err := limited.New(name, size)
		if err != nil {
			return nil, err
		}
		return p, nil
	}
	p, err := pooled.New(name, size)
	if err != nil {
		return nil, err
	}
	return p, nil
}

func mustPool(kind int, size int) goroutines.Pool {
	p, err := newPool(kind, "", size)
	if err != nil {
		Fail("a valid pool could not be created: %v", err)
	}
	return p
}

func nonBlocking(kind int) goroutines.SubmitOption {
	if kind == 0 {
		return limited.NonBlocking()
	}
	return pooled.NonBlocking()
}

func caller(kind int) goroutines.SubmitOption {
	if kind == 0 {
		return limited.Caller("caller")
	}
	return pooled.Caller("caller")
}

// submitOpts is the option list for a blocking (nb=0) or non-blocking job.
func submitOpts(kind, nb int) []goroutines.SubmitOption {
	if nb == 1 {
		return []goroutines.SubmitOption{nonBlocking(kind)}
	}
	return nil
}

// uniqueBase returns a base name that no other execution of this process uses.
var baseSeq int

func uniqueBase() string {
	baseSeq++
	n := baseSeq
	b := []byte("base")
	for i := 0; i < 6; i++ {
		b = append(b, byte('a'+n%26))
		n /= 26
	}
	return string(b)
}

const (
	evAccepted = 20 // Submit of job A returned without error
	evRefused  = 21
	evMade     = 22 // pool A exists from here; B: index into names
	evGone     = 23 // Close of pool A about to be called
)

// jobOnce: the jobs with these ids were executed exactly once with their context.
func jobOnce(ev []runtime.MCEvent, ids ...int) error {
	for _, id := range ids {
		if s := num(ev, evStart, id); s != 1 {
			return fmt.Errorf("job %d was executed %d times", id, s)
		}
		if e := num(ev, evEnd, id); e != 1 {
			return fmt.Errorf("job %d ended %d times", id, e)
		}
	}
	for i := range ev {
		if ev[i].Code == evStart && ev[i].A != ev[i].B {
			return fmt.Errorf("job %d was run with the context of job %d", ev[i].A, ev[i].B)
		}
	}
	return nil
}

func plainJob(id int) goroutines.Job {
	return func(ctx context.Context) {
		Ev(evStart, id, idOf(ctx))
		P()
		Ev(evEnd, id, 0)
	}
}

func submit(p goroutines.Pool, id int, job goroutines.Job, o ...goroutines.SubmitOption) {
	submit1(p, withID(bg(), id), job, o...)
}

func submit1(p goroutines.Pool, ctx context.Context, job goroutines.Job, o ...goroutines.SubmitOption) {
	if err := p.Submit(ctx, job, o...); err != nil {
		Fail("a valid submission was refused: %v", err)
	}
}

// barrier runs n blocking jobs that can only finish when all of them are in
// execution at the same time.
func barrier(p goroutines.Pool, n, base int) {
	all := make(chan bool)
	in := make(chan bool, n)
	for i := 0; i < n; i++ {
		submit(p, base+i, func(ctx context.Context) {
			in <- true
			<-all
		})
	}
	for i := 0; i < n; i++ {
		<-in
	}
	close(all)
}

func init() {
	// P01
	for kind := 0; kind < 2; kind++ {
		for size := 1; size <= 2; size++ {
			for _, v := range []struct{ subs, jobs, qk, tk, dpor int }{{1, 2, 3, 4, 1}, {1, 3, 2, 4, 2}, {2, 1, 3, 4, 2}, {2, 2, 2, 3, 0}, {3, 1, 2, 3, 0}} {
				Reg(&Scenario{Name: fmt.Sprintf("p01-%s%d-s%dj%d", kindNames[kind], size, v.subs, v.jobs), Props: []string{"P01", "D01"}, Race: v.subs == 2,
					QK: v.qk, TK: v.tk, DPOR: v.dpor,
					Body: func(x *X) {
						p := mustPool(kind, size)
						n := v.subs * v.jobs
						mask := Choose(1 << n)
						if v.subs == 1 {
							for j := 0; j < v.jobs; j++ {
								submit(p, j, plainJob(j), submitOpts(kind, mask>>j&1)...)
							}
						} else {
							done := make(chan bool, v.subs)
							for s := 0; s < v.subs; s++ {
								go func() {
									for j := 0; j < v.jobs; j++ {
										id := s*v.jobs + j
										submit(p, id, plainJob(id), submitOpts(kind, mask>>id&1)...)
									}
									done <- true
								}()
							}
							for s := 0; s < v.subs; s++ {
								<-done
							}
						}
						p.Close()
					},
					Check: func(x *X) error { return jobOnce(x.Ev, ids(v.subs*v.jobs)...) },
				})
			}
			// Jobs that submit jobs.
			Reg(&Scenario{Name: fmt.Sprintf("p01-%s%d-nested", kindNames[kind], size), Props: []string{"P01", "D01"}, Race: true, QK: 2, TK: 4, DPOR: 2,
				Body: func(x *X) {
					p := mustPool(kind, size)
					first := Choose(2)
					inner := Choose(2)
					if size == 1 {
						inner = 1 // no capacity for a blocking submission inside a job
					}
					submit(p, 0, func(ctx context.Context) {
						Ev(evStart, 0, idOf(ctx))
						submit(p, 1, plainJob(1), submitOpts(kind, inner)...)
						P()
						submit(p, 2, plainJob(2), nonBlocking(kind))
						Ev(evEnd, 0, 0)
					}, submitOpts(kind, first)...)
					p.Wait()
					for id := 0; id < 3; id++ {
						must(pos(evNow(), evEnd, id) >= 0, "job %d is not finished although Wait returned", id)
					}
					submit(p, 3, plainJob(3))
					p.Close()
				},
				Check: func(x *X) error { return jobOnce(x.Ev, 0, 1, 2, 3) },
			})
			// The context of a job is the submitter's: cancelling that one reaches
			// the job, also while it runs; deadline and values are the same.
			Reg(&Scenario{Name: fmt.Sprintf("p01-%s%d-ctx", kindNames[kind], size), Props: []string{"P01"}, QK: 2, TK: 4, DPOR: 2,
				Body: func(x *X) {
					p := mustPool(kind, size)
					mask := Choose(4)
					ctxs := make([]context.Context, 2)
					cancels := make([]context.CancelFunc, 2)
					for j := range ctxs {
						ctxs[j], cancels[j] = context.WithDeadline(bg(), time.Now().Add(time.Duration(j+1)*time.Hour))
					}
					done := make(chan bool)
					go func() {
						for j := range ctxs {
							job := func(c context.Context) {
								d0, ok0 := ctxs[j].Deadline()
								d1, ok1 := c.Deadline()
								must(ok0 == ok1 && d0.Equal(d1), "job %d runs with a context of another deadline", j)
								Ev(evStart, j, idOf(c))
								<-c.Done()
								must(isDone(ctxs[j]), "the context of job %d is done although the one it was submitted with is not", j)
								Ev(evEnd, j, 0)
							}
							submit1(p, withID(ctxs[j], j), job, submitOpts(kind, mask>>j&1)...)
						}
						close(done)
					}()
					for j := range ctxs {
						cancels[j]()
						P()
					}
					<-done
					p.Wait()
					p.Close()
				},
				Check: func(x *X) error { return jobOnce(x.Ev, 0, 1) },
			})
			// A context that is cancelled: accepted means executed.
			Reg(&Scenario{Name: fmt.Sprintf("p01-%s%d-cancelled", kindNames[kind], size), Props: []string{"P01"}, QK: 3, TK: 4, DPOR: 2,
				Body: func(x *X) {
					p := mustPool(kind, size)
					early := Choose(2)
					mask := Choose(4)
					ctx, cancel := context.WithCancel(bg())
					done := make(chan bool)
					if early == 1 {
						cancel()
						close(done)
					} else {
						go func() { cancel(); close(done) }()
					}
					for j := 0; j < 2; j++ {
						job := func(c context.Context) {
							must(early == 0 || isDone(c), "job %d was not run with the cancelled context it was submitted with", j)
							Ev(evStart, j, idOf(c))
							P()
							Ev(evEnd, j, 0)
						}
						if err := p.Submit(withID(ctx, j), job, submitOpts(kind, mask>>j&1)...); err == nil {
							Ev(evAccepted, j, 0)
						} else {
							Ev(evRefused, j, 0)
						}
					}
					p.Close()
					<-done
				},
				Check: func(x *X) error {
					for j := 0; j < 2; j++ {
						if pos(x.Ev, evAccepted, j) >= 0 {
							if err := jobOnce(x.Ev, j); err != nil {
								return err
							}
						} else if pos(x.Ev, evStart, j) >= 0 {
							return fmt.Errorf("the refused job %d was executed", j)
						}
					}
					return nil
				},
			})
		}
	}

	// P02
	for kind := 0; kind < 2; kind++ {
		for size := 1; size <= 3; size++ {
			for _, v := range []struct{ subs, extra, nb, qk, tk, dpor int }{{1, 1, 0, 3, 4, 2}, {1, 2, 0, 2, 3, 2}, {2, 1, 0, 2, 4, 2}, {1, 1, 1, 2, 4, 2}, {3, 2, 1, 2, 3, 0}} {
				if size == 3 && (v.extra > 1 || v.subs == 2) {
					continue
				}
				n := size + v.extra
				k := v.qk
				if size == 3 {
					k = 2
				}
				Reg(&Scenario{Name: fmt.Sprintf("p02-%s%d-s%de%dnb%d", kindNames[kind], size, v.subs, v.extra, v.nb), Props: []string{"P02"}, QK: k, TK: v.tk, DPOR: v.dpor,
					Body: func(x *X) {
						p := mustPool(kind, size)
						job := func(id int) goroutines.Job {
							return func(ctx context.Context) {
								if a := Ctr(0, 1); a > size {
									Fail("%d blocking-submitted jobs are executing in a pool of size %d", a, size)
								}
								P()
								P()
								Ctr(0, -1)
							}
						}
						run := func(s int) {
							for i := s; i < n; i += v.subs {
								if v.nb > 0 && i == n-1 {
									submit(p, 100, func(context.Context) { P(); P() }, nonBlocking(kind))
								}
								submit(p, i, job(i))
							}
						}
						if v.subs == 1 {
							run(0)
						} else {
							done := make(chan bool, v.subs)
							for s := 0; s < v.subs; s++ {
								go func() { run(s); done <- true }()
							}
							for s := 0; s < v.subs; s++ {
								<-done
							}
						}
						p.Close()
					},
				})
			}
			// The full size is usable: at first, after use, and with jobs of
			// several submitters.
			Reg(&Scenario{Name: fmt.Sprintf("p02-%s%d-full", kindNames[kind], size), Props: []string{"P02"}, QK: 2, TK: 3, DPOR: 2,
				Body: func(x *X) {
					p := mustPool(kind, size)
					barrier(p, size, 0)
					if Choose(2) == 1 {
						p.Wait()
					}
					for i := 0; i < size+1; i++ {
						submit(p, 20+i, plainJob(20+i), submitOpts(kind, Choose(2))...)
					}
					if kind == 1 {
						p.Wait()
					}
					barrier(p, size, 10)
					p.Close()
				}})
			Reg(&Scenario{Name: fmt.Sprintf("p02-%s%d-fullpar", kindNames[kind], size), Props: []string{"P02"}, QK: 2, TK: 4, DPOR: 2,
				Body: func(x *X) {
					p := mustPool(kind, size)
					all := make(chan bool)
					in := make(chan bool, size)
					done := make(chan bool, size)
					for i := 0; i < size; i++ {
						go func() {
							submit(p, i, func(context.Context) { in <- true; <-all })
							done <- true
						}()
					}
					for i := 0; i < size; i++ {
						<-in
					}
					close(all)
					for i := 0; i < size; i++ {
						<-done
					}
					p.Close()
				}})
		}
	}

	// P03
	for kind := 0; kind < 2; kind++ {
		for size := 1; size <= 2; size++ {
			for _, v := range []struct{ nb, waiting, qk, tk, dpor int }{{1, 0, 3, 4, 1}, {2, 0, 2, 4, 2}, {3, 0, 2, 3, 0}, {1, 1, 2, 4, 2}, {2, 1, 2, 3, 0}, {2, 2, 2, 3, 0}} {
				// size jobs that hold the pool, some more blocking submissions that
				// have to wait, and non-blocking jobs that must start nevertheless.
				Reg(&Scenario{Name: fmt.Sprintf("p03-%s%d-nb%dw%d", kindNames[kind], size, v.nb, v.waiting), Props: []string{"P03"}, QK: v.qk, TK: v.tk, DPOR: v.dpor,
					Body: func(x *X) {
						p := mustPool(kind, size)
						gate := make(chan bool)
						hold := Choose(2) // whether to wait until the pool is really saturated
						in := make(chan bool, size)
						for i := 0; i < size; i++ {
							submit(p, i, func(context.Context) { in <- true; <-gate })
						}
						if hold == 1 {
							for i := 0; i < size; i++ {
								<-in
							}
						}
						wdone := make(chan bool, v.waiting)
						for i := 0; i < v.waiting; i++ {
							go func() { submit(p, 10+i, plainJob(10+i)); wdone <- true }()
						}
						started := make(chan int, v.nb)
						for i := 0; i < v.nb; i++ {
							submit(p, 20+i, func(context.Context) { started <- i; <-gate }, nonBlocking(kind))
						}
						for i := 0; i < v.nb; i++ {
							<-started // must not depend on the gate
						}
						close(gate)
						for i := 0; i < v.waiting; i++ {
							<-wdone
						}
						p.Close()
					}})
			}
			// Every list of options that contains NonBlocking, with contexts that
			// are live, cancelled or past their deadline, on a saturated pool.
			Reg(&Scenario{Name: fmt.Sprintf("p03-%s%d-lists", kindNames[kind], size), Props: []string{"P03", "P01", "P07", "P02"}, QK: 1, TK: 2, DPOR: 1,
				Body: func(x *X) {
					p := mustPool(kind, size)
					gate := make(chan bool)
					in := make(chan bool, size)
					pc, nb, end := caller(kind), nonBlocking(kind), Choose(4)
					for i := 0; i < size; i++ {
						o := [][]goroutines.SubmitOption{nil, {pc}, {pc, pc}}[i]
						submit(p, i, func(context.Context) {
							Ev(evStart, i, i)
							in <- true
							<-gate
							Ev(evEnd, i, 0)
						}, o...)
					}
					if Choose(2) == 1 {
						for i := 0; i < size; i++ {
							<-in
						}
					}
					ctx := bg()
					switch end {
					case 1:
						c, cancel := context.WithCancel(ctx)
						cancel()
						ctx = c
					case 2:
						c, cancel := context.WithTimeout(ctx, time.Second)
						defer cancel()
						ctx = c
						time.Sleep(2 * time.Second)
					case 3: // still to come
						c, cancel := context.WithTimeout(ctx, time.Hour)
						defer cancel()
						ctx = c
					}
					list := [][]goroutines.SubmitOption{{nb}, {nb, pc}, {pc, nb}, {nb, nb}, {pc, nb, pc}, {nb, pc, nb}}[Choose(6)]
					started := make(chan bool, 2)
					for i := 10; i < 12; i++ {
						submit1(p, withID(ctx, i), func(c context.Context) {
							Ev(evStart, i, idOf(c))
							started <- true
							<-gate
							Ev(evEnd, i, 0)
						}, list...)
					}
					<-started // must not depend on the gate
					<-started
					must(p.Len() == size, "Len is %d", p.Len())
					close(gate)
					p.Wait()
					p.Close()
				},
				Check: func(x *X) error {
					for i := 0; i < size; i++ {
						if err := jobOnce(x.Ev, i); err != nil {
							return err
						}
					}
					return jobOnce(x.Ev, 10, 11)
				}})
			// A job that submits the non-blocking jobs it waits for, on a full pool.
			Reg(&Scenario{Name: fmt.Sprintf("p03-%s%d-inside", kindNames[kind], size), Props: []string{"P03", "D01"}, Race: true, QK: 2, TK: 3, DPOR: 2,
				Body: func(x *X) {
					p := mustPool(kind, size)
					for i := 0; i < size; i++ {
						submit(p, i, func(context.Context) {
							c := make(chan bool)
							submit(p, 10+i, func(context.Context) {
								d := make(chan bool)
								submit(p, 20+i, func(context.Context) { close(d) }, nonBlocking(kind))
								<-d
								close(c)
							}, nonBlocking(kind))
							<-c
						})
					}
					p.Close()
				}})
			// A non-blocking job submitted while the pool's goroutines become idle
			// or busy, that other jobs wait for.
			Reg(&Scenario{Name: fmt.Sprintf("p03-%s%d-dep", kindNames[kind], size), Props: []string{"P03"}, QK: 3, TK: 4, DPOR: 2,
				Body: func(x *X) {
					p := mustPool(kind, size)
					c := make(chan bool)
					done := make(chan bool)
					submit(p, 5, plainJob(5))
					go func() {
						for i := 0; i < size; i++ {
							submit(p, i, func(context.Context) { <-c })
						}
						close(done)
					}()
					submit(p, 10, func(context.Context) { close(c) }, nonBlocking(kind))
					<-done
					p.Close()
				}})
			// A non-blocking submission never waits: the submitter holds what the
			// running job needs.
			Reg(&Scenario{Name: fmt.Sprintf("p03-%s%d-nowait", kindNames[kind], size), Props: []string{"P03"}, QK: 2, TK: 4, DPOR: 2,
				Body: func(x *X) {
					p := mustPool(kind, size)
					gate := make(chan bool)
					n := Choose(4)
					for i := 0; i < size+n; i++ {
						o := []goroutines.SubmitOption{nonBlocking(kind)}
						if i < size && Choose(2) == 1 {
							o = nil
						}
						submit(p, i, func(context.Context) { <-gate }, o...)
					}
					close(gate)
					p.Close()
				}})
		}
	}
	for kind := 0; kind < 2; kind++ {
		for size := 1; size <= 2; size++ {
			// However many non-blocking jobs are running.
			Reg(&Scenario{Name: fmt.Sprintf("p03-%s%d-many", kindNames[kind], size), Props: []string{"P03", "P05"}, QK: 0, TK: 1, DK: 1,
				Body: func(x *X) {
					n := 40 + 110*Choose(2)
					p := mustPool(kind, size)
					gate := make(chan bool)
					in := make(chan bool, n+size)
					hold := Choose(size + 1) // blocking jobs that are running
					for i := 0; i < hold; i++ {
						submit(p, 100+i, func(context.Context) { in <- true; <-gate })
						<-in
					}
					for i := 0; i < n; i++ {
						submit(p, i, func(context.Context) { in <- true; <-gate }, nonBlocking(kind))
						if i%4 == 0 {
							<-in
						}
					}
					for i := 0; i < n-(n+3)/4; i++ {
						<-in // must not depend on the gate
					}
					must(p.Running() == n+hold, "Running is %d while %d jobs are executing", p.Running(), n+hold)
					if kind == 0 {
						barrier(p, size-hold, 200)
					}
					close(gate)
					p.Wait()
					must(p.Running() == 0, "Running is %d after Wait", p.Running())
					barrier(p, size, 300)
					p.Close()
				}})
			// A blocking submission whose context ends while it waits for the pool:
			// neither the limit nor the capacity changes, whether it is accepted or not.
			Reg(&Scenario{Name: fmt.Sprintf("p02-%s%d-endctx", kindNames[kind], size), Props: []string{"P02", "P01"}, QK: 2, TK: 3, DPOR: 2,
				Body: func(x *X) {
					p := mustPool(kind, size)
					gate := make(chan bool)
					job := func(id int, hold bool) goroutines.Job {
						return func(ctx context.Context) {
							if a := Ctr(0, 1); a > size {
								Fail("%d blocking-submitted jobs are executing in a pool of size %d", a, size)
							}
							Ev(evStart, id, idOf(ctx))
							if hold {
								<-gate
							}
							P()
							Ev(evEnd, id, 0)
							Ctr(0, -1)
						}
					}
					for i := 0; i < size; i++ {
						submit(p, i, job(i, true))
					}
					ctx, cancel := context.WithCancel(bg())
					n := 1 + Choose(2)
					done := make(chan bool, n)
					for i := size; i < size+n; i++ {
						go func() {
							if p.Submit(withID(ctx, i), job(i, false)) == nil {
								Ev(evAccepted, i, 0)
							}
							done <- true
						}()
					}
					cancel()
					if Choose(2) == 1 {
						time.Sleep(time.Second) // until nothing can proceed
					}
					close(gate)
					for i := 0; i < n; i++ {
						<-done
					}
					p.Wait()
					for i := 10; i < 10+size+1; i++ {
						submit(p, i, job(i, false))
					}
					p.Wait()
					barrier(p, size, 20)
					p.Close()
				},
				Check: func(x *X) error {
					for i := 0; i < 20; i++ {
						if pos(x.Ev, evAccepted, i) >= 0 {
							if err := jobOnce(x.Ev, i); err != nil {
								return err
							}
						}
					}
					return nil
				}})
		}
	}
	for size := 1; size <= 2; size++ {
		Reg(&Scenario{Name: fmt.Sprintf("p03-lim%d-capacity", size), Props: []string{"P03"}, QK: 2, TK: 3, DPOR: 2,
			Body: func(x *X) {
				p := mustPool(0, size)
				gate := make(chan bool)
				for i := 0; i < 2; i++ {
					submit(p, 20+i, func(context.Context) { <-gate }, limited.NonBlocking())
				}
				barrier(p, size, 0)
				barrier(p, size, 10)
				close(gate)
				p.Close()
			}})
	}

	// P04
	for kind := 0; kind < 2; kind++ {
		for size := 1; size <= 3; size++ {
			for _, v := range []struct {
				rounds, jobs, qk, tk, dpor int
				close                      bool
			}{{1, 2, 3, 4, 1, true}, {1, 3, 2, 3, 2, true}, {2, 1, 3, 4, 2, false}, {2, 2, 2, 3, 0, false}} {
				if size == 3 && v.jobs != 3 {
					continue
				}
				Reg(&Scenario{Name: fmt.Sprintf("p04-%s%d-r%dj%d", kindNames[kind], size, v.rounds, v.jobs), Props: []string{"P04", "D01"}, Race: v.jobs == 2, QK: v.qk, TK: v.tk, DPOR: v.dpor,
					Body: func(x *X) {
						p := mustPool(kind, size)
						mask := Choose(1 << v.jobs)
						for r := 0; r < v.rounds; r++ {
							for j := 0; j < v.jobs; j++ {
								submit(p, r*10+j, plainJob(r*10+j), submitOpts(kind, mask>>j&1)...)
							}
							if v.close && r == v.rounds-1 {
								p.Close()
							} else {
								p.Wait()
							}
							for j := 0; j < v.jobs; j++ {
								must(pos(evNow(), evEnd, r*10+j) >= 0, "Wait or Close returned before job %d had finished", j)
							}
						}
						if !v.close {
							p.Close()
						}
					},
					Check: func(x *X) error {
						for r := 0; r < v.rounds; r++ {
							for j := 0; j < v.jobs; j++ {
								if err := jobOnce(x.Ev, r*10+j); err != nil {
									return err
								}
							}
						}
						return nil
					},
				})
			}
			if size == 3 {
				continue
			}
			// Several waiters at once, a submitter finishing concurrently with a wait.
			Reg(&Scenario{Name: fmt.Sprintf("p04-%s%d-waiters", kindNames[kind], size), Props: []string{"P04", "D01"}, Race: true, QK: 2, TK: 4, DPOR: 2,
				Body: func(x *X) {
					p := mustPool(kind, size)
					submit(p, 0, plainJob(0), submitOpts(kind, Choose(2))...)
					submit(p, 1, plainJob(1), submitOpts(kind, Choose(2))...)
					done := make(chan bool, 2)
					for w := 0; w < 2; w++ {
						go func() {
							p.Wait()
							must(pos(evNow(), evEnd, 0) >= 0 && pos(evNow(), evEnd, 1) >= 0, "Wait returned before a job had finished")
							done <- true
						}()
					}
					if Choose(2) == 0 {
						<-done
						<-done
						p.Close()
					} else {
						p.Close()
						<-done
						<-done
					}
					must(pos(evNow(), evEnd, 0) >= 0 && pos(evNow(), evEnd, 1) >= 0, "Close returned before a job had finished")
				}})
			// Jobs submitted from jobs while Wait or Close is already waiting.
			Reg(&Scenario{Name: fmt.Sprintf("p04-%s%d-nested", kindNames[kind], size), Props: []string{"P04"}, QK: 3, TK: 4, DPOR: 2,
				Body: func(x *X) {
					p := mustPool(kind, size)
					submit(p, 0, func(ctx context.Context) {
						P()
						submit(p, 1, plainJob(1), nonBlocking(kind))
						Ev(evEnd, 0, 0)
					})
					if Choose(2) == 0 {
						p.Wait()
						must(pos(evNow(), evEnd, 0) >= 0 && pos(evNow(), evEnd, 1) >= 0, "Wait returned before a job had finished")
					}
					p.Close()
					must(pos(evNow(), evEnd, 0) >= 0 && pos(evNow(), evEnd, 1) >= 0, "Close returned before a job had finished")
				}})
			// Jobs submitted blocking from a job while Wait or Close is already
			// waiting; the pool has room for them.
			if size == 2 {
				Reg(&Scenario{Name: fmt.Sprintf("p04-%s%d-nestedblock", kindNames[kind], size), Props: []string{"P04", "P01"}, QK: 2, TK: 4, DPOR: 2,
					Body: func(x *X) {
						p := mustPool(kind, size)
						n := 1 + Choose(2)
						late := Choose(2)
						submit(p, 0, func(ctx context.Context) {
							if late == 1 {
								time.Sleep(time.Second) // until the waiter waits
							}
							for i := 1; i <= n; i++ {
								submit(p, i, plainJob(i))
							}
							Ev(evEnd, 0, 0)
						})
						if Choose(2) == 0 {
							p.Wait()
							must(pos(evNow(), evEnd, 0) >= 0 && pos(evNow(), evEnd, n) >= 0, "Wait returned before a job had finished")
						}
						p.Close()
						for i := 0; i <= n; i++ {
							must(num(evNow(), evEnd, i) == 1, "Close returned although job %d has ended %d times", i, num(evNow(), evEnd, i))
						}
					}})
			}
			// An accepted job of another submitter, accepted before the wait began.
			Reg(&Scenario{Name: fmt.Sprintf("p04-%s%d-other", kindNames[kind], size), Props: []string{"P04"}, QK: 2, TK: 3, DPOR: 2,
				Body: func(x *X) {
					p := mustPool(kind, size)
					done := make(chan bool, 2)
					for s := 0; s < 2; s++ {
						go func() {
							submit(p, s, plainJob(s), submitOpts(kind, Choose(2))...)
							done <- true
						}()
					}
					<-done
					<-done
					if Choose(2) == 0 {
						p.Wait()
						must(pos(evNow(), evEnd, 0) >= 0 && pos(evNow(), evEnd, 1) >= 0, "Wait returned before a job had finished")
					}
					p.Close()
					must(pos(evNow(), evEnd, 0) >= 0 && pos(evNow(), evEnd, 1) >= 0, "Close returned before a job had finished")
				}})
			// Nothing to wait for.
			Reg(&Scenario{Name: fmt.Sprintf("p04-%s%d-idle", kindNames[kind], size), Props: []string{"P04"}, QK: 4, TK: 6, DPOR: 1,
				Body: func(x *X) {
					p := mustPool(kind, size)
					p.Wait()
					p.Wait()
					if Choose(2) == 1 {
						submit(p, 0, plainJob(0))
					}
					p.Close()
				}})
		}
	}

	// P05
	for kind := 0; kind < 2; kind++ {
		for size := 1; size <= 2; size++ {
			for _, v := range []struct{ jobs, qk, tk, dpor int }{{1, 3, 4, 1}, {2, 2, 4, 2}, {3, 2, 3, 0}} {
				Reg(&Scenario{Name: fmt.Sprintf("p05-%s%d-j%d", kindNames[kind], size, v.jobs), Props: []string{"P05", "D01"}, Race: v.jobs == 2, QK: v.qk, TK: v.tk, DPOR: v.dpor,
					Body: func(x *X) {
						p := mustPool(kind, size)
						mask := Choose(1 << v.jobs)
						stop := make(chan bool)
						observe := func(id int) {
							Ev(evObs0, id, 0)
							r := p.Running()
							Ev(evObs1, id, r)
							must(p.Len() == size, "Len is %d for a pool of size %d", p.Len(), size)
						}
						go func() {
							for k := 0; k < 3; k++ {
								observe(k)
							}
							close(stop)
						}()
						for j := 0; j < v.jobs; j++ {
							Ev(evHand, j, 0)
							submit(p, j, plainJob(j), submitOpts(kind, mask>>j&1)...)
						}
						p.Wait()
						Ev(evWaited, 0, 0)
						observe(100)
						<-stop
						p.Close()
					},
					Check: func(x *X) error { return checkPoolRunning(x.Ev) },
				})
			}
			// Exact at rest: every job that can run is running, the others wait.
			Reg(&Scenario{Name: fmt.Sprintf("p05-%s%d-rest", kindNames[kind], size), Props: []string{"P05"}, QK: 2, TK: 3, DPOR: 2,
				Body: func(x *X) {
					p := mustPool(kind, size)
					gate := make(chan bool)
					n := 1 + Choose(size)
					nb := Choose(3)
					for i := 0; i < n; i++ {
						submit(p, i, func(context.Context) { <-gate })
					}
					for i := 0; i < nb; i++ {
						submit(p, 10+i, func(context.Context) { <-gate }, nonBlocking(kind))
					}
					time.Sleep(time.Second)
					must(p.Running() == n+nb, "Running is %d although %d jobs are executing", p.Running(), n+nb)
					must(p.Len() == size, "Len is %d for a pool of size %d", p.Len(), size)
					gate <- true
					time.Sleep(time.Second)
					must(p.Running() == n+nb-1, "Running is %d although %d jobs are executing", p.Running(), n+nb-1)
					close(gate)
					p.Wait()
					must(p.Running() == 0, "Running is %d after Wait", p.Running())
					must(p.Len() == size, "Len is %d for a pool of size %d", p.Len(), size)
					submit(p, 30, plainJob(30))
					p.Wait()
					must(p.Running() == 0, "Running is %d after Wait", p.Running())
					p.Close()
				}})
		}
		Reg(&Scenario{Name: "p05-len-" + kindNames[kind], Props: []string{"P05"}, QK: 1, TK: 2, DPOR: 0,
			Body: func(x *X) {
				size := 1 + Choose(4)
				p := mustPool(kind, size)
				must(p.Len() == size, "Len is %d for a pool of size %d", p.Len(), size)
				gate := make(chan bool)
				k := Choose(size + 1)
				for i := 0; i < k; i++ {
					submit(p, i, func(context.Context) { <-gate })
				}
				must(p.Len() == size, "Len is %d for a pool of size %d with %d jobs", p.Len(), size, k)
				submit(p, 10, func(context.Context) { <-gate }, nonBlocking(kind))
				must(p.Len() == size, "Len is %d for a pool of size %d with %d jobs", p.Len(), size, k+1)
				close(gate)
				p.Wait()
				must(p.Len() == size, "Len is %d for a pool of size %d", p.Len(), size)
				p.Close()
			}})
	}

	// P06
	for _, v := range []struct {
		depth, tierK int
		thorough     bool
	}{{4, 0, false}, {5, 0, false}, {6, 0, true}} {
		qk := 0
		if v.thorough {
			qk = -1
		}
		Reg(&Scenario{Name: fmt.Sprintf("p06-seq%d", v.depth), Props: []string{"P06"}, QK: qk, TK: v.tierK,
			Body: func(x *X) {
				base := []string{uniqueBase(), uniqueBase()}
				var live []goroutines.Pool
				var names []string
				add := func(b string, p goroutines.Pool) {
					n := p.GetName()
					if e := nameErr(b, n, names); e != "" {
						Fail("%s", e)
					}
					live, names = append(live, p), append(names, n)
				}
				mk := func(kind int, b string) {
					p, err := newPool(kind, b, 1)
					must(err == nil, "creating a pool named %q failed: %v", b, err)
					add(b, p)
				}
				for d := 0; d < v.depth; d++ {
					switch op := Choose(7); op {
					case 0, 1:
						mk(op, base[0])
					case 2, 3:
						mk(op-2, base[1])
					case 4: // unnamed
						mk(d&1, "")
					case 5, 6: // close the oldest or the newest
						if len(live) == 0 {
							break
						}
						i := 0
						if op == 6 {
							i = len(live) - 1
						}
						live[i].Close()
						live = append(live[:i:i], live[i+1:]...)
						names = append(names[:i:i], names[i+1:]...)
					}
					for i, p := range live {
						must(p.GetName() == names[i], "the name of a live pool changed from %q to %q", names[i], p.GetName())
					}
				}
				for _, p := range live {
					p.Close()
				}
				live, names = nil, nil
				for k, b := range base {
					mk(k, b)
				}
				live[0].Close()
				live[1].Close()
			}})
	}
	// A pool is live, and its name taken, until its Close has finished.
	for kind := 0; kind < 2; kind++ {
		Reg(&Scenario{Name: "p06-closing-" + kindNames[kind], Props: []string{"P06"}, QK: 2, TK: 4, DPOR: 2,
			Body: func(x *X) {
				base := uniqueBase()
				p, err := newPool(kind, base, 1)
				must(err == nil && p.GetName() == base, "the first pool named %q got the name %q (%v)", base, p.GetName(), err)
				gate := make(chan bool)
				submit(p, 0, func(context.Context) { <-gate }, submitOpts(kind, Choose(2))...)
				closed := make(chan bool)
				go func() {
					p.Close()
					Ev(evClosed, 0, 0)
					close(closed)
				}()
				if Choose(2) == 1 {
					time.Sleep(time.Second)
				}
				q, err := newPool(Choose(2), base, 1)
				must(err == nil, "creating a pool named %q failed: %v", base, err)
				must(q.GetName() != base && nameOK(base, q.GetName()), "a pool got the name %q while the pool %q is still closing", q.GetName(), base)
				close(gate)
				<-closed
				r, err := newPool(kind, base, 1)
				must(err == nil && r.GetName() == base, "the name %q is not free after Close: got %q (%v)", base, r.GetName(), err)
				r.Close()
				q.Close()
			}})
	}
	// Creation by several goroutines.
	for _, v := range []struct{ g, ops, qk, tk, dpor int }{{2, 1, 3, 5, 1}, {2, 2, 3, 4, 1}, {3, 1, 2, 4, 1}, {3, 2, 2, 3, 2}, {4, 1, 2, 3, 2}} {
		Reg(&Scenario{Name: fmt.Sprintf("p06-par-g%do%d", v.g, v.ops), Props: []string{"P06", "D01"}, Race: v.g <= 3, QK: v.qk, TK: v.tk, DPOR: v.dpor,
			Body: func(x *X) {
				base := uniqueBase()
				names := make([][]string, v.g)
				done := make(chan bool, v.g)
				kinds := Choose(2)
				for s := 0; s < v.g; s++ {
					names[s] = make([]string, v.ops)
					go func() {
						for o := 0; o < v.ops; o++ {
							p, err := newPool((s+kinds)%2, base, 1)
							must(err == nil, "creating a pool named %q failed: %v", base, err)
							names[s][o] = p.GetName()
							Ev(evMade, s*10+o, 0)
							P()
							Ev(evGone, s*10+o, 0)
							p.Close()
						}
						done <- true
					}()
				}
				for s := 0; s < v.g; s++ {
					<-done
				}
				p, err := newPool(0, base, 1)
				must(err == nil && p.GetName() == base, "after all pools are closed the base name is not free: got %q", p.GetName())
				p.Close()
				x.Data = []any{base, names}
			},
			Check: func(x *X) error {
				d := x.Data.([]any)
				base, names := d[0].(string), d[1].([][]string)
				live := map[string]bool{}
				for _, e := range x.Ev {
					if e.Code == evMade {
						n := names[e.A/10][e.A%10]
						if live[n] {
							return fmt.Errorf("two live pools have the name %q", n)
						}
						if !nameOK(base, n) {
							return fmt.Errorf("a pool created as %q got the name %q", base, n)
						}
						live[n] = true
					}
					if e.Code == evGone {
						delete(live, names[e.A/10][e.A%10])
					}
				}
				return nil
			},
		})
	}
	// Argument validation, over all names up to length three of an alphabet.
	alphabet := []string{"a", "Z", "_", ".", "é", " ", "-", "0", "5", "9"}
	Reg(&Scenario{Name: "p06-names", Props: []string{"P06"}, QK: 0, TK: 0,
		Body: func(x *X) {
			kind := Choose(2)
			first := Choose(len(alphabet) + 1)
			var rest []string
			rest = append(rest, "")
			for _, a := range alphabet {
				rest = append(rest, a)
				for _, b := range alphabet {
					rest = append(rest, a+b)
				}
			}
			if first == len(alphabet) {
				rest = []string{"", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaa1", "1aaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaa-aaaaaaaaaaaaaa", "a b c", "pool", "Straße", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "x-1", "-", "7"}
			}
			for i, r := range rest {
				name := r
				if first < len(alphabet) {
					name = alphabet[first] + r
				}
				size := []int{1, 0, -1, 2, 1, -1 << 40}[i%6]
				bad := strings.ContainsAny(name, " -0123456789")
				if bad && i%12 > 5 {
					size = 1
				}
				p, err := newPool(kind, name, size)
				must((err != nil) == (bad || size < 1), "New(%q, %d) returned error %v", name, size, err)
				if err == nil {
					must(p.GetName() == name, "New(%q) got the name %q although no other pool exists", name, p.GetName())
					p.Close()
					continue
				}
				if !bad {
					// Nothing of the failed creation remains.
					p, err := newPool(1-kind, name, 1)
					must(err == nil && p.GetName() == name, "after a failed creation the name %q is not free", name)
					p.Close()
				}
			}
		}})

	// P07
	for kind := 0; kind < 2; kind++ {
		// All option lists of length 0..2, with a valid and a nil job.
		mkOpts := func(n int) (o []goroutines.SubmitOption, valid, nb bool) {
			one := []goroutines.SubmitOption{nonBlocking(kind), caller(kind), nonBlocking(1 - kind), caller(1 - kind)}
			valid = true
			add := func(i int) {
				o = append(o, one[i])
				valid = valid && i < 2
				nb = nb || i == 0
			}
			switch {
			case n == 0:
			case n < 5:
				add(n - 1)
			default:
				add((n - 5) / 4)
				add((n - 5) % 4)
			}
			return o, valid, nb
		}
		for _, v := range []struct{ seq, size, qk, tk int }{{1, 1, 2, 3}, {1, 2, 2, 3}, {2, 1, 1, 2}, {2, 2, 1, 1}} {
			Reg(&Scenario{Name: fmt.Sprintf("p07-%s%d-seq%d", kindNames[kind], v.size, v.seq), Props: []string{"P07"}, QK: v.qk, TK: v.tk,
				Body: func(x *X) {
					p := mustPool(kind, v.size)
					var want []int
					for i := 0; i < v.seq; i++ {
						o, valid, _ := mkOpts(Choose(21))
						job := plainJob(i)
						if Choose(2) == 1 {
							job, valid = nil, false
						}
						err := p.Submit(withID(bg(), i), job, o...)
						must((err == nil) == valid, "Submit returned %v for a submission that is valid=%v", err, valid)
						if valid {
							want = append(want, i)
							p.Wait()
						}
						must(p.Running() == 0, "Running is %d although nothing runs", p.Running())
					}
					barrier(p, v.size, 50)
					p.Wait()
					must(p.Running() == 0, "Running is %d after Wait", p.Running())
					p.Close()
					for i := 0; i < v.seq; i++ {
						w := 0
						for _, j := range want {
							if i == j {
								w = 1
							}
						}
						must(num(evNow(), evStart, i) == w, "job %d was executed %d times, expected %d", i, num(evNow(), evStart, i), w)
					}
				}})
		}
		for size := 1; size <= 2; size++ {
			// Rejected submissions while the pool is saturated and others are waiting.
			Reg(&Scenario{Name: fmt.Sprintf("p07-%s%d-busy", kindNames[kind], size), Props: []string{"P07", "D01"}, Race: size == 1, QK: 2, TK: 3, DPOR: 2,
				Body: func(x *X) {
					p := mustPool(kind, size)
					gate := make(chan bool)
					for i := 0; i < size; i++ {
						submit(p, i, func(context.Context) { <-gate })
					}
					r := p.Running()
					switch Choose(3) {
					case 0:
						must(p.Submit(bg(), nil) != nil, "a nil job was accepted")
					case 1:
						must(p.Submit(bg(), plainJob(9), nonBlocking(1-kind)) != nil, "an option of the other kind of pool was accepted")
					case 2:
						must(p.Submit(bg(), plainJob(9), nonBlocking(kind), caller(1-kind)) != nil, "an option of the other kind of pool was accepted")
					}
					must(p.Running() == r, "a rejected submission changed Running from %d to %d", r, p.Running())
					done := make(chan bool)
					go func() { submit(p, 5, plainJob(5)); close(done) }()
					must(p.Submit(bg(), nil, nonBlocking(kind)) != nil, "a nil job was accepted")
					close(gate)
					<-done
					p.Wait()
					barrier(p, size, 50)
					p.Wait()
					must(p.Running() == 0, "Running is %d after Wait", p.Running())
					p.Close()
					must(num(evNow(), evStart, 9) == 0, "a rejected job was executed")
					must(num(evNow(), evStart, 5) == 1, "a valid job was executed %d times", num(evNow(), evStart, 5))
				}})
		}
	}
}

var suffix = regexp.MustCompile(`^-[0-9]+$`)

func nameOK(base, n string) bool {
	return n == base || strings.HasPrefix(n, base) && suffix.MatchString(n[len(base):])
}

// nameErr checks the name of a new pool against those of the live ones.
func nameErr(base, n string, names []string) string {
	if base == "" {
		if n != "" {
			return fmt.Sprintf("an unnamed pool has the name %q", n)
		}
		return ""
	}
	taken := false
	for _, o := range names {
		if o == n {
			return fmt.Sprintf("two live pools have the name %q", n)
		}
		taken = taken || o == base
	}
	if !nameOK(base, n) {
		return fmt.Sprintf("a pool created as %q got the name %q", base, n)
	}
	if !taken && n != base {
		return fmt.Sprintf("the base name %q is free, but a new pool got the name %q", base, n)
	}
	return ""
}

func ids(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

// checkPoolRunning: each observation lies between the number of jobs executing
// during all of it and the number of jobs whose submission had begun and which
// had not finished when it began; 0 after Wait.
func checkPoolRunning(ev []runtime.MCEvent) error {
	for i := range ev {
		if ev[i].Code != evObs1 {
			continue
		}
		r := int(ev[i].B)
		i0 := -1
		for j := i - 1; j >= 0; j-- {
			if ev[j].Code == evObs0 && ev[j].A == ev[i].A {
				i0 = j
				break
			}
		}
		low, high := 0, 0
		w := pos(ev, evWaited, 0)
		for j := 0; j < i; j++ {
			if ev[j].Code == evStart && j < i0 {
				if e := pos(ev, evEnd, int(ev[j].A)); e < 0 || e > i {
					low++
				}
			}
			if ev[j].Code == evHand {
				high++
			}
		}
		if w >= 0 && w < i0 {
			high = 0
		}
		if r < low || r > high {
			return fmt.Errorf("Running was %d while at least %d jobs were executing and at most %d were submitted and unfinished", r, low, high)
		}
	}
	return nil
}
