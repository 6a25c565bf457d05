package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
	"github.com/gostdlib/concurrency/prim/atomics"
	"github.com/gostdlib/concurrency/prim/chans"
	"github.com/gostdlib/concurrency/prim/slices"
	"github.com/gostdlib/concurrency/prim/wait"
)

// mustNamed creates a pool of size 1 with a name.
func mustNamed(kind int, name string) goroutines.Pool {
	p, err := newPool(kind, name, 1)
	if err != nil {
		Fail("a valid pool could not be created: %v", err)
	}
	return p
}

// smBig is a state machine with 20 stages.
type smBig struct {
	stages []pstage
	route  func(r *preq, stage int) int // the next stage, -1: none
}

func newBig(route func(r *preq, stage int) int) *smBig {
	s := &smBig{route: route}
	s.stages = []pstage{
		s.Start,
		s.S01,
		s.S02,
		s.S03,
		s.S04,
		s.S05,
		s.S06,
		s.S07,
		s.S08,
		s.S09,
		s.S10,
		s.S11,
		s.S12,
		s.S13,
		s.S14,
		s.S15,
		s.S16,
		s.S17,
		s.S18,
		s.S19,
	}
	return s
}
func (s *smBig) step(r preq, i int) preq {
	if r.Next != nil {
		Fail("stage %d of request %d was entered with Next set", i, r.Data.ID)
	}
	r.Data.Trail += string(rune('a' + i))
	must(len(r.Data.Trail) < 4000, "request %d goes round for ever", r.Data.ID)
	if n := s.route(&r, i); n >= 0 {
		r.Next = s.stages[n]
	}
	return r
}
func (s *smBig) Start(r preq) preq { return s.step(r, 0) }
func (s *smBig) S01(r preq) preq   { return s.step(r, 1) }
func (s *smBig) S02(r preq) preq   { return s.step(r, 2) }
func (s *smBig) S03(r preq) preq   { return s.step(r, 3) }
func (s *smBig) S04(r preq) preq   { return s.step(r, 4) }
func (s *smBig) S05(r preq) preq   { return s.step(r, 5) }
func (s *smBig) S06(r preq) preq   { return s.step(r, 6) }
func (s *smBig) S07(r preq) preq   { return s.step(r, 7) }
func (s *smBig) S08(r preq) preq   { return s.step(r, 8) }
func (s *smBig) S09(r preq) preq   { return s.step(r, 9) }
func (s *smBig) S10(r preq) preq   { return s.step(r, 10) }
func (s *smBig) S11(r preq) preq   { return s.step(r, 11) }
func (s *smBig) S12(r preq) preq   { return s.step(r, 12) }
func (s *smBig) S13(r preq) preq   { return s.step(r, 13) }
func (s *smBig) S14(r preq) preq   { return s.step(r, 14) }
func (s *smBig) S15(r preq) preq   { return s.step(r, 15) }
func (s *smBig) S16(r preq) preq   { return s.step(r, 16) }
func (s *smBig) S17(r preq) preq   { return s.step(r, 17) }
func (s *smBig) S18(r preq) preq   { return s.step(r, 18) }
func (s *smBig) S19(r preq) preq   { return s.step(r, 19) }
func (s *smBig) Close()            { Ev(pvSMC, 0, 0) }

// subSame has stages of its own with the names of those of sm2.
type subSame struct{ next func(r preq, me string) preq }

func (s *subSame) Start(r preq) preq  { return s.next(r, "x") }
func (s *subSame) StageB(r preq) preq { return s.next(r, "y") }

func bigPipes(num int, s *smBig, o ...stagedpipe.Option[pdata]) *ppipes {
	var p *ppipes
	Quiet(func() {
		var err error
		p, err = stagedpipe.New[pdata]("big", num, s, o...)
		mustAccept(err)
	})
	return p
}

// Numbers beyond those of the other scenarios.
func init() {
	long := func(s *Scenario) {
		s.QK, s.TK, s.DK, s.MaxSteps = 0, 0, -1, 400000
		Reg(s)
	}
	for kind := 0; kind < 2; kind++ {
		for _, size := range []int{5, 17, 33, 70, 130} {
			long(&Scenario{Name: fmt.Sprintf("many-size-%s%d", kindNames[kind], size), Props: []string{"P02", "P05", "P04", "P01"},
				Body: func(x *X) {
					p := mustPool(kind, size)
					must(p.Len() == size, "Len is %d for a pool of size %d", p.Len(), size)
					barrier(p, size, 0)
					p.Wait()
					gate := make(chan bool)
					in := make(chan bool, size+3)
					for i := 0; i < size; i++ {
						submit(p, i, func(ctx context.Context) { Ctr(0, 1); in <- true; <-gate; Ctr(0, -1) })
					}
					for i := 0; i < 3; i++ {
						go submit(p, size+i, func(ctx context.Context) {
							must(Ctr(0, 1) <= size, "more than %d blocking jobs run", size)
							in <- true
							Ctr(0, -1)
						})
					}
					for i := 0; i < size; i++ {
						<-in
					}
					time.Sleep(time.Hour)
					must(Ctr(0, 0) == size, "%d jobs are executing in a pool of size %d", Ctr(0, 0), size)
					must(p.Running() >= size, "Running is %d with %d jobs executing", p.Running(), size)
					close(gate)
					for i := 0; i < 3; i++ {
						<-in
					}
					p.Wait()
					must(p.Running() == 0 && p.Len() == size, "Running is %d and Len %d", p.Running(), p.Len())
					p.Close()
				}})
		}
		// Many jobs, one after the other.
		for _, size := range []int{1, 2} {
			long(&Scenario{Name: fmt.Sprintf("many-jobs-%s%d", kindNames[kind], size), Props: []string{"P01", "P02", "P04", "P05"},
				Body: func(x *X) {
					p := mustPool(kind, size)
					const n = 3000
					run := 0
					for i := 0; i < n; i++ {
						var o []goroutines.SubmitOption
						if i%7 == 3 {
							o = append(o, nonBlocking(kind))
						}
						submit(p, i, func(context.Context) { run++ }, o...)
						if i%13 == 0 {
							p.Wait()
							must(run == i+1, "%d of %d jobs had run when Wait returned", run, i+1)
							must(p.Running() == 0, "Running is %d after Wait", p.Running())
						}
					}
					p.Wait()
					must(run == n, "%d of %d jobs ran", run, n)
					must(p.Running() == 0 && p.Len() == size, "Running is %d and Len %d at the end", p.Running(), p.Len())
					barrier(p, size, n)
					p.Close()
				}})
		}
		// Jobs that take very long; submissions, Wait and Close that wait for them.
		Reg(&Scenario{Name: "slow-pool-" + kindNames[kind], Props: []string{"P01", "P02", "P04", "P05"}, QK: 1, TK: 2,
			Body: func(x *X) {
				p := mustPool(kind, 1)
				nb := Choose(2)
				end := Choose(3)
				slow := func(id int) goroutines.Job {
					return func(ctx context.Context) {
						Ev(evStart, id, idOf(ctx))
						if nb == 0 || id != 1 {
							must(Ctr(0, 1) == 1, "two blocking jobs run in a pool of size 1")
						}
						time.Sleep(100 * time.Hour)
						if nb == 0 || id != 1 {
							Ctr(0, -1)
						}
						Ev(evEnd, id, 0)
					}
				}
				for id := 0; id < 3; id++ {
					submit(p, id, slow(id), submitOpts(kind, b2i(id == 1 && nb == 1))...)
				}
				if end != 0 {
					p.Wait()
					must(num(evNow(), evEnd, 0)+num(evNow(), evEnd, 1)+num(evNow(), evEnd, 2) == 3, "Wait returned before the jobs had finished")
				}
				if end == 2 {
					submit(p, 3, slow(3))
				}
				p.Close()
				must(num(evNow(), evEnd, 0)+num(evNow(), evEnd, 1)+num(evNow(), evEnd, 2) == 3, "Close returned before the jobs had finished")
				must(end != 2 || num(evNow(), evEnd, 3) == 1, "Close returned before the last job had finished")
			},
			Check: func(x *X) error { return jobOnce(x.Ev, 0, 1, 2) },
		})
	}
	// Many pools with the same name.
	long(&Scenario{Name: "many-names", Props: []string{"P06"},
		Body: func(x *X) {
			const n = 270
			ps := make([]goroutines.Pool, n)
			live := map[string]bool{}
			for i := range ps {
				ps[i] = mustNamed(i%3/2, "same")
				name := ps[i].GetName()
				must(!live[name], "two live pools have the name %q", name)
				must(nameOK("same", name) && (i > 0 || name == "same"), "pool %d has the name %q", i, name)
				live[name] = true
			}
			for i := 0; i < n; i += 7 {
				ps[i].Close()
				delete(live, ps[i].GetName())
			}
			for i := 0; i < n; i += 7 {
				ps[i] = mustNamed(i%2, "same")
				name := ps[i].GetName()
				must(!live[name] && nameOK("same", name), "a new pool has the name %q", name)
				live[name] = true
			}
			for i := range ps {
				ps[i].Close()
			}
			p := mustNamed(0, "same")
			must(p.GetName() == "same", "the only pool has the name %q", p.GetName())
			p.Close()
		}})
	// Wait groups with many functions at once, and with slow ones.
	for _, mode := range []int{poolNone, poolLim2, poolPooled2, poolLim1NB, poolPooled1NB} {
		long(&Scenario{Name: "many-wait-" + poolNames[mode], Props: []string{"W01", "W02", "W04"},
			Body: func(x *X) {
				p, o := mkPool(mode)
				g := wait.Group{Pool: p, PoolOptions: o}
				for _, n := range []int{150, 3, 270} {
					t := newTally(n)
					es := make([]error, n)
					var gate chan bool
					if mode != poolLim2 && mode != poolPooled2 {
						gate = make(chan bool)
					}
					for i := range es {
						es[i] = fmt.Errorf("error %d", i)
						g.Go(bg(), func(ctx context.Context) error {
							if gate != nil {
								<-gate
							}
							t.add(i)
							if i%2 == 0 {
								return es[i]
							}
							return nil
						})
					}
					if gate != nil {
						must(g.Running() == n, "Running is %d while %d functions are held back", g.Running(), n)
						close(gate)
					}
					err := g.Wait(bg())
					t.once("function")
					for i := range es {
						must(errors.Is(err, es[i]) == (i%2 == 0), "error %d of %d: errors.Is is wrong", i, n)
					}
					must(g.Running() == 0, "Running is %d after Wait", g.Running())
				}
				if p != nil {
					p.Close()
				}
			}})
		Reg(&Scenario{Name: "slow-wait-" + poolNames[mode], Props: []string{"W01", "W02", "W03", "W04"}, QK: 1, TK: 2,
			Body: func(x *X) {
				p, o := mkPool(mode)
				g := wait.Group{Pool: p, PoolOptions: o}
				// What Wait is called with does not matter: its context cannot be cancelled.
				wctx, cancel := context.WithCancel(bg())
				defer cancel()
				switch Choose(4) {
				case 0:
					cancel()
				case 1:
					time.AfterFunc(time.Hour, cancel)
				case 2:
					wctx, cancel = context.WithTimeout(bg(), time.Minute)
					defer cancel()
				}
				fail := Choose(2)
				for i := 0; i < 3; i++ {
					g.Go(bg(), func(ctx context.Context) error {
						Ev(evStart, i, 0)
						time.Sleep(time.Duration(1+i) * 100 * time.Hour)
						must(ctx.Err() == nil, "the context of a function was cancelled")
						Ev(evEnd, i, 0)
						if i == 1 && fail == 1 {
							return errs[0]
						}
						return nil
					})
				}
				err := g.Wait(wctx)
				Ev(evWaited, 0, 0)
				must((err != nil) == (fail == 1) && errors.Is(err, errs[0]) == (fail == 1), "Wait returned %v, failed: %d", err, fail)
				must(g.Running() == 0, "Running is %d after Wait", g.Running())
				if p != nil {
					p.Close()
				}
			},
			Check: func(x *X) error { return checkOnce(x, 1, 3) },
		})
	}

	// Pipelines: many at once, many hops, many stages, many groups.
	for _, v := range []struct{ num, stages int }{{5, 3}, {11, 3}, {9, 1}, {40, 2}, {6, 20}} {
		long(&Scenario{Name: fmt.Sprintf("many-conc-n%ds%d", v.num, v.stages), Props: []string{"T05", "T08"}, AllowLive: 1, Setup: func() { warmPipes(); warmBig() },
			Body: func(x *X) {
				c := v.num * v.stages
				arrived := make(chan bool, c+3)
				gate := make(chan bool)
				plan := func() {
					must(Ctr(0, 1) <= c, "more than %d requests are processed at the same time", c)
					arrived <- true
					<-gate
					Ctr(0, -1)
				}
				var p *ppipes
				if v.stages <= 3 {
					p = newPipes(v.num, v.stages, &smBase{plan: func(*preq, int, byte) int { plan(); return doStop }})
				} else {
					p = bigPipes(v.num, newBig(func(*preq, int) int { plan(); return -1 }))
				}
				g := p.NewRequestGroup()
				go func() {
					for j := 0; j < c+3; j++ {
						mustAccept(g.Submit(preq{Ctx: bg(), Data: pdata{ID: j}}))
					}
					g.Close()
				}()
				for i := 0; i < c; i++ {
					<-arrived
				}
				time.Sleep(time.Hour)
				must(Ctr(0, 0) == c, "%d requests are processed at the same time instead of %d", Ctr(0, 0), c)
				st := p.Stats()
				must(st.Running == int64(c) && st.Completed == 0, "%d running and %d completed requests are reported instead of %d and 0", st.Running, st.Completed, c)
				close(gate)
				n := 0
				for range g.Out() {
					n++
				}
				must(n == c+3, "%d of %d requests were delivered", n, c+3)
				st = p.Stats()
				must(st.Running == 0 && st.Completed == int64(c+3), "%d running and %d completed requests are reported instead of 0 and %d", st.Running, st.Completed, c+3)
				p.Close()
			}})
	}
	// Requests that take days, while the pipelines are being closed, submissions
	// wait for them, and a group is closed.
	for _, ord := range []bool{false, true} {
		n, o := "slow-pipe", []stagedpipe.Option[pdata](nil)
		if ord {
			n, o = n+"-ord", append(o, stagedpipe.Ordered[pdata]())
		}
		Reg(&Scenario{Name: n, Props: []string{"T01", "T06", "T07", "T09"}, QK: 1, TK: 2, AllowLive: 1, Setup: warmPipes,
			Body: func(x *X) {
				early := Choose(2) // the pipelines are closed while requests are processed
				p := newPipes(1, 1, &smBase{plan: func(r *preq, vis int, stage byte) int {
					time.Sleep(100 * time.Hour)
					return doStop
				}}, o...)
				g := p.NewRequestGroup()
				drained := make(chan struct{})
				go func() {
					drain(g, 0, nil)
					close(drained)
				}()
				for j := 0; j < 3; j++ {
					mustAccept(submitReq(bg(), g, 0, j))
				}
				if early == 1 {
					p.Close()
				}
				g.Close()
				<-drained
				if early == 0 {
					p.Close()
				}
			},
			Check: func(x *X) error { return all(checkDelivered(x, 1), checkClosed(x, 1)) },
		})
	}
	long(&Scenario{Name: "many-hops", Props: []string{"T03", "T01"}, AllowLive: 1, Setup: warmPipes,
		Body: func(x *X) {
			const hops = 1100
			pre := 0
			p := newPipes(1, 2, &smBase{plan: func(r *preq, vis int, stage byte) int {
				r.Data.Trail = r.Data.Trail[:0]
				if r.Data.F++; r.Data.F == hops {
					return doStop
				}
				return doA + int(r.Data.F)%2
			}}, stagedpipe.PreProcessors(func(r preq) preq { pre++; return r }))
			g := p.NewRequestGroup()
			mustAccept(g.Submit(preq{Ctx: bg(), Data: pdata{ID: 1}}))
			mustAccept(g.Submit(preq{Ctx: bg(), Data: pdata{ID: 2, F: hops - 3}}))
			go g.Close()
			n := 0
			for r := range g.Out() {
				must(r.Err == nil && r.Data.F == hops, "request %d came out after %v stages with %v", r.Data.ID, r.Data.F, r.Err)
				n++
			}
			must(n == 2 && pre == hops+3, "%d requests were delivered, the preprocessor ran %d times instead of %d", n, pre, hops+3)
			p.Close()
		}})
	// A DAG of 20 stages: every stage, then any of them again.
	Reg(&Scenario{Name: "many-dag", Props: []string{"T04", "T03"}, QK: 0, TK: 1, DK: -1, AllowLive: 1, Setup: func() { warmPipes(); warmBig() },
		Body: func(x *X) {
			again := Choose(21)
			p := bigPipes(1, newBig(func(r *preq, stage int) int {
				if r.Data.ID == 2 {
					// Backwards, and only every other one.
					if stage == 0 {
						return 19
					}
					if stage <= 2 {
						return -1
					}
					return stage - 2
				}
				if stage < 19 {
					return stage + 1
				}
				return again%20 - 20*(again/20)
			}), stagedpipe.DAG[pdata]())
			g := p.NewRequestGroup()
			for _, id := range []int{1, 2, 1} {
				r := oneShot(p, g, bg(), preq{Data: pdata{ID: id}})
				if id == 2 {
					must(r.Err == nil && r.Data.Trail == "atrpnljhfdb", "the request ran %q and came out with %v", r.Data.Trail, r.Err)
					continue
				}
				must(r.Data.Trail == "abcdefghijklmnopqrst", "the request ran %q", r.Data.Trail)
				if again == 20 {
					must(r.Err == nil, "a request without a cycle came out with %v", r.Err)
					continue
				}
				must(stagedpipe.IsErrCyclic(r.Err), "a request with a cycle came out with %v", r.Err)
				for i := 1; i < 20; i++ {
					must(strings.Contains(r.Err.Error(), fmt.Sprintf("S%02d", i)), "stage S%02d is missing in %q", i, r.Err)
				}
			}
			go g.Close()
			drain(g, 0, nil)
			p.Close()
		}})
	// Two objects whose stages have the same names: they are different stages.
	Reg(&Scenario{Name: "dag-samename", Props: []string{"T04"}, QK: 1, TK: 2, AllowLive: 1, Setup: func() { warmPipes(); warmBig() },
		Body: func(x *X) {
			route := Choose(6)
			var sub subSame
			b := &smBase{plan: func(r *preq, vis int, stage byte) int { return doStop }}
			b.plan = func(r *preq, vis int, stage byte) int {
				if stage == 'A' {
					switch route {
					case 0, 1, 2:
						r.Next = sub.Start // not the Start of the state machine
					case 3, 4, 5:
						return doB
					}
					return doStop
				}
				if route == 3 || route == 4 {
					r.Next = sub.StageB
				}
				return doStop
			}
			sub.next = func(r preq, me string) preq {
				r.Data.Trail += me
				switch {
				case me == "x" && route != 2:
					r.Next = sub.StageB
				case me == "y" && (route == 1 || route == 4):
					r.Next = sub.StageB // once more
				}
				return r
			}
			p := newPipes(1, 2, b, stagedpipe.DAG[pdata](), stagedpipe.CountSubStages[pdata](&sub))
			g := p.NewRequestGroup()
			r := oneShot(p, g, bg(), preq{Data: pdata{ID: 1}})
			want := []string{"Axy", "Axy", "Ax", "ABy", "ABy", "AB"}[route]
			must(r.Data.Trail == want && stagedpipe.IsErrCyclic(r.Err) == (route == 1 || route == 4) && (r.Err == nil) == (route != 1 && route != 4), "route %d: the request ran %q and came out with %v", route, r.Data.Trail, r.Err)
			go g.Close()
			drain(g, 0, nil)
			p.Close()
		}})
	for _, ord := range []bool{false, true} {
		name := "many-groups"
		var o []stagedpipe.Option[pdata]
		if ord {
			name += "-ord"
			o = append(o, stagedpipe.Ordered[pdata]())
		}
		long(&Scenario{Name: name, Props: []string{"T01", "T09"}, AllowLive: 1, Setup: warmPipes,
			Body: func(x *X) {
				p := newPipes(2, 1, &smBase{}, o...)
				first := p.NewRequestGroup()
				var kept []*pgroup
				for i := 1; i < 300; i++ {
					g := p.NewRequestGroup()
					if i%3 == 0 {
						kept = append(kept, g)
						continue
					}
					mustAccept(g.Submit(preq{Ctx: bg(), Data: pdata{ID: i}}))
					must((<-g.Out()).Data.ID == i, "a group delivered the request of another one")
					g.Close()
					_, ok := <-g.Out()
					must(!ok, "something came out after the last request")
				}
				for i, g := range append(kept, first) {
					mustAccept(g.Submit(preq{Ctx: bg(), Data: pdata{ID: 1000 + i}}))
				}
				for i, g := range append(kept, first) {
					must((<-g.Out()).Data.ID == 1000+i, "a group delivered the request of another one")
					g.Close()
					_, ok := <-g.Out()
					must(!ok, "something came out after the last request")
				}
				p.Close()
			}})
	}

	// Slices and channels: many elements that are accessed at the same time.
	for api := 0; api < 3; api++ {
		for _, mode := range []int{poolLim1NB, poolPooled1NB} {
			long(&Scenario{Name: fmt.Sprintf("many-par-%s-%s", apiNames[api], poolNames[mode]), Props: []string{[]string{"S01", "C01", "C03"}[api], []string{"S03", "C04", "C04"}[api]},
				Body: func(x *X) {
					const n = 140
					p, o := mkPool(mode)
					t := newTally(n)
					all := make(chan bool)
					k := 0
					c := parCall{api: api, n: n, pool: p, po: o}
					err := c.run(bg(), func(ctx context.Context, i int) error {
						if k++; k == n {
							close(all)
						}
						<-all // non-blocking submissions run at once
						t.add(i)
						return nil
					})
					must(err == nil, "the call returned %v", err)
					t.once("value")
					p.Close()
				}})
		}
		// A default pool: as many as there are processors.
		long(&Scenario{Name: "many-cpu-" + apiNames[api], Props: []string{[]string{"S01", "C01", "C03"}[api], []string{"S03", "C04", "C04"}[api]}, NCPU: 8,
			Body: func(x *X) {
				const n = 90
				t := newTally(n)
				c := parCall{api: api, n: n}
				err := c.run(bg(), func(ctx context.Context, i int) error {
					if i%4 == 1 {
						time.Sleep(time.Duration(i) * time.Hour)
					}
					t.add(i)
					if i == 77 {
						return errs[0]
					}
					return nil
				})
				must(errors.Is(err, errs[0]), "the call returned %v", err)
				t.once("value")
			}})
	}

	edges()
}

func warmBig() {
	s := newBig(nil)
	p, _ := stagedpipe.New[pdata]("big", 1, s, stagedpipe.CountSubStages[pdata](&subSame{}))
	p.Close()
	time.Sleep(time.Millisecond)
}

// listErr is an error that cannot be compared.
type listErr []error

func (l listErr) Error() string   { return fmt.Sprint([]error(l)) }
func (l listErr) Unwrap() []error { return l }

// anyErr is an error that claims to be any other.
type anyErr struct{ n int }

func (e anyErr) Error() string { return fmt.Sprint("any", e.n) }
func (e anyErr) Is(error) bool { return true }

// chainHas tells whether e itself is in the chain of err.
func chainHas(err, e error) bool {
	if err == e {
		return true
	}
	switch u := err.(type) {
	case interface{ Unwrap() error }:
		return u.Unwrap() != nil && chainHas(u.Unwrap(), e)
	case interface{ Unwrap() []error }:
		for _, c := range u.Unwrap() {
			if chainHas(c, e) {
				return true
			}
		}
	}
	return false
}

// Types and values that need care.
func edges() {
	// Errors that look the same, that cannot be compared, that are typed nil, and
	// several errors in one.
	for _, mode := range []int{poolNone, poolLim1, poolPooled2} {
		Reg(&Scenario{Name: "edge-wait-" + poolNames[mode], Props: []string{"W02"}, QK: 1, TK: 3,
			Body: func(x *X) {
				p, o := mkPool(mode)
				g := wait.Group{Pool: p, PoolOptions: o}
				same := []error{errors.New("failed"), errors.New("failed"), errors.New("failed")}
				var ret []error
				kind := Choose(7)
				switch kind {
				case 0:
					ret = same
				case 1:
					ret = []error{listErr{same[0]}, listErr{same[1]}, listErr{same[2]}}
				case 2:
					ret = []error{errors.Join(same[0], same[1]), same[2], same[2]}
				case 3:
					ret = []error{fmt.Errorf("x: %w", same[0]), fmt.Errorf("x: %w", same[1]), fmt.Errorf("x: %w", fmt.Errorf("x: %w", same[2]))}
				case 4:
					ret = []error{listErr{context.Canceled, same[0]}, errors.Join(context.DeadlineExceeded, same[1]), same[2]}
				case 5:
					ret = []error{errors.New(""), same[0], same[1]} // an error without a text
					same[2] = ret[0]
				case 6:
					same = []error{anyErr{1}, anyErr{2}, errs[2]}
					ret = same
				}
				for i := range ret {
					g.Go(bg(), func(ctx context.Context) error {
						P()
						return ret[i]
					})
				}
				err := g.Wait(bg())
				for i, e := range same {
					must(errors.Is(err, e), "error %d is missing in %q", i, err)
					must(kind != 6 || chainHas(err, e), "error %d is missing in %q", i, err)
				}
				var l listErr
				must(kind != 1 && kind != 4 || errors.As(err, &l), "the type of an error is lost in %q", err)
				must(g.Wait(bg()) == nil, "an error is reported again")
				if p != nil {
					p.Close()
				}
			}})
	}
	// Contexts cancelled with a cause.
	for _, mode := range []int{poolNone, poolLim1, poolPooled2} {
		Reg(&Scenario{Name: "edge-cause-" + poolNames[mode], Props: []string{"W03", "S02", "C02"}, QK: 1, TK: 3,
			Body: func(x *X) {
				p, o := mkPool(mode)
				kind := Choose(4)
				ctx, cancel := context.WithCancelCause(bg())
				if kind == 0 {
					g := wait.Group{Pool: p, PoolOptions: o}
					cancel(errs[0])
					g.Go(ctx, func(ctx context.Context) error {
						Fail("a function was executed although its context was cancelled")
						return nil
					})
					err := g.Wait(bg())
					must(errors.Is(err, context.Canceled), "Wait returned %v", err)
				} else {
					c := parCall{api: kind - 1, n: 2, pool: p, po: o}
					ran := 0
					err := c.run(ctx, func(ctx context.Context, i int) error {
						ran++
						cancel(errs[0])
						return nil
					})
					must(ran == 2 || err != nil, "%d elements were accessed and nil was returned", ran)
				}
				cancel(nil)
				if p != nil {
					p.Close()
				}
			}})
	}
	// Values of all kinds in the copy-on-write value.
	Reg(&Scenario{Name: "edge-value", Props: []string{"A01", "A02"}, QK: 0, TK: 0,
		Body: func(x *X) {
			var e atomics.RWValue[error]
			must(e.Load() == nil, "an unset value is %v", e.Load())
			e.Store(typedErr{1})
			must(e.Load() == typedErr{1}, "the value is %v", e.Load())
			e.Store(errs[0])
			must(e.Load() == errs[0], "the value is %v", e.Load())
			e.Store(nil)
			must(e.Load() == nil, "the value is %v", e.Load())
			must(e.LoadReplace(func(o error) (error, error) {
				must(o == nil, "the function got %v", o)
				return listErr{errs[0]}, nil
			}) == nil, "LoadReplace failed")
			must(len(e.Load().(listErr)) == 1, "the value is %v", e.Load())
			must(e.LoadReplace(func(o error) (error, error) { return nil, nil }) == nil && e.Load() == nil, "the value is %v", e.Load())

			var a atomics.RWValue[any]
			for _, v := range []any{1, "x", nil, 2.5, struct{}{}, nil, pair{}} {
				a.Store(v)
				must(a.Load() == v, "the value is %v instead of %v", a.Load(), v)
				must(a.LoadReplace(func(o any) (any, error) { return [1]any{o}, nil }) == nil && a.Load() == [1]any{v}, "the value is %v", a.Load())
			}
			var ptr atomics.RWValue[*int]
			n := 5
			ptr.Store(&n)
			must(ptr.Load() == &n, "another pointer was loaded")
			ptr.Store(nil)
			must(ptr.Load() == nil, "a pointer was loaded after nil was stored")
			must(ptr.LoadReplace(func(o *int) (*int, error) { return &n, errs[1] }) == errs[1] && ptr.Load() == nil, "a failed replacement has changed the value")

			var z atomics.RWValue[int]
			z.Store(7)
			z.Store(0)
			must(z.Load() == 0, "the value is %d", z.Load())
			z.Store(7)
			must(z.LoadReplace(func(o int) (int, error) { return 0, nil }) == nil && z.Load() == 0, "the value is %d", z.Load())
			must(z.LoadReplace(func(o int) (int, error) { return o, nil }) == nil && z.Load() == 0, "the value is %d", z.Load())
			must(z.LoadReplace(func(o int) (int, error) { return 9, listErr{} }) != nil && z.Load() == 0, "the value is %d", z.Load())

			var u atomics.RWValue[any]
			for i := 0; i < 3; i++ {
				must(u.LoadReplace(func(o any) (any, error) { return []int{i}, nil }) == nil && u.Load().([]int)[0] == i, "the value is %v", u.Load())
				u.Store(map[int]int{i: i})
				must(u.Load().(map[int]int)[i] == i, "the value is %v", u.Load())
				u.Store([]int{i})
			}
			var f atomics.RWValue[float64]
			f.Store(0)
			f.Store(math.Copysign(0, -1))
			must(math.Signbit(f.Load()), "the value is %v", f.Load())
			f.Store(math.NaN())
			must(f.LoadReplace(func(o float64) (float64, error) { return o, nil }) == nil && math.IsNaN(f.Load()), "the value is %v", f.Load())
			must(f.LoadReplace(func(o float64) (float64, error) { return 1, nil }) == nil && f.Load() == 1, "the value is %v", f.Load())

			var m atomics.RWValue[map[string]int]
			must(m.LoadReplace(func(o map[string]int) (map[string]int, error) {
				must(o == nil, "the function got %v", o)
				return map[string]int{"a": 1}, nil
			}) == nil && m.Load()["a"] == 1, "the value is %v", m.Load())
			var fn atomics.RWValue[func() int]
			fn.Store(func() int { return 3 })
			must(fn.Load()() == 3, "another function was loaded")
		}})
	// The same error value recorded again; lists that are read in between.
	Reg(&Scenario{Name: "edge-errors", Props: []string{"E01"}, QK: 1, TK: 3, DPOR: 1,
		Body: func(x *X) {
			var e goroutines.Errors
			same := []error{errors.New("failed"), errors.New("failed")}
			l := []error{same[0], same[1], same[0], listErr{same[0]}, listErr{same[0]}, context.Canceled, context.Canceled}
			done := make(chan bool)
			go func() {
				for _, v := range l {
					e.Record(v)
				}
				done <- true
			}()
			k := e.Errors()
			must(e.Error() == nil || e.Error() == same[0], "the earliest error is %v", e.Error())
			<-done
			got := e.Errors()
			must(len(got) == len(l) && len(k) <= len(l), "%d errors of %d are listed", len(got), len(l))
			for i := range got {
				if _, ok := l[i].(listErr); ok {
					_, ok := got[i].(listErr)
					must(ok, "entry %d is %v", i, got[i])
					continue
				}
				must(got[i] == l[i], "entry %d is %v", i, got[i])
			}
			must(e.Error() == same[0], "the earliest error is %v", e.Error())
		}})
	// Channels and slices of interfaces, pointers and empty values.
	Reg(&Scenario{Name: "edge-elements", Props: []string{"C01", "C03", "S01"}, QK: 0, TK: 1,
		Body: func(x *X) {
			vals := []any{nil, 0, "", nil, false, struct{}{}, errs[0], (*int)(nil)}
			mk := func() chan any {
				in := make(chan any, Choose(2)*len(vals))
				go func() {
					for _, v := range vals {
						in <- v
					}
					close(in)
				}()
				return in
			}
			n := map[any]int{}
			must(chans.Access(bg(), mk(), func(ctx context.Context, v any) error {
				n[v]++
				return nil
			}) == nil, "the call failed")
			must(n[nil] == 2 && len(n) == len(vals)-1, "the accessed values are %v", n)
			out := make(chan chans.StreamResult[any], len(vals))
			must(chans.Modify(bg(), mk(), out, func(ctx context.Context, v any) (any, error) {
				return v, nil
			}) == nil, "the call failed")
			m := map[any]int{}
			for r := range out {
				must(r.Err == nil, "a result holds the error %v", r.Err)
				m[r.Value]++
			}
			must(m[nil] == 2 && len(m) == len(vals)-1, "the results are %v", m)
			// A value and an error: the result carries the error.
			in := make(chan any, 2)
			in <- 1
			in <- 2
			close(in)
			out = make(chan chans.StreamResult[any], 2)
			err := chans.Modify(bg(), in, out, func(ctx context.Context, v any) (any, error) {
				if v == 1 {
					return v, listErr{errs[1]}
				}
				return nil, nil
			})
			must(errors.Is(err, errs[1]), "the call returned %v", err)
			ok, bad := 0, 0
			for r := range out {
				if errors.Is(r.Err, errs[1]) {
					bad++
				} else if r.Err == nil && r.Value == nil {
					ok++
				}
			}
			must(ok == 1 && bad == 1, "%d results and %d errors came out", ok, bad)
			// Slices: nothing, several or equal modifications of one element.
			s := []any{nil, 1, "x", nil, 2.5}
			must(slices.Access(bg(), s, func(ctx context.Context, i int, v any, mod slices.Modifier[any]) error {
				switch i {
				case 0:
					mod(7)
					mod(8)
				case 1:
					mod(nil)
				case 3:
					mod(nil)
				case 4:
					mod(1)
					mod(v)
				}
				return nil
			}) == nil, "the call failed")
			must(s[0] == 8 && s[1] == nil && s[2] == "x" && s[3] == nil && s[4] == 2.5, "the slice is %v afterwards", s)
			// A part of a slice: what lies behind it stays.
			full := []int{1, 2, 3, 4}
			must(slices.Access(bg(), full[1:3:3], func(ctx context.Context, i int, v int, mod slices.Modifier[int]) error {
				mod(v * 10)
				return nil
			}) == nil, "the call failed")
			must(full[0] == 1 && full[1] == 20 && full[2] == 30 && full[3] == 4, "the slice is %v afterwards", full)
		}})
}
