package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
)

// Histories of single requests: submitted again to another group, received late,
// or held back behind a slow one.
func init() {
	// A request that came out of one group is submitted to another one as it is, of
	// the same pipelines or of others, with any combination of options.
	for _, same := range []bool{true, false} {
		for opts := 0; opts < 4; opts++ {
			for _, hops := range []int{2, 3} {
				if same && opts != 0 && opts != 3 || hops == 3 && (opts == 0 || opts == 2 || !same) {
					continue
				}
				name := fmt.Sprintf("resub-%d-h%d", opts, hops)
				if same {
					name += "-same"
				}
				qk, fk := 1, 0
				if hops == 3 || !same {
					qk = 0
				}
				props := []string{"T01", "T06"}
				var o [2][]stagedpipe.Option[pdata]
				for k := range o {
					if opts>>k&1 == 1 {
						o[k] = append(o[k], stagedpipe.Ordered[pdata]())
					}
				}
				if opts != 0 {
					props = append(props, "T02")
				}
				Reg(&Scenario{Name: name, Props: props, QK: qk, TK: qk + 1, FK: fk, AllowLive: hops, Setup: warmPipes,
					Body: func(x *X) {
						const n = 3
						ps := make([]*ppipes, hops)
						gs := make([]*pgroup, hops)
						for h := range ps {
							if h > 0 && same {
								ps[h] = ps[0]
							} else {
								ps[h] = newPipes(1, 2, &smBase{plan: routePlan(2)}, o[h%2]...)
							}
							gs[h] = ps[h].NewRequestGroup()
						}
						drained := make(chan struct{}, hops)
						for h := range gs {
							go func() {
								drain(gs[h], h, func(r preq) {
									must(r.Data.Trail == "AB" && r.Err == nil, "request %d ran %q and came out with %v", r.Data.ID, r.Data.Trail, r.Err)
									if h+1 < hops {
										r.Data.ID += 100
										r.Data.Trail = ""
										id := r.Data.ID
										mustAccept(gs[h+1].Submit(r))
										Ev(pvAcc, id, h+1)
									}
								})
								if h+1 < hops {
									gs[h+1].Close()
								}
								drained <- struct{}{}
							}()
						}
						for j := 0; j < n; j++ {
							mustAccept(submitReq(bg(), gs[0], 0, j))
						}
						gs[0].Close()
						for range gs {
							<-drained
						}
						for h, p := range ps {
							if h == 0 || !same {
								p.Close()
							}
						}
					},
					Check: func(x *X) error {
						for h := 0; h < hops; h++ {
							for j := 0; j < 3; j++ {
								k := 0
								for _, e := range x.Ev {
									if e.Code == pvOut && int(e.A) == h*100+j {
										k++
										if int(e.B) != h {
											return fmt.Errorf("request %d of group %d was delivered by group %d", j, h, e.B)
										}
									}
								}
								if k != 1 {
									return fmt.Errorf("request %d was delivered %d times by group %d", j, k, h)
								}
							}
							if opts>>(h%2)&1 == 1 && (!same || opts == 3) {
								// Submitted in the order in which the group before delivered.
								if err := orderOf(x, h, h*100); err != nil {
									return err
								}
							}
						}
						return nil
					},
				})
			}
		}
	}

	// The consumer is late: the contexts of the requests end while their delivery is
	// blocked. That changes nothing for requests that are finished.
	for _, v := range []struct {
		name string
		num  int
		o    []stagedpipe.Option[pdata]
	}{
		{"plain", 1, nil},
		{"ord", 1, []stagedpipe.Option[pdata]{stagedpipe.Ordered[pdata]()}},
		{"delay", 1, []stagedpipe.Option[pdata]{stagedpipe.DelayWarning[pdata](time.Second)}},
		{"n2ord", 2, []stagedpipe.Option[pdata]{stagedpipe.Ordered[pdata](), stagedpipe.DelayWarning[pdata](time.Second)}},
	} {
		props := []string{"T01", "T03"}
		if v.name == "delay" {
			props = append(props, "T10")
		}
		if v.name == "ord" || v.name == "n2ord" {
			props = append(props, "T02")
		}
		Reg(&Scenario{Name: "late-" + v.name, Props: props, QK: 1, TK: 2, CaptureLog: true, AllowLive: 1, Setup: warmPipes,
			Body: func(x *X) {
				const n = 4
				p := newPipes(v.num, 1, &smBase{plan: func(r *preq, vis int, stage byte) int {
					if r.Data.ID == 1 {
						return doErr
					}
					return doStop
				}}, v.o...)
				g := p.NewRequestGroup()
				kind := Choose(2)
				ctx, cancel := context.WithCancel(bg())
				if kind == 1 {
					ctx, cancel = context.WithTimeout(bg(), 5*time.Second)
				}
				defer cancel()
				done := make(chan struct{})
				go func() {
					for j := 0; j < n; j++ {
						c := ctx
						if j == 3 {
							c = bg()
						}
						mustAccept(submitReq(c, g, 0, j))
					}
					close(done)
				}()
				time.Sleep(3 * time.Second) // all that can be finished is finished
				finished := map[int]bool{}
				for _, e := range evNow() {
					if e.Code == pvLast {
						finished[int(e.A)] = true
					}
				}
				if kind == 0 {
					cancel()
				}
				time.Sleep(30 * time.Second)
				go func() {
					<-done
					g.Close()
				}()
				drain(g, 0, func(r preq) {
					if finished[r.Data.ID] || r.Data.ID == 3 {
						want := error(nil)
						if r.Data.ID == 1 {
							want = errStage
						}
						must(r.Err == want && r.Data.Trail == "A", "request %d ran %q and came out with %v although it was finished before its context ended", r.Data.ID, r.Data.Trail, r.Err)
					}
				})
				p.Close()
			},
			Check: func(x *X) error {
				err := all(checkDelivered(x, 1), checkClosed(x, 1))
				if err == nil && (v.name == "ord" || v.name == "n2ord") {
					err = checkOrder(x, 1)
				}
				return err
			},
		})
	}

	// One slow request holds back hundreds of others of its group; another group
	// goes on.
	for _, at := range []int{0, 40} {
		Reg(&Scenario{Name: fmt.Sprintf("long-ord-slow%d", at), Props: []string{"T02", "T01"}, QK: 0, TK: 0, DK: -1, MaxSteps: 400000, AllowLive: 1, Setup: warmPipes,
			Body: func(x *X) {
				n := 310 + 20*at
				gate := make(chan struct{})
				p := newPipes(2, 1, &smBase{plan: func(r *preq, vis int, stage byte) int {
					if r.Data.ID == at {
						<-gate
					}
					if r.Data.ID%7 == 3 {
						return doErr
					}
					return doStop
				}}, stagedpipe.Ordered[pdata]())
				g, g2 := p.NewRequestGroup(), p.NewRequestGroup()
				next := 0
				drained := make(chan struct{})
				go func() {
					for r := range g.Out() {
						must(r.Data.ID == next, "request %d was delivered instead of %d", r.Data.ID, next)
						must((r.Err == errStage) == (r.Data.ID%7 == 3) && (r.Err == nil) == (r.Data.ID%7 != 3), "request %d came out with %v", r.Data.ID, r.Err)
						next++
					}
					close(drained)
				}()
				for j := 0; j < n; j++ {
					mustAccept(g.Submit(preq{Ctx: bg(), Data: pdata{ID: j}}))
				}
				mustAccept(g2.Submit(preq{Ctx: bg(), Data: pdata{ID: 1000}}))
				must((<-g2.Out()).Data.ID == 1000, "the other group delivered something else")
				time.Sleep(time.Second)
				must(next == at, "%d requests were delivered although request %d is not finished", next, at)
				close(gate)
				g.Close()
				<-drained
				must(next == n, "%d of %d requests were delivered", next, n)
				g2.Close()
				p.Close()
			}})
	}
}

// orderOf: group h accepted and delivered its requests in the same order.
func orderOf(x *X, h, base int) error {
	var in, out []int64
	for _, e := range x.Ev {
		if e.Code == pvAcc && int(e.B) == h {
			in = append(in, e.A)
		}
		if e.Code == pvOut && int(e.B) == h {
			out = append(out, e.A)
		}
	}
	if fmt.Sprint(in) != fmt.Sprint(out) {
		return errors.New(fmt.Sprintf("group %d accepted %v and delivered %v", h, in, out))
	}
	return nil
}
