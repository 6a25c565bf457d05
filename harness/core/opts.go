package main

import (
	"fmt"
	"time"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
)

// All options of the pipelines at once, in several orders.
func init() {
	Reg(&Scenario{Name: "edge-options", Props: []string{"T02", "T03", "T04", "T05", "T10", "T01"}, QK: 0, TK: 1, AllowLive: 1, CaptureLog: true, Setup: warmPipes,
		Body: func(x *X) {
			pre := ""
			pp := func(names string) stagedpipe.Option[pdata] {
				pre += names
				var fs []stagedpipe.PreProcesor[pdata]
				for _, c := range names {
					fs = append(fs, func(r preq) preq { r.Data.Trail += string(c); return r })
				}
				return stagedpipe.PreProcessors(fs...)
			}
			const c = 6
			all := make(chan struct{})
			b := &smBase{plan: func(r *preq, vis int, stage byte) int {
				if vis > 0 {
					if r.Data.ID == 3 {
						return doA
					}
					return doStop
				}
				must(Ctr(0, 1) <= c, "more than %d requests are processed at the same time", c)
				if Ctr(1, 1) == c {
					close(all)
				}
				<-all
				if r.Data.ID == 0 {
					time.Sleep(10 * time.Second)
				}
				Ctr(0, -1)
				return doB
			}}
			mk := []func() stagedpipe.Option[pdata]{
				stagedpipe.DAG[pdata],
				stagedpipe.Ordered[pdata],
				func() stagedpipe.Option[pdata] { return pp("a") },
				func() stagedpipe.Option[pdata] { return pp("bc") },
				func() stagedpipe.Option[pdata] { return stagedpipe.DelayWarning[pdata](4 * time.Second) },
				func() stagedpipe.Option[pdata] { return stagedpipe.CountSubStages[pdata](&sub2{b}) },
				func() stagedpipe.Option[pdata] { return stagedpipe.CountSubStages[pdata](&sub2{b}) },
			}
			// What is ordered is stored and blocks nothing.
			if Choose(2) == 1 {
				mk[1] = mk[0]
				Ev(pvFree, 0, 0)
			}
			rot, rev := Choose(len(mk)), Choose(2)
			var o []stagedpipe.Option[pdata]
			for i := range mk {
				k := (rot + i) % len(mk)
				if rev == 1 {
					k = (rot + len(mk) - i) % len(mk)
				}
				o = append(o, mk[k]())
			}
			p := newPipes(1, 2, b, o...)
			g := p.NewRequestGroup()
			drained := make(chan struct{})
			go func() {
				time.Sleep(time.Minute)
				drain(g, 0, func(r preq) {
					want := pre + "A" + pre + "B"
					if r.Data.ID == 3 {
						must(stagedpipe.IsErrCyclic(r.Err), "a request that goes round came out with %v", r.Err)
						r.Err = nil
					}
					must(r.Data.Trail == want && r.Err == nil, "request %d ran %q instead of %q and came out with %v", r.Data.ID, r.Data.Trail, want, r.Err)
				})
				close(drained)
			}()
			for j := 0; j < c+8; j++ {
				mustAccept(submitReq(bg(), g, 0, j))
			}
			g.Close()
			<-drained
			p.Close()
		},
		Check: func(x *X) error {
			if x.Count(pvFree) == 0 {
				return all(checkDelivered(x, 1), checkOrder(x, 1), checkClosed(x, 1))
			}
			if len(x.logs) == 0 {
				return fmt.Errorf("deliveries were blocked for most of a minute and no warning was logged")
			}
			return all(checkDelivered(x, 1), checkClosed(x, 1))
		},
	})
}
