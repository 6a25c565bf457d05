package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"time"

	"github.com/go-json-experiment/json"
	"go.opentelemetry.io/otel/trace"
	"go.opentelemetry.io/otel/trace/noop"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"
	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
	"github.com/gostdlib/concurrency/prim/wait"
)

const (
	spStart = 40 // span A is started under B
	spEnd   = 41 // span A is ended
	ctrSpan = 100
	ctrEnd  = 110 // + id
)

// rspan is a recording span, which like the real ones no longer records once it
// has been ended.
type rspan struct {
	noop.Span
	r      *recorder
	id     int
	parent *rspan
	root   bool
	name   string
}

// recorder is a tracer provider and a tracer.
type recorder struct {
	noop.TracerProvider
	spans []*rspan
}

type rtracer struct {
	noop.Tracer
	r *recorder
}

func (r *recorder) Tracer(string, ...trace.TracerOption) trace.Tracer { return rtracer{r: r} }

func (t rtracer) Start(ctx context.Context, name string, _ ...trace.SpanStartOption) (context.Context, trace.Span) {
	p, _ := trace.SpanFromContext(ctx).(*rspan)
	if p == nil {
		Fail("a span %q was started under no span", name)
	}
	if p.ended() {
		Fail("the span %q was started under %q, which had ended", name, p.name)
	}
	s := t.r.start(name, p)
	return trace.ContextWithSpan(ctx, s), s
}

func (r *recorder) start(name string, p *rspan) *rspan {
	s := &rspan{r: r, id: Ctr(ctrSpan, 1), parent: p, name: name}
	r.spans = append(r.spans, s)
	pid := 0
	if p != nil {
		pid = p.id
	}
	Ev(spStart, s.id, pid)
	return s
}

// root makes a span of the caller.
func (r *recorder) rootSpan(ctx context.Context) (context.Context, *rspan) {
	s := r.start("root", nil)
	s.root = true
	return trace.ContextWithSpan(ctx, s), s
}

func (s *rspan) ended() bool       { return Ctr(ctrEnd+s.id, 0) > 0 }
func (s *rspan) IsRecording() bool { return !s.ended() }
func (s *rspan) SpanContext() trace.SpanContext {
	return trace.NewSpanContext(trace.SpanContextConfig{TraceID: trace.TraceID{1}, SpanID: trace.SpanID{byte(s.id), byte(s.id >> 8), 1}, TraceFlags: trace.FlagsSampled})
}
func (s *rspan) TracerProvider() trace.TracerProvider { return s.r }
func (s *rspan) End(...trace.SpanEndOption) {
	if s.root {
		Fail("the library ended the caller's span")
	}
	P()
	Ctr(ctrEnd+s.id, 1)
	Ev(spEnd, s.id, 0)
}

// under reports whether s is p or a descendant of p.
func (s *rspan) under(p *rspan) bool {
	for ; s != nil; s = s.parent {
		if s == p {
			return true
		}
	}
	return false
}

func spanOf(ctx context.Context) *rspan {
	s, _ := trace.SpanFromContext(ctx).(*rspan)
	return s
}

// allEnded fails unless every span of the library has been ended.
func (r *recorder) allEnded(when string) {
	for _, s := range r.spans {
		if !s.root && !s.ended() {
			Fail("the span %q is not ended %s", s.name, when)
		}
	}
}

// live fails unless the current span is under root and it and all spans above
// it are recording.
func liveUnder(ctx context.Context, where string, roots ...*rspan) *rspan {
	s := spanOf(ctx)
	if s == nil {
		Fail("%s has no span", where)
	}
	ok := false
	for _, r := range roots {
		ok = ok || s.under(r)
	}
	if !ok {
		Fail("%s has the span %q of something else", where, s.name)
	}
	for p := s; p != nil; p = p.parent {
		if p.ended() {
			Fail("%s runs under the span %q, which has ended", where, p.name)
		}
	}
	return s
}

func warmSpans() {
	warmPipes()
	json.Marshal(pdata{})
	json.Marshal(pdata{F: math.NaN()})
	_ = time.Now().UTC().String()
}

func init() {
	initPipeSpans()
	initWaitSpans()
	initParSpans()
	initPoolSpans()
}

func initPipeSpans() {
	type variant struct {
		name   string
		num    int
		stages int
		reqs   int
		traced []bool // of each request
		dist   bool   // each request has a span of its own
		fail   int    // doErr, doCancel, ... in the last stage
		again  bool
		o      []stagedpipe.Option[pdata]
		qk, tk int
	}
	ordered, dag := stagedpipe.Ordered[pdata](), stagedpipe.DAG[pdata]()
	pp := stagedpipe.PreProcessors(func(r preq) preq { return r })
	t1, t2, t3 := []bool{true}, []bool{true, true}, []bool{true, true, true}
	for _, v := range []variant{
		{"one", 1, 1, 1, t1, false, doStop, false, nil, 2, 2},
		{"one-s3", 1, 3, 1, t1, false, doStop, false, nil, 1, 2},
		{"one-err", 1, 2, 1, t1, false, doErr, false, nil, 1, 2},
		{"one-cancel", 1, 2, 1, t1, false, doCancel, false, nil, 1, 2},
		{"one-cyclic", 1, 2, 1, t1, false, doA, false, []stagedpipe.Option[pdata]{dag, pp}, 1, 2},
		{"two", 1, 1, 2, t2, false, doStop, false, nil, 1, 2},
		{"two-own", 2, 1, 2, t2, true, doStop, false, nil, 1, 2},
		{"three-s2", 1, 2, 3, t3, true, doStop, false, nil, 1, 1},
		{"mixed1", 1, 2, 2, []bool{false, true}, true, doStop, false, nil, 1, 2},
		{"mixed2", 1, 2, 2, []bool{true, false}, true, doStop, false, nil, 1, 2},
		{"ord", 2, 1, 2, t2, true, doStop, false, []stagedpipe.Option[pdata]{ordered}, 1, 2},
		{"dag", 1, 2, 2, t2, false, doStop, false, []stagedpipe.Option[pdata]{dag, pp}, 1, 2},
		{"delay", 1, 1, 2, t2, true, doStop, false, []stagedpipe.Option[pdata]{stagedpipe.DelayWarning[pdata](time.Second)}, 1, 2},
		{"again", 1, 2, 1, t1, false, doStop, true, nil, 1, 2},
		{"again-err", 1, 2, 1, t1, false, doErr, true, nil, 1, 1},
	} {
		Reg(&Scenario{Name: "span-pipe-" + v.name, Props: []string{"T11"}, QK: v.qk, TK: v.tk, AllowLive: 1, Setup: warmSpans,
			Body: func(x *X) {
				rec := &recorder{}
				roots := make([]*rspan, v.reqs)
				ctxs := make([]context.Context, v.reqs)
				var cancels []context.CancelFunc
				var first *rspan
				for i := range ctxs {
					ctx, cancel := context.WithCancel(withID(bg(), i+1))
					cancels = append(cancels, cancel)
					switch {
					case !v.traced[i]:
					case v.dist || first == nil:
						ctx, roots[i] = rec.rootSpan(ctx)
						if first == nil {
							first = roots[i]
						}
					default:
						roots[i] = first
						ctx = trace.ContextWithSpan(ctx, first)
					}
					ctxs[i] = ctx
				}
				stageSpans := make([][]*rspan, v.reqs)
				again := 0
				b := &smBase{cancel: func(id int) { cancels[id]() }}
				b.plan = func(r *preq, vis int, stage byte) int {
					id := r.Data.ID
					must(idOf(r.Ctx) == id+1, "request %d is in a stage with another context", id)
					if v.traced[id] {
						// The group's span belongs to the first request.
						s := liveUnder(r.Ctx, fmt.Sprintf("stage %c of request %d", stage, id), roots[id], roots[0])
						for _, o := range stageSpans {
							for _, p := range o {
								must(p != s, "two visits of stages have the same span %q", s.name)
								must(s.parent != p, "the span of stage %c is a child of the span of another stage", stage)
							}
						}
						stageSpans[id] = append(stageSpans[id], s)
						r.Event("event", "k", 1)
					} else {
						must(spanOf(r.Ctx) == nil || spanOf(r.Ctx).under(roots[0]), "an untraced request has a span")
					}
					P()
					if vis+1 < v.stages {
						return doB + vis
					}
					return v.fail
				}
				p := newPipes(v.num, v.stages, b, v.o...)
				g := p.NewRequestGroup()
				drained := make(chan struct{})
				got := 0
				check := func(r preq) {
					got++
					id := r.Data.ID
					want := "ABC"[:v.stages]
					must(r.Data.Trail == want, "request %d ran %q instead of %q", id, r.Data.Trail, want)
					switch v.fail {
					case doStop:
						must(r.Err == nil, "request %d came out with %v", id, r.Err)
					case doErr:
						must(r.Err == errStage, "request %d came out with %v", id, r.Err)
					case doCancel:
						must(r.Err == context.Canceled, "request %d came out with %v", id, r.Err)
					case doA:
						must(stagedpipe.IsErrCyclic(r.Err), "request %d came out with %v", id, r.Err)
					}
					must(idOf(r.Ctx) == id+1, "request %d came out with another context", id)
					if !v.traced[id] {
						return
					}
					for _, s := range stageSpans[id] {
						must(s.ended(), "request %d was delivered before the span %q was ended", id, s.name)
						if o := spanOf(r.Ctx); o != nil {
							must(!o.under(s), "request %d came out with the context of the finished stage %q", id, s.name)
						}
					}
					if o := spanOf(r.Ctx); o != nil {
						must(o.under(roots[id]) || o.under(roots[0]), "request %d came out with the span %q of something else", id, o.name)
					} else {
						Fail("request %d was accepted with a span and came out without", id)
					}
					if v.reqs == 1 {
						// Only the span of the group may be open.
						n := 0
						for _, s := range rec.spans {
							if !s.root && !s.ended() {
								n++
								must(s.parent == roots[0], "the request was delivered before the span %q was ended", s.name)
							}
						}
						must(n <= 1, "%d spans are open although the only request was delivered", n)
					}
				}
				if !v.again {
					go func() {
						drain(g, 0, check)
						close(drained)
					}()
				}
				for j := 0; j < v.reqs; j++ {
					mustAccept(submitReq(ctxs[j], g, 0, j))
				}
				if v.again {
					r := <-g.Out()
					Ev(pvOut, 0, 0)
					check(r)
					again++
					// The same request once more, in a context of its own.
					ctx, root := rec.rootSpan(withID(bg(), 1))
					r.Ctx, r.Err, r.Data.Trail = ctx, nil, ""
					roots[0], stageSpans[0] = root, nil
					g2 := p.NewRequestGroup()
					mustAccept(g2.Submit(r))
					r = <-g2.Out()
					// The group of the first is still open.
					must(idOf(r.Ctx) == 1 && r.Data.Trail == "ABC"[:v.stages], "the second time gave %q", r.Data.Trail)
					for _, s := range stageSpans[0] {
						must(s.ended() && s.under(root), "the span %q is not ended or belongs to something else", s.name)
					}
					g2.Close()
					_, ok := <-g2.Out()
					must(!ok, "something came out after the last request")
					go func() {
						drain(g, 0, nil)
						close(drained)
					}()
				}
				g.Close()
				<-drained
				rec.allEnded("although the group was closed and drained")
				must(got == v.reqs, "%d requests came out", got)
				p.Close()
			},
			Check: func(x *X) error { return checkDelivered(x, 1) },
		})
	}
	// Data that cannot be encoded for the span comes out as without tracing.
	Reg(&Scenario{Name: "span-pipe-nojson", Props: []string{"T11"}, QK: 1, TK: 2, AllowLive: 1, Setup: warmSpans,
		Body: func(x *X) {
			rec := &recorder{}
			when := Choose(3) // never, submitted so, made so by the stage
			fail := Choose(2)
			b := &smBase{}
			b.plan = func(r *preq, vis int, stage byte) int {
				must(math.IsNaN(r.Data.F) == (when == 1) && r.Err == nil, "a stage received %v, %v", r.Data.F, r.Err)
				if when == 2 {
					r.Data.F = math.NaN()
				}
				if fail == 1 {
					return doErr
				}
				return doStop
			}
			p := newPipes(1, 1, b)
			g := p.NewRequestGroup()
			ctx, _ := rec.rootSpan(bg())
			for j := 0; j < 2; j++ {
				d := pdata{ID: j}
				if when == 1 {
					d.F = math.NaN()
				}
				mustAccept(g.Submit(preq{Ctx: ctx, Data: d}))
				r := <-g.Out()
				must(r.Data.ID == j && r.Data.Trail == "A" && math.IsNaN(r.Data.F) == (when > 0), "%+v came out", r.Data)
				must((r.Err == nil) == (fail == 0) && (fail == 0 || r.Err == errStage), "the request came out with %v", r.Err)
			}
			g.Close()
			_, ok := <-g.Out()
			must(!ok, "something came out after the last request")
			rec.allEnded("although the group was closed and drained")
			p.Close()
		},
	})
	// Refused submissions, and a group that is closed without a request.
	for _, ord := range []bool{false, true} {
		n := "span-pipe-refused"
		var o []stagedpipe.Option[pdata]
		if ord {
			n += "-ord"
			o = append(o, ordered)
		}
		Reg(&Scenario{Name: n, Props: []string{"T11"}, QK: 1, TK: 2, AllowLive: 1, Setup: warmSpans,
			Body: func(x *X) {
				rec := &recorder{}
				p := newPipes(1, 1, &smBase{plan: yieldPlan}, o...)
				g := p.NewRequestGroup()
				drained := make(chan struct{})
				go func() {
					drain(g, 0, nil)
					close(drained)
				}()
				for j := 0; j < 3; j++ {
					ctx, _ := rec.rootSpan(bg())
					ctx, cancel := context.WithCancel(ctx)
					if Choose(2) == 1 {
						cancel()
					}
					err := submitReq(ctx, g, 0, j)
					must(err == nil || ctx.Err() != nil, "the submission was refused with %v", err)
				}
				must(g.Submit(preq{}) != nil, "a request without a context was accepted")
				g.Close()
				<-drained
				rec.allEnded("although the group was closed and drained")
				g = p.NewRequestGroup()
				g.Close()
				_, ok := <-g.Out()
				must(!ok, "an unused group delivered something")
				p.Close()
			},
			Check: func(x *X) error { return checkDelivered(x, 1) },
		})
	}
	// The stage sets a context: it is kept.
	Reg(&Scenario{Name: "span-pipe-setctx", Props: []string{"T11", "T03"}, QK: 1, TK: 2, AllowLive: 1, Setup: warmSpans,
		Body: func(x *X) {
			rec := &recorder{}
			p := newPipes(1, 2, &smBase{plan: func(r *preq, vis int, stage byte) int {
				if vis == 0 {
					r.Ctx = withID(r.Ctx, 77)
					return doB
				}
				must(idOf(r.Ctx) == 77, "the context that the stage had set is lost")
				for o := spanOf(r.Ctx); o != nil; o = o.parent {
					must(!o.ended(), "the stage runs under the span %q, which had ended", o.name)
				}
				return doStop
			}})
			g := p.NewRequestGroup()
			ctx, _ := rec.rootSpan(bg())
			out := oneShot(p, g, ctx, preq{})
			must(out.Err == nil && idOf(out.Ctx) == 77, "the context that the stage had set is lost")
			g.Close()
			_, ok := <-g.Out()
			must(!ok, "something came out after the last request")
			rec.allEnded("although the group was closed and drained")
			p.Close()
		},
	})
}

func initWaitSpans() {
	for mode := 0; mode < nPoolModes; mode++ {
		for _, named := range []bool{false, true} {
			n := "span-wait-" + poolNames[mode]
			if named {
				n += "-named"
			}
			if named && mode > poolLim1 {
				continue
			}
			Reg(&Scenario{Name: n, Props: []string{"T11"}, QK: 2, TK: 3, Setup: warmSpans,
				Body: func(x *X) {
					rec := &recorder{}
					p, o := mkPool(mode)
					g := wait.Group{Pool: p, PoolOptions: o}
					if named {
						g.Name = "name"
					}
					for batch := 0; batch < 2; batch++ {
						ctx, root := rec.rootSpan(withID(bg(), 3))
						traced := batch == 1 || Choose(2) == 0
						if !traced {
							ctx = withID(bg(), 3)
						}
						fail := Choose(3)
						ran := 0
						for i := 0; i < 2; i++ {
							g.Go(ctx, func(ctx context.Context) error {
								if traced {
									liveUnder(ctx, "a function", root)
								} else {
									must(spanOf(ctx) == nil, "a function of an untraced group has the span %q", "")
								}
								must(idOf(ctx) == 3, "a function has another context")
								P()
								ran++
								if i < fail {
									return errs[i]
								}
								return nil
							})
						}
						err := g.Wait(ctx)
						must(ran == 2, "%d of 2 functions ran", ran)
						must((err != nil) == (fail > 0), "Wait returned %v", err)
						for i := 0; i < fail; i++ {
							must(errors.Is(err, errs[i]), "Wait returned %v, in which error %d is missing", err, i)
						}
						rec.allEnded("although the group was waited for")
					}
					must(g.Wait(bg()) == nil, "an empty Wait failed")
					if p != nil {
						p.Close()
					}
				},
			})
		}
	}
	// Only one of two functions is traced; a cancelled context; two tracers.
	Reg(&Scenario{Name: "span-wait-mixed", Props: []string{"T11"}, QK: 2, TK: 3, Setup: warmSpans,
		Body: func(x *X) {
			rec := &recorder{}
			g := wait.Group{}
			ctx, cancel := context.WithCancel(bg())
			g.CancelOnErr = cancel
			ctx, root := rec.rootSpan(ctx)
			cs := []context.Context{ctx, bg()}
			if Choose(2) == 1 {
				cs[0], cs[1] = cs[1], cs[0]
			}
			for i := range cs {
				g.Go(cs[i], func(c context.Context) error {
					if cs[i] == ctx {
						liveUnder(c, "a function", root)
						return errs[0]
					}
					return nil
				})
			}
			must(errors.Is(g.Wait(bg()), errs[0]), "the error is lost")
			must(ctx.Err() != nil, "the context was not cancelled")
			rec.allEnded("although the group was waited for")
		},
	})
}

// Slices and channels: what comes out is the same as without a span.
func initParSpans() {
	for api := 0; api < 3; api++ {
		name := []string{"slices", "chans", "modify"}[api]
		for _, mode := range []int{poolNone, poolLim1, poolPooled2} {
			for _, stop := range []bool{false, true} {
				n := "span-" + name + "-" + poolNames[mode]
				if stop {
					n += "-stop"
				}
				Reg(&Scenario{Name: n, Props: []string{"T11"}, QK: 1, TK: 2, Setup: warmSpans,
					Body: func(x *X) {
						rec := &recorder{}
						pool, po := mkPool(mode)
						c := &parCall{api: api, n: 2, pool: pool, po: po, stop: stop}
						ctx, root := rec.rootSpan(withID(bg(), 4))
						fail := Choose(2) == 1
						n := 0
						err := c.run(ctx, func(ctx context.Context, i int) error {
							liveUnder(ctx, "an accessor", root)
							must(idOf(ctx) == 4, "an accessor has another context")
							n++
							if fail && i == 0 {
								return errFn
							}
							return nil
						})
						if fail {
							must(errors.Is(err, errFn), "the error is lost: %v", err)
							must(n == 2 || stop && n >= 1, "%d accessors ran", n)
						} else {
							must(err == nil && n == 2, "%d accessors ran, error %v", n, err)
						}
						rec.allEnded("although the call has returned")
						if pool != nil {
							pool.Close()
						}
					},
				})
			}
		}
	}
}

func initPoolSpans() {
	for mode := poolLim1; mode < nPoolModes; mode++ {
		Reg(&Scenario{Name: "span-pool-" + poolNames[mode], Props: []string{"T11"}, QK: 2, TK: 3, Setup: warmSpans,
			Body: func(x *X) {
				rec := &recorder{}
				p, o := mkPool(mode)
				ctx, root := rec.rootSpan(withID(bg(), 2))
				ran := 0
				for i := 0; i < 3; i++ {
					err := p.Submit(ctx, func(ctx context.Context) {
						liveUnder(ctx, "a job", root)
						must(idOf(ctx) == 2, "a job has another context")
						P()
						ran++
					}, o...)
					must(err == nil, "Submit failed: %v", err)
				}
				must(p.Submit(ctx, nil, o...) != nil, "a nil job was accepted")
				p.Wait()
				must(ran == 3, "%d of 3 jobs ran", ran)
				c, cancel := context.WithCancel(ctx)
				cancel()
				must(p.Submit(c, func(context.Context) {}) != nil || true, "")
				p.Close()
				rec.allEnded("although the pool was closed")
			},
		})
	}
	_ = limited.NonBlocking
	_ = pooled.NonBlocking
	var _ goroutines.Pool
}
