W="prim/wait/wait.go"; L="goroutines/limited/goroutines.go"; P="goroutines/pooled/goroutines.go"; R="goroutines/internal/register/register.go"
G="goroutines/goroutines.go"; A="prim/atomics/atomics.go"; S="prim/slices/slice.go"; C="prim/chans/chans.go"; T="pipelines/stagedpipe/stagedpipe.go"; TS="pipelines/stagedpipe/stats.go"; Q="pipelines/stagedpipe/internal/queue/queue.go"; SO="prim/slices/options.go"; CO="prim/chans/options.go"
M=[
# combinations of two features
("dag-delay-drop","T10,T04,T01",T,"				case <-tick.C:\n","				case <-tick.C:\n					if p.ss && r.Err != nil && IsErrCyclic(r.Err) {\n						r.Err = fmt.Errorf(\"%s: %w\", id, r.Err)\n					}\n"),
("ord-err-stats","T08",T,"	p.stats.completed.Add(1)\n","	if r.Err == nil || r.Err != r.Ctx.Err() {\n		p.stats.completed.Add(1)\n	}\n"),
("cancel-running","T08",T,"	p.stats.running.Add(-1)\n","	if r.Ctx.Err() == nil || r.Err == nil {\n		p.stats.running.Add(-1)\n	} else {\n		p.stats.running.CompareAndSwap(1, 0)\n	}\n"),
("ord-otel-refuse","T11",T,"		r.p.wg.Done()\n		r.wg.Done()\n		if spanner.IsRecording() {","		r.p.wg.Done()\n		r.wg.Done()\n		if spanner.IsRecording() && r.ordered == nil {"),
("dag-otel","T11",T,"		if r.seenStages.seen(stageName) {\n","		if r.seenStages.seen(stageName) {\n			stageSpan = span.Span{}\n"),
("otel-err-parent","T11",T,"		case ret.Ctx == stageCtx:\n","		case ret.Err != nil && ret.Ctx != stageCtx:\n		case ret.Ctx == stageCtx:\n"),
("dag-resub","T04",T,"	r.seenStages = nil // Can be set if the Request already went through Pipelines.\n	if p.ss {","	if p.ss && r.seenStages == nil {"),
("dag-err-reset","T04",T,"			seenStagesPool.Put(r.seenStages)\n","			if r.Err == nil {\n				seenStagesPool.Put(r.seenStages)\n			}\n"),
("pp-dag","T03,T04",T,"	for _, pp := range p.preProcessors {\n","	for i, pp := range p.preProcessors {\n		if i > 0 && r.seenStages != nil && len(*r.seenStages) > 3 {\n			break\n		}\n"),
("pp-otel","T03,T11",T,"	for _, pp := range p.preProcessors {\n		r = pp(r)\n","	for _, pp := range p.preProcessors {\n		r = pp(r)\n		if stageSpan.IsRecording() {\n			r.Ctx = stageCtx\n		}\n"),
("pp-next","T03",T,"		r = pp(r)\n","		if n := r.Next; n != nil {\n			stage = n\n		}\n		r = pp(r)\n"),
("ord-dag-num","T02",T,"		req.itemNum = r.itemNum.Load()\n","		req.itemNum = r.itemNum.Load()\n		if req.seenStages != nil {\n			req.itemNum = req.itemNum | 0\n		}\n"),
("close-delay","T06,T10",T,"	for r := range p.in {\n		r = r.otelStart()","	if tick != nil {\n		defer tick.Stop()\n	}\n	for r := range p.in {\n		if p.delayWarning != 0 && len(p.in) == 0 && r.Ctx.Err() != nil {\n			tick.Stop()\n		}\n		r = r.otelStart()"),
("wait-nm","W02,W03",W,"	if w.CancelOnErr != nil {\n		w.CancelOnErr()\n		w.CancelOnErr = nil\n	}\n	err := w.errors.Load()\n","	err := w.errors.Load()\n	if w.CancelOnErr != nil && (err != nil || w.Pool == nil) {\n		w.CancelOnErr()\n		w.CancelOnErr = nil\n	}\n"),
("wait-otel-ctx","W03,T11",W,"		ctx = trace.ContextWithSpan(ctx, w.span.Span)\n","		ctx = trace.ContextWithSpan(context.WithoutCancel(ctx), w.span.Span)\n"),
("wait-otel-ctx2","P01,W03,T11",W,"	t := time.Now().UTC()\n	if w.span.Span != nil {","	t := time.Now().UTC()\n	if w.span.Span != nil && w.span.IsRecording() && w.total.Load() < 2 {"),
("wait-nb-cancel","W03,W02",W,"	w.wg.Add(1)\n	w.Pool.Submit(","	if len(w.PoolOptions) > 0 && ctx.Err() != nil {\n		w.count.Add(-1)\n		return\n	}\n	w.wg.Add(1)\n	w.Pool.Submit("),
("wait-pool-deadline","W03",W,["		func(ctx context.Context) {\n			defer w.wg.Done()\n			defer w.count.Add(-1)\n\n			if ctx.Err() != nil {"],["		func(ctx context.Context) {\n			defer w.wg.Done()\n			defer w.count.Add(-1)\n\n			if d, ok := ctx.Deadline(); ok && time.Until(d) < time.Second {\n				applyErr(&w.errors, context.DeadlineExceeded)\n				return\n			}\n			if ctx.Err() != nil {"]),
("nb-cancelled","P01,P03",P,"	if opts.NonBlocking {\n		select {\n		case p.direct <- s:","	if opts.NonBlocking && ctx.Err() == nil {\n		select {\n		case p.direct <- s:"),
("nb-cancelled-l","P01,P03",L,"	if !opts.NonBlocking {\n		select {\n		case p.queue","	opts.NonBlocking = opts.NonBlocking && ctx.Err() == nil\n	if !opts.NonBlocking {\n		select {\n		case p.queue"),
("caller-nb","P03,P07",L,"		opt.Caller = name\n		return opt, nil","		return pool.SubmitOptions{Type: opt.Type, Caller: name}, nil"),
("caller-nb-p","P03,P07",P,"		opt.Caller = name\n		return opt, nil","		return pool.SubmitOptions{Type: opt.Type, Caller: name}, nil"),
("nil-opts","P07",L,"	if runner == nil {\n","	if runner == nil && len(options) == 0 {\n"),
("opt-after","P07",P,"	var err error\n	for _, o := range options {\n		opts, err = o(opts)\n		if err != nil {\n			spanner.Error(err)\n			return err\n		}\n	}\n","	var err error\n	for _, o := range options {\n		opts, err = o(opts)\n	}\n	if err != nil {\n		spanner.Error(err)\n		return err\n	}\n"),
("s-stop-pool","S02,S03",S,"	if opts.stopOnErr {\n","	if opts.stopOnErr && (opts.pool.Len() > 1 || len(opts.poolOptions) == 0) {\n"),
("s-stop-dup","S02",SO,"					t.stopOnErr = true\n","					t.stopOnErr = !t.stopOnErr\n"),
("c-stop-pool","C02",CO,"					t.poolOptions = options\n","					t.poolOptions = options\n					t.stopOnErr = false\n"),
("c-mod-poolnb","C03,C04",C,"	return Access(ctx, input, a, options...)","	return Access(ctx, input, a, append(options[:0:0], options[:min(len(options), 1)]...)...)"),
("c-ctx-parent","C03,C02",C,"		r, err := mod(ctx, v)\n","		r, err := mod(context.WithoutCancel(ctx), v)\n"),
("s-cause","S02",S,"	return stopErr\n","	if stopErr == context.DeadlineExceeded {\n		return nil\n	}\n	return stopErr\n"),
("c-cause","C02",C,"	return stopErr\n","	if stopErr == context.DeadlineExceeded {\n		return nil\n	}\n	return stopErr\n"),
("t-deadline","T07",T,"		return req.Ctx.Err()\n	case r.p.in <- req:","		if req.Ctx.Err() == context.DeadlineExceeded {\n			return nil\n		}\n		return req.Ctx.Err()\n	case r.p.in <- req:"),
("t-cyc-first","T04",T,"		if r.seenStages.seen(stageName) {\n","		if r.seenStages.seen(stageName) && len(*r.seenStages) > 1 {\n"),
("t-otel-data","T11",T,"	if err != nil {\n		j = []byte(fmt.Sprintf(\"Error marshaling data: %s\", err.Error()))\n	}\n	r.span.Event(\n		\"processing end\"","	if err != nil {\n		return\n	}\n	r.span.Event(\n		\"processing end\""),
("t-grp-otel","T09,T11",T,"	r.span.Event(\"RequestGroup finished\"","	if r.Name == \"\" {\n		r.span.End()\n		return\n	}\n	r.p.demuxMu.Lock()\n	r.p.demuxMu.Unlock()\n	r.span.Event(\"RequestGroup finished\""),
("t-close-unused","T09",T,"	r.wg.Wait()\n\n	r.otelEnd()\n","	r.wg.Wait()\n	if r.started.Load() == nil {\n		close(r.user)\n		return\n	}\n	r.otelEnd()\n"),
("t-started-nil","T09,T11",T,"	r.startOnce.Do(func() {\n","	if req.Ctx.Err() == nil {\n		r.started.Store(nil)\n	}\n	r.startOnce.Do(func() {\n"),
("t-refuse-first","T07,T09",T,"	// If the group isn't named, name it.\n","	if err := req.Ctx.Err(); err != nil && r.ordered != nil && r.itemNum.Load() == 0 {\n		r.itemNum.Add(1)\n		return err\n	}\n	// If the group isn't named, name it.\n"),
("a-panic-store","A02",A,"	r.mu.Lock()\n	defer r.mu.Unlock()\n\n	v := r.v.Load()","	r.mu.Lock()\n	defer func() {\n		if e := recover(); e != nil {\n			r.v.Store(nil)\n			r.mu.Unlock()\n			panic(e)\n		}\n		r.mu.Unlock()\n	}()\n\n	v := r.v.Load()"),
("a-err-first","A02",A,"		n, err = lr(zero)\n","		n, err = lr(zero)\n		r.v.Store(&n)\n"),
]
