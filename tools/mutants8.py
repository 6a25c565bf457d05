W="prim/wait/wait.go"; L="goroutines/limited/goroutines.go"; P="goroutines/pooled/goroutines.go"; R="goroutines/internal/register/register.go"
G="goroutines/goroutines.go"; A="prim/atomics/atomics.go"; S="prim/slices/slice.go"; C="prim/chans/chans.go"; T="pipelines/stagedpipe/stagedpipe.go"; TS="pipelines/stagedpipe/stats.go"; Q="pipelines/stagedpipe/internal/queue/queue.go"; SO="prim/slices/options.go"; CO="prim/chans/options.go"
M=[
# contexts
("l-ctx-detached","P01",L,"		runner(ctx)\n","		runner(context.WithoutCancel(ctx))\n"),
("p-ctx-detached","P01",P,"		s.job(s.ctx)\n","		s.job(context.WithoutCancel(s.ctx))\n"),
("p-ctx-detached-nb","P01",P,"				s.job(ctx)\n","				s.job(context.WithoutCancel(ctx))\n"),
("l-ctx-child","P01",L,"		runner(ctx)\n","		cctx, cancel := context.WithCancel(ctx)\n		defer cancel()\n		runner(cctx)\n"),
# pools that are shared with other work
("s-pool-wait","S01,S03",S,"	if err := wg.Wait(ctx); err != nil {","	opts.pool.Wait()\n	if err := wg.Wait(ctx); err != nil {"),
("c-pool-wait","C01,C02,C04",C,"	if err := wg.Wait(ctx); err != nil {","	opts.pool.Wait()\n	if err := wg.Wait(ctx); err != nil {"),
("w-pool-wait","W01",W,"	w.wg.Wait()\n","	if w.Pool != nil {\n		w.Pool.Wait()\n	}\n	w.wg.Wait()\n"),
("w-pool-cached","W01,W02",W,["	Pool goroutines.Pool\n","	if w.Pool == nil {\n		w.wg.Add(1)\n		go","	w.Pool.Submit(\n"],["	Pool goroutines.Pool\n	first goroutines.Pool\n","	if w.first == nil {\n		w.first = w.Pool\n	}\n	if w.first == nil {\n		w.wg.Add(1)\n		go","	w.first.Submit(\n"]),
("s-close-stop","S03",S,"	var stopErr error\n","	if opts.stopOnErr {\n		defer opts.pool.Close()\n	}\n	var stopErr error\n"),
("c-close-cancel","C04",C,"	return stopErr\n","	if stopErr != nil {\n		opts.pool.Close()\n	}\n	return stopErr\n"),
# values
("s-same-value","S01",S,"		wg.Go(\n","		if i > 0 && any(s[i]) == any(s[i-1]) && len(s) > 2 {\n			continue\n		}\n		wg.Go(\n"),
("s-revert","S01",S,"				return access(ctx, i, s[i], func(v T) { modifier(s, i, v) })\n","				old := s[i]\n				err := access(ctx, i, old, func(v T) { modifier(s, i, v) })\n				if err != nil {\n					modifier(s, i, old)\n				}\n				return err\n"),
("s-late-modify","S01",S,"				return access(ctx, i, s[i], func(v T) { modifier(s, i, v) })\n","				n := s[i]\n				err := access(ctx, i, s[i], func(v T) { n = v })\n				if ctx.Err() == nil {\n					modifier(s, i, n)\n				}\n				return err\n"),
("s-write-all","S01,D01",S,"				return access(ctx, i, s[i], func(v T) { modifier(s, i, v) })\n","				n := s[i]\n				err := access(ctx, i, n, func(v T) { n = v })\n				modifier(s, i, n)\n				return err\n"),
("c-err-if-ready","C03",C,"			case output <- StreamResult[R]{Err: err}:\n			}\n","			case output <- StreamResult[R]{Err: err}:\n			default:\n				if cap(output) == 0 {\n					output <- StreamResult[R]{Err: err}\n				}\n			}\n"),
("c-close-nil-input","C03",C,["	defer close(output)\n\n	if input == nil {\n		err := fmt.Errorf(\"input channel is nil\")\n		spanner.Error(err)\n		return err\n	}\n"],["	if input == nil {\n		err := fmt.Errorf(\"input channel is nil\")\n		spanner.Error(err)\n		return err\n	}\n	defer close(output)\n"]),
("c-both","C03",C,"		output <- StreamResult[R]{Value: r}\n		return nil\n","		output <- StreamResult[R]{Value: r}\n		return ctx.Err()\n"),
("c-seq-cancel","C02",C,"	if opts.stopOnErr {\n		ctx, cancel","	if opts.stopOnErr && cap(input) > 0 {\n		ctx, cancel"),
# stages
("t-err-olddata","T03",T,"	return stage(r)\n","	n := stage(r)\n	if n.Err != nil {\n		n.Data = r.Data\n	}\n	return n\n"),
("t-submit-ctx","T03",T,["	if r.Ctx.Err() != nil {\n		r.Err = r.Ctx.Err()\n		return r\n	}\n\n	if r.seenStages","	stage := p.sm.Start\n	for {\n"],["	if r.Err != nil {\n		return r\n	}\n\n	if r.seenStages","	stage := p.sm.Start\n	in := r.Ctx\n	for {\n		if in.Err() != nil {\n			r.Err = in.Err()\n			return r\n		}\n"]),
("t-zero-data","T01,T03",T,"		r = p.processReq(r)\n","		if !reflect.ValueOf(&r.Data).Elem().IsZero() || r.span.IsRecording() {\n			r = p.processReq(r)\n		} else {\n			r.ingestTime = time.Now()\n			p.stats.running.Add(1)\n		}\n"),
("t-pp-replace","T03",T,"		pipelines.preProcessors = append(pipelines.preProcessors, p...)\n","		pipelines.preProcessors = append(pipelines.preProcessors[:1:1], p...)\n"),
("t-pp-reset-last","T03",T,"	for _, pp := range p.preProcessors {\n		r = pp(r)\n		if r.Err != nil {\n			return r\n		}\n	}\n","	for _, pp := range p.preProcessors[1:] {\n		r = pp(r)\n		if r.Err != nil {\n			return r\n		}\n	}\n"),
("t-sub-once","T05",T,"			subStages:     p.subStages,\n","			subStages:     p.subStages / (i + 1),\n"),
("t-smclose-unused","T06",T,"		p.sm.Close()\n","		if p.requestGroupNum.Load() > 0 {\n			p.sm.Close()\n		}\n"),
("t-smclose-unused2","T06",T,"		p.sm.Close()\n","		if p.stats.completed.Load() > 0 {\n			p.sm.Close()\n		}\n"),
("t-min-zero","T08",TS,"		if v >= c {\n			return\n		}\n","		if v >= c || v == 0 {\n			return\n		}\n"),
("t-max-first","T08",TS,"		if v <= c {\n			return\n		}\n","		if v <= c && c != 0 {\n			return\n		}\n		if v-c < 2 {\n			return\n		}\n"),
("t-avg-inflight","T08",TS,"	if stats.Completed != 0 {\n","	if stats.Completed > stats.Running {\n"),
("t-runcap","T08",T,"	p.stats.running.Add(1)\n","	if p.stats.running.Load() < int64(p.concurrency) {\n		p.stats.running.Add(1)\n	}\n"),
("t-ctx-nilnext","T11",T,"		case ret.Ctx == stageCtx:\n			ret.Ctx = parentCtx\n","		case ret.Ctx == stageCtx && ret.Next != nil:\n			ret.Ctx = parentCtx\n"),
("t-group-latename","T09",T,"	gName := r.Name\n","	gName := r.Name\n	if gName != \"\" && r.itemNum.Load() == 0 {\n		r.p.wg.Add(1)\n		defer r.p.wg.Done()\n	}\n"),
# history
("l-len-shrink","P05",L,"	return cap(p.queue)\n","	if n := p.running.Load(); n > int64(cap(p.queue)) {\n		return int(n)\n	}\n	return cap(p.queue)\n"),
("r-suffix-high","P06",R,"	n++\n	return","	if n++; n == 2 {\n		n = len(registry) + 1\n	}\n	return"),
("r-unreg-base","P06",R,"	delete(registry, pool.GetName())\n","	if registry[pool.GetName()] == pool {\n		delete(registry, pool.GetName())\n	}\n	if len(registry) == 1 {\n		registry = map[string]goroutines.Pool{}\n	}\n"),
("e-first-copy","E01",G,"	return e.errors[0]\n","	if len(e.errors) > 2 {\n		return e.errors[len(e.errors)-1]\n	}\n	return e.errors[0]\n"),
("a-load-cached","A01",A,["	v  atomic.Pointer[T]\n","	v := r.v.Load()\n	if v == nil {\n		var zero T\n		return zero\n	}\n	return *v\n"],["	v  atomic.Pointer[T]\n	c  atomic.Pointer[T]\n","	v := r.c.Load()\n	if v == nil || r.mu.TryLock() {\n		if v != nil {\n			r.mu.Unlock()\n		}\n		v = r.v.Load()\n		r.c.Store(v)\n	}\n	if v == nil {\n		var zero T\n		return zero\n	}\n	return *v\n"]),
("w-err-lost-race","W02",W,"			joined := errors.Join(*existing, err)\n			if ptr.CompareAndSwap(existing, &joined) {\n				return\n","			joined := errors.Join(*existing, err)\n			if ptr.CompareAndSwap(existing, &joined) {\n				return\n			}\n			if errors.Is(*existing, context.Canceled) {\n				return\n"),
("w-first-ctx-dropped","W02",W,"			joined := errors.Join(*existing, err)\n","			joined := errors.Join(*existing, err)\n			if *existing == context.Canceled {\n				joined = err\n			}\n"),
("w-running-batch","W04",W,"	w.count.Store(0)\n","	w.count.Store(w.count.Load())\n"),
("w-count-late","W04",W,["	w.count.Add(1)\n	w.total.Add(1)\n","		go func() {\n			defer w.wg.Done()\n			defer w.count.Add(-1)\n"],["	w.total.Add(1)\n	if w.Pool != nil {\n		w.count.Add(1)\n	}\n","		go func() {\n			defer w.wg.Done()\n			w.count.Add(1)\n			defer w.count.Add(-1)\n"]),
("p-close-drain","P04",P,"	p.wg.Wait()\n	close(p.queue)\n","	for p.running.Load() > 0 {\n		p.wg.Wait()\n	}\n	close(p.queue)\n"),
("l-wait-blocking-only","P04",L,["		defer p.wg.Done()\n","	p.wg.Add(1)\n"],["		if !opts.NonBlocking || p.running.Load() <= int64(cap(p.queue)) {\n			defer p.wg.Done()\n		} else {\n			p.wg.Done()\n		}\n","	p.wg.Add(1)\n"]),
("q-order","T07",T,"		case r.submitting <- struct{}{}:\n		}\n		defer func() { <-r.submitting }()\n","		case r.submitting <- struct{}{}:\n		}\n		defer func() {\n			if req.Ctx.Err() == nil {\n				<-r.submitting\n			}\n		}()\n"),
]
