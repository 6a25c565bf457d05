W="prim/wait/wait.go"; L="goroutines/limited/goroutines.go"; P="goroutines/pooled/goroutines.go"; R="goroutines/internal/register/register.go"
G="goroutines/goroutines.go"; A="prim/atomics/atomics.go"; S="prim/slices/slice.go"; C="prim/chans/chans.go"; T="pipelines/stagedpipe/stagedpipe.go"; TS="pipelines/stagedpipe/stats.go"; Q="pipelines/stagedpipe/internal/queue/queue.go"
M=[
("w-keeperr","W02",W,"	w.errors.Store(nil)\n","	if w.CancelOnErr == nil {\n		w.errors.Store(nil)\n	}\n"),
("w-gocancel","W03",W,["""			if err := f(ctx); err != nil {
				applyErr(&w.errors, err)
				if w.CancelOnErr != nil {
					w.CancelOnErr()
				}
			}
		}()"""],["""			if err := f(ctx); err != nil {
				applyErr(&w.errors, err)
				if w.CancelOnErr != nil {
					go w.CancelOnErr()
				}
			}
		}()"""]),
("w-cancelbefore","W03,W02",W,["""			if err := f(ctx); err != nil {
				applyErr(&w.errors, err)
				if w.CancelOnErr != nil {
					w.CancelOnErr()
				}
			}
		}()"""],["""			if err := f(ctx); err != nil {
				if w.CancelOnErr != nil {
					w.CancelOnErr()
				}
				applyErr(&w.errors, err)
			}
		}()"""]),
("w-opts1","S03,P03,W01,C04",W,"		w.PoolOptions...,\n","		w.PoolOptions[:min(1, len(w.PoolOptions))]...,\n"),
("w-optslast","S03,C04",W,"		w.PoolOptions...,\n","		w.PoolOptions[max(0, len(w.PoolOptions)-1):]...,\n"),
("w-onceotel","T11",W,"	w.otelOnce = sync.Once{}\n",""),
("w-resetfirst","W01,W04",W,["	defer w.reset()\n\n	if w.Name == \"\"","	err := w.errors.Load()\n	if err != nil {"],["	if w.Name == \"\"","	err := w.errors.Load()\n	w.reset()\n	if err != nil {"]),
("w-noreset-cancel","W03",W,["	w.CancelOnErr = nil\n}","		w.CancelOnErr()\n		w.CancelOnErr = nil\n"],["}","		w.CancelOnErr()\n		if w.errors.Load() != nil {\n			w.CancelOnErr = nil\n		}\n"]),
("w-waitcount","W01",W,"	w.wg.Wait()\n\n	if w.Can","	for w.count.Load() > 0 {\n		time.Sleep(time.Microsecond)\n	}\n\n	if w.Can"),
("w-skipcount","W01,W04",W,"""	w.wg.Wait()

	if w.Can""","""	if w.count.Load() > 0 {
		w.wg.Wait()
	}

	if w.Can"""),
("p-retire","P01,P02",P,["	for {\n		var s submit"],["	for n := 0; n < 250; n++ {\n		var s submit"]),
("p-retire1000","P01,P02",P,["	for {\n		var s submit"],["	for n := 0; n < 1000; n++ {\n		var s submit"]),
("p-directbuf","P03",P,"direct: make(chan submit)","direct: make(chan submit, 1)"),
("p-addlate","P04,P05",P,["	p.wg.Add(1)\n	p.running.Add(1)\n	if opts.NonBlocking {","	p.submitEvent(spanner, fcn, opts.NonBlocking, now)\n	return nil\n}"],["	p.running.Add(1)\n	if opts.NonBlocking {\n		p.wg.Add(1)","	p.wg.Add(1)\n	p.submitEvent(spanner, fcn, opts.NonBlocking, now)\n	return nil\n}"]),
("l-addlate","P04,P05",L,["	p.wg.Add(1)\n	p.running.Add(1)\n\n	go func() {\n"],["	p.running.Add(1)\n\n	go func() {\n		p.wg.Add(1)\n"]),
("l-waitpoll","P04",L,["func (p *Pool) Wait() {\n	p.wg.Wait()"],["func (p *Pool) Wait() {\n	for p.running.Load() > 0 {\n		time.Sleep(time.Millisecond)\n	}"]),
("l-runningcap","P05",L,"	return int(p.running.Load())","	return min(int(p.running.Load()), cap(p.queue)*4)"),
("p-runsize","P05",P,"	return int(p.running.Load())","	return min(int(p.running.Load()), p.size)"),
("e-fullslice","E01",G,"	return append([]error(nil), e.errors...)","	return e.errors[:len(e.errors):len(e.errors)]"),
("s-inline1","S03",S,"	var cancel = func() {}\n	if opts.stop","	if len(s) == 1 && ctx.Err() == nil && !opts.stopOnErr {\n		return access(ctx, 0, s[0], func(v T) { modifier(s, 0, v) })\n	}\n	var cancel = func() {}\n	if opts.stop"),
("s-inlinelast","S03,S01",S,"		wg.Go(\n			ctx,","		if i == len(s)-1 && i > 0 && len(opts.poolOptions) == 0 && ctx.Err() == nil && opts.pool.Running() >= opts.pool.Len() {\n			if err := access(ctx, i, s[i], func(v T) { modifier(s, i, v) }); err != nil {\n				cancel()\n				stopErr = err\n			}\n			break\n		}\n		wg.Go(\n			ctx,"),
("s-chunk","S01,S02,S03",S,"		wg.Go(\n			ctx,","		if i > 0 && i%opts.pool.Len() == 0 {\n			if err := wg.Wait(ctx); err != nil {\n				spanner.Error(err)\n				if opts.stopOnErr {\n					return err\n				}\n				stopErr = err\n			}\n			wg.CancelOnErr = cancel\n		}\n		wg.Go(\n			ctx,"),
("s-supplied","S03",S,"	if opts.pool == nil {","	if opts.pool == nil || opts.pool.Len() > len(s) && len(opts.poolOptions) == 0 {"),
("c-plainerr","C02,C03",C,"""			select {
			case <-ctx.Done():
				return ctx.Err()
			case output <- StreamResult[R]{Err: err}:
			}
			return err""","""			output <- StreamResult[R]{Err: err}
			return err"""),
("c-ctxerr","C02,C03",C,"""			case <-ctx.Done():
				return ctx.Err()
			case output <- StreamResult[R]{Err: err}:""","""			case <-ctx.Done():
				return nil
			case output <- StreamResult[R]{Err: err}:"""),
("c-errnoret","C03",C,"""			case output <- StreamResult[R]{Err: err}:
			}
			return err""","""			case output <- StreamResult[R]{Err: err}:
			}
			if opts := len(options); opts > 0 {
				return err
			}
			return nil"""),
("c-valsel","C03",C,["		output <- StreamResult[R]{Value: r}\n","	\"runtime\"\n"],["		select {\n		case output <- StreamResult[R]{Value: r}:\n		case <-time.After(time.Minute):\n			return fmt.Errorf(\"output is stuck\")\n		}\n","	\"runtime\"\n	\"time\"\n"]),
("c-drop","C03",C,"		output <- StreamResult[R]{Value: r}\n","		select {\n		case output <- StreamResult[R]{Value: r}:\n		case <-ctx.Done():\n		}\n"),
("c-prefetch","C01,C02",C,"""		wg.Go(
			ctx,
			func(ctx context.Context) error {
				return access(
					ctx,
					v,
				)""","""		wg.Go(
			ctx,
			func(ctx context.Context) error {
				select {
				case w, ok := <-input:
					if ok {
						if err := access(ctx, w); err != nil {
							return err
						}
					}
				default:
				}
				return access(
					ctx,
					v,
				)"""),
("t-pwg-late","T06,T01",T,["	r.p.wg.Add(1)\n	// This tracks","	case r.p.in <- req:\n	}","		r.p.wg.Done()\n		r.wg.Done()\n		if spanner"],["	// This tracks","	case r.p.in <- req:\n		r.p.wg.Add(1)\n	}","		r.wg.Done()\n		if spanner"]),
("t-gwg-late","T01,T09",T,["	r.wg.Add(1)\n\n	// Create","	case r.p.in <- req:\n	}","		r.p.wg.Done()\n		r.wg.Done()\n		if spanner"],["\n	// Create","	case r.p.in <- req:\n		r.wg.Add(1)\n	}","		r.p.wg.Done()\n		if spanner"]),
("t-done-first","T06",T,"""		r = p.processReq(r)
		p.calcExitStats(r)
		if""","""		r = p.processReq(r)
		if p.delayWarning == 0 && r.Err != nil {
			p.out <- r
			p.calcExitStats(r)
			continue
		}
		p.calcExitStats(r)
		if"""),
("t-pp-once","T03",T,"	for _, pp := range p.preProcessors {\n","	for i, pp := range p.preProcessors {\n		if i > 2 && len(p.preProcessors) > 3 && stageName != p.startName {\n			break\n		}\n"),
("t-next-err","T03",T,"""		if r.Err != nil {
			return r
		}
		stage = r.Next
		r.Next = nil
""","""		stage = r.Next
		r.Next = nil
		if r.Err != nil {
			return r
		}
"""),
("t-ordclose","T02,T01",T,"			defer r.ordered.Close()\n","			defer func() { go r.ordered.Close() }()\n"),
("t-groupspan","T11",T,"	r.wg.Wait()\n\n	r.otelEnd()\n","	r.otelEnd()\n	r.wg.Wait()\n\n"),
("t-closenowait","T01,T09",T,"	r.wg.Wait()\n\n	r.otelEnd()\n","	if r.started.Load() != nil {\n		r.wg.Wait()\n	}\n\n	r.otelEnd()\n"),
("t-started","T01,T09",T,["	r.wg.Wait()\n\n	r.otelEnd()\n","		r.started.CompareAndSwap(nil, &t)\n","	if r.ordered != nil {\n		r.itemNum.Add(1)\n	}\n"],["	if r.started.Load() != nil {\n		r.wg.Wait()\n	}\n\n	r.otelEnd()\n","		_ = t\n","	if r.ordered != nil {\n		r.itemNum.Add(1)\n	}\n	t := time.Now()\n	r.started.CompareAndSwap(nil, &t)\n"]),
("t-stats-inflight","T08",T,"	p.stats.running.Add(1)\n","	if r.Ctx.Err() == nil {\n		p.stats.running.Add(1)\n	}\n"),
("t-delayneg","T10",T,"		if d < 0 {","		if d < -time.Hour {"),
("t-sub-cap","T05",T,"			pipelines.subStages += numStages[T](obj)","			pipelines.subStages = max(pipelines.subStages, numStages[T](obj))"),
("t-lateopt","T05,T04",T,"	for _, o := range options {\n		if err := o(p); err != nil {\n			return nil, err\n		}\n	}\n","	for i, o := range options {\n		if i > 3 {\n			break\n		}\n		if err := o(p); err != nil {\n			return nil, err\n		}\n	}\n"),
("q-lenient","Q01",Q,"		q.limit <- struct{}{}\n	}\n	q.queue.push(a)","		select {\n		case q.limit <- struct{}{}:\n		case <-time.After(10 * time.Second):\n		}\n	}\n	q.queue.push(a)"),
("q-closedrop","Q01",Q,"			// A value may have been pushed between our pop() and Close().\n			return q.queue.pop()","			return val, false"),
]
