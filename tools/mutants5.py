W="prim/wait/wait.go"; L="goroutines/limited/goroutines.go"; P="goroutines/pooled/goroutines.go"; R="goroutines/internal/register/register.go"
G="goroutines/goroutines.go"; A="prim/atomics/atomics.go"; S="prim/slices/slice.go"; C="prim/chans/chans.go"; T="pipelines/stagedpipe/stagedpipe.go"; TS="pipelines/stagedpipe/stats.go"; Q="pipelines/stagedpipe/internal/queue/queue.go"
M=[
("w-ctxdone","W01",W,"""	w.wg.Wait()

	if w.Can""","""	done := make(chan struct{})
	go func() { w.wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-ctx.Done():
		<-time.After(time.Second)
	}

	if w.Can"""),
("w-deadline","W01,W02",W,"""	w.wg.Wait()

	if w.Can""","""	done := make(chan struct{})
	go func() { w.wg.Wait(); close(done) }()
	if d, ok := ctx.Deadline(); ok && time.Until(d) > 0 {
		select {
		case <-done:
		case <-time.After(time.Until(d)):
		}
	} else {
		<-done
	}

	if w.Can"""),
("w-dedupe","W02",W,"""			joined := errors.Join(*existing, err)""","""			if (*existing).Error() == err.Error() {
				return
			}
			joined := errors.Join(*existing, err)"""),
("w-is","W02",W,"""			joined := errors.Join(*existing, err)""","""			if errors.Is(*existing, err) {
				return
			}
			joined := errors.Join(*existing, err)"""),
("w-eqpanic","W02",W,"""			switch err {
			case context.Canceled, context.DeadlineExceeded:
				return
			}""","""			if err == context.Canceled || err == context.DeadlineExceeded || *existing == err {
				return
			}"""),
("w-cap","W02",W,"""			joined := errors.Join(*existing, err)""","""			if j, ok := (*existing).(interface{ Unwrap() []error }); ok && len(j.Unwrap()) > 4 {
				return
			}
			joined := errors.Join(*existing, err)"""),
("w-cause","W03",W,"""			if ctx.Err() != nil {
				applyErr(&w.errors, ctx.Err())
				return
			}

			if err := f(ctx); err != nil {
				applyErr(&w.errors, err)
				if w.CancelOnErr != nil {
					w.CancelOnErr()
				}
			}
		}()""","""			if ctx.Err() != nil {
				applyErr(&w.errors, context.Cause(ctx))
				return
			}

			if err := f(ctx); err != nil {
				applyErr(&w.errors, err)
				if w.CancelOnErr != nil {
					w.CancelOnErr()
				}
			}
		}()"""),
("w-skiperr","W03",W,"""			if ctx.Err() != nil {
				applyErr(&w.errors, ctx.Err())
				return
			}

			if err := f(ctx); err != nil {
				applyErr(&w.errors, err)
				if w.CancelOnErr != nil {
					w.CancelOnErr()
				}
			}
		},""","""			if ctx.Err() != nil {
				applyErr(&w.errors, ctx.Err())
				return
			}
			if w.CancelOnErr != nil && w.errors.Load() != nil {
				return
			}

			if err := f(ctx); err != nil {
				applyErr(&w.errors, err)
				if w.CancelOnErr != nil {
					w.CancelOnErr()
				}
			}
		},"""),
("l-elastic","P02",L,"""			p.queue <- struct{}{}
		}
	}""","""			select {
			case p.queue <- struct{}{}:
			case <-time.After(time.Minute):
				opts.NonBlocking = true
			}
		}
	}"""),
("l-nbslot","P03,P02",L,"""	p.submitEvent(spanner, fcn, opts.NonBlocking, now)

	p.wg""","""	if opts.NonBlocking {
		select {
		case p.queue <- struct{}{}:
			opts.NonBlocking = false
		default:
		}
	}
	p.submitEvent(spanner, fcn, opts.NonBlocking, now)

	p.wg"""),
("l-cap64","P02,P05",L,"make(chan struct{}, size)}","make(chan struct{}, min(size, 64))}"),
("l-cap16","P02,P05",L,"make(chan struct{}, size)}","make(chan struct{}, min(size, 16))}"),
("p-cap16","P02,P05",P,"for i := 0; i < size; i++ {","for i := 0; i < min(size, 16); i++ {"),
("p-cap64","P02,P05",P,"for i := 0; i < size; i++ {","for i := 0; i < min(size, 64); i++ {"),
("l-valve64","P03",L,"""	if !opts.NonBlocking {
		select {""","""	if opts.NonBlocking && p.running.Load() >= 64 {
		opts.NonBlocking = false
	}
	if !opts.NonBlocking {
		select {"""),
("p-valve100","P03",P,"""	if opts.NonBlocking {
		select {""","""	if opts.NonBlocking && p.running.Load() < 100 {
		select {"""),
("p-closetimeout","P04",P,"""	p.wg.Wait()
	close(p.queue)""","""	done := make(chan struct{})
	go func() { p.wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
	}
	close(p.queue)"""),
("l-closetimeout","P04",L,"""	p.wg.Wait()
	close(p.queue)""","""	done := make(chan struct{})
	go func() { p.wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(time.Hour):
	}
	close(p.queue)"""),
("r-singledigit","P06",R,"""	n++
	return fmt.Sprintf("%s%d", sp[0], n)""","""	n = n%9 + 1
	return fmt.Sprintf("%s%d", sp[0], n)"""),
("r-digit2","P06",R,"""	n, err := strconv.Atoi(sp[1])""","""	n, err := strconv.Atoi(sp[1][:1])"""),
("r-int8","P06",R,"""	n++
	return fmt.Sprintf("%s%d", sp[0], n)""","""	n = int(int8(n + 1))
	return fmt.Sprintf("%s%d", sp[0], n)"""),
("r-fold","P06",R,"""	if _, ok := registry[name]; ok {
		return fmt.Errorf("name already taken")
	}""","""	for n := range registry {
		if strings.EqualFold(n, name) {
			return nil
		}
	}"""),
("r-buf16","R01",R,"make(chan goroutines.Pool, len(registry))","make(chan goroutines.Pool, max(16, len(registry)/2+1))"),
("e-dedupe","E01",G,"""	e.errors = append(e.errors, err)""","""	if len(e.errors) > 0 && e.errors[len(e.errors)-1] == err {
		return
	}
	e.errors = append(e.errors, err)"""),
("e-cap","E01",G,"""	e.errors = append(e.errors, err)""","""	if len(e.errors) >= 128 {
		e.errors = e.errors[1:]
	}
	e.errors = append(e.errors, err)"""),
("e-nil","E01",G,"""	e.errors = append(e.errors, err)""","""	if err == nil {
		return
	}
	e.errors = append(e.errors, err)"""),
("a-same","A01",A,"""	r.v.Store(&n)
	return nil""","""	if v != nil && any(*v) == any(n) {
		return nil
	}
	r.v.Store(&n)
	return nil"""),
("a-zero","A01,A02",A,"""	v := r.v.Load()
	var n T""","""	v := r.v.Load()
	if v != nil && any(*v) == nil {
		v = nil
	}
	if v == nil {
		r.v.Store(new(T))
	}
	var n T"""),
("c-skipnil","C01",C,"""		if !ok {
			break
		}

		wg""","""		if !ok {
			break
		}
		if any(v) == nil {
			continue
		}

		wg"""),
("s-skipnil","S01",S,"""		if stopErr = ctx.Err(); stopErr != nil {
			break
		}
""","""		if stopErr = ctx.Err(); stopErr != nil {
			break
		}
		if any(s[i]) == nil {
			continue
		}
"""),
("s-modonce","S01",S,"""				return access(ctx, i, s[i], func(v T) { modifier(s, i, v) })""","""				done := false
				return access(ctx, i, s[i], func(v T) {
					if !done {
						done = true
						modifier(s, i, v)
					}
				})"""),
("s-range","S01",S,"""		wg.Go(
			ctx,
			func(ctx context.Context) error {
				return access(ctx, i, s[i],""","""		v := s[i]
		wg.Go(
			ctx,
			func(ctx context.Context) error {
				return access(ctx, i, v,"""),
("s-modlate","S01",S,"""				return access(ctx, i, s[i], func(v T) { modifier(s, i, v) })""","""				n := s[i]
				err := access(ctx, i, s[i], func(v T) { n = v })
				modifier(s, i, n)
				return err"""),
("t-uint8","T01,T09",T,"""	id := p.requestGroupNum.Add(1)""","""	id := p.requestGroupNum.Add(1) & 0xff"""),
("t-itemwrap","T02",T,"""		req.itemNum = r.itemNum.Load()
""","""		req.itemNum = r.itemNum.Load() & 0x3ff
"""),
("t-hops","T03",T,"""	stage := p.sm.Start
	for {""","""	stage := p.sm.Start
	for n := 0; ; n++ {
		if n > 1000 {
			return r
		}"""),
("t-hops32","T03",T,"""	stage := p.sm.Start
	for {""","""	stage := p.sm.Start
	for n := 0; ; n++ {
		if n > 32 {
			r.Err = errors.New("too many stages")
			return r
		}"""),
("t-short","T04",T,"""		return strings.TrimSuffix(strings.TrimSuffix(runtime.FuncForPC(valueOf.Pointer()).Name(), "-fm"), "[...]")""","""		n := strings.TrimSuffix(strings.TrimSuffix(runtime.FuncForPC(valueOf.Pointer()).Name(), "-fm"), "[...]")
		return n[strings.LastIndex(n, ".")+1:]"""),
("t-seen8","T04",T,"""	n := append(*s, stage)
	*s = n""","""	n := append(*s, stage)
	if len(n) > 8 {
		n = n[1:]
	}
	*s = n"""),
("t-conccap","T05",T,"""	for i := 0; i < p.concurrency; i++ {
		go p.runner()""","""	for i := 0; i < min(p.concurrency, 8); i++ {
		go p.runner()"""),
("t-numcap","T05",T,"""	for i := 0; i < num; i++ {
		args""","""	for i := 0; i < min(num, 16); i++ {
		args"""),
("t-zerodur","T08",TS,"""		if v >= c {
			return
		}
		if (*current)""","""		if v >= c || v == 0 {
			return
		}
		if (*current)"""),
("t-avgint32","T08",T,"""	p.stats.avgTotal.Add(int64(runTime))""","""	p.stats.avgTotal.Add(int64(uint32(runTime)))"""),
("q-neg","Q01",Q,"""	if size > 0 {""","""	if size < 0 {
		size = 1
	}
	if size > 0 {"""),
("q-zero","Q01",Q,"""	if size > 0 {
		limit""","""	if size == 0 {
		size = 1024
	}
	if size > 0 {
		limit"""),
("q-sleep","Q01",Q,"""		if s > 10*time.Millisecond {
			s = 10 * time.Millisecond
		}""","""		if s > 10*time.Millisecond {
			return val, false
		}"""),
("t-tickonce","T10",T,"""					log.Printf("pipeline(%s) is having output delays exceeding %v", id, p.delayWarning)
					continue""","""					log.Printf("pipeline(%s) is having output delays exceeding %v", id, p.delayWarning)
					if time.Since(r.queueTime) > time.Hour {
						break
					}
					continue"""),
("t-subtimeout","T07,T01",T,"""	select {
	case <-req.Ctx.Done():
		r.p.wg.Done()""","""	tm := time.NewTimer(30 * time.Minute)
	defer tm.Stop()
	select {
	case <-tm.C:
		r.p.wg.Done()
		r.wg.Done()
		return context.DeadlineExceeded
	case <-req.Ctx.Done():
		r.p.wg.Done()"""),
("t-closetimeout","T06",T,"""		p.wg.Wait()
		close(p.out)""","""		done := make(chan struct{})
		go func() { p.wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(time.Hour):
		}
		close(p.out)"""),
("t-negdur","T08",TS,"""		if v <= c {
			return
		}
		if (*current)""","""		if v <= c || v > int64(time.Hour) {
			return
		}
		if (*current)"""),
("t-spanlimit","T11",T,"""	r.Event(stageName, "start", time.Now())""","""	if r.Err = r.Event(stageName, "start"); r.Err != nil {
		return r
	}"""),
]
