From 6f904d507c34122951b55d6566933fc101d77f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 01/26] fix: goroutines.Errors: lock the accessors and return a
 copy

---
 goroutines/goroutines.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/goroutines/goroutines.go b/goroutines/goroutines.go
index adf37ea..ef777cf 100644
--- a/goroutines/goroutines.go
+++ b/goroutines/goroutines.go
@@ -182,6 +182,9 @@ func (e *Errors) Record(err error) {
 
 // Error returns the first error recieved.
 func (e *Errors) Error() error {
+	e.mu.Lock()
+	defer e.mu.Unlock()
+
 	if len(e.errors) == 0 {
 		return nil
 	}
@@ -190,5 +193,8 @@ func (e *Errors) Error() error {
 
 // Errors returns all errors.
 func (e *Errors) Errors() []error {
-	return e.errors
+	e.mu.Lock()
+	defer e.mu.Unlock()
+
+	return append([]error(nil), e.errors...)
 }
-- 
2.43.0


From dbe9e7ebd43e3b45f9f934094369beba34809683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 02/26] fix: pools: creating a third pool with the same name
 looped for ever

---
 goroutines/internal/register/register.go | 2 +-
 goroutines/limited/goroutines.go         | 2 +-
 goroutines/pooled/goroutines.go          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/goroutines/internal/register/register.go b/goroutines/internal/register/register.go
index 98d57cc..e570dd1 100644
--- a/goroutines/internal/register/register.go
+++ b/goroutines/internal/register/register.go
@@ -67,7 +67,7 @@ func NewName(name string) string {
 	}
 
 	n++
-	return fmt.Sprintf("%s-%d", sp[0], n)
+	return fmt.Sprintf("%s%d", sp[0], n) // sp[0] ends with the hyphen
 }
 
 // Pools returns all pools registered by this package. Order is non-deterministic.
diff --git a/goroutines/limited/goroutines.go b/goroutines/limited/goroutines.go
index 33304df..be1531d 100644
--- a/goroutines/limited/goroutines.go
+++ b/goroutines/limited/goroutines.go
@@ -54,7 +54,7 @@ func New(name string, size int) (*Pool, error) {
 
 	for {
 		if err := register.Register(p); err != nil {
-			p.name = register.NewName(name)
+			p.name = register.NewName(p.name)
 			continue
 		}
 		break
diff --git a/goroutines/pooled/goroutines.go b/goroutines/pooled/goroutines.go
index c9752f5..0535e6d 100644
--- a/goroutines/pooled/goroutines.go
+++ b/goroutines/pooled/goroutines.go
@@ -55,7 +55,7 @@ func New(name string, size int) (*Pool, error) {
 
 	for {
 		if err := register.Register(p); err != nil {
-			p.name = register.NewName(name)
+			p.name = register.NewName(p.name)
 			continue
 		}
 		break
-- 
2.43.0


From 5df5d9989371f1dfe2ae04ebc4cb2ff4e5c82ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 03/26] fix: register.Pools: close the channel and do not hold
 the lock while sending

---
 goroutines/internal/register/register.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/goroutines/internal/register/register.go b/goroutines/internal/register/register.go
index e570dd1..8818927 100644
--- a/goroutines/internal/register/register.go
+++ b/goroutines/internal/register/register.go
@@ -72,13 +72,15 @@ func NewName(name string) string {
 
 // Pools returns all pools registered by this package. Order is non-deterministic.
 func Pools() chan goroutines.Pool {
-	ch := make(chan goroutines.Pool, 1)
-	go func() {
-		mu.RLock()
-		defer mu.RUnlock()
-		for _, p := range registry {
-			ch <- p
-		}
-	}()
+	mu.RLock()
+	defer mu.RUnlock()
+
+	// The channel holds all the pools, so that neither the lock nor a goroutine is
+	// kept until the caller has received everything.
+	ch := make(chan goroutines.Pool, len(registry))
+	for _, p := range registry {
+		ch <- p
+	}
+	close(ch)
 	return ch
 }
-- 
2.43.0


From c33604b37799b34719c498f52c4698328ea9c6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 04/26] fix: limited.Pool: hold the slot until the job ends, so
 that the limit is enforced

---
 goroutines/limited/goroutines.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/goroutines/limited/goroutines.go b/goroutines/limited/goroutines.go
index be1531d..3736141 100644
--- a/goroutines/limited/goroutines.go
+++ b/goroutines/limited/goroutines.go
@@ -151,7 +151,6 @@ func (p *Pool) Submit(ctx context.Context, runner goroutines.Job, options ...gor
 			p.blockEvent(spanner, fcn, now)
 			p.queue <- struct{}{}
 		}
-		defer func() { <-p.queue }()
 	}
 	p.submitEvent(spanner, fcn, opts.NonBlocking, now)
 
@@ -160,6 +159,9 @@ func (p *Pool) Submit(ctx context.Context, runner goroutines.Job, options ...gor
 
 	go func() {
 		defer p.wg.Done()
+		if !opts.NonBlocking {
+			defer func() { <-p.queue }()
+		}
 		defer p.running.Add(-1)
 		runner(ctx)
 	}()
-- 
2.43.0


From 7c3dc946aedfe47a18c2fbca786f983da841d7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 05/26] fix: pools: Len returned the number of queued jobs
 instead of the size

---
 goroutines/limited/goroutines.go | 2 +-
 goroutines/pooled/goroutines.go  | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/goroutines/limited/goroutines.go b/goroutines/limited/goroutines.go
index 3736141..54b48cf 100644
--- a/goroutines/limited/goroutines.go
+++ b/goroutines/limited/goroutines.go
@@ -77,7 +77,7 @@ func (p *Pool) Wait() {
 
 // Len returns the current size of the pool.
 func (p *Pool) Len() int {
-	return len(p.queue)
+	return cap(p.queue)
 }
 
 // Running returns the number of running jobs in the pool.
diff --git a/goroutines/pooled/goroutines.go b/goroutines/pooled/goroutines.go
index 0535e6d..8080e14 100644
--- a/goroutines/pooled/goroutines.go
+++ b/goroutines/pooled/goroutines.go
@@ -30,6 +30,7 @@ type Pool struct {
 	pool.Pool // Implements the pool.Preventer interface
 	queue     chan submit
 	name      string
+	size      int
 }
 
 // New creates a new Pool. "name" is the name of the pool which is used to get OTEL
@@ -48,7 +49,7 @@ func New(name string, size int) (*Pool, error) {
 	}
 
 	ch := make(chan submit, 1)
-	p := &Pool{name: name, queue: ch}
+	p := &Pool{name: name, queue: ch, size: size}
 	for i := 0; i < size; i++ {
 		go p.runner()
 	}
@@ -78,7 +79,7 @@ func (p *Pool) Wait() {
 
 // Len returns the current size of the pool.
 func (p *Pool) Len() int {
-	return len(p.queue)
+	return p.size
 }
 
 // Running returns the number of running jobs in the pool.
-- 
2.43.0


From b34bea587a7d687518cdd2ce386bf9dad3ffcb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 06/26] fix: pooled.Pool: a non-blocking job must not queue
 behind busy goroutines

---
 goroutines/pooled/goroutines.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/goroutines/pooled/goroutines.go b/goroutines/pooled/goroutines.go
index 8080e14..dec7477 100644
--- a/goroutines/pooled/goroutines.go
+++ b/goroutines/pooled/goroutines.go
@@ -29,8 +29,10 @@ type Pool struct {
 	metrics   pool.Metrics
 	pool.Pool // Implements the pool.Preventer interface
 	queue     chan submit
-	name      string
-	size      int
+	// direct hands a non-blocking job to a goroutine that is idle at that moment.
+	direct chan submit
+	name   string
+	size   int
 }
 
 // New creates a new Pool. "name" is the name of the pool which is used to get OTEL
@@ -49,7 +51,7 @@ func New(name string, size int) (*Pool, error) {
 	}
 
 	ch := make(chan submit, 1)
-	p := &Pool{name: name, queue: ch, size: size}
+	p := &Pool{name: name, queue: ch, direct: make(chan submit), size: size}
 	for i := 0; i < size; i++ {
 		go p.runner()
 	}
@@ -156,7 +158,7 @@ func (p *Pool) Submit(ctx context.Context, runner goroutines.Job, options ...gor
 	p.running.Add(1)
 	if opts.NonBlocking {
 		select {
-		case p.queue <- s:
+		case p.direct <- s:
 		default:
 			go func() {
 				defer p.wg.Done()
@@ -202,7 +204,16 @@ func (p *Pool) blockEvent(spanner span.Span, fcn string, t time.Time) {
 
 // runner is used to run any function that comes in on the in channel.
 func (p *Pool) runner() {
-	for s := range p.queue {
+	for {
+		var s submit
+		var ok bool
+		select {
+		case s, ok = <-p.queue:
+			if !ok {
+				return
+			}
+		case s = <-p.direct:
+		}
 		s.job(s.ctx)
 		p.running.Add(-1)
 		p.wg.Done()
-- 
2.43.0


From 191f108455c6ac705107899c7a1a3470e6b1d58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 07/26] fix: RWValue.LoadReplace: do not dereference an unset
 value

---
 prim/atomics/atomics.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/prim/atomics/atomics.go b/prim/atomics/atomics.go
index 6aa6fb7..db2b6a3 100644
--- a/prim/atomics/atomics.go
+++ b/prim/atomics/atomics.go
@@ -53,11 +53,9 @@ func (r *RWValue[T]) LoadReplace(lr LoadReplacer[T]) error {
 	if v == nil {
 		var zero T
 		n, err = lr(zero)
-		if err != nil {
-			return err
-		}
+	} else {
+		n, err = lr(*v)
 	}
-	n, err = lr(*v)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 7937dc43ac8e0d2f61b8e5ae297cb822459f9f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 08/26] fix: wait.Group: keep every error instead of only the
 last one

---
 prim/wait/wait.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prim/wait/wait.go b/prim/wait/wait.go
index 4706077..dcb25db 100644
--- a/prim/wait/wait.go
+++ b/prim/wait/wait.go
@@ -25,6 +25,7 @@ package wait
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"sync"
 	"sync/atomic"
@@ -250,8 +251,8 @@ func applyErr(ptr *atomic.Pointer[error], err error) {
 			case context.Canceled, context.DeadlineExceeded:
 				return
 			}
-			err = fmt.Errorf("%w", err)
-			if ptr.CompareAndSwap(existing, &err) {
+			joined := errors.Join(*existing, err)
+			if ptr.CompareAndSwap(existing, &joined) {
 				return
 			}
 		}
-- 
2.43.0


From fdd0c73484b33f8a0c59f60abbf4ae74e23b9936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 09/26] fix: wait.Group: Running could become negative after
 Wait

---
 prim/wait/wait.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prim/wait/wait.go b/prim/wait/wait.go
index dcb25db..a2d1d92 100644
--- a/prim/wait/wait.go
+++ b/prim/wait/wait.go
@@ -124,8 +124,8 @@ func (w *Group) Go(ctx context.Context, f FuncCall) {
 	if w.Pool == nil {
 		w.wg.Add(1)
 		go func() {
-			defer w.count.Add(-1)
 			defer w.wg.Done()
+			defer w.count.Add(-1)
 
 			if ctx.Err() != nil {
 				applyErr(&w.errors, ctx.Err())
@@ -146,8 +146,8 @@ func (w *Group) Go(ctx context.Context, f FuncCall) {
 	w.Pool.Submit(
 		ctx,
 		func(ctx context.Context) {
-			defer w.count.Add(-1)
 			defer w.wg.Done()
+			defer w.count.Add(-1)
 
 			if ctx.Err() != nil {
 				applyErr(&w.errors, ctx.Err())
-- 
2.43.0


From a1baca6dc3db425e9834088bb53191b89c824816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 10/26] fix: slices,chans: WithPoolOptions ignored the pool

---
 prim/chans/options.go  | 1 +
 prim/slices/options.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/prim/chans/options.go b/prim/chans/options.go
index f5c54ed..05d97a0 100644
--- a/prim/chans/options.go
+++ b/prim/chans/options.go
@@ -46,6 +46,7 @@ func WithPoolOptions(pool goroutines.Pool, options ...goroutines.SubmitOption) i
 			func(a any) error {
 				switch t := a.(type) {
 				case *chanOptions:
+					t.pool = pool
 					t.poolOptions = options
 					return nil
 				}
diff --git a/prim/slices/options.go b/prim/slices/options.go
index 7c5baad..62ebc1a 100644
--- a/prim/slices/options.go
+++ b/prim/slices/options.go
@@ -49,6 +49,7 @@ func WithPoolOptions(pool goroutines.Pool, options ...goroutines.SubmitOption) i
 			func(a any) error {
 				switch t := a.(type) {
 				case *sliceOptions:
+					t.pool = pool
 					t.poolOptions = options
 					return nil
 				}
-- 
2.43.0


From 1864eff1e856f96cc2f84b83d7f2a154941b583a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 11/26] fix: slices.Access: every option was refused

---
 prim/slices/slice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prim/slices/slice.go b/prim/slices/slice.go
index dcefbe9..8d9cfa9 100644
--- a/prim/slices/slice.go
+++ b/prim/slices/slice.go
@@ -45,7 +45,7 @@ func Access[T any](ctx context.Context, s []T, access Accessor[T], options ...Sl
 	spanner := span.Get(ctx)
 
 	opts := &sliceOptions{}
-	if err := calloptions.ApplyOptions(&opts, options); err != nil {
+	if err := calloptions.ApplyOptions(opts, options); err != nil {
 		return err
 	}
 
-- 
2.43.0


From c7be8230bce7fe5e34cbc6f69721654b60d42fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:47 +0000
Subject: [PATCH 12/26] fix: slices.Access: wait for running accessors when the
 context is cancelled

---
 prim/slices/slice.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/prim/slices/slice.go b/prim/slices/slice.go
index 8d9cfa9..fa67a06 100644
--- a/prim/slices/slice.go
+++ b/prim/slices/slice.go
@@ -69,11 +69,12 @@ func Access[T any](ctx context.Context, s []T, access Accessor[T], options ...Sl
 	}
 	wg := wait.Group{Pool: opts.pool, PoolOptions: opts.poolOptions, CancelOnErr: cancel}
 
+	var stopErr error
 	for i := 0; i < len(s); i++ {
 		i := i
 
-		if ctx.Err() != nil {
-			return ctx.Err()
+		if stopErr = ctx.Err(); stopErr != nil {
+			break
 		}
 
 		wg.Go(
@@ -87,5 +88,5 @@ func Access[T any](ctx context.Context, s []T, access Accessor[T], options ...Sl
 		spanner.Error(err)
 		return err
 	}
-	return nil
+	return stopErr
 }
-- 
2.43.0


From 379f6ac9540460cdcffd579290cb9987e82b0ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:48 +0000
Subject: [PATCH 13/26] fix: chans.Access: notice cancellation while waiting
 for input, and wait for running accessors

---
 prim/chans/chans.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/prim/chans/chans.go b/prim/chans/chans.go
index 92d5f07..081b518 100644
--- a/prim/chans/chans.go
+++ b/prim/chans/chans.go
@@ -131,11 +131,19 @@ func Access[T any](ctx context.Context, input <-chan T, access Accessor[T], opti
 	}
 	wg := wait.Group{Pool: opts.pool, PoolOptions: opts.poolOptions, CancelOnErr: cancel}
 
-	for v := range input {
-		v := v
-
-		if ctx.Err() != nil {
-			return ctx.Err()
+	var stopErr error
+	for {
+		var v T
+		ok := false
+		if stopErr = ctx.Err(); stopErr == nil {
+			select {
+			case <-ctx.Done():
+				stopErr = ctx.Err()
+			case v, ok = <-input:
+			}
+		}
+		if !ok {
+			break
 		}
 
 		wg.Go(
@@ -152,7 +160,7 @@ func Access[T any](ctx context.Context, input <-chan T, access Accessor[T], opti
 		spanner.Error(err)
 		return err
 	}
-	return nil
+	return stopErr
 }
 
 // StreamResult is a result from a Stream operation.
-- 
2.43.0


From c1bfb9e5ed564d27c9866b0eeff402d3d4211f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:50 +0000
Subject: [PATCH 14/26] fix: chans.Modify: close the output also when the input
 is nil

---
 prim/chans/chans.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/prim/chans/chans.go b/prim/chans/chans.go
index 081b518..753be72 100644
--- a/prim/chans/chans.go
+++ b/prim/chans/chans.go
@@ -181,19 +181,19 @@ type Modifier[T, R any] func(context.Context, T) (R, error)
 func Modify[T, R any](ctx context.Context, input <-chan T, output chan <-StreamResult[R], mod Modifier[T, R], options ...Option) error {
 	spanner := span.Get(ctx)
 
-	if input == nil {
-		err := fmt.Errorf("input channel is nil")
-		spanner.Error(err)
-		return err
-	}
 	if output == nil {
 		err := fmt.Errorf("output channel is nil")
 		spanner.Error(err)
 		return err
 	}
-
 	defer close(output)
 
+	if input == nil {
+		err := fmt.Errorf("input channel is nil")
+		spanner.Error(err)
+		return err
+	}
+
 	a := func(ctx context.Context, v T) error {
 		r, err := mod(ctx, v)
 		if err != nil {
-- 
2.43.0


From e7bf47bc58f63ef60f982a6cad65569b81ae0e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 15/26] fix: stagedpipe: closed Pipelines never ended, because
 finished requests stayed counted

---
 pipelines/stagedpipe/stagedpipe.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 7894837..5f0e473 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -611,6 +611,7 @@ func (p *Pipelines[T]) NewRequestGroup() *RequestGroup[T] {
 		go func() {
 			defer r.ordered.Close()
 			for req := range r.out {
+				r.p.wg.Done()
 				r.wg.Done()
 				req.otelEnd()
 				if err := r.ordered.Add(req); err != nil {
@@ -622,6 +623,7 @@ func (p *Pipelines[T]) NewRequestGroup() *RequestGroup[T] {
 		go func() {
 			defer close(r.user)
 			for req := range r.out {
+				r.p.wg.Done()
 				r.wg.Done()
 				req.otelEnd()
 				r.user <- req
-- 
2.43.0


From c89154444ce9ae27a81dc41af16500136baf634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 16/26] fix: stagedpipe: a refused Submit left a gap that
 blocked an Ordered group

---
 pipelines/stagedpipe/stagedpipe.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 5f0e473..61b5221 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -496,6 +496,8 @@ type RequestGroup[T any] struct {
 
 	// itemNum is used to track the order of the Request in the RequestGroup.
 	itemNum atomic.Uint64
+	// submitting is held by the Submit() call that is using itemNum, when ordered is set.
+	submitting chan struct{}
 
 	// startOnce is used to do operations related to telemetry on the first Submit() call.
 	startOnce *sync.Once
@@ -540,7 +542,19 @@ func (r *RequestGroup[T]) Submit(req Request[T]) error {
 	})
 
 	req.groupNum = r.id
-	req.itemNum = r.itemNum.Add(1) - 1 // This must start at 0.
+	if r.ordered != nil {
+		// A number may only be used up by a request that is accepted: a missing number
+		// would hold back all later requests.
+		select {
+		case <-req.Ctx.Done():
+			return req.Ctx.Err()
+		case r.submitting <- struct{}{}:
+		}
+		defer func() { <-r.submitting }()
+		req.itemNum = r.itemNum.Load()
+	} else {
+		req.itemNum = r.itemNum.Add(1) - 1 // This must start at 0.
+	}
 	req.queueTime = time.Now()
 
 	// This let's the Pipelines object know it is receiving a new Request to process.
@@ -560,6 +574,9 @@ func (r *RequestGroup[T]) Submit(req Request[T]) error {
 		return req.Ctx.Err()
 	case r.p.in <- req:
 	}
+	if r.ordered != nil {
+		r.itemNum.Add(1)
+	}
 
 	return nil
 }
@@ -602,6 +619,7 @@ func (p *Pipelines[T]) NewRequestGroup() *RequestGroup[T] {
 
 	// If ordered is set, we need to return the output in order.
 	if p.ordered {
+		r.submitting = make(chan struct{}, 1)
 		r.ordered = demux.NewInOrder(
 			func(r Request[T]) uint64 {
 				return r.itemNum
-- 
2.43.0


From 56c75d07347704540ddde385ed622fe3d3accb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 17/26] fix: stagedpipe: creating a group while another one is
 closed could lose a group

---
 pipelines/stagedpipe/stagedpipe.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 61b5221..120a122 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -306,6 +306,9 @@ type Pipelines[T any] struct {
 	requestGroupNum atomic.Uint64
 	// demux is used to demux the output of the Pipelines to the RequestGroup(s).
 	demux *demux.Demux[uint64, Request[T]]
+	// demuxMu protects the set of receivers: the demuxer does not support adding
+	// and removing receivers at the same time.
+	demuxMu sync.Mutex
 
 	stats *stats
 	// ss is true if the DAG() option was set.
@@ -514,6 +517,8 @@ func (r *RequestGroup[T]) Close() {
 
 	r.otelEnd()
 
+	r.p.demuxMu.Lock()
+	defer r.p.demuxMu.Unlock()
 	r.p.demux.RemoveReceiver(r.id) // This closes the input channel into the Pipelines object
 }
 
@@ -615,7 +620,9 @@ func (p *Pipelines[T]) NewRequestGroup() *RequestGroup[T] {
 		p:         p,
 		startOnce: &sync.Once{},
 	}
+	p.demuxMu.Lock()
 	p.demux.AddReceiver(id, r.out)
+	p.demuxMu.Unlock()
 
 	// If ordered is set, we need to return the output in order.
 	if p.ordered {
-- 
2.43.0


From a67f44c25dc78cc3f47ad50de300ad96550058a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 18/26] fix: stagedpipe: a resubmitted request kept the stages
 seen in an earlier DAG run

---
 pipelines/stagedpipe/stagedpipe.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 120a122..05730a4 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -753,6 +753,7 @@ func (p *pipeline[T]) processReq(r Request[T]) Request[T] {
 	// Stat colllection.
 	r.ingestTime = time.Now()
 	queuedTime := time.Since(r.queueTime)
+	r.seenStages = nil // Can be set if the Request already went through Pipelines.
 	if p.ss {
 		r.seenStages = seenStagesPool.Get().(*seenStages).reset()
 		defer func() {
-- 
2.43.0


From 936fc899a26dbbf907b139e4bfa7070143281087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 19/26] fix: stagedpipe: the minimum times in Stats were always
 0

---
 pipelines/stagedpipe/stats.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pipelines/stagedpipe/stats.go b/pipelines/stagedpipe/stats.go
index 4025978..0790c7f 100644
--- a/pipelines/stagedpipe/stats.go
+++ b/pipelines/stagedpipe/stats.go
@@ -1,6 +1,7 @@
 package stagedpipe
 
 import (
+	"math"
 	"sync/atomic"
 	"time"
 )
@@ -34,14 +35,26 @@ type stats struct {
 }
 
 func newStats() *stats {
-	return &stats{ingestStats: &ingestStats{}}
+	s := &stats{ingestStats: &ingestStats{}}
+	s.min.Store(math.MaxInt64)
+	s.ingestStats.min.Store(math.MaxInt64)
+	return s
+}
+
+// loadMin returns the value of a minimum, which is 0 if it was never set.
+func loadMin(min *atomic.Int64) time.Duration {
+	v := min.Load()
+	if v == math.MaxInt64 {
+		return 0
+	}
+	return time.Duration(v)
 }
 
 func (s *stats) toStats() Stats {
 	stats := Stats{
 		Running:   s.running.Load(),
 		Completed: s.completed.Load(),
-		Min:       time.Duration(s.min.Load()),
+		Min:       loadMin(&s.min),
 		Max:       time.Duration(s.max.Load()),
 	}
 	if stats.Completed != 0 {
@@ -69,7 +82,7 @@ type ingestStats struct {
 
 func (i *ingestStats) toIngestStats(completed int64) IngestStats {
 	stats := IngestStats{
-		Min: time.Duration(i.min.Load()),
+		Min: loadMin(&i.min),
 		Max: time.Duration(i.max.Load()),
 	}
 	if completed != 0 {
-- 
2.43.0


From 2d7e8e437b7d2f92f37de1ee1724211eef54e6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 20/26] fix: queue.Pop: a value pushed right before Close could
 be lost

---
 pipelines/stagedpipe/internal/queue/queue.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pipelines/stagedpipe/internal/queue/queue.go b/pipelines/stagedpipe/internal/queue/queue.go
index 14628b0..908d09e 100644
--- a/pipelines/stagedpipe/internal/queue/queue.go
+++ b/pipelines/stagedpipe/internal/queue/queue.go
@@ -65,7 +65,8 @@ func (q *Queue[A]) Pop() (val A, ok bool) {
 		}
 
 		if q.closed.Load() {
-			return a, ok
+			// A value may have been pushed between our pop() and Close().
+			return q.queue.pop()
 		}
 
 		s += 100 * time.Nanosecond
-- 
2.43.0


From acc76b567c3761d852995d0c21f0829d2f039fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 21/26] fix: wait.Group: the span was never ended, nor made the
 parent of the work

---
 prim/wait/wait.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/prim/wait/wait.go b/prim/wait/wait.go
index a2d1d92..cd467b2 100644
--- a/prim/wait/wait.go
+++ b/prim/wait/wait.go
@@ -84,6 +84,7 @@ type Group struct {
 func (w *Group) reset() {
 	w.start = time.Time{}
 	w.otelOnce = sync.Once{}
+	w.span = span.Span{}
 	w.count.Store(0)
 	w.total.Store(0)
 	w.errors.Store(nil)
@@ -115,7 +116,7 @@ func (w *Group) Go(ctx context.Context, f FuncCall) {
 	t := time.Now().UTC()
 	if w.span.Span != nil {
 		w.span.Event("Go", "start", t)
-		trace.ContextWithSpan(ctx, w.span.Span)
+		ctx = trace.ContextWithSpan(ctx, w.span.Span)
 	}
 
 	w.count.Add(1)
@@ -188,6 +189,9 @@ func (w *Group) Wait(ctx context.Context) error {
 			"end", end.UTC(),
 			"elapsed_ns", end.Sub(now),
 		)
+		if w.span.Span != nil {
+			w.span.End()
+		}
 	}()
 
 	w.waitOTELStart()
-- 
2.43.0


From 4bf3d204ae5f4ae457f389793f503f1003fc0381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 22/26] fix: stagedpipe: spans of stages, requests and groups
 were not ended, nor the context restored

---
 pipelines/stagedpipe/stagedpipe.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 05730a4..deed0b8 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -576,6 +576,9 @@ func (r *RequestGroup[T]) Submit(req Request[T]) error {
 	case <-req.Ctx.Done():
 		r.p.wg.Done()
 		r.wg.Done()
+		if spanner.IsRecording() {
+			spanner.End()
+		}
 		return req.Ctx.Err()
 	case r.p.in <- req:
 	}
@@ -607,6 +610,7 @@ func (r *RequestGroup[T]) otelEnd() {
 		return
 	}
 	r.span.Event("RequestGroup finished", "elapsed_ns", time.Since(*r.started.Load()))
+	r.span.End()
 }
 
 // NewRequestGroup returns a RequestGroup that can be used to process requests
@@ -787,21 +791,26 @@ func (p *pipeline[T]) processReq(r Request[T]) Request[T] {
 
 // execStage executes a single stage of the pipeline and all preProcessors. It also
 // creates a new span for the stage.
-func (p *pipeline[T]) execStage(r Request[T], stage Stage[T]) Request[T] {
+func (p *pipeline[T]) execStage(r Request[T], stage Stage[T]) (ret Request[T]) {
 	stageName := methodName(stage)
 
 	parentCtx := r.Ctx
 	parentSpan := r.span
-	defer func() {
-		r.Ctx = parentCtx
-		r.span = parentSpan
-	}()
-	r.Ctx, r.span = span.New(r.Ctx, stageName)
+	stageCtx, stageSpan := span.New(r.Ctx, stageName)
+	r.Ctx, r.span = stageCtx, stageSpan
 
 	r.Event(stageName, "start", time.Now())
-	defer func() {
-		r.Event(stageName, "end", time.Now())
-	}()
+	if stageSpan.IsRecording() {
+		// The span of the stage ends here. A Context that the stage has set itself is kept.
+		defer func() {
+			stageSpan.Event(stageName, "end", time.Now())
+			stageSpan.End()
+			if ret.Ctx == stageCtx {
+				ret.Ctx = parentCtx
+			}
+			ret.span = parentSpan
+		}()
+	}
 
 	// If the context has been cancelled, stop processing.
 	if r.Ctx.Err() != nil {
-- 
2.43.0


From 258548e79a4ea76d383b1ef568e70543462385f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 23/26] fix: stagedpipe: DAG() lets a request run the Start
 stage twice

---
 pipelines/stagedpipe/stagedpipe.go | 49 +++++++++++++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index deed0b8..88faa55 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -680,6 +680,8 @@ type pipeline[T any] struct {
 	concurrency   int
 	delayWarning  time.Duration
 	ss            bool
+	// startName is the name of the Start method of the concrete type of sm.
+	startName string
 }
 
 type pipelineArgs[T any] struct {
@@ -709,6 +711,7 @@ func newPipeline[T any](args pipelineArgs[T]) (*pipeline[T], error) {
 		sm:            args.sm,
 		ss:            args.ss,
 		delayWarning:  args.delayWarning,
+		startName:     startName[T](args.sm),
 	}
 
 	p.concurrency = numStages[T](args.sm) + args.subStages
@@ -793,6 +796,9 @@ func (p *pipeline[T]) processReq(r Request[T]) Request[T] {
 // creates a new span for the stage.
 func (p *pipeline[T]) execStage(r Request[T], stage Stage[T]) (ret Request[T]) {
 	stageName := methodName(stage)
+	if stageName == methodName(p.sm.Start) {
+		stageName = p.startName
+	}
 
 	parentCtx := r.Ctx
 	parentSpan := r.span
@@ -819,7 +825,7 @@ func (p *pipeline[T]) execStage(r Request[T], stage Stage[T]) (ret Request[T]) {
 	}
 
 	if r.seenStages != nil {
-		if r.seenStages.seen(methodName(stage)) {
+		if r.seenStages.seen(stageName) {
 			r.Err = Error{Type: cyclicErr, Msg: r.seenStages.callTrace()}
 			return r
 		}
@@ -855,6 +861,47 @@ func numStages[T any](sm any) int {
 	return count
 }
 
+// startName returns the name of the Start stage of the StateMachine. The method value sm.Start
+// is named after the interface, but a stage that routes back to Start uses a method of the
+// concrete type, and both must have the same name.
+func startName[T any](sm StateMachine[T]) string {
+	for t := reflect.TypeOf(sm); t.Kind() != reflect.Interface; {
+		m, ok := t.MethodByName("Start")
+		if !ok {
+			break
+		}
+		f := runtime.FuncForPC(m.Func.Pointer())
+		if file, _ := f.FileLine(f.Entry()); file != "<autogenerated>" {
+			return methodName(m.Func.Interface())
+		}
+		// This is a wrapper that calls the method of the type pointed to or embedded.
+		if t.Kind() == reflect.Pointer {
+			if _, ok := t.Elem().MethodByName("Start"); ok || t.Elem().Kind() != reflect.Struct {
+				t = t.Elem()
+				continue
+			}
+			t = t.Elem()
+		}
+		next := t
+		for i := 0; t.Kind() == reflect.Struct && i < t.NumField(); i++ {
+			f := t.Field(i)
+			if !f.Anonymous {
+				continue
+			}
+			for _, e := range []reflect.Type{f.Type, reflect.PointerTo(f.Type)} {
+				if _, ok := e.MethodByName("Start"); ok && next == t {
+					next = e
+				}
+			}
+		}
+		if next == t {
+			break
+		}
+		t = next
+	}
+	return methodName(sm.Start)
+}
+
 // methodName takes a function or a method and returns its name.
 func methodName(method any) string {
 	if method == nil {
-- 
2.43.0


From d4df48964dd4fa5b711e11854738005563e92d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:51 +0000
Subject: [PATCH 24/26] fix: stagedpipe: a Context set by a stage carried the
 ended span into the next stage

---
 pipelines/stagedpipe/stagedpipe.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 88faa55..ebe244a 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -87,6 +87,7 @@ import (
 	"github.com/johnsiilver/dynamics/demux"
 	"github.com/johnsiilver/dynamics/method"
 	"go.opentelemetry.io/otel/codes"
+	"go.opentelemetry.io/otel/trace"
 
 	"github.com/gostdlib/internals/otel/span"
 
@@ -806,17 +807,22 @@ func (p *pipeline[T]) execStage(r Request[T], stage Stage[T]) (ret Request[T]) {
 	r.Ctx, r.span = stageCtx, stageSpan
 
 	r.Event(stageName, "start", time.Now())
-	if stageSpan.IsRecording() {
-		// The span of the stage ends here. A Context that the stage has set itself is kept.
-		defer func() {
-			stageSpan.Event(stageName, "end", time.Now())
-			stageSpan.End()
-			if ret.Ctx == stageCtx {
-				ret.Ctx = parentCtx
-			}
-			ret.span = parentSpan
-		}()
-	}
+	// The span of the stage ends here. A Context that the stage has set itself is kept, but not
+	// with the span of the stage.
+	defer func() {
+		ret.span = parentSpan
+		if !stageSpan.IsRecording() {
+			return
+		}
+		stageSpan.Event(stageName, "end", time.Now())
+		stageSpan.End()
+		switch {
+		case ret.Ctx == stageCtx:
+			ret.Ctx = parentCtx
+		case ret.Ctx != nil && trace.SpanContextFromContext(ret.Ctx).Equal(stageSpan.Span.SpanContext()):
+			ret.Ctx = trace.ContextWithSpan(ret.Ctx, trace.SpanFromContext(parentCtx))
+		}
+	}()
 
 	// If the context has been cancelled, stop processing.
 	if r.Ctx.Err() != nil {
-- 
2.43.0


From eaa8954f2a92d0eaff859355e1c8ce9e2dc02ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:18 +0000
Subject: [PATCH 25/26] fix: pooled: a job that ends with runtime.Goexit takes
 its runner with it

---
 goroutines/pooled/goroutines.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/goroutines/pooled/goroutines.go b/goroutines/pooled/goroutines.go
index dec7477..5758d4f 100644
--- a/goroutines/pooled/goroutines.go
+++ b/goroutines/pooled/goroutines.go
@@ -204,6 +204,17 @@ func (p *Pool) blockEvent(spanner span.Span, fcn string, t time.Time) {
 
 // runner is used to run any function that comes in on the in channel.
 func (p *Pool) runner() {
+	// A job that ends the goroutine with runtime.Goexit() is finished as well, and
+	// this runner has to be replaced.
+	inJob := false
+	defer func() {
+		if inJob {
+			go p.runner()
+			p.running.Add(-1)
+			p.wg.Done()
+		}
+	}()
+
 	for {
 		var s submit
 		var ok bool
@@ -214,7 +225,9 @@ func (p *Pool) runner() {
 			}
 		case s = <-p.direct:
 		}
+		inJob = true
 		s.job(s.ctx)
+		inJob = false
 		p.running.Add(-1)
 		p.wg.Done()
 	}
-- 
2.43.0


From b307ec75015742340215dbed8d089d70368510eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:45:41 +0000
Subject: [PATCH 26/26] fix: stagedpipe: DAG() lets a request run an embedded
 Start stage twice if another embedded type has one deeper

---
 pipelines/stagedpipe/stagedpipe.go | 53 ++++++++++++++++--------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index ebe244a..d2a5f8e 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -871,39 +871,42 @@ func numStages[T any](sm any) int {
 // is named after the interface, but a stage that routes back to Start uses a method of the
 // concrete type, and both must have the same name.
 func startName[T any](sm StateMachine[T]) string {
-	for t := reflect.TypeOf(sm); t.Kind() != reflect.Interface; {
-		m, ok := t.MethodByName("Start")
-		if !ok {
-			break
-		}
-		f := runtime.FuncForPC(m.Func.Pointer())
-		if file, _ := f.FileLine(f.Entry()); file != "<autogenerated>" {
-			return methodName(m.Func.Interface())
-		}
-		// This is a wrapper that calls the method of the type pointed to or embedded.
-		if t.Kind() == reflect.Pointer {
-			if _, ok := t.Elem().MethodByName("Start"); ok || t.Elem().Kind() != reflect.Struct {
+	// The method may belong to an embedded type. It is the one at the shallowest depth, all others
+	// are wrappers that call it.
+	seen := map[reflect.Type]bool{}
+	for types := []reflect.Type{reflect.TypeOf(sm)}; len(types) > 0; {
+		var embedded []reflect.Type
+		for _, t := range types {
+			if t.Kind() == reflect.Pointer {
 				t = t.Elem()
+			}
+			if seen[t] {
 				continue
 			}
-			t = t.Elem()
-		}
-		next := t
-		for i := 0; t.Kind() == reflect.Struct && i < t.NumField(); i++ {
-			f := t.Field(i)
-			if !f.Anonymous {
+			seen[t] = true
+			if t.Kind() == reflect.Interface {
+				if _, ok := t.MethodByName("Start"); ok {
+					return methodName(sm.Start)
+				}
 				continue
 			}
-			for _, e := range []reflect.Type{f.Type, reflect.PointerTo(f.Type)} {
-				if _, ok := e.MethodByName("Start"); ok && next == t {
-					next = e
+			for _, e := range []reflect.Type{t, reflect.PointerTo(t)} {
+				m, ok := e.MethodByName("Start")
+				if !ok {
+					continue
+				}
+				f := runtime.FuncForPC(m.Func.Pointer())
+				if file, _ := f.FileLine(f.Entry()); file != "<autogenerated>" {
+					return methodName(m.Func.Interface())
+				}
+			}
+			for i := 0; t.Kind() == reflect.Struct && i < t.NumField(); i++ {
+				if f := t.Field(i); f.Anonymous {
+					embedded = append(embedded, f.Type)
 				}
 			}
 		}
-		if next == t {
-			break
-		}
-		t = next
+		types = embedded
 	}
 	return methodName(sm.Start)
 }
-- 
2.43.0

