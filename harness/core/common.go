package main

import (
	"context"
	"errors"
	"fmt"
	"runtime"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"
)

// Pool modes used by the scenarios.
const (
	poolNone = iota
	poolLim1
	poolLim2
	poolPooled1
	poolPooled2
	poolLim1NB
	poolPooled1NB
	nPoolModes
)

var poolNames = []string{"none", "lim1", "lim2", "pooled1", "pooled2", "lim1nb", "pooled1nb"}

// mkPool makes an unregistered pool; nil for poolNone.
func mkPool(mode int) (goroutines.Pool, []goroutines.SubmitOption) {
	var p goroutines.Pool
	var err error
	var o []goroutines.SubmitOption
	switch mode {
	case poolNone:
		return nil, nil
	case poolLim1, poolLim1NB:
		p, err = limited.New("", 1)
	case poolLim2:
		p, err = limited.New("", 2)
	case poolPooled1, poolPooled1NB:
		p, err = pooled.New("", 1)
	case poolPooled2:
		p, err = pooled.New("", 2)
	}
	if err != nil {
		Fail("a valid pool could not be created: %v", err)
	}
	switch mode {
	case poolLim1NB: // the option that matters first, and last
		o = append(o, limited.NonBlocking(), limited.Caller("caller"))
	case poolPooled1NB:
		o = append(o, pooled.Caller("caller"), pooled.NonBlocking())
	}
	return p, o
}

// poolSize is the number of blocking jobs the pool may run at once (0: no limit).
func poolSize(mode int) int {
	switch mode {
	case poolLim1, poolPooled1:
		return 1
	case poolLim2, poolPooled2:
		return 2
	}
	return 0
}

type ctxKey struct{}

func withID(ctx context.Context, i int) context.Context { return context.WithValue(ctx, ctxKey{}, i) }
func idOf(ctx context.Context) int {
	v, _ := ctx.Value(ctxKey{}).(int)
	return v
}

// typedErr is an error that can be found with errors.As and errors.Is.
type typedErr struct{ n int }

func (e typedErr) Error() string { return fmt.Sprintf("typed error %d", e.n) }

var errs = []error{errors.New("e0"), errors.New("e1"), errors.New("e2"), errors.New("e3"), errors.New("e4"), errors.New("e5")}

// pos returns the index of the first event with the code and A, or -1.
func pos(ev []runtime.MCEvent, code, a int) int {
	for i := range ev {
		if int(ev[i].Code) == code && int(ev[i].A) == a {
			return i
		}
	}
	return -1
}

func num(ev []runtime.MCEvent, code, a int) int {
	n := 0
	for i := range ev {
		if int(ev[i].Code) == code && int(ev[i].A) == a {
			n++
		}
	}
	return n
}

func must(ok bool, format string, a ...any) {
	if !ok {
		Fail(format, a...)
	}
}

func bg() context.Context { return context.Background() }

// isDone reports whether the context's error is set, without a scheduling point.
func isDone(ctx context.Context) (d bool) {
	Quiet(func() { d = ctx.Err() != nil })
	return d
}
