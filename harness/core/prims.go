package main

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"time"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/prim/atomics"
	"github.com/gostdlib/concurrency/prim/chans"
	"github.com/gostdlib/concurrency/prim/slices"
)

const (
	evInv   = 30 // operation A is called; B: kind of operation
	evRet   = 31 // operation A returned; B: result
	evFn    = 32 // the function of operation A is called with B
	evFnEnd = 33
)

// pair is a value in which a mixture of two values can be seen.
type pair struct {
	a    int
	pad  [6]int
	b, c int
}

func mkPair(v int) pair { return pair{a: v, b: v, c: v} }
func (p pair) val() int {
	if p.a != p.b || p.b != p.c {
		Fail("a mixture of two values was read: %d %d %d", p.a, p.b, p.c)
	}
	return p.a
}

var errFn = errors.New("function failed")

const (
	opLoad = iota
	opStore
	opReplace
	opFail
	opPanic
)

// doOp executes operation kind k with number id; errors are flagged directly.
func doOp(v *atomics.RWValue[pair], id, k int, inner func()) {
	EvP(evInv, id, k)
	switch k {
	case opLoad:
		r := v.Load().val()
		EvP(evRet, id, r)
	case opStore:
		v.Store(mkPair(id))
		EvP(evRet, id, 0)
	case opReplace, opFail, opPanic:
		func() {
			if k == opPanic {
				defer func() {
					must(recover() != nil, "the panic of the function was swallowed")
				}()
			}
			err := v.LoadReplace(func(old pair) (pair, error) {
				Ev(evFn, id, old.val())
				if inner != nil {
					inner()
				}
				P()
				Ev(evFnEnd, id, 0)
				switch k {
				case opFail:
					return mkPair(-1), errFn
				case opPanic:
					panic("panic in the function")
				}
				return mkPair(old.val()*10 + id), nil
			})
			if k == opFail {
				must(err == errFn, "LoadReplace returned %v instead of the error of the function", err)
			} else {
				must(err == nil, "LoadReplace returned %v although the function did not fail", err)
			}
		}()
		EvP(evRet, id, 0)
	}
}

type regOp struct {
	id, kind, ret, arg, inv, res int
	fn, fnEnd                    int
}

// history extracts the operations and checks the calls of the functions.
func history(ev []runtime.MCEvent) ([]regOp, error) {
	var h []regOp
	find := func(id int) *regOp {
		for i := range h {
			if h[i].id == id {
				return &h[i]
			}
		}
		return nil
	}
	for i := range ev {
		e := &ev[i]
		switch e.Code {
		case evInv:
			h = append(h, regOp{id: int(e.A), kind: int(e.B), inv: i, res: -1, fn: -1})
		case evRet:
			o := find(int(e.A))
			o.res, o.ret = i, int(e.B)
		case evFn:
			o := find(int(e.A))
			if o.fn >= 0 {
				return nil, fmt.Errorf("the function of a LoadReplace was called more than once")
			}
			if o.res >= 0 {
				return nil, fmt.Errorf("the function of a LoadReplace was called after it had returned")
			}
			o.fn, o.arg = i, int(e.B)
		case evFnEnd:
			find(int(e.A)).fnEnd = i
		}
	}
	for i := range h {
		o := &h[i]
		if o.res < 0 {
			return nil, fmt.Errorf("operation %d did not return", o.id)
		}
		if o.kind >= opReplace && o.fn < 0 {
			return nil, fmt.Errorf("the function of a LoadReplace was not called")
		}
		if o.kind >= opReplace {
			for j := range h {
				w := &h[j]
				if j != i && w.kind >= opStore && w.inv > o.fn && w.res < o.fnEnd {
					return nil, fmt.Errorf("a writer started and completed while the function of a LoadReplace was running")
				}
			}
		}
	}
	return h, nil
}

// linearizable: some order of the operations, consistent with their real-time
// order, explains all results for a register that starts at init.
func linearizable(h []regOp, init int) bool {
	n := len(h)
	var rec func(done, cur int) bool
	rec = func(done, cur int) bool {
		if done == 1<<n-1 {
			return true
		}
		for i := 0; i < n; i++ {
			if done&(1<<i) != 0 {
				continue
			}
			o := &h[i]
			ok := true
			for j := 0; j < n; j++ {
				if j != i && done&(1<<j) == 0 && h[j].res < o.inv {
					ok = false
				}
			}
			if !ok {
				continue
			}
			next := cur
			switch o.kind {
			case opLoad:
				ok = o.ret == cur
			case opStore:
				next = o.id
			case opReplace:
				ok = o.arg == cur
				next = o.arg*10 + o.id
			case opFail, opPanic:
				ok = o.arg == cur
			}
			if ok && rec(done|1<<i, next) {
				return true
			}
		}
		return false
	}
	return rec(0, init)
}

func checkHistory(x *X) error {
	h, err := history(x.Ev)
	if err != nil {
		return err
	}
	init := 0
	if p := pos(x.Ev, evHand, 0); p >= 0 {
		init = int(x.Ev[p].B)
	}
	if !linearizable(h, init) {
		s := ""
		for _, o := range h {
			s += fmt.Sprintf(" op%d(kind %d, call %d, return %d, result %d, function saw %d)", o.id, o.kind, o.inv, o.res, o.ret, o.arg)
		}
		return fmt.Errorf("the history is not linearizable, start %d:%s", init, s)
	}
	return nil
}

func init() {
	// A01
	for _, v := range []struct {
		shape        []int
		kinds        int
		qk, tk, dpor int
	}{{[]int{1, 1}, 5, 4, 6, 1}, {[]int{2, 1}, 4, 3, 5, 1}, {[]int{1, 1, 1}, 4, 3, 5, 1}, {[]int{2, 2}, 4, 2, 4, 2}, {[]int{2, 1, 1}, 3, 2, 4, 2}, {[]int{3, 1}, 3, 2, 4, 2}, {[]int{2, 2, 1}, 3, -1, 2, 0}, {[]int{1, 1, 1, 1}, 3, 2, 3, 0}} {
		Reg(&Scenario{Name: fmt.Sprintf("a01-%v", v.shape), Props: []string{"A01", "A02", "D01"}, Race: len(v.shape) <= 3 && v.qk >= 3, RK: 2, QK: v.qk, TK: v.tk, DPOR: v.dpor,
			Body: func(x *X) {
				var rv atomics.RWValue[pair]
				if Choose(2) == 1 {
					rv.Store(mkPair(9))
					Ev(evHand, 0, 9)
				}
				var ks [][]int
				id := 0
				for _, n := range v.shape {
					k := make([]int, n)
					for i := range k {
						k[i] = Choose(v.kinds)
					}
					ks = append(ks, k)
				}
				done := make(chan bool, len(ks))
				for _, k := range ks {
					base := id
					id += len(k)
					go func() {
						for i, kk := range k {
							doOp(&rv, base+i+1, kk, nil)
						}
						done <- true
					}()
				}
				for range ks {
					<-done
				}
				doOp(&rv, 8, opLoad, nil)
			},
			Check: checkHistory,
		})
	}
	// A02
	for _, start := range []int{0, 1} {
		Reg(&Scenario{Name: fmt.Sprintf("a02-readers-%d", start), Props: []string{"A02"}, QK: 3, TK: 6, DPOR: 1,
			Body: func(x *X) {
				var rv atomics.RWValue[pair]
				if start == 1 {
					rv.Store(mkPair(9))
					Ev(evHand, 0, 9)
				}
				k := opReplace + Choose(3)
				two := Choose(2)
				inside := make(chan bool)
				read := make(chan bool)
				done := make(chan bool)
				go func() {
					<-inside
					doOp(&rv, 1, opLoad, nil)
					doOp(&rv, 2, opLoad, nil)
					close(read)
				}()
				go func() {
					if two == 1 {
						doOp(&rv, 3, opStore, nil)
					}
					close(done)
				}()
				doOp(&rv, 4, k, func() {
					close(inside)
					<-read // readers must get through while this runs
				})
				<-done
				doOp(&rv, 5, opReplace, nil)
				doOp(&rv, 6, opLoad, nil)
			},
			Check: checkHistory,
		})
		Reg(&Scenario{Name: fmt.Sprintf("a02-seq-%d", start), Props: []string{"A02", "A01"}, QK: 0, TK: 0,
			Body: func(x *X) {
				var rv atomics.RWValue[pair]
				if start == 1 {
					rv.Store(mkPair(9))
					Ev(evHand, 0, 9)
				}
				for i := 1; i <= 4; i++ {
					doOp(&rv, i, Choose(5), nil)
				}
				doOp(&rv, 5, opLoad, nil)
			},
			Check: checkHistory,
		})
	}

	// E01: a list that was returned belongs to the caller.
	Reg(&Scenario{Name: "e01-list", Props: []string{"E01", "D01"}, Race: true, RK: 2, QK: 3, TK: 5, DPOR: 1,
		Body: func(x *X) {
			var e goroutines.Errors
			n := Choose(5)
			for i := 0; i < n; i++ {
				e.Record(typedErr{i})
			}
			own := func(l []error, k int) {
				for i := range l {
					l[i] = typedErr{100 + 10*k + i}
				}
				P()
				l = append(l, typedErr{100 + 10*k + len(l)})
				P()
				for i := range l {
					must(l[i] == typedErr{100 + 10*k + i}, "a list that the caller has changed was altered by the collector")
				}
			}
			done := make(chan bool, 2)
			go func() {
				e.Record(typedErr{n})
				P()
				e.Record(typedErr{n + 1})
				done <- true
			}()
			go func() {
				own(e.Errors(), 1)
				done <- true
			}()
			own(e.Errors(), 2)
			<-done
			<-done
			for k := 0; k < 2; k++ {
				l := e.Errors()
				must(len(l) == n+2, "%d of %d errors are listed", len(l), n+2)
				for i := range l {
					must(l[i] == typedErr{i}, "error %d is listed as %v after a caller changed the list it was given", i, l[i])
				}
				must(e.Error() == typedErr{0}, "the earliest error is reported as %v", e.Error())
				own(l, 3+k)
			}
			must(e.Error() == typedErr{0}, "the earliest error is reported as %v", e.Error())
			e.Record(typedErr{n + 2})
			l := e.Errors()
			for i := range l {
				must(l[i] == typedErr{i}, "error %d is listed as %v after a caller changed the list it was given", i, l[i])
			}
			must(len(l) == n+3 && e.Error() == typedErr{0}, "%d of %d errors are listed, the earliest is %v", len(l), n+3, e.Error())
		}})
	// E01
	for _, v := range []struct{ recs, per, reads, qk, tk, dpor int }{{2, 1, 2, 4, 6, 1}, {2, 2, 2, 3, 5, 2}, {3, 1, 2, 3, 4, 2}, {3, 2, 3, 2, 3, 0}, {1, 3, 4, 3, 6, 1}} {
		Reg(&Scenario{Name: fmt.Sprintf("e01-r%dp%dx%d", v.recs, v.per, v.reads), Props: []string{"E01", "D01"}, Race: true, RK: 2, QK: v.qk, TK: v.tk, DPOR: v.dpor,
			Body: func(x *X) {
				var e goroutines.Errors
				must(e.Error() == nil && len(e.Errors()) == 0, "an empty collector reports errors")
				all := v.recs * v.per
				es := make([]error, all)
				for i := range es {
					es[i] = typedErr{i}
				}
				index := func(err error) int {
					t, ok := err.(typedErr)
					must(ok && t.n >= 0 && t.n < all, "an error that was never recorded is reported: %v", err)
					return t.n
				}
				done := make(chan bool, v.recs+1)
				for r := 0; r < v.recs; r++ {
					go func() {
						for i := 0; i < v.per; i++ {
							EvP(evInv, r*v.per+i, 0)
							e.Record(es[r*v.per+i])
							EvP(evRet, r*v.per+i, 0)
						}
						done <- true
					}()
				}
				// list checks a snapshot taken between the events from and now.
				list := func(l []error, from int) {
					ev := evNow()
					seen := make([]bool, all)
					last := make([]int, v.recs)
					for _, err := range l {
						i := index(err)
						must(!seen[i], "error %d is listed twice", i)
						seen[i] = true
						must(pos(ev, evInv, i) >= 0, "error %d is listed before it was recorded", i)
						must(last[i/v.per] == i%v.per, "the errors of one goroutine are out of order: %v", l)
						last[i/v.per]++
					}
					for i := range es {
						if p := pos(ev, evRet, i); p >= 0 && p < from {
							must(seen[i], "error %d is lost", i)
						}
					}
				}
				go func() {
					var kept [][]error
					var copies [][]error
					var first error
					for k := 0; k < v.reads; k++ {
						EvP(evObs0, k, 0)
						from := len(evNow())
						if k%2 == 0 {
							l := e.Errors()
							EvP(evObs1, k, 0)
							list(l, from)
							kept = append(kept, l)
							copies = append(copies, append([]error(nil), l...))
							if len(l) > 0 {
								must(first == nil || first == l[0], "the earliest error changed from %v to %v", first, l[0])
								first = l[0]
							}
							must(first == nil || len(l) > 0, "recorded errors disappeared")
							continue
						}
						err := e.Error()
						EvP(evObs1, k, 0)
						ev := evNow()
						if err == nil {
							must(first == nil, "recorded errors disappeared")
							for i := range es {
								p := pos(ev, evRet, i)
								must(p < 0 || p >= from, "Error returned nil although an error was recorded before")
							}
							continue
						}
						i := index(err)
						must(first == nil || first == err, "the earliest error changed from %v to %v", first, err)
						first = err
						must(pos(ev, evInv, i) >= 0, "error %d is reported before it was recorded", i)
						for j := range es {
							p := pos(ev, evRet, j)
							must(p < 0 || p > pos(ev, evInv, i), "error %d is reported although error %d was recorded before it", i, j)
						}
					}
					for i := range kept {
						must(len(kept[i]) == len(copies[i]), "a list already returned changed its length")
						for j := range copies[i] {
							must(kept[i][j] == copies[i][j], "a list already returned was altered")
						}
					}
					done <- true
				}()
				for i := 0; i < v.recs+1; i++ {
					<-done
				}
				l := e.Errors()
				must(len(l) == all, "%d errors are listed, %d were recorded", len(l), all)
				list(l, len(evNow()))
				must(e.Error() == l[0], "Error returns %v, but the first error listed is %v", e.Error(), l[0])
				cp := append([]error(nil), l...)
				e.Record(typedErr{0})
				e.Record(typedErr{0})
				for i := range l {
					must(l[i] == cp[i], "a list already returned was altered")
				}
				must(len(e.Errors()) == all+2, "an error equal to an earlier one was dropped")
				must(e.Error() == cp[0], "the earliest error changed")
			},
		})
	}
	initPar()
}

// parCall is one call of slices.Access, chans.Access or chans.Modify.
type parCall struct {
	api  int // 0 slices.Access, 1 chans.Access, 2 chans.Modify
	n    int
	stop bool
	pool goroutines.Pool
	po   []goroutines.SubmitOption
	swap bool // give the options in the other order
}

var apiNames = []string{"slice", "chan", "modify"}

func (c *parCall) run(ctx context.Context, f func(context.Context, int) error) error {
	switch c.api {
	case 0:
		s := make([]int, c.n)
		for i := range s {
			s[i] = 100 + i
		}
		return slices.Access(ctx, s, func(ctx context.Context, i int, v int, m slices.Modifier[int]) error {
			must(v == 100+i, "the accessor for index %d got the value %d", i, v)
			return f(ctx, i)
		}, c.sliceOpts()...)
	case 1:
		in := make(chan int, c.n)
		for i := 0; i < c.n; i++ {
			in <- i
		}
		close(in)
		return chans.Access(ctx, in, f, c.chanOpts()...)
	}
	in := make(chan int, c.n)
	for i := 0; i < c.n; i++ {
		in <- i
	}
	close(in)
	out := make(chan chans.StreamResult[int], c.n)
	err := callModify(ctx, in, out, func(ctx context.Context, i int) (int, error) { return i * 3, f(ctx, i) }, c.chanOpts()...)
	for range out {
	}
	return err
}

func (c *parCall) sliceOpts() []slices.SliceOption {
	var o []slices.SliceOption
	if c.stop && !c.swap {
		o = append(o, slices.WithStopOnErr())
	}
	if c.pool != nil {
		o = append(o, slices.WithPoolOptions(c.pool, c.po...))
	}
	if c.stop && c.swap {
		o = append(o, slices.WithStopOnErr())
	}
	return o
}

func (c *parCall) chanOpts() []chans.Option {
	var o []chans.Option
	if c.stop && !c.swap {
		o = append(o, chans.WithStopOnErr())
	}
	if c.pool != nil {
		o = append(o, chans.WithPoolOptions(c.pool, c.po...))
	}
	if c.stop && c.swap {
		o = append(o, chans.WithStopOnErr())
	}
	return o
}

func callModify(ctx context.Context, in <-chan int, out chan chans.StreamResult[int], f func(context.Context, int) (int, error), o ...chans.Option) error {
	return chans.Modify(ctx, in, out, f, o...)
}

// accessed: each of the ids was accessed exactly once, everything before the
// call returned (event evWaited 0), and nothing was started afterwards.
func accessed(ev []runtime.MCEvent, n int, all bool) error {
	w := pos(ev, evWaited, 0)
	if w < 0 {
		return fmt.Errorf("the call did not return")
	}
	for i := range ev {
		if ev[i].Code == evStart && (ev[i].A < 0 || int(ev[i].A) >= n) {
			return fmt.Errorf("an element that does not exist was accessed: %d", ev[i].A)
		}
		if (ev[i].Code == evStart || ev[i].Code == evEnd) && i > w {
			return fmt.Errorf("the accessor of element %d was running after the call had returned", ev[i].A)
		}
	}
	for i := 0; i < n; i++ {
		s := num(ev, evStart, i)
		if s > 1 {
			return fmt.Errorf("element %d was accessed %d times", i, s)
		}
		if all && s != 1 {
			return fmt.Errorf("element %d was not accessed", i)
		}
	}
	return nil
}

func initPar() {
	// S01, C01: all elements, any results, nothing stops early.
	for api := 0; api < 2; api++ {
		prop := []string{"S01", "C01"}[api]
		name := []string{"s01", "c01"}[api]
		for mode := 0; mode < nPoolModes; mode++ {
			for _, v := range []struct{ n, qk, tk, dpor int }{{0, 2, 4, 0}, {2, 3, 4, 2}, {3, 2, 4, 0}, {4, 2, 3, 0}} {
				if v.n == 4 && mode != poolNone && mode != poolPooled2 {
					continue
				}
				Reg(&Scenario{Name: fmt.Sprintf("%s-n%d-%s", name, v.n, poolNames[mode]), Props: []string{prop, "D01"}, Race: v.n == 2 && (mode == poolNone || mode == poolPooled2 || mode == poolLim1NB),
					QK: v.qk, TK: v.tk, DPOR: v.dpor,
					Body: func(x *X) {
						p, o := mkPool(mode)
						fail := 0
						if v.n > 0 && Choose(2) == 1 {
							fail = 1 << (v.n - 1)
						}
						if api == 0 {
							var s []int
							if v.n > 0 || Choose(2) == 1 {
								s = make([]int, v.n)
							}
							mods := 5 % (1 << v.n) // elements 0 and 2 are modified
							for i := range s {
								s[i] = 100 + i
							}
							c := parCall{pool: p, po: o}
							err := slices.Access(bg(), s, func(ctx context.Context, i int, val int, m slices.Modifier[int]) error {
								Ev(evStart, i, val)
								must(val == 100+i, "the accessor for index %d got the value %d", i, val)
								P()
								if mods>>i&1 == 1 {
									m(1000 + i)
								}
								Ev(evEnd, i, 0)
								if fail>>i&1 == 1 {
									return errs[i]
								}
								return nil
							}, c.sliceOpts()...)
							Ev(evWaited, 0, 0)
							must((err != nil) == (fail != 0), "the call returned %v, failing accessors: %b", err, fail)
							for i := range s {
								want := 100 + i
								if mods>>i&1 == 1 {
									want = 1000 + i
								}
								must(s[i] == want, "element %d is %d, expected %d", i, s[i], want)
							}
						} else {
							in := make(chan int, Choose(2)*2)
							if v.n == 0 && Choose(2) == 1 {
								in = nil
							}
							done := make(chan bool)
							go func() {
								for i := 0; i < v.n; i++ {
									in <- i
								}
								if in != nil {
									close(in)
								}
								close(done)
							}()
							c := parCall{pool: p, po: o}
							err := chans.Access(bg(), in, func(ctx context.Context, i int) error {
								Ev(evStart, i, 0)
								P()
								Ev(evEnd, i, 0)
								if fail>>i&1 == 1 {
									return errs[i]
								}
								return nil
							}, c.chanOpts()...)
							Ev(evWaited, 0, 0)
							must((err != nil) == (fail != 0), "the call returned %v, failing accessors: %b", err, fail)
							<-done
						}
						if p != nil {
							p.Close()
						}
					},
					Check: func(x *X) error { return accessed(x.Ev, v.n, true) },
				})
			}
		}
	}
	// Failing accessors together with a cancellation, by an accessor or somebody
	// else, with the input of a channel closed or not.
	for api := 0; api < 3; api++ {
		prop := []string{"S02", "C02", "C03"}[api]
		for mode := 0; mode < nPoolModes; mode++ {
			Reg(&Scenario{Name: fmt.Sprintf("par-both-%s-%s", apiNames[api], poolNames[mode]), Props: []string{prop, "C02"}[:1+b2i(api == 2)], QK: 1, TK: 3,
				Body: func(x *X) {
					p, o := mkPool(mode)
					ctx, cancel := context.WithCancel(bg())
					const n = 4
					mask := 1 + Choose(7) // of the first three
					at := Choose(n + 1)   // n: a goroutine of its own
					c := parCall{api: api, n: n, pool: p, po: o, stop: Choose(2) == 1}
					done := make(chan bool)
					if at == n {
						go func() { P(); cancel(); close(done) }()
					} else {
						close(done)
					}
					err := c.run(ctx, func(ctx context.Context, i int) error {
						Ev(evStart, i, 0)
						if i == at {
							cancel()
						}
						P()
						Ev(evEnd, i, 0)
						if mask>>i&1 == 1 {
							return errs[i]
						}
						return nil
					})
					Ev(evWaited, 0, 0)
					failed, skipped, match := 0, 0, false
					for i := 0; i < n; i++ {
						if pos(evNow(), evStart, i) < 0 {
							skipped++
						} else if mask>>i&1 == 1 {
							failed++
							match = match || errors.Is(err, errs[i])
						}
					}
					must((err != nil) == (failed+skipped > 0), "the call returned %v; %d accessors failed, %d elements were skipped", err, failed, skipped)
					// The error of a modifier whose result was dropped gives way to that
					// of the context.
					must(failed == 0 || match || api == 2 && errors.Is(err, context.Canceled), "the error %v matches no failed accessor", err)
					must(failed > 0 || err == nil || errors.Is(err, context.Canceled), "the error is %v although only a cancellation happened", err)
					<-done
					cancel()
					if p != nil {
						p.Close()
					}
				},
				Check: func(x *X) error { return accessed(x.Ev, 4, false) },
			})
		}
	}
	// Nothing runs after the call has returned, whatever ends it: an error with
	// stop-on-error, or a cancellation at any time.
	for api := 0; api < 3; api++ {
		prop := []string{"S01", "C01", "C03"}[api]
		pb := []string{"S02", "C02", "C03"}[api]
		for mode := 0; mode < nPoolModes; mode++ {
			Reg(&Scenario{Name: fmt.Sprintf("par-end-%s-%s", apiNames[api], poolNames[mode]), Props: []string{prop, pb, "D01"}, Race: mode == poolNone, QK: 2, TK: 4,
				Body: func(x *X) {
					p, o := mkPool(mode)
					ctx, cancel := context.WithCancel(bg())
					how := Choose(3)
					const n = 3
					c := parCall{api: api, n: n, pool: p, po: o, stop: how == 0}
					done := make(chan bool)
					if how == 1 {
						go func() { cancel(); close(done) }()
					} else {
						close(done)
					}
					err := c.run(ctx, func(ctx context.Context, i int) error {
						Ev(evStart, i, 0)
						P()
						if how == 2 && i == 0 {
							cancel()
						}
						Ev(evEnd, i, 0)
						if how == 0 && i == 0 {
							return errs[0]
						}
						return nil
					})
					Ev(evWaited, 0, 0)
					skipped := 0
					for i := 0; i < n; i++ {
						if pos(evNow(), evStart, i) < 0 {
							skipped++
						}
					}
					must(skipped == 0 || err != nil, "%d elements were skipped but the call returned nil", skipped)
					must(how == 0 || err == nil || errors.Is(err, context.Canceled), "the error is %v although only a cancellation happened", err)
					if how == 0 {
						if pos(evNow(), evStart, 0) >= 0 {
							must(errors.Is(err, errs[0]), "the error of the accessor is missing: %v", err)
						} else {
							must(false, "the first element was skipped although nothing had failed")
						}
						must(!isDone(ctx), "the context of the caller was cancelled")
					}
					<-done
					cancel()
					if p != nil {
						p.Close()
					}
				},
				Check: func(x *X) error { return accessed(x.Ev, 3, false) },
			})
		}
	}

	// S02, C02: error masks, with and without stop-on-error.
	for api := 0; api < 3; api++ {
		prop := []string{"S02", "C02", "C03"}[api]
		for mode := 0; mode < nPoolModes; mode++ {
			for _, v := range []struct{ n, qk, tk, dpor int }{{2, 3, 4, 2}, {3, 2, 3, 0}, {4, 1, 2, 0}} {
				for _, ncpu := range []int{1, 2} {
					if mode != poolNone && ncpu == 1 || v.n == 4 && mode > poolLim2 {
						continue
					}
					Reg(&Scenario{Name: fmt.Sprintf("par-err-%s-n%d-%s-c%d", apiNames[api], v.n, poolNames[mode], ncpu), Props: []string{prop}, QK: v.qk, TK: v.tk, DPOR: v.dpor, NCPU: ncpu,
						Body: func(x *X) {
							p, o := mkPool(mode)
							ctx, cancel := context.WithCancel(bg())
							mask := Choose(1 << v.n)
							c := parCall{api: api, n: v.n, pool: p, po: o, stop: Choose(2) == 1}
							err := c.run(ctx, func(ctx context.Context, i int) error {
								Ev(evStart, i, 0)
								P()
								Ev(evEnd, i, 0)
								if mask>>i&1 == 1 {
									return errs[i]
								}
								return nil
							})
							Ev(evWaited, 0, 0)
							must(!isDone(ctx), "the context of the caller was cancelled")
							ev := evNow()
							failed, skipped, match := 0, 0, false
							for i := 0; i < v.n; i++ {
								if pos(ev, evStart, i) < 0 {
									skipped++
									continue
								}
								if mask>>i&1 == 1 {
									failed++
									match = match || errors.Is(err, errs[i])
								}
							}
							must(c.stop || skipped == 0, "%d elements were skipped without the stop option", skipped)
							must(skipped == 0 || failed > 0, "%d elements were skipped although nothing had failed", skipped)
							must((err == nil) == (failed == 0 && skipped == 0), "the call returned %v; %d accessors failed, %d elements were skipped", err, failed, skipped)
							must(failed == 0 || match, "the error %v matches no failed accessor", err)
							one := poolSize(mode) == 1 || mode == poolNone && ncpu == 1
							if c.stop && one {
								bad := -1
								for _, e := range ev {
									must(e.Code != evStart || bad < 0, "element %d was accessed after the accessor of element %d had failed", e.A, bad)
									if e.Code == evEnd && mask>>int(e.A)&1 == 1 {
										bad = int(e.A)
									}
								}
							}
							cancel()
							if p != nil {
								p.Close()
							}
						},
						Check: func(x *X) error { return accessed(x.Ev, v.n, false) },
					})
				}
			}
		}
	}
	// In virtual time: nothing starts later than the failure (with the stop
	// option) or the cancellation, and the call returns when the last running
	// accessor does. With the input of a channel kept open.
	for api := 0; api < 3; api++ {
		prop := []string{"S02", "C02", "C03"}[api]
		for _, mode := range []int{poolNone, poolLim2, poolPooled2, poolPooled1, poolLim1NB, poolPooled1NB} {
			Reg(&Scenario{Name: fmt.Sprintf("par-time-%s-%s", apiNames[api], poolNames[mode]), Props: []string{prop, []string{"S01", "C01", "C02"}[api]}, QK: 2, TK: 3,
				Body: func(x *X) {
					p, o := mkPool(mode)
					ctx, cancel := context.WithCancel(bg())
					kind := Choose(3) // 0: an accessor fails, 1: external cancellation, 2: cancelled before
					n := 5
					var bound int64
					done := make(chan bool)
					t0 := runtime.MCNow()
					at := time.Duration(500+Choose(2)*1000) * time.Millisecond
					switch kind {
					case 1:
						go func() { time.Sleep(at); cancel(); bound = runtime.MCNow(); close(done) }()
					case 2:
						cancel()
						bound = t0
						close(done)
					default:
						close(done)
					}
					var last int64
					c := parCall{api: api, n: n, pool: p, po: o, stop: kind == 0}
					f := func(ctx context.Context, i int) error {
						must(bound == 0 || runtime.MCNow() <= bound, "element %d was accessed after the operation had been stopped", i)
						must(kind != 2, "element %d was accessed although the context was already cancelled", i)
						Ev(evStart, i, 0)
						d := time.Second
						if i == 1 {
							d = 400 * time.Millisecond
						}
						time.Sleep(d)
						Ev(evEnd, i, 0)
						last = runtime.MCNow()
						if kind == 0 && i == 1 {
							bound = runtime.MCNow()
							return errs[1]
						}
						return nil
					}
					var err error
					if api == 0 {
						err = c.run(ctx, f)
					} else {
						in := make(chan int, n)
						for i := 0; i < n; i++ {
							in <- i
						}
						if api == 1 {
							err = chans.Access(ctx, in, f, c.chanOpts()...)
						} else {
							out := make(chan chans.StreamResult[int], n)
							err = callModify(ctx, in, out, func(ctx context.Context, i int) (int, error) { return i, f(ctx, i) }, c.chanOpts()...)
							for range out {
							}
						}
					}
					Ev(evWaited, 0, 0)
					now := runtime.MCNow()
					skipped := 0
					for i := 0; i < n; i++ {
						if pos(evNow(), evStart, i) < 0 {
							skipped++
						}
					}
					must(skipped == 0 || err != nil, "%d elements were skipped but the call returned nil", skipped)
					if api > 0 {
						must(err != nil, "the call returned nil although it was stopped")
					}
					if kind == 0 && pos(evNow(), evStart, 1) >= 0 {
						must(errors.Is(err, errs[1]), "the error of the accessor is missing: %v", err)
					}
					limit := max(bound, last)
					must(now <= limit, "the call returned %v after the last accessor and the stop", time.Duration(now-limit))
					if kind == 0 {
						must(!isDone(ctx), "the context of the caller was cancelled")
					}
					<-done
					cancel()
					if p != nil {
						p.Close()
					}
				},
				Check: func(x *X) error { return accessed(x.Ev, 5, false) },
			})
		}
	}
	// C02: the input is never closed and the producer stops: cancellation at any
	// moment, or a failing accessor with the stop option, ends the call.
	for api := 1; api < 3; api++ {
		for mode := 0; mode < nPoolModes; mode++ {
			Reg(&Scenario{Name: fmt.Sprintf("c02-open-%s-%s", apiNames[api], poolNames[mode]), Props: []string{"C02", []string{"", "C01", "C03"}[api], "D01"}, Race: mode == poolNone, QK: 2, TK: 4, DPOR: 2,
				Body: func(x *X) {
					p, o := mkPool(mode)
					ctx, cancel := context.WithCancel(bg())
					n := 1 + Choose(2)
					stop := Choose(2) == 1
					c := parCall{api: api, n: n, pool: p, po: o, stop: stop}
					in := make(chan int)
					quit := make(chan bool)
					pdone := make(chan bool)
					go func() {
						defer close(pdone)
						for i := 0; i < n; i++ {
							select {
							case in <- i:
							case <-quit:
								return
							}
						}
						if !stop {
							cancel()
						}
					}()
					f := func(ctx context.Context, i int) error {
						Ev(evStart, i, 0)
						P()
						Ev(evEnd, i, 0)
						if stop && i == n-1 {
							return errs[i]
						}
						return nil
					}
					var err error
					if api == 1 {
						err = chans.Access(ctx, in, f, c.chanOpts()...)
					} else {
						out := make(chan chans.StreamResult[int])
						cd := make(chan int)
						go func() {
							k := 0
							for range out {
								k++
							}
							cd <- k
						}()
						err = callModify(ctx, in, out, func(ctx context.Context, i int) (int, error) { return i, f(ctx, i) }, c.chanOpts()...)
						k := <-cd
						ran := 0
						for i := 0; i < n; i++ {
							ran += num(evNow(), evStart, i)
						}
						must(k <= ran, "%d results for %d processed values", k, ran)
						must(stop || k == ran, "%d results for %d successfully processed values", k, ran)
					}
					Ev(evWaited, 0, 0)
					must(err != nil, "the call returned nil although it was stopped")
					if stop {
						must(errors.Is(err, errs[n-1]), "the error of the accessor is missing: %v", err)
						must(!isDone(ctx), "the context of the caller was cancelled")
					} else {
						must(errors.Is(err, context.Canceled), "the error is %v after a cancellation", err)
					}
					close(quit)
					<-pdone
					cancel()
					if p != nil {
						p.Close()
					}
				},
				Check: func(x *X) error { return accessed(x.Ev, 2, false) },
			})
		}
		// Nothing ever arrives on the input.
		Reg(&Scenario{Name: "c02-silent-" + apiNames[api], Props: []string{"C02"}, QK: 3, TK: 5, DPOR: 1,
			Body: func(x *X) {
				ctx, cancel := context.WithCancel(bg())
				in := make(chan int)
				late := Choose(3)
				c := parCall{api: api, stop: Choose(2) == 1}
				done := make(chan bool)
				go func() {
					if late == 1 {
						time.Sleep(time.Second)
					}
					cancel()
					close(done)
				}()
				if late == 2 {
					<-done
				}
				var err error
				if api == 1 {
					err = chans.Access(ctx, in, func(context.Context, int) error { Fail("an accessor was called without a value"); return nil }, c.chanOpts()...)
				} else {
					out := make(chan chans.StreamResult[int])
					err = callModify(ctx, in, out, func(context.Context, int) (int, error) { Fail("a modifier was called without a value"); return 0, nil }, c.chanOpts()...)
					_, ok := <-out
					must(!ok, "a result came out although nothing was sent in")
				}
				must(err != nil, "the call returned nil although it was cancelled")
				<-done
			}})
	}

	// C03: results of Modify.
	for mode := 0; mode < nPoolModes; mode++ {
		for _, v := range []struct{ n, outCap, qk, tk, dpor int }{{2, 0, 2, 4, 2}, {2, 3, 3, 4, 2}, {3, 1, 2, 3, 0}, {4, 4, 1, 2, 0}} {
			if v.n >= 3 && mode != poolNone && mode != poolPooled2 && mode != poolPooled1NB {
				continue
			}
			Reg(&Scenario{Name: fmt.Sprintf("c03-n%dc%d-%s", v.n, v.outCap, poolNames[mode]), Props: []string{"C03", "D01"}, Race: v.n == 2 && v.outCap == 0 && mode <= poolPooled2, QK: v.qk, TK: v.tk, DPOR: v.dpor,
				Body: func(x *X) {
					p, o := mkPool(mode)
					mask := Choose(1 << v.n)
					c := parCall{pool: p, po: o, stop: Choose(2) == 1}
					cancelAt := -1
					if !c.stop && mask == 0 {
						cancelAt = Choose(v.n+1) - 1
					}
					ctx, cancel := context.WithCancel(bg())
					in := make(chan int, v.n)
					for i := 0; i < v.n; i++ {
						in <- i
					}
					close(in)
					out := make(chan chans.StreamResult[int], v.outCap)
					oks := make([]int, v.n)
					bad := make([]int, v.n)
					take := func(r chans.StreamResult[int]) {
						if r.Err == nil {
							must(r.Value%7 == 0 && r.Value/7 >= 1 && r.Value/7 <= v.n, "a result that no modifier produced came out: %d", r.Value)
							oks[r.Value/7-1]++
							return
						}
						k := -1
						for i := range bad {
							if errors.Is(r.Err, errs[i]) {
								k = i
							}
						}
						must(k >= 0, "an error that no modifier returned came out: %v", r.Err)
						must(r.Value == 0, "a result carries both an error and the value %d", r.Value)
						bad[k]++
					}
					cd := make(chan bool)
					buffered := v.outCap >= v.n
					if !buffered {
						go func() {
							for r := range out {
								take(r)
							}
							close(cd)
						}()
					}
					err := callModify(ctx, in, out, func(ctx context.Context, i int) (int, error) {
						Ev(evStart, i, 0)
						P()
						if i == cancelAt {
							cancel()
						}
						Ev(evEnd, i, 0)
						if mask>>i&1 == 1 {
							return (i + 1) * 70, errs[i]
						}
						return (i + 1) * 7, nil
					}, c.chanOpts()...)
					Ev(evWaited, 0, 0)
					if buffered {
						for {
							closed := false
							select {
							case r, ok := <-out:
								if ok {
									take(r)
								}
								closed = !ok
							default:
								Fail("the output is not closed although the call has returned")
							}
							if closed {
								break
							}
						}
					} else {
						<-cd
					}
					failed := 0
					for i := 0; i < v.n; i++ {
						ran := num(evNow(), evStart, i)
						want, wantBad := 0, 0
						if mask>>i&1 == 1 {
							wantBad = ran
							failed += ran
						} else {
							want = ran
						}
						// Once the context is cancelled a result may be dropped, but
						// not one that had been delivered before.
						cancelled := len(evNow())
						if cancelAt >= 0 && pos(evNow(), evStart, cancelAt) >= 0 {
							cancelled = pos(evNow(), evStart, cancelAt)
						}
						for j := 0; c.stop && j < v.n; j++ {
							if q := pos(evNow(), evStart, j); mask>>j&1 == 1 && q >= 0 {
								cancelled = min(cancelled, q)
							}
						}
						if cancelled == len(evNow()) || poolSize(mode) == 1 && pos(evNow(), evEnd, i) < cancelled {
							must(oks[i] == want, "value %d was processed successfully %d times, but has %d results", i, want, oks[i])
						} else {
							must(oks[i] <= want, "value %d was processed successfully %d times, but has %d results", i, want, oks[i])
						}
						if c.stop || cancelAt >= 0 {
							must(bad[i] <= wantBad, "value %d failed %d times, but has %d error results", i, wantBad, bad[i])
						} else {
							must(bad[i] == wantBad, "value %d failed %d times, but has %d error results", i, wantBad, bad[i])
							must(ran == 1, "value %d was processed %d times", i, ran)
						}
					}
					must(failed == 0 || err != nil, "the call returned nil although a modifier failed")
					if !c.stop && cancelAt < 0 {
						must((err == nil) == (mask == 0), "the call returned %v with failing modifiers %b", err, mask)
					}
					if c.stop && failed > 0 && poolSize(mode) == 1 {
						// The first failure cannot have been dropped.
						k := 0
						for i := range bad {
							k += bad[i]
						}
						must(k >= 1, "the error of the first failing modifier did not come out")
					}
					cancel()
					if p != nil {
						p.Close()
					}
				},
				Check: func(x *X) error { return accessed(x.Ev, v.n, false) },
			})
		}
	}
	// The consumer takes some error results and then no more: cancelling the
	// context ends the call all the same.
	for mode := 0; mode < nPoolModes; mode++ {
		Reg(&Scenario{Name: "c03-hold-" + poolNames[mode], Props: []string{"C03", "C02"}, QK: 2, TK: 4,
			Body: func(x *X) {
				p, o := mkPool(mode)
				ctx, cancel := context.WithCancel(bg())
				n := 1 + Choose(3)
				taken := Choose(n)
				c := parCall{pool: p, po: o, stop: Choose(2) == 1}
				in := make(chan int, n)
				for i := 0; i < n; i++ {
					in <- i
				}
				if Choose(2) == 1 {
					close(in)
				}
				out := make(chan chans.StreamResult[int])
				if c.stop {
					taken = 0
				}
				go func() {
					for i := 0; i < taken; i++ {
						r, ok := <-out
						must(ok && r.Err != nil && r.Value == 0, "a result of a failed modifier is %v, %v", r, ok)
					}
					time.Sleep(time.Second)
					cancel()
				}()
				err := callModify(ctx, in, out, func(ctx context.Context, i int) (int, error) {
					Ev(evStart, i, 0)
					P()
					Ev(evEnd, i, 0)
					return i + 1, errs[i]
				}, c.chanOpts()...)
				Ev(evWaited, 0, 0)
				must(err != nil, "the call returned nil although every modifier failed")
				if poolSize(mode) == 1 && taken > 0 {
					must(errors.Is(err, errs[0]) || errors.Is(err, errs[1]) || errors.Is(err, errs[2]), "the returned error %v is not one of the modifiers'", err)
				}
				must(isDone(ctx), "the call returned before the context was cancelled and with results left")
				_, ok := <-out
				must(!ok, "the output is open after the call")
				cancel()
				if p != nil {
					p.Close()
				}
			},
			Check: func(x *X) error { return accessed(x.Ev, 3, false) },
		})
		// A consumer that takes its time.
		Reg(&Scenario{Name: "c03-slow-" + poolNames[mode], Props: []string{"C03"}, QK: 1, TK: 2,
			Body: func(x *X) {
				p, o := mkPool(mode)
				n := 3
				c := parCall{pool: p, po: o}
				mask := Choose(8)
				in := make(chan int, n)
				for i := 0; i < n; i++ {
					in <- i
				}
				close(in)
				out := make(chan chans.StreamResult[int], Choose(2))
				got := make(chan int)
				go func() {
					k := 0
					for {
						time.Sleep(100 * time.Hour)
						r, ok := <-out
						if !ok {
							break
						}
						i := r.Value - 1
						for j := range errs[:n] {
							if errors.Is(r.Err, errs[j]) {
								i = j
							}
						}
						must(i >= 0 && i < n && (r.Err != nil) == (mask>>i&1 == 1) && (r.Err == nil || r.Value == 0), "a result that no modifier produced came out: %v", r)
						must(k>>i&1 == 0, "a second result for value %d", i)
						k |= 1 << i
					}
					got <- k
				}()
				err := callModify(bg(), in, out, func(ctx context.Context, i int) (int, error) {
					if mask>>i&1 == 1 {
						return i + 1, errs[i]
					}
					return i + 1, nil
				}, c.chanOpts()...)
				must((err == nil) == (mask == 0), "the call returned %v with failing modifiers %b", err, mask)
				k := <-got
				must(k == 7, "the results of the values %b came out", k)
				if p != nil {
					p.Close()
				}
			}})
	}
	Reg(&Scenario{Name: "c03-nil", Props: []string{"C03", "C01"}, QK: 2, TK: 4,
		Body: func(x *X) {
			switch Choose(3) {
			case 0:
				out := make(chan chans.StreamResult[int], 1)
				callModify(bg(), nil, out, func(context.Context, int) (int, error) { Fail("called without input"); return 0, nil })
				select {
				case _, ok := <-out:
					must(!ok, "a result came out of a nil input")
				default:
					Fail("the output is not closed although the call has returned")
				}
			case 1:
				in := make(chan int)
				close(in)
				out := make(chan chans.StreamResult[int])
				err := callModify(bg(), in, out, func(context.Context, int) (int, error) { Fail("called without input"); return 0, nil })
				must(err == nil, "the call returned %v for an empty input", err)
				_, ok := <-out
				must(!ok, "a result came out of an empty input")
			case 2:
				err := chans.Access(bg(), nil, func(context.Context, int) error { Fail("called without input"); return nil })
				must(err == nil, "the call returned %v for a nil input", err)
			}
		}})

	// S03, C04: supplied pools and options.
	for api := 0; api < 3; api++ {
		prop := []string{"S03", "C04", "C04"}[api]
		for kind := 0; kind < 2; kind++ {
			for size := 1; size <= 2; size++ {
				for n := 2; n <= 4; n++ {
					if n == 4 && size == 1 || n == 2 && size == 2 {
						continue
					}
					Reg(&Scenario{Name: fmt.Sprintf("par-pool-%s-%s%d-n%d", apiNames[api], kindNames[kind], size, n), Props: []string{prop}, QK: map[int]int{2: 3, 3: 2, 4: 1}[n], TK: map[int]int{2: 4, 3: 3, 4: 2}[n], DPOR: map[int]int{2: 2, 3: 0, 4: 0}[n],
						Body: func(x *X) {
							p := mustPool(kind, size)
							c := parCall{api: api, n: n, pool: p, stop: Choose(2) == 1, swap: Choose(2) == 1}
							opt := Choose(5)
							switch opt {
							case 1:
								c.po = append(c.po, caller(kind))
							case 2:
								c.po = append(c.po, nonBlocking(kind))
							case 3:
								c.po = append(c.po, nonBlocking(kind), caller(kind))
							case 4:
								c.po = append(c.po, caller(kind), nonBlocking(kind))
							}
							nb := opt >= 2
							err := c.run(bg(), func(ctx context.Context, i int) error {
								Ev(evStart, i, 0)
								a := Ctr(0, 1)
								must(nb || a <= size, "%d accessors run at once in a pool of size %d", a, size)
								r := p.Running()
								must(r >= 1, "the accessor does not run as a job of the supplied pool")
								P()
								Ctr(0, -1)
								Ev(evEnd, i, 0)
								return nil
							})
							Ev(evWaited, 0, 0)
							must(err == nil, "the call failed: %v", err)
							must(p.Len() == size, "the length of the pool changed to %d", p.Len())
							// Open and usable.
							barrier(p, size, 50)
							p.Wait()
							must(p.Running() == 0, "%d jobs remain in the pool", p.Running())
							p.Close()
						},
						Check: func(x *X) error { return accessed(x.Ev, n, true) },
					})
				}
				// A saturated pool: with the non-blocking option the call proceeds,
				// without it the accessors wait for their turn.
				Reg(&Scenario{Name: fmt.Sprintf("par-sat-%s-%s%d", apiNames[api], kindNames[kind], size), Props: []string{prop}, QK: 2, TK: 3,
					Body: func(x *X) {
						p := mustPool(kind, size)
						gate := make(chan bool)
						in := make(chan bool, size)
						for i := 0; i < size; i++ {
							submit(p, 50+i, func(context.Context) { in <- true; <-gate; Ev(evClosed, 0, 0) })
						}
						for i := 0; i < size; i++ {
							<-in
						}
						opt := Choose(5)
						nb := opt >= 2
						n := 1 + Choose(2)
						c := parCall{api: api, n: n, pool: p, stop: Choose(2) == 1, swap: Choose(2) == 1}
						switch opt {
						case 1:
							c.po = []goroutines.SubmitOption{caller(kind)}
						case 2:
							c.po = []goroutines.SubmitOption{nonBlocking(kind)}
						case 3:
							c.po = []goroutines.SubmitOption{nonBlocking(kind), caller(kind)}
						case 4:
							c.po = []goroutines.SubmitOption{caller(kind), nonBlocking(kind)}
						}
						if !nb {
							go func() {
								time.Sleep(time.Second)
								must(num(evNow(), evStart, 0) == 0 && num(evNow(), evStart, 1) == 0, "an accessor was started although the pool is saturated")
								close(gate)
							}()
						}
						err := c.run(bg(), func(ctx context.Context, i int) error {
							Ev(evStart, i, 0)
							must(p.Running() >= 1+size*b2i(nb), "the accessor does not run as a job of the supplied pool")
							P()
							Ev(evEnd, i, 0)
							return nil
						})
						must(num(evNow(), evStart, n-1) == 1, "element %d was not accessed", n-1)
						Ev(evWaited, 0, 0)
						must(err == nil, "the call failed: %v", err)
						if nb {
							close(gate)
						}
						p.Close()
					},
					Check: func(x *X) error { return accessed(x.Ev, 2, false) },
				})
				// Two calls at once on the same pool.
				if n := size; n == 2 {
					Reg(&Scenario{Name: fmt.Sprintf("par-share-%s-%s%d", apiNames[api], kindNames[kind], size), Props: []string{prop, []string{"S01", "C01", "C03"}[api], "D01"}, Race: true, QK: 1, TK: 3,
						Body: func(x *X) {
							p := mustPool(kind, size)
							done := make(chan bool, 2)
							for s := 0; s < 2; s++ {
								c := parCall{api: api, n: 2, pool: p}
								go func() {
									err := c.run(bg(), func(ctx context.Context, i int) error {
										a := Ctr(0, 1)
										must(a <= size, "%d accessors run at once in a pool of size %d", a, size)
										Ctr(1+s, 1)
										P()
										Ctr(0, -1)
										return nil
									})
									must(err == nil, "the call failed: %v", err)
									must(Ctr(1+s, 0) == 2, "%d elements were accessed by the time the call returned", Ctr(1+s, 0))
									done <- true
								}()
							}
							<-done
							<-done
							barrier(p, size, 50)
							p.Close()
						}})
				}
			}
		}
		// Without a pool: every option combination works and nothing remains.
		Reg(&Scenario{Name: "par-nopool-" + apiNames[api], Props: []string{prop}, QK: 2, TK: 4,
			Body: func(x *X) {
				c := parCall{api: api, n: Choose(4), stop: Choose(2) == 1}
				mask := Choose(2)
				err := c.run(bg(), func(ctx context.Context, i int) error {
					Ev(evStart, i, 0)
					P()
					Ev(evEnd, i, 0)
					if i == 0 && mask == 1 {
						return errs[0]
					}
					return nil
				})
				Ev(evWaited, 0, 0)
				must((err != nil) == (mask == 1 && c.n > 0), "the call returned %v", err)
			},
			Check: func(x *X) error { return accessed(x.Ev, 4, false) },
		})
	}
}
