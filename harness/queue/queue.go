package main

import (
	"fmt"
	"time"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe/zzbridge"
)

const (
	evPush   = 1 // push of value a begins
	evPushed = 2 // push of value a returned
	evPop    = 3 // pop begins on consumer a
	evGot    = 4 // pop on consumer a gave b
	evFin    = 5 // pop on consumer a reported the end
	evClose  = 6
	evClosed = 7
)

func must(ok bool, f string, a ...any) {
	if !ok {
		Fail(f, a...)
	}
}

// judge checks a complete history against the queue's specification.
func judge(x *X, limit int) error {
	pushed := map[int64]bool{}
	begun := map[int64]bool{}
	popped := map[int64]bool{}
	n := 0 // pushes that returned less pops that returned
	closing := false
	waiting := 0 // pops that began and may have removed something
	last := map[int64]int64{}
	for i := range x.Ev {
		e := &x.Ev[i]
		switch e.Code {
		case evPush:
			begun[e.A] = true
		case evPushed:
			pushed[e.A] = true
			n++
			// Values whose push returned and that no pop can have removed yet.
			if limit > 0 && n-waiting > limit {
				return fmt.Errorf("%d values are in a queue with limit %d", n-waiting, limit)
			}
		case evPop:
			waiting++
		case evGot:
			waiting--
			n--
			if !begun[e.B] {
				return fmt.Errorf("a pop gave %d, which nobody had pushed", e.B)
			}
			if popped[e.B] {
				return fmt.Errorf("the value %d came out twice", e.B)
			}
			popped[e.B] = true
			// A consumer sees the values of a producer in order.
			k := e.A*1000 + e.B/100
			if l, ok := last[k]; ok && l > e.B {
				return fmt.Errorf("consumer %d got %d after %d of the same producer", e.A, e.B, l)
			}
			last[k] = e.B
		case evFin:
			waiting--
			if !closing {
				return fmt.Errorf("a pop reported the end of an open queue")
			}
		case evClose:
			closing = true
		}
	}
	for v := range pushed {
		if !popped[v] {
			return fmt.Errorf("the value %d was pushed and never came out", v)
		}
	}
	return fifo(x)
}

// fifo checks real-time order: if the push of u returned before that of v began,
// then no pop may give v and return before a pop that gives u begins.
func fifo(x *X) error {
	pb, pe := map[int64]int{}, map[int64]int{}
	gb, ge := map[int64]int{}, map[int64]int{}
	start := map[int64]int{}
	var vals []int64
	for i := range x.Ev {
		e := &x.Ev[i]
		switch e.Code {
		case evPush:
			pb[e.A] = i
			vals = append(vals, e.A)
		case evPushed:
			pe[e.A] = i
		case evPop:
			start[e.A] = i
		case evGot:
			gb[e.B], ge[e.B] = start[e.A], i
		}
	}
	for _, u := range vals {
		for _, v := range vals {
			if e, ok := pe[u]; u == v || !ok || e > pb[v] {
				continue
			}
			gv, ok := ge[v]
			if !ok {
				continue
			}
			if _, ok := ge[u]; !ok || gb[u] > gv {
				return fmt.Errorf("the value %d came out before %d, which had been pushed first", v, u)
			}
		}
	}
	return nil
}

func init() {
	// Sequences of operations against a reference.
	for _, limit := range []int{-1, 0, 1, 2, 3} {
		for _, depth := range []int{8, 12} {
			qk := 0
			if depth > 8 {
				qk = -1
			}
			Reg(&Scenario{Name: fmt.Sprintf("queue-seq-l%d-d%d", limit, depth), Props: []string{"Q01"}, QK: qk, TK: 0,
				Body: func(x *X) {
					q := zzbridge.New[int](limit)
					var ref []int
					closed := false
					n := 0
					for d := 0; d < depth; d++ {
						push := !closed && (limit <= 0 || len(ref) < limit)
						pop := len(ref) > 0 || closed
						var ops []int
						if push {
							ops = append(ops, 0)
						}
						if pop {
							ops = append(ops, 1)
						}
						if !closed {
							ops = append(ops, 2)
						}
						op := ops[0]
						if len(ops) > 1 {
							op = ops[Choose(len(ops))]
						}
						switch op {
						case 0:
							n++
							q.Push(n)
							ref = append(ref, n)
						case 1:
							v, ok := q.Pop()
							if len(ref) == 0 {
								must(!ok, "a pop of an empty closed queue gave %d", v)
								break
							}
							must(ok, "a pop reported the end although %d values are left", len(ref))
							must(v == ref[0], "a pop gave %d instead of %d", v, ref[0])
							ref = ref[1:]
						case 2:
							q.Close()
							closed = true
						}
					}
					if !closed {
						q.Close()
					}
					for _, w := range ref {
						v, ok := q.Pop()
						must(ok && v == w, "after closing a pop gave %d, %v instead of %d", v, ok, w)
					}
					for i := 0; i < 2; i++ {
						v, ok := q.Pop()
						must(!ok && v == 0, "an empty closed queue gave %d, %v", v, ok)
					}
				}})
		}
	}
	// Concurrent producers and consumers.
	for _, v := range []struct {
		prod, each, cons, limit int
		qk, tk                  int
	}{
		{1, 1, 1, 0, 3, 5}, {1, 2, 1, 0, 3, 5}, {1, 2, 1, 1, 3, 5}, {1, 3, 1, 1, 3, 4}, {1, 3, 1, 2, 3, 4},
		{2, 1, 1, 0, 3, 5}, {2, 1, 1, 1, 3, 4}, {2, 1, 1, 2, 3, 4}, {2, 2, 1, 1, 2, 4}, {2, 2, 1, 2, 2, 4}, {2, 2, 1, 0, 2, 4},
		{1, 1, 2, 0, 3, 5}, {1, 2, 2, 0, 3, 4}, {1, 2, 2, 1, 3, 4}, {1, 3, 2, 2, 2, 4}, {1, 3, 2, 1, 2, 4},
		{2, 1, 2, 0, 3, 4}, {2, 1, 2, 1, 2, 4}, {2, 1, 2, 2, 2, 4}, {2, 2, 2, 1, 2, 3}, {2, 2, 2, 2, 2, 3}, {2, 2, 2, 0, 2, 3},
		{3, 1, 1, 0, 2, 4}, {3, 1, 2, 2, 2, 3}, {3, 1, 3, 1, 1, 3}, {3, 1, 3, 2, 1, 3},
	} {
		race := v.prod*v.each*v.cons <= 4
		props := []string{"Q01"}
		if race {
			props = append(props, "D01")
		}
		Reg(&Scenario{Name: fmt.Sprintf("queue-p%dx%d-c%d-l%d", v.prod, v.each, v.cons, v.limit), Props: props, QK: v.qk, TK: v.tk, Race: race, RK: 1,
			Body: func(x *X) {
				q := zzbridge.New[int](v.limit)
				done := make(chan struct{}, v.prod)
				cdone := make(chan struct{}, v.cons)
				for p := 0; p < v.prod; p++ {
					go func() {
						for i := 0; i < v.each; i++ {
							val := 100*p + i + 1
							Ev(evPush, val, 0)
							q.Push(val)
							Ev(evPushed, val, 0)
						}
						done <- struct{}{}
					}()
				}
				for c := 0; c < v.cons; c++ {
					go func() {
						for {
							Ev(evPop, c, 0)
							val, ok := q.Pop()
							if !ok {
								must(val == 0, "the end came with the value %d", val)
								Ev(evFin, c, 0)
								break
							}
							Ev(evGot, c, val)
						}
						cdone <- struct{}{}
					}()
				}
				for p := 0; p < v.prod; p++ {
					<-done
				}
				Ev(evClose, 0, 0)
				q.Close()
				Ev(evClosed, 0, 0)
				for c := 0; c < v.cons; c++ {
					<-cdone
				}
			},
			Check: func(x *X) error { return judge(x, v.limit) },
		})
	}
	// Many values.
	for _, v := range []struct{ prod, cons, limit, each int }{{1, 1, 0, 300}, {1, 1, 3, 300}, {2, 2, 5, 100}, {3, 1, 1, 60}} {
		Reg(&Scenario{Name: fmt.Sprintf("queue-long-p%d-c%d-l%d", v.prod, v.cons, v.limit), Props: []string{"Q01"}, QK: 0, TK: 0, DK: -1,
			Body: func(x *X) {
				q := zzbridge.New[int](v.limit)
				first := Choose(2) // consumers from the start, or once the producers cannot go on
				done, fin := make(chan bool, v.prod), make(chan bool, v.cons)
				var out, held int
				for p := 0; p < v.prod; p++ {
					go func() {
						for i := 0; i < v.each; i++ {
							q.Push(p*1000 + i)
							held++
						}
						done <- true
					}()
				}
				if first == 1 {
					time.Sleep(time.Second)
					must(v.limit == 0 && held == v.prod*v.each || v.limit > 0 && held == v.limit, "%d values fit into a queue with limit %d", held, v.limit)
				}
				seen := make([]int, v.prod*1000)
				for c := 0; c < v.cons; c++ {
					go func() {
						last := make([]int, v.prod)
						for {
							val, ok := q.Pop()
							if !ok {
								break
							}
							held--
							out++
							must(val >= 0 && val < len(seen) && val%1000 < v.each, "nobody pushed %d", val)
							seen[val]++
							must(seen[val] == 1, "the value %d came out twice", val)
							must(v.cons > 1 || last[val/1000] == val%1000, "the values of producer %d came out in another order", val/1000)
							last[val/1000]++
						}
						fin <- true
					}()
				}
				for p := 0; p < v.prod; p++ {
					<-done
				}
				q.Close()
				for c := 0; c < v.cons; c++ {
					<-fin
				}
				must(out == v.prod*v.each, "%d values were pushed and %d came out", v.prod*v.each, out)
			},
		})
	}
	// Without a limit any number of values fit in.
	for _, limit := range []int{0, -1, -7} {
		Reg(&Scenario{Name: fmt.Sprintf("queue-many-l%d", limit), Props: []string{"Q01"}, QK: 0, TK: 0, DK: -1, MaxSteps: 1000000,
			Body: func(x *X) {
				const n = 5000
				q := zzbridge.New[int](limit)
				for i := 0; i < n; i++ {
					q.Push(i)
				}
				if Choose(2) == 0 {
					q.Close()
				}
				for i := 0; i < n; i++ {
					v, ok := q.Pop()
					must(ok && v == i, "value %d came out as %d, %v", i, v, ok)
				}
				q.Close()
				v, ok := q.Pop()
				must(!ok && v == 0, "the empty queue gave %d, %v", v, ok)
			}})
	}
	// A consumer that has to wait for minutes.
	Reg(&Scenario{Name: "queue-patient", Props: []string{"Q01"}, QK: 0, TK: 0, DK: -1, MaxSteps: 3000000,
		Body: func(x *X) {
			q := zzbridge.New[int](Choose(2))
			last := Choose(2)
			go func() {
				time.Sleep(510 * time.Second)
				if last == 1 {
					q.Push(5)
				}
				q.Close()
			}()
			v, ok := q.Pop()
			must(ok == (last == 1) && v == 5*last, "the queue gave %d, %v", v, ok)
		}})
	// A producer that has to wait for days.
	for _, limit := range []int{1, 2} {
		Reg(&Scenario{Name: fmt.Sprintf("queue-waits-l%d", limit), Props: []string{"Q01"}, QK: 1, TK: 2,
			Body: func(x *X) {
				q := zzbridge.New[int](limit)
				n := limit + 2
				go func() {
					for i := 1; i <= n; i++ {
						q.Push(i)
						must(Ctr(0, 1)-limit <= Ctr(1, 0), "%d pushes returned with %d values taken from a queue with limit %d", Ctr(0, 0), Ctr(1, 0), limit)
					}
					q.Close()
				}()
				for i := 1; ; i++ {
					time.Sleep(100 * time.Hour)
					Ctr(1, 1)
					v, ok := q.Pop()
					if !ok {
						must(i == n+1, "the queue ended after %d of %d values", i-1, n)
						break
					}
					must(v == i, "a pop gave %d instead of %d", v, i)
				}
			}})
	}
	// Consumers that come only after the queue is full, or stop before the end.
	for _, limit := range []int{1, 2} {
		Reg(&Scenario{Name: fmt.Sprintf("queue-full-l%d", limit), Props: []string{"Q01"}, QK: 3, TK: 5,
			Body: func(x *X) {
				q := zzbridge.New[int](limit)
				done := make(chan struct{})
				go func() {
					for i := 1; i <= limit+2; i++ {
						Ev(evPush, i, 0)
						q.Push(i)
						Ev(evPushed, i, 0)
						Ctr(1, 1)
					}
					Ev(evClose, 0, 0)
					q.Close()
					close(done)
				}()
				n := 0
				for {
					P()
					must(Ctr(1, 0) <= n+limit, "%d pushes returned although only %d values were taken from a queue with limit %d", Ctr(1, 0), n, limit)
					Ev(evPop, 0, 0)
					val, ok := q.Pop()
					if !ok {
						break
					}
					n++
					Ev(evGot, 0, val)
					must(val == n, "a pop gave %d instead of %d", val, n)
				}
				must(n == limit+2, "%d values came out", n)
				<-done
			},
			Check: func(x *X) error { return judge(x, limit) },
		})
	}
}
