package main

import (
	"context"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

var _ = runtime.NumCPU
var _ sync.Mutex

func init() {
	// n goroutines do m atomic ops each on distinct/same objects.
	for _, c := range []struct {
		n, m int
		same bool
	}{{2, 2, true}, {2, 4, true}, {3, 2, true}, {3, 3, false}, {2, 6, false}} {
		c := c
		Reg(&Scenario{Name: fmt.Sprintf("atom-%d-%d-%v", c.n, c.m, c.same), Body: func(x *X) {
			vs := make([]atomic.Int64, 8)
			var wg sync.WaitGroup
			wg.Add(c.n)
			for i := 0; i < c.n; i++ {
				go func() {
					for j := 0; j < c.m; j++ {
						k := 0
						if !c.same {
							k = i
						}
						r := vs[k].Add(1)
						_ = r
						Ev(i, j, 0)
					}
					wg.Done()
				}()
			}
			wg.Wait()
		}})
	}
	Reg(&Scenario{Name: "lost-update", Body: func(x *X) {
		var v atomic.Int64
		var wg sync.WaitGroup
		wg.Add(2)
		for i := 0; i < 2; i++ {
			go func() {
				t := v.Load()
				v.Store(t + 1)
				wg.Done()
			}()
		}
		wg.Wait()
		if v.Load() != 2 {
			Fail("lost update")
		}
	}})
	Reg(&Scenario{Name: "deadlock", Body: func(x *X) {
		var a, b sync.Mutex
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { a.Lock(); b.Lock(); b.Unlock(); a.Unlock(); wg.Done() }()
		go func() { b.Lock(); a.Lock(); a.Unlock(); b.Unlock(); wg.Done() }()
		wg.Wait()
	}})
	Reg(&Scenario{Name: "select", Body: func(x *X) {
		a, b := make(chan int, 1), make(chan int, 1)
		a <- 1
		b <- 2
		select {
		case v := <-a:
			Ev(1, v, 0)
		case v := <-b:
			Ev(1, v, 0)
		}
	}})
	Reg(&Scenario{Name: "timer", Body: func(x *X) {
		ctx, cancel := context.WithTimeout(context.Background(), time.Second)
		defer cancel()
		t := time.NewTicker(300 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-t.C:
				Ev(1, int(runtime.MCNow()/1e6), 0)
				continue
			case <-ctx.Done():
			}
			break
		}
		time.Sleep(time.Second)
		Ev(2, int(runtime.MCNow()/1e6), 0)
	}})
	Reg(&Scenario{Name: "panic", Body: func(x *X) {
		done := make(chan bool)
		go func() { defer close(done); var p *int; *p = 1 }()
		<-done
	}})
	Reg(&Scenario{Name: "plainrace", Body: func(x *X) {
		n := 0
		done := make(chan bool, 1)
		go func() { n++; done <- true }()
		n++
		<-done
		Ev(1, n, 0)
	}})
	Reg(&Scenario{Name: "plainok", Body: func(x *X) {
		n := 0
		done := make(chan bool, 1)
		go func() { n++; done <- true }()
		<-done
		n++
		Ev(1, n, 0)
	}})
	Reg(&Scenario{Name: "chan-pc", Body: func(x *X) {
		ch := make(chan int, 1)
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); ch <- i; ch <- i + 10 }()
		}
		for i := 0; i < 4; i++ {
			Ev(1, <-ch, 0)
		}
		wg.Wait()
	}})
	Reg(&Scenario{Name: "mutex3", Body: func(x *X) {
		var mu sync.Mutex
		var wg sync.WaitGroup
		wg.Add(3)
		n := 0
		for i := 0; i < 3; i++ {
			go func() {
				defer wg.Done()
				for j := 0; j < 2; j++ {
					mu.Lock()
					n++
					Ev(1, i, n)
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
	}})
}
