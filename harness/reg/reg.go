package main

import (
	"fmt"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"
	"github.com/gostdlib/concurrency/goroutines/zzbridge"
)

const (
	evNew    = 1 // pool a has been created (after New returned)
	evClose  = 2 // Close of pool a is about to be called
	evClosed = 3 // Close of pool a returned
	evList   = 4 // listing a is about to begin
	evBegun  = 5 // listing a: Pools returned
	evItem   = 6 // listing a yielded pool b
	evEnd    = 7 // listing a ended
	evBegin  = 8 // New of pool a is about to be called
)

func must(ok bool, f string, a ...any) {
	if !ok {
		Fail(f, a...)
	}
}

func newPool(kind int, name string) goroutines.Pool {
	var p goroutines.Pool
	var err error
	if kind == 0 {
		p, err = limited.New(name, 1)
	} else {
		p, err = pooled.New(name, 1)
	}
	must(err == nil, "creating a pool named %q failed: %v", name, err)
	return p
}

// pools numbers the pools of one execution.
type pools struct {
	p     [64]goroutines.Pool
	named [64]bool
}

func (ps *pools) make(id, kind int, name string) goroutines.Pool {
	Ev(evBegin, id, 0)
	p := newPool(kind, name)
	ps.p[id], ps.named[id] = p, name != ""
	EvP(evNew, id, 0)
	P()
	return p
}

func (ps *pools) close(id int) {
	P()
	EvP(evClose, id, 0)
	ps.p[id].Close()
	EvP(evClosed, id, 0)
}

func list(l int) <-chan goroutines.Pool {
	P()
	EvP(evList, l, 0)
	ch := zzbridge.Pools()
	Ev(evBegun, l, 0)
	return ch
}

// take receives up to n pools from the listing.
func (ps *pools) take(l int, ch <-chan goroutines.Pool, n int, got *[]goroutines.Pool) bool {
	for i := 0; n < 0 || i < n; i++ {
		p, ok := <-ch
		if !ok {
			EvP(evEnd, l, 0)
			return false
		}
		*got = append(*got, p)
		Ev(evItem, l, len(*got)-1)
	}
	return true
}

// check judges the listings from the order of the events.
func (ps *pools) check(x *X, got [][]goroutines.Pool) error {
	id := func(p goroutines.Pool) int {
		for i := range ps.p {
			if ps.p[i] == p {
				return i
			}
		}
		return -1
	}
	for l := range got {
		begin, end := -1, -1
		created, closing, closed := map[int]int{}, map[int]int{}, map[int]int{}
		inv := map[int]int{}
		for i := range x.Ev {
			e := &x.Ev[i]
			switch e.Code {
			case evBegin:
				inv[int(e.A)] = i
			case evNew:
				created[int(e.A)] = i
			case evClose:
				closing[int(e.A)] = i
			case evClosed:
				closed[int(e.A)] = i
			case evList:
				if int(e.A) == l {
					begin = i
				}
			case evEnd:
				if int(e.A) == l {
					end = i
				}
			}
		}
		if begin < 0 {
			continue
		}
		n := map[int]int{}
		for _, p := range got[l] {
			j := id(p)
			if j < 0 {
				return fmt.Errorf("listing %d yielded something that is not a pool of this program", l)
			}
			n[j]++
			if n[j] > 1 {
				return fmt.Errorf("listing %d yielded pool %d (%q) twice", l, j, p.GetName())
			}
			if !ps.named[j] {
				return fmt.Errorf("listing %d yielded an unnamed pool", l)
			}
			if c, ok := closed[j]; ok && c < begin {
				return fmt.Errorf("listing %d yielded pool %d (%q), which had been closed before the listing began", l, j, p.GetName())
			}
		}
		if end < 0 {
			continue
		}
		for j, c := range created {
			if !ps.named[j] || c > begin {
				continue
			}
			if k, ok := closing[j]; ok && k < end {
				continue
			}
			if n[j] != 1 {
				return fmt.Errorf("listing %d did not yield pool %d (%q), which was registered throughout", l, j, ps.p[j].GetName())
			}
		}
		for j := range n {
			if i, ok := inv[j]; !ok || i > end {
				return fmt.Errorf("listing %d yielded pool %d before it was created", l, j)
			}
		}
	}
	return nil
}

var bases = []string{"a", "b", ""}

func init() {
	type state struct {
		ps  *pools
		got [][]goroutines.Pool
	}
	check := func(x *X) error {
		s := x.Data.(*state)
		return s.ps.check(x, s.got)
	}
	// Sequences of operations. A listing may stay open while the others go on.
	for _, depth := range []int{4, 5, 6} {
		qk := 0
		if depth > 5 {
			qk = -1
		}
		Reg(&Scenario{Name: fmt.Sprintf("reg-seq%d", depth), Props: []string{"R01"}, QK: qk, TK: 0, AllowLive: depth, Check: check,
			Body: func(x *X) {
				s := &state{ps: &pools{}}
				x.Data = s
				var live []int
				var open []<-chan goroutines.Pool
				var openID []int
				n := 0
				for d := 0; d < depth; d++ {
					switch op := Choose(8); op {
					case 0, 1, 2:
						s.ps.make(n, (n+d)%2, bases[op])
						live = append(live, n)
						n++
					case 3, 4: // the oldest, the newest
						if len(live) == 0 {
							break
						}
						i := 0
						if op == 4 {
							i = len(live) - 1
						}
						s.ps.close(live[i])
						live = append(live[:i:i], live[i+1:]...)
					case 5, 6: // list everything; only begin and take one
						l := len(s.got)
						s.got = append(s.got, nil)
						ch := list(l)
						lim := -1
						if op == 6 {
							lim = 1
						}
						if s.ps.take(l, ch, lim, &s.got[l]) {
							open, openID = append(open, ch), append(openID, l)
						}
					case 7: // take the rest of the oldest open listing
						if len(open) == 0 {
							break
						}
						s.ps.take(openID[0], open[0], -1, &s.got[openID[0]])
						open, openID = open[1:], openID[1:]
					}
				}
				for _, i := range live {
					s.ps.close(i)
				}
			}})
	}
	// Many pools, of which some are closed again.
	Reg(&Scenario{Name: "reg-long", Props: []string{"R01"}, QK: 0, TK: 0, DK: -1, AllowLive: 1, Check: check,
		Body: func(x *X) {
			s := &state{ps: &pools{}}
			x.Data = s
			s.got = make([][]goroutines.Pool, 12)
			same := Choose(2)
			var live []int
			l := 0
			for i := 0; i < 40; i++ {
				s.ps.make(i, 0, bases[min(i%3, 2)*(1-same)])
				live = append(live, i)
				if i%4 == 3 {
					s.ps.close(live[i/4])
					live = append(live[:i/4:i/4], live[i/4+1:]...)
				}
				if i%8 == 7 {
					s.ps.take(l, list(l), -1, &s.got[l])
					l++
				}
			}
			for len(live) > 0 {
				s.ps.close(live[len(live)/2])
				live = append(live[:len(live)/2:len(live)/2], live[len(live)/2+1:]...)
				if len(live)%8 == 0 {
					s.ps.take(l, list(l), -1, &s.got[l])
					l++
				}
			}
		}})
	// Concurrent creations, closings and listings. Each goroutine runs a script:
	// c and d create and keep a pool, C creates and closes one, l lists, p takes one
	// of a listing and leaves it, x closes the oldest kept pool of this goroutine.
	for _, v := range []struct {
		name    string
		pre     int // pools that exist from the start
		scripts []string
		qk, tk  int
		dpor    int
		race    bool
	}{
		{"l-c", 1, []string{"l", "C"}, 3, 5, 1, true},
		{"l-x", 2, []string{"l", "0"}, 3, 5, 1, true},
		{"l-xc", 2, []string{"l", "0c"}, 3, 4, 1, true},
		{"l-cx", 2, []string{"l", "c0"}, 2, 4, 1, false},
		{"l-C-C", 1, []string{"l", "C", "C"}, 2, 4, 2, true},
		{"l-c-0", 2, []string{"l", "c", "0"}, 2, 4, 2, true},
		{"l-l", 2, []string{"l", "l", "0"}, 2, 4, 2, true},
		{"ll-0c1", 2, []string{"ll", "0c1"}, 2, 4, 2, false},
		{"p-c", 2, []string{"p", "C0"}, 3, 4, 1, true},
		{"pp-c", 2, []string{"pp", "C1"}, 2, 4, 2, true},
		{"p-p-0", 3, []string{"p", "p", "0C"}, 2, 4, 2, false},
		{"p-l-0", 3, []string{"p", "l", "0C1"}, 2, 3, 2, false},
		{"l0-l1", 2, []string{"l0l", "l1l"}, 2, 3, 2, true},
		{"four", 2, []string{"l", "0", "C", "1"}, 2, 3, 2, false},
		{"none", 0, []string{"l", "l"}, 3, 5, 1, true},
	} {
		props := []string{"R01"}
		if v.race {
			props = append(props, "D01")
		}
		Reg(&Scenario{Name: "reg-par-" + v.name, Props: props, QK: v.qk, TK: v.tk, DPOR: v.dpor, Race: v.race, AllowLive: 4, Check: check,
			Body: func(x *X) {
				s := &state{ps: &pools{}}
				x.Data = s
				s.got = make([][]goroutines.Pool, 8)
				for i := 0; i < v.pre; i++ {
					s.ps.make(i, i%2, bases[i%2])
				}
				done := make(chan struct{}, len(v.scripts))
				for g, sc := range v.scripts {
					go func() {
						n, l := 10+10*g, 2*g
						for _, op := range sc {
							switch op {
							case '0', '1':
								s.ps.close(int(op - '0'))
							case 'c', 'C':
								s.ps.make(n, g%2, bases[g%2])
								if op == 'C' {
									s.ps.close(n)
								}
								n++
							case 'l':
								ch := list(l)
								s.ps.take(l, ch, -1, &s.got[l])
								l++
							case 'p':
								ch := list(l)
								s.ps.take(l, ch, 1, &s.got[l])
								l++
							}
						}
						done <- struct{}{}
					}()
				}
				for range v.scripts {
					<-done
				}
				// A last listing sees exactly what is left; then everything is closed.
				ch := list(7)
				s.ps.take(7, ch, -1, &s.got[7])
				closed := map[int]bool{}
				for _, sc := range v.scripts {
					for _, op := range sc {
						if op == '0' || op == '1' {
							closed[int(op-'0')] = true
						}
					}
				}
				for g, sc := range v.scripts {
					n := 10 + 10*g
					for _, op := range sc {
						if op == 'c' || op == 'C' {
							closed[n] = op == 'C'
							n++
						}
					}
				}
				for i := 0; i < v.pre; i++ {
					if !closed[i] {
						closed[i] = false
					}
				}
				for i := range s.ps.p {
					if c, ok := closed[i]; ok && !c {
						s.ps.p[i].Close()
					}
				}
			}})
	}
}
