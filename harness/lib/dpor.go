package main

import (
	"fmt"
	"math/bits"
	"runtime"
)

// Source-DPOR with sleep sets (Abdulla, Aronis, Jonsson, Sagonas 2014). Every
// scheduling choice is an always-enabled "next step" of a goroutine; blocking
// is modelled as an attempt that parks, so every enabled step is reversible
// unless it is ordered by creation, wake-up or program order. A tick of the
// virtual clock happens only when nothing else can run and orders everything.

type foot struct {
	g    uint8
	know uint32
	acc  []runtime.MCAccess
}

type dnode struct {
	kind    uint8
	quiet   bool
	n       uint8
	chosen  uint8
	enabled uint64
	back    uint64
	done    uint64
	sleep   uint64
	know    uint32
	feet    []foot // footprints of the goroutines in sleep|done
	cur     []runtime.MCAccess
}

type vcT [64]uint16

func (e *explorer) exploreDPOR() {
	var stack []*dnode
	var prefix []uint8
	e.cfg.SleepAt = -1
	changed := 0 // index of the scheduling entry whose step is new
	for {
		res := e.run(prefix, true)
		if e.consider(res) {
			return
		}
		if res.End == runtime.MCEndSteps {
			// Not complete; keep going, the result is reported as bounded.
			_ = res
		}
		limit := len(res.Log)
		if res.Blocked >= 0 {
			e.blocked++
			limit = res.Blocked
		}
		// New nodes.
		inh := []foot(nil)
		if changed < len(stack) && changed >= 0 && len(stack) > 0 {
			nd := stack[changed]
			inh = nd.feet
		}
		for i := len(stack); i < limit; i++ {
			le := &res.Log[i]
			nd := &dnode{kind: le.Kind, chosen: le.Chosen, enabled: le.Enabled, n: le.N, quiet: le.Flags&1 != 0}
			if le.Kind == 0 {
				nd.back = 1 << le.Chosen
				if e.cfg.SleepAt >= 0 {
					nd.sleep = le.Sleep
				}
				nd.feet = inh
			}
			stack = append(stack, nd)
		}
		e.analyse(res, stack, limit, changed)
		// Next alternative, deepest first.
		found := false
		for len(stack) > 0 {
			nd := stack[len(stack)-1]
			if nd.kind != 0 {
				if (!nd.quiet || nd.kind == 2) && int(nd.chosen)+1 < int(nd.n) {
					nd.chosen++
					found = true
				}
			} else {
				nd.done |= 1 << nd.chosen
				if nd.chosen != 63 {
					nf := make([]foot, 0, len(nd.feet)+1)
					for _, f := range nd.feet {
						if f.g != nd.chosen {
							nf = append(nf, f)
						}
					}
					nd.feet = append(nf, foot{nd.chosen, nd.know, nd.cur})
				}
				nd.cur = nil
				c := nd.back &^ nd.done &^ nd.sleep
				if c != 0 && !nd.quiet {
					nd.chosen = uint8(bits.TrailingZeros64(c))
					found = true
				}
			}
			if found {
				break
			}
			stack = stack[:len(stack)-1]
		}
		if !found {
			e.done = true
			return
		}
		prefix = prefix[:0]
		for _, nd := range stack {
			prefix = append(prefix, nd.chosen)
		}
		changed = len(stack) - 1
		for stack[changed].kind != 0 {
			changed--
		}
		nd := stack[changed]
		e.cfg.SleepAt = changed
		e.cfg.Sleep = 0
		m := (nd.sleep | nd.done) &^ (1 << nd.chosen) &^ (1 << 63)
		for _, f := range nd.feet {
			if m&(1<<f.g) != 0 {
				e.cfg.Sleep |= 1 << f.g
				e.cfg.SleepSet[f.g] = f.acc
				e.cfg.Know[f.g] = f.know
			}
		}
	}
}

// analyse computes happens-before over the executed steps, records the
// footprints and adds the backtracking points for the races whose second step
// is new.
func (e *explorer) analyse(res *runtime.MCResult, stack []*dnode, limit, changed int) {
	log := res.Log
	var C [64]vcT
	var cnt [64]uint16
	type step struct {
		entry int
		g     uint8
		vc    vcT
		idx   uint16
	}
	steps := make([]step, 0, limit)
	type objState struct {
		w     int32 // step index of the last write, or -1
		reads []int32
	}
	objs := make([]objState, res.NObj+1)
	for i := range objs {
		objs[i].w = -1
	}
	maxObj := uint32(0)
	for i := 0; i < limit; i++ {
		if log[i].Kind != 0 {
			continue
		}
		// Accesses of this step.
		lo := int(log[i].Acc)
		hi := len(res.Acc)
		for j := i + 1; j < len(log); j++ {
			if log[j].Kind == 0 {
				hi = int(log[j].Acc)
				break
			}
		}
		acc := res.Acc[lo:hi]
		p := log[i].Chosen
		s := len(steps)
		nd := stack[i]
		nd.know = maxObj
		for _, a := range acc {
			if a.Kind <= 1 && a.Obj > maxObj {
				maxObj = a.Obj
			}
		}
		if i >= changed {
			// Footprint of the chosen goroutine's step at this node.
			for _, a := range acc {
				if a.Kind > 1 {
					continue
				}
				dup := false
				for _, b := range nd.cur {
					if b == a {
						dup = true
						break
					}
				}
				if !dup {
					nd.cur = append(nd.cur, a)
				}
			}
		}
		st := step{entry: i, g: p}
		if p == 63 {
			var all vcT
			for t := 0; t < 64; t++ {
				for k := range all {
					if C[t][k] > all[k] {
						all[k] = C[t][k]
					}
				}
			}
			cnt[63]++
			all[63] = cnt[63]
			st.vc = all
			st.idx = cnt[63]
			for t := 0; t < 64; t++ {
				C[t] = all
			}
			steps = append(steps, st)
			continue
		}
		base := C[p]
		var cand []int32
		addc := func(f int32) {
			if f < 0 {
				return
			}
			for _, c := range cand {
				if c == f {
					return
				}
			}
			cand = append(cand, f)
		}
		for _, a := range acc {
			if a.Kind > 1 {
				continue
			}
			o := &objs[a.Obj]
			addc(o.w)
			if a.Kind == runtime.MCWrite {
				for _, r := range o.reads {
					addc(r)
				}
			}
		}
		vc := base
		for _, f := range cand {
			fs := &steps[f]
			for k := range vc {
				if fs.vc[k] > vc[k] {
					vc[k] = fs.vc[k]
				}
			}
		}
		cnt[p]++
		vc[p] = cnt[p]
		st.vc = vc
		st.idx = cnt[p]
		steps = append(steps, st)
		for _, a := range acc {
			switch a.Kind {
			case runtime.MCRead:
				o := &objs[a.Obj]
				o.reads = append(o.reads, int32(s))
			case runtime.MCWrite:
				o := &objs[a.Obj]
				o.w = int32(s)
				o.reads = o.reads[:0]
			}
		}
		for _, a := range acc {
			if a.Kind > 1 {
				t := a.Obj
				for k := range vc {
					if vc[k] > C[t][k] {
						C[t][k] = vc[k]
					}
				}
			}
		}
		C[p] = vc
		if i < changed {
			continue
		}
		// Races with this step as the second one.
		for _, f := range cand {
			fs := &steps[f]
			if fs.g == p || base[fs.g] >= fs.idx || fs.g == 63 {
				continue
			}
			imm := true
			for _, g := range cand {
				if g != f && steps[g].vc[fs.g] >= fs.idx {
					imm = false
					break
				}
			}
			if !imm {
				continue
			}
			fn := stack[fs.entry]
			if fn.quiet {
				continue
			}
			// Initials of notdep(f).p
			var seen, init uint64
			var u []int
			for h := int(f) + 1; h < s; h++ {
				hs := &steps[h]
				if hs.vc[fs.g] >= fs.idx {
					continue
				}
				if seen&(1<<hs.g) == 0 {
					seen |= 1 << hs.g
					ok := true
					for _, q := range u {
						if hs.vc[steps[q].g] >= steps[q].idx {
							ok = false
							break
						}
					}
					if ok {
						init |= 1 << hs.g
					}
				}
				u = append(u, h)
			}
			if seen&(1<<p) == 0 {
				ok := true
				for _, q := range u {
					if vc[steps[q].g] >= steps[q].idx {
						ok = false
						break
					}
				}
				if ok {
					init |= 1 << p
				}
			}
			init &= fn.enabled &^ (1 << 63)
			if init == 0 {
				e.internal = fmt.Sprintf("DPOR: no initial for race (%d,%d)", fs.entry, i)
				continue
			}
			if init&fn.back != 0 {
				continue
			}
			if init&(1<<p) != 0 {
				fn.back |= 1 << p
			} else {
				fn.back |= 1 << uint(bits.TrailingZeros64(init))
			}
		}
	}
}
