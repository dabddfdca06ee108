package main

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// loopView gathers what is known of one loop, for one way of reaching it.
type loopView struct {
	Inst  *LoopInst
	Backs []*Outcome // outcomes that end at the back edge
	Exits []*Outcome // outcomes that go through the loop and leave it
}

func loopViews(outs []*Outcome) []*loopView {
	m := map[int64]*loopView{}
	for _, o := range outs {
		seen := map[int64]bool{}
		for e := o.St.ev; e != nil; e = e.prev {
			if e.ev.Kind == EvLoopEnter && !seen[e.ev.Loop.ID] {
				seen[e.ev.Loop.ID] = true
				v := m[e.ev.Loop.ID]
				if v == nil {
					v = &loopView{Inst: e.ev.Loop}
					m[e.ev.Loop.ID] = v
				}
				if o.Kind == OutLoopBack && o.Loop.ID == v.Inst.ID {
					v.Backs = append(v.Backs, o)
				} else if left(o, v.Inst) {
					v.Exits = append(v.Exits, o)
				}
			}
		}
	}
	var l []*loopView
	for _, v := range m {
		l = append(l, v)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Inst.ID < l[j].Inst.ID })
	return l
}

// left: the outcome leaves the loop (it does not end inside).
func left(o *Outcome, in *LoopInst) bool {
	for e := o.St.ev; e != nil; e = e.prev {
		if e.ev.Kind == EvLoopExit && e.ev.Loop.ID == in.ID {
			return true
		}
		if e.ev.Kind == EvLoopEnter && e.ev.Loop.ID == in.ID {
			return false
		}
	}
	return false
}

// body lists the events of the outcome inside of the loop.
func (v *loopView) body(o *Outcome) []*Event {
	var l []*Event
	in := false
	for _, e := range o.St.events() {
		if e.Kind == EvLoopEnter && e.Loop.ID == v.Inst.ID {
			in = true
			continue
		}
		if (e.Kind == EvLoopExit || e.Kind == EvLoopBack) && e.Loop.ID == v.Inst.ID {
			in = false
		}
		if in {
			l = append(l, e)
		}
	}
	return l
}

// after lists the events of the outcome once the loop is left.
func (v *loopView) after(o *Outcome) []*Event {
	evs := o.St.events()
	for i := len(evs) - 1; i >= 0; i-- {
		if evs[i].Kind == EvLoopExit && evs[i].Loop.ID == v.Inst.ID {
			return evs[i+1:]
		}
	}
	return nil
}

// step of a loop variable, when it is the same on every path.
func (v *loopView) step(r *Run, p *ssa.Phi) (int64, bool) {
	if len(v.Backs) == 0 {
		return 0, false
	}
	ph := v.Inst.Phi[p]
	var k int64
	for i, o := range v.Backs {
		n := o.Loop.Next[p]
		if n == nil {
			return 0, false
		}
		d := r.U.Sub(n, ph)
		if !isIntConst(d) {
			lo, hi := r.bounds(o.St, d)
			if lo != hi {
				return 0, false
			}
			d = r.U.Int(lo)
		}
		if i > 0 && d.K != k {
			return 0, false
		}
		k = d.K
	}
	return k, true
}

// position writes the term idx as d + ph, or as d - ph, for a loop variable and a
// term d that is the same for all the turns; it gives the step of idx.
func (v *loopView) position(r *Run, idx *Term, p *ssa.Phi) (first *Term, step int64, ok bool) {
	idx = stripConv(idx)
	ph := v.Inst.Phi[p]
	if !isIntType(p.Type()) {
		return nil, 0, false
	}
	varies := func(d *Term) bool {
		return mentions(d, func(t *Term) bool {
			return t.Op != OConst && t.K > v.Inst.ID
		})
	}
	s, ok := v.step(r, p)
	if !ok {
		return nil, 0, false
	}
	if d := r.U.Sub(idx, ph); isIntConst(d) || mentions(idx, func(t *Term) bool { return t == ph }) && !varies(d) {
		return r.U.Add(v.Inst.Init[p], d), s, true
	}
	if d := r.U.Add(idx, ph); mentions(idx, func(t *Term) bool { return t == ph }) && !varies(d) {
		return r.U.Sub(d, v.Inst.Init[p]), -s, true
	}
	return nil, 0, false
}

// covers: while the loop runs, the term idx takes all the values in [lo..hi) (in
// increasing or in decreasing order), when it is left on the given outcomes.
func (v *loopView) covers(r *Run, idx, lo, hi *Term, exits []*Outcome) bool {
	idx = stripConv(idx)
	for p := range v.Inst.Phi {
		first, st, ok := v.position(r, idx, p)
		if !ok {
			continue
		}
		pre := v.Inst.Pre
		switch st {
		case 1:
			if r.decideLE(pre, first, lo) != yes {
				continue
			}
			good := true
			for _, o := range exits {
				if r.decideLE(o.St, hi, idx) != yes {
					good = false
				}
			}
			if good {
				return true
			}
		case -1:
			if r.decideLE(pre, r.U.AddK(hi, -1), first) != yes {
				continue
			}
			good := true
			for _, o := range exits {
				if r.decideLE(o.St, r.U.AddK(idx, 1), lo) != yes {
					good = false
				}
			}
			if good {
				return true
			}
		}
	}
	return false
}

// loopsAround lists the loops that an event happens in, innermost last.
func loopsAt(o *Outcome, ev *Event) []*LoopInst {
	var st []*LoopInst
	for _, e := range o.St.events() {
		if e == ev {
			return st
		}
		switch e.Kind {
		case EvLoopEnter:
			st = append(st, e.Loop)
		case EvLoopExit:
			for i := len(st) - 1; i >= 0; i-- {
				if st[i].ID == e.Loop.ID {
					st = st[:i]
					break
				}
			}
		}
	}
	return st
}
