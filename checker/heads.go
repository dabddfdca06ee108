package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// HeadAnalysis is the interpretation of the body of a recursive function, its
// own recursive calls being replaced by its contract.
type HeadAnalysis struct {
	Fn     *ssa.Function
	Params []*Term
	Outs   []*Outcome
	Run    *Run
	Cells  []*Term // cells written and proved to be restored at every return
}

// headArgs names the parameters of a recursive function.
func (c *Ctx) headArgs(fn *ssa.Function) []*Term {
	var args []*Term
	for _, p := range fn.Params {
		switch {
		case types.Identical(p.Type(), c.B.T):
			args = append(args, c.B)
		case types.Identical(p.Type(), c.T.T):
			args = append(args, c.T)
		default:
			args = append(args, c.U.Param(fn.Name()+"."+p.Name(), p.Type()))
		}
	}
	return args
}

func (c *Ctx) headState(fn *ssa.Function) func() *State {
	return func() *State {
		st := c.newState()
		r := c.newRun()
		for i, a := range c.headArgs(fn) {
			if isIntType(a.T) {
				lo := int64(0)
				if c.negParam(fn, i) {
					lo = -1
				}
				r.assumeLE(st, c.U.Int(lo), a)
			}
		}
		return st
	}
}

func (c *Ctx) negParam(fn *ssa.Function, i int) bool {
	m, _ := c.shared["neg:"+fn.String()].(map[int]bool)
	return m[i]
}

func (c *Ctx) setNeg(fn *ssa.Function, i int) {
	m, _ := c.shared["neg:"+fn.String()].(map[int]bool)
	if m == nil {
		m = map[int]bool{}
		c.shared["neg:"+fn.String()] = m
	}
	m[i] = true
}

// closureCtx is a state in which a recursive closure is called.
type closureCtx struct {
	entry *ssa.Function
	st    *State
	bind  []*Term
}

// onClosure records the states in which the recursive closures are called by the
// function that makes them. What holds there holds in the calls inside, but for
// what the closure itself writes.
func (c *Ctx) onClosure(r *Run, st *State, fn *ssa.Function, bind []*Term) {
	if c.closures == nil {
		c.closures = map[*ssa.Function][]*closureCtx{}
	}
	if fn == nil {
		for g, l := range c.closures {
			var keep []*closureCtx
			for _, ct := range l {
				if ct.entry != r.Entry {
					keep = append(keep, ct)
				}
			}
			if len(keep) < len(l) {
				delete(c.heads, g)
				c.closures[g] = keep
			}
		}
		return
	}
	if c.analysing[fn] {
		return
	}
	delete(c.heads, fn)
	c.closures[fn] = append(c.closures[fn], &closureCtx{r.Entry, st.clone(), bind})
}

// closureState is the state at the entry of any call of the closure.
func (c *Ctx) closureState(fn *ssa.Function, ct *closureCtx) func() *State {
	return func() *State {
		st := ct.st.clone()
		st.ev, st.path, st.loops = nil, nil, nil
		st.defers = map[int64]*deferred{}
		r := c.newRun()
		r.havocSet(st, c.P.modref(fn), nil)
		for i, a := range c.headArgs(fn) {
			if isIntType(a.T) {
				lo := int64(0)
				if c.negParam(fn, i) {
					lo = -1
				}
				r.assumeLE(st, c.U.Int(lo), a)
			}
		}
		return st
	}
}

// head analyses a recursive function (memoised).
func (c *Ctx) head(fn *ssa.Function) *HeadAnalysis {
	if h, ok := c.heads[fn]; ok {
		return h
	}
	if c.analysing[fn] {
		return nil
	}
	c.analysing[fn] = true
	defer delete(c.analysing, fn)
	key := "preserved:" + fn.String()
	h := &HeadAnalysis{Fn: fn, Params: c.headArgs(fn)}
	run := func() {
		r := c.newRun()
		h.Run = r
		cts := c.closures[fn]
		if len(cts) == 0 {
			h.Outs = r.Exec(fn, h.Params, c.headState(fn))
			return
		}
		h.Outs = nil
		for _, ct := range cts {
			args := append(append([]*Term{}, h.Params...), ct.bind...)
			h.Outs = append(h.Outs, r.Exec(fn, args, c.closureState(fn, ct))...)
		}
	}
	if _, ok := c.shared[key]; !ok {
		// candidates: single cells reached from the BDD that the body writes
		c.shared[key] = []*Term{}
		run()
		set := map[*Term]bool{}
		for _, o := range h.Outs {
			for _, e := range o.St.events() {
				if e.Kind == EvStore && singleCell(e.Addr) {
					set[e.Addr] = true
				}
			}
		}
		var cand []*Term
		for a := range set {
			cand = append(cand, a)
		}
		sort.Slice(cand, func(i, j int) bool { return cand[i].ID < cand[j].ID })
		for {
			c.shared[key] = cand
			run()
			var keep []*Term
			for _, a := range cand {
				ok := true
				init := h.Run.loadMem(c.newState(), map[Class]*classMem{}, a, derefType(a.T))
				for _, o := range h.Outs {
					if o.Kind == OutReturn && h.Run.loadMem(o.St, o.St.mem, a, derefType(a.T)) != init {
						ok = false
					}
				}
				if ok {
					keep = append(keep, a)
				}
			}
			if len(keep) == len(cand) {
				break
			}
			cand = keep
		}
		h.Cells = cand
	} else {
		run()
		h.Cells = c.shared[key].([]*Term)
	}
	c.heads[fn] = h
	return h
}

// singleCell: a field of an object reached from a parameter through fields only.
func singleCell(a *Term) bool {
	for {
		switch a.Op {
		case OFA:
			a = a.Args[0]
		case OLoad:
			if a.K != 0 {
				return false
			}
			a = a.Args[0]
		case OParam:
			return true
		default:
			return false
		}
	}
}

// methodArgs names the parameters of an exported function.
func (c *Ctx) methodArgs(fn *ssa.Function) []*Term {
	var args []*Term
	for i, p := range fn.Params {
		switch {
		case i == 0 && types.Identical(p.Type(), c.B.T):
			args = append(args, c.B)
		case i == 0 && types.Identical(p.Type(), c.T.T):
			args = append(args, c.T)
		default:
			args = append(args, c.U.Param(p.Name(), p.Type()))
		}
	}
	return args
}

// method interprets an exported method of BDD (memoised).
func (c *Ctx) method(name string) ([]*Outcome, *Run, error) {
	if o, ok := c.methods[name]; ok {
		return o, c.runs[name], nil
	}
	fn := c.P.method("BDD", name)
	if fn == nil {
		return nil, nil, fmt.Errorf("method %s of BDD not found", name)
	}
	r := c.newRun()
	o := r.Exec(fn, c.methodArgs(fn), c.newState)
	c.methods[name] = o
	c.runs[name] = r
	return o, r, nil
}

// opsFix interprets all the methods and the recursive functions that they call,
// until the parameters that may stand for a failed result are known.
func (c *Ctx) opsFix() error {
	if c.shared["opsfix"] != nil {
		return nil
	}
	for iter := 0; iter < 10; iter++ {
		c.heads = map[*ssa.Function]*HeadAnalysis{}
		c.methods = map[string][]*Outcome{}
		changed := false
		todo := []*ssa.Function{}
		seen := map[*ssa.Function]bool{}
		scan := func(outs []*Outcome) {
			done := map[*Event]bool{}
			for _, o := range outs {
				for _, e := range o.St.events() {
					if e.Kind != EvHead || done[e] {
						continue
					}
					done[e] = true
					if !seen[e.Fn] {
						seen[e.Fn] = true
						todo = append(todo, e.Fn)
					}
					for i, a := range e.Args {
						if !intish(a) || c.negParam(e.Fn, i) {
							continue
						}
						if e.Zone != nil && c.nonNegAt(e, a) {
							continue
						}
						c.setNeg(e.Fn, i)
						changed = true
					}
				}
			}
		}
		for _, m := range c.opMethods() {
			o, _, err := c.method(m)
			if err != nil {
				return err
			}
			scan(o)
		}
		for len(todo) > 0 {
			f := todo[0]
			todo = todo[1:]
			scan(c.head(f).Outs)
		}
		if !changed {
			c.shared["opsfix"] = true
			return nil
		}
	}
	return fmt.Errorf("the analysis of failed results does not stabilise")
}

func (c *Ctx) nonNegAt(e *Event, a *Term) bool {
	if isIntConst(a) {
		return a.K >= 0
	}
	st := c.rawState()
	st.zone = e.Zone.Clone()
	r := c.newRun()
	return r.decideLE(st, c.U.Int(0), a) == yes
}

// opMethods lists the methods that compute nodes from nodes.
func (c *Ctx) opMethods() []string {
	return []string{"Apply", "Not", "Ite", "Exist", "AppEx", "Replace"}
}
