package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// intSum is what is known of the result of a function without effects that
// computes an integer.
type intSum struct {
	ge  map[int]bool // result >= parameter
	le  map[int]bool // result <= parameter, when the parameter is at least 1
	low int64        // result >= low
}

// intSummary derives bounds of the result of a function without effects.
// The constant arguments of a call may be taken into account.
func (c *Ctx) intSummary(fn *ssa.Function, consts map[int]int64) *intSum {
	key := "intsum:" + fn.String() + constKey(consts, len(fn.Params))
	if s, ok := c.shared[key].(*intSum); ok {
		return s
	}
	var none *intSum
	c.shared[key] = none
	sig := fn.Signature
	if fn.Blocks == nil || !c.P.isSrc(fn) || sig.Results().Len() != 1 || !isIntType(sig.Results().At(0).Type()) || c.P.recursive(fn) {
		return none
	}
	if !c.P.noEffects(fn) {
		return none
	}
	var args []*Term
	for i, p := range fn.Params {
		if k, ok := consts[i]; ok {
			args = append(args, c.U.Int(k))
			continue
		}
		args = append(args, c.U.Param(fn.Name()+"."+p.Name(), p.Type()))
	}
	exec := func(pre int) (*Run, []*Outcome) {
		r := NewRun(c.P, c.U)
		r.globals, r.init = c.Globals, c.InitMem
		outs := r.Exec(fn, args, func() *State {
			st := c.rawState()
			if pre >= 0 {
				r.assumeLE(st, c.U.Int(1), args[pre])
			}
			return st
		})
		return r, outs
	}
	all := func(r *Run, outs []*Outcome, f func(o *Outcome) bool) bool {
		n := 0
		for _, o := range outs {
			switch o.Kind {
			case OutUndecided:
				return false
			case OutReturn:
				n++
				if !f(o) {
					return false
				}
			}
		}
		return n > 0
	}
	s := &intSum{ge: map[int]bool{}, le: map[int]bool{}, low: -inf}
	r, outs := exec(-1)
	for i, a := range args {
		if _, ok := consts[i]; ok || !isIntType(a.T) {
			continue
		}
		if all(r, outs, func(o *Outcome) bool { return r.decideLE(o.St, a, o.Res[0]) == yes }) {
			s.ge[i] = true
		}
		r2, outs2 := exec(i)
		if all(r2, outs2, func(o *Outcome) bool { return r2.decideLE(o.St, o.Res[0], a) == yes }) {
			s.le[i] = true
		}
	}
	for _, k := range []int64{0, 1, 2} {
		if all(r, outs, func(o *Outcome) bool { return r.decideLE(o.St, c.U.Int(k), o.Res[0]) == yes }) {
			s.low = k
		}
	}
	c.shared[key] = s
	return s
}

// pureRes applies the summaries to the results of the functions that are not
// followed.
func (c *Ctx) pureRes(r *Run, st *State, fn *ssa.Function, args, res []*Term) {
	if len(res) != 1 || !isIntType(res[0].T) {
		return
	}
	c.applySum(r, st, c.intSummary(fn, nil), args, res)
	consts := map[int]int64{}
	for i, a := range args {
		if isIntConst(a) && isIntType(a.T) {
			consts[i] = a.K
		}
	}
	if n := len(consts); n > 0 && n < len(args) {
		c.applySum(r, st, c.intSummary(fn, consts), args, res)
	}
}

func constKey(consts map[int]int64, n int) string {
	s := ""
	for i := 0; i < n; i++ {
		if k, ok := consts[i]; ok {
			s += fmt.Sprintf("|%d=%d", i, k)
		}
	}
	return s
}

func (c *Ctx) applySum(r *Run, st *State, s *intSum, args, res []*Term) {
	if s == nil {
		return
	}
	for i := range s.ge {
		r.assumeLE(st, args[i], res[0])
	}
	for i := range s.le {
		if r.decideLE(st, c.U.Int(1), args[i]) == yes {
			r.assumeLE(st, res[0], args[i])
		}
	}
	if s.low > -inf {
		r.assumeLE(st, c.U.Int(s.low), res[0])
	}
}

// libFact adds what a library function says when it answers true.
func (r *Run) libFact(st *State, c *Term) {
	ci, ok := c.Aux.(*callInfo)
	if !ok || c.Op != OCall {
		return
	}
	switch ci.Name {
	case "(*math/big.Int).ProbablyPrime":
		// prime numbers are at least 2
		x := c.Args[0]
		if xi, ok := x.Aux.(*callInfo); ok && x.Op == OCall && xi.Name == "math/big.NewInt" {
			r.assumeLE(st, r.U.Int(2), x.Args[0])
		}
	}
}

var _ = types.Identical
