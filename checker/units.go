package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// unit is one function interpreted on its own, from any state of the BDD, with
// some locks held. The functions that it calls are inlined, except the ones with
// loops and the recursive ones, that are units too.
type unit struct {
	Fn   *ssa.Function
	Held []lockHeld
	Why  string // why it is analysed
	Outs []*Outcome
	Run  *Run
}

func (u *unit) name() string {
	s := fname(u.Fn)
	if len(u.Held) > 0 {
		s += " (called with a lock held)"
	}
	return s
}

// lockClass identifies a mutex by the field (or variable) that holds it.
func lockClass(mu *Term) string {
	c := termClass(mu)
	if v, ok := c.(*types.Var); ok {
		return v.Name()
	}
	return fmt.Sprint(c)
}

func heldKey(l []lockHeld) string {
	var s []string
	for _, h := range l {
		s = append(s, lockClass(h.mu)+":"+string(h.mode))
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

// escapes: the function is used as a value, other than to call it on the spot.
func (p *Prog) escapes(fn *ssa.Function) bool {
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for i, op := range in.Operands(nil) {
					var is bool
					if *op == ssa.Value(fn) {
						is = true
					}
					if !is {
						continue
					}
					switch x := in.(type) {
					case *ssa.MakeClosure:
						for _, r := range *x.Referrers() {
							if ci, ok := r.(ssa.CallInstruction); ok && ci.Common().Value == ssa.Value(x) {
								used := false
								for _, a := range ci.Common().Args {
									if a == ssa.Value(x) {
										used = true
									}
								}
								if !used {
									continue
								}
							}
							if _, ok := r.(*ssa.DebugRef); ok {
								continue
							}
							return true
						}
					case ssa.CallInstruction:
						if i != 0 || x.Common().IsInvoke() || x.Common().Value != ssa.Value(fn) {
							return true
						}
					default:
						return true
					}
				}
			}
		}
	}
	return false
}

// unitArgs are the parameters of a unit.
func (c *Ctx) unitArgs(fn *ssa.Function) []*Term {
	var args []*Term
	for i, p := range fn.Params {
		switch {
		case i == 0 && types.Identical(p.Type(), c.B.T):
			args = append(args, c.B)
		case i == 0 && types.Identical(p.Type(), c.tablesType()):
			args = append(args, c.T)
		default:
			if i == 0 && fn.Signature.Recv() != nil {
				if t := c.embedded(p.Type()); t != nil {
					args = append(args, t)
					continue
				}
			}
			args = append(args, c.U.Param(fn.Name()+"."+p.Name(), p.Type()))
		}
	}
	return args
}

// embedded finds the part of the BDD with the given (pointer) type.
func (c *Ctx) embedded(pt types.Type) *Term {
	var find func(base *Term, t types.Type, d int) *Term
	find = func(base *Term, t types.Type, d int) *Term {
		s := structOf(derefType(t))
		if s == nil || d > 3 {
			return nil
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if !f.Embedded() {
				continue
			}
			a := c.U.FA(base, f)
			if types.Identical(types.NewPointer(f.Type()), pt) {
				return a
			}
			if types.Identical(f.Type(), pt) {
				return c.U.mk(OLoad, nil, 0, f.Type(), nil, a)
			}
			if _, ok := f.Type().Underlying().(*types.Pointer); ok {
				if x := find(c.U.mk(OLoad, nil, 0, f.Type(), nil, a), f.Type(), d+1); x != nil {
					return x
				}
			} else if x := find(a, types.NewPointer(f.Type()), d+1); x != nil {
				return x
			}
		}
		return nil
	}
	return find(c.B, c.B.T, 0)
}

// tableGrows: between two moments, the table of nodes does not become shorter
// (checked by growthOnly).
func (c *Ctx) tableGrows(r *Run, st *State, t *Term) {
	if !c.isTableLen(t) {
		if t.Op == OLen && fieldLoad(t.Args[0], c.filled) {
			r.assumeLE(st, c.U.Int(1), t)
		}
		return
	}
	for u := range st.zone.vars {
		if u != t && c.isTableLen(u) && u.Args[0].Args[0] == t.Args[0].Args[0] {
			if u.Args[0].K < t.Args[0].K {
				r.assumeLE(st, u, t)
			} else if u.Args[0].K > t.Args[0].K {
				r.assumeLE(st, t, u)
			}
		}
	}
}

// isTableLen: len(nodes) at some moment.
func (c *Ctx) isTableLen(t *Term) bool {
	if t.Op != OLen || t.Args[0].Op != OLoad {
		return false
	}
	a := t.Args[0].Args[0]
	return a.Op == OFA && a.Aux == c.nodesF
}

// fewTurnsOnly: the loops of the function count between two constants, which are
// close.
func (p *Prog) fewTurnsOnly(f *ssa.Function) bool {
	for h, l := range p.loopsOf(f).Heads {
		iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok || cmp.Block() != h || !isIntType(cmp.X.Type()) {
			return false
		}
		ph, ok := cmp.X.(*ssa.Phi)
		lim, okc := cmp.Y.(*ssa.Const)
		if !ok || !okc || ph.Block() != h {
			return false
		}
		for j, pr := range h.Preds {
			if !l.Blocks[pr] {
				if k, ok := ph.Edges[j].(*ssa.Const); !ok || abs64(k.Int64()-lim.Int64()) > maxTurns {
					return false
				}
				continue
			}
			a, ok := ph.Edges[j].(*ssa.BinOp)
			if !ok || a.Op != token.ADD && a.Op != token.SUB || a.X != ssa.Value(ph) {
				return false
			}
			if k, ok := a.Y.(*ssa.Const); !ok || k.Int64() == 0 {
				return false
			}
		}
	}
	return true
}

// helperOf: a function that is only called once, by fn, and that is not a method.
func (c *Ctx) helperOf(f, fn *ssa.Function) bool {
	if f.Signature.Recv() != nil || f.Parent() != nil || c.P.escapes(f) || f.Object() == nil || f.Object().Exported() || c.P.recursive(f) {
		return false
	}
	n := 0
	for _, g := range c.P.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && staticCallee(ci.Common()) == f {
					if g != fn {
						return false
					}
					n++
				}
			}
		}
	}
	return n == 1
}

func (c *Ctx) unitRun(fn *ssa.Function) *Run {
	r := NewRun(c.P, c.U)
	r.globals = c.Globals
	r.init = c.InitMem
	r.Loads = true
	r.APIMod = c.apiMod
	r.OnEvent = c.onEvent
	r.OnAtom = c.tableGrows
	r.HeadRes = c.pureRes
	r.NoInline = map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		if f != fn && len(c.P.loopsOf(f).Heads) > 0 && !c.P.fewTurnsOnly(f) {
			r.NoInline[f] = !c.helperOf(f, fn)
		} else if f != fn && c.testsPrimes()[f] {
			if s := c.primeSummary(f, nil); len(s.up)+len(s.down) > 0 {
				r.NoInline[f] = true
			}
		}
	}
	for _, f := range []*ssa.Function{c.Makenode, c.Retnode, c.lowMaker()} {
		if f != nil && f != fn {
			r.NoInline[f] = true
		}
	}
	return r
}

// units interprets every function of the package that can be reached from the
// exported interface or from a finalizer.
func (c *Ctx) units() []*unit {
	if l, ok := c.shared["units"].([]*unit); ok {
		return l
	}
	var todo, done []*unit
	seen := map[string]bool{}
	add := func(fn *ssa.Function, held []lockHeld, why string) {
		dup := map[string]bool{}
		for _, h := range held {
			if cl := lockClass(h.mu); dup[cl] {
				return // reported where the second lock is taken
			} else {
				dup[cl] = true
			}
		}
		k := fn.String() + "|" + heldKey(held)
		if seen[k] {
			return
		}
		seen[k] = true
		todo = append(todo, &unit{Fn: fn, Held: held, Why: why})
	}
	for _, f := range c.apiFuncs() {
		add(f, nil, "exported")
	}
	for _, f := range c.P.Funcs {
		if (f.Parent() != nil || f.Signature.Recv() == nil) && f.Synthetic == "" && c.P.escapes(f) {
			add(f, nil, "used as a value")
		}
	}
	for _, f := range c.finalizers() {
		if f.Synthetic != "" {
			add(f, nil, "used as a finalizer")
		}
	}
	for len(todo) > 0 {
		u := todo[0]
		todo = todo[1:]
		r := c.unitRun(u.Fn)
		u.Run = r
		args := c.unitArgs(u.Fn)
		for _, v := range u.Fn.FreeVars {
			args = append(args, c.U.Param("captured "+v.Name(), v.Type()))
		}
		held := u.Held
		u.Outs = r.Exec(u.Fn, args, func() *State {
			st := c.rawState()
			st.locks = held
			return st
		})
		done = append(done, u)
		for _, o := range u.Outs {
			for e := o.St.ev; e != nil; e = e.prev {
				if e.ev.Kind == EvHead {
					add(e.ev.Fn, e.ev.Held, "called")
				}
			}
		}
	}
	c.shared["units"] = done
	return done
}

// finalizers lists the functions that the Go runtime may call at any time.
func (c *Ctx) finalizers() []*ssa.Function {
	var res []*ssa.Function
	add := func(f *ssa.Function) {
		for _, x := range res {
			if x == f {
				return
			}
		}
		res = append(res, f)
	}
	var resolve func(v ssa.Value, d int)
	resolve = func(v ssa.Value, d int) {
		if d > 8 {
			return
		}
		switch x := v.(type) {
		case *ssa.MakeInterface:
			resolve(x.X, d+1)
		case *ssa.ChangeType:
			resolve(x.X, d+1)
		case *ssa.MakeClosure:
			add(x.Fn.(*ssa.Function))
		case *ssa.Function:
			add(x)
		case *ssa.Phi:
			for _, e := range x.Edges {
				resolve(e, d+1)
			}
		case *ssa.UnOp:
			cl := addrClass(x.X)
			for _, f := range c.P.Funcs {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if s, ok := in.(*ssa.Store); ok && addrClass(s.Addr) == cl {
							resolve(s.Val, d+1)
						}
					}
				}
			}
		case *ssa.Parameter:
			fn := x.Parent()
			idx := -1
			for i, p := range fn.Params {
				if p == x {
					idx = i
				}
			}
			for _, f := range c.P.Funcs {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn && idx < len(ci.Common().Args) {
							resolve(ci.Common().Args[idx], d+1)
						}
					}
				}
			}
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil && c.P.isSrc(g) {
				for _, b := range g.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
						resolve(ret.Results[0], d+1)
					}
				}
			}
		}
	}
	for _, s := range c.setFinalizerCalls() {
		resolve(s.Common().Args[1], 0)
	}
	return res
}

func (c *Ctx) setFinalizerCalls() []ssa.CallInstruction {
	var l []ssa.CallInstruction
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && extName(g) == "runtime.SetFinalizer" {
						l = append(l, ci)
					}
				}
			}
		}
	}
	return l
}
