package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// checkIsolation: two BDDs share no mutable state.
func (c *Ctx) checkIsolation(rep *Report) {
	p := c.pts()
	for _, f := range c.P.Funcs {
		rep.Funcs[fname(f)] = true
	}
	// what the package variables reach
	roots := map[*obj]bool{}
	for _, m := range c.P.Pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			roots[p.obj(g, "global", g, nil, g.Name())] = true
			if g.Name() != "init$guard" {
				rep.site("package variable " + g.Name())
			}
		}
	}
	global := p.reach(roots)
	// variables captured by functions handed to the user (options) are shared by
	// the BDDs they are used for
	for f := range p.escFuncs {
		for _, fv := range f.FreeVars {
			for l := range p.of(fv) {
				global[l.o] = true
			}
		}
	}
	initOnly := c.initOnly()
	once := c.onceFuncs()
	type mloc struct {
		o *obj
		f Class
	}
	mutable := map[mloc]ssa.Instruction{}
	lockOf := map[mloc]map[string]bool{}
	// locks held at an instruction, on every path
	held := c.globalLocksHeld()
	for _, w := range p.writes() {
		if initOnly[w.fn] {
			continue
		}
		if freshHere(w.addr) {
			rep.ok("write in an object that the function just allocated")
			continue
		}
		hit := false
		for l := range w.locs {
			if !global[l.o] || l.o.kind == "func" {
				continue
			}
			hit = true
			if once[w.fn] {
				continue
			}
			k := mloc{l.o, l.f}
			locks := held[w.in]
			if len(locks) == 0 {
				rep.bad(c, w.in.Pos(), fname(w.fn), "shared state", "", "%s in %s, that all the BDDs share, without a package-level lock", w.what, l.o.name)
				continue
			}
			mutable[k] = w.in
			if lockOf[k] == nil {
				lockOf[k] = locks
			} else {
				for m := range lockOf[k] {
					if !locks[m] {
						lockOf[k] = without(lockOf[k], m)
					}
				}
			}
		}
		if !hit {
			rep.ok("write outside of what the package variables reach")
		} else {
			rep.ok("write in shared state under a package-level lock")
		}
	}
	// reads of the shared state that changes
	for _, f := range c.P.Funcs {
		if initOnly[f] || once[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				if !ok || u.Op != token.MUL || freshHere(u.X) {
					continue
				}
				for l := range p.of(u.X) {
					k := mloc{l.o, l.f}
					if mutable[k] == nil {
						continue
					}
					good := false
					for m := range lockOf[k] {
						if held[in][m] {
							good = true
						}
					}
					if !good {
						rep.bad(c, in.Pos(), fname(f), "shared state", "", "%s, that all the BDDs share and %s writes, is read without the same lock", l.o.name, c.P.pos(mutable[k].Pos()))
					} else {
						rep.ok("read of shared state under the lock of the writes")
					}
				}
			}
		}
	}
	// what operations return is not shared
	persistent := map[*obj]bool{}
	for o := range global {
		persistent[o] = true
	}
	bdds := map[*obj]bool{}
	for o := range p.bddObjects(c) {
		bdds[o] = true
	}
	for o := range p.reach(bdds) {
		persistent[o] = true
	}
	for _, f := range c.apiFuncs() {
		res := f.Signature.Results()
		for i, s := range p.rets(f) {
			if !userMutable(res.At(i).Type()) {
				continue
			}
			good := true
			for l := range s {
				if persistent[l.o] {
					good = false
					rep.bad(c, f.Pos(), fname(f), "results not shared", "", "result %d is %s, that the package keeps: the user may change it", i, l.o.name)
				}
			}
			if good {
				rep.ok("result that the package does not keep")
			}
		}
	}
}

func without(m map[string]bool, k string) map[string]bool {
	r := map[string]bool{}
	for x := range m {
		if x != k {
			r[x] = true
		}
	}
	return r
}

// userMutable: slices, maps and big integers; nodes are not to be written.
func userMutable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	case *types.Pointer:
		if n, ok := u.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big" {
			return true
		}
	}
	return false
}

func (p *PTS) bddObjects(c *Ctx) map[*obj]bool {
	res := map[*obj]bool{}
	for _, o := range p.objs {
		if o.kind == "alloc" && (types.Identical(o.val.Type(), c.B.T) || types.Identical(o.val.Type(), c.tablesType())) {
			res[o] = true
		}
	}
	return res
}

// initOnly: functions that only run while the package is initialised.
func (c *Ctx) initOnly() map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						callers[g] = append(callers[g], f)
					}
				}
			}
		}
	}
	for _, f := range c.P.Funcs {
		if f.Name() == "init" || f.Synthetic == "package initializer" {
			res[f] = true
		}
		if len(f.Name()) > 5 && f.Name()[:5] == "init#" {
			res[f] = true
		}
	}
	api := map[*ssa.Function]bool{}
	for _, f := range c.apiFuncs() {
		api[f] = true
	}
	for ch := true; ch; {
		ch = false
		for _, f := range c.P.Funcs {
			if res[f] || api[f] || len(callers[f]) == 0 {
				continue
			}
			all := true
			for _, g := range callers[f] {
				if !res[g] {
					all = false
				}
			}
			if all {
				res[f] = true
				ch = true
			}
		}
	}
	return res
}

// onceFuncs: functions run by sync.Once.
func (c *Ctx) onceFuncs() map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if g := ci.Common().StaticCallee(); g != nil && extName(g) == "(*sync.Once).Do" {
					for l := range c.pts().of(ci.Common().Args[1]) {
						if l.o.kind == "func" {
							res[l.o.fn] = true
						}
					}
				}
			}
		}
	}
	return res
}

// globalLocksHeld gives, for each instruction that reads or writes memory, the
// package-level mutexes held each time it is executed.
func (c *Ctx) globalLocksHeld() map[ssa.Instruction]map[string]bool {
	res := map[ssa.Instruction]map[string]bool{}
	for _, u := range c.units() {
		for _, o := range u.Outs {
			for e := o.St.ev; e != nil; e = e.prev {
				if e.ev.Instr == nil {
					continue
				}
				switch e.ev.Kind {
				case EvLoad, EvStore, EvCall, EvAppend, EvMapSet, EvMapDel, EvMapGet:
				default:
					continue
				}
				now := map[string]bool{}
				for _, h := range e.ev.Held {
					if rootOf(h.mu).Op == OGlobal {
						now[lockClass(h.mu)] = true
					}
				}
				if old, ok := res[e.ev.Instr]; ok {
					for m := range old {
						if !now[m] {
							old = without(old, m)
						}
					}
					res[e.ev.Instr] = old
				} else {
					res[e.ev.Instr] = now
				}
			}
		}
	}
	return res
}

func init() {
	register("C26", "points-to analysis of the package: what package variables (and variables captured by options) reach is written only at initialisation or under one package-level lock, held also by the reads; slices, maps and big integers that operations return are not kept by the package", func(c *Ctx, rep *Report) {
		c.checkIsolation(rep)
	})
}
