package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// checkArguments: what the user passes is read only, and slices are not kept.
func (c *Ctx) checkArguments(rep *Report) {
	p := c.pts()
	for _, f := range c.apiFuncs() {
		rep.Funcs[fname(f)] = true
		for _, q := range f.Params {
			switch q.Type().Underlying().(type) {
			case *types.Slice, *types.Map:
				rep.site("argument " + q.Name() + " of " + fname(f))
			case *types.Pointer:
				if isNodeType(q.Type()) {
					rep.site("node " + q.Name() + " of " + fname(f))
				}
			}
		}
	}
	for _, w := range p.writes() {
		if freshHere(w.addr) && w.what != "append" {
			rep.ok("write in an object that the function just allocated")
			continue
		}
		good := true
		for l := range w.locs {
			if l.o.kind == "arg" || l.o.kind == "argelem" {
				if c.notData(w) || l.o.writer {
					continue
				}
				good = false
				rep.bad(c, w.in.Pos(), fname(w.fn), "arguments are read only", "", "%s in %s, that belongs to the caller", w.what, l.o.name)
			}
			// nodes that the user has
			if w.fn.Name() != "init" && c.isNodeCell(l) {
				good = false
				rep.bad(c, w.in.Pos(), fname(w.fn), "arguments are read only", "", "%s in a node of the user", w.what)
			}
		}
		if good {
			rep.ok("write outside of the arguments")
		}
	}
	// retention: slices reachable from the BDD, package variables or results
	roots := map[*obj]bool{}
	for o := range p.bddObjects(c) {
		roots[o] = true
	}
	for _, m := range c.P.Pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			roots[p.obj(g, "global", g, nil, g.Name())] = true
		}
	}
	for _, f := range c.apiFuncs() {
		for i, s := range p.rets(f) {
			if _, ok := f.Signature.Results().At(i).Type().Underlying().(*types.Signature); ok {
				continue
			}
			for l := range s {
				roots[l.o] = true
			}
		}
	}
	for f := range p.escFuncs {
		for _, fv := range f.FreeVars {
			for l := range p.of(fv) {
				roots[l.o] = true
			}
		}
	}
	r := p.reach(roots)
	for _, f := range c.apiFuncs() {
		for _, q := range f.Params {
			s, ok := q.Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			_ = s
			good := true
			for l := range p.of(q) {
				if l.o.kind == "arg" && r[l.o] {
					good = false
					rep.bad(c, q.Pos(), fname(f), "slices are not kept", "", "the slice %s is still referenced after the call", q.Name())
				}
			}
			if good {
				rep.ok("slice argument not kept")
			}
		}
	}
}

func isNodeType(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	b, ok := pt.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int
}

// notData: the configuration object that New gives to options, and writers.
func (c *Ctx) notData(w pwrite) bool {
	t := w.addr.Type()
	if _, ok := t.Underlying().(*types.Interface); ok {
		if mi, ok := w.addr.(*ssa.MakeInterface); ok {
			return userIface(mi.X.Type())
		}
		return userIface(t)
	}
	return false
}

// userIface: writers are there to be written.
func userIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for k := 0; k < i.NumMethods(); k++ {
		if i.Method(k).Name() == "Write" {
			return true
		}
	}
	return false
}

// isNodeCell: the integer of a node that was returned to the user.
func (c *Ctx) isNodeCell(l ploc) bool {
	if l.o.kind != "alloc" {
		return false
	}
	s, ok := c.shared["nodecells"].(map[*obj]bool)
	if !ok {
		s = map[*obj]bool{}
		p := c.pts()
		for _, f := range c.apiFuncs() {
			for i, r := range p.rets(f) {
				if isNodeType(f.Signature.Results().At(i).Type()) {
					for l := range r {
						s[l.o] = true
					}
				}
			}
		}
		c.shared["nodecells"] = s
	}
	return s[l.o]
}

func init() {
	register("C32", "points-to analysis: no instruction writes in a slice or node that comes from a parameter of an exported function (including the spare capacity of slices, by append, and writes by library functions), and no such slice is reachable after the call from the BDD, from a package variable or from the result", func(c *Ctx, rep *Report) {
		c.checkArguments(rep)
	})
}
