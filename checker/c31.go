package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// cacheTables lists the fields that hold the tables of the operation caches.
func (c *Ctx) cacheTables() map[*types.Var]bool {
	if m, ok := c.shared["cachetables"].(map[*types.Var]bool); ok {
		return m
	}
	m := map[*types.Var]bool{}
	note := func(a *Term) {
		if k, ia, _ := c.entryOf(a); k != "" {
			if _, ok := elemStruct(ia.Args[0].T); ok {
				m[ia.Args[0].Args[0].Aux.(*types.Var)] = true
			}
		}
	}
	for fn := range c.specs() {
		for _, o := range c.head(fn).Outs {
			for _, e := range o.St.events() {
				if e.Kind == EvStore {
					note(e.Addr)
				}
			}
			if o.Kind == OutReturn && len(o.Res) == 1 {
				note(loadAddr(o.Res[0]))
			}
		}
	}
	c.shared["cachetables"] = m
	return m
}

// elemStruct: the type is a slice of structs.
func elemStruct(t types.Type) (*types.Struct, bool) {
	if t == nil {
		return nil, false
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	s, ok := sl.Elem().Underlying().(*types.Struct)
	return s, ok
}

// fieldLoad: t is the content of a field in the set.
func fieldLoad(t *Term, fs map[*types.Var]bool) bool {
	if t != nil && t.Op == OField {
		f, ok := t.Aux.(*types.Var)
		return ok && fs[f]
	}
	if t == nil || t.Op != OLoad || t.Args[0].Op != OFA {
		return false
	}
	f, ok := t.Args[0].Aux.(*types.Var)
	return ok && fs[f]
}

// nonEmpty finds the fields that hold a slice of records and such that the
// slice has at least one element in every BDD: nothing else is ever stored, and
// a new BDD has one.
func (c *Ctx) nonEmpty() (fs map[*types.Var]bool, why map[*types.Var]func(rep *Report), n map[*types.Var]int) {
	fs, why, n = map[*types.Var]bool{}, map[*types.Var]func(*Report){}, map[*types.Var]int{}
	refuse := func(f *types.Var, pos token.Pos, fn, rule, path, s string) {
		fs[f] = false
		if why[f] == nil {
			why[f] = func(rep *Report) { rep.bad(c, pos, fn, rule, path, "%s", s) }
		}
	}
	for _, u := range c.units() {
		seen := map[*Event]bool{}
		for _, o := range u.Outs {
			if o.Kind == OutPanic || o.Kind == OutUndecided {
				continue
			}
			for _, e := range o.St.events() {
				if e.Kind != EvStore || seen[e] || e.Addr.Op != OFA {
					continue
				}
				f, _ := e.Addr.Aux.(*types.Var)
				if f == nil || f == c.nodesF {
					continue
				}
				if _, ok := elemStruct(f.Type()); !ok {
					continue
				}
				seen[e] = true
				if fieldLoad(e.Val, map[*types.Var]bool{f: true}) {
					continue // a copy
				}
				n[f]++
				if _, ok := fs[f]; !ok {
					fs[f] = true
				}
				for _, x := range o.St.events() {
					if x.Kind == EvMake && x.Val == e.Val && x.Name != "ok" {
						refuse(f, e.Instr.Pos(), fname(e.In), "size of a cache", o.St.pathString(), fmt.Sprintf("a cache is allocated with a length that may be negative (%v)", short(x.Args[0].String(), 200)))
					}
				}
				ln := u.Run.length(o.St, e.Val, f.Type())
				if u.Run.decideLE(o.St, c.U.Int(1), ln) != yes {
					refuse(f, e.Instr.Pos(), fname(e.In), "size of a cache", o.St.pathString(), fmt.Sprintf("a cache gets a table that may be empty (length %v)", short(ln.String(), 200)))
				}
			}
		}
	}
	created := 0
	for _, u := range c.units() {
		for _, o := range u.Outs {
			if o.Kind != OutReturn || !c.createsBDD(o) || len(o.Res) == 0 || o.Res[0].Op == ONil {
				continue
			}
			created++
			for f, keys := range c.fieldPaths(o.Res[0].T, fs) {
				for _, k := range keys {
					ok := false
					if a := c.pathFrom(u.Run, o.St, o.Res[0], k); a != nil {
						v := u.Run.loadMem(o.St, o.St.mem, a, derefType(a.T))
						ok = u.Run.decideLE(o.St, c.U.Int(1), u.Run.length(o.St, v, derefType(a.T))) == yes
					}
					if !ok {
						refuse(f, u.Fn.Pos(), fname(u.Fn), "caches of a new BDD", o.St.pathString(), fmt.Sprintf("%s of a new BDD may be empty", k))
					} else {
						n[f]++
					}
				}
			}
		}
	}
	if created == 0 {
		for f := range fs {
			refuse(f, token.NoPos, "", "caches of a new BDD", "", "no path creates a BDD")
		}
	}
	return fs, why, n
}

// fieldPaths lists the paths from an object to some fields.
func (c *Ctx) fieldPaths(t types.Type, fs map[*types.Var]bool) map[*types.Var][]string {
	res := map[*types.Var][]string{}
	var walk func(t types.Type, path string, d int)
	walk = func(t types.Type, path string, d int) {
		s := structOf(derefType(t))
		if s == nil || d > 4 {
			return
		}
		if n, ok := derefType(t).(*types.Named); ok && n.Obj().Pkg() != c.P.Types {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if _, ok := fs[f]; ok {
				res[f] = append(res[f], path+f.Name())
				continue
			}
			walk(f.Type(), path+f.Name()+".", d+1)
		}
	}
	walk(t, "", 0)
	return res
}

func (c *Ctx) checkC31(rep *Report) {
	fs, why, num := c.nonEmpty()
	c.filled = map[*types.Var]bool{}
	for f, ok := range fs {
		if ok {
			c.filled[f] = true
		}
	}
	delete(c.shared, "opsfix")
	c.heads = map[*ssa.Function]*HeadAnalysis{}
	if err := c.buildSpecs(); err != nil {
		rep.bad(c, token.NoPos, "", "analysable", "", "%v", err)
		return
	}
	if err := c.opsFix(); err != nil {
		rep.bad(c, token.NoPos, "", "analysable", "", "%v", err)
		return
	}
	tabs := c.cacheTables()
	if len(tabs) == 0 {
		rep.bad(c, token.NoPos, "", "cache table", "", "no operation cache was found")
		return
	}
	for _, u := range c.units() {
		rep.paths(c, u.Run, u.Outs)
	}
	// 1. every table that is installed has an entry
	for f := range tabs {
		rep.site(f.Name())
		if c.filled[f] {
			rep.okn("a cache always has at least one entry", num[f])
			continue
		}
		if w := why[f]; w != nil {
			w(rep)
		} else {
			rep.bad(c, f.Pos(), "", "size of a cache", "", "the table %s is never allocated", f.Name())
		}
	}
	// 2. lookups
	state := map[ssa.Instruction]int{} // 1 all in range, 2 not
	evs := map[ssa.Instruction]*Event{}
	path := map[ssa.Instruction]string{}
	isCache := func(e *Event) bool { return e.Kind == EvIndex && fieldLoad(e.Args[0], tabs) }
	scan := func(outs []*Outcome, into map[ssa.Instruction]int) {
		for _, o := range outs {
			if o.Kind == OutPanic {
				continue
			}
			for _, e := range o.St.events() {
				if !isCache(e) {
					continue
				}
				if e.Name == "ok" {
					if into[e.Instr] == 0 {
						into[e.Instr] = 1
					}
				} else {
					into[e.Instr] = 2
					evs[e.Instr], path[e.Instr] = e, o.St.pathString()
				}
			}
		}
	}
	for _, m := range c.opMethods() {
		o, r, err := c.method(m)
		if err != nil {
			rep.bad(c, token.NoPos, m, "analysable", "", "%v", err)
			continue
		}
		rep.undecided(c, m, o)
		rep.paths(c, r, o)
		scan(o, state)
	}
	for _, h := range c.heads {
		rep.undecided(c, fname(h.Fn), h.Outs)
		rep.paths(c, h.Run, h.Outs)
		scan(h.Outs, state)
	}
	// code that is not part of an operation
	rest := map[ssa.Instruction]int{}
	for _, u := range c.units() {
		if h := c.heads[u.Fn]; h != nil {
			continue
		}
		m := map[ssa.Instruction]int{}
		scan(u.Outs, m)
		for i, v := range m {
			if state[i] == 0 && rest[i] != 2 {
				rest[i] = v
			}
		}
	}
	for i, v := range rest {
		state[i] = v
	}
	for i, v := range state {
		fn := fname(i.Parent())
		rep.site(c.P.pos(i.Pos()))
		if v == 2 {
			e := evs[i]
			rep.bad(c, i.Pos(), fn, "lookup in a cache", path[i], "the entry %s may be outside of the table (length %v)", short(e.Args[1].String(), 200), e.Args[2])
		} else {
			rep.ok("lookup in a cache within the table")
		}
	}
	// 3. hash chains
	c.checkC31Hash(rep)
}

// pathFrom follows a path of fields (heapKey) from an object.
func (c *Ctx) pathFrom(r *Run, st *State, base *Term, key string) *Term {
	a := base
	for i, name := range splitDots(key) {
		if i > 0 {
			// the content of the previous field, when it is a pointer
			if _, ok := derefType(a.T).Underlying().(*types.Pointer); ok {
				a = r.loadMem(st, st.mem, a, derefType(a.T))
			}
		}
		s := structOf(derefType(a.T))
		if s == nil {
			return nil
		}
		f := c.structField(s, func(v *types.Var) bool { return v.Name() == name })
		if f == nil {
			return nil
		}
		a = c.U.FA(a, f)
	}
	return a
}

func splitDots(s string) []string {
	var l []string
	for len(s) > 0 {
		i := 0
		for i < len(s) && s[i] != '.' {
			i++
		}
		l = append(l, s[:i])
		if i < len(s) {
			i++
		}
		s = s[i:]
	}
	return l
}

// checkC31Hash: heads of the hash chains.
func (c *Ctx) checkC31Hash(rep *Report) {
	m, err := c.tableModel()
	if err != nil {
		rep.bad(c, token.NoPos, "", "analysable", "", "%v", err)
		return
	}
	if m.hashF == nil {
		rep.ok("nodes are found with a map, not with hash chains")
		return
	}
	// lookups of chains
	state := map[ssa.Instruction]int{}
	pos := map[ssa.Instruction]token.Pos{}
	msg := map[ssa.Instruction]string{}
	path := map[ssa.Instruction]string{}
	scan := func(outs []*Outcome) {
		for _, o := range outs {
			if o.Kind == OutPanic {
				continue
			}
			last := map[[2]*Term]*Event{}
			for _, e := range o.St.events() {
				switch e.Kind {
				case EvIndex:
					last[[2]*Term{e.Args[0], e.Args[1]}] = e
				case EvLoad, EvStore:
					f, idx, base := m.nodeElem(e.Addr)
					if f != m.hashF {
						continue
					}
					if state[e.Instr] == 0 {
						state[e.Instr] = 1
					}
					pos[e.Instr] = e.Instr.Pos()
					var ix *Event
					for _, x := range last {
						if x.Args[0] == base && stripConv(x.Args[1]) == stripConv(idx) {
							ix = x
						}
					}
					if ix == nil || ix.Name != "ok" {
						state[e.Instr] = 2
						msg[e.Instr] = short(idx.String(), 200)
						path[e.Instr] = o.St.pathString()
					}
				}
			}
		}
	}
	rep.paths(c, m.t.Run, m.t.Outs)
	scan(m.t.Outs)
	done := map[ssa.Instruction]bool{}
	for i := range state {
		done[i] = true
	}
	for _, u := range c.units() {
		if u.Fn == m.t.Fn {
			continue
		}
		old := map[ssa.Instruction]int{}
		for i, v := range state {
			old[i] = v
		}
		scan(u.Outs)
		for i := range done {
			state[i] = old[i]
		}
	}
	for i, v := range state {
		rep.site(c.P.pos(i.Pos()))
		if v == 2 {
			rep.bad(c, i.Pos(), fname(i.Parent()), "lookup in the hash chains", path[i], "the chain %s may be outside of the table", msg[i])
		} else {
			rep.ok("lookup in the hash chains within the table")
		}
	}
}

func init() {
	register("C31", "every lookup in the operation caches and every head of a hash chain is reduced to the length of the table that it addresses; tables are never empty", func(c *Ctx, rep *Report) { c.checkC31(rep) })
	registry["C31"].both = true
}
