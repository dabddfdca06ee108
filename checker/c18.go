package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// heapKey names a location by its root and the fields that lead to it.
func heapKey(t *Term) (root *Term, key string) {
	var l []string
	for t != nil {
		switch t.Op {
		case OLoad:
			t = t.Args[0]
			continue
		case OFA:
			l = append(l, t.Aux.(*types.Var).Name())
			t = t.Args[0]
			continue
		}
		break
	}
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	return t, strings.Join(l, ".")
}

// resolveAlloc: a value stored in a field of the new BDD is named by this field.
func (c *Ctx) cacheKeys() map[string]bool {
	res := map[string]bool{}
	for fn := range c.specs() {
		for _, o := range c.head(fn).Outs {
			for _, cs := range c.cacheStores(o) {
				res[cs.table] = true
			}
			if o.Kind == OutReturn && len(o.Res) == 1 {
				if k, _, _ := c.entryOf(loadAddr(o.Res[0])); k != "" {
					res[k] = true
				}
			}
		}
	}
	return res
}

// entryFields: fields of the type of the entries.
func (c *Ctx) emptyPatterns() map[*types.Struct][]map[*types.Var]int64 {
	res := map[*types.Struct][]map[*types.Var]int64{}
	for key := range c.cacheKeys() {
		for _, x := range c.storeSites(key) {
			if sl, ok := x.cs.tblT.T.Underlying().(*types.Slice); ok {
				if st, ok := sl.Elem().Underlying().(*types.Struct); ok {
					res[st] = c.emptyEntries(key)
				}
			}
		}
	}
	return res
}

// clearInfo computes, for functions, the tables that they leave empty. Tables
// are named by the parameter of the function and a path of fields.
type clearInfo struct {
	c    *Ctx
	pats map[*types.Struct][]map[*types.Var]int64
	memo map[*ssa.Function]map[string]bool
	busy map[*ssa.Function]bool
	unit map[*ssa.Function]*unit
}

func (c *Ctx) clearer() *clearInfo {
	ci := &clearInfo{c: c, pats: c.emptyPatterns(), memo: map[*ssa.Function]map[string]bool{}, busy: map[*ssa.Function]bool{}, unit: map[*ssa.Function]*unit{}}
	for _, u := range c.units() {
		if ci.unit[u.Fn] == nil {
			ci.unit[u.Fn] = u
		}
	}
	return ci
}

// rootName identifies the roots of the locations of a unit.
func (ci *clearInfo) rootName(u *unit, t *Term) string {
	root, key := heapKey(t)
	if root == nil {
		return ""
	}
	switch root.Op {
	case OParam, OAlloc, OFresh:
		return root.String() + "|" + key
	}
	return ""
}

// clears lists the tables that fn leaves empty on every path: "i|path" where i
// is the parameter that leads to it.
func (ci *clearInfo) clears(fn *ssa.Function) map[string]bool {
	if s, ok := ci.memo[fn]; ok {
		return s
	}
	u := ci.unit[fn]
	if u == nil || ci.busy[fn] {
		return nil
	}
	ci.busy[fn] = true
	defer delete(ci.busy, fn)
	args := ci.c.unitArgs(fn)
	var res map[string]bool
	for _, o := range u.Outs {
		if o.Kind != OutReturn {
			continue
		}
		s := map[string]bool{}
		for k := range ci.path(u.Run, u.Outs, o, nil) {
			// relative to a parameter
			for i, a := range args {
				ra := ci.rootName(u, a)
				if ra == "" {
					continue
				}
				ra = strings.TrimSuffix(ra, "|")
				if strings.HasPrefix(k, ra) {
					rest := strings.TrimLeft(k[len(ra):], "|.")
					s[string(rune('0'+i))+"|"+rest] = true
				}
			}
		}
		if res == nil {
			res = s
		} else {
			for k := range res {
				if !s[k] {
					delete(res, k)
				}
			}
		}
	}
	if res == nil {
		res = map[string]bool{}
	}
	ci.memo[fn] = res
	return res
}

// path follows one outcome and returns the tables that are empty at its end;
// reclaim tells which events may reclaim nodes (nothing is empty after them).
func (ci *clearInfo) path(r *Run, outs []*Outcome, o *Outcome, reclaim func(e *Event) bool) map[string]bool {
	c := ci.c
	s := map[string]bool{}
	alias := map[string]string{}
	canon := func(k string) string {
		for n := 0; n < 8; n++ {
			hit := false
			for a, b := range alias {
				if strings.HasPrefix(k, a) && (len(k) == len(a) || k[len(a)] == '.') {
					k = b + k[len(a):]
					hit = true
					break
				}
				if strings.HasSuffix(a, "|") && strings.HasPrefix(k, a) {
					k = b + "." + k[len(a):]
					hit = true
					break
				}
			}
			if !hit {
				break
			}
		}
		return k
	}
	name := func(t *Term) string {
		if k := ci.rootName(nil, t); k != "" {
			return canon(k)
		}
		return ""
	}
	var views []*loopView
	for _, e := range o.St.events() {
		if reclaim != nil && reclaim(e) {
			s = map[string]bool{}
		}
		switch e.Kind {
		case EvStore:
			// a new object gets a name in the heap
			if e.Addr.Op == OFA && e.Val != nil && (e.Val.Op == OAlloc || e.Val.Op == OFresh) {
				if to := name(e.Addr); to != "" {
					alias[e.Val.String()+"|"] = to
				}
			}
			if e.Addr.Op == OFA {
				if sl, ok := derefType(e.Addr.T).Underlying().(*types.Slice); ok {
					if st, ok := sl.Elem().Underlying().(*types.Struct); ok && ci.pats[st] != nil {
						delete(s, name(e.Addr))
					}
				}
			}
			if t, f := ci.entry(e.Addr); t != nil && f != nil {
				if !ci.emptyVal(f, e.Val) {
					delete(s, name(t))
				}
			}
		case EvHead:
			for k := range ci.clears(e.Fn) {
				i := int(k[0] - '0')
				if i >= len(e.Args) {
					continue
				}
				if nm := ci.rootName(nil, e.Args[i]); nm != "" {
					full := nm
					if rest := k[2:]; rest != "" {
						if strings.HasSuffix(nm, "|") {
							full = nm + rest
						} else {
							full = nm + "." + rest
						}
					}
					s[canon(full)] = true
				}
			}
		case EvLoopExit:
			if views == nil {
				views = loopViews(outs)
			}
			for _, v := range views {
				if v.Inst.ID != e.Loop.ID {
					continue
				}
				if t := ci.clearingLoop(r, v, o); t != nil {
					if k := name(t); k != "" {
						s[k] = true
						c.shared["clearingLoops"] = true
					}
				}
			}
		}
	}
	res := map[string]bool{}
	for k := range s {
		res[canon(k)] = true
	}
	return res
}

// entry recognises a field of an entry of a table of results.
func (ci *clearInfo) entry(a *Term) (tbl *Term, f *types.Var) {
	if a.Op != OFA || a.Args[0].Op != OIA {
		return nil, nil
	}
	st := structOf(derefType(a.Args[0].T))
	if st == nil || ci.pats[st] == nil {
		return nil, nil
	}
	return a.Args[0].Args[0], a.Aux.(*types.Var)
}

// emptyVal: the value makes the entry one that holds no result.
func (ci *clearInfo) emptyVal(f *types.Var, v *Term) bool {
	for _, pats := range ci.pats {
		for _, g := range pats {
			if k, ok := g[f]; ok && isIntConst(v) && v.K == k {
				return true
			}
		}
	}
	return false
}

// clearingLoop: the loop empties every entry of a table.
func (ci *clearInfo) clearingLoop(r *Run, v *loopView, o *Outcome) *Term {
	var tbl *Term
	if len(v.Backs) == 0 {
		return nil
	}
	exits := []*Outcome{o}
	var idx *Term
	for n, b := range v.Backs {
		var bt, bi *Term
		vals := map[*types.Var]*Term{}
		for _, e := range v.body(b) {
			if e.Kind != EvStore {
				continue
			}
			t, f := ci.entry(e.Addr)
			if t == nil {
				continue
			}
			if in := loopsAt(b, e); len(in) == 0 || in[len(in)-1].ID != v.Inst.ID {
				continue
			}
			if bt != nil && (bt != t || bi != e.Addr.Args[0].Args[1]) {
				return nil // two entries in one turn
			}
			bt, bi = t, e.Addr.Args[0].Args[1]
			vals[f] = e.Val
		}
		if bt == nil {
			return nil
		}
		st := structOf(derefType(bt.T.Underlying().(*types.Slice).Elem()))
		if st == nil {
			st = structOf(bt.T.Underlying().(*types.Slice).Elem())
		}
		good := false
		for _, g := range ci.pats[st] {
			all := len(g) > 0
			for f, k := range g {
				if x := vals[f]; x == nil || !isIntConst(x) || x.K != k {
					all = false
				}
			}
			if all {
				good = true
			}
		}
		if !good {
			return nil
		}
		if n > 0 && (bt != tbl || bi != idx) {
			return nil
		}
		tbl, idx = bt, bi
	}
	if !v.covers(r, idx, r.U.Int(0), r.length(o.St, tbl, tbl.T), exits) {
		return nil
	}
	return tbl
}

// freeingStore: the event makes the slot of a node free.
func (c *Ctx) freeingStore(u *unit, o *Outcome, e *Event) bool {
	if e.Kind != EvStore || e.Addr.Op != OFA || e.Addr.Aux != c.lowF || rootOf(e.Addr).Op == OAlloc {
		return false
	}
	if isIntConst(e.Val) && e.Val.K >= 0 {
		return false
	}
	if !isIntConst(e.Val) {
		if lo, _ := u.Run.bounds(o.St, e.Val); lo >= 0 {
			return false
		}
		if !isIntConst(e.Val) && c.isFreeSlotAddr(u.Run, o, e.Addr) {
			return false
		}
	}
	return !c.newSlot(u, o, e, access{Addr: e.Addr})
}

func (c *Ctx) isFreeSlotAddr(r *Run, o *Outcome, a *Term) bool {
	for a.Op == OFA {
		a = a.Args[0]
	}
	return a.Op == OIA && c.isFreeSlot(r, o, a.Args[1])
}

// reclaimers lists the functions that may free nodes, transitively.
func (c *Ctx) reclaimers() (direct, all map[*ssa.Function]bool) {
	direct = map[*ssa.Function]bool{}
	all = map[*ssa.Function]bool{}
	calls := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, u := range c.units() {
		for _, o := range u.Outs {
			for e := o.St.ev; e != nil; e = e.prev {
				if e.ev.Kind == EvHead {
					if calls[u.Fn] == nil {
						calls[u.Fn] = map[*ssa.Function]bool{}
					}
					calls[u.Fn][e.ev.Fn] = true
				}
				if c.freeingStore(u, o, e.ev) {
					direct[u.Fn] = true
				}
			}
		}
	}
	for f := range direct {
		all[f] = true
	}
	for ch := true; ch; {
		ch = false
		for f, m := range calls {
			for g := range m {
				if all[g] && !all[f] {
					all[f] = true
					ch = true
				}
			}
		}
	}
	return
}

func (c *Ctx) checkDiscarded(rep *Report) {
	if err := c.buildSpecs(); err != nil {
		rep.bad(c, token.NoPos, "operations", "anchor", "", "%v", err)
		return
	}
	keys := sortedKeys(c.cacheKeys())
	if len(keys) == 0 {
		rep.bad(c, token.NoPos, "caches", "anchor", "", "no cache of results was found")
		return
	}
	for _, k := range keys {
		rep.site("cache " + k)
	}
	direct, all := c.reclaimers()
	if len(direct) == 0 {
		rep.bad(c, token.NoPos, "collection", "anchor", "", "no function reclaims nodes")
		return
	}
	for f := range direct {
		rep.site("nodes are reclaimed in " + fname(f))
	}
	ci := c.clearer()
	// Makenode answers for the collections that it triggers; the low-level
	// constructor is followed in it, since the decision depends on its result
	mk := func(fn *ssa.Function) (*Run, []*Outcome) {
		r := c.unitRun(fn)
		if fn == c.Makenode {
			delete(r.NoInline, c.lowMaker())
		}
		args := c.unitArgs(fn)
		for _, v := range fn.FreeVars {
			args = append(args, c.U.Param("captured "+v.Name(), v.Type()))
		}
		return r, r.Exec(fn, args, c.rawState)
	}
	seen := map[*ssa.Function]bool{}
	covered := map[*ssa.Function]bool{c.Makenode: true}
	var todo []*ssa.Function
	entry := map[*ssa.Function]bool{}
	for _, u := range c.units() {
		if u.Why != "called" && !entry[u.Fn] {
			entry[u.Fn] = true
			todo = append(todo, u.Fn)
		}
	}
	if !entry[c.Makenode] {
		todo = append(todo, c.Makenode)
	}
	sort.Slice(todo, func(i, j int) bool { return todo[i].Pos() < todo[j].Pos() })
	// inner functions that call reclaimers other than through Makenode are
	// followed up to the entry point that calls them
	rec := func(f *ssa.Function) bool { return all[f] && !covered[f] && c.reclaimsOutside(f, all, covered) }
	n := 0
	for _, fn := range todo {
		if seen[fn] || !rec(fn) && fn != c.Makenode {
			continue
		}
		seen[fn] = true
		r, outs := mk(fn)
		rep.paths(c, r, outs)
		rep.undecided(c, fname(fn), outs)
		for _, o := range outs {
			if o.Kind != OutReturn {
				continue
			}
			last := (*Event)(nil)
			reclaim := func(e *Event) bool {
				u := &unit{Fn: fn, Run: r, Outs: outs}
				if e.Kind == EvHead && (direct[e.Fn] || fn == c.Makenode && all[e.Fn] || rec(e.Fn)) || c.freeingStore(u, o, e) {
					last = e
					return true
				}
				return false
			}
			s := ci.path(r, outs, o, reclaim)
			if last == nil {
				rep.ok("path without collection")
				continue
			}
			n++
			if c.createsBDD(o) {
				continue
			}
			root := "b|"
			if len(fn.Params) > 0 {
				root = ci.rootName(nil, c.B)
			}
			for _, k := range keys {
				if !s[strings.TrimSuffix(root, "|")+"|"+k] {
					rep.bad(c, last.Instr.Pos(), fname(fn), "caches emptied", o.St.pathString(), "the function returns after a collection and %s still holds results", k)
				} else {
					rep.ok("cache emptied after a collection")
				}
			}
		}
	}
	if n == 0 {
		rep.bad(c, token.NoPos, "Makenode", "anchor", "", "no path of the interface reclaims nodes")
	}
}

// reclaimsOutside: some collection is reached without going through Makenode.
func (c *Ctx) reclaimsOutside(f *ssa.Function, all, covered map[*ssa.Function]bool) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function) bool
	visit = func(g *ssa.Function) bool {
		if seen[g] || covered[g] {
			return false
		}
		seen[g] = true
		for _, u := range c.units() {
			if u.Fn != g {
				continue
			}
			for _, o := range u.Outs {
				for e := o.St.ev; e != nil; e = e.prev {
					if c.freeingStore(u, o, e.ev) {
						return true
					}
					if e.ev.Kind == EvHead && all[e.ev.Fn] && visit(e.ev.Fn) {
						return true
					}
				}
			}
		}
		return false
	}
	return visit(f)
}

// createsBDD: the path allocates the BDD that it uses (no result is remembered
// yet, and the caches are built empty, which C19 relies on and is checked
// below).
func (c *Ctx) createsBDD(o *Outcome) bool {
	for e := o.St.ev; e != nil; e = e.prev {
		if e.ev.Kind == EvStore && rootOf(e.ev.Addr).Op == OAlloc && e.ev.Addr.Op == OFA && e.ev.Addr.Aux == c.varnumF {
			return true
		}
	}
	return false
}

func init() {
	register("C18", "every path that goes through a function that frees nodes, from each exported function (Makenode followed together with the low-level constructor, so that the reported outcome of the allocation and the reaction to it are correlated), ends with every table of results emptied after the last such event; a table is emptied by loops that store the empty pattern in every entry", func(c *Ctx, rep *Report) {
		c.checkDiscarded(rep)
	})
}
