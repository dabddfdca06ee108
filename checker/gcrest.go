package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func (m *tableModel) unitsOf(fn *ssa.Function) []*unit {
	var l []*unit
	for _, u := range m.c.units() {
		if u.Fn == fn {
			l = append(l, u)
		}
	}
	return l
}

func (m *tableModel) addIn(ok bool, props string, fn *ssa.Function, e *Event, rule, path, f string, a ...interface{}) {
	n := len(m.res)
	m.add(ok, props, e, fn.Pos(), rule, path, f, a...)
	if e == nil || e.In == nil {
		m.res[n].fn = fname(fn)
	}
}

// checkMarkers: the functions that mark nodes mark the node that they are given
// and everything below.
func (m *tableModel) checkMarkers() {
	c := m.c
	var fns []*ssa.Function
	for f := range m.markers {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	if len(fns) == 0 {
		m.addIn(false, "C14", m.t.Fn, nil, "marking", "", "the function that marks nodes was not found")
	}
	for _, fn := range fns {
		for _, u := range m.unitsOf(fn) {
			r := u.Run
			var param *Term
			for _, a := range c.unitArgs(fn) {
				if isIntType(a.T) {
					param = a
				}
			}
			for _, o := range u.Outs {
				if o.Kind == OutPanic {
					continue
				}
				if o.Kind == OutUndecided {
					m.addIn(false, "C14", fn, nil, "marking", o.St.pathString(), "the analysis cannot follow this path: %s", o.Why)
					continue
				}
				pth := o.St.pathString()
				cur := param
				marked, low, high := false, false, false
				for _, e := range o.St.events() {
					switch e.Kind {
					case EvLoopEnter:
						for p, ph := range e.Loop.Phi {
							if isIntType(p.Type()) && e.Loop.Init[p] == cur && cur != nil {
								cur = ph
								marked, low, high = false, false, false
								break
							}
						}
					case EvStore:
						f, i, _ := m.nodeElem(e.Addr)
						if f == nil {
							if m.tblGlobal(e.Addr) != nil {
								m.addIn(false, "C14 C29", fn, e, "marking", pth, "the table is changed while nodes are marked")
							}
							continue
						}
						v := stripConv(e.Val)
						ok := false
						if f == m.markF && v.Op == OBin && (v.Aux == "|" || v.Aux == "^") {
							for k := 0; k < 2; k++ {
								if x := v.Args[k]; isIntConst(x) && x.K == m.mask && v.Args[1-k].Op == OLoad && v.Args[1-k].Args[0] == e.Addr {
									ok = true
								}
							}
						}
						if !ok {
							m.addIn(false, "C14 C29", fn, e, "marking", pth, "the contents of a node are changed while nodes are marked (field %s)", f.Name())
							continue
						}
						if i == cur {
							marked = true
						}
					case EvHead:
						if !m.markers[e.Fn] {
							if m.headTouches(e.Fn) {
								m.addIn(false, "C14", fn, e, "marking", pth, "%s may change the table while nodes are marked", fname(e.Fn))
							}
							continue
						}
						for _, a := range e.Args {
							if !isIntType(a.T) {
								continue
							}
							if m.succ(a, cur, c.lowF) {
								low = true
							}
							if m.succ(a, cur, c.highF) {
								high = true
							}
						}
					}
				}
				if o.Kind == OutLoopBack {
					for p := range o.Loop.Phi {
						if o.Loop.Phi[p] == cur {
							if m.succ(o.Loop.Next[p], cur, c.lowF) {
								low = true
							}
							if m.succ(o.Loop.Next[p], cur, c.highF) {
								high = true
							}
						}
					}
				}
				if cur == nil {
					m.addIn(false, "C14", fn, nil, "marking", pth, "the node to mark was not found")
					continue
				}
				if marked {
					switch {
					case !low:
						m.addIn(false, "C14", fn, nil, "marking", pth, "a node is marked and its low successor is not")
					case !high:
						m.addIn(false, "C14", fn, nil, "marking", pth, "a node is marked and its high successor is not")
					default:
						m.addIn(true, "C14", fn, nil, "marking", "", "")
					}
					continue
				}
				// nothing is marked: the node needs no mark
				st := o.St
				fine := r.decideLE(st, cur, r.U.Int(1)) == yes
				nodes := r.loadMem(st, st.mem, c.U.FA(m.T, c.nodesF), c.nodesF.Type())
				if !fine {
					lv := r.loadMem(st, st.mem, m.elemAddr(nodes, cur, c.lowF), c.lowF.Type())
					fine = r.decideLE(st, lv, r.U.Int(-1)) == yes
				}
				if !fine {
					mv := r.loadMem(st, st.mem, m.elemAddr(nodes, cur, m.markF), m.markF.Type())
					fine = notTri(r.decideEQ(st, r.binopAnd(st, mv, m.mask), r.U.Int(0))) == yes
				}
				if !fine {
					m.addIn(false, "C14", fn, nil, "marking", pth, "a node that is in use, and not marked yet, is not marked")
					continue
				}
				m.addIn(true, "C14", fn, nil, "marking", "", "")
			}
		}
	}
}

// succ: a is the given successor of the node n.
func (m *tableModel) succ(a, n *Term, f *types.Var) bool {
	if a == nil {
		return false
	}
	a = stripConv(a)
	if a.Op != OLoad {
		return false
	}
	g, i, _ := m.nodeElem(a.Args[0])
	return g == f && i == n
}

// outside lists the functions that can run without the function that builds
// nodes having been called (by way of functions of the package).
func (m *tableModel) outside() map[*ssa.Function]bool {
	c := m.c
	set := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || set[f] || f == m.t.Fn || !c.P.isSrc(f) {
			return
		}
		set[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					visit(staticCallee(ci.Common()))
				}
				for _, op := range in.Operands(nil) {
					switch x := (*op).(type) {
					case *ssa.Function:
						visit(x)
					case *ssa.MakeClosure:
						visit(x.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	for _, f := range c.apiFuncs() {
		visit(f)
	}
	for _, f := range c.P.Funcs {
		if (f.Parent() != nil || f.Signature.Recv() == nil) && f.Synthetic == "" && c.P.escapes(f) {
			visit(f)
		}
	}
	for _, f := range c.finalizers() {
		visit(f)
	}
	return set
}

// constructors are the functions that only run while a BDD is created, called by
// the function that creates it (their effects are checked with it).
func (c *Ctx) constructors() map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	api := map[*ssa.Function]bool{}
	for _, f := range c.apiFuncs() {
		api[f] = true
	}
	users := map[*ssa.Function][]*ssa.Function{}
	for _, f := range c.P.Funcs {
		if f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, isCall := in.(ssa.CallInstruction)
				for i, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if isCall && i == 0 && ci.Common().StaticCallee() == g && !ci.Common().IsInvoke() {
						users[g] = append(users[g], f)
					} else {
						users[g] = append(users[g], nil)
					}
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range c.P.Funcs {
			if res[f] || api[f] || f.Parent() != nil || len(users[f]) == 0 {
				continue
			}
			all := true
			for _, g := range users[f] {
				if g == nil || !res[g] && !(api[g] && g.Signature.Recv() == nil && c.createsFn(g)) {
					all = false
				}
			}
			if all {
				res[f], ch = true, true
			}
		}
	}
	return res
}

// inConstruction: the table that is changed belongs to a BDD that is being
// created.
func inConstruction(a *Term) bool { return a != nil && rootOf(a).Op == OAlloc }

// checkOutside: nothing but the function that builds nodes changes the table.
func (m *tableModel) checkOutside() {
	c := m.c
	out := m.outside()
	fin := map[*ssa.Function]bool{}
	for _, f := range c.finalizers() {
		fin[f] = true
	}
	build := c.constructors()
	for _, u := range c.units() {
		if !out[u.Fn] || m.markers[u.Fn] || build[u.Fn] {
			continue
		}
		// the marks may be removed in other functions
		for _, o := range u.Outs {
			for _, e := range o.St.events() {
				if e.Kind == EvHead && m.markers[e.Fn] && u.Run.Snap == false {
					t := c.tableRun(u.Fn)
					u = &unit{Fn: u.Fn, Held: u.Held, Why: u.Why, Outs: t.Outs, Run: t.Run}
				}
			}
		}
		views := map[int64]*loopView{}
		for _, v := range loopViews(u.Outs) {
			views[v.Inst.ID] = v
		}
		for _, o := range u.Outs {
			if o.Kind == OutPanic {
				continue
			}
			pth := o.St.pathString()
			if o.Kind == OutUndecided {
				m.addIn(false, "C29", u.Fn, nil, "table unchanged", pth, "the analysis cannot follow this path: %s", o.Why)
				continue
			}
			marking := false
			var markEv *Event
			for _, e := range o.St.events() {
				switch e.Kind {
				case EvHead:
					if m.markers[e.Fn] {
						marking, markEv = true, e
					} else if marking && (e.Fn == c.Makenode || e.Fn == m.t.Fn || m.headTouches(e.Fn) && e.Fn != c.Retnode) {
						m.addIn(false, "C29 C14", u.Fn, e, "marks removed", pth, "%s is called while nodes are marked", fname(e.Fn))
					}
				case EvCallback:
					if marking {
						m.addIn(false, "C29 C10", u.Fn, e, "marks removed", pth, "a function of the user is called while nodes are marked")
					}
				case EvMapSet, EvMapDel:
					if m.uniqF != nil && e.Args[0].Op == OLoad && e.Args[0].Args[0].Op == OFA && e.Args[0].Args[0].Aux == m.uniqF && !inConstruction(e.Args[0].Args[0]) {
						m.addIn(false, "C29", u.Fn, e, "table unchanged", pth, "the table of nodes is changed")
					}
				case EvStore:
					if inConstruction(e.Addr) {
						continue
					}
					if f := m.tblGlobal(e.Addr); f != nil {
						m.addIn(false, "C29", u.Fn, e, "table unchanged", pth, "the table of nodes is changed (field %s)", f.Name())
						continue
					}
					f, _, b := m.nodeElem(e.Addr)
					if f == nil || inConstruction(b) {
						continue
					}
					if b.Op == OLoad && inConstruction(b.Args[0]) {
						continue
					}
					old := u.Run.loadAt(o.St, e)
					if f == m.refF && (u.Fn == c.Retnode || fin[u.Fn]) {
						m.addIn(true, "C29", u.Fn, e, "table unchanged", "", "")
						continue
					}
					if f == m.markF && m.clearedOf(u.Run, o.St, e.Val, old, e.Addr) {
						m.addIn(true, "C29", u.Fn, e, "table unchanged", "", "")
						continue
					}
					m.addIn(false, "C29", u.Fn, e, "table unchanged", pth, "the contents of a node are changed (field %s)", f.Name())
				case EvLoopExit:
					if v := views[e.Loop.ID]; v != nil {
						for _, b := range v.Backs {
							for _, x := range v.body(b) {
								if x.Kind == EvHead && m.markers[x.Fn] {
									marking, markEv = true, x
								}
							}
						}
					}
					if !marking {
						continue
					}
					if v := views[e.Loop.ID]; v != nil && m.unmarks(u, v, o) {
						marking = false
						m.addIn(true, "C29 C10", u.Fn, e, "marks removed", "", "")
					}
				}
			}
			if marking && o.Kind == OutReturn {
				m.addIn(false, "C29 C10 C15", u.Fn, markEv, "marks removed", pth, "the function returns while nodes are marked")
			}
		}
		m.addIn(true, "C29", u.Fn, nil, "table unchanged", "", "")
	}
}

// loadAt is the value that a store replaces, when it was recorded.
func (r *Run) loadAt(st *State, e *Event) *Term {
	if e.Mem == nil {
		return nil
	}
	return r.loadMem(st, e.Mem, e.Addr, derefType(e.Addr.T))
}

// clearedOf: v is the value at that address without its mark.
func (m *tableModel) clearedOf(r *Run, st *State, v, old, addr *Term) bool {
	v = stripConv(v)
	if v.Op != OBin {
		return false
	}
	for i := 0; i < 2; i++ {
		x := v.Args[1-i]
		if !isIntConst(v.Args[i]) || !(x == old || x.Op == OLoad && x.Args[0] == addr) {
			continue
		}
		k := v.Args[i].K
		switch v.Aux {
		case "&":
			return k&m.mask == 0 && k&(m.mask-1) == m.mask-1
		case "&^":
			return i == 1 && k == m.mask
		case "^":
			return k == m.mask && notTri(r.decideEQ(st, r.binopAnd(st, x, m.mask), r.U.Int(0))) == yes
		}
	}
	return false
}

// unmarks: the loop removes the mark of every node.
func (m *tableModel) unmarks(u *unit, v *loopView, o *Outcome) bool {
	c, r := m.c, u.Run
	if len(v.Backs) == 0 {
		return false
	}
	var n *Term
	for _, b := range v.Backs {
		for _, e := range v.body(b) {
			if e.Kind == EvStore && n == nil {
				if f, i, _ := m.nodeElem(e.Addr); f == m.markF && phiOffset(r, v, i) {
					n = stripConv(i)
				}
			}
		}
	}
	if n == nil {
		return false
	}
	for _, b := range v.Backs {
		done := false
		var at *Term
		for _, e := range v.body(b) {
			if e.Kind == EvStore {
				if f, i, _ := m.nodeElem(e.Addr); f == m.markF && stripConv(i) == n {
					done = true // (it removes the mark: checked with the stores)
				}
			}
			if e.Kind == EvLoad {
				if f, i, _ := m.nodeElem(e.Addr); f == m.markF && stripConv(i) == n {
					at = e.Val
				}
			}
		}
		if !done && at != nil {
			done = r.decideEQ(b.St, r.binopAnd(b.St, at, m.mask), r.U.Int(0)) == yes
		}
		if !done {
			return false
		}
	}
	nodes := r.loadMem(o.St, v.Inst.Head, c.U.FA(m.T, c.nodesF), c.nodesF.Type())
	ln := r.length(o.St, nodes, nodes.T)
	return v.covers(r, n, r.U.Int(2), ln, []*Outcome{o})
}

// checkCallers: whoever builds a node gives the stack of references, or keeps no
// node that is not counted.
func (m *tableModel) checkCallers() {
	c := m.c
	for _, u := range c.units() {
		for _, o := range u.Outs {
			if o.Kind == OutPanic || o.Kind == OutUndecided {
				continue
			}
			pth := o.St.pathString()
			evs := o.St.events()
			for k, e := range evs {
				if e.Kind != EvHead {
					continue
				}
				if e.Fn == m.t.Fn {
					var refs *Term
					for i, a := range m.t.Args {
						if a == m.pRefs && i < len(e.Args) {
							refs = e.Args[i]
						}
					}
					if m.pRefs == nil {
						continue // it reads the stack itself (checked with its paths)
					}
					if refs != nil && refs.Op == OLoad && refs.Args[0].Op == OFA && refs.Args[0].Aux == c.refstackF {
						stale := false
						for _, x := range evs[:k] {
							if x.Kind == EvStore && x.Addr == refs.Args[0] && x.Val != refs {
								stale = true
							}
						}
						if cur := u.Run.loadMem(o.St, e.Mem, refs.Args[0], c.refstackF.Type()); stale && e.Mem != nil && cur != refs {
							m.addIn(false, "C14", u.Fn, e, "roots given", pth, "a node is built with an old stack of references")
							continue
						}
						m.addIn(true, "C14", u.Fn, e, "roots given", "", "")
						continue
					}
					if refs != nil && e.Mem != nil && refs == u.Run.loadMem(o.St, e.Mem, c.U.FA(c.B, c.refstackF), c.refstackF.Type()) {
						m.addIn(true, "C14", u.Fn, e, "roots given", "", "")
						continue
					}
					// no stack: the node must be counted at once
					if u.Fn == c.Makenode || !m.countedAtOnce(u, o, evs, k) {
						m.addIn(false, "C14 C27", u.Fn, e, "roots given", pth, "a node is built without giving the stack of references: the nodes that it protects can be reclaimed")
					} else {
						m.addIn(true, "C14 C27", u.Fn, e, "roots given", "", "")
					}
				}
			}
		}
	}
}

// countedAtOnce: the node built by the event k is given a count of references
// before anything else is built.
func (m *tableModel) countedAtOnce(u *unit, o *Outcome, evs []*Event, k int) bool {
	res := evs[k].Val
	var stored bool
	for _, e := range evs[k+1:] {
		switch e.Kind {
		case EvStore:
			f, i, _ := m.nodeElem(e.Addr)
			if f == m.refF && i == res {
				if u.Run.decideLE(o.St, u.Run.U.Int(1), e.Val) == yes {
					stored = true
				} else {
					return false
				}
			}
		case EvHead:
			if e.Fn == m.t.Fn || e.Fn == m.c.Makenode {
				return stored
			}
		}
	}
	if stored {
		return true
	}
	// the construction failed
	if o.Kind == OutReturn {
		if u.Run.decideLE(o.St, res, u.Run.U.Int(-1)) == yes {
			return true
		}
		if len(o.Res) > 0 && o.Res[0].Op == ONil {
			return true
		}
	}
	return false
}

// checkMask: the mark is a bit that is not used for something else.
func (m *tableModel) checkMask() {
	c := m.c
	fin := map[*ssa.Function]bool{}
	for _, f := range c.finalizers() {
		fin[f] = true
	}
	n := 0
	for _, u := range c.units() {
		for _, o := range u.Outs {
			if o.Kind == OutPanic || o.Kind == OutUndecided {
				continue
			}
			for _, e := range o.St.events() {
				if e.Kind != EvStore {
					continue
				}
				f, i, _ := m.nodeElem(e.Addr)
				if f != m.markF || i == nil {
					continue
				}
				switch {
				case m.markF == m.refF && (u.Fn == c.Retnode || isIntConst(e.Val)):
					_, hi := u.Run.bounds(o.St, e.Val)
					n++
					if hi >= m.mask {
						m.addIn(false, "C14", u.Fn, e, "mark bit", o.St.pathString(), "a count of references can reach the bit used to mark nodes (%#x)", m.mask)
					} else {
						m.addIn(true, "C14", u.Fn, e, "mark bit", "", "")
					}
				case m.markF == c.levelF && inConstruction(e.Addr):
					_, hi := u.Run.bounds(o.St, e.Val)
					n++
					if hi >= m.mask {
						m.addIn(false, "C14", u.Fn, e, "mark bit", o.St.pathString(), "a level can reach the bit used to mark nodes (%#x)", m.mask)
					} else {
						m.addIn(true, "C14", u.Fn, e, "mark bit", "", "")
					}
				}
			}
		}
	}
	if n == 0 && (m.markF == m.refF || m.markF == c.levelF) {
		m.addIn(false, "C14", m.t.Fn, nil, "mark bit", "", "no place that fills the field with the mark was found")
	}
}

// checkKey: two triples never have the same key.
func (m *tableModel) checkKey() {
	if m.uniqF == nil {
		return
	}
	bits := map[*Term]uint64{}
	var leaves func(t *Term, sh, w int64)
	leaves = func(t *Term, sh, w int64) {
		size := func(x *Term) int64 { return m.c.P.sizeof(x.T) * 8 }
		switch {
		case t.Op == OConv && isIntType(t.T) && isIntType(t.Args[0].T):
			if s := size(t); s < w {
				w = s
			}
			leaves(t.Args[0], sh, w)
		case t.Op == OBin && t.Aux == ">>" && isIntConst(t.Args[1]):
			leaves(t.Args[0], sh+t.Args[1].K, w)
		case t == m.pLevel || t == m.pLow || t == m.pHigh:
			for b := sh; b < sh+w && b < size(t); b++ {
				bits[t] |= 1 << uint(b)
			}
		}
	}
	switch m.keyPat.Op {
	case OArr, OStruct:
		for _, a := range m.keyPat.Args {
			leaves(a, 0, m.c.P.sizeof(a.T)*8)
		}
	default:
		m.addIn(false, "C12", m.t.Fn, nil, "key", "", "the key of the table of nodes is not understood: %s", m.keyPat)
		return
	}
	for _, p := range []struct {
		t *Term
		n string
		w int64
	}{{m.pLevel, "level", 21}, {m.pLow, "low", m.c.P.sizeof(m.pLow.T) * 8}, {m.pHigh, "high", m.c.P.sizeof(m.pHigh.T) * 8}} {
		all := ^uint64(0)
		if p.w < 64 {
			all = 1<<uint(p.w) - 1
		}
		if bits[p.t]&all != all {
			m.addIn(false, "C12", m.t.Fn, nil, "key", "", "the key of a node does not tell apart all the values of its field %s (bits %#x are missing)", p.n, all&^bits[p.t])
		} else {
			m.addIn(true, "C12", m.t.Fn, nil, "key", "", "")
		}
	}
}

func (p *Prog) sizeof(t types.Type) int64 {
	return types.SizesFor("gc", p.Cfg.GOARCH).Sizeof(t)
}

func (r *Run) binopAnd(st *State, v *Term, k int64) *Term {
	return r.binop(st, token.AND, v, r.U.Int(k), v.T, v.T)
}

// checkInit: the function that creates a BDD starts with a table where every
// slot except the constants is free, linked and counted.
func (m *tableModel) checkInit() {
	c := m.c
	n := 0
	for _, fn := range c.apiFuncs() {
		if fn.Signature.Recv() != nil || !c.createsFn(fn) {
			continue
		}
		n++
		r := c.unitRun(fn)
		r.Snap, r.NoUnroll = true, true
		c.keepTableLoops(r)
		args := c.unitArgs(fn)
		// the table can hold the constants and the variables (checked with the
		// options)
		on := r.OnEvent
		r.OnEvent = func(r *Run, st *State, e *Event) {
			if e.Kind == EvMake && e.Val.T != nil && types.Identical(e.Val.T.Underlying(), c.nodesF.Type().Underlying()) {
				r.assumeLE(st, r.U.Int(4), e.Args[0])
			}
			on(r, st, e)
		}
		outs := r.Exec(fn, args, func() *State { return c.rawState() })
		views := map[int64]*loopView{}
		for _, v := range loopViews(outs) {
			views[v.Inst.ID] = v
		}
		built := false
		later := map[ssa.Instruction]bool{}
		for _, o := range outs {
			if o.Kind == OutPanic {
				continue
			}
			pth := o.St.pathString()
			if o.Kind == OutUndecided {
				m.addIn(false, "C15", fn, nil, "first table", pth, "the analysis cannot follow this path: %s", o.Why)
				continue
			}
			// the first node that is built
			evs := o.St.events()
			var first *Event
			at := len(evs)
			for k, e := range evs {
				if e.Kind == EvHead && e.Fn == m.t.Fn {
					first, at = e, k
					break
				}
			}
			mem := o.St.mem
			switch {
			case first != nil:
				mem = first.Mem
				if in := loopsAt(o, first); len(in) > 0 {
					// the state before the loops that it is in
					mem = in[0].Pre.mem
					for k, e := range evs {
						if e.Kind == EvLoopEnter && e.Loop.ID == in[0].ID {
							at = k
						}
					}
				}
			default:
				continue
			}
			// its table
			var T *Term
			for _, e := range evs[:at] {
				if e.Kind == EvStore && e.Addr.Op == OFA && e.Addr.Aux == c.nodesF {
					T = e.Addr.Args[0]
				}
			}
			if first != nil && len(first.Args) > 0 {
				T = first.Args[0]
			}
			if T == nil || T.Op != OAlloc && !inConstruction(T) {
				m.addIn(false, "C15", fn, first, "first table", pth, "the table of the new BDD was not found")
				continue
			}
			built = true
			m2 := *m
			m2.T, m2.r, m2.infos, m2.res = T, r, map[int64]*tblLoop{}, nil
			for _, e := range evs[at:] {
				if e.Kind != EvStore || later[e.Instr] {
					continue
				}
				f, _, _ := m.nodeElem(e.Addr)
				g := m2.tblGlobal(e.Addr)
				if f == nil && g == nil {
					continue
				}
				later[e.Instr] = true
				if f == m.refF {
					m.addIn(true, "C15 C29", fn, e, "first table", "", "")
					continue
				}
				m.addIn(false, "C15 C29", fn, e, "first table", pth, "the table is changed after the first node was built")
			}
			m2.initPath(fn, o, evs[:at], mem, views, first, pth)
			m.res = append(m.res, m2.res...)
		}
		if !built {
			m.addIn(false, "C15", fn, nil, "first table", "", "no path of %s builds a table", fname(fn))
		}
	}
	if n == 0 {
		m.addIn(false, "C15", m.t.Fn, nil, "first table", "", "the function that creates a BDD was not found")
	}
}

// createsFn: the function stores the number of variables in a new BDD.
func (c *Ctx) createsFn(fn *ssa.Function) bool {
	for _, u := range c.units() {
		if u.Fn != fn {
			continue
		}
		for _, o := range u.Outs {
			if o.Kind != OutPanic && c.createsBDD(o) {
				return true
			}
		}
	}
	return false
}

func (m *tableModel) initPath(fn *ssa.Function, o *Outcome, evs []*Event, mem map[Class]*classMem, views map[int64]*loopView, first *Event, pth string) {
	c, r, u, st := m.c, m.r, m.c.U, o.St
	bad := func(e *Event, f string, a ...interface{}) {
		m.addIn(false, "C15", fn, e, "first table", pth, f, a...)
	}
	nodes := r.loadMem(st, mem, u.FA(m.T, c.nodesF), c.nodesF.Type())
	if nodes.Op != OAlloc {
		bad(first, "the first table is not a new table (%s)", nodes)
		return
	}
	ln := r.length(st, nodes, nodes.T)
	bounds := []*Term{u.Int(0), u.Int(2), ln}
	var spans, zeros []span
	chain, push := false, false
	var skip int64 = -1
	for _, e := range evs {
		if skip >= 0 {
			if e.Kind == EvLoopExit && e.Loop.ID == skip {
				skip = -1
			}
			continue
		}
		switch e.Kind {
		case EvLoopEnter:
			v := views[e.Loop.ID]
			if v == nil {
				continue
			}
			l := m.loopInfo(v)
			skip = e.Loop.ID
			if !l.touches || len(v.Backs) == 0 {
				continue
			}
			if l.zero != nil {
				zeros = append(zeros, m.spanOf(l, l.zero, o, bounds)...)
			}
			if l.fresh != nil {
				spans = append(spans, m.spanOf(l, l.fresh, o, bounds)...)
				chain, push = chain || l.chain, push || l.push
				if !l.chain && !l.push {
					bad(lastBody(v), "the free slots of the first table are not linked")
				}
				continue
			}
			if l.zero == nil {
				bad(lastBody(v), "%s", l.why)
			}
		case EvStore:
			f, i, b := m.nodeElem(e.Addr)
			if f == nil || b != nodes {
				continue
			}
			// after the loops: the constants and the last slot
			isLast := r.decideEQ(st, i, u.AddK(ln, -1)) == yes
			isConst := isIntConst(i) && i.K >= 0 && i.K <= 1
			switch {
			case f == m.hashF && m.hashF != nil:
				if !isIntConst(e.Val) || e.Val.K != 0 {
					bad(e, "a hash chain of the first table is not empty")
				}
			case isConst, isLast && f == m.link:
			case isLast && f == c.lowF && isIntConst(e.Val) && e.Val.K < 0, isLast && (f == m.refF || f == c.levelF || f == c.highF):
			default:
				bad(e, "a slot of the first table is changed after it was made free (field %s)", f.Name())
			}
		case EvMapSet:
			if m.touchesTable(e) {
				bad(e, "an entry is added for a node that was not asked for")
			}
		}
	}
	if !m.coveredBy(st, spans, u.Int(2), ln) {
		bad(first, "the slots of the first table are not all free")
	}
	pos := r.loadMem(st, mem, u.FA(m.T, m.freepos), m.freepos.Type())
	num := r.loadMem(st, mem, u.FA(m.T, m.freenum), m.freenum.Type())
	switch {
	case chain && !push:
		if r.decideEQ(st, pos, u.Int(2)) != yes {
			bad(first, "the list of free slots does not start after the constants")
		}
		if d := u.Sub(num, ln); !isIntConst(d) || d.K != -2 {
			bad(first, "the number of free slots is not the one of the first table")
		}
		last := m.val(st, mem, nodes, u.AddK(ln, -1), m.link)
		if r.decideEQ(st, last, u.Int(0)) != yes {
			bad(first, "the list of free slots of the first table does not end")
		}
	case push && !chain:
	default:
		bad(first, "the list of free slots of the first table is not understood")
	}
	// the constants
	for k := int64(0); k < 2; k++ {
		lv := m.val(st, mem, nodes, u.Int(k), c.lowF)
		hv := m.val(st, mem, nodes, u.Int(k), c.highF)
		rc := m.val(st, mem, nodes, u.Int(k), m.refF)
		if r.decideEQ(st, lv, u.Int(k)) != yes || r.decideEQ(st, hv, u.Int(k)) != yes {
			m.addIn(false, "C12 C15", fn, first, "constants", pth, "the successors of the constant %d are not itself", k)
		} else {
			m.addIn(true, "C12 C15", fn, first, "constants", "", "")
		}
		if r.decideLE(st, u.Int(1), rc) != yes {
			m.addIn(false, "C14", fn, first, "constants", pth, "the constant %d is not counted as referenced", k)
		} else {
			m.addIn(true, "C14", fn, first, "constants", "", "")
		}
		lev := m.val(st, mem, nodes, u.Int(k), c.levelF)
		want := stripConv(m.bddVarnum(r, st, o, mem))
		if want == nil || r.decideEQ(st, stripConv(lev), want) != yes && stripConv(lev) != want {
			m.addIn(false, "C12", fn, first, "constants", pth, "the level of the constant %d is not the number of variables", k)
		}
	}
	if m.hashF != nil {
		// (a new table is made of zeros)
		m.addIn(true, "C15", fn, first, "first table", "", "")
	}
	m.addIn(true, "C15", fn, first, "first table", "", "")
}

// bddVarnum is the number of variables that the new BDD records.
func (m *tableModel) bddVarnum(r *Run, st *State, o *Outcome, mem map[Class]*classMem) *Term {
	for e := o.St.ev; e != nil; e = e.prev {
		if e.ev.Kind == EvStore && e.ev.Addr.Op == OFA && e.ev.Addr.Aux == m.c.varnumF {
			return e.ev.Val
		}
	}
	return nil
}

// queries of the interface, that only look at the BDD.
var queries = []string{"Satcount", "Allsat", "Allnodes", "Scanset", "Label", "Low", "High", "Stats", "Print", "PrintSet", "Dot", "PrintDot", "Equal", "Varnum", "Error", "Errored", "True", "False", "From", "Ithvar", "NIthvar", "String"}

// checkQueries: no query can reach a function that builds or reclaims nodes.
func (m *tableModel) checkQueries() {
	c := m.c
	direct, _ := c.reclaimers()
	for _, f := range c.apiFuncs() {
		q := false
		for _, n := range queries {
			if f.Name() == n && f.Signature.Recv() != nil {
				q = true
			}
		}
		if !q {
			continue
		}
		from := map[*ssa.Function]*ssa.Function{f: nil}
		todo := []*ssa.Function{f}
		ok := true
		for len(todo) > 0 && ok {
			g := todo[0]
			todo = todo[1:]
			if g == c.Makenode || g == m.t.Fn || direct[g] {
				p := fname(g)
				for x := from[g]; x != nil; x = from[x] {
					p = fname(x) + " -> " + p
				}
				m.addIn(false, "C29", f, nil, "queries", p, "the query %s may build or reclaim nodes (%s)", f.Name(), p)
				ok = false
				break
			}
			add := func(h *ssa.Function) {
				if h == nil || !c.P.isSrc(h) {
					return
				}
				if _, seen := from[h]; !seen {
					from[h] = g
					todo = append(todo, h)
				}
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						add(staticCallee(ci.Common()))
					}
					for _, op := range in.Operands(nil) {
						switch x := (*op).(type) {
						case *ssa.Function:
							add(x)
						case *ssa.MakeClosure:
							add(x.Fn.(*ssa.Function))
						}
					}
				}
			}
		}
		if ok {
			m.addIn(true, "C29", f, nil, "queries", "", "")
		}
	}
}

func init() {
	register("C12", "every path of the function that builds a node, with the collection and the growth that it goes through, followed with the representation of the table (fields, mark, key) found in the source: a node is built only if its successors differ and the search missed, exactly once, with the contents asked for, under the key of its contents, and an existing node is returned only if the search found the same triple; the key tells all triples apart", func(c *Ctx, rep *Report) { c.tableResults(rep) })
	register("C14", "same paths: a slot becomes free only in the loop that follows the marking of all the nodes with references and of the whole stack of references, only when it is not marked, never a constant; the functions that mark mark both successors; every caller gives the current stack of references or counts its node at once; contents of kept nodes do not change; the mark is a bit of its own", func(c *Ctx, rep *Report) { c.tableResults(rep) })
	register("C15", "same paths, with an automaton over the list of free slots, its count, the hash chains (or the map of contents) and the new slots of a larger table; loops are classified from what one turn does to the slot of the turn, and must go through the whole range; the first table of New is checked in the same way", func(c *Ctx, rep *Report) { c.tableResults(rep) })
	register("C29", "no function that can run outside of the function that builds nodes stores in the table, except the counter of references (Retnode, finalizers) and marks that are removed on the whole table before the function returns or calls the user; no query reaches a function that builds nodes or frees slots", func(c *Ctx, rep *Report) { c.tableResults(rep) })
}
