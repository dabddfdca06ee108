package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// tableRun follows a function of the node table, with the functions that it
// calls (loops included).
type tableRun struct {
	Fn   *ssa.Function
	Run  *Run
	Outs []*Outcome
	Args []*Term
}

func (c *Ctx) tableRun(fn *ssa.Function) *tableRun {
	if t, ok := c.shared["table:"+fn.String()].(*tableRun); ok {
		return t
	}
	r := c.unitRun(fn)
	r.Snap = true
	r.NoUnroll = true
	c.keepTableLoops(r)
	args := c.unitArgs(fn)
	t := &tableRun{Fn: fn, Run: r, Args: args}
	t.Outs = r.Exec(fn, args, func() *State {
		st := c.rawState()
		// the table holds at least the two constants (checked in New)
		if len(args) > 0 && args[0] == c.T {
			nodes := c.U.mk(OLoad, nil, 0, c.nodesF.Type(), nil, c.U.FA(c.T, c.nodesF))
			r.assumeLE(st, c.U.Int(2), r.length(st, nodes, nodes.T))
		}
		return st
	})
	c.shared["table:"+fn.String()] = t
	return t
}

// searchers lists the functions that the function building nodes calls, directly
// or not, and that read nodes without changing them.
func (c *Ctx) searchers() map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Pkg == nil || f.Pkg != c.Makenode.Pkg {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					visit(staticCallee(ci.Common()))
				}
			}
		}
		mr := c.P.modref(f)
		if f != c.lowMaker() && !mr.All && !c.P.recursive(f) && mr.Ref[c.lowF] && mr.Ref[c.highF] && !mr.Mod[c.lowF] {
			m[f] = true
		}
	}
	visit(c.lowMaker())
	return m
}

// keepTableLoops: the functions with loops are followed too when they may change
// the table.
func (c *Ctx) keepTableLoops(r *Run) {
	finds := c.searchers()
	for f := range r.NoInline {
		if f == c.Makenode || f == c.Retnode || f == c.lowMaker() {
			continue
		}
		if finds[f] {
			delete(r.NoInline, f)
			continue
		}
		for cl := range c.P.modref(f).Mod {
			v, ok := cl.(*types.Var)
			if !ok {
				continue
			}
			if v == c.nodesF || v == c.levelF || v == c.lowF || v == c.highF || v == c.freeposField() {
				delete(r.NoInline, f)
				break
			}
			if s := structOf(c.nodesF.Type().Underlying().(*types.Slice).Elem()); s != nil {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i) == v {
						delete(r.NoInline, f)
					}
				}
			}
		}
	}
}

// tres is an obligation on the node table.
type tres struct {
	props string // properties that it is part of
	ok    bool
	pos   token.Pos
	fn    string
	rule  string
	path  string
	msg   string
}

// tableModel is what is known of the representation of the table.
type tableModel struct {
	c  *Ctx
	T  *Term // the table
	t  *tableRun
	r  *Run
	st *types.Struct // type of the nodes

	freepos, freenum, link *types.Var
	refF, markF            *types.Var
	mask                   int64
	hashF, nextF, uniqF    *types.Var // hash chains, or map
	pLevel, pLow, pHigh    *Term
	pRefs                  *Term // stack of references

	keyPat  *Term // key of the triple asked for, or hash
	keyLen  *Term // length of the table in the hash
	markers map[*ssa.Function]bool
	done    bool
	canons  map[*Term]int
	canonID map[string]int
	res     []tres
	infos   map[int64]*tblLoop
	seenMsg map[string]bool
}

func (m *tableModel) add(ok bool, props string, e *Event, pos token.Pos, rule, path, f string, a ...interface{}) {
	if e != nil && e.Instr != nil {
		pos = e.Instr.Pos()
	}
	fn := fname(m.t.Fn)
	if e != nil && e.In != nil {
		fn = fname(e.In)
	}
	m.res = append(m.res, tres{props, ok, pos, fn, rule, path, fmt.Sprintf(f, a...)})
}

func (m *tableModel) elemAddr(base, n *Term, f *types.Var) *Term {
	return m.c.U.FA(m.c.U.IA(base, n, m.c.nodesF.Type().Underlying().(*types.Slice).Elem()), f)
}

func (m *tableModel) val(st *State, mem map[Class]*classMem, base, n *Term, f *types.Var) *Term {
	return m.r.loadMem(st, mem, m.elemAddr(base, n, f), f.Type())
}

func (m *tableModel) glob(st *State, mem map[Class]*classMem, f *types.Var) *Term {
	return m.r.loadMem(st, mem, m.c.U.FA(m.T, f), f.Type())
}

// nodeElem recognises the address of a field of an element of the table.
func (m *tableModel) nodeElem(a *Term) (f *types.Var, idx, base *Term) {
	if a == nil || a.Op != OFA || a.Args[0].Op != OIA {
		return
	}
	if s := structOf(derefType(a.Args[0].T)); s == nil || s != m.st {
		return
	}
	return a.Aux.(*types.Var), a.Args[0].Args[1], a.Args[0].Args[0]
}

func (c *Ctx) tableModel() (*tableModel, error) {
	if m, ok := c.shared["tableModel"].(*tableModel); ok {
		return m, nil
	}
	if e, ok := c.shared["tableModelErr"].(error); ok {
		return nil, e
	}
	m, err := c.buildTableModel()
	if err != nil {
		c.shared["tableModelErr"] = err
		return nil, err
	}
	c.shared["tableModel"] = m
	return m, nil
}

func (c *Ctx) buildTableModel() (*tableModel, error) {
	lm := c.lowMaker()
	if lm == nil {
		return nil, fmt.Errorf("the function of the node table that builds nodes was not found")
	}
	sl, ok := c.nodesF.Type().Underlying().(*types.Slice)
	if !ok {
		return nil, fmt.Errorf("the table of nodes is not a slice")
	}
	m := &tableModel{c: c, T: c.T, st: structOf(sl.Elem()), markers: map[*ssa.Function]bool{}, infos: map[int64]*tblLoop{}, seenMsg: map[string]bool{}}
	m.t = c.tableRun(lm)
	m.r = m.t.Run
	m.freepos = c.freeposField()
	if m.freepos == nil {
		return nil, fmt.Errorf("the list of free slots was not found")
	}
	// parameters, as Makenode passes them
	for _, u := range c.units() {
		if u.Fn != c.Makenode {
			continue
		}
		for _, o := range u.Outs {
			for _, e := range o.St.events() {
				if e.Kind != EvHead || e.Fn != lm {
					continue
				}
				for i, a := range e.Args {
					for j, p := range c.unitArgs(c.Makenode) {
						if stripConv(a) != p || i >= len(m.t.Args) {
							continue
						}
						switch j {
						case 1:
							m.pLevel = m.t.Args[i]
						case 2:
							m.pLow = m.t.Args[i]
						case 3:
							m.pHigh = m.t.Args[i]
						}
					}
				}
			}
		}
	}
	if m.pLevel == nil || m.pLow == nil || m.pHigh == nil {
		return nil, fmt.Errorf("Makenode does not pass its level and successors to %s", fname(lm))
	}
	for _, a := range m.t.Args {
		if s, ok := a.T.Underlying().(*types.Slice); ok && isIntType(s.Elem()) {
			m.pRefs = a
		}
	}
	// fields, from the paths that take a free slot
	for _, o := range m.t.Outs {
		if o.Kind != OutReturn || len(o.Res) == 0 || isIntConst(o.Res[0]) {
			continue
		}
		s := o.Res[0]
		content := false
		evs := o.St.events()
		for _, e := range evs {
			if e.Kind == EvStore {
				if f, i, _ := m.nodeElem(e.Addr); f == c.lowF && i == s {
					content = true
				}
			}
		}
		if !content {
			continue
		}
		for _, e := range evs {
			switch e.Kind {
			case EvStore:
				if in := loopsAt(o, e); len(in) > 0 && !in[len(in)-1].Unroll {
					continue
				}
				if e.Addr.Op == OFA && e.Addr.Args[0] == c.T {
					f := e.Addr.Aux.(*types.Var)
					if f == m.freepos && e.Val.Op == OLoad {
						if g, _, _ := m.nodeElem(e.Val.Args[0]); g != nil {
							m.link = g
						}
					}
					if isIntType(f.Type()) && f != m.freepos {
						if d := c.U.Sub(e.Val, m.r.loadMem(o.St, e.Mem, e.Addr, f.Type())); isIntConst(d) && d.K == -1 {
							m.freenum = f
						}
					}
				}
				if f, i, _ := m.nodeElem(e.Addr); f != nil {
					if i != s && e.Val == s && f != m.link {
						m.hashF = f
					}
				}
			case EvMapSet:
				if x := e.Args[0]; x.Op == OLoad && x.Args[0].Op == OFA {
					m.uniqF = x.Args[0].Aux.(*types.Var)
				}
			}
		}
	}
	if m.link == nil {
		return nil, fmt.Errorf("the link between free slots was not found")
	}
	if m.freenum == nil {
		return nil, fmt.Errorf("the number of free slots was not found")
	}
	if m.hashF == nil && m.uniqF == nil {
		return nil, fmt.Errorf("the structure that finds nodes from their contents was not found")
	}
	// chain of nodes with the same hash, and key of the triple that is asked for
	for _, o := range m.t.Outs {
		for _, e := range o.St.events() {
			if m.hashF != nil && e.Kind == EvStore && m.nextF == nil {
				if f, i, _ := m.nodeElem(e.Addr); f != nil && o.Kind == OutReturn && len(o.Res) > 0 && i == o.Res[0] && e.Val.Op == OLoad {
					if g, _, _ := m.nodeElem(e.Val.Args[0]); g == m.hashF {
						m.nextF = f
					}
				}
			}
			if m.hashF != nil && m.keyPat == nil && e.Kind == EvLoad {
				if f, i, b := m.nodeElem(e.Addr); f == m.hashF {
					m.keyPat = i
					m.keyLen = m.r.length(o.St, b, b.T)
				}
			}
			if m.hashF == nil && m.keyPat == nil && e.Kind == EvMapGet && len(e.Args) > 1 {
				m.keyPat = e.Args[1]
			}
		}
	}
	if m.keyPat == nil || m.hashF != nil && m.nextF == nil {
		return nil, fmt.Errorf("the search for an existing node was not found")
	}
	// reference counter
	for _, u := range c.units() {
		for _, o := range u.Outs {
			for _, e := range o.St.events() {
				if e.Kind != EvStore {
					continue
				}
				f, _, _ := m.nodeElem(e.Addr)
				if f == nil {
					continue
				}
				if u.Fn == c.Retnode {
					if x := u.Run.U.AddK(e.Val, -1); x.Op == OLoad && x.Args[0] == e.Addr {
						m.refF = f
					}
				}
				if v := stripConv(e.Val); v.Op == OBin && v.Aux == "|" {
					for i := 0; i < 2; i++ {
						if k := v.Args[i]; isIntConst(k) && k.K > 0 && k.K&(k.K-1) == 0 && v.Args[1-i].Op == OLoad && v.Args[1-i].Args[0] == e.Addr {
							m.markF, m.mask = f, k.K
						}
					}
				}
			}
		}
	}
	if m.refF == nil {
		return nil, fmt.Errorf("the counter of references was not found in Retnode")
	}
	if m.markF == nil {
		return nil, fmt.Errorf("the mark of the nodes in use was not found")
	}
	// the functions that mark nodes recursively
	for _, u := range c.units() {
		if !c.P.recursive(u.Fn) {
			continue
		}
		for _, o := range u.Outs {
			for _, e := range o.St.events() {
				if e.Kind == EvStore {
					if f, _, _ := m.nodeElem(e.Addr); f == m.markF {
						m.markers[u.Fn] = true
					}
				}
			}
		}
	}
	return m, nil
}

// ---------------------------------------------------------------- predicates

// isFree: at that time the slot n is not used by a node.
func (m *tableModel) lowSign(st *State, mem map[Class]*classMem, base, n *Term) (free, used bool) {
	v := m.val(st, mem, base, n, m.c.lowF)
	if m.r.decideLE(st, v, m.c.U.Int(-1)) == yes {
		return true, false
	}
	if m.r.decideLE(st, m.c.U.Int(0), v) == yes || m.r.decideEQ(st, v, m.c.U.Int(-1)) == no {
		return false, true
	}
	return false, false
}

func (m *tableModel) markOf(st *State, v *Term) tri {
	t := m.r.binop(st, token.AND, v, m.c.U.Int(m.mask), v.T, v.T)
	return notTri(m.r.decideEQ(st, t, m.c.U.Int(0)))
}

func notTri(t tri) tri {
	switch t {
	case yes:
		return no
	case no:
		return yes
	}
	return unknown
}

// cleared: v is old without its mark.
func (m *tableModel) cleared(st *State, v, old *Term) bool {
	v = stripConv(v)
	if v.Op != OBin {
		return false
	}
	for i := 0; i < 2; i++ {
		if v.Args[1-i] != old || !isIntConst(v.Args[i]) {
			continue
		}
		k := v.Args[i].K
		switch v.Aux {
		case "&":
			if k&m.mask == 0 && k&(m.mask-1) == m.mask-1 {
				return true
			}
		case "&^":
			if i == 1 && k == m.mask {
				return true
			}
		case "^":
			if k == m.mask && m.markOf(st, old) == yes {
				return true
			}
		}
	}
	return false
}

// keyOf is the key (or the hash) of a triple.
func (m *tableModel) keyOf(level, low, high, ln *Term) *Term {
	s := map[*Term]*Term{m.pLevel: level, m.pLow: low, m.pHigh: high}
	if m.keyLen != nil {
		s[m.keyLen] = ln
	}
	return m.c.U.subst(m.keyPat, s)
}

// sameKey: two keys are equal, possibly because the length of the table is
// known.
func (m *tableModel) sameKey(st *State, a, b, ln *Term) bool {
	if m.canon(a) == m.canon(b) {
		return true
	}
	if ln == nil {
		return false
	}
	lo, hi := m.r.bounds(st, ln)
	if lo != hi {
		return false
	}
	s := map[*Term]*Term{ln: m.c.U.Int(lo)}
	return m.canon(m.c.U.subst(a, s)) == m.canon(m.c.U.subst(b, s))
}

// canon identifies a term up to the order of the operands of commutative
// operators and to conversions that keep the value (or its 64 bits).
func (m *tableModel) canon(t *Term) int {
	if m.canons == nil {
		m.canons, m.canonID = map[*Term]int{}, map[string]int{}
	}
	if k, ok := m.canons[t]; ok {
		return k
	}
	var key string
	x := t
	if t.Op == OConv && isIntType(t.T) && isIntType(t.Args[0].T) && wide(t.T) {
		k := m.canon(t.Args[0])
		m.canons[t] = k
		return k
	}
	var l []string
	for i, a := range x.Args {
		s := fmt.Sprint(m.canon(a))
		if x.Op == OLin {
			s = fmt.Sprintf("%d*%s", x.Coef[i], s)
		}
		l = append(l, s)
	}
	if x.Op == OLin || x.Op == OBin && (x.Aux == "*" || x.Aux == "&" || x.Aux == "|" || x.Aux == "^") {
		sort.Strings(l)
	}
	if len(l) == 0 {
		key = fmt.Sprintf("term %d", x.ID)
	} else {
		key = fmt.Sprintf("%d %v %d %s", x.Op, auxKey(x), x.K, strings.Join(l, ","))
	}
	if k, ok := m.canonID[key]; ok {
		m.canons[t] = k
		return k
	}
	k := len(m.canonID) + 1
	m.canonID[key] = k
	m.canons[t] = k
	return k
}

func auxKey(t *Term) string {
	switch x := t.Aux.(type) {
	case *types.Var:
		return fmt.Sprintf("%p", x)
	case nil:
		return ""
	}
	return fmt.Sprint(t.Aux)
}

func wide(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr:
		return true
	}
	return false
}

// tableResults are the obligations on the table of nodes that concern a
// property.
func (c *Ctx) tableResults(rep *Report) *tableModel {
	m, err := c.tableModel()
	if err != nil {
		rep.bad(c, token.NoPos, "node table", "anchor", "", "%v", err)
		return nil
	}
	if !m.done {
		m.done = true
		m.run()
		m.checkMarkers()
		m.checkCallers()
		m.checkOutside()
		m.checkInit()
		m.checkMask()
		m.checkKey()
		m.checkQueries()
	}
	rep.paths(c, m.r, m.t.Outs)
	for _, t := range m.res {
		if !hasProp(t.props, rep.Prop) {
			continue
		}
		if t.ok {
			rep.ok(t.rule)
		} else {
			rep.bad(c, t.pos, t.fn, t.rule, t.path, "%s", t.msg)
		}
	}
	return m
}
