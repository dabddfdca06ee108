package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// tblLoop is what a loop of the collection, or of the growth of the table, does
// to the node table.
type tblLoop struct {
	v *loopView

	touches  bool  // writes in the table
	markRefs *Term // turn idx marks the node idx when it is referenced
	markStk  *Term // turn idx marks the entry idx of the stack of references
	zero     *Term // turn idx empties the hash chain idx
	fresh    *Term // turn idx makes the slot idx free
	chain    bool  // ... and links it to the next one
	push     bool  // ... and puts it on the list of free slots
	sweep    *Term // turn idx keeps the node idx, or puts it on the list of free slots
	needMark bool  // ... when it is not marked
	clears   bool  // ... and removes its mark
	lowest   *Term // least slot that it may free
	zeroMem  bool

	copyDst *Term // turn idx copies the node idx ...
	copySrc *Term // ... from this slice
	copyIdx *Term

	other *Term // it works on this new table, which is not in use yet

	why     string // why it is none of these
	whyEv   *Event
	whyProp string
}

func (m *tableModel) relevant(f *types.Var) bool {
	return f != nil && (f == m.c.levelF || f == m.c.lowF || f == m.c.highF || f == m.link || f == m.hashF || f == m.nextF || f == m.markF || f == m.refF)
}

// tblGlobal: the field of the table that an address designates.
func (m *tableModel) tblGlobal(a *Term) *types.Var {
	if a == nil || a.Op != OFA || a.Args[0] != m.T {
		return nil
	}
	f := a.Aux.(*types.Var)
	if f == m.freepos || f == m.freenum || f == m.c.nodesF || f == m.uniqF {
		return f
	}
	return nil
}

// touchesTable: the event changes the table.
func (m *tableModel) touchesTable(e *Event) bool {
	switch e.Kind {
	case EvStore:
		if f, _, _ := m.nodeElem(e.Addr); f != nil {
			return true
		}
		return m.tblGlobal(e.Addr) != nil
	case EvMapSet, EvMapDel:
		return m.uniqF != nil && e.Args[0].Op == OLoad && e.Args[0].Args[0].Op == OFA && e.Args[0].Args[0].Aux == m.uniqF
	}
	return false
}

// phiOffset: the term is a loop variable plus a constant.
func phiOffset(r *Run, v *loopView, t *Term) bool {
	t = stripConv(t)
	for p, ph := range v.Inst.Phi {
		if isIntType(p.Type()) && isIntConst(r.U.Sub(t, ph)) {
			return true
		}
	}
	return false
}

// loopInfo classifies a loop.
func (m *tableModel) loopInfo(v *loopView) *tblLoop {
	if l, ok := m.infos[v.Inst.ID]; ok {
		return l
	}
	l := &tblLoop{v: v}
	m.infos[v.Inst.ID] = l
	l.classify(m)
	return l
}

func (l *tblLoop) fail(prop string, e *Event, why string) {
	if l.why == "" {
		l.why, l.whyEv, l.whyProp = why, e, prop
	}
}

func (l *tblLoop) classify(m *tableModel) {
	v, r := l.v, m.r
	type turn struct {
		o      *Outcome
		stores []*Event
		dels   []*Event
		marks  []*Event
	}
	var turns []turn
	for _, b := range v.Backs {
		t := turn{o: b}
		for _, e := range v.body(b) {
			if e.Kind == EvHead && m.markers[e.Fn] {
				t.marks = append(t.marks, e)
			}
			if m.touchesTable(e) {
				l.touches = true
				if e.Kind == EvMapDel {
					t.dels = append(t.dels, e)
				} else {
					t.stores = append(t.stores, e)
				}
			}
			if e.Kind == EvLoopEnter && !e.Loop.Unroll {
				// a loop inside of the loop: only allowed when it leaves the table alone
				defer func(e *Event) {
					if l.touches {
						l.fail("C15", e, "the table is changed in nested loops")
					}
				}(e)
			}
		}
		turns = append(turns, t)
	}
	for _, o := range v.Exits {
		for _, e := range v.body(o) {
			if m.touchesTable(e) || e.Kind == EvHead && m.markers[e.Fn] {
				l.touches = true
				l.fail("C15", e, "the loop is left in the middle of a turn that changes the table")
			}
		}
	}
	if len(turns) == 0 {
		return
	}
	// ---- marking loops
	marking := false
	for _, t := range turns {
		if len(t.marks) > 0 {
			marking = true
		}
	}
	if marking {
		l.touches = true
		l.marking(m)
	}
	// ---- the slot of the turn
	var n *Term
	pick := func(f func(*types.Var) bool) {
		if n != nil {
			return
		}
		for _, t := range turns {
			for _, e := range t.stores {
				if g, i, _ := m.nodeElem(e.Addr); g != nil && f(g) && phiOffset(r, v, i) {
					n = stripConv(i)
					return
				}
			}
		}
	}
	pick(func(f *types.Var) bool { return f == m.c.lowF })
	pick(func(f *types.Var) bool { return f == m.markF })
	pick(func(f *types.Var) bool { return f != m.hashF })
	pick(func(f *types.Var) bool { return true })
	if n == nil {
		if l.touches && !marking {
			for _, t := range turns {
				for _, e := range append(t.stores, t.dels...) {
					l.fail("C15", e, "the loop changes the table at places that do not follow its variable")
				}
			}
		}
		return
	}
	// a loop that copies a table in another one
	copies := !marking
	for _, t := range turns {
		got := map[*types.Var]bool{}
		for _, e := range t.stores {
			f, i, b := m.nodeElem(e.Addr)
			x := e.Val
			if f == nil || i != n && r.decideEQ(t.o.St, i, n) != yes || x.Op != OLoad {
				copies = false
				break
			}
			g, j, s := m.nodeElem(x.Args[0])
			if g != f || s == b || r.decideEQ(t.o.St, j, n) != yes || l.copyDst != nil && (l.copyDst != b || l.copySrc != s) {
				copies = false
				break
			}
			l.copyDst, l.copySrc = b, s
			got[f] = true
		}
		copies = copies && len(t.dels) == 0 && len(got) == m.st.NumFields()
	}
	if copies && l.copyDst != nil {
		l.copyIdx = n
		return
	}
	l.copyDst = nil
	nodes := m.r.loadMem(turns[0].o.St, v.Inst.Head, m.c.U.FA(m.T, m.c.nodesF), m.c.nodesF.Type())
	nodesConst := true
	// a table that is filled before it is used
	for _, t := range turns {
		for _, e := range t.stores {
			if _, _, b := m.nodeElem(e.Addr); b != nil && b != nodes && b.Op == OAlloc && b.K > 0 && b.K < v.Inst.ID {
				l.other = b
			}
		}
	}
	if l.other != nil && !marking {
		nodes = l.other
	}
	for _, t := range turns {
		for _, e := range t.stores {
			if m.tblGlobal(e.Addr) == m.c.nodesF {
				nodesConst = false
				l.fail("C15", e, "the table is replaced in a loop")
			}
			if _, _, b := m.nodeElem(e.Addr); b != nil && b != nodes {
				nodesConst = false
			}
		}
	}
	if !nodesConst {
		l.fail("C15", nil, "the loop works on several tables")
		return
	}
	allZero, allFresh, allChain, allPush, allSweep := true, true, true, true, true
	kept := 0
	l.clears = true
	for _, t := range turns {
		st, head, end := t.o.St, v.Inst.Head, t.o.St.mem
		V := func(mem map[Class]*classMem, f *types.Var) *Term { return m.val(st, mem, nodes, n, f) }
		// hash chains
		if m.hashF != nil {
			if x := V(end, m.hashF); !isIntConst(x) || x.K != 0 {
				allZero = false
			}
		} else {
			allZero = false
		}
		if marking {
			allFresh, allPush, allSweep, allChain = false, false, false, false
			for _, e := range t.stores {
				f, i, _ := m.nodeElem(e.Addr)
				if f == nil || f != m.hashF || r.decideEQ(st, i, n) != yes || !isIntConst(e.Val) || e.Val.K != 0 {
					l.fail("C14", e, "the nodes are changed while they are being marked")
				}
			}
			for _, e := range t.dels {
				l.fail("C14", e, "nodes are forgotten while they are being marked")
			}
			continue
		}
		lowEnd := V(end, m.c.lowF)
		freed := isIntConst(lowEnd) && lowEnd.K < 0
		fp0, fp1 := m.glob(st, head, m.freepos), m.glob(st, end, m.freepos)
		fn0, fn1 := m.glob(st, head, m.freenum), m.glob(st, end, m.freenum)
		wasFree, wasUsed := m.lowSign(st, head, nodes, n)
		// every store is at the slot of the turn, or is the start of a chain
		var h *Term
		for _, e := range t.stores {
			if e.Kind == EvMapSet {
				allSweep, allFresh, allPush, allChain = false, false, false, false
				l.fail("C15", e, "the table is filled again in a way that is not understood")
				continue
			}
			f, i, _ := m.nodeElem(e.Addr)
			if f == nil {
				continue
			}
			if f == m.hashF && r.decideEQ(st, i, n) != yes {
				if h != nil && h != i {
					l.fail("C15", e, "two hash chains are changed for one node")
				}
				h = i
				continue
			}
			if f == m.hashF && !(isIntConst(e.Val) && e.Val.K == 0) {
				h = i
				continue
			}
			if r.decideEQ(st, i, n) != yes {
				allSweep, allFresh, allPush, allChain = false, false, false, false
				l.fail("C14", e, "a node other than the one of the turn is changed")
			}
		}
		// the references to a node that is kept
		if a, b := V(head, m.refF), V(end, m.refF); !freed && !wasFree && a != b && !(m.markF == m.refF && m.cleared(st, b, a)) {
			m.add(false, "C14 C17", lastStore(t.stores), 0, "counts", t.o.St.pathString(), "the count of references of a node that may be in use is changed")
		} else {
			m.add(true, "C17", nil, 0, "counts", "", "")
		}
		pushed := r.decideEQ(st, V(end, m.link), fp0) == yes && r.decideEQ(st, fp1, n) == yes && isIntConst(r.U.Sub(fn1, fn0)) && r.U.Sub(fn1, fn0).K == 1
		same := fp1 == fp0 && fn1 == fn0
		if !freed {
			allFresh, allPush, allChain = false, false, false
		}
		if freed || wasFree {
			if !pushed {
				allPush = false
				if allSweep && !(freed && same) {
					l.fail("C15", lastStore(t.stores), "a slot that is made free is not put on the list of free slots (or is not counted)")
				}
				allSweep = false
			}
			if !same {
				allChain = false
			}
			if freed && r.decideEQ(st, V(end, m.link), r.U.AddK(n, 1)) != yes {
				allChain = false
			}
			if h != nil {
				l.fail("C15", lastStore(t.stores), "a free slot is put in a hash chain")
				allSweep = false
			}
			if !freed && !wasFree {
				allSweep = false
			}
			if freed && !wasFree {
				// the node is given up
				if um := m.markOf(st, V(head, m.markF)); um == no {
					l.needMark = true
				} else if allPush || allSweep {
					allSweep = false
					l.fail("C14", lastStore(t.stores), "a slot is made free while it may hold a node that is marked")
				}
				if m.uniqF != nil {
					want := m.keyOf(V(head, m.c.levelF), V(head, m.c.lowF), V(head, m.c.highF), nil)
					got := false
					for _, e := range t.dels {
						if m.canon(e.Args[1]) == m.canon(want) {
							got = true
						} else {
							l.fail("C15", e, "the entry of another node is removed from the table of nodes")
						}
					}
					if !got && allSweep {
						l.fail("C15", lastStore(t.stores), "a node that is reclaimed can still be found from its contents")
						allSweep = false
					}
				}
			}
			continue
		}
		// the node is kept
		allFresh, allPush, allChain = false, false, false
		if !wasUsed {
			if allSweep {
				l.fail("C15", lastStore(t.stores), "a slot that may be free is kept as a node")
			}
			allSweep = false
			continue
		}
		kept++
		if !same {
			l.fail("C15", lastStore(t.stores), "the list of free slots changes with a node that is kept")
			allSweep = false
		}
		for _, e := range t.dels {
			if allSweep {
				l.fail("C15", e, "a node that is kept can no longer be found from its contents")
			}
			allSweep = false
		}
		for _, f := range []*types.Var{m.c.levelF, m.c.lowF, m.c.highF, m.refF} {
			a, b := V(head, f), V(end, f)
			if a == b || f == m.markF && m.cleared(st, b, a) {
				continue
			}
			l.fail("C14", lastStore(t.stores), "the contents of a node that is kept are changed")
			allSweep = false
		}
		marked := m.markOf(st, V(head, m.markF))
		if marked == no {
			l.fail("C14", lastStore(t.stores), "a node that is not marked is kept, although its successors are not protected")
			allSweep = false
		}
		if !m.cleared(st, V(end, m.markF), V(head, m.markF)) {
			l.clears = false
			if marked == yes {
				l.fail("C15", lastStore(t.stores), "a node that is kept stays marked")
				allSweep = false
			}
		} else if marked != yes && l.needMark {
			allSweep = false
		}
		if m.hashF != nil {
			want := m.keyOf(V(end, m.c.levelF), V(end, m.c.lowF), V(end, m.c.highF), r.length(st, nodes, nodes.T))
			if h == nil {
				l.fail("C15", lastStore(t.stores), "a node that is kept is not put back in its hash chain")
				allSweep = false
			} else if !m.sameKey(st, h, want, r.length(st, nodes, nodes.T)) {
				l.fail("C15", lastStore(t.stores), "a node that is kept is not put in the hash chain of its contents")
				allSweep = false
			} else {
				hh := m.val(st, end, nodes, h, m.hashF)
				if r.decideEQ(st, hh, n) != yes {
					l.fail("C15", lastStore(t.stores), "the hash chain of a node that is kept does not start with it")
					allSweep = false
				}
				h0 := m.val(st, head, nodes, h, m.hashF)
				if nx := V(end, m.nextF); r.decideEQ(st, nx, h0) != yes && !m.oldValue(st, nx, nodes, h, v, t.stores) {
					l.fail("C15", lastStore(t.stores), "the rest of its hash chain is lost when a node is put back in it")
					allSweep = false
				}
			}
		}
	}
	if allZero {
		l.zero = n
	}
	if marking {
		return
	}
	switch {
	case allFresh && allChain:
		l.fresh, l.chain = n, true
	case allFresh && allPush && !l.needMark:
		l.fresh, l.push = n, true
	case allSweep && (kept > 0):
		l.sweep = n
	case allFresh && allPush:
		l.sweep = n
	case allFresh:
		l.fresh = n
	case allZero:
		only := true
		for _, t := range turns {
			for _, e := range t.stores {
				if f, _, _ := m.nodeElem(e.Addr); f != m.hashF {
					only = false
					l.fail("C15", e, "the loop changes the table in a way that is not understood")
				}
			}
		}
		if only {
			l.why = ""
		}
		return
	default:
		l.fail("C15", lastStore(turns[0].stores), "the loop changes the table in a way that is not understood")
		return
	}
	l.why = ""
}

// oldValue: nx is the start of the chain h, read in the same turn before it was
// changed.
func (m *tableModel) oldValue(st *State, nx, nodes, h *Term, v *loopView, stores []*Event) bool {
	if nx.Op != OLoad {
		return false
	}
	f, i, b := m.nodeElem(nx.Args[0])
	if f != m.hashF || b != nodes || i != h {
		return false
	}
	for _, e := range stores {
		if g, j, _ := m.nodeElem(e.Addr); g == m.hashF && j == h {
			return m.r.loadMem(st, e.Mem, e.Addr, f.Type()) == nx
		}
	}
	return false
}

func lastStore(l []*Event) *Event {
	if len(l) == 0 {
		return nil
	}
	return l[len(l)-1]
}

// marking looks at a loop that marks nodes.
func (l *tblLoop) marking(m *tableModel) {
	v, r := l.v, m.r
	// the slot or the entry of the turn
	var cands []*Term
	seen := map[*Term]bool{}
	for _, b := range v.Backs {
		for _, e := range v.body(b) {
			if e.Kind == EvIndex && phiOffset(r, v, e.Args[1]) && !seen[stripConv(e.Args[1])] {
				seen[stripConv(e.Args[1])] = true
				cands = append(cands, stripConv(e.Args[1]))
			}
			if e.Kind == EvHead && m.markers[e.Fn] {
				for _, a := range e.Args[1:] {
					if isIntType(a.T) && phiOffset(r, v, a) && !seen[stripConv(a)] {
						seen[stripConv(a)] = true
						cands = append(cands, stripConv(a))
					}
				}
			}
		}
	}
	marksArg := func(e *Event) *Term {
		for _, a := range e.Args {
			if isIntType(a.T) {
				return stripConv(a)
			}
		}
		return nil
	}
	for _, n := range cands {
		refs, stk := true, true
		for _, b := range v.Backs {
			var nodes *Term
			gotR, gotS := false, false
			for _, e := range v.body(b) {
				if e.Kind == EvHead && m.markers[e.Fn] {
					a := marksArg(e)
					if a == nil {
						continue
					}
					if r.decideEQ(b.St, a, n) == yes {
						gotR = true
					}
					if a.Op == OLoad && a.Args[0].Op == OIA && m.isRefs(a.Args[0].Args[0]) && stripConv(a.Args[0].Args[1]) == n {
						gotS = true
					}
				}
			}
			// the node is not referenced
			nodes = r.loadMem(b.St, v.Inst.Head, m.c.U.FA(m.T, m.c.nodesF), m.c.nodesF.Type())
			ref := m.val(b.St, v.Inst.Head, nodes, n, m.refF)
			if r.decideLE(b.St, ref, r.U.Int(0)) == yes {
				gotR = true
			}
			if free, _ := m.lowSign(b.St, v.Inst.Head, nodes, n); free {
				gotR = true
			}
			if r.decideLE(b.St, n, r.U.Int(1)) == yes {
				gotR = true
			}
			if m.markOf(b.St, m.val(b.St, v.Inst.Head, nodes, n, m.markF)) == yes {
				gotR = true
			}
			// entries of the stack that are constants need no protection
			if m.pRefs != nil {
				x := m.c.U.mk(OLoad, nil, 0, m.pRefs.T.Underlying().(*types.Slice).Elem(), nil, m.c.U.IA(m.pRefs, n, m.pRefs.T.Underlying().(*types.Slice).Elem()))
				if r.decideLE(b.St, x, r.U.Int(1)) == yes {
					gotS = true
				}
			}
			refs = refs && gotR
			stk = stk && gotS
		}
		if refs {
			l.markRefs = n
		}
		if stk {
			l.markStk = n
		}
	}
}

func (l *tblLoop) marksOrSweeps() bool {
	return l.markRefs != nil || l.markStk != nil || l.sweep != nil || l.zero != nil && l.fresh == nil
}

// isRefs: the slice is the stack of references that was given.
func (m *tableModel) isRefs(s *Term) bool {
	if s == m.pRefs {
		return true
	}
	return s.Op == OLoad && s.Args[0].Op == OFA && s.Args[0].Aux == m.c.refstackF
}

// span is a range of slots.
type span struct{ lo, hi *Term }

// coveredBy: the spans cover [lo, hi).
func (m *tableModel) coveredBy(st *State, l []span, lo, hi *Term) bool {
	cur := lo
	for k := 0; k < len(l)+1; k++ {
		if m.r.decideLE(st, hi, cur) == yes {
			return true
		}
		moved := false
		for _, s := range l {
			if m.r.decideLE(st, s.lo, cur) == yes && m.r.decideLE(st, s.hi, cur) != yes && s.hi != cur {
				cur = s.hi
				moved = true
				break
			}
		}
		if !moved {
			return false
		}
	}
	return m.r.decideLE(st, hi, cur) == yes
}

// spanOf: the slots that a loop goes through before the outcome leaves it.
func (m *tableModel) spanOf(l *tblLoop, idx *Term, o *Outcome, bounds []*Term) []span {
	var res []span
	for _, lo := range bounds {
		for _, hi := range bounds {
			if lo != hi && l.v.covers(m.r, idx, lo, hi, []*Outcome{o}) {
				res = append(res, span{lo, hi})
			}
		}
	}
	return res
}

// run checks every path of the function that builds nodes.
func (m *tableModel) run() {
	views := map[int64]*loopView{}
	for _, v := range loopViews(m.t.Outs) {
		views[v.Inst.ID] = v
	}
	for _, o := range m.t.Outs {
		switch o.Kind {
		case OutUndecided:
			m.add(false, "C12 C14 C15 C29", nil, o.Pos, "analysable", o.St.pathString(), "the analysis cannot follow this path: %s", o.Why)
		case OutReturn:
			m.path(o, views)
		}
	}
}

type loopBody struct {
	first, last *Event
}

func (m *tableModel) path(o *Outcome, views map[int64]*loopView) {
	c, r, u, st := m.c, m.r, m.c.U, o.St
	evs := st.events()
	pth := st.pathString()
	bad := func(props string, e *Event, rule, f string, a ...interface{}) {
		m.add(false, props, e, 0, rule, pth, f, a...)
	}
	if len(o.Res) == 0 {
		bad("C12", nil, "result", "no result")
		return
	}
	res := o.Res[0]
	failed := r.decideLE(st, res, u.Int(-1)) == yes

	// state of the table along the path
	stkMarked, refsMarked, marking := false, false, false
	posReset, numReset, swept := false, false, true
	var zeroed []span
	zeroedLen := (*Term)(nil)
	tblLen := func(mem map[Class]*classMem) (base, ln *Term) {
		b := r.loadMem(st, mem, u.FA(m.T, c.nodesF), c.nodesF.Type())
		return b, r.length(st, b, b.T)
	}
	base, ln := tblLen(map[Class]*classMem{})
	var oldBase, oldLen *Term // while the table is being replaced
	copied := false
	precopy := map[*Term]*Term{}   // copies of the current table
	prefresh := map[*Term][]span{} // slots of a new table that are chained already
	var fresh []span
	freshLinked := true // every new slot that was made free is linked to the next one, or pushed
	freshPushed := false
	extLast, extPos, extNum, rebuilt := false, false, false, false
	var extEv *Event
	popPos, popNum := 0, 0
	var popEv *Event
	content := map[*types.Var]*Term{}
	var contentEv *Event
	inserted := false
	var insertEv *Event
	touched := false
	var skip int64 = -1

	finishSweep := func(e *Event) {
		if oldLen == nil && swept {
			return
		}
	}
	_ = finishSweep
	for _, e := range evs {
		if skip >= 0 {
			if e.Kind == EvLoopExit && e.Loop.ID == skip {
				skip = -1
			}
			continue
		}
		switch e.Kind {
		case EvLoopEnter:
			if e.Loop.Unroll {
				continue
			}
			v := views[e.Loop.ID]
			if v == nil {
				continue
			}
			l := m.loopInfo(v)
			skip = e.Loop.ID
			if !l.touches {
				continue
			}
			touched = true
			if len(l.v.Backs) == 0 {
				continue
			}
			if l.why != "" {
				bad(l.whyProp, l.whyEv, "loop", "%s", l.why)
				return
			}
			if l.copyDst != nil {
				n := r.length(st, l.copySrc, l.copySrc.T)
				switch {
				case !l.v.covers(r, l.copyIdx, u.Int(0), n, []*Outcome{o}):
					bad("C15", lastBody(v), "growth", "the loop that copies the table does not go through all of it")
				case l.copyDst == base && oldBase != nil && l.copySrc == oldBase:
					copied = true
				case l.copySrc == base && l.copyDst.Op == OAlloc:
					precopy[l.copyDst] = base
				default:
					bad("C15", lastBody(v), "growth", "the new table is filled with something else than the old one")
				}
				continue
			}
			if l.other != nil && l.other != base {
				// new slots, before the table is used
				if l.fresh == nil || !l.chain || l.marksOrSweeps() {
					bad("C15", lastBody(v), "growth", "a table that is not in use is changed in a way that is not understood")
					return
				}
				for _, b := range v.Backs {
					if r.decideLE(b.St, ln, l.fresh) != yes {
						bad("C14", lastBody(v), "new slots", "slots of the old table are made free when the table grows")
					}
				}
				prefresh[l.other] = append(prefresh[l.other], m.spanOf(l, l.fresh, o, []*Term{ln, r.length(st, l.other, l.other.T)})...)
				continue
			}
			precopy = map[*Term]*Term{}
			bounds := []*Term{u.Int(0), u.Int(2), ln}
			if oldLen != nil {
				bounds = append(bounds, oldLen)
			}
			if l.markRefs != nil || l.markStk != nil {
				marking = true
				if !swept {
					bad("C14", l.whyEv, "mark then sweep", "nodes are marked after the list of free slots was emptied and before it is built again")
				}
				if l.markRefs != nil && m.coveredBy(st, m.spanOf(l, l.markRefs, o, bounds), u.Int(2), ln) {
					refsMarked = true
				}
				if l.markStk != nil && m.pRefs != nil {
					n := r.length(st, m.pRefs, m.pRefs.T)
					if l.v.covers(r, l.markStk, u.Int(0), n, []*Outcome{o}) {
						stkMarked = true
					}
				}
			} else if l.sweep == nil && l.fresh == nil && l.zero == nil {
				// marks something else
				marking = true
			}
			if l.zero != nil {
				zeroed = append(zeroed, m.spanOf(l, l.zero, o, bounds)...)
				zeroedLen = ln
			}
			if l.fresh != nil {
				if oldLen == nil {
					bad("C14", lastBody(v), "new slots", "slots are made free although they may hold nodes")
					return
				}
				// only new slots
				for _, b := range v.Backs {
					if r.decideLE(b.St, oldLen, l.fresh) != yes {
						bad("C14", lastBody(v), "new slots", "slots of the old table are made free when the table grows")
					}
				}
				fresh = append(fresh, m.spanOf(l, l.fresh, o, bounds)...)
				if !l.chain && !l.push {
					freshLinked = false
				}
				if l.push {
					freshPushed = true
				}
			}
			if l.sweep != nil {
				for _, b := range v.Backs {
					if r.decideLE(b.St, u.Int(2), l.sweep) != yes {
						bad("C14", lastBody(v), "constants", "the loop may free the constants")
					}
				}
				if l.needMark {
					if !stkMarked {
						bad("C14", lastBody(v), "roots marked", "nodes are reclaimed and the nodes of the reference stack were not all marked")
					} else {
						m.add(true, "C14", e, 0, "roots marked", "", "")
					}
					if !refsMarked {
						bad("C14", lastBody(v), "roots marked", "nodes are reclaimed and the nodes with references were not all marked")
					} else {
						m.add(true, "C14", e, 0, "roots marked", "", "")
					}
				}
				if !posReset || !numReset || swept {
					bad("C15", lastBody(v), "free list", "the list of free slots is built again without having been emptied")
				}
				if m.hashF != nil && (zeroedLen != ln || !m.coveredBy(st, zeroed, u.Int(0), ln)) {
					bad("C15", lastBody(v), "hash chains", "nodes are put back in hash chains that were not all emptied")
				}
				if !l.v.covers(r, l.sweep, u.Int(2), ln, []*Outcome{o}) {
					bad("C15", lastBody(v), "all slots", "the loop that builds the list of free slots does not go through the whole table")
				}
				if l.clears {
					marking, stkMarked, refsMarked = false, false, false
				} else if marking {
					bad("C15", lastBody(v), "marks removed", "nodes that are kept stay marked")
				}
				swept, posReset, numReset = true, false, false
				zeroed = nil
				if oldLen != nil {
					rebuilt = true
				}
				m.add(true, "C14 C15", e, 0, "sweep", "", "")
			}
			continue
		case EvHead:
			if m.markers[e.Fn] {
				// a node marked outside of the loops
				marking = true
				touched = true
			} else if m.headTouches(e.Fn) {
				bad("C15", e, "table", "%s changes the table of nodes in a way that is not followed", fname(e.Fn))
			}
			continue
		case EvCall:
			if e.Name == "copy" && len(e.Args) == 2 && e.Args[1] == base && e.Args[0].Op == OAlloc {
				precopy[e.Args[0]] = base
			} else if e.Name == "copy" && len(e.Args) == 2 && oldBase != nil {
				if e.Args[0] == base && e.Args[1] == oldBase {
					copied = true
				} else if e.Args[0] == base {
					bad("C15", e, "growth", "the new table is filled with something else than the old one")
				}
			}
			continue
		case EvMapSet:
			if !m.touchesTable(e) {
				continue
			}
			touched = true
			if inserted {
				bad("C12", e, "insertion", "two entries are added to the table for one node")
			}
			inserted, insertEv = true, e
			continue
		case EvMapDel:
			if m.touchesTable(e) {
				touched = true
				bad("C15", e, "table", "an entry of the table of nodes is removed outside of a collection")
			}
			continue
		case EvStore:
		default:
			continue
		}
		if !m.touchesTable(e) {
			continue
		}
		touched = true
		if f := m.tblGlobal(e.Addr); f != nil {
			before := r.loadMem(st, e.Mem, e.Addr, f.Type())
			switch f {
			case m.freepos:
				s := before
				b, _ := tblLen(e.Mem)
				lk := m.val(st, e.Mem, b, s, m.link)
				switch {
				case isIntConst(e.Val) && e.Val.K == 0:
					posReset, swept = true, false
				case oldLen != nil && !rebuilt && extPos == false && popPos == 0 && r.decideEQ(st, e.Val, oldLen) == yes:
					extPos = true
				case r.decideEQ(st, e.Val, lk) == yes || e.Val.Op == OLoad && e.Val.Args[0] == m.elemAddr(b, s, m.link):
					if popPos > 0 {
						bad("C15", e, "free list", "two slots are taken from the list of free slots for one node")
					}
					if content[m.link] != nil {
						bad("C15", e, "free list", "the list of free slots follows a link that was overwritten")
					}
					if r.decideEQ(st, s, res) != yes {
						bad("C15", e, "free list", "the slot taken from the list of free slots is not the one of the node")
					}
					if !swept {
						bad("C15", e, "free list", "a slot is taken while the list of free slots is being built")
					}
					popPos++
					popEv = e
				default:
					bad("C15", e, "free list", "the first free slot becomes one that is not the next of the list")
				}
			case m.freenum:
				d := u.Sub(e.Val, before)
				switch {
				case isIntConst(e.Val) && e.Val.K == 0:
					numReset, swept = true, false
				case isIntConst(d) && d.K == -1:
					popNum++
				case oldLen != nil && !rebuilt && r.decideEQ(st, e.Val, u.Add(before, u.Sub(ln, oldLen))) == yes && !extNum:
					extNum = true
				default:
					bad("C15", e, "free count", "the number of free slots is changed by a wrong amount")
				}
			case c.nodesF:
				if oldLen != nil {
					bad("C15", e, "growth", "the table is replaced twice")
				}
				if marking {
					bad("C15", e, "growth", "the table is replaced while nodes are marked")
				}
				oldBase, oldLen = base, ln
				base = e.Val
				ln = r.length(st, base, base.T)
				copied = precopy[base] == oldBase
				fresh = prefresh[base]
				zeroed = nil
				if r.decideLE(st, u.AddK(oldLen, 1), ln) != yes {
					bad("C15", e, "growth", "the new table may be shorter than the old one")
				} else {
					m.add(true, "C15", e, 0, "growth", "", "")
				}
				if base.Op != OAlloc {
					bad("C15", e, "growth", "the table is replaced with something else than a new table")
				}
			case m.uniqF:
				bad("C15", e, "table", "the table of the nodes is replaced")
			}
			continue
		}
		f, i, b := m.nodeElem(e.Addr)
		precopy = map[*Term]*Term{}
		if b != base {
			bad("C15", e, "table", "a table that is not the current one is changed")
			continue
		}
		isPop := r.decideEQ(st, i, res) == yes && !failed
		last := oldLen != nil && r.decideEQ(st, i, u.AddK(ln, -1)) == yes
		switch {
		case last && f == m.link && !extPos && popPos == 0:
			want := m.glob(st, e.Mem, m.freepos)
			if r.decideEQ(st, e.Val, want) == yes {
				extLast = true
				extEv = e
			} else {
				bad("C15", e, "growth", "the last of the new slots is not linked to the former free slots")
			}
		case f == m.hashF && f != nil:
			// start of the chain of the new node
			if inserted {
				bad("C12", e, "insertion", "two hash chains are changed for one node")
			}
			inserted, insertEv = true, e
		case isPop:
			if content[f] != nil {
				// the last one counts
			}
			content[f] = e.Val
			contentEv = e
		default:
			bad("C29 C14", e, "nodes unchanged", "a slot that may hold a node in use is changed (field %s)", f.Name())
		}
	}
	// ---- at the end of the path
	if !swept {
		bad("C15", popEv, "free list", "the function returns while the list of free slots is not built")
	}
	if marking {
		bad("C15 C29", nil, "marks removed", "the function returns while nodes are marked")
	}
	if oldLen != nil {
		if !copied {
			bad("C15", nil, "growth", "the table is replaced and its contents are not copied")
		}
		if !m.coveredBy(st, fresh, oldLen, ln) {
			bad("C15", extEv, "growth", "some of the new slots are not made free")
		}
		switch {
		case rebuilt:
		case freshPushed:
			if extPos || extNum {
				bad("C15", extEv, "growth", "the new slots are put on the list of free slots twice")
			}
		default:
			if !freshLinked || !extLast || !extPos || !extNum {
				bad("C15", extEv, "growth", "the new slots are not all put on the list of free slots (links %v, last %v, first %v, count %v)", freshLinked, extLast, extPos, extNum)
			}
		}
		if m.hashF != nil && !rebuilt {
			bad("C15", nil, "growth", "the hash chains are not built again after the table has grown")
		}
		m.add(true, "C15", extEv, 0, "growth", "", "")
	}
	switch {
	case failed:
		if popPos+popNum > 0 || inserted || len(content) > 0 {
			bad("C15 C23", popEv, "failure", "the function fails after having changed the table")
		}
		m.add(true, "C15", nil, 0, "failure", "", "")
	case popPos == 0 && len(content) == 0 && !inserted:
		m.existing(o, touched)
	default:
		if popPos != 1 || popNum != 1 {
			bad("C15", contentEv, "free list", "the slot of the new node is not taken from the list of free slots (%d), or not counted (%d)", popPos, popNum)
		}
		if r.decideEQ(st, res, u.Int(0)) != no {
			bad("C15", popEv, "free list", "a node is built although the list of free slots may be empty")
		}
		for f, p := range map[*types.Var]*Term{c.levelF: m.pLevel, c.lowF: m.pLow, c.highF: m.pHigh} {
			if x := m.val(st, st.mem, base, res, f); x != p {
				bad("C12 C29", contentEv, "contents", "the field %s of the new node is not the one that is asked for", f.Name())
			} else {
				m.add(true, "C12", contentEv, 0, "contents", "", "")
			}
		}
		if m.refF != m.levelF() {
			if x := content[m.refF]; x != nil && !(isIntConst(x) && x.K == 0) {
				bad("C15 C17", contentEv, "contents", "a new node starts with references")
			}
		}
		m.insertion(o, res, base, ln, inserted, insertEv, content)
		if r.decideEQ(st, m.pLow, m.pHigh) != no {
			bad("C12", contentEv, "no redundant node", "a node is built although its two successors may be equal")
		} else {
			m.add(true, "C12", contentEv, 0, "no redundant node", "", "")
		}
		m.missed(o)
	}
}

func (m *tableModel) levelF() *types.Var { return m.c.levelF }

func lastBody(v *loopView) *Event {
	for _, b := range v.Backs {
		var last *Event
		for _, e := range v.body(b) {
			if e.Kind == EvStore {
				last = e
			}
		}
		if last != nil {
			return last
		}
	}
	return nil
}

// insertion: the new node can be found from its contents.
func (m *tableModel) insertion(o *Outcome, res, base, ln *Term, inserted bool, e *Event, content map[*types.Var]*Term) {
	r, st := m.r, o.St
	bad := func(f string, a ...interface{}) {
		m.add(false, "C12 C15", e, 0, "insertion", st.pathString(), f, a...)
	}
	if !inserted {
		bad("a node is built and cannot be found from its contents")
		return
	}
	want := m.keyOf(m.pLevel, m.pLow, m.pHigh, ln)
	if m.uniqF != nil {
		if m.canon(e.Args[1]) != m.canon(want) {
			bad("the new node is recorded under a key that is not the one of its contents")
			return
		}
		if r.decideEQ(st, e.Args[2], res) != yes {
			bad("the contents of the new node are recorded for another node")
			return
		}
		m.add(true, "C12 C15", e, 0, "insertion", "", "")
		return
	}
	_, h, _ := m.nodeElem(e.Addr)
	if !m.sameKey(st, h, want, ln) {
		bad("the new node is put in a hash chain that is not the one of its contents (in the current table)")
		return
	}
	if r.decideEQ(st, e.Val, res) != yes {
		bad("the hash chain does not start with the new node")
		return
	}
	old := r.loadMem(st, e.Mem, e.Addr, m.hashF.Type())
	nx := m.val(st, st.mem, base, res, m.nextF)
	if r.decideEQ(st, nx, old) != yes && !(nx.Op == OLoad && nx.Args[0] == e.Addr) {
		bad("the rest of the hash chain is lost when the new node is put in it")
		return
	}
	m.add(true, "C12 C15", e, 0, "insertion", "", "")
}

// existing: the path returns a node without building it.
func (m *tableModel) existing(o *Outcome, touched bool) {
	r, st, c := m.r, o.St, m.c
	res := o.Res[0]
	bad := func(props, rule, f string, a ...interface{}) {
		m.add(false, props, nil, m.t.Fn.Pos(), rule, st.pathString(), f, a...)
	}
	if (res == m.pLow || res == m.pHigh) && r.decideEQ(st, m.pLow, m.pHigh) == yes {
		if touched {
			bad("C12", "existing node", "the table changes although the successors are equal")
		}
		m.add(true, "C12", nil, 0, "equal successors", "", "")
		return
	}
	if r.decideEQ(st, m.pLow, m.pHigh) != no {
		bad("C12", "no redundant node", "the successors may be equal, and the function does not return one of them")
		return
	}
	if touched {
		bad("C12 C29", "existing node", "the table changes although the node exists")
	}
	if m.uniqF != nil {
		for _, e := range st.events() {
			if e.Kind == EvMapGet && e.Val == res && len(e.Args) > 2 && r.truth(st, e.Args[2]) == yes {
				if m.canon(e.Args[1]) == m.canon(m.keyOf(m.pLevel, m.pLow, m.pHigh, nil)) {
					m.add(true, "C12", nil, 0, "existing node", "", "")
				} else {
					bad("C12", "existing node", "the node that is returned was looked for with the key of another triple")
				}
				return
			}
		}
		bad("C12", "existing node", "the node that is returned was not found in the table of the nodes")
		return
	}
	b := r.loadMem(st, st.mem, c.U.FA(c.T, c.nodesF), c.nodesF.Type())
	for f, p := range map[*types.Var]*Term{c.levelF: m.pLevel, c.lowF: m.pLow, c.highF: m.pHigh} {
		if r.decideEQ(st, m.val(st, st.mem, b, res, f), p) != yes {
			bad("C12", "existing node", "the node that is returned may have another %s than the one that is asked for", f.Name())
			return
		}
	}
	if !m.inChain(o, res) {
		bad("C12", "existing node", "the node that is returned was not found in a hash chain (it may be a slot that is not in use)")
		return
	}
	m.add(true, "C12", nil, 0, "existing node", "", "")
}

// lookup finds the loop that looks for the node in its hash chain.
func (m *tableModel) lookup(v *loopView) (p *ssa.Phi, ok bool) {
	r := m.r
	for q, ph := range v.Inst.Phi {
		if !isIntType(q.Type()) {
			continue
		}
		ini := v.Inst.Init[q]
		if ini.Op != OLoad {
			continue
		}
		f, h, _ := m.nodeElem(ini.Args[0])
		if f != m.hashF || m.canon(h) != m.canon(m.keyPat) {
			continue
		}
		good := len(v.Backs) > 0
		for _, b := range v.Backs {
			nx := b.Loop.Next[q]
			if nx == nil || nx.Op != OLoad {
				good = false
				break
			}
			g, i, _ := m.nodeElem(nx.Args[0])
			if g != m.nextF || i != ph {
				good = false
				break
			}
			// the node is passed over only when it is another one
			base := r.loadMem(b.St, v.Inst.Head, m.c.U.FA(m.T, m.c.nodesF), m.c.nodesF.Type())
			differs := false
			for f, p := range map[*types.Var]*Term{m.c.levelF: m.pLevel, m.c.lowF: m.pLow, m.c.highF: m.pHigh} {
				if r.decideEQ(b.St, m.val(b.St, v.Inst.Head, base, ph, f), p) == no {
					differs = true
				}
			}
			if !differs {
				good = false
			}
		}
		if good {
			return q, true
		}
	}
	return nil, false
}

func (m *tableModel) inChain(o *Outcome, res *Term) bool {
	for _, v := range loopViews(m.t.Outs) {
		q, ok := m.lookup(v)
		if !ok {
			continue
		}
		for _, x := range v.Exits {
			if x == o && res == v.Inst.Phi[q] && m.r.decideEQ(o.St, res, m.c.U.Int(0)) == no {
				return true
			}
		}
	}
	return false
}

// missed: a node is built only after having looked for it.
func (m *tableModel) missed(o *Outcome) {
	r, st := m.r, o.St
	if m.uniqF != nil {
		for _, e := range st.events() {
			if e.Kind == EvMapGet && len(e.Args) > 2 && m.canon(e.Args[1]) == m.canon(m.keyOf(m.pLevel, m.pLow, m.pHigh, nil)) && r.truth(st, e.Args[2]) == no {
				m.add(true, "C12", e, 0, "looked for first", "", "")
				return
			}
		}
		m.add(false, "C12", nil, m.t.Fn.Pos(), "looked for first", st.pathString(), "a node is built although one with the same contents may exist")
		return
	}
	for _, v := range loopViews(m.t.Outs) {
		q, ok := m.lookup(v)
		if !ok {
			continue
		}
		for _, x := range v.Exits {
			if x == o && r.decideEQ(st, v.Inst.Phi[q], m.c.U.Int(0)) == yes {
				m.add(true, "C12", nil, 0, "looked for first", "", "")
				return
			}
		}
	}
	m.add(false, "C12", nil, m.t.Fn.Pos(), "looked for first", st.pathString(), "a node is built although its hash chain was not followed to its end")
}

// headTouches: the function, that is not followed, may change the table.
func (m *tableModel) headTouches(fn *ssa.Function) bool {
	if fn == m.c.Retnode {
		return true
	}
	mod := m.c.P.modref(fn)
	for _, f := range []*types.Var{m.freepos, m.freenum, m.link, m.c.nodesF, m.c.lowF, m.c.highF, m.c.levelF} {
		if mod.Mod[f] {
			return true
		}
	}
	return false
}

func hasProp(l, p string) bool {
	for _, x := range strings.Fields(l) {
		if x == p {
			return true
		}
	}
	return false
}
