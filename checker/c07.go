package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// replInfo is what the analysis of NewReplacer establishes.
type replInfo struct {
	obj    *types.Named // type of the replacers
	idF    *types.Var   // unique identifier
	lastF  *types.Var   // variables beyond this one are not renamed
	imageF *types.Var
	bad    []replBad
	oks    map[string]int
	outs   []*Outcome
	run    *Run
	good   bool
}

type replBad struct {
	pos  token.Pos
	rule string
	path string
	msg  string
}

func (c *Ctx) lastField() *types.Var {
	i := c.replacer()
	for _, b := range i.bad {
		if b.rule == "last" || b.rule == "mapping" {
			return nil
		}
	}
	return i.lastF
}

func (c *Ctx) idField() *types.Var {
	i := c.replacer()
	for _, b := range i.bad {
		if b.rule == "identifier" {
			return nil
		}
	}
	return i.idF
}

// elementOf recognises the value of an element of a slice parameter.
func elementOf(t *Term) (arr, idx *Term) {
	t = stripConv(t)
	if t.Op == OLoad && t.Args[0].Op == OIA && t.Args[0].Args[0].Op == OParam {
		return t.Args[0].Args[0], t.Args[0].Args[1]
	}
	return nil, nil
}

func (c *Ctx) replacer() *replInfo {
	if x, ok := c.shared["replinfo"].(*replInfo); ok {
		return x
	}
	x := &replInfo{oks: map[string]int{}}
	c.shared["replinfo"] = x
	c.analyseReplacer(x)
	return x
}

func (c *Ctx) analyseReplacer(x *replInfo) {
	u := c.U
	bad := func(pos token.Pos, rule, path, msg string) { x.bad = append(x.bad, replBad{pos, rule, path, msg}) }
	fn := c.P.method("BDD", "NewReplacer")
	outs, r, err := c.method("NewReplacer")
	if err != nil {
		bad(token.NoPos, "anchor", "", err.Error())
		return
	}
	x.outs, x.run = outs, r
	if len(fn.Params) != 3 {
		bad(fn.Pos(), "anchor", "", "NewReplacer does not have two arguments")
		return
	}
	args := c.methodArgs(fn)
	old, nw := args[1], args[2]
	lenOld, lenNew := r.length(c.rawState(), old, nil), r.length(c.rawState(), nw, nil)
	// the method Replace of replacers
	rm := c.replacerMethod("Replace")
	if rm == nil {
		bad(fn.Pos(), "anchor", "", "the type of replacers was not found")
		return
	}
	{
		rr := c.newRun()
		recv := u.Param("recv", rm.Params[0].Type())
		lv := u.Param("level", rm.Params[1].Type())
		for _, o := range rr.Exec(rm, []*Term{recv, lv}, func() *State {
			st := c.rawState()
			rr.assumeLE(st, u.Int(0), lv)
			return st
		}) {
			if o.Kind != OutReturn || len(o.Res) == 0 {
				bad(rm.Pos(), "mapping", o.St.pathString(), "the method Replace of replacers may fail: "+o.Why)
				continue
			}
			res := stripConv(o.Res[0])
			switch {
			case res == lv:
				// beyond the last variable
				var lf *types.Var
				for _, t := range o.St.zone.list {
					if t != nil && t.Op == OLoad && t.Args[0].Op == OFA && t.Args[0].Args[0] == recv && rr.decideLE(o.St, u.AddK(t, 1), lv) == yes {
						lf = t.Args[0].Aux.(*types.Var)
					}
				}
				if lf == nil {
					bad(rm.Pos(), "mapping", o.St.pathString(), "a variable is not renamed, and it is not beyond the last one")
				} else if x.lastF != nil && x.lastF != lf {
					bad(rm.Pos(), "mapping", o.St.pathString(), "two bounds on the renamed variables")
				} else {
					x.lastF = lf
				}
			case res.Op == OLoad && res.Args[0].Op == OIA && stripConv(res.Args[0].Args[1]) == lv && res.Args[0].Args[0].Op == OLoad && res.Args[0].Args[0].Args[0].Op == OFA:
				x.imageF = res.Args[0].Args[0].Args[0].Aux.(*types.Var)
				x.oks["level is mapped by the table"]++
			default:
				bad(rm.Pos(), "mapping", o.St.pathString(), "the renaming of a level is "+short(res.String(), 100))
			}
		}
	}
	if x.imageF == nil {
		bad(rm.Pos(), "mapping", "", "the table of renamed variables was not found")
		return
	}
	// identifier: what Id returns
	if im := c.replacerMethod("Id"); im != nil {
		rr := c.newRun()
		recv := u.Param("recv", im.Params[0].Type())
		for _, o := range rr.Exec(im, []*Term{recv}, c.rawState) {
			if o.Kind == OutReturn && len(o.Res) == 1 {
				if t := stripConv(o.Res[0]); t.Op == OLoad && t.Args[0].Op == OFA && t.Args[0].Args[0] == recv {
					x.idF = t.Args[0].Aux.(*types.Var)
				}
			}
		}
	}
	if x.idF == nil {
		bad(rm.Pos(), "identifier", "", "the identifier of replacers was not found")
	}
	views := loopViews(outs)
	var succ, fail []*Outcome
	for _, o := range outs {
		switch o.Kind {
		case OutReturn:
			if len(o.Res) != 2 {
				continue
			}
			if o.Res[1].Op == ONil {
				succ = append(succ, o)
			} else if r.nonNil(o.St, o.Res[1]) {
				fail = append(fail, o)
				if o.Res[0].Op != ONil {
					bad(o.Pos, "result", o.St.pathString(), "a replacer is returned together with an error")
				}
			} else {
				bad(o.Pos, "result", o.St.pathString(), "the error result may be nil or not")
			}
		case OutPanic:
			bad(o.Pos, "no panic", o.St.pathString(), o.Why)
		case OutUndecided:
			bad(o.Pos, "analysable", o.St.pathString(), o.Why)
		}
	}
	if len(succ) == 0 {
		bad(fn.Pos(), "result", "", "no replacer is ever returned")
		return
	}
	// loops over the whole of an array, that establish a fact for each element
	exitsTo := func(v *loopView) []*Outcome {
		// outcomes that go on after the loop
		var l []*Outcome
		for _, o := range v.Exits {
			if o.Kind == OutReturn && len(o.Res) == 2 && r.nonNil(o.St, o.Res[1]) && len(v.after(o)) == 0 {
				continue
			}
			fin := true
			for _, f := range fail {
				if f == o && c.leftOnError(r, v, o) {
					fin = false
				}
			}
			if fin {
				l = append(l, o)
			}
		}
		return l
	}
	// every element of arr satisfies p on all the paths that go on
	forall := func(v *loopView, arr, n *Term, p func(o *Outcome, el *Term) bool) bool {
		if len(v.Backs) == 0 {
			return false
		}
		for _, idx := range indexesOf(v, arr) {
			if !v.covers(r, idx, u.Int(0), n, exitsTo(v)) {
				continue
			}
			good := true
			el := c.elementTerm(v, arr, idx)
			for _, o := range v.Backs {
				if el == nil || !p(o, el) {
					good = false
				}
			}
			if good {
				return true
			}
		}
		return false
	}
	passes := func(o *Outcome, v *loopView) bool { return left(o, v.Inst) }
	inRange := func(arr *Term) func(o *Outcome, el *Term) bool {
		return func(o *Outcome, el *Term) bool {
			return r.decideLE(o.St, u.Int(0), el) == yes && r.decideLE(o.St, u.AddK(el, 1), c.V) == yes
		}
	}
	rangeLoops := map[*Term][]*loopView{}
	for _, v := range views {
		for _, a := range []*Term{old, nw} {
			n := lenOld
			if a == nw {
				n = lenNew
			}
			if forall(v, a, n, inRange(a)) || forall(v, a, lenOld, inRange(a)) {
				rangeLoops[a] = append(rangeLoops[a], v)
			}
		}
	}
	// sets of variables already seen
	seen := func(v *loopView, o *Outcome, el *Term) *Term {
		for t, val := range o.St.facts {
			if val || t.Op != OLoad || t.Args[0].Op != OIA || stripConv(t.Args[0].Args[1]) != el {
				continue
			}
			arr := t.Args[0].Args[0]
			if arr.Op != OAlloc {
				continue
			}
			// marked afterwards
			for _, e := range v.body(o) {
				if e.Kind == EvStore && e.Addr.Op == OIA && e.Addr.Args[0] == arr && stripConv(e.Addr.Args[1]) == el && isBoolConst(e.Val) && e.Val.K == 1 {
					return arr
				}
			}
		}
		return nil
	}
	// onlySeen: arr holds exactly the elements seen before in the loop
	onlySeen := func(v *loopView, arr *Term) bool {
		for _, o := range outs {
			inLoop := false
			for _, e := range o.St.events() {
				if e.Kind == EvLoopEnter {
					inLoop = e.Loop.ID == v.Inst.ID
				}
				if e.Kind == EvStore && rootOf(e.Addr) == arr {
					if !inLoop {
						return false
					}
				}
			}
		}
		for _, o := range v.Backs {
			for _, e := range v.body(o) {
				if e.Kind == EvStore && rootOf(e.Addr) == arr {
					a, idx := elementOf(e.Addr.Args[1])
					if a == nil || idx == nil || !isBoolConst(e.Val) || e.Val.K != 1 {
						return false
					}
				}
			}
		}
		return true
	}
	seenSets := map[*Term]map[*Term]bool{old: {}, nw: {}}
	distinct := map[*Term][]*loopView{}
	for _, v := range views {
		for _, a := range []*Term{old, nw} {
			n := lenOld
			if a == nw {
				n = lenNew
			}
			arrs := map[*Term]bool{}
			p := func(o *Outcome, el *Term) bool {
				s := seen(v, o, el)
				if s == nil {
					return false
				}
				arrs[s] = true
				return onlySeen(v, s)
			}
			if (forall(v, a, n, p) || forall(v, a, lenOld, p)) && len(arrs) == 1 {
				distinct[a] = append(distinct[a], v)
				for s := range arrs {
					seenSets[a][s] = true
				}
			}
		}
	}
	// contents of the table of images
	for _, o := range succ {
		path := o.St.pathString()
		obj := o.Res[0]
		if obj.Op == OIface {
			obj = obj.Args[0]
		}
		if r.decideEQ(o.St, lenOld, lenNew) != yes {
			bad(o.Pos, "lengths", path, "a replacer is returned although the slices may have different lengths")
		} else {
			x.oks["lengths are compared"]++
		}
		for _, a := range []*Term{old, nw} {
			for rule, l := range map[string][]*loopView{"variables in range": rangeLoops[a], "variables distinct": distinct[a]} {
				ok := false
				for _, v := range l {
					if passes(o, v) {
						ok = true
					}
				}
				if ok {
					x.oks[rule]++
				} else {
					bad(o.Pos, rule, path, "a replacer is returned without checking this for every element of "+a.Aux.(string))
				}
			}
		}
		if obj.Op != OAlloc || obj.K <= 0 {
			bad(o.Pos, "mapping", path, "the replacer returned is not a new one: "+short(obj.String(), 80))
			continue
		}
		img := r.loadMem(o.St, o.St.mem, u.FA(obj, x.imageF), x.imageF.Type())
		if img.Op != OAlloc || r.decideEQ(o.St, r.length(o.St, img, nil), c.V) != yes {
			bad(o.Pos, "mapping", path, "the table of images is not a new one with one entry per variable")
			continue
		}
		// stores in the table: identity, then renaming
		ident, ren := false, false
		for _, v := range views {
			if !passes(o, v) {
				continue
			}
			kinds := map[string]bool{}
			okAll := len(v.Backs) > 0
			for _, ob := range v.Backs {
				n := 0
				for _, e := range v.body(ob) {
					if e.Kind != EvStore || rootOf(e.Addr) != img {
						continue
					}
					n++
					ix, val := stripConv(e.Addr.Args[1]), stripConv(e.Val)
					a, i := elementOf(ix)
					b, j := elementOf(val)
					switch {
					case ix == val && a == nil:
						kinds["id"] = true
						if !v.covers(r, ix, u.Int(0), c.V, exitsTo(v)) {
							okAll = false
						}
					case a == old && b == nw && i == j:
						kinds["ren"] = true
						if !v.covers(r, i, u.Int(0), lenOld, exitsTo(v)) {
							okAll = false
						}
					default:
						kinds["other"] = true
					}
				}
				if n != 1 {
					if n > 1 || kinds["id"] || kinds["ren"] {
						okAll = false
					}
				}
			}
			if kinds["other"] {
				bad(o.Pos, "mapping", path, "unexpected contents of the table of images")
			}
			// a path of the loop that does not fill the table
			if kinds["id"] || kinds["ren"] {
				for _, ob := range v.Backs {
					n := 0
					for _, e := range v.body(ob) {
						if e.Kind == EvStore && rootOf(e.Addr) == img {
							n++
						}
					}
					if n != 1 {
						okAll = false
					}
				}
			}
			if kinds["id"] && !kinds["ren"] && okAll && !ren {
				ident = true
			}
			if kinds["ren"] && !kinds["id"] && okAll {
				ren = true
			}
		}
		// stores outside of loops
		for _, e := range o.St.events() {
			if e.Kind == EvStore && rootOf(e.Addr) == img && len(loopsAt(o, e)) == 0 {
				bad(o.Pos, "mapping", path, "the table of images is changed outside of the loops that fill it")
			}
		}
		if !ident {
			bad(o.Pos, "mapping", path, "the table of images does not start as the identity")
		}
		if !ren {
			bad(o.Pos, "mapping", path, "the table of images does not map each old variable to the new one")
		}
		if ident && ren {
			x.oks["table maps oldvars[k] to newvars[k] and others to themselves"]++
		}
		// the bound covers what is renamed
		if x.lastF != nil {
			a := u.FA(obj, x.lastF)
			end := stripConv(r.loadMem(o.St, o.St.mem, a, x.lastF.Type()))
			ok := r.decideLE(o.St, c.V, u.AddK(end, 1)) == yes
			for _, v := range views {
				if ok {
					break
				}
				if !passes(o, v) {
					continue
				}
				// in a variable of the loop
				for p, ph := range v.Inst.Phi {
					if ph != end {
						continue
					}
					q := p
					up := func(ob *Outcome, el *Term) bool {
						nx := ob.Loop.Next[q]
						return nx != nil && r.decideLE(ob.St, el, stripConv(nx)) == yes && r.decideLE(ob.St, end, stripConv(nx)) == yes
					}
					ok = ok || forall(v, old, lenOld, up)
				}
				// in the field itself, unchanged afterwards
				up := func(ob *Outcome, el *Term) bool {
					now := r.loadMem(ob.St, ob.St.mem, a, x.lastF.Type())
					beg := u.mk(OLoad, nil, 0, x.lastF.Type(), nil, a)
					if m := ob.St.mem[termClass(a)]; m != nil {
						beg = u.mk(OLoad, nil, m.base, x.lastF.Type(), nil, a)
					}
					return r.decideLE(ob.St, el, now) == yes && r.decideLE(ob.St, beg, now) == yes
				}
				if ok || !forall(v, old, lenOld, up) {
					continue
				}
				changed := false
				for _, e := range v.after(o) {
					changed = changed || e.Kind == EvStore && e.Addr == a
				}
				for _, w := range views {
					if w == v || !passes(o, w) || w.Inst.ID <= v.Inst.ID {
						continue
					}
					for _, ob := range w.Backs {
						for _, e := range w.body(ob) {
							changed = changed || e.Kind == EvStore && e.Addr == a
						}
					}
				}
				ok = !changed
			}
			if ok {
				x.oks["last renamed variable is an upper bound"]++
			} else {
				bad(o.Pos, "last", path, "the last renamed variable is not kept up to date")
			}
		}
		// new variables that are themselves renamed
		ok := false
		for _, v := range views {
			if !passes(o, v) {
				continue
			}
			p := func(ob *Outcome, el *Term) bool {
				cell := u.IA(img, el, derefElem(x.imageF.Type()))
				val := r.loadMem(ob.St, ob.St.mem, cell, derefElem(x.imageF.Type()))
				return r.decideEQ(ob.St, val, el) == yes && !c.storesIn(v, ob, img)
			}
			if forall(v, nw, lenNew, p) || forall(v, nw, lenOld, p) {
				// after the renaming is complete
				ok = true
			}
		}
		if ok {
			x.oks["new variables are not renamed"]++
		} else {
			bad(o.Pos, "new variable not renamed", path, "a replacer is returned without checking that no new variable is itself renamed")
		}
		c.replacerID(x, r, o, obj, bad)
	}
	// every error is justified
	for _, o := range fail {
		why := c.replError(x, r, o, old, nw, lenOld, lenNew, seenSets)
		if why == "" {
			bad(o.Pos, "valid renaming accepted", o.St.pathString(), "an error is returned although nothing is wrong with the arguments")
		} else {
			x.oks["error justified: "+why]++
		}
	}
	// no index out of range
	seenEv := map[*Event]bool{}
	for _, o := range outs {
		for _, e := range o.St.events() {
			if e.Kind != EvIndex || seenEv[e] {
				continue
			}
			seenEv[e] = true
			if e.Name == "ok" {
				x.oks["index in range"]++
				continue
			}
			ok := false
			if a, _ := elementOf(e.Args[1]); a == old || a == nw {
				if r.decideLE(o.St, c.V, e.Args[2]) == yes {
					for _, v := range rangeLoops[a] {
						for _, f := range o.St.events() {
							if f == e {
								break
							}
							if f.Kind == EvLoopExit && f.Loop.ID == v.Inst.ID {
								ok = true
							}
						}
					}
				}
			}
			if ok {
				x.oks["index in range"]++
			} else {
				pos := token.NoPos
				if e.Instr != nil {
					pos = e.Instr.Pos()
				}
				bad(pos, "index in range", o.St.pathString(), "index "+short(e.Args[1].String(), 60)+" may be out of range")
			}
		}
	}
	x.good = len(x.bad) == 0
}

func derefElem(t types.Type) types.Type {
	switch x := t.Underlying().(type) {
	case *types.Slice:
		return x.Elem()
	case *types.Array:
		return x.Elem()
	case *types.Map:
		return x.Elem()
	}
	return t
}

func (c *Ctx) storesIn(v *loopView, o *Outcome, root *Term) bool {
	for _, e := range v.body(o) {
		if e.Kind == EvStore && rootOf(e.Addr) == root {
			return true
		}
	}
	return false
}

// leftOnError: the path leaves the loop to return an error, and does nothing else.
func (c *Ctx) leftOnError(r *Run, v *loopView, o *Outcome) bool {
	for _, e := range v.after(o) {
		switch e.Kind {
		case EvLoopEnter, EvLoopExit:
			return false
		}
	}
	// it did not go through the normal exit if it ends in the body: some event of
	// the loop body happened after the entry
	return len(v.body(o)) > 0
}

// indexesOf lists the indexes used to read arr in the loop.
func indexesOf(v *loopView, arr *Term) []*Term {
	set := map[*Term]bool{}
	var l []*Term
	for _, o := range v.Backs {
		for _, e := range v.body(o) {
			if e.Kind == EvIndex && e.Args[0] == arr && !set[e.Args[1]] {
				set[e.Args[1]] = true
				l = append(l, e.Args[1])
			}
		}
	}
	return l
}

// elementTerm is the value read in arr at idx.
func (c *Ctx) elementTerm(v *loopView, arr, idx *Term) *Term {
	sl, ok := arr.T.Underlying().(*types.Slice)
	if !ok || idx == nil {
		return nil
	}
	return c.U.mk(OLoad, nil, 0, sl.Elem(), nil, c.U.IA(arr, idx, sl.Elem()))
}

func (c *Ctx) replError(x *replInfo, r *Run, o *Outcome, old, nw, lenOld, lenNew *Term, seenSets map[*Term]map[*Term]bool) string {
	if r.decideEQ(o.St, lenOld, lenNew) == no {
		return "lengths"
	}
	for _, t := range o.St.zone.list {
		if t == nil {
			continue
		}
		if a, _ := elementOf(t); a == old || a == nw {
			if _, hi := r.bounds(o.St, t); hi < 0 {
				return "range"
			}
			if r.decideLE(o.St, c.V, t) == yes {
				return "range"
			}
		}
		if t.Op == OLoad && t.Args[0].Op == OGlobal {
			if lo, _ := r.bounds(o.St, t); lo >= 1<<20 {
				return "too many replacers"
			}
		}
	}
	for t, v := range o.St.facts {
		if v && t.Op == OLoad && t.Args[0].Op == OIA {
			if a, _ := elementOf(t.Args[0].Args[1]); a != nil && seenSets[a] != nil && seenSets[a][t.Args[0].Args[0]] {
				return "duplicate"
			}
		}
	}
	// a new variable that is renamed
	for _, t := range o.St.zone.list {
		if t == nil || t.Op != OLoad || t.Args[0].Op != OIA {
			continue
		}
		ix := stripConv(t.Args[0].Args[1])
		if a, _ := elementOf(ix); a == nw && derefElem(x.imageF.Type()) != nil && types.Identical(t.T, derefElem(x.imageF.Type())) {
			if r.decideEQ(o.St, t, ix) == no {
				return "renamed"
			}
		}
	}
	return ""
}

// replacerID: the identifier is computed from a counter that is never reused.
func (c *Ctx) replacerID(x *replInfo, r *Run, o *Outcome, obj *Term, bad func(token.Pos, string, string, string)) {
	if x.idF == nil {
		return
	}
	u := c.U
	id := r.loadMem(o.St, o.St.mem, u.FA(obj, x.idF), x.idF.Type())
	var g *Term
	n := 0
	id.walk(func(t *Term) bool {
		if t.Op == OLoad {
			if t.Args[0].Op == OGlobal {
				g = t
			}
			n++
			return false
		}
		return true
	})
	if g == nil || n != 1 {
		bad(o.Pos, "identifier", o.St.pathString(), "the identifier of a replacer is "+short(id.String(), 80)+", which does not come from a counter")
		return
	}
	uf := &unifier{c: c, r: r}
	// the counter starts at k0, advances by one and stops at a limit
	z := o.St.clone()
	k0, ok := c.P.globalInit[g.Args[0].Aux.(*ssa.Global)]
	if !ok {
		k0 = u.Int(0)
	}
	if isIntConst(k0) {
		r.assumeLE(z, k0, g)
		lim := int64(-1)
		for k := int64(20); k < 62 && lim < 0; k++ {
			for _, d := range []int64{1<<uint(k) - 1, 1 << uint(k)} {
				if r.decideEQ(z, g, u.Int(d)) == no && lim < 0 {
					lim = d
				}
			}
		}
		if lim >= 0 {
			r.assumeLE(z, g, u.Int(lim-1))
		}
	}
	lay, ok := uf.layout(z, nil, id)
	inj := id == g
	if ok {
		for _, b := range lay {
			if b.t == stripConv(g) {
				inj = true
			}
		}
	}
	if !inj {
		// injective when it only shifts or adds a constant
		bad(o.Pos, "identifier", o.St.pathString(), "different values of the counter may give the same identifier "+short(id.String(), 80))
		return
	}
	// the counter moves on, under the same lock
	addr := g.Args[0]
	var lock string
	var store *Event
	for _, e := range o.St.events() {
		if e.Kind == EvStore && e.Addr == addr {
			store = e
		}
	}
	if store == nil || store.Val != u.AddK(g, 1) {
		bad(o.Pos, "identifier", o.St.pathString(), "the counter of replacers does not advance")
		return
	}
	lock = store.Locks
	if lock == "" {
		bad(store.Instr.Pos(), "identifier", o.St.pathString(), "the counter of replacers is shared by all the BDDs and is changed without a lock")
		return
	}
	// no other writer
	gl := addr.Aux.(*ssa.Global)
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(gl) || in == store.Instr {
					continue
				}
				if f.Name() == "init" && f.Synthetic != "" {
					continue
				}
				bad(in.Pos(), "identifier", "", "the counter of replacers is also changed here")
				return
			}
		}
	}
	x.oks["identifier is unique"]++
}

// checkC07 reports the analysis of NewReplacer.
func (c *Ctx) checkC07(rep *Report) {
	x := c.replacer()
	fn := "(*BDD).NewReplacer"
	rep.paths(c, x.run, x.outs)
	for _, b := range x.bad {
		rep.bad(c, b.pos, fn, b.rule, b.path, "%s", b.msg)
	}
	for k, n := range x.oks {
		rep.okn(k, n)
	}
}
