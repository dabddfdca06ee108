package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

var kindProp = map[string]string{"not": "C02", "apply": "C01", "ite": "C03", "quant": "C04", "appquant": "C05", "replace": "C06", "correctify": "C06"}

// specEx is what a recursive function must compute, on a path.
func (d *den) specEx() *Ex {
	s := d.self
	p := func(role string) *Ex {
		t := s.Param[role]
		if t == nil {
			return d.fail("operand %s of %s was not identified", role, s.Fn.Name())
		}
		return d.node(t)
	}
	op := func() *Ex {
		tab, _, err := d.c.opTable()
		if err != nil {
			return d.fail("%v", err)
		}
		tt, ok := tab[d.op]
		if !ok {
			return d.fail("operator %d", d.op)
		}
		return exAp(tt, p("n0"), p("n1"))
	}
	switch s.Kind {
	case "not":
		return exNot(p("n0"))
	case "apply":
		return op()
	case "ite":
		return exIte(p("n0"), p("n1"), p("n2"))
	case "quant":
		return exE(p("n0"))
	case "appquant":
		return exE(op())
	case "replace":
		return exR(p("n0"))
	case "correctify":
		return exIte(d.varOf(s.Param["level"]), p("high"), p("low"))
	}
	return d.fail("unknown kind")
}

// weakOrders lists the rank vectors of k items.
func weakOrders(k int) [][]int {
	var res [][]int
	var rec func(v []int)
	rec = func(v []int) {
		if len(v) == k {
			m := 0
			for _, x := range v {
				if x > m {
					m = x
				}
			}
			used := make([]bool, m+1)
			for _, x := range v {
				used[x] = true
			}
			for _, u := range used {
				if !u {
					return
				}
			}
			res = append(res, append([]int{}, v...))
			return
		}
		for i := 0; i < k; i++ {
			rec(append(v, i))
		}
	}
	if k == 0 {
		return [][]int{{}}
	}
	rec(nil)
	return res
}

// caseOf is one case of the analysis of a path.
type pathCase struct {
	d    *den
	desc string
}

// cases splits a path of a recursive function: sign of the parameters, order of
// their levels, operator and context.
func (c *Ctx) cases(s *HeadSpec, h *HeadAnalysis, o *Outcome, ctxs []*hctx) []*pathCase {
	r := c.newRun()
	var res []*pathCase
	var roles []string
	for role := range s.Param {
		if len(role) == 2 && role[0] == 'n' || role == "low" || role == "high" {
			roles = append(roles, role)
		}
	}
	sort.Strings(roles)
	// contexts, up to the constants in the environment
	type cx struct {
		h   *hctx
		key string
	}
	var cxs []cx
	seen := map[string]bool{}
	for _, k := range ctxs {
		if !c.compatible(s, k, o) {
			continue
		}
		var l []string
		for t, v := range k.Vals {
			if isIntConst(stripConv(v)) {
				l = append(l, fmt.Sprintf("%d=%d", t.ID, stripConv(v).K))
			}
		}
		sort.Strings(l)
		ks := strings.Join(l, ",") + k.negKey()
		if seen[ks] {
			continue
		}
		seen[ks] = true
		cxs = append(cxs, cx{k, ks})
	}
	if s.Kind == "correctify" && len(cxs) == 0 {
		cxs = append(cxs, cx{nil, ""})
	}
	index := map[string]int{}
	for i, role := range s.Role {
		index[role] = i
	}
	for _, cx := range cxs {
		var states []*State
		var signs []map[*Term]bool
		// signs
		var rec func(i int, st *State, neg map[*Term]bool)
		rec = func(i int, st *State, neg map[*Term]bool) {
			if st.dead {
				return
			}
			if i == len(roles) {
				states = append(states, st)
				signs = append(signs, neg)
				return
			}
			p := s.Param[roles[i]]
			try := func(lo, hi int64, n map[*Term]bool) {
				z := st.clone()
				r.assumeLE(z, c.U.Int(lo), p)
				if hi < inf {
					r.assumeLE(z, p, c.U.Int(hi))
				}
				rec(i+1, z, n)
			}
			if cx.h == nil || cx.h.Neg[index[roles[i]]] {
				n := map[*Term]bool{p: true}
				for k := range neg {
					n[k] = true
				}
				try(-1, -1, n)
			}
			try(0, 0, neg)
			try(1, 1, neg)
			try(2, inf, neg)
		}
		rec(0, o.St.clone(), map[*Term]bool{})
		for si, st0 := range states {
			neg := signs[si]
			// operators
			ops := []int64{0}
			hasOp := s.Param["op"] != nil && (s.Kind == "apply" || s.Kind == "appquant")
			if hasOp {
				ops = nil
				tab, _, err := c.opTable()
				if err != nil {
					return nil
				}
				opt := stripConv(s.Param["op"])
				var max int64
				for k := range tab {
					if k > max {
						max = k
					}
				}
				for k := int64(-1); k <= max+1; k++ {
					z := st0.clone()
					r.assumeEQ(z, opt, c.U.Int(k))
					if z.dead {
						continue
					}
					if cx.h != nil {
						z2 := o.St.clone()
						r.assumeEQ(z2, opt, c.U.Int(k))
						if !c.compatible(s, cx.h, &Outcome{St: z2}) {
							continue
						}
					}
					ops = append(ops, k)
				}
			}
			for _, op := range ops {
				st1 := st0.clone()
				if hasOp {
					r.assumeEQ(st1, stripConv(s.Param["op"]), c.U.Int(op))
					if st1.dead {
						continue
					}
				}
				// equal parameters
				rep := map[*Term]*Term{}
				var nodes []*Term
				for _, role := range roles {
					p := s.Param[role]
					if neg[p] {
						continue
					}
					dup := false
					for _, q := range nodes {
						if r.decideEQ(st1, p, q) == yes {
							rep[p] = q
							dup = true
							break
						}
					}
					if !dup {
						if lo, hi := r.bounds(st1, p); lo == hi {
							continue
						}
						nodes = append(nodes, p)
					}
				}
				levels := make([]*Term, 0, len(nodes)+1)
				for _, p := range nodes {
					l := c.lvl(p)
					r.assumeLE(st1, c.U.AddK(l, 1), c.V)
					levels = append(levels, l)
				}
				if st1.dead {
					continue
				}
				if s.Kind == "correctify" {
					levels = append(levels, s.Param["level"])
				}
				for _, w := range weakOrders(len(levels)) {
					st := st1.clone()
					for i := range w {
						for j := range w {
							if i < j {
								switch {
								case w[i] == w[j]:
									r.assumeEQ(st, levels[i], levels[j])
								case w[i] < w[j]:
									r.assumeLE(st, c.U.AddK(levels[i], 1), levels[j])
								default:
									r.assumeLE(st, c.U.AddK(levels[j], 1), levels[i])
								}
							}
						}
					}
					if st.dead {
						continue
					}
					d := &den{c: c, r: r, st: st, self: s, hd: h, class: map[*Term]int{}, rep: rep, split: true, op: op, hasOp: hasOp, failed: neg, members: map[int]bool{}, ident: map[int]bool{}, key: cx.h}
					if cx.h != nil {
						d.ctx = cx.h.Vals
					}
					max := -1
					for i := range w {
						if w[i] > max {
							max = w[i]
						}
					}
					d.order = make([]*Term, max+1)
					for i := range w {
						if d.order[w[i]] == nil {
							d.order[w[i]] = levels[i]
						}
						if i < len(nodes) {
							d.class[nodes[i]] = w[i]
						}
					}
					d.membership(levels, w)
					if st.dead {
						continue
					}
					d.constraints(o)
					d.hit = func(d *den, t *Term) string { return c.checkHit(d, t) }
					desc := ""
					if hasOp {
						desc = fmt.Sprintf("operator %d, ", op)
					}
					for i, l := range levels {
						desc += fmt.Sprintf("rank(%s)=%d ", l, w[i])
					}
					res = append(res, &pathCase{d, desc})
				}
			}
		}
	}
	return res
}

// membership finds which root variables are quantified, and which are beyond
// the last variable that the operation changes.
func (d *den) membership(levels []*Term, w []int) {
	c := d.c
	s := d.self
	switch s.Kind {
	case "quant", "appquant":
		sc := c.setCells()
		if sc == nil {
			return
		}
		tab := d.r.loadMem(d.st, map[Class]*classMem{}, sc.Table, derefType(sc.Table.T))
		id := d.r.loadMem(d.st, map[Class]*classMem{}, sc.ID, derefType(sc.ID.T))
		last := d.r.loadMem(d.st, map[Class]*classMem{}, sc.Last, derefType(sc.Last.T))
		et := derefType(sc.Table.T).Underlying().(*types.Slice).Elem()
		for i, l := range levels {
			el := d.r.loadMem(d.st, map[Class]*classMem{}, c.U.IA(tab, l, et), et)
			switch d.r.decideEQ(d.st, el, id) {
			case yes:
				if v, ok := d.members[w[i]]; ok && !v {
					d.st.dead = true
				}
				d.members[w[i]] = true
			case no:
				if v, ok := d.members[w[i]]; ok && v {
					d.st.dead = true
				}
				d.members[w[i]] = false
			}
			if d.r.decideLE(d.st, c.U.AddK(last, 1), l) == yes {
				d.ident[w[i]] = true
				if d.members[w[i]] {
					d.st.dead = true
				}
				d.members[w[i]] = false
			}
		}
	case "replace":
		recv, _ := c.replacerOf(s)
		if recv == nil {
			return
		}
		for i, l := range levels {
			if img := c.imageOf(d.r, d.st, l); img == l {
				// only below the last renamed variable is the image read
				if c.identFrom(d.r, d.st, recv, l) {
					d.ident[w[i]] = true
				}
			}
		}
	}
}

// identFrom: no variable of level l or more is renamed.
func (c *Ctx) identFrom(r *Run, st *State, recv, l *Term) bool {
	f := c.lastField()
	if f == nil {
		return false
	}
	last := c.U.mk(OLoad, nil, 0, f.Type(), nil, c.U.FA(recv, f))
	return r.decideLE(st, c.U.AddK(last, 1), l) == yes
}

// constraints records the equalities between nodes known on the path.
func (d *den) constraints(o *Outcome) {
	set := map[*Term]bool{}
	for _, t := range d.st.zone.list {
		if t == nil {
			continue
		}
		if d.c.isNodeField(t, d.c.lowF) || d.c.isNodeField(t, d.c.highF) || t.Op == OMk || t.Op == OHead && d.c.spec(t.Aux.(*headInfo).Fn) != nil {
			set[t] = true
		}
	}
	for p := range d.class {
		set[p] = true
	}
	var l []*Term
	for t := range set {
		l = append(l, t)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].ID < l[j].ID })
	add := func(a, b *Term) {
		save := d.err
		d.err = ""
		x, y := d.node(a), d.node(b)
		if d.err == "" {
			d.cons = append(d.cons, [2]*Ex{x, y})
		}
		d.err = save
	}
	for i, a := range l {
		lo, hi := d.r.bounds(d.st, a)
		if lo == hi && lo >= 0 && lo <= 1 {
			// the term itself, not its value
			save := d.err
			d.err = ""
			x := d.nodeNoConst(a)
			if d.err == "" && x != nil {
				v := ex0
				if lo == 1 {
					v = ex1
				}
				d.cons = append(d.cons, [2]*Ex{x, v})
			}
			d.err = save
			continue
		}
		if lo < 0 {
			if hi < 0 {
				continue
			}
		}
		for _, b := range l[i+1:] {
			if d.r.decideEQ(d.st, a, b) == yes {
				add(a, b)
			}
		}
	}
}

// nodeNoConst gives the meaning of a term without using its known value.
func (d *den) nodeNoConst(t *Term) *Ex {
	switch {
	case t.Op == OHead:
		return d.headVal(t)
	case t.Op == OMk:
		return exIte(d.varOf(t.Args[0]), d.node(t.Args[2]), d.node(t.Args[1]))
	case d.c.isNodeField(t, d.c.lowF), d.c.isNodeField(t, d.c.highF):
		b := t.Args[0]
		if r, ok := d.rep[b]; ok {
			b = r
		}
		if k, ok := d.constOf(b); ok && (k == 0 || k == 1) {
			return nil
		}
		pre := "lo:"
		if t.Aux == d.c.highF {
			pre = "hi:"
		}
		return exAtom(pre + b.String())
	}
	return nil
}

// failedSomewhere: an argument or a result on the path is a failure.
func (d *den) failedSomewhere() bool {
	if len(d.failed) > 0 {
		return true
	}
	for _, e := range d.st.events() {
		if (e.Kind == EvHead || e.Kind == EvMk) && e.Val != nil && intish(e.Val) {
			if _, hi := d.r.bounds(d.st, e.Val); hi < 0 {
				return true
			}
		}
	}
	return false
}

// checkHead verifies that every path of a recursive function returns what the
// operation must compute.
func (c *Ctx) checkHead(rep *Report, kind string) {
	if err := c.buildSpecs(); err != nil {
		rep.bad(c, token.NoPos, kind, "anchor", "", "%v", err)
		return
	}
	s := c.specOfKind(kind)
	if s == nil {
		if kind == "correctify" {
			return
		}
		rep.bad(c, token.NoPos, kind, "anchor", "", "the recursive function of %s was not found", kind)
		return
	}
	h := c.head(s.Fn)
	rep.paths(c, h.Run, h.Outs)
	fn := fname(s.Fn)
	rep.undecided(c, fn, h.Outs)
	ctxs := c.contexts()[s.Fn]
	if len(ctxs) == 0 && kind != "correctify" {
		rep.bad(c, s.Fn.Pos(), fn, "reached", "", "no call of %s found", fn)
	}
	tab, _, err := c.opTable()
	if err != nil {
		rep.bad(c, token.NoPos, "operator.go", "operators", "", "%v", err)
		return
	}
	for _, o := range h.Outs {
		switch o.Kind {
		case OutLoopBack, OutUndecided:
			continue
		}
		for _, pc := range c.cases(s, h, o, ctxs) {
			d := pc.d
			if d.hasOp {
				if _, ok := tab[d.op]; !ok {
					// not a binary operator: an error is expected
					if o.Kind == OutReturn && len(o.Res) == 1 {
						if _, hi := d.r.bounds(d.st, o.Res[0]); hi >= 0 && !d.failedSomewhere() {
							// a result although the operator is unknown
							if c.errorSet(o) {
								continue
							}
							rep.bad(c, s.Fn.Pos(), fn, "unknown operator refused", o.St.pathString(), "a result is returned for operator %d, which is not a binary operator", d.op)
						} else {
							rep.ok("unknown operator refused")
						}
					}
					continue
				}
			}
			if o.Kind == OutPanic {
				if d.failedSomewhere() {
					continue
				}
				rep.bad(c, o.Pos, fn, "no panic on valid nodes", o.St.pathString(), "%s (%s)", o.Why, pc.desc)
				continue
			}
			ret := o.Res[0]
			_, hi := d.r.bounds(d.st, ret)
			if hi < 0 {
				if d.failedSomewhere() || (kind == "correctify" || kind == "replace") && c.errorSet(o) {
					rep.ok("failures are propagated")
					continue
				}
				rep.bad(c, o.St.lastPos(c, s), fn, "result", o.St.pathString(), "a failure is returned for valid nodes (%s)", pc.desc)
				continue
			}
			want := d.specEx()
			d.spec = want
			got := d.node(ret)
			eq, why := d.same(got, want)
			if d.err != "" {
				why = d.err
				eq = false
			}
			if !eq {
				rep.bad(c, o.St.lastPos(c, s), fn, "result", o.St.pathString(), "the result %s is not the one of the operation: %s (%s)", short(ret.String(), 200), why, pc.desc)
				continue
			}
			rep.ok("returned node = specification")
			// what is stored in the cache
			for _, cs := range c.cacheStores(o) {
				v := cs.vals[c.resField(cs.table)]
				if v == nil {
					continue
				}
				if _, hi := d.r.bounds(d.st, v); hi < 0 {
					continue
				}
				d.err = ""
				eq, why := d.same(d.node(v), want)
				if !eq {
					rep.bad(c, cs.ev.Instr.Pos(), fn, "cached result", o.St.pathString(), "the value %s stored in the cache is not the result of the operation: %s", short(v.String(), 200), why)
				} else {
					rep.ok("cached value = specification")
				}
			}
		}
	}
}

// lastPos is the position of the last branch of a path.
func (s *State) lastPos(c *Ctx, hs *HeadSpec) token.Pos {
	for e := s.ev; e != nil; e = e.prev {
		if e.ev.Instr != nil && e.ev.In == hs.Fn && e.ev.Instr.Pos().IsValid() {
			return e.ev.Instr.Pos()
		}
	}
	return hs.Fn.Pos()
}

// errorSet: the path stores a non nil error status.
func (c *Ctx) errorSet(o *Outcome) bool {
	r := c.newRun()
	for _, e := range o.St.events() {
		if e.Kind == EvStore && e.Addr.Op == OFA && e.Addr.Aux == c.errorF {
			if r.nonNil(o.St, e.Val) {
				return true
			}
		}
	}
	return false
}
