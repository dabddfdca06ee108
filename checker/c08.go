package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Satcount: each big integer is followed as a polynomial, the sum of monomials
// coef · 2^exp · S(n1) · S(n2)..., where S(n) is the number of assignments, of
// the variables from the level of the node n on, that satisfy n.

type mono struct {
	coef int64
	exp  *Term
	vars []*Term // nodes
}

type poly []mono

// counter follows the big integers of one function.
type counter struct {
	c     *Ctx
	r     *Run
	rep   *Report
	fn    *ssa.Function
	head  map[*ssa.Function]int // recursive counting functions: the place of the node
	node  *Term
	maps  map[*Term]bool // tables of the counts that are used
	lists map[*Term]bool
}

// isBig: pointer to a big integer.
func isBig(t types.Type) bool {
	if t == nil {
		return false
	}
	p, ok := t.Underlying().(*types.Pointer)
	return ok && types.TypeString(p.Elem(), nil) == "math/big.Int"
}

func (k *counter) num(n int64) poly {
	if n == 0 {
		return poly{}
	}
	return poly{{n, k.c.U.Int(0), nil}}
}

// val: the monomial that stands for a node, or for an integer that is 0 or 1.
func (k *counter) val(st *State, n *Term) poly {
	n = stripConv(n)
	for i := int64(0); i < 2; i++ {
		if k.r.decideEQ(st, n, k.c.U.Int(i)) == yes {
			return k.num(i)
		}
	}
	return poly{{1, k.c.U.Int(0), []*Term{n}}}
}

func (k *counter) addP(a, b poly, s int64) poly {
	l := append(poly{}, a...)
	for _, m := range b {
		m.coef *= s
		l = append(l, m)
	}
	return l
}

func (k *counter) mulP(a, b poly) poly {
	var l poly
	for _, x := range a {
		for _, y := range b {
			l = append(l, mono{x.coef * y.coef, k.c.U.Add(x.exp, y.exp), append(append([]*Term{}, x.vars...), y.vars...)})
		}
	}
	return l
}

// norm: the polynomial in the state, with the nodes that are known.
func (k *counter) norm(st *State, p poly) poly {
	u, r := k.c.U, k.r
	var l poly
	for _, m := range p {
		n := mono{m.coef, u.Int(0), nil}
		for _, x := range m.vars {
			switch {
			case r.decideEQ(st, x, u.Int(0)) == yes:
				n.coef = 0
			case r.decideEQ(st, x, u.Int(1)) == yes:
			default:
				n.vars = append(n.vars, x)
			}
		}
		if n.coef == 0 {
			continue
		}
		sub := map[*Term]*Term{}
		m.exp.walk(func(t *Term) bool {
			if k.c.isNodeField(t, k.c.levelF) {
				i := t.Args[0]
				if r.decideLE(st, i, u.Int(1)) == yes && r.decideLE(st, u.Int(0), i) == yes {
					sub[t] = k.c.V
				}
			}
			return true
		})
		n.exp = m.exp
		if len(sub) > 0 {
			n.exp = u.subst(n.exp, sub)
		}
		for n.coef%2 == 0 {
			n.coef /= 2
			n.exp = u.AddK(n.exp, 1)
		}
		sort.Slice(n.vars, func(i, j int) bool { return n.vars[i].ID < n.vars[j].ID })
		done := false
		for i := range l {
			if sameTerms(r, st, l[i].vars, n.vars) && r.decideEQ(st, l[i].exp, n.exp) == yes {
				l[i].coef += n.coef
				done = true
			}
		}
		if !done {
			l = append(l, n)
		}
	}
	var z poly
	again := false
	for _, m := range l {
		if m.coef == 0 {
			continue
		}
		again = again || m.coef%2 == 0
		z = append(z, m)
	}
	if again {
		return k.norm(st, z)
	}
	return z
}

func sameTerms(r *Run, st *State, a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && r.decideEQ(st, a[i], b[i]) != yes {
			return false
		}
	}
	return true
}

func (k *counter) equal(st *State, a, b poly) bool {
	return len(k.norm(st, k.addP(a, b, -1))) == 0
}

func (p poly) String() string {
	if len(p) == 0 {
		return "0"
	}
	var s []string
	for _, m := range p {
		x := fmt.Sprint(m.coef)
		if !(isIntConst(m.exp) && m.exp.K == 0) {
			x += "·2^" + m.exp.String()
		}
		for _, v := range m.vars {
			x += "·S(" + v.String() + ")"
		}
		s = append(s, x)
	}
	return strings.Join(s, " + ")
}

// count: the number of assignments of the variables from the level of n on.
func (k *counter) count(st *State, n *Term) poly {
	c, r, u := k.c, k.r, k.c.U
	if r.decideLE(st, n, u.Int(1)) == yes {
		return k.val(st, n)
	}
	var p poly
	lv := c.nodeField(r, st, c.levelF, n)
	for _, s := range []*Term{c.nodeField(r, st, c.lowF, n), c.nodeField(r, st, c.highF, n)} {
		w := poly{{1, u.AddK(u.Sub(c.nodeField(r, st, c.levelF, s), lv), -1), nil}}
		p = k.addP(p, k.mulP(w, k.val(st, s)), 1)
	}
	return p
}

// bigs: the big integers of one path.
type bigs struct {
	k      *counter
	o      *Outcome
	alias  map[*Term]*Term
	val    map[*Term]poly
	ints   map[*Term]*Term // integers that are not counts
	frozen map[*Term]bool
}

func (b *bigs) obj(t *Term) *Term {
	for b.alias[t] != nil {
		t = b.alias[t]
	}
	return t
}

// get: the contents of an integer.
func (b *bigs) get(t *Term) (poly, bool) {
	t = b.obj(t)
	if p, ok := b.val[t]; ok {
		return p, true
	}
	if t.Op == OAlloc && b.k.r.newAlloc(t) {
		return poly{}, true // zero
	}
	return nil, false
}

// follow interprets the events of a path; it returns false if it does not
// understand one of them.
func (k *counter) follow(o *Outcome) (*bigs, bool) {
	c, r, u, st := k.c, k.r, k.c.U, o.St
	b := &bigs{k, o, map[*Term]*Term{}, map[*Term]poly{}, map[*Term]*Term{}, map[*Term]bool{}}
	pth := st.pathString()
	name := fname(k.fn)
	good := true
	for _, e := range st.events() {
		pos := k.fn.Pos()
		if e.Instr != nil && e.Instr.Pos().IsValid() {
			pos = e.Instr.Pos()
		}
		bad := func(rule, f string, a ...interface{}) {
			good = false
			k.rep.bad(c, pos, name, rule, pth, f, a...)
		}
		switch e.Kind {
		case EvCall:
			m, isM := strings.CutPrefix(e.Name, "(*math/big.Int).")
			if e.Name == "math/big.NewInt" {
				x := stripConv(e.Args[0])
				p := k.intPoly(st, x)
				if p == nil {
					b.ints[e.Val] = x
					continue
				}
				b.val[e.Val] = p
				continue
			}
			if !isM {
				for _, a := range e.Args {
					if _, ok := b.val[b.obj(a)]; ok || isBig(a.T) {
						bad("analysable", "a count is given to %s", e.Name)
						return b, false
					}
				}
				continue
			}
			var in []poly
			known := true
			for _, a := range e.Args {
				if !isBig(a.T) {
					in = append(in, nil)
					continue
				}
				p, ok := b.get(a)
				known = known && ok
				in = append(in, p)
			}
			var p poly
			switch m {
			case "Cmp", "CmpAbs", "Sign", "BitLen", "IsInt64", "IsUint64", "Int64", "Uint64", "String", "Text", "Bit", "TrailingZeroBits", "Append", "Format":
				continue // only read
			case "Set", "Abs":
				if m == "Set" {
					p = in[1]
				}
			case "SetInt64", "SetUint64":
				p = k.intPoly(st, stripConv(e.Args[1]))
			case "Add":
				p = k.addP(in[1], in[2], 1)
			case "Sub":
				p = k.addP(in[1], in[2], -1)
			case "Mul":
				p = k.mulP(in[1], in[2])
			case "SetBit":
				if one := stripConv(e.Args[3]); r.decideEQ(st, one, u.Int(1)) == yes && len(k.norm(st, in[1])) == 0 {
					p = poly{{1, stripConv(e.Args[2]), nil}}
				}
			case "Exp":
				if x := b.ints[b.obj(e.Args[2])]; x != nil && e.Args[3].Op == ONil && k.equal(st, in[1], k.num(2)) {
					p = poly{{1, x, nil}}
					known = true
				}
			case "Lsh":
				p = k.mulP(in[1], poly{{1, stripConv(e.Args[2]), nil}})
			}
			// the receiver is not read, but for those two
			if m == "SetInt64" || m == "SetUint64" {
				known = true
			} else if !known {
				known = true
				for _, a := range e.Args[1:] {
					if isBig(a.T) && m != "Exp" {
						_, ok := b.get(a)
						known = known && ok
					}
				}
			}
			if !known || p == nil && !(m == "Set" || m == "Add" || m == "Sub" || m == "Mul" || m == "Lsh" || m == "SetInt64" || m == "SetUint64") {
				bad("analysable", "the call of %s is not understood", m)
				return b, false
			}
			z := b.obj(e.Args[0])
			if b.frozen[z] {
				bad("count", "a count that is shared is changed by %s", m)
			}
			if _, ok := b.get(z); !ok {
				bad("count", "a number that is not created here is changed by %s", m)
				return b, false
			}
			if p == nil {
				p = poly{}
			}
			b.val[z] = k.norm(st, p)
			if e.Val != nil && isBig(e.Val.T) {
				b.alias[e.Val] = z
			}
		case EvHead:
			i, ok := k.head[e.Fn]
			if !ok {
				continue
			}
			b.val[e.Val] = k.val(st, e.Args[i])
			b.frozen[e.Val] = true
			k.rep.ok("result of a recursive count")
		case EvMapGet:
			if !isBigMap(e.Args[0]) {
				continue
			}
			k.maps[e.Args[0]] = true
			v := e.Val
			if r.truth(st, e.Args[2]) == yes || r.nonNil(st, v) || notTri(r.truth(st, r.eqTerm(v, u.Nil()))) == yes {
				b.val[v] = k.val(st, e.Args[1])
				b.frozen[v] = true
				k.rep.ok("count read from the table")
			}
		case EvMapSet:
			if !isBigMap(e.Args[0]) {
				continue
			}
			k.maps[e.Args[0]] = true
			b.keep(e.Args[1], e.Args[2], bad)
		case EvLoad, EvStore:
			if e.Addr == nil || !isBig(derefType(e.Addr.T)) {
				continue
			}
			if e.Addr.Op != OIA {
				if rootOf(e.Addr).Op == OAlloc {
					continue
				}
				bad("analysable", "a count goes through memory")
				continue
			}
			k.lists[e.Addr.Args[0]] = true
			if e.Kind == EvStore {
				b.keep(e.Addr.Args[1], e.Val, bad)
			} else if r.nonNil(st, e.Val) || notTri(r.truth(st, r.eqTerm(e.Val, u.Nil()))) == yes {
				b.val[e.Val] = k.val(st, e.Addr.Args[1])
				b.frozen[e.Val] = true
				k.rep.ok("count read from the table")
			}
		}
	}
	return b, good
}

// keep: a count is put in the table.
func (b *bigs) keep(key, v *Term, bad func(rule, f string, a ...interface{})) {
	k, st := b.k, b.o.St
	if v.Op == ONil {
		return
	}
	p, ok := b.get(v)
	switch {
	case !ok:
		bad("analysable", "the number put in the table is not understood")
	case k.equal(st, p, k.val(st, key)), b.k.node != nil && k.r.decideEQ(st, stripConv(key), b.k.node) == yes && k.equal(st, p, k.count(st, b.k.node)):
		k.rep.ok("the table holds the count of its key")
	default:
		bad("count", "the count in the table for %s is %s", short(key.String(), 40), short(k.norm(st, p).String(), 160))
	}
	b.frozen[b.obj(v)] = true
}

// intPoly: the value of an integer term that is constant, or is 0 or 1.
func (k *counter) intPoly(st *State, x *Term) poly {
	u, r := k.c.U, k.r
	if isIntConst(x) {
		return k.num(x.K)
	}
	if r.decideLE(st, u.Int(0), x) == yes && r.decideLE(st, x, u.Int(1)) == yes {
		return k.val(st, x)
	}
	return nil
}

func isBigMap(m *Term) bool {
	if m.T == nil {
		return false
	}
	t, ok := m.T.Underlying().(*types.Map)
	return ok && isBig(t.Elem())
}

func (k *counter) resultPos(o *Outcome) token.Pos { return k.c.retPos(o, k.fn) }

// place: which argument of the recursive function is the node: the one that is
// given the node in the call made by the method.
func (c *Ctx) checkC08(rep *Report) {
	fn := c.P.method("BDD", "Satcount")
	if fn == nil {
		rep.bad(c, token.NoPos, "Satcount", "anchor", "", "method Satcount not found")
		return
	}
	if err := c.opsFix(); err != nil {
		rep.bad(c, token.NoPos, "Satcount", "analysable", "", "%v", err)
		return
	}
	outs, r, err := c.method("Satcount")
	if err != nil {
		rep.bad(c, fn.Pos(), "Satcount", "analysable", "", "%v", err)
		return
	}
	rep.site(fname(fn))
	rep.paths(c, r, outs)
	if rep.undecided(c, fname(fn), outs) {
		return
	}
	var arg *Term
	for _, a := range c.methodArgs(fn)[1:] {
		if types.Identical(a.T, c.NodeTy) {
			arg = a
		}
	}
	if arg == nil {
		rep.bad(c, fn.Pos(), fname(fn), "anchor", "", "the node given to Satcount was not found")
		return
	}
	// the recursive functions that count
	heads := map[*ssa.Function]int{}
	isHead := func(f *ssa.Function) bool {
		res := f.Signature.Results()
		return res.Len() == 1 && isBig(res.At(0).Type())
	}
	var todo []*ssa.Function
	for _, o := range outs {
		for _, e := range o.St.events() {
			if e.Kind != EvHead || !isHead(e.Fn) {
				continue
			}
			for i, a := range e.Args {
				if a == c.nodeVal(r, o.St, arg) {
					if _, ok := heads[e.Fn]; !ok {
						heads[e.Fn] = i
						todo = append(todo, e.Fn)
					}
				}
			}
		}
	}
	tables := map[*ssa.Function]map[*Term]bool{}
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		h := c.head(f)
		if h == nil {
			rep.bad(c, f.Pos(), fname(f), "analysable", "", "the recursive function cannot be analysed")
			return
		}
		rep.site(fname(f))
		rep.paths(c, h.Run, h.Outs)
		if rep.undecided(c, fname(f), h.Outs) {
			return
		}
		// others that it calls: the node is their only parameter of that type
		for _, o := range h.Outs {
			for _, e := range o.St.events() {
				if e.Kind != EvHead || !isHead(e.Fn) {
					continue
				}
				if _, ok := heads[e.Fn]; ok {
					continue
				}
				i, n := 0, 0
				for j, a := range e.Args {
					if isIntType(a.T) {
						i = j
						n++
					}
				}
				if n == 1 {
					heads[e.Fn] = i
					todo = append(todo, e.Fn)
				}
			}
		}
		k := &counter{c: c, r: h.Run, rep: rep, fn: f, head: heads, node: h.Params[heads[f]], maps: map[*Term]bool{}, lists: map[*Term]bool{}}
		for _, o := range h.Outs {
			pth := o.St.pathString()
			if o.Kind == OutPanic {
				continue // (C32)
			}
			b, ok := k.follow(o)
			if !ok {
				continue
			}
			if o.Kind != OutReturn {
				rep.bad(c, f.Pos(), fname(f), "analysable", pth, "a loop in the count is not understood")
				continue
			}
			p, ok := b.get(o.Res[0])
			switch {
			case !ok:
				rep.bad(c, k.resultPos(o), fname(f), "count", pth, "the result is not understood: %s", short(o.Res[0].String(), 80))
			case !k.equal(o.St, p, k.val(o.St, k.node)) && !k.equal(o.St, p, k.count(o.St, k.node)):
				rep.bad(c, k.resultPos(o), fname(f), "count", pth, "the result is %s instead of %s", short(k.norm(o.St, p).String(), 200), short(k.norm(o.St, k.count(o.St, k.node)).String(), 200))
			default:
				rep.ok("the count of a node is the one of its successors, with the levels skipped")
			}
		}
		tables[f] = k.maps
		for l := range k.lists {
			tables[f][l] = true
		}
	}
	// the method
	k := &counter{c: c, r: r, rep: rep, fn: fn, head: heads, maps: map[*Term]bool{}, lists: map[*Term]bool{}}
	for _, o := range outs {
		pth := o.St.pathString()
		if o.Kind == OutPanic {
			continue
		}
		b, ok := k.follow(o)
		if !ok {
			continue
		}
		if o.Kind != OutReturn {
			rep.bad(c, fn.Pos(), fname(fn), "analysable", pth, "a loop in the count is not understood")
			continue
		}
		p, ok := b.get(o.Res[0])
		if !ok {
			rep.bad(c, k.resultPos(o), fname(fn), "count", pth, "the result is not understood: %s", short(o.Res[0].String(), 80))
			continue
		}
		if b.frozen[b.obj(o.Res[0])] {
			// the number may be the one held in a table that is thrown away: harmless,
			// since the tables are not kept (below)
			rep.ok("the result belongs to the caller")
		}
		n := c.nodeVal(r, o.St, arg)
		want := k.mulP(poly{{1, c.nodeField(r, o.St, c.levelF, n), nil}}, k.val(o.St, n))
		switch {
		case k.equal(o.St, p, want):
			rep.ok("the result is the number of assignments of all the variables")
		case len(k.norm(o.St, p)) == 0 && c.errorSet(o):
			rep.ok("zero and an error for a node that is not valid")
		case c.errorSet(o):
			rep.bad(c, k.resultPos(o), fname(fn), "count", pth, "the result for a node that is not valid is %s instead of 0", short(k.norm(o.St, p).String(), 120))
		default:
			rep.bad(c, k.resultPos(o), fname(fn), "count", pth, "the result is %s instead of %s", short(k.norm(o.St, p).String(), 200), short(k.norm(o.St, want).String(), 200))
		}
		// the tables are made for that call
		for _, e := range o.St.events() {
			if e.Kind != EvHead {
				continue
			}
			hp := c.headArgs(e.Fn)
			for m := range tables[e.Fn] {
				var v *Term
				for i, a := range hp {
					switch {
					case m == a:
						v = e.Args[i]
					case m.Op == OLoad && m.Args[0].Op == OFA && m.Args[0].Args[0] == a:
						v = r.loadMem(o.St, e.Mem, c.U.FA(e.Args[i], m.Args[0].Aux.(*types.Var)), m.T)
					}
				}
				if v == nil && (r.newAlloc(m) || freshTable(o, m)) {
					v = m // captured by a closure
				}
				switch {
				case v == nil:
					rep.bad(c, e.Instr.Pos(), fname(fn), "fresh table", pth, "the table of the counts may be kept between calls")
				case v.Op == ONil, r.newAlloc(v), freshTable(o, v):
					rep.ok("the table of the counts is made for each call")
				default:
					rep.bad(c, e.Instr.Pos(), fname(fn), "fresh table", pth, "the table of the counts is not made for this call: %s", short(v.String(), 60))
				}
			}
		}
	}
}

// freshTable: a map or list made on this path.
func freshTable(o *Outcome, v *Term) bool {
	for _, e := range o.St.events() {
		if (e.Kind == EvMake || e.Kind == EvAppend) && e.Val == v {
			return true
		}
	}
	return false
}

func init() {
	register("C08", "the big integers of the recursive count and of Satcount are followed on every path, as polynomials in the powers of two of level differences and the counts of the successors, and compared with the number of satisfying assignments; the table of the counts is made for each call and its numbers are not changed afterwards", func(c *Ctx, rep *Report) {
		c.checkC08(rep)
	})
}
