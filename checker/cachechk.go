package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cacheStore is a group of stores in the same entry of an operation cache.
type cacheStore struct {
	table string
	tblT  *Term
	entry *Term
	vals  map[*types.Var]*Term
	ev    *Event
}

// tableKey names a cache by the fields that lead to it.
func (c *Ctx) tableKey(t *Term) string {
	var l []string
	for t != nil {
		switch t.Op {
		case OLoad:
			t = t.Args[0]
			continue
		case OFA:
			l = append(l, t.Aux.(*types.Var).Name())
			t = t.Args[0]
			continue
		case OParam:
			if t != c.B {
				return ""
			}
			for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
				l[i], l[j] = l[j], l[i]
			}
			return strings.Join(l, ".")
		}
		return ""
	}
	return ""
}

// entryOf recognises the address of a field of an entry of a cache.
func (c *Ctx) entryOf(a *Term) (key string, entry *Term, f *types.Var) {
	if a == nil {
		return "", nil, nil
	}
	if a.Op != OFA || a.Args[0].Op != OIA {
		return
	}
	ia := a.Args[0]
	tbl := ia.Args[0]
	if tbl.Op != OLoad || tbl.Args[0].Op != OFA {
		return
	}
	if tbl.Args[0].Aux == c.nodesF {
		return
	}
	return c.tableKey(tbl), ia, a.Aux.(*types.Var)
}

// cacheStores lists the entries that a path writes.
func (c *Ctx) cacheStores(o *Outcome) []*cacheStore {
	var res []*cacheStore
	m := map[*Term]*cacheStore{}
	for _, e := range o.St.events() {
		if e.Kind != EvStore {
			continue
		}
		k, ia, f := c.entryOf(e.Addr)
		if k == "" {
			continue
		}
		cs := m[ia]
		if cs == nil {
			cs = &cacheStore{table: k, tblT: ia.Args[0], entry: ia, vals: map[*types.Var]*Term{}}
			m[ia] = cs
			res = append(res, cs)
		}
		cs.vals[f] = e.Val
		cs.ev = e
	}
	return res
}

// resField is the field of a cache that is returned on a hit.
func (c *Ctx) resField(table string) *types.Var {
	m, _ := c.shared["resfields"].(map[string]*types.Var)
	if m == nil {
		m = map[string]*types.Var{}
		c.shared["resfields"] = m
		for fn := range c.specs() {
			for _, o := range c.head(fn).Outs {
				if o.Kind != OutReturn || len(o.Res) != 1 || o.Res[0].Op != OLoad {
					continue
				}
				if k, _, f := c.entryOf(o.Res[0].Args[0]); k != "" {
					m[k] = f
				}
			}
		}
	}
	return m[table]
}

func (c *Ctx) specs() map[*ssa.Function]*HeadSpec {
	m, _ := c.shared["specs"].(map[*ssa.Function]*HeadSpec)
	return m
}

// storeSite is a place where an operation fills a cache.
type storeSite struct {
	s  *HeadSpec
	o  *Outcome
	cs *cacheStore
	h  *hctx
}

func (c *Ctx) storeSites(table string) []*storeSite {
	m, _ := c.shared["storesites"].(map[string][]*storeSite)
	if m == nil {
		m = map[string][]*storeSite{}
		c.shared["storesites"] = m
		ctxs := c.contexts()
		for fn, s := range c.specs() {
			if s.Kind == "correctify" {
				continue
			}
			for _, o := range c.head(fn).Outs {
				if o.Kind != OutReturn {
					continue
				}
				for _, cs := range c.cacheStores(o) {
					seen := map[string]bool{}
					for _, h := range ctxs[fn] {
						if !c.compatible(s, h, o) {
							continue
						}
						k := h.Call.Method + h.key()
						if seen[k] {
							continue
						}
						seen[k] = true
						m[cs.table] = append(m[cs.table], &storeSite{s, o, cs, h})
					}
				}
			}
		}
		// group sites with the same keys
		for t, l := range m {
			seen := map[string]bool{}
			var n []*storeSite
			for _, x := range l {
				var ks []string
				for f, v := range x.cs.vals {
					if f != c.resField(t) {
						ks = append(ks, fmt.Sprintf("%s=%d", f.Name(), v.ID))
					}
				}
				sort.Strings(ks)
				op := ""
				if p := x.s.Param["op"]; p != nil {
					lo, hi := c.newRun().bounds(x.o.St, stripConv(p))
					op = fmt.Sprintf("%d..%d", lo, hi)
				}
				r := c.newRun()
				for _, role := range []string{"n0", "n1", "n2"} {
					if p := x.s.Param[role]; p != nil {
						lo, hi := r.bounds(x.o.St, p)
						op += fmt.Sprintf(",%d..%d", lo, hi)
					}
				}
				k := x.s.Kind + "|" + strings.Join(ks, ",") + "|" + op + "|" + x.h.Call.Method + x.h.key()
				if !seen[k] {
					seen[k] = true
					n = append(n, x)
				}
			}
			m[t] = n
		}
	}
	return m[table]
}

// specVars lists what determines the result of an operation, in a context.
func (c *Ctx) specVars(s *HeadSpec, h *hctx, st *State, r *Run) map[string]*Term {
	res := map[string]*Term{}
	val := func(t *Term) *Term {
		if lo, hi := r.bounds(st, t); lo == hi {
			return c.U.Int(lo)
		}
		return stripConv(t)
	}
	for role, p := range s.Param {
		if len(role) == 2 && role[0] == 'n' {
			res[role] = val(p)
		}
	}
	if s.Kind == "apply" || s.Kind == "appquant" {
		op := s.Param["op"]
		if op != nil {
			v := val(stripConv(op))
			if !isIntConst(v) {
				v = stripConv(c.U.subst(v, h.Vals))
			}
			res["op"] = v
		}
	}
	if s.Kind == "quant" || s.Kind == "appquant" {
		fn := c.P.method("BDD", h.Call.Method)
		nodes, _ := c.splitArgs(fn)
		res["set"] = c.nodeVal(r, st, nodes[len(nodes)-1])
	}
	if s.Kind == "replace" {
		recv, _ := c.replacerOf(s)
		if recv != nil {
			res["replacer"] = c.U.subst(recv, h.Vals)
		}
	}
	return res
}

// checkHit decides whether the entry found by a lookup can only have been
// stored for the same operation on the same arguments.
func (c *Ctx) checkHit(d *den, t *Term) string {
	key, entry, f := c.entryOf(t.Args[0])
	if key == "" {
		return fmt.Sprintf("value %s read from an unknown place", t)
	}
	memo, _ := c.shared["hitmemo"].(map[string]string)
	if memo == nil {
		memo = map[string]string{}
		c.shared["hitmemo"] = memo
	}
	// equalities with the other fields of the entry
	eqs := map[*types.Var][]*Term{}
	st := d.st
	for fact, v := range st.facts {
		if !v || fact.Op != OCmp || fact.Aux != "==" {
			continue
		}
		for i := 0; i < 2; i++ {
			l, x := fact.Args[i], fact.Args[1-i]
			if l.Op == OLoad && l.K == t.K && l.Args[0].Op == OFA && l.Args[0].Args[0] == entry {
				g := l.Args[0].Aux.(*types.Var)
				eqs[g] = append(eqs[g], x)
			}
		}
	}
	for _, l := range st.zone.list {
		if l != nil && l.Op == OLoad && l.K == t.K && l.Args[0].Op == OFA && l.Args[0].Args[0] == entry {
			if lo, hi := d.r.bounds(st, l); lo == hi {
				g := l.Args[0].Aux.(*types.Var)
				eqs[g] = append(eqs[g], c.U.Int(lo))
			}
		}
	}
	delete(eqs, f)
	if len(eqs) == 0 {
		return "the entry of the cache is used without checking that it is the right one"
	}
	// all the contexts that share the environment of the case
	for _, h := range c.contexts()[d.self.Fn] {
		if !c.compatible(d.self, h, &Outcome{St: st}) {
			continue
		}
		var ks []string
		for g, l := range eqs {
			for _, x := range l {
				lo, hi := d.r.bounds(st, x)
				ks = append(ks, fmt.Sprintf("%s=%d(%d..%d)", g.Name(), x.ID, lo, hi))
			}
		}
		sort.Strings(ks)
		lv := c.specVars(d.self, h, st, d.r)
		var vs []string
		for k, v := range lv {
			vs = append(vs, fmt.Sprintf("%s=%d", k, v.ID))
		}
		sort.Strings(vs)
		mk := d.self.Fn.String() + key + f.Name() + strings.Join(ks, ",") + "|" + strings.Join(vs, ",") + "|" + h.Call.Method + h.key()
		why, ok := memo[mk]
		if !ok {
			why = c.hitCompat(d, key, f, eqs, lv, h)
			memo[mk] = why
		}
		if why != "" {
			return why
		}
	}
	return ""
}

func (c *Ctx) hitCompat(d *den, key string, f *types.Var, eqs map[*types.Var][]*Term, lv map[string]*Term, h *hctx) string {
	sites := c.storeSites(key)
	if len(sites) == 0 {
		return "no operation fills the cache " + key
	}
	count := func() {
		n, _ := c.shared["hitpairs"].(int)
		c.shared["hitpairs"] = n + 1
	}
	// entries that were reset, or never filled
	for _, g := range c.emptyEntries(key) {
		ex := false
		for fd, l := range eqs {
			k, ok := g[fd]
			if !ok {
				continue
			}
			for _, x := range l {
				y := c.U.subst(x, h.Vals)
				lo, hi := d.r.bounds(d.st, x)
				if k < lo || k > hi || isIntConst(y) && y.K != k {
					ex = true
				}
			}
		}
		if !ex {
			return fmt.Sprintf("an empty entry of the cache %s can be taken for a result", key)
		}
		count()
	}
	for _, x := range sites {
		count()
		// every field that is compared must be written, as well as the result
		if x.cs.vals[f] == nil {
			return fmt.Sprintf("entries are filled at %s without the field %s", c.P.pos(x.cs.ev.Instr.Pos()), f.Name())
		}
		sv := c.specVars(x.s, x.h, x.o.St, d.r)
		u := &unifier{c: c, l: d.st, s: x.o.St, lh: h, sh: x.h, r: d.r, pairs: map[[2]*Term]bool{}, bind: map[*Term]int64{}}
		for g, l := range eqs {
			sval := x.cs.vals[g]
			if sval == nil {
				return fmt.Sprintf("entries are filled at %s without the field %s, which is compared", c.P.pos(x.cs.ev.Instr.Pos()), g.Name())
			}
			for _, lval := range l {
				u.eq(c.U.subst(u.cst(d.st, lval), h.Vals), c.U.subst(u.cst(x.o.St, sval), x.h.Vals))
			}
		}
		u.opValues(d.self, d.st, h, true)
		u.opValues(x.s, x.o.St, x.h, false)
		if u.contra {
			continue
		}
		where := c.P.pos(x.cs.ev.Instr.Pos())
		if x.s.Kind != d.self.Kind {
			return fmt.Sprintf("a result of %s stored at %s can be taken for a result of %s", x.s.Fn.Name(), where, d.self.Fn.Name())
		}
		for role, lt := range lv {
			stt := sv[role]
			if stt == nil || !u.known(lt, stt) {
				return fmt.Sprintf("a result stored at %s by %s (%s) for another %s can be taken for a result of %s (%s)", where, x.s.Fn.Name(), x.h.Call.Method, roleName(role), d.self.Fn.Name(), h.Call.Method)
			}
		}
	}
	return ""
}

func roleName(r string) string {
	switch r {
	case "op":
		return "operator"
	case "set":
		return "variable set"
	case "replacer":
		return "replacer"
	case "n0":
		return "first operand"
	case "n1":
		return "second operand"
	case "n2":
		return "third operand"
	}
	return r
}

// unifier solves equations between terms of the lookup and terms of the store.
type unifier struct {
	c      *Ctx
	l, s   *State
	lh, sh *hctx
	r      *Run
	pairs  map[[2]*Term]bool
	bind   map[*Term]int64 // variables of the store
	lbind  map[*Term]int64
	contra bool
}

// cst replaces a term by its value on the path when it is known.
func (u *unifier) cst(st *State, t *Term) *Term {
	if lo, hi := u.r.bounds(st, t); lo == hi {
		return u.c.U.Int(lo)
	}
	return t
}

// range of a variable, from the path and from the method that started it
func (u *unifier) rng(st *State, h *hctx, t *Term) (int64, int64) {
	lo, hi := u.r.bounds(st, t)
	if h != nil && h.Call != nil && h.Call.Ev.Zone != nil {
		z := u.c.rawState()
		z.zone = h.Call.Ev.Zone.Clone()
		a, b := u.r.bounds(z, t)
		if a > lo {
			lo = a
		}
		if b < hi {
			hi = b
		}
	}
	// results are only computed for the documented operators ("unknown operator
	// refused")
	if t.Op == OParam && t.T != nil {
		if ot := u.c.P.typeNamed("Operator"); ot != nil && types.Identical(t.T, ot) {
			if lo < 0 {
				lo = 0
			}
		}
	}
	return lo, hi
}

func (u *unifier) eq(a, b *Term) {
	if u.contra {
		return
	}
	a, b = stripConv(a), stripConv(b)
	switch {
	case isIntConst(a) && isIntConst(b):
		if a.K != b.K {
			u.contra = true
		}
		return
	case isIntConst(a):
		u.constVar(a.K, u.s, u.sh, b, false)
		return
	case isIntConst(b):
		u.constVar(b.K, u.l, u.lh, a, true)
		return
	}
	u.pairs[[2]*Term{a, b}] = true
	alo, ahi := u.rng(u.l, u.lh, a)
	blo, bhi := u.rng(u.s, u.sh, b)
	if ahi < blo || bhi < alo {
		u.contra = true
		return
	}
	fa, oka := u.layout(u.l, u.lh, a)
	fb, okb := u.layout(u.s, u.sh, b)
	if !oka || !okb {
		return
	}
	u.match(fa, fb)
}

func (u *unifier) constVar(k int64, st *State, h *hctx, t *Term, left bool) {
	lo, hi := u.rng(st, h, t)
	if k < lo || k > hi {
		u.contra = true
		return
	}
	f, ok := u.layout(st, h, t)
	self := false
	for _, x := range f {
		if x.t == stripConv(t) {
			self = true
		}
	}
	if ok && !self && len(f) > 1 && k >= 0 {
		for _, x := range f {
			v := k >> uint(x.lo)
			if x.w < 62 {
				v &= 1<<uint(x.w) - 1
			}
			if x.t == nil {
				if x.k != v {
					u.contra = true
				}
				continue
			}
			u.constVar(v, st, h, x.t, left)
		}
		return
	}
	if left {
		if u.lbind == nil {
			u.lbind = map[*Term]int64{}
		}
		u.lbind[t] = k
	} else {
		u.bind[t] = k
	}
}

// opValues uses the value of the operator that is known on a path.
func (u *unifier) opValues(s *HeadSpec, st *State, h *hctx, left bool) {
	p := s.Param["op"]
	if p == nil {
		return
	}
	lo, hi := u.r.bounds(st, stripConv(p))
	if lo != hi {
		return
	}
	v := stripConv(u.c.U.subst(stripConv(p), h.Vals))
	if v == p || isIntConst(v) {
		return
	}
	m, other := &u.lbind, u.bind
	if !left {
		m, other = &u.bind, u.lbind
	}
	if *m == nil {
		*m = map[*Term]int64{}
	}
	if k, ok := (*m)[v]; ok && k != lo {
		u.contra = true
		return
	}
	(*m)[v] = lo
	for q := range u.pairs {
		a, b := q[0], q[1]
		if !left {
			a, b = b, a
		}
		if a != v {
			continue
		}
		if isIntConst(b) {
			if b.K != lo {
				u.contra = true
			}
			continue
		}
		if k, ok := other[b]; ok && k != lo {
			u.contra = true
			return
		}
		if left {
			u.bind[b] = lo
		} else {
			if u.lbind == nil {
				u.lbind = map[*Term]int64{}
			}
			u.lbind[b] = lo
		}
	}
}

// bitf is a field of bits of an integer.
type bitf struct {
	lo, w int // position and width (62: up to the sign)
	t     *Term
	k     int64
}

// layout decomposes a non negative integer into disjoint bit fields.
func (u *unifier) layout(st *State, h *hctx, t *Term) ([]bitf, bool) {
	t = stripConv(t)
	if isIntConst(t) {
		if t.K < 0 {
			return nil, false
		}
		return []bitf{{0, 62, nil, t.K}}, true
	}
	shift := func(f []bitf, n int) []bitf {
		var r []bitf
		r = append(r, bitf{0, n, nil, 0})
		for _, x := range f {
			if x.lo+n < 62 {
				y := x
				y.lo += n
				r = append(r, y)
			}
		}
		return r
	}
	switch {
	case t.Op == OBin && t.Aux == "<<" && isIntConst(t.Args[1]) && t.Args[1].K < 40:
		f, ok := u.layout(st, h, t.Args[0])
		if !ok {
			return nil, false
		}
		return shift(f, int(t.Args[1].K)), true
	case t.Op == OBin && (t.Aux == "|" || t.Aux == "^"):
		a, ok1 := u.layout(st, h, t.Args[0])
		b, ok2 := u.layout(st, h, t.Args[1])
		if !ok1 || !ok2 {
			return nil, false
		}
		return merge(a, b)
	case t.Op == OLin:
		var res []bitf
		if t.K < 0 {
			return nil, false
		}
		if t.K > 0 {
			res = []bitf{{0, 62, nil, t.K}}
		}
		for i, a := range t.Args {
			k := t.Coef[i]
			n := 0
			for k > 1 && k%2 == 0 {
				k /= 2
				n++
			}
			if k != 1 {
				return nil, false
			}
			f, ok := u.layout(st, h, a)
			if !ok {
				return nil, false
			}
			if n > 0 {
				f = shift(f, n)
			}
			if res == nil {
				res = f
				continue
			}
			var ok2 bool
			res, ok2 = merge(res, f)
			if !ok2 {
				return nil, false
			}
		}
		return res, true
	}
	lo, hi := u.rng(st, h, t)
	if lo < 0 {
		return nil, false
	}
	w := 62
	for i := 1; i < 40; i++ {
		if hi < 1<<uint(i) {
			w = i
			break
		}
	}
	if w < 62 {
		return []bitf{{0, w, t, 0}, {w, 62 - w, nil, 0}}, true
	}
	return []bitf{{0, 62, t, 0}}, true
}

// merge joins two layouts whose variable fields do not overlap (the other one
// must be zero there, or both constant).
func merge(a, b []bitf) ([]bitf, bool) {
	// collect cut points
	cut := map[int]bool{0: true}
	for _, f := range append(append([]bitf{}, a...), b...) {
		cut[f.lo] = true
		if f.lo+f.w < 62 {
			cut[f.lo+f.w] = true
		}
	}
	var cs []int
	for k := range cut {
		cs = append(cs, k)
	}
	sort.Ints(cs)
	at := func(l []bitf, lo, hi int) (bitf, bool) {
		for _, f := range l {
			if f.lo <= lo && hi <= f.lo+f.w || f.lo <= lo && f.lo+f.w >= 62 {
				if f.t == nil {
					v := f.k >> uint(lo-f.lo)
					if hi-lo < 62 {
						v &= 1<<uint(hi-lo) - 1
					}
					return bitf{lo, hi - lo, nil, v}, true
				}
				if f.lo == lo {
					// a variable must not be cut
					if f.lo+f.w == hi || f.lo+f.w >= 62 && hi == 62 {
						return bitf{lo, hi - lo, f.t, 0}, true
					}
				}
				return bitf{}, false
			}
		}
		return bitf{lo, hi - lo, nil, 0}, true
	}
	var res []bitf
	for i, lo := range cs {
		hi := 62
		if i+1 < len(cs) {
			hi = cs[i+1]
		}
		if lo >= 62 {
			break
		}
		x, ok1 := at(a, lo, hi)
		y, ok2 := at(b, lo, hi)
		if !ok1 || !ok2 {
			return nil, false
		}
		switch {
		case x.t == nil && y.t == nil:
			if x.k != 0 && y.k != 0 && x.k&y.k != 0 {
				return nil, false
			}
			res = append(res, bitf{lo, hi - lo, nil, x.k | y.k})
		case x.t != nil && y.t == nil && y.k == 0:
			res = append(res, x)
		case y.t != nil && x.t == nil && x.k == 0:
			res = append(res, y)
		default:
			return nil, false
		}
	}
	return res, true
}

func (u *unifier) match(a, b []bitf) {
	for _, x := range a {
		for _, y := range b {
			lo, hi := x.lo, x.lo+x.w
			if y.lo > lo {
				lo = y.lo
			}
			if y.lo+y.w < hi {
				hi = y.lo + y.w
			}
			if lo >= hi {
				continue
			}
			bits := func(f bitf) int64 {
				v := f.k >> uint(lo-f.lo)
				if hi-lo < 62 {
					v &= 1<<uint(hi-lo) - 1
				}
				return v
			}
			switch {
			case x.t == nil && y.t == nil:
				if bits(x) != bits(y) {
					u.contra = true
				}
			case x.t != nil && y.t != nil && x.lo == y.lo && x.w == y.w:
				u.pairs[[2]*Term{x.t, y.t}] = true
			case x.t != nil && y.t == nil && x.lo >= y.lo && x.lo+x.w <= y.lo+y.w:
				u.constVar(bits(y), u.l, u.lh, x.t, true)
			case y.t != nil && x.t == nil && y.lo >= x.lo && y.lo+y.w <= x.lo+x.w:
				u.constVar(bits(x), u.s, u.sh, y.t, false)
			}
		}
	}
}

// known: the equations imply that the two terms are equal.
func (u *unifier) known(l, s *Term) bool {
	l, s = stripConv(l), stripConv(s)
	if isIntConst(l) && isIntConst(s) {
		return l.K == s.K
	}
	if isIntConst(l) {
		k, ok := u.bind[s]
		return ok && k == l.K
	}
	if isIntConst(s) {
		k, ok := u.lbind[l]
		return ok && k == s.K
	}
	if u.pairs[[2]*Term{l, s}] {
		return true
	}
	if k, ok := u.lbind[l]; ok {
		if k2, ok := u.bind[s]; ok && k == k2 {
			return true
		}
	}
	// objects identified by a unique number
	if idf := u.c.idField(); idf != nil {
		a := u.c.U.mk(OLoad, nil, 0, idf.Type(), nil, u.c.U.FA(l, idf))
		b := u.c.U.mk(OLoad, nil, 0, idf.Type(), nil, u.c.U.FA(s, idf))
		if u.pairs[[2]*Term{a, b}] {
			return true
		}
	}
	return false
}
