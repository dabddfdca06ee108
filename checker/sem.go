package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- functions

// Ex is a Boolean function over atoms, with quantification and renaming kept
// symbolic.
type Ex struct {
	op   string // "0", "1", "atom", "ite", "ap", "E", "R"
	name string
	tt   int // for "ap": bit 2*l+r
	a    []*Ex
}

var ex0 = &Ex{op: "0"}
var ex1 = &Ex{op: "1"}

func exAtom(n string) *Ex       { return &Ex{op: "atom", name: n} }
func exIte(c, t, e *Ex) *Ex     { return &Ex{op: "ite", a: []*Ex{c, t, e}} }
func exAp(tt int, l, r *Ex) *Ex { return &Ex{op: "ap", tt: tt, a: []*Ex{l, r}} }
func exE(f *Ex) *Ex             { return &Ex{op: "E", a: []*Ex{f}} }
func exR(f *Ex) *Ex             { return &Ex{op: "R", a: []*Ex{f}} }
func exNot(f *Ex) *Ex           { return exAp(ttXor, f, ex1) }

const ttXor = 1<<1 | 1<<2
const ttOr = 1<<1 | 1<<2 | 1<<3

func (e *Ex) String() string {
	switch e.op {
	case "atom":
		return e.name
	case "0", "1":
		return e.op
	}
	var s []string
	for _, x := range e.a {
		s = append(s, x.String())
	}
	if e.op == "ap" {
		return fmt.Sprintf("op%04b(%s)", e.tt, strings.Join(s, ","))
	}
	return e.op + "(" + strings.Join(s, ",") + ")"
}

// documented truth tables, by the name of the exported constant
var docTables = map[string][4]int{
	"OPand": {0, 0, 0, 1}, "OPxor": {0, 1, 1, 0}, "OPor": {0, 1, 1, 1}, "OPnand": {1, 1, 1, 0}, "OPnor": {1, 0, 0, 0},
	"OPimp": {1, 1, 0, 1}, "OPbiimp": {1, 0, 0, 1}, "OPdiff": {0, 0, 1, 0}, "OPless": {0, 1, 0, 0}, "OPinvimp": {1, 0, 1, 1},
}

// opTable maps the value of each operator to its truth table.
func (c *Ctx) opTable() (map[int64]int, map[int64]string, error) {
	res := map[int64]int{}
	names := map[int64]string{}
	for n, t := range docTables {
		o, ok := c.P.Types.Scope().Lookup(n).(*types.Const)
		if !ok {
			return nil, nil, fmt.Errorf("operator %s not found", n)
		}
		v, ok := constant.Int64Val(o.Val())
		if !ok {
			return nil, nil, fmt.Errorf("operator %s is not an integer", n)
		}
		if names[v] != "" {
			return nil, nil, fmt.Errorf("operators %s and %s have the same value", n, names[v])
		}
		tt := 0
		for i := 0; i < 4; i++ {
			tt |= t[i] << uint(i)
		}
		res[v] = tt
		names[v] = n
	}
	return res, names, nil
}

// ---------------------------------------------------------------- contracts

// HeadSpec says what a recursive function computes.
type HeadSpec struct {
	Kind   string // not, apply, ite, quant, appquant, replace, correctify
	Fn     *ssa.Function
	Method string
	Role   map[int]string   // index of parameter -> role
	Param  map[string]*Term // role -> parameter, or contents of a cell at entry
	Cell   map[string]*Term // role -> address of the cell that holds it
	Calls  []*apiCall       // calls from the methods
}

// apiCall is a call of a recursive function from a method.
type apiCall struct {
	Method string
	Out    *Outcome
	Ev     *Event
}

func (s *HeadSpec) argOf(e *Event, role string) *Term {
	for i, r := range s.Role {
		if r == role {
			return e.Args[i]
		}
	}
	return nil
}

func (c *Ctx) spec(fn *ssa.Function) *HeadSpec {
	m, _ := c.shared["specs"].(map[*ssa.Function]*HeadSpec)
	return m[fn]
}

func (c *Ctx) specOfKind(kind string) *HeadSpec {
	m, _ := c.shared["specs"].(map[*ssa.Function]*HeadSpec)
	for _, s := range m {
		if s.Kind == kind {
			return s
		}
	}
	return nil
}

func (c *Ctx) nodeVal(r *Run, st *State, n *Term) *Term {
	// id held by a node
	switch {
	case n == c.One:
		return c.U.Int(1)
	case n == c.Zero:
		return c.U.Int(0)
	case isRetTerm(n):
		return n.Args[0]
	}
	return c.U.mk(OLoad, nil, 0, types.Typ[types.Int], nil, n)
}

func stripConv(t *Term) *Term {
	for t != nil && t.Op == OConv {
		t = t.Args[0]
	}
	return t
}

var methodKinds = map[string]string{"Not": "not", "Apply": "apply", "Ite": "ite", "Exist": "quant", "AppEx": "appquant", "Replace": "replace"}

// buildSpecs finds the recursive functions behind the methods and the role of
// their parameters and of the cells that hold their other arguments.
func (c *Ctx) buildSpecs() error {
	if c.shared["specs"] != nil {
		return nil
	}
	if err := c.opsFix(); err != nil {
		return err
	}
	specs := map[*ssa.Function]*HeadSpec{}
	for _, m := range c.opMethods() {
		fn := c.P.method("BDD", m)
		outs, r, err := c.method(m)
		if err != nil {
			return err
		}
		nodes, others := c.splitArgs(fn)
		for _, o := range outs {
			if o.Kind != OutReturn {
				continue
			}
			for _, e := range o.St.events() {
				if e.Kind != EvHead {
					continue
				}
				sig := e.Fn.Signature
				if sig.Results().Len() != 1 || !isIntType(sig.Results().At(0).Type()) {
					continue
				}
				// the outermost recursive function: its result is handed out
				handed := false
				for _, x := range o.St.events() {
					if x.Kind == EvRet && x.Args[0] == e.Val {
						handed = true
					}
				}
				if !handed {
					continue
				}
				kind := methodKinds[m]
				s := specs[e.Fn]
				if s == nil {
					s = &HeadSpec{Kind: kind, Fn: e.Fn, Method: m, Role: map[int]string{}, Param: map[string]*Term{}, Cell: map[string]*Term{}}
					specs[e.Fn] = s
					hp := c.headArgs(e.Fn)
					for i, a := range e.Args {
						role := ""
						for j, n := range nodes {
							if a == c.nodeVal(r, o.St, n) {
								role = fmt.Sprintf("n%d", j)
							}
						}
						for _, x := range others {
							if stripConv(a) == x {
								role = x.Aux.(string)
							}
						}
						if role == "" {
							continue
						}
						if (m == "Exist" && role == "n1") || (m == "AppEx" && role == "n2") {
							role = "varset"
						}
						s.Role[i] = role
						s.Param[role] = hp[i]
					}
					// operands passed through cells
					for _, x := range others {
						name := x.Aux.(string)
						if s.Param[name] != nil {
							continue
						}
						s.cells(c, e, name, x)
					}
				}
				if s.Kind == kind {
					s.Calls = append(s.Calls, &apiCall{m, o, e})
				} else if kind == "appquant" && s.Kind == "apply" || kind == "quant" {
					s.Calls = append(s.Calls, &apiCall{m, o, e})
				}
			}
		}
	}
	c.shared["specs"] = specs
	for m, k := range methodKinds {
		if c.specOfKind(k) == nil {
			delete(c.shared, "specs")
			return fmt.Errorf("the recursive function behind %s was not found", m)
		}
	}
	// insertion of a level in Replace
	rs := c.specOfKind("replace")
	for _, o := range c.head(rs.Fn).Outs {
		for _, e := range o.St.events() {
			if e.Kind == EvHead && specs[e.Fn] == nil && o.Kind == OutReturn {
				s := &HeadSpec{Kind: "correctify", Fn: e.Fn, Method: "Replace", Role: map[int]string{}, Param: map[string]*Term{}, Cell: map[string]*Term{}}
				hp := c.headArgs(e.Fn)
				n := rs.Param["n0"]
				for i, a := range e.Args {
					role := ""
					switch {
					case a.Op == OHead && n != nil && a.contains(c.low(n)):
						role = "low"
					case a.Op == OHead && n != nil && a.contains(c.high(n)):
						role = "high"
					case intish(a) && hp[i].T != nil && types.Identical(hp[i].T, c.levelF.Type()):
						role = "level"
					}
					if role != "" {
						s.Role[i] = role
						s.Param[role] = hp[i]
					}
				}
				if s.Param["low"] != nil && s.Param["high"] != nil && s.Param["level"] != nil {
					specs[e.Fn] = s
				}
			}
		}
	}
	return nil
}

// cells finds the cell that holds an argument of the method at the call.
func (s *HeadSpec) cells(c *Ctx, e *Event, name string, x *Term) {
	ref := c.P.modref(e.Fn).Ref
	var best *Term
	for cl, m := range e.Mem {
		if !ref[cl] {
			continue
		}
		for _, w := range m.writes {
			if singleCell(w.addr) && (stripConv(w.val) == x) {
				// still there at the call
				if best == nil || w.addr.ID < best.ID {
					best = w.addr
				}
			}
		}
	}
	if best != nil {
		s.Cell[name] = best
		s.Param[name] = c.U.mk(OLoad, nil, 0, derefType(best.T), nil, best)
	}
}

// splitArgs separates the node parameters of a method from the others.
func (c *Ctx) splitArgs(fn *ssa.Function) (nodes, others []*Term) {
	for i, a := range c.methodArgs(fn) {
		if i == 0 && fn.Signature.Recv() != nil {
			continue
		}
		if types.Identical(a.T, c.NodeTy) {
			nodes = append(nodes, a)
		} else {
			others = append(others, a)
		}
	}
	return
}

// ---------------------------------------------------------------- denotation

// den evaluates node identifiers on one path to Boolean functions.
type den struct {
	c       *Ctx
	r       *Run
	st      *State
	self    *HeadSpec // nil for methods
	hd      *HeadAnalysis
	param   []*Term         // node parameters, split on their root variable
	class   map[*Term]int   // level class of each split parameter
	order   []*Term         // one level term per class, increasing
	rep     map[*Term]*Term // equal parameters
	split   bool
	err     string
	spec    *Ex   // value of a valid cache hit
	specV   *Term // the variable set of this path
	op      int64
	hasOp   bool
	members map[int]bool    // class -> belongs to the variable set (when known)
	ident   map[int]bool    // class -> above the last quantified variable
	ctx     map[*Term]*Term // value of the environment in this context
	key     *hctx
	hit     func(d *den, t *Term) string
	why     []string
	failed  map[*Term]bool
	cons    [][2]*Ex
}

func (d *den) fail(f string, a ...interface{}) *Ex {
	if d.err == "" {
		d.err = fmt.Sprintf(f, a...)
	}
	return ex0
}

func (d *den) constOf(t *Term) (int64, bool) {
	if isIntConst(t) {
		return t.K, true
	}
	lo, hi := d.r.bounds(d.st, t)
	if lo == hi {
		return lo, true
	}
	return 0, false
}

func (d *den) varOf(level *Term) *Ex {
	for i, l := range d.order {
		if d.r.decideEQ(d.st, level, l) == yes {
			return exAtom(fmt.Sprintf("x%d", i))
		}
	}
	return exAtom("x:" + level.String())
}

func (d *den) node(t *Term) *Ex {
	c := d.c
	if k, ok := d.constOf(t); ok {
		switch k {
		case 0:
			return ex0
		case 1:
			return ex1
		case -1:
			if d.failed[t] {
				return exAtom("failed:" + t.String())
			}
			return d.fail("failed result used as a node")
		}
	}
	if d.failed[t] {
		return exAtom(fmt.Sprintf("failed:%d", t.ID))
	}
	if r, ok := d.rep[t]; ok {
		t = r
	}
	if cl, ok := d.class[t]; ok && d.split {
		return exIte(exAtom(fmt.Sprintf("x%d", cl)), exAtom("hi:"+t.String()), exAtom("lo:"+t.String()))
	}
	switch {
	case c.isNodeField(t, c.lowF), c.isNodeField(t, c.highF):
		b := t.Args[0]
		if r, ok := d.rep[b]; ok {
			b = r
		}
		if k, ok := d.constOf(b); ok && (k == 0 || k == 1) {
			return d.node(c.U.Int(k))
		}
		pre := "lo:"
		if t.Aux == c.highF {
			pre = "hi:"
		}
		if _, ok := d.class[b]; ok || b.Op == OParam || b.Op == OLoad {
			return exAtom(pre + b.String())
		}
		return exAtom(pre + b.String())
	case t.Op == OParam || t.Op == OLoad && t.Args[0].Op == OParam:
		return exAtom("p:" + t.String())
	case t.Op == OMk:
		lv, lo, hi := t.Args[0], t.Args[1], t.Args[2]
		return exIte(d.varOf(lv), d.node(hi), d.node(lo))
	case t.Op == OHead:
		return d.headVal(t)
	case t.Op == OLoad && t.Args[0].Op == OFA && t.Args[0].Args[0].Op == OIA:
		if d.hit != nil {
			if why := d.hit(d, t); why != "" {
				return d.fail("%s", why)
			}
			return d.spec
		}
	case t.Op == OFresh || t.Op == OExtr:
	}
	return d.fail("value %s has no known meaning", t)
}

// headEvent finds the call that produced a result.
func (d *den) headEvent(t *Term) *Event {
	for e := d.st.ev; e != nil; e = e.prev {
		if e.ev.Kind == EvHead && e.ev.Val == t {
			return e.ev
		}
	}
	return nil
}

// opAt gives the operator used by a call of the apply-like function s, as a
// term of the environment of the path.
func (d *den) opAt(s *HeadSpec, e *Event) (*Term, bool) {
	p := s.Param["op"]
	if p == nil {
		return nil, false
	}
	return d.c.envAt(d.r, d.st, s, p, e), true
}

func (d *den) opConst(t *Term) (int64, bool) {
	t = stripConv(t)
	if k, ok := d.constOf(t); ok {
		return k, true
	}
	if v, ok := d.ctx[t]; ok {
		v = stripConv(v)
		if isIntConst(v) {
			return v.K, true
		}
	}
	if d.hasOp && d.self != nil && t == stripConv(d.self.Param["op"]) {
		return d.op, true
	}
	return 0, false
}

func (d *den) headVal(t *Term) *Ex {
	c := d.c
	e := d.headEvent(t)
	s := c.spec(t.Aux.(*headInfo).Fn)
	if e == nil || s == nil {
		return d.fail("the recursive function %s has no known meaning", t.Aux.(*headInfo).Fn.Name())
	}
	arg := func(role string) *Ex {
		a := s.argOf(e, role)
		if a == nil {
			return d.fail("argument %s of %s not identified", role, s.Fn.Name())
		}
		return d.node(a)
	}
	switch s.Kind {
	case "not":
		return exNot(arg("n0"))
	case "ite":
		return exIte(arg("n0"), arg("n1"), arg("n2"))
	case "apply", "appquant":
		ot, ok := d.opAt(s, e)
		if !ok {
			return d.fail("operator of %s not identified", s.Fn.Name())
		}
		var tt int
		if k, ok := d.opConst(ot); ok {
			tab, _, err := c.opTable()
			if err != nil {
				return d.fail("%v", err)
			}
			x, ok := tab[k]
			if !ok {
				return d.fail("operator %d used in %s", k, s.Fn.Name())
			}
			tt = x
		} else if d.self == nil && stripConv(ot).Op == OParam {
			// the operator given by the caller
			return d.wrapE(s, e, &Ex{op: "sym", name: stripConv(ot).String(), a: []*Ex{arg("n0"), arg("n1")}})
		} else {
			return d.fail("operator of %s is %s, which is not the requested one", s.Fn.Name(), ot)
		}
		return d.wrapE(s, e, exAp(tt, arg("n0"), arg("n1")))
	case "quant":
		return d.wrapE(s, e, arg("n0"))
	case "replace":
		return exR(arg("n0"))
	case "correctify":
		lv := s.argOf(e, "level")
		return exIte(d.varOf(lv), arg("high"), arg("low"))
	}
	return d.fail("unknown contract")
}

// wrapE adds the quantification of the functions that quantify, over the same
// variable set as the path.
func (d *den) wrapE(s *HeadSpec, e *Event, f *Ex) *Ex {
	if s.Kind == "apply" {
		return f
	}
	// the variable set itself is unchanged since the start of the operation
	if d.self != nil {
		cells := d.c.setCells()
		if cells == nil {
			return d.fail("the representation of variable sets was not identified")
		}
		for _, cell := range cells.all() {
			now := d.r.loadMem(d.st, e.Mem, cell, derefType(cell.T))
			ini := d.r.loadMem(d.st, map[Class]*classMem{}, cell, derefType(cell.T))
			if now != ini {
				return d.fail("the variable set changes before the call of %s", s.Fn.Name())
			}
		}
	}
	return exE(f)
}

// ---------------------------------------------------------------- truth tables

type evalCtx struct {
	atoms map[string]int
	names []string
	ekeys map[string]int
	d     *den
	n     int
}

// collect gives numbers to the atoms outside of E and R.
func (v *evalCtx) atom(n string) int {
	if i, ok := v.atoms[n]; ok {
		return i
	}
	i := len(v.names)
	v.atoms[n] = i
	v.names = append(v.names, n)
	return i
}

// norm removes E and R: E(f) becomes a function of atoms that are named after the
// truth table of quantified functions.
func (v *evalCtx) norm(e *Ex) *Ex {
	switch e.op {
	case "0", "1", "atom":
		return e
	case "E", "R":
		f := v.norm(e.a[0])
		return v.push(e.op, f, 0)
	}
	n := &Ex{op: e.op, name: e.name, tt: e.tt, a: make([]*Ex, len(e.a))}
	for i, x := range e.a {
		n.a[i] = v.norm(x)
	}
	return n
}

func exAtoms(e *Ex, m map[string]bool) {
	if e.op == "atom" {
		m[e.name] = true
	}
	for _, x := range e.a {
		exAtoms(x, m)
	}
}

func exSubst(e *Ex, name string, by *Ex) *Ex {
	if e.op == "atom" {
		if e.name == name {
			return by
		}
		return e
	}
	if len(e.a) == 0 {
		return e
	}
	n := &Ex{op: e.op, name: e.name, tt: e.tt, a: make([]*Ex, len(e.a))}
	for i, x := range e.a {
		n.a[i] = exSubst(x, name, by)
	}
	return n
}

func exEval(e *Ex, val map[string]bool) bool {
	switch e.op {
	case "0":
		return false
	case "1":
		return true
	case "atom":
		return val[e.name]
	case "ite":
		if exEval(e.a[0], val) {
			return exEval(e.a[1], val)
		}
		return exEval(e.a[2], val)
	case "ap":
		i := 0
		if exEval(e.a[0], val) {
			i += 2
		}
		if exEval(e.a[1], val) {
			i++
		}
		return e.tt>>uint(i)&1 == 1
	case "sym":
		// symbolic operator: one atom per combination of operands
		i := 0
		if exEval(e.a[0], val) {
			i += 2
		}
		if exEval(e.a[1], val) {
			i++
		}
		return val[fmt.Sprintf("sym:%s:%d", e.name, i)]
	}
	panic("exEval " + e.op)
}

// ttKey is a canonical form: the support and the truth table over it.
func ttKey(e *Ex) (string, []string, int) {
	m := map[string]bool{}
	exAtoms(e, m)
	symAtoms(e, m)
	var names []string
	for n := range m {
		names = append(names, n)
	}
	sort.Strings(names)
	// remove the atoms that the function does not depend on
	for i := 0; i < len(names); {
		f0 := func(b bool) string { return ttBits(e, names, names[i], b) }
		if f0(false) == f0(true) {
			names = append(append([]string{}, names[:i]...), names[i+1:]...)
		} else {
			i++
		}
	}
	bits := ttBits(e, names, "", false)
	cst := -1
	if len(names) == 0 {
		cst = 0
		if bits == "1" {
			cst = 1
		}
	}
	return strings.Join(names, "&") + "#" + bits, names, cst
}

func symAtoms(e *Ex, m map[string]bool) {
	if e.op == "sym" {
		for i := 0; i < 4; i++ {
			m[fmt.Sprintf("sym:%s:%d", e.name, i)] = true
		}
	}
	for _, x := range e.a {
		symAtoms(x, m)
	}
}

func ttBits(e *Ex, names []string, fix string, v bool) string {
	var sb strings.Builder
	val := map[string]bool{}
	n := len(names)
	if n > 16 {
		return "too many atoms"
	}
	for i := 0; i < 1<<uint(n); i++ {
		skip := false
		for j, nm := range names {
			b := i>>uint(j)&1 == 1
			if nm == fix {
				if b {
					skip = true
				}
				b = v
			}
			val[nm] = b
		}
		if skip {
			continue
		}
		if exEval(e, val) {
			sb.WriteByte('1')
		} else {
			sb.WriteByte('0')
		}
	}
	return sb.String()
}

// push computes E(f) or R(f) for f without E and R inside.
func (v *evalCtx) push(op string, f *Ex, depth int) *Ex {
	key, names, cst := ttKey(f)
	if cst == 0 {
		return ex0
	}
	if cst == 1 {
		return ex1
	}
	d := v.d
	// functions of variables above the last one are not changed
	allAbove := true
	for _, n := range names {
		if strings.HasPrefix(n, "sym:") {
			continue
		}
		cl := d.classOfAtom(n)
		if cl < 0 || !d.ident[cl] {
			allAbove = false
		}
	}
	if allAbove {
		return f
	}
	if depth < 6 {
		for _, n := range names {
			if len(n) == 2 && n[0] == 'x' {
				cl := int(n[1] - '0')
				if op == "E" && !d.independent(names, cl) {
					continue
				}
				f0 := exSubst(f, n, ex0)
				f1 := exSubst(f, n, ex1)
				if op == "E" {
					in, known := d.members[cl]
					if !known {
						continue
					}
					e0, e1 := v.push(op, f0, depth+1), v.push(op, f1, depth+1)
					if in {
						return exAp(ttOr, e0, e1)
					}
					return exIte(exAtom(n), e1, e0)
				}
				// renaming of the variable of the class
				e0, e1 := v.push(op, f0, depth+1), v.push(op, f1, depth+1)
				return exIte(d.image(cl), e1, e0)
			}
		}
	}
	return exAtom(op + "[" + key + "]")
}

// independent: the atoms other than the variable of class cl do not depend on it.
func (d *den) independent(names []string, cl int) bool {
	for _, n := range names {
		if strings.HasPrefix(n, "sym:") {
			continue
		}
		if len(n) == 2 && n[0] == 'x' {
			continue
		}
		if !strings.HasPrefix(n, "lo:") && !strings.HasPrefix(n, "hi:") {
			return false
		}
		if k := d.classOfAtom(n); k < cl {
			return false
		}
	}
	return true
}

// classOfAtom gives the level class of the root of the node that an atom
// belongs to.
func (d *den) classOfAtom(n string) int {
	if len(n) == 2 && n[0] == 'x' {
		return int(n[1] - '0')
	}
	for p, cl := range d.class {
		s := p.String()
		if n == "lo:"+s || n == "hi:"+s || n == "p:"+s {
			return cl
		}
	}
	return -1
}

func (d *den) image(cl int) *Ex {
	return d.replaceImage(d.order[cl])
}

// same decides whether two functions are equal under the constraints of the
// path; a counterexample is returned otherwise.
func (d *den) same(a, b *Ex) (bool, string) {
	v := &evalCtx{atoms: map[string]int{}, d: d}
	na, nb := v.norm(a), v.norm(b)
	if d.err != "" {
		return false, d.err
	}
	m := map[string]bool{}
	exAtoms(na, m)
	exAtoms(nb, m)
	symAtoms(na, m)
	symAtoms(nb, m)
	var cons [][2]*Ex
	for _, q := range d.cons {
		x, y := v.norm(q[0]), v.norm(q[1])
		exAtoms(x, m)
		exAtoms(y, m)
		symAtoms(x, m)
		symAtoms(y, m)
		cons = append(cons, [2]*Ex{x, y})
	}
	var names []string
	for n := range m {
		names = append(names, n)
	}
	sort.Strings(names)
	if len(names) > 18 {
		return false, "too many atoms"
	}
	val := map[string]bool{}
	for i := 0; i < 1<<uint(len(names)); i++ {
		for j, n := range names {
			val[n] = i>>uint(j)&1 == 1
		}
		ok := true
		for _, q := range cons {
			if exEval(q[0], val) != exEval(q[1], val) {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		if exEval(na, val) != exEval(nb, val) {
			var s []string
			for _, n := range names {
				b := "0"
				if val[n] {
					b = "1"
				}
				s = append(s, n+"="+b)
			}
			return false, fmt.Sprintf("for %s the code gives %v instead of %v", strings.Join(s, " "), exEval(na, val), exEval(nb, val))
		}
	}
	return true, ""
}
