package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ctx is the analysis context of one build configuration.
type Ctx struct {
	sizeHook func(kind string, r *Run, o *Outcome, pos token.Pos, key string, n *Term, asked []*Term) // sees the sizes of the tables
	P        *Prog
	U        *Universe
	// initial values of the package variables
	Globals map[*ssa.Global]*Term
	InitMem map[*Term]*Term

	B, T   *Term // the BDD under analysis and its node table
	V      *Term // number of variables
	NodeTy types.Type

	nodesF              *types.Var // field of tables holding the slice of nodes
	levelF, lowF, highF *types.Var
	tablesF             *types.Var
	refstackF           *types.Var
	errorF              *types.Var
	varnumF             *types.Var
	varsetF             *types.Var
	apiModCache         *ModRef
	filled              map[*types.Var]bool // tables with at least one entry (C31)
	One, Zero           *Term               // value of the globals that hold the constants

	Makenode, Retnode *ssa.Function
	heads             map[*ssa.Function]*HeadAnalysis
	closures          map[*ssa.Function][]*closureCtx
	methods           map[string][]*Outcome
	runs              map[string]*Run
	Log               []string
	analysing         map[*ssa.Function]bool
	shared            map[string]interface{}
}

func NewCtx(cfg Config, dir string) (*Ctx, error) {
	p, err := LoadProg(dir, cfg)
	if err != nil {
		return nil, err
	}
	c := &Ctx{P: p, U: NewUniverse(), heads: map[*ssa.Function]*HeadAnalysis{}, methods: map[string][]*Outcome{}, runs: map[string]*Run{}, analysing: map[*ssa.Function]bool{}, shared: map[string]interface{}{}}
	var why string
	c.Globals, c.InitMem, why = p.interpInit(c.U)
	if why != "" {
		return nil, fmt.Errorf("%s", why)
	}
	if err := c.anchor(); err != nil {
		return nil, err
	}
	return c, nil
}

func (c *Ctx) structField(st *types.Struct, pred func(*types.Var) bool) *types.Var {
	for i := 0; i < st.NumFields(); i++ {
		if pred(st.Field(i)) {
			return st.Field(i)
		}
	}
	return nil
}

// anchor finds the elements of the code that the properties talk about, from
// the exported interface.
func (c *Ctx) anchor() error {
	p, u := c.P, c.U
	bn := p.typeNamed("BDD")
	if bn == nil {
		return fmt.Errorf("type BDD not found")
	}
	c.Makenode = p.method("BDD", "Makenode")
	c.Retnode = p.method("BDD", "Retnode")
	if c.Makenode == nil || c.Retnode == nil {
		return fmt.Errorf("methods Makenode and Retnode of BDD not found")
	}
	nt := p.typeNamed("Node")
	if nt == nil {
		return fmt.Errorf("type Node not found")
	}
	c.NodeTy = nt
	c.B = u.Param("b", types.NewPointer(bn))
	bs := structOf(bn)
	// the node table: the receiver of Retnode
	tt := c.Retnode.Signature.Recv().Type()
	c.tablesF = c.structField(bs, func(v *types.Var) bool { return types.Identical(v.Type(), tt) })
	if c.tablesF == nil {
		return fmt.Errorf("the node table of BDD was not found")
	}
	c.T = u.mk(OLoad, nil, 0, tt, nil, u.FA(c.B, c.tablesF))
	c.errorF = c.structField(bs, func(v *types.Var) bool { return types.TypeString(v.Type(), nil) == "error" })
	if c.errorF == nil {
		return fmt.Errorf("the error status of BDD was not found")
	}
	// fields by what the exported methods do
	nodeArg := u.Param("n", nt)
	find := func(m string) *Term {
		fn := p.method("BDD", m)
		if fn == nil {
			return nil
		}
		r := c.newRun()
		r.ReadHook = nil
		var got *Term
		outs := r.Exec(fn, []*Term{c.B, nodeArg}, c.rawState)
		for _, o := range outs {
			if o.Kind != OutReturn {
				continue
			}
			for _, e := range o.St.events() {
				if x := e.Args; e.Kind == EvRet && x[0].Op == OLoad && x[0].Args[0].Op == OFA && x[0].Args[0].Args[0].Op == OIA {
					got = x[0]
				}
			}
			if m != "Label" && len(o.Res) == 1 && o.Res[0].Op == OAlloc && got == nil {
				// a node that is not counted (this is refused elsewhere)
				if x := r.load(o.St, o.Res[0], types.Typ[types.Int]); x.Op == OLoad && x.Args[0].Op == OFA && x.Args[0].Args[0].Op == OIA {
					got = x
				}
			}
			if m == "Label" && len(o.Res) == 1 && !isIntConst(o.Res[0]) {
				x := o.Res[0]
				for x.Op == OConv {
					x = x.Args[0]
				}
				if x.Op == OLoad && x.Args[0].Op == OFA && x.Args[0].Args[0].Op == OIA {
					got = x
				}
			}
		}
		return got
	}
	for m, dst := range map[string]**types.Var{"Low": &c.lowF, "High": &c.highF, "Label": &c.levelF} {
		t := find(m)
		if t == nil {
			return fmt.Errorf("the field read by %s was not found", m)
		}
		*dst = t.Args[0].Aux.(*types.Var)
		sl := t.Args[0].Args[0].Args[0]
		if sl.Op != OLoad || sl.Args[0].Op != OFA {
			return fmt.Errorf("the table of nodes was not found (%v)", sl)
		}
		c.nodesF = sl.Args[0].Aux.(*types.Var)
	}
	if c.lowF == c.highF || c.lowF == c.levelF {
		return fmt.Errorf("fields of nodes not identified")
	}
	// number of variables: what Varnum returns
	{
		r := c.newRun()
		r.ReadHook = nil
		fn := p.method("BDD", "Varnum")
		if fn == nil {
			return fmt.Errorf("Varnum not found")
		}
		outs := r.Exec(fn, []*Term{c.B}, c.rawState)
		if len(outs) != 1 || outs[0].Kind != OutReturn {
			return fmt.Errorf("Varnum not understood")
		}
		x := outs[0].Res[0]
		for x.Op == OConv {
			x = x.Args[0]
		}
		if x.Op != OLoad || x.Args[0].Op != OFA {
			return fmt.Errorf("the number of variables was not found (%v)", x)
		}
		c.varnumF = x.Args[0].Aux.(*types.Var)
		c.V = x
	}
	// reference stack: what Initref writes
	{
		fn := p.method("BDD", "Initref")
		if fn == nil {
			return fmt.Errorf("Initref not found")
		}
		r := c.newRun()
		r.ReadHook = nil
		outs := r.Exec(fn, []*Term{c.B}, c.rawState)
		if len(outs) != 1 {
			return fmt.Errorf("Initref not understood")
		}
		for _, e := range outs[0].St.events() {
			if e.Kind == EvStore && e.Addr.Op == OFA && e.Addr.Args[0] == c.B {
				c.refstackF = e.Addr.Aux.(*types.Var)
			}
		}
		if c.refstackF == nil {
			return fmt.Errorf("the reference stack was not found")
		}
	}
	// constants: what True and False return
	for m, dst := range map[string]**Term{"True": &c.One, "False": &c.Zero} {
		fn := p.method("BDD", m)
		if fn == nil {
			return fmt.Errorf("%s not found", m)
		}
		outs := c.newRun().Exec(fn, []*Term{c.B}, c.rawState)
		if len(outs) == 1 && outs[0].Kind == OutReturn {
			*dst = outs[0].Res[0]
		}
		if *dst == nil {
			return fmt.Errorf("%s not understood", m)
		}
	}
	return nil
}

// newRun makes a run with the standard treatment of the node table: nodes are
// built by Makenode and handed out by Retnode.
func (c *Ctx) newRun() *Run {
	r := NewRun(c.P, c.U)
	r.globals = c.Globals
	r.init = c.InitMem
	r.ReadHook = c.nodeRead
	r.OnAtom = c.nodeAtom
	r.Intercept = c.intercept
	r.Preserved = c.preserved
	r.APIMod = c.apiMod
	r.OnEvent = c.onEvent
	r.OnClosure = c.onClosure
	r.HeadRes = c.pureRes
	return r
}

// onEvent records whether an index is known to be in range.
func (c *Ctx) onEvent(r *Run, st *State, e *Event) {
	if e.Kind == EvMake {
		// a negative length panics
		if e.Name = "?"; r.decideLE(st, c.U.Int(0), e.Args[0]) == yes {
			e.Name = "ok"
		}
		return
	}
	if e.Kind != EvIndex {
		return
	}
	e.Name = "?"
	e.Neg = r.decideLE(st, c.U.Int(0), e.Args[1]) != yes
	if !e.Neg && r.decideLE(st, c.U.AddK(e.Args[1], 1), e.Args[2]) == yes {
		e.Name = "ok"
	}
}

func (c *Ctx) rawState() *State {
	r := NewRun(c.P, c.U)
	return r.NewState()
}

// newState is the state at the entry of an operation.
func (c *Ctx) newState() *State {
	st := c.rawState()
	if c.V != nil {
		z := st.zone
		i := z.idx(c.V)
		z.addLE(0, i, -1) // at least one variable
		z.addLE(i, 0, 1<<21-1)
	}
	return st
}

// nodeRead gives a canonical name to the contents of nodes: while a node is in
// use its level and successors do not change (C14, C29).
func (c *Ctx) nodeRead(r *Run, st *State, addr *Term) *Term {
	if isRetTerm(addr) {
		return addr.Args[0]
	}
	if addr.Op != OFA || addr.Args[0].Op != OIA {
		return nil
	}
	f := addr.Aux.(*types.Var)
	if f != c.levelF && f != c.lowF && f != c.highF {
		return nil
	}
	base := addr.Args[0].Args[0]
	if base.Op != OLoad || base.Args[0].Op != OFA || base.Args[0].Aux != c.nodesF {
		return nil
	}
	i := addr.Args[0].Args[1]
	return c.nodeField(r, st, f, i)
}

func (c *Ctx) nodeField(r *Run, st *State, f *types.Var, i *Term) *Term {
	if !isIntConst(i) && st != nil {
		if lo, hi := r.bounds(st, i); lo == hi {
			i = c.U.Int(lo)
		}
	}
	if isIntConst(i) && (i.K == 0 || i.K == 1) {
		if f == c.levelF {
			return c.V
		}
		return i
	}
	return c.U.mk(OField, f, 0, f.Type(), nil, i)
}

func (c *Ctx) lvl(i *Term) *Term  { return c.nodeField(nil, nil, c.levelF, i) }
func (c *Ctx) low(i *Term) *Term  { return c.nodeField(nil, nil, c.lowF, i) }
func (c *Ctx) high(i *Term) *Term { return c.nodeField(nil, nil, c.highF, i) }

func (c *Ctx) isNodeField(t *Term, f *types.Var) bool { return t.Op == OField && t.Aux == f }

// nodeAtom adds what holds of the contents of every node in use.
func (c *Ctx) nodeAtom(r *Run, st *State, t *Term) {
	if t.Op == OField && (t.Aux == c.levelF || t.Aux == c.lowF || t.Aux == c.highF) {
		// the same field of the same node
		for _, s := range st.zone.list {
			if s != nil && s != t && s.Op == OField && s.Aux == t.Aux && s.Args[0] != t.Args[0] &&
				st.zone.queryEQ(c.U.lin(c.U.Sub(s.Args[0], t.Args[0]))) == yes {
				r.assumeEQ(st, s, t)
			}
		}
	}
	switch {
	case c.isNodeField(t, c.levelF):
		r.assumeLE(st, c.U.Int(0), t)
		r.assumeLE(st, t, c.V)
	case c.isNodeField(t, c.lowF), c.isNodeField(t, c.highF):
		r.assumeLE(st, c.U.Int(0), t)
	case t == c.V:
		r.assumeLE(st, c.U.Int(1), t)
	case t.Op == OLen && c.isTableLen(t):
		// the constants (C15, C24)
		r.assumeLE(st, c.U.Int(2), t)
	case t.Op == OLen && fieldLoad(t.Args[0], c.filled):
		r.assumeLE(st, c.U.Int(1), t)
	case t.Op == OMk, t.Op == OHead && isIntType(t.T):
		r.assumeLE(st, c.U.Int(-1), t)
	}
}

// preserved lists the cells of the BDD that a recursive call is known to leave
// unchanged.
func (c *Ctx) preserved(fn *ssa.Function) []*Term {
	key := "preserved:" + fn.String()
	if _, ok := c.shared[key]; !ok && !c.analysing[fn] && c.V != nil {
		c.head(fn)
	}
	if l, ok := c.shared[key].([]*Term); ok {
		return l
	}
	return nil
}

// intercept replaces the kernel functions by what they stand for.
func (c *Ctx) intercept(r *Run, st *State, fn *ssa.Function, args []*Term, instr ssa.Instruction, k func(*State, []*Term)) bool {
	u := c.U
	switch {
	case fn == c.Makenode && r.Entry != c.Makenode:
		seq := u.fresh()
		res := u.mk(OMk, nil, seq, types.Typ[types.Int], nil, args[1:]...)
		r.event(st, &Event{Kind: EvMk, Fn: fn, Args: args[1:], Val: res, Instr: instr, Mem: copyMem(st.mem), Zone: st.zone.Clone()})
		r.havocCall(st, c.P.modref(fn))
		// propagation of errors
		k(st, []*Term{res})
		return true
	case fn == c.Retnode && r.Entry != c.Retnode:
		n := args[1]
		r.event(st, &Event{Kind: EvRet, Fn: fn, Args: []*Term{n}, Instr: instr, Zone: st.zone.Clone()})
		st2 := st.clone()
		neg := r.cmpLT(st, n, u.Int(0))
		if t := r.truth(st, neg); t != no {
			if r.assume(st, neg, true) && !st.dead {
				k(st, []*Term{u.Nil()})
			}
		}
		neg2 := r.cmpLT(st2, n, u.Int(0))
		if t := r.truth(st2, neg2); t != yes {
			if r.assume(st2, neg2, false) && !st2.dead {
				k(st2, []*Term{c.retTerm(n)})
			}
		}
		return true
	}
	return false
}

func (r *Run) cmpLT(st *State, a, b *Term) *Term { return r.not(r.le(st, b, a)) }

// retTerm is the node handed out for id n.
func (c *Ctx) retTerm(n *Term) *Term {
	t := c.U.mk(OIface, "node", 0, c.NodeTy, nil, n)
	return t
}

// isRet: t was handed out by Retnode.
func isRetTerm(t *Term) bool { return t.Op == OIface && t.Aux == "node" }

// apiMod is the union of what exported functions other than New may write.
func (c *Ctx) apiMod() *ModRef {
	if c.apiModCache != nil {
		return c.apiModCache
	}
	m := newModRef()
	for _, f := range c.apiFuncs() {
		if f.Name() == "New" {
			continue
		}
		fm := c.P.modref(f)
		for k := range fm.Mod {
			m.Mod[k] = true
		}
		for k := range fm.Ref {
			m.Ref[k] = true
		}
	}
	c.apiModCache = m
	return m
}

// apiFuncs lists the exported functions and methods.
func (c *Ctx) apiFuncs() []*ssa.Function {
	var res []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		if f.Parent() != nil || f.Object() == nil || f.Synthetic != "" {
			continue
		}
		if !f.Object().Exported() {
			continue
		}
		if rv := f.Signature.Recv(); rv != nil {
			t := derefType(rv.Type())
			n, ok := t.(*types.Named)
			if !ok {
				continue
			}
			if !n.Obj().Exported() && !types.Identical(derefType(c.tablesType()), t) {
				// reachable through an exported interface or promotion
				if !c.promoted(f) {
					continue
				}
			}
		}
		if !seen[f] {
			seen[f] = true
			res = append(res, f)
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].Pos() < res[j].Pos() })
	return res
}

func (c *Ctx) promoted(f *ssa.Function) bool {
	// methods of unexported types: usable through an interface
	return true
}

func (c *Ctx) tablesType() types.Type {
	return c.Retnode.Signature.Recv().Type()
}

func (c *Ctx) bddMethods() []*ssa.Function {
	var res []*ssa.Function
	for _, f := range c.apiFuncs() {
		if rv := f.Signature.Recv(); rv != nil && types.Identical(rv.Type(), c.B.T) {
			res = append(res, f)
		}
	}
	return res
}

func trimPkg(s string) string { return strings.ReplaceAll(s, "github.com/dalzilio/rudd.", "") }
