package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- memory

type write struct {
	addr, val *Term
	seq       int64
}

// classMem is the history of a class since it was last forgotten.
type classMem struct {
	base   int64
	writes []write
}

type evKind int

const (
	EvStore     evKind = iota // Addr, Val
	EvLoad                    // Addr, Val (only when recorded)
	EvCall                    // opaque call: Name, Fn, Args, Val
	EvHead                    // call of a recursive function: Fn, Args, Val
	EvMk                      // node construction: Args, Val
	EvRet                     // hand-out of a node: Args, Val
	EvLock                    // Name = Lock, Unlock, RLock, RUnlock; Addr = mutex
	EvMapSet                  // Args = map, key, value
	EvMapDel                  // Args = map, key
	EvMapGet                  // Args = map, key; Val
	EvIndex                   // Args = base, index, length
	EvLoopEnter               // Loop
	EvLoopBack                // Loop
	EvLoopExit                // Loop
	EvEnter                   // inlined call: Fn, Args
	EvLeave                   // return of an inlined call: Fn, Args = results
	EvCallback                // call of an unknown function: Args, Val
	EvAppend                  // Args = base, new value; Val = result
	EvMake                    // make slice: Args = len, cap; Val
	EvNote                    // anything else worth a remark: Name
	EvSlice                   // Args = base, low, high; Val
)

type Event struct {
	Kind  evKind
	Name  string
	Fn    *ssa.Function
	Addr  *Term
	Val   *Term
	Args  []*Term
	Instr ssa.Instruction
	In    *ssa.Function // function whose body raised it
	Loop  *LoopInst
	Seq   int64
	Mem   map[Class]*classMem // memory when it happened (heads, callbacks, mk)
	Zone  *Zone
	Locks string // locks held
	Held  []lockHeld
	Depth int
	Neg   bool // the index may be negative
}

type evNode struct {
	ev   *Event
	prev *evNode
	n    int
}

// LoopInst is one execution of a loop on a path.
type LoopInst struct {
	Loop   *Loop
	Fn     *ssa.Function
	ID     int64
	Init   map[*ssa.Phi]*Term
	Phi    map[*ssa.Phi]*Term
	Next   map[*ssa.Phi]*Term  // at the back edge (LoopBack outcomes)
	Pre    *State              // state before the loop
	Head   map[Class]*classMem // memory at the start of a turn
	Frame  *Frame
	Unroll bool
	Count  int
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	base   map[ssa.Value]*Term
	parent *Frame
	call   ssa.Instruction
	id     int64
	depth  int
}

type deferred struct {
	call *ssa.Defer
	fn   *Term // callee value for dynamic calls
	args []*Term
	next *deferred
}

type State struct {
	mem    map[Class]*classMem
	zone   *Zone
	facts  map[*Term]bool
	ev     *evNode
	defers map[int64]*deferred
	loops  *loopStack
	locks  []lockHeld
	alloc  map[*Term]bool // zero-initialised fresh objects of this path
	lens   map[*Term]*Term
	lins   []*Term // linear terms known to be at most 0, beyond what the zone represents
	path   *pathNode
	dead   bool
	tags   map[string]*Term
	envs   map[int64]map[ssa.Value]*Term // values in the current turn of unrolled loops, by frame
}

type pathNode struct {
	s    string
	prev *pathNode
}

type lockHeld struct {
	mu   *Term
	mode byte // 'W' or 'R'
}

type loopStack struct {
	inst  *LoopInst
	frame int64
	next  *loopStack
}

func (s *State) clone() *State {
	n := &State{zone: s.zone.Clone(), ev: s.ev, loops: s.loops, path: s.path, dead: s.dead, envs: s.envs, lins: s.lins}
	n.mem = make(map[Class]*classMem, len(s.mem))
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.facts = make(map[*Term]bool, len(s.facts))
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.defers = make(map[int64]*deferred, len(s.defers))
	for k, v := range s.defers {
		n.defers[k] = v
	}
	n.locks = append([]lockHeld{}, s.locks...)
	n.alloc = make(map[*Term]bool, len(s.alloc))
	for k, v := range s.alloc {
		n.alloc[k] = v
	}
	n.lens = make(map[*Term]*Term, len(s.lens))
	for k, v := range s.lens {
		n.lens[k] = v
	}
	n.tags = make(map[string]*Term, len(s.tags))
	for k, v := range s.tags {
		n.tags[k] = v
	}
	return n
}

func copyMem(m map[Class]*classMem) map[Class]*classMem {
	n := make(map[Class]*classMem, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (s *State) events() []*Event {
	if s.ev == nil {
		return nil
	}
	r := make([]*Event, s.ev.n)
	for e, i := s.ev, s.ev.n-1; e != nil; e, i = e.prev, i-1 {
		r[i] = e.ev
	}
	return r
}

func (s *State) pathString() string {
	var l []string
	for p := s.path; p != nil; p = p.prev {
		l = append(l, p.s)
	}
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	if len(l) > 40 {
		l = append(append([]string{}, l[:20]...), append([]string{"..."}, l[len(l)-20:]...)...)
	}
	return strings.Join(l, "; ")
}

type outKind int

const (
	OutReturn outKind = iota
	OutPanic
	OutLoopBack
	OutUndecided
)

func (k outKind) String() string {
	return [...]string{"return", "panic", "loop-back", "undecided"}[k]
}

type Outcome struct {
	Kind outKind
	Res  []*Term
	St   *State
	Why  string
	Loop *LoopInst
	Pos  token.Pos
}

// ---------------------------------------------------------------- runs

type headInfo struct {
	Fn *ssa.Function
}

type loopCand struct {
	phi  *ssa.Phi
	kind string
	dead bool
}

// Run is one abstract interpretation of an entry point.
type Run struct {
	P *Prog
	U *Universe

	Entry     *ssa.Function
	Intercept func(r *Run, st *State, fn *ssa.Function, args []*Term, instr ssa.Instruction, k func(*State, []*Term)) bool
	IsHead    func(fn *ssa.Function) bool
	HeadRes   func(r *Run, st *State, fn *ssa.Function, args []*Term, res []*Term)
	ReadHook  func(r *Run, st *State, addr *Term) *Term
	OnEvent   func(r *Run, st *State, e *Event)
	OnClosure func(r *Run, st *State, fn *ssa.Function, bind []*Term) // recursive closure, called from outside
	OnAtom    func(r *Run, st *State, t *Term)
	OnLoop    func(r *Run, st *State, li *LoopInst)
	Preserved func(fn *ssa.Function) []*Term // cells that a recursive call leaves unchanged
	KeepClass map[Class]bool                 // classes that calls and loops do not change
	APIMod    func() *ModRef                 // effect of unknown code
	Loads     bool                           // record loads
	Snap      bool                           // record the memory before each store
	MaxPaths  int
	MaxUnroll int
	NoUnroll  bool // loops between two constants are not special
	NoInline  map[*ssa.Function]bool
	EntryRec  map[*ssa.Function]bool

	Out     []*Outcome
	npaths  int
	cands   map[*ssa.Phi][]*loopCand
	change  bool
	abort   string
	atoms   map[*Zone]map[*Term]bool
	nalloc  int64
	init    map[*Term]*Term
	Funcs   map[*ssa.Function]bool
	NInstr  int
	globals map[*ssa.Global]*Term
}

func NewRun(p *Prog, u *Universe) *Run {
	return &Run{P: p, U: u, MaxPaths: 60000, MaxUnroll: 0, Funcs: map[*ssa.Function]bool{}, cands: map[*ssa.Phi][]*loopCand{}, EntryRec: map[*ssa.Function]bool{}}
}

func (r *Run) NewState() *State {
	return &State{mem: map[Class]*classMem{}, zone: NewZone(), facts: map[*Term]bool{}, defers: map[int64]*deferred{}, alloc: map[*Term]bool{}, lens: map[*Term]*Term{}, tags: map[string]*Term{}}
}

// Exec interprets fn on args from st and collects the outcomes; candidate loop
// invariants are refined until they are inductive.
func (r *Run) Exec(fn *ssa.Function, args []*Term, mk func() *State) []*Outcome {
	r.Entry = fn
	for iter := 0; iter < 12; iter++ {
		r.Out = nil
		r.change = false
		r.npaths = 0
		r.abort = ""
		if r.OnClosure != nil {
			r.OnClosure(r, nil, nil, nil)
		}
		st := mk()
		r.EntryRec[fn] = true
		r.call(fn, args, st, nil, nil, func(st *State, res []*Term) {
			r.out(&Outcome{Kind: OutReturn, Res: res, St: st})
		})
		if !r.change {
			break
		}
	}
	if r.abort != "" {
		r.Out = append(r.Out, &Outcome{Kind: OutUndecided, Why: r.abort, St: r.NewState()})
	}
	return r.Out
}

func (r *Run) out(o *Outcome) {
	r.npaths++
	if r.npaths > r.MaxPaths {
		r.abort = fmt.Sprintf("more than %d abstract paths in %s", r.MaxPaths, fname(r.Entry))
		return
	}
	r.Out = append(r.Out, o)
}

func (r *Run) undecided(st *State, pos token.Pos, why string) {
	r.out(&Outcome{Kind: OutUndecided, Why: why + " at " + r.P.pos(pos), St: st, Pos: pos})
}

func (r *Run) event(st *State, e *Event) {
	e.Seq = r.U.fresh()
	n := 1
	if st.ev != nil {
		n = st.ev.n + 1
	}
	var l []string
	for _, h := range st.locks {
		l = append(l, h.mu.String()+":"+string(h.mode))
	}
	sort.Strings(l)
	e.Locks = strings.Join(l, ",")
	e.Held = st.locks
	if r.OnEvent != nil {
		r.OnEvent(r, st, e)
	}
	st.ev = &evNode{e, st.ev, n}
}

// ---------------------------------------------------------------- memory access

// termClass gives the class of an address term.
func termClass(a *Term) Class {
	switch a.Op {
	case OFA:
		return a.Aux.(*types.Var)
	case OIA:
		return elemClass(derefType(a.T))
	case OGlobal:
		return a.Aux.(*ssa.Global)
	case OAlloc:
		if ai, ok := a.Aux.(*allocInfo); ok && ai.Instr != nil {
			if al, ok := ai.Instr.(*ssa.Alloc); ok {
				return al
			}
		}
	}
	if a.T == nil {
		return "cell:?"
	}
	return cellClass(derefType(a.T))
}

func rootOf(a *Term) *Term {
	for a.Op == OFA || a.Op == OIA || a.Op == OSlice {
		a = a.Args[0]
	}
	return a
}

// mayAlias decides whether two addresses of the same class are the same.
func (r *Run) alias(st *State, a, b *Term) tri {
	if a == b {
		return yes
	}
	if a.Op != b.Op {
		return r.rootAlias(rootOf(a), rootOf(b))
	}
	switch a.Op {
	case OGlobal:
		return no
	case OFA:
		if a.Aux != b.Aux {
			return no
		}
		return r.alias(st, a.Args[0], b.Args[0])
	case OIA:
		ib := r.decideEQ(st, a.Args[1], b.Args[1])
		if ib == no && a.Args[0] == b.Args[0] {
			return no
		}
		ba := r.alias(st, a.Args[0], b.Args[0])
		if ba == no {
			return no
		}
		if ba == yes {
			return ib
		}
		return unknown
	}
	return r.rootAlias(a, b)
}

func (r *Run) rootAlias(a, b *Term) tri {
	if a == b {
		return yes
	}
	if a.Op == OAlloc && b.Op == OAlloc {
		return no
	}
	if a.Op == OGlobal || b.Op == OGlobal {
		return no
	}
	if b.Op == OAlloc {
		a, b = b, a
	}
	if a.Op == OAlloc {
		if b.Op == OParam && r.newAlloc(a) {
			return no
		}
		if b.Op == OLoad && b.K < a.K && r.newAlloc(a) {
			return no
		}
		if b.Op == OAppend || b.Op == OAppendS {
			return unknown
		}
		return unknown
	}
	if a.Op == OParam && b.Op == OParam && a.T != nil && b.T != nil && !types.Identical(a.T, b.T) {
		return no
	}
	return unknown
}

func (r *Run) classOf(st *State, c Class) *classMem {
	m := st.mem[c]
	if m == nil {
		m = &classMem{}
		st.mem[c] = m
	}
	return m
}

func (r *Run) store(st *State, addr, val *Term, t types.Type, instr ssa.Instruction, fn *ssa.Function) {
	if s := structOf(t); s != nil && !isOpaqueStruct(t) {
		for i := 0; i < s.NumFields(); i++ {
			r.store(st, r.U.FA(addr, s.Field(i)), r.field(st, val, s, i), s.Field(i).Type(), instr, fn)
		}
		return
	}
	if a, ok := t.Underlying().(*types.Array); ok && a.Len() <= 64 {
		for i := int64(0); i < a.Len(); i++ {
			r.store(st, r.U.IA(addr, r.U.Int(i), a.Elem()), r.elem(st, val, r.U.Int(i), a.Elem()), a.Elem(), instr, fn)
		}
		return
	}
	c := termClass(addr)
	old := r.classOf(st, c)
	seq := r.U.fresh()
	n := &classMem{base: old.base, writes: make([]write, len(old.writes), len(old.writes)+1)}
	copy(n.writes, old.writes)
	n.writes = append(n.writes, write{addr, val, seq})
	e := &Event{Kind: EvStore, Addr: addr, Val: val, Instr: instr, In: fn}
	if r.Snap {
		e.Mem = copyMem(st.mem)
	}
	st.mem[c] = n
	r.event(st, e)
}

func (r *Run) load(st *State, addr *Term, t types.Type) *Term {
	if s := structOf(t); s != nil && !isOpaqueStruct(t) {
		args := make([]*Term, s.NumFields())
		for i := range args {
			args[i] = r.load(st, r.U.FA(addr, s.Field(i)), s.Field(i).Type())
		}
		return r.U.mk(OStruct, typeKey(t), 0, t, nil, args...)
	}
	if a, ok := t.Underlying().(*types.Array); ok && a.Len() <= 64 {
		args := make([]*Term, a.Len())
		for i := range args {
			args[i] = r.load(st, r.U.IA(addr, r.U.Int(int64(i)), a.Elem()), a.Elem())
		}
		return r.U.mk(OArr, typeKey(t), 0, t, nil, args...)
	}
	if r.ReadHook != nil {
		if v := r.ReadHook(r, st, addr); v != nil {
			return v
		}
	}
	return r.loadMem(st, st.mem, addr, t)
}

func typeKey(t types.Type) string { return types.TypeString(t, nil) }

func (r *Run) loadMem(st *State, mem map[Class]*classMem, addr *Term, t types.Type) *Term {
	c := termClass(addr)
	m := mem[c]
	if m == nil {
		m = &classMem{}
	}
	if r.init != nil && addr.Op == OIA && len(r.P.constLists) > 0 && r.P.constLists[rootOf(addr)] {
		if v, ok := r.init[addr]; ok {
			return v
		}
	}
	for i := len(m.writes) - 1; i >= 0; i-- {
		w := m.writes[i]
		switch r.alias(st, w.addr, addr) {
		case yes:
			return w.val
		case unknown:
			return r.U.mk(OLoad, nil, w.seq, t, nil, addr)
		}
	}
	if root := rootOf(addr); root.Op == OAlloc && root.K > m.base {
		if st.alloc[root] {
			return r.zero(t)
		}
	}
	if addr.Op == OGlobal && r.globals != nil && m.base == 0 {
		if v, ok := r.globals[addr.Aux.(*ssa.Global)]; ok {
			return v
		}
	}
	if root := rootOf(addr); root.Op == OGlobal && r.init != nil && m.base == 0 {
		if v, ok := r.init[addr]; ok {
			return v
		}
	}
	if addr.Op == OAlloc && r.init != nil && m.base == 0 {
		if v, ok := r.init[addr]; ok {
			return v
		}
	}
	return r.U.mk(OLoad, nil, m.base, t, nil, addr)
}

func (r *Run) havoc(st *State, c Class) {
	st.mem[c] = &classMem{base: r.U.fresh()}
}

// havocCall forgets what a call may write; the variables whose address goes
// nowhere keep their contents.
func (r *Run) havocCall(st *State, m *ModRef) {
	r.havocLocal(st, m, func(*ssa.Alloc) bool { return false })
}

// writes: a store in the loop is to a part of that variable.
func (l *Loop) writes(al *ssa.Alloc) bool {
	for b := range l.Blocks {
		for _, i := range b.Instrs {
			if i == ssa.Instruction(al) {
				return true
			}
			s, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			for v := s.Addr; v != nil; {
				switch x := v.(type) {
				case *ssa.IndexAddr:
					v = x.X
				case *ssa.FieldAddr:
					v = x.X
				case *ssa.Slice:
					v = x.X
				case *ssa.Alloc:
					if x == al {
						return true
					}
					v = nil
				default:
					v = nil
				}
			}
		}
	}
	return false
}

func (r *Run) havocLocal(st *State, m *ModRef, written func(*ssa.Alloc) bool) {
	r.havocBut(st, m, func(in ssa.Instruction) bool { return r.P.stays(in) && !written(in.(*ssa.Alloc)) })
}

// havocElems forgets the elements of slices that a copy may write: those of the
// variables that no slice is made of are kept.
func (r *Run) havocElems(st *State, m *ModRef) {
	r.havocBut(st, m, r.P.unsliced)
}

func (r *Run) havocBut(st *State, m *ModRef, kept func(ssa.Instruction) bool) {
	pre := st.mem
	st.mem = copyMem(st.mem)
	r.havocSet(st, m, nil)
	for c, n := range st.mem {
		o := pre[c]
		if o == nil || o == n {
			continue
		}
		var keep []write
		for _, w := range o.writes {
			root := rootOf(w.addr)
			if root.Op == OAlloc && r.newAlloc(root) {
				if ai, ok := root.Aux.(*allocInfo); ok && kept(ai.Instr) {
					keep = append(keep, w)
				}
			}
		}
		if len(keep) > 0 {
			st.mem[c] = &classMem{base: n.base, writes: append(keep, n.writes...)}
		}
	}
}

// stays: the address of the variable is only used to read and write it, in the
// function that declares it.
func (p *Prog) stays(in ssa.Instruction) bool {
	al, ok := in.(*ssa.Alloc)
	if !ok {
		return false
	}
	if p.local == nil {
		p.local = map[*ssa.Alloc]bool{}
	}
	if r, ok := p.local[al]; ok {
		return r
	}
	good := true
	seen := map[ssa.Value]bool{}
	var look func(v ssa.Value)
	look = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		for _, i := range *v.Referrers() {
			switch i := i.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
				if i.Op != token.MUL {
					good = false
				}
			case *ssa.Store:
				if i.Addr != v {
					good = false
				}
			case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Slice:
				look(i.(ssa.Value))
			case ssa.CallInstruction:
				if b, ok := i.Common().Value.(*ssa.Builtin); !ok || b.Name() != "len" && b.Name() != "cap" {
					good = false
				}
			default:
				good = false
			}
		}
	}
	look(al)
	p.local[al] = good
	return good
}

// unsliced: the variable is only read and written, in the function that declares
// it and in the functions inside; no slice is made of it.
func (p *Prog) unsliced(in ssa.Instruction) bool {
	al, ok := in.(*ssa.Alloc)
	if !ok {
		return false
	}
	if p.whole == nil {
		p.whole = map[*ssa.Alloc]bool{}
	}
	if r, ok := p.whole[al]; ok {
		return r
	}
	good := true
	seen := map[ssa.Value]bool{}
	var look func(v ssa.Value)
	look = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		for _, i := range *v.Referrers() {
			switch i := i.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
				good = good && i.Op == token.MUL
			case *ssa.Store:
				good = good && i.Addr == v
			case *ssa.IndexAddr, *ssa.FieldAddr:
				look(i.(ssa.Value))
			case *ssa.MakeClosure:
				g := i.Fn.(*ssa.Function)
				for k, b := range i.Bindings {
					if b == v {
						look(g.FreeVars[k])
					}
				}
			default:
				good = false
			}
		}
	}
	look(al)
	p.whole[al] = good
	return good
}

func (r *Run) havocSet(st *State, m *ModRef, keep map[Class]bool) {
	// all the classes forgotten together share the same number
	seq := r.U.fresh()
	havoc := func(c Class) { st.mem[c] = &classMem{base: seq} }
	if m.All {
		// unknown code can only use the exported interface
		if r.APIMod != nil {
			for c := range r.APIMod().Mod {
				if _, ok := c.(*ssa.Alloc); ok {
					continue // a variable of another activation
				}
				if !keep[c] && !r.KeepClass[c] {
					havoc(c)
				}
			}
		} else {
			for _, c := range r.P.allClasses() {
				if !keep[c] && !r.KeepClass[c] {
					havoc(c)
				}
			}
		}
	}
	var cs []Class
	for c := range m.Mod {
		cs = append(cs, c)
	}
	for _, c := range cs {
		if keep[c] || r.KeepClass[c] {
			continue
		}
		havoc(c)
	}
}

// allClasses lists the struct fields of the package and the written classes.
func (p *Prog) allClasses() []Class {
	if p.classes != nil {
		return p.classes
	}
	set := map[Class]bool{}
	for _, n := range p.Types.Scope().Names() {
		if tn, ok := p.Types.Scope().Lookup(n).(*types.TypeName); ok {
			if s := structOf(tn.Type()); s != nil {
				for i := 0; i < s.NumFields(); i++ {
					set[s.Field(i)] = true
				}
			}
		}
	}
	for _, f := range p.Funcs {
		for c := range p.modref(f).Mod {
			switch c := c.(type) {
			case *ssa.Alloc:
			case *ssa.Global:
				if f.Name() != "init" {
					set[c] = true
				}
			default:
				set[c] = true
			}
		}
	}
	for c := range set {
		p.classes = append(p.classes, c)
	}
	return p.classes
}

func (r *Run) zero(t types.Type) *Term {
	switch b := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsInteger != 0:
			return r.U.Int(0)
		case b.Info()&types.IsBoolean != 0:
			return r.U.Bool(false)
		case b.Info()&types.IsString != 0:
			return r.U.Str("")
		}
		return r.U.mk(OZero, typeKey(t), 0, t, nil)
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return r.U.Nil()
	}
	return r.U.mk(OZero, typeKey(t), 0, t, nil)
}

func (r *Run) field(st *State, v *Term, s *types.Struct, i int) *Term {
	if v.Op == OStruct {
		return v.Args[i]
	}
	if v.Op == OZero {
		return r.zero(s.Field(i).Type())
	}
	return r.U.mk(OField, s.Field(i), 0, s.Field(i).Type(), nil, v)
}

func (r *Run) elem(st *State, v, idx *Term, t types.Type) *Term {
	if v.Op == OArr && isIntConst(idx) && idx.K >= 0 && idx.K < int64(len(v.Args)) {
		return v.Args[idx.K]
	}
	if v.Op == OZero {
		return r.zero(t)
	}
	return r.U.mk(OElem, nil, 0, t, nil, v, idx)
}

// ---------------------------------------------------------------- facts

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// atomise declares the integer atoms of a linear form in the zone and adds what
// their types and definitions tell.
func (r *Run) atomise(st *State, l linForm) {
	for t := range l.coef {
		r.declare(st, t)
	}
}

func (r *Run) declare(st *State, t *Term) {
	if _, ok := st.zone.vars[t]; ok {
		return
	}
	z := st.zone
	i := z.idx(t)
	if b, ok := basicOf(t.T); ok {
		switch b.Kind() {
		case types.Uint, types.Uint64, types.Uintptr:
			z.addLE(0, i, 0)
		case types.Uint8:
			z.addLE(0, i, 0)
			z.addLE(i, 0, 255)
		case types.Uint16:
			z.addLE(0, i, 0)
			z.addLE(i, 0, 65535)
		case types.Uint32:
			z.addLE(0, i, 0)
			z.addLE(i, 0, 1<<32-1)
		case types.Int32:
			z.addLE(0, i, 1<<31)
			z.addLE(i, 0, 1<<31-1)
		case types.Int16:
			z.addLE(0, i, 1<<15)
			z.addLE(i, 0, 1<<15-1)
		case types.Int8:
			z.addLE(0, i, 128)
			z.addLE(i, 0, 127)
		}
	}
	switch t.Op {
	case OLen:
		z.addLE(0, i, 0)
	case OBin:
		x, y := t.Args[0], t.Args[1]
		switch t.Aux {
		case "%":
			ylo, _ := r.bounds(st, y)
			xlo, _ := r.bounds(st, x)
			if ylo > 0 {
				// x % y < y
				r.assumeLE(st, r.U.AddK(t, 1), y)
				if xlo >= 0 {
					z.addLE(0, i, 0)
					r.assumeLE(st, t, x)
				}
			} else if isUnsigned(t.T) {
				// the divisor is not zero or the program panics
				r.assumeLE(st, r.U.AddK(t, 1), y)
			}
		case "&":
			for _, w := range []*Term{x, y} {
				if lo, hi := r.bounds(st, w); lo >= 0 {
					z.addLE(0, i, 0)
					if hi < inf {
						z.addLE(i, 0, hi)
					}
					r.assumeLE(st, t, w)
				}
			}
		case "/":
			xlo, xhi := r.bounds(st, x)
			ylo, _ := r.bounds(st, y)
			if xlo >= 0 && ylo > 0 {
				z.addLE(0, i, 0)
				if xhi < inf {
					z.addLE(i, 0, xhi/ylo)
				}
				r.assumeLE(st, t, x)
			}
		case ">>":
			xlo, xhi := r.bounds(st, x)
			if xlo >= 0 {
				z.addLE(0, i, 0)
				if xhi < inf {
					if isIntConst(y) && y.K < 63 {
						z.addLE(i, 0, xhi>>uint(y.K))
					} else {
						z.addLE(i, 0, xhi)
					}
				}
			}
		case "<<", "|", "*":
			xlo, _ := r.bounds(st, x)
			ylo, _ := r.bounds(st, y)
			if xlo >= 0 && ylo >= 0 {
				z.addLE(0, i, 0)
				if t.Aux == "|" {
					r.assumeLE(st, x, t)
					r.assumeLE(st, y, t)
				}
			}
			if t.Aux == "|" && !isUnsigned(t.T) {
				// setting bits other than the sign
				for _, w := range [][2]*Term{{x, y}, {y, x}} {
					if k := w[1]; isIntConst(k) && k.K >= 0 {
						r.assumeLE(st, w[0], t)
						r.assumeLE(st, t, r.U.AddK(w[0], k.K))
					}
				}
			}
		}
	case OConv:
		// widening or in-range conversions keep the value
		xlo, xhi := r.bounds(st, t.Args[0])
		lo, hi := typeRange(t.T)
		if xlo >= lo && xhi <= hi && r.convFits(st, t.Args[0], t.T, t.Args[0].T) {
			r.assumeEQ(st, t, t.Args[0])
		}
	}
	if r.OnAtom != nil {
		r.OnAtom(r, st, t)
	}
}

func basicOf(t types.Type) (*types.Basic, bool) {
	if t == nil {
		return nil, false
	}
	b, ok := t.Underlying().(*types.Basic)
	return b, ok
}

func isUnsigned(t types.Type) bool {
	b, ok := basicOf(t)
	return ok && b.Info()&types.IsUnsigned != 0
}

func typeRange(t types.Type) (lo, hi int64) {
	b, ok := basicOf(t)
	if !ok {
		return -inf, inf
	}
	switch b.Kind() {
	case types.Uint8:
		return 0, 255
	case types.Uint16:
		return 0, 65535
	case types.Uint32:
		return 0, 1<<32 - 1
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, inf
	case types.Int8:
		return -128, 127
	case types.Int16:
		return -1 << 15, 1<<15 - 1
	case types.Int32:
		return -1 << 31, 1<<31 - 1
	}
	return -inf, inf
}

func (r *Run) bounds(st *State, t *Term) (int64, int64) {
	if isIntConst(t) {
		return t.K, t.K
	}
	l := r.U.lin(t)
	r.atomise(st, l)
	if len(l.coef) == 1 {
		for a, c := range l.coef {
			lo, hi := st.zone.bounds(a)
			if c == 1 {
				if lo > -inf {
					lo += l.k
				}
				if hi < inf {
					hi += l.k
				}
				return lo, hi
			}
			if c > 0 && c < 1<<20 {
				nlo, nhi := -inf, inf
				if lo > -(1 << 38) {
					nlo = lo*c + l.k
				}
				if hi < 1<<38 {
					nhi = hi*c + l.k
				}
				return nlo, nhi
			}
			if c < 0 && c > -(1<<20) {
				nlo, nhi := -inf, inf
				if hi < 1<<38 {
					nlo = hi*c + l.k
				}
				if lo > -(1 << 38) {
					nhi = lo*c + l.k
				}
				return nlo, nhi
			}
		}
		return -inf, inf
	}
	// difference of two atoms
	p, n, ok := st.zone.decompose(l)
	if ok && p != nil && n != nil {
		i, j := st.zone.idx(p), st.zone.idx(n)
		lo, hi := -inf, inf
		if st.zone.d[i][j] < inf {
			hi = st.zone.d[i][j] + l.k
		}
		if st.zone.d[j][i] < inf {
			lo = -st.zone.d[j][i] + l.k
		}
		return lo, hi
	}
	// sum of the bounds
	var lo, hi = l.k, l.k
	for a, c := range l.coef {
		al, ah := st.zone.bounds(a)
		if c < 0 {
			al, ah = -ah, -al
			c = -c
		}
		if lo > -inf {
			if al < -(1<<38) || c > 1<<20 {
				lo = -inf
			} else {
				lo += al * c
			}
		}
		if hi < inf {
			if ah > 1<<38 || c > 1<<20 {
				hi = inf
			} else {
				hi += ah * c
			}
		}
	}
	return lo, hi
}

func (r *Run) assumeLE(st *State, a, b *Term) {
	d := r.U.Sub(a, b)
	l := r.U.lin(d)
	r.atomise(st, l)
	if !st.zone.assumeLE(l) && len(st.lins) < 32 {
		st.lins = append(st.lins[:len(st.lins):len(st.lins)], d)
	}
	if st.zone.bot {
		st.dead = true
	}
}

func (r *Run) assumeEQ(st *State, a, b *Term) {
	l := r.U.lin(r.U.Sub(a, b))
	r.atomise(st, l)
	st.zone.assumeEQ(l)
	if st.zone.bot {
		st.dead = true
	}
}

func (r *Run) assumeNE(st *State, a, b *Term) {
	l := r.U.lin(r.U.Sub(a, b))
	r.atomise(st, l)
	st.zone.assumeNE(l)
	if st.zone.bot {
		st.dead = true
	}
}

func (r *Run) decideLE(st *State, a, b *Term) tri {
	d := r.U.Sub(a, b)
	l := r.U.lin(d)
	r.atomise(st, l)
	if q := st.zone.queryLE(l); q != unknown {
		return q
	}
	lo, hi := r.bounds(st, d)
	if hi <= 0 {
		return yes
	}
	if lo > 0 {
		return no
	}
	for _, f := range st.lins {
		if r.smaller(st, d, f) {
			return yes
		}
		if r.smaller(st, r.U.Sub(r.U.Int(1), d), f) {
			return no
		}
	}
	// sums of two of them
	for i, f := range st.lins {
		if !r.cancels(d, f) {
			continue
		}
		e := r.U.Sub(d, f)
		for _, g := range st.lins[i+1:] {
			if r.cancels(e, g) && r.smaller(st, e, g) {
				return yes
			}
		}
		for _, g := range st.lins[:i] {
			if r.cancels(e, g) && r.smaller(st, e, g) {
				return yes
			}
		}
	}
	return unknown
}

// cancels: an atom has the same coefficient in both terms.
func (r *Run) cancels(d, f *Term) bool {
	a, b := r.U.lin(d), r.U.lin(f)
	for t, k := range b.coef {
		if a.coef[t] == k {
			return true
		}
	}
	return false
}

// smaller: d <= f.
func (r *Run) smaller(st *State, d, f *Term) bool {
	x := r.U.Sub(d, f)
	if isIntConst(x) {
		return x.K <= 0
	}
	l := r.U.lin(x)
	return len(l.coef) <= 2 && st.zone.queryLE(l) == yes || len(l.coef) == 4 && r.pairsLE(st, l)
}

// pairsLE: a sum of two differences is at most 0.
func (r *Run) pairsLE(st *State, l linForm) bool {
	var p, n []*Term
	for t, k := range l.coef {
		switch k {
		case 1:
			p = append(p, t)
		case -1:
			n = append(n, t)
		}
	}
	if len(p) != 2 || len(n) != 2 {
		return false
	}
	d := func(a, b *Term) int64 { return st.zone.d[st.zone.idx(a)][st.zone.idx(b)] }
	for k := 0; k < 2; k++ {
		x, y := d(p[0], n[k]), d(p[1], n[1-k])
		if x < inf && y < inf && x+y+l.k <= 0 {
			return true
		}
	}
	return false
}

// isIntish: terms compared by the zone
func intish(t *Term) bool {
	return isIntConst(t) || t.Op == OLin || isIntType(t.T)
}

func (r *Run) decideEQ(st *State, a, b *Term) tri {
	if a == b {
		return yes
	}
	if intish(a) && intish(b) {
		l := r.U.lin(r.U.Sub(a, b))
		r.atomise(st, l)
		if q := st.zone.queryEQ(l); q != unknown {
			return q
		}
		lo, hi := r.bounds(st, r.U.Sub(a, b))
		if lo > 0 || hi < 0 {
			return no
		}
		return unknown
	}
	if isBoolConst(a) && isBoolConst(b) {
		return no
	}
	if a.Op == OStr && b.Op == OStr {
		return no
	}
	if a.Op == OIface && b.Op == OIface && a.Args[0].Op != OIface {
		return r.decideEQ(st, a.Args[0], b.Args[0])
	}
	if a.Op == ONil && r.nonNil(st, b) || b.Op == ONil && r.nonNil(st, a) {
		return no
	}
	if a.Op == OAlloc && b.Op == OAlloc {
		return no
	}
	// an object that the path allocates differs from what existed before
	if r.newAlloc(a) && (b.Op == OParam || b.Op == OLoad && b.K < a.K) || r.newAlloc(b) && (a.Op == OParam || a.Op == OLoad && a.K < b.K) {
		return no
	}
	if v, ok := st.facts[r.eqTerm(a, b)]; ok {
		if v {
			return yes
		}
		return no
	}
	if fa, fb := freshError(a), freshError(b); fa && fb {
		return no // two calls give two errors
	}
	ra, rb := r.rigid(st, a), r.rigid(st, b)
	if (ra != a || rb != b) && (ra == rb || rigidTerm(ra) && rigidTerm(rb)) {
		return r.decideEQ(st, ra, rb)
	}
	// one known equal to nil and the other not nil
	if a.Op != ONil && b.Op != ONil {
		av, aok := st.facts[r.eqTerm(a, r.U.Nil())]
		bv, bok := st.facts[r.eqTerm(b, r.U.Nil())]
		if aok && av && (r.nonNil(st, b) || bok && !bv) || bok && bv && (r.nonNil(st, a) || aok && !av) {
			return no
		}
	}
	return unknown
}

// newAlloc: the object was not allocated by the initialisation of the package.
func (r *Run) newAlloc(t *Term) bool { return t.Op == OAlloc && t.K > r.U.initSeq }

func freshError(t *Term) bool {
	if t.Op == OCall {
		if ci, ok := t.Aux.(*callInfo); ok {
			switch ci.Name {
			case "fmt.Errorf", "errors.New":
				return true
			}
		}
	}
	return false
}

// rigidTerm: the term is its own value.
func rigidTerm(t *Term) bool { return t.Op == ONil || t.Op == OStr || freshError(t) }

// rigid replaces a term by a value that the path knows it is equal to.
func (r *Run) rigid(st *State, t *Term) *Term {
	if rigidTerm(t) {
		return t
	}
	for f, v := range st.facts {
		if v && f.Op == OCmp && f.Aux == "==" {
			if f.Args[0] == t && rigidTerm(f.Args[1]) {
				return f.Args[1]
			}
			if f.Args[1] == t && rigidTerm(f.Args[0]) {
				return f.Args[0]
			}
		}
	}
	return t
}

func (r *Run) nonNil(st *State, t *Term) bool {
	switch t.Op {
	case OAlloc, OClosure, OGlobal, OFA, OIA, OIface, OBig, OAppend, OStruct:
		return true
	case OCall:
		if ci, ok := t.Aux.(*callInfo); ok {
			switch ci.Name {
			case "fmt.Errorf", "errors.New", "math/big.NewInt":
				return true
			}
		}
	case OSlice:
		return r.nonNil(st, t.Args[0])
	}
	if v, ok := st.facts[r.eqTerm(t, r.U.Nil())]; ok && !v {
		return true
	}
	return false
}

func (r *Run) eqTerm(a, b *Term) *Term {
	if a.ID > b.ID {
		a, b = b, a
	}
	return r.U.mk(OCmp, "==", 0, types.Typ[types.Bool], nil, a, b)
}

func (r *Run) cmp(st *State, op token.Token, a, b *Term) *Term {
	u := r.U
	neg := func(t *Term) *Term { return r.not(t) }
	switch op {
	case token.EQL, token.NEQ:
		var res *Term
		if isBoolConst(a) || isBoolConst(b) {
			if isBoolConst(a) {
				a, b = b, a
			}
			res = a
			if b.K == 0 {
				res = neg(a)
			}
		} else {
			switch r.decideEQ(st, a, b) {
			case yes:
				res = u.Bool(true)
			case no:
				res = u.Bool(false)
			default:
				res = r.eqTerm(a, b)
			}
		}
		if op == token.NEQ {
			return neg(res)
		}
		return res
	case token.LSS: // a < b  <=> not (b <= a)
		return neg(r.le(st, b, a))
	case token.GTR:
		return neg(r.le(st, a, b))
	case token.LEQ:
		return r.le(st, a, b)
	case token.GEQ:
		return r.le(st, b, a)
	}
	return u.mk(OBin, op.String(), 0, types.Typ[types.Bool], nil, a, b)
}

func (r *Run) le(st *State, a, b *Term) *Term {
	if intish(a) && intish(b) {
		switch r.decideLE(st, a, b) {
		case yes:
			return r.U.Bool(true)
		case no:
			return r.U.Bool(false)
		}
	}
	return r.U.mk(OCmp, "<=", 0, types.Typ[types.Bool], nil, a, b)
}

func (r *Run) not(t *Term) *Term {
	if isBoolConst(t) {
		return r.U.Bool(t.K == 0)
	}
	if t.Op == OUn && t.Aux == "!" {
		return t.Args[0]
	}
	return r.U.mk(OUn, "!", 0, types.Typ[types.Bool], nil, t)
}

// assume adds the truth of a boolean term to the state; false if impossible.
func (r *Run) assume(st *State, c *Term, v bool) bool {
	if c.Op == OUn && c.Aux == "!" {
		return r.assume(st, c.Args[0], !v)
	}
	if isBoolConst(c) {
		return (c.K != 0) == v
	}
	if old, ok := st.facts[c]; ok {
		return old == v
	}
	if c.Op == OCmp {
		a, b := c.Args[0], c.Args[1]
		if intish(a) && intish(b) {
			switch {
			case c.Aux == "==" && v:
				r.assumeEQ(st, a, b)
			case c.Aux == "==":
				r.assumeNE(st, a, b)
			case v:
				r.assumeLE(st, a, b)
			default:
				r.assumeLE(st, r.U.AddK(b, 1), a)
			}
			st.facts[c] = v
			return !st.zone.bot && !st.dead
		}
		if c.Aux == "==" {
			switch r.decideEQ(st, a, b) {
			case yes:
				return v
			case no:
				return !v
			}
		}
	}
	st.facts[c] = v
	if v && c.Op == OCmp && c.Aux == "==" {
		// the same object
		for k, a := range c.Args {
			if b := c.Args[1-k]; a.Op == OAlloc && b.Op != ONil {
				st.facts[r.eqTerm(b, r.U.Nil())] = false
				if x := r.init[a]; x != nil && isIntConst(x) && b.Op != OAlloc {
					r.assumeEQ(st, r.loadMem(st, st.mem, b, derefType(a.T)), x)
				}
			}
		}
		return !st.dead && !st.zone.bot
	}
	if v && c.Op == OCall {
		r.libFact(st, c)
		return !st.dead
	}
	return true
}

func (r *Run) truth(st *State, c *Term) tri {
	if c.Op == OUn && c.Aux == "!" {
		switch r.truth(st, c.Args[0]) {
		case yes:
			return no
		case no:
			return yes
		}
		return unknown
	}
	if isBoolConst(c) {
		if c.K != 0 {
			return yes
		}
		return no
	}
	if v, ok := st.facts[c]; ok {
		if v {
			return yes
		}
		return no
	}
	if c.Op == OCmp {
		if c.Aux == "==" {
			return r.decideEQ(st, c.Args[0], c.Args[1])
		}
		if intish(c.Args[0]) && intish(c.Args[1]) {
			return r.decideLE(st, c.Args[0], c.Args[1])
		}
	}
	return unknown
}

// ---------------------------------------------------------------- execution

type cont func(st *State, res []*Term)

func (r *Run) call(fn *ssa.Function, args []*Term, st *State, parent *Frame, instr ssa.Instruction, k cont) {
	if r.abort != "" {
		return
	}
	f := &Frame{fn: fn, env: map[ssa.Value]*Term{}, parent: parent, call: instr, id: r.U.fresh()}
	if parent != nil {
		f.depth = parent.depth + 1
	}
	if f.depth > 60 {
		r.undecided(st, fn.Pos(), "inlining too deep in "+fname(fn))
		return
	}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		}
	}
	for i, v := range fn.FreeVars {
		if j := len(fn.Params) + i; j < len(args) {
			f.env[v] = args[j]
		}
	}
	r.Funcs[fn] = true
	if r.P.loopsOf(fn).Irr {
		r.undecided(st, fn.Pos(), "irreducible control flow in "+fname(fn))
		return
	}
	r.block(f, fn.Blocks[0], nil, st, k)
}

func (r *Run) val(f *Frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return r.constant(v)
	case *ssa.Global:
		return r.U.mk(OGlobal, v, 0, v.Type(), nil)
	case *ssa.Function:
		return r.U.mk(OClosure, v, 0, v.Type(), nil)
	case *ssa.Builtin:
		return r.U.Str("builtin " + v.Name())
	}
	if t, ok := f.env[v]; ok {
		return t
	}
	t := r.U.Fresh("undef:"+v.Name(), v.Type())
	f.env[v] = t
	return t
}

func (r *Run) constant(c *ssa.Const) *Term {
	if c.Value == nil {
		return r.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return r.U.Bool(constant.BoolVal(c.Value))
	case constant.Int:
		if b, ok := basicOf(c.Type()); ok && b.Info()&types.IsFloat != 0 {
			return r.U.mk(OStr, "float "+c.Value.ExactString(), 0, c.Type(), nil)
		}
		if i, ok := constant.Int64Val(c.Value); ok {
			return r.U.Int(i)
		}
		return r.U.mk(OParam, "bigconst "+c.Value.ExactString(), 0, c.Type(), nil)
	case constant.String:
		return r.U.Str(constant.StringVal(c.Value))
	}
	return r.U.mk(OStr, "const "+c.Value.ExactString(), 0, c.Type(), nil)
}

func (r *Run) block(f *Frame, b, pred *ssa.BasicBlock, st *State, k cont) {
	if r.abort != "" {
		return
	}
	f.sync(st)
	li := r.P.loopsOf(f.fn)
	loop := li.Heads[b]
	if loop != nil {
		// back edge?
		var top *LoopInst
		for l := st.loops; l != nil; l = l.next {
			if l.frame == f.id && l.inst.Loop == loop {
				top = l.inst
				break
			}
		}
		if top != nil && pred != nil && loop.Blocks[pred] {
			if top.Unroll {
				r.nextTurn(f, top, b, pred, st, k)
				return
			}
			r.backEdge(f, top, b, pred, st)
			return
		}
	}
	// leave the loops that do not contain b
	for st.loops != nil && st.loops.frame == f.id && !st.loops.inst.Loop.Blocks[b] {
		inst := st.loops.inst
		st.loops = st.loops.next
		if !inst.Unroll {
			r.event(st, &Event{Kind: EvLoopExit, Loop: inst, In: f.fn})
		}
	}
	// phis
	idx := -1
	if pred != nil {
		for i, p := range b.Preds {
			if p == pred {
				idx = i
			}
		}
	}
	var phis []*ssa.Phi
	var vals []*Term
	for _, i := range b.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, r.val(f, p.Edges[idx]))
	}
	if loop != nil && r.fewTurns(f, loop, b, phis, vals, st) {
		inst := &LoopInst{Loop: loop, Fn: f.fn, ID: r.U.fresh(), Frame: f, Unroll: true}
		st.loops = &loopStack{inst, f.id, st.loops}
		r.turn(f, phis, vals, st)
	} else if loop != nil {
		r.enterLoop(f, loop, phis, vals, st)
		if st.dead {
			return
		}
	} else {
		for i, p := range phis {
			f.env[p] = vals[i]
		}
	}
	r.instrs(f, b, len(phis), st, k)
}

// sync selects the values of the current turn of the unrolled loops.
func (f *Frame) sync(st *State) {
	if f.base == nil {
		f.base = f.env
	}
	if e, ok := st.envs[f.id]; ok {
		f.env = e
	} else {
		f.env = f.base
	}
}

// turn starts a turn of an unrolled loop.
func (r *Run) turn(f *Frame, phis []*ssa.Phi, vals []*Term, st *State) {
	n := make(map[ssa.Value]*Term, len(f.env))
	for k, v := range f.env {
		n[k] = v
	}
	for i, p := range phis {
		n[p] = vals[i]
	}
	es := make(map[int64]map[ssa.Value]*Term, len(st.envs)+1)
	for k, v := range st.envs {
		es[k] = v
	}
	es[f.id] = n
	st.envs = es
	f.env = n
}

const maxTurns = 8

// nextTurn goes on with an unrolled loop.
func (r *Run) nextTurn(f *Frame, inst *LoopInst, b, pred *ssa.BasicBlock, st *State, k cont) {
	for st.loops != nil && st.loops.inst != inst {
		in := st.loops.inst
		st.loops = st.loops.next
		if !in.Unroll {
			r.event(st, &Event{Kind: EvLoopExit, Loop: in, In: f.fn})
		}
	}
	cp := *inst
	cp.Count++
	if cp.Count > maxTurns+2 {
		r.undecided(st, b.Instrs[0].Pos(), "loop that does not end")
		return
	}
	st.loops = &loopStack{&cp, f.id, st.loops.next}
	idx := -1
	for i, p := range b.Preds {
		if p == pred {
			idx = i
		}
	}
	var phis []*ssa.Phi
	var vals []*Term
	for _, i := range b.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, r.val(f, p.Edges[idx]))
	}
	r.turn(f, phis, vals, st)
	r.instrs(f, b, len(phis), st, k)
}

// fewTurns: the loop counts between two constants, in a few turns.
func (r *Run) fewTurns(f *Frame, loop *Loop, b *ssa.BasicBlock, phis []*ssa.Phi, vals []*Term, st *State) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Block() != b {
		return false
	}
	constOf := func(v ssa.Value) (int64, bool) {
		if in, ok := v.(ssa.Instruction); ok && loop.Blocks[in.Block()] {
			return 0, false
		}
		if !isIntType(v.Type()) {
			return 0, false
		}
		t := r.val(f, v)
		if _, ok := v.(*ssa.Const); r.NoUnroll && !ok {
			// (the loop is not special because of what holds on the path)
			return 0, false
		}
		if isIntConst(t) {
			return t.K, true
		}
		lo, hi := r.bounds(st, t)
		return lo, lo == hi
	}
	try := func(x, y ssa.Value) bool {
		lim, ok := constOf(y)
		if !ok {
			return false
		}
		var base ssa.Value = x
		if a, ok := x.(*ssa.BinOp); ok && (a.Op == token.ADD || a.Op == token.SUB) && loop.Blocks[a.Block()] {
			if _, ok := a.Y.(*ssa.Const); !ok {
				return false
			}
			base = a.X
		}
		for i, p := range phis {
			if p != base {
				continue
			}
			if !isIntConst(vals[i]) {
				return false
			}
			for j, pr := range b.Preds {
				if !loop.Blocks[pr] {
					continue
				}
				a, ok := p.Edges[j].(*ssa.BinOp)
				if !ok || a.Op != token.ADD && a.Op != token.SUB || a.X != p {
					return false
				}
				if c, ok := a.Y.(*ssa.Const); !ok || c.Int64() == 0 {
					return false
				}
			}
			for j, pr := range b.Preds {
				if _, ok := p.Edges[j].(*ssa.Const); r.NoUnroll && !loop.Blocks[pr] && !ok {
					return false
				}
			}
			d := lim - vals[i].K
			return d <= maxTurns && d >= -maxTurns
		}
		return false
	}
	switch cmp.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
		return try(cmp.X, cmp.Y) || try(cmp.Y, cmp.X)
	}
	return false
}

func (r *Run) enterLoop(f *Frame, loop *Loop, phis []*ssa.Phi, vals []*Term, st *State) {
	inst := &LoopInst{Loop: loop, Fn: f.fn, ID: r.U.fresh(), Init: map[*ssa.Phi]*Term{}, Phi: map[*ssa.Phi]*Term{}, Frame: f, Pre: st.clone()}
	for i, p := range phis {
		inst.Init[p] = vals[i]
	}
	r.havocLocal(st, loop.Mod, func(al *ssa.Alloc) bool { return loop.writes(al) })
	for i, p := range phis {
		name := p.Comment
		if name == "" {
			name = p.Name()
		}
		t := r.U.mk(OFresh, "φ"+name, r.U.fresh(), p.Type(), nil)
		inst.Phi[p] = t
		f.env[p] = t
		if isIntType(p.Type()) {
			for _, c := range r.candidates(p, loop) {
				if c.dead {
					continue
				}
				if !r.candHolds(st, c, vals[i], vals[i], inst) {
					c.dead = true
					r.change = true
					continue
				}
				r.candAssume(st, c, t, vals[i], inst)
			}
		}
	}
	inst.Head = copyMem(st.mem)
	st.loops = &loopStack{inst, f.id, st.loops}
	if r.OnLoop != nil {
		r.OnLoop(r, st, inst)
	}
	r.event(st, &Event{Kind: EvLoopEnter, Loop: inst, In: f.fn})
}

// candidates: simple invariants of an integer loop variable, kept while they
// are inductive.
func (r *Run) candidates(p *ssa.Phi, loop *Loop) []*loopCand {
	if c, ok := r.cands[p]; ok {
		return c
	}
	var l []*loopCand
	for _, k := range []string{">=init", "<=init", ">=0", ">=-1"} {
		l = append(l, &loopCand{phi: p, kind: k})
	}
	r.cands[p] = l
	return l
}

func (r *Run) candBounds(c *loopCand, t, init *Term) (a, b *Term) {
	switch c.kind {
	case ">=init":
		return init, t
	case "<=init":
		return t, init
	case ">=0":
		return r.U.Int(0), t
	case ">=-1":
		return r.U.Int(-1), t
	}
	return nil, nil
}

func (r *Run) candHolds(st *State, c *loopCand, t, init *Term, inst *LoopInst) bool {
	a, b := r.candBounds(c, t, init)
	return r.decideLE(st, a, b) == yes
}

func (r *Run) candAssume(st *State, c *loopCand, t, init *Term, inst *LoopInst) {
	a, b := r.candBounds(c, t, init)
	r.assumeLE(st, a, b)
}

func (r *Run) backEdge(f *Frame, inst *LoopInst, b, pred *ssa.BasicBlock, st *State) {
	idx := -1
	for i, p := range b.Preds {
		if p == pred {
			idx = i
		}
	}
	// leave inner loops
	for st.loops != nil && st.loops.inst != inst {
		in := st.loops.inst
		st.loops = st.loops.next
		if !in.Unroll {
			r.event(st, &Event{Kind: EvLoopExit, Loop: in, In: f.fn})
		}
	}
	cp := *inst
	cp.Next = map[*ssa.Phi]*Term{}
	for _, i := range b.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		v := r.val(f, p.Edges[idx])
		cp.Next[p] = v
		for _, c := range r.cands[p] {
			if !c.dead && !r.candHolds(st, c, v, inst.Init[p], inst) {
				c.dead = true
				r.change = true
			}
		}
	}
	r.event(st, &Event{Kind: EvLoopBack, Loop: &cp, In: f.fn})
	r.out(&Outcome{Kind: OutLoopBack, St: st, Loop: &cp, Pos: b.Instrs[0].Pos()})
}

func (r *Run) instrs(f *Frame, b *ssa.BasicBlock, from int, st *State, k cont) {
	f.sync(st)
	for n := from; n < len(b.Instrs); n++ {
		if r.abort != "" {
			return
		}
		r.NInstr++
		switch i := b.Instrs[n].(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			r.undecided(st, i.Pos(), "misplaced phi")
			return
		case *ssa.If:
			c := r.val(f, i.Cond)
			switch r.truth(st, c) {
			case yes:
				r.block(f, b.Succs[0], b, st, k)
				return
			case no:
				r.block(f, b.Succs[1], b, st, k)
				return
			}
			st2 := st.clone()
			if r.assume(st, c, true) && !st.dead {
				st.path = &pathNode{r.P.pos(condPos(i)) + " " + c.String(), st.path}
				r.block(f, b.Succs[0], b, st, k)
			}
			if r.assume(st2, c, false) && !st2.dead {
				st2.path = &pathNode{r.P.pos(condPos(i)) + " !" + c.String(), st2.path}
				r.block(f, b.Succs[1], b, st2, k)
			}
			return
		case *ssa.Jump:
			r.block(f, b.Succs[0], b, st, k)
			return
		case *ssa.Return:
			res := make([]*Term, len(i.Results))
			for j, v := range i.Results {
				res[j] = r.val(f, v)
			}
			for st.loops != nil && st.loops.frame == f.id {
				inst := st.loops.inst
				st.loops = st.loops.next
				if !inst.Unroll {
					r.event(st, &Event{Kind: EvLoopExit, Loop: inst, In: f.fn})
				}
			}
			k(st, res)
			return
		case *ssa.Panic:
			// deferred calls run, then the panic goes on
			r.runDefers(f, st, func(st *State) {
				r.out(&Outcome{Kind: OutPanic, St: st, Why: "panic at " + r.P.pos(i.Pos()), Pos: i.Pos()})
			})
			return
		case *ssa.RunDefers:
			rest := n + 1
			r.runDefers(f, st, func(st *State) { r.instrs(f, b, rest, st, k) })
			return
		case *ssa.Defer:
			d := &deferred{call: i, next: st.defers[f.id]}
			d.fn, d.args = r.callOperands(f, &i.Call)
			st.defers[f.id] = d
		case *ssa.Go:
			r.undecided(st, i.Pos(), "goroutine started")
			return
		case *ssa.Call:
			rest := n + 1
			fnv, args := r.callOperands(f, &i.Call)
			r.doCall(f, &i.Call, fnv, args, i, st, func(st *State, res []*Term) {
				f.sync(st)
				switch {
				case len(res) == 1 && i.Call.Signature().Results().Len() <= 1:
					f.env[i] = res[0]
				case len(res) > 0:
					f.env[i] = r.U.mk(OTuple, nil, 0, i.Type(), nil, res...)
				}
				r.instrs(f, b, rest, st, k)
			})
			return
		case *ssa.IndexAddr, *ssa.Index:
			done := false
			r.split(f, b, n, st, k, &done)
			if done {
				return
			}
			r.simple(f, b.Instrs[n], st)
			if st.dead {
				return
			}
		default:
			if !r.simple(f, i, st) {
				r.undecided(st, i.Pos(), fmt.Sprintf("unsupported instruction %T", i))
				return
			}
			if st.dead {
				return
			}
		}
	}
}

func condPos(i *ssa.If) token.Pos {
	if v, ok := i.Cond.(ssa.Instruction); ok && v.Pos().IsValid() {
		return v.Pos()
	}
	if i.Pos().IsValid() {
		return i.Pos()
	}
	return i.Block().Parent().Pos()
}

// split concretises the index of an array when it ranges over few values, so
// that constant tables can be read.
func (r *Run) split(f *Frame, b *ssa.BasicBlock, n int, st *State, k cont, done *bool) {
	var xv, iv ssa.Value
	switch i := b.Instrs[n].(type) {
	case *ssa.IndexAddr:
		xv, iv = i.X, i.Index
	case *ssa.Index:
		xv, iv = i.X, i.Index
	}
	t := xv.Type().Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	if _, ok := t.(*types.Array); !ok {
		return
	}
	idx := r.val(f, iv)
	if isIntConst(idx) {
		return
	}
	// only arrays with known contents
	base := r.val(f, xv)
	if rootOf(base).Op != OGlobal && base.Op != OArr {
		return
	}
	lo, hi := r.bounds(st, idx)
	if lo < 0 || hi-lo > 12 || hi > 64 {
		return
	}
	*done = true
	for v := lo; v <= hi; v++ {
		s2 := st.clone()
		r.assumeEQ(s2, idx, r.U.Int(v))
		if s2.dead {
			continue
		}
		s2.path = &pathNode{fmt.Sprintf("%s=%d", idx, v), s2.path}
		f.sync(s2)
		old, had := f.env[iv]
		f.env[iv] = r.U.Int(v)
		if !r.simple(f, b.Instrs[n], s2) {
			continue
		}
		if had {
			f.env[iv] = old
		} else {
			delete(f.env, iv)
		}
		r.instrs(f, b, n+1, s2, k)
	}
}

func (r *Run) runDefers(f *Frame, st *State, k func(*State)) {
	d := st.defers[f.id]
	if d == nil {
		k(st)
		return
	}
	st.defers[f.id] = d.next
	r.doCall(f, &d.call.Call, d.fn, d.args, d.call, st, func(st *State, _ []*Term) {
		r.runDefers(f, st, k)
	})
}

func (r *Run) callOperands(f *Frame, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	var fn *Term
	if c.IsInvoke() {
		fn = r.val(f, c.Value)
	} else {
		fn = r.val(f, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, r.val(f, a))
	}
	return fn, args
}

// simple executes an instruction with a single successor state.
func (r *Run) simple(f *Frame, in ssa.Instruction, st *State) bool {
	u := r.U
	switch i := in.(type) {
	case *ssa.Alloc:
		ai := r.allocInfo(i)
		t := u.mk(OAlloc, ai, u.fresh(), i.Type(), nil)
		st.alloc[t] = true
		f.env[i] = t
	case *ssa.Store:
		r.store(st, r.val(f, i.Addr), r.val(f, i.Val), i.Val.Type(), i, f.fn)
	case *ssa.UnOp:
		x := r.val(f, i.X)
		switch i.Op {
		case token.MUL:
			if x.Op == ONil {
				r.undecided(st, i.Pos(), "nil pointer dereference")
				st.dead = true
				return true
			}
			v := r.load(st, x, i.Type())
			f.env[i] = v
			if r.Loads {
				r.event(st, &Event{Kind: EvLoad, Addr: x, Val: v, Instr: i, In: f.fn})
			} else if r.OnEvent != nil && !r.knownAddr(x) {
				r.event(st, &Event{Kind: EvLoad, Addr: x, Val: v, Instr: i, In: f.fn})
			}
		case token.NOT:
			f.env[i] = r.not(x)
		case token.SUB:
			f.env[i] = u.Sub(u.Int(0), x)
		case token.XOR:
			if isIntConst(x) && !isUnsigned(i.Type()) {
				f.env[i] = u.Int(^x.K)
			} else {
				f.env[i] = u.mk(OUn, "^", 0, i.Type(), nil, x)
			}
		default:
			return false
		}
	case *ssa.BinOp:
		f.env[i] = r.binop(st, i.Op, r.val(f, i.X), r.val(f, i.Y), i.Type(), i.X.Type())
	case *ssa.ChangeType:
		f.env[i] = r.val(f, i.X)
	case *ssa.ChangeInterface:
		f.env[i] = r.val(f, i.X)
	case *ssa.MakeInterface:
		f.env[i] = u.mk(OIface, typeKey(i.X.Type()), 0, i.X.Type(), nil, r.val(f, i.X))
	case *ssa.Convert:
		f.env[i] = r.convert(st, r.val(f, i.X), i.Type(), i.X.Type())
	case *ssa.TypeAssert:
		x := r.val(f, i.X)
		var v *Term
		if x.Op == OIface && types.Identical(x.T, i.AssertedType) {
			v = x.Args[0]
		} else {
			v = u.mk(OUn, "assert "+typeKey(i.AssertedType), 0, i.AssertedType, nil, x)
		}
		if i.CommaOk {
			ok := u.mk(OUn, "is "+typeKey(i.AssertedType), 0, types.Typ[types.Bool], nil, x)
			if v.Op != OUn {
				ok = u.Bool(true)
			}
			v = u.mk(OTuple, nil, 0, i.Type(), nil, v, ok)
		}
		f.env[i] = v
	case *ssa.Extract:
		x := r.val(f, i.Tuple)
		if x.Op == OTuple {
			f.env[i] = x.Args[i.Index]
		} else {
			f.env[i] = u.mk(OExtr, nil, int64(i.Index), i.Type(), nil, x)
		}
	case *ssa.Field:
		f.env[i] = r.field(st, r.val(f, i.X), structOf(i.X.Type()), i.Field)
	case *ssa.FieldAddr:
		x := r.val(f, i.X)
		if x.Op == ONil {
			r.undecided(st, i.Pos(), "nil pointer dereference")
			st.dead = true
			return true
		}
		s := structOf(derefType(i.X.Type()))
		f.env[i] = u.FA(x, s.Field(i.Field))
	case *ssa.Index:
		x := r.val(f, i.X)
		idx := r.val(f, i.Index)
		r.indexEvent(st, f, i, x, idx, i.X.Type())
		f.env[i] = r.elem(st, x, idx, i.Type())
	case *ssa.IndexAddr:
		x := r.val(f, i.X)
		idx := r.val(f, i.Index)
		r.indexEvent(st, f, i, x, idx, i.X.Type())
		f.env[i] = u.IA(x, idx, derefType(i.Type()))
	case *ssa.Lookup:
		x := r.val(f, i.X)
		idx := r.val(f, i.Index)
		if mt, ok := i.X.Type().Underlying().(*types.Map); ok {
			v, has := r.mapGet(st, x, idx, mt)
			r.event(st, &Event{Kind: EvMapGet, Args: []*Term{x, idx, has}, Val: v, Instr: i, In: f.fn})
			if i.CommaOk {
				f.env[i] = u.mk(OTuple, nil, 0, i.Type(), nil, v, has)
			} else {
				f.env[i] = v
			}
		} else {
			r.indexEvent(st, f, i, x, idx, i.X.Type())
			f.env[i] = r.elem(st, x, idx, i.Type())
		}
	case *ssa.MapUpdate:
		m, kk, v := r.val(f, i.Map), r.val(f, i.Key), r.val(f, i.Value)
		c := mapClass(i.Map.Type())
		r.havoc(st, c)
		st.tags[fmt.Sprintf("map:%d:%d", m.ID, kk.ID)] = v
		r.event(st, &Event{Kind: EvMapSet, Args: []*Term{m, kk, v}, Instr: i, In: f.fn})
	case *ssa.Slice:
		x := r.val(f, i.X)
		f.env[i] = r.slice(st, f, i, x)
	case *ssa.MakeSlice:
		ai := r.allocInfo(i)
		t := u.mk(OAlloc, ai, u.fresh(), i.Type(), nil)
		st.alloc[t] = true
		ln := r.val(f, i.Len)
		st.lens[t] = ln
		r.event(st, &Event{Kind: EvMake, Args: []*Term{ln, r.val(f, i.Cap)}, Val: t, Instr: i, In: f.fn})
		if lo, _ := r.bounds(st, ln); lo < 0 {
			// make panics on a negative length, so what follows may rely on it
			r.assumeLE(st, u.Int(0), ln)
		}
		f.env[i] = t
	case *ssa.MakeMap:
		t := u.mk(OAlloc, r.allocInfo(i), u.fresh(), i.Type(), nil)
		st.alloc[t] = true
		f.env[i] = t
	case *ssa.MakeClosure:
		fn := i.Fn.(*ssa.Function)
		var bs []*Term
		for _, x := range i.Bindings {
			bs = append(bs, r.val(f, x))
		}
		f.env[i] = u.mk(OClosure, fn, 0, i.Type(), nil, bs...)
	case *ssa.Range:
		f.env[i] = u.mk(OUn, "range", u.fresh(), i.Type(), nil, r.val(f, i.X))
	case *ssa.Next:
		t := u.mk(OFresh, "next", u.fresh(), i.Type(), nil)
		f.env[i] = t
	default:
		return false
	}
	return true
}

func (r *Run) knownAddr(x *Term) bool {
	switch x.Op {
	case OGlobal, OAlloc:
		return true
	case OFA, OIA:
		return true
	}
	return false
}

func (r *Run) allocInfo(i ssa.Instruction) *allocInfo {
	ai := r.U.allocInfos[i]
	if ai == nil {
		ai = &allocInfo{Instr: i}
		if a, ok := i.(*ssa.Alloc); ok {
			ai.Comment = a.Comment
		}
		r.U.allocInfos[i] = ai
	}
	return ai
}

func (r *Run) indexEvent(st *State, f *Frame, in ssa.Instruction, base, idx *Term, t types.Type) {
	ln := r.length(st, base, t)
	e := &Event{Kind: EvIndex, Args: []*Term{base, idx, ln}, Instr: in, In: f.fn}
	if r.OnEvent != nil || r.Loads {
		r.event(st, e)
	}
	// execution continues only if the index is in range
	r.assumeLE(st, r.U.Int(0), idx)
	r.assumeLE(st, r.U.AddK(idx, 1), ln)
}

// length gives the length of a slice, array or string.
func (r *Run) length(st *State, x *Term, t types.Type) *Term {
	if t != nil {
		tt := t.Underlying()
		if p, ok := tt.(*types.Pointer); ok {
			tt = p.Elem().Underlying()
		}
		if a, ok := tt.(*types.Array); ok {
			return r.U.Int(a.Len())
		}
	}
	switch x.Op {
	case ONil:
		return r.U.Int(0)
	case OStr:
		return r.U.Int(int64(len(x.Aux.(string))))
	case OAlloc:
		if l, ok := st.lens[x]; ok {
			return l
		}
	case OAppend:
		return r.U.AddK(r.length(st, x.Args[0], nil), int64(len(x.Args)-1))
	case OAppendS:
		return r.U.Add(r.length(st, x.Args[0], nil), r.length(st, x.Args[1], nil))
	case OSlice:
		if x.Args[2] != nil {
			return r.U.Sub(x.Args[2], x.Args[1])
		}
	}
	return r.U.mk(OLen, nil, 0, types.Typ[types.Int], nil, x)
}

func (r *Run) slice(st *State, f *Frame, i *ssa.Slice, x *Term) *Term {
	u := r.U
	lo := u.Int(0)
	if i.Low != nil {
		lo = r.val(f, i.Low)
	}
	full := r.length(st, x, i.X.Type())
	hi := full
	if i.High != nil {
		hi = r.val(f, i.High)
	}
	if i.High != nil || i.Low != nil {
		r.event(st, &Event{Kind: EvSlice, Args: []*Term{x, lo, hi, full}, Instr: i, In: f.fn})
	}
	if _, ok := i.X.Type().Underlying().(*types.Pointer); ok {
		// slice of a whole array: a fresh name for its elements
		if i.Low == nil && i.High == nil {
			t := u.mk(OSlice, nil, 0, i.Type(), nil, x, lo, hi)
			return t
		}
	}
	if isIntConst(lo) && lo.K == 0 {
		// s[:hi]
		if hi == full {
			if _, ok := i.X.Type().Underlying().(*types.Pointer); ok && x.Op == OAlloc {
				// the slice keeps the name of the array
				st.lens[x] = hi
			}
			return x
		}
		// drop the appended elements that are cut
		for x.Op == OAppend {
			base := x.Args[0]
			bl := r.length(st, base, nil)
			n := int64(len(x.Args) - 1)
			cut := u.Sub(hi, bl)
			if isIntConst(cut) && cut.K >= 0 && cut.K <= n {
				if cut.K == 0 {
					return base
				}
				return u.mk(OAppend, nil, 0, x.T, nil, x.Args[:1+cut.K]...)
			}
			if isIntConst(cut) && cut.K < 0 {
				x = base
				continue
			}
			break
		}
		if isIntConst(hi) && hi.K == 0 {
			return u.mk(OSlice, "empty", 0, i.Type(), nil, rootSlice(x), u.Int(0), u.Int(0))
		}
		if x.Op == OSlice && isIntConst(x.Args[1]) && x.Args[1].K == 0 {
			x = x.Args[0]
		}
	}
	return u.mk(OSlice, nil, 0, i.Type(), nil, x, lo, hi)
}

func rootSlice(x *Term) *Term {
	for x.Op == OAppend || x.Op == OSlice && x.Aux == nil {
		x = x.Args[0]
	}
	return x
}

func (r *Run) mapGet(st *State, m, key *Term, mt *types.Map) (v, has *Term) {
	if kv, ok := st.tags[fmt.Sprintf("map:%d:%d", m.ID, key.ID)]; ok {
		return kv, r.U.Bool(true)
	}
	c := r.classOf(st, mapClass(mt))
	v = r.U.mk(OLookup, nil, c.base, mt.Elem(), nil, m, key)
	has = r.U.mk(OHas, nil, c.base, types.Typ[types.Bool], nil, m, key)
	return
}

func (r *Run) binop(st *State, op token.Token, a, b *Term, t, xt types.Type) *Term {
	u := r.U
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
		return r.cmp(st, op, a, b)
	}
	if !isIntType(t) {
		return u.mk(OBin, op.String(), 0, t, nil, a, b)
	}
	ac, bc := isIntConst(a), isIntConst(b)
	if !ac {
		if lo, hi := r.bounds(st, a); lo == hi {
			a, ac = u.Int(lo), true
		}
	}
	if !bc {
		if lo, hi := r.bounds(st, b); lo == hi {
			b, bc = u.Int(lo), true
		}
	}
	lo, hi := typeRange(t)
	switch op {
	case token.ADD, token.SUB:
		var res *Term
		if op == token.ADD {
			res = u.Add(a, b)
		} else {
			res = u.Sub(a, b)
		}
		if isUnsigned(t) {
			if l, h := r.bounds(st, res); l < 0 || h > hi && hi < inf {
				return u.mk(OBin, op.String(), 0, t, nil, a, b)
			}
		}
		if res.T == nil || !isIntConst(res) && res.Op == OLin {
			res.T = t
		}
		return res
	case token.MUL:
		if ac && bc {
			return u.Int(a.K * b.K)
		}
		if ac || bc {
			if ac {
				a, b = b, a
			}
			if b.K > -(1<<30) && b.K < 1<<30 && !isUnsigned(t) {
				l := u.lin(a)
				n := linForm{coef: map[*Term]int64{}, k: l.k * b.K}
				for x, c := range l.coef {
					n.coef[x] = c * b.K
				}
				return u.fromLin(n, t)
			}
		}
		if a.ID > b.ID {
			a, b = b, a
		}
	case token.QUO:
		if ac && bc && b.K != 0 {
			return u.Int(a.K / b.K)
		}
		if bc && b.K == 1 {
			return a
		}
	case token.REM:
		if ac && bc && b.K != 0 {
			return u.Int(a.K % b.K)
		}
		if bc && b.K == 1 {
			return u.Int(0)
		}
	case token.AND:
		if ac && bc {
			return u.Int(a.K & b.K)
		}
	case token.OR:
		if ac && bc {
			return u.Int(a.K | b.K)
		}
		if bc && b.K == 0 {
			return a
		}
		if ac && a.K == 0 {
			return b
		}
	case token.XOR:
		if ac && bc {
			return u.Int(a.K ^ b.K)
		}
	case token.SHL:
		if !ac && bc && b.K >= 0 && b.K < 30 && !isUnsigned(t) {
			return r.binop(st, token.MUL, a, u.Int(1<<uint(b.K)), t, xt)
		}
		if ac && bc && b.K >= 0 && b.K < 62 && abs64(a.K) < 1<<(62-uint(b.K)) {
			return u.Int(a.K << uint(b.K))
		}
	case token.SHR:
		if ac && bc && b.K >= 0 && b.K < 64 {
			return u.Int(a.K >> uint(b.K))
		}
		if bc && b.K == 0 {
			return a
		}
	case token.AND_NOT:
		if ac && bc {
			return u.Int(a.K &^ b.K)
		}
	}
	_ = lo
	if op == token.AND || op == token.OR || op == token.XOR {
		if a.ID > b.ID {
			a, b = b, a
		}
	}
	return u.mk(OBin, op.String(), 0, t, nil, a, b)
}

func abs64(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

// convFits: false if x is an unsigned word that may not fit in the signed type.
func (r *Run) convFits(st *State, x *Term, to, from types.Type) bool {
	word := func(t types.Type) bool {
		b, ok := basicOf(t)
		return ok && (b.Kind() == types.Uint || b.Kind() == types.Uint64 || b.Kind() == types.Uintptr)
	}
	if isUnsigned(to) || !word(from) {
		return true
	}
	return r.fitsSigned(st, x, 0)
}

// fitsSigned: the value of an unsigned word is that of a signed one.
func (r *Run) fitsSigned(st *State, x *Term, d int) bool {
	if d > 12 {
		return false
	}
	if _, hi := r.bounds(st, x); hi < inf {
		return true
	}
	if !isUnsigned(x.T) && x.Op != OLin {
		return true // the conversion to unsigned was found to keep the value
	}
	switch x.Op {
	case OLen:
		return true
	case OLin:
		for t, c := range r.U.lin(x).coef {
			if c != 1 || isUnsigned(t.T) {
				return false
			}
		}
		return true
	case OBin:
		a, b := x.Args[0], x.Args[1]
		switch x.Aux {
		case "%", "&":
			return r.fitsSigned(st, a, d+1) || r.fitsSigned(st, b, d+1)
		case "/":
			lo, _ := r.bounds(st, b)
			return lo >= 2 || r.fitsSigned(st, a, d+1)
		case ">>":
			lo, _ := r.bounds(st, b)
			return lo >= 1 || r.fitsSigned(st, a, d+1)
		}
	}
	return false
}

func (r *Run) convert(st *State, x *Term, to, from types.Type) *Term {
	if isIntType(to) && isIntType(from) {
		xlo, xhi := r.bounds(st, x)
		lo, hi := typeRange(to)
		if r.P.Cfg.GOARCH == "386" || r.P.Cfg.GOARCH == "arm" {
			if b, ok := basicOf(to); ok && (b.Kind() == types.Int || b.Kind() == types.Uint) {
				// word-sized values are assumed not to overflow
				if b.Kind() == types.Uint {
					lo = 0
				}
			}
		}
		if isUnsigned(to) && !isUnsigned(from) && xlo < 0 {
			return r.U.mk(OConv, typeKey(to), 0, to, nil, x)
		}
		if !r.convFits(st, x, to, from) {
			return r.U.mk(OConv, typeKey(to), 0, to, nil, x)
		}
		if xlo >= lo && xhi <= hi {
			return x
		}
		flo, fhi := typeRange(from)
		if lo <= flo && hi >= fhi {
			return x
		}
		return r.U.mk(OConv, typeKey(to), 0, to, nil, x)
	}
	if isIntConst(x) && !isIntType(to) {
		return r.U.mk(OConv, typeKey(to), 0, to, nil, x)
	}
	if types.Identical(to.Underlying(), from.Underlying()) {
		return x
	}
	return r.U.mk(OConv, typeKey(to), 0, to, nil, x)
}
