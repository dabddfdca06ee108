package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// doCall interprets a call: builtins, package functions (inlined, or replaced by
// their contract when recursive), modelled library functions, and unknown code.
func (r *Run) doCall(f *Frame, c *ssa.CallCommon, fnv *Term, args []*Term, instr ssa.Instruction, st *State, k cont) {
	if r.abort != "" {
		return
	}
	sig := c.Signature()
	if c.IsInvoke() {
		r.invoke(f, c, fnv, args, instr, st, k)
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		r.builtin(f, b, c, args, instr, st, k)
		return
	}
	if fnv.Op == OClosure {
		fn := fnv.Aux.(*ssa.Function)
		r.callFn(f, fn, fnv.Args, args, sig, instr, st, k)
		return
	}
	if fnv.Op == OUn && fnv.Aux == "bound" {
		// not produced
	}
	// a function we know nothing about
	res := r.results("callback", nil, sig, args, st)
	r.event(st, &Event{Kind: EvCallback, Args: append([]*Term{fnv}, args...), Val: first(res), Instr: instr, In: f.fn, Mem: copyMem(st.mem)})
	r.havocCall(st, r.withClosures(&ModRef{All: true, Mod: map[Class]bool{}}, args))
	k(st, res)
}

func first(l []*Term) *Term {
	if len(l) > 0 {
		return l[0]
	}
	return nil
}

func (u *Universe) getCallInfo(name string, fn *ssa.Function) *callInfo {
	if c, ok := u.callInfos[name]; ok {
		return c
	}
	c := &callInfo{Name: name, Fn: fn}
	u.callInfos[name] = c
	return c
}

// results makes fresh results for an opaque call.
func (r *Run) results(name string, fn *ssa.Function, sig *types.Signature, args []*Term, st *State) []*Term {
	n := sig.Results().Len()
	if n == 0 {
		return nil
	}
	seq := r.U.fresh()
	var t types.Type
	if n == 1 {
		t = sig.Results().At(0).Type()
	}
	c := r.U.mk(OCall, r.U.getCallInfo(name, fn), seq, t, nil, args...)
	if n == 1 {
		return []*Term{c}
	}
	res := make([]*Term, n)
	for i := range res {
		res[i] = r.U.mk(OExtr, nil, int64(i), sig.Results().At(i).Type(), nil, c)
	}
	return res
}

func (r *Run) callFn(f *Frame, fn *ssa.Function, bind, args []*Term, sig *types.Signature, instr ssa.Instruction, st *State, k cont) {
	if r.Intercept != nil && r.Intercept(r, st, fn, args, instr, k) {
		return
	}
	if !r.P.isSrc(fn) {
		r.external(f, fn, args, sig, instr, st, k)
		return
	}
	if r.NoInline[fn] {
		r.head(f, fn, args, sig, instr, st, k)
		return
	}
	if r.isHead(f, fn) {
		if len(bind) > 0 && r.OnClosure != nil && r.Entry != fn {
			r.OnClosure(r, st, fn, bind)
		}
		r.head(f, fn, args, sig, instr, st, k)
		return
	}
	r.event(st, &Event{Kind: EvEnter, Fn: fn, Args: args, Instr: instr, In: f.fn, Depth: f.depth})
	nf := &Frame{fn: fn, env: map[ssa.Value]*Term{}, parent: f, call: instr, id: r.U.fresh(), depth: f.depth + 1}
	if nf.depth > 60 {
		r.undecided(st, fn.Pos(), "inlining too deep in "+fname(fn))
		return
	}
	for i, p := range fn.Params {
		if i < len(args) {
			nf.env[p] = args[i]
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(bind) {
			nf.env[v] = bind[i]
		}
	}
	r.Funcs[fn] = true
	if r.P.loopsOf(fn).Irr {
		r.undecided(st, fn.Pos(), "irreducible control flow in "+fname(fn))
		return
	}
	r.block(nf, fn.Blocks[0], nil, st, func(st *State, res []*Term) {
		r.event(st, &Event{Kind: EvLeave, Fn: fn, Args: res, Instr: instr, In: f.fn, Depth: f.depth})
		k(st, res)
	})
}

// isHead tells whether a call must be replaced by the contract of its callee:
// the callee is recursive, and it is either where the recursion is entered from
// outside or already being interpreted.
func (r *Run) isHead(f *Frame, fn *ssa.Function) bool {
	if r.IsHead != nil {
		return r.IsHead(fn)
	}
	if !r.P.recursive(fn) {
		return false
	}
	for x := f; x != nil; x = x.parent {
		if x.fn == fn {
			return true
		}
	}
	return r.P.sccEntry(fn)
}

// sccEntry: fn is called from outside of its component.
func (p *Prog) sccEntry(fn *ssa.Function) bool {
	if p.entries == nil {
		p.entries = map[*ssa.Function]bool{}
		for _, g := range p.Funcs {
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					if c, ok := i.(ssa.CallInstruction); ok {
						for _, h := range p.callees(c.Common()) {
							if !p.sameSCC(g, h) {
								p.entries[h] = true
							}
						}
					}
				}
			}
		}
	}
	return p.entries[fn]
}

func (r *Run) head(f *Frame, fn *ssa.Function, args []*Term, sig *types.Signature, instr ssa.Instruction, st *State, k cont) {
	seq := r.U.fresh()
	hi := r.P.headInfo(fn)
	n := sig.Results().Len()
	e := &Event{Kind: EvHead, Fn: fn, Args: args, Instr: instr, In: f.fn, Mem: copyMem(st.mem), Zone: st.zone.Clone()}
	var res []*Term
	if n == 1 {
		res = []*Term{r.U.mk(OHead, hi, seq, sig.Results().At(0).Type(), nil, args...)}
	} else if n > 1 {
		t := r.U.mk(OHead, hi, seq, sig.Results(), nil, args...)
		for i := 0; i < n; i++ {
			res = append(res, r.U.mk(OExtr, nil, int64(i), sig.Results().At(i).Type(), nil, t))
		}
	}
	if len(res) > 0 {
		e.Val = res[0]
	}
	r.event(st, e)
	// effects
	var keep []*Term
	if r.Preserved != nil {
		keep = r.Preserved(fn)
	}
	vals := make([]*Term, len(keep))
	for i, a := range keep {
		vals[i] = r.loadMem(st, st.mem, a, derefType(a.T))
	}
	r.havocCall(st, r.withClosures(r.P.modref(fn), args))
	for i, a := range keep {
		c := termClass(a)
		m := r.classOf(st, c)
		seq := r.U.fresh()
		st.mem[c] = &classMem{base: m.base, writes: append(append([]write{}, m.writes...), write{a, vals[i], seq})}
	}
	if r.HeadRes != nil {
		r.HeadRes(r, st, fn, args, res)
	}
	k(st, res)
}

func (p *Prog) headInfo(fn *ssa.Function) *headInfo {
	if p.heads == nil {
		p.heads = map[*ssa.Function]*headInfo{}
	}
	h := p.heads[fn]
	if h == nil {
		h = &headInfo{Fn: fn}
		p.heads[fn] = h
	}
	return h
}

func (r *Run) invoke(f *Frame, c *ssa.CallCommon, recv *Term, args []*Term, instr ssa.Instruction, st *State, k cont) {
	sig := c.Signature()
	if recv.Op == ONil {
		r.undecided(st, instr.Pos(), "method call on a nil interface")
		return
	}
	if recv.Op == OIface && recv.T != nil {
		ms := r.P.SSA.MethodSets.MethodSet(recv.T)
		if sel := ms.Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
			if fn := r.P.SSA.MethodValue(sel); fn != nil && r.P.isSrc(fn) {
				r.callFn(f, fn, nil, append([]*Term{recv.Args[0]}, args...), sig, instr, st, k)
				return
			}
		}
	}
	name := types.TypeString(c.Value.Type(), func(p *types.Package) string { return p.Name() }) + "." + c.Method.Name()
	// an interface of the package with a single implementation
	it := c.Value.Type().Underlying().(*types.Interface)
	if n, ok := c.Value.Type().(*types.Named); ok && n.Obj().Pkg() == r.P.Types {
		fns, _ := r.P.callTargets(c)
		if len(fns) == 1 {
			rt := fns[0].Signature.Recv().Type()
			x := r.U.mk(OUn, "impl "+typeKey(rt), 0, rt, nil, recv)
			st.facts[r.eqTerm(x, r.U.Nil())] = false
			r.callFn(f, fns[0], nil, append([]*Term{x}, args...), sig, instr, st, k)
			return
		}
	}
	_ = it
	res := r.results(name, nil, sig, append([]*Term{recv}, args...), st)
	r.event(st, &Event{Kind: EvCall, Name: name, Args: append([]*Term{recv}, args...), Val: first(res), Instr: instr, In: f.fn})
	k(st, res)
}

func (r *Run) builtin(f *Frame, b *ssa.Builtin, c *ssa.CallCommon, args []*Term, instr ssa.Instruction, st *State, k cont) {
	u := r.U
	switch b.Name() {
	case "len":
		k(st, []*Term{r.lenOf(st, args[0], c.Args[0].Type())})
	case "cap":
		t := u.mk(OUn, "cap", 0, types.Typ[types.Int], nil, args[0])
		r.assumeLE(st, r.lenOf(st, args[0], c.Args[0].Type()), t)
		k(st, []*Term{t})
	case "append":
		base := args[0]
		var res *Term
		if len(args) == 1 {
			res = base
		} else if x := args[1]; x.Op == OSlice && x.Args[0].Op == OAlloc && isIntConst(x.Args[2]) && isIntConst(x.Args[1]) {
			// append(base, v1, ..., vn): the array of the variadic argument
			n := x.Args[2].K
			l := []*Term{base}
			et := c.Args[1].Type().Underlying().(*types.Slice).Elem()
			for i := int64(0); i < n; i++ {
				l = append(l, r.load(st, u.IA(x.Args[0], u.Int(x.Args[1].K+i), et), et))
			}
			if base.Op == OAppend {
				l = append(append([]*Term{}, base.Args...), l[1:]...)
			}
			res = u.mk(OAppend, nil, 0, c.Args[0].Type(), nil, l...)
		} else {
			res = u.mk(OAppendS, nil, u.fresh(), c.Args[0].Type(), nil, base, x)
		}
		r.event(st, &Event{Kind: EvAppend, Args: args, Val: res, Instr: instr, In: f.fn})
		k(st, []*Term{res})
	case "copy":
		r.event(st, &Event{Kind: EvCall, Name: "copy", Args: args, Instr: instr, In: f.fn, Mem: copyMem(st.mem)})
		m := newModRef()
		r.P.builtinMod(c, m)
		pre := copyMem(st.mem)
		r.havocElems(st, m)
		r.afterCopy(st, pre, args)
		k(st, []*Term{u.Fresh("copied", types.Typ[types.Int])})
	case "delete":
		r.event(st, &Event{Kind: EvMapDel, Args: args, Instr: instr, In: f.fn})
		m := newModRef()
		r.P.builtinMod(c, m)
		r.havocSet(st, m, nil)
		for t := range st.tags {
			if len(t) > 4 && t[:4] == "map:" {
				delete(st.tags, t)
			}
		}
		k(st, nil)
	case "panic":
		r.out(&Outcome{Kind: OutPanic, St: st, Why: "panic at " + r.P.pos(instr.Pos()), Pos: instr.Pos()})
	case "print", "println":
		k(st, nil)
	case "min", "max":
		if len(args) == 2 && intish(args[0]) && intish(args[1]) {
			// split on the order
			st2 := st.clone()
			a, bb := args[0], args[1]
			if b.Name() == "max" {
				a, bb = bb, a
			}
			c := r.le(st, args[0], args[1])
			if t := r.truth(st, c); t != no {
				if r.assume(st, c, true) {
					k(st, []*Term{a})
				}
			}
			if t := r.truth(st2, c); t != yes {
				if r.assume(st2, c, false) {
					k(st2, []*Term{bb})
				}
			}
			return
		}
		res := u.Fresh(b.Name(), c.Signature().Results().At(0).Type())
		k(st, []*Term{res})
	case "clear":
		m := newModRef()
		r.P.builtinMod(c, m)
		r.havocSet(st, m, nil)
		r.event(st, &Event{Kind: EvCall, Name: "clear", Args: args, Instr: instr, In: f.fn})
		k(st, nil)
	case "recover":
		k(st, []*Term{u.Nil()})
	case "ssa:wrapnilchk":
		k(st, []*Term{args[0]})
	default:
		res := r.results("builtin "+b.Name(), nil, c.Signature(), args, st)
		k(st, res)
	}
}

// afterCopy records that the elements of the destination with an index below
// both lengths are those of the source (kept as a tag for the clients).
func (r *Run) afterCopy(st *State, pre map[Class]*classMem, args []*Term) {}

func (r *Run) lenOf(st *State, x *Term, t types.Type) *Term {
	if _, ok := t.Underlying().(*types.Map); ok {
		return r.U.mk(OUn, "maplen", r.classOf(st, mapClass(t)).base, types.Typ[types.Int], nil, x)
	}
	l := r.length(st, x, t)
	if l.Op == OLen {
		r.declare(st, l)
	}
	return l
}

// external models a library function.
func (r *Run) external(f *Frame, fn *ssa.Function, args []*Term, sig *types.Signature, instr ssa.Instruction, st *State, k cont) {
	name := extName(fn)
	u := r.U
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		op := fn.Name()
		r.event(st, &Event{Kind: EvLock, Name: op, Addr: args[0], Instr: instr, In: f.fn})
		switch op {
		case "Lock":
			st.locks = append(append([]lockHeld{}, st.locks...), lockHeld{args[0], 'W'})
		case "RLock":
			st.locks = append(append([]lockHeld{}, st.locks...), lockHeld{args[0], 'R'})
		default:
			mode := byte('W')
			if op == "RUnlock" {
				mode = 'R'
			}
			for i := len(st.locks) - 1; i >= 0; i-- {
				if st.locks[i].mu == args[0] && st.locks[i].mode == mode {
					st.locks = append(append([]lockHeld{}, st.locks[:i]...), st.locks[i+1:]...)
					break
				}
			}
		}
		k(st, nil)
		return
	case "sort.Ints", "sort.Slice", "sort.Sort", "sort.Stable", "sort.SliceStable", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc":
		m := newModRef()
		if c, ok := instr.(ssa.CallInstruction); ok {
			r.P.builtinMod(c.Common(), m)
		}
		r.event(st, &Event{Kind: EvCall, Name: name, Fn: fn, Args: args, Instr: instr, In: f.fn, Mem: copyMem(st.mem)})
		r.havocElems(st, m)
		k(st, nil)
		return
	case "(encoding/binary.littleEndian).PutUint16", "(encoding/binary.littleEndian).PutUint32", "(encoding/binary.littleEndian).PutUint64",
		"(encoding/binary.bigEndian).PutUint16", "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.bigEndian).PutUint64":
		n := int64(2)
		if strings.HasSuffix(name, "32") {
			n = 4
		} else if strings.HasSuffix(name, "64") {
			n = 8
		}
		buf, val := args[1], args[2]
		byteT := types.Typ[types.Uint8]
		r.indexEvent(st, f, instr, buf, u.Int(n-1), sig.Params().At(0).Type())
		for i := int64(0); i < n && !st.dead; i++ {
			at := i
			if strings.Contains(name, "bigEndian") {
				at = n - 1 - i
			}
			part := r.binop(st, token.SHR, val, u.Int(8*i), sig.Params().At(1).Type(), sig.Params().At(1).Type())
			r.store(st, u.IA(buf, u.Int(at), byteT), r.convert(st, part, byteT, sig.Params().At(1).Type()), byteT, instr, f.fn)
		}
		k(st, nil)
		return
	case "sort.Search", "sort.SearchInts":
		t := u.Fresh(name, types.Typ[types.Int])
		hi := args[0]
		if name == "sort.SearchInts" {
			hi = r.length(st, args[0], nil)
		}
		r.event(st, &Event{Kind: EvCall, Name: name, Fn: fn, Args: args, Val: t, Instr: instr, In: f.fn, Mem: copyMem(st.mem)})
		r.assumeLE(st, u.Int(0), t)
		r.assumeLE(st, t, hi)
		k(st, []*Term{t})
		return
	case "log.Panicf", "log.Panic", "log.Panicln", "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit":
		r.event(st, &Event{Kind: EvCall, Name: name, Fn: fn, Args: args, Instr: instr, In: f.fn})
		r.out(&Outcome{Kind: OutPanic, St: st, Why: name + " at " + r.P.pos(instr.Pos()), Pos: instr.Pos()})
		return
	}
	res := r.results(name, fn, sig, args, st)
	r.event(st, &Event{Kind: EvCall, Name: name, Fn: fn, Args: args, Val: first(res), Instr: instr, In: f.fn})
	if m := r.withClosures(nil, args); m != nil {
		r.havocCall(st, m)
	}
	k(st, res)
}

// withClosures adds the effects of the functions that are given in the arguments.
func (r *Run) withClosures(m *ModRef, args []*Term) *ModRef {
	res := m
	for _, a := range args {
		for a != nil && a.Op == OIface {
			a = a.Args[0]
		}
		if a == nil || a.Op != OClosure {
			continue
		}
		g, ok := a.Aux.(*ssa.Function)
		if !ok || !r.P.isSrc(g) {
			continue
		}
		gm := r.P.modref(g)
		if len(gm.Mod) == 0 && !gm.All {
			continue
		}
		if res == m {
			res = newModRef()
			if m != nil {
				res.All = m.All
				for k := range m.Mod {
					res.Mod[k] = true
				}
			}
		}
		res.All = res.All || gm.All
		for k := range gm.Mod {
			res.Mod[k] = true
		}
	}
	return res
}

func extName(fn *ssa.Function) string {
	if fn.Object() != nil {
		if o, ok := fn.Object().(*types.Func); ok {
			return o.FullName()
		}
	}
	return fn.String()
}

var _ = token.NoPos
var _ = fmt.Sprint

// interpInit interprets the package initialisation, so that package variables
// that are assigned only there have a known value.
func (p *Prog) interpInit(u *Universe) (vals map[*ssa.Global]*Term, mem map[*Term]*Term, why string) {
	r := NewRun(p, u)
	init := p.Pkg.Func("init")
	if init == nil {
		return nil, nil, "no init"
	}
	r.Intercept = func(r *Run, st *State, fn *ssa.Function, args []*Term, instr ssa.Instruction, k func(*State, []*Term)) bool {
		if fn.Name() == "init" && fn != init && fn.Pkg != p.Pkg {
			k(st, nil)
			return true
		}
		return false
	}
	// the init guard is false
	outs := r.Exec(init, nil, func() *State {
		st := r.NewState()
		if g, ok := p.Pkg.Members["init$guard"].(*ssa.Global); ok {
			a := u.mk(OGlobal, g, 0, g.Type(), nil)
			st.mem[Class(g)] = &classMem{writes: []write{{a, u.Bool(false), u.fresh()}}}
		}
		return st
	})
	var final *State
	for _, o := range outs {
		if o.Kind == OutReturn && final == nil {
			final = o.St
		} else {
			return nil, nil, "package initialisation has several outcomes: " + o.Why
		}
	}
	if final == nil {
		return nil, nil, "package initialisation is not understood"
	}
	u.initSeq = u.seq
	// globals stored outside of init
	stored := map[*ssa.Global]bool{}
	escaped := map[*ssa.Global]bool{}
	for _, f := range p.Funcs {
		if f == init {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok {
					if g := globalRoot(s.Addr); g != nil {
						stored[g] = true
					}
				}
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						switch x := i.(type) {
						case *ssa.UnOp, *ssa.IndexAddr, *ssa.FieldAddr:
						case *ssa.Store:
							if x.Val == g {
								escaped[g] = true
							}
						default:
							escaped[g] = true
						}
					}
				}
			}
		}
	}
	vals = map[*ssa.Global]*Term{}
	mem = map[*Term]*Term{}
	p.globalInit = map[*ssa.Global]*Term{}
	for c, m := range final.mem {
		for _, w := range m.writes {
			root := rootOf(w.addr)
			if root.Op == OGlobal {
				g := root.Aux.(*ssa.Global)
				if w.addr == root {
					p.globalInit[g] = w.val
				}
				if stored[g] || escaped[g] {
					continue
				}
				if w.addr == root {
					vals[g] = w.val
				} else {
					mem[w.addr] = w.val
				}
			} else if root.Op == OAlloc {
				mem[w.addr] = w.val
			}
		}
		_ = c
	}
	// zero-initialised parts of constant tables
	for _, m := range p.Pkg.Members {
		if g, ok := m.(*ssa.Global); ok && !stored[g] && !escaped[g] {
			a := u.mk(OGlobal, g, 0, g.Type(), nil)
			p.fillZero(u, r, a, derefType(g.Type()), mem, vals, 0)
		}
	}
	p.constGlobals = map[*ssa.Global]bool{}
	p.constLists = map[*Term]bool{}
	for g, v := range vals {
		p.constGlobals[g] = true
		// lists whose elements are only read
		if _, ok := derefType(g.Type()).Underlying().(*types.Slice); ok && v.Op != ONil && readOnlyList(p, g) {
			root := rootOf(v)
			if v.Op == OSlice {
				root = rootOf(v.Args[0])
			}
			if root.Op != OAlloc {
				continue
			}
			shared := false
			for h, w := range vals {
				if h != g && mentions(w, func(t *Term) bool { return t == root }) {
					shared = true
				}
			}
			for _, w := range mem {
				if mentions(w, func(t *Term) bool { return t == root }) {
					shared = true
				}
			}
			if !shared {
				p.constLists[root] = true
			}
		}
	}
	return vals, mem, ""
}

func globalRoot(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

func (p *Prog) fillZero(u *Universe, r *Run, a *Term, t types.Type, mem map[*Term]*Term, vals map[*ssa.Global]*Term, d int) {
	if d > 4 {
		return
	}
	switch tt := t.Underlying().(type) {
	case *types.Array:
		if tt.Len() > 64 {
			return
		}
		for i := int64(0); i < tt.Len(); i++ {
			p.fillZero(u, r, u.IA(a, u.Int(i), tt.Elem()), tt.Elem(), mem, vals, d+1)
		}
	case *types.Struct:
		if isOpaqueStruct(t) {
			return
		}
		for i := 0; i < tt.NumFields(); i++ {
			p.fillZero(u, r, u.FA(a, tt.Field(i)), tt.Field(i).Type(), mem, vals, d+1)
		}
	default:
		if a.Op == OGlobal {
			if _, ok := vals[a.Aux.(*ssa.Global)]; !ok {
				vals[a.Aux.(*ssa.Global)] = r.zero(t)
			}
			return
		}
		if _, ok := mem[a]; !ok {
			mem[a] = r.zero(t)
		}
	}
}
