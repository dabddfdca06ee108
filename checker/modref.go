package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Class is an abstract memory location: a struct field (*types.Var), a package
// variable (*ssa.Global), a local variable (*ssa.Alloc), or a string for the
// elements of slices and maps and for anonymous cells.
type Class interface{}

// ModRef is the set of classes that a function may write and read, transitively.
type ModRef struct {
	Mod map[Class]bool
	Ref map[Class]bool
	All bool // calls unknown code (may write anything that is not local)
}

func newModRef() *ModRef { return &ModRef{Mod: map[Class]bool{}, Ref: map[Class]bool{}} }

func elemClass(t types.Type) Class { return "elem:" + types.TypeString(t, nil) }
func mapClass(t types.Type) Class  { return "map:" + types.TypeString(t.Underlying(), nil) }
func cellClass(t types.Type) Class { return "cell:" + types.TypeString(t, nil) }

// structOf returns the struct type behind t, nil if there is none.
func structOf(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func isOpaqueStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	return p == "sync" || p == "sync/atomic" || p == "math/big" || strings.HasPrefix(p, "internal/") || p == "text/tabwriter"
}

// leafClasses adds the classes of all the scalar leaves of a value of type t
// stored at an address of class c.
func leafClasses(t types.Type, c Class, add func(Class)) {
	if s := structOf(t); s != nil && !isOpaqueStruct(t) {
		for i := 0; i < s.NumFields(); i++ {
			leafClasses(s.Field(i).Type(), s.Field(i), add)
		}
		return
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		leafClasses(a.Elem(), elemClass(a.Elem()), add)
		return
	}
	add(c)
}

// addrClass gives the class of the location designated by an SSA address.
func addrClass(v ssa.Value) Class {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		st := structOf(v.X.Type().Underlying().(*types.Pointer).Elem())
		return st.Field(v.Field)
	case *ssa.IndexAddr:
		return elemClass(derefType(v.Type()))
	case *ssa.Global:
		return v
	case *ssa.Alloc:
		return v
	case *ssa.FreeVar:
		// the variable of the enclosing function, if it is unique
		if a := freeVarAlloc(v); a != nil {
			return a
		}
	}
	return cellClass(derefType(v.Type()))
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// freeVarAlloc finds the variable captured by a closure.
func freeVarAlloc(v *ssa.FreeVar) *ssa.Alloc {
	fn := v.Parent()
	idx := -1
	for i, f := range fn.FreeVars {
		if f == v {
			idx = i
		}
	}
	if idx < 0 || fn.Parent() == nil {
		return nil
	}
	var res *ssa.Alloc
	for _, b := range fn.Parent().Blocks {
		for _, i := range b.Instrs {
			if mc, ok := i.(*ssa.MakeClosure); ok && mc.Fn == fn {
				switch x := mc.Bindings[idx].(type) {
				case *ssa.Alloc:
					res = x
				case *ssa.FreeVar:
					res = freeVarAlloc(x)
				}
			}
		}
	}
	return res
}

// instrMod adds what one instruction writes; calls are given to onCall.
func (p *Prog) instrMod(i ssa.Instruction, m *ModRef, onCall func(c *ssa.CallCommon)) {
	add := func(c Class) { m.Mod[c] = true }
	ref := func(c Class) { m.Ref[c] = true }
	switch i := i.(type) {
	case *ssa.Store:
		leafClasses(i.Val.Type(), addrClass(i.Addr), add)
	case *ssa.MapUpdate:
		add(mapClass(i.Map.Type()))
	case *ssa.UnOp:
		if i.Op.String() == "*" {
			leafClasses(i.Type(), addrClass(i.X), ref)
		}
	case *ssa.Lookup:
		if _, ok := i.X.Type().Underlying().(*types.Map); ok {
			ref(mapClass(i.X.Type()))
		}
	case *ssa.Alloc:
		// a fresh variable; its previous contents are dead
		leafClasses(derefType(i.Type()), i, func(c Class) {
			if c == Class(i) {
				add(c)
			}
		})
	case ssa.CallInstruction:
		onCall(i.Common())
	}
}

// callMod gives the effect of a call: the callees in the package, or the effect
// of a builtin or external function.
func (p *Prog) callTargets(c *ssa.CallCommon) (fns []*ssa.Function, unknown bool) {
	if c.IsInvoke() {
		// implementations in the package
		for _, f := range p.Funcs {
			if f.Signature.Recv() == nil || f.Name() != c.Method.Name() || f.Synthetic != "" {
				continue
			}
			if types.Implements(f.Signature.Recv().Type(), c.Value.Type().Underlying().(*types.Interface)) {
				fns = append(fns, f)
			}
		}
		return fns, false
	}
	if f := c.StaticCallee(); f != nil {
		if p.isSrc(f) {
			return []*ssa.Function{f}, false
		}
		// an external function may call the closures it receives
		for _, a := range c.Args {
			if mc, ok := a.(*ssa.MakeClosure); ok {
				fns = append(fns, mc.Fn.(*ssa.Function))
			}
		}
		return fns, false
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil, false
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		return []*ssa.Function{mc.Fn.(*ssa.Function)}, false
	}
	if fns := funcVar(c.Value); fns != nil {
		return fns, false
	}
	return nil, true
}

func (p *Prog) builtinMod(c *ssa.CallCommon, m *ModRef) {
	add := func(c Class) { m.Mod[c] = true }
	sliceElems := func(t types.Type) {
		if s, ok := t.Underlying().(*types.Slice); ok {
			leafClasses(s.Elem(), elemClass(s.Elem()), add)
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			// writes beyond the end of the first operand only: the elements of
			// existing slices keep their values
		case "copy", "clear":
			sliceElems(c.Args[0].Type())
			if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
				add(mapClass(c.Args[0].Type()))
			}
		case "delete":
			add(mapClass(c.Args[0].Type()))
		}
		return
	}
	if f := c.StaticCallee(); f != nil && !p.isSrc(f) && f.Pkg != nil {
		switch f.Pkg.Pkg.Path() {
		case "encoding/binary":
			for _, a := range c.Args {
				sliceElems(a.Type())
			}
		case "sort", "slices":
			if len(c.Args) > 0 {
				t := c.Args[0].Type()
				if mi, ok := c.Args[0].(*ssa.MakeInterface); ok {
					t = mi.X.Type()
				}
				if f.Name() != "Search" && f.Name() != "SearchInts" && f.Name() != "Contains" && f.Name() != "Index" && f.Name() != "BinarySearch" && f.Name() != "IsSorted" {
					sliceElems(t)
				}
			}
		}
	}
}

// modref computes the transitive effects of fn.
func (p *Prog) modref(fn *ssa.Function) *ModRef {
	if m, ok := p.mods[fn]; ok {
		return m
	}
	// fixpoint over the functions reachable from fn
	reach := map[*ssa.Function]bool{}
	m := newModRef()
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if reach[f] {
			return
		}
		reach[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				p.instrMod(i, m, func(c *ssa.CallCommon) {
					p.builtinMod(c, m)
					fns, unk := p.callTargets(c)
					if unk {
						m.All = true
					}
					for _, g := range fns {
						visit(g)
					}
				})
				// a function created here may be called later
				if mc, ok := i.(*ssa.MakeClosure); ok {
					visit(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	visit(fn)
	p.mods[fn] = m
	return m
}

// Loop is a natural loop.
type Loop struct {
	Head   *ssa.BasicBlock
	Blocks map[*ssa.BasicBlock]bool
	Mod    *ModRef
}

// LoopInfo gives the loops of a function by header.
type LoopInfo struct {
	Heads map[*ssa.BasicBlock]*Loop
	Irr   bool // a cycle that is not a natural loop
}

func (p *Prog) loopsOf(fn *ssa.Function) *LoopInfo {
	if l, ok := p.loops[fn]; ok {
		return l
	}
	li := &LoopInfo{Heads: map[*ssa.BasicBlock]*Loop{}}
	p.loops[fn] = li
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.Heads[s]
				if l == nil {
					l = &Loop{Head: s, Blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.Heads[s] = l
				}
				// blocks that reach b without s
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if l.Blocks[x] {
						return
					}
					l.Blocks[x] = true
					for _, q := range x.Preds {
						up(q)
					}
				}
				up(b)
			}
		}
	}
	for _, l := range li.Heads {
		l.Mod = newModRef()
		for b := range l.Blocks {
			for _, i := range b.Instrs {
				p.instrMod(i, l.Mod, func(c *ssa.CallCommon) {
					p.builtinMod(c, l.Mod)
					fns, unk := p.callTargets(c)
					if unk {
						l.Mod.All = true
					}
					for _, g := range fns {
						gm := p.modref(g)
						for k := range gm.Mod {
							l.Mod.Mod[k] = true
						}
						for k := range gm.Ref {
							l.Mod.Ref[k] = true
						}
						l.Mod.All = l.Mod.All || gm.All
					}
				})
			}
		}
	}
	// irreducible cycles: a DFS back edge to a block that does not dominate
	state := make([]int, len(fn.Blocks))
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		state[b.Index] = 1
		for _, s := range b.Succs {
			if state[s.Index] == 1 && !s.Dominates(b) {
				li.Irr = true
			}
			if state[s.Index] == 0 {
				dfs(s)
			}
		}
		state[b.Index] = 2
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	return li
}

// noEffects: the function changes nothing that exists when it is called.
func (p *Prog) noEffects(fn *ssa.Function) bool {
	if v, ok := p.pure[fn]; ok {
		return v
	}
	if m := p.modref(fn); m.All {
		return false
	}
	var fresh func(v ssa.Value, f *ssa.Function) bool
	fresh = func(v ssa.Value, f *ssa.Function) bool {
		switch v := v.(type) {
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
			return true
		case *ssa.FieldAddr:
			return fresh(v.X, f)
		case *ssa.IndexAddr:
			return fresh(v.X, f)
		case *ssa.Slice:
			return fresh(v.X, f)
		}
		return false
	}
	seen := map[*ssa.Function]bool{}
	ok := true
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || !ok {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.Store:
					if !fresh(i.Addr, f) {
						ok = false
					}
				case *ssa.MapUpdate:
					if !fresh(i.Map, f) {
						ok = false
					}
				case *ssa.Send, *ssa.Go:
					ok = false
				case *ssa.MakeClosure:
					visit(i.Fn.(*ssa.Function))
				case ssa.CallInstruction:
					m := newModRef()
					p.builtinMod(i.Common(), m)
					if len(m.Mod) > 0 && !(len(i.Common().Args) > 0 && fresh(i.Common().Args[0], f)) {
						ok = false
					}
					fns, unk := p.callTargets(i.Common())
					if unk {
						ok = false
					}
					for _, g := range fns {
						visit(g)
					}
				}
			}
		}
	}
	visit(fn)
	if p.pure == nil {
		p.pure = map[*ssa.Function]bool{}
	}
	p.pure[fn] = ok
	return ok
}
