package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// An inclusion-based points-to analysis of the package: flow- and
// context-insensitive, with objects named by allocation site and contents
// separated by field.

// obj is an abstract object.
type obj struct {
	kind string    // alloc, global, arg, argelem, ext, func, const
	val  ssa.Value // allocation site, global or function
	fn   *ssa.Function
	name string

	writer bool // something to write in, given by the user
}

func (o *obj) String() string { return o.kind + " " + o.name }

// ploc is an address: an object, or one of its fields (or its elements).
type ploc struct {
	o *obj
	f Class // nil: the object itself
}

const elemF = "elem"

type ptset map[ploc]bool

type PTS struct {
	P    *Prog
	val  map[ssa.Value]ptset
	ret  map[*ssa.Function][]ptset
	mem  map[ploc]ptset
	objs map[interface{}]*obj
	args map[*ssa.Function]bool // entry points: their parameters are user data
	ch   bool
	// calls of user code
	userCalls []ssa.CallInstruction
	escFuncs  map[*ssa.Function]bool // handed to the user or to the runtime
}

func (p *PTS) obj(key interface{}, kind string, v ssa.Value, fn *ssa.Function, name string) *obj {
	if o, ok := p.objs[key]; ok {
		return o
	}
	o := &obj{kind: kind, val: v, fn: fn, name: name}
	p.objs[key] = o
	return o
}

func (p *PTS) add(dst ptset, src ptset) {
	for l := range src {
		if !dst[l] {
			dst[l] = true
			p.ch = true
		}
	}
}

func (p *PTS) addOne(dst ptset, l ploc) {
	if !dst[l] {
		dst[l] = true
		p.ch = true
	}
}

func pointerLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointerLike(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return pointerLike(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if pointerLike(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

// of gives what a value may point to.
func (p *PTS) of(v ssa.Value) ptset {
	if s, ok := p.val[v]; ok {
		return s
	}
	s := ptset{}
	p.val[v] = s
	switch x := v.(type) {
	case *ssa.Global:
		s[ploc{p.obj(x, "global", x, nil, x.Name()), nil}] = true
	case *ssa.Function:
		s[ploc{p.obj(x, "func", x, x, fname(x)), nil}] = true
	}
	return s
}

func (p *PTS) cell(l ploc) ptset {
	if s, ok := p.mem[l]; ok {
		return s
	}
	s := ptset{}
	p.mem[l] = s
	return s
}

// cells lists the cells that hold a value of type t stored at address l.
func (p *PTS) cells(l ploc, t types.Type, f func(ploc)) {
	if st := structOf(t); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			if pointerLike(st.Field(i).Type()) {
				p.cells(ploc{l.o, st.Field(i)}, st.Field(i).Type(), f)
			}
		}
		return
	}
	f(l)
}

func elemLoc(l ploc) ploc {
	if l.f == nil {
		return ploc{l.o, elemF}
	}
	return l
}

// userValue creates the objects behind a value given by the user.
func (p *PTS) userValue(key string, t types.Type, dst ptset, kind string, d int) {
	if d > 3 || !pointerLike(t) {
		return
	}
	o := p.obj("user:"+key, kind, nil, nil, key)
	switch u := t.Underlying().(type) {
	case *types.Slice:
		p.addOne(dst, ploc{o, nil})
		if pointerLike(u.Elem()) {
			p.userValue(key+"[]", u.Elem(), p.cell(ploc{o, elemF}), "argelem", d+1)
		}
	case *types.Pointer:
		if n, ok := u.Elem().(*types.Named); ok && n.Obj().Pkg() == p.P.Types {
			// an object created by the package
			for _, f := range p.P.Funcs {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if a, ok := in.(*ssa.Alloc); ok && types.Identical(a.Type(), types.NewPointer(n)) {
							p.addOne(dst, ploc{p.allocObj(a), nil})
						}
					}
				}
			}
			return
		}
		p.addOne(dst, ploc{o, nil})
	case *types.Interface:
		o.writer = userIface(t)
		p.addOne(dst, ploc{o, nil})
		for _, f := range p.P.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if m, ok := in.(*ssa.MakeInterface); ok && u.NumMethods() > 0 && types.Implements(m.X.Type(), u) {
						p.add(dst, p.of(m.X))
					}
				}
			}
		}
	default:
		p.addOne(dst, ploc{o, nil})
	}
}

func (p *PTS) allocObj(v ssa.Value) *obj {
	fn := v.Parent()
	return p.obj(v, "alloc", v, fn, fname(fn)+":"+v.Name()+" "+v.Type().String())
}

func newPTS(P *Prog, entries []*ssa.Function) *PTS {
	p := &PTS{P: P, val: map[ssa.Value]ptset{}, ret: map[*ssa.Function][]ptset{}, mem: map[ploc]ptset{}, objs: map[interface{}]*obj{},
		args: map[*ssa.Function]bool{}, escFuncs: map[*ssa.Function]bool{}}
	for _, f := range entries {
		p.args[f] = true
	}
	for i := 0; i < 200; i++ {
		p.ch = false
		p.userCalls = nil
		for f := range p.args {
			for _, q := range f.Params {
				p.userValue(fname(f)+"."+q.Name(), q.Type(), p.of(q), "arg", 0)
			}
		}
		// functions handed to the user
		for f := range p.escFuncs {
			for _, q := range f.Params {
				p.userValue(fname(f)+"."+q.Name(), q.Type(), p.of(q), "arg", 0)
			}
		}
		for _, f := range P.Funcs {
			p.function(f)
		}
		for f := range p.args {
			for i, s := range p.rets(f) {
				if _, ok := f.Signature.Results().At(i).Type().Underlying().(*types.Signature); ok {
					for l := range s {
						if l.o.kind == "func" && !p.escFuncs[l.o.fn] {
							p.escFuncs[l.o.fn] = true
							p.ch = true
						}
					}
				}
			}
		}
		if !p.ch {
			break
		}
	}
	return p
}

func (p *PTS) rets(f *ssa.Function) []ptset {
	r, ok := p.ret[f]
	if !ok {
		for i := 0; i < f.Signature.Results().Len(); i++ {
			r = append(r, ptset{})
		}
		p.ret[f] = r
	}
	return r
}

func (p *PTS) store(addr ptset, t types.Type, v ptset) {
	for l := range addr {
		p.cells(l, t, func(c ploc) { p.add(p.cell(c), v) })
	}
}

func (p *PTS) function(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			p.instr(f, in)
		}
	}
}

func (p *PTS) instr(f *ssa.Function, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Store:
		if pointerLike(x.Val.Type()) {
			p.store(p.of(x.Addr), x.Val.Type(), p.of(x.Val))
		}
		return
	case *ssa.MapUpdate:
		for l := range p.of(x.Map) {
			if pointerLike(x.Value.Type()) {
				p.add(p.cell(elemLoc(l)), p.of(x.Value))
			}
			if pointerLike(x.Key.Type()) {
				p.add(p.cell(elemLoc(l)), p.of(x.Key))
			}
		}
		return
	case *ssa.Return:
		for i, r := range x.Results {
			if pointerLike(r.Type()) {
				p.add(p.rets(f)[i], p.of(r))
			}
		}
		return
	case ssa.CallInstruction:
		p.call(f, x)
		return
	}
	v, ok := in.(ssa.Value)
	if !ok || !pointerLike(v.Type()) {
		return
	}
	dst := p.of(v)
	switch x := in.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		p.addOne(dst, ploc{p.allocObj(v), nil})
	case *ssa.FieldAddr:
		fl := structOf(derefType(x.X.Type())).Field(x.Field)
		for l := range p.of(x.X) {
			p.addOne(dst, ploc{l.o, fl})
		}
	case *ssa.Field:
		p.add(dst, p.of(x.X))
	case *ssa.IndexAddr:
		for l := range p.of(x.X) {
			p.addOne(dst, elemLoc(l))
		}
	case *ssa.Index:
		p.add(dst, p.of(x.X))
	case *ssa.Slice:
		p.add(dst, p.of(x.X))
	case *ssa.Lookup:
		for l := range p.of(x.X) {
			p.add(dst, p.cell(elemLoc(l)))
		}
	case *ssa.Range:
		p.add(dst, p.of(x.X))
	case *ssa.Next:
		for l := range p.of(x.Iter) {
			p.add(dst, p.cell(elemLoc(l)))
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			for l := range p.of(x.X) {
				p.cells(l, x.Type(), func(c ploc) { p.add(dst, p.cell(c)) })
			}
		} else {
			p.add(dst, p.of(x.X))
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			p.add(dst, p.of(e))
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if fns, ok := p.targets(c.Common()); ok {
				for _, g := range fns {
					if r := p.rets(g); x.Index < len(r) {
						p.add(dst, r[x.Index])
					}
				}
				return
			}
		}
		p.add(dst, p.of(x.Tuple))
	case *ssa.MakeClosure:
		g := x.Fn.(*ssa.Function)
		p.addOne(dst, ploc{p.obj(g, "func", g, g, fname(g)), nil})
		for i, b := range x.Bindings {
			p.add(p.of(g.FreeVars[i]), p.of(b))
		}
	default:
		for _, op := range in.Operands(nil) {
			if *op != nil && pointerLike((*op).Type()) {
				p.add(dst, p.of(*op))
			}
		}
	}
}

// targets resolves a call to functions of the package; false when some target
// is outside.
func (p *PTS) targets(c *ssa.CallCommon) ([]*ssa.Function, bool) {
	if c.IsInvoke() {
		fns, _ := p.P.callTargets(c)
		return fns, len(fns) > 0
	}
	if g := c.StaticCallee(); g != nil {
		return []*ssa.Function{g}, p.P.isSrc(g)
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil, false
	}
	var fns []*ssa.Function
	for l := range p.of(c.Value) {
		if l.o.kind == "func" && p.P.isSrc(l.o.fn) {
			fns = append(fns, l.o.fn)
		} else if l.o.kind != "func" {
			// a function given by the user: maybe one that the package returned
			for g := range p.escFuncs {
				if types.Identical(g.Signature, c.Signature()) {
					fns = append(fns, g)
				}
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	return fns, len(fns) > 0
}

func (p *PTS) call(f *ssa.Function, ci ssa.CallInstruction) {
	c := ci.Common()
	v := ci.Value()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			dst := p.of(v)
			p.add(dst, p.of(c.Args[0]))
			o := p.allocObj(v)
			p.addOne(dst, ploc{o, nil})
			et := v.Type().Underlying().(*types.Slice).Elem()
			if pointerLike(et) {
				for _, a := range c.Args {
					for l := range p.of(a) {
						p.cells(elemLoc(l), et, func(cl ploc) {
							src := p.cell(cl)
							for d := range dst {
								nd := ploc{d.o, cl.f}
								if cl.f == elemF || structOf(et) == nil {
									nd = elemLoc(d)
								}
								p.add(p.cell(nd), src)
							}
						})
					}
				}
			}
		case "copy":
			if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && pointerLike(s.Elem()) {
				for l := range p.of(c.Args[1]) {
					p.cells(elemLoc(l), s.Elem(), func(cl ploc) {
						for d := range p.of(c.Args[0]) {
							nd := ploc{d.o, cl.f}
							if structOf(s.Elem()) == nil {
								nd = elemLoc(d)
							}
							p.add(p.cell(nd), p.cell(cl))
						}
					})
				}
			}
		}
		return
	}
	fns, ok := p.targets(c)
	if ok {
		for _, g := range fns {
			args := c.Args
			if c.IsInvoke() {
				args = append([]ssa.Value{c.Value}, args...)
			}
			for i, a := range args {
				if i < len(g.Params) && pointerLike(a.Type()) {
					p.add(p.of(g.Params[i]), p.of(a))
				}
			}
			if v != nil && g.Signature.Results().Len() == 1 && pointerLike(v.Type()) {
				p.add(p.of(v), p.rets(g)[0])
			}
		}
		return
	}
	if c.StaticCallee() == nil {
		p.userCalls = append(p.userCalls, ci)
	}
	// outside code: the result may be new, or one of the arguments
	var all []ssa.Value
	all = append(all, c.Args...)
	if c.IsInvoke() {
		all = append(all, c.Value)
	}
	if v != nil && pointerLike(v.Type()) {
		dst := p.of(v)
		p.addOne(dst, ploc{p.allocObj(v), nil})
		if !freshResult(c) {
			from := all
			if g := c.StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "math/big" && g.Signature.Recv() != nil {
				from = c.Args[:1] // methods return their receiver
			}
			for _, a := range from {
				if pointerLike(a.Type()) {
					p.add(dst, p.of(a))
				}
			}
		}
	}
	if g := c.StaticCallee(); g != nil && extName(g) == "runtime.SetFinalizer" {
		for l := range p.of(c.Args[1]) {
			if l.o.kind == "func" && len(l.o.fn.Params) == 1 {
				p.add(p.of(l.o.fn.Params[0]), p.of(c.Args[0]))
			}
		}
		return
	}
	// functions handed to outside code are called by it
	for _, a := range all {
		if _, ok := a.Type().Underlying().(*types.Signature); ok {
			for l := range p.of(a) {
				if l.o.kind == "func" && p.P.isSrc(l.o.fn) {
					for _, q := range l.o.fn.Params {
						for _, a2 := range all {
							if pointerLike(q.Type()) && pointerLike(a2.Type()) && a2 != a {
								p.add(p.of(q), p.of(a2))
								for m := range p.of(a2) {
									p.add(p.of(q), p.cell(elemLoc(m)))
								}
							}
						}
					}
				}
			}
		}
	}
}

// freshResult: outside functions whose result is a new object.
func freshResult(c *ssa.CallCommon) bool {
	g := c.StaticCallee()
	if g == nil || g.Pkg == nil {
		return false
	}
	switch g.Pkg.Pkg.Path() {
	case "fmt", "errors", "strconv", "strings", "time":
		return true
	case "slices":
		return g.Name() == "Clone" || g.Name() == "Concat" || g.Name() == "Sorted" || g.Name() == "Collect"
	case "math/big":
		return g.Name() == "NewInt"
	}
	return false
}

// reach computes what can be reached from some objects through memory.
func (p *PTS) reach(roots map[*obj]bool) map[*obj]bool {
	byObj := map[*obj][]ptset{}
	for l, s := range p.mem {
		byObj[l.o] = append(byObj[l.o], s)
	}
	// closures keep their captured variables alive
	res := map[*obj]bool{}
	var visit func(o *obj)
	visit = func(o *obj) {
		if res[o] {
			return
		}
		res[o] = true
		for _, s := range byObj[o] {
			for l := range s {
				visit(l.o)
			}
		}
		if o.kind == "func" {
			for _, fv := range o.fn.FreeVars {
				for l := range p.of(fv) {
					visit(l.o)
				}
			}
		}
	}
	for o := range roots {
		visit(o)
	}
	return res
}

// pwrite is an instruction that writes in memory.
type pwrite struct {
	in   ssa.Instruction
	fn   *ssa.Function
	addr ssa.Value
	locs ptset
	what string
}

// readOnlyExt: outside functions that do not write through their arguments.
func readOnlyExt(g *ssa.Function) bool {
	if g.Pkg == nil {
		return false
	}
	n := g.Name()
	switch g.Pkg.Pkg.Path() {
	case "fmt":
		return n != "Sscan" && n != "Sscanf" && n != "Sscanln" && n != "Append" && n != "Appendf" && n != "Appendln"
	case "log", "errors", "strings", "strconv", "math", "time", "unsafe", "math/bits", "os", "runtime", "io", "text/tabwriter", "unicode", "unicode/utf8", "hash/maphash", "cmp":
		return true
	case "sort":
		return n == "Search" || n == "SearchInts" || n == "IntsAreSorted" || n == "IsSorted" || n == "SliceIsSorted" || n == "Find" || n == "SearchStrings"
	case "slices":
		switch n {
		case "Contains", "ContainsFunc", "Index", "IndexFunc", "Equal", "EqualFunc", "Max", "Min", "MaxFunc", "MinFunc", "IsSorted", "IsSortedFunc", "BinarySearch", "BinarySearchFunc", "Clone", "Compare", "Concat", "Values", "All", "Backward", "Sorted", "Collect":
			return true
		}
	case "maps":
		return n == "Clone" || n == "Keys" || n == "Values" || n == "Equal" || n == "All"
	}
	return false
}

// bigReads: methods of math/big that do not write in their receiver.
var bigReads = map[string]bool{"Cmp": true, "CmpAbs": true, "Sign": true, "BitLen": true, "Bit": true, "Int64": true, "Uint64": true, "IsInt64": true, "IsUint64": true, "String": true, "Text": true, "Append": true, "ProbablyPrime": true, "TrailingZeroBits": true, "Format": true, "Float64": true, "IsInt": true, "Bytes": true, "Bits": false, "MarshalText": true, "MarshalJSON": true}

// writes lists the instructions that write in memory, with what they may write.
func (p *PTS) writes() []pwrite {
	var res []pwrite
	for _, f := range p.P.Funcs {
		add := func(in ssa.Instruction, a ssa.Value, elem bool, what string) {
			s := p.of(a)
			if elem {
				t := ptset{}
				for l := range s {
					t[elemLoc(l)] = true
				}
				s = t
			}
			res = append(res, pwrite{in, f, a, s, what})
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					add(in, x.Addr, false, "write")
				case *ssa.MapUpdate:
					add(in, x.Map, true, "map update")
				case ssa.CallInstruction:
					c := x.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "copy", "clear":
							add(in, c.Args[0], true, bi.Name())
						case "delete":
							add(in, c.Args[0], true, "delete")
						case "append":
							if sl, ok := c.Args[0].(*ssa.Slice); ok && sl.Max != nil && sl.Max == sl.High {
								break // always copied
							}
							if k, ok := c.Args[0].(*ssa.Const); ok && k.IsNil() {
								break
							}
							if len(c.Args) == 2 {
								if k, ok := c.Args[1].(*ssa.Const); ok && k.IsNil() {
									break
								}
							}
							add(in, c.Args[0], true, "append")
						}
						break
					}
					if g := c.StaticCallee(); g != nil && !p.P.isSrc(g) {
						if readOnlyExt(g) {
							break
						}
						if g.Pkg != nil && (g.Pkg.Pkg.Path() == "sync/atomic" || g.Pkg.Pkg.Path() == "sync") {
							break
						}
						if rv := g.Signature.Recv(); rv != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "math/big" {
							if !bigReads[g.Name()] && len(c.Args) > 0 {
								add(in, c.Args[0], false, "call of "+extName(g))
							}
							break
						}
						for _, a := range c.Args {
							if pointerLike(a.Type()) {
								if _, ok := a.Type().Underlying().(*types.Signature); !ok {
									add(in, a, true, "call of "+extName(g))
								}
							}
						}
					}
				}
			}
		}
	}
	return res
}

// freshHere: the address is in an object allocated by the same activation.
func freshHere(v ssa.Value) bool {
	for d := 0; d < 20; d++ {
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Phi:
			for _, e := range x.Edges {
				if e != ssa.Value(x) && !freshHereD(e, d) {
					return false
				}
			}
			return true
		default:
			return false
		}
	}
	return false
}

func freshHereD(v ssa.Value, d int) bool {
	if d > 3 {
		return false
	}
	if _, ok := v.(*ssa.Phi); ok {
		return false
	}
	return freshHere(v)
}

func (p *PTS) dump(v ssa.Value) string {
	var l []string
	for x := range p.of(v) {
		l = append(l, fmt.Sprint(x.o, ".", x.f))
	}
	sort.Strings(l)
	return fmt.Sprint(l)
}

// pts is the points-to analysis of the configuration.
func (c *Ctx) pts() *PTS {
	if p, ok := c.shared["pts"].(*PTS); ok {
		return p
	}
	p := newPTS(c.P, c.apiFuncs())
	c.shared["pts"] = p
	return p
}
