package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// twin compares a configuration with its debug build. The two programs come from
// the same text but for the constants set by the build tags: what one of them does
// in addition is code under a condition on these constants. The analysis follows
// what this code writes: values, memory and control that may differ between the two
// runs. None of them may reach a result.
type twin struct {
	d, r *Ctx // debug, release
	rep  *Report
	p    *Prog

	vals map[ssa.Value]*diff             // values that may differ
	mem  map[Class]*diff                 // memory that may differ
	ctl  map[*ssa.BasicBlock]*diff       // blocks that may run in one of them only
	ret  map[*ssa.Function]map[int]*diff // results that may differ
	only map[*ssa.Function]*diff         // functions called by such a block
	fns  []*ssa.Function
	post map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock
	fold map[*ssa.If]int // condition on constants: successor taken in both, -1 if it differs
	sees map[string]bool
	loop bool
}

// diff tells where a difference comes from.
type diff struct {
	pos  token.Pos
	fn   *ssa.Function
	what string
}

func (t *twin) name(f *ssa.Function) string { return fname(f) }

// align pairs the functions, and finds the constants that differ.
func (t *twin) align() bool {
	other := map[string]*ssa.Function{}
	for _, f := range t.r.P.Funcs {
		other[f.String()] = f
	}
	seen := map[string]bool{}
	for _, f := range t.d.P.Funcs {
		if len(f.Blocks) == 0 || f.Synthetic != "" && f.Name() != "init" {
			continue
		}
		t.fns = append(t.fns, f)
	}
	sort.Slice(t.fns, func(i, j int) bool { return t.fns[i].String() < t.fns[j].String() })
	for _, f := range t.fns {
		g := other[f.String()]
		seen[f.String()] = true
		if strings.HasPrefix(f.Name(), "init#") && f.Parent() == nil {
			// numbered in the order of the files: matched by position
			g = nil
			for _, x := range t.r.P.Funcs {
				if strings.HasPrefix(x.Name(), "init#") && t.r.P.pos(x.Pos()) == t.p.pos(f.Pos()) {
					g = x
				}
			}
		}
		if g == nil || !t.same(f, g) {
			what := "the body of " + fname(f) + " is not the same in the debug build"
			if g == nil {
				what = fname(f) + " is only in the debug build"
			}
			df := &diff{f.Pos(), f, what}
			for _, b := range f.Blocks {
				t.ctl[b] = df
			}
			t.ret[f] = map[int]*diff{}
			for i := 0; i < f.Signature.Results().Len(); i++ {
				t.ret[f][i] = df
			}
			if g != nil {
				t.inertOther(g, df)
			}
			t.rep.ok("functions that are not the same in the two builds")
		} else {
			t.rep.ok("functions with the same body in the two builds")
		}
	}
	for _, g := range t.r.P.Funcs {
		if len(g.Blocks) > 0 && g.Synthetic == "" && !seen[g.String()] {
			if strings.HasPrefix(g.Name(), "init#") {
				found := false
				for _, f := range t.fns {
					found = found || t.p.pos(f.Pos()) == t.r.P.pos(g.Pos())
				}
				if !found {
					t.inertOther(g, &diff{g.Pos(), nil, fname(g) + " is only in the build without debug"})
				}
			}
		}
	}
	return true
}

// inertOther: the body, that only exists without debug, has effects.
func (t *twin) inertOther(g *ssa.Function, df *diff) {
	m := t.r.P.modref(g)
	byName := map[string]Class{}
	for _, f := range t.fns {
		for c := range t.p.modref(f).Mod {
			byName[classKey(c)] = c
		}
	}
	for c := range m.Mod {
		if _, ok := c.(*ssa.Alloc); ok {
			continue
		}
		if x, ok := byName[classKey(c)]; ok {
			t.setMem(x, df)
		}
	}
	if m.All {
		t.bad(df, g, "same effects", "%s, and the other one calls functions given by the user", df.what)
	}
	for _, b := range g.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && !t.r.P.isSrc(f) && !inertCall(f, c.Common()) {
					t.bad(df, g, "same effects", "%s, and the other one calls %s", df.what, extName(f))
				}
			}
		}
	}
}

func classKey(c Class) string {
	switch c := c.(type) {
	case *types.Var:
		return "field " + c.Name() + " " + c.Type().String() + " " + fmt.Sprint(c.Pkg())
	case *ssa.Global:
		return "global " + c.String()
	}
	return fmt.Sprint(c)
}

// same compares two bodies, and records the constants that differ.
func (t *twin) same(f, g *ssa.Function) bool {
	if f.Name() == "init" && f.Synthetic != "" {
		return t.sameInit(f, g)
	}
	if len(f.Blocks) != len(g.Blocks) || len(f.Params) != len(g.Params) || len(f.FreeVars) != len(g.FreeVars) {
		return false
	}
	for i, b := range f.Blocks {
		c := g.Blocks[i]
		if len(b.Instrs) != len(c.Instrs) || len(b.Succs) != len(c.Succs) {
			return false
		}
		for j := range b.Succs {
			if b.Succs[j].Index != c.Succs[j].Index {
				return false
			}
		}
		for j, x := range b.Instrs {
			if !t.sameInstr(x, c.Instrs[j]) {
				return false
			}
		}
	}
	// the constants
	for i, b := range f.Blocks {
		for j, x := range b.Instrs {
			t.constants(f, x, g.Blocks[i].Instrs[j])
		}
	}
	return true
}

func (t *twin) sameInit(f, g *ssa.Function) bool {
	list := func(fn *ssa.Function) []ssa.Instruction {
		var l []ssa.Instruction
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(*ssa.Call); ok {
					if x := c.Call.StaticCallee(); x != nil && strings.HasPrefix(x.Name(), "init") {
						continue
					}
				}
				l = append(l, i)
			}
		}
		return l
	}
	a, b := list(f), list(g)
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !t.sameInstr(a[i], b[i]) {
			return false
		}
	}
	for i := range a {
		t.constants(f, a[i], b[i])
	}
	return true
}

// sameInstr: the same instruction, but for the constants.
func (t *twin) sameInstr(x, y ssa.Instruction) bool {
	if fmt.Sprintf("%T", x) != fmt.Sprintf("%T", y) {
		return false
	}
	if vx, ok := x.(ssa.Value); ok {
		vy := y.(ssa.Value)
		if vx.Type().String() != vy.Type().String() {
			return false
		}
	}
	var bx, by []*ssa.Value
	ox, oy := x.Operands(bx), y.Operands(by)
	if len(ox) != len(oy) {
		return false
	}
	for i := range ox {
		a, b := *ox[i], *oy[i]
		if a == nil || b == nil {
			if a != b {
				return false
			}
			continue
		}
		_, ca := a.(*ssa.Const)
		_, cb := b.(*ssa.Const)
		if ca != cb {
			return false
		}
		if ca {
			continue
		}
		switch a.(type) {
		case *ssa.Function, *ssa.Global, *ssa.Builtin:
			if a.String() != b.String() {
				return false
			}
		case *ssa.Parameter, *ssa.FreeVar:
			if a.Name() != b.Name() {
				return false
			}
		default:
			ia, ok1 := a.(ssa.Instruction)
			ib, ok2 := b.(ssa.Instruction)
			if ok1 != ok2 || ok1 && (ia.Block().Index != ib.Block().Index || place(ia) != place(ib)) && x.Parent().Synthetic == "" {
				return false
			}
		}
	}
	switch x := x.(type) {
	case *ssa.BinOp:
		return x.Op == y.(*ssa.BinOp).Op
	case *ssa.UnOp:
		return x.Op == y.(*ssa.UnOp).Op
	case *ssa.FieldAddr:
		return x.Field == y.(*ssa.FieldAddr).Field
	case *ssa.Field:
		return x.Field == y.(*ssa.Field).Field
	case *ssa.Extract:
		return x.Index == y.(*ssa.Extract).Index
	case *ssa.Call:
		return x.Call.IsInvoke() == y.(*ssa.Call).Call.IsInvoke() && (!x.Call.IsInvoke() || x.Call.Method.Name() == y.(*ssa.Call).Call.Method.Name())
	}
	return true
}

func place(i ssa.Instruction) int {
	for k, x := range i.Block().Instrs {
		if x == i {
			return k
		}
	}
	return -1
}

// constants of an instruction that are not the same.
func (t *twin) constants(f *ssa.Function, x, y ssa.Instruction) {
	var bx, by []*ssa.Value
	ox, oy := x.Operands(bx), y.Operands(by)
	differ := false
	for i := range ox {
		if ox[i] == nil || *ox[i] == nil {
			continue
		}
		a, ok1 := (*ox[i]).(*ssa.Const)
		b, ok2 := (*oy[i]).(*ssa.Const)
		if ok1 && ok2 && !sameConst(a, b) {
			differ = true
		}
	}
	if c, ok := x.(*ssa.If); ok {
		if a, ok := c.Cond.(*ssa.Const); ok {
			switch {
			case differ:
				t.fold[c] = -1
			case constant.BoolVal(a.Value):
				t.fold[c] = 0
			default:
				t.fold[c] = 1
			}
		}
		return
	}
	if !differ {
		return
	}
	df := &diff{x.Pos(), f, "a constant that the debug build sets"}
	if !df.pos.IsValid() {
		df.pos = f.Pos()
	}
	switch x := x.(type) {
	case *ssa.Store:
		t.store(x, df)
	case *ssa.Return:
		t.returns(x, df)
	case ssa.Value:
		t.setVal(x, df)
	default:
		t.bad(df, f, "same results", "an instruction depends on the constants of the debug build in a way that is not understood")
	}
}

func sameConst(a, b *ssa.Const) bool {
	if a.Value == nil || b.Value == nil {
		return a.Value == nil && b.Value == nil
	}
	return a.Value.ExactString() == b.Value.ExactString()
}

// ---------------------------------------------------------------- control

// ends: the block does not continue after this instruction.
func ends(i ssa.Instruction) bool {
	switch i := i.(type) {
	case *ssa.Panic:
		return true
	case *ssa.Call:
		if f := i.Call.StaticCallee(); f != nil {
			switch extName(f) {
			case "log.Panicf", "log.Panic", "log.Panicln", "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit":
				return true
			}
		}
	}
	return false
}

func dies(b *ssa.BasicBlock) bool {
	for _, i := range b.Instrs {
		if ends(i) {
			return true
		}
	}
	return false
}

// succs of a block, without the conditions on constants that are false in both.
func (t *twin) succs(b *ssa.BasicBlock) []*ssa.BasicBlock {
	if dies(b) {
		return nil
	}
	if len(b.Instrs) > 0 {
		if c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if k, ok := t.fold[c]; ok && k >= 0 {
				return b.Succs[k : k+1]
			}
		}
	}
	return b.Succs
}

// live blocks of a function.
func (t *twin) live(f *ssa.Function) map[*ssa.BasicBlock]bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, s := range t.succs(b) {
			walk(s)
		}
	}
	walk(f.Blocks[0])
	if f.Recover != nil {
		walk(f.Recover)
	}
	return seen
}

// ipdom gives the nearest block that every path from b to a return goes through;
// nil when there is none.
func (t *twin) ipdom(b *ssa.BasicBlock) *ssa.BasicBlock {
	f := b.Parent()
	m := t.post[f]
	if m != nil {
		return m[b]
	}
	m = map[*ssa.BasicBlock]*ssa.BasicBlock{}
	t.post[f] = m
	live := t.live(f)
	// blocks that reach a return
	reach := map[*ssa.BasicBlock]bool{}
	for changed := true; changed; {
		changed = false
		for x := range live {
			if reach[x] {
				continue
			}
			ok := false
			if len(x.Instrs) > 0 {
				_, ok = x.Instrs[len(x.Instrs)-1].(*ssa.Return)
				ok = ok && !dies(x)
			}
			for _, s := range t.succs(x) {
				ok = ok || reach[s]
			}
			if ok {
				reach[x], changed = true, true
			}
		}
	}
	// sets of post-dominators
	pd := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for x := range reach {
		s := map[*ssa.BasicBlock]bool{}
		if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok {
			s[x] = true
		} else {
			for y := range reach {
				s[y] = true
			}
		}
		pd[x] = s
	}
	for changed := true; changed; {
		changed = false
		for x := range reach {
			if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok {
				continue
			}
			var n map[*ssa.BasicBlock]bool
			for _, s := range t.succs(x) {
				if !reach[s] {
					continue
				}
				if n == nil {
					n = map[*ssa.BasicBlock]bool{}
					for y := range pd[s] {
						n[y] = true
					}
					continue
				}
				for y := range n {
					if !pd[s][y] {
						delete(n, y)
					}
				}
			}
			n[x] = true
			if len(n) != len(pd[x]) {
				pd[x], changed = n, true
			}
		}
	}
	for x := range reach {
		var best *ssa.BasicBlock
		for y := range pd[x] {
			if y != x && (best == nil || len(pd[y]) > len(pd[best])) {
				best = y
			}
		}
		m[x] = best
	}
	return m[b]
}

// split handles a branch that the two runs may take differently.
func (t *twin) split(b *ssa.BasicBlock, df *diff) {
	join := t.ipdom(b)
	region := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock)
	walk = func(x *ssa.BasicBlock) {
		if x == join || region[x] {
			return
		}
		region[x] = true
		for _, s := range t.succs(x) {
			walk(s)
		}
	}
	for _, s := range t.succs(b) {
		walk(s)
	}
	for x := range region {
		if t.ctl[x] == nil {
			t.ctl[x] = df
			t.loop = true
		}
	}
	if join == nil {
		return
	}
	for _, i := range join.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		var v ssa.Value
		for k, e := range ph.Edges {
			if p := join.Preds[k]; p != b && !region[p] {
				continue
			}
			if v != nil && v != e && !(isConst(v) && isConst(e) && sameConst(v.(*ssa.Const), e.(*ssa.Const))) {
				t.setVal(ph, df)
			}
			v = e
		}
	}
}

func isConst(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

// ---------------------------------------------------------------- data

func (t *twin) setVal(v ssa.Value, df *diff) {
	if df != nil && t.vals[v] == nil {
		t.vals[v] = df
		t.loop = true
	}
}

func (t *twin) setMem(c Class, df *diff) {
	if df != nil && t.mem[c] == nil {
		t.mem[c] = df
		t.loop = true
	}
}

// class of an address; the parts of a local array are one.
func (t *twin) class(a ssa.Value) Class {
	for x := a; ; {
		switch y := x.(type) {
		case *ssa.IndexAddr:
			x = y.X
			continue
		case *ssa.Alloc:
			if _, ok := derefType(y.Type()).Underlying().(*types.Array); ok {
				return y
			}
		}
		break
	}
	return addrClass(a)
}

func (t *twin) classes(a ssa.Value, typ types.Type) []Class {
	c := t.class(a)
	if _, ok := c.(*ssa.Alloc); ok {
		if _, ok := typ.Underlying().(*types.Struct); !ok {
			return []Class{c}
		}
	}
	var l []Class
	leafClasses(typ, c, func(c Class) { l = append(l, c) })
	return l
}

func (t *twin) store(s *ssa.Store, df *diff) {
	for _, c := range t.classes(s.Addr, s.Val.Type()) {
		t.setMem(c, df)
	}
}

// held tells whether what a pointer designates may differ.
func (t *twin) held(a ssa.Value) *diff {
	if df := t.val(a); df != nil {
		return df
	}
	switch x := a.(type) {
	case *ssa.Slice:
		return t.held(x.X)
	case *ssa.MakeInterface:
		return t.held(x.X)
	case *ssa.ChangeType:
		return t.held(x.X)
	}
	if p, ok := a.Type().Underlying().(*types.Pointer); ok {
		if _, ok := a.(*ssa.Parameter); ok && !t.direct(p) {
			return nil
		}
		for _, c := range t.classes(a, p.Elem()) {
			if df := t.mem[c]; df != nil {
				return df
			}
		}
	}
	return nil
}

func (t *twin) direct(p *types.Pointer) bool { return structOf(p.Elem()) == nil }

func (t *twin) val(v ssa.Value) *diff { return t.vals[v] }

// use of a value; the fields of a structure are those of the memory it comes from.
func (t *twin) use(v ssa.Value) *diff {
	if d := t.vals[v]; d != nil {
		return d
	}
	if s, ok := v.Type().Underlying().(*types.Struct); ok {
		return t.leaves(s)
	}
	return nil
}

func (t *twin) leaves(s types.Type) *diff {
	var d *diff
	leafClasses(s, nil, func(c Class) {
		if d == nil && c != nil {
			d = t.mem[c]
		}
	})
	return d
}

// fresh: the address is in a variable of this execution of the function.
func fresh(a ssa.Value) *ssa.Alloc {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
			continue
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				a = x.X
				continue
			}
		case *ssa.Alloc:
			return x
		}
		return nil
	}
}

// mine: the address is in a variable that only exists in the code of one build.
func (t *twin) mine(a ssa.Value) bool {
	x := fresh(a)
	return x != nil && (t.ctl[x.Block()] != nil || t.only[x.Parent()] != nil)
}

func (t *twin) returns(r *ssa.Return, df *diff) {
	f := r.Parent()
	if t.ret[f] == nil {
		t.ret[f] = map[int]*diff{}
	}
	for i := range r.Results {
		if t.ret[f][i] == nil {
			t.ret[f][i] = df
			t.loop = true
		}
	}
}

func (t *twin) bad(df *diff, at *ssa.Function, rule, f string, a ...interface{}) {
	msg := fmt.Sprintf(f, a...)
	key := fmt.Sprint(df.pos, rule)
	if t.sees[key] {
		return
	}
	t.sees[key] = true
	fn := "?"
	if df.fn != nil {
		fn = fname(df.fn)
	} else if at != nil {
		fn = fname(at)
	}
	ctx := t.d
	if df.fn == nil {
		ctx = t.r
	}
	t.rep.bad(ctx, df.pos, fn, rule, df.what, "%s", msg)
}

// inertCall: the library function only computes, prints on the standard streams or
// observes the process.
func inertCall(f *ssa.Function, c *ssa.CallCommon) bool {
	if f.Pkg == nil && f.Object() == nil {
		return false
	}
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	n := f.Name()
	switch pkg {
	case "log", "strings", "strconv", "math", "time", "unicode", "errors", "math/bits", "bytes", "cmp", "log/slog", "expvar":
		return true
	case "fmt":
		if strings.HasPrefix(n, "Fprint") {
			return stdStream(c.Args[0])
		}
		return strings.HasPrefix(n, "Print") || strings.HasPrefix(n, "Sprint") || n == "Errorf" || strings.HasPrefix(n, "Append")
	case "sync/atomic":
		return true
	case "sync":
		return strings.Contains(n, "ock")
	case "runtime":
		return n == "ReadMemStats" || n == "NumGoroutine" || n == "GC" || n == "Caller" || n == "Callers" || n == "KeepAlive" || n == "FuncForPC" || n == "Stack"
	case "runtime/debug":
		return n == "Stack" || n == "PrintStack" || n == "ReadGCStats"
	case "math/big":
		return true
	case "os":
		return n == "Getenv"
	case "sort", "slices":
		return true
	}
	return false
}

// stdStream: the writer is a standard stream.
func stdStream(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return stdStream(x.X)
	case *ssa.ChangeInterface:
		return stdStream(x.X)
	case *ssa.UnOp:
		g, ok := x.X.(*ssa.Global)
		return ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" && (g.Name() == "Stdout" || g.Name() == "Stderr")
	}
	return false
}

func printer(f *ssa.Function, c *ssa.CallCommon) bool {
	if f.Pkg == nil {
		return false
	}
	switch f.Pkg.Pkg.Path() {
	case "log":
		return true
	case "fmt":
		return strings.HasPrefix(f.Name(), "Print") || strings.HasPrefix(f.Name(), "Fprint") && stdStream(c.Args[0])
	}
	return false
}

// step interprets one instruction.
func (t *twin) step(f *ssa.Function, in ssa.Instruction, only *diff) {
	b := in.Block()
	df := t.ctl[b]
	if df == nil {
		df = only
	}
	first := func(l ...ssa.Value) *diff {
		for _, v := range l {
			if v != nil {
				if d := t.use(v); d != nil {
					return d
				}
			}
		}
		return nil
	}
	operands := func() *diff {
		var buf []*ssa.Value
		for _, o := range in.Operands(buf) {
			if *o != nil {
				if d := t.use(*o); d != nil {
					return d
				}
			}
		}
		return nil
	}
	switch x := in.(type) {
	case *ssa.DebugRef, *ssa.Jump, *ssa.Alloc, *ssa.MakeSlice, *ssa.RunDefers:
		if v, ok := in.(ssa.Value); ok {
			t.setVal(v, operands())
		}
	case *ssa.If:
		if k, ok := t.fold[x]; ok {
			if k < 0 {
				t.split(b, &diff{condPosOf(x), f, "code that is only in one of the two builds"})
			}
			return
		}
		if d := first(x.Cond); d != nil && t.ctl[b] == nil {
			t.split(b, d)
		}
	case *ssa.Store:
		if df != nil && !t.mine(x.Addr) {
			t.store(x, df)
		}
		d := t.val(x.Val)
		if d == nil {
			d = first(x.Addr)
		}
		t.storeD(x, d)
	case *ssa.MapUpdate:
		d := first(x.Map, x.Key, x.Value)
		if df != nil {
			d = df
		}
		t.setMem(mapClass(x.Map.Type()), d)
	case *ssa.UnOp:
		d := first(x.X)
		_, isStruct := x.Type().Underlying().(*types.Struct)
		if x.Op == token.MUL && d == nil && !isStruct {
			for _, c := range t.classes(x.X, x.Type()) {
				if m := t.mem[c]; m != nil {
					d = m
					break
				}
			}
			// an element of a slice that differs
			for a := x.X; d == nil; {
				switch y := a.(type) {
				case *ssa.IndexAddr:
					d = first(y.X, y.Index)
					a = y.X
					continue
				case *ssa.FieldAddr:
					d = first(y.X)
					a = y.X
					continue
				}
				break
			}
		}
		if x.Op == token.ARROW && df != nil {
			t.bad(df, f, "same effects", "a channel is used in one of the two builds only")
		}
		t.setVal(x, d)
	case *ssa.Lookup:
		d := first(x.X, x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok && d == nil {
			d = t.mem[mapClass(x.X.Type())]
		}
		t.setVal(x, d)
	case *ssa.Range:
		d := first(x.X)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok && d == nil {
			d = t.mem[mapClass(x.X.Type())]
		}
		t.setVal(x, d)
	case *ssa.Phi:
		// an edge that differs; the joins are handled by the branches
		t.setVal(x, operands())
	case *ssa.Return:
		if d := t.ctl[b]; d != nil {
			t.returns(x, d)
			return
		}
		for i, r := range x.Results {
			if d := t.val(r); d != nil {
				if t.ret[f] == nil {
					t.ret[f] = map[int]*diff{}
				}
				if t.ret[f][i] == nil {
					t.ret[f][i] = d
					t.loop = true
				}
			}
		}
	case *ssa.MakeClosure:
		g := x.Fn.(*ssa.Function)
		for i, v := range x.Bindings {
			if d := first(v); d != nil {
				t.setVal(g.FreeVars[i], d)
			}
		}
	case *ssa.Send, *ssa.Select:
		if d := operands(); df != nil || d != nil {
			if df == nil {
				df = d
			}
			t.bad(df, f, "same effects", "a channel is used in one of the two builds only")
		}
	case *ssa.Go:
		if df != nil {
			t.bad(df, f, "same effects", "a goroutine is started in one of the two builds only")
			return
		}
		t.call(f, x, &x.Call, nil, df)
	case *ssa.Defer:
		t.call(f, x, &x.Call, nil, df)
	case *ssa.Call:
		t.call(f, x, &x.Call, x, df)
	case *ssa.Panic:
	case *ssa.Field:
		d := t.val(x.X)
		if st, ok := x.X.Type().Underlying().(*types.Struct); ok && d == nil {
			if _, ok := x.Type().Underlying().(*types.Struct); !ok {
				d = t.mem[st.Field(x.Field)]
			}
		}
		t.setVal(x, d)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			t.setVal(x, t.result(c, x.Index))
			return
		}
		t.setVal(x, operands())
	default:
		if v, ok := in.(ssa.Value); ok {
			t.setVal(v, operands())
		}
	}
}

func (t *twin) storeD(s *ssa.Store, d *diff) {
	if d != nil {
		t.store(s, d)
	}
}

func condPosOf(x *ssa.If) token.Pos {
	// the position of a condition on constants is not kept: take the first
	// instruction that depends on it
	for _, s := range x.Block().Succs {
		if len(s.Preds) != 1 {
			continue
		}
		for _, i := range s.Instrs {
			if i.Pos().IsValid() {
				return i.Pos()
			}
		}
	}
	for _, i := range x.Block().Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	return x.Parent().Pos()
}

// result of a call of functions of the package.
func (t *twin) result(c *ssa.Call, k int) *diff {
	if d := t.val(c); d != nil {
		return d
	}
	fns, _ := t.p.callTargets(&c.Call)
	for _, g := range fns {
		if d := t.ret[g][k]; d != nil {
			return d
		}
	}
	return nil
}

func (t *twin) call(f *ssa.Function, in ssa.Instruction, c *ssa.CallCommon, v ssa.Value, df *diff) {
	var args *diff
	for _, a := range c.Args {
		if d := t.held(a); d != nil {
			args = d
			break
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if v != nil {
				t.setVal(v, args)
			}
			if d := args; d != nil && len(c.Args) > 1 {
				// elements that differ
				if x := t.held(c.Args[1]); x != nil {
					leafClasses(v.Type().Underlying().(*types.Slice).Elem(), elemClass(v.Type().Underlying().(*types.Slice).Elem()), func(c Class) { t.setMem(c, x) })
				}
			}
		case "copy", "clear", "delete":
			d := df
			if d == nil {
				d = args
			}
			if d != nil {
				m := newModRef()
				t.p.builtinMod(c, m)
				for k := range m.Mod {
					t.setMem(k, d)
				}
			}
			if b.Name() == "copy" && d == nil {
				// contents of the source
				e := c.Args[1].Type().Underlying()
				if s, ok := e.(*types.Slice); ok {
					leafClasses(s.Elem(), elemClass(s.Elem()), func(k Class) {
						if x := t.mem[k]; x != nil {
							m := newModRef()
							t.p.builtinMod(c, m)
							for k2 := range m.Mod {
								t.setMem(k2, x)
							}
						}
					})
				}
			}
			if v != nil {
				t.setVal(v, args)
			}
		default:
			if v != nil {
				t.setVal(v, args)
			}
		}
		return
	}
	if !c.IsInvoke() && c.StaticCallee() == nil {
		if d := t.val(c.Value); d != nil {
			t.bad(d, f, "same results", "%s has an influence on the function that is called in %s", d.what, fname(f))
		}
	}
	fns, unknown := t.p.callTargets(c)
	if ext := c.StaticCallee(); ext != nil && !t.p.isSrc(ext) {
		if df != nil {
			if !inertCall(ext, c) && !ends(in) {
				t.bad(df, f, "same effects", "%s is called in one of the two builds only", extName(ext))
				return
			}
			// writes through its arguments
			for _, a := range c.Args {
				t.written(a, df, ext)
			}
		}
		if args != nil {
			switch {
			case printer(ext, c):
			case !inertCall(ext, c):
				t.sinkCall(f, args, extName(ext))
			default:
				for _, a := range c.Args {
					t.written(a, args, ext)
				}
			}
			if v != nil {
				t.setVal(v, args)
			}
		}
		for _, g := range fns {
			if df != nil {
				t.inOnly(g, df)
			}
		}
		return
	}
	if c.IsInvoke() && len(fns) == 0 {
		// a method of the user or of the library
		n := c.Method.Name()
		if n == "Error" || n == "String" {
			if v != nil {
				t.setVal(v, t.val(c.Value))
			}
			return
		}
		unknown = true
	}
	if unknown {
		if df != nil {
			t.bad(df, f, "same effects", "a function of the user is called in one of the two builds only")
		} else if args != nil {
			t.sinkCall(f, args, "a function of the user")
		}
		return
	}
	for _, g := range fns {
		k := 0
		if c.IsInvoke() {
			if d := t.val(c.Value); d != nil && len(g.Params) > 0 {
				t.setVal(g.Params[0], d)
			}
			k = 1
		}
		for i, a := range c.Args {
			if i+k >= len(g.Params) {
				break
			}
			d := t.val(a)
			if d == nil {
				if s, ok := a.(*ssa.Slice); ok {
					d = t.held(s)
				}
			}
			if d != nil {
				t.setVal(g.Params[i+k], d)
			}
		}
		if df != nil {
			t.inOnly(g, df)
		}
		if v != nil && g.Signature.Results().Len() == 1 {
			t.setVal(v, t.ret[g][0])
		}
	}
}

// inOnly: the function is called in one of the two builds only.
func (t *twin) inOnly(g *ssa.Function, df *diff) {
	if t.only[g] == nil {
		t.only[g] = df
		t.loop = true
	}
}

// written: the function of the library may write what the argument designates.
func (t *twin) written(a ssa.Value, df *diff, ext *ssa.Function) {
	if ext.Pkg != nil && (ext.Pkg.Pkg.Path() == "log" || ext.Pkg.Pkg.Path() == "fmt") {
		return
	}
	if ext.Pkg != nil && ext.Pkg.Pkg.Path() == "sync" || ext.Pkg != nil && ext.Pkg.Pkg.Path() == "sync/atomic" && strings.HasPrefix(ext.Name(), "Load") {
		return
	}
	switch x := a.(type) {
	case *ssa.MakeInterface:
		t.written(x.X, df, ext)
		return
	case *ssa.Slice:
		t.written(x.X, df, ext)
		return
	}
	switch u := a.Type().Underlying().(type) {
	case *types.Pointer:
		for _, c := range t.classes(a, u.Elem()) {
			t.setMem(c, df)
		}
	case *types.Slice:
		if ext.Pkg != nil {
			if p := ext.Pkg.Pkg.Path(); p == "sort" || p == "slices" {
				leafClasses(u.Elem(), elemClass(u.Elem()), func(c Class) { t.setMem(c, df) })
			}
		}
	}
}

func (t *twin) sinkCall(f *ssa.Function, df *diff, to string) {
	if t.statsOnly(f) {
		return
	}
	t.bad(df, f, "same results", "%s has an influence on what %s gives to %s", df.what, fname(f), to)
}

// statsOnly: the function only makes the text of the statistics.
func (t *twin) statsOnly(f *ssa.Function) bool {
	n := f.Name()
	return n == "Stats" || n == "stats"
}

func isString1(f *ssa.Function) bool {
	r := f.Signature.Results()
	if r.Len() != 1 {
		return false
	}
	b, ok := r.At(0).Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

// exempt: the result of this exported function may differ: the text of the
// statistics.
func (t *twin) exempt(f *ssa.Function) bool {
	if f.Name() == "Stats" && isString1(f) {
		return true
	}
	if f.Name() == "String" && isString1(f) && f.Signature.Recv() != nil {
		n, ok := derefType(f.Signature.Recv().Type()).(*types.Named)
		return ok && !n.Obj().Exported()
	}
	return false
}

func kernelDoc(c *Ctx, f *ssa.Function) bool {
	doc := c.P.docOf(f)
	return strings.Contains(doc, "kernel function")
}

func (t *twin) run() {
	if !t.align() {
		return
	}
	for iter := 0; iter < 200; iter++ {
		t.loop = false
		for _, f := range t.fns {
			live := t.live(f)
			for _, b := range f.Blocks {
				if !live[b] {
					continue
				}
				for _, in := range b.Instrs {
					t.step(f, in, t.only[f])
				}
			}
		}
		if !t.loop {
			break
		}
	}
	// the results
	for _, f := range t.d.apiFuncs() {
		t.rep.Funcs[fname(f)] = true
		if t.exempt(f) {
			continue
		}
		if f.Synthetic != "" {
			continue
		}
		rs := t.ret[f]
		bad := false
		for i := 0; i < f.Signature.Results().Len(); i++ {
			df := rs[i]
			if s, ok := f.Signature.Results().At(i).Type().Underlying().(*types.Struct); ok && df == nil {
				df = t.leaves(s)
			}
			if df != nil {
				bad = true
				t.bad(df, f, "same results", "%s has an influence on the results of %s", df.what, fname(f))
			}
		}
		if !bad {
			t.rep.ok("results of the exported functions that do not depend on the code of one build")
		}
	}
	n := 0
	for range t.ctl {
		n++
	}
	t.rep.okn("blocks that run in one of the two builds only, followed", n)
	for c := range t.mem {
		t.rep.site("differs: " + classKeyShort(c))
	}
	t.panics()
}

func classKeyShort(c Class) string {
	switch c := c.(type) {
	case *types.Var:
		return "field " + c.Name()
	case *ssa.Global:
		return c.Name()
	case *ssa.Alloc:
		return "a local variable of " + fname(c.Parent())
	}
	return fmt.Sprint(c)
}

// panics: an assertion of the debug build fails for a misuse of the kernel
// functions only.
func (t *twin) panics() {
	at := map[token.Pos]*ssa.Function{}
	for _, f := range t.fns {
		live := t.live(f)
		for _, b := range f.Blocks {
			if !live[b] {
				continue
			}
			df := t.ctl[b]
			if df == nil {
				df = t.only[f]
			}
			if df == nil {
				continue
			}
			for _, i := range b.Instrs {
				if kernelDoc(t.d, f) {
					if ends(i) {
						t.rep.ok("assertions of the kernel functions")
					}
					continue
				}
				switch i.(type) {
				case *ssa.IndexAddr, *ssa.Index, *ssa.Slice, *ssa.FieldAddr, *ssa.TypeAssert, *ssa.BinOp, *ssa.UnOp, *ssa.MapUpdate, *ssa.Panic, *ssa.Call, *ssa.MakeSlice, *ssa.SliceToArrayPointer:
					if i.Pos().IsValid() {
						at[i.Pos()] = f
					}
				}
			}
		}
	}
	if len(at) == 0 {
		return
	}
	failed := map[token.Pos]bool{}
	c := t.d
	if err := c.opsFix(); err != nil {
		for p, f := range at {
			t.bad(&diff{p, f, "an assertion"}, f, "assertions", "%v", err)
		}
		return
	}
	seen := map[*ssa.Function]bool{}
	var scan func(outs []*Outcome)
	scan = func(outs []*Outcome) {
		for _, o := range outs {
			if o.Kind == OutPanic && at[o.Pos] != nil {
				failed[o.Pos] = true
			}
			for _, e := range o.St.events() {
				if e.Kind == EvHead && e.Fn != nil && !seen[e.Fn] {
					seen[e.Fn] = true
					if h := c.head(e.Fn); h != nil {
						scan(h.Outs)
					}
				}
			}
		}
	}
	for _, f := range c.apiFuncs() {
		if kernelDoc(c, f) || f.Signature.Recv() == nil || !types.Identical(f.Signature.Recv().Type(), c.B.T) {
			continue
		}
		outs, _, err := c.method(f.Name())
		if err == nil {
			scan(outs)
		}
	}
	// nodes read in the code of one build
	if err := c.buildSpecs(); err == nil {
		for _, fn := range c.bddMethods() {
			g := &guarded{c: c, fn: fn, name: fname(fn), rep: newReport(t.rep.Prop, c.P.Cfg.String())}
			for _, a := range c.methodArgs(fn)[1:] {
				switch {
				case types.Identical(a.T, c.NodeTy):
					g.nodes = append(g.nodes, a)
				case c.isNodeList(a.T):
					g.lists = append(g.lists, a)
				}
			}
			if len(g.nodes)+len(g.lists) == 0 {
				continue
			}
			g.outs, g.r = c.rawRun(fn, c.methodArgs(fn))
			here := false
			for _, o := range g.outs {
				for _, e := range o.St.events() {
					here = here || e.Instr != nil && (e.Kind == EvLoad || e.Kind == EvIndex) && at[e.Instr.Pos()] != nil
				}
			}
			if !here {
				continue
			}
			g.start()
			g.check()
			for p, f := range at {
				for _, x := range g.rep.Findings {
					if x.Rule == "no panic" && x.Where == c.P.pos(p) {
						t.bad(&diff{p, f, "code that is only in one of the two builds"}, f, "assertions", "%s", x.Msg)
					}
				}
			}
		}
	}
	for p, f := range at {
		df := &diff{p, f, "an assertion of the debug build"}
		if failed[p] {
			t.bad(df, f, "assertions", "the operations may reach a panic that is in one of the two builds only")
		} else {
			t.rep.ok("assertions that the operations do not reach")
		}
	}
}

func init() {
	register("C25", "the debug build and the other one come from the same text but for the constants set by the tags: the values, the memory and the control that may differ between them are followed from the code under a condition on these constants; none reaches a result, an effect, or a function of the user (information flow)", func(c *Ctx, rep *Report) {
		rep.site(c.P.Cfg.String())
	})
	crossChecks["C25"] = func(ctxs []*Ctx, rep *Report) {
		by := map[string]*Ctx{}
		for _, c := range ctxs {
			by[c.P.Cfg.String()] = c
		}
		n := 0
		for _, c := range ctxs {
			if !hasTag(c.P.Cfg.Tags, "debug") {
				continue
			}
			o := by[Config{Tags: strings.TrimSpace(strings.Trim(strings.ReplaceAll(strings.ReplaceAll(c.P.Cfg.Tags, "debug", ""), ",", " "), " ")), GOARCH: c.P.Cfg.GOARCH}.String()]
			if o == nil {
				continue
			}
			n++
			t := &twin{d: c, r: o, rep: rep, p: c.P, vals: map[ssa.Value]*diff{}, mem: map[Class]*diff{}, ctl: map[*ssa.BasicBlock]*diff{}, ret: map[*ssa.Function]map[int]*diff{}, only: map[*ssa.Function]*diff{}, post: map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{}, fold: map[*ssa.If]int{}, sees: map[string]bool{}}
			t.run()
		}
		if n == 0 {
			rep.bad(nil, token.NoPos, "", "anchor", "", "no pair of builds to compare")
		}
	}
}

func hasTag(tags, tag string) bool {
	for _, x := range strings.FieldsFunc(tags, func(r rune) bool { return r == ',' || r == ' ' }) {
		if x == tag {
			return true
		}
	}
	return false
}

// docOf gives the documentation of a function.
func (p *Prog) docOf(f *ssa.Function) string {
	if d, ok := f.Syntax().(*ast.FuncDecl); ok && d.Doc != nil {
		return d.Doc.Text()
	}
	return ""
}
