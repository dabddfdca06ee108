package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Config is one build configuration of the code under analysis.
type Config struct {
	Tags   string
	GOARCH string
}

func (c Config) String() string {
	t := c.Tags
	if t == "" {
		t = "default"
	}
	return t + "/" + c.GOARCH
}

// Prog is the type-checked, SSA form of the package in one configuration.
type Prog struct {
	Cfg   Config
	PP    *packages.Package
	SSA   *ssa.Program
	Pkg   *ssa.Package
	Types *types.Package
	Fset  *token.FileSet
	Funcs []*ssa.Function // all source functions, methods and closures of the package

	scc          map[*ssa.Function]int
	sccSize      map[int]int
	selfrec      map[*ssa.Function]bool
	mods         map[*ssa.Function]*ModRef
	pure         map[*ssa.Function]bool
	constLists   map[*Term]bool // arrays behind package variables that are only read
	loops        map[*ssa.Function]*LoopInfo
	classes      []Class
	local        map[*ssa.Alloc]bool
	whole        map[*ssa.Alloc]bool
	entries      map[*ssa.Function]bool
	heads        map[*ssa.Function]*headInfo
	constGlobals map[*ssa.Global]bool
	globalInit   map[*ssa.Global]*Term // value after initialisation
}

func LoadProg(dir string, cfg Config) (*Prog, error) {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOARCH=") || strings.HasPrefix(e, "GOWORK=") || strings.HasPrefix(e, "GO111MODULE=") || strings.HasPrefix(e, "CGO_ENABLED=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOTOOLCHAIN=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=readonly", "GOARCH="+cfg.GOARCH, "GOWORK=off", "CGO_ENABLED=0", "GOPROXY=off", "GOTOOLCHAIN=local")
	pc := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedExportFile,
		Dir:        dir,
		Env:        env,
		BuildFlags: []string{"-tags=" + cfg.Tags},
	}
	pkgs, err := packages.Load(pc, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("expected one package in %s, found %d", dir, len(pkgs))
	}
	p := pkgs[0]
	if len(p.Errors) > 0 {
		return nil, fmt.Errorf("the package does not type-check: %v", p.Errors[0])
	}
	if p.Types == nil || len(p.Syntax) == 0 {
		return nil, fmt.Errorf("no source for %s", p.PkgPath)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	r := &Prog{Cfg: cfg, PP: p, SSA: prog, Pkg: spkgs[0], Types: p.Types, Fset: p.Fset,
		mods: map[*ssa.Function]*ModRef{}, loops: map[*ssa.Function]*LoopInfo{}}
	if r.Pkg == nil {
		return nil, fmt.Errorf("no SSA for %s", p.PkgPath)
	}
	for fn := range ssautil.AllFunctions(prog) {
		if r.isSrc(fn) {
			r.Funcs = append(r.Funcs, fn)
		}
	}
	sort.Slice(r.Funcs, func(i, j int) bool {
		if r.Funcs[i].Pos() != r.Funcs[j].Pos() {
			return r.Funcs[i].Pos() < r.Funcs[j].Pos()
		}
		return r.Funcs[i].String() < r.Funcs[j].String()
	})
	r.computeSCC()
	return r, nil
}

// isSrc tells whether fn is a function with a body in the analysed package
// (including wrappers and closures).
func (p *Prog) isSrc(fn *ssa.Function) bool {
	if fn == nil || len(fn.Blocks) == 0 {
		return false
	}
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == p.Pkg {
		return true
	}
	// wrappers (promoted methods, bound methods) have no package
	if f.Pkg == nil && f.Object() != nil && f.Object().Pkg() == p.Types {
		return true
	}
	return false
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	f := q.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (p *Prog) fpos(fn *ssa.Function) string { return p.pos(fn.Pos()) }

// fname is a short readable name for a function.
func fname(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, "github.com/dalzilio/rudd.", "")
	return s
}

// lookup helpers

func (p *Prog) typeNamed(name string) *types.Named {
	o := p.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// method returns the method with this name of *T (T a named type of the
// package), following promotion through embedded fields.
func (p *Prog) method(tname, mname string) *ssa.Function {
	n := p.typeNamed(tname)
	if n == nil {
		return nil
	}
	ms := types.NewMethodSet(types.NewPointer(n))
	sel := ms.Lookup(p.Types, mname)
	if sel == nil {
		return nil
	}
	f, ok := sel.Obj().(*types.Func)
	if !ok {
		return nil
	}
	return p.SSA.FuncValue(f)
}

func (p *Prog) function(name string) *ssa.Function { return p.Pkg.Func(name) }

// callees lists the functions that are called, when they are known: the static
// callee, or the functions kept in a local variable.
func (p *Prog) callees(c *ssa.CallCommon) []*ssa.Function {
	if g := c.StaticCallee(); g != nil {
		return []*ssa.Function{g}
	}
	if c.IsInvoke() {
		return nil
	}
	return funcVar(c.Value)
}

// staticCallee is the function called, when there is only one.
func staticCallee(c *ssa.CallCommon) *ssa.Function {
	if g := c.StaticCallee(); g != nil || c.IsInvoke() {
		return g
	}
	if l := funcVar(c.Value); len(l) == 1 {
		return l[0]
	}
	return nil
}

// funcVar lists the functions that a local variable may hold, when it is only
// assigned functions written out in the source, and its address goes nowhere but
// to closures.
func funcVar(v ssa.Value) (fns []*ssa.Function) {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return nil
	}
	var al *ssa.Alloc
	switch x := ld.X.(type) {
	case *ssa.Alloc:
		al = x
	case *ssa.FreeVar:
		al = freeVarAlloc(x)
	}
	if al == nil {
		return nil
	}
	good := true
	seen := map[ssa.Value]bool{}
	var look func(a ssa.Value)
	look = func(a ssa.Value) {
		if seen[a] {
			return
		}
		seen[a] = true
		for _, in := range *a.Referrers() {
			switch in := in.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if in.Addr != a {
					good = false
					continue
				}
				switch x := in.Val.(type) {
				case *ssa.MakeClosure:
					fns = append(fns, x.Fn.(*ssa.Function))
				case *ssa.Function:
					fns = append(fns, x)
				case *ssa.Const:
				default:
					good = false
				}
			case *ssa.MakeClosure:
				for i, b := range in.Bindings {
					if b == a {
						look(in.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			default:
				good = false
			}
		}
	}
	look(al)
	if !good {
		return nil
	}
	return fns
}

func (p *Prog) computeSCC() {
	// Tarjan over static calls (closures created in a function count as called)
	p.scc = map[*ssa.Function]int{}
	p.sccSize = map[int]int{}
	p.selfrec = map[*ssa.Function]bool{}
	index := map[*ssa.Function]int{}
	low := map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	next := 0
	ncomp := 0
	succ := func(f *ssa.Function) []*ssa.Function {
		var r []*ssa.Function
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					for _, g := range p.callees(c.Common()) {
						if p.isSrc(g) {
							r = append(r, g)
						}
					}
				}
			}
		}
		return r
	}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		index[f] = next
		low[f] = next
		next++
		stack = append(stack, f)
		on[f] = true
		for _, g := range succ(f) {
			if g == f {
				p.selfrec[f] = true
			}
			if _, ok := index[g]; !ok {
				visit(g)
				if low[g] < low[f] {
					low[f] = low[g]
				}
			} else if on[g] && index[g] < low[f] {
				low[f] = index[g]
			}
		}
		if low[f] == index[f] {
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				p.scc[g] = ncomp
				p.sccSize[ncomp]++
				if g == f {
					break
				}
			}
			ncomp++
		}
	}
	for _, f := range p.Funcs {
		if _, ok := index[f]; !ok {
			visit(f)
		}
	}
}

// recursive tells whether f can (statically) call itself, directly or not.
func (p *Prog) recursive(f *ssa.Function) bool {
	c, ok := p.scc[f]
	return ok && (p.sccSize[c] > 1 || p.selfrec[f])
}

func (p *Prog) sameSCC(f, g *ssa.Function) bool {
	a, ok1 := p.scc[f]
	b, ok2 := p.scc[g]
	return ok1 && ok2 && a == b
}
