package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// surface lists the exported interface of a configuration.
func (c *Ctx) surface() map[string]string {
	res := map[string]string{}
	q := func(p *types.Package) string {
		if p == c.P.Types {
			return ""
		}
		return p.Path()
	}
	sc := c.P.Types.Scope()
	for _, n := range sc.Names() {
		o := sc.Lookup(n)
		if !o.Exported() {
			continue
		}
		switch x := o.(type) {
		case *types.Const:
			v := x.Val().String()
			res["const "+n] = types.TypeString(x.Type(), q) + " = " + v
		case *types.Var:
			res["var "+n] = types.TypeString(x.Type(), q)
		case *types.Func:
			res["func "+n] = types.TypeString(x.Type(), q)
		case *types.TypeName:
			u := x.Type().Underlying()
			switch t := u.(type) {
			case *types.Struct:
				res["type "+n] = "struct"
				for i := 0; i < t.NumFields(); i++ {
					if f := t.Field(i); f.Exported() {
						res["field "+n+"."+f.Name()] = types.TypeString(f.Type(), q)
					}
				}
			default:
				res["type "+n] = types.TypeString(u, q)
			}
			if _, ok := u.(*types.Interface); ok {
				break
			}
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := types.NewMethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					s := ms.At(i)
					if s.Obj().Exported() {
						res["method "+types.TypeString(t, q)+"."+s.Obj().Name()] = types.TypeString(s.Obj().Type(), q)
					}
				}
				// promoted fields
				if st := structOf(t); st != nil {
					promotedFields(st, 0, func(f *types.Var) {
						res["field "+n+"."+f.Name()] = types.TypeString(f.Type(), q)
					})
				}
			}
		}
	}
	return res
}

func promotedFields(s *types.Struct, d int, f func(*types.Var)) {
	if d > 4 {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		v := s.Field(i)
		if !v.Embedded() {
			if v.Exported() && d > 0 {
				f(v)
			}
			continue
		}
		if t := structOf(derefType(v.Type())); t != nil {
			promotedFields(t, d+1, f)
		}
	}
}

func init() {
	register("C33", "the package is type-checked with each combination of the tags buddy and debug, for 64 and 32 bits targets; the exported scope, the method sets (promoted methods included), the exported fields and the values of exported constants are compared pairwise", func(c *Ctx, rep *Report) {
		s := c.surface()
		for n := range s {
			rep.site(n)
		}
		rep.okn("exported objects and methods listed", len(s))
		for _, f := range c.P.Funcs {
			rep.Funcs[fname(f)] = true
		}
		// one implementation of the node table
		if c.lowMaker() == nil {
			rep.bad(c, token.NoPos, "Makenode", "one implementation", "", "no function adds nodes to the table")
		}
	})
	registry["C33"].both = true
	crossChecks["C33"] = func(ctxs []*Ctx, rep *Report) {
		var ref *Ctx
		for _, c := range ctxs {
			if c == nil {
				continue
			}
			if ref == nil {
				ref = c
				continue
			}
			a, b := ref.surface(), c.surface()
			var keys []string
			for k := range a {
				keys = append(keys, k)
			}
			for k := range b {
				if _, ok := a[k]; !ok {
					keys = append(keys, k)
				}
			}
			sort.Strings(keys)
			for _, k := range keys {
				x, okx := a[k]
				y, oky := b[k]
				switch {
				case okx && !oky:
					rep.bad(nil, token.NoPos, strings.TrimPrefix(k, "method "), "same interface", "", "%s exists in build %s, but not in %s", k, ref.P.Cfg, c.P.Cfg)
				case !okx && oky:
					rep.bad(nil, token.NoPos, strings.TrimPrefix(k, "method "), "same interface", "", "%s exists in build %s, but not in %s", k, c.P.Cfg, ref.P.Cfg)
				case x != y:
					rep.bad(nil, token.NoPos, strings.TrimPrefix(k, "method "), "same interface", "", "%s is %s in build %s and %s in %s", k, x, ref.P.Cfg, y, c.P.Cfg)
				default:
					rep.ok("object identical in two builds")
				}
			}
		}
	}
}

var _ = fmt.Sprint
