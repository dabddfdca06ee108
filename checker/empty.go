package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// emptyEntries gives the contents of the entries of a cache that hold no
// result: the constants that some code gives to fields of such entries (the
// zero value when there is none). That every entry has such contents after a
// reset is checked by the property on discarded results.
func (c *Ctx) emptyEntries(key string) []map[*types.Var]int64 {
	m, _ := c.shared["empty"].(map[string][]map[*types.Var]int64)
	if m == nil {
		m = map[string][]map[*types.Var]int64{}
		c.shared["empty"] = m
	}
	if l, ok := m[key]; ok {
		return l
	}
	var et types.Type
	for _, x := range c.storeSites(key) {
		if sl, ok := x.cs.tblT.T.Underlying().(*types.Slice); ok {
			et = sl.Elem()
		}
	}
	st, _ := et.Underlying().(*types.Struct)
	if st == nil {
		return nil
	}
	heads := map[*ssa.Function]bool{}
	for fn := range c.specs() {
		for f := range c.head(fn).Run.Funcs {
			heads[f] = true
		}
	}
	var res []map[*types.Var]int64
	for _, f := range c.P.Funcs {
		if heads[f] {
			continue
		}
		g := map[*types.Var]int64{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || structOf(derefType(fa.X.Type())) != st {
					continue
				}
				if k, ok := s.Val.(*ssa.Const); ok && k.Value != nil {
					g[st.Field(fa.Field)] = k.Int64()
				}
			}
		}
		if len(g) > 0 {
			res = append(res, g)
		}
	}
	if len(res) == 0 {
		g := map[*types.Var]int64{}
		for i := 0; i < st.NumFields(); i++ {
			g[st.Field(i)] = 0
		}
		res = append(res, g)
	}
	m[key] = res
	return res
}
