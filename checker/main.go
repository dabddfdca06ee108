package main

import (
	"fmt"
	"golang.org/x/tools/go/ssa"
	"os"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "debug" {
		debugMain(os.Args[2:])
		return
	}
	os.Exit(run(os.Args[1:]))
}

func debugMain(a []string) {
	defer startProf()()
	c, err := NewCtx(Config{Tags: a[0], GOARCH: "amd64"}, debugRepo())
	if err != nil {
		fmt.Println(err)
		return
	}
	switch a[1] {
	case "head":
		for _, f := range c.P.Funcs {
			if f.Name() == a[2] {
				dumpOuts(c.head(f).Outs)
			}
		}
	case "sem":
		rep := newReport("X", a[0])
		c.checkHead(rep, a[2])
		for _, f := range rep.Findings {
			fmt.Printf("%+v\n", f)
		}
		fmt.Println(rep.Obl, rep.Paths)
		for _, p := range c.checkSets() {
			fmt.Println("set:", p.method, p.msg)
		}
	case "prop":
		rep := newReport(a[2], a[0])
		debugPanics = true
		safely(a[2], c, rep, registry[a[2]].fn)
		for _, f := range rep.Findings {
			fmt.Printf("%+v\n", f)
		}
		fmt.Println(rep.Obl, rep.Paths)
	case "units":
		for _, u := range c.units() {
			fmt.Println(u.name(), u.Why, len(u.Outs))
			if len(a) > 2 && u.Fn.Name() == a[2] {
				dumpOuts(u.Outs)
			}
		}
		fmt.Println(c.finalizers())
	case "clears":
		c.buildSpecs()
		ci := c.clearer()
		for _, u := range c.units() {
			if l := ci.clears(u.Fn); len(l) > 0 || len(a) > 2 && u.Fn.Name() == a[2] {
				fmt.Println(fname(u.Fn), sortedKeys(l))
			}
		}
		fmt.Println(sortedKeys(c.cacheKeys()))
	case "ctx":
		fmt.Println(c.buildSpecs())
		for fn, s := range c.specs() {
			fmt.Println(fn, s.Kind, s.Role, s.Param, c.env(s))
		}
		for fn, l := range c.contexts() {
			fmt.Println(fn, len(l))
			for i, h := range l {
				if i < 6 {
					fmt.Println("   ", h.Call.Method, h.Vals)
				}
			}
		}
	case "model":
		m, err := c.tableModel()
		if err != nil {
			fmt.Println(err)
			return
		}
		fmt.Println(m.freepos, m.freenum, m.link, m.refF, m.markF, m.mask, m.hashF, m.nextF, m.uniqF, m.pLevel, m.pLow, m.pHigh, m.pRefs, m.keyPat, m.keyLen, m.markers)
	case "table":
		dumpOuts(c.tableRun(c.lowMaker()).Outs)
	case "output":
		w := &output{c: c, fn: c.P.method("BDD", a[2]), all: c.P.method("BDD", "Allnodes")}
		outs, r := w.run(w.fn, c.methodArgs(w.fn), c.newState)
		dumpOuts(outs)
		for _, o := range outs {
			for _, e := range o.St.events() {
				if e.Kind == EvHead && e.Fn == w.all {
					for _, a := range e.Args {
						if a.Op == OClosure {
							g := a.Aux.(*ssa.Function)
							st := c.rawState()
							st.mem = e.Mem
							fmt.Println("----", fname(g))
							r2 := r
							outs, r2 = w.run(g, append(c.headArgs(g), a.Args...), func() *State { return st.clone() })
							_ = r2
							dumpOuts(outs)
						}
					}
				}
			}
		}
	case "method":
		o, _, err := c.method(a[2])
		if err != nil {
			fmt.Println(err)
		}
		dumpOuts(o)
	}
}

func debugRepo() string {
	if d := os.Getenv("DEBUG_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func dumpOuts(outs []*Outcome) {
	k := map[outKind]int{}
	for _, o := range outs {
		k[o.Kind]++
		fmt.Println("==", o.Kind, o.Res, o.Why)
		fmt.Println("   ", o.St.pathString())
		for _, e := range o.St.events() {
			fmt.Printf("     %d %s fn=%v addr=%v val=%v args=%v locks=%s\n", e.Kind, e.Name, e.Fn, e.Addr, e.Val, e.Args, e.Locks)
		}
	}
	fmt.Println(k)
}
