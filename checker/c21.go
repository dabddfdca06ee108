package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// checkGrowth verifies that the table of nodes is only replaced by one that is
// at least as long, a fact used to discard impossible paths.
func (c *Ctx) checkGrowth(rep *Report) {
	for _, u := range c.units() {
		if u.Fn.Name() == "New" {
			continue
		}
		for _, o := range u.Outs {
			for _, e := range o.St.events() {
				if e.Kind != EvStore || e.Addr.Op != OFA || e.Addr.Aux != c.nodesF || rootOf(e.Addr).Op == OAlloc {
					continue
				}
				nl := u.Run.length(o.St, e.Val, c.nodesF.Type())
				n := 0
				good := true
				for t := range o.St.zone.vars {
					if c.isTableLen(t) && t.Args[0].K < e.Seq && t != nl {
						n++
						if u.Run.decideLE(o.St, t, nl) != yes {
							good = false
						}
					}
				}
				if n == 0 || !good {
					rep.bad(c, e.Instr.Pos(), fname(u.Fn), "table never shrinks", o.St.pathString(), "the table of nodes is replaced by one of length %s, that may be shorter", short(nl.String(), 80))
				} else {
					rep.ok("the table of nodes never becomes shorter")
				}
			}
		}
	}
}

func isLockOp(n string) bool { return n == "Lock" || n == "RLock" }

func (c *Ctx) checkLocks(rep *Report) {
	c.checkGrowth(rep)
	order := map[string]map[string]token.Pos{}
	nlock := 0
	for _, u := range c.units() {
		rep.paths(c, u.Run, u.Outs)
		rep.undecided(c, fname(u.Fn), u.Outs)
		in := heldKey(u.Held)
		nm := u.name()
		for _, o := range u.Outs {
			if o.Kind == OutUndecided {
				continue
			}
			at := map[int64]string{}
			for _, e := range o.St.events() {
				switch e.Kind {
				case EvLoopEnter:
					at[e.Loop.ID] = heldKey(e.Held)
				case EvLoopBack:
					if k := heldKey(e.Held); k != at[e.Loop.ID] {
						rep.bad(c, o.Pos, nm, "locks of a loop", o.St.pathString(), "a turn of the loop starts with locks {%s} and ends with {%s}", at[e.Loop.ID], k)
					} else {
						rep.ok("same locks at each turn of a loop")
					}
				case EvCallback:
					if len(e.Held) > 0 {
						rep.bad(c, e.Instr.Pos(), nm, "callback without lock", o.St.pathString(), "user code is called while a lock is held (%s)", heldKey(e.Held))
					} else {
						rep.ok("user code is called without a lock")
					}
				case EvLock:
					nlock++
					rep.site("lock operation at " + c.P.pos(e.Instr.Pos()))
					cl := lockClass(e.Addr)
					if isLockOp(e.Name) {
						bad := false
						for _, h := range e.Held {
							hc := lockClass(h.mu)
							if hc == cl {
								rep.bad(c, e.Instr.Pos(), nm, "lock not taken twice", o.St.pathString(), "%s on %s while it is already held", e.Name, cl)
								bad = true
							} else {
								if order[hc] == nil {
									order[hc] = map[string]token.Pos{}
								}
								order[hc][cl] = e.Instr.Pos()
							}
						}
						if !bad {
							rep.ok("lock taken when it is free")
						}
					} else {
						mode := "W"
						if e.Name == "RUnlock" {
							mode = "R"
						}
						found := false
						for _, h := range e.Held {
							if lockClass(h.mu) == cl && string(h.mode) == mode {
								found = true
								if h.mu != e.Addr && !c.sameMutex(h.mu, e.Addr) {
									rep.bad(c, e.Instr.Pos(), nm, "unlock of the held lock", o.St.pathString(), "%s of a mutex that is not the one locked", e.Name)
								}
							}
						}
						if !found {
							rep.bad(c, e.Instr.Pos(), nm, "unlock of the held lock", o.St.pathString(), "%s of %s that is not held in this mode", e.Name, cl)
						} else {
							rep.ok("unlock of a lock that is held")
						}
					}
				}
			}
			var out []lockHeld = o.St.locks
			switch o.Kind {
			case OutReturn:
				if k := heldKey(out); k != in {
					rep.bad(c, c.lockPos(o, u.Fn), nm, "locks released", o.St.pathString(), "the function returns with locks {%s}, and was called with {%s}", k, in)
				} else {
					rep.ok("locks released on return")
				}
			case OutPanic:
				if k := heldKey(out); k != "" {
					rep.bad(c, o.Pos, nm, "locks released", o.St.pathString(), "%s with locks {%s}", o.Why, k)
				} else {
					rep.ok("no lock held at a panic")
				}
			}
		}
	}
	// order between several locks
	var vis func(a string, seen map[string]bool) bool
	for a := range order {
		vis = func(x string, seen map[string]bool) bool {
			for y, p := range order[x] {
				if y == a {
					rep.bad(c, p, "", "lock order", "", "locks %s and %s are taken in both orders", a, x)
					return true
				}
				if !seen[y] {
					seen[y] = true
					if vis(y, seen) {
						return true
					}
				}
			}
			return false
		}
		vis(a, map[string]bool{})
	}
	// library calls that may block or hide a lock, and copies of locks
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Send, *ssa.Select:
					rep.bad(c, in.Pos(), fname(f), "no blocking", "", "channel operation")
				case ssa.CallInstruction:
					if g := x.Common().StaticCallee(); g != nil {
						n := extName(g)
						if strings.HasPrefix(n, "(*sync.") && !strings.HasSuffix(n, "Lock") && !strings.HasSuffix(n, "nlock") || strings.HasSuffix(n, "TryLock") || strings.HasSuffix(n, "TryRLock") || n == "runtime.GC" {
							if !strings.HasPrefix(n, "(*sync.Once)") && !strings.HasPrefix(n, "(*sync.Map)") && !strings.HasPrefix(n, "(*sync.Pool)") && n != "runtime.GC" {
								rep.bad(c, in.Pos(), fname(f), "no blocking", "", "call of %s, that the analysis does not model", n)
							}
						}
					}
				case *ssa.UnOp:
					if x.Op == token.MUL && hasLock(x.Type(), 0) {
						rep.bad(c, in.Pos(), fname(f), "locks are not copied", "", "a value of type %s, that holds a lock, is copied", x.Type())
					}
				}
			}
		}
	}
	rep.okn("lock operations followed", nlock)
}

func hasLock(t types.Type, d int) bool {
	if d > 6 {
		return false
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
		return n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex"
	}
	if s := structOf(t); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if hasLock(s.Field(i).Type(), d+1) {
				return true
			}
		}
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return hasLock(a.Elem(), d+1)
	}
	return false
}

// sameMutex: two names of the mutex of the BDD (the table of a BDD does not
// change, see bddFrozen).
func (c *Ctx) sameMutex(a, b *Term) bool {
	return stripSeq(a) == stripSeq(b)
}

func stripSeq(t *Term) string {
	var l []string
	for t != nil && (t.Op == OFA || t.Op == OLoad) {
		if t.Op == OFA {
			l = append(l, t.Aux.(*types.Var).Name())
		}
		t = t.Args[0]
	}
	return strings.Join(l, ".") + "@" + t.String()
}

func (c *Ctx) lockPos(o *Outcome, fn *ssa.Function) token.Pos {
	for e := o.St.ev; e != nil; e = e.prev {
		if e.ev.Kind == EvLock && e.ev.Instr != nil {
			return e.ev.Instr.Pos()
		}
	}
	return fn.Pos()
}

func init() {
	register("C21", "on every path of every function that can be reached, with the locks that its callers hold: a lock is taken only when it is free and released when it is held, the locks held at the end are the ones held at the start, each loop turn is balanced, and user code is called without a lock", func(c *Ctx, rep *Report) {
		c.checkLocks(rep)
	})
}

var _ = sort.Strings
