package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// primes decides whether a function that computes an integer returns the
// smallest prime not below one of its parameters (up), or the largest prime not
// above it (down), when this parameter is at least 3.
type primes struct {
	c    *Ctx
	r    *Run
	fn   *ssa.Function
	rems map[*Term][]*Term // remainders by dividend
	why  string            // why the last proof failed
	at   token.Pos
	path string
}

type primeSum struct {
	up, down map[int]bool
	n        int            // obligations
	why      map[int]string // why not, by direction
	at       map[int]token.Pos
	path     map[int]string
}

// isPrimeTest: the library function that tests a prime number. It is exact for
// numbers of 64 bits.
func isPrimeTest(name string) bool { return name == "(*math/big.Int).ProbablyPrime" }

// testsPrimes: the functions of the package from which the test is reached.
func (c *Ctx) testsPrimes() map[*ssa.Function]bool {
	if m, ok := c.shared["testsprimes"].(map[*ssa.Function]bool); ok {
		return m
	}
	m := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range c.P.Funcs {
			if m[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					call, ok := i.(ssa.CallInstruction)
					if !ok {
						continue
					}
					g := call.Common().StaticCallee()
					if g != nil && (m[g] || isPrimeTest(g.String())) && !m[f] {
						m[f] = true
						changed = true
					}
				}
			}
		}
	}
	c.shared["testsprimes"] = m
	return m
}

// primeSummary is computed for given values of the constant arguments.
func (c *Ctx) primeSummary(fn *ssa.Function, consts map[int]int64) *primeSum {
	key := "primes:" + fn.String() + constKey(consts, len(fn.Params))
	if s, ok := c.shared[key].(*primeSum); ok {
		return s
	}
	s := &primeSum{up: map[int]bool{}, down: map[int]bool{}, why: map[int]string{}, at: map[int]token.Pos{}, path: map[int]string{}}
	c.shared[key] = s
	sig := fn.Signature
	if fn.Blocks == nil || !c.P.isSrc(fn) || sig.Results().Len() != 1 || !isIntType(sig.Results().At(0).Type()) || c.P.recursive(fn) || !c.P.noEffects(fn) || !c.testsPrimes()[fn] {
		s.why[1] = "it is not a function that looks for a prime number"
		s.why[-1] = s.why[1]
		return s
	}
	var args []*Term
	for i, p := range fn.Params {
		if k, ok := consts[i]; ok {
			args = append(args, c.U.Int(k))
			continue
		}
		args = append(args, c.U.Param(fn.Name()+"."+p.Name(), p.Type()))
	}
	for i, a := range args {
		if _, ok := consts[i]; ok || !isIntType(a.T) {
			continue
		}
		r := NewRun(c.P, c.U)
		r.globals, r.init = c.Globals, c.InitMem
		outs := r.Exec(fn, args, func() *State {
			st := c.rawState()
			r.assumeLE(st, c.U.Int(3), a)
			return st
		})
		p := &primes{c: c, r: r, fn: fn, rems: map[*Term][]*Term{}}
		for _, t := range c.U.all {
			if t.Op == OBin && t.Aux == "%" {
				p.rems[t.Args[0]] = append(p.rems[t.Args[0]], t)
			}
		}
		for dir, m := range map[int]map[int]bool{1: s.up, -1: s.down} {
			if n, ok := p.search(outs, a, int64(dir)); ok {
				m[i] = true
				s.n += n
			} else if s.why[dir] == "" {
				s.why[dir], s.at[dir], s.path[dir] = p.why, p.at, p.path
			}
		}
	}
	return s
}

func (p *primes) fail(o *Outcome, f string) bool {
	p.why, p.at, p.path = f, p.fn.Pos(), ""
	if o != nil {
		p.at = p.c.retPos(o, p.fn)
		p.path = o.St.pathString()
	}
	return false
}

// search shows that every result is a prime number and that no number between
// the parameter and the result is one.
func (p *primes) search(outs []*Outcome, src *Term, dir int64) (int, bool) {
	p.why = ""
	views := loopViews(outs)
	inv := map[*loopView]map[*Term]int{} // variables that go through the candidates, with their parity (-1: unknown)
	for _, v := range views {
		inv[v] = map[*Term]int{}
		for ph, t := range v.Inst.Phi {
			if isIntType(t.T) {
				if par, ok := p.candidate(v, ph, src, dir); ok {
					inv[v][t] = par
				}
			}
		}
	}
	n := 0
	for _, o := range outs {
		switch o.Kind {
		case OutUndecided:
			return 0, p.fail(o, "the code was not followed")
		case OutPanic:
			return 0, p.fail(o, "it may panic")
		case OutReturn:
			res := o.Res[0]
			if !p.isPrime(o.St, res) {
				return 0, p.fail(o, "the result may not be a prime number")
			}
			ok := p.between(o.St, src, res, dir, nil)
			for _, v := range views {
				if ok {
					break
				}
				if !left(o, v.Inst) {
					continue
				}
				for t, par := range inv[v] {
					st := p.assumed(o.St, t)
					if p.between(st, t, res, dir, map[*Term]int{t: par}) {
						ok = true
						n += len(v.Backs)
					}
				}
			}
			if !ok {
				if p.why == "" {
					p.fail(o, "some prime numbers between the size and the result may be skipped")
				}
				return 0, false
			}
			n++
		}
	}
	if n == 0 {
		return 0, p.fail(nil, "it has no result")
	}
	return n, true
}

func (p *primes) assumed(st *State, t *Term) *State {
	st = st.clone()
	p.r.assumeLE(st, p.c.U.Int(3), t)
	return st
}

// candidate: no number between the parameter and the variable is prime, at the
// head of the loop, and the variable is at least 3.
func (p *primes) candidate(v *loopView, ph *ssa.Phi, src *Term, dir int64) (int, bool) {
	t, init := v.Inst.Phi[ph], v.Inst.Init[ph]
	pre := v.Inst.Pre
	if init == nil || pre == nil || len(v.Backs) == 0 {
		return -1, false
	}
	least := p.c.U.Int(3)
	if p.parity(pre, init, nil, 0) == 1 {
		least = p.c.U.Int(2)
	}
	if p.r.decideLE(pre, least, init) != yes || !p.between(pre, src, init, dir, nil) {
		return -1, false
	}
	// parity: kept by every turn
	par := p.parity(pre, init, nil, 0)
	for _, o := range v.Backs {
		next := v.next(ph, o)
		if next == nil {
			return -1, false
		}
		if par >= 0 && p.parity(o.St, next, map[*Term]int{t: par}, 0) != par {
			par = -1
		}
	}
	env := map[*Term]int{t: par}
	for _, o := range v.Backs {
		next := v.next(ph, o)
		d := p.diff(o.St, next, t)
		if next == t {
			p.fail(o, "the search may not progress")
			return -1, false
		}
		st := p.assumed(o.St, t)
		if !isIntConst(d) || d.K*dir <= 0 {
			if p.why == "" {
				p.fail(o, "the direction of the search is not the right one")
			}
			return -1, false
		}
		if !p.between(st, t, next, dir, env) {
			p.fail(o, "a prime number may be skipped by this turn of the search")
			return -1, false
		}
		// still at least 3: a number from 3 that is not prime is at least 4, and 9 if it is odd
		if dir < 0 {
			least := int64(4)
			if par == 1 {
				least = 9
			}
			if least+d.K < 3 {
				p.fail(o, "the search may go below 3")
				return -1, false
			}
		}
	}
	return par, true
}

// next is the value of a variable at the end of a turn.
func (v *loopView) next(ph *ssa.Phi, o *Outcome) *Term {
	if o.Loop == nil || o.Loop.Next == nil {
		return nil
	}
	return o.Loop.Next[ph]
}

// diff is b - a, a constant if it is known.
func (p *primes) diff(st *State, b, a *Term) *Term {
	d := p.c.U.Sub(b, a)
	if !isIntConst(d) {
		if lo, hi := p.r.bounds(st, d); lo == hi {
			return p.c.U.Int(lo)
		}
	}
	return d
}

// between: no number from a (included) to b (excluded) is prime.
func (p *primes) between(st *State, a, b *Term, dir int64, env map[*Term]int) bool {
	u := p.c.U
	if a == b || p.r.decideEQ(st, a, b) == yes {
		return true
	}
	d := p.diff(st, b, a)
	if isIntConst(d) {
		k := d.K * dir
		if k < 0 || k > 8 {
			return false
		}
		for j := int64(0); j < k; j++ {
			if !p.composite(st, u.AddK(a, j*dir), env) {
				return false
			}
		}
		return true
	}
	// a | 1 is a if a is odd and a + 1 otherwise, (a - 1) | 1 is a or a - 1
	if b.Op == OBin && b.Aux == "|" && p.r.decideLE(st, u.Int(3), a) == yes {
		for i := 0; i < 2; i++ {
			x, one := b.Args[i], b.Args[1-i]
			if isIntConst(one) && one.K == 1 && (dir > 0 && x == a || dir < 0 && x == u.AddK(a, -1)) {
				return true
			}
		}
	}
	// known bounds
	alo, ahi := p.r.bounds(st, a)
	blo, bhi := p.r.bounds(st, b)
	if alo > -inf && ahi < inf && blo > -inf && bhi < inf {
		lo, hi := alo, bhi-1
		if dir < 0 {
			lo, hi = blo+1, ahi
		}
		if hi-lo > 1000 || dir > 0 && ahi > blo || dir < 0 && alo < bhi {
			return false
		}
		for n := lo; n <= hi; n++ {
			if smallPrime(n) {
				return false
			}
		}
		return true
	}
	return false
}

func smallPrime(n int64) bool {
	if n < 2 {
		return false
	}
	for d := int64(2); d*d <= n; d++ {
		if n%d == 0 {
			return false
		}
	}
	return true
}

// isPrime: the path goes through a test of this number.
func (p *primes) isPrime(st *State, t *Term) bool {
	if isIntConst(t) {
		return t.K < 1<<32 && smallPrime(t.K)
	}
	return p.tested(st, t, true)
}

func (p *primes) tested(st *State, t *Term, val bool) bool {
	for f, v := range st.facts {
		if v != val || f.Op != OCall {
			continue
		}
		ci, ok := f.Aux.(*callInfo)
		if !ok || !isPrimeTest(ci.Name) {
			continue
		}
		x := f.Args[0]
		xi, ok := x.Aux.(*callInfo)
		if ok && x.Op == OCall && xi.Name == "math/big.NewInt" && (x.Args[0] == t || p.r.decideEQ(st, x.Args[0], t) == yes) {
			return true
		}
	}
	return false
}

// composite: the number is not prime.
func (p *primes) composite(st *State, t *Term, env map[*Term]int) bool {
	r, u := p.r, p.c.U
	lo, hi := r.bounds(st, t)
	if hi <= 1 || lo == hi && lo > -inf && lo < 1<<32 && !smallPrime(lo) {
		return true
	}
	if p.parity(st, t, env, 0) == 0 {
		if r.decideLE(st, u.Int(3), t) == yes {
			return true
		}
		// one less than an odd number that is at least 3 and not prime
		for x, par := range env {
			if d := p.diff(st, x, t); par == 1 && isIntConst(d) && d.K > 0 && d.K < 7 && p.composite(st, x, map[*Term]int{x: par}) {
				return true
			}
		}
	}
	if p.tested(st, t, false) {
		return true
	}
	for _, m := range p.rems[t] {
		d := m.Args[1]
		least := r.decideLE(st, u.Int(2), d) == yes
		if l := p.elements(d); !least && len(l) > 0 {
			least = true
			for _, x := range l {
				least = least && isIntConst(x) && x.K >= 2
			}
		}
		if least && r.decideEQ(st, m, u.Int(0)) == yes && r.decideEQ(st, t, d) == no {
			return true
		}
	}
	return false
}

// parity: 0, 1, or -1 if it is not known.
func (p *primes) parity(st *State, t *Term, env map[*Term]int, depth int) int {
	r, u := p.r, p.c.U
	if isIntConst(t) {
		return int(t.K & 1)
	}
	if par, ok := env[t]; ok && par >= 0 {
		return par
	}
	if depth > 6 {
		return -1
	}
	for _, m := range p.rems[t] {
		if isIntConst(m.Args[1]) && m.Args[1].K == 2 {
			switch r.decideEQ(st, m, u.Int(0)) {
			case yes:
				return 0
			case no:
				return 1
			}
		}
	}
	a, b := u.Int(1), t
	if a.ID > b.ID {
		a, b = b, a
	}
	m := u.mk(OBin, "&", 0, t.T, nil, a, b)
	if q := r.decideEQ(st, m, u.Int(0)); q == yes {
		return 0
	} else if q == no {
		return 1
	}
	switch {
	case t.Op == OLin:
		s := int(t.K & 1)
		for i, x := range t.Args {
			if t.Coef[i]&1 == 0 {
				continue
			}
			q := p.parity(st, x, env, depth+1)
			if q < 0 {
				return -1
			}
			s ^= q
		}
		return s
	case t.Op == OBin && t.Aux == "|":
		for _, x := range t.Args {
			if p.parity(st, x, env, depth+1) == 1 {
				return 1
			}
		}
	}
	return -1
}

// checkC35: the sizes of the tables.
func (c *Ctx) checkC35(rep *Report) {
	found := map[string]bool{}
	buddy := strings.Contains(c.P.Cfg.Tags, "buddy")
	seen := map[string]int{}
	c.sizeHook = func(kind string, r *Run, o *Outcome, pos token.Pos, key string, n *Term, asked []*Term) {
		if kind != "cache" && kind != "resized cache" && !buddy {
			return
		}
		found[kind] = true
		dir := 1
		if kind == "growth" {
			dir = -1
		}
		x := n
		steps := 0
		for {
			e := c.chooserCall(o, x)
			if e == nil {
				break
			}
			consts := map[int]int64{}
			for i, a := range e.Args {
				if isIntConst(a) {
					consts[i] = a.K
				}
			}
			// a constant size is a parameter like any other
			var y *Term
			var last *primeSum
			try := func(consts map[int]int64) {
				s := c.primeSummary(e.Fn, consts)
				if last == nil || s.why[dir] != "" && last.why[dir] == "" {
					last = s
				}
				m := s.up
				if dir < 0 {
					m = s.down
				}
				for i, a := range e.Args {
					if m[i] && y == nil {
						y = a
						k := fmt.Sprint(fname(e.Fn), dir)
						if seen[k] == 0 {
							seen[k] = 1
							rep.okn("the search goes through every candidate, and stops at the first prime number", s.n)
						}
					}
				}
			}
			try(map[int]int64{})
			if y == nil && len(consts) > 0 {
				try(consts)
				for i := range consts {
					if y == nil {
						m := map[int]int64{}
						for j, k := range consts {
							if j != i {
								m[j] = k
							}
						}
						try(m)
					}
				}
			}
			if y == nil {
				what := "smallest prime not below"
				if dir < 0 {
					what = "largest prime not above"
				}
				rep.bad(c, last.at[dir], fname(e.Fn), "prime", last.path[dir], "the size of the table (%s) is not shown to be the %s the one asked: %s", key, what, last.why[dir])
				return
			}
			rep.site(fname(e.Fn))
			x = y
			steps++
		}
		if steps == 0 {
			rep.bad(c, pos, key, "prime", o.St.pathString(), "the size of the table (%s) may not be a prime number: %s", key, short(n.String(), 150))
			return
		}
		ok := asked == nil || isIntConst(x) && kind == "cache"
		for _, a := range asked {
			if a != nil && (a == x || r.decideEQ(o.St, a, x) == yes) {
				ok = true
			}
		}
		if !ok {
			rep.bad(c, pos, key, "size asked", o.St.pathString(), "the size of the table (%s) is that of a prime number close to %s, which is not the size asked", key, short(x.String(), 150))
			return
		}
		rep.ok("the size of a table is the prime number next to the size asked")
	}
	defer func() { c.sizeHook = nil }()
	aux := newReport("C24", rep.Config)
	c.checkC24(aux)
	for f := range aux.Funcs {
		rep.Funcs[f] = true
	}
	rep.Paths += aux.Paths
	kinds := []string{"cache", "resized cache"}
	if buddy {
		kinds = append(kinds, "table", "growth")
	}
	for _, k := range kinds {
		if !found[k] {
			rep.bad(c, token.NoPos, "", "prime", "", "no code was found that allocates a table (%s)", k)
		}
	}
}

// chooserCall is the call of a function that looks for prime numbers that
// computed a value.
func (c *Ctx) chooserCall(o *Outcome, t *Term) *Event {
	if t == nil {
		return nil
	}
	for e := o.St.ev; e != nil; e = e.prev {
		if e.ev.Kind == EvHead && e.ev.Val == t && c.testsPrimes()[e.ev.Fn] {
			return e.ev
		}
	}
	return nil
}

func init() {
	register("C35", "the length of each table is the result of a search of a prime number that starts from the size asked; the search is shown to go through the candidates one by one, upwards (initial sizes, caches) or downwards (growth), to leave out only numbers shown not to be prime (divisor, parity, exact test of the library), and to stop at the first prime number", func(c *Ctx, rep *Report) { c.checkC35(rep) })
}

// elements gives the values that the elements of a constant table may have.
func (p *primes) elements(d *Term) []*Term {
	if d.Op != OLoad || d.Args[0].Op != OIA {
		return nil
	}
	base := d.Args[0].Args[0]
	root := rootOf(base)
	if base.Op == OSlice {
		root = rootOf(base.Args[0])
	}
	ok := root.Op == OGlobal && p.c.P.constGlobals[root.Aux.(*ssa.Global)]
	for g, v := range p.c.Globals {
		if v == base && v.Op != ONil && readOnlyList(p.c.P, g) {
			ok = true
		}
	}
	if !ok {
		return nil
	}
	var l []*Term
	for a, v := range p.c.InitMem {
		if a.Op == OIA && rootOf(a.Args[0]) == root {
			l = append(l, v)
		}
	}
	return l
}

// readOnlyList: the elements of the slice in a variable are only read.
func readOnlyList(p *Prog, g *ssa.Global) bool {
	var reads func(v ssa.Value, d int) bool
	reads = func(v ssa.Value, d int) bool {
		if v.Referrers() == nil || d > 6 {
			return false
		}
		for _, i := range *v.Referrers() {
			switch i := i.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.IndexAddr:
				if !reads(i, d+1) {
					return false
				}
			case *ssa.Phi:
				if !reads(i, d+1) {
					return false
				}
			case *ssa.Call:
				if b, ok := i.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" && b.Name() != "cap" {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					switch i := i.(type) {
					case *ssa.UnOp:
						if !reads(i, 0) {
							return false
						}
					case *ssa.Store:
						if f.Name() != "init" || i.Val == ssa.Value(g) {
							return false
						}
					default:
						return false
					}
				}
			}
		}
	}
	return true
}
