package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the head of an abstract value.
type Op int

const (
	OConst   Op = iota // integer or boolean constant, value K
	ONil               // nil of any type
	OStr               // other constant, Aux = exact string
	OParam             // formal parameter or other named unknown, Aux = name
	OFresh             // anonymous unknown, K = number, Aux = description
	OAlloc             // address of a fresh object, K = number, Aux = *allocInfo
	OGlobal            // address of a package variable, Aux = *ssa.Global
	OFA                // address of field Aux (*types.Var) of the struct at Args[0]
	OIA                // address of element Args[1] of slice / array pointer Args[0]
	OLoad              // contents of address Args[0] at epoch K
	OField             // field Aux of struct value Args[0]
	OElem              // element Args[1] of array (or string) value Args[0]
	OLin               // K + sum Coef[i]*Args[i]
	OBin               // opaque binary operation, Aux = operator
	OUn                // opaque unary operation, Aux = operator
	OCmp               // comparison, Aux = "==" or "<=" (integers: Args[0] op Args[1])
	OConv              // opaque conversion of Args[0]
	OCall              // result of an opaque call, Aux = *callInfo, K = sequence number
	OExtr              // component K of tuple Args[0]
	OTuple             // tuple
	OStruct            // struct value, one Arg per field
	OArr               // array value, one Arg per element
	OClosure           // function value, Aux = *ssa.Function, Args = bindings
	OSlice             // slice Args[0][Args[1]:Args[2]]
	OLen               // length of Args[0]
	OAppend            // append(Args[0], Args[1:]...), K = sequence number
	OAppendS           // append(Args[0], Args[1]...)
	OIface             // interface holding Args[0]
	OLookup            // map lookup value: Args[0][Args[1]] at epoch K
	OHas               // map lookup presence
	OHead              // result of a recursive call standing for its contract
	OMk                // result of a node construction (level, low, high)
	OBig               // address of a big integer object, K = number
	OZero              // zero value of a non-scalar type
)

var opNames = [...]string{"const", "nil", "str", "param", "fresh", "alloc", "global", "&fld", "&elt", "ld", "fld", "elt", "lin", "bin", "un", "cmp", "conv", "call", "extr", "tuple", "struct", "arr", "closure", "slice", "len", "append", "append...", "iface", "lookup", "has", "head", "mk", "big", "zero"}

type Term struct {
	ID   int
	Op   Op
	Args []*Term
	Coef []int64
	K    int64
	Aux  interface{}
	T    types.Type
}

type allocInfo struct {
	Comment string
	Heap    bool
	Instr   ssa.Instruction
	Slice   bool
}

type callInfo struct {
	Name string
	Fn   *ssa.Function
}

// Terms are interned in a Universe.
type Universe struct {
	tab        map[string]*Term
	all        []*Term
	auxID      map[interface{}]int
	typeID     map[string]int64
	seq        int64
	initSeq    int64 // objects allocated by the initialisation of the package
	nils       *Term
	allocInfos map[ssa.Instruction]*allocInfo
	callInfos  map[string]*callInfo
}

func NewUniverse() *Universe {
	u := &Universe{tab: map[string]*Term{}, auxID: map[interface{}]int{}, typeID: map[string]int64{}, allocInfos: map[ssa.Instruction]*allocInfo{}, callInfos: map[string]*callInfo{}}
	u.nils = u.mk(ONil, nil, 0, nil, nil)
	return u
}

func (u *Universe) fresh() int64 { u.seq++; return u.seq }

func (u *Universe) mk(op Op, aux interface{}, k int64, t types.Type, coef []int64, args ...*Term) *Term {
	if op == OBin && len(args) == 2 && args[0].ID > args[1].ID && (aux == "*" || aux == "&" || aux == "|" || aux == "^") {
		// these operators commute
		args = []*Term{args[1], args[0]}
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%d", op, k)
	if aux != nil {
		if s, ok := aux.(string); ok {
			sb.WriteString("|s")
			sb.WriteString(s)
		} else {
			id, ok := u.auxID[aux]
			if !ok {
				id = len(u.auxID) + 1
				u.auxID[aux] = id
			}
			fmt.Fprintf(&sb, "|a%d", id)
		}
	}
	for i, a := range args {
		if coef != nil {
			fmt.Fprintf(&sb, "|%d*%d", coef[i], a.ID)
		} else {
			fmt.Fprintf(&sb, "|%d", a.ID)
		}
	}
	key := sb.String()
	if x, ok := u.tab[key]; ok {
		return x
	}
	x := &Term{ID: len(u.all), Op: op, Args: args, Coef: coef, K: k, Aux: aux, T: t}
	u.tab[key] = x
	u.all = append(u.all, x)
	return x
}

func (u *Universe) Int(k int64) *Term { return u.mk(OConst, nil, k, types.Typ[types.Int], nil) }
func (u *Universe) Bool(b bool) *Term {
	k := int64(0)
	if b {
		k = 1
	}
	return u.mk(OConst, "bool", k, types.Typ[types.Bool], nil)
}
func (u *Universe) Nil() *Term         { return u.nils }
func (u *Universe) Str(s string) *Term { return u.mk(OStr, s, 0, types.Typ[types.String], nil) }
func (u *Universe) Param(name string, t types.Type) *Term {
	// parameters with the same name but another type are not the same
	ts := types.TypeString(t, nil)
	k, ok := u.typeID[ts]
	if !ok {
		k = int64(len(u.typeID))
		u.typeID[ts] = k
	}
	return u.mk(OParam, name, k, t, nil)
}
func (u *Universe) Fresh(desc string, t types.Type) *Term {
	return u.mk(OFresh, desc, u.fresh(), t, nil)
}

func isIntConst(t *Term) bool  { return t.Op == OConst && t.Aux == nil }
func isBoolConst(t *Term) bool { return t.Op == OConst && t.Aux != nil }

// Linear arithmetic normal form.

type linForm struct {
	coef map[*Term]int64
	k    int64
}

func (u *Universe) lin(t *Term) linForm {
	l := linForm{coef: map[*Term]int64{}}
	switch {
	case isIntConst(t):
		l.k = t.K
	case t.Op == OLin:
		l.k = t.K
		for i, a := range t.Args {
			l.coef[a] = t.Coef[i]
		}
	default:
		l.coef[t] = 1
	}
	return l
}

func (u *Universe) fromLin(l linForm, typ types.Type) *Term {
	var atoms []*Term
	for a, c := range l.coef {
		if c != 0 {
			atoms = append(atoms, a)
		}
	}
	if len(atoms) == 0 {
		return u.Int(l.k)
	}
	if len(atoms) == 1 && l.coef[atoms[0]] == 1 && l.k == 0 {
		return atoms[0]
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].ID < atoms[j].ID })
	coef := make([]int64, len(atoms))
	for i, a := range atoms {
		coef[i] = l.coef[a]
	}
	return u.mk(OLin, nil, l.k, typ, coef, atoms...)
}

func (u *Universe) Add(a, b *Term) *Term        { return u.comb(a, 1, b, 1) }
func (u *Universe) Sub(a, b *Term) *Term        { return u.comb(a, 1, b, -1) }
func (u *Universe) AddK(a *Term, k int64) *Term { return u.comb(a, 1, u.Int(k), 1) }
func (u *Universe) comb(a *Term, ca int64, b *Term, cb int64) *Term {
	la, lb := u.lin(a), u.lin(b)
	r := linForm{coef: map[*Term]int64{}, k: la.k*ca + lb.k*cb}
	for t, c := range la.coef {
		r.coef[t] += c * ca
	}
	for t, c := range lb.coef {
		r.coef[t] += c * cb
	}
	return u.fromLin(r, a.T)
}

func (u *Universe) FA(base *Term, f *types.Var) *Term {
	return u.mk(OFA, f, 0, types.NewPointer(f.Type()), nil, base)
}
func (u *Universe) IA(base, idx *Term, elem types.Type) *Term {
	// element of a sub-slice is an element of the base
	if base.Op == OSlice && base.Args[1] != nil {
		return u.IA(base.Args[0], u.Add(base.Args[1], idx), elem)
	}
	var pt types.Type
	if elem != nil {
		pt = types.NewPointer(elem)
	}
	return u.mk(OIA, nil, 0, pt, nil, base, idx)
}

// String gives a readable form of a term.
func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 9 {
		return "…"
	}
	as := func() string {
		var s []string
		for _, a := range t.Args {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, ",")
	}
	switch t.Op {
	case OConst:
		if t.Aux != nil {
			if t.K != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprint(t.K)
	case ONil:
		return "nil"
	case OStr:
		return fmt.Sprintf("%q", t.Aux)
	case OParam:
		return fmt.Sprint(t.Aux)
	case OFresh:
		return fmt.Sprintf("?%v#%d", t.Aux, t.K)
	case OAlloc:
		return fmt.Sprintf("new#%d", t.K)
	case OGlobal:
		return "&" + t.Aux.(*ssa.Global).Name()
	case OFA:
		return t.Args[0].str(d+1) + "." + t.Aux.(*types.Var).Name()
	case OIA:
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case OLoad:
		if t.K == 0 {
			return "*" + t.Args[0].str(d+1)
		}
		return fmt.Sprintf("*%s@%d", t.Args[0].str(d+1), t.K)
	case OField:
		return t.Args[0].str(d+1) + "." + t.Aux.(*types.Var).Name()
	case OLin:
		var s []string
		for i, a := range t.Args {
			c := t.Coef[i]
			switch c {
			case 1:
				s = append(s, "+"+a.str(d+1))
			case -1:
				s = append(s, "-"+a.str(d+1))
			default:
				s = append(s, fmt.Sprintf("%+d*%s", c, a.str(d+1)))
			}
		}
		r := strings.TrimPrefix(strings.Join(s, ""), "+")
		if t.K != 0 {
			r += fmt.Sprintf("%+d", t.K)
		}
		return "(" + r + ")"
	case OBin, OCmp:
		return "(" + t.Args[0].str(d+1) + fmt.Sprint(t.Aux) + t.Args[1].str(d+1) + ")"
	case OCall:
		return fmt.Sprintf("%s(%s)#%d", t.Aux.(*callInfo).Name, as(), t.K)
	case OHead:
		return fmt.Sprintf("%s(%s)", t.Aux.(*headInfo).Fn.Name(), as())
	case OMk:
		return "mk(" + as() + ")"
	case OUn:
		if t.Aux == "!" {
			return "!" + t.Args[0].str(d+1)
		}
		return fmt.Sprint(t.Aux) + "(" + as() + ")"
	case OExtr:
		return fmt.Sprintf("%s.%d", t.Args[0].str(d+1), t.K)
	case OClosure:
		return "func " + t.Aux.(*ssa.Function).Name()
	case OIface:
		return t.Args[0].str(d + 1)
	}
	return opNames[t.Op] + "(" + as() + ")"
}

// contains tells whether sub occurs in t.
func (t *Term) contains(sub *Term) bool {
	if t == sub {
		return true
	}
	for _, a := range t.Args {
		if a != nil && a.contains(sub) {
			return true
		}
	}
	return false
}

// walk visits t and its sub-terms.
func (t *Term) walk(f func(*Term) bool) {
	if t == nil || !f(t) {
		return
	}
	for _, a := range t.Args {
		a.walk(f)
	}
}

// subst replaces terms inside t.
func (u *Universe) subst(t *Term, m map[*Term]*Term) *Term {
	if t == nil {
		return nil
	}
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = u.subst(a, m)
		if args[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	if t.Op == OLin {
		r := linForm{coef: map[*Term]int64{}, k: t.K}
		for i, a := range args {
			la := u.lin(a)
			r.k += la.k * t.Coef[i]
			for x, c := range la.coef {
				r.coef[x] += c * t.Coef[i]
			}
		}
		return u.fromLin(r, t.T)
	}
	return u.mk(t.Op, t.Aux, t.K, t.T, t.Coef, args...)
}
