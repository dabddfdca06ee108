package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// output decides what Print and Dot write. The text written on a path is computed
// with symbolic values in the places of the numbers; the function given to Allnodes
// is analysed apart, with symbolic parameters.
type output struct {
	c   *Ctx
	rep *Report
	fn  *ssa.Function
	all *ssa.Function // Allnodes
	w   *Term         // the stream
	n   *Term         // the roots
	r   *Run
	out []*Event       // events before the function given to Allnodes
	via map[*Term]bool // the buffers that it writes to
}

func (w *output) run(fn *ssa.Function, args []*Term, mk func() *State) ([]*Outcome, *Run) {
	r := w.c.newRun()
	r.NoInline = map[*ssa.Function]bool{w.all: true}
	return r.Exec(fn, args, mk), r
}

// piece of text: a literal, or a value.
type piece struct {
	lit  string
	val  *Term
	verb byte
}

// emission is a call that writes on the stream.
type emission struct {
	e    *Event
	text []piece
	via  *Term // the writer that it goes through
}

// stream: the writer is the stream, or a buffer in front of it.
func (w *output) stream(t *Term, evs []*Event) bool {
	t = stripIface(t)
	if t == w.w {
		return true
	}
	for _, e := range append(append([]*Event{}, w.out...), evs...) {
		if e.Kind == EvCall && e.Val == t && len(e.Args) > 0 {
			switch e.Name {
			case "text/tabwriter.NewWriter", "bufio.NewWriter", "bufio.NewWriterSize":
				return w.stream(e.Args[0], evs)
			case "(*text/tabwriter.Writer).Init":
				return w.stream(e.Args[1], evs)
			}
		}
	}
	return false
}

// scribe reads the text written on a path.
type scribe struct {
	w    *output
	o    *Outcome
	evs  []*Event
	strs map[*Term][]piece // values of strings
	bufs map[*Term][]piece // contents of the builders
	ems  []*emission
	bad  *Event // a call that is not understood
}

// variadic lists the elements of the last argument of a call.
func (s *scribe) variadic(at int, a *Term) ([]*Term, bool) {
	if a.Op == ONil {
		return nil, true
	}
	if a.Op != OSlice || !isIntConst(a.Args[1]) || !isIntConst(a.Args[2]) {
		return nil, false
	}
	l := make([]*Term, a.Args[2].K-a.Args[1].K)
	for _, e := range s.evs[:at] {
		if e.Kind == EvStore && e.Addr.Op == OIA && e.Addr.Args[0] == a.Args[0] && isIntConst(e.Addr.Args[1]) {
			if i := e.Addr.Args[1].K - a.Args[1].K; i >= 0 && i < int64(len(l)) {
				l[i] = e.Val
			}
		}
	}
	for _, x := range l {
		if x == nil {
			return nil, false
		}
	}
	return l, true
}

// str is the text of a string.
func (s *scribe) str(t *Term) []piece {
	t = stripIface(t)
	if p, ok := s.strs[t]; ok {
		return p
	}
	if t.Op == OStr {
		return []piece{{lit: fmt.Sprint(t.Aux)}}
	}
	if t.Op == OBin && t.Aux == "+" {
		return append(append([]piece{}, s.str(t.Args[0])...), s.str(t.Args[1])...)
	}
	return []piece{{val: t, verb: 's'}}
}

func isString(t *Term) bool {
	t = stripIface(t)
	if t.T == nil {
		return false
	}
	b, ok := t.T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (s *scribe) operand(t *Term, verb byte) []piece {
	if isString(t) {
		switch verb {
		case 's', 'v':
			return s.str(t)
		}
	}
	x := stripIface(t)
	if verb == 'd' || verb == 'v' {
		if isIntConst(x) {
			return []piece{{lit: strconv.FormatInt(x.K, 10)}}
		}
	}
	return []piece{{val: x, verb: verb}}
}

// format expands a format.
func (s *scribe) format(f *Term, args []*Term) ([]piece, bool) {
	var fs string
	for _, p := range s.str(f) {
		if p.val != nil {
			return nil, false
		}
		fs += p.lit
	}
	var l []piece
	k := 0
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			l = append(l, piece{lit: fs[i : i+1]})
			continue
		}
		i++
		for i < len(fs) && strings.IndexByte("+-# 0123456789.[]*", fs[i]) >= 0 {
			switch {
			case fs[i] == '*':
				return nil, false
			case fs[i] == '[':
				j := strings.IndexByte(fs[i:], ']')
				if j < 0 {
					return nil, false
				}
				n, err := strconv.Atoi(fs[i+1 : i+j])
				if err != nil || n < 1 {
					return nil, false
				}
				k = n - 1
				i += j
			case fs[i] == '+' || fs[i] == '#':
				return nil, false
			}
			i++
		}
		if i >= len(fs) {
			return nil, false
		}
		if fs[i] == '%' {
			l = append(l, piece{lit: "%"})
			continue
		}
		if k >= len(args) {
			return nil, false
		}
		l = append(l, s.operand(args[k], fs[i])...)
		k++
	}
	return l, k >= len(args)
}

func (s *scribe) sprint(args []*Term, ln bool) []piece {
	var l []piece
	for i, a := range args {
		if i > 0 && (ln || !isString(a) && !isString(args[i-1])) {
			l = append(l, piece{lit: " "})
		}
		l = append(l, s.operand(a, 'v')...)
	}
	if ln {
		l = append(l, piece{lit: "\n"})
	}
	return l
}

// read computes the text written on a path.
func (w *output) read(o *Outcome) *scribe {
	s := &scribe{w: w, o: o, evs: o.St.events(), strs: map[*Term][]piece{}, bufs: map[*Term][]piece{}}
	put := func(e *Event, dst *Term, p []piece, ok bool) {
		dst = stripIface(dst)
		if w.stream(dst, s.evs) {
			if !ok {
				s.bad = e
			}
			if w.out != nil && dst != w.w {
				w.via[dst] = true
			}
			s.ems = append(s.ems, &emission{e, p, dst})
			return
		}
		if !ok {
			p = append(p, piece{val: dst, verb: '?'})
		}
		s.bufs[dst] = append(append([]piece{}, s.bufs[dst]...), p...)
	}
	for i, e := range s.evs {
		if e.Kind != EvCall {
			continue
		}
		switch e.Name {
		case "fmt.Fprintf":
			args, ok := s.variadic(i, e.Args[2])
			var p []piece
			if ok {
				p, ok = s.format(e.Args[1], args)
			}
			put(e, e.Args[0], p, ok)
		case "fmt.Fprintln", "fmt.Fprint":
			args, ok := s.variadic(i, e.Args[1])
			put(e, e.Args[0], s.sprint(args, e.Name == "fmt.Fprintln"), ok)
		case "fmt.Sprintf":
			if args, ok := s.variadic(i, e.Args[1]); ok {
				if p, ok := s.format(e.Args[0], args); ok {
					s.strs[e.Val] = p
				}
			}
		case "fmt.Sprintln", "fmt.Sprint":
			if args, ok := s.variadic(i, e.Args[0]); ok {
				s.strs[e.Val] = s.sprint(args, e.Name == "fmt.Sprintln")
			}
		case "strconv.Itoa":
			s.strs[e.Val] = s.operand(e.Args[0], 'd')
		case "strconv.FormatInt":
			if e.Args[1].K == 10 {
				s.strs[e.Val] = s.operand(stripConv(e.Args[0]), 'd')
			}
		case "io.WriteString", "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString", "(*bufio.Writer).WriteString":
			put(e, e.Args[0], s.str(e.Args[1]), true)
		case "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte", "(*bufio.Writer).WriteByte", "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune", "(*bufio.Writer).WriteRune":
			if isIntConst(e.Args[1]) {
				put(e, e.Args[0], []piece{{lit: string(rune(e.Args[1].K))}}, true)
			} else {
				put(e, e.Args[0], nil, false)
			}
		case "(*strings.Builder).String", "(*bytes.Buffer).String":
			s.strs[e.Val] = s.bufs[e.Args[0]]
		case "(*bytes.Buffer).WriteTo":
			put(e, e.Args[1], s.bufs[e.Args[0]], true)
			s.bufs[e.Args[0]] = nil
		case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
			s.bufs[e.Args[0]] = nil
		case "io.Writer.Write", "(*bufio.Writer).Write", "(*text/tabwriter.Writer).Write", "(*bytes.Buffer).Write":
			if x := e.Args[1]; x.Op == OConv && isString(x.Args[0]) {
				put(e, e.Args[0], s.str(x.Args[0]), true)
			} else {
				p, ok := []piece(nil), false
				if x.Op == OConv {
					p, ok = s.str(x.Args[0]), true
				}
				put(e, e.Args[0], p, ok)
			}
		case "text/tabwriter.NewWriter", "bufio.NewWriter", "bufio.NewWriterSize", "(*text/tabwriter.Writer).Flush", "(*bufio.Writer).Flush", "(*text/tabwriter.Writer).Init":
		default:
			for _, a := range e.Args {
				if w.stream(a, s.evs) {
					s.bad = e
				}
			}
		}
	}
	for _, e := range s.evs {
		if e.Kind == EvHead && e.Fn != w.all || e.Kind == EvCallback {
			for _, a := range e.Args {
				if w.stream(a, s.evs) {
					s.bad = e
				}
			}
		}
	}
	return s
}

// coded is a text where the values are runes of their own.
type coded struct {
	s    string
	vals []piece
}

const holeRune = 0xE000

func (s *scribe) code(keep func(e *Event) bool) *coded {
	c := &coded{}
	var b strings.Builder
	for _, m := range s.ems {
		if keep != nil && !keep(m.e) {
			continue
		}
		for _, p := range m.text {
			if p.val == nil {
				b.WriteString(p.lit)
				continue
			}
			b.WriteRune(rune(holeRune + len(c.vals)))
			c.vals = append(c.vals, p)
		}
	}
	c.s = b.String()
	return c
}

func isHole(r rune) bool { return r >= holeRune && r < 0xF900 }

func (c *coded) hole(s string) *piece {
	for _, r := range s {
		if isHole(r) {
			return &c.vals[int(r)-holeRune]
		}
	}
	return nil
}

func (w *output) bad(o *Outcome, e *Event, rule, f string, a ...interface{}) {
	pos := w.fn.Pos()
	if e != nil && e.Instr != nil && e.Instr.Pos().IsValid() {
		pos = e.Instr.Pos()
	} else if o != nil && o.Kind == OutReturn {
		pos = w.c.retPos(o, w.fn)
	}
	p := ""
	if o != nil {
		p = o.St.pathString()
	}
	w.rep.bad(w.c, pos, fname(w.fn), rule, p, f, a...)
}

// writeFailed: a write is known to have failed on the path.
func (s *scribe) writeFailed() bool {
	for t, v := range s.o.St.facts {
		if v || t.Op != OCmp || t.Aux != "==" {
			continue
		}
		for _, a := range t.Args {
			for _, m := range s.ems {
				if a != m.e.Val && sameCall(a, m.e) {
					return true
				}
				if a == m.e.Val && !isIntType(a.T) {
					return true
				}
			}
			for _, e := range s.evs {
				if e.Kind == EvCall && strings.HasSuffix(e.Name, ".Flush") && e.Val == a {
					return true
				}
			}
		}
	}
	return false
}

// sameCall: the value is another result of the call.
func sameCall(a *Term, e *Event) bool {
	return e.Val != nil && a.Op == OExtr && e.Val.Op == OExtr && a.Args[0] == e.Val.Args[0] && types.Identical(a.T, types.Universe.Lookup("error").Type())
}

// visitor is the call of Allnodes.
func (w *output) visitor(s *scribe) (e *Event, ok bool) {
	for _, x := range s.evs {
		if x.Kind == EvHead && x.Fn == w.all {
			if e != nil {
				w.bad(s.o, x, "every node", "Allnodes is called twice on this path")
				return nil, false
			}
			e = x
		}
	}
	return e, true
}

func (w *output) callback(s *scribe, e *Event) *Term {
	f := stripIface(e.Args[1])
	if f.Op != OClosure || e.Args[0] != w.c.B || e.Args[2] != w.n && !w.sameRoots(s, e.Args[2]) {
		w.bad(s.o, e, "every node", "the call of Allnodes is not on the roots given by the user, with a known function")
		return nil
	}
	return f
}

func (w *output) sameRoots(s *scribe, t *Term) bool {
	return t.Op == OSlice && t.Args[0] == w.n && isIntConst(t.Args[1]) && t.Args[1].K == 0 && w.r.decideEQ(s.o.St, t.Args[2], w.r.length(s.o.St, w.n, w.n.T)) == yes
}

// errored tells whether the BDD has an error on entry.
func (w *output) errored(o *Outcome) tri {
	st := o.St
	e := w.c.errorAtEntry(w.r)
	return notTri(w.r.truth(st, w.r.eqTerm(e, w.c.U.Nil())))
}

func (c *Ctx) errorAtEntry(r *Run) *Term {
	st := c.newState()
	return r.load(st, c.U.FA(c.B, c.errorF), c.errorF.Type())
}

// emptyMessage: the path needs an error without a message.
func (w *output) emptyMessage(s *scribe) bool {
	for _, e := range s.evs {
		if e.Kind == EvCall && e.Name == "error.Error" && e.Val != nil && w.r.decideEQ(s.o.St, e.Val, w.c.U.Str("")) == yes {
			return true
		}
	}
	return false
}

// constRoot is the constant that is the only root, or -1.
func (w *output) constRoot(o *Outcome) int64 {
	st := o.St.clone()
	r := w.r
	et := w.n.T.Underlying().(*types.Slice).Elem()
	if r.decideEQ(st, r.length(st, w.n, w.n.T), w.c.U.Int(1)) != yes {
		return -1
	}
	p := r.load(st, w.c.U.IA(w.n, w.c.U.Int(0), et), et)
	v := r.load(st, p, derefType(et))
	for k := int64(0); k < 2; k++ {
		if r.decideEQ(st, v, w.c.U.Int(k)) == yes {
			return k
		}
	}
	return -1
}

// refusedRoot: the path found an invalid node itself.
func (w *output) refusedRoot(s *scribe) bool {
	for _, e := range s.evs {
		if (e.Kind == EvHead || e.Kind == EvLeave || e.Kind == EvRet) && strings.Contains(e.Name, "checkptr") {
			return true
		}
	}
	return false
}

func (w *output) check() {
	c := w.c
	args := c.methodArgs(w.fn)
	for _, a := range args[1:] {
		if a.T == nil {
			continue
		}
		if s, ok := a.T.Underlying().(*types.Slice); ok && types.Identical(s.Elem(), c.nodeType()) {
			w.n = a
		} else if types.IsInterface(a.T) {
			w.w = a
		}
	}
	if w.n == nil || w.w == nil {
		w.bad(nil, nil, "analysable", "the parameters of %s are not understood", fname(w.fn))
		return
	}
	outs, r := w.run(w.fn, args, c.newState)
	w.r = r
	w.rep.paths(c, r, outs)
	if w.rep.undecided(c, fname(w.fn), outs) {
		return
	}
	dot := w.fn.Signature.Results().Len() > 0
	lists := map[*Term]*rowList{} // by function given to Allnodes
	vias := map[*Term]map[*Term]bool{}
	for _, o := range outs {
		s := w.read(o)
		if s.bad != nil {
			w.bad(o, s.bad, "analysable", "what this call writes is not understood")
			continue
		}
		all, ok := w.visitor(s)
		if !ok {
			continue
		}
		if o.Kind == OutPanic {
			w.bad(o, nil, "describes the BDD", "the function panics")
			continue
		}
		er := w.errored(o)
		if er != no && w.emptyMessage(s) {
			w.rep.ok("paths that need an error without a message do not exist")
			continue
		}
		if er != no {
			// an errored BDD
			switch {
			case all != nil:
				w.bad(o, all, "errored BDD", "the nodes of a BDD are listed when it has an error")
			case o.Kind != OutReturn:
				continue
			case dot && (len(o.Res) != 1 || notTri(r.truth(o.St, r.eqTerm(o.Res[0], c.U.Nil()))) != yes):
				w.bad(o, nil, "errored BDD", "a BDD that has an error is not refused: the result may be nil")
			case !dot && len(s.ems) == 0:
				w.bad(o, nil, "errored BDD", "nothing is written for a BDD that has an error")
			case w.looksValid(s):
				w.bad(o, nil, "errored BDD", "the text written for a BDD that has an error looks like the one of a valid BDD")
			default:
				w.rep.ok("an errored BDD is reported, and not listed")
			}
			continue
		}
		if all == nil {
			if o.Kind != OutReturn {
				continue
			}
			k := w.constRoot(o)
			switch {
			case dot && notTri(r.truth(o.St, r.eqTerm(o.Res[0], c.U.Nil()))) == yes:
				w.rep.ok("the other refusals give an error")
			case k < 0 && !dot && w.reportsError(s):
				w.rep.ok("the other refusals write the error")
			case k < 0:
				w.bad(o, nil, "every node", "the nodes are not listed, though the BDD has no error and the root is not known to be a constant")
			case !dot:
				if want := []string{"False", "True"}[k]; strings.TrimSpace(s.code(nil).s) != want {
					w.bad(o, nil, "constants", "the text for the constant is not %s", want)
				} else {
					w.rep.ok("constants are written True and False")
				}
			default:
				if len(s.code(nil).vals) > 0 {
					w.bad(o, nil, "constants", "a constant has vertices or edges")
				}
			}
			continue
		}
		f := w.callback(s, all)
		if f == nil {
			continue
		}
		if dot {
			if _, ok := lists[f]; !ok {
				lists[f] = nil
				w.out, w.via = o.St.events(), map[*Term]bool{}
				w.dotVisit(f, all, o)
				vias[f] = w.via
				w.out, w.via = nil, nil
			}
			w.dotPath(s, all, vias[f])
			continue
		}
		l, ok := lists[f]
		if !ok {
			l = w.printVisit(f, all, o)
			lists[f] = l
		}
		if l != nil {
			w.printPath(s, all, l)
		}
	}
	if !dot {
		byList := map[*rowList][]*Outcome{}
		var order []*rowList
		for _, o := range outs {
			for _, e := range o.St.events() {
				if e.Kind == EvHead && e.Fn == w.all {
					if x := lists[stripIface(e.Args[1])]; x != nil {
						if byList[x] == nil {
							order = append(order, x)
						}
						byList[x] = append(byList[x], o)
						break
					}
				}
			}
		}
		for _, x := range order {
			w.printLoops(byList[x], x)
		}
		if len(order) == 0 && len(w.rep.Findings) == 0 {
			w.bad(nil, nil, "every node", "no path lists the nodes")
		}
	}
}

func (c *Ctx) nodeType() types.Type {
	return c.P.Types.Scope().Lookup("Node").Type()
}

func (w *output) looksValid(s *scribe) bool {
	t := s.code(nil).s
	return strings.Contains(t, "digraph") || strings.HasPrefix(strings.TrimSpace(t), "True") || strings.HasPrefix(strings.TrimSpace(t), "False")
}

// reportsError: the text contains an error, or its message.
func (w *output) reportsError(s *scribe) bool {
	for _, p := range s.code(nil).vals {
		if p.val.T != nil && types.Identical(p.val.T, types.Universe.Lookup("error").Type()) {
			return true
		}
		for _, e := range s.evs {
			if e.Kind == EvCall && e.Name == "error.Error" && e.Val == p.val {
				return true
			}
		}
	}
	return false
}

func (w *output) failed(s *scribe, all *Event) tri {
	return notTri(w.r.truth(s.o.St, w.r.eqTerm(all.Val, w.c.U.Nil())))
}

// statements splits the text of a graph.
func statements(t string) []string {
	var l []string
	var b strings.Builder
	depth := 0
	quote := false
	angle := 0
	end := func() {
		if x := strings.TrimSpace(b.String()); x != "" {
			l = append(l, x)
		}
		b.Reset()
	}
	prev := rune(0)
	for _, ch := range t {
		switch {
		case quote:
			if ch == '"' && prev != '\\' {
				quote = false
			}
		case angle > 0:
			if ch == '<' {
				angle++
			} else if ch == '>' {
				angle--
			}
		case ch == '"':
			quote = true
		case ch == '[':
			depth++
		case ch == ']':
			depth--
		case ch == '<' && depth > 0:
			angle++
		case depth == 0 && (ch == ';' || ch == '\n'):
			end()
			prev = ch
			continue
		}
		b.WriteRune(ch)
		prev = ch
	}
	end()
	if depth != 0 || quote || angle != 0 {
		return nil
	}
	// a list of attributes may be on the line after
	var j []string
	for _, x := range l {
		if len(j) > 0 && strings.HasPrefix(x, "[") {
			j[len(j)-1] += " " + x
			continue
		}
		j = append(j, x)
	}
	return j
}

var (
	dotHead = regexp.MustCompile(`^\s*(strict\s+)?digraph\b[^{]*\{`)
	dotRef  = `"?([A-Za-z_]*)([\x{E000}-\x{F8FF}]|[0-9]+)"?`
	dotEdge = regexp.MustCompile(`(?s)^` + dotRef + `\s*->\s*` + dotRef + `\s*(\[.*\])?$`)
	dotNode = regexp.MustCompile(`(?s)^` + dotRef + `\s*(\[.*\])?$`)
)

// dotPath checks what Dot writes around the nodes.
func (w *output) dotPath(s *scribe, all *Event, via map[*Term]bool) {
	o := s.o
	if o.Kind != OutReturn {
		return
	}
	r, c := w.r, w.c
	res := notTri(r.truth(o.St, r.eqTerm(o.Res[0], c.U.Nil())))
	switch w.failed(s, all) {
	case yes:
		if res != yes {
			w.bad(o, nil, "invalid node", "Dot does not return the error of Allnodes")
		} else {
			w.rep.ok("the error of Allnodes is returned")
		}
		return
	case unknown:
		if o.Res[0] != all.Val {
			w.bad(o, nil, "invalid node", "the error of Allnodes is not checked")
			return
		}
	case no:
		if res != no && !s.writeFailed() && !w.flushResult(s, o.Res[0]) {
			w.bad(o, nil, "invalid node", "Dot may return an error though Allnodes succeeds")
			return
		}
		if res == yes {
			return
		}
	}
	before := s.code(func(e *Event) bool {
		return e.Seq < all.Seq
	})
	after := s.code(func(e *Event) bool {
		return e.Seq > all.Seq
	})
	if len(before.vals)+len(after.vals) > 0 {
		w.bad(o, all, "a graph", "values are written outside of the function given to Allnodes")
		return
	}
	if !dotHead.MatchString(before.s) {
		w.bad(o, all, "a graph", "the text does not start with digraph {")
		return
	}
	rest := before.s[len(dotHead.FindString(before.s)):]
	for _, x := range statements(rest) {
		if strings.Contains(x, "->") {
			w.bad(o, all, "a graph", "an edge is written before the nodes are listed")
		}
	}
	if strings.TrimSpace(after.s) != "}" && !strings.HasSuffix(strings.TrimSpace(after.s), "}") || strings.Count(rest, "{")+1 != strings.Count(rest, "}")+strings.Count(after.s, "}")-strings.Count(after.s, "{") {
		w.bad(o, nil, "a graph", "the text does not end with }")
		return
	}
	for b := range via {
		s.ems = append(s.ems, &emission{all, nil, b})
	}
	if !w.flushed(s) {
		w.bad(o, nil, "a graph", "the buffer is not flushed")
		return
	}
	w.rep.ok("the text is one graph, closed after the nodes")
}

func (w *output) flushResult(s *scribe, t *Term) bool {
	for _, e := range s.evs {
		if e.Kind == EvCall && e.Val == t && strings.HasSuffix(e.Name, ".Flush") {
			return true
		}
		if e.Kind == EvCall && (e.Val == t || sameCall(t, e)) && strings.HasPrefix(e.Name, "fmt.Fprint") {
			return true
		}
	}
	return false
}

// flushed: the buffers are written at the end.
func (w *output) flushed(s *scribe) bool {
	for i := len(s.ems) - 1; i >= 0; i-- {
		m := s.ems[i]
		if m.via == w.w {
			continue
		}
		ok := false
		for _, e := range s.evs {
			if e.Kind == EvCall && e.Seq > m.e.Seq && strings.HasSuffix(e.Name, ".Flush") && stripIface(e.Args[0]) == m.via {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// visit analyses the function given to Allnodes, in any state that it may be
// called in.
func (w *output) visit(f *Term, all *Event, at *Outcome) ([]*Outcome, *Run, []*Term, *State) {
	g := f.Aux.(*ssa.Function)
	c := w.c
	args := c.headArgs(g)
	r0 := c.newRun()
	st := at.St.clone()
	st.ev, st.path, st.loops = nil, nil, nil
	st.defers = map[int64]*deferred{}
	st.mem = copyMem(all.Mem)
	r0.havocSet(st, c.P.modref(g), nil)
	for _, a := range args {
		if isIntType(a.T) {
			r0.assumeLE(st, c.U.Int(0), a)
		}
	}
	outs, r := w.run(g, append(append([]*Term{}, args...), f.Args...), func() *State { return st.clone() })
	w.rep.paths(c, r, outs)
	if w.rep.undecided(c, fname(g), outs) {
		return nil, nil, nil, nil
	}
	return outs, r, args, st
}

// dotVisit checks the text written for a node.
func (w *output) dotVisit(f *Term, all *Event, at *Outcome) {
	outs, r, args, _ := w.visit(f, all, at)
	if outs == nil {
		return
	}
	u := w.c.U
	id, level, low, high := args[0], args[1], args[2], args[3]
	old := w.r
	w.r = r
	defer func() { w.r = old }()
	for _, o := range outs {
		s := w.read(o)
		if s.bad != nil {
			w.bad(o, s.bad, "analysable", "what this call writes is not understood")
			continue
		}
		if o.Kind != OutReturn {
			w.bad(o, nil, "analysable", "the function given to Allnodes does not return")
			continue
		}
		if r.decideEQ(o.St, o.Res[0], u.Nil()) != yes {
			if s.writeFailed() || w.flushResult(s, o.Res[0]) && len(s.ems) > 0 {
				// the error of a write is given to the caller
				if notTri(r.truth(o.St, r.eqTerm(o.Res[0], u.Nil()))) == yes || s.writeFailed() {
					continue
				}
			} else {
				w.bad(o, nil, "every node", "the function given to Allnodes stops the enumeration")
				continue
			}
		}
		t := s.code(nil)
		sts := statements(t.s)
		if sts == nil && strings.TrimSpace(t.s) != "" {
			w.bad(o, nil, "a graph", "the text for a node is not a list of statements")
			continue
		}
		cst := w.constant(o.St, id)
		if len(t.vals) == 0 && len(sts) == 0 {
			if cst != yes {
				w.bad(o, nil, "one vertex per node", "no vertex is written for a node that is not a constant")
			} else {
				w.rep.ok("nothing is written for a constant")
			}
			continue
		}
		if cst != no {
			w.bad(o, nil, "one vertex per node", "a vertex or an edge is written from a constant")
			continue
		}
		vertices := 0
		prefix := map[string]bool{}
		edges := map[string]int{}
		good := true
		fail := func(rule, f string, a ...interface{}) {
			good = false
			w.bad(o, lastWrite(s), rule, f, a...)
		}
		is := func(ref string, t2 *Term) bool {
			if p := t.hole(ref); p != nil {
				return (p.verb == 'd' || p.verb == 'v') && stripConv(p.val) == t2
			}
			k, err := strconv.ParseInt(ref, 10, 64)
			return err == nil && r.decideEQ(o.St, t2, u.Int(k)) == yes
		}
		for _, x := range sts {
			if m := dotEdge.FindStringSubmatch(x); m != nil {
				prefix[m[1]], prefix[m[3]] = true, true
				style := ""
				for _, y := range []string{"dotted", "filled"} {
					if regexp.MustCompile(`\bstyle\s*=\s*"?` + y + `\b`).MatchString(m[5]) {
						style += y
					}
				}
				if !is(m[2], id) {
					fail("edges", "an edge does not start from the node")
					continue
				}
				var succ *Term
				switch style {
				case "dotted":
					succ = low
				case "filled":
					succ = high
				default:
					fail("edges", "an edge is neither dotted nor filled")
					continue
				}
				edges[style]++
				if !is(m[4], succ) {
					fail("edges", "the %s edge does not go to the %s successor", style, map[string]string{"dotted": "low", "filled": "high"}[style])
					continue
				}
				if r.decideEQ(o.St, succ, u.Int(0)) != no {
					fail("edges", "an edge to False is written")
				}
				continue
			}
			if m := dotNode.FindStringSubmatch(x); m != nil && t.hole(m[2]) != nil {
				prefix[m[1]] = true
				vertices++
				if !is(m[2], id) {
					fail("one vertex per node", "the vertex is not named after the node")
				}
				for _, ch := range m[3] {
					if isHole(ch) {
						p := t.vals[int(ch)-holeRune]
						if v := stripConv(p.val); v != id && v != level {
							fail("one vertex per node", "the label of the vertex shows another value than the id and the level of the node")
						}
					}
				}
				continue
			}
			for _, ch := range x {
				if isHole(ch) {
					fail("analysable", "a statement is neither a vertex nor an edge")
					break
				}
			}
		}
		if vertices != 1 {
			fail("one vertex per node", "%d vertices are written for a node", vertices)
		}
		for _, y := range []struct {
			s string
			t *Term
		}{{"dotted", low}, {"filled", high}} {
			z := r.decideEQ(o.St, y.t, u.Int(0))
			if edges[y.s] > 1 || edges[y.s] == 0 && z != yes {
				fail("edges", "%d %s edges are written for a successor that may be other than False", edges[y.s], y.s)
			}
		}
		if len(prefix) > 1 {
			fail("edges", "the vertices do not have the same names in the edges")
		}
		if good {
			w.rep.ok("one vertex, a dotted edge to low and a filled one to high when they are not False")
		}
		for _, m := range s.ems {
			w.rep.site(w.c.P.pos(m.e.Instr.Pos()))
		}
	}
}

func lastWrite(s *scribe) *Event {
	if len(s.ems) == 0 {
		return nil
	}
	return s.ems[len(s.ems)-1].e
}

// ---------------------------------------------------------------- Print

// rowList is the list that the function given to Allnodes fills.
type rowList struct {
	cell   *Term // address of the list
	elem   types.Type
	roles  map[string]int // part of a row -> 0: id, 1: level, 2: low, 3: high
	sorted bool
	filter bool // holds no constant
	order  bool // to be sorted
}

// parts lists the integers in a value.
func (w *output) parts(t types.Type) []string {
	var l []string
	switch x := t.Underlying().(type) {
	case *types.Array:
		if !isIntType(x.Elem()) {
			return nil
		}
		for i := int64(0); i < x.Len(); i++ {
			l = append(l, fmt.Sprint(i))
		}
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if isIntType(x.Field(i).Type()) {
				l = append(l, x.Field(i).Name())
			}
		}
	}
	return l
}

func (w *output) partAddr(a *Term, t types.Type, p string) (*Term, types.Type) {
	switch x := t.Underlying().(type) {
	case *types.Array:
		k, _ := strconv.ParseInt(p, 10, 64)
		return w.c.U.IA(a, w.c.U.Int(k), x.Elem()), x.Elem()
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if x.Field(i).Name() == p {
				return w.c.U.FA(a, x.Field(i)), x.Field(i).Type()
			}
		}
	}
	return nil, nil
}

// partOf: the value is a part of the element idx of a list.
func (w *output) partOf(v *Term) (list, idx *Term, part string) {
	v = stripConv(v)
	if v.Op != OLoad {
		return nil, nil, ""
	}
	a := v.Args[0]
	switch a.Op {
	case OFA:
		part = a.Aux.(*types.Var).Name()
	case OIA:
		if !isIntConst(a.Args[1]) {
			return nil, nil, ""
		}
		part = fmt.Sprint(a.Args[1].K)
	default:
		return nil, nil, ""
	}
	a = a.Args[0]
	if a.Op != OIA {
		return nil, nil, ""
	}
	return a.Args[0], a.Args[1], part
}

// printVisit checks the function given to Allnodes by Print: it adds each node to a
// list.
func (w *output) printVisit(f *Term, all *Event, at *Outcome) *rowList {
	outs, r, args, st0 := w.visit(f, all, at)
	if outs == nil {
		return nil
	}
	old := w.r
	w.r = r
	defer func() { w.r = old }()
	u := w.c.U
	l := &rowList{roles: map[string]int{}, sorted: true, filter: true}
	// the list: what is captured and is a list of rows
	for _, b := range f.Args {
		p, ok := b.T.Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		s, ok := p.Elem().Underlying().(*types.Slice)
		if !ok || len(w.parts(s.Elem())) < 4 {
			continue
		}
		if l.cell != nil {
			w.bad(at, all, "analysable", "the function given to Allnodes uses several lists")
			return nil
		}
		l.cell, l.elem = b, s.Elem()
	}
	if l.cell == nil {
		w.bad(at, all, "analysable", "the list where the function given to Allnodes puts the nodes is not found")
		return nil
	}
	lt := derefType(l.cell.T)
	// it is empty before
	pre := at.St.clone()
	first := w.r.loadMem(pre, all.Mem, l.cell, lt)
	if r.decideEQ(pre, r.length(pre, first, lt), u.Int(0)) != yes {
		w.bad(at, all, "one row per node", "the list of nodes is not empty at first")
		return nil
	}
	L0 := r.load(st0.clone(), l.cell, lt)
	added := false
	for _, o := range outs {
		s := w.read(o)
		if len(s.ems) > 0 || s.bad != nil {
			e := s.bad
			if e == nil {
				e = lastWrite(s)
			}
			w.bad(o, e, "increasing ids", "a node is written when it is visited, before the others are known")
			return nil
		}
		if o.Kind != OutReturn || r.decideEQ(o.St, o.Res[0], u.Nil()) != yes {
			w.bad(o, nil, "one row per node", "the function given to Allnodes stops the enumeration")
			return nil
		}
		L := r.load(o.St.clone(), l.cell, lt)
		if L == L0 {
			if r.decideLE(o.St, args[0], u.Int(1)) != yes {
				w.bad(o, nil, "one row per node", "a node that is not a constant is not added to the list")
				return nil
			}
			for _, e := range s.evs {
				if e.Kind == EvStore && !r.newAlloc(rootOf(e.Addr)) {
					w.bad(o, e, "one row per node", "the list is changed on this path")
					return nil
				}
			}
			continue
		}
		if r.decideLE(o.St, args[0], u.Int(1)) != no {
			l.filter = false
		}
		if !w.adds(o, s, l, L0, L, args) {
			return nil
		}
		added = true
	}
	if !added {
		w.bad(at, all, "one row per node", "no node is added to the list")
		return nil
	}
	w.rep.ok("each node is added once to the list")
	return l
}

// adds checks one way of adding a node to the list.
func (w *output) adds(o *Outcome, s *scribe, l *rowList, L0, L *Term, args []*Term) bool {
	r, u := w.r, w.c.U
	var pos *Term // place of the new row; nil at the end
	var row []*Term
	ps := w.parts(l.elem)
	insert := false
	switch {
	case L.Op == OAppend && len(L.Args) == 2 && L.Args[0] == L0:
		// stores to the list afterwards
		var cp *Event
		for _, e := range s.evs {
			if e.Kind == EvCall && e.Name == "copy" {
				if cp != nil || e.Args[0].Op != OSlice || e.Args[1].Op != OSlice || e.Args[0].Args[0] != L || e.Args[1].Args[0] != L {
					w.bad(o, e, "one row per node", "this copy is not understood")
					return false
				}
				d, sr := e.Args[0], e.Args[1]
				n := r.length(o.St, L0, derefType(l.cell.T))
				if u.Sub(d.Args[1], sr.Args[1]) != u.Int(1) || r.decideLE(o.St, u.AddK(n, 1), d.Args[2]) != yes || r.decideLE(o.St, n, sr.Args[2]) != yes {
					w.bad(o, e, "one row per node", "the rows after the new one are not moved one place")
					return false
				}
				cp = e
				pos = sr.Args[1]
			}
			if e.Kind == EvStore && rootSlice(baseOf(e.Addr)) == L {
				if cp == nil {
					w.bad(o, e, "one row per node", "a row of the list is overwritten")
					return false
				}
				b := e.Addr
				for b.Op == OFA || b.Op == OIA && b.Args[0] != L {
					b = b.Args[0]
				}
				if b.Op != OIA || b.Args[1] != pos {
					w.bad(o, e, "one row per node", "a row of the list is overwritten")
					return false
				}
			}
		}
		if cp == nil {
			row = w.rowOf(o, L.Args[1], l, ps)
		} else {
			insert = true
			a := u.IA(L, pos, l.elem)
			st := o.St.clone()
			for _, p := range ps {
				pa, pt := w.partAddr(a, l.elem, p)
				row = append(row, r.load(st, pa, pt))
			}
		}
	default:
		for i, e := range s.evs {
			if e.Kind == EvCall && e.Name == "slices.Insert" && e.Val == L && e.Args[0] == L0 {
				if x, ok := s.variadic(i, e.Args[2]); ok && len(x) == 1 {
					insert = true
					pos = e.Args[1]
					row = w.rowOf(o, x[0], l, ps)
				} else {
					// the row is built in the array of the arguments
					b := e.Args[2]
					if b.Op == OSlice && isIntConst(b.Args[2]) && b.Args[2].K == 1 {
						insert = true
						pos = e.Args[1]
						st := o.St.clone()
						for _, p := range ps {
							pa, pt := w.partAddr(u.IA(b.Args[0], u.Int(0), l.elem), l.elem, p)
							row = append(row, r.load(st, pa, pt))
						}
					}
				}
			}
		}
	}
	if row == nil {
		w.bad(o, nil, "one row per node", "the way a node is added to the list is not understood")
		return false
	}
	// the parts of the row
	roles := map[string]int{}
	for i, p := range ps {
		for k := 0; k < 4; k++ {
			if stripConv(row[i]) == args[k] {
				roles[p] = k
			}
		}
	}
	have := map[int]bool{}
	for _, k := range roles {
		have[k] = true
	}
	if len(have) != 4 {
		w.bad(o, nil, "one row per node", "the row added to the list does not hold the id, the level, and both successors of the node")
		return false
	}
	if len(l.roles) == 0 {
		l.roles = roles
	} else if fmt.Sprint(l.roles) != fmt.Sprint(roles) {
		w.bad(o, nil, "one row per node", "the rows added to the list have different contents")
		return false
	}
	if !insert {
		l.sorted = false
		return true
	}
	// the place of the row
	for _, e := range s.evs {
		if e.Kind == EvCall && e.Name == "sort.Search" && e.Val == pos {
			if e.Args[0] == r.length(o.St, L0, derefType(l.cell.T)) && w.searches(o, e, l, L0, args[0]) {
				w.rep.ok("the row is inserted at its place")
				return true
			}
		}
	}
	w.bad(o, nil, "increasing ids", "the row is not inserted before the rows with a bigger id")
	return false
}

func baseOf(a *Term) *Term {
	for a.Op == OFA || a.Op == OIA {
		a = a.Args[0]
	}
	return a
}

func (w *output) rowOf(o *Outcome, v *Term, l *rowList, ps []string) []*Term {
	var row []*Term
	st := o.St.clone()
	for i, p := range ps {
		switch x := l.elem.Underlying().(type) {
		case *types.Array:
			k, _ := strconv.ParseInt(p, 10, 64)
			row = append(row, w.r.elem(st, v, w.c.U.Int(k), x.Elem()))
		case *types.Struct:
			for j := 0; j < x.NumFields(); j++ {
				if x.Field(j).Name() == p {
					row = append(row, w.r.field(st, v, x, j))
				}
			}
		}
		if len(row) != i+1 {
			return nil
		}
	}
	return row
}

// closureResult runs a function of integers given to a library function.
func (w *output) closureResult(f *Term, e *Event, at *Outcome) (*Outcome, []*Term) {
	f = stripIface(f)
	if f.Op != OClosure {
		return nil, nil
	}
	g := f.Aux.(*ssa.Function)
	args := w.c.headArgs(g)
	st := at.St.clone()
	st.ev, st.path, st.loops = nil, nil, nil
	st.defers = map[int64]*deferred{}
	if e.Mem != nil {
		st.mem = copyMem(e.Mem)
	}
	for _, a := range args {
		if isIntType(a.T) {
			w.r.assumeLE(st, w.c.U.Int(0), a)
		}
	}
	r := w.c.newRun()
	outs := r.Exec(g, append(append([]*Term{}, args...), f.Args...), func() *State { return st.clone() })
	if len(outs) != 1 || outs[0].Kind != OutReturn {
		return nil, nil
	}
	return outs[0], args
}

// keyOf: the value is the id in the element idx of the list.
func (w *output) keyOf(v *Term, l *rowList, list, idx *Term) bool {
	b, i, p := w.partOf(v)
	if b == nil || b != list || stripConv(i) != idx {
		return false
	}
	k, ok := l.roles[p]
	return ok && k == 0
}

// searches: the function given to sort.Search tells that the id of a row is at
// least the one of the node.
func (w *output) searches(o *Outcome, e *Event, l *rowList, list, id *Term) bool {
	res, args := w.closureResult(e.Args[1], e, o)
	if res == nil || len(args) != 1 {
		return false
	}
	t := res.Res[0]
	// id <= key, id < key, or the negation of key < id
	for _, d := range []int64{0, 1} {
		for _, neg := range []bool{false, true} {
			x := t
			if neg {
				if x.Op != OUn || x.Aux != "!" {
					continue
				}
				x = x.Args[0]
			}
			if x.Op != OCmp || x.Aux != "<=" {
				continue
			}
			a, b := x.Args[0], x.Args[1]
			if !neg && w.c.U.Sub(a, id) == w.c.U.Int(d) && w.keyOf(b, l, list, args[0]) {
				return true
			}
			// !(key + 1 <= id), !(key <= id)
			if neg && b == id && w.keyOf(w.c.U.AddK(a, d-1), l, list, args[0]) {
				return true
			}
		}
	}
	return false
}

// less: the function orders the rows by id.
func (w *output) less(o *Outcome, e *Event, f *Term, l *rowList, list *Term) bool {
	res, args := w.closureResult(f, e, o)
	if res == nil || len(args) != 2 {
		return false
	}
	t := res.Res[0]
	x, neg := t, false
	if x.Op == OUn && x.Aux == "!" {
		x, neg = x.Args[0], true
	}
	if isIntType(args[0].T) {
		if x.Op != OCmp || x.Aux != "<=" {
			return false
		}
		a, b := x.Args[0], x.Args[1]
		i, j := args[0], args[1]
		if neg {
			// !(key(j) <= key(i)), !(key(j)+1 <= key(i))
			i, j = j, i
		}
		for _, d := range []int64{0, -1} {
			if w.keyOf(w.c.U.AddK(a, d), l, list, i) && w.keyOf(b, l, list, j) || w.keyOf(a, l, list, i) && w.keyOf(w.c.U.AddK(b, -d), l, list, j) {
				return true
			}
		}
		return false
	}
	// a function that compares two rows
	ka := w.partOfRow(res, args[0], l)
	kb := w.partOfRow(res, args[1], l)
	if ka == nil || kb == nil {
		return false
	}
	if t == w.c.U.Sub(ka, kb) {
		return true
	}
	for _, y := range res.St.events() {
		if y.Kind == EvCall && y.Val == t && y.Name == "cmp.Compare" && stripConv(y.Args[0]) == ka && stripConv(y.Args[1]) == kb {
			return true
		}
	}
	return false
}

func (w *output) partOfRow(o *Outcome, v *Term, l *rowList) *Term {
	ps := w.parts(l.elem)
	row := w.rowOf(o, v, l, ps)
	for i, p := range ps {
		if k, ok := l.roles[p]; ok && k == 0 && row != nil {
			return row[i]
		}
	}
	return nil
}

// printPath checks a path of Print that lists the nodes.
func (w *output) printPath(s *scribe, all *Event, l *rowList) {
	o := s.o
	after := false
	for _, e := range s.evs {
		if e == all {
			after = true
		}
		if after && e.Kind == EvLoopEnter {
			if w.failed(s, all) != no {
				w.bad(o, all, "invalid node", "rows are written without a check of the error of Allnodes")
			}
			break
		}
	}
	if o.Kind != OutReturn {
		return
	}
	switch w.failed(s, all) {
	case yes:
		if len(s.ems) == 0 {
			w.bad(o, all, "invalid node", "nothing is written for an invalid node")
		} else if !w.reportsError(s) {
			w.bad(o, all, "invalid node", "the text written for an invalid node does not show the error")
		} else {
			w.rep.ok("an invalid node is reported")
		}
	case unknown:
		w.bad(o, all, "invalid node", "the error of Allnodes is not checked")
	case no:
		if !w.flushed(s) {
			w.bad(o, nil, "one row per node", "the buffer is not flushed")
			return
		}
		for _, e := range s.evs {
			if e.Kind == EvCall && e.Name == "text/tabwriter.NewWriter" {
				ok := false
				for _, x := range s.evs {
					if x.Kind == EvCall && strings.HasSuffix(x.Name, ".Flush") && stripIface(x.Args[0]) == e.Val && x.Seq > e.Seq {
						ok = true
						// after the rows
						for _, y := range s.evs {
							if y.Kind == EvLoopExit && y.Seq > x.Seq {
								ok = false
							}
						}
					}
				}
				if !ok && !s.writeFailed() {
					w.bad(o, e, "one row per node", "the buffer is not flushed after the rows")
				}
			}
		}
	}
}

// printLoops checks the loop that writes the rows.
func (w *output) printLoops(outs []*Outcome, l *rowList) {
	r, u := w.r, w.c.U
	lt := derefType(l.cell.T)
	rows := 0
	reached := map[*Outcome]bool{}
	for _, v := range loopViews(outs) {
		var list, idx *Term
		wrote := false
		good := true
		var some *Outcome
		for _, o := range v.Backs {
			s := w.read(o)
			in := map[*Event]bool{}
			for _, e := range v.body(o) {
				in[e] = true
			}
			t := s.code(func(e *Event) bool { return in[e] })
			if t.s == "" {
				continue
			}
			wrote = true
			some = o
			var roles []int
			for _, p := range t.vals {
				b, i, part := w.partOf(p.val)
				if b == nil || p.verb != 'd' && p.verb != 'v' {
					w.bad(o, lastWrite(s), "one row per node", "a row shows something else than the parts of the node")
					good = false
					break
				}
				if list == nil {
					list, idx = b, i
				}
				if b != list || i != idx {
					w.bad(o, lastWrite(s), "one row per node", "a row shows parts of different nodes")
					good = false
					break
				}
				k, ok := l.roles[part]
				if !ok {
					k = -1
				}
				roles = append(roles, k)
			}
			if good && fmt.Sprint(roles) != "[0 1 2 3]" {
				w.bad(o, lastWrite(s), "one row per node", "a row does not show the id, the level, the low and the high part of the node, in this order")
				good = false
			}
			if good && (!strings.HasSuffix(t.s, "\n") || strings.Count(t.s, "\n") != 1) {
				w.bad(o, lastWrite(s), "one row per node", "a row is not one line")
				good = false
			}
			if good && !separated(t.s) {
				w.bad(o, lastWrite(s), "one row per node", "the parts of a row are not separated")
				good = false
			}
			if !good {
				break
			}
		}
		if !wrote {
			continue
		}
		rows++
		if !good {
			continue
		}
		// the list is the one that was filled
		var all *Event
		for _, e := range some.St.events() {
			if e.Kind == EvHead && e.Fn == w.all {
				all = e
			}
		}
		st := some.St.clone()
		cur := r.load(st, l.cell, lt)
		if list != cur {
			w.bad(some, nil, "one row per node", "the rows are not those of the list that was filled")
			continue
		}
		ordered := l.sorted
		for _, e := range some.St.events() {
			if e.Kind == EvStore && e.Addr == l.cell && e.Seq > all.Seq || e.Kind == EvStore && rootSlice(baseOf(e.Addr)) == list {
				w.bad(some, e, "one row per node", "the list is changed before it is written")
				good = false
			}
			if e.Kind == EvCall && e.Seq > all.Seq {
				switch e.Name {
				case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
					if stripIface(e.Args[0]) != list {
						continue
					}
					if w.less(some, e, e.Args[1], l, list) {
						ordered = true
					} else {
						w.bad(some, e, "increasing ids", "the nodes are not sorted by increasing ids")
						good = false
					}
				case "sort.Sort", "sort.Stable", "slices.Reverse", "copy":
					w.bad(some, e, "increasing ids", "this change of the list is not understood")
					good = false
				}
			}
		}
		if !good {
			continue
		}
		if !ordered {
			w.bad(some, nil, "increasing ids", "the nodes are not sorted by increasing ids before they are written")
			continue
		}
		w.rep.ok("the rows are in increasing order of ids")
		// every node of the list
		key := ""
		for p, k := range l.roles {
			if k == 0 {
				key = p
			}
		}
		for _, o := range v.Backs {
			s := w.read(o)
			in := map[*Event]bool{}
			for _, e := range v.body(o) {
				in[e] = true
			}
			st := o.St.clone()
			pa, pt := w.partAddr(u.IA(list, idx, l.elem), l.elem, key)
			id := r.load(st, pa, pt)
			cst := w.constant(o.St, id)
			written := s.code(func(e *Event) bool { return in[e] }).s != ""
			switch {
			case !written && cst != yes:
				w.bad(o, nil, "one row per node", "no row is written for a node that is not a constant")
				good = false
			case written && cst != no && !l.filter:
				w.bad(o, lastWrite(s), "one row per node", "a row is written for a constant")
				good = false
			}
			for _, m := range s.ems {
				if in[m.e] {
					w.rep.site(w.c.P.pos(m.e.Instr.Pos()))
				}
			}
		}
		var exits []*Outcome
		for _, o := range v.Exits {
			reached[o] = true
			if !w.read(o).writeFailed() {
				exits = append(exits, o)
			}
		}
		hi := r.length(v.Inst.Pre, list, lt)
		if good && !v.covers(r, idx, u.Int(0), hi, exits) {
			w.bad(some, nil, "one row per node", "the loop is not shown to write every node of the list")
			good = false
		}
		if step, up := w.goesUp(v, idx); good && (!up || step != 1) {
			w.bad(some, nil, "increasing ids", "the list is not written from the first node to the last one")
			good = false
		}
		if good {
			w.rep.ok("one row for each node of the list, in order")
		}
	}
	if rows == 0 {
		w.bad(nil, nil, "one row per node", "no loop writes the nodes of the list")
		return
	}
	for _, o := range outs {
		if o.Kind != OutReturn || reached[o] {
			continue
		}
		s := w.read(o)
		all, _ := w.visitor(s)
		if all == nil || w.failed(s, all) != no || s.writeFailed() {
			continue
		}
		// nothing is written: only for an empty list
		st := o.St.clone()
		cur := r.load(st, l.cell, lt)
		if r.decideEQ(o.St, r.length(o.St, cur, lt), u.Int(0)) == yes {
			continue
		}
		w.bad(o, nil, "one row per node", "the rows are not written on this path")
	}
}

// constant: the id, that is not negative, is 0 or 1.
func (w *output) constant(st *State, id *Term) tri {
	u := w.c.U
	if w.r.decideEQ(st, id, u.Int(0)) == no && w.r.decideEQ(st, id, u.Int(1)) == no {
		return no
	}
	return w.r.decideLE(st, id, u.Int(1))
}

func (w *output) goesUp(v *loopView, idx *Term) (int64, bool) {
	for p := range v.Inst.Phi {
		if _, s, ok := v.position(w.r, idx, p); ok && s != 0 {
			return s, true
		}
	}
	return 0, false
}

// separated: two values never touch.
func separated(t string) bool {
	prev := false
	for _, ch := range t {
		h := isHole(ch)
		if h && prev || prev && ch >= '0' && ch <= '9' {
			return false
		}
		prev = h
	}
	return true
}

var _ = token.NoPos

func init() {
	register("C30", "the text written by Print and Dot is computed on every path, with symbolic values for the parts of the nodes; the function given to Allnodes adds one row (or writes one vertex and its edges) for each node; the rows are kept or put in order of ids and all written by one loop; errors are reported", func(c *Ctx, rep *Report) {
		all := c.P.method("BDD", "Allnodes")
		for _, n := range []string{"Print", "Dot"} {
			fn := c.P.method("BDD", n)
			if fn == nil || all == nil {
				rep.bad(nil, token.NoPos, n, "anchor", "", "method %s not found", n)
				continue
			}
			(&output{c: c, rep: rep, fn: fn, all: all}).check()
		}
	})
}
