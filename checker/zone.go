package main

// Zone is a difference-bound domain over integer terms: bounds x - y <= c, plus
// a set of disequalities. Variable 0 is the constant zero.
type Zone struct {
	vars map[*Term]int
	list []*Term
	d    [][]int64
	diff []diseq
	bot  bool
}

type diseq struct {
	i, j int
	c    int64 // x_i - x_j != c
}

const inf = int64(1) << 60

func NewZone() *Zone {
	return &Zone{vars: map[*Term]int{}, list: []*Term{nil}, d: [][]int64{{0}}}
}

func (z *Zone) Clone() *Zone {
	n := &Zone{vars: make(map[*Term]int, len(z.vars)), list: append([]*Term{}, z.list...), diff: append([]diseq{}, z.diff...), bot: z.bot}
	for k, v := range z.vars {
		n.vars[k] = v
	}
	n.d = make([][]int64, len(z.d))
	for i := range z.d {
		n.d[i] = append([]int64{}, z.d[i]...)
	}
	return n
}

func (z *Zone) idx(t *Term) int {
	if t == nil {
		return 0
	}
	if i, ok := z.vars[t]; ok {
		return i
	}
	i := len(z.list)
	z.vars[t] = i
	z.list = append(z.list, t)
	for k := range z.d {
		z.d[k] = append(z.d[k], inf)
	}
	row := make([]int64, i+1)
	for k := range row {
		row[k] = inf
	}
	row[i] = 0
	z.d = append(z.d, row)
	return i
}

// addLE adds x_i - x_j <= c.
func (z *Zone) addLE(i, j int, c int64) {
	if z.bot || z.d[i][j] <= c {
		return
	}
	if i == j {
		if c < 0 {
			z.bot = true
		}
		return
	}
	z.d[i][j] = c
	n := len(z.list)
	for a := 0; a < n; a++ {
		if z.d[a][i] >= inf {
			continue
		}
		for b := 0; b < n; b++ {
			if z.d[j][b] >= inf {
				continue
			}
			v := z.d[a][i] + c + z.d[j][b]
			if v < z.d[a][b] {
				z.d[a][b] = v
			}
		}
	}
	for a := 0; a < n; a++ {
		if z.d[a][a] < 0 {
			z.bot = true
			return
		}
	}
	z.tighten()
}

func (z *Zone) tighten() {
	for _, q := range z.diff {
		if z.bot {
			return
		}
		if z.d[q.i][q.j] == q.c {
			z.addLE(q.i, q.j, q.c-1)
		}
		if z.bot {
			return
		}
		if z.d[q.j][q.i] == -q.c {
			z.addLE(q.j, q.i, -q.c-1)
		}
	}
}

func (z *Zone) addNE(i, j int, c int64) {
	z.diff = append(z.diff, diseq{i, j, c})
	z.tighten()
}

// decompose writes lin as x_i - x_j + k (coefficients +1/-1, at most one of
// each).
func (z *Zone) decompose(l linForm) (pos, neg *Term, ok bool) {
	for t, c := range l.coef {
		switch c {
		case 0:
		case 1:
			if pos != nil {
				return nil, nil, false
			}
			pos = t
		case -1:
			if neg != nil {
				return nil, nil, false
			}
			neg = t
		default:
			return nil, nil, false
		}
	}
	return pos, neg, true
}

// assumeLE adds the fact l <= 0. Returns false if it cannot be represented.
func (z *Zone) assumeLE(l linForm) bool {
	p, n, ok := z.decompose(l)
	if !ok {
		return false
	}
	z.addLE(z.idx(p), z.idx(n), -l.k)
	return true
}

func (z *Zone) assumeEQ(l linForm) bool {
	p, n, ok := z.decompose(l)
	if !ok {
		return false
	}
	i, j := z.idx(p), z.idx(n)
	z.addLE(i, j, -l.k)
	z.addLE(j, i, l.k)
	return true
}

func (z *Zone) assumeNE(l linForm) bool {
	p, n, ok := z.decompose(l)
	if !ok {
		return false
	}
	z.addNE(z.idx(p), z.idx(n), -l.k)
	return true
}

type tri int

const (
	unknown tri = iota
	yes
	no
)

// queryLE decides l <= 0.
func (z *Zone) queryLE(l linForm) tri {
	p, n, ok := z.decompose(l)
	if !ok {
		return unknown
	}
	if p == nil && n == nil {
		if l.k <= 0 {
			return yes
		}
		return no
	}
	i, j := z.idx(p), z.idx(n)
	if z.d[i][j] <= -l.k {
		return yes
	}
	if z.d[j][i] < l.k { // x_j - x_i <= k-1  <=> x_i - x_j >= 1-k > -k
		return no
	}
	return unknown
}

// queryEQ decides l == 0.
func (z *Zone) queryEQ(l linForm) tri {
	p, n, ok := z.decompose(l)
	if !ok {
		return unknown
	}
	if p == nil && n == nil {
		if l.k == 0 {
			return yes
		}
		return no
	}
	i, j := z.idx(p), z.idx(n)
	if z.d[i][j] <= -l.k && z.d[j][i] <= l.k {
		return yes
	}
	if z.d[i][j] < -l.k || z.d[j][i] < l.k {
		return no
	}
	for _, q := range z.diff {
		if q.i == i && q.j == j && q.c == -l.k || q.i == j && q.j == i && q.c == l.k {
			return no
		}
		// through variables equal to i, j
		if z.eqv(q.i, i) && z.eqv(q.j, j) && q.c == -l.k || z.eqv(q.i, j) && z.eqv(q.j, i) && q.c == l.k {
			return no
		}
	}
	return unknown
}

func (z *Zone) eqv(i, j int) bool { return i == j || (z.d[i][j] == 0 && z.d[j][i] == 0) }

// bounds returns the interval of a term.
func (z *Zone) bounds(t *Term) (lo, hi int64) {
	if isIntConst(t) {
		return t.K, t.K
	}
	if t.Op == OLin && len(t.Args) == 1 && t.Coef[0] == 1 {
		lo, hi = z.bounds(t.Args[0])
		if lo > -inf {
			lo += t.K
		}
		if hi < inf {
			hi += t.K
		}
		return
	}
	i, ok := z.vars[t]
	if !ok {
		return -inf, inf
	}
	lo, hi = -inf, inf
	if z.d[i][0] < inf {
		hi = z.d[i][0]
	}
	if z.d[0][i] < inf {
		lo = -z.d[0][i]
	}
	return
}
