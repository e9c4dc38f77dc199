package main

import (
	"go/types"
	"math/big"
	"strings"
)

// solver decides literals from the facts of a state: equality substitution,
// integer/time difference bounds, structure decomposition.  It is a fixed,
// terminating closure (no search): an abstract domain, not a theorem prover.
type solver struct {
	e     *Eng
	rep   map[*Term]*Term
	bools map[*Term]bool
	bad   bool
	node  map[*Term]int
	terms []*Term
	dist  [][]int64 // dist[i][j]: upper bound of j - i
	ints  [][3]interface{}
	memo  map[*Term]*Term
	qmemo map[lit]bool
}

const inf = int64(1) << 60

func (e *Eng) solverOf(s *State) *solver {
	if s.sv != nil {
		return s.sv
	}
	sv := &solver{e: e, rep: map[*Term]*Term{}, bools: map[*Term]bool{}, node: map[*Term]int{}, qmemo: map[lit]bool{}}
	sv.build(s)
	s.sv = sv
	return sv
}

// rank: prefer constants, then simple terms, as representatives.
func rankTerm(t *Term) int {
	if t.isConst() {
		return 0
	}
	if t.Op == "sym" && (t.Info.kind == "alloc" || t.Info.kind == "param") {
		return 1
	}
	return 2 + t.size
}

func (sv *solver) canon(t *Term) *Term {
	if len(sv.rep) == 0 {
		return t
	}
	if sv.memo == nil {
		sv.memo = map[*Term]*Term{}
	}
	if r, ok := sv.memo[t]; ok {
		return r
	}
	r := t
	if x, ok := sv.rep[t]; ok && x != t {
		r = sv.canon(x)
	} else if len(t.A) > 0 {
		na := make([]*Term, len(t.A))
		ch := false
		for i, a := range t.A {
			na[i] = sv.canon(a)
			if na[i] != a {
				ch = true
			}
		}
		if ch {
			r = sv.e.tt.rebuild(t, na)
			if r.Op == "load" {
				r = sv.e.reload(r)
			}
			if x, ok := sv.rep[r]; ok && x != r {
				r = sv.canon(x)
			}
		}
	}
	sv.memo[t] = r
	return r
}

// reload: nothing to simplify for now (hook point for canonical loads).
func (e *Eng) reload(t *Term) *Term { return t }

func (sv *solver) union(a, b *Term) bool {
	a, b = sv.canon(a), sv.canon(b)
	if a == b {
		return false
	}
	if rankTerm(a) < rankTerm(b) || rankTerm(a) == rankTerm(b) && a.key < b.key {
		a, b = b, a
	}
	// a -> b
	if a.isConst() { // two different constants
		if a.Op == "const" && b.Op == "const" || isZeroTerm(a) != isZeroTerm(b) {
			sv.bad = true
		}
		return false
	}
	if contains(b, a) {
		return false
	}
	sv.rep[a] = b
	sv.memo = nil
	return true
}

func contains(t, sub *Term) bool {
	if t == sub {
		return true
	}
	if t.size <= sub.size {
		return false
	}
	for _, a := range t.A {
		if contains(a, sub) {
			return true
		}
	}
	return false
}

func (sv *solver) build(s *State) {
	type kl struct {
		t   *Term
		pos bool
	}
	var todo []kl
	for t, pos := range s.lits {
		todo = append(todo, kl{t, pos})
	}
	// boolean symbols carry facts
	for i := 0; i < len(todo); i++ {
		l := todo[i]
		if l.t.Op == "sym" && l.t.Info != nil {
			fs := l.t.Info.onF
			if l.pos {
				fs = l.t.Info.onT
			}
			for _, f := range fs {
				if f.t.Op == "not" {
					todo = append(todo, kl{f.t.A[0], !f.pos})
				} else {
					todo = append(todo, kl{f.t, f.pos})
				}
			}
		}
		if l.t.Op == "lookupok" && !l.pos {
			// a missing key reads as the zero value
			if vt := l.t.A[0].T; vt != nil {
				if m, ok := vt.Underlying().(*types.Map); ok {
					v := sv.e.tt.mk("lookup", "", m.Elem(), l.t.A...)
					todo = append(todo, kl{sv.e.tt.eq(v, sv.e.tt.zero(m.Elem())), true})
				}
			}
		}
	}
	// equalities
	for iter := 0; iter < 6; iter++ {
		ch := false
		for i := 0; i < len(todo); i++ {
			l := todo[i]
			if l.t.Op != "eq" || !l.pos {
				continue
			}
			a, b := sv.canon(l.t.A[0]), sv.canon(l.t.A[1])
			if a == b {
				continue
			}
			if isInt(a.T) && (a.Op == "lin" && b.isConst() || b.Op == "lin" && a.isConst()) {
				continue // for the difference graph
			}
			if sv.union(a, b) {
				ch = true
			}
			// struct equality is equality of the fields
			if st := structOf(a.T); st != nil && !sv.e.atomicStruct(a.T) {
				for k := 0; k < st.NumFields(); k++ {
					fa, fb := sv.e.tt.fieldOf(a, st, k), sv.e.tt.fieldOf(b, st, k)
					if fa != fb {
						n := kl{sv.e.tt.eq(fa, fb), true}
						if n.t.Op == "eq" {
							dup := false
							for _, o := range todo {
								if o == n {
									dup = true
									break
								}
							}
							if !dup {
								todo = append(todo, n)
								ch = true
							}
						} else if v, ok := n.t.boolVal(); ok && !v {
							sv.bad = true
						}
					}
				}
			}
		}
		if !ch {
			break
		}
	}
	// canonical literals and the difference graph
	type edge struct {
		a, b *Term
		c    int64
	}
	var edges, apart []edge                                                   // apart: b - a != c
	add := func(a, b *Term, c int64) { edges = append(edges, edge{a, b, c}) } // b - a <= c
	zero := sv.e.tt.intc(0, nil)
	for _, l := range todo {
		t := sv.canon(l.t)
		pos := l.pos
		for t.Op == "not" {
			t, pos = t.A[0], !pos
		}
		if v, ok := t.boolVal(); ok {
			if v != pos {
				sv.bad = true
			}
			continue
		}
		if o, ok := sv.bools[t]; ok && o != pos {
			sv.bad = true
		}
		sv.bools[t] = pos
		switch t.Op {
		case "lt":
			x, y := t.A[0], t.A[1]
			if isInt(x.T) {
				n, ok := y.intVal()
				if !ok {
					continue
				}
				p, q, c, okd := sv.diff(x)
				if !okd {
					continue
				}
				// p - q + c < n
				if pos {
					add(q, p, n-1-c)
				} else {
					add(p, q, c-n)
				}
			} else if isTime(x.T) || x.T == nil {
				if pos {
					add(y, x, -1)
				} else {
					add(x, y, 0)
				}
			}
		case "eq":
			x, y := t.A[0], t.A[1]
			if pos && isInt(x.T) {
				if n, ok := y.intVal(); ok {
					if p, q, c, okd := sv.diff(x); okd {
						add(q, p, n-c)
						add(p, q, c-n)
					}
				}
			}
			if !pos && isInt(x.T) {
				if n, ok := y.intVal(); ok {
					if p, q, c, okd := sv.diff(x); okd {
						apart = append(apart, edge{q, p, n - c})
					}
				}
			}
		}
	}
	// axioms about the terms mentioned
	seen := map[*Term]bool{}
	var ax func(t *Term)
	ax = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, f := range sv.e.axioms(t) {
			ft := sv.canon(f.t)
			fp := f.pos
			for ft.Op == "not" {
				ft, fp = ft.A[0], !fp
			}
			if ft.Op == "lt" && isInt(ft.A[0].T) {
				if n, ok := ft.A[1].intVal(); ok {
					if p, q, c, okd := sv.diff(ft.A[0]); okd {
						if fp {
							add(q, p, n-1-c)
						} else {
							add(p, q, c-n)
						}
						ax(p)
						ax(q)
					}
				}
			}
		}
		for _, a := range t.A {
			ax(a)
		}
	}
	for i := 0; i < len(edges); i++ {
		ax(edges[i].a)
		ax(edges[i].b)
	}
	for i := range apart {
		ax(apart[i].a)
		ax(apart[i].b)
	}
	for t := range sv.bools {
		ax(t)
	}
	n := func(t *Term) int {
		if t.isConst() && !isTime(t.T) {
			t = zero
		}
		if i, ok := sv.node[t]; ok {
			return i
		}
		i := len(sv.terms)
		sv.node[t] = i
		sv.terms = append(sv.terms, t)
		return i
	}
	n(zero)
	for _, e := range edges {
		n(e.a)
		n(e.b)
	}
	for _, e := range apart {
		n(e.a)
		n(e.b)
	}
	N := len(sv.terms)
	sv.dist = make([][]int64, N)
	for i := range sv.dist {
		sv.dist[i] = make([]int64, N)
		for j := range sv.dist[i] {
			sv.dist[i][j] = inf
		}
		sv.dist[i][i] = 0
	}
	for _, e := range edges {
		i, j := n(e.a), n(e.b)
		if e.c < sv.dist[i][j] {
			sv.dist[i][j] = e.c
		}
	}
	for k := 0; k < N; k++ {
		for i := 0; i < N; i++ {
			if sv.dist[i][k] >= inf {
				continue
			}
			for j := 0; j < N; j++ {
				if sv.dist[k][j] < inf && sv.dist[i][k]+sv.dist[k][j] < sv.dist[i][j] {
					sv.dist[i][j] = sv.dist[i][k] + sv.dist[k][j]
				}
			}
		}
	}
	// what is at most c and not c is at most c-1
	tighten := func(i, j int, c int64) {
		sv.dist[i][j] = c
		for a := 0; a < N; a++ {
			if sv.dist[a][i] >= inf {
				continue
			}
			for b := 0; b < N; b++ {
				if sv.dist[j][b] < inf && sv.dist[a][i]+c+sv.dist[j][b] < sv.dist[a][b] {
					sv.dist[a][b] = sv.dist[a][i] + c + sv.dist[j][b]
				}
			}
		}
	}
	for changed, iter := true, 0; changed && iter < 8; iter++ {
		changed = false
		for _, e := range apart {
			i, j := n(e.a), n(e.b)
			if i == j {
				continue
			}
			if sv.dist[i][j] == e.c {
				tighten(i, j, e.c-1)
				changed = true
			}
			if sv.dist[j][i] == -e.c {
				tighten(j, i, -e.c-1)
				changed = true
			}
		}
	}
	for i := 0; i < N; i++ {
		if sv.dist[i][i] < 0 {
			sv.bad = true
		}
	}
}

// diff writes an integer term as p - q + c (p or q the zero constant).
func (sv *solver) diff(t *Term) (p, q *Term, c int64, ok bool) {
	zero := sv.e.tt.intc(0, nil)
	l := sv.e.tt.linOf(t)
	c = l.c
	p, q = zero, zero
	if len(l.co) > 2 {
		l0 := linForm{co: l.co}
		return sv.e.tt.fromLin(l0, t.T), zero, c, true
	}
	for x, k := range l.co {
		switch {
		case k == 1 && p == zero:
			p = x
		case k == -1 && q == zero:
			q = x
		default:
			l0 := linForm{co: l.co}
			x := sv.e.tt.fromLin(l0, t.T)
			return x, zero, c, true
		}
	}
	return p, q, c, true
}

// ub: an upper bound of b - a.
func (sv *solver) ub(a, b *Term) int64 {
	if a == b {
		return 0
	}
	zero := sv.e.tt.intc(0, nil)
	i, ok1 := sv.node[a]
	j, ok2 := sv.node[b]
	if ok1 && ok2 && sv.dist[i][j] < inf {
		return sv.dist[i][j]
	}
	best := inf
	// through the zero node, with interval reasoning
	if a != zero && b != zero {
		u := sv.upper(b)
		l := sv.lower(a)
		if u < inf && l > -inf {
			best = u - l
		}
	} else if a == zero {
		best = sv.upper(b)
	} else {
		if l := sv.lower(a); l > -inf {
			best = -l
		}
	}
	return best
}

func (sv *solver) upper(t *Term) int64 { return sv.bound(t, true, 0) }
func (sv *solver) lower(t *Term) int64 { return sv.bound(t, false, 0) }

func (sv *solver) bound(t *Term, up bool, depth int) int64 {
	none := inf
	if !up {
		none = -inf
	}
	if n, ok := t.intVal(); ok {
		return n
	}
	zero := sv.e.tt.intc(0, nil)
	best := none
	if i, ok := sv.node[t]; ok {
		z := sv.node[zero]
		if up && sv.dist[z][i] < inf {
			best = sv.dist[z][i]
		}
		if !up && sv.dist[i][z] < inf {
			best = -sv.dist[i][z]
		}
	}
	if depth > 4 {
		return best
	}
	tight := func(v int64) {
		if up && v < best || !up && v > best {
			best = v
		}
	}
	if t.Op == "lin" {
		l := sv.e.tt.linOf(t)
		sum := l.c
		ok := true
		for x, k := range l.co {
			b := sv.bound(x, up == (k > 0), depth+1)
			if b >= inf || b <= -inf {
				ok = false
				break
			}
			if p := new(big.Int).Mul(big.NewInt(b), big.NewInt(k)); !p.IsInt64() || p.Int64() >= inf || p.Int64() <= -inf {
				ok = false
				break
			}
			sum += b * k
			if sum >= inf || sum <= -inf {
				ok = false
				break
			}
		}
		if ok {
			tight(sum)
		}
		// pairs of opposite sign through the difference graph
		if len(l.co) == 2 {
			p, q, c, _ := sv.diff(t)
			i, ok1 := sv.node[p]
			j, ok2 := sv.node[q]
			if ok1 && ok2 && p != zero && q != zero {
				if up && sv.dist[j][i] < inf {
					tight(sv.dist[j][i] + c)
				}
				if !up && sv.dist[i][j] < inf {
					tight(-sv.dist[i][j] + c)
				}
			}
		}
	}
	for _, f := range sv.e.axioms(t) {
		ft, fp := f.t, f.pos
		for ft.Op == "not" {
			ft, fp = ft.A[0], !fp
		}
		if ft.Op == "lt" && ft.A[0] == t {
			if n, ok := ft.A[1].intVal(); ok {
				if fp && up {
					tight(n - 1)
				}
				if !fp && !up {
					tight(n)
				}
			}
		}
	}
	return best
}

// decide: is literal l implied by the facts?
func (sv *solver) decide(t *Term, pos bool) bool {
	for t.Op == "not" {
		t, pos = t.A[0], !pos
	}
	if v, ok := t.boolVal(); ok {
		return v == pos
	}
	q := lit{t, pos}
	if r, ok := sv.qmemo[q]; ok {
		return r
	}
	sv.qmemo[q] = false
	r := sv.decide1(t, pos)
	sv.qmemo[q] = r
	return r
}

func (sv *solver) decide1(t *Term, pos bool) bool {
	if sv.bad {
		return true
	}
	t = sv.canon(t)
	for t.Op == "not" {
		t, pos = t.A[0], !pos
	}
	if v, ok := t.boolVal(); ok {
		return v == pos
	}
	if v, ok := sv.bools[t]; ok {
		if v == pos {
			return true
		}
		return false
	}
	switch t.Op {
	case "lt":
		x, y := t.A[0], t.A[1]
		if isInt(x.T) {
			n, ok := y.intVal()
			if !ok {
				return false
			}
			if pos {
				return sv.upper(x) < n || sv.viaDiff(x, n-1, true)
			}
			return sv.lower(x) >= n && sv.lower(x) > -inf || sv.viaDiff(x, n, false)
		}
		if pos {
			return sv.ub(y, x) <= -1
		}
		return sv.ub(x, y) <= 0
	case "eq":
		x, y := t.A[0], t.A[1]
		if isInt(x.T) && y.Op == "const" {
			n, _ := y.intVal()
			lo, hi := sv.lower(x), sv.upper(x)
			if pos {
				return lo == n && hi == n || sv.viaDiff(x, n, true) && sv.viaDiff(x, n, false)
			}
			return lo > n || hi < n || sv.viaDiff(x, n-1, true) || sv.viaDiff(x, n+1, false)
		}
		if isTime(x.T) {
			if pos {
				return sv.ub(x, y) <= 0 && sv.ub(y, x) <= 0
			}
			return sv.ub(x, y) <= -1 || sv.ub(y, x) <= -1
		}
		if pos {
			if st := structOf(x.T); st != nil && !sv.e.atomicStruct(x.T) {
				for k := 0; k < st.NumFields(); k++ {
					if !sv.decide(sv.e.tt.eq(sv.e.tt.fieldOf(x, st, k), sv.e.tt.fieldOf(y, st, k)), true) {
						return false
					}
				}
				return true
			}
			return false
		}
		if st := structOf(x.T); st != nil && !sv.e.atomicStruct(x.T) {
			for k := 0; k < st.NumFields(); k++ {
				if sv.decide(sv.e.tt.eq(sv.e.tt.fieldOf(x, st, k), sv.e.tt.fieldOf(y, st, k)), false) {
					return true
				}
			}
			return false
		}
		// distinct allocations; allocation against anything older
		if allocTerm(x) && allocTerm(y) && x != y {
			return true
		}
		if allocTerm(x) && older(y) || allocTerm(y) && older(x) {
			return true
		}
		if (x.Op == "nil" && sv.nonnil(y)) || (y.Op == "nil" && sv.nonnil(x)) {
			return true
		}
		// x = z known, z != y known
		return false
	case "istype":
		if t.A[0].Op == "iface" {
			return (t.A[0].S == t.S) == pos
		}
	}
	return false
}

func (sv *solver) viaDiff(x *Term, n int64, up bool) bool {
	p, q, c, ok := sv.diff(x)
	if !ok {
		return false
	}
	if up { // p - q + c <= n
		b := sv.ub(q, p)
		return b < inf && b+c <= n
	}
	b := sv.ub(p, q) // q - p <= b  =>  p - q >= -b
	return b < inf && -b+c >= n
}

func allocTerm(t *Term) bool {
	return t.Op == "sym" && (t.Info.kind == "alloc" || t.Info.kind == "make")
}

func (sv *solver) nonnil(t *Term) bool {
	if sv.e.NonNil != nil && sv.e.NonNil(t) {
		return true
	}
	if sv.e.tt.nonNil(t) {
		return true
	}
	// a slice with a positive length is not nil
	if t.T != nil {
		switch t.T.Underlying().(type) {
		case *types.Slice, *types.Map:
			return sv.lower(sv.e.tt.length(t)) >= 1
		}
	}
	return false
}

// axioms: facts that hold for a term by construction.
func (e *Eng) axioms(t *Term) []lit {
	if r, ok := e.axMemo[t]; ok {
		return r
	}
	tt := e.tt
	var out []lit
	z := tt.intc(0, nil)
	switch t.Op {
	case "len", "cap":
		out = append(out, lit{tt.lt(t, z), false})
	case "sym":
		if t.Info != nil {
			out = append(out, t.Info.facts...)
		}
	case "at":
		out = append(out, lit{tt.lt(t, z), false}, lit{tt.lt(t, tt.intc(256, nil)), true})
	case "bin":
		if t.S == "%" && isInt(t.T) {
			if n, ok := t.A[1].intVal(); ok && n > 0 {
				out = append(out, lit{tt.lt(t, tt.intc(n, nil)), true}, lit{tt.lt(t, tt.intc(-n+1, nil)), false})
			}
		}
	case "conv":
		if b, ok := t.T.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			out = append(out, lit{tt.lt(t, z), false})
		}
	case "fn":
		out = e.fnAxioms(t)
	}
	e.axMemo[t] = out
	return out
}

// fnAxioms: results of modelled pure library functions.
func (e *Eng) fnAxioms(t *Term) []lit {
	tt := e.tt
	var out []lit
	switch t.S {
	case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.LastIndex", "strings.LastIndexByte", "strings.IndexAny", "strings.IndexFunc":
		out = append(out, lit{tt.lt(t, tt.intc(-1, nil)), false})
		n := tt.length(t.A[0])
		k := int64(1)
		if t.S == "strings.Index" || t.S == "strings.LastIndex" {
			k = 0
			if s, ok := t.A[1].strVal(); ok {
				k = int64(len(s))
			}
		}
		// i + k <= len  (when found; k<=... also true for -1 when len>=0 and k<=1)
		if k <= 1 {
			out = append(out, lit{tt.lt(tt.addc(n, -k), t), false})
		} else {
			out = append(out, lit{tt.lt(n, t), false})
		}
	}
	return out
}

func strip(name string) string {
	if i := strings.LastIndex(name, "/"); i >= 0 {
		return name[i+1:]
	}
	return name
}
