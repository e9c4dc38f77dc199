package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P28", "other", checkP28)
}

var (
	minI64 = big.NewInt(-1 << 63)
	maxI64 = big.NewInt(1<<63 - 1)
	maxU64 = new(big.Int).SetUint64(1<<64 - 1)
)

// number64 tells whether t is a 64-bit integer that is not a length of time.
func number64(t types.Type) (signed, ok bool) {
	if isNamedType(t, "time", "Duration") {
		return false, false
	}
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return false, false
	}
	switch b.Kind() {
	case types.Int64:
		return true, true
	case types.Uint64:
		return false, true
	}
	return false, false
}

// rng is the range of t in s: nil for unbounded.
func (e *Eng) rng(s *State, t *Term, typ types.Type) (lo, hi *big.Int) {
	var tlo, thi *big.Int
	if typ == nil {
		typ = t.T
	}
	if b, ok := typ.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Int64, types.Int:
			tlo, thi = minI64, maxI64
		case types.Uint64, types.Uint:
			tlo, thi = big.NewInt(0), maxU64
		case types.Uint8:
			tlo, thi = big.NewInt(0), big.NewInt(255)
		case types.Int32:
			tlo, thi = big.NewInt(-1<<31), big.NewInt(1<<31-1)
		}
	}
	l, h := e.rng1(s, t)
	if l == nil || tlo != nil && l.Cmp(tlo) < 0 {
		l = tlo
	}
	if h == nil || thi != nil && h.Cmp(thi) > 0 {
		h = thi
	}
	return l, h
}

// rng1 is the range of the mathematical value of t.
func (e *Eng) rng1(s *State, t *Term) (lo, hi *big.Int) {
	if n, ok := t.intVal(); ok {
		return big.NewInt(n), big.NewInt(n)
	}
	sv := e.solverOf(s)
	if t.Op == "lin" {
		l := e.tt.linOf(t)
		lo, hi = big.NewInt(l.c), big.NewInt(l.c)
		for x, k := range l.co {
			xl, xh := e.rng(s, x, nil)
			if k < 0 {
				xl, xh = xh, xl
			}
			lo, hi = mulAdd(lo, xl, k), mulAdd(hi, xh, k)
		}
		return lo, hi
	}
	if t.Op == "bin" && len(t.A) == 2 {
		al, ah := e.rng(s, t.A[0], nil)
		bl, bh := e.rng(s, t.A[1], nil)
		switch t.S {
		case "+":
			lo, hi = opRange(token.ADD, al, ah, bl, bh)
		case "-":
			lo, hi = opRange(token.SUB, al, ah, bl, bh)
		case "*":
			lo, hi = opRange(token.MUL, al, ah, bl, bh)
		}
	}
	if t.Op == "bin" && t.S == "/" && len(t.A) == 2 {
		if n, ok := t.A[1].intVal(); ok && n > 0 {
			l, h := e.rng(s, t.A[0], nil)
			if l != nil {
				lo = new(big.Int).Quo(l, big.NewInt(n))
			}
			if h != nil {
				hi = new(big.Int).Quo(h, big.NewInt(n))
			}
		}
	}
	for _, q := range e.atMost(s, t) {
		if q.Op == "bin" && q.S == "/" && q != t {
			if _, h := e.rng1(s, q); h != nil && (hi == nil || h.Cmp(hi) < 0) {
				hi = h
			}
		}
	}
	c := sv.canon(t)
	for _, x := range []*Term{t, c} {
		if n := sv.lower(x); n > -inf {
			if b := big.NewInt(n); lo == nil || b.Cmp(lo) > 0 {
				lo = b
			}
		}
		if n := sv.upper(x); n < inf {
			if b := big.NewInt(n); hi == nil || b.Cmp(hi) < 0 {
				hi = b
			}
		}
	}
	if t.Op == "conv" || t.Op == "convert" {
		l, h := e.rng1(s, t.A[0])
		if lo == nil {
			lo = l
		}
		if hi == nil {
			hi = h
		}
	}
	return lo, hi
}

func mulAdd(acc, x *big.Int, k int64) *big.Int {
	if acc == nil || x == nil {
		return nil
	}
	return new(big.Int).Add(acc, new(big.Int).Mul(x, big.NewInt(k)))
}

func opRange(op token.Token, al, ah, bl, bh *big.Int) (lo, hi *big.Int) {
	switch op {
	case token.ADD:
		return mulAdd(al, bl, 1), mulAdd(ah, bh, 1)
	case token.SUB:
		return mulAdd(al, bh, -1), mulAdd(ah, bl, -1)
	case token.MUL:
		if al == nil || ah == nil || bl == nil || bh == nil {
			return nil, nil
		}
		for _, x := range []*big.Int{al, ah} {
			for _, y := range []*big.Int{bl, bh} {
				p := new(big.Int).Mul(x, y)
				if lo == nil || p.Cmp(lo) < 0 {
					lo = p
				}
				if hi == nil || p.Cmp(hi) > 0 {
					hi = p
				}
			}
		}
	}
	return lo, hi
}

func checkP28(p *Prog, r *Report) {
	r.Expl = "no 64-bit product of two amounts anywhere; every 64-bit operation on the numbers the journal reader reads is shown to stay in range on every path, and a big number is only taken over after it was found to fit"
	r.Assume = append(r.Assume, "a sum of the balances of a journal is not checked, only the numbers read from it")
	// No 64-bit products of amounts.
	u := p.units()
	bad := map[*ssa.Function]int{}
	for _, s := range u.sorted(u.prods) {
		f := s.in.Parent()
		if !p.IsLib(f) {
			continue
		}
		bad[f]++
		r.Bad("no-64-bit-product", fmt.Sprintf("%s (%d)", p.Fn(f), bad[f]), p.InstrPos(s.in), "a product of amounts, or of an amount and a length of time, is computed in 64 bits")
	}
	nm := 0
	for _, f := range p.Funcs {
		if !p.IsLib(f) || bad[f] > 0 {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if bo, ok := in.(*ssa.BinOp); ok && bo.Op == token.MUL {
					if _, ok := number64(bo.Type()); ok {
						nm++
						r.OK("no-64-bit-product", p.Fn(f), p.InstrPos(in))
					}
				}
			}
		}
	}
	r.Counts["64-bit products"] = nm
	r.Expect("no-64-bit-product", 3)

	// The journal reader.
	pkg := p.PkgByPath("backend/ledger")
	if pkg == nil {
		r.Bad("number-fits", "journal reader", "-", "there is no package backend/ledger")
		return
	}
	cal := p.callers()
	want := map[ssa.Instruction]bool{}
	sites := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if f.Pkg != pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fitsSite(in) {
					want[in] = true
					sites[f] = true
				}
			}
		}
	}
	takesNumber := func(f *ssa.Function) bool {
		if f.Parent() != nil {
			return true
		}
		for _, prm := range f.Params {
			t := deref(prm.Type())
			if _, ok := number64(t); ok {
				return true
			}
			if isBigPtr(prm.Type()) || isNumber(t) || t == p.RootType("Value") {
				return true
			}
		}
		return false
	}
	roots := map[*ssa.Function]bool{}
	seen := map[*ssa.Function]bool{}
	var up func(f *ssa.Function)
	up = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		o := f.Object()
		local := f.Parent() != nil || o != nil && !o.Exported()
		if local && takesNumber(f) {
			n := 0
			if f.Parent() != nil {
				up(f.Parent())
				n++
			}
			for g := range cal[f] {
				if g.Pkg == pkg {
					up(g)
					n++
				}
			}
			if n > 0 {
				return
			}
		}
		roots[f] = true
	}
	for f := range sites {
		up(f)
	}
	var list []*ssa.Function
	for f := range roots {
		list = append(list, f)
	}
	sort.Slice(list, func(i, j int) bool { return p.Fn(list[i]) < p.Fn(list[j]) })
	reached := map[ssa.Instruction]bool{}
	id := map[ssa.Instruction]string{}
	cnt := map[string]int{}
	name := func(in ssa.Instruction) string {
		if id[in] == "" {
			k := p.Fn(in.Parent())
			n := 0
			for _, b := range in.Parent().Blocks {
				for _, x := range b.Instrs {
					if want[x] {
						n++
						if x == in {
							id[in] = fmt.Sprintf("%s (%d)", k, n)
						}
					}
				}
			}
			cnt[k]++
		}
		return id[in]
	}
	pos := map[*Term]string{}
	for _, root := range list {
		lead := map[*ssa.Function]bool{}
		for f := range p.reach(root) {
			for g := range p.reach(f) {
				if sites[g] {
					lead[f] = true
				}
			}
		}
		e := NewEng(p)
		if roots[root] && len(p.reach(root)) > 12 {
			e.coarse()
			e.Cap = 48
		}
		fact := e.Fact
		if fact != nil {
			e.Fact = func(t *Term) bool { return fact(t) || countFact(t) || numFact(t) }
		}
		for f := range roots {
			if f != root {
				delete(lead, f)
			}
		}
		lead[root] = true
		e.H.Opaque = func(f *ssa.Function) bool { return !lead[f] }
		e.H.Instr = func(s *State, c *Ctx, in ssa.Instruction) {
			if want[in] && !reached[in] {
				reached[in] = true
			}
			switch x := in.(type) {
			case *ssa.BinOp:
				if want[in] {
					e.fitsOp(s, c, r, x, name(in))
				}
			case *ssa.UnOp:
				if want[in] {
					lo, _ := e.rng(s, e.val(s, c, x.X), nil)
					r.Add("number-fits", name(in), p.InstrPos(in), lo != nil && lo.Cmp(minI64) > 0,
						"the opposite of a number that may be the lowest one does not fit; %s", e.path(s))
				}
			case *ssa.Convert:
				if want[in] {
					lo, hi := e.rng(s, e.val(s, c, x.X), x.X.Type())
					sg, _ := number64(x.Type())
					r.Add("number-fits", name(in), p.InstrPos(in), fitsIn(lo, hi, sg), "the number may not fit in %s; %s", x.Type(), e.path(s))
				}
			}
		}
		e.H.Call = func(s *State, c *Ctx, in ssa.CallInstruction, nm string, args []*Term) (*Term, bool) {
			if nm == "(*math/big.Int).Int64" && want[in] {
				v := e.bigVal(s, args[0])
				ok := e.fits64(s, v)
				if ok {
					r.OK("number-fits", name(in), p.InstrPos(in))
					return v, true
				}
				// It may be tested afterwards, before it goes anywhere.
				t := e.tt.mk("low64", name(in), types.Typ[types.Int64], v)
				pos[t] = p.InstrPos(in)
				return t, true
			}
			return e.balanceOps(s, c, in, nm, args)
		}
		var low func(s *State, v *Term, seen map[*Term]bool)
		low = func(s *State, v *Term, seen map[*Term]bool) {
			if v == nil || seen[v] {
				return
			}
			seen[v] = true
			if v.Op == "low64" {
				r.Add("number-fits", v.S, pos[v], e.fits64(s, v.A[0]), "a big number is taken over although it was not found to fit in 64 bits; %s", e.path(s))
			}
			for _, a := range v.A {
				low(s, a, seen)
			}
		}
		all := func(s *State) {
			if len(pos) == 0 {
				return
			}
			for a, v := range s.mem {
				if !s.nonEscapedAlloc(rootOf(a)) {
					low(s, v, map[*Term]bool{})
				}
			}
		}
		e.H.MapWrite = func(s *State, c *Ctx, in ssa.Instruction, m, k, v *Term) { low(s, v, map[*Term]bool{}) }
		e.H.LoopBack = func(s *State, c *Ctx, head *ssa.BasicBlock) { all(s) }
		e.H.Return = func(s *State, c *Ctx, in ssa.Instruction, res []*Term) {
			if c.root() != c {
				return
			}
			var ev *Term
			for _, v := range res {
				if v != nil && isErr(v.T) {
					ev = v
				}
			}
			if ev == nil || !e.notNil(s, ev) {
				for _, v := range res {
					low(s, v, map[*Term]bool{})
				}
				all(s)
			}
		}
		p.runDecided(r, "number-fits", e, root, newState(), e.Params(root))
	}
	for in := range want {
		if !reached[in] {
			r.OK("number-fits", name(in), p.InstrPos(in)) // not reached on any path
		}
	}
	r.Counts["reading functions"] = len(list)
	r.Expect("number-fits", 4)
}

// fits64: the big number v was found to fit.
func (e *Eng) fits64(s *State, v *Term) bool {
	if e.implied(s, e.tt.mk("isint64", "", types.Typ[types.Bool], v), true) {
		return true
	}
	bl := e.tt.mk("bitlen", "", types.Typ[types.Int], v)
	if e.implied(s, e.tt.lt(e.tt.intc(63, nil), bl), false) {
		return true
	}
	return e.implied(s, e.tt.lt(e.tt.intc(1<<63-1, nil), v), false) && e.implied(s, e.tt.lt(v, e.tt.intc(-1<<63, nil)), false)
}

// numFact: facts that bound numbers.
func numFact(t *Term) bool {
	for t.Op == "not" {
		t = t.A[0]
	}
	if t.Op == "isint64" {
		return true
	}
	if t.Op == "lt" || t.Op == "eq" {
		for _, a := range t.A {
			if _, ok := number64(a.T); ok && a.T != nil {
				return true
			}
			if a.Op == "bitlen" {
				return true
			}
		}
	}
	return false
}

func fitsIn(lo, hi *big.Int, signed bool) bool {
	if lo == nil || hi == nil {
		return false
	}
	if signed {
		return lo.Cmp(minI64) >= 0 && hi.Cmp(maxI64) <= 0
	}
	return lo.Sign() >= 0 && hi.Cmp(maxU64) <= 0
}

// fitsSite: instructions on 64-bit numbers that could lose the true result.
func fitsSite(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.BinOp:
		if _, ok := number64(x.Type()); !ok {
			return false
		}
		switch x.Op {
		case token.ADD, token.SUB, token.MUL, token.SHL:
			return true
		}
	case *ssa.UnOp:
		if s, ok := number64(x.Type()); ok && s && x.Op == token.SUB {
			return true
		}
	case *ssa.Convert:
		if _, ok := number64(x.Type()); !ok || isNamedType(x.X.Type(), "time", "Duration") {
			return false
		}
		b, ok := x.X.Type().Underlying().(*types.Basic)
		return ok && (b.Info()&types.IsFloat != 0 || b.Kind() == types.Uint64 || b.Kind() == types.Uint)
	case *ssa.Call:
		return calleeName(&x.Call) == "(*math/big.Int).Int64"
	}
	return false
}

func (e *Eng) fitsOp(s *State, c *Ctx, r *Report, x *ssa.BinOp, id string) {
	p := e.p
	a, b := e.val(s, c, x.X), e.val(s, c, x.Y)
	signed, _ := number64(x.Type())
	if x.Op == token.SHL {
		r.Bad("number-fits", id, p.InstrPos(x), "a number is shifted: what is lost is not noticed; %s", e.path(s))
		return
	}
	al, ah := e.rng(s, a, x.Type())
	bl, bh := e.rng(s, b, x.Type())
	lo, hi := opRange(x.Op, al, ah, bl, bh)
	ok := fitsIn(lo, hi, signed)
	if !ok && (x.Op == token.ADD || x.Op == token.SUB) {
		lo, hi = e.rng1(s, e.tt.bin(x.Op, a, b, x.Type()))
		ok = fitsIn(lo, hi, signed)
	}
	if !ok && x.Op == token.ADD && lo != nil && lo.Cmp(minI64) >= 0 {
		// guarded by a quotient: n <= (Max - y) / k, for k*n + y
		for _, o := range [][2]*Term{{a, b}, {b, a}} {
			for _, n := range atoms(e.tt.linOf(o[0])) {
				for _, q := range e.atMost(s, n) {
					if q.Op != "bin" || q.S != "/" || q.A[0].Op != "bin" || q.A[0].S != "-" || q.A[0].A[1] != o[1] {
						continue
					}
					_, ok1 := q.A[0].A[0].intVal()
					k, ok2 := q.A[1].intVal()
					if ok1 && ok2 && k > 0 && o[0] == e.tt.bin(token.MUL, n, q.A[1], x.Type()) {
						ok = true
					}
				}
			}
		}
	}
	if !ok && x.Op == token.MUL {
		// guarded by a quotient: x <= Max / y
		for _, q := range [][2]*Term{{a, b}, {b, a}} {
			quo := e.tt.bin(token.QUO, e.tt.intc(1<<63-1, x.Type()), q[1], x.Type())
			ql, _ := e.rng(s, q[1], x.Type())
			pl, _ := e.rng(s, q[0], x.Type())
			if signed && ql != nil && ql.Sign() >= 0 && pl != nil && pl.Sign() >= 0 && e.implied(s, e.tt.lt(quo, q[0]), false) {
				ok = true
			}
		}
	}
	r.Add("number-fits", id, p.InstrPos(x), ok, "the result of this operation (%v to %v) may not fit in 64 bits; %s", lo, hi, e.path(s))
}

// atMost: terms q such that t <= q is a fact.
func (e *Eng) atMost(s *State, t *Term) (out []*Term) {
	for f, pos := range s.lits {
		if f.Op != "lt" {
			continue
		}
		n, ok := f.A[1].intVal()
		if !ok || f.A[0].Op != "lin" {
			continue
		}
		l := e.tt.linOf(f.A[0])
		if len(l.co) != 2 || l.c != 0 {
			continue
		}
		k := l.co[t]
		for o, ko := range l.co {
			if o == t || ko != -k {
				continue
			}
			if k == -1 && !pos && n >= 0 || k == 1 && pos && n <= 1 {
				out = append(out, o) // o - t >= n, t - o < n
			}
		}
	}
	return out
}

func atoms(l linForm) (out []*Term) {
	for t := range l.co {
		out = append(out, t)
	}
	return out
}
