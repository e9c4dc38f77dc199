package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P18", "other", checkP18)
}

// converting decides that what is given as converted is in the currency asked
// for and derived from prices.
type converting struct {
	p     *Prog
	e     *Eng
	vt    types.Type
	f     *ssa.Function
	v, to *Term // the value and the currency asked for
	sum   map[*ssa.Function]bool
}

// convArgs: which parameters are the value and the currency, -1 if that is not clear.
func (k *converting) convArgs(f *ssa.Function) (v, c int) {
	v, c = -1, -1
	rs := f.Signature.Results()
	if rs.Len() != 2 || !types.Identical(rs.At(0).Type(), k.vt) || !isErr(rs.At(1).Type()) {
		return
	}
	cur := k.p.RootType("Currency")
	for i, pa := range f.Params {
		switch {
		case types.Identical(pa.Type(), k.vt):
			if v >= 0 {
				return -1, -1
			}
			v = i
		case types.Identical(pa.Type(), types.NewPointer(cur)):
			if c >= 0 {
				return -1, -1
			}
			c = i
		}
	}
	return
}

func (k *converting) field(v *Term, name string) *Term {
	st := structOf(k.vt)
	return k.e.tt.fieldOf(v, st, fieldIndex(st, name))
}

// mark: the fact that x is the value of a price of the currency from in the one asked for.
func (k *converting) mark(x, from *Term) *Term {
	return k.e.tt.mk("priceval", "", types.Typ[types.Bool], x, from)
}

// rateOf: is x the amount of the value of a price from one currency in another?
func (k *converting) rateOf(s *State, x, from, to *Term) bool {
	e := k.e
	for t, pos := range s.lits {
		if pos && t.Op == "rateof" && e.equal(s, t.A[0], x) && e.equal(s, t.A[1], from) && e.equal(s, t.A[2], to) {
			return true
		}
	}
	if x.Op == "field" && x.A[0].T != nil && types.Identical(x.A[0].T, k.vt) && x == k.field(x.A[0], "Amount") && s.lits[k.mark(x.A[0], from)] {
		return e.equal(s, k.field(x.A[0], "Currency"), to)
	}
	if x.Op != "load" || x.A[0].Op != "fa" || !strings.HasSuffix(x.A[0].S, "Value.Amount") || allocTerm(rootOf(x.A[0])) {
		return false
	}
	v := x.A[0].A[0]
	if v.Op != "fa" || !strings.HasSuffix(v.S, "Price.Value") {
		return false
	}
	fld := func(q *Term, n *types.Named, name string) *Term {
		st := structOf(n)
		ft := st.Field(fieldIndex(st, name)).Type()
		return e.Load(s, e.tt.fieldAddr(q, n, name, ft), ft)
	}
	return e.equal(s, fld(v.A[0], k.p.RootType("Price"), "Currency"), from) && e.equal(s, fld(v, k.p.RootType("Value"), "Currency"), to)
}

// rate: is x computed from the amounts of prices from one currency to another alone?
func (k *converting) rate(s *State, x, from, to *Term) (ok, some bool) {
	if x.isConst() {
		return true, false
	}
	if x.T != nil && (strings.HasSuffix(typKey(x.T), "time.Duration") || isTime(x.T)) {
		return true, false
	}
	if k.rateOf(s, x, from, to) {
		return true, true
	}
	switch x.Op {
	case "bin", "lin", "conv", "convert":
		for _, a := range x.A {
			o, m := k.rate(s, a, from, to)
			if !o {
				return false, true
			}
			some = some || m
		}
		return true, some
	}
	return false, true
}

// known: the values that are what was asked to be converted: the value itself
// and the results of conversions of it that did not fail.
func (k *converting) known(s *State) []*Term {
	k.settle(s)
	var out []*Term
	for t, pos := range s.lits {
		if pos && t.Op == "derived" {
			out = append(out, t.A[0])
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	return append(out, k.v)
}

// settle records what is known of the results of conversions that did not fail.
func (k *converting) settle(s *State) {
	e := k.e
	var conv, to []*Term
	for t, pos := range s.lits {
		switch {
		case pos && t.Op == "conv" && e.isNil(s, t.A[1]):
			conv = append(conv, t)
		case pos && t.Op == "convto" && e.isNil(s, t.A[2]):
			to = append(to, t)
		case pos && t.Op == "priceval":
			to = append(to, e.tt.mk("", "", nil, t.A[0], k.to))
		}
	}
	for _, t := range conv {
		s.lits[e.tt.mk("derived", "", types.Typ[types.Bool], t.A[0])] = true
		s.sv = nil
	}
	for _, t := range to {
		e.assume(s, e.tt.eq(k.field(t.A[0], "Currency"), t.A[1]), true)
	}
}

func has(l []*Term, t *Term) bool {
	for _, x := range l {
		if x == t {
			return true
		}
	}
	return false
}

// result decides a value returned without an error.
func (k *converting) result(s *State, val *Term) string {
	e := k.e
	from := k.known(s)
	if !e.equal(s, k.field(val, "Currency"), k.to) {

		return "the value returned may be in another currency than the one asked for"
	}
	for _, w := range from {
		if e.equal(s, val, w) {
			return ""
		}
	}
	amount := k.field(val, "Amount")
	for amount.Op == "lin" && len(amount.A) == 3 { // 1*x+0
		if n, ok := amount.A[0].intVal(); !ok || n != 1 {
			break
		}
		if n, ok := amount.A[2].intVal(); !ok || n != 0 {
			break
		}
		amount = amount.A[1]
	}
	if amount.Op != "bin" || amount.S != "/" || amount.A[0].Op != "bin" || amount.A[0].S != "*" {
		return "the amount returned is not known to be derived from the value given and a price"
	}
	for _, w := range from {
		for i, x := range amount.A[0].A {
			if !e.equal(s, x, k.field(w, "Amount")) {
				continue
			}
			if ok, some := k.rate(s, amount.A[0].A[1-i], k.field(w, "Currency"), k.to); ok && some {
				return ""
			}
		}
	}
	return "the amount returned is not derived from prices of the currency converted from in the currency asked for"
}

func checkP18(p *Prog, r *Report) {
	r.Expl = "Abstract interpretation of Convert and of the function it recurs into, on an arbitrary list of prices: at every return whose error may be nil the currency of the result is shown to be the one asked for, and the result to be the value given, " +
		"that value times prices recorded for its currency in the one asked for, or the result of a conversion of such a value that did not fail (induction over the recursion). If the currencies are the same the result is the value itself. The recursion is shown to descend."
	lt := p.RootType("Ledger")
	var conv *ssa.Function
	if lt != nil {
		conv = p.Method(types.NewPointer(lt), p.Root.Pkg, "Convert")
	}
	if !mustFn(r, conv, "Ledger.Convert") {
		return
	}
	k := &converting{p: p, vt: p.RootType("Value"), sum: map[*ssa.Function]bool{}}
	if v, c := k.convArgs(conv); v < 0 || c < 0 {
		r.Bad("converted", p.Fn(conv), p.Pos(conv.Pos()), "not a function of one value and one currency to a value and an error")
		return
	}
	edges := p.recEdges()
	in := p.reach(conv)
	groups := p.sccs(edges, func(f *ssa.Function) bool { return in[f] && p.isMod[f] })
	roots := []*ssa.Function{conv}
	for _, g := range groups {
		p.checkRecursion(r, g, edges)
		var head *ssa.Function
		inS := map[*ssa.Function]bool{}
		for _, f := range g {
			inS[f] = true
		}
		entered := func(f *ssa.Function) bool { // from outside the group
			for c, gs := range edges {
				for _, x := range gs {
					if x == f && in[c] && !inS[c] {
						return true
					}
				}
			}
			return f == conv
		}
		for _, f := range g {
			left := p.sccs(edges, func(h *ssa.Function) bool { return inS[h] && h != f })
			if v, c := k.convArgs(f); len(left) == 0 && v >= 0 && c >= 0 && (head == nil || entered(f)) {
				head = f
			}
		}
		if head == nil {
			continue
		}
		k.sum[head] = true
		if head != conv {
			roots = append(roots, head)
		}
	}
	for _, f := range roots {
		k.decide(r, f)
	}
	r.Counts["recursive groups"] = len(groups)
	r.Expect("converted", 1)
	r.Expect("itself", 1)
}

func (k *converting) decide(r *Report, f *ssa.Function) {
	p := k.p
	e := NewEng(p)
	e.NonNil = e.usualNonNil
	k.e, k.f = e, f
	tt := e.tt
	args := e.Params(f)
	vi, ci := k.convArgs(f)
	k.v, k.to = args[vi], args[ci]
	from := k.field(k.v, "Currency")
	e.H.Call = func(s *State, c *Ctx, in ssa.CallInstruction, cn string, as []*Term) (*Term, bool) {
		g := in.Common().StaticCallee()
		if !k.sum[g] || in.Value() == nil {
			return nil, false
		}
		v, t := k.convArgs(g)
		nv := e.newSym("op", "converted", k.vt, c, in.Value(), in)
		err := e.newSym("op", "error", g.Signature.Results().At(1).Type(), c, in.Value(), in)
		for _, w := range k.known(s) {
			if e.equal(s, as[v], w) {
				s.lits[tt.mk("conv", "", types.Typ[types.Bool], nv, err)] = true
				break
			}
		}
		if e.equal(s, as[v], k.v) {
			s.lits[tt.mk("convof", "", types.Typ[types.Bool], nv, as[t], err)] = true
		}
		s.lits[tt.mk("convto", "", types.Typ[types.Bool], nv, as[t], err)] = true
		s.sv = nil
		return tt.mk("tuple", "", in.Value().Type(), nv, err), true
	}
	back := func(s *State, c *Ctx, h *ssa.BasicBlock) {
		cls := ""
		note := func(name string, x *Term) {
			if x == nil || x.T == nil || !types.Identical(x.T, k.vt) {
				return
			}
			a, cur := k.field(x, "Amount"), k.field(x, "Currency")
			if k.rateOf(s, a, from, cur) {
				s.lits[tt.mk("rateof", "", types.Typ[types.Bool], a, from, cur)] = true
				s.sv = nil
				if e.equal(s, cur, k.to) {
					s.lits[k.mark(x, from)] = true
					cls += name + "! "
				} else {
					cls += name + "? "
				}
			}
		}
		var cells []*Term
		for a := range s.mem {
			a = rootOf(a)
			if allocTerm(a) && a.T != nil && types.Identical(deref(a.T), k.vt) && !has(cells, a) {
				cells = append(cells, a)
			}
		}
		sort.Slice(cells, func(i, j int) bool { return cells[i].key < cells[j].key })
		for _, a := range cells {
			note(a.key, e.Load(s, a, k.vt))
		}
		for _, in := range h.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			x := s.env[vkey{c, ph}]
			note(ph.Name(), x)
			if n, ok := x.intVal(); ok && n < 0 && ph.Comment != "rangeindex" {
				cls += fmt.Sprint(ph.Name(), n, " ")
			}
		}
		s.gs["cls"] = cls
	}
	e.H.Branch = func(s *State, c *Ctx, in ssa.Instruction, ls []lit) { k.settle(s) }
	e.H.LoopBack = back
	e.H.LoopIn = back
	e.H.Return = func(s *State, c *Ctx, in ssa.Instruction, res []*Term) {
		if c.fn != f || c.parent != nil {
			return
		}
		m := s.clone()
		if e.assume(m, tt.eq(res[1], tt.nilc(res[1].T)), true) && !m.dead && !e.notNil(s, res[1]) {
			why := k.result(m, res[0])
			r.Add("converted", p.Fn(f), p.InstrPos(in), why == "", "%s; %s", why, e.path(s))
		}
		m = s.clone()
		if e.assume(m, tt.eq(from, k.to), true) && !m.dead {
			ok := e.equal(m, res[0], k.v) && e.isNil(m, res[1])
			for t, pos := range m.lits {
				if pos && t.Op == "convof" && e.equal(m, res[0], t.A[0]) && e.equal(m, res[1], t.A[2]) && e.equal(m, t.A[1], from) {
					ok = true
				}
			}
			r.Add("itself", p.Fn(f), p.InstrPos(in), ok, "a value of the currency asked for is not returned as it is; %s", e.path(s))
		}
	}
	p.runDecided(r, "converted", e, f, newState(), args)
	r.Counts["functions interpreted"] += len(e.Fns)
}
