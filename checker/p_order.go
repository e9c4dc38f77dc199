package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P13", "other", checkP13)
}

// sorting follows which lists are in chronological order.
type sorting struct {
	e     *Eng
	p     *Prog
	r     *Report
	sorts int
	seen  map[string]bool
}

// now: the fact that a list is in chronological order, if its elements have a time.
func (x *sorting) now(list *Term) *Term {
	sl, ok := list.T.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	st := structOf(deref(sl.Elem()))
	if st == nil || fieldIndex(st, "Time") < 0 {
		return nil
	}
	return x.e.tt.mk("done", "in-order", types.Typ[types.Bool], list)
}

// all: the fact that the Splits of all accounts of a list are.
func (x *sorting) all(coll *Term) *Term {
	return x.e.tt.mk("done", "all-in-order", types.Typ[types.Bool], coll)
}

func (x *sorting) holds(s *State, name string, list *Term) bool {
	for t, pos := range s.lits {
		if pos && t.Op == "done" && t.S == name && types.Identical(t.A[0].T, list.T) && x.e.equal(s, t.A[0], list) {
			return true
		}
	}
	return false
}

// sorted: is the list known to be in chronological order?
func (x *sorting) sorted(s *State, list *Term) bool {
	return x.e.zeroLen(s, list) || x.now(list) != nil && x.holds(s, "in-order", list)
}

func (x *sorting) everyAccount(s *State, coll *Term) bool { return x.holds(s, "all-in-order", coll) }

// changed forgets what is known about lists of (pointers to) a type; nil for all.
func (x *sorting) changed(s *State, named types.Type) {
	for t := range s.lits {
		if t.Op != "done" || t.S != "in-order" && t.S != "all-in-order" {
			continue
		}
		el := deref(t.A[0].T.Underlying().(*types.Slice).Elem())
		if named == nil || types.Identical(el, named) || t.S == "all-in-order" && types.Identical(named, x.p.RootType("Split")) {
			delete(s.lits, t)
			s.sv = nil
		}
	}
}

// written: something is stored.
func (x *sorting) written(s *State, addr *Term) {
	if s.nonEscapedAlloc(rootOf(addr)) {
		return
	}
	switch addr.Op {
	case "ia":
		if addr.A[0].T != nil {
			if sl, ok := addr.A[0].T.Underlying().(*types.Slice); ok {
				x.changed(s, deref(sl.Elem()))
			}
		}
	case "fa":
		if !strings.HasSuffix(addr.S, ".Time") || addr.A[0].T == nil {
			return
		}
		t := deref(addr.A[0].T)
		x.changed(s, t)
		if types.Identical(t, x.p.RootType("Transaction")) {
			x.changed(s, x.p.RootType("Split")) // it may be the split's time, too
		}
	default:
		if addr.T != nil && isTime(deref(addr.T)) {
			x.changed(s, nil)
		}
	}
}

// byTime: does the comparison order the elements by their times, and nothing else?
func (x *sorting) byTime(s0 *State, c *Ctx, in ssa.CallInstruction, list *Term, less *ssa.Function, free []*Term, recv *Term) string {
	e, tt := x.e, x.e.tt
	it := types.Typ[types.Int]
	args := []*Term{e.newSym("op", "i", it, c, nil, in), e.newSym("op", "j", it, c, nil, in)}
	s := s0.clone()
	for _, a := range args {
		if !e.assume(s, tt.lt(a, tt.intc(0, nil)), false) || !e.assume(s, tt.lt(a, tt.length(list)), true) {
			return "" // nothing to compare
		}
	}
	i, j := args[0], args[1]
	if recv != nil {
		args = append([]*Term{recv}, args...)
	}
	hk, fact, rel, max := e.H, e.Fact, e.PhiRel, e.Cap
	e.Fact, e.PhiRel, e.Cap = nil, nil, 48
	bad, n := "", 0
	e.H = Hooks{Store: func(s *State, c *Ctx, in ssa.Instruction, addr, v *Term, t types.Type) {
		if !allocTerm(rootOf(addr)) {
			bad = "comparing changes something"
		}
	}, Return: func(s *State, c *Ctx, rin ssa.Instruction, res []*Term) {
		if c.fn != less || c.call != in {
			return
		}
		n++
		if len(res) != 1 {
			bad = "the comparison is not understood"
			return
		}
		ti, tj := e.timeAt(s, list, i), e.timeAt(s, list, j)
		if ti == nil || !isTime(ti.T) {
			bad = "the elements have no time"
			return
		}
		q := tt.lt(ti, tj)
		for _, want := range []bool{true, false} {
			m := s.clone()
			if !e.assume(m, res[0], want) || m.dead || e.implied(m, q, want) {
				continue
			}
			if want {
				bad = "an element may be put before one that is not later"
			} else {
				bad = "an element may not be put before a later one"
			}
		}
	}}
	e.call(e.ctx(c, in, less), s, args, free)
	e.H = hk
	e.Fact, e.PhiRel, e.Cap = fact, rel, max
	if bad == "" && n == 0 {
		bad = "the comparison is not understood"
	}
	return bad
}

// call models the sort functions.
func (x *sorting) call(s *State, c *Ctx, in ssa.CallInstruction, name string, args []*Term) (*Term, bool) {
	e := x.e
	switch name {
	case "sort.SliceStable", "sort.Slice", "sort.Stable", "sort.Sort":
	default:
		return nil, false
	}
	list := args[0]
	if list.Op == "iface" {
		list = list.A[0]
	}
	if list.T == nil {
		return nil, false
	}
	if _, isS := list.T.Underlying().(*types.Slice); !isS {
		return nil, false
	}
	// what is in order stays in order
	e.model(s, c, in, name, in.Common(), args, in.Value())
	var less *ssa.Function
	var free []*Term
	var recv *Term
	if name == "sort.SliceStable" || name == "sort.Slice" {
		if args[1].Op == "closure" {
			less, free = x.p.closures[args[1].S], args[1].A
		} else if args[1].Op == "func" {
			less = x.p.byName[args[1].S]
		}
	} else {
		recv = list
		t := list.T
		if mi, ok := in.Common().Args[0].(*ssa.MakeInterface); ok {
			t = mi.X.Type()
		}
		ms := types.NewMethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if f, ok := ms.At(i).Obj().(*types.Func); ok && f.Name() == "Less" {
				less = x.p.SSA.MethodValue(ms.At(i))
			}
		}
	}
	if x.now(list) == nil {
		return nil, true // not a list of entries with a time
	}
	why := "the comparison is not understood"
	if less != nil && len(less.Blocks) > 0 {
		why = x.byTime(s, c, in, list, less, free, recv)
	}
	where := x.p.Fn(c.fn) + " sorts " + types.TypeString(list.T, func(*types.Package) string { return "" })
	pos := x.p.InstrPos(in)
	if why == "" && (name == "sort.Slice" || name == "sort.Sort") {
		why = strings.TrimPrefix(name, "sort.") + " does not keep entries of the same time in their order"
	}
	x.sorts++
	x.r.Add("stable-by-time", where, pos, why == "", "%s", why)
	// not in order: anything else that is said follows from this
	s.lits[x.now(list)], s.sv = true, nil
	return nil, true
}

// owner: the object whose field holds a list.
func (x *sorting) owner(list *Term, field string) *Term {
	if list.Op == "load" && list.A[0].Op == "fa" && strings.HasSuffix(list.A[0].S, field) {
		return list.A[0].A[0]
	}
	return nil
}

func (x *sorting) splits(s *State, acc *Term) *Term { return x.e.fld(s, acc, "Splits") }

// exception: an account whose Splits have changed since those of all accounts were
// in order.
func (x *sorting) exception(s *State) (a *Term, is bool) {
	return s.gt["exc"], s.gs["exc"] != ""
}

func (x *sorting) forget(s *State) {
	delete(s.gs, "exc")
	delete(s.gt, "exc")
}

// touches: may the function change the order of a list?
func (x *sorting) touches(g *ssa.Function) bool {
	for k := range x.e.modset(g) {
		if strings.HasSuffix(k, ".Time") || strings.HasSuffix(k, "Account.Splits") || strings.HasPrefix(k, "*") && strings.HasSuffix(k, "Time") ||
			strings.HasPrefix(k, "[]*") {
			return true
		}
	}
	return false
}

func (x *sorting) forgetAll(s *State) {
	for t := range s.lits {
		if t.Op == "done" && t.S == "all-in-order" {
			delete(s.lits, t)
			s.sv = nil
		}
	}
}

func (x *sorting) anyAll(s *State) bool {
	for t, pos := range s.lits {
		if pos && t.Op == "done" && t.S == "all-in-order" {
			return true
		}
	}
	return false
}

func checkP13(p *Prog, r *Report) {
	r.Expl = "Abstract interpretation of (*Ledger).Fill and everything it calls, on all paths. A list counts as in order from the moment a stable sort of it is called whose comparison is shown, by interpreting it on two arbitrary elements, " +
		"to be true exactly if the time of the first is before the time of the second, until the list, its elements or their times change; a loop over all accounts in each of whose iterations the account's Splits are put in order puts all of them in order. " +
		"Obligations: every sort of entries with a time is stable and by time; when Fill succeeds, Transactions, Prices and the Splits of every account, the transfer account included, are in order; and whenever the Balance of a split is computed, the Splits of its account already are."
	led := p.RootType("Ledger")
	f := p.Method(types.NewPointer(led), p.Root.Pkg, "Fill")
	if !mustFn(r, f, "(*accounting.Ledger).Fill") {
		return
	}
	e := NewEng(p)
	e.NonNil = e.usualNonNil
	e.coarse()
	tt := e.tt
	x := &sorting{e: e, p: p, r: r, seen: map[string]bool{}}
	args := e.Params(f)
	l := args[0]
	tr := e.Track()
	acc := p.RootType("Account")
	isAccounts := func(t *Term) bool {
		if t == nil || t.T == nil {
			return false
		}
		sl, ok := t.T.Underlying().(*types.Slice)
		return ok && types.Identical(deref(sl.Elem()), acc)
	}
	tr.Back = func(s *State, it *Iter) map[string]string {
		if it.IsMap || !isAccounts(it.Coll) {
			return nil
		}
		why := ""
		if !x.sorted(s, x.splits(s, e.elem(s, it.Coll, it.Idx))) {
			why = "the Splits of the account are not in order at the end of the iteration: " + e.path(s)
		}
		return map[string]string{"sorted": why}
	}
	tr.Out = func(s *State, it *Iter) {
		if it.Coll != nil && isAccounts(it.Coll) && tr.Done(s, "sorted", it.Coll) {
			x.forget(s)
			x.forgetAll(s)
			s.lits[x.all(it.Coll)], s.sv = true, nil
		}
	}
	e.H.Call = func(s *State, c *Ctx, in ssa.CallInstruction, name string, args []*Term) (*Term, bool) {
		if t, ok := e.balanceOps(s, c, in, name, args); ok {
			return t, ok
		}
		if t, ok := x.call(s, c, in, name, args); ok {
			// an exception may be in order again
			if a, _ := x.exception(s); a != nil && x.sorted(s, x.splits(s, a)) {
				x.forget(s)
			}
			return t, ok
		}
		if g := in.Common().StaticCallee(); g != nil && p.isMod[g] && c.onStack(g) && x.touches(g) {
			x.changed(s, nil)
		}
		return nil, false
	}
	balances := 0
	e.H.After = func(s *State, c *Ctx, in ssa.CallInstruction, name string, args []*Term, res *Term) {
		if name == "builtin.copy" || name == "builtin.append" && args[0].Op == "slice" && args[0].A[2].Op != "none" {
			if sl, ok := in.Common().Args[0].Type().Underlying().(*types.Slice); ok && !s.nonEscapedAlloc(rootOf(args[0])) {
				x.changed(s, deref(sl.Elem()))
			}
		}
	}
	e.H.Store = func(s *State, c *Ctx, in ssa.Instruction, addr, v *Term, t types.Type) {
		x.written(s, addr)
		if addr.Op != "fa" {
			return
		}
		switch {
		case strings.HasSuffix(addr.S, "Account.Splits"):
			a := addr.A[0]
			if x.anyAll(s) && !allocTerm(rootOf(a)) {
				if b, is := x.exception(s); is && (b == nil || !e.equal(s, a, b)) {
					x.forgetAll(s)
				}
				s.gs["exc"], s.gt["exc"] = "1", a
			}
		case strings.HasSuffix(addr.S, "Ledger.Accounts"):
			old := v
			if old.Op == "append" {
				old = v.A[0]
			}
			if v.Op != "append" || !x.everyAccount(s, old) {
				return
			}
			// the accounts that are added are the exceptions
			for _, a := range v.A[1:] {
				if b, is := x.exception(s); is && (b == nil || !e.equal(s, a, b)) {
					return
				}
				s.gs["exc"], s.gt["exc"] = "1", a
			}
			s.lits[x.all(v)], s.sv = true, nil
		case strings.HasSuffix(addr.S, "Split.Balance"):
			if e.zeroLen(s, v) {
				return
			}
			// the split is an element of a list that is in order
			balances++
			obj := e.alias(s, addr.A[0], func(t *Term) bool { return t.Op == "load" && t.A[0].Op == "ia" })
			where := p.Fn(c.fn) + " computes balances"
			if obj.Op != "load" || obj.A[0].Op != "ia" {
				r.Bad("balances-in-order", where, p.InstrPos(in), "the split is not an element of a list")
				return
			}
			list := obj.A[0].A[0]
			ok := x.sorted(s, list)
			if !ok {
				if o := x.owner(e.alias(s, list, func(t *Term) bool { return x.owner(t, "Account.Splits") != nil }), "Account.Splits"); o != nil {
					o = e.alias(s, o, func(t *Term) bool { return t.Op == "load" && t.A[0].Op == "ia" })
					ok = o.Op == "load" && o.A[0].Op == "ia" && x.everyAccount(s, o.A[0].A[0]) && s.gs["exc"] == ""
				}
			}
			r.Add("balances-in-order", where, p.InstrPos(in), ok, "the list of splits is not known to be in order here; %s", e.path(s))
		}
	}
	rets := 0
	e.H.Return = func(s *State, c *Ctx, in ssa.Instruction, res []*Term) {
		if c.fn != f || c.parent != nil || len(res) != 1 || e.notNil(s, res[0]) {
			return
		}
		rets++
		pos := p.InstrPos(in)
		for _, name := range []string{"Transactions", "Prices"} {
			r.Add("in-order", "Ledger."+name, pos, x.sorted(s, e.fld(s, l, name)), "not known to be in order when Fill succeeds: %s", e.path(s))
		}
		list := e.fld(s, l, "Accounts")
		var rest []*Term
		why := ""
		if !x.everyAccount(s, list) {
			why = "the splits of all accounts are not known to be put in order"
			for _, m := range []*Term{list} {
				if w := tr.Why("sorted", m); w != "" {
					why += ": " + w
				}
			}
		}
		if a, is := x.exception(s); is {
			rest = append(rest, a)
		}
		for _, a := range rest {
			if a == nil {
				why = "an account's splits change after they are put in order"
			} else if why == "" && !x.sorted(s, x.splits(s, a)) {
				why = fmt.Sprintf("the splits of %s change after they are put in order", short(a))
			}
		}
		r.Add("in-order", "Account.Splits", pos, why == "", "when Fill succeeds, %s; %s", why, e.path(s))
	}
	_ = tt
	if !p.runDecided(r, "in-order", e, f, newState(), args) {
		return
	}
	r.Counts["sorts"], r.Counts["returns of Fill"], r.Counts["balances computed"] = x.sorts, rets, balances
	r.Counts["functions interpreted"] = len(e.Fns)
	r.Expect("stable-by-time", 1)
	r.Expect("in-order", 3)
	r.Expect("balances-in-order", 1)
}
