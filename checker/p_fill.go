package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P14", "other", checkP14)
}

// filling decides how Fill computes amounts and balances.
type filling struct {
	p        *Prog
	r        *Report
	f        *ssa.Function
	e        *Eng
	tr       *Tracker
	led      *Term
	bal, val types.Type
	spl, tx  types.Type // *Split, *Transaction
	cells    []*Term    // the local variables that hold balances
}

func newFilling(p *Prog, r *Report) *filling {
	f := p.Method(types.NewPointer(p.RootType("Ledger")), p.Root.Pkg, "Fill")
	if !mustFn(r, f, "(*accounting.Ledger).Fill") {
		return nil
	}
	x := &filling{p: p, r: r, f: f, bal: p.RootType("Balance"), val: p.RootType("Value"),
		spl: types.NewPointer(p.RootType("Split")), tx: types.NewPointer(p.RootType("Transaction"))}
	e := NewEng(p)
	x.e = e
	e.NonNil = e.usualNonNil
	e.coarse()
	e.PhiRel = func(t types.Type) bool { return !isInt(t) && !isStr(t) }
	e.Cap, e.LCap = 48, 1
	e.H.Opaque = func(g *ssa.Function) bool { return selfCalls(g) }
	e.Frozen = func(m *Term) bool {
		if m.Op != "load" || m.A[0].Op != "fa" {
			return false
		}
		n := shortField(m.A[0].S)
		return n == "Ledger.SplitPrices" || n == "Ledger.Assertions"
	}
	x.frozenMaps()
	return x
}

// frozenMaps: prices and assertions of splits do not change in Fill.
func (x *filling) frozenMaps() {
	p, r := x.p, x.r
	n := 0
	for g := range p.reach(x.f) {
		if !p.isMod[g] {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.MapUpdate:
					mt := i.Map.Type().Underlying().(*types.Map)
					if types.Identical(mt.Key(), x.spl) && types.Identical(mt.Elem(), x.val) {
						r.Bad("given", p.Fn(g), p.InstrPos(in), "a map of values of splits changes in Fill")
					}
				case *ssa.Store:
					if fa, ok := i.Addr.(*ssa.FieldAddr); ok && isLedger(p, fa.X.Type()) {
						name := structOf(deref(fa.X.Type())).Field(fa.Field).Name()
						if name == "SplitPrices" || name == "Assertions" {
							r.Bad("given", p.Fn(g), p.InstrPos(in), "Ledger.%s changes in Fill", name)
						}
					}
				case ssa.CallInstruction:
					if b, ok := i.Common().Value.(*ssa.Builtin); ok && b.Name() == "delete" {
						r.Bad("given", p.Fn(g), p.InstrPos(in), "an entry of a map is deleted in Fill")
					}
				}
			}
		}
		n++
	}
	r.Add("given", "Ledger.SplitPrices and Ledger.Assertions", p.Pos(x.f.Pos()), true, "")
	r.Counts["functions searched for changes of prices and assertions"] += n
}

func (x *filling) listOf(t *Term, el types.Type) bool {
	if t == nil || t.T == nil {
		return false
	}
	sl, ok := t.T.Underlying().(*types.Slice)
	return ok && types.Identical(sl.Elem(), el)
}

// owner: the object whose field (e.g. Transaction.Splits) the list is.
func owner(coll *Term, field string) *Term {
	if coll != nil && coll.Op == "load" && coll.A[0].Op == "fa" && shortField(coll.A[0].S) == field {
		return coll.A[0].A[0]
	}
	return nil
}

// cell notes that a is a local variable that holds a balance.
func (x *filling) cell(a *Term, t types.Type) {
	if !types.Identical(t, x.bal) || !allocTerm(a) {
		return
	}
	for _, c := range x.cells {
		if c == a {
			return
		}
	}
	x.cells = append(x.cells, a)
}

// scan finds the local variables that hold balances.
func (x *filling) scan(s *State, c *Ctx) {
	for ; c != nil; c = c.parent {
		for _, b := range c.fn.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && types.Identical(deref(a.Type()), x.bal) {
					if t := s.env[vkey{c, a}]; t != nil {
						x.cell(t, x.bal)
					}
				}
			}
		}
	}
}

// heads records, at the head of each loop over splits, what the balances held
// in local variables are, and the phis that are splits.
func (x *filling) heads() {
	e := x.e
	br := e.H.Branch
	e.H.Branch = func(s *State, c *Ctx, in ssa.Instruction, ls []lit) {
		if br != nil {
			br(s, c, in, ls)
		}
		h := in.Block()
		if e.flow(c.fn).loops[h] == nil {
			return
		}
		id := loopID(c, h)
		if s.gt["n@"+id] == nil && s.gt["d@"+id] == nil {
			return
		}
		x.scan(s, c)
		for i, a := range x.cells {
			s.gt[fmt.Sprintf("b%d@%s", i, id)] = e.Load(s, a, x.bal)
		}
		for _, phi := range x.splitPhis(h) {
			s.gt["u"+phi.Name()+"@"+id] = e.val(s, c, phi)
		}
	}
}

func (x *filling) splitPhis(h *ssa.BasicBlock) (out []*ssa.Phi) {
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if types.Identical(phi.Type(), x.spl) {
			out = append(out, phi)
		}
	}
	return
}

// zeroValue: does adding v to a balance change nothing?
func (x *filling) zeroValue(s *State, v *Term) bool {
	e := x.e
	if v.Op == "bneg" {
		v = v.A[0]
	}
	if isZeroTerm(v) {
		return true
	}
	z := e.tt.zero(x.val)
	if e.implied(s, e.tt.eq(v, z), true) {
		return true
	}
	st := structOf(x.val)
	a := e.tt.fieldOf(v, st, 0)
	return st.Field(0).Name() == "Amount" && e.implied(s, e.tt.eq(a, e.tt.intc(0, a.T)), true)
}

// parts: a balance as a sum.
func (x *filling) parts(s *State, b *Term) (base *Term, vs []*Term) {
	for b.Op == "badd" {
		for _, v := range b.A[1:] {
			if !x.zeroValue(s, v) {
				vs = append(vs, v)
			}
		}
		b = b.A[0]
	}
	return b, vs
}

func (x *filling) sameValue(s *State, a, b *Term) bool {
	e := x.e
	if e.equal(s, a, b) {
		return true
	}
	st := structOf(x.val)
	for i := 0; i < st.NumFields(); i++ {
		if !e.equal(s, e.tt.fieldOf(a, st, i), e.tt.fieldOf(b, st, i)) {
			return false
		}
	}
	return true
}

// sameSum: are two balances the same?
func (x *filling) sameSum(s *State, a, b *Term) bool {
	if x.e.equal(s, a, b) {
		return true
	}
	ba, va := x.parts(s, a)
	bb, vb := x.parts(s, b)
	if len(va) != len(vb) || !x.e.equal(s, ba, bb) && !(x.e.zeroLen(s, ba) && x.e.zeroLen(s, bb)) {
		return false
	}
	used := make([]bool, len(vb))
next:
	for _, v := range va {
		for i, w := range vb {
			if !used[i] && x.sameValue(s, v, w) {
				used[i] = true
				continue next
			}
		}
		return false
	}
	return true
}

func (x *filling) currency(s *State, v *Term) *Term { return x.field(v, "Currency") }

func (x *filling) field(v *Term, name string) *Term {
	st := structOf(x.val)
	return x.e.tt.fieldOf(v, st, fieldIndex(st, name))
}

// summed decides which loops over the splits of a transaction add up their
// amounts: in which variable (b), and in which the split without an amount is (u).
func (x *filling) summed() {
	e, tr, tt := x.e, x.tr, x.e.tt
	x.heads()
	in, back, out := tr.In, tr.Back, tr.Out
	notEmpty := map[string]bool{}
	isTx := func(coll *Term) *Term {
		if !x.listOf(coll, x.spl) {
			return nil
		}
		return owner(coll, "Transaction.Splits")
	}
	tr.In = func(s *State, it *Iter) {
		if in != nil {
			in(s, it)
		}
		x.scan(s, it.C)
		for i, a := range x.cells {
			if !e.zeroLen(s, e.Load(s, a, x.bal)) {
				notEmpty[fmt.Sprintf("b%d@%s", i, loopID(it.C, it.Head))] = true
			}
		}
		for _, phi := range x.splitPhis(it.Head) {
			if v := s.env[vkey{it.C, phi}]; v == nil || !e.isNil(s, v) {
				notEmpty["u"+phi.Name()+"@"+loopID(it.C, it.Head)] = true
			}
		}
	}
	tr.Back = func(s *State, it *Iter) map[string]string {
		var tags map[string]string
		if back != nil {
			tags = back(s, it)
		}
		if it.IsMap || isTx(it.Coll) == nil {
			return tags
		}
		if tags == nil {
			tags = map[string]string{}
		}
		id := loopID(it.C, it.Head)
		sp := e.elem(s, it.Coll, it.Idx)
		w := e.fld(s, sp, "Value")
		priced := 0
		sps := e.fld(s, x.led, "SplitPrices")
		pv, ok := e.lookup(s, sps, sp, sps.T)
		if e.implied(s, ok, true) {
			w, priced = pv, 1
		} else if e.implied(s, ok, false) {
			priced = -1
		}
		cur := x.currency(s, e.fld(s, sp, "Value"))
		for i, a := range x.cells {
			bk := fmt.Sprintf("b%d@%s", i, id)
			b0, b1 := s.gt[bk], e.Load(s, a, x.bal)
			if b0 == nil { // (in a later pass)
				continue
			}
			for _, phi := range append(x.splitPhis(it.Head), nil) {
				tag, un := fmt.Sprintf("sum|%d|", i), (*Term)(nil)
				var u0 *Term
				if phi != nil {
					tag += phi.Name()
					u0, un = s.gt["u"+phi.Name()+"@"+id], s.env[vkey{it.C, phi}]
				}
				why := ""
				same := x.sameSum(s, b1, b0)
				switch {
				case phi != nil && (u0 == nil || un == nil):
					why = "unknown"
				case phi != nil && e.equal(s, un, sp) && !e.equal(s, un, u0):
					switch {
					case !e.isNil(s, u0):
						why = "a second split without an amount is accepted"
					case !e.isNil(s, cur):
						why = "a split that has an amount is taken for one that has not"
					case !same:
						why = "a split without an amount is counted"
					}
				case phi != nil && !e.equal(s, un, u0):
					why = "another split is taken for the one without an amount"
				case e.notNil(s, cur) && priced == 0:
					why = "whether the split has a price is not looked at"
				case e.notNil(s, cur) && (x.sameSum(s, b1, tt.badd(b0, w)) || same && x.zeroValue(s, w)):
				case e.notNil(s, cur):
					why = "what is added is not the split's price, if it has one, and its value otherwise"
				default:
					why = "a split that may have no amount is not noted"
				}
				if why != "" {
					why += ": " + e.path(s)
				}
				tags[tag] = why
			}
		}
		return tags
	}
	tr.Out = func(s *State, it *Iter) {
		if out != nil {
			out(s, it)
		}
		if it.IsMap || isTx(it.Coll) == nil {
			return
		}
		id := loopID(it.C, it.Head)
		for i, a := range x.cells {
			if k := fmt.Sprintf("b%d@%s", i, id); notEmpty[k] || s.gt[k] == nil {
				continue
			}
			for _, phi := range append(x.splitPhis(it.Head), nil) {
				tag := fmt.Sprintf("sum|%d|", i)
				u := tt.nilc(x.spl)
				if phi != nil {
					tag += phi.Name()
					if notEmpty["u"+phi.Name()+"@"+id] {
						continue
					}
					u = e.val(s, it.C, phi)
				}
				if tr.Done(s, tag, it.Coll) {
					s.gs["sum"], s.gs["begun"] = "1", "1"
					s.gt["S"], s.gt["u"], s.gt["T"] = e.Load(s, a, x.bal), u, isTx(it.Coll)
					return
				}
			}
		}
	}
}

// whySums: why no loop adds up a transaction.
func (x *filling) whySums() (why string) {
	most := -1
	for _, st := range x.tr.st {
		for k, w := range st.bad {
			i := strings.Index(k, "|sum|")
			if i < 0 || w == "" {
				continue
			}
			n := 2 * st.oks[k[:i]][k[i+1:]]
			if !strings.HasPrefix(w, "what is added") {
				n++
			}
			if n > most || n == most && w < why {
				most, why = n, w
			}
		}
	}
	return
}

func checkP14(p *Prog, r *Report) {
	r.Expl = "Abstract interpretation of Fill, on all paths. A loop over all splits of a transaction adds, to a balance empty at first, the split's price if it has one and its value otherwise, of each split that has an amount, and notes the one that has none; no second one gets past it (sum). " +
		"Every path that goes on to the next transaction is one where that sum is empty, or it has one entry and the split without an amount has received exactly its negation, or it has two and there is no such split (accepted). Fill returns nil only after that has happened to all transactions (all). " +
		"Nothing else changes the amount of a split that has one, nor the splits of a transaction, but for transfer splits (kept); prices of splits do not change (given)."
	r.Assume = append(r.Assume, "a split without a currency has no amount (the backends create no other)", "the methods of Balance do what P17 decides: a balance has one entry, not zero, per currency")
	x := newFilling(p, r)
	if x == nil {
		return
	}
	e, tt := x.e, x.e.tt
	x.tr = e.Track()
	tr := x.tr
	tr.Resume = true
	tr.Later = func(tag string) bool { return strings.HasPrefix(tag, "sum|") }
	args := e.Params(x.f)
	x.led = args[0]
	whyNot := ""
	isTxs := func(coll *Term) bool {
		o := owner(coll, "Ledger.Transactions")
		return o != nil && x.listOf(coll, x.tx)
	}
	clear := func(s *State) {
		delete(s.gs, "sum")
		delete(s.gs, "set")
		for _, k := range []string{"S", "u", "T"} {
			delete(s.gt, k)
		}
	}
	tr.Back = func(s *State, it *Iter) map[string]string {
		if it.IsMap || !isTxs(it.Coll) || s.gs["all"] != "" {
			return nil
		}
		tx := e.elem(s, it.Coll, it.Idx)
		S, u := s.gt["S"], s.gt["u"]
		why := ""
		one := func() *Term { return e.Load(s, tt.indexAddr(S, tt.intc(0, nil), x.val), x.val) }
		n := func(k int64) bool { return S != nil && e.implied(s, tt.eq(tt.length(S), tt.intc(k, nil)), true) }
		switch {
		case s.gs["sum"] == "":
			why = "the splits of the transaction are not added up"
		case !e.equal(s, s.gt["T"], tx):
			why = "it is the splits of another transaction that are added up"
		case e.isNil(s, u) && (e.zeroLen(s, S) || n(2)):
		case e.isNil(s, u):
			why = "a transaction whose sum may not be zero is accepted"
		default:
			v := e.fld(s, u, "Value")
			amt := x.field(v, "Amount")
			switch {
			case !e.notNil(s, u):
				why = "whether a split has no amount is not looked at"
			case e.zeroLen(s, S) && e.isNil(s, x.currency(s, v)):
				why = "a split is left without a currency"
			case e.zeroLen(s, S) && s.gs["set"] != "" && !e.equal(s, amt, tt.intc(0, amt.T)):
				why = "the split without an amount receives something although nothing is missing"
			case e.zeroLen(s, S):
			case !n(1):
				why = "a remainder in more than one currency is accepted although a split has no amount"
			case !e.equal(s, x.currency(s, v), x.currency(s, one())) || !e.equal(s, amt, x.field(tt.bneg(one()), "Amount")) &&
				!e.equal(s, tt.bin(token.ADD, amt, x.field(one(), "Amount"), amt.T), tt.intc(0, amt.T)):
				why = "what the split without an amount receives is not the negated remainder"
			}
		}
		clear(s)
		if why != "" {
			why += ": " + e.path(s)
		}
		return map[string]string{"accepted": why}
	}
	tr.In = func(s *State, it *Iter) {
		if s.gs["all"] == loopID(it.C, it.Head) {
			delete(s.gs, "all") // there may be more of them
		}
	}
	x.summed()
	tr.Out = func(out func(s *State, it *Iter)) func(s *State, it *Iter) {
		return func(s *State, it *Iter) {
			if out != nil {
				out(s, it)
			}
			if it.IsMap || !isTxs(it.Coll) {
				return
			}
			if tr.Done(s, "accepted", it.Coll) {
				s.gs["all"] = loopID(it.C, it.Head)
			} else if w := tr.Why("accepted", it.Coll); w != "" && !strings.HasPrefix(w, "the splits of the transaction are not") {
				whyNot = w
			}
		}
	}(tr.Out)
	e.H.Call = func(s *State, c *Ctx, in ssa.CallInstruction, name string, as []*Term) (*Term, bool) {
		if len(as) > 0 {
			if t := as[0].T; t != nil {
				if pt, ok := t.Underlying().(*types.Pointer); ok {
					x.cell(as[0], pt.Elem())
				}
			}
		}
		return e.balanceOps(s, c, in, name, as)
	}
	bad := func(rule string, in ssa.Instruction, s *State, why string) {
		r.Bad(rule, p.Fn(in.Parent())+" "+p.InstrPos(in), p.InstrPos(in), "%s; %s", why, e.path(s))
	}
	e.H.Store = func(s *State, c *Ctx, in ssa.Instruction, addr, v *Term, t types.Type) {
		x.cell(addr, t)
		if addr.Op != "fa" {
			return
		}
		if !allocTerm(rootOf(addr)) {
			sp := addr.A[0]
			name := shortField(addr.S)
			if strings.HasPrefix(name, "Value.") && sp.Op == "fa" {
				name, sp = shortField(sp.S), sp.A[0]
			}
			switch name {
			case "Split.Value":
				if s.gs["sum"] != "" && s.gt["u"] != nil && e.equal(s, sp, s.gt["u"]) {
					if shortField(addr.S) != "Value.Currency" {
						s.gs["set"] = "1"
					}
					r.OK("kept", p.Fn(in.Parent())+" "+p.InstrPos(in), p.InstrPos(in))
				} else if cur := x.currency(s, e.fld(s, sp, "Value")); e.isNil(s, cur) || s.gs["own"] != "" && e.equal(s, s.gt["own"], sp) {
					s.gs["own"], s.gt["own"] = "1", sp // and until it is done
					r.OK("kept", p.Fn(in.Parent())+" "+p.InstrPos(in), p.InstrPos(in))
				} else {
					bad("kept", in, s, "the amount of a split that may have one already is changed")
				}
			case "Transaction.Splits":
				x.splitsStore(s, c, in, sp, v, t, bad)
			}
		}
	}
	tr.Back = func(back func(s *State, it *Iter) map[string]string) func(s *State, it *Iter) map[string]string {
		return func(s *State, it *Iter) map[string]string {
			tags := back(s, it)
			delete(s.gs, "own")
			delete(s.gt, "own")
			return tags
		}
	}(tr.Back)
	e.H.Panic = func(s *State, c *Ctx, in ssa.Instruction, v *Term) {
		bad("error", in, s, "a transaction makes Fill panic")
	}
	e.H.Return = func(s *State, c *Ctx, in ssa.Instruction, res []*Term) {
		if c.fn != x.f || c.parent != nil || len(res) != 1 || e.notNil(s, res[0]) {
			return
		}
		why := whyNot
		if why == "" {
			why = x.whySums()
		}
		r.Add("all", "result of Fill", p.InstrPos(in), s.gs["all"] != "", "Fill succeeds without every transaction being known to balance (%s); %s", why, e.path(s))
	}
	p.runDecided(r, "all", e, x.f, newState(), args)
	r.Counts["functions interpreted"] += len(e.Fns)
	r.Expect("all", 1)
	r.Expect("kept", 3)
	r.Expect("given", 1)
}

// addedTo: the elements that have been appended to old to get v.
func (e *Eng) addedTo(s *State, v, old *Term) (els []*Term, ok bool) {
	flat := func(t *Term) (*Term, []*Term) {
		var l []*Term
		for t.Op == "append" && !e.equal(s, t, old) {
			l = append(append([]*Term{}, t.A[1:]...), l...)
			t = t.A[0]
		}
		return t, l
	}
	b, els := flat(v)
	if e.equal(s, b, old) {
		return els, len(els) > 0
	}
	var pre []*Term
	for old.Op == "append" {
		pre = append(append([]*Term{}, old.A[1:]...), pre...)
		old = old.A[0]
	}
	if len(pre) == 0 || len(els) <= len(pre) || !e.equal(s, b, old) {
		return nil, false
	}
	for i := range pre {
		if !e.equal(s, pre[i], els[i]) {
			return nil, false
		}
	}
	return els[len(pre):], true
}

// splitsStore: the splits of a transaction only change before amounts are
// computed, or when transfer splits are added at the end.
func (x *filling) splitsStore(s *State, c *Ctx, in ssa.Instruction, tx, v *Term, t types.Type, bad func(rule string, in ssa.Instruction, s *State, why string)) {
	e := x.e
	if s.gs["begun"] == "" {
		return
	}
	why := ""
	old := e.fld(s, tx, "Splits")
	switch {
	case s.gs["all"] == "":
		why = "the splits of a transaction change while amounts are computed"
	default:
		els, ok := e.addedTo(s, v, old)
		if !ok && !e.grows(s, c, in, old) {
			why = "the splits of a transaction change after their amounts are computed"
		}
		for _, el := range els {
			if !s.isNew(el) || !e.equal(s, e.fld(s, el, "Account"), e.fld(s, x.led, "transferAccount")) {
				why = "something other than a new split of the transfer account is added to a transaction"
			}
		}
	}
	if why != "" {
		bad("kept", in, s, why)
		return
	}
	x.r.OK("kept", x.p.Fn(in.Parent())+" "+x.p.InstrPos(in), x.p.InstrPos(in))
}

// isNew: was the object allocated in this iteration?
func (s *State) isNew(t *Term) bool { return allocTerm(t) }

// grownBy: v, as the program is written, is one of bases with the elements els
// appended to it, in any number of steps and of rounds of a loop.
func grownBy(v ssa.Value) (bases, els []ssa.Value, ok bool) {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, o := range x.Edges {
				if !walk(o) {
					return false
				}
			}
			return true
		case *ssa.Call:
			b, is := x.Call.Value.(*ssa.Builtin)
			if !is || b.Name() != "append" || len(x.Call.Args) != 2 {
				break
			}
			sl, is := x.Call.Args[1].(*ssa.Slice)
			if !is {
				return false
			}
			al, is := sl.X.(*ssa.Alloc)
			if !is {
				return false
			}
			for _, r := range *al.Referrers() {
				switch y := r.(type) {
				case *ssa.IndexAddr:
					for _, z := range *y.Referrers() {
						st, is := z.(*ssa.Store)
						if !is {
							return false
						}
						els = append(els, st.Val)
					}
				case *ssa.Slice:
				default:
					return false
				}
			}
			return walk(x.Call.Args[0])
		}
		bases = append(bases, v)
		return true
	}
	ok = walk(v)
	return bases, els, ok && len(els) > 0
}

// newTransferSplit: every value v can have is a split made by the module, which
// belongs to the transfer account.
func newTransferSplit(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, o := range x.Edges {
			if !newTransferSplit(o, d+1) {
				return false
			}
		}
		return true
	case *ssa.Alloc:
		n := 0
		for _, r := range *x.Referrers() {
			fa, is := r.(*ssa.FieldAddr)
			if !is || fieldName(fa) != "Account" {
				if st, is := r.(*ssa.Store); is && st.Addr == x {
					return false
				}
				continue
			}
			for _, z := range *fa.Referrers() {
				st, is := z.(*ssa.Store)
				if !is {
					continue
				}
				ld, is := st.Val.(*ssa.UnOp)
				if !is {
					return false
				}
				f2, is := ld.X.(*ssa.FieldAddr)
				if !is || fieldName(f2) != "transferAccount" {
					return false
				}
				n++
			}
		}
		return n > 0
	case *ssa.Extract:
		if call, is := x.Tuple.(*ssa.Call); is {
			return newFromCall(call, x.Index, d)
		}
	case *ssa.Call:
		return newFromCall(x, 0, d)
	}
	return false
}

func newFromCall(call *ssa.Call, i, d int) bool {
	f := call.Call.StaticCallee()
	if f == nil {
		f = funcIn(call.Call.Value, 0)
	}
	if f == nil || len(f.Blocks) == 0 {
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		if ret, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is {
			if !newTransferSplit(ret.Results[i], d+1) {
				return false
			}
			n++
		}
	}
	return n > 0
}

// grows: what is stored by in is the list old with new splits of the transfer
// account behind it.
func (e *Eng) grows(s *State, c *Ctx, in ssa.Instruction, old *Term) bool {
	st, is := in.(*ssa.Store)
	if !is {
		return false
	}
	bases, els, ok := grownBy(st.Val)
	if !ok || len(bases) == 0 {
		return false
	}
	for _, b := range bases {
		if d, is := b.(ssa.Instruction); is && !d.Block().Dominates(in.Block()) || !e.equal(s, e.val(s, c, b), old) {
			return false
		}
	}
	for _, el := range els {
		if !newTransferSplit(el, 0) {
			return false
		}
	}
	return true
}

func fieldName(fa *ssa.FieldAddr) string {
	return structOf(deref(fa.X.Type())).Field(fa.Field).Name()
}
