package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P19", "other", checkP19)
}

// fld: the value of a field of the object that pointer obj leads to.
func (e *Eng) fld(s *State, obj *Term, name string) *Term {
	if obj.T == nil {
		return nil
	}
	et := deref(obj.T)
	st := structOf(et)
	if st == nil {
		return nil
	}
	i := fieldIndex(st, name)
	if i < 0 {
		return nil
	}
	ft := st.Field(i).Type()
	return e.Load(s, e.tt.fieldAddr(obj, et, name, ft), ft)
}

// elem: element i of a list.
func (e *Eng) elem(s *State, coll, i *Term) *Term {
	el := coll.T.Underlying().(*types.Slice).Elem()
	return e.Load(s, e.tt.indexAddr(coll, i, el), el)
}

// timeAt: the time of element i of a list of transactions, splits or prices.
func (e *Eng) timeAt(s *State, coll, i *Term) *Term {
	x := e.fld(s, e.elem(s, coll, i), "Time")
	if x != nil && x.T != nil {
		if pt, ok := x.T.Underlying().(*types.Pointer); ok {
			return e.Load(s, x, pt.Elem())
		}
	}
	return x
}

// genTimes: facts that compare times, and elements of lists.
func genTimes(t *Term) bool {
	return t.Op == "load" || t.Op == "lt" && isTime(t.A[0].T)
}

// firstLater keeps the state that enters a loop apart from those of later
// iterations.
func (e *Eng) firstLater() {
	in, back := e.H.LoopIn, e.H.LoopBack
	out := e.H.LoopOut
	e.H.LoopIn = func(s *State, c *Ctx, h *ssa.BasicBlock) {
		if in != nil {
			in(s, c, h)
		}
		s.gs["n"+loopID(c, h)] = "0"
	}
	e.H.LoopBack = func(s *State, c *Ctx, h *ssa.BasicBlock) {
		if back != nil {
			back(s, c, h)
		}
		s.gs["n"+loopID(c, h)] = "1"
	}
	e.H.LoopOut = func(s *State, c *Ctx, h *ssa.BasicBlock) {
		if out != nil {
			out(s, c, h)
		}
		delete(s.gs, "n"+loopID(c, h))
	}
}

// noneFrom: is it known that the list has no element i?
func (e *Eng) noneFrom(s *State, coll, i *Term) bool {
	return e.implied(s, e.tt.lt(i, e.tt.length(coll)), false)
}

// alias: a form of x known to be equal for which ok holds, if there is one.
func (e *Eng) alias(s *State, x *Term, ok func(t *Term) bool) *Term {
	if ok(x) {
		return x
	}
	y := e.canon(s, x)
	if ok(y) {
		return y
	}
	best := y
	for t, pos := range s.lits {
		if pos && t.Op == "eq" {
			for i := 0; i < 2; i++ {
				if z := t.A[1-i]; (t.A[i] == x || t.A[i] == y) && ok(z) && (best == y || z.key < best.key) {
					best = z
				}
			}
		}
	}
	return best
}

// indexOf: the index of the element of the list that the time x belongs to.
func (e *Eng) indexOf(s *State, coll, x *Term) *Term {
	for y := x; len(y.A) > 0; y = y.A[0] {
		if y.Op == "ia" {
			if e.equal(s, y.A[0], coll) && e.equal(s, x, e.timeAt(s, coll, y.A[1])) {
				return y.A[1]
			}
			return nil
		}
		if y.Op != "load" && y.Op != "fa" {
			return nil
		}
	}
	return nil
}

// cmpAt: is it known that (w is before the time of element i) == pos, or, if not
// less, that (the time of element i is before w) == pos?  The list is in
// chronological order, so that what is known of its other elements may do.
func (e *Eng) cmpAt(s *State, coll, i, w *Term, less, pos bool) bool {
	tt := e.tt
	t := e.timeAt(s, coll, i)
	if t == nil || !isTime(t.T) {
		return false
	}
	q := tt.lt(w, t)
	if !less {
		q = tt.lt(t, w)
	}
	if e.implied(s, q, pos) {
		return true
	}
	up := less == pos // known of an element: holds for those after it
	for l, lp := range s.lits {
		if l.Op != "lt" || lp != pos || !isTime(l.A[0].T) {
			continue
		}
		x, y := l.A[0], l.A[1]
		if !less {
			x, y = y, x
		}
		if !e.equal(s, x, w) {
			continue
		}
		k := e.indexOf(s, coll, y)
		if k == nil {
			continue
		}
		if up && e.implied(s, tt.lt(i, k), false) || !up && e.implied(s, tt.lt(k, i), false) {
			return true
		}
	}
	return false
}

func (e *Eng) isAfter(s *State, coll, i, w *Term, pos bool) bool {
	return e.cmpAt(s, coll, i, w, true, pos)
}

func (e *Eng) isBefore(s *State, coll, i, w *Term, pos bool) bool {
	return e.cmpAt(s, coll, i, w, false, pos)
}

// frozenEng: an interpreter for functions that change nothing that existed.
func (p *Prog) frozenEng() *Eng {
	e := NewEng(p)
	e.NonNil = e.usualNonNil
	e.Frozen = func(t *Term) bool {
		x := t
		for len(x.A) > 0 && (x.Op == "fa" || x.Op == "ia" || x.Op == "load" || x.Op == "me") {
			x = x.A[0]
		}
		return x.Op == "sym" && x.Info.kind == "param"
	}
	e.Gen = genTimes
	e.firstLater()
	return e
}

func (p *Prog) checkGetBalance(r *Report) {
	f := p.Method(types.NewPointer(p.RootType("Ledger")), p.Root.Pkg, "GetBalance")
	if !mustFn(r, f, "(*accounting.Ledger).GetBalance") {
		return
	}
	e := p.frozenEng()
	tt := e.tt
	args := e.Params(f)
	if len(args) != 3 {
		r.Bad("found", "GetBalance", p.Pos(f.Pos()), "not a method of an account and a time")
		return
	}
	n := 0
	e.H.Store = func(s *State, c *Ctx, in ssa.Instruction, addr, v *Term, t types.Type) {
		if e.Frozen(addr) {
			e.giveUp("GetBalance writes to the ledger")
		}
	}
	e.H.Return = func(s *State, c *Ctx, in ssa.Instruction, res []*Term) {
		if c.fn != f || c.parent != nil {
			return
		}
		acc, when := args[1], args[2]
		now := tt.eq(when, tt.zero(when.T))
		for _, current := range []bool{true, false} {
			s := s.clone()
			if !e.assume(s, now, current) {
				continue
			}
			n++
			what, rule := "at a given time", "balance-at"
			if current {
				what, rule = "now", "balance-now"
			}
			list := e.fld(s, acc, "Splits")
			bal := e.alias(s, res[0], func(x *Term) bool { return x.Op == "load" && x.A[0].Op == "fa" })
			k := p.Fn(f) + " " + what
			if e.equal(s, bal, e.fld(s, acc, "StartBalance")) {
				ok := e.noneFrom(s, list, tt.intc(0, nil))
				if !current {
					ok = ok || e.isAfter(s, list, tt.intc(0, nil), when, true)
				}
				r.Add(rule, k, p.InstrPos(in), ok, "the starting balance is returned although a split may count: %s", e.path(s))
				continue
			}
			if bal.Op != "load" || bal.A[0].Op != "fa" || !e.equal(s, bal, e.fld(s, bal.A[0].A[0], "Balance")) {
				r.Bad(rule, k, p.InstrPos(in), "what is returned is neither the starting balance nor the balance of a split; %s", e.path(s))
				continue
			}
			x := e.alias(s, bal.A[0].A[0], func(x *Term) bool { return x.Op == "load" && x.A[0].Op == "ia" })
			if x.Op != "load" || x.A[0].Op != "ia" || !e.equal(s, x.A[0].A[0], list) {
				r.Bad(rule, k, p.InstrPos(in), "what is returned is not known to be the balance of a split of the account; %s", e.path(s))
				continue
			}
			i := x.A[0].A[1]
			next := tt.addc(i, 1)
			last := e.noneFrom(s, list, next)
			if current {
				r.Add(rule, k, p.InstrPos(in), last, "the balance returned may not be that of the last split: %s", e.path(s))
				continue
			}
			r.Add(rule, k, p.InstrPos(in), e.isAfter(s, list, i, when, false), "the balance returned may count a split after the given time: %s", e.path(s))
			r.Add(rule, k, p.InstrPos(in), last || e.isAfter(s, list, next, when, true), "the balance returned may leave out a split at or before the given time: %s", e.path(s))
		}
	}
	if p.runDecided(r, "balance-at", e, f, newState(), args) {
		r.Counts["returns of GetBalance"] = n
		r.Expect("balance-at", 1)
		r.Expect("balance-now", 1)
	}
}

// selection recognises lists that are built by going over a list, in order, and
// appending the elements for which a condition holds.
type selection struct {
	e *Eng
	// in: must the element be taken (1), must it not (-1), or is it not known (0)?
	want func(s *State, coll, idx *Term) int
	// rest: is it known that none of the elements from idx on must be taken?
	rest func(s *State, coll, idx *Term) bool
	bad  map[string]string // by loop and phi
	n    int
}

func (x *selection) hook() {
	e := x.e
	x.bad = map[string]string{}
	tr := e.Track()
	lists := func(c *Ctx, h *ssa.BasicBlock) (out []*ssa.Phi) {
		for _, in := range h.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if _, isS := ph.Type().Underlying().(*types.Slice); isS {
				out = append(out, ph)
			}
		}
		return
	}
	tr.In = func(s *State, it *Iter) {
		for _, ph := range lists(it.C, it.Head) {
			v := s.env[vkey{it.C, ph}]
			k := it.id + ph.Name()
			if v == nil || !e.implied(s, e.tt.lt(e.tt.intc(0, nil), e.tt.length(v)), false) {
				x.bad[k] = "it is not empty when the loop begins"
			}
			delete(s.gt, "sel"+k)
		}
	}
	// the value of the list at the head of the loop
	back := e.H.LoopBack
	instr := e.H.Instr
	e.H.Instr = func(s *State, c *Ctx, in ssa.Instruction) {
		if instr != nil {
			instr(s, c, in)
		}
		b := in.Block()
		if e.flow(c.fn).loops[b] == nil {
			return
		}
		for _, y := range b.Instrs {
			if _, isPhi := y.(*ssa.Phi); isPhi {
				continue
			}
			if y != in {
				return
			}
			break
		}
		for _, ph := range lists(c, b) {
			if v := s.env[vkey{c, ph}]; v != nil {
				s.gt["sel"+loopID(c, b)+ph.Name()] = v
			}
		}
	}
	e.H.LoopBack = func(s *State, c *Ctx, h *ssa.BasicBlock) {
		if it := tr.iter(s, c, h); it != nil && it.Coll != nil {
			for _, ph := range lists(c, h) {
				k := it.id + ph.Name()
				old, now := s.gt["sel"+k], s.env[vkey{c, ph}]
				if x.bad[k] != "" {
					continue
				}
				if old == nil || now == nil || it.IsMap || it.Desc {
					x.bad[k] = "not over a list, in order"
					continue
				}
				x.n++
				w := x.want(s, it.Coll, it.Idx)
				switch {
				case e.equal(s, old, now):
					if w >= 0 {
						x.bad[k] = "an element which is wanted may be left out; " + e.path(s)
					}
				case now.Op == "append" && len(now.A) >= 2 && (now.A[0] == old && len(now.A) == 2 || old.Op == "append" && len(now.A) == len(old.A)+1 && now.A[0] == old.A[0]) || now.Op == "append" && old.Op == "nil" && len(now.A) == 2 && e.equal(s, now.A[0], old):
					if !e.equal(s, now.A[len(now.A)-1], e.elem(s, it.Coll, it.Idx)) {
						x.bad[k] = "what is appended may be something else; " + e.path(s)
					} else if w <= 0 {
						x.bad[k] = "an element which is not wanted may be taken; " + e.path(s)
					}
				default:
					x.bad[k] = "something else happens to it; " + e.path(s)
				}
			}
		}
		back(s, c, h)
	}
	out := e.H.LoopOut
	e.H.LoopOut = func(s *State, c *Ctx, h *ssa.BasicBlock) {
		it := tr.iter(s, c, h)
		if it != nil && it.Coll != nil && !it.IsMap && !it.Desc {
			st := tr.stat(it.id)
			done := !st.notFirst && !st.notNext && (tr.Full(s, it) || x.rest(s, it.Coll, it.Idx))
			for _, ph := range lists(c, h) {
				k := it.id + ph.Name()
				v := s.env[vkey{c, ph}]
				if v == nil || !done {
					if v != nil && x.bad[k] == "" {
						x.bad[k+" out"] = "the loop may be left too early; " + e.path(s)
					}
					continue
				}
				if x.bad[k] == "" {
					s.lits[e.tt.mk("selected", "", types.Typ[types.Bool], it.Coll, v)] = true
				}
			}
		}
		for k := range s.gt {
			if len(k) > 3 && k[:3] == "sel" {
				delete(s.gt, k)
			}
		}
		out(s, c, h)
	}
}

func (x *selection) done(s *State, coll, v *Term) bool {
	return s.lits[x.e.tt.mk("selected", "", types.Typ[types.Bool], coll, v)]
}

func (x *selection) why() string {
	w := ""
	for k, v := range x.bad {
		if w == "" || k+v < w {
			w = v
		}
	}
	return w
}

func (p *Prog) checkInterval(r *Report) {
	f := p.Method(types.NewPointer(p.RootType("Ledger")), p.Root.Pkg, "TransactionsInInterval")
	if !mustFn(r, f, "(*accounting.Ledger).TransactionsInInterval") {
		return
	}
	e := p.frozenEng()
	tt := e.tt
	args := e.Params(f)
	if len(args) != 3 {
		r.Bad("found", "TransactionsInInterval", p.Pos(f.Pos()), "not a method of two times")
		return
	}
	start, end := args[1], args[2]
	e.H.Store = func(s *State, c *Ctx, in ssa.Instruction, addr, v *Term, t types.Type) {
		if e.Frozen(addr) {
			e.giveUp("TransactionsInInterval writes to the ledger")
		}
	}
	e.H.After = func(s *State, c *Ctx, in ssa.CallInstruction, name string, args []*Term, res *Term) {
		if in.Common().IsInvoke() && res != nil {
			s.gt["conn"] = res
		}
	}
	sel := &selection{e: e}
	sel.want = func(s *State, coll, i *Term) int {
		t := e.timeAt(s, coll, i)
		if t == nil || !isTime(t.T) {
			return 0
		}
		a, b := tt.lt(t, start), tt.lt(end, t)
		switch {
		case e.implied(s, a, true) || e.implied(s, b, true):
			return -1
		case e.implied(s, a, false) && e.implied(s, b, false):
			return 1
		}
		return 0
	}
	sel.rest = func(s *State, coll, i *Term) bool {
		return e.isAfter(s, coll, i, end, true)
	}
	sel.hook()
	n := 0
	e.H.Return = func(s *State, c *Ctx, in ssa.Instruction, res []*Term) {
		if c.fn != f || c.parent != nil {
			return
		}
		if v := s.gt["conn"]; v != nil && e.equal(s, v, res[0]) {
			return // P23
		}
		n++
		list := e.fld(s, args[0], "Transactions")
		v := e.canon(s, res[0])
		ok, why := sel.done(s, list, v), sel.why()
		if !ok && e.noneFrom(s, list, tt.intc(0, nil)) && e.implied(s, tt.lt(tt.intc(0, nil), tt.length(v)), false) {
			ok = true
		}
		if !ok {
			if w := e.cut(s, list, v, start, end); w == "" {
				ok = true
			} else if why == "" {
				why = w
			}
		}
		if why == "" {
			why = "it is not made by going over the transactions, in order"
		}
		r.Add("interval", p.Fn(f), p.InstrPos(in), ok, "what is returned may not be exactly the transactions from the start to the end: %s; %s", why, e.path(s))
	}
	if p.runDecided(r, "interval", e, f, newState(), args) {
		r.Counts["iterations that select transactions"] = sel.n
		r.Expect("interval", 1)
	}
}

// cut: is v the part of the (chronologically ordered) list from the first
// element not before from (nil: the first one) to the last one not after to?
func (e *Eng) cut(s *State, list, v, from, to *Term) string {
	tt := e.tt
	lo, hi := tt.intc(0, nil), tt.length(list)
	if v.Op == "appendv" && e.implied(s, tt.lt(tt.intc(0, nil), tt.length(v.A[0])), false) {
		v = v.A[1]
	}
	if v.Op == "slice" && e.equal(s, v.A[0], list) {
		if v.A[1].Op != "none" {
			lo = v.A[1]
		}
		if v.A[2].Op != "none" {
			hi = v.A[2]
		}
	} else if !e.equal(s, v, list) {
		return "what is left is not a part of what there was"
	}
	v = tt.mk("slice", "", list.T, list, lo, hi)
	if w := e.droppedFrom(s, list, v, from); w != "" {
		return w
	}
	if w := e.droppedTo(s, list, v, to); w != "" {
		return w
	}
	if !e.keptFrom(s, list, v, from) {
		return "an element before the first date may be kept"
	}
	if !e.keptTo(s, list, v, to) {
		return "an element after the last date may be kept"
	}
	return ""
}

func checkP19(p *Prog, r *Report) {
	r.Expl = "Abstract interpretation with facts about neighbouring elements of lists in chronological order (P13): at every return of GetBalance the split whose balance is returned must be known not to be after the given time, and the next one, if any, to be after it; " +
		"TransactionsInInterval must go over all transactions in order, and append each exactly when it is known to be in the interval; "
	p.checkGetBalance(r)
	p.checkInterval(r)
	p.checkDateOptions(r)
}

// fieldSel: the alias class of a field of one of the library's types.
func fieldSel(t, f string) string { return t + "." + f }

// checkDateOptions: what the -b and -e options of the commands leave in the ledger.
func (p *Prog) checkDateOptions(r *Report) {
	type opts struct {
		fns  map[*ssa.Function]bool
		have map[string]bool
	}
	by := map[*ssa.Package]*opts{}
	for _, f := range p.Funcs {
		if f.Pkg == nil || p.IsLib(f) {
			continue
		}
		p.refsExt(f, func(in ssa.Instruction, name string, cc *ssa.CallCommon) {
			if n := flagName(name, cc); n == "b" || n == "e" {
				if by[f.Pkg] == nil {
					by[f.Pkg] = &opts{map[*ssa.Function]bool{}, map[string]bool{}}
				}
				by[f.Pkg].fns[f] = true
				by[f.Pkg].have[n] = true
			}
		})
	}
	r.Counts["commands with date options"] = len(by)
	if len(by) < 2 {
		r.Bad("found", "commands with -b and -e", "", "%d commands have the options -b and -e; the ledger and muscular commands should", len(by))
	}
	for _, f := range p.Funcs {
		o := by[f.Pkg]
		if o == nil || f.Parent() != nil || !takesLedger(p, f) {
			continue
		}
		// the function that has the ledger and from which the options are read
		reads := p.reach(f)
		lowest := false
		for g := range o.fns {
			if reads[g] {
				lowest = true
			}
		}
		for g := range p.callees1(f) {
			if takesLedger(p, g) && lowest {
				for h := range o.fns {
					if p.reach(g)[h] {
						lowest = false
					}
				}
			}
		}
		if lowest {
			p.checkCuts(r, f, o.have)
			o.have["done"] = true
		}
	}
	for pk, o := range by {
		if !o.have["done"] || !o.have["b"] || !o.have["e"] {
			r.Bad("found", pk.Pkg.Path()+" -b -e", "", "no function with a ledger that reads the options -b and -e")
		}
	}
}

// usesTime: does f handle values of type time.Time?
func usesTime(f *ssa.Function) bool {
	has := func(t types.Type) bool {
		if t == nil {
			return false
		}
		for {
			pt, ok := t.Underlying().(*types.Pointer)
			if !ok {
				return isTime(t)
			}
			t = pt.Elem()
		}
	}
	for _, x := range f.Params {
		if has(x.Type()) {
			return true
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && has(v.Type()) {
				return true
			}
		}
	}
	return false
}

func (p *Prog) callees1(f *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, g := range p.callees(f) {
		out[g] = true
	}
	return out
}

func takesLedger(p *Prog, f *ssa.Function) bool {
	for _, x := range f.Params {
		if isLedger(p, x.Type()) {
			return true
		}
	}
	return false
}

func isLedger(p *Prog, t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(pt.Elem()).(*types.Named)
	return ok && n.Obj() == p.RootType("Ledger").Obj()
}

// flagName: the option a call defines.
func flagName(name string, cc *ssa.CallCommon) string {
	if cc == nil {
		return ""
	}
	i := -1
	switch name {
	case "(*flag.FlagSet).StringVar":
		i = 2
	case "flag.StringVar", "(*flag.FlagSet).String":
		i = 1
	case "flag.String":
		i = 0
	}
	if i < 0 || i >= len(cc.Args) {
		return ""
	}
	if k, ok := cc.Args[i].(*ssa.Const); ok && k.Value != nil {
		return strings.Trim(k.Value.ExactString(), "\"")
	}
	return ""
}

// dateText: which texts of an option are completed, and with what.  The forms of
// dates GetDate knows may be separated by any of its separators.
var dateText = map[string]map[int]string{
	"b": {4: "-01-01-00-00-00", 7: "-01-00-00-00", 10: "-00-00-00"},
	"e": {4: "-12-31-23-59-59", 7: "-01-23-59-59", 10: "-23-59-59"},
}

func (p *Prog) checkCuts(r *Report, f *ssa.Function, have map[string]bool) {
	e := NewEng(p)
	e.coarse()
	e.Cap, e.LCap = 400, 1
	e.PhiRel = func(t types.Type) bool { return isBool(t) }
	e.Gen = genTimes
	e.Fold = true
	e.NonNil = e.usualNonNil
	tt := e.tt
	args, led := e.Params(f), 0
	for i, x := range f.Params {
		if isLedger(p, x.Type()) {
			led = i
		}
	}
	lists := map[string]bool{fieldSel("Ledger", "Transactions"): true, fieldSel("Account", "Splits"): true, fieldSel("Account", "StartBalance"): true}
	dateErr := map[*Term]bool{} // errors of GetDate
	e.Fact = func(t *Term) bool {
		for t.Op == "not" {
			t = t.A[0]
		}
		switch t.Op {
		case "lt":
			return true
		case "eq":
			return t.A[0].T == nil || !types.IsInterface(t.A[0].T) || dateErr[t.A[0]] || dateErr[t.A[1]]
		case "done":
			return true
		}
		return false
	}
	writes := func(g *ssa.Function) bool {
		for sel := range e.modset(g) {
			if lists[sel] {
				return true
			}
		}
		return false
	}
	dates := map[*ssa.Function]bool{}
	for g := range p.reach(f) {
		for h := range p.reach(g) {
			p.refsExt(h, func(in ssa.Instruction, name string, cc *ssa.CallCommon) {
				if flagName(name, cc) != "" {
					dates[g] = true
				}
			})
		}
	}
	// functions that never see a date cannot be what applies the limits
	noTime := func(g *ssa.Function) bool {
		for h := range p.reach(g) {
			if h.Pkg == f.Pkg && usesTime(h) {
				return false
			}
		}
		return len(dates) > 0 && !dates[g]
	}
	sink := func(g *ssa.Function) bool {
		return g.Pkg == f.Pkg && takesLedger(p, g) && !writes(g) && !dates[g]
	}
	e.H.Opaque = func(g *ssa.Function) bool {
		return g.Pkg != f.Pkg && !(g.Parent() != nil && g.Parent().Pkg == f.Pkg) || sink(g) || noTime(g)
	}
	// the options, and the dates they stand for
	cells := map[string]*Term{}
	e.H.After = func(s *State, c *Ctx, in ssa.CallInstruction, name string, args []*Term, res *Term) {
		if n := flagName(name, in.Common()); n == "b" || n == "e" {
			i := 1
			if strings.Contains(name, "FlagSet") {
				i = 1
			} else {
				i = 0
			}
			cell := res
			if strings.HasSuffix(name, "Var") {
				cell = args[i]
			}
			if cell != nil {
				if old := cells[n]; old != nil && old != cell {
					r.Bad("option", p.Fn(f)+" -"+n, p.InstrPos(in), "two places for the same option")
				}
				cells[n] = cell
			}
			return
		}
		g := in.Common().StaticCallee()
		if g != nil && g.Pkg == f.Pkg && noTime(g) && writes(g) {
			delete(s.gs, "kbt")
			delete(s.gs, "ket")
			s.gs["after"] = g.Name()
		}
		if strings.HasSuffix(name, ".Parse") && strings.Contains(name, "flag") {
			for _, cell := range cells {
				e.havocSel(s, selector(cell), c, in)
			}
			for n, cell := range cells {
				delete(s.mem, cell)
				s.gt["txt"+n] = e.Load(s, cell, deref(cell.T))
				s.mem[cell] = s.gt["txt"+n]
				s.gs["date"+n] = "?"
			}
			return
		}
		if g != nil && g.Name() == "GetDate" && p.IsLib(g) && len(args) == 1 && res != nil {
			if res.Op == "tuple" {
				dateErr[res.A[1]] = true
			}
			for _, n := range []string{"b", "e"} {
				txt := s.gt["txt"+n]
				if txt == nil {
					continue
				}
				parts := textParts(args[0])
				if len(parts) == 0 || !e.equal(s, parts[0], txt) {
					continue
				}
				suffix := ""
				for _, x := range parts[1:] {
					v, isC := x.strVal()
					if !isC {
						v = "?"
					}
					suffix += v
				}
				for _, c := range "/_:." {
					suffix = strings.ReplaceAll(suffix, string(c), "-")
				}
				how := "x" // complete
				for k, want := range dateText[n] {
					is := e.tt.eq(tt.length(txt), tt.intc(int64(k), nil))
					switch {
					case e.implied(s, is, true):
						how = "ok"
						if n == "e" && k == 7 {
							how = "7"
						}
						if suffix != want {
							how = fmt.Sprintf("!a date of %d characters is completed with %q", k, suffix)
						}
					case e.implied(s, is, false):
					default:
						how = "!a date which may be incomplete is not told from the others"
					}
				}
				if how == "x" && suffix != "" {
					how = "!a complete date is changed"
				} else if how == "x" {
					how = "ok"
				}
				s.gs["date"+n] = how
				if res.Op == "tuple" {
					s.gt["when"+n] = res.A[0]
				} else {
					s.gt["when"+n] = tt.mk("extract", "0", p.typeOfTime(), res)
				}
				return
			}
		}
		if name == "(time.Time).AddDate" && res != nil && len(args) == 4 {
			if w := s.gt["whene"]; w != nil && s.gs["datee"] == "7" && e.equal(s, w, args[0]) {
				var k [3]int64
				for i := range k {
					k[i], _ = args[i+1].intVal()
				}
				if k == [3]int64{0, 1, -1} {
					s.gs["datee"] = "7m"
				} else {
					s.gs["datee"] = fmt.Sprintf("!the last date is moved by %v", k)
				}
				s.gt["whene"] = res
			}
		}
	}
	tr := e.Track()
	e.firstLater()
	set := func(s *State, n string) *Term {
		// is the option given? then its date
		if s.gs["date"+n] == "?" || s.gs["date"+n] == "" {
			return nil
		}
		return s.gt["when"+n]
	}
	unset := func(s *State, n string) bool {
		txt := s.gt["txt"+n]
		return txt != nil && e.implied(s, tt.eq(tt.length(txt), tt.intc(0, nil)), true)
	}
	// The state of the cuts is noted while the loop that did them is fresh:
	// the ghost "k"+option+object says that nothing out of the limit is kept.
	dropBad := map[string]string{}
	unsliced := func(x *Term) *Term {
		if x.Op == "slice" {
			x = x.A[0]
		}
		return x
	}
	note := func(s *State, id string, list *Term) {
		for _, o := range []string{"b", "e"} {
			w := set(s, o)
			if w == nil || s.gs["k"+o+id] == "ok" {
				continue
			}
			if o == "b" && e.keptFrom(s, unsliced(list), list, w) || o == "e" && e.keptTo(s, unsliced(list), list, w) {
				s.gs["k"+o+id] = "ok"
			}
		}
	}
	isAcc := func(t types.Type) bool { return t != nil && strings.HasSuffix(t.String(), "accounting.Account") }
	accIter := func(s *State, f func(id string, el *Term)) {
		for k, idx := range s.gt {
			if !strings.HasPrefix(k, "i@") {
				continue
			}
			id := k[2:]
			var coll *Term
			if d := s.gt["d@"+id]; d != nil {
				coll = d
			} else if n := s.gt["n@"+id]; n != nil && n.Op == "len" {
				coll = n.A[0]
			}
			if coll == nil || coll.T == nil {
				continue
			}
			if sl, ok := coll.T.Underlying().(*types.Slice); ok && isAcc(sl.Elem()) {
				f(id, e.elem(s, coll, idx))
			}
		}
	}
	noteAll := func(s *State) {
		if set(s, "b") == nil && set(s, "e") == nil {
			return
		}
		note(s, "t", e.fld(s, args[led], "Transactions"))
		accIter(s, func(id string, el *Term) { note(s, id, e.fld(s, el, "Splits")) })
	}
	br, lin, lout := e.H.Branch, e.H.LoopIn, e.H.LoopOut
	e.H.Branch = func(s *State, c *Ctx, in ssa.Instruction, ls []lit) {
		if br != nil {
			br(s, c, in, ls)
		}
		id := loopID(c, in.Block())
		if s.gt["i@"+id] != nil {
			for k := range s.gs {
				if k == "kb"+id || k == "ke"+id || k == "sb"+id {
					delete(s.gs, k)
				}
			}
		}
	}
	e.H.LoopIn = func(s *State, c *Ctx, h *ssa.BasicBlock) {
		noteAll(s)
		if lin != nil {
			lin(s, c, h)
		}
	}
	e.H.LoopOut = func(s *State, c *Ctx, h *ssa.BasicBlock) {
		noteAll(s)
		if lout != nil {
			lout(s, c, h)
		}
	}
	e.H.Store = func(s *State, c *Ctx, in ssa.Instruction, addr, v *Term, t types.Type) {
		sel := selector(addr)
		if sel != fieldSel("Ledger", "Transactions") && sel != fieldSel("Account", "Splits") {
			return
		}
		old := e.Load(s, addr, t)
		ids := []string{"t"}
		if sel != fieldSel("Ledger", "Transactions") {
			ids = nil
			accIter(s, func(id string, el *Term) {
				if e.equal(s, el, addr.A[0]) {
					ids = append(ids, id)
				}
			})
		}
		if e.equal(s, v, old) {
			return
		}
		if v.Op != "slice" || !e.equal(s, v.A[0], old) {
			for _, id := range ids {
				delete(s.gs, "kb"+id)
				delete(s.gs, "ke"+id)
			}
			return
		}
		for _, id := range ids {
			note(s, id, v)
		}
		wb, we := set(s, "b"), set(s, "e")
		if v.A[1].Op != "none" {
			why := ""
			if wb == nil {
				why = "entries are dropped from the beginning although -b is not given"
			} else if why = e.droppedFrom(s, old, v, wb); why == "" && sel == fieldSel("Account", "Splits") {
				// the starting balance, set before or after
				s.gt["sbal"] = e.fld(s, e.elem(s, old, tt.addc(v.A[1], -1)), "Balance")
				s.gt["sacc"] = addr
			}
			if why != "" && dropBad["b"+sel] == "" {
				dropBad["b"+sel] = p.InstrPos(in) + ": " + why + "; " + e.path(s)
			}
		}
		if v.A[2].Op != "none" {
			why := ""
			if we == nil {
				why = "entries are dropped from the end although -e is not given"
			} else {
				why = e.droppedTo(s, old, v, we)
			}
			if why != "" && dropBad["e"+sel] == "" {
				dropBad["e"+sel] = p.InstrPos(in) + ": " + why + "; " + e.path(s)
			}
		}
	}
	startOK := func(s *State, el *Term) bool {
		want := s.gt["sbal"]
		return want == nil || e.equal(s, e.fld(s, el, "StartBalance"), want)
	}
	tr.Back = func(s *State, it *Iter) map[string]string {
		if it.IsMap || it.Coll == nil || it.Coll.T == nil {
			return nil
		}
		el := e.elem(s, it.Coll, it.Idx)
		if !isAcc(el.T) {
			return nil
		}
		noteAll(s)
		out := map[string]string{}
		for _, o := range []string{"b", "e"} {
			if set(s, o) == nil {
				if unset(s, o) {
					out[o] = ""
				}
				continue
			}
			out[o] = ""
			if s.gs["k"+o+it.id] != "ok" {
				out[o] = map[string]string{"b": "an element before the first date may be kept", "e": "an element after the last date may be kept"}[o]
			} else if o == "b" && !startOK(s, el) {
				out[o] = "the starting balance is not the balance before the first date"
			}
		}
		delete(s.gt, "sbal")
		delete(s.gt, "sacc")
		return out
	}
	bads := map[string]string{}
	n := 0
	checkNow := func(s *State, c *Ctx, in ssa.Instruction, led *Term, where string) {
		n++
		accs := e.fld(s, led, "Accounts")
		noteAll(s)
		for _, o := range []string{"b", "e"} {
			k := p.Fn(f) + " -" + o
			if _, has := bads[k]; !has {
				bads[k] = ""
			}
			bad := func(format string, a ...interface{}) {
				if bads[k] == "" {
					bads[k] = p.InstrPos(in) + ": " + fmt.Sprintf(format, a...) + "; " + e.path(s)
				}
			}
			how := s.gs["date"+o]
			if unset(s, o) {
				continue
			}
			w := set(s, o)
			switch {
			case w == nil:
				bad("the option is given, but its date is not looked at")
				continue
			case how[0] == '!':
				bad("%s", how[1:])
				continue
			case how == "7" && o == "e":
				bad("the last month ends on its first day")
				continue
			}
			if s.gs["k"+o+"t"] != "ok" {
				bad("transactions: one %s may be kept", map[string]string{"b": "before the first date", "e": "after the last date"}[o])
			}
			if !tr.Done(s, o, accs) {
				why := tr.Why(o, accs)
				if why == "" {
					why = "not done for every account"
				}
				bad("splits of accounts: %s", why)
			}
		}
		s.gs["checked"] = "y"
	}
	ledOf := func(args []*Term) *Term {
		for _, a := range args {
			if a.T != nil && isLedger(p, a.T) {
				return a
			}
		}
		return nil
	}
	e.H.Call = func(s *State, c *Ctx, in ssa.CallInstruction, name string, args []*Term) (*Term, bool) {
		if endsProcess(name) != "" && !strings.Contains(name, "flag") {
			s.dead = true
			return nil, true
		}
		g := in.Common().StaticCallee()
		if _, isB := in.Common().Value.(*ssa.Builtin); isB {
			return nil, false
		}
		if g == nil && !in.Common().IsInvoke() || g != nil && sink(g) {
			if led := ledOf(args); led != nil {
				checkNow(s, c, in, led, "")
			}
		}
		return nil, false
	}
	e.H.Return = func(s *State, c *Ctx, in ssa.Instruction, res []*Term) {
		if c.fn == f && c.parent == nil && s.gs["checked"] == "" {
			checkNow(s, c, in, ledOf(args), "")
		}
	}
	if !p.runDecided(r, "date-options", e, f, newState(), args) {
		return
	}
	var ks []string
	for k := range bads {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r.Add("date-options", k, p.Pos(f.Pos()), bads[k] == "", "%s", bads[k])
	}
	for _, o := range []string{"b", "e"} {
		for _, sel := range []string{fieldSel("Ledger", "Transactions"), fieldSel("Account", "Splits")} {
			k := o + sel
			r.Add("date-options", p.Fn(f)+" -"+o+" "+sel, p.Pos(f.Pos()), dropBad[k] == "", "%s", dropBad[k])
		}
	}
	if len(ks) < 2 {
		r.Bad("date-options", p.Fn(f), p.Pos(f.Pos()), "never runs a command")
	}
	r.Counts["states in which a command runs"] += n
}

func (p *Prog) typeOfTime() types.Type {
	st := structOf(p.RootType("Price").Underlying())
	return st.Field(fieldIndex(st, "Time")).Type()
}

// textParts: the texts that x is made of.
func textParts(x *Term) []*Term {
	if x.Op == "bin" && x.S == "+" && isStr(x.T) {
		return append(textParts(x.A[0]), textParts(x.A[1])...)
	}
	return []*Term{x}
}

// ends: the limits of the sub-slice v of a list, list itself included.
func (e *Eng) ends(list, v *Term) (lo, hi *Term) {
	lo, hi = e.tt.intc(0, nil), e.tt.length(list)
	for v.Op == "slice" {
		if v.A[1].Op != "none" {
			lo = v.A[1]
		}
		if v.A[2].Op != "none" {
			hi = v.A[2]
		}
		break
	}
	return
}

// keptFrom: nothing before from is in v.
func (e *Eng) keptFrom(s *State, list, v, from *Term) bool {
	lo, hi := e.ends(list, v)
	return e.implied(s, e.tt.lt(lo, hi), false) || e.isBefore(s, list, lo, from, false)
}

func (e *Eng) keptTo(s *State, list, v, to *Term) bool {
	lo, hi := e.ends(list, v)
	return e.implied(s, e.tt.lt(lo, hi), false) || e.isAfter(s, list, e.tt.addc(hi, -1), to, false)
}

// droppedFrom: nothing at or after from is dropped at the beginning.
func (e *Eng) droppedFrom(s *State, list, v, from *Term) string {
	lo, _ := e.ends(list, v)
	if !e.implied(s, e.tt.lt(e.tt.intc(0, nil), lo), false) && !e.isBefore(s, list, e.tt.addc(lo, -1), from, true) {
		return "an element which is not before the first date may be dropped"
	}
	return ""
}

func (e *Eng) droppedTo(s *State, list, v, to *Term) string {
	_, hi := e.ends(list, v)
	if !e.implied(s, e.tt.lt(hi, e.tt.length(list)), false) && !e.isAfter(s, list, hi, to, true) {
		return "an element which is not after the last date may be dropped"
	}
	return ""
}
