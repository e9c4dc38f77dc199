package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P15", "other", checkP15)
	register("P16", "other", checkP16)
}

// runs decides how Fill computes the balances of the splits.
type runs struct {
	*filling
	rule     string // what is decided of each split: "running" or "asserted"
	amt      *phiTerm
	badWrite map[string]string // counters
	counters map[string]bool
	bad      func(rule string, in ssa.Instruction, s *State, why string)
	why      map[string]string
}

// entering: index and list of a loop that is being entered.
func (x *runs) entering(s *State, it *Iter) (idx, coll *Term) {
	n, b := x.tr.next2(s, it.C, it.Head)
	if n == nil || b == nil || b.Op != "len" {
		return n, nil
	}
	return n, b.A[0]
}

func (x *runs) account(s *State, coll *Term) *Term {
	if !x.listOf(coll, x.spl) {
		return nil
	}
	if a := owner(coll, "Account.Splits"); a != nil {
		return a
	}
	if tr := x.transfer(s); x.e.equal(s, coll, x.e.fld(s, tr, "Splits")) {
		return tr
	}
	return nil
}

func (x *runs) balance(t *Term) bool { return t.Op == "badd" || x.listOf(t, x.val) }

func (x *runs) isAccounts(s *State, coll *Term) bool {
	l := x.e.fld(s, x.led, "Accounts")
	return coll != nil && coll.T != nil && types.Identical(coll.T, l.T) && x.e.equal(s, coll, l)
}

func (x *runs) transfer(s *State) *Term { return x.e.fld(s, x.led, "transferAccount") }

// cellNames: -1 stands for the Balance of the split before.
func (x *runs) held(i int) string {
	if i < 0 {
		return "run|prev"
	}
	return fmt.Sprintf("run|%d", i)
}

// counted: does idx, for the splits of account a, come from a counter of its own?
func (x *runs) counted(s *State, idx, a *Term) bool {
	e := x.e
	if e.implied(s, e.tt.eq(idx, e.tt.intc(0, nil)), true) {
		return true
	}
	var m, k *Term
	switch {
	case idx.Op == "lookup":
		m, k = idx.A[0], idx.A[1]
	case idx.Op == "load" && idx.A[0].Op == "ia":
		m, k = idx.A[0].A[0], idx.A[0].A[1]
	}
	if m == nil {
		return false
	}
	if !s.local(m) {
		return false
	}
	accs := e.fld(s, x.led, "Accounts")
	if !e.equal(s, k, a) && !(isInt(k.T) && e.equal(s, e.elem(s, accs, k), a)) {
		return false
	}
	x.counters[m.key] = true
	return true
}

// local: was the map or list made in the function?
func (s *State) local(m *Term) bool {
	return m.Op == "sym" && (strings.HasPrefix(m.S, "make/") || strings.HasPrefix(m.S, "alloc/")) || allocTerm(rootOf(m))
}

// counterWrite: a counter goes up by one for the split at hand.
func (x *runs) counterWrite(s *State, c *Ctx, in ssa.Instruction, m, old, v *Term) {
	e := x.e
	if !isInt(v.T) || !s.local(m) {
		return
	}
	ok := false
	for cc, i := c, in; cc != nil; {
		for h, l := range e.flow(cc.fn).loops {
			id := loopID(cc, h)
			idx := s.gt["i@"+id]
			if l.blocks[i.Block()] && idx != nil && e.equal(s, idx, old) && e.equal(s, v, e.tt.addc(idx, 1)) {
				n := s.gt["n@"+id]
				ok = ok || n != nil && n.Op == "len" && x.account(s, n.A[0]) != nil
			}
		}
		i, cc = cc.call, cc.parent
	}
	if n, isC := v.intVal(); isC && n == 0 && s.gs["work"] == "" && s.gs["begun"] != "2" {
		return
	}
	if !ok && x.badWrite[m.key] == "" {
		x.badWrite[m.key] = x.p.InstrPos(in)
	}
}

func (x *runs) init() {
	e, tr, tt := x.e, x.tr, x.e.tt
	x.badWrite, x.counters, x.why = map[string]string{}, map[string]bool{}, map[string]string{}
	x.amt = e.sameAsPhi("amt")
	x.amt.cells = true
	x.heads()
	br := e.H.Branch
	e.H.Branch = func(s *State, c *Ctx, in ssa.Instruction, ls []lit) {
		if br != nil {
			br(s, c, in, ls)
		}
		if x.rule == "asserted" {
			for _, l := range ls {
				if l.t.Op != "eq" || !l.pos {
					continue
				}
				for i := range l.t.A {
					// an entry of a balance is that of the currency of the assertion
					if bal, idx := x.entry(l.t.A[i]); bal != nil && x.ofAssertion(s, c, in, l.t.A[1-i]) {
						s.gs["amt"] = "1"
						x.amt.set(s, x.field(e.Load(s, tt.indexAddr(bal, idx, x.val), x.val), "Amount"))
						s.gt["amtof"] = bal
					}
				}
			}
		}
		h := in.Block()
		if e.flow(c.fn).loops[h] == nil {
			return
		}
		id := loopID(c, h)
		idx, n := s.gt["i@"+id], s.gt["n@"+id]
		if idx == nil || n == nil || n.Op != "len" || x.account(s, n.A[0]) == nil {
			return
		}
		if e.implied(s, tt.lt(idx, n), true) && !(s.gs["accs"] != "" && e.equal(s, x.account(s, n.A[0]), x.transfer(s))) {
			s.gs["work"] = "1"
			delete(s.gs, "accs")
		}
	}
	in, back := tr.In, tr.Back
	tr.In = func(s *State, it *Iter) {
		if in != nil {
			in(s, it)
		}
		if e.LCap = 1; s.gs["accs"] != "" {
			e.LCap = 4
		}
		id := loopID(it.C, it.Head)
		x.scan(s, it.C)
		idx, coll := x.entering(s, it)
		for k := range s.gs {
			if strings.HasSuffix(k, "@"+id) && strings.HasPrefix(k, "st") {
				delete(s.gs, k)
			}
		}
		delete(s.gs, "ctr@"+id)
		switch {
		case coll == nil || idx == nil:
		case x.balance(coll):
			if x.rule != "asserted" {
				break
			}
			x.forget(s)
		case x.isAccounts(s, coll):
			for _, k := range []string{"work", "complete"} {
				delete(s.gs, k)
			}
			delete(s.gt, "complete")
			tr.Unmark(s, "acc")
		case x.account(s, coll) != nil:
			first := e.implied(s, tt.lt(tt.intc(0, nil), idx), false)
			var prev *Term
			if !first {
				prev = e.fld(s, e.elem(s, coll, tt.addc(idx, -1)), "Balance")
			}
			for i, a := range x.cells {
				b := e.Load(s, a, x.bal)
				if first && e.zeroLen(s, b) || prev != nil && x.sameSum(s, b, prev) {
					s.gs[fmt.Sprintf("st%d@%s", i, id)] = "1"
				}
			}
			if x.counted(s, idx, x.account(s, coll)) {
				s.gs["ctr@"+id] = "1"
			}
		}
	}
	lb := e.H.LoopBack
	e.H.LoopBack = func(s *State, c *Ctx, h *ssa.BasicBlock) {
		if lb != nil {
			lb(s, c, h)
		}
		x.amt.head(s, c, h)
	}
	tr.Back = func(s *State, it *Iter) map[string]string {
		var tags map[string]string
		if back != nil {
			tags = back(s, it)
		}
		if it.IsMap || it.Coll == nil {
			return tags
		}
		if tags == nil {
			tags = map[string]string{}
		}
		switch {
		case x.balance(it.Coll):
			if x.rule != "asserted" {
				break
			}
			if cur := x.field(e.Load(s, tt.indexAddr(it.Coll, it.Idx, x.val), x.val), "Currency"); s.gs["amt"] != "" && e.equal(s, s.gt["amtof"], it.Coll) {
				tags["cur"] = ""
			} else if want := x.wanted(s, it.C, it.Head.Instrs[0]); want != nil && e.implied(s, tt.eq(cur, want), false) {
				tags["cur"] = ""
			} else {
				tags["cur"] = "an entry of the balance is not compared with the assertion: " + e.path(s)
			}
		case x.isAccounts(s, it.Coll):
			why := ""
			if s.gs["work"] == "" && !(s.gs["complete"] != "" && e.equal(s, s.gt["complete"], e.elem(s, it.Coll, it.Idx))) {
				why = "not all splits of an account are handled: " + e.path(s)
			}
			tags["acc"] = why
			delete(s.gs, "complete")
			delete(s.gt, "complete")
		case x.account(s, it.Coll) != nil:
			x.handled(s, it, tags)
		}
		return tags
	}
	out := tr.Out
	tr.Out = func(s *State, it *Iter) {
		if out != nil {
			out(s, it)
		}
		switch {
		case it.IsMap || it.Coll == nil:
		case x.balance(it.Coll):
			if x.rule == "asserted" && s.gs["amt"] == "" && tr.Done(s, "cur", it.Coll) {
				s.gs["amt"] = "1"
				x.amt.set(s, tt.intc(0, types.Typ[types.Int64]))
				s.gt["amtof"] = it.Coll
			}
		case x.isAccounts(s, it.Coll):
			if s.gs["accs"] != "" {
				break
			}
			if s.gs["work"] == "" && (tr.Done(s, "acc", it.Coll) || e.zeroLen(s, it.Coll)) {
				s.gs["accs"] = "1"
				delete(s.gs, "complete")
				delete(s.gt, "complete")
				s.gs["begun"] = "2"
			} else if w := tr.Why("acc", it.Coll); w != "" {
				x.why["acc"] = w
			}
		}
	}
	lo := e.H.LoopOut
	e.H.LoopOut = func(s *State, c *Ctx, h *ssa.BasicBlock) {
		it := tr.iter(s, c, h)
		if it != nil && it.Coll != nil && x.account(s, it.Coll) != nil && !it.IsMap && !it.Desc {
			x.left(s, it)
		}
		if it != nil && it.Coll != nil && x.account(s, it.Coll) != nil {
			x.forget(s)
		}
		if it != nil && it.Coll != nil && x.balance(it.Coll) {
			x.amt.set(s, x.amt.get(s)) // the variable may not live longer
		}
		id := loopID(c, h)
		delete(s.gs, "ctr@"+id)
		for i := range x.cells {
			delete(s.gs, fmt.Sprintf("st%d@%s", i, id))
			delete(s.gt, fmt.Sprintf("b%d@%s", i, id))
		}
		if lo != nil {
			lo(s, c, h)
		}
	}
}

// entry: is t the currency of an entry of a balance?
func (x *runs) entry(t *Term) (bal, idx *Term) {
	var a *Term
	switch {
	case t.Op == "load" && t.A[0].Op == "fa" && shortField(t.A[0].S) == "Value.Currency":
		a = t.A[0].A[0]
	case t.Op == "field" && t.A[0].Op == "load" && t.A[0].T != nil && types.Identical(t.A[0].T, x.val) && t == x.field(t.A[0], "Currency"):
		a = t.A[0].A[0]
	default:
		return nil, nil
	}
	if a.Op != "ia" || !x.balance(a.A[0]) {
		return nil, nil
	}
	return a.A[0], a.A[1]
}

// wanted: the currency of the assertion of the split that is being handled.
func (x *runs) wanted(s *State, c *Ctx, in ssa.Instruction) *Term {
	e := x.e
	for _, sp := range running(e, s, c, in, func(coll *Term) bool { return x.account(s, coll) != nil }) {
		as := e.fld(s, x.led, "Assertions")
		a, _ := e.lookup(s, as, sp, as.T)
		return x.field(a, "Currency")
	}
	return nil
}

func (x *runs) ofAssertion(s *State, c *Ctx, in ssa.Instruction, t *Term) bool {
	w := x.wanted(s, c, in)
	return w != nil && x.e.equal(s, w, t)
}

func (x *runs) forget(s *State) {
	delete(s.gs, "amt")
	x.amt.set(s, nil)
	delete(s.gt, "amtof")
}

// handled: the end of an iteration of a loop over the splits of an account.
func (x *runs) handled(s *State, it *Iter, tags map[string]string) {
	e, tt := x.e, x.e.tt
	id := loopID(it.C, it.Head)
	sp := e.elem(s, it.Coll, it.Idx)
	bal, val := e.fld(s, sp, "Balance"), e.fld(s, sp, "Value")
	as := e.fld(s, x.led, "Assertions")
	a, _ := e.lookup(s, as, sp, as.T)
	none := e.implied(s, tt.eq(a, tt.zero(x.val)), true)
	some := e.implied(s, tt.eq(a, tt.zero(x.val)), false)
	// the amount will not change later
	known := e.implied(s, tt.eq(val, tt.zero(x.val)), false) || e.notNil(s, x.currency(s, val)) ||
		some && e.equal(s, x.currency(s, val), x.field(a, "Currency")) || e.equal(s, x.account(s, it.Coll), x.transfer(s))
	path := ": " + e.path(s)
	if !known {
		tags["known"] = "the balance after a split is computed before its amount is known" + path
	} else {
		tags["known"] = ""
	}
	if x.rule == "running" {
		for i := -1; i < len(x.cells); i++ {
			var b0 *Term
			why := ""
			if i < 0 {
				if e.implied(s, tt.lt(tt.intc(0, nil), it.Idx), true) {
					b0 = e.fld(s, e.elem(s, it.Coll, tt.addc(it.Idx, -1)), "Balance")
				} else if e.implied(s, tt.lt(tt.intc(0, nil), it.Idx), false) {
					b0 = tt.nilc(x.bal)
				}
			} else if b0 = s.gt[fmt.Sprintf("b%d@%s", i, id)]; b0 == nil {
				continue // in a later pass
			}
			switch {
			case b0 == nil:
				why = "the balance is not that of the split before plus its value" + path
			case !x.sameSum(s, bal, tt.badd(b0, val)):
				why = "the balance of a split is not the one before plus its value" + path
			case i >= 0 && !x.sameSum(s, e.Load(s, x.cells[i], x.bal), bal):
				why = "the balance that is carried on is not that of the split" + path
			}
			tags[x.held(i)] = why
		}
		return
	}
	why := ""
	cur := x.field(a, "Currency")
	switch {
	case none || e.equal(s, x.account(s, it.Coll), x.transfer(s)):
	case s.gs["amt"] == "" || s.gt["amtof"] == nil:
		why = "what the balance has of the asserted currency is not looked at"
	default:
		amt := x.amt.get(s)
		base, vs := x.parts(s, bal)
		base2, vs2 := x.parts(s, s.gt["amtof"])
		if !e.equal(s, base, base2) {
			why = "it is another balance that is compared with the assertion"
			break
		}
		for _, v := range vs {
			found := false
			for j, w := range vs2 {
				if w != nil && x.sameValue(s, v, w) {
					vs2[j], found = nil, true
					break
				}
			}
			if found {
				continue
			}
			if !e.equal(s, x.currency(s, v), cur) {
				why = "something else is added to the balance"
				break
			}
			amt = x.plus(amt, x.field(v, "Amount"))
		}
		for _, w := range vs2 {
			if w != nil {
				why = "the amount is not added to the balance"
			}
		}
		if want := x.field(a, "Amount"); why == "" && (amt == nil || !e.equal(s, amt, want)) {
			why = "the balance may hold another amount than the asserted one"
		}
	}
	if why != "" {
		why += path
	}
	tags["asserted"] = why
	x.forget(s)
}

// left: the loop over the splits of an account is left.
func (x *runs) left(s *State, it *Iter) {
	e, tr := x.e, x.tr
	if !e.implied(s, e.tt.lt(it.Idx, it.Len), false) {
		return
	}
	st := tr.stat(it.id)
	id := loopID(it.C, it.Head)
	all := func(tag string) bool {
		k := s.gs["tp"+it.id] + it.Coll.key
		if st.bad[k+"|"+tag] != "" {
			if x.why[tag] == "" || len(st.bad[k+"|"+tag]) < len(x.why[tag]) {
				x.why[tag] = st.bad[k+"|"+tag]
			}
			return false
		}
		return st.oks[k][tag] > 0 || st.backs[k] == 0
	}
	ok := !st.notNext && s.gs["ctr@"+id] != "" && all("known")
	if st.notNext {
		x.why["step"] = "the splits of an account are not gone through one by one"
	} else if s.gs["ctr@"+id] == "" {
		x.why["step"] = "it is not known that the loop over the splits of an account goes on where it was left: " + e.path(s)
	}
	if x.rule == "running" {
		any := all(x.held(-1))
		for i := range x.cells {
			any = any || s.gs[fmt.Sprintf("st%d@%s", i, id)] != "" && all(x.held(i))
		}
		ok = ok && any
	} else {
		ok = ok && all("asserted")
	}
	if !ok {
		return
	}
	a := x.account(s, it.Coll)
	s.gs["complete"], s.gt["complete"] = "1", a
	if e.equal(s, a, x.transfer(s)) {
		s.gs["transfer"] = "1"
	}
}

func (x *filling) plus(a, b *Term) *Term {
	if a == nil || b == nil {
		return nil
	}
	return x.e.tt.bin(token.ADD, a, b, types.Typ[types.Int64])
}

// collected decides that each split of each transaction is added to its account.
func (x *runs) collected() {
	e, tr := x.e, x.tr
	in, back, out := tr.In, tr.Back, tr.Out
	clear := func(s *State) {
		delete(s.gs, "col")
		delete(s.gt, "col")
	}
	tr.In = func(s *State, it *Iter) {
		clear(s)
		if in != nil {
			in(s, it)
		}
	}
	tr.Back = func(s *State, it *Iter) map[string]string {
		var tags map[string]string
		if back != nil {
			tags = back(s, it)
		}
		if it.IsMap || it.Coll == nil || s.gs["collected"] != "" {
			clear(s)
			return tags
		}
		if tags == nil {
			tags = map[string]string{}
		}
		switch {
		case x.listOf(it.Coll, x.spl) && owner(it.Coll, "Transaction.Splits") != nil:
			sp, tx := e.elem(s, it.Coll, it.Idx), owner(it.Coll, "Transaction.Splits")
			why := ""
			switch {
			case s.gs["col"] == "":
				why = "a split is not added to the splits of its account"
			case s.gs["col"] != "1":
				why = "a split is added more than once"
			case !e.equal(s, s.gt["col"], sp):
				why = "another split is added"
			case !e.equal(s, e.fld(s, sp, "Transaction"), tx):
				why = "a split does not know its transaction"
			case !e.notNil(s, e.fld(s, sp, "Time")):
				why = "a split may have no time"
			}
			if why != "" {
				why += ": " + e.path(s)
			}
			tags["col"] = why
		case owner(it.Coll, "Ledger.Transactions") != nil:
			tx := e.elem(s, it.Coll, it.Idx)
			if tr.Done(s, "col", e.fld(s, tx, "Splits")) {
				tags["cols"] = ""
			} else {
				tags["cols"] = "not all splits of a transaction are known to be added to their accounts: " + tr.Why("col", e.fld(s, tx, "Splits"))
			}
		case x.isAccounts(s, it.Coll):
			if e.zeroLen(s, e.fld(s, e.elem(s, it.Coll, it.Idx), "Splits")) {
				tags["emptied"] = ""
			} else {
				tags["emptied"] = "the splits an account had are kept: " + e.path(s)
			}
		}
		clear(s)
		return tags
	}
	tr.Out = func(s *State, it *Iter) {
		if out != nil {
			out(s, it)
		}
		if it.IsMap || it.Coll == nil {
			return
		}
		if x.isAccounts(s, it.Coll) && tr.Done(s, "emptied", it.Coll) && s.gs["collecting"] == "" {
			s.gs["emptied"] = "1"
		}
		if owner(it.Coll, "Ledger.Transactions") == nil || s.gs["collected"] != "" {
			return
		}
		if tr.Done(s, "cols", it.Coll) && s.gs["emptied"] != "" {
			s.gs["collected"], s.gs["begun"] = "1", "1"
			delete(s.gs, "emptied")
			delete(s.gs, "collecting")
		} else if w := tr.Why("cols", it.Coll); w != "" && s.gs["collecting"] != "" {
			x.why["cols"] = w
		}
	}
}

// stores decides that nothing else changes what has been computed.
func (x *runs) stores() {
	e, r, p := x.e, x.r, x.p
	ok := func(rule string, in ssa.Instruction) {
		r.OK(rule, p.Fn(in.Parent())+" "+p.InstrPos(in), p.InstrPos(in))
	}
	undone := func(s *State, a *Term) {
		if e.implied(s, e.tt.eq(a, x.transfer(s)), true) {
			delete(s.gs, "transfer")
		}
	}
	e.H.Store = func(s *State, c *Ctx, in ssa.Instruction, addr, v *Term, t types.Type) {
		x.cell(addr, t)
		if addr.Op == "ia" && isInt(t) {
			x.counterWrite(s, c, in, addr.A[0], e.Load(s, addr, t), v)
			return
		}
		if addr.Op != "fa" || allocTerm(rootOf(addr)) && shortField(addr.S) != "Account.Splits" {
			return
		}
		sp, name := addr.A[0], shortField(addr.S)
		if strings.HasPrefix(name, "Value.") && sp.Op == "fa" {
			name, sp = shortField(sp.S), sp.A[0]
		}
		switch name {
		case "Account.Splits":
			old := e.Load(s, addr, t)
			els, added := e.addedTo(s, v, old)
			switch {
			case s.gs["collected"] == "" && e.zeroLen(s, v):
				if s.gs["collecting"] != "" {
					x.bad("kept", in, s, "the splits of an account are forgotten")
				}
			case allocTerm(sp) && s.nonEscapedAlloc(sp):
			case s.gs["collected"] == "":
				s.gs["collecting"] = "1"
				if s.gs["emptied"] == "" {
					x.bad("collected", in, s, "splits are added before the old ones are forgotten")
				}
				if !added || len(els) != 1 || !e.equal(s, e.fld(s, els[0], "Account"), sp) {
					x.bad("collected", in, s, "something other than adding a split to the splits of its account")
					return
				}
				if s.gs["col"] != "" {
					s.gs["col"] = "2"
				} else {
					s.gs["col"], s.gt["col"] = "1", els[0]
				}
				ok("collected", in)
			default:
				why := ""
				for _, el := range els {
					if !allocTerm(el) || !e.equal(s, e.fld(s, el, "Account"), sp) {
						why = "a split is added to another account"
					}
				}
				if !added || !e.equal(s, sp, x.transfer(s)) {
					why = "the splits of an account change after their balances are computed"
				}
				undone(s, x.transfer(s))
				if why != "" {
					x.bad("kept", in, s, why)
				} else {
					ok("kept", in)
				}
			}
		case "Transaction.Splits":
			if s.gs["begun"] != "" {
				if s.gs["accs"] == "" {
					x.bad("kept", in, s, "the splits of a transaction change before all balances are known")
				} else if old := e.fld(s, sp, "Splits"); e.grows(s, c, in, old) {
					ok("kept", in)
				} else if els, added := e.addedTo(s, v, old); !added {
					x.bad("kept", in, s, "the splits of a transaction change after they are added to their accounts")
				} else {
					for _, el := range els {
						if !allocTerm(el) {
							x.bad("kept", in, s, "a split that is not new is added to a transaction")
						}
					}
					ok("kept", in)
				}
			}
		case "Split.Account", "Split.Transaction", "Split.Time":
			if s.gs["collected"] != "" {
				x.bad("kept", in, s, "a split changes after it is added to its account")
			} else if name == "Split.Account" {
				x.bad("kept", in, s, "the account of a split changes")
			}
		case "Split.Balance":
			if s.gs["collected"] == "" {
				if !e.zeroLen(s, v) {
					x.bad("kept", in, s, "a balance is computed before all splits are known")
				}
				return
			}
			s.gs["begun"] = "2"
			inLoop := false
			for _, el := range running(e, s, c, in, func(coll *Term) bool { return x.account(s, coll) != nil }) {
				inLoop = inLoop || e.equal(s, el, sp)
			}
			if !inLoop {
				x.bad("kept", in, s, "the balance of a split changes outside of the loop over the splits of its account")
				return
			}
			ok("kept", in)
		case "Ledger.Accounts", "Ledger.Transactions":
			if s.gs["begun"] == "" {
				return
			}
			els, added := e.addedTo(s, v, e.Load(s, addr, t))
			if name == "Ledger.Transactions" || !added || len(els) != 1 || !e.equal(s, els[0], x.transfer(s)) {
				x.bad("kept", in, s, name+" changes after the splits are added to their accounts")
			}
		case "Ledger.transferAccount":
			if s.gs["begun"] != "" && !e.isNil(s, e.Load(s, addr, t)) {
				x.bad("kept", in, s, "the transfer account changes")
			}
		}
	}
	e.H.MapWrite = func(s *State, c *Ctx, in ssa.Instruction, m, k, v *Term) {
		if v.T == nil || !isInt(v.T) {
			return
		}
		old, _ := e.lookup(s, m, k, m.T)
		x.counterWrite(s, c, in, m, old, v)
	}
	e.H.Call = func(s *State, c *Ctx, in ssa.CallInstruction, name string, as []*Term) (*Term, bool) {
		if len(as) > 0 {
			if t := as[0].T; t != nil {
				if pt, isP := t.Underlying().(*types.Pointer); isP {
					x.cell(as[0], pt.Elem())
				}
			}
		}
		if strings.HasPrefix(name, "sort.") && len(as) > 0 {
			v := as[0]
			if v.Op == "iface" || v.Op == "mkiface" {
				v = v.A[0]
			}
			if a := x.account(s, v); a != nil && (s.gs["begun"] == "2" || s.gs["accs"] != "") {
				if !e.equal(s, a, x.transfer(s)) {
					x.bad("kept", in, s, "the splits of an account are put in another order after their balances are computed")
				}
				undone(s, a)
			}
		}
		return e.balanceOps(s, c, in, name, as)
	}
}

// unshared: no two balances share storage where one of them is changed.
func (x *runs) unshared() {
	p, r := x.p, x.r
	reach := p.reach(x.f)
	isBal := func(t types.Type) bool { return types.Identical(t, x.bal) }
	// changed: is the balance at v changed in place after instruction at?
	changed := func(v ssa.Value, at ssa.Instruction) ssa.Instruction {
		al, _ := v.(ssa.Instruction)
		for _, ref := range *v.Referrers() {
			ci, ok := ref.(ssa.CallInstruction)
			if ok && pathAvoiding(at, ci, al) {
				return ci
			}
		}
		return nil
	}
	var fresh func(v ssa.Value, at ssa.Instruction, seen map[ssa.Value]bool) string
	fresh = func(v ssa.Value, at ssa.Instruction, seen map[ssa.Value]bool) string {
		if seen[v] {
			return ""
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Const:
			return ""
		case *ssa.Phi:
			for _, a := range v.Edges {
				if w := fresh(a, at, seen); w != "" {
					return w
				}
			}
			return ""
		case *ssa.Call:
			g := v.Call.StaticCallee()
			if g == nil {
				return "the result of a call"
			}
			if g.Name() == "Dup" && len(g.Params) == 1 && isBal(deref(g.Params[0].Type())) {
				return ""
			}
			if !p.isMod[g] {
				return "the result of " + g.Name()
			}
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, o := range ret.Results {
						if isBal(o.Type()) {
							if w := fresh(o, ret, seen); w != "" {
								return w
							}
						}
					}
				}
			}
			return ""
		case *ssa.Extract:
			return fresh(v.Tuple, at, seen)
		case *ssa.ChangeType:
			return fresh(v.X, at, seen)
		case *ssa.Slice:
			if al, ok := v.X.(*ssa.Alloc); ok && al.Heap {
				return ""
			}
			return "a part of another balance"
		case *ssa.MakeSlice:
			return ""
		case *ssa.Parameter:
			f := v.Parent()
			idx := -1
			for i, pa := range f.Params {
				if pa == v {
					idx = i
				}
			}
			for g := range reach {
				if !p.isMod[g] {
					continue
				}
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f && idx < len(ci.Common().Args) {
							if w := fresh(ci.Common().Args[idx], in, seen); w != "" {
								return w
							}
						}
					}
				}
			}
			return ""
		case *ssa.UnOp:
			al, ok := v.X.(*ssa.Alloc)
			if !ok {
				return "the balance of another split, or one that goes on changing,"
			}
			if w := changed(al, at); w != nil {
				return "a balance that goes on changing (" + p.InstrPos(w) + ")"
			}
			return ""
		}
		return "something"
	}
	var gs []*ssa.Function
	for g := range reach {
		if p.isMod[g] {
			gs = append(gs, g)
		}
	}
	sort.Slice(gs, func(i, j int) bool { return p.Fn(gs[i]) < p.Fn(gs[j]) })
	n := 0
	for _, g := range gs {
		if sig := g.Signature; sig.Recv() != nil && isBal(deref(sig.Recv().Type())) {
			continue // the methods of Balance: P17
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || !isBal(st.Val.Type()) {
					continue
				}
				al, local := st.Addr.(*ssa.Alloc)
				if local && changed(al, in) == nil {
					continue // it is only read
				}
				n++
				w := fresh(st.Val, in, map[ssa.Value]bool{})
				r.Add("unshared", p.Fn(g)+" "+p.InstrPos(in), p.InstrPos(in), w == "", "%s is stored here without being copied", w)
			}
		}
	}
	r.Counts["balances stored"] += n
}

func (x *runs) run() {
	e, r, p := x.e, x.r, x.p
	x.tr = e.Track()
	x.tr.Later = func(tag string) bool { return strings.HasPrefix(tag, "run|") }
	e.PhiRel = func(t types.Type) bool { return false }
	fact := e.Fact
	e.Fact = func(t *Term) bool {
		if t.Op == "lt" || t.Op == "eq" {
			for i, a := range t.A {

				if t.Op == "eq" && anAmount(a) {
					return true
				}
				if _, isC := t.A[1-i].intVal(); isC && (a.Op == "lookup" || a.Op == "load") {
					return true
				}
			}
		}
		return fact(t)
	}
	x.bad = func(rule string, in ssa.Instruction, s *State, why string) {
		r.Bad(rule, p.Fn(in.Parent())+" "+p.InstrPos(in), p.InstrPos(in), "%s; %s", why, e.path(s))
	}
	args := e.Params(x.f)
	x.led = args[0]
	x.init()
	x.collected()
	x.stores()
	e.H.Return = func(s *State, c *Ctx, in ssa.Instruction, res []*Term) {
		if c.fn != x.f || c.parent != nil || len(res) != 1 || e.notNil(s, res[0]) {
			return
		}
		why := ""
		reason := func(ks ...string) string {
			var l []string
			for _, k := range ks {
				for t, w := range x.why {
					if strings.HasPrefix(t, k) {
						l = append(l, w)
					}
				}
			}
			sort.Strings(l)
			return strings.Join(l, "; ")
		}
		switch {
		case s.gs["collected"] == "":
			why = "not every split is known to be among the splits of its account once (" + reason("cols") + ")"
		case s.gs["accs"] == "":
			why = "not every split is known to have been handled (" + reason("step", "known", "run|", "asserted", "acc") + ")"
		}
		if x.rule == "running" {
			r.Add("transfer", "result of Fill", p.InstrPos(in), s.gs["transfer"] != "" || e.zeroLen(s, e.fld(s, x.transfer(s), "Splits")), "the balances of the transfer account are not known to be running sums (%s); %s", reason("step", "run|"), e.path(s))
		}
		for m := range x.counters {
			if w := x.badWrite[m]; w != "" && why == "" {
				why = "the number of splits handled changes otherwise (" + w + ")"
			}
		}
		r.Add(x.rule, "result of Fill", p.InstrPos(in), why == "", "%s; %s", why, e.path(s))
	}
	p.runDecided(r, x.rule, e, x.f, newState(), args)
	r.Counts["functions interpreted"] += len(e.Fns)
}

func checkP15(p *Prog, r *Report) {
	f := newFilling(p, r)
	if f == nil {
		return
	}
	x := &runs{filling: f, rule: "running"}
	x.run()
	x.unshared()
	// amounts do not change once they are known: what P14 decides of them
	r2 := NewReport(r.Prop)
	checkP14(p, r2)
	for _, o := range r2.Obl {
		if o.Rule == "kept" {
			r.Add("amounts", o.Construct, o.Pos, o.OK, "%s", o.Detail)
		}
	}
	r.Expect("amounts", 3)
	r.Expect("running", 1)
	r.Expect("collected", 1)
	r.Expect("kept", 4)
	r.Expect("unshared", 3)
}

func checkP16(p *Prog, r *Report) {
	f := newFilling(p, r)
	if f == nil {
		return
	}
	x := &runs{filling: f, rule: "asserted"}
	x.run()
	r.Expect("asserted", 1)
}

// anAmount: the amount of a value, or a sum of such amounts.
func anAmount(t *Term) bool {
	if strings.HasSuffix(t.S, "Amount") || t.T != nil && types.Identical(t.T, types.Typ[types.Int64]) {
		return true
	}
	return t.Op == "lin" && len(t.A) > 1 && anAmount(t.A[1])
}
