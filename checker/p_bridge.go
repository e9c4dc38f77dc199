package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P30", "other", checkP30)
}

// bridge decides that Fill keeps transfer splits in step with the splits that
// are dated apart from their transactions.
type bridge struct {
	*filling
	txs     types.Type // []*Transaction
	tr0     *Term      // the transfer account there was at first
	why     map[string]string
	reasons map[string]map[string]bool
}

func (x *bridge) transfer(s *State) *Term { return x.e.fld(s, x.led, "transferAccount") }

func (x *bridge) because(k, why string) {
	if x.reasons[k] == nil {
		x.reasons[k] = map[string]bool{}
	}
	x.reasons[k][why] = true
}

func (x *bridge) given(k string) string {
	best := ""
	for w := range x.reasons[k] {
		if best == "" || len(w) < len(best) || len(w) == len(best) && w < best {
			best = w
		}
	}
	return best
}

// lists: the variables that hold a list of splits at head h of a loop.
func (x *bridge) lists(s *State, c *Ctx, h *ssa.BasicBlock, tx *Term) map[string]*Term {
	e := x.e
	m := map[string]*Term{}
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if t := s.env[vkey{c, phi}]; t != nil && types.Identical(phi.Type(), types.NewSlice(x.spl)) {
			m["phi "+phi.Name()] = t
		}
	}
	for cc := c; cc != nil; cc = cc.parent {
		for _, b := range cc.fn.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && types.Identical(deref(a.Type()), types.NewSlice(x.spl)) {
					if t := s.env[vkey{cc, a}]; t != nil {
						m["var "+a.Name()] = e.Load(s, t, types.NewSlice(x.spl))
					}
				}
			}
		}
	}
	if tx != nil {
		m["tx"] = e.fld(s, tx, "Splits")
	}
	return m
}

func (x *bridge) txOf(coll *Term) *Term {
	if coll == nil || !x.listOf(coll, x.spl) {
		return nil
	}
	return owner(coll, "Transaction.Splits")
}

func (x *bridge) run() {
	e, tt, p, r := x.e, x.e.tt, x.p, x.r
	tr := e.Track()
	x.tr = tr
	x.reasons = map[string]map[string]bool{}
	e.PhiRel = func(t types.Type) bool { return false }
	fact := e.Fact
	e.Fact = func(t *Term) bool {
		return (t.Op == "eq" || t.Op == "lt") && isTime(t.A[0].T) || fact(t)
	}
	args := e.Params(x.f)
	x.led = args[0]
	s0 := newState()
	x.tr0 = x.transfer(s0)
	bad := func(rule string, in ssa.Instruction, s *State, why string) {
		r.Bad(rule, p.Fn(in.Parent())+" "+p.InstrPos(in), p.InstrPos(in), "%s; %s", why, e.path(s))
	}
	br := e.H.Branch
	e.H.Branch = func(s *State, c *Ctx, in ssa.Instruction, ls []lit) {
		if br != nil {
			br(s, c, in, ls)
		}
		for _, l := range ls {
			// the transfer account is found among the accounts
			if l.t.Op == "eq" && l.pos {
				for i := range l.t.A {
					if a := l.t.A[i]; a.Op == "load" && a.A[0].Op == "ia" && e.equal(s, a.A[0].A[0], e.fld(s, x.led, "Accounts")) && e.equal(s, l.t.A[1-i], x.transfer(s)) {
						s.gs["listed"] = "1"
					}
				}
			}
		}
		h := in.Block()
		if e.flow(c.fn).loops[h] == nil {
			return
		}
		id := loopID(c, h)
		n := s.gt["n@"+id]
		if n == nil || n.Op != "len" {
			return
		}
		coll := n.A[0]
		tx := x.txOf(coll)
		if tx == nil {
			if owner(coll, "Ledger.Transactions") != nil && s.gt["i@"+id] != nil {
				s.gt["t0@"+id] = e.fld(s, e.elem(s, coll, s.gt["i@"+id]), "Splits")
			}
			return
		}
		for k, v := range x.lists(s, c, h, tx) {
			s.gt["l"+k+"@"+id] = v
		}
		s.gt["y0@"+id] = e.fld(s, x.transfer(s), "Splits")
	}
	clear := func(s *State, id string) {
		for k := range s.gs {
			if strings.HasSuffix(k, "@"+id) && strings.HasPrefix(k, "z") {
				delete(s.gs, k)
			}
		}
		for k := range s.gt {
			if strings.HasSuffix(k, "@"+id) && (strings.HasPrefix(k, "l") || strings.HasPrefix(k, "t0") || strings.HasPrefix(k, "y0")) {
				delete(s.gt, k)
			}
		}
	}
	forget := func(s *State) {
		for k := range s.gt {
			if strings.HasPrefix(k, "flt") || strings.HasPrefix(k, "grown") {
				delete(s.gt, k)
			}
		}
		delete(s.gs, "flt")
	}
	tr.In = func(s *State, it *Iter) {
		id := loopID(it.C, it.Head)
		clear(s, id)
		_, n := tr.next2(s, it.C, it.Head)
		if n == nil || n.Op != "len" {
			return
		}
		if tx := x.txOf(n.A[0]); tx != nil {
			for k, v := range x.lists(s, it.C, it.Head, tx) {
				if e.equal(s, v, n.A[0]) {
					s.gs["zsame"+k+"@"+id] = "1"
				}
			}
		}
		if tx := x.txOf(n.A[0]); tx != nil && s.gs["removed"] == "" {
			for k, v := range x.lists(s, it.C, it.Head, tx) {
				if e.zeroLen(s, v) {
					s.gs["z"+k+"@"+id] = "1"
				}
			}
		}
		if owner(n.A[0], "Ledger.Transactions") != nil {
			forget(s)
		}
	}
	tr.Back = func(s *State, it *Iter) map[string]string {
		if it.IsMap || it.Coll == nil {
			return nil
		}
		id := loopID(it.C, it.Head)
		tags := map[string]string{}
		path := ": " + e.path(s)
		switch tx := x.txOf(it.Coll); {
		case tx != nil:
			sp := e.elem(s, it.Coll, it.Idx)
			if s.gs["removed"] == "" && s.gs["created"] == "" {
				acc, ta := e.fld(s, sp, "Account"), x.transfer(s)
				for k, now := range x.lists(s, it.C, it.Head, tx) {
					was := s.gt["l"+k+"@"+id]
					if was == nil {
						continue
					}
					els, added := e.addedTo(s, now, was)
					why := ""
					switch {
					case e.isNil(s, ta) || e.implied(s, tt.eq(acc, ta), false):
						if !added || len(els) != 1 || !e.equal(s, els[0], sp) {
							why = "a split of another account than the transfer account is not kept"
						}
					case e.implied(s, tt.eq(acc, ta), true):
						if !e.equal(s, now, was) {
							why = "a split of the transfer account is kept"
						}
					default:
						why = "a split of the transfer account may be kept"
					}
					if why != "" {
						why += path
					}
					tags["flt|"+k] = why
				}
			}
			for k, now := range x.lists(s, it.C, it.Head, tx) {
				x0 := s.gt["l"+k+"@"+id]
				if x0 == nil || s.gs["zsame"+k+"@"+id] == "" {
					continue
				}
				why := x.bridged(s, tx, sp, x0, now, s.gt["y0@"+id])
				if why != "" && x.bridged(s, tx, e.elem(s, x0, it.Idx), x0, now, s.gt["y0@"+id]) == "" {
					why = "" // the list has only grown since
				}
				if why != "" {
					why += path
				}
				tags["bridge|"+k] = why
			}
		case owner(it.Coll, "Ledger.Transactions") != nil:
			t0 := s.gt["t0@"+id]
			now := e.fld(s, e.elem(s, it.Coll, it.Idx), "Splits")
			if t0 == nil {
				break
			}
			why := "the splits of the transfer account are not removed" + path
			if of := s.gt["fltof"]; of != nil && e.equal(s, of, t0) {
				for k, v := range s.gt {
					if strings.HasPrefix(k, "flt|") && e.equal(s, v, now) {
						why = ""
					}
				}
			}
			if w := x.given("flt"); w != "" && why != "" {
				why = w
			}
			tags["removed"] = why
			why = "not all splits of a transaction are looked at" + path
			if of := s.gt["grownof"]; of != nil && e.equal(s, of, t0) {
				for k, v := range s.gt {
					if strings.HasPrefix(k, "grown|") && e.equal(s, v, now) {
						why = ""
					}
				}
			}
			if w := x.given("bridge"); w != "" && why != "" {
				why = w
			}
			tags["bridged"] = why
			forget(s)
		case owner(it.Coll, "Ledger.Accounts") != nil:
			if e.zeroLen(s, e.fld(s, e.elem(s, it.Coll, it.Idx), "Splits")) {
				tags["emptied"] = ""
			} else {
				tags["emptied"] = "the splits an account had are kept" + path
			}
		}
		return tags
	}
	tr.Out = func(s *State, it *Iter) {
		if it.IsMap || it.Coll == nil {
			return
		}
		id := loopID(it.C, it.Head)
		switch tx := x.txOf(it.Coll); {
		case tx != nil:
			if s.gs["removed"] == "" {
				forget(s)
				for k, v := range x.lists(s, it.C, it.Head, tx) {
					if s.gs["z"+k+"@"+id] == "" {
						continue
					}
					if tr.Done(s, "flt|"+k, it.Coll) {
						s.gt["flt|"+k], s.gt["fltof"], s.gs["flt"] = v, it.Coll, "1"
					} else if w := tr.Why("flt|"+k, it.Coll); w != "" {
						x.because("flt", w)
					}
				}
			}
			for k, v := range x.lists(s, it.C, it.Head, tx) {
				if s.gs["zsame"+k+"@"+id] == "" {
					continue
				}
				if tr.Done(s, "bridge|"+k, it.Coll) {
					s.gt["grown|"+k], s.gt["grownof"] = v, it.Coll
				} else if w := tr.Why("bridge|"+k, it.Coll); w != "" && s.gs["created"] != "" {
					x.because("bridge", w)
				}
			}
		case owner(it.Coll, "Ledger.Transactions") != nil:
			if tr.Done(s, "removed", it.Coll) && s.gs["removed"] == "" && s.gs["created"] == "" {
				s.gs["removed"] = "1"
			} else if w := tr.Why("removed", it.Coll); w != "" && s.gs["removed"] == "" {
				x.because("removed", w)
			}
			if tr.Done(s, "bridged", it.Coll) {
				s.gs["bridged"] = "1"
			} else if w := tr.Why("bridged", it.Coll); w != "" && (s.gs["created"] != "" || x.reasons["bridged"] == nil) {
				x.because("bridged", w)
			}
		case owner(it.Coll, "Ledger.Accounts") != nil:
			if tr.Done(s, "emptied", it.Coll) && s.gs["created"] == "" {
				s.gs["emptied"] = "1"
			}
		}
	}
	lo := e.H.LoopOut
	e.H.LoopOut = func(s *State, c *Ctx, h *ssa.BasicBlock) {
		if lo != nil {
			lo(s, c, h)
		}
		clear(s, loopID(c, h))
	}
	e.H.Store = func(s *State, c *Ctx, in ssa.Instruction, addr, v *Term, t types.Type) {
		if addr.Op != "fa" {
			return
		}
		obj, name := addr.A[0], shortField(addr.S)
		inLoop := func() bool {
			for _, a := range running(e, s, c, in, func(coll *Term) bool { return x.txOf(coll) != nil }) {
				if a != nil {
					return true
				}
			}
			return false
		}
		switch name {
		case "Ledger.transferAccount":
			switch {
			case !e.isNil(s, e.Load(s, addr, t)):
				bad("account", in, s, "the transfer account of the ledger is replaced")
			case !allocTerm(v):
				bad("account", in, s, "the transfer account is shared with something else")
			default:
				r.OK("account", p.Fn(in.Parent())+" "+p.InstrPos(in), p.InstrPos(in))
			}
			delete(s.gs, "listed")
		case "Ledger.Accounts":
			els, added := e.addedTo(s, v, e.Load(s, addr, t))
			if !added {
				delete(s.gs, "listed")
			}
			for _, el := range els {
				if e.equal(s, el, x.transfer(s)) {
					s.gs["listed"] = "1"
				}
			}
		case "Account.Splits":
			if !e.equal(s, obj, x.transfer(s)) {
				break
			}
			if e.zeroLen(s, v) && s.gs["created"] == "" {
				s.gs["emptied"] = "1"
				break
			}
			if !inLoop() {
				bad("made", in, s, "a split of the transfer account is not made for a split")
			} else {
				r.OK("made", p.Fn(in.Parent())+" "+p.InstrPos(in), p.InstrPos(in))
			}
			s.gs["created"] = "1"
		case "Transaction.Splits":
			if s.gs["removed"] == "" && !e.isNil(s, x.tr0) {
				break // being removed
			}
			if els, _ := e.addedTo(s, v, e.Load(s, addr, t)); !e.zeroLen(s, v) {
				for _, el := range els {
					if allocTerm(el) {
						s.gs["created"] = "1"
						if !inLoop() {
							bad("made", in, s, "a split is made for no other split")
						} else {
							r.OK("made", p.Fn(in.Parent())+" "+p.InstrPos(in), p.InstrPos(in))
						}
					}
				}
			}
		}
	}
	e.H.Return = func(s *State, c *Ctx, in ssa.Instruction, res []*Term) {
		if c.fn != x.f || c.parent != nil || len(res) != 1 || e.notNil(s, res[0]) {
			return
		}
		at := "result of Fill"
		pos := p.InstrPos(in)
		end := "; " + e.path(s)
		r.Add("removed", at, pos, s.gs["removed"] != "" || e.isNil(s, x.tr0), "transfer splits of an earlier Fill may be left (%s)%s", x.given("removed"), end)
		r.Add("bridged", at, pos, s.gs["bridged"] != "", "it is not known that there are two transfer splits for each split that is dated apart, and no others (%s)%s", x.given("bridged"), end)
		r.Add("listed", at, pos, s.gs["listed"] != "" && s.gs["emptied"] != "" || e.zeroLen(s, x.led), "the splits of the transfer account may not be dropped when the ledger is filled again%s", end)
	}
	p.runDecided(r, "bridged", e, x.f, s0, args)
	r.Counts["functions interpreted"] += len(e.Fns)
}

// bridged: what is wrong with the transfer splits made for split sp of tx, if
// the splits of tx go from x0 to x1, and those of the transfer account were y0.
func (x *bridge) bridged(s *State, tx, sp, x0, x1, y0 *Term) string {
	e, tt := x.e, x.e.tt
	if x0 == nil || y0 == nil {
		return "unknown"
	}
	ta := x.transfer(s)
	y1 := e.fld(s, ta, "Splits")
	ex, addx := e.addedTo(s, x1, x0)
	ey, addy := e.addedTo(s, y1, y0)
	tm := e.fld(s, sp, "Time")
	st := structOf(deref(x.tx))
	var at *Term
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "Time" {
			at = tt.fieldAddr(tx, deref(x.tx), "Time", st.Field(i).Type())
		}
	}
	if at == nil || tm == nil {
		return "unknown"
	}
	timeT := deref(at.T)
	same := func(a, b *Term) int {
		switch {
		case e.implied(s, tt.eq(a, b), true):
			return 1
		case e.implied(s, tt.eq(a, b), false):
			return -1
		}
		return 0
	}
	d := same(tm, at)
	if d == 0 {
		u, v := e.Load(s, tm, timeT), e.Load(s, at, timeT)
		switch {
		case e.implied(s, tt.lt(u, v), true), e.implied(s, tt.lt(v, u), true):
			d = -1
		case e.implied(s, tt.lt(u, v), false) && e.implied(s, tt.lt(v, u), false):
			d = 1
		default:
			d = same(u, v)
		}
	}
	switch d {
	case 1:
		if !e.equal(s, x0, x1) || !e.equal(s, y0, y1) {
			return "transfer splits are made for a split that has the time of its transaction"
		}
		return ""
	case 0:
		return "whether a split is dated apart from its transaction is not looked at"
	}
	if !addx || len(ex) != 2 {
		return "a split that is dated apart does not add two splits to its transaction"
	}
	if !addy || len(ey) != 2 {
		return "a split that is dated apart does not add two splits to the transfer account"
	}
	if !(e.equal(s, ex[0], ey[0]) && e.equal(s, ex[1], ey[1]) || e.equal(s, ex[0], ey[1]) && e.equal(s, ex[1], ey[0])) || ex[0] == ex[1] {
		return "the splits added to the transaction are not those added to the transfer account"
	}
	val := e.fld(s, sp, "Value")
	amt, cur := x.field(val, "Amount"), x.currency(s, val)
	neg := tt.fromLin(tt.linOf(amt).scale(-1), amt.T)
	seen := map[string]bool{}
	for _, el := range ex {
		v := e.fld(s, el, "Value")
		switch {
		case !allocTerm(el):
			return "a split that is not new is added"
		case !e.equal(s, e.fld(s, el, "Account"), ta):
			return "a split of another account is added"
		case !e.equal(s, e.fld(s, el, "Transaction"), tx):
			return "a transfer split does not know its transaction"
		case !e.equal(s, x.currency(s, v), cur):
			return "a transfer split has another currency"
		}
		a := x.field(v, "Amount")
		switch t := e.fld(s, el, "Time"); {
		case e.equal(s, t, at) && e.equal(s, a, amt):
			seen["tx"] = true
		case e.equal(s, t, tm) && e.equal(s, a, neg):
			seen["split"] = true
		case e.equal(s, t, at) || e.equal(s, t, tm):
			return "a transfer split has another amount"
		default:
			return "a transfer split has another time"
		}
	}
	if len(seen) != 2 {
		return "both transfer splits have the same time"
	}
	return ""
}

func checkP30(p *Prog, r *Report) {
	f := newFilling(p, r)
	if f == nil {
		return
	}
	x := &bridge{filling: f}
	x.run()
	// the balances of the transfer account: part of P15
	r2 := NewReport(r.Prop)
	if f := newFilling(p, r2); f != nil {
		y := &runs{filling: f, rule: "running"}
		y.run()
	}
	n := 0
	for _, o := range r2.Obl {
		if o.Rule == "transfer" {
			r.Add("balances", o.Construct, o.Pos, o.OK, "%s", o.Detail)
			n++
		}
	}
	r.Counts["results whose transfer balances are checked"] += n
	r.Expect("account", 1)
	r.Expect("removed", 1)
	r.Expect("bridged", 1)
	r.Expect("listed", 1)
	r.Expect("balances", 1)
	r.Expect("made", 1)
}
