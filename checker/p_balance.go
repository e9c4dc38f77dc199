package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P17", "other", checkP17)
}

// balanceCheck decides that a method of Balance does what its name says.
type balanceCheck struct {
	p    *Prog
	r    *Report
	e    *Eng
	f    *ssa.Function
	bt   types.Type
	vt   types.Type
	s0   *Term // the balance at the start
	ptr  *Term // where it is
	v    *Term // the operand
	sign int64 // added or subtracted
}

type bwrite struct{ idx, amount, currency *Term }

func (b *balanceCheck) field(s *State, idx *Term, name string) *Term {
	st := structOf(b.vt)
	ft := st.Field(fieldIndex(st, name)).Type()
	return b.e.Load(s, b.e.tt.fieldAddr(b.e.tt.indexAddr(b.s0, idx, b.vt), b.vt, name, ft), ft)
}

// old: what an entry was at the start.
func (b *balanceCheck) old(idx *Term, name string) *Term { return b.field(newState(), idx, name) }

func (b *balanceCheck) valueField(v *Term, name string) *Term {
	st := structOf(b.vt)
	return b.e.tt.fieldOf(v, st, fieldIndex(st, name))
}

// element: the index of the entry of the starting balance an address is in.
func (b *balanceCheck) element(s *State, addr *Term) (idx *Term, field string) {
	if addr.Op == "fa" {
		field = addr.S[strings.LastIndex(addr.S, ".")+1:]
		addr = addr.A[0]
	}
	if addr.Op != "ia" {
		return nil, ""
	}
	base, idx := addr.A[0], addr.A[1]
	if base.Op == "slice" {
		if base.A[1].Op != "none" {
			idx = b.e.tt.bin(token.ADD, idx, base.A[1], types.Typ[types.Int])
		}
		base = base.A[0]
	}
	if !b.e.equal(s, base, b.s0) {
		return nil, ""
	}
	return idx, field
}

const maxWrites = 8

// log keeps the changes of entries in the order they are made.
func (b *balanceCheck) log(s *State, idx *Term, field string, v *Term) {
	if s.gt["cut"] != nil {
		s.gs["dirty"] = "1"
	}
	n := 0
	for s.gt[fmt.Sprintf("w%d", n)] != nil {
		n++
	}
	if n >= maxWrites {
		s.gs["dirty"] = "1"
		return
	}
	if cur := s.gt["l@"+v.key]; cur != nil {
		v = cur
	}
	t := b.e.tt.mk("write", field, nil, idx, v)
	s.gt[fmt.Sprintf("w%d", n)] = t
	s.gs["writes"] = fmt.Sprint(n + 1)
}

func (b *balanceCheck) writes(s *State) (out []*Term) {
	for i := 0; i < maxWrites; i++ {
		if t := s.gt[fmt.Sprintf("w%d", i)]; t != nil {
			out = append(out, t)
		}
	}
	return
}

// now: what an entry is after the changes; nil if that is not known.
func (b *balanceCheck) now(s *State, ws []*Term, idx *Term, name string) *Term {
	e := b.e
	for i := len(ws) - 1; i >= 0; i-- {
		w := ws[i]
		if w.S != "" && w.S != name {
			continue
		}
		if e.equal(s, w.A[0], idx) {
			v := w.A[1]
			if v.Op == "current" { // what an entry was at that time
				at := strings.Index(v.S, "@")
				n, _ := strconv.Atoi(v.S[at+1:])
				if at > 0 {
					name = v.S[:at]
				}
				return b.now(s, ws[:n], v.A[0], name)
			}
			if w.S == "" {
				return b.valueField(v, name)
			}
			return v
		}
		if !e.implied(s, e.tt.eq(w.A[0], idx), false) {
			return nil
		}
	}
	return b.old(idx, name)
}

// moved: entries are copied within the list.
func (b *balanceCheck) moved(s *State, dst, src *Term) {
	e := b.e
	if allocTerm(rootOf(dst)) {
		return
	}
	if dst.Op == "slice" && src.Op == "slice" && e.equal(s, dst.A[0], b.s0) && e.equal(s, src.A[0], b.s0) && dst.A[2].Op == "none" && src.A[2].Op == "none" &&
		dst.A[1].Op != "none" && src.A[1].Op != "none" && e.equal(s, src.A[1], e.tt.addc(dst.A[1], 1)) && s.gt["cut"] == nil {
		s.gt["cut"] = dst.A[1]
		s.gs["cut"] = fmt.Sprint(len(b.writes(s)))
		return
	}
	s.gs["dirty"] = "1"
}

// kept: are all changed entries but the ones given what they were?
func (b *balanceCheck) kept(s *State, ws []*Term, but ...*Term) bool {
	for _, w := range ws {
		skip := false
		for _, k := range but {
			skip = skip || b.e.equal(s, w.A[0], k)
		}
		if skip {
			continue
		}
		for _, name := range []string{"Amount", "Currency"} {
			x := b.now(s, ws, w.A[0], name)
			if x == nil || !b.e.equal(s, x, b.old(w.A[0], name)) {
				return false
			}
		}
	}
	return true
}

// delta: what is added to the entry of the operand's currency.
func (b *balanceCheck) delta() *Term {
	a := b.valueField(b.v, "Amount")
	if b.sign < 0 {
		return b.e.tt.bin(token.SUB, b.e.tt.intc(0, a.T), a, a.T)
	}
	return a
}

// contribution: +1 if x is the value v, -1 if it is its negation.
func (b *balanceCheck) contribution(s *State, x, v *Term) int64 {
	e := b.e
	if e.equal(s, x, v) {
		return 1
	}
	if e.equal(s, x, e.tt.bneg(v)) {
		return -1
	}
	if !e.equal(s, b.valueField(x, "Currency"), b.valueField(v, "Currency")) {
		return 0
	}
	a, w := b.valueField(x, "Amount"), b.valueField(v, "Amount")
	if e.equal(s, a, w) {
		return 1
	}
	if e.equal(s, a, e.tt.bin(token.SUB, e.tt.intc(0, w.T), w, w.T)) {
		return -1
	}
	return 0
}

// one decides a state at the return of Add or Sub: "" or what is wrong.
func (b *balanceCheck) one(s *State, tr *Tracker) string {
	e, tt := b.e, b.e.tt
	if s.gs["dirty"] != "" {
		return "entries are changed in more places than can be followed"
	}
	if s.gs["cut"] != "" && s.gt["cut"] == nil {
		return "the entries that are moved are not known"
	}
	if s.gs["other"] != "" {
		return "something other than the balance is changed"
	}
	fin := e.Load(s, b.ptr, b.bt)
	ws := b.writes(s)
	cut := s.gt["cut"]
	if fin.Op == "badd" && len(fin.A) == 2 && e.equal(s, fin.A[0], b.s0) && len(ws) == 0 {
		if b.contribution(s, fin.A[1], b.v) == b.sign {
			return ""
		}
		return "what is added is not the value given"
	}
	z := tt.intc(0, nil)
	va, vc := b.valueField(b.v, "Amount"), b.valueField(b.v, "Currency")
	same := cut == nil && e.equal(s, fin, b.s0)
	if same && b.kept(s, ws) && e.implied(s, tt.eq(va, z), true) {
		return ""
	}
	if cut == nil && fin.Op == "append" && len(fin.A) == 2 && e.equal(s, fin.A[0], b.s0) {
		switch {
		case len(ws) > 0:
			return "entries are changed and another is added"
		case b.contribution(s, fin.A[1], b.v) != b.sign:
			return "the entry that is added is not the value given"
		case !e.implied(s, tt.eq(va, z), false):
			return "an entry with amount zero may be added"
		case (s.gs["hit"] != "" || !tr.Done(s, "other-currency", b.s0)) && !e.zeroLen(s, b.s0):
			return "an entry is added although there may already be one of that currency"
		}
		return ""
	}
	// the entry of the currency
	cands := map[*Term]bool{}
	for _, w := range ws {
		cands[w.A[0]] = true
	}
	for t, pos := range s.lits {
		if !pos || t.Op != "eq" {
			continue
		}
		for _, a := range t.A {
			if a.Op == "load" && a.A[0].Op == "fa" {
				if k, f := b.element(s, a.A[0]); k != nil && f == "Currency" {
					cands[k] = true
				}
			}
		}
	}
	hit := s.gt["hit"]
	if hit != nil {
		cands[hit] = true
	}
	var ks []*Term
	for k := range cands {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].key < ks[j].key })
	why := "the balance is not what it was plus (or minus) the value"
	for _, k := range ks {
		found := hit != nil && e.equal(s, k, hit)
		if !e.equal(s, b.old(k, "Currency"), vc) && !found {
			continue
		}
		sum := tt.bin(token.ADD, b.old(k, "Amount"), b.delta(), va.T)
		if same {
			a, c := b.now(s, ws, k, "Amount"), b.now(s, ws, k, "Currency")
			switch {
			case a == nil || !e.equal(s, a, sum) || c == nil || !e.equal(s, c, vc) && !(found && e.equal(s, c, b.old(k, "Currency"))):
				why = "the entry of the currency is not what it was plus (or minus) the amount"
			case !b.kept(s, ws, k):
				why = "entries of other currencies are changed"
			case !e.implied(s, tt.eq(sum, z), false):
				why = "an entry with amount zero may be left"
			default:
				return ""
			}
			continue
		}
		if !e.implied(s, tt.eq(sum, z), true) {
			why = "an entry is removed although its amount may not be zero"
			continue
		}
		last := tt.addc(tt.length(b.s0), -1)
		if fin.Op == "slice" && e.equal(s, fin.A[0], b.s0) && fin.A[1].Op == "none" && fin.A[2].Op != "none" && e.equal(s, fin.A[2], last) {
			ok := cut == nil || e.equal(s, cut, k) && b.kept(s, ws, k)
			for _, isLast := range []bool{true, false} {
				m := s.clone()
				if cut != nil || !e.assume(m, tt.eq(k, last), isLast) || m.dead {
					continue
				}
				if isLast {
					ok = ok && b.kept(m, ws, k)
					continue
				}
				for _, name := range []string{"Amount", "Currency"} {
					x := b.now(m, ws, k, name)
					ok = ok && x != nil && e.equal(m, x, b.old(last, name))
				}
				ok = ok && b.kept(m, ws, k, last)
			}
			if ok {
				return ""
			}
			why = "removing an entry does not keep the others"
			continue
		}
		if cut == nil && fin.Op == "appendv" && fin.A[0].Op == "slice" && fin.A[1].Op == "slice" {
			x, y := fin.A[0], fin.A[1]
			if e.equal(s, x.A[0], b.s0) && e.equal(s, y.A[0], b.s0) && x.A[1].Op == "none" && x.A[2].Op != "none" && e.equal(s, x.A[2], k) &&
				y.A[2].Op == "none" && y.A[1].Op != "none" && e.equal(s, y.A[1], tt.addc(k, 1)) && b.kept(s, ws, k) {
				return ""
			}
		}
		why = "removing an entry does not keep the others"
	}
	return why
}

func checkP17(p *Prog, r *Report) {
	r.Expl = "Abstract interpretation of the methods of Balance on an arbitrary normalised balance and operand. Add and Sub: on every path the final list is shown to be the old one (operand zero), the old one with the entry of the currency changed to the sum, shown not to be zero, " +
		"the old one less that entry, the sum shown to be zero and every other entry still there, or the old one plus the operand, which is not zero and of a currency shown to be absent by a complete search. AddBalance and SubBalance: each entry of the operand is added (subtracted) once. " +
		"Dup: a new list, made of each entry once, none of its storage from the original."
	bt := p.RootType("Balance")
	if bt == nil {
		r.Bad("anchor", "accounting.Balance", "-", "the type Balance is not found")
		return
	}
	for _, m := range []struct {
		name string
		sign int64
		uses string
	}{{"Add", 1, ""}, {"Sub", -1, "Add"}, {"AddBalance", 1, "Add Sub"}, {"SubBalance", -1, "Add Sub AddBalance"}, {"Dup", 0, "Add AddBalance"}} {
		f := p.Method(types.NewPointer(bt), p.Root.Pkg, m.name)
		if f == nil {
			f = p.Method(bt, p.Root.Pkg, m.name)
		}
		// a wrapper of a method of values
		if g := p.Method(bt, p.Root.Pkg, m.name); g != nil && g.Synthetic == "" {
			f = g
		}
		if !mustFn(r, f, "Balance."+m.name) {
			continue
		}
		b := &balanceCheck{p: p, r: r, f: f, bt: bt, sign: m.sign}
		b.vt = bt.Underlying().(*types.Slice).Elem()
		b.run(m.name, strings.Fields(m.uses))
	}
	r.Expect("add", 1)
	r.Expect("sub", 1)
	r.Expect("addbalance", 1)
	r.Expect("subbalance", 1)
	r.Expect("dup", 1)
	r.Assume = append(r.Assume, "the operand of AddBalance and SubBalance does not share storage with the balance")
}

func (b *balanceCheck) run(name string, uses []string) {
	p, r := b.p, b.r
	e := NewEng(p)
	e.NonNil = e.usualNonNil
	b.e = e
	tt := e.tt
	rule := strings.ToLower(name)
	f := b.f
	args := e.Params(f)
	st0 := newState()
	isPtr := false
	if len(args) > 0 && args[0].T != nil {
		_, isPtr = args[0].T.Underlying().(*types.Pointer)
	}
	if name == "Dup" {
		if len(args) != 1 || f.Signature.Results().Len() != 1 {
			r.Bad(rule, p.Fn(f), p.Pos(f.Pos()), "not a method without arguments and with one result")
			return
		}
		b.s0 = args[0]
		if isPtr {
			b.s0 = e.Load(st0, args[0], b.bt)
		}
	} else {
		if len(args) != 2 || !isPtr {
			r.Bad(rule, p.Fn(f), p.Pos(f.Pos()), "not a method of *Balance with one argument")
			return
		}
		b.ptr, b.v = args[0], args[1]
		b.s0 = e.Load(st0, b.ptr, b.bt)
	}
	whole := name != "Add" && name != "Sub"
	operand := b.v // what is gone over
	if name == "Dup" {
		operand = b.s0
	}
	tr := e.Track()
	isBal := func(t types.Type) bool { return t != nil && types.Identical(t.Underlying(), b.bt.Underlying()) }
	places := func(s *State) (out []*Term) {
		if b.ptr != nil {
			out = append(out, b.ptr)
		}
		for a := range s.mem {
			if a != b.ptr && a.Op == "sym" && a.T != nil && isBal(deref(a.T)) {
				out = append(out, a)
			}
		}
		return
	}
	lphis := func(h *ssa.BasicBlock) (out []*ssa.Phi) {
		for _, in := range h.Instrs {
			if ph, ok := in.(*ssa.Phi); ok && isBal(ph.Type()) {
				out = append(out, ph)
			}
		}
		return
	}
	br := e.H.Branch
	e.H.Branch = func(s *State, c *Ctx, in ssa.Instruction, ls []lit) {
		h := in.Block()
		if e.flow(c.fn).loops[h] != nil && whole {
			id := loopID(c, h)
			for _, a := range places(s) {
				s.gt["h@"+id+a.key] = e.Load(s, a, b.bt)
			}
			for _, ph := range lphis(h) {
				s.gt["h@"+id+ph.Name()] = e.val(s, c, ph)
			}
		}
		br(s, c, in, ls)
	}
	in0 := e.H.LoopIn
	e.H.LoopIn = func(s *State, c *Ctx, h *ssa.BasicBlock) {
		in0(s, c, h)
		if whole {
			id := loopID(c, h)
			for _, a := range places(s) {
				s.gt["in@"+id+a.key] = e.Load(s, a, b.bt)
			}
			for _, ph := range lphis(h) {
				s.gt["in@"+id+ph.Name()] = e.val(s, c, ph)
			}
		}
	}
	// step: what one iteration adds to a list
	step := func(s *State, before, after, v *Term) string {
		if before == nil || after == nil {
			return "not followed"
		}
		if e.equal(s, before, after) && e.implied(s, tt.eq(b.valueField(v, "Amount"), tt.intc(0, nil)), true) {
			return ""
		}
		if (after.Op == "badd" || after.Op == "append") && len(after.A) == 2 && e.equal(s, after.A[0], before) {
			switch b.contribution(s, after.A[1], v) {
			case 1:
				return ""
			case -1:
				return "-"
			}
		}
		return "an entry is not added (or subtracted) exactly once: " + e.path(s)
	}
	tr.Back = func(s *State, it *Iter) map[string]string {
		if it.IsMap || it.Coll == nil || !isBal(it.Coll.T) {
			return nil
		}
		if !whole {
			why := ""
			if len(b.writes(s)) > 0 {
				s.gs["dirty"] = "1"
			}
			if e.equal(s, it.Coll, b.s0) {
				c := b.field(s, it.Idx, "Currency")
				same := tt.eq(c, b.valueField(b.v, "Currency"))
				if len(b.writes(s)) == 0 && e.implied(s, same, true) {
					// it has been found
					s.gs["hit"], s.gt["hit"] = "1", it.Idx
				} else if !e.implied(s, same, false) {
					why = "an entry is passed over that may have the currency"
				}
				return map[string]string{"other-currency": why}
			}
			return nil
		}
		if operand == nil || !e.equal(s, it.Coll, operand) {
			return nil
		}
		v := e.Load(s, tt.indexAddr(it.Coll, it.Idx, b.vt), b.vt)
		out := map[string]string{}
		id := loopID(it.C, it.Head)
		add := func(k, w string) {
			if w == "-" {
				out["sum-1@"+k], out["sum+1@"+k] = "", "subtracts"
			} else {
				out["sum+1@"+k] = w
				if w == "" {
					w = "adds"
				}
				out["sum-1@"+k] = w
			}
		}
		for _, a := range places(s) {
			add(a.key, step(s, s.gt["h@"+id+a.key], e.Load(s, a, b.bt), v))
		}
		for _, ph := range lphis(it.Head) {
			add(ph.Name(), step(s, s.gt["h@"+id+ph.Name()], e.val(s, it.C, ph), v))
		}
		// copied one by one
		for a := range s.mem {
			if a.Op == "fa" && a.A[0].Op == "ia" && e.equal(s, a.A[0].A[1], it.Idx) && allocTerm(a.A[0].A[0]) {
				dst := a.A[0].A[0]
				w := e.Load(s, a.A[0], b.vt)
				why := ""
				if !e.equal(s, w, v) {
					why = "an entry is not copied"
				}
				out["copied@"+dst.key] = why
			}
		}
		return out
	}
	tr.Out = func(s *State, it *Iter) {
		if !whole || it.Coll == nil || operand == nil || !e.equal(s, it.Coll, operand) {
			return
		}
		id := loopID(it.C, it.Head)
		for _, sg := range []string{"+1", "-1"} {
			for _, a := range places(s) {
				if in := s.gt["in@"+id+a.key]; in != nil && tr.Done(s, "sum"+sg+"@"+a.key, it.Coll) {
					s.mem[a] = tt.mk("bsum", sg, b.bt, in, operand)
				}
			}
			for _, ph := range lphis(it.Head) {
				if in := s.gt["in@"+id+ph.Name()]; in != nil && tr.Done(s, "sum"+sg+"@"+ph.Name(), it.Coll) {
					s.env[vkey{it.C, ph}] = tt.mk("bsum", sg, b.bt, in, operand)
				}
			}
		}
	}
	e.H.Call = func(s *State, c *Ctx, in ssa.CallInstruction, cn string, args []*Term) (*Term, bool) {
		for _, u := range uses {
			if strings.HasSuffix(cn, ".Balance)."+u) || strings.HasSuffix(cn, ".Balance."+u) {
				if u == "AddBalance" {
					old := e.Load(s, args[0], b.bt)
					e.Store(s, args[0], tt.mk("bsum", "+1", b.bt, old, args[1]), b.bt, c, in)
					return tt.mk("tuple", "void", nil), true
				}
				return e.balanceOps(s, c, in, cn, args)
			}
		}
		return nil, false
	}
	e.H.After = func(s *State, c *Ctx, in ssa.CallInstruction, cn string, args []*Term, res *Term) {
		if cn == "builtin.copy" && !whole {
			b.moved(s, args[0], args[1])
			return
		}
		if cn == "builtin.copy" {
			if e.equal(s, args[1], operand) {
				s.lits[tt.mk("done", "copied@"+args[0].key, types.Typ[types.Bool], operand)] = true
				s.sv = nil
			}
		}
	}
	e.H.Store = func(s *State, c *Ctx, in ssa.Instruction, addr, v *Term, t types.Type) {
		if addr == b.ptr || s.nonEscapedAlloc(rootOf(addr)) {
			return
		}
		if !whole {
			if k, field := b.element(s, addr); k != nil {
				b.log(s, k, field, v)
				return
			}
		}
		if allocTerm(rootOf(addr)) {
			return
		}
		s.gs["other"] = p.InstrPos(in)
	}
	e.H.Instr = func(s *State, c *Ctx, in ssa.Instruction) {
		u, ok := in.(*ssa.UnOp)
		if !ok || u.Op != token.MUL || whole {
			return
		}
		addr := e.val(s, c, u.X)
		if k, field := b.element(s, addr); k != nil {
			if n := len(b.writes(s)); n > 0 {
				s.gt["l@"+e.Load(s, addr, u.Type()).key] = tt.mk("current", fmt.Sprintf("%s@%d", field, n), nil, k)
			}
		}
	}
	e.H.Return = func(s *State, c *Ctx, in ssa.Instruction, res []*Term) {
		if c.fn != f || c.parent != nil {
			return
		}
		why := ""
		switch {
		case !whole:
			why = b.one(s, tr)
		case s.gs["other"] != "":
			why = "something other than the result is changed at " + s.gs["other"]
		case name == "Dup":
			why = b.dup(s, tr, res[0])
		default:
			why = b.all(s)
		}
		r.Add(rule, p.Fn(f), p.InstrPos(in), why == "", "%s; %s", why, e.path(s))
	}
	p.runDecided(r, rule, e, f, newState(), args)
	r.Counts["functions interpreted"] += len(e.Fns)
}

// all decides a state at the return of AddBalance or SubBalance.
func (b *balanceCheck) all(s *State) string {
	e := b.e
	fin := e.Load(s, b.ptr, b.bt)
	if e.zeroLen(s, b.v) && e.equal(s, fin, b.s0) {
		return ""
	}
	if fin.Op == "bsum" && e.equal(s, fin.A[0], b.s0) && e.equal(s, fin.A[1], b.v) && fin.S == fmt.Sprintf("%+d", b.sign) {
		return ""
	}
	return "not every entry is added (or subtracted) exactly once"
}

// dup decides a state at the return of Dup.
func (b *balanceCheck) dup(s *State, tr *Tracker, v *Term) string {
	e, tt := b.e, b.e.tt
	own := func(x *Term) bool {
		for x.Op == "slice" {
			x = x.A[0]
		}
		return x.Op == "nil" || x.Op == "zero" || x.Op == "sym" && (x.Info.kind == "alloc" || x.Info.kind == "make")
	}
	switch {
	case e.zeroLen(s, v) && e.zeroLen(s, b.s0):
		if own(v) {
			return ""
		}
		return "the storage is that of the original"
	case v.Op == "bsum" || v.Op == "appendv":
		if v.Op == "bsum" && v.S != "+1" || !e.zeroLen(s, v.A[0]) || !e.equal(s, v.A[1], b.s0) {
			return "the result is not the original's entries"
		}
		if !own(v.A[0]) {
			return "the storage is that of the original"
		}
		return ""
	case own(v):
		if e.equal(s, tt.length(v), tt.length(b.s0)) && tr.Done(s, "copied@"+v.key, b.s0) {
			return ""
		}
		return "the result is not known to hold the original's entries"
	}
	return "the result is not a new list of the original's entries"
}
