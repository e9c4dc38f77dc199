package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P27", "other", checkP27)
}

// tree decides how the tree of accounts is made.
type tree struct {
	p   *Prog
	r   *Report
	acc types.Type
}

func (x *tree) isAccount(t *Term) bool {
	return t != nil && t.T != nil && types.Identical(t.T, types.NewPointer(x.acc))
}

func (x *tree) isList(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(sl.Elem(), types.NewPointer(x.acc))
}

// insertShape: the parameters of a function that lists the accounts of a subtree.
type insertShape struct {
	where, acc, level int // -1: none
	byResult          bool
}

// inserters: the functions that call themselves for the children of an account
// and add accounts to a list.
func (x *tree) inserters(roots ...*ssa.Function) map[*ssa.Function]insertShape {
	out := map[*ssa.Function]insertShape{}
	for f := range x.p.reach(roots...) {
		if !x.p.isMod[f] || !selfCalls(f) {
			continue
		}
		sh := insertShape{-1, -1, -1, false}
		for i, pa := range f.Params {
			switch {
			case types.Identical(pa.Type(), types.NewPointer(x.acc)):
				sh.acc = i
			case x.isList(deref(pa.Type())):
				sh.where = i
			case isInt(pa.Type()):
				sh.level = i
			}
		}
		rs := f.Signature.Results()
		if sh.acc < 0 || sh.where < 0 {
			continue
		}
		sh.byResult = x.isList(f.Params[sh.where].Type())
		if sh.byResult != (rs.Len() == 1) {
			continue
		}
		out[f] = sh
	}
	return out
}

// running: the current elements of the lists that the loops an instruction is
// in are going over.
func running(e *Eng, s *State, c *Ctx, in ssa.Instruction, ok func(coll *Term) bool) (out []*Term) {
	for c != nil {
		for h, l := range e.flow(c.fn).loops {
			id := loopID(c, h)
			i := s.gt["i@"+id]
			if !l.blocks[in.Block()] || i == nil {
				continue
			}
			n, coll := s.gt["n@"+id], s.gt["d@"+id]
			if coll == nil && n != nil && n.Op == "len" {
				coll = n.A[0]
			}
			if coll != nil && coll.T != nil && ok(coll) {
				out = append(out, e.elem(s, coll, i))
			}
		}
		in, c = c.call, c.parent
	}
	return
}

func alsoAtHead(f, g func(s *State, c *Ctx, h *ssa.BasicBlock)) func(s *State, c *Ctx, h *ssa.BasicBlock) {
	return func(s *State, c *Ctx, h *ssa.BasicBlock) {
		f(s, c, h)
		if g != nil {
			g(s, c, h)
		}
	}
}

func (x *tree) checkInserter(f *ssa.Function, sh insertShape) {
	p, r := x.p, x.r
	e := NewEng(p)
	e.NonNil = e.usualNonNil
	tt := e.tt
	args := e.Params(f)
	acc, where := args[sh.acc], args[sh.where]
	tr := e.Track()
	lists := e.sameAsPhi("list")
	e.H.LoopBack = alsoAtHead(lists.head, e.H.LoopBack)
	list := func(s *State) *Term {
		if sh.byResult {
			return lists.get(s)
		}
		return e.Load(s, where, deref(where.T))
	}
	ownLevel := func(s *State) string { // the level the function has given the account itself
		switch {
		case s.gs["levp"] == "0" && !e.isNil(s, e.fld(s, acc, "Parent")):
			return ""
		}
		return s.gs["levp"]
	}
	needs, lacks := "", ""
	bad := func(in ssa.Instruction, s *State, why string) {
		r.Bad("subtree", p.Fn(f), p.InstrPos(in), "%s; %s", why, e.path(s))
	}
	isChildren := func(s *State, coll *Term) bool {
		return coll != nil && coll.Op == "load" && coll.A[0].Op == "fa" && shortField(coll.A[0].S) == "Account.Children" && e.equal(s, coll.A[0].A[0], acc)
	}
	appended := func(s *State, in ssa.Instruction, v *Term) bool { // v is the list with the account at its end
		if len(v.A) == 2 && v.Op == "append" && e.equal(s, v.A[0], list(s)) && e.equal(s, v.A[1], acc) && s.gs["own"] == "" {
			s.gs["own"] = "1"
			return true
		}
		return false
	}
	e.H.Call = func(s *State, c *Ctx, in ssa.CallInstruction, name string, as []*Term) (*Term, bool) {
		if in.Common().StaticCallee() != f {
			return nil, false
		}
		a, w := as[sh.acc], as[sh.where]
		switch {
		case s.gs["own"] == "":
			bad(in, s, "the accounts below are listed before the account itself")
		case sh.byResult && !e.equal(s, w, list(s)) || !sh.byResult && !e.equal(s, w, where):
			bad(in, s, "the accounts below go to another list")
		}
		if !(s.gs["lvl"] != "" && e.equal(s, s.gt["lvl"], a)) && !(sh.level >= 0 && s.gs["lev"] != "" && e.equal(s, as[sh.level], tt.addc(args[sh.level], 1))) {
			if ownLevel(s) == "" {
				bad(in, s, "the level of the account below is not one more than the account's")
			}
			needs = p.InstrPos(in) // it sets its level itself
		}
		if s.gs["call"] != "" {
			s.gs["call"] = "2"
		} else {
			s.gs["call"] = "1"
			for _, el := range running(e, s, c, in, func(coll *Term) bool { return isChildren(s, coll) }) {
				if !e.equal(s, el, a) {
					s.gs["call"] = "2"
				}
			}
		}
		s.gs["in"] = "1"
		if v := in.Value(); v != nil && sh.byResult {
			res := e.newSym("op", "listed", v.Type(), c, v, in)
			lists.set(s, res)
			return res, true
		}
		// the rest of the subtree: levels and the list change
		return nil, false
	}
	e.H.After = func(s *State, c *Ctx, in ssa.CallInstruction, name string, as []*Term, res *Term) {
		if sh.byResult && name == "builtin.append" && x.isList(res.T) {
			if appended(s, in, res) {
				lists.set(s, res)
			} else {
				bad(in, s, "something other than the account itself, once, is added to the list")
			}
		}
	}
	e.H.Store = func(s *State, c *Ctx, in ssa.Instruction, addr, v *Term, t types.Type) {
		switch {
		case !sh.byResult && e.equal(s, addr, where):
			if !appended(s, in, v) {
				bad(in, s, "something other than the account itself, once, is added to the list")
			}
		case addr.Op == "fa":
			switch shortField(addr.S) {
			case "Account.Children", "Account.Parent":
				bad(in, s, "the tree is changed while it is listed")
			case "Account.Level":
				if e.equal(s, v, tt.addc(e.fld(s, acc, "Level"), 1)) {
					s.gs["lvl"], s.gt["lvl"] = "1", addr.A[0]
				} else if e.equal(s, addr.A[0], acc) {
					if sh.level >= 0 && e.equal(s, v, args[sh.level]) {
						s.gs["lev"] = "1"
					} else if par := e.fld(s, acc, "Parent"); s.gs["in"] == "" && e.notNil(s, par) && e.equal(s, v, tt.addc(e.fld(s, par, "Level"), 1)) {
						s.gs["levp"] = "1"
					} else if n, isC := v.intVal(); isC && n == 0 && s.gs["in"] == "" {
						s.gs["levp"] = "0"
					} else {
						bad(in, s, "the level of an account is not one more than its parent's")
					}
				}
			}
		}
	}
	tr.In = func(s *State, it *Iter) {
		lists.head(s, it.C, it.Head)
		for _, k := range []string{"call", "lvl"} {
			delete(s.gs, k)
			delete(s.gt, k)
		}
	}
	tr.Back = func(s *State, it *Iter) map[string]string {
		if it.IsMap || !isChildren(s, it.Coll) {
			return nil
		}
		why := ""
		switch {
		case s.gs["call"] == "":
			why = "a child is left out: " + e.path(s)
		case s.gs["call"] != "1":
			why = "it is not each child, once, that is listed: " + e.path(s)
		}
		delete(s.gs, "call")
		delete(s.gt, "call")
		delete(s.gs, "lvl")
		delete(s.gt, "lvl")
		return map[string]string{"children": why}
	}
	whyNot := ""
	tr.Out = func(s *State, it *Iter) {
		if it.Coll != nil && isChildren(s, it.Coll) {
			if tr.Done(s, "children", it.Coll) {
				if s.gs["all"] == "" {
					s.gs["all"] = "1"
				} else {
					s.gs["all"] = "2"
				}
			} else if w := tr.Why("children", it.Coll); w != "" {
				whyNot = w
			}
		}
	}
	e.H.Return = func(s *State, c *Ctx, in ssa.Instruction, res []*Term) {
		if c.fn != f || c.parent != nil {
			return
		}
		why := ""
		ch := e.fld(s, acc, "Children")
		switch {
		case s.gs["own"] == "":
			why = "the account is not added to the list"
		case s.gs["all"] != "1" && !e.implied(s, tt.eq(tt.length(ch), tt.intc(0, nil)), true):
			why = "not every child's subtree is known to be listed once: " + whyNot
		case sh.byResult && !e.equal(s, res[0], list(s)):
			why = "another list is returned"
		case s.gs["levp"] == "0" && ownLevel(s) == "":
			why = "the level of an account is not one more than its parent's"
		}
		if ownLevel(s) == "" {
			lacks = e.path(s)
		}
		r.Add("subtree", p.Fn(f), p.InstrPos(in), why == "", "%s; %s", why, e.path(s))
	}
	s := newState()
	if sh.byResult {
		s.gt["list"] = where
	}
	p.runDecided(r, "subtree", e, f, s, args)
	if needs != "" && lacks != "" {
		r.Bad("subtree", p.Fn(f), needs, "the level of an account is not set on all paths; %s", lacks)
	}
	r.Counts["functions interpreted"] += len(e.Fns)
}

// checkFill: Fill makes the lists of children anew, and lists the accounts from the top down.
func (x *tree) checkFill() {
	p, r := x.p, x.r
	f := p.Method(types.NewPointer(p.RootType("Ledger")), p.Root.Pkg, "Fill")
	if !mustFn(r, f, "(*accounting.Ledger).Fill") {
		return
	}
	ins := x.inserters(f)
	var names []*ssa.Function
	for g := range ins {
		names = append(names, g)
	}
	sort.Slice(names, func(i, j int) bool { return names[i].Name() < names[j].Name() })
	for _, g := range names {
		x.checkInserter(g, ins[g])
	}
	e := NewEng(p)
	e.NonNil = e.usualNonNil
	e.coarse()
	tt := e.tt
	args := e.Params(f)
	led := args[0]
	tr := e.Track()
	phase := func(s *State) string { return s.gs["phase"] } // "": before, "built": Accounts holds the new list
	clear := func(s *State) {
		for _, k := range []string{"link", "ins", "reset"} {
			delete(s.gs, k)
			delete(s.gt, k)
		}
	}
	// heldIn: the fields of the ledger that hold an account.
	heldIn := func(s *State, a *Term) (out []string) {
		st := structOf(deref(led.T))
		for i := 0; i < st.NumFields(); i++ {
			if types.Identical(st.Field(i).Type(), types.NewPointer(x.acc)) && e.equal(s, a, e.fld(s, led, st.Field(i).Name())) {
				out = append(out, "not in "+st.Field(i).Name())
			}
		}
		return
	}
	isSame := map[string]bool{}
	whyNot, others := map[string]string{}, map[string]*Term{}
	lists := e.sameAsPhi("list")
	tr.In = func(s *State, it *Iter) {
		clear(s)
		lists.head(s, it.C, it.Head)
		if phase(s) != "" && s.gs["extra"] == "" {
			delete(s.gs, "is")
		}
	}
	e.H.LoopBack = alsoAtHead(lists.head, e.H.LoopBack)
	tr.Back = func(s *State, it *Iter) map[string]string {
		if it.IsMap || it.Coll == nil || it.Coll.T == nil || !x.isList(it.Coll.T) {
			return nil
		}
		out := map[string]string{}
		a := e.elem(s, it.Coll, it.Idx)
		par := e.fld(s, a, "Parent")
		if phase(s) == "" {
			if !e.zeroLen(s, e.fld(s, a, "Children")) {
				out["reset"] = "the children an account had are kept: " + e.path(s)
			} else {
				out["reset"] = ""
			}
			switch {
			case s.gs["link"] == "2":
				out["link"] = "an account is added to the children of another more than once: " + e.path(s)
			case e.isNil(s, par) && s.gs["link"] == "":
				out["link"] = ""
			case s.gs["link"] == "":
				out["link"] = "an account that has a parent is not added to its children: " + e.path(s)
			case !e.equal(s, s.gt["link"], a):
				out["link"] = "it is not the account itself that is added to the children: " + e.path(s)
			default:
				out["link"] = ""
			}
			switch {
			case s.gs["ins"] == "2":
				out["list"] = "an account is listed more than once: " + e.path(s)
			case s.gs["ins"] == "" && e.notNil(s, par):
				out["list"] = ""
			case s.gs["ins"] == "":
				out["list"] = "an account without a parent may not be listed: " + e.path(s)
			case s.gs["ins"] == "other":
				out["list"] = "not only accounts without a parent are listed: " + e.path(s)
			default:
				out["list"] = ""
			}
		} else {
			for t, pos := range s.lits { // which account is this one known not to be?
				if t.Op != "eq" {
					continue
				}
				for i := range t.A {
					if o := t.A[1-i]; e.equal(s, t.A[i], a) && x.isAccount(o) && !o.isConst() {
						if !pos {
							others[o.key] = o
							out["not "+o.key] = ""
							for _, k := range heldIn(s, o) {
								out[k] = ""
							}
						} else if isSame[o.key] || len(isSame) < 2 { // one of them is it
							isSame[o.key] = true
							others[o.key] = o
							out["not "+o.key] = ""
							s.gs["is"] = o.key
							for _, k := range heldIn(s, o) {
								out[k] = ""
							}
						}
					}
				}
			}
			if k := s.gs["is"]; k != "" {
				out["not "+k] = ""
				for _, k := range heldIn(s, others[k]) {
					out[k] = ""
				}
			}
		}
		clear(s)
		return out
	}
	tr.Out = func(s *State, it *Iter) {
		if it.Coll == nil || it.Coll.T == nil || !x.isList(it.Coll.T) || phase(s) != "" {
			return
		}
		for _, k := range []string{"reset", "link", "list"} {
			if tr.Done(s, k, it.Coll) && e.equal(s, it.Coll, e.fld(s, led, "Accounts")) {
				s.gs["done "+k] = "1"
			} else if w := tr.Why(k, it.Coll); w != "" {
				whyNot[k] = w
			}
		}
	}
	e.H.Opaque = func(g *ssa.Function) bool { _, ok := ins[g]; return ok }
	bad := func(rule string, in ssa.Instruction, s *State, why string) {
		r.Bad(rule, p.Fn(in.Parent())+" "+p.InstrPos(in), p.InstrPos(in), "%s; %s", why, e.path(s))
	}
	e.H.Call = func(s *State, c *Ctx, in ssa.CallInstruction, name string, as []*Term) (*Term, bool) {
		if t, ok := e.balanceOps(s, c, in, name, as); ok {
			return t, ok
		}
		sh, ok := ins[in.Common().StaticCallee()]
		if !ok {
			return nil, false
		}
		a, w := as[sh.acc], as[sh.where]
		s.gs["listing"] = "1"
		if s.gs["done link"] == "" {
			bad("listed", in, s, "accounts are listed before their children are known: "+whyNot["link"])
		}
		lev := e.fld(s, a, "Level")
		if sh.level >= 0 {
			lev = as[sh.level]
		}
		n, isC := lev.intVal()
		r.Add("root-level", p.Fn(f), p.InstrPos(in), isC && n == 0, "the level of an account without a parent is not known to be zero; %s", e.path(s))
		if s.gs["ins"] != "" {
			s.gs["ins"] = "2"
		} else {
			s.gs["ins"] = "1"
			for _, el := range running(e, s, c, in, func(coll *Term) bool { return x.isList(coll.T) }) {
				if !e.equal(s, el, a) || !e.isNil(s, e.fld(s, a, "Parent")) {
					s.gs["ins"] = "other"
				}
			}
		}
		if old := lists.get(s); sh.byResult && !(old != nil && e.equal(s, w, old)) && !e.zeroLen(s, w) || !sh.byResult && old != nil && !e.equal(s, w, old) {
			bad("listed", in, s, "the accounts do not all go to one list")
		}
		if !sh.byResult {
			if lists.get(s) == nil && !e.zeroLen(s, e.Load(s, w, deref(w.T))) && s.gs["listed"] == "" {
				bad("listed", in, s, "the list is not empty at first")
			}
			s.gs["listed"] = "1"
			lists.set(s, w)
			return nil, false
		}
		res := e.newSym("op", "listed", in.Value().Type(), c, in.Value(), in)
		lists.set(s, res)
		return res, true
	}
	e.H.Store = func(s *State, c *Ctx, in ssa.Instruction, addr, v *Term, t types.Type) {
		if addr.Op != "fa" || allocTerm(rootOf(addr)) {
			return
		}
		switch shortField(addr.S) {
		case "Account.Parent":
			bad("tree-writes", in, s, "the parent of an account changes")
		case "Account.Level":
			if phase(s) != "" {
				bad("tree-writes", in, s, "the level of an account changes after the accounts are listed")
			}
		case "Account.Children":
			if phase(s) != "" || s.gs["listing"] != "" {
				bad("tree-writes", in, s, "the children of an account change after the accounts are listed")
				return
			}
			if e.zeroLen(s, v) {
				if s.gs["linking"] != "" {
					bad("children", in, s, "the children of an account are forgotten")
				}
				return
			}
			s.gs["linking"] = "1"
			if s.gs["done reset"] == "" {
				bad("children", in, s, "children are added before all the old ones are forgotten: "+whyNot["reset"])
			}
			if len(v.A) != 2 || v.Op != "append" || !e.equal(s, v.A[0], e.Load(s, addr, t)) || !e.equal(s, addr.A[0], e.fld(s, v.A[1], "Parent")) {
				bad("children", in, s, "something other than adding an account to its parent's children")
				return
			}
			r.OK("children", p.Fn(in.Parent())+" "+p.InstrPos(in), p.InstrPos(in))
			if s.gs["link"] != "" {
				s.gs["link"] = "2"
			} else {
				s.gs["link"], s.gt["link"] = "1", v.A[1]
			}
		case "Ledger.Accounts":
			if phase(s) == "" {
				why := ""
				var built *Term
				if l := lists.get(s); l != nil {
					built = l
					if _, isP := l.T.Underlying().(*types.Pointer); isP {
						built = e.Load(s, l, deref(l.T))
					}
				}
				switch {
				case s.gs["done list"] == "":
					why = "not every account is known to be listed once: " + whyNot["list"] + whyNot["link"]
				case built == nil && s.gs["listed"] == "" && e.zeroLen(s, v): // there are no accounts
				case built == nil || !e.equal(s, v, built):
					why = "the list of the accounts is not the one just made"
				}
				if s.gs["done reset"] == "" || s.gs["done link"] == "" {
					why = "the children of the accounts are not known when they are listed: " + whyNot["reset"] + whyNot["link"]
				}
				for _, k := range []string{"done reset", "done link", "done list", "linking", "listing", "listed"} {
					delete(s.gs, k)
				}
				lists.set(s, nil)
				s.gs["phase"] = "built"
				r.Add("listed", p.Fn(in.Parent())+" "+p.InstrPos(in), p.InstrPos(in), why == "", "%s; %s", why, e.path(s))
				return
			}
			old := e.Load(s, addr, t)
			why := ""
			if len(v.A) != 2 || v.Op != "append" || !e.equal(s, v.A[0], old) {
				why = "the list of the accounts changes"
			} else if s.gs["extra"] != "" {
				why = "more than one account is added"
			} else {
				found := e.zeroLen(s, old)
				for t, pos := range s.lits {
					if pos && t.Op == "done" && strings.HasPrefix(t.S, "not ") && len(t.A) == 1 && e.equal(s, t.A[0], old) && others[strings.TrimPrefix(t.S, "not ")] != nil {
						found = found || s.gs["is"] == "" && e.equal(s, others[strings.TrimPrefix(t.S, "not ")], v.A[1])
					}
				}
				for _, k := range heldIn(s, v.A[1]) {
					found = found || s.gs["is"] == "" && tr.Done(s, k, old)
				}
				if !found && !s.nonEscapedAlloc(rootOf(v.A[1])) {
					why = "an account is added that is not known not to be in the list"
				}
			}
			s.gs["extra"] = "1"
			r.Add("added-once", p.Fn(in.Parent())+" "+p.InstrPos(in), p.InstrPos(in), why == "", "%s; %s", why, e.path(s))
		}
	}
	e.H.Return = func(s *State, c *Ctx, in ssa.Instruction, res []*Term) {
		if c.fn != f || c.parent != nil || len(res) != 1 || e.notNil(s, res[0]) {
			return
		}
		r.Add("listed", "result of Fill", p.InstrPos(in), phase(s) == "built", "Fill succeeds without having made the tree; %s", e.path(s))
	}
	s0 := newState()
	for _, sh := range ins {
		if sh.byResult {
			s0.gt["list"] = tt.nilc(types.NewSlice(types.NewPointer(x.acc)))
		}
	}
	p.runDecided(r, "listed", e, f, s0, args)
	r.Counts["functions interpreted"] += len(e.Fns)
	// nobody else changes the tree
	ok := p.reach(f)
	if c := p.Method(types.NewPointer(p.RootType("Ledger")), p.Root.Pkg, "Clone"); c != nil {
		for g := range p.reach(c) {
			ok[g] = true
		}
	}
	for _, g := range p.Funcs {
		if !p.IsLib(g) {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				st, is := in.(*ssa.Store)
				if !is {
					continue
				}
				fa, is := st.Addr.(*ssa.FieldAddr)
				if !is || !types.Identical(deref(fa.X.Type()), x.acc) {
					continue
				}
				n := structOf(x.acc).Field(fa.Field).Name()
				if n == "Level" || n == "Children" {
					r.Add("tree-writes", p.Fn(g)+" "+n, p.InstrPos(in), ok[g], "%s of an account is set outside of Fill and Clone", n)
				}
			}
		}
	}
}

// fullName: a term for the full name of an account.
func (x *tree) fullName(e *Eng, a *Term) *Term {
	if _, ok := a.T.Underlying().(*types.Struct); ok && a.Op == "load" {
		a = a.A[0]
	}
	return e.tt.mk("fn", "FullName", types.Typ[types.String], a)
}

func (x *tree) isFullName(g *ssa.Function) bool {
	return g != nil && g.Name() == "FullName" && len(g.Params) == 1 && types.Identical(deref(g.Params[0].Type()), x.acc)
}

// byName: does a function look for an account by its name?
func (x *tree) byName(f *ssa.Function) (name int) {
	name = -1
	rs := f.Signature.Results()
	if rs.Len() == 0 || !types.Identical(rs.At(0).Type(), types.NewPointer(x.acc)) {
		return -1
	}
	for i, pa := range f.Params {
		if isStr(pa.Type()) {
			name = i // the last text is the name
		}
	}
	return
}

// sliceOf: is v the text t from lo (excluded) or up to hi?
func cutOf(e *Eng, s *State, v, t, lo, hi *Term) bool {
	if v == nil || v.Op != "slice" || len(v.A) < 3 || !e.equal(s, v.A[0], t) {
		return false
	}
	zero := func(x *Term) bool {
		if x.Op == "none" {
			return true
		}
		n, ok := x.intVal()
		return ok && n == 0
	}
	if lo == nil {
		return zero(v.A[1]) && v.A[2].Op != "none" && e.equal(s, v.A[2], hi)
	}
	return v.A[1].Op != "none" && e.equal(s, v.A[1], lo) && (v.A[2].Op == "none" || e.equal(s, v.A[2], e.tt.length(t)))
}

// checkNamed: a function that finds or creates the account of a full name.
func (x *tree) checkNamed(f *ssa.Function) {
	p, r := x.p, x.r
	e := NewEng(p)
	e.NonNil = e.usualNonNil
	tt := e.tt
	args := e.Params(f)
	name := args[x.byName(f)]
	tr := e.Track()
	listOf := func(t *Term) bool {
		return t != nil && t.Op == "load" && t.A[0].Op == "fa" && shortField(t.A[0].S) == "Ledger.Accounts"
	}
	colon := func(s *State) (at []*Term, none bool) {
		for t := range s.lits {
			var look func(t *Term)
			look = func(t *Term) {
				if t.Op == "fn" && (t.S == "strings.LastIndexByte" || t.S == "strings.LastIndex") && len(t.A) == 2 && e.equal(s, t.A[0], name) {
					c, isS := t.A[1].strVal()
					n, isN := t.A[1].intVal()
					if isS && c == ":" || isN && n == ':' {
						at = append(at, t)
						none = none || e.implied(s, tt.lt(t, tt.intc(0, nil)), true)
					}
				}
				for _, a := range t.A {
					look(a)
				}
			}
			look(t)
		}
		for t, pos := range s.lits {
			if !pos && t.Op == "fn" && (t.S == "strings.Contains" || t.S == "strings.ContainsRune") && e.equal(s, t.A[0], name) {
				c, isS := t.A[1].strVal()
				n, isN := t.A[1].intVal()
				none = none || isS && c == ":" || isN && n == ':'
			}
		}
		return
	}
	bad := func(in ssa.Instruction, s *State, why string) {
		r.Bad("account-name", p.Fn(f), p.InstrPos(in), "%s; %s", why, e.path(s))
	}
	tr.Back = func(s *State, it *Iter) map[string]string {
		if it.IsMap || !listOf(it.Coll) {
			return nil
		}
		why := ""
		same := tt.eq(x.fullName(e, e.elem(s, it.Coll, it.Idx)), name)
		if e.implied(s, same, true) {
			// it has been found
			s.gs["hit"], s.gt["hit"] = "1", e.elem(s, it.Coll, it.Idx)
		} else if !e.implied(s, same, false) {
			why = "an account that may have the name is passed over: " + e.path(s)
		}
		return map[string]string{"other-name": why}
	}
	whyNot := ""
	tr.Out = func(s *State, it *Iter) {
		if listOf(it.Coll) && s.gs["changed"] == "" && s.gs["hit"] == "" {
			if tr.Done(s, "other-name", it.Coll) {
				s.gs["unknown"] = "1"
			} else if w := tr.Why("other-name", it.Coll); w != "" {
				whyNot = w
			}
		}
	}
	e.H.Call = func(s *State, c *Ctx, in ssa.CallInstruction, cn string, as []*Term) (*Term, bool) {
		g := in.Common().StaticCallee()
		if x.isFullName(g) {
			return x.fullName(e, as[0]), true
		}
		if g == f {
			s.gs["changed"] = "1"
			at, _ := colon(s)
			ok := false
			for _, i := range at {
				ok = ok || cutOf(e, s, as[x.byName(f)], name, nil, i)
			}
			if !ok {
				bad(in, s, "the parent is not the account of the name up to the last colon")
			}
			s.gs["par"] = "1"
		}
		return nil, false
	}
	e.H.After = func(s *State, c *Ctx, in ssa.CallInstruction, cn string, as []*Term, res *Term) {
		if in.Common().StaticCallee() == f && res != nil {
			if res.Op == "tuple" {
				res = res.A[0]
			} else if f.Signature.Results().Len() > 1 {
				res = tt.mk("extract", "0", types.NewPointer(x.acc), res)
			}
			s.gt["par"] = res
		}
	}
	e.H.Store = func(s *State, c *Ctx, in ssa.Instruction, addr, v *Term, t types.Type) {
		if addr.Op != "fa" || shortField(addr.S) != "Ledger.Accounts" {
			return
		}
		s.gs["changed"] = "1"
		if v.Op != "append" || len(v.A) != 2 || !e.equal(s, v.A[0], e.Load(s, addr, t)) || !allocTerm(v.A[1]) {
			bad(in, s, "something other than adding a new account to the list")
			return
		}
		if s.gs["new"] != "" {
			bad(in, s, "more than one account is added")
		}
		a := v.A[1]
		s.gs["new"], s.gt["new"] = "1", a
		if s.gs["unknown"] == "" {
			bad(in, s, "an account is added without knowing that none of the accounts has the name; "+whyNot)
		}
	}
	e.H.Return = func(s *State, c *Ctx, in ssa.Instruction, res []*Term) {
		if c.fn != f || c.parent != nil {
			return
		}
		why := ""
		if s.gs["new"] == "" {
			if !e.equal(s, x.fullName(e, res[0]), name) && (s.gt["hit"] == nil || !e.equal(s, res[0], s.gt["hit"])) {
				why = "the account returned may have another name"
			}
		} else {
			a := s.gt["new"]
			par, nm := e.fld(s, a, "Parent"), e.fld(s, a, "Name")
			at, none := colon(s)
			switch {
			case !e.equal(s, res[0], a):
				why = "another account than the new one is returned"
			case s.gs["par"] == "" && none:
				if !e.isNil(s, par) || !e.equal(s, nm, name) {
					why = "an account whose name has no colon has a parent or another name"
				}
			case s.gs["par"] == "":
				why = "the new account may have a name with a colon and no parent"
			default:
				ok := false
				for _, i := range at {
					ok = ok || cutOf(e, s, nm, name, tt.addc(i, 1), nil) && e.implied(s, tt.lt(i, tt.intc(0, nil)), false)
				}
				if !ok {
					why = "the new account's name is not what follows the last colon"
				} else if !e.equal(s, par, s.gt["par"]) {
					why = "the new account's parent is not the account of the name up to the last colon"
				}
			}
		}
		if why == "" && len(res) == 2 && isBool(res[1].T) {
			if !e.implied(s, res[1], s.gs["new"] != "") {
				why = "it does not tell whether the account is new"
			}
		}
		r.Add("account-name", p.Fn(f), p.InstrPos(in), why == "", "%s; %s", why, e.path(s))
	}
	p.runDecided(r, "account-name", e, f, newState(), args)
	r.Counts["functions interpreted"] += len(e.Fns)
}

// checkLoader: a function that adds accounts it has read to the ledger.
func (x *tree) checkLoader(f *ssa.Function, named map[*ssa.Function]bool) {
	p, r := x.p, x.r
	e := NewEng(p)
	e.NonNil = e.usualNonNil
	e.coarse()
	tt := e.tt
	accPtr := types.NewPointer(x.acc)
	isAccMap := func(m *Term) bool {
		if m == nil || m.T == nil {
			return false
		}
		mt, ok := m.T.Underlying().(*types.Map)
		return ok && types.Identical(mt.Elem(), accPtr)
	}
	e.H.Opaque = func(g *ssa.Function) bool { return named[g] }
	e.H.MapWrite = func(s *State, c *Ctx, in ssa.Instruction, m, k, v *Term) {
		if !isAccMap(m) {
			return
		}
		if s.gt["listed"] == nil || !e.equal(s, s.gt["listed"], v) {
			s.gs["put"], s.gt["put"] = p.InstrPos(in), v
		}
	}
	done := func(s *State, in ssa.Instruction) {
		r.Add("parent-listed", p.Fn(f)+" map", p.InstrPos(in), s.gs["put"] == "", "an account that may become a parent is not added to the list of the accounts (%s); %s", s.gs["put"], e.path(s))
		delete(s.gs, "put")
		delete(s.gt, "put")
		delete(s.gt, "listed")
	}
	parent := func(s *State, v *Term) bool {
		var from func(v *Term) bool
		from = func(v *Term) bool {
			switch {
			case e.isNil(s, v):
				return true
			case v.Op == "lookup":
				return isAccMap(v.A[0])
			}
			return false
		}
		return from(v) || s.lits[tt.mk("named", "", types.Typ[types.Bool], v)]
	}
	e.H.After = func(s *State, c *Ctx, in ssa.CallInstruction, cn string, as []*Term, res *Term) {
		if named[in.Common().StaticCallee()] && res != nil {
			a := res
			if res.Op == "tuple" {
				a = res.A[0]
			}
			s.lits[tt.mk("named", "", types.Typ[types.Bool], a)], s.sv = true, nil
		}
	}
	e.H.Store = func(s *State, c *Ctx, in ssa.Instruction, addr, v *Term, t types.Type) {
		if addr.Op != "fa" {
			return
		}
		switch shortField(addr.S) {
		case "Account.Parent":
			r.Add("parent-listed", p.Fn(f), p.InstrPos(in), parent(s, v), "the parent of an account is not known to be one of the accounts; %s", e.path(s))
		case "Ledger.Accounts":
			if s.nonEscapedAlloc(rootOf(addr)) {
				return
			}
			old := e.Load(s, addr, t)
			why := ""
			switch {
			case e.zeroLen(s, v):
				if s.gs["begun"] != "" {
					why = "the accounts read so far are forgotten"
				}
			case e.equal(s, v, old):
			case v.Op == "append" && len(v.A) == 2 && e.equal(s, v.A[0], old):
				s.gs["begun"] = "1"
				s.gt["listed"] = v.A[1]
				if s.gs["put"] != "" && e.equal(s, s.gt["put"], v.A[1]) {
					delete(s.gs, "put")
					delete(s.gt, "put")
				}
			default:
				why = "something other than adding an account to the list of the accounts"
			}
			r.Add("only-added", p.Fn(f)+" "+p.InstrPos(in), p.InstrPos(in), why == "", "%s; %s", why, e.path(s))
		}
	}
	e.H.LoopBack = func(s *State, c *Ctx, h *ssa.BasicBlock) { done(s, h.Instrs[0]) }
	e.H.Return = func(s *State, c *Ctx, in ssa.Instruction, res []*Term) {
		if c.fn == f && c.parent == nil {
			done(s, in)
		}
	}
	p.runDecided(r, "parent-listed", e, f, newState(), e.Params(f))
	r.Counts["functions interpreted"] += len(e.Fns)
}

func checkP27(p *Prog, r *Report) {
	r.Expl = "Abstract interpretation, on all paths, of everything in the library that makes the tree of accounts. " +
		"Fill: a loop over all accounts forgets the Children of each (children), a later one adds each account that has a parent to the Children of that parent, once, and no other; then each account without a parent, whose Level is zero, is handed once, with one list, to the function that lists a subtree (listed, root-level), " +
		"which adds the account itself before anything else and then calls itself once for each of its children, whose Level is one more (subtree, with induction over the recursion); that list becomes Ledger.Accounts. After that an account is only added if a loop over all accounts has shown it is not among them (added-once), and nothing changes Level, Children or Parent (tree-writes). " +
		"The loaders: an account is created for a full name only after all accounts have been shown to have other names, it is called what follows the last colon, its parent is the account of what comes before it, and it is added to the list once (account-name); elsewhere the parent of an account is one that has been added to the list (parent-listed), and the list only grows (only-added)."
	r.Assume = append(r.Assume, "the parents of the accounts form no cycle (they are set when an account is created, to one created before)",
		"(*Account).FullName depends on nothing but the account, which is not renamed while one is looked for")
	x := &tree{p: p, r: r, acc: p.RootType("Account")}
	x.checkFill()
	fill := p.reach(p.Method(types.NewPointer(p.RootType("Ledger")), p.Root.Pkg, "Fill"))
	if c := p.Method(types.NewPointer(p.RootType("Ledger")), p.Root.Pkg, "Clone"); c != nil {
		for g := range p.reach(c) {
			fill[g] = true
		}
	}
	writes := map[*ssa.Function]bool{}
	for _, g := range p.Funcs {
		if !p.IsLib(g) || fill[g] {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						n := structOf(deref(fa.X.Type())).Field(fa.Field).Name()
						if n == "Accounts" && isLedger(p, fa.X.Type()) || n == "Parent" && types.Identical(deref(fa.X.Type()), x.acc) {
							writes[g] = true
						}
					}
				}
			}
		}
	}
	named, loaders := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for g := range writes {
		up := g
		for f := range p.isMod { // a part of a function that looks for an account by name
			if x.byName(f) >= 0 && p.IsLib(f) && !fill[f] && selfCalls(f) && p.reach(f)[g] {
				up = f
			}
		}
		if x.byName(up) >= 0 {
			named[up] = true
		} else {
			loaders[up] = true
		}
	}
	var fs []*ssa.Function
	for f := range named {
		fs = append(fs, f)
	}
	for f := range loaders {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return p.Fn(fs[i]) < p.Fn(fs[j]) })
	for _, f := range fs {
		if named[f] {
			x.checkNamed(f)
		} else {
			x.checkLoader(f, named)
		}
	}
	r.Expect("subtree", 1)
	r.Expect("children", 1)
	r.Expect("listed", 2)
	r.Expect("root-level", 1)
	r.Expect("added-once", 1)
	r.Expect("account-name", 1)
	r.Expect("parent-listed", 1)
}
