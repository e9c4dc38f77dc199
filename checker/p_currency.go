package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("P36", "other", checkP36) }

// names: one currency for each name.
type currencies struct {
	p   *Prog
	r   *Report
	cur types.Type
	val types.Type
}

// finder: does f look for the currency that a text names? It gives the number
// of the result that has the currency, and whether it is a part of a Value.
func (x *currencies) finder(f *ssa.Function) (res int, inValue bool) {
	text := false
	for _, pa := range f.Params {
		text = text || isStr(pa.Type())
	}
	if !text {
		return -1, false
	}
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		if types.Identical(t, types.NewPointer(x.cur)) {
			return i, false
		}
		if types.Identical(deref(t), x.val) {
			return i, true
		}
	}
	return -1, false
}

func currencyList(t *Term) bool {
	return t != nil && t.Op == "load" && t.A[0].Op == "fa" && shortField(t.A[0].S) == "Ledger.Currencies"
}

func (x *currencies) check(f *ssa.Function, seen map[*ssa.Function]bool) {
	p, r := x.p, x.r
	e := NewEng(p)
	e.NonNil = e.usualNonNil
	tt := e.tt
	e.Cap, e.LCap = 12, 2
	e.PhiRel = func(t types.Type) bool { return !isInt(t) && !isBool(t) }
	var rel func(t *Term) bool
	rel = func(t *Term) bool {
		switch t.Op {
		case "not":
			return rel(t.A[0])
		case "eq", "lt":
			for _, a := range t.A {
				if a.T != nil && isTime(a.T) {
					return false
				}
				if a.T == nil || isInt(a.T) {
					if _, isC := a.intVal(); !isC && !lenOfList(a) && !(a.Op == "len" && t.Op == "eq" && isStr(a.A[0].T)) {
						return false
					}
				}
			}
			return true
		}
		return t.Op != "fn"
	}
	e.Fact = rel
	touches := map[*ssa.Function]bool{}
	for g := range p.isMod {
		if x.writes(g) {
			touches[g] = true
		}
	}
	e.H.Opaque = func(g *ssa.Function) bool {
		if g == f {
			return false
		}
		for h := range p.reach(g) {
			if touches[h] {
				return false
			}
		}
		if touches[g] {
			return false
		}
		// helpers that look for a name
		rs := g.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			t := rs.At(i).Type()
			if types.Identical(deref(t), x.cur) || isStr(t) || isBool(t) || isInt(t) {
				return !p.isMod[g] || len(g.Blocks) > 12
			}
		}
		return true
	}
	args := e.Params(f)
	var texts []*Term
	for _, a := range args {
		if isStr(a.T) {
			texts = append(texts, a)
		}
	}
	ri, inValue := x.finder(f)
	names := map[string]bool{} // names for which a currency is made when there is none
	type found struct {
		name string
		in   ssa.Instruction
		path string

		empty map[string]bool // the texts that are known to be empty
		whole bool            // nothing of the text is anything but an amount
	}
	var founds, defaults []found
	tr := e.Track()
	other := func(s *State, nm *Term) (out []*Term) {
		for t, pos := range s.lits {
			if pos || t.Op != "eq" {
				continue
			}
			for i, a := range t.A {
				if a == nm && len(t.A) == 2 {
					out = append(out, t.A[1-i])
				}
			}
		}
		return
	}
	alias := func(s *State, n *Term) string {
		if m := s.gt["named"]; m != nil && e.equal(s, m, n) {
			return "other"
		}
		return "other " + n.key
	}
	tr.Back = func(s *State, it *Iter) map[string]string {
		if it.IsMap || !currencyList(it.Coll) {
			return nil
		}
		m := map[string]string{}
		for _, n := range other(s, e.fld(s, e.elem(s, it.Coll, it.Idx), "Name")) {
			m["other "+n.key], m[alias(s, n)] = "", ""
		}
		// one that has been found is not overlooked later
		if n := s.gs["by "+e.elem(s, it.Coll, it.Idx).key]; n != "" {
			m["other "+n] = ""
			if a := s.gt["named"]; a != nil && a.key == n {
				m["other"] = ""
			}
		}
		return m
	}
	var colls []*Term
	tr.Out = func(s *State, it *Iter) {
		for _, t := range texts {
			if it.Coll == t || it.Len != nil && it.Len == tt.length(t) {
				s.gs["whole"] = "1"
			}
		}
		if currencyList(it.Coll) {
			colls = append(colls, it.Coll)
		}
	}
	searched := func(s *State, n *Term) bool {
		for k, v := range s.gs {
			if strings.HasPrefix(k, "by ") && v == n.key {
				return false
			}
		}
		for _, c := range colls {
			if tr.Done(s, alias(s, n), c) || tr.Done(s, "other "+n.key, c) {
				return true
			}
		}
		return false
	}
	e.H.Call = func(s *State, c *Ctx, in ssa.CallInstruction, cn string, as []*Term) (*Term, bool) {
		if g := in.Common().StaticCallee(); g != nil && p.isMod[g] {
			seen[g] = true
		}
		return nil, false
	}
	empties := func(s *State) (out []string) {
		for t, pos := range s.lits {
			if pos && t.Op == "eq" && len(t.A) == 2 {
				for i, a := range t.A {
					if n, ok := t.A[1-i].intVal(); ok && n == 0 && a.Op == "len" && isStr(a.A[0].T) {
						out = append(out, a.A[0].key)
					}
				}
			}
		}
		sort.Strings(out)
		return
	}
	// none: does t say that a search through x has found nothing?
	none := func(t, x *Term) bool {
		if t.Op != "eq" && t.Op != "lt" {
			return false
		}
		a, b := t.A[0], t.A[1]
		if t.Op == "eq" && b.Op == "fn" {
			a, b = b, a
		}
		n, ok := b.intVal()
		return ok && (n == -1 && t.Op == "eq" || n == 0 && t.Op == "lt") && a.Op == "fn" && strings.HasPrefix(a.S, "strings.Index") && len(a.A) > 0 && strings.Contains(a.A[0].key, x.key)
	}
	isList := func(s *State, c *Term) bool {
		return c.Op == "load" && c.A[0].Op == "ia" && currencyList(c.A[0].A[0])
	}
	br := e.H.Branch
	e.H.Branch = func(s *State, c *Ctx, in ssa.Instruction, ls []lit) {
		for _, l := range ls {
			t, pos := l.t, l.pos
			for t.Op == "not" {
				t, pos = t.A[0], !pos
			}
			for _, x := range texts {
				if !pos && t.Op == "sym" && strings.Contains(t.key, ".ok/") && strings.Contains(t.key[strings.Index(t.key, ".ok/"):], x.key) {
					s.gs["whole"] = "1" // the end of a loop over the text
				}
				if pos && none(t, x) {
					s.gs["whole"] = "1"
				}
			}
			if t.Op != "eq" || len(t.A) != 2 || !pos {
				continue
			}
			for i, a := range t.A {
				if a.Op == "load" && a.A[0].Op == "fa" && shortField(a.A[0].S) == "Currency.Name" && isList(s, a.A[0].A[0]) {
					s.gs["by "+a.A[0].A[0].key] = t.A[1-i].key
				}
			}
		}
		if br != nil {
			br(s, c, in, ls)
		}
	}
	e.H.Store = func(s *State, c *Ctx, in ssa.Instruction, addr, v *Term, t types.Type) {
		if addr.Op != "fa" {
			return
		}
		switch shortField(addr.S) {
		case "Value.Currency":
			// keeps the paths apart
			k := "other"
			switch {
			case isList(s, v):
				k = "found"
			case allocTerm(v):
				k = "made"
			case x.isDefault(e, s, v):
				k = "default"
			}
			s.gs["cur "+addr.key] = k
			if k == "default" {
				s.gs["empty"] = strings.Join(empties(s), "\n")
			}
		case "Ledger.DefaultCurrency":
			s.gs["empty"] = strings.Join(empties(s), "\n")
		case "Currency.Name":
			s.gs["named"] = p.InstrPos(in) // keeps the paths apart
			s.gt["named"] = v
			a := rootOf(addr)
			ok := allocTerm(a) && s.gs["new"] == ""
			r.Add("renamed", p.Fn(in.Parent())+" "+p.InstrPos(in), p.InstrPos(in), ok, "a currency of the ledger may get another name; %s", e.path(s))
		case "Ledger.Currencies":
			why := ""
			switch {
			case v.Op != "append" || len(v.A) != 2 || !e.equal(s, v.A[0], e.Load(s, addr, t)) || !allocTerm(v.A[1]):
				why = "something other than adding a new currency to the list"
			case s.gs["new"] != "":
				why = "more than one currency is added"
			default:
				s.gs["new"], s.gt["new"] = "1", v.A[1]
				nm := e.fld(s, v.A[1], "Name")
				if nm == nil || !searched(s, nm) {
					why = "a currency is added without knowing that none of the currencies has its name"
				} else {
					names[nm.key] = true
					if inValue && !e.implied(s, tt.eq(tt.length(nm), tt.intc(0, nil)), false) {
						why = "a currency without a name is added to the list"
					}
				}
			}
			r.Add("added", p.Fn(in.Parent()), p.InstrPos(in), why == "", "%s; %s", why, e.path(s))
		}
	}
	e.H.Return = func(s *State, c *Ctx, in ssa.Instruction, res []*Term) {
		if c.fn != f || c.parent != nil {
			return
		}
		for _, y := range res {
			if isErr(y.T) && !e.isNil(s, y) {
				return
			}
		}
		cur := res[ri]
		if inValue {
			if isPtr(cur.T) {
				cur = e.fld(s, cur, "Currency")
			} else {
				st := structOf(cur.T)
				cur = tt.fieldOf(cur, st, fieldIndex(st, "Currency"))
			}
		}
		why, isNew := "", false
		switch {
		case inValue && e.isNil(s, cur):
			// a text without an amount
			empty := false
			for _, t := range texts {
				empty = empty || e.implied(s, tt.eq(tt.length(t), tt.intc(0, nil)), true)
				for _, n := range empties(s) {
					empty = empty || strings.HasPrefix(n, "fn:strings.Trim") && strings.HasPrefix(n[strings.Index(n, "(")+1:], t.key)
				}
			}
			if !empty {
				why = "an amount may be left without a currency"
			}
		case s.gs["new"] != "":
			isNew = true
			if !e.equal(s, cur, s.gt["new"]) {
				why = "another currency than the new one is given"
			}
		case isList(s, cur):
			by := s.gs["by "+cur.key]
			if by == "" {
				why = "the currency given is not known to have the name"
			} else {
				founds = append(founds, found{name: by, in: in, path: e.path(s)})
			}
		case inValue && x.isDefault(e, s, cur):
			// the default currency: there is no name
			y := found{in: in, path: e.path(s), empty: map[string]bool{}, whole: s.gs["whole"] != ""}
			for _, n := range append(empties(s), strings.Split(s.gs["empty"], "\n")...) {
				y.empty[n] = true
			}
			defaults = append(defaults, y)
		default:
			why = "the currency given is neither one of the list, nor a new one that is in the list, nor the default currency"
		}
		if why == "" && len(res) == 2 && !inValue && isBool(res[1-ri].T) {
			if !e.implied(s, res[1-ri], isNew) {
				why = "it does not tell whether the currency is new"
			}
		}
		r.Add("given", p.Fn(f), p.InstrPos(in), why == "", "%s; %s", why, e.path(s))
	}
	p.runDecided(r, "given", e, f, newState(), args)
	for _, y := range founds {
		r.Add("same-name", p.Fn(f), p.InstrPos(y.in), names[y.name], "a currency is found by something else than what a new one is called; %s", y.path)
	}
	for _, y := range defaults {
		ok := y.whole
		for n := range y.empty {
			for _, t := range texts {
				ok = ok || n != t.key && strings.Contains(n, t.key)
			}
		}
		r.Add("default", p.Fn(f), p.InstrPos(y.in), ok, "the default currency is given where there may be a name; %s", y.path)
	}
	for g := range e.Fns {
		seen[g] = true
	}
	r.Counts["functions interpreted"] += len(e.Fns)
	r.Counts["abstract steps"] += e.Steps
}

// isDefault: is c the default currency of the ledger?
func (x *currencies) isDefault(e *Eng, s *State, c *Term) bool {
	if c.Op == "load" && c.A[0].Op == "fa" && shortField(c.A[0].S) == "Ledger.DefaultCurrency" {
		return true
	}
	for a, v := range s.mem {
		if a.Op == "fa" && shortField(a.S) == "Ledger.DefaultCurrency" && e.equal(s, v, c) {
			return true
		}
	}
	return false
}

// writes: does f change the list of the currencies, or the name of one?
func (x *currencies) writes(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			if c, ok := st.Val.(*ssa.Const); ok && c.Value == nil {
				continue
			}
			n := structOf(deref(fa.X.Type())).Field(fa.Field).Name()
			if n == "Currencies" && isLedger(x.p, fa.X.Type()) || n == "Name" && types.Identical(deref(fa.X.Type()), x.cur) {
				return true
			}
		}
	}
	return false
}

func checkP36(p *Prog, r *Report) {
	r.Expl = "Abstract interpretation, on all paths, of every function that finds the currency a text names (outside of Clone): a currency is added to Ledger.Currencies only if a loop over all of them has shown that none has its name (added), and what is given is that new currency, or one of the list whose name equals the very text a new one would be called (same-name), or, where there is no name, the default currency (given, default); no currency of the ledger gets another name (renamed)."
	r.Assume = append(r.Assume, "names are set before a currency is added to the list; Clone copies the list as it is (P02)")
	x := &currencies{p: p, r: r, cur: p.RootType("Currency"), val: p.RootType("Value")}
	lt := types.NewPointer(p.RootType("Ledger"))
	skip := map[*ssa.Function]bool{}
	if c := p.Method(lt, p.Root.Pkg, "Clone"); c != nil {
		for g := range p.reach(c) {
			skip[g] = true
		}
		skip[c] = true
	}
	var ws []*ssa.Function
	for _, f := range p.Funcs {
		if p.IsLib(f) && !skip[f] && x.writes(f) {
			ws = append(ws, f)
		}
	}
	cand := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if i, _ := x.finder(f); i < 0 || !p.IsLib(f) || skip[f] {
			continue
		}
		for _, w := range ws {
			if f == w || p.reach(f)[w] {
				cand[f] = true
			}
		}
	}
	// those that others than themselves call
	called := map[*ssa.Function]bool{}
	for g := range p.isMod {
		if cand[g] {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if h := ci.Common().StaticCallee(); h != nil {
						called[h] = true
					}
				}
			}
		}
	}
	var fs []*ssa.Function
	for f := range cand {
		if called[f] || f.Object() != nil && f.Object().Exported() {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return p.Fn(fs[i]) < p.Fn(fs[j]) })
	seen := map[*ssa.Function]bool{}
	for _, f := range fs {
		seen[f] = true
		x.check(f, seen)
	}
	for _, w := range ws {
		if !seen[w] {
			r.Bad("renamed", p.Fn(w), p.Pos(w.Pos()), "the currencies of a ledger are changed elsewhere than where one is looked for by its name")
		}
	}
	r.Counts["functions that find a currency"] = len(fs)
	r.Expect("added", 1)
	r.Expect("given", 2)
	r.Expect("default", 1)
	r.Expect("same-name", 1)
}
