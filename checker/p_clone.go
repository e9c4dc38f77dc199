package main

import (
	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P01", "other", checkP01)
	register("P26", "other", checkP26)
}

func mustFn(r *Report, f *ssa.Function, what string) bool {
	if f == nil || len(f.Blocks) == 0 {
		r.Bad("anchor", what, "-", "%s is not found in the tree", what)
		return false
	}
	return true
}

func checkP01(p *Prog, r *Report) {
	r.Expl = "Inclusion-based, field-sensitive points-to analysis of (*Ledger).Clone and everything it calls. Memory that existed before the call is one external object per type. " +
		"Obligations: for every type of object reachable from the result, none of its reference cells may point to external memory or to a package variable; and Clone stores nothing into external memory. " +
		"Opaque by definition of the property: the backend connection and ID values."
	f := p.RootFunc("(*Ledger).Clone")
	if !mustFn(r, f, "(*Ledger).Clone") {
		return
	}
	pt := NewPts(p)
	pt.Analyze(f)
	var start []ploc
	for _, ret := range pt.rets[f] {
		start = append(start, pt.val(ret.Results[0], "", ret.Block())...)
	}
	if len(start) == 0 {
		r.Bad("anchor", "result", p.Pos(f.Pos()), "Clone returns nothing")
	}
	leaks := pt.Leaks(start)
	bad := map[string]ptsLeak{}
	for _, l := range leaks {
		bad[l.Holder] = l
	}
	// one obligation per reference cell of every new object
	cells := map[string]bool{}
	reach := map[*pobj]bool{}
	var visit func(o *pobj)
	visit = func(o *pobj) {
		if o.kind != "alloc" || reach[o] {
			return
		}
		reach[o] = true
		for n, set := range pt.sets {
			if n.o == o {
				cells[pt.locName(ploc{o, n.path})] = true
				for x := range set {
					visit(x.o)
				}
			}
		}
	}
	for _, l := range start {
		visit(l.o)
		if l.o.kind != "alloc" {
			bad["result"] = ptsLeak{"result", pt.locName(l), nil}
		}
	}
	cells["result"] = true
	for c := range cells {
		if l, isBad := bad[c]; isBad {
			r.Bad("new-cell-owns", c, p.InstrPos2(l.In, f), "may refer to the original's %s", l.To)
		} else {
			r.OK("new-cell-owns", c, p.Pos(f.Pos()))
		}
	}
	r.Expect("new-cell-owns", 20)
	for _, e := range pt.Effects {
		r.Bad("original-unchanged", p.Fn(e.In.Parent())+": "+pt.locName(e.Loc), p.InstrPos(e.In), "Clone changes memory of the original (%s)", e.What)
	}
	r.OK("original-unchanged", "stores of Clone", p.Pos(f.Pos()))
	r.Counts["analysed_functions"] = len(pt.order)
	r.Counts["objects"] = pt.n
}

func (p *Prog) InstrPos2(in ssa.Instruction, f *ssa.Function) string {
	if in == nil {
		return p.Pos(f.Pos())
	}
	return p.InstrPos(in)
}

func queryRoots(p *Prog) []*ssa.Function {
	var out []*ssa.Function
	for _, n := range []string{"(*Ledger).Account", "(*Ledger).GetBalance", "(*Ledger).TransactionsInAccount", "(*Ledger).TransactionsInInterval",
		"(*Ledger).Convert", "(Account).FullName", "(Value).String", "(Value).FullString", "(Value).GetString", "(Balance).String", "(Balance).Dup", "(*Ledger).Clone"} {
		out = append(out, p.RootFunc(n))
	}
	if lp := p.PkgByPath("backend/ledger"); lp != nil {
		out = append(out, lp.Func("Export"))
	} else {
		out = append(out, nil)
	}
	return out
}

func checkP26(p *Prog, r *Report) {
	r.Expl = "Effect analysis on top of the points-to analysis: for each query (and Clone, Dup, Export and the String methods) every store, map update, delete, sort, copy and append to a shortened slice " +
		"in every function reachable from it must write to memory allocated during the call; memory that existed before (one external object per type) and package variables are never written."
	names := []string{"Account", "GetBalance", "TransactionsInAccount", "TransactionsInInterval", "Convert", "FullName", "Value.String", "Value.FullString", "Value.GetString", "Balance.String", "Balance.Dup", "Clone", "Export"}
	for i, f := range queryRoots(p) {
		if !mustFn(r, f, names[i]) {
			continue
		}
		pt := NewPts(p)
		pt.Special = func(pt *Pts, in ssa.CallInstruction, name string) bool {
			cc := in.Common()
			if !cc.IsInvoke() {
				return false
			}
			// the backend's own implementation answers for itself
			if v := in.Value(); v != nil {
				pt.extResult(v)
			}
			return true
		}
		pt.Analyze(f)
		n := 0
		for _, e := range pt.Effects {
			n++
			r.Bad("no-write", names[i]+" writes "+pt.locName(e.Loc)+" in "+p.Fn(e.In.Parent()), p.InstrPos(e.In), "%s to memory that existed before the call", e.What)
		}
		if n == 0 {
			r.OK("no-write", names[i], p.Pos(f.Pos()))
		}
		r.Counts["stores "+names[i]] = countStores(pt)
	}
	r.Expect("no-write", 13)
}

func countStores(pt *Pts) int {
	n := 0
	for _, f := range pt.order {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in.(type) {
				case *ssa.Store, *ssa.MapUpdate:
					n++
				}
			}
		}
	}
	return n
}
