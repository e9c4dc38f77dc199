package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P10", "other", checkP10)
}

// endsProcess: calls that end the process, or the goroutine, or panic.
func endsProcess(name string) string {
	switch name {
	case "os.Exit", "syscall.Exit", "runtime.Goexit", "syscall.Kill", "(*os.Process).Kill", "(*os.Process).Signal", "runtime/debug.SetMaxStack", "syscall.Exec", "(*log.Logger).Panic":
		return "ends the process"
	}
	n := name[strings.LastIndex(name, ".")+1:]
	pk := extPkg(name)
	switch {
	case pk == "log" && (strings.HasPrefix(n, "Fatal") || strings.HasPrefix(n, "Panic")):
		return "ends the process or panics"
	case pk == "flag" && n == "Parse":
		return "may end the process"
	}
	return ""
}

// mustCall: functions that panic when their argument is not right.
func mustCall(name string) bool {
	n := name[strings.LastIndex(name, ".")+1:]
	return strings.HasPrefix(n, "Must") && n != "Must" || n == "Must"
}

func constArgs(cc *ssa.CallCommon) bool {
	if cc == nil {
		return false
	}
	for _, a := range cc.Args {
		if _, ok := a.(*ssa.Const); !ok {
			return false
		}
	}
	return true
}

func checkP10(p *Prog, r *Report) {
	r.Expl = "Every reference of every library function (calls, deferred calls, method and function values) is compared with the list of operations that end the process; every panic statement must lie in functions used only by Register or by package initialisation, " +
		"or abstract interpretation of the exported functions that lead to it must find it unreachable or reached only with a currency precision outside 0..8."
	reg := p.RootFunc("Register")
	if !mustFn(r, reg, "accounting.Register") {
		return
	}
	misuse := p.onlyFrom(reg, true)
	type site struct {
		f  *ssa.Function
		in *ssa.Panic
	}
	var sites []site
	nRefs, nFns := 0, 0
	for _, f := range p.Funcs {
		if !p.IsLib(f) {
			continue
		}
		nFns++
		bad := 0
		p.refsExt(f, func(in ssa.Instruction, name string, cc *ssa.CallCommon) {
			nRefs++
			if w := endsProcess(name); w != "" {
				bad++
				r.Bad("no-exit", p.Fn(f)+": "+name, p.InstrPos(in), "%s %s", name, w)
			}
			if name == "flag.NewFlagSet" && cc != nil && len(cc.Args) == 2 {
				if k, ok := cc.Args[1].(*ssa.Const); !ok || k.Int64() != 0 {
					bad++
					r.Bad("no-exit", p.Fn(f)+": "+name, p.InstrPos(in), "a set of flags that ends the process, or panics, when they are wrong")
				}
			}
			if mustCall(name) && !misuse[f] && !constArgs(cc) {
				bad++
				r.Bad("no-must", p.Fn(f)+": "+name, p.InstrPos(in), "%s panics when its argument is not right, and it is not a constant", name)
			}
		})
		if bad == 0 {
			r.OK("no-exit", p.Fn(f), p.Pos(f.Pos()))
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if pa, ok := in.(*ssa.Panic); ok {
					sites = append(sites, site{f, pa})
				}
			}
		}
	}
	r.Counts["library functions"] = nFns
	r.Counts["references"] = nRefs
	r.Counts["panic statements"] = len(sites)
	r.Expect("no-exit", 40)
	cal := p.callers()
	todo := map[*ssa.Function]bool{}
	want := map[ssa.Instruction]bool{}
	for _, st := range sites {
		if misuse[st.f] {
			r.OK("panic-on-misuse-only", p.Fn(st.f), p.InstrPos(st.in))
			continue
		}
		want[st.in] = true
		// the exported functions that lead to it
		seen := map[*ssa.Function]bool{}
		var up func(f *ssa.Function)
		up = func(f *ssa.Function) {
			if seen[f] {
				return
			}
			seen[f] = true
			if o := f.Object(); f.Parent() == nil && (o == nil || o.Exported() || len(cal[f]) == 0) {
				todo[f] = true
				return
			}
			if f.Parent() != nil {
				up(f.Parent())
			}
			for g := range cal[f] {
				up(g)
			}
		}
		up(st.f)
	}
	var roots []*ssa.Function
	for f := range todo {
		roots = append(roots, f)
	}
	sort.Slice(roots, func(i, j int) bool { return p.Fn(roots[i]) < p.Fn(roots[j]) })
	reached := map[ssa.Instruction]bool{}
	for _, root := range roots {
		lead := map[*ssa.Function]bool{} // functions that lead to a panic in question
		for f := range p.reach(root) {
			for g := range p.reach(f) {
				for in := range want {
					if in.Parent() == g {
						lead[f] = true
					}
				}
			}
		}
		e := NewEng(p)
		e.coarse()
		e.Cap = 48
		fact := e.Fact
		e.Fact = func(t *Term) bool { return fact(t) || countFact(t) }
		e.H.Opaque = func(f *ssa.Function) bool { return !lead[f] }
		e.H.Call = func(s *State, c *Ctx, in ssa.CallInstruction, name string, args []*Term) (*Term, bool) {
			return e.balanceOps(s, c, in, name, args)
		}
		e.H.Panic = func(s *State, c *Ctx, in ssa.Instruction, v *Term) {
			if !want[in] {
				return
			}
			reached[in] = true
			r.Add("panic-only-on-precision", p.Fn(in.Parent()), p.InstrPos(in), e.precisionOut(s), "this panic can be reached from %s although no currency precision is out of range; %s", p.Fn(root), e.path(s))
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					if u, ok := x.(undecided); ok {
						r.Bad("panic-only-on-precision", p.Fn(root), p.Pos(root.Pos()), "not decided: %s", u.msg)
						return
					}
					panic(x)
				}
			}()
			e.Run(root, newState(), e.Params(root))
		}()
		for f := range e.Fns {
			for in := range want {
				if in.Parent() == f && !reached[in] {
					r.OK("panic-unreachable", p.Fn(f)+fmt.Sprint(in.Block().Index), p.InstrPos(in))
				}
			}
		}
	}
	for _, st := range sites {
		if want[st.in] && !reached[st.in] {
			done := false
			for _, o := range r.Obl {
				if o.Rule == "panic-unreachable" && o.Pos == p.InstrPos(st.in) {
					done = true
				}
			}
			if !done {
				r.Bad("panic-only-on-precision", p.Fn(st.f), p.InstrPos(st.in), "a panic that was not analysed")
			}
		}
	}
}

func isPrecisionAddr(a *Term) bool {
	return a.Op == "fa" && strings.HasSuffix(a.S, ".Precision")
}

// countFact: a comparison of a precision, or of the length of a list, with a
// constant.
func countFact(t *Term) bool {
	if t.Op == "not" {
		return countFact(t.A[0])
	}
	if t.Op != "eq" && t.Op != "lt" {
		return false
	}
	one := func(x *Term) bool {
		switch x.Op {
		case "const":
			return true
		case "len":
			return x.A[0].T == nil || !isStr(x.A[0].T)
		case "load":
			return isPrecisionAddr(x.A[0])
		case "sym":
			return strings.Contains(x.S, "Currency.Precision")
		}
		return false
	}
	return one(t.A[0]) && one(t.A[1])
}

// precisionOut: does the state imply that some Currency.Precision is not in 0..8?
func (e *Eng) precisionOut(s *State) bool {
	cand := map[*Term]bool{}
	var scan func(t *Term)
	scan = func(t *Term) {
		if t.Op == "load" && isPrecisionAddr(t.A[0]) {
			cand[t] = true
		}
		for _, a := range t.A {
			scan(a)
		}
	}
	for t := range s.lits {
		scan(t)
	}
	for a, v := range s.mem {
		if isPrecisionAddr(a) {
			cand[v] = true
		}
	}
	for t := range cand {
		if t.T == nil || !types.Identical(t.T.Underlying(), types.Typ[types.Int]) {
			continue
		}
		if e.implied(s, e.tt.lt(t, e.tt.intc(0, t.T)), true) || e.implied(s, e.tt.lt(e.tt.intc(8, t.T), t), true) {
			return true
		}
	}
	return false
}
