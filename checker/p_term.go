package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P24", "other", checkP24)
}

// ---- recursion ----

// recEdges: the functions g may call, calls of function values included.
func (p *Prog) recEdges() map[*ssa.Function][]*ssa.Function {
	taken := map[string][]*ssa.Function{}
	sig := func(t types.Type) string {
		if s, ok := t.Underlying().(*types.Signature); ok {
			return types.TypeString(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), nil)
		}
		return "?"
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, isCall := in.(ssa.CallInstruction)
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					switch v := (*op).(type) {
					case *ssa.Function:
						if !isCall || ci.Common().Value != v {
							taken[sig(v.Type())] = append(taken[sig(v.Type())], v)
						}
					case *ssa.MakeClosure:
						taken[sig(v.Type())] = append(taken[sig(v.Type())], v.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	out := map[*ssa.Function][]*ssa.Function{}
	for _, f := range p.Funcs {
		seen := map[*ssa.Function]bool{}
		add := func(g *ssa.Function) {
			if g != nil && p.isMod[g] && !seen[g] {
				seen[g] = true
				out[f] = append(out[f], g)
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if _, isB := cc.Value.(*ssa.Builtin); isB {
					continue
				}
				switch {
				case cc.IsInvoke():
					if it, ok := cc.Value.Type().Underlying().(*types.Interface); ok {
						for _, g := range p.implementersOf(it, cc.Method.Name()) {
							if !sameRecv(f, g) { // a ledger is not its own connection
								add(g)
							}
						}
					}
				case cc.StaticCallee() != nil:
					add(cc.StaticCallee())
				default:
					for _, g := range taken[sig(cc.Value.Type())] {
						add(g)
					}
				}
				// functions handed to others are called by them
				for _, a := range cc.Args {
					switch v := a.(type) {
					case *ssa.Function:
						add(v)
					case *ssa.MakeClosure:
						add(v.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	return out
}

func sameRecv(f, g *ssa.Function) bool {
	a, b := f.Signature.Recv(), g.Signature.Recv()
	return a != nil && b != nil && types.Identical(deref(a.Type()), deref(b.Type()))
}

// sccs: the groups of library functions that call each other.
func (p *Prog) sccs(edges map[*ssa.Function][]*ssa.Function, in func(f *ssa.Function) bool) [][]*ssa.Function {
	reach := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if !in(f) {
			continue
		}
		r := map[*ssa.Function]bool{}
		var visit func(g *ssa.Function)
		visit = func(g *ssa.Function) {
			for _, h := range edges[g] {
				if in(h) && !r[h] {
					r[h] = true
					visit(h)
				}
			}
		}
		visit(f)
		reach[f] = r
	}
	done := map[*ssa.Function]bool{}
	var out [][]*ssa.Function
	for _, f := range p.Funcs {
		if done[f] || !reach[f][f] {
			continue
		}
		var c []*ssa.Function
		for _, g := range p.Funcs {
			if g == f || reach[f][g] && reach[g][f] {
				c = append(c, g)
				done[g] = true
			}
		}
		out = append(out, c)
	}
	return out
}

func fnNames(p *Prog, fs []*ssa.Function) string {
	var ns []string
	for _, f := range fs {
		ns = append(ns, p.Fn(f))
	}
	return strings.Join(ns, ", ")
}

// linkFields: the fields of the accounts that lead from one to another.
func linkSel(a *Term) bool {
	return a.Op == "fa" && (strings.HasSuffix(a.S, "Account.Parent") || strings.HasSuffix(a.S, "Account.Children"))
}

func (p *Prog) checkRecursion(r *Report, scc []*ssa.Function, edges map[*ssa.Function][]*ssa.Function) (links bool) {
	inS := map[*ssa.Function]bool{}
	for _, f := range scc {
		inS[f] = true
	}
	// a function without which nothing repeats
	var head *ssa.Function
	for _, f := range scc {
		left := p.sccs(edges, func(g *ssa.Function) bool { return inS[g] && g != f })
		if len(left) == 0 && (head == nil || len(f.FreeVars) < len(head.FreeVars)) {
			head = f
		}
	}
	name := fnNames(p, scc)
	if head == nil {
		r.Bad("recursion-descends", name, p.Pos(scc[0].Pos()), "functions that call each other in more than one way: not decided")
		return
	}
	e := NewEng(p)
	params := e.Params(head)
	var measures map[string]bool
	sites := map[string]bool{}
	// absent when the function was entered, present now
	e.H.MapWrite = func(s *State, c *Ctx, in ssa.Instruction, m, k, v *Term) {
		for i, pa := range params {
			if m == pa {
				et := m.T.Underlying().(*types.Map).Elem()
				if e.isZero(s, v, et) && structOf(et) == nil {
					s.gs["shrunk"] += fmt.Sprint(i)
					continue
				}
				ok0 := e.tt.mk("lookupok", "", types.Typ[types.Bool], m, k, e.ver0)
				v0 := e.tt.mk("lookup", "", et, m, k, e.ver0)
				if e.implied(s, ok0, false) || isBool(et) && e.implied(s, v0, false) || structOf(et) == nil && !isBool(et) && e.isZero(s, v0, et) {
					s.gs[fmt.Sprintf("grown%d", i)] = "y"
				}
			}
		}
	}
	free := map[*Term]bool{}
	e.H.Call = func(s *State, c *Ctx, in ssa.CallInstruction, nm string, args []*Term) (*Term, bool) {
		if nm == "builtin.delete" && len(args) > 0 {
			for i, pa := range params {
				if args[0] == pa {
					s.gs["shrunk"] += fmt.Sprint(i)
				}
			}
		}
		cc := in.Common()
		f := cc.StaticCallee()
		if f == nil && !cc.IsInvoke() {
			// a call of a function value
			if v := e.val(s, c, cc.Value); v.Op == "closure" {
				f = p.closures[v.S]
			} else if v.Op == "func" {
				f = p.byName[v.S]
			} else if _, isB := cc.Value.(*ssa.Builtin); !isB {
				for _, g := range edges[in.Parent()] {
					if g == head && types.Identical(g.Signature, cc.Signature()) {
						f = g
					}
				}
			}
		}
		if cc.IsInvoke() {
			for _, g := range edges[in.Parent()] {
				if g == head && g.Name() == cc.Method.Name() {
					f = g
				}
			}
		}
		if f != head {
			return nil, false
		}
		now := map[string]bool{}
		for i, pa := range params {
			if i >= len(args) {
				break
			}
			a := args[i]
			id := fmt.Sprintf("%d ", i)
			t := pa.T
			switch u := t.Underlying().(type) {
			case *types.Basic:
				if isStr(t) && e.implied(s, e.tt.lt(e.tt.length(a), e.tt.length(pa)), true) {
					now[id+"gets shorter"] = true
				}
				if isInt(t) {
					if e.implied(s, e.tt.lt(pa, a), true) && e.bounded(s, pa, true, nil) {
						now[id+"grows up to a bound"] = true
					}
					if e.implied(s, e.tt.lt(a, pa), true) && e.bounded(s, pa, false, nil) {
						now[id+"decreases down to a bound"] = true
					}
				}
			case *types.Slice:
				if e.implied(s, e.tt.lt(e.tt.length(a), e.tt.length(pa)), true) {
					now[id+"gets shorter"] = true
				}
			case *types.Map:
				if e.equal(s, a, pa) && s.gs[fmt.Sprintf("grown%d", i)] == "y" && !strings.Contains(s.gs["shrunk"], fmt.Sprint(i)) {
					now[id+"has one more key"] = true
				}
			case *types.Struct:
				// a copy of an object: of which one?
				x := a
				for x.Op == "mk" {
					x = x.A[0]
				}
				if x.Op == "load" {
					for k := 0; k < u.NumFields(); k++ {
						if u.Field(k).Name() == "Parent" && e.equal(s, rootObj(x.A[0]), e.tt.fieldOf(pa, u, k)) {
							now[id+"moves to the parent"] = true
						}
					}
				}
			case *types.Pointer:
				x := e.canon(s, a)
				if x.Op == "load" && x.A[0].Op == "fa" && linkSel(x.A[0]) && e.equal(s, x.A[0].A[0], pa) {
					now[id+"moves to the parent"] = true
				}
				if x.Op == "load" && x.A[0].Op == "ia" {
					b := x.A[0].A[0]
					if b.Op == "load" && linkSel(b.A[0]) && e.equal(s, b.A[0].A[0], pa) {
						now[id+"moves to a child"] = true
					}
				}
				if st := structOf(u.Elem()); st != nil && e.equal(s, a, pa) {
					for k := 0; k < st.NumFields(); k++ {
						fl := st.Field(k)
						if _, isS := fl.Type().Underlying().(*types.Slice); isS {
							ad := e.tt.fieldAddr(pa, u.Elem(), fl.Name(), fl.Type())
							was := e.tt.mk("load", "", fl.Type(), ad, e.ver0)
							if e.implied(s, e.tt.lt(e.tt.length(e.Load(s, ad, fl.Type())), e.tt.length(was)), true) {
								now[id+"."+fl.Name()+" gets shorter"] = true
							}
						}
					}
				}
			}
		}
		pos := p.InstrPos(in)
		sites[pos] = true
		if len(now) == 0 {
			r.Bad("recursion-descends", name, pos, "%s is called again with arguments that are not smaller by any measure: it may repeat for ever; %s", p.Fn(head), e.path(s))
		}
		if measures == nil {
			measures = now
		} else {
			for m := range measures {
				if !now[m] {
					delete(measures, m)
				}
			}
		}
		return nil, false
	}
	st := newState()
	root := e.ctx(nil, nil, head)
	for i, fv := range head.FreeVars {
		t := e.Param(fmt.Sprintf("f%d.%s", i, fv.Name()), fv.Type())
		free[t] = true
		st.env[vkey{root, fv}] = t
	}
	if !p.runDecided(r, "recursion-descends", e, head, st, params) {
		return
	}
	if len(sites) == 0 {
		r.OK("recursion-descends", name+": never calls itself", p.Pos(head.Pos()))
		return
	}
	var ms []string
	for m := range measures {
		ms = append(ms, "argument "+m)
		if strings.Contains(m, "moves to") {
			links = true
		}
	}
	sort.Strings(ms)
	r.Add("recursion-descends", name, p.Pos(head.Pos()), len(ms) > 0, "the recursive calls of %s do not get smaller by one common measure", p.Fn(head))
	r.Counts["recursive calls"] += len(sites)
	if len(ms) > 0 {
		r.Notes = append(r.Notes, name+": "+strings.Join(ms, "; "))
	}
	return
}

// runDecided runs e and reports when it gives up.
func (p *Prog) runDecided(r *Report, rule string, e *Eng, f *ssa.Function, s *State, args []*Term) (ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if u, is := x.(undecided); is {
				r.Bad(rule, p.Fn(f), p.Pos(f.Pos()), "not decided: %s", u.msg)
				ok = false
				return
			}
			panic(x)
		}
	}()
	e.Run(f, s, args)
	return true
}

// bounded: is there an upper (lower) bound of x in s all of whose parts are
// stable?
func (e *Eng) bounded(s *State, x *Term, up bool, stable func(t *Term) bool) bool {
	if _, isC := x.intVal(); isC {
		return true
	}
	sv := e.solverOf(s)
	if up && sv.upper(x) < 1<<40 || !up && sv.lower(x) > -(1<<40) {
		return true
	}
	for t, pos := range s.lits {
		if t.Op == "not" {
			t, pos = t.A[0], !pos
		}
		if t.Op != "lt" && !(t.Op == "eq" && pos) || !isInt(t.A[0].T) {
			continue
		}
		l := e.tt.linOf(t.A[0]).add(e.tt.linOf(t.A[1]), -1) // l < 0, or not, or l == 0
		k := l.co[x]
		if k == 0 {
			continue
		}
		if t.Op == "lt" && (k > 0) != (pos == up) {
			continue
		}
		good := true
		for a := range l.co {
			if a != x && stable != nil && !stable(a) {
				good = false
			}
		}
		if good {
			return true
		}
	}
	return false
}

// usualNonNil: the elements of the lists of a ledger are not nil, and neither are
// the error values other packages define.
func (e *Eng) usualNonNil(t *Term) bool {
	if t.Op != "load" {
		return false
	}
	a := t.A[0]
	if a.Op == "global" {
		return isErr(t.T)
	}
	if a.Op != "ia" || t.T == nil {
		return false
	}
	pt, isP := t.T.Underlying().(*types.Pointer)
	if !isP {
		return false
	}
	n, isN := types.Unalias(pt.Elem()).(*types.Named)
	return isN && e.p.inModule(n.Obj().Pkg())
}

// rootObj: the object a field belongs to.
func rootObj(a *Term) *Term {
	for a.Op == "fa" {
		a = a.A[0]
	}
	return a
}

// ---- loops ----

type loopRef struct {
	c *Ctx
	h *ssa.BasicBlock
}

// checkLoops: every iteration of the loops of f makes progress towards an end.
func (p *Prog) checkLoops(r *Report, f *ssa.Function, consumes map[*ssa.Function]bool) {
	e := NewEng(p)
	e.coarse()
	e.LCap = 4
	fact, rel := e.Fact, e.PhiRel
	e.PhiRel = func(t types.Type) bool { return rel(t) || isBool(t) }
	e.Fact = func(t *Term) bool {
		x := t
		for x.Op == "not" {
			x = x.A[0]
		}
		if x.Op == "lt" && isInt(x.A[0].T) || x.Op == "sym" {
			return true
		}
		if x.Op == "eq" && x.A[0].T != nil && isInt(x.A[0].T) {
			return true
		}
		return fact(t)
	}
	e.H.Opaque = func(g *ssa.Function) bool {
		return !p.IsLib(g) || !consumes[g] && g.Object() != nil && g.Object().Exported()
	}
	e.NonNil = e.usualNonNil
	tr := &Tracker{e: e, st: map[string]*loopStat{}}
	active := map[string]loopRef{}
	loopOf := func(x loopRef) *loop { return e.flow(x.c.fn).loops[x.h] }
	verBorn := func(t *Term, x loopRef) bool {
		for _, n := range t.syms {
			if i := e.tt.bysym[n].Info; i.kind == "ver" || i.kind == "hver" {
				if bornIn(i, x.c, loopOf(x), "") || i.ctx == x.c && i.block == x.h {
					return true
				}
			}
		}
		return false
	}
	mark := func(s *State, ok func(x loopRef) bool) {
		for k := range s.gs {
			if strings.HasPrefix(k, "L") && ok(active[k[1:]]) {
				s.gs[k] = "1"
			}
		}
	}
	all := func(loopRef) bool { return true }
	// the last attempt to read from the source
	settle := func(s *State) {
		if t := s.gt["src"]; t != nil {
			if isBool(t.T) && e.implied(s, t, true) || !isBool(t.T) && e.isNil(s, t) {
				delete(s.gt, "src")
				s.gs["consumed"] = "y"
				mark(s, all)
			}
		}
	}
	e.H.After = func(s *State, c *Ctx, in ssa.CallInstruction, name string, args []*Term, res *Term) {
		g := in.Common().StaticCallee()
		if res == nil || errOp(name) || !scanOp(name) && !(readOp(name, in.Common().Signature().Results())) && !(g != nil && consumes[g] && c.onStack(g)) {
			return
		}
		if isBool(res.T) {
			s.gt["src"] = res
		} else if es := e.errsIn(res); len(es) == 1 {
			s.gt["src"] = es[0]
		}
	}
	used := map[string]map[string]string{} // map term -> loop id -> where
	reset := map[string]map[string]bool{}
	counter := func(s *State, in ssa.Instruction, m, old, v *Term) {
		d := e.tt.linOf(v).add(e.tt.linOf(old), -1)
		up := len(d.co) == 0 && d.c > 0
		mark(s, func(x loopRef) bool {
			id := loopID(x.c, x.h)
			if e.hasBorn(m, x.c, loopOf(x)) {
				return false
			}
			if !up {
				if reset[m.key] == nil {
					reset[m.key] = map[string]bool{}
				}
				reset[m.key][id] = true
				return false
			}
			if !e.bounded(s, old, true, func(a *Term) bool { return !verBorn(a, x) }) {
				return false
			}
			if used[m.key] == nil {
				used[m.key] = map[string]string{}
			}
			used[m.key][id] = p.InstrPos(in)
			return true
		})
	}
	e.H.MapWrite = func(s *State, c *Ctx, in ssa.Instruction, m, k, v *Term) {
		mt, isM := m.T.Underlying().(*types.Map)
		if !isM || !isInt(mt.Elem()) {
			return
		}
		old, _ := e.lookup(s, m, k, m.T)
		counter(s, in, m, old, v)
	}
	e.H.Store = func(s *State, c *Ctx, in ssa.Instruction, addr, v *Term, t types.Type) {
		if !isInt(t) {
			return
		}
		m := addr
		if addr.Op == "ia" {
			m = addr.A[0]
		}
		counter(s, in, m, e.Load(s, addr, t), v)
	}
	e.H.LoopIn = func(s *State, c *Ctx, h *ssa.BasicBlock) {
		settle(s)
		id := loopID(c, h)
		active[id] = loopRef{c, h}
		s.gs["L"+id] = "0"
	}
	e.H.LoopOut = func(s *State, c *Ctx, h *ssa.BasicBlock) {
		settle(s)
		delete(s.gs, "L"+loopID(c, h))
	}
	e.H.Branch = func(s *State, c *Ctx, in ssa.Instruction, ls []lit) {
		settle(s)
		tr.branch(s, c, in, ls)
	}
	e.H.Instr = func(s *State, c *Ctx, in ssa.Instruction) {
		b := in.Block()
		if e.flow(c.fn).loops[b] == nil {
			return
		}
		for _, x := range b.Instrs {
			ph, ok := x.(*ssa.Phi)
			if !ok {
				if x != in {
					return
				}
				break
			}
			_ = ph
		}
		for _, x := range b.Instrs {
			if ph, ok := x.(*ssa.Phi); ok {
				if v := s.env[vkey{c, ph}]; v != nil {
					s.gt["o"+loopID(c, b)+ph.Name()] = v
				}
			}
		}
	}
	judged := map[string]string{}
	e.H.LoopBack = func(s *State, c *Ctx, h *ssa.BasicBlock) {
		settle(s)
		id := loopID(c, h)
		x := loopRef{c, h}
		l := loopOf(x)
		ok, why := false, ""
		defer func() {
			s.gs["L"+id] = "0"
			if c.fn != f && !(c.fn.Parent() != nil && closureOf(c.fn, f)) {
				return
			}
			k := fmt.Sprintf("%s#%d", p.Fn(c.fn), h.Index)
			if !ok {
				if judged[k] == "" {
					judged[k] = why + "; " + e.path(s)
				}
			} else if _, has := judged[k]; !has {
				judged[k] = ""
			}
		}()
		pos := ""
		for _, in := range h.Instrs {
			if n, isN := in.(*ssa.Next); isN {
				_ = n
				ok = true // over a map or a text
				return
			}
			if pos == "" && in.Pos().IsValid() {
				pos = p.InstrPos(in)
			}
		}
		if s.gs["L"+id] == "1" {
			ok = true
			return
		}
		// the test of the head gets closer
		if i, n := s.gt["i@"+id], s.gt["n@"+id]; i != nil && n != nil {
			if i2, n2 := tr.next2(s, c, h); i2 != nil && n2 != nil {
				tt := e.tt
				was := tt.fromLin(tt.linOf(n).add(tt.linOf(i), -1), types.Typ[types.Int])
				is := tt.fromLin(tt.linOf(n2).add(tt.linOf(i2), -1), types.Typ[types.Int])
				if e.implied(s, tt.lt(is, was), true) && e.implied(s, tt.lt(i, n), true) {
					ok = true
				} else if isConstInt(n, 0) && e.implied(s, tt.lt(i2, i), true) && e.implied(s, tt.lt(i, tt.intc(0, nil)), false) {
					ok = true
				}
				if ok {
					p.advanceOuter(e, s, c, h, active, mark)
					return
				}
			}
		}
		// a variable of the loop gets closer to a bound
		for _, in := range h.Instrs {
			ph, isPhi := in.(*ssa.Phi)
			if !isPhi {
				break
			}
			old, now := s.gt["o"+id+ph.Name()], s.env[vkey{c, ph}]
			if old == nil || now == nil {
				continue
			}
			if isInt(ph.Type()) {
				st := func(a *Term) bool { return !e.hasBorn(a, c, l) && !e.hasOwn(a, c, l) }
				mono := p.monotone(ph, l)
				if e.implied(s, e.tt.lt(old, now), true) && mono > 0 && e.bounded(s, old, true, st) ||
					e.implied(s, e.tt.lt(now, old), true) && mono < 0 && e.bounded(s, old, false, st) {
					ok = true
				}
			} else if _, isP := ph.Type().Underlying().(*types.Pointer); isP {
				y := e.canon(s, now)
				if y.Op == "load" && linkSel(y.A[0]) && e.equal(s, y.A[0].A[0], old) {
					ok = true
				}
			} else if hasLen(ph.Type()) {
				if e.implied(s, e.tt.lt(e.tt.length(now), e.tt.length(old)), true) && e.alwaysShorter(ph, l) {
					ok = true
				}
			}
		}
		if ok {
			p.advanceOuter(e, s, c, h, active, mark)
			return
		}
		// the next test leaves the loop
		if e.leavesNext(s, c, h, l) {
			ok = true
			return
		}
		if t := s.gt["src"]; t != nil && !isBool(t.T) {
			// either something was read, or there is an error, which ends the loop
			n := s.clone()
			if !e.assume(n, e.tt.eq(t, e.tt.zero(t.T)), false) || e.leavesNext(n, c, h, l) {
				ok = true
				return
			}
		}
		why = "an iteration of the loop at " + pos + " may end without having come closer to an end"
	}
	retOK, retBad := 0, ""
	e.H.Return = func(s *State, c *Ctx, in ssa.Instruction, res []*Term) {
		settle(s)
		if c.fn != f || c.parent != nil || !consumes[f] || !selfCalls(f) {
			return
		}
		if s.gs["consumed"] == "y" {
			retOK++
			return
		}
		for _, v := range res {
			for _, x := range e.errsIn(v) {
				if e.notNil(s, x) || x == s.gt["src"] || x.Op == "load" && x.A[0].Op == "global" {
					retOK++
					return
				}
			}
		}
		retBad = p.InstrPos(in) + " " + e.path(s)
	}
	st := newState()
	root := e.ctx(nil, nil, f)
	for i, fv := range f.FreeVars {
		st.env[vkey{root, fv}] = e.Param(fmt.Sprintf("f%d.%s", i, fv.Name()), fv.Type())
	}
	if !p.runDecided(r, "loop-ends", e, f, st, e.Params(f)) {
		return
	}
	var ks []string
	for k := range judged {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r.Add("loop-ends", k, p.Pos(f.Pos()), judged[k] == "", "%s", judged[k])
	}
	for m, ls := range used {
		for id, where := range ls {
			r.Add("counter-only-grows", p.Fn(f)+" "+where, where, !reset[m][id], "the counter that is to end the loop is also set back")
		}
	}
	if retBad != "" || retOK > 0 {
		r.Add("reader-consumes", p.Fn(f), p.Pos(f.Pos()), retBad == "", "returns without an error although nothing was read: its caller may go on for ever: %s", retBad)
	}
}

func selfCalls(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
				return true
			}
		}
	}
	return false
}

func closureOf(g, f *ssa.Function) bool {
	for ; g != nil; g = g.Parent() {
		if g == f {
			return true
		}
	}
	return false
}

// advanceOuter: a loop that came closer to its end by a variable which the loops
// around it never set back is progress for them, too.
func (p *Prog) advanceOuter(e *Eng, s *State, c *Ctx, h *ssa.BasicBlock, active map[string]loopRef, mark func(*State, func(loopRef) bool)) {
	mark(s, func(x loopRef) bool {
		if x.c != c || x.h == h {
			return false
		}
		l := e.flow(c.fn).loops[x.h]
		if l == nil || !l.blocks[h] {
			return false
		}
		for _, in := range h.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if !isInt(ph.Type()) {
				continue
			}
			old, now := s.gt["o"+loopID(c, h)+ph.Name()], s.env[vkey{c, ph}]
			if old == nil || now == nil || p.monotone(ph, l) <= 0 {
				continue
			}
			st := func(a *Term) bool { return !e.hasBorn(a, c, l) && !e.hasOwn(a, c, l) }
			if e.implied(s, e.tt.lt(old, now), true) && e.bounded(s, old, true, st) {
				return true
			}
		}
		return false
	})
}

// monotone: within l, does ph only grow (1), only decrease (-1) or neither (0)?
func (p *Prog) monotone(ph *ssa.Phi, l *loop) int {
	up, down := true, true
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		in, ok := v.(ssa.Instruction)
		if !ok || !l.blocks[in.Block()] {
			up, down = false, false // set to something else
			return
		}
		switch x := v.(type) {
		case *ssa.Phi:
			for i, ed := range x.Edges {
				if x.Block() == l.head && !l.blocks[x.Block().Preds[i]] {
					continue
				}
				rec(ed)
			}
		case *ssa.BinOp:
			k, isC := x.Y.(*ssa.Const)
			y := x.X
			if !isC && x.Op == token.ADD {
				k, isC = x.X.(*ssa.Const)
				y = x.Y
			}
			if !isC || k.Value == nil || !isInt(k.Type()) || x.Op != token.ADD && x.Op != token.SUB {
				up, down = false, false
				return
			}
			n := k.Int64()
			if x.Op == token.SUB {
				n = -n
			}
			if n < 0 {
				up = false
			}
			if n > 0 {
				down = false
			}
			rec(y)
		default:
			up, down = false, false
		}
	}
	rec(ph)
	switch {
	case up:
		return 1
	case down:
		return -1
	}
	return 0
}

// alwaysShorter: within l, is ph only ever cut?
func (e *Eng) alwaysShorter(ph *ssa.Phi, l *loop) bool {
	ok := true
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for i, ed := range x.Edges {
				if x.Block() == l.head && !l.blocks[x.Block().Preds[i]] {
					continue
				}
				rec(ed)
			}
		case *ssa.Slice:
			if isStr(x.Type()) || x.High == nil {
				rec(x.X)
				return
			}
			rec(x.X) // a slice can be extended up to its capacity, but not for ever
		default:
			ok = false
		}
	}
	rec(ph)
	return ok
}

// leavesNext: do the tests at the head of the loop, evaluated now, leave it?
func (e *Eng) leavesNext(s *State, c *Ctx, h *ssa.BasicBlock, l *loop) bool {
	br, in, inst := e.H.Branch, e.H.LoopIn, e.H.Instr
	e.H.Branch, e.H.LoopIn, e.H.Instr = nil, nil, nil
	defer func() { e.H.Branch, e.H.LoopIn, e.H.Instr = br, in, inst }()
	var walk func(s *State, b, from *ssa.BasicBlock, depth int) bool
	walk = func(s *State, b, from *ssa.BasicBlock, depth int) bool {
		if !l.blocks[b] {
			return true
		}
		if depth > 6 || from != nil && b == h {
			return false
		}
		if from != nil {
			e.phis(c, s, from, b)
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.If:
				v := e.val(s, c, x.Cond)
				for k, pos := range []bool{true, false} {
					n := s.clone()
					if e.assume(n, v, pos) && !walk(n, b.Succs[k], b, depth+1) {
						return false
					}
				}
				return true
			case *ssa.Jump:
				return walk(s, b.Succs[0], b, depth+1)
			case *ssa.UnOp, *ssa.BinOp, *ssa.FieldAddr, *ssa.Field, *ssa.Extract, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.Convert:
				e.step(c, s, in)
			case *ssa.Call:
				if bi, isB := x.Call.Value.(*ssa.Builtin); !isB || bi.Name() != "len" {
					return false
				}
				e.step(c, s, in)
			default:
				return false
			}
		}
		return false
	}
	return walk(s.clone(), h, nil, 0)
}

// ---- the links between accounts ----

// checkLinks: parents are only given to accounts that nothing refers to yet, and
// children are only the accounts that have this parent.
func (p *Prog) checkLinks(r *Report) {
	clone := p.Method(p.RootType("Ledger"), p.Root.Pkg, "Clone")
	only := p.onlyFrom(clone, false)
	cal := p.callers()
	writes := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && p.linkField(fa) {
						return true
					}
				}
			}
		}
		return false
	}
	var try func(root *ssa.Function, f *ssa.Function, depth int)
	try = func(root *ssa.Function, f *ssa.Function, depth int) {
		e := NewEng(p)
		e.coarse()
		e.H.Opaque = func(g *ssa.Function) bool { return g != f && !p.reach(g)[f] }
		type res struct{ pos, why, cons string }
		var bad []res
		var good []res
		e.H.Store = func(s *State, c *Ctx, in ssa.Instruction, addr, val *Term, t types.Type) {
			if in.Parent() != f || addr.Op != "fa" || !linkSel(addr) {
				return
			}
			owner := addr.A[0]
			x := res{pos: p.InstrPos(in), cons: p.Fn(f) + " " + addr.S}
			if strings.HasSuffix(addr.S, ".Parent") {
				if e.isNil(s, val) || s.nonEscapedAlloc(rootOf(owner)) && val != owner {
					good = append(good, x)
				} else {
					x.why = "the parent of an account that is already in use is set: accounts may become their own ancestors"
					bad = append(bad, x)
				}
				return
			}
			v := val
			for v.Op == "append" {
				for _, y := range v.A[1:] {
					if y.T == nil {
						continue
					}
					pa := e.Load(s, e.tt.fieldAddr(y, deref(y.T), "Parent", y.T), y.T)
					if !e.equal(s, pa, owner) {
						x.why = "an account is added to the children of an account that is not its parent"
					}
				}
				v = v.A[0]
			}
			if x.why == "" && (e.zeroLen(s, v) || v.Op == "load" && linkSel(v.A[0]) && e.equal(s, v.A[0].A[0], owner)) {
				good = append(good, x)
				return
			}
			if x.why == "" {
				x.why = "the children of an account are replaced"
			}
			bad = append(bad, x)
		}
		st := newState()
		if !p.runDecided(r, "links-acyclic", e, root, st, e.Params(root)) {
			return
		}
		if len(bad) > 0 && depth < 4 && root.Parent() == nil && (root.Object() == nil || !root.Object().Exported()) && len(cal[root]) > 0 {
			for g := range cal[root] {
				try(g, f, depth+1)
			}
			return
		}
		for _, x := range good {
			r.OK("links-acyclic", x.cons, x.pos)
		}
		for _, x := range bad {
			r.Bad("links-acyclic", x.cons, x.pos, "%s", x.why)
		}
	}
	for _, f := range p.Funcs {
		if p.IsLib(f) && !only[f] && f != clone && writes(f) {
			try(f, f, 0)
		}
	}
}

func (p *Prog) linkField(fa *ssa.FieldAddr) bool {
	acc := p.RootType("Account")
	if acc == nil || !types.Identical(deref(fa.X.Type()), acc) {
		return false
	}
	n := structOf(acc).Field(fa.Field).Name()
	return n == "Parent" || n == "Children"
}

// ---- files that include each other ----

// checkIncludes: a file is opened on top of others only if none of them has its
// name, or if there are only so many.
func (p *Prog) checkIncludes(r *Report) {
	cal := p.callers()
	leads := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if bi, isB := c.Call.Value.(*ssa.Builtin); isB && bi.Name() == "append" {
						if sl, isS := c.Type().Underlying().(*types.Slice); isS && len(p.handleFields(deref(sl.Elem()))) > 0 {
							return true
						}
					}
				}
			}
		}
		return false
	}
	touches := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != nil && len(p.handleFields(deref((*op).Type()))) > 0 {
						return true
					}
					if *op != nil {
						if sl, isS := deref((*op).Type()).Underlying().(*types.Slice); isS && len(p.handleFields(deref(sl.Elem()))) > 0 {
							return true
						}
					}
				}
			}
		}
		return false
	}
	n := 0
	for _, f := range p.Funcs {
		if !p.IsLib(f) || !leads(f) {
			continue
		}
		n++
		var try func(root *ssa.Function, depth int)
		try = func(root *ssa.Function, depth int) {
			bad := map[string]string{}
			good := map[string]bool{}
			e := NewEng(p)
			e.Cap, e.LCap = 24, 4
			e.H.Opaque = func(g *ssa.Function) bool {
				for h := range p.reach(g) {
					if touches(h) {
						return false
					}
				}
				return true
			}
			tr := e.Track()
			tr.Split = true
			cur := map[string]*Term{}
			tr.Back = func(s *State, it *Iter) map[string]string {
				out := map[string]string{}
				if it.IsMap || it.Idx == nil {
					return out
				}
				et := deref(it.Coll.T.Underlying().(*types.Slice).Elem())
				st := structOf(et)
				if st == nil {
					return out
				}
				for i := 0; i < st.NumFields(); i++ {
					if !isStr(st.Field(i).Type()) {
						continue
					}
					name := e.fieldAt(s, it.Coll, it.Idx, i)
					for t, pos := range s.lits {
						if t.Op != "eq" || pos || !isStr(t.A[0].T) {
							continue
						}
						for k := 0; k < 2; k++ {
							if e.equal(s, t.A[k], name) {
								out[fmt.Sprintf("differs|%d|%s", i, t.A[1-k].key)] = ""
								cur[t.A[1-k].key] = t.A[1-k]
							}
						}
					}
				}
				return out
			}
			e.H.After = func(s *State, c *Ctx, in ssa.CallInstruction, name string, args []*Term, res *Term) {
				if name != "builtin.append" || in.Parent() != f || res == nil {
					return
				}
				sl, isS := res.T.Underlying().(*types.Slice)
				if !isS || len(p.handleFields(deref(sl.Elem()))) == 0 || res.Op != "append" {
					return
				}
				pos := p.InstrPos(in)
				base := res.A[0]
				ok := false
				et := deref(sl.Elem())
				st := structOf(et)
				for _, x := range res.A[1:] {
					for i := 0; i < st.NumFields(); i++ {
						if !isStr(st.Field(i).Type()) {
							continue
						}
						var v *Term
						if _, isP := sl.Elem().Underlying().(*types.Pointer); isP {
							v = e.Load(s, e.tt.fieldAddr(x, et, st.Field(i).Name(), st.Field(i).Type()), st.Field(i).Type())
						} else {
							v = e.tt.fieldOf(x, st, i)
						}
						for k, y := range cur {
							if e.equal(s, v, y) && tr.Done(s, fmt.Sprintf("differs|%d|%s", i, k), base) {
								ok = true
							}
						}
						// a table of the names of the open files
						for t, pos := range s.lits {
							if t.Op == "lookupok" && !pos && e.equal(s, t.A[1], v) || t.Op == "lookup" && !pos && isBool(t.T) && e.equal(s, t.A[1], v) {
								s.gt["table"] = t.A[0]
								s.gt["tablekey"] = t.A[1]
								ok = true
							}
						}
					}
				}
				if !ok && e.bounded(s, e.tt.length(base), true, func(*Term) bool { return false }) {
					ok = true
				}
				if ok {
					good[pos] = true
				} else {
					bad[pos] = e.path(s)
				}
			}
			e.H.MapWrite = func(s *State, c *Ctx, in ssa.Instruction, m, k, v *Term) {
				if isStr(k.T) {
					s.gs["entered"] = "y"
				}
			}
			e.H.Return = func(s *State, c *Ctx, in ssa.Instruction, res []*Term) {
				if c.parent == nil && s.gt["table"] != nil && s.gs["entered"] != "y" {
					bad[p.InstrPos(in)] = "the name of the file is not entered in the table of open files"
				}
			}
			if !p.runDecided(r, "include-cycle", e, root, newState(), e.Params(root)) {
				return
			}
			if len(bad) > 0 && depth < 4 && root.Parent() == nil && (root.Object() == nil || !root.Object().Exported()) && len(cal[root]) > 0 {
				for g := range cal[root] {
					try(g, depth+1)
				}
				return
			}
			for pos := range good {
				if bad[pos] == "" {
					r.OK("include-cycle", p.Fn(f)+" in "+p.Fn(root), pos)
				}
			}
			for pos, w := range bad {
				r.Bad("include-cycle", p.Fn(f)+" in "+p.Fn(root), pos, "a file is put on top of the open ones although one of them may be the same file: files that include each other are read for ever; %s", w)
			}
		}
		try(f, 0)
	}
	r.Counts["stacks of open files"] = n
}

// fieldAt: field i of element idx of a list of structures, or of pointers to them.
func (e *Eng) fieldAt(s *State, coll, idx *Term, i int) *Term {
	el := coll.T.Underlying().(*types.Slice).Elem()
	a := e.tt.indexAddr(coll, idx, el)
	et := el
	if pt, isP := el.Underlying().(*types.Pointer); isP {
		a = e.Load(s, a, el)
		et = pt.Elem()
	}
	st := structOf(et)
	f := st.Field(i)
	return e.Load(s, e.tt.fieldAddr(a, et, f.Name(), f.Type()), f.Type())
}

func checkP24(p *Prog, r *Report) {
	r.Expl = "Every group of library functions that call each other is analysed by abstract interpretation of one of them: at each recursive call one common measure of the arguments (length, distance to the root or the leaves of the account tree, keys still missing in a table, a bounded counter) must decrease. " +
		"Links between accounts are only made to accounts not in use yet; a file is put on the stack of open files only after comparing its name with all of them; every iteration of every loop of the library advances a bounded counter, consumes input, or is the last."
	edges := p.recEdges()
	links := false
	groups := p.sccs(edges, p.IsLib)
	for _, c := range groups {
		if p.checkRecursion(r, c, edges) {
			links = true
		}
	}
	r.Counts["groups of mutually recursive functions"] = len(groups)
	if links {
		p.checkLinks(r)
	}
	p.checkIncludes(r)
	consumes := p.ioFuncs(func(name string, cc *ssa.CallCommon) bool {
		return scanOp(name) || readOp(name, cc.Signature().Results()) && strings.Contains(name, "Read")
	})
	nl := 0
	for _, f := range p.Funcs {
		if !p.IsLib(f) || f.Parent() != nil {
			continue
		}
		has := selfCalls(f) && consumes[f]
		var scan func(g *ssa.Function)
		scan = func(g *ssa.Function) {
			n := len(loopsOf(g))
			nl += n
			if n > 0 {
				has = true
			}
			for _, a := range g.AnonFuncs {
				scan(a)
			}
		}
		scan(f)
		if has {
			p.checkLoops(r, f, consumes)
		}
	}
	r.Counts["loops"] = nl
	r.Expect("loop-ends", 10)
}
