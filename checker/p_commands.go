package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P04", "other", checkP04)
}

// loopsOf: the natural loops of f.
func loopsOf(f *ssa.Function) []map[*ssa.BasicBlock]bool {
	by := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	var order []*ssa.BasicBlock
	for _, b := range f.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			if by[h] == nil {
				by[h] = map[*ssa.BasicBlock]bool{h: true}
				order = append(order, h)
			}
			stack := []*ssa.BasicBlock{b}
			for len(stack) > 0 {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if by[h][x] {
					continue
				}
				by[h][x] = true
				stack = append(stack, x.Preds...)
			}
		}
	}
	var out []map[*ssa.BasicBlock]bool
	for _, h := range order {
		out = append(out, by[h])
	}
	return out
}

// pathAvoiding: is there a path from just after a to b that does not pass c?
func pathAvoiding(a, b, c ssa.Instruction) bool {
	scan := func(bl *ssa.BasicBlock, from int) (hit, stop bool) {
		for i := from; i < len(bl.Instrs); i++ {
			if bl.Instrs[i] == c {
				return false, true
			}
			if bl.Instrs[i] == b {
				return true, true
			}
		}
		return false, false
	}
	start := 0
	for i, x := range a.Block().Instrs {
		if x == a {
			start = i + 1
		}
	}
	if hit, stop := scan(a.Block(), start); stop {
		return hit
	}
	seen := map[*ssa.BasicBlock]bool{}
	stack := append([]*ssa.BasicBlock(nil), a.Block().Succs...)
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		hit, stop := scan(x, 0)
		if hit {
			return true
		}
		if !stop {
			stack = append(stack, x.Succs...)
		}
	}
	return false
}

func checkP04(p *Prog, r *Report) {
	r.Expl = "In each command that splits its arguments at '--' (cmd/ledger, cmd/muscular): points-to analysis with the opened ledger as the external object. " +
		"Nothing the program reaches writes to the opened ledger; Clone is only ever called on the opened ledger, never on a clone; every command run receives a clone made in the same loop iteration and not given to an earlier run."
	open := p.RootFunc("Open")
	clone := p.RootFunc("(*Ledger).Clone")
	if !mustFn(r, open, "accounting.Open") || !mustFn(r, clone, "(*Ledger).Clone") {
		return
	}
	for _, name := range []string{"cmd/ledger", "cmd/muscular"} {
		sp := p.PkgByPath(name)
		if sp == nil || sp.Func("main") == nil {
			r.Bad("anchor", name, "-", "command %s not found", name)
			continue
		}
		pt := NewPts(p)
		pt.OwnGlobals = true
		nOpen := 0
		var clones []*ssa.Call
		seenC := map[*ssa.Call]bool{}
		lt := p.RootType("Ledger")
		pt.Special = func(pt *Pts, in ssa.CallInstruction, nm string) bool {
			cc := in.Common()
			g := cc.StaticCallee()
			switch {
			case g == open:
				nOpen++
				pt.add(pnode{v: in.Value(), path: "#0"}, ploc{pt.ext(lt), ""})
				return true
			case g == clone:
				c, ok := in.(*ssa.Call)
				if !ok {
					return true
				}
				if !seenC[c] {
					seenC[c] = true
					clones = append(clones, c)
				}
				pt.add(pnode{v: c}, ploc{pt.allocObj(c, lt, "clone"), ""})
				return true
			case cc.IsInvoke():
				if v := in.Value(); v != nil {
					for _, path := range pt.p.flat(v.Type()) {
						pt.add(pnode{v: v, path: path}, ploc{pt.opaque(), ""})
					}
				}
				return true
			}
			return false
		}
		pt.Analyze(sp.Func("main"))
		r.Add("opens", name, p.Pos(sp.Func("main").Pos()), nOpen > 0, "the command never opens a ledger")
		n := 0
		for _, e := range pt.Effects {
			if e.Loc.o.kind != "ext" {
				continue
			}
			if nt, ok := e.Loc.o.typ.(*types.Named); ok && nt.Obj().Pkg() != p.Root.Pkg {
				continue
			}
			n++
			r.Bad("opened-unchanged", name+": "+p.Fn(e.In.Parent())+" writes "+pt.locName(e.Loc), p.InstrPos(e.In), "%s to the ledger as it was opened: what one command does reaches the next", e.What)
		}
		if n == 0 {
			r.OK("opened-unchanged", name, p.Pos(sp.Func("main").Pos()))
		}
		r.Add("clones", name, p.Pos(sp.Func("main").Pos()), len(clones) > 0, "the command never clones the ledger it opened")
		for _, c := range clones {
			pos := p.InstrPos(c)
			ok := true
			for _, l := range pt.val(c.Call.Args[0], "", c.Block()) {
				if l.o.kind != "ext" {
					ok = false
				}
			}
			r.Add("clone-of-opened", name+": "+p.Fn(c.Parent()), pos, ok, "a clone that a command may already have changed is cloned again")
			p.cloneUses(r, name, c)
		}
		r.Counts["functions reached in "+name] = len(pt.order)
	}
	r.Expect("clone-of-opened", 2)
}

// cloneUses follows the clone c to the calls it is given to.
func (p *Prog) cloneUses(r *Report, name string, c *ssa.Call) {
	cons := name + ": " + p.Fn(c.Parent())
	var uses []*ssa.Call
	seen := map[ssa.Value]bool{}
	var follow func(v ssa.Value)
	follow = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != nil && p.isMod[g] && !p.IsLib(g) {
					uses = append(uses, x)
				} else if x.Call.StaticCallee() == nil && !x.Call.IsInvoke() {
					uses = append(uses, x)
				}
			case *ssa.Phi:
				follow(x)
			case *ssa.Store:
				if x.Val != v {
					continue
				}
				base := x.Addr
				for {
					if fa, ok := base.(*ssa.FieldAddr); ok {
						base = fa.X
						continue
					}
					if ia, ok := base.(*ssa.IndexAddr); ok {
						base = ia.X
						continue
					}
					break
				}
				if al, ok := base.(*ssa.Alloc); ok {
					follow(al)
				} else {
					r.Bad("clone-kept", cons, p.InstrPos(x), "the clone is kept where a later command can find it")
				}
			case *ssa.UnOp:
				follow(x)
			case *ssa.FieldAddr:
				if _, ok := v.(*ssa.Alloc); ok {
					follow(x)
				}
			case *ssa.Defer, *ssa.Go:
				r.Bad("clone-kept", cons, p.InstrPos(x), "the clone is used later")
			case *ssa.Return:
				// a helper that returns the clone: its callers get a new one each time
				for _, g := range p.Funcs {
					for _, b := range g.Blocks {
						for _, in := range b.Instrs {
							if cl, ok := in.(*ssa.Call); ok && cl.Call.StaticCallee() == c.Parent() {
								p.cloneUses(r, name, cl)
							}
						}
					}
				}
			}
		}
	}
	follow(c)
	ok := true
	for _, u := range uses {
		if u.Parent() != c.Parent() {
			continue
		}
		// the outermost loop around the use must contain the clone, and the
		// clone must be made again before the use is reached again
		outer := 0
		var out map[*ssa.BasicBlock]bool
		for _, l := range loopsOf(u.Parent()) {
			if l[u.Block()] && len(l) > outer {
				outer, out = len(l), l
			}
		}
		if out != nil && !out[c.Block()] {
			ok = false
			r.Bad("fresh-per-run", cons, p.InstrPos(u), "the same clone is given to the commands of several iterations")
		}
		if out != nil && out[c.Block()] {
			if pathFromHead(out, u, c) {
				ok = false
				r.Bad("fresh-per-run", cons, p.InstrPos(u), "the clone is not always made again before the command runs")
			}
		}
		for _, u2 := range uses {
			if u2 != u && u2.Parent() == u.Parent() && u.Call.StaticCallee() != nil && u.Call.StaticCallee() == u2.Call.StaticCallee() && pathAvoiding(u, u2, c) {
				ok = false
				r.Bad("fresh-per-run", cons, p.InstrPos(u2), "the clone was already given to an earlier run")
			}
		}
	}
	if ok {
		r.OK("fresh-per-run", cons, p.InstrPos(c))
	}
}

// pathFromHead: can u be reached from the loop's head without passing c?
func pathFromHead(l map[*ssa.BasicBlock]bool, u, c ssa.Instruction) bool {
	var head *ssa.BasicBlock
	for b := range l {
		all := true
		for x := range l {
			if !b.Dominates(x) {
				all = false
			}
		}
		if all {
			head = b
		}
	}
	if head == nil {
		return true
	}
	return pathAvoiding(headStart{head}.first(), u, c) && c != headStart{head}.first()
}

type headStart struct{ b *ssa.BasicBlock }

func (h headStart) first() ssa.Instruction { return h.b.Instrs[0] }
