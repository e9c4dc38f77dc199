package main

import (
	"reflect"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// Loops that get their next item by the same call before the loop and at the
// end of each iteration,
//
//	for x := next(); test(x); x = next() { … }
//
// are brought to the form with the call at the head of the loop: the
// instructions before the loop and those at the end of its iterations are the
// same, and both lead nowhere but to the head.

// rotateLoops does this for all the loops of f; it gives their number.
func rotateLoops(f *ssa.Function) (n int) {
	for _, h := range f.Blocks {
		if rotateLoop(h) {
			n++
		}
	}
	return
}

func rotateLoop(h *ssa.BasicBlock) bool {
	if len(h.Preds) != 2 {
		return false
	}
	ei, li := 0, 1
	if h.Dominates(h.Preds[0]) {
		ei, li = 1, 0
	}
	e, l := h.Preds[ei], h.Preds[li]
	if !h.Dominates(l) || h.Dominates(e) || e == l || len(e.Succs) != 1 || len(l.Succs) != 1 {
		return false
	}
	// pairs of values that are the same thing before the loop and in it
	pair := map[ssa.Value]ssa.Value{} // of the iteration -> before the loop
	phis := map[ssa.Value]*ssa.Phi{}  // of the iteration -> the phi of both
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis[ph.Edges[li]] = ph
		if _, ok := ph.Edges[li].(*ssa.Const); !ok {
			pair[ph.Edges[li]] = ph.Edges[ei]
		}
	}
	a, b := e.Instrs[:len(e.Instrs)-1], l.Instrs[:len(l.Instrs)-1]
	// the longest pair of endings that may be the same
	k := 0
	for k < len(a) && k < len(b) && sameKind(a[len(a)-1-k], b[len(b)-1-k]) {
		k++
	}
	for ; k > 0; k-- {
		if groupSame(a[len(a)-k:], b[len(b)-k:], pair) {
			break
		}
	}
	if k == 0 {
		return false
	}
	ga, gb := a[len(a)-k:], b[len(b)-k:]
	calls := false
	inGroup := map[ssa.Instruction]bool{}
	for i := range ga {
		if _, ok := ga[i].(*ssa.Call); ok {
			calls = true
		}
		inGroup[ga[i]], inGroup[gb[i]] = true, true
	}
	if !calls {
		return false
	}
	// what the groups compute is used in them and in the phis only
	gone := map[*ssa.Phi]ssa.Value{}
	for i := range ga {
		va, ok := ga[i].(ssa.Value)
		if !ok {
			continue
		}
		vb := gb[i].(ssa.Value)
		for j, v := range []ssa.Value{va, vb} {
			for _, u := range *v.Referrers() {
				if inGroup[u] {
					continue
				}
				ph, ok := u.(*ssa.Phi)
				if !ok || ph.Block() != h || ph.Edges[ei] != va || ph.Edges[li] != vb {
					if _, dbg := u.(*ssa.DebugRef); dbg {
						continue
					}
					return false
				}
				_ = j
				gone[ph] = vb
			}
		}
		// operands from phis of the head: the phi stands for both
		for _, o := range gb[i].Operands(nil) {
			if *o == nil {
				continue
			}
			if oi, ok := (*o).(ssa.Instruction); ok && inGroup[oi] {
				continue
			}
			if definedIn(*o, h) && !isPhiEdge(h, *o, li) {
				return false // it would be used before it is computed
			}
		}
	}
	// move the group to the head
	for _, x := range gb {
		for _, o := range x.Operands(nil) {
			if *o == nil {
				continue
			}
			if oi, ok := (*o).(ssa.Instruction); ok && inGroup[oi] {
				continue
			}
			if pa, ok := pair[*o]; ok && pa != *o && phis[*o] != nil {
				v := *o
				*o = phis[v]
				addRef(phis[v], x)
			}
		}
		setBlock(x, h)
	}
	for ph, v := range gone {
		for _, u := range *ph.Referrers() {
			for _, o := range u.Operands(nil) {
				if *o == ssa.Value(ph) {
					*o = v
					addRef(v, u)
				}
			}
		}
	}
	var head []ssa.Instruction
	i := 0
	for ; i < len(h.Instrs); i++ {
		ph, ok := h.Instrs[i].(*ssa.Phi)
		if !ok {
			break
		}
		if _, g := gone[ph]; !g {
			head = append(head, ph)
		}
	}
	rest := h.Instrs[i:]
	h.Instrs = append(append(head, gb...), rest...)
	e.Instrs = append(append([]ssa.Instruction{}, a[:len(a)-k]...), e.Instrs[len(e.Instrs)-1])
	l.Instrs = append(append([]ssa.Instruction{}, b[:len(b)-k]...), l.Instrs[len(l.Instrs)-1])
	return true
}

func sameKind(a, b ssa.Instruction) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	switch x := a.(type) {
	case *ssa.Call:
		y := b.(*ssa.Call)
		return x.Call.Method == y.Call.Method && len(x.Call.Args) == len(y.Call.Args)
	case *ssa.Extract:
		return x.Index == b.(*ssa.Extract).Index
	case *ssa.FieldAddr:
		return x.Field == b.(*ssa.FieldAddr).Field
	case *ssa.Field:
		return x.Field == b.(*ssa.Field).Field
	case *ssa.UnOp:
		return x.Op == b.(*ssa.UnOp).Op && x.CommaOk == b.(*ssa.UnOp).CommaOk
	case *ssa.Store, *ssa.IndexAddr:
		return true
	case *ssa.Slice:
		y := b.(*ssa.Slice)
		return (x.Low == nil) == (y.Low == nil) && (x.High == nil) == (y.High == nil) && (x.Max == nil) == (y.Max == nil)
	}
	return false
}

// groupSame: do the two sequences do the same?
func groupSame(a, b []ssa.Instruction, phi map[ssa.Value]ssa.Value) bool {
	m := map[ssa.Value]ssa.Value{}
	for i := range a {
		oa, ob := a[i].Operands(nil), b[i].Operands(nil)
		if len(oa) != len(ob) {
			return false
		}
		for j := range oa {
			x, y := *oa[j], *ob[j]
			if x == nil || y == nil {
				if x != y {
					return false
				}
				continue
			}
			if w, ok := m[y]; ok {
				if w != x {
					return false
				}
				continue
			}
			if w, ok := phi[y]; ok {
				if w != x {
					return false
				}
				continue
			}
			if x == y {
				continue
			}
			cx, okx := x.(*ssa.Const)
			cy, oky := y.(*ssa.Const)
			if !okx || !oky || cx.String() != cy.String() {
				return false
			}
		}
		if v, ok := b[i].(ssa.Value); ok {
			m[v] = a[i].(ssa.Value)
		}
	}
	return true
}

func definedIn(v ssa.Value, b *ssa.BasicBlock) bool {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	// in the loop: what does not dominate the head is not there at its start
	return in.Block() == b || in.Block() != nil && !in.Block().Dominates(b)
}

func isPhiEdge(h *ssa.BasicBlock, v ssa.Value, i int) bool {
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			return false
		}
		if ph.Edges[i] == v {
			return true
		}
	}
	return false
}

func addRef(v ssa.Value, u ssa.Instruction) {
	if r := v.Referrers(); r != nil {
		*r = append(*r, u)
	}
}

// setBlock makes b the block of in.
func setBlock(in ssa.Instruction, b *ssa.BasicBlock) {
	f := reflect.ValueOf(in).Elem().FieldByName("block")
	*(**ssa.BasicBlock)(unsafe.Pointer(f.UnsafeAddr())) = b
}
