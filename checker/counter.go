package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// Loops that test something else before their counter,
//
//	for i := 0; !found && i < n; i++ { … }
//
// are brought to the form that tests the counter first: neither test does
// anything but compute a truth value, and both lead to the same place if they
// fail.

// counterFirst does this for all the loops of f; it gives their number.
func counterFirst(f *ssa.Function) (n int) {
	for _, h := range f.Blocks {
		if swapTests(h) {
			n++
		}
	}
	return
}

func swapTests(h *ssa.BasicBlock) bool {
	loop := false
	for _, p := range h.Preds {
		loop = loop || h.Dominates(p)
	}
	hi := ifOfBlock(h)
	if !loop || hi == nil || counterTest(hi.Cond, h) {
		return false
	}
	for k, b := range h.Succs {
		x := h.Succs[1-k]
		bi := ifOfBlock(b)
		if bi == nil || len(b.Preds) != 1 || b == x || !counterTest(bi.Cond, h) {
			continue
		}
		m := 0
		if b.Succs[0] == x {
			m = 1
		}
		body := b.Succs[m]
		if b.Succs[1-m] != x || body == x || body == h || x == h {
			continue
		}
		pure := true
		for _, in := range b.Instrs[:len(b.Instrs)-1] {
			switch y := in.(type) {
			case *ssa.UnOp:
				pure = pure && y.Op != token.ARROW
			case *ssa.BinOp:
				pure = pure && y.Op != token.QUO && y.Op != token.REM && y.Op != token.SHL && y.Op != token.SHR
			case *ssa.FieldAddr, *ssa.Field, *ssa.DebugRef, *ssa.Extract:
			case *ssa.Call:
				bl, ok := y.Call.Value.(*ssa.Builtin)
				pure = pure && ok && bl.Name() == "len"
			default:
				pure = false
			}
		}
		// the place they lead to sees no difference
		for _, in := range x.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			var v ssa.Value
			for i, p := range x.Preds {
				if p == h || p == b {
					if v != nil && v != ph.Edges[i] || definedInBlock(ph.Edges[i], b) {
						pure = false
					}
					v = ph.Edges[i]
				}
			}
		}
		if !pure {
			continue
		}
		for _, in := range b.Instrs[:len(b.Instrs)-1] {
			setBlock(in, h)
		}
		h.Instrs = append(append(append([]ssa.Instruction{}, h.Instrs[:len(h.Instrs)-1]...), b.Instrs[:len(b.Instrs)-1]...), hi)
		b.Instrs = []ssa.Instruction{bi}
		hi.Cond, bi.Cond = bi.Cond, hi.Cond
		addRef(hi.Cond, hi)
		addRef(bi.Cond, bi)
		h.Succs[m], h.Succs[1-m] = b, x
		b.Succs[k], b.Succs[1-k] = body, x
		return true
	}
	return false
}

func definedInBlock(v ssa.Value, b *ssa.BasicBlock) bool {
	in, ok := v.(ssa.Instruction)
	return ok && in.Block() == b
}

func ifOfBlock(b *ssa.BasicBlock) *ssa.If {
	if len(b.Instrs) == 0 {
		return nil
	}
	i, _ := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	return i
}

// counterTest: does v compare a counter of the loop with head h?
func counterTest(v ssa.Value, h *ssa.BasicBlock) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok || !isInt(b.X.Type()) {
		return false
	}
	for _, o := range []ssa.Value{b.X, b.Y} {
		ph, ok := o.(*ssa.Phi)
		if !ok || ph.Block() != h {
			continue
		}
		for _, ed := range ph.Edges {
			if s, ok := ed.(*ssa.BinOp); ok && (s.Op == token.ADD || s.Op == token.SUB) && (s.X == ssa.Value(ph) || s.Y == ssa.Value(ph)) {
				return true
			}
		}
	}
	return false
}
