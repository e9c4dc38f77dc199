package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// balanceOps gives Balance's methods value semantics: a Balance is the sum of
// the values added to it (that the methods implement exactly this is P17).
func (e *Eng) balanceOps(s *State, c *Ctx, in ssa.CallInstruction, name string, args []*Term) (*Term, bool) {
	pre := e.p.Mod + ".Balance)."
	i := strings.Index(name, pre)
	if i < 0 || i > 2 {
		return nil, false
	}
	bt := e.p.RootType("Balance")
	m := name[i+len(pre):]
	upd := func(vs ...*Term) {
		e.checkDeref(s, c, in, args[0])
		old := e.Load(s, args[0], bt)
		nv := e.tt.badd(old, vs...)
		if e.H.Store != nil {
			e.H.Store(s, c, in, args[0], nv, bt)
		}
		e.Store(s, args[0], nv, bt, c, in)
	}
	switch m {
	case "Add", "AddBalance":
		upd(args[1])
		return e.tt.mk("tuple", "void", nil), true
	case "Sub", "SubBalance":
		upd(e.tt.bneg(args[1]))
		return e.tt.mk("tuple", "void", nil), true
	case "Dup":
		return args[0], true
	}
	return nil, false
}
