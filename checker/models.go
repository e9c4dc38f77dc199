package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- program helpers used by the interpreter ----

func (p *Prog) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	if t == nil {
		return nil
	}
	return p.SSA.LookupMethod(t, m.Pkg(), m.Name())
}

func (p *Prog) typeInModule(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && p.inModule(n.Obj().Pkg())
}

// callees: the module functions g may call directly (static, closures, and
// every module implementation of an interface method).
func (p *Prog) callees(g *ssa.Function) []*ssa.Function {
	if r, ok := p.calleeMemo[g]; ok {
		return r
	}
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && p.isMod[f] && !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				cc := ci.Common()
				if cc.IsInvoke() {
					if it, ok := cc.Value.Type().Underlying().(*types.Interface); ok {
						for _, f := range p.implementersOf(it, cc.Method.Name()) {
							add(f)
						}
					}
				} else {
					add(cc.StaticCallee())
				}
			}
			// function values mentioned may be called
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				switch v := (*op).(type) {
				case *ssa.Function:
					add(v)
				case *ssa.MakeClosure:
					add(v.Fn.(*ssa.Function))
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				add(mc.Fn.(*ssa.Function))
			}
		}
	}
	p.calleeMemo[g] = out
	return out
}

// reach: all module functions reachable from roots.
func (p *Prog) reach(roots ...*ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || out[f] {
			return
		}
		out[f] = true
		for _, c := range p.callees(f) {
			visit(c)
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return out
}

// ---- models of builtins and library functions ----

// varargs expands the slice built for a variadic call.
func (e *Eng) varargs(s *State, a *Term) ([]*Term, bool) {
	if a.Op == "nil" {
		return nil, true
	}
	if a.Op != "slice" || a.A[1].Op != "none" || a.A[2].Op != "none" {
		return nil, false
	}
	pt := a.A[0]
	if pt.T == nil {
		return nil, false
	}
	arr, ok := deref(pt.T).Underlying().(*types.Array)
	if !ok || arr.Len() > 32 || !allocTerm(pt) {
		return nil, false
	}
	var out []*Term
	for i := int64(0); i < arr.Len(); i++ {
		out = append(out, e.Load(s, e.tt.indexAddr(pt, e.tt.intc(i, nil), arr.Elem()), arr.Elem()))
	}
	return out, true
}

func (e *Eng) appendTo(s *State, base, more *Term, t types.Type) *Term {
	els, ok := e.varargs(s, more)
	if !ok {
		if more.Op == "nil" {
			return base
		}
		return e.tt.mk("appendv", "", t, base, more)
	}
	if len(els) == 0 {
		return base
	}
	if base.Op == "append" {
		all := append(append([]*Term(nil), base.A...), els...)
		return e.tt.mk("append", "", t, all...)
	}
	return e.tt.mk("append", "", t, append([]*Term{base}, els...)...)
}

func (e *Eng) builtin(s *State, c *Ctx, in ssa.CallInstruction, name string, cc *ssa.CallCommon, args []*Term) *Term {
	tt := e.tt
	switch name {
	case "len":
		if args[0].T != nil {
			if _, ok := args[0].T.Underlying().(*types.Map); ok {
				return tt.mk("len", "map", types.Typ[types.Int], args[0], e.version(s, tt.mk("me", typKey(args[0].T), nil, args[0])))
			}
		}
		return tt.length(args[0])
	case "cap":
		return tt.mk("cap", "", types.Typ[types.Int], args[0])
	case "append":
		if len(args) < 2 {
			return args[0]
		}
		r := e.appendTo(s, args[0], args[1], cc.Args[0].Type())
		if v := in.Value(); v != nil && r.size > 400 {
			r = e.newSym("nonnil", "append", v.Type(), c, v, in)
		}
		e.escape(s, args[1])
		for _, x := range r.A {
			e.escape(s, x)
		}
		return r
	case "copy":
		if sl, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
			e.havocSel(s, "[]"+typKey(sl.Elem()), c, in)
			if r := rootOf(args[0]); allocTerm(r) {
				for b := range s.mem {
					if rootOf(b) == r {
						delete(s.mem, b)
					}
				}
			}
		}
		return e.newSym("op", "copy", types.Typ[types.Int], c, nil, in)
	case "delete":
		mt := cc.Args[0].Type()
		a := tt.mk("me", typKey(mt), types.NewPointer(mt.Underlying().(*types.Map).Elem()), args[0], args[1])
		for b := range s.mem {
			if b.Op == "me" && (b == a || e.mayAlias(s, a, b)) {
				delete(s.mem, b)
			}
		}
		l, f := leafSel(a)
		e.bump(s, l, f, "del", c, in)
		return nil
	case "panic":
		return nil
	case "print", "println", "close", "clear":
		return nil
	case "recover":
		return tt.nilc(types.NewInterfaceType(nil, nil))
	}
	if v := in.Value(); v != nil {
		return e.newSym("op", name, v.Type(), c, v, in)
	}
	return nil
}

func (e *Eng) bigAddr(pt *Term) *Term {
	return e.tt.mk("fa", "big.Int.val", types.NewPointer(types.Typ[types.Int64]), pt)
}

func (e *Eng) bigVal(s *State, pt *Term) *Term {
	a := e.bigAddr(pt)
	if v, ok := s.mem[a]; ok {
		return v
	}
	return e.tt.mk("load", "", types.Typ[types.Int64], a, e.version(s, a))
}

func (e *Eng) model(s *State, c *Ctx, in ssa.CallInstruction, name string, cc *ssa.CallCommon, args []*Term, v ssa.Value) (*Term, bool) {
	tt := e.tt
	i64 := types.Typ[types.Int64]
	setBig := func(pt, val *Term) *Term {
		e.store1(s, e.bigAddr(pt), val, c, in)
		return pt
	}
	nonzero := func(x *Term, what string) {
		z := tt.eq(x, tt.intc(0, nil))
		e.bounds(s, c, in, "div", e.implied(s, z, false), what+" by "+short(x))
		if !e.assume(s, z, false) {
			s.dead = true
		}
	}
	switch name {
	case "math/big.NewInt":
		var rt types.Type
		if v != nil {
			rt = v.Type()
		} else {
			rt = cc.Signature().Results().At(0).Type()
		}
		pt := e.newSym("alloc", "big", rt, c, v, in)
		delete(s.esc, pt)
		s.mem[e.bigAddr(pt)] = args[0]
		return pt, true
	case "(*math/big.Int).Mul":
		return setBig(args[0], tt.bin(token.MUL, e.bigVal(s, args[1]), e.bigVal(s, args[2]), i64)), true
	case "(*math/big.Int).Add":
		return setBig(args[0], tt.bin(token.ADD, e.bigVal(s, args[1]), e.bigVal(s, args[2]), i64)), true
	case "(*math/big.Int).Sub":
		return setBig(args[0], tt.bin(token.SUB, e.bigVal(s, args[1]), e.bigVal(s, args[2]), i64)), true
	case "(*math/big.Int).Quo", "(*math/big.Int).Div":
		d := e.bigVal(s, args[2])
		nonzero(d, "big division")
		if s.dead {
			return nil, true
		}
		return setBig(args[0], tt.bin(token.QUO, e.bigVal(s, args[1]), d, i64)), true
	case "(*math/big.Int).Rem", "(*math/big.Int).Mod":
		d := e.bigVal(s, args[2])
		nonzero(d, "big division")
		if s.dead {
			return nil, true
		}
		return setBig(args[0], tt.bin(token.REM, e.bigVal(s, args[1]), d, i64)), true
	case "(*math/big.Int).Neg":
		return setBig(args[0], tt.bin(token.SUB, tt.intc(0, i64), e.bigVal(s, args[1]), i64)), true
	case "(*math/big.Int).Set":
		return setBig(args[0], e.bigVal(s, args[1])), true
	case "(*math/big.Int).SetInt64":
		return setBig(args[0], args[1]), true
	case "(*math/big.Int).Int64":
		return e.bigVal(s, args[0]), true
	case "(*math/big.Int).IsInt64":
		return tt.mk("isint64", "", types.Typ[types.Bool], e.bigVal(s, args[0])), true
	case "(*math/big.Int).BitLen":
		return tt.mk("bitlen", "", types.Typ[types.Int], e.bigVal(s, args[0])), true
	case "(*math/big.Int).Sign":
		return e.sign(s, c, in, e.bigVal(s, args[0]), tt.intc(0, nil)), true
	case "(*math/big.Int).Cmp":
		return e.sign(s, c, in, e.bigVal(s, args[0]), e.bigVal(s, args[1])), true
	case "(time.Time).After":
		return tt.lt(args[1], args[0]), true
	case "(time.Time).Before":
		return tt.lt(args[0], args[1]), true
	case "(time.Time).Equal":
		return tt.eq(args[0], args[1]), true
	case "(time.Time).IsZero":
		return tt.eq(args[0], tt.zero(args[0].T)), true
	case "(time.Time).Compare":
		return tt.mk("cmp", "", types.Typ[types.Int], args[0], args[1]), true
	case "errors.New", "fmt.Errorf":
		r := e.newSym("nonnil", "err", types.Universe.Lookup("error").Type(), c, v, in)
		return r, true
	case "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable", "sort.Strings", "sort.Ints":
		a := args[0]
		t := cc.Args[0].Type()
		if a.Op == "iface" {
			a = a.A[0]
			if mi, ok := cc.Args[0].(*ssa.MakeInterface); ok {
				t = mi.X.Type()
			}
		}
		if sl, ok := t.Underlying().(*types.Slice); ok {
			e.havocSel(s, "[]"+typKey(sl.Elem()), c, in)
			if r := rootOf(a); allocTerm(r) {
				for b := range s.mem {
					if b.Op == "ia" && rootOf(b) == r {
						delete(s.mem, b)
					}
				}
			}
		}
		return nil, true
	}
	if strings.HasPrefix(name, "fmt.Sprint") {
		// content of the text is not modelled; results of equal arguments are equal
		var as []*Term
		as = append(as, args[:len(args)-1]...)
		els, ok := e.varargs(s, args[len(args)-1])
		if ok {
			as = append(as, els...)
			return tt.mk("fn", name, types.Typ[types.String], as...), true
		}
		return e.newSym("op", "sprintf", types.Typ[types.String], c, v, in), true
	}
	if e.pureExternal(name) && v != nil {
		t := v.Type()
		if _, isT := t.(*types.Tuple); isT {
			return nil, false
		}
		switch t.Underlying().(type) {
		case *types.Basic:
			return tt.mk("fn", name, t, args...), true
		case *types.Struct:
			return tt.mk("fn", name, t, args...), true
		}
	}
	return nil, false
}

// sign: an integer with the sign of x-y.
func (e *Eng) sign(s *State, c *Ctx, in ssa.CallInstruction, x, y *Term) *Term {
	tt := e.tt
	if e.implied(s, tt.eq(x, y), true) {
		return tt.intc(0, nil)
	}
	if e.implied(s, tt.lt(x, y), true) {
		return tt.intc(-1, nil)
	}
	if e.implied(s, tt.lt(y, x), true) {
		return tt.intc(1, nil)
	}
	r := e.newSym("op", fmt.Sprintf("sign/%s/%s", x.key, y.key), types.Typ[types.Int], c, nil, in)
	return r
}

// pureExternal: library functions without effects on the program's data.
func (e *Eng) pureExternal(name string) bool {
	n := strings.TrimPrefix(strings.TrimPrefix(name, "("), "*")
	for _, p := range []string{"strings.", "strconv.", "unicode.", "unicode/utf8.", "path.", "path/filepath.", "net/url.", "math.", "time.", "errors.",
		"fmt.Sprint", "fmt.Errorf", "regexp.", "bytes.", "math/big."} {
		if strings.HasPrefix(n, p) {
			return !strings.HasPrefix(name, "(*strings.Builder)") && !strings.HasPrefix(name, "(*bytes.") && !strings.HasPrefix(name, "(*math/big.")
		}
	}
	return false
}
