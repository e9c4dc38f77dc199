package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lit is a literal: a boolean term and its truth value.
type lit struct {
	t   *Term
	pos bool
}

// Ctx is a call-site context: fn as called from call within parent.
type Ctx struct {
	parent *Ctx
	call   ssa.Instruction
	fn     *ssa.Function
	depth  int
	id     int
}

func (c *Ctx) onStack(f *ssa.Function) bool {
	for ; c != nil; c = c.parent {
		if c.fn == f {
			return true
		}
	}
	return false
}

func (c *Ctx) root() *Ctx {
	for c.parent != nil {
		c = c.parent
	}
	return c
}

type vkey struct {
	c *Ctx
	v ssa.Value
}

type deferred struct {
	c    *Ctx
	in   *ssa.Defer
	fn   *Term // function value (nil for static)
	args []*Term
}

type traceNode struct {
	up  *traceNode
	pos token.Pos
	val bool
}

// State is one abstract state: what is known about values and memory at a
// program point, plus the check's own (ghost) state.
type State struct {
	env    map[vkey]*Term
	mem    map[*Term]*Term
	ver    map[string]*Term
	lits   map[*Term]bool
	esc    map[*Term]bool
	gs     map[string]string
	gt     map[string]*Term
	defers []deferred
	trace  *traceNode
	sv     *solver
	dead   bool
}

func newState() *State {
	return &State{env: map[vkey]*Term{}, mem: map[*Term]*Term{}, ver: map[string]*Term{}, lits: map[*Term]bool{},
		esc: map[*Term]bool{}, gs: map[string]string{}, gt: map[string]*Term{}}
}

func (s *State) clone() *State {
	n := &State{env: make(map[vkey]*Term, len(s.env)), mem: make(map[*Term]*Term, len(s.mem)), ver: make(map[string]*Term, len(s.ver)),
		lits: make(map[*Term]bool, len(s.lits)), esc: make(map[*Term]bool, len(s.esc)),
		gs: make(map[string]string, len(s.gs)), gt: make(map[string]*Term, len(s.gt))}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.ver {
		n.ver[k] = v
	}
	for k, v := range s.lits {
		n.lits[k] = v
	}
	for k, v := range s.esc {
		n.esc[k] = v
	}
	for k, v := range s.gs {
		n.gs[k] = v
	}
	for k, v := range s.gt {
		n.gt[k] = v
	}
	n.defers = append([]deferred(nil), s.defers...)
	n.trace = s.trace
	n.sv = s.sv
	return n
}

func (s *State) ghostKey() string {
	if len(s.gs) == 0 {
		return ""
	}
	var ks []string
	for k, v := range s.gs {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// key identifies a state up to its trace.
func (s *State) key() string {
	var ks []string
	for k, v := range s.env {
		ks = append(ks, fmt.Sprintf("e%d.%p=%p", k.c.id, k.v, v))
	}
	for k, v := range s.mem {
		ks = append(ks, fmt.Sprintf("m%p=%p", k, v))
	}
	for k, v := range s.ver {
		ks = append(ks, fmt.Sprintf("v%s=%p", k, v))
	}
	for k, v := range s.lits {
		ks = append(ks, fmt.Sprintf("l%p=%v", k, v))
	}
	for k := range s.esc {
		ks = append(ks, fmt.Sprintf("x%p", k))
	}
	for k, v := range s.gt {
		ks = append(ks, fmt.Sprintf("g%s=%p", k, v))
	}
	sort.Strings(ks)
	return s.ghostKey() + "|" + fmt.Sprint(len(s.defers)) + "|" + strings.Join(ks, "\n")
}

// path describes the branches taken, most recent last.
func (e *Eng) path(s *State) string {
	var out []string
	for n := s.trace; n != nil && len(out) < 14; n = n.up {
		pos := e.p.Fset.Position(n.pos)
		out = append(out, fmt.Sprintf("%d%s", pos.Line, map[bool]string{true: "T", false: "F"}[n.val]))
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return "path (branch lines): " + strings.Join(out, " ")
}

// ---- memory ----

// atomicStruct: struct types treated as scalars.
func (e *Eng) atomicStruct(t types.Type) bool {
	if structOf(t) == nil {
		return false
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	return n.Obj().Pkg() == nil || !e.p.inModule(n.Obj().Pkg())
}

func (p *Prog) inModule(pk *types.Package) bool {
	return pk != nil && (pk.Path() == p.Mod || strings.HasPrefix(pk.Path(), p.Mod+"/"))
}

// leaf selector of an address, and the same with its container.
func leafSel(addr *Term) (leaf, full string) {
	switch addr.Op {
	case "fa":
		leaf = addr.S
		b := addr.A[0]
		switch b.Op {
		case "fa":
			_, f := leafSel(b)
			return leaf, f + ">" + leaf
		case "ia":
			return leaf, "[]" + b.S + ">" + leaf
		case "global":
			return leaf, "g:" + b.S + ">" + leaf
		case "sym":
			if b.Info.kind == "alloc" {
				return leaf, leaf
			}
		}
		return leaf, leaf
	case "ia":
		return "[]" + addr.S, "[]" + addr.S
	case "me":
		return "map:" + addr.S, "map:" + addr.S
	case "global":
		return "g:" + addr.S, "g:" + addr.S
	}
	s := "*"
	if addr.T != nil {
		s = "*" + typKey(deref(addr.T))
	}
	return s, s
}

// version symbol used for loads from addr.
func (e *Eng) version(s *State, addr *Term) *Term {
	leaf, full := leafSel(addr)
	if v, ok := s.ver[full]; ok {
		return v
	}
	if v, ok := s.ver["~"+leaf]; ok {
		return v
	}
	return e.ver0
}

// bump: something with this selector was written.
func (e *Eng) bump(s *State, leaf, full string, tag string, c *Ctx, in ssa.Instruction) {
	v := e.newSym("ver", tag+"/"+full, nil, c, nil, in)
	if full == leaf {
		// through a bare pointer: any container may be affected
		for k := range s.ver {
			if k == leaf || strings.HasSuffix(k, ">"+leaf) {
				delete(s.ver, k)
			}
		}
		s.ver["~"+leaf] = v
		return
	}
	s.ver[full] = v
	s.ver[leaf] = v
}

func (s *State) nonEscapedAlloc(a *Term) bool {
	return a.Op == "sym" && (a.Info.kind == "alloc" || a.Info.kind == "make") && !s.esc[a]
}

// mayAlias: can two different address terms denote overlapping memory?
func (e *Eng) mayAlias(s *State, a, b *Term) bool {
	if a == b {
		return true
	}
	la, fa := leafSel(a)
	lb, fb := leafSel(b)
	if la != lb {
		return false
	}
	if fa != fb && fa != la && fb != lb {
		return false
	}
	ra, rb := rootOf(a), rootOf(b)
	if ra != rb {
		if s.nonEscapedAlloc(ra) || s.nonEscapedAlloc(rb) {
			return false
		}
		aa := ra.Op == "sym" && (ra.Info.kind == "alloc" || ra.Info.kind == "make")
		ab := rb.Op == "sym" && (rb.Info.kind == "alloc" || rb.Info.kind == "make")
		if aa && ab {
			return false
		}
		// something that existed before the allocation cannot be it
		if aa && older(rb) || ab && older(ra) {
			return false
		}
		if ra.Op == "global" && rb.Op == "global" {
			return false
		}
	}
	if a.Op == b.Op && len(a.A) == len(b.A) {
		if a.Op == "ia" && a.A[0] == b.A[0] {
			return !e.implied(s, e.tt.eq(a.A[1], b.A[1]), false)
		}
		if a.Op == "me" && (a.A[1].Op == "empty" || b.A[1].Op == "empty") {
			return a == b
		}
		if a.Op == "me" && a.A[0] == b.A[0] {
			return !e.implied(s, e.tt.eq(a.A[1], b.A[1]), false)
		}
		if a.Op == "fa" && a.A[0].T != nil && b.A[0].T != nil && a.A[0].Op != "fa" && b.A[0].Op != "fa" {
			return !e.implied(s, e.tt.eq(a.A[0], b.A[0]), false)
		}
	}
	return true
}

// older: a value that certainly existed before any allocation of this run.
func older(t *Term) bool {
	return t.Op == "sym" && (t.Info.kind == "param") || t.Op == "global"
}

// escape marks the allocations a value leads to as reachable from elsewhere.
func (e *Eng) escape(s *State, v *Term) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case "sym":
			if (t.Info.kind == "alloc" || t.Info.kind == "make") && !s.esc[t] {
				s.esc[t] = true
				for a, v := range s.mem {
					if rootOf(a) == t {
						rec(v)
					}
				}
			}
			return
		case "len", "eq", "lt", "not", "lin", "bin", "const":
			return
		case "load", "lookup":
			return // what it holds escaped when it was stored
		}
		for _, a := range t.A {
			rec(a)
		}
	}
	rec(v)
}

// leaves enumerates the scalar locations of a value of type t at addr.
func (e *Eng) leaves(addr *Term, t types.Type, f func(addr *Term, path []int, ft types.Type)) {
	var rec func(addr *Term, t types.Type, path []int)
	rec = func(addr *Term, t types.Type, path []int) {
		st := structOf(t)
		if st == nil || e.atomicStruct(t) {
			f(addr, path, t)
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			fl := st.Field(i)
			rec(e.tt.fieldAddr(addr, t, fl.Name(), fl.Type()), fl.Type(), append(path[:len(path):len(path)], i))
		}
	}
	rec(addr, t, nil)
}

// Load reads the value at an address.
func (e *Eng) Load(s *State, addr *Term, t types.Type) *Term {
	if st := structOf(t); st != nil && !e.atomicStruct(t) {
		fs := make([]*Term, st.NumFields())
		for i := range fs {
			fl := st.Field(i)
			fs[i] = e.Load(s, e.tt.fieldAddr(addr, t, fl.Name(), fl.Type()), fl.Type())
		}
		return e.tt.mkStruct(t, fs)
	}
	if e.Frozen != nil && e.Frozen(addr) {
		return e.tt.mk("load", "", t, addr, e.ver0)
	}
	if v, ok := s.mem[addr]; ok {
		return v
	}
	// element of an appended or sliced value
	if addr.Op == "ia" {
		base, idx := addr.A[0], addr.A[1]
		if base.Op == "append" {
			n := e.tt.length(base.A[0])
			for i, v := range base.A[1:] {
				if e.implied(s, e.tt.eq(idx, e.tt.addc(n, int64(i))), true) {
					return v
				}
			}
			if e.implied(s, e.tt.lt(idx, n), true) {
				return e.Load(s, e.tt.indexAddr(base.A[0], idx, t), t)
			}
		}
	}
	if addr.Op == "fa" && addr.A[0].Op == "ia" && addr.A[0].A[0].Op == "append" {
		// field of a struct element of an appended slice
		ia := addr.A[0]
		base, idx := ia.A[0], ia.A[1]
		n := e.tt.length(base.A[0])
		for i, v := range base.A[1:] {
			if e.implied(s, e.tt.eq(idx, e.tt.addc(n, int64(i))), true) {
				if st := structOf(v.T); st != nil {
					if k := fieldIndex(st, addr.S[strings.LastIndex(addr.S, ".")+1:]); k >= 0 {
						return e.tt.fieldOf(v, st, k)
					}
				}
			}
		}
		if e.implied(s, e.tt.lt(idx, n), true) {
			et := deref(ia.T)
			na := e.tt.indexAddr(base.A[0], idx, et)
			f := addr.S[strings.LastIndex(addr.S, ".")+1:]
			return e.Load(s, e.tt.fieldAddr(na, et, f, t), t)
		}
	}
	return e.tt.mk("load", "", t, addr, e.version(s, addr))
}

// Store writes a value.
func (e *Eng) Store(s *State, addr, v *Term, t types.Type, c *Ctx, in ssa.Instruction) {
	e.leaves(addr, t, func(a *Term, path []int, ft types.Type) {
		x := v
		xt := t
		for _, i := range path {
			st := structOf(xt)
			x = e.tt.fieldOf(x, st, i)
			xt = st.Field(i).Type()
		}
		e.store1(s, a, x, c, in)
	})
}

func (e *Eng) store1(s *State, a, v *Term, c *Ctx, in ssa.Instruction) {
	e.clobber(s, a, c, in)
	s.mem[a] = v
	if !s.nonEscapedAlloc(rootOf(a)) {
		e.escape(s, v)
	}
}

// clobber forgets what a write to a may change.
func (e *Eng) clobber(s *State, a *Term, c *Ctx, in ssa.Instruction) {
	if s.nonEscapedAlloc(rootOf(a)) {
		if a.Op == "ia" {
			for b := range s.mem {
				if b != a && rootOf(b) == rootOf(a) && e.mayAlias(s, a, b) {
					delete(s.mem, b)
				}
			}
		}
		if _, isC := a.A0int(); a.Op == "ia" && !isC {
			l, f := leafSel(a)
			e.bump(s, l, f, "st", c, in)
		}
		return
	}
	for b := range s.mem {
		if b != a && e.mayAlias(s, a, b) {
			delete(s.mem, b)
		}
	}
	l, f := leafSel(a)
	e.bump(s, l, f, "st", c, in)
}

func (t *Term) A0int() (int64, bool) {
	if t.Op == "ia" {
		return t.A[1].intVal()
	}
	return 0, false
}

// havocSel forgets everything about locations with a leaf selector.
func (e *Eng) havocSel(s *State, sel string, c *Ctx, in ssa.Instruction) {
	for b := range s.mem {
		l, _ := leafSel(b)
		if l == sel && !s.nonEscapedAlloc(rootOf(b)) {
			delete(s.mem, b)
		}
	}
	e.bump(s, sel, sel, "hv", c, in)
}

// havocObj forgets the contents of an object handed to unknown code.
func (e *Eng) havocObj(s *State, obj *Term, c *Ctx, in ssa.Instruction) {
	for b := range s.mem {
		if rootOf(b) == obj || b == obj {
			l, f := leafSel(b)
			delete(s.mem, b)
			e.bump(s, l, f, "ho", c, in)
		}
	}
	e.escape(s, obj)
}
