package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Tracker recognises the loops that go over all the elements of a list, from
// the first to the last, or over all the entries of a map, whatever way they
// are written, and tells its client about each of their iterations.
type Tracker struct {
	e *Eng
	// Norm, if set, brings the terms that stand for collections to a common form.
	Norm func(s *State, t *Term) *Term
	// In is called when a loop is entered, Back at the end of an iteration, Out
	// when a loop is left having gone over everything.
	In   func(s *State, it *Iter)
	Back func(s *State, it *Iter) (tags map[string]string)
	Out  func(s *State, it *Iter)
	st   map[string]*loopStat
	// Split keeps the states that enter a loop apart, and what is done in it.
	Split bool
	ent   map[string]string
	// Resume: a loop entered again may go on where it was left.
	Resume bool
	left   map[string]*phiTerm
	// Later: tags that Back may leave out in the first passes, but not in the last.
	Later func(tag string) bool
}

// Iter is one iteration of a loop.
type Iter struct {
	C     *Ctx
	Head  *ssa.BasicBlock
	Idx   *Term // index of the current element (lists)
	Key   *Term // current key (maps)
	Val   *Term // its value, if the loop uses it
	Coll  *Term // what it goes over; nil if not known
	Len   *Term // how many of them there are
	IsMap bool
	Desc  bool // from the last to the first
	id    string
}

type loopStat struct {
	notFirst, notNext bool
	backs             map[string]int            // per collection
	oks               map[string]map[string]int // per collection and tag
	bad               map[string]string
}

func (e *Eng) Track() *Tracker {
	t := &Tracker{e: e, st: map[string]*loopStat{}}
	br, in, back, out := e.H.Branch, e.H.LoopIn, e.H.LoopBack, e.H.LoopOut
	e.H.Branch = func(s *State, c *Ctx, i ssa.Instruction, ls []lit) {
		t.branch(s, c, i, ls)
		if br != nil {
			br(s, c, i, ls)
		}
	}
	e.H.LoopIn = func(s *State, c *Ctx, h *ssa.BasicBlock) {
		t.loopIn(s, c, h)
		t.resumed(s, c, h)
		if in != nil {
			in(s, c, h)
		}
	}
	e.H.LoopBack = func(s *State, c *Ctx, h *ssa.BasicBlock) {
		t.loopBack(s, c, h)
		t.resumed(s, c, h)
		if back != nil {
			back(s, c, h)
		}
	}
	e.H.LoopOut = func(s *State, c *Ctx, h *ssa.BasicBlock) {
		t.loopOut(s, c, h)
		if out != nil {
			out(s, c, h)
		}
	}
	return t
}

func loopID(c *Ctx, h *ssa.BasicBlock) string { return fmt.Sprintf("%d.%d", c.id, h.Index) }

func (t *Tracker) stat(id string) *loopStat {
	x := t.st[id]
	if x == nil {
		x = &loopStat{backs: map[string]int{}, oks: map[string]map[string]int{}, bad: map[string]string{}}
		t.st[id] = x
	}
	return x
}

// cond finds index and bound of the test of a head block: stay is the number of
// the edge that stays in the loop.
func (t *Tracker) cond(c *Ctx, h *ssa.BasicBlock) (idx, bound ssa.Value, nx *ssa.Next, stay int, ok bool) {
	l := t.e.flow(c.fn).loops[h]
	if l == nil || len(h.Instrs) == 0 {
		return
	}
	br, isIf := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !isIf {
		return
	}
	in0, in1 := l.blocks[h.Succs[0]], l.blocks[h.Succs[1]]
	if in0 == in1 {
		return
	}
	if in1 {
		stay = 1
	}
	v := br.Cond
	neg := false
	for {
		u, isU := v.(*ssa.UnOp)
		if !isU || u.Op != token.NOT {
			break
		}
		v, neg = u.X, !neg
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if !isInt(x.X.Type()) {
			return
		}
		op := x.Op
		if (stay == 1) != neg {
			op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
		}
		switch op {
		case token.LSS, token.NEQ:
			return x.X, x.Y, nil, stay, true
		case token.GTR:
			return x.Y, x.X, nil, stay, true
		}
	case *ssa.Extract:
		if n, isN := x.Tuple.(*ssa.Next); isN && !n.IsString && stay == 0 && !neg {
			return nil, nil, n, stay, true
		}
	}
	return
}

func (t *Tracker) branch(s *State, c *Ctx, in ssa.Instruction, ls []lit) {
	h := in.Block()
	idx, bound, nx, _, ok := t.cond(c, h)
	if d := t.descIdx(c, h); d != nil {
		s.gt["i@"+loopID(c, h)] = t.e.val(s, c, d)
		return
	}
	if !ok {
		return
	}
	id := loopID(c, h)
	e := t.e
	if nx != nil {
		tup := e.val(s, c, nx)
		r := e.val(s, c, nx.Iter)
		if tup.Op != "tuple" || r.Op != "range" {
			return
		}
		s.gt["k@"+id], s.gt["v@"+id], s.gt["c@"+id] = tup.A[1], tup.A[2], r.A[0]
		return
	}
	s.gt["i@"+id], s.gt["n@"+id] = e.val(s, c, idx), e.val(s, c, bound)
}

func (t *Tracker) iter(s *State, c *Ctx, h *ssa.BasicBlock) *Iter {
	id := loopID(c, h)
	it := &Iter{C: c, Head: h, id: id}
	if k := s.gt["k@"+id]; k != nil {
		it.Key, it.Val, it.Coll, it.IsMap = k, s.gt["v@"+id], s.gt["c@"+id], true
	} else if x, i := s.gt["d@"+id], s.gt["i@"+id]; x != nil && i != nil {
		it.Idx, it.Coll, it.Len, it.Desc = i, x, t.e.tt.length(x), true
	} else if i != nil && s.gt["n@"+id] != nil {
		it.Idx, it.Len = i, s.gt["n@"+id]
		if it.Len.Op == "len" {
			it.Coll = it.Len.A[0]
		}
	} else {
		return nil
	}
	if it.Coll != nil && t.Norm != nil {
		it.Coll = t.Norm(s, it.Coll)
	}
	return it
}

// next evaluates the index of the iteration that would start in s, where the
// phis of the head have been set.
func (t *Tracker) next(s *State, c *Ctx, h *ssa.BasicBlock) *Term {
	i, _ := t.next2(s, c, h)
	return i
}

// next2: the same, with the bound the index is compared with.
func (t *Tracker) next2(s *State, c *Ctx, h *ssa.BasicBlock) (*Term, *Term) {
	idx, bound, nx, _, ok := t.cond(c, h)
	if d := t.descIdx(c, h); d != nil {
		idx, bound, ok = d, d, true
	}
	if !ok || idx == nil || nx != nil {
		return nil, nil
	}
	e := t.e
	hk := e.H
	e.H = Hooks{Opaque: hk.Opaque, Call: func(s *State, c *Ctx, in ssa.CallInstruction, name string, args []*Term) (*Term, bool) {
		if _, isB := in.Common().Value.(*ssa.Builtin); isB {
			return nil, false
		}
		if v := in.Value(); v != nil {
			return e.newSym("op", "nx", v.Type(), c, v, in), true
		}
		return nil, true
	}}
	defer func() { e.H = hk }()
	n := s.clone()
	for _, in := range h.Instrs {
		if _, isPhi := in.(*ssa.Phi); isPhi {
			continue
		}
		if ci, isC := in.(*ssa.Call); isC {
			if _, isB := ci.Call.Value.(*ssa.Builtin); !isB {
				return nil, nil
			}
		}
		if _, isIf := in.(*ssa.If); isIf {
			break
		}
		e.step(c, n, in)
	}
	return e.val(n, c, idx), e.val(n, c, bound)
}

func (t *Tracker) loopIn(s *State, c *Ctx, h *ssa.BasicBlock) {
	id := loopID(c, h)
	st := t.stat(id)
	delete(s.gs, "nf@"+id)
	if _, _, nx, _, ok := t.cond(c, h); ok && nx == nil {
		n := t.next(s, c, h)
		if n == nil || !t.e.implied(s, t.e.tt.eq(n, t.e.tt.intc(0, nil)), true) && !t.goesOn(s, id, n) {
			if t.Resume {
				s.gs["nf@"+id] = "1"
			} else {
				st.notFirst = true
			}
		}
	}
	for _, k := range []string{"k@", "v@", "c@", "i@", "n@", "d@"} {
		delete(s.gt, k+id)
	}
	if t.descIdx(c, h) != nil {
		if n := t.next(s, c, h); n != nil {
			l := t.e.tt.linOf(n)
			for x, k := range l.co {
				if x.Op == "len" && k == 1 && len(l.co) == 1 && l.c == -1 {
					s.gt["d@"+id] = x.A[0]
				}
			}
		}
	}
	if t.Split {
		if t.ent == nil {
			t.ent = map[string]string{}
		}
		k := id + "|" + s.key()
		if t.ent[k] == "" {
			t.ent[k] = fmt.Sprint(len(t.ent) + 1)
		}
		s.gs["tp"+id] = t.ent[k]
	}
	if t.In != nil {
		t.In(s, &Iter{C: c, Head: h, id: id})
	}
}

func (t *Tracker) loopBack(s *State, c *Ctx, h *ssa.BasicBlock) {
	it := t.iter(s, c, h)
	if it == nil {
		return
	}
	st := t.stat(it.id)
	if !it.IsMap {
		n := t.next(s, c, h)
		d := int64(1)
		if it.Desc {
			d = -1
		}
		if n == nil || !t.e.equal(s, n, t.e.tt.addc(it.Idx, d)) {
			st.notNext = true
		}
	}
	if t.Back == nil || it.Coll == nil {
		return
	}
	k := s.gs["tp"+it.id] + it.Coll.key
	st.backs[k]++
	for tag, why := range t.Back(s, it) {
		if why == "" {
			if st.oks[k] == nil {
				st.oks[k] = map[string]int{}
			}
			st.oks[k][tag]++
		} else if st.bad[k+"|"+tag] == "" {
			st.bad[k+"|"+tag] = why
		}
	}
}

// Full: has this loop gone over everything when it is left in state s?
func (t *Tracker) Full(s *State, it *Iter) bool {
	st := t.stat(it.id)
	if st.notFirst || st.notNext || s.gs["nf@"+it.id] != "" {
		return false
	}
	if it.IsMap {
		_, _, nx, _, _ := t.cond(it.C, it.Head)
		tup := t.e.val(s, it.C, nx)
		return t.e.implied(s, tup.A[0], false)
	}
	if it.Desc {
		return t.e.implied(s, t.e.tt.lt(it.Idx, t.e.tt.intc(0, nil)), true)
	}
	return t.e.implied(s, t.e.tt.lt(it.Idx, it.Len), false)
}

// descIdx: the index of a loop that goes down to 0.
func (t *Tracker) descIdx(c *Ctx, h *ssa.BasicBlock) ssa.Value {
	l := t.e.flow(c.fn).loops[h]
	if l == nil || len(h.Instrs) == 0 {
		return nil
	}
	br, isIf := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !isIf || l.blocks[h.Succs[0]] == l.blocks[h.Succs[1]] {
		return nil
	}
	x, ok := br.Cond.(*ssa.BinOp)
	if !ok || !isInt(x.X.Type()) {
		return nil
	}
	op, a, b := x.Op, x.X, x.Y
	if _, isC := a.(*ssa.Const); isC {
		a, b = b, a
		op = map[token.Token]token.Token{token.LSS: token.GTR, token.GEQ: token.LEQ, token.GTR: token.LSS, token.LEQ: token.GEQ}[op]
	}
	k, isC := b.(*ssa.Const)
	if !isC || k.Value == nil {
		return nil
	}
	if l.blocks[h.Succs[1]] {
		op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}[op]
	}
	if op == token.GEQ && k.Int64() == 0 || op == token.GTR && k.Int64() == -1 {
		return a
	}
	return nil
}

func (t *Tracker) loopOut(s *State, c *Ctx, h *ssa.BasicBlock) {
	it := t.iter(s, c, h)
	if t.Resume && it != nil && it.Idx != nil {
		if t.left[it.id] == nil {
			if t.left == nil {
				t.left = map[string]*phiTerm{}
			}
			t.left[it.id] = t.e.sameAsPhi("left@" + it.id)
		}
		t.left[it.id].set(s, it.Idx)
	}
	defer delete(s.gs, "nf@"+loopID(c, h))
	tp := s.gs["tp"+loopID(c, h)]
	delete(s.gs, "tp"+loopID(c, h))
	if it == nil || it.Coll == nil || !t.Full(s, it) {
		return
	}
	st := t.stat(it.id)
	k := tp + it.Coll.key
	if os.Getenv("DBGLOOP") != "" {
		fmt.Fprintf(os.Stderr, "loop %s over %s: %d backs; ok %v\n", it.id, short(it.Coll), st.backs[k], st.oks[k])
		for b, w := range st.bad {
			if strings.HasPrefix(b, k+"|") {
				fmt.Fprintf(os.Stderr, "    bad %s: %s\n", b[len(k):], w)
			}
		}
	}
	for tag, n := range st.oks[k] {
		if n == st.backs[k] || t.Later != nil && t.Later(tag) && st.bad[k+"|"+tag] == "" {
			t.Mark(s, tag, it.Coll)
		}
	}
	if t.Out != nil {
		t.Out(s, it)
	}
}

// resumed keeps track of where the loops that have been left would go on: the
// phis of h have just been set.
func (t *Tracker) resumed(s *State, c *Ctx, h *ssa.BasicBlock) {
	for _, g := range t.left {
		g.head(s, c, h)
	}
}

// goesOn: does a loop, entered in s with index n, go on where it was left?
func (t *Tracker) goesOn(s *State, id string, n *Term) bool {
	g := t.left[id]
	if g == nil {
		return false
	}
	x := g.get(s)
	return x != nil && t.e.equal(s, x, n)
}

func (t *Tracker) atom(tag string, coll ...*Term) *Term {
	return t.e.tt.mk("done", tag, types.Typ[types.Bool], coll...)
}

// Unmark forgets what has been recorded under a tag.
func (t *Tracker) Unmark(s *State, tag string) {
	for a := range s.lits {
		if a.Op == "done" && a.S == tag {
			delete(s.lits, a)
			s.sv = nil
		}
	}
}

// Mark records that something has been done for all the elements of coll.
func (t *Tracker) Mark(s *State, tag string, coll ...*Term) {
	s.lits[t.atom(tag, coll...)] = true
	s.sv = nil
}

func (t *Tracker) Done(s *State, tag string, coll ...*Term) bool {
	return s.lits[t.atom(tag, coll...)]
}

// Why tells why something was not done for all the elements of coll.
func (t *Tracker) Why(tag string, coll *Term) string {
	for _, st := range t.st {
		if w := st.bad[coll.key+"|"+tag]; w != "" {
			return w
		}
	}
	return ""
}

// phiTerm: a ghost term that may be the value of a phi of a loop it passes through.
type phiTerm struct {
	e    *Eng
	name string
	phis map[string]vkey
	// cells: it may also be what a local variable holds.
	cells bool
	addrs map[string]*Term
}

func (e *Eng) sameAsPhi(name string) *phiTerm {
	return &phiTerm{e: e, name: name, phis: map[string]vkey{}, addrs: map[string]*Term{}}
}

func (g *phiTerm) get(s *State) *Term {
	if k := s.gs["phi "+g.name]; k != "" {
		if a := g.addrs[k]; a != nil {
			if t := s.mem[a]; t != nil {
				return t
			}
		} else if t := s.env[g.phis[k]]; t != nil {
			return t
		}
	}
	return s.gt[g.name]
}

func (g *phiTerm) set(s *State, t *Term) {
	delete(s.gs, "phi "+g.name)
	if t == nil {
		delete(s.gt, g.name)
		return
	}
	s.gt[g.name] = t
}

// head: the phis of h have just been set.
func (g *phiTerm) head(s *State, c *Ctx, h *ssa.BasicBlock) {
	t := g.get(s)
	if t == nil {
		return
	}
	g.set(s, t)
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if v := s.env[vkey{c, phi}]; v != nil && types.Identical(phi.Type(), t.T) && g.e.equal(s, v, t) {
			k := loopID(c, h) + "." + phi.Name()
			g.phis[k] = vkey{c, phi}
			s.gs["phi "+g.name] = k
			return
		}
	}
	if !g.cells {
		return
	}
	var as []*Term
	for a, v := range s.mem {
		if (a.Op == "fa" || allocTerm(a)) && allocTerm(rootOf(a)) && v.key == t.key {
			as = append(as, a)
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i].key < as[j].key })
	if len(as) > 0 {
		n := ""
		for k, a := range g.addrs {
			if a == as[0] {
				n = k
			}
		}
		if n == "" && len(g.addrs) < 8 {
			n = fmt.Sprint("cell ", len(g.addrs))
			g.addrs[n] = as[0]
		}
		if n != "" {
			s.gs["phi "+g.name] = n
		}
	}
}
