package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Eng interprets functions abstractly: all paths, calls inlined by context,
// loops by joining at their heads until nothing changes.
type Eng struct {
	p      *Prog
	tt     *terms
	ctxs   map[string]*Ctx
	nctx   int
	H      Hooks
	ver0   *Term
	axMemo map[*Term][]lit
	taut   map[lit]bool
	flows  map[*ssa.Function]*flowInfo
	mods   map[*ssa.Function]map[string]bool
	Cap    int // states kept apart at a merge point
	LCap   int // entry states kept apart at a loop head
	MaxDep int
	Steps  int
	Limit  int
	Fns    map[*ssa.Function]bool // functions interpreted
	Debug  bool
	// Fact, if set, tells which facts are worth recording; PhiRel, which phis
	// keep states apart.  Dropping either loses precision only.
	Fact   func(t *Term) bool
	PhiRel func(t types.Type) bool
	// Frozen, if set, tells which terms stand for objects nothing writes to: the
	// client must report writes to them.
	Frozen func(t *Term) bool
	// Gen, if set, makes loop heads look for facts about the elements next to the
	// variables of the loop: from the facts (and values) it accepts, with their
	// indices replaced by the variables of the head, give or take one.
	Gen func(t *Term) bool
	// Fold: a comparison whose outcome is known is a constant.
	Fold bool
	// NonNil, if set, tells which terms are assumed not to be nil.
	NonNil func(t *Term) bool
}

// Hooks are the check's observers.  All may be nil.
type Hooks struct {
	Opaque   func(f *ssa.Function) bool
	Call     func(s *State, c *Ctx, in ssa.CallInstruction, name string, args []*Term) (*Term, bool)
	After    func(s *State, c *Ctx, in ssa.CallInstruction, name string, args []*Term, res *Term)
	Inlined  func(s *State, c *Ctx, in ssa.CallInstruction, f *ssa.Function, args []*Term)
	Store    func(s *State, c *Ctx, in ssa.Instruction, addr, val *Term, t types.Type)
	MapWrite func(s *State, c *Ctx, in ssa.Instruction, m, k, v *Term)
	Return   func(s *State, c *Ctx, in ssa.Instruction, res []*Term)
	Panic    func(s *State, c *Ctx, in ssa.Instruction, v *Term)
	Bounds   func(s *State, c *Ctx, in ssa.Instruction, what string, ok bool, detail string)
	Instr    func(s *State, c *Ctx, in ssa.Instruction)
	Branch   func(s *State, c *Ctx, in ssa.Instruction, lits []lit)
	LoopIn   func(s *State, c *Ctx, head *ssa.BasicBlock)
	LoopBack func(s *State, c *Ctx, head *ssa.BasicBlock)
	LoopOut  func(s *State, c *Ctx, head *ssa.BasicBlock)
}

func NewEng(p *Prog) *Eng {
	e := &Eng{p: p, tt: newTerms(), ctxs: map[string]*Ctx{}, axMemo: map[*Term][]lit{}, taut: map[lit]bool{}, flows: map[*ssa.Function]*flowInfo{},
		mods: map[*ssa.Function]map[string]bool{}, Cap: 48, LCap: 10, MaxDep: 12, Limit: 6000000, Fns: map[*ssa.Function]bool{}}
	e.ver0 = e.tt.sym("ver0", nil, func() *symInfo { return &symInfo{kind: "ver"} })
	return e
}

type undecided struct{ msg string }

func (e *Eng) giveUp(format string, a ...interface{}) { panic(undecided{fmt.Sprintf(format, a...)}) }

func (e *Eng) ctx(parent *Ctx, call ssa.Instruction, fn *ssa.Function) *Ctx {
	k := fmt.Sprintf("%p|%p|%p", parent, call, fn)
	if c, ok := e.ctxs[k]; ok {
		return c
	}
	e.nctx++
	c := &Ctx{parent: parent, call: call, fn: fn, id: e.nctx}
	if parent != nil {
		c.depth = parent.depth + 1
	}
	e.ctxs[k] = c
	return c
}

// newSym: the symbol for the value produced at instruction in (context c).
func (e *Eng) newSym(kind, name string, t types.Type, c *Ctx, v ssa.Value, in ssa.Instruction) *Term {
	cid := 0
	if c != nil {
		cid = c.id
	}
	id := fmt.Sprintf("%s/%d/%p/%s", kind, cid, in, name)
	return e.tt.sym(id, t, func() *symInfo {
		si := &symInfo{kind: kind, ctx: c, val: v, instr: in, shape: name}
		if in != nil {
			si.block = in.Block()
		}
		return si
	})
}

// ---- control flow ----

type loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type flowInfo struct {
	rpo    []*ssa.BasicBlock
	num    map[*ssa.BasicBlock]int
	loops  map[*ssa.BasicBlock]*loop
	liveIn map[*ssa.BasicBlock]map[ssa.Value]bool
	npred  map[*ssa.BasicBlock]int
}

func (e *Eng) flow(f *ssa.Function) *flowInfo {
	if fi, ok := e.flows[f]; ok {
		return fi
	}
	fi := &flowInfo{num: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loop{}, liveIn: map[*ssa.BasicBlock]map[ssa.Value]bool{}, npred: map[*ssa.BasicBlock]int{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, x := range b.Succs {
			if !seen[x] {
				dfs(x)
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.num[post[i]] = len(fi.rpo)
		fi.rpo = append(fi.rpo, post[i])
	}
	for _, b := range fi.rpo {
		for _, h := range b.Succs {
			fi.npred[h]++
			if h.Dominates(b) {
				l := fi.loops[h]
				if l == nil {
					l = &loop{head: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
					fi.loops[h] = l
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					for _, pr := range x.Preds {
						if seen[pr] {
							stack = append(stack, pr)
						}
					}
				}
			}
		}
	}
	// liveness
	use := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	def := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	phiUse := map[*ssa.BasicBlock]map[ssa.Value]bool{} // used by phis of successors, at end of block
	tracked := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
			return false
		}
		return true
	}
	for _, b := range fi.rpo {
		use[b], def[b] = map[ssa.Value]bool{}, map[ssa.Value]bool{}
		if phiUse[b] == nil {
			phiUse[b] = map[ssa.Value]bool{}
		}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				for i, ed := range ph.Edges {
					if tracked(ed) {
						pb := b.Preds[i]
						if phiUse[pb] == nil {
							phiUse[pb] = map[ssa.Value]bool{}
						}
						phiUse[pb][ed] = true
					}
				}
				def[b][ph] = true
				continue
			}
			for _, op := range in.Operands(nil) {
				if *op != nil && tracked(*op) && !def[b][*op] {
					use[b][*op] = true
				}
			}
			// what a stored list began with is of use too (see grows)
			if st, ok := in.(*ssa.Store); ok {
				if _, isPhi := st.Val.(*ssa.Phi); isPhi {
					if bases, _, ok := grownBy(st.Val); ok {
						for _, v := range bases {
							if d, is := v.(ssa.Instruction); tracked(v) && !def[b][v] && (!is || d.Block().Dominates(b)) {
								use[b][v] = true
							}
						}
					}
				}
			}
			if v, ok := in.(ssa.Value); ok {
				def[b][v] = true
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fi.rpo) - 1; i >= 0; i-- {
			b := fi.rpo[i]
			in := fi.liveIn[b]
			if in == nil {
				in = map[ssa.Value]bool{}
				fi.liveIn[b] = in
			}
			n := len(in)
			for v := range use[b] {
				in[v] = true
			}
			add := func(v ssa.Value) {
				if !def[b][v] {
					in[v] = true
				}
			}
			for v := range phiUse[b] {
				add(v)
			}
			for _, sc := range b.Succs {
				for v := range fi.liveIn[sc] {
					add(v)
				}
			}
			// phis are live in at their own block (they are evaluated on the edge)
			for _, x := range b.Instrs {
				if ph, ok := x.(*ssa.Phi); ok {
					in[ph] = true
				}
			}
			if len(in) != n {
				changed = true
			}
		}
	}
	// a phi of b must not be live into b's predecessors on its own account
	e.flows[f] = fi
	return fi
}

type edge struct {
	st   *State
	from *ssa.BasicBlock
	to   *ssa.BasicBlock
}

type outcome struct {
	st   *State
	vals []*Term
}

// Run interprets fn from a fresh state with the given arguments.
func (e *Eng) Run(fn *ssa.Function, s *State, args []*Term) []outcome {
	c := e.ctx(nil, nil, fn)
	return e.call(c, s, args, nil)
}

// Params makes symbols for the parameters of fn.
func (e *Eng) Params(fn *ssa.Function) []*Term {
	var out []*Term
	for i, pa := range fn.Params {
		out = append(out, e.Param(fmt.Sprintf("p%d.%s", i, pa.Name()), pa.Type()))
	}
	return out
}

func (e *Eng) Param(name string, t types.Type) *Term {
	return e.tt.sym("param/"+name, t, func() *symInfo { return &symInfo{kind: "param", shape: name} })
}

func (e *Eng) call(c *Ctx, s *State, args []*Term, free []*Term) []outcome {
	fn := c.fn
	e.Fns[fn] = true
	for i, pa := range fn.Params {
		if i < len(args) {
			s.env[vkey{c, pa}] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(free) {
			s.env[vkey{c, fv}] = free[i]
		}
	}
	fi := e.flow(fn)
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fi.rpo {
		all[b] = true
	}
	var rets []outcome
	e.region(c, fi, all, nil, []edge{{s, nil, fn.Blocks[0]}}, &rets)
	// drop the callee's values
	for _, o := range rets {
		for k := range o.st.env {
			if k.c == c {
				delete(o.st.env, k)
			}
		}
	}
	if c.parent != nil {
		rets = e.mergeOutcomes(c, rets)
	}
	return rets
}

func (e *Eng) mergeOutcomes(c *Ctx, rets []outcome) []outcome {
	if len(rets) < 2 {
		return rets
	}
	seen := map[string]bool{}
	var out []outcome
	for _, o := range rets {
		e.gc(o.st, o.vals)
		k := o.st.key()
		for _, v := range o.vals {
			k += fmt.Sprintf("|%p", v)
		}
		if !seen[k] {
			seen[k] = true
			out = append(out, o)
		}
	}
	if len(out) > e.Cap {
		// join those returning the same results
		groups := map[string][]*State{}
		vals := map[string][]*Term{}
		var order []string
		for _, o := range out {
			k := o.st.ghostKey()
			for _, v := range o.vals {
				k += fmt.Sprintf("|%p", v)
			}
			if groups[k] == nil {
				order = append(order, k)
				vals[k] = o.vals
			}
			groups[k] = append(groups[k], o.st)
		}
		var res []outcome
		for _, k := range order {
			j := e.join(nil, groups[k], joinSite{c: c, tag: "ret", block: nil, in: c.call})
			res = append(res, outcome{j, vals[k]})
		}
		return res
	}
	return out
}

// region runs the blocks of one region in reverse post-order, inner loops as
// units.  head is the region's own loop head (nil for a function body).
// Edges leaving the region, and back edges to head, are returned.
func (e *Eng) region(c *Ctx, fi *flowInfo, blocks map[*ssa.BasicBlock]bool, head *ssa.BasicBlock, entry []edge, rets *[]outcome) (exits, backs []edge) {
	in := map[*ssa.BasicBlock][]edge{}
	for _, ed := range entry {
		in[ed.to] = append(in[ed.to], ed)
	}
	route := func(eds []edge) {
		for _, ed := range eds {
			if ed.to == head {
				backs = append(backs, ed)
			} else if !blocks[ed.to] {
				exits = append(exits, ed)
			} else {
				in[ed.to] = append(in[ed.to], ed)
			}
		}
	}
	for _, b := range fi.rpo {
		if !blocks[b] {
			continue
		}
		if len(in[b]) == 0 {
			continue
		}
		if b != head {
			if l := fi.loops[b]; l != nil {
				route(e.loop(c, fi, l, in[b], rets))
				delete(in, b)
				continue
			}
		}
		states := e.enter(c, fi, b, in[b], b == head)
		delete(in, b)
		for _, s := range states {
			route(e.block(c, b, s, rets))
		}
	}
	return
}

// phis evaluates the phis of b for an edge from pred.
func (e *Eng) phis(c *Ctx, s *State, from, b *ssa.BasicBlock) {
	if from == nil {
		return
	}
	idx := -1
	for i, pr := range b.Preds {
		if pr == from {
			idx = i
			break
		}
	}
	type pv struct {
		k vkey
		v *Term
	}
	var vs []pv
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vs = append(vs, pv{vkey{c, ph}, e.val(s, c, ph.Edges[idx])})
	}
	for _, x := range vs {
		s.env[x.k] = x.v
	}
}

// enter merges the states arriving at a block.
func (e *Eng) enter(c *Ctx, fi *flowInfo, b *ssa.BasicBlock, eds []edge, isHead bool) []*State {
	var out []*State
	for _, ed := range eds {
		if !isHead {
			e.phis(c, ed.st, ed.from, b)
		}
		out = append(out, ed.st)
	}
	if len(out) < 2 || isHead {
		return out
	}
	for _, s := range out {
		e.prune(c, fi, b, s)
		e.gc(s, nil)
	}
	out = dedup(out)
	if len(out) > e.Cap {
		groups := map[string][]*State{}
		var order []string
		for _, s := range out {
			k := s.ghostKey() + e.phiKey(c, b, s)
			if groups[k] == nil {
				order = append(order, k)
			}
			groups[k] = append(groups[k], s)
		}
		if e.Debug {
			fmt.Fprintf(os.Stderr, "merge at %s b%d: %d -> %d\n", c.fn.Name(), b.Index, len(out), len(order))
		}
		out = nil
		for _, k := range order {
			g := groups[k]
			if len(g) == 1 {
				out = append(out, g[0])
			} else {
				out = append(out, e.join(nil, g, joinSite{c: c, tag: "mrg" + k, block: b}))
			}
		}
	}
	return out
}

func dedup(ss []*State) []*State {
	seen := map[string]bool{}
	var out []*State
	for _, s := range ss {
		k := s.key()
		if !seen[k] {
			seen[k] = true
			out = append(out, s)
		}
	}
	return out
}

// prune drops values of this context that are dead at b.
func (e *Eng) prune(c *Ctx, fi *flowInfo, b *ssa.BasicBlock, s *State) {
	live := fi.liveIn[b]
	for k := range s.env {
		if k.c == c && !live[k.v] {
			delete(s.env, k)
		}
	}
}

// gc drops facts and memory about things nothing refers to any more.
func (e *Eng) gc(s *State, extra []*Term) {
	live := map[int]bool{}
	seen := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		for _, x := range t.syms {
			live[x] = true
		}
	}
	for _, v := range s.env {
		mark(v)
	}
	for _, v := range extra {
		mark(v)
	}
	for _, v := range s.gt {
		mark(v)
	}
	for _, v := range s.ver {
		mark(v)
	}
	for _, d := range s.defers {
		for _, a := range d.args {
			mark(a)
		}
		mark(d.fn)
	}
	if e.Gen != nil {
		for t := range s.lits {
			if t.Op == "lt" && e.Gen(t) || t.Op == "eq" && t.A[0].T != nil && !isInt(t.A[0].T) && (e.Gen(t.A[0]) || e.Gen(t.A[1])) {
				mark(t)
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for a, v := range s.mem {
			if seen[v] && seen[a] {
				continue
			}
			ok := true
			r := rootOf(a)
			if s.nonEscapedAlloc(r) {
				ok = live[r.Info.id]
			} else {
				for _, x := range a.syms {
					if !live[x] && e.tt.bysym[x].Info.kind != "param" && e.tt.bysym[x].Info.kind != "ver" {
						ok = false
					}
				}
			}
			if ok && (!seen[v] || !seen[a]) {
				mark(v)
				mark(a)
				changed = true
			}
		}
	}
	for a := range s.mem {
		if !seen[a] {
			if s.nonEscapedAlloc(rootOf(a)) {
				delete(s.mem, a)
			} else {
				delete(s.mem, a)
			}
		}
	}
	ch := false
	for t := range s.lits {
		for _, x := range t.syms {
			if !live[x] && e.tt.bysym[x].Info.kind != "param" && e.tt.bysym[x].Info.kind != "ver" {
				delete(s.lits, t)
				ch = true
				break
			}
		}
	}
	for t := range s.esc {
		if !live[t.Info.id] {
			delete(s.esc, t)
		}
	}
	if ch {
		s.sv = nil
	}
}

func (e *Eng) phiKey(c *Ctx, b *ssa.BasicBlock, s *State) string {
	var sb strings.Builder
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := s.env[vkey{c, ph}]
		if v == nil || e.PhiRel != nil && !e.PhiRel(ph.Type()) {
			continue
		}
		if isInt(ph.Type()) || isStr(ph.Type()) || isFloat(ph.Type()) {
			allConst := true
			for _, x := range ph.Edges {
				if _, isC := x.(*ssa.Const); !isC && x != ph {
					if p2, isPhi := x.(*ssa.Phi); isPhi && constPhi(p2, map[*ssa.Phi]bool{ph: true}) {
						continue
					}
					allConst = false
				}
			}
			if !allConst {
				continue
			}
		}
		if v.isConst() {
			fmt.Fprintf(&sb, "|%s=%s", ph.Name(), v.key)
		}
	}
	return sb.String()
}

// constPhi: a phi that only ever holds constants.
func constPhi(ph *ssa.Phi, seen map[*ssa.Phi]bool) bool {
	if seen[ph] {
		return true
	}
	seen[ph] = true
	for _, x := range ph.Edges {
		switch x := x.(type) {
		case *ssa.Const:
		case *ssa.Phi:
			if !constPhi(x, seen) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

type part struct {
	st    *State
	rets  []outcome
	exits []edge
	backs []edge
	dirty bool
	n     int
}

func (e *Eng) loop(c *Ctx, fi *flowInfo, l *loop, entry []edge, rets *[]outcome) []edge {
	parts := map[string]*part{}
	var order []string
	add := func(k string, s *State) {
		p := parts[k]
		site := joinSite{c: c, tag: "loop" + k, block: l.head, loop: l}
		if p == nil {
			p = &part{}
			parts[k] = p
			order = append(order, k)
			p.st = e.join(nil, []*State{s}, site)
			p.dirty = true
			return
		}
		p.n++
		site.pass = p.n
		j := e.join(p.st, []*State{s}, site)
		if j.key() != p.st.key() {
			if e.Debug && p.n > 40 && p.n < 48 {
				e.diffStates(p.st, j)
			}
			p.st = j
			p.dirty = true
		}
	}
	var es []*State
	for _, ed := range entry {
		e.phis(c, ed.st, ed.from, l.head)
		e.prune(c, fi, l.head, ed.st)
		e.gc(ed.st, nil)
		es = append(es, ed.st)
	}
	es = dedup(es)
	if e.H.LoopIn != nil {
		for _, s := range es {
			e.H.LoopIn(s, c, l.head)
		}
		es = dedup(es)
	}
	ent := map[string]bool{}
	for i, s := range es {
		k := "#"
		if len(es) <= e.LCap {
			k = fmt.Sprintf("#%d", i)
		}
		ent[k] = true
		add(k+e.phiKey(c, l.head, s)+s.ghostKey(), s)
	}
	for round := 0; ; round++ {
		if round > 60 {
			e.giveUp("loop at %s does not stabilise", e.p.Pos(l.head.Instrs[0].Pos()))
		}
		progress := false
		for i := 0; i < len(order); i++ {
			p := parts[order[i]]
			if !p.dirty {
				continue
			}
			progress = true
			p.dirty = false
			p.rets, p.exits, p.backs = nil, nil, nil
			p.exits, p.backs = e.region(c, fi, l.blocks, l.head, []edge{{p.st.clone(), nil, l.head}}, &p.rets)
			// the entry partition this one descends from
			end := 1
			for end < len(order[i]) && order[i][end] >= '0' && order[i][end] <= '9' {
				end++
			}
			base := order[i][:end]
			for _, b := range p.backs {
				e.phis(c, b.st, b.from, l.head)
				if e.H.LoopBack != nil {
					e.H.LoopBack(b.st, c, l.head)
				}
				e.prune(c, fi, l.head, b.st)
				e.gc(b.st, nil)
				add(base+e.phiKey(c, l.head, b.st)+b.st.ghostKey(), b.st)
			}
		}
		if !progress {
			break
		}
	}
	if os.Getenv("DBGPARTS") != "" {
		nb, nx := 0, 0
		for _, k := range order {
			nb += len(parts[k].backs)
			nx += len(parts[k].exits)
		}
		fmt.Fprintln(os.Stderr, "loop", c.fn.Name(), l.head.Index, e.p.InstrPos(l.head.Instrs[len(l.head.Instrs)-1]), "entries", len(es), "parts", len(order), "backs", nb, "exits", nx)
	}
	var exits []edge
	for _, k := range order {
		p := parts[k]
		if e.H.LoopOut != nil {
			for _, x := range p.exits {
				e.H.LoopOut(x.st, c, l.head)
			}
		}
		exits = append(exits, p.exits...)
		*rets = append(*rets, p.rets...)
	}
	return exits
}

type joinSite struct {
	c     *Ctx
	tag   string
	block *ssa.BasicBlock
	loop  *loop
	in    ssa.Instruction
	pass  int
}

func (j joinSite) instr() ssa.Instruction {
	if j.block != nil && len(j.block.Instrs) > 0 {
		return j.block.Instrs[0]
	}
	return j.in
}

// bornIn: was symbol x created inside loop l of context c?
func bornIn(x *symInfo, c *Ctx, l *loop, selfTag string) bool {
	if l == nil {
		return false
	}
	cc := x.ctx
	b := x.block
	for cc != nil && cc != c {
		if cc.call == nil {
			return false
		}
		b = cc.call.Block()
		cc = cc.parent
	}
	if cc != c || b == nil || !l.blocks[b] {
		return false
	}
	if x.ctx == c && x.block == l.head && (x.kind == "hd" || x.kind == "hver") {
		return false
	}
	return true
}

func (e *Eng) hasBorn(t *Term, c *Ctx, l *loop) bool {
	if l == nil {
		return false
	}
	for _, x := range t.syms {
		if bornIn(e.tt.bysym[x].Info, c, l, "") {
			return true
		}
	}
	return false
}

// hasOwn: does t depend on a variable of the head of l?  It denotes something
// else in each iteration.
func (e *Eng) hasOwn(t *Term, c *Ctx, l *loop) bool {
	if l == nil {
		return false
	}
	for _, x := range t.syms {
		if i := e.tt.bysym[x].Info; i.kind == "hd" && i.ctx == c && i.block == l.head {
			return true
		}
	}
	return false
}

// join: the least state covering old (may be nil) and all of ss.
func (e *Eng) join(old *State, ss []*State, site joinSite) *State {
	if old == nil && len(ss) == 1 && site.loop == nil {
		return ss[0]
	}
	all := ss
	if old != nil {
		all = append([]*State{old}, ss...)
	}
	first := all[0]
	r := newState()
	r.trace = first.trace
	r.defers = first.defers
	for k, v := range first.gs {
		r.gs[k] = v
	}
	sub := make([]map[*Term]*Term, len(all)) // per state: its value -> joined symbol
	inv := make([]map[*Term]*Term, len(all)) // per state: joined symbol -> its value
	for i := range all {
		sub[i] = map[*Term]*Term{}
		inv[i] = map[*Term]*Term{}
	}
	var fresh []*Term
	twins := map[string][]*Term{} // new symbols for the same values
	lens := map[*Term]string{}    // and for their lengths
	c, l := site.c, site.loop
	pick := func(name string, kind string, t types.Type, vals []*Term) *Term {
		same := true
		for _, v := range vals[1:] {
			if v != vals[0] {
				same = false
				break
			}
		}
		if same && !e.hasBorn(vals[0], c, l) {
			return vals[0]
		}
		h := e.newSym(kind, site.tag+"/"+name, t, c, nil, site.instr())
		if h.Info.block == nil && site.block != nil {
			h.Info.block = site.block
		}
		isNew := false
		for i, v := range vals {
			if v == h {
				continue
			}
			isNew = true
			if !v.isConst() {
				if _, dup := sub[i][v]; !dup {
					sub[i][v] = h
				}
			}
			inv[i][h] = v
		}
		if isNew && kind == "hd" {
			fresh = append(fresh, h)
			if len(vals) > 1 && t != nil && !isBool(t) {
				k := ""
				for _, v := range vals {
					k += fmt.Sprintf("%p ", v)
				}
				twins[k] = append(twins[k], h)
				if hasLen(t) {
					k := ""
					for _, v := range vals {
						k += fmt.Sprintf("%p ", e.tt.length(v))
					}
					lens[h] = k
				}
			}
		}
		return h
	}
	for k, v := range first.env {
		vals := []*Term{v}
		ok := true
		for _, o := range all[1:] {
			ov, has := o.env[k]
			if !has {
				ok = false
				break
			}
			vals = append(vals, ov)
		}
		if !ok {
			continue
		}
		r.env[k] = pick(fmt.Sprintf("e%d.%s", k.c.id, k.v.Name()), "hd", k.v.Type(), vals)
		if r.env[k].T == nil {
			r.env[k].T = k.v.Type()
		}
	}
	for k := range first.gt {
		var vals []*Term
		ok := true
		for _, o := range all {
			ov, has := o.gt[k]
			if !has {
				ok = false
				break
			}
			vals = append(vals, ov)
		}
		if ok {
			r.gt[k] = pick("g"+k, "hd", vals[0].T, vals)
		}
	}
	// memory
	keys := map[*Term]bool{}
	for _, o := range all {
		for a := range o.mem {
			keys[a] = true
		}
	}
	var ks []*Term
	for a := range keys {
		ks = append(ks, a)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].key < ks[j].key })
	for _, o := range all {
		for t := range o.esc {
			r.esc[t] = true
		}
	}
	for _, a := range ks {
		if e.hasBorn(a, c, l) || e.hasOwn(a, c, l) {
			continue
		}
		root := rootOf(a)
		var vals []*Term
		ok := true
		for _, o := range all {
			v, has := o.mem[a]
			if !has {
				if allocTerm(root) && !o.esc[root] {
					ok = false // not allocated there
					break
				}
				if a.Op == "me" && a.A[1].Op != "empty" && a.A[0].T != nil {
					// an entry is kept only if there is one in every state
					var has *Term
					v, has = e.lookup(o, a.A[0], a.A[1], a.A[0].T)
					if !e.implied(o, has, true) && !e.implied(o, e.tt.eq(v, e.tt.zero(deref(a.T))), false) {
						ok = false
						break
					}
				} else {
					v = e.Load(o, a, deref(a.T))
				}
			}
			vals = append(vals, v)
		}
		if !ok {
			continue
		}
		vt := vals[0].T
		if a.T != nil {
			if pt, ok := a.T.Underlying().(*types.Pointer); ok {
				vt = pt.Elem()
			}
		}
		r.mem[a] = pick("m"+a.key, "hd", vt, vals)
	}
	// versions
	vk := map[string]bool{}
	for _, o := range all {
		for k := range o.ver {
			vk[k] = true
		}
	}
	for k := range vk {
		var vals []*Term
		for _, o := range all {
			v := o.ver[k]
			if v == nil {
				leaf := k
				if i := strings.LastIndex(k, ">"); i >= 0 {
					leaf = k[i+1:]
				}
				if !strings.HasPrefix(k, "~") {
					v = o.ver["~"+leaf]
				}
				if v == nil {
					v = e.ver0
				}
			}
			vals = append(vals, v)
		}
		r.ver[k] = pick("v"+k, "hver", nil, vals)
	}
	// facts
	cand := map[*Term]bool{}
	addCand := func(t *Term, pos bool) {
		for t.Op == "not" {
			t, pos = t.A[0], !pos
		}
		if _, isC := t.boolVal(); isC {
			return
		}
		if e.hasBorn(t, c, l) || e.tautology(t, pos) {
			return
		}
		cand[t] = pos
	}
	for i, o := range all {
		if old != nil && i > 0 {
			break // candidates only shrink once the head state exists, except for new symbols
		}
		for t, pos := range o.lits {
			addCand(t, pos)
			if len(sub[i]) > 0 {
				if n := e.tt.subst(t, sub[i]); n != t {
					addCand(n, pos)
				}
			}
		}
	}
	// templates about new symbols
	for h, k := range lens {
		for _, x := range twins[k] {
			addCand(e.tt.eq(x, e.tt.length(h)), true)
		}
	}
	for _, hs := range twins {
		sort.Slice(hs, func(i, j int) bool { return hs[i].key < hs[j].key })
		for _, h := range hs[1:] {
			if h != hs[0] {
				addCand(e.tt.eq(hs[0], h), true)
				if hasLen(h.T) && hasLen(hs[0].T) {
					addCand(e.tt.eq(e.tt.length(hs[0]), e.tt.length(h)), true)
				}
			}
		}
	}
	var limits []*Term
	if l != nil && e.Fact == nil {
		limits = e.limits(all)
	}
	for _, h := range fresh {
		for _, t := range e.templates(h) {
			addCand(t.t, t.pos)
		}
		if h.T != nil && isInt(h.T) {
			for _, n := range limits {
				addCand(e.tt.lt(n, h), false)
			}
		}
		if isInt(h.T) || (h.T != nil && hasLen(h.T)) {
			x := h
			if !isInt(h.T) {
				x = e.tt.length(h)
			}
			lo, hi := inf, -inf
			for i, o := range all {
				v := e.tt.subst(x, inv[i])
				sv := e.solverOf(o)
				if b := sv.lower(v); b < lo {
					lo = b
				}
				if b := sv.upper(v); b > hi {
					hi = b
				}
			}
			if site.pass > 2 {
				lo, hi = widen(lo, hi)
			}
			if lo > -inf && lo < inf {
				addCand(e.tt.lt(x, e.tt.intc(lo, nil)), false)
			}
			if hi < inf && hi > -inf {
				addCand(e.tt.lt(x, e.tt.intc(hi+1, nil)), true)
			}
		}
	}
	if e.Gen != nil && l != nil {
		var hs []*Term
		for _, h := range fresh {
			if h.T != nil && isInt(h.T) {
				hs = append(hs, h)
			}
		}
		o := all[0]
		if len(hs) > 0 {
			for t, pos := range o.lits {
				if e.Gen(t) {
					for _, g := range e.shifted(t, hs) {
						addCand(g, pos)
						addCand(e.tt.subst(g, sub[0]), pos)
					}
				}
			}
			for _, h := range fresh {
				if v := inv[0][h]; v != nil && !isInt(h.T) && e.Gen(v) {
					for _, g := range e.shifted(v, hs) {
						addCand(e.tt.eq(h, g), true)
					}
				}
			}
		}
	}
	for t, pos := range cand {
		ok := true
		var worst *Term
		for i, o := range all {
			q := e.tt.subst(t, inv[i])
			if !e.implied(o, q, pos) {
				ok = false
				worst = q
				// weaken integer bounds instead of dropping them
				if t.Op == "lt" && isInt(t.A[0].T) && site.pass <= 6 {
					sv := e.solverOf(o)
					x := e.tt.subst(t.A[0], inv[i])
					if pos {
						if b := sv.upper(x); b < inf {
							ok = true
							t = e.tt.lt(t.A[0], e.tt.intc(b+1, nil))
							continue
						}
					} else if b := sv.lower(x); b > -inf {
						if site.pass > 2 {
							b, _ = widen(b, inf)
						}
						if b > -inf {
							ok = true
							t = e.tt.lt(t.A[0], e.tt.intc(b, nil))
							continue
						}
					}
				}
				break
			}
		}
		_ = worst
		if ok {
			p2 := pos
			for t.Op == "not" {
				t, p2 = t.A[0], !p2
			}
			if _, isC := t.boolVal(); !isC && !e.tautology(t, p2) {
				r.lits[t] = p2
			}
		}
	}
	return r
}

// limits: the lengths compared with something, which a counter may stay within.
func (e *Eng) limits(all []*State) (out []*Term) {
	seen := map[*Term]bool{}
	for _, o := range all {
		for t := range o.lits {
			if t.Op != "lt" {
				continue
			}
			t = t.A[0]
			for _, a := range append([]*Term{t}, t.A...) {
				if a.Op == "len" && !seen[a] {
					seen[a] = true
					out = append(out, a)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	if len(out) > 4 {
		return nil
	}
	return
}

// tautology: a fact that holds in every state need not be carried.
func (e *Eng) tautology(t *Term, pos bool) bool {
	k := lit{t, pos}
	if v, ok := e.taut[k]; ok {
		return v
	}
	v := e.implied(newState(), t, pos)
	e.taut[k] = v
	return v
}

func widen(lo, hi int64) (int64, int64) {
	if lo > -inf {
		switch {
		case lo >= 1:
			lo = 1
		case lo >= 0:
			lo = 0
		case lo >= -1:
			lo = -1
		default:
			lo = -inf
		}
	}
	hi = inf
	return lo, hi
}

func hasLen(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

// shifted: t with one of the indices of lists in it replaced by one of hs, give
// or take one.
func (e *Eng) shifted(t *Term, hs []*Term) []*Term {
	seen := map[*Term]bool{}
	var ias []*Term
	var find func(x *Term)
	find = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x.Op == "ia" {
			ias = append(ias, x)
		}
		for _, a := range x.A {
			find(a)
		}
	}
	find(t)
	var out []*Term
	for _, x := range ias {
		for _, h := range hs {
			for d := int64(-1); d <= 1; d++ {
				y := e.tt.indexAddr(x.A[0], e.tt.addc(h, d), deref(x.T))
				if y != x {
					out = append(out, e.tt.subst(t, map[*Term]*Term{x: y}))
				}
			}
		}
	}
	return out
}

// templates: unary facts worth keeping about a joined location.
func (e *Eng) templates(h *Term) []lit {
	if h.T == nil {
		return nil
	}
	tt := e.tt
	var out []lit
	switch h.T.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Interface, *types.Signature:
		out = append(out, lit{tt.eq(h, tt.nilc(h.T)), false})
	case *types.Struct:
		if !e.atomicStruct(h.T) {
			out = append(out, lit{tt.eq(h, tt.zero(h.T)), false}, lit{tt.eq(h, tt.zero(h.T)), true})
		}
	}
	return out
}

// ---- facts ----

// assume adds a fact; false if it contradicts what is known.
func (e *Eng) assume(s *State, t *Term, pos bool) bool {
	for t.Op == "not" {
		t, pos = t.A[0], !pos
	}
	if v, ok := t.boolVal(); ok {
		return v == pos
	}
	if old, ok := s.lits[t]; ok {
		return old == pos
	}
	if e.Fact != nil && !e.Fact(t) {
		return true
	}
	if e.implied(s, t, !pos) {
		return false
	}
	s.lits[t] = pos
	s.sv = nil
	if e.solverOf(s).bad {
		return false
	}
	return true
}

func (e *Eng) implied(s *State, t *Term, pos bool) bool {
	for t.Op == "not" {
		t, pos = t.A[0], !pos
	}
	if v, ok := t.boolVal(); ok {
		return v == pos
	}
	if old, ok := s.lits[t]; ok {
		return old == pos
	}
	return e.solverOf(s).decide(t, pos)
}

func (e *Eng) canon(s *State, t *Term) *Term { return e.solverOf(s).canon(t) }

// equal: provably the same value.
func (e *Eng) equal(s *State, a, b *Term) bool {
	if a == b {
		return true
	}
	if e.canon(s, a) == e.canon(s, b) {
		return true
	}
	return e.implied(s, e.tt.eq(a, b), true)
}

func (e *Eng) isNil(s *State, t *Term) bool {
	if t.Op == "nil" {
		return true
	}
	return e.implied(s, e.tt.eq(t, e.tt.nilc(t.T)), true)
}

func (e *Eng) notNil(s *State, t *Term) bool {
	if e.tt.nonNil(t) {
		return true
	}
	return e.implied(s, e.tt.eq(t, e.tt.nilc(t.T)), false)
}

// ---- values ----

func (e *Eng) val(s *State, c *Ctx, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return e.tt.zero(v.Type())
		}
		val := v.Value
		if isFloat(v.Type()) {
			val = constant.ToFloat(val)
		} else if isInt(v.Type()) {
			val = constant.ToInt(val)
		}
		return e.tt.constant(val, v.Type())
	case *ssa.Global:
		return e.tt.intern(&Term{Op: "global", S: v.Pkg.Pkg.Path() + "." + v.Name(), T: v.Type()})
	case *ssa.Function:
		return e.tt.intern(&Term{Op: "func", S: v.String(), T: v.Type()})
	case *ssa.Builtin:
		return e.tt.intern(&Term{Op: "func", S: "builtin." + v.Name()})
	}
	if t, ok := s.env[vkey{c, v}]; ok {
		return t
	}
	e.giveUp("no value for %s in %s", v.Name(), v.Parent())
	return nil
}

func (e *Eng) block(c *Ctx, b *ssa.BasicBlock, s0 *State, rets *[]outcome) []edge {
	states := []*State{s0}
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		switch in := in.(type) {
		case *ssa.If:
			var out []edge
			for _, s := range states {
				cond := e.val(s, c, in.Cond)
				var ls [2]*State
				tv := s.clone()
				if e.assume(tv, cond, true) {
					ls[0] = tv
				}
				if e.assume(s, cond, false) {
					ls[1] = s
				}
				for i, n := range ls {
					if n == nil {
						continue
					}
					if ls[0] != nil && ls[1] != nil {
						n.trace = &traceNode{n.trace, in.Cond.Pos(), i == 0}
						if !in.Cond.Pos().IsValid() {
							n.trace.pos = in.Pos()
						}
					}
					if e.H.Branch != nil {
						l := lit{cond, i == 0}
						for l.t.Op == "not" {
							l = lit{l.t.A[0], !l.pos}
						}
						e.H.Branch(n, c, in, []lit{l})
					}
					if !n.dead {
						out = append(out, edge{n, b, b.Succs[i]})
					}
				}
			}
			return out
		case *ssa.Jump:
			var out []edge
			for _, s := range states {
				out = append(out, edge{s, b, b.Succs[0]})
			}
			return out
		case *ssa.Return:
			for _, s := range states {
				var vals []*Term
				for _, r := range in.Results {
					vals = append(vals, e.val(s, c, r))
				}
				if e.H.Return != nil {
					e.H.Return(s, c, in, vals)
				}
				if !s.dead {
					*rets = append(*rets, outcome{s, vals})
				}
			}
			return nil
		case *ssa.Panic:
			for _, s := range states {
				v := e.val(s, c, in.X)
				for _, s2 := range e.runDefers(c, s, true) {
					if e.H.Panic != nil {
						e.H.Panic(s2, c, in, v)
					}
				}
			}
			return nil
		default:
			var next []*State
			for _, s := range states {
				e.Steps++
				if e.Steps > e.Limit {
					e.giveUp("more than %d abstract steps", e.Limit)
				}
				if e.H.Instr != nil {
					e.H.Instr(s, c, in)
				}
				for _, n := range e.step(c, s, in) {
					if !n.dead {
						next = append(next, n)
					}
				}
			}
			states = next
		}
		if len(states) == 0 {
			return nil
		}
	}
	return nil
}

func (e *Eng) bounds(s *State, c *Ctx, in ssa.Instruction, what string, ok bool, detail string) {
	if e.H.Bounds != nil {
		e.H.Bounds(s, c, in, what, ok, detail)
	}
}

// checkDeref: the pointer must not be nil.
func (e *Eng) checkDeref(s *State, c *Ctx, in ssa.Instruction, pt *Term) {
	if e.H.Bounds == nil {
		if pt.Op == "sym" && !e.tt.nonNil(pt) {
			e.assume(s, e.tt.eq(pt, e.tt.nilc(pt.T)), false)
		}
		return
	}
	ok := e.notNil(s, pt)
	e.bounds(s, c, in, "nil", ok, "")
	if !ok {
		e.assume(s, e.tt.eq(pt, e.tt.nilc(pt.T)), false)
	}
}

func (e *Eng) checkIndex(s *State, c *Ctx, in ssa.Instruction, idx, n *Term) {
	lo := e.tt.lt(idx, e.tt.intc(0, nil))
	hi := e.tt.lt(idx, n)
	if e.H.Bounds != nil {
		ok := e.implied(s, lo, false) && e.implied(s, hi, true)
		d := ""
		if !ok {
			d = fmt.Sprintf("index %s, length %s", short(idx), short(n))
		}
		e.bounds(s, c, in, "index", ok, d)
	}
	e.assume(s, lo, false)
	e.assume(s, hi, true)
}

func (e *Eng) set(s *State, c *Ctx, v ssa.Value, t *Term) { s.env[vkey{c, v}] = t }

func (e *Eng) step(c *Ctx, s *State, in ssa.Instruction) []*State {
	one := []*State{s}
	tt := e.tt
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		a := e.newSym("alloc", in.Name(), in.Type(), c, in, in)
		t := deref(in.Type())
		// a new object: nothing is known about an earlier one of the same site
		for b := range s.mem {
			if rootOf(b) == a {
				delete(s.mem, b)
			}
		}
		delete(s.esc, a)
		e.zeroInit(s, a, t)
		e.set(s, c, in, a)
	case *ssa.BinOp:
		e.set(s, c, in, e.binop(s, c, in))
	case *ssa.UnOp:
		x := e.val(s, c, in.X)
		switch in.Op {
		case token.MUL:
			e.checkDeref(s, c, in, x)
			e.set(s, c, in, e.Load(s, x, in.Type()))
		case token.SUB:
			e.set(s, c, in, tt.bin(token.SUB, tt.zero(in.Type()), x, in.Type()))
		case token.NOT:
			e.set(s, c, in, tt.not(x))
		default:
			v := e.newSym("op", in.Name(), in.Type(), c, in, in)
			if in.CommaOk {
				tup := in.Type().(*types.Tuple)
				v = tt.mk("tuple", fmt.Sprintf("%p", in), in.Type(),
					e.newSym("op", in.Name()+"0", tup.At(0).Type(), c, in, in), e.newSym("op", in.Name()+"1", tup.At(1).Type(), c, in, in))
			}
			e.set(s, c, in, v)
		}
	case *ssa.ChangeType:
		e.set(s, c, in, e.retype(e.val(s, c, in.X), in.Type()))
	case *ssa.ChangeInterface:
		e.set(s, c, in, e.val(s, c, in.X))
	case *ssa.Convert:
		e.set(s, c, in, e.convert(e.val(s, c, in.X), in.X.Type(), in.Type()))
	case *ssa.MakeInterface:
		x := e.val(s, c, in.X)
		e.set(s, c, in, tt.mk("iface", types.TypeString(in.X.Type(), nil), in.Type(), x))
	case *ssa.MakeClosure:
		var fv []*Term
		for _, b := range in.Bindings {
			v := e.val(s, c, b)
			fv = append(fv, v)
		}
		t := tt.mk("closure", in.Fn.(*ssa.Function).String(), in.Type(), fv...)
		e.p.closures[t.S] = in.Fn.(*ssa.Function)
		e.set(s, c, in, t)
	case *ssa.MakeMap:
		m := e.newSym("make", in.Name(), in.Type(), c, in, in)
		for b := range s.mem {
			if b.Op == "me" && b.A[0] == m || rootOf(b) == m {
				delete(s.mem, b)
			}
		}
		delete(s.esc, m)
		s.mem[tt.mk("me", typKey(in.Type()), types.NewPointer(types.Typ[types.Bool]), m, tt.mk("empty", "", nil))] = tt.boolc(true)
		e.set(s, c, in, m)
	case *ssa.MakeSlice:
		n := e.val(s, c, in.Len)
		m := e.newSym("make", in.Name()+"/"+n.key, in.Type(), c, in, in)
		m.Info.lenT = n
		for b := range s.mem {
			if rootOf(b) == m {
				delete(s.mem, b)
			}
		}
		delete(s.esc, m)
		if e.H.Bounds != nil {
			ok := e.implied(s, tt.lt(n, tt.intc(0, nil)), false)
			e.bounds(s, c, in, "makeslice", ok, short(n))
		}
		e.set(s, c, in, m)
	case *ssa.MakeChan:
		e.set(s, c, in, e.newSym("make", in.Name(), in.Type(), c, in, in))
	case *ssa.Slice:
		e.slice(s, c, in)
	case *ssa.FieldAddr:
		x := e.val(s, c, in.X)
		st := structOf(deref(in.X.Type()))
		f := st.Field(in.Field)
		e.checkDeref(s, c, in, x)
		e.set(s, c, in, tt.fieldAddr(x, deref(in.X.Type()), f.Name(), f.Type()))
	case *ssa.Field:
		x := e.val(s, c, in.X)
		e.set(s, c, in, tt.fieldOf(x, structOf(in.X.Type()), in.Field))
	case *ssa.IndexAddr:
		x := e.val(s, c, in.X)
		i := e.val(s, c, in.Index)
		e.checkIndex(s, c, in, i, tt.length(x))
		e.set(s, c, in, tt.indexAddr(x, i, deref(in.Type())))
	case *ssa.Index:
		x := e.val(s, c, in.X)
		i := e.val(s, c, in.Index)
		e.checkIndex(s, c, in, i, tt.length(x))
		e.set(s, c, in, e.at(x, i, in.Type()))
	case *ssa.Lookup:
		x := e.val(s, c, in.X)
		i := e.val(s, c, in.Index)
		if isStr(in.X.Type()) {
			e.checkIndex(s, c, in, i, tt.length(x))
			e.set(s, c, in, e.at(x, i, in.Type()))
			break
		}
		v, ok := e.lookup(s, x, i, in.X.Type())
		if in.CommaOk {
			e.set(s, c, in, tt.mk("tuple", "", in.Type(), v, ok))
		} else {
			e.set(s, c, in, v)
		}
	case *ssa.MapUpdate:
		m, k, v := e.val(s, c, in.Map), e.val(s, c, in.Key), e.val(s, c, in.Value)
		e.checkMapNil(s, c, in, m)
		if e.H.MapWrite != nil {
			e.H.MapWrite(s, c, in, m, k, v)
		}
		e.mapUpdate(s, m, k, v, in.Map.Type(), c, in)
	case *ssa.Range:
		x := e.val(s, c, in.X)
		e.set(s, c, in, tt.mk("range", fmt.Sprintf("%d.%s", c.id, in.Name()), in.X.Type(), x))
	case *ssa.Next:
		e.next(s, c, in)
	case *ssa.Extract:
		x := e.val(s, c, in.Tuple)
		if x.Op == "tuple" {
			e.set(s, c, in, x.A[in.Index])
		} else {
			e.set(s, c, in, tt.mk("ex", fmt.Sprint(in.Index), in.Type(), x))
		}
	case *ssa.TypeAssert:
		x := e.val(s, c, in.X)
		is := tt.mk("istype", types.TypeString(in.AssertedType, nil), types.Typ[types.Bool], x)
		var v *Term
		if x.Op == "iface" {
			if types.TypeString(in.AssertedType, nil) == x.S {
				is = tt.boolc(true)
				v = x.A[0]
			} else if !types.IsInterface(in.AssertedType) {
				is = tt.boolc(false)
			}
		}
		if v == nil {
			v = tt.mk("ty", types.TypeString(in.AssertedType, nil), in.AssertedType, x)
			if !types.IsInterface(in.AssertedType) || true {
				// a typed value taken out of an interface; may still be a nil pointer
				v = tt.mk("asserted", types.TypeString(in.AssertedType, nil), in.AssertedType, x)
			}
		}
		if in.CommaOk {
			e.set(s, c, in, tt.mk("tuple", "", in.Type(), v, is))
		} else {
			e.bounds(s, c, in, "typeassert", e.implied(s, is, true), "")
			e.assume(s, is, true)
			e.set(s, c, in, v)
		}
	case *ssa.Store:
		a, v := e.val(s, c, in.Addr), e.val(s, c, in.Val)
		e.checkDeref(s, c, in, a)
		if e.H.Store != nil {
			e.H.Store(s, c, in, a, v, in.Val.Type())
		}
		e.Store(s, a, v, in.Val.Type(), c, in)
	case *ssa.Call:
		return e.doCall(c, s, in, in)
	case *ssa.Go:
		for _, a := range in.Call.Args {
			e.escape(s, e.val(s, c, a))
		}
		if e.H.After != nil {
			e.H.After(s, c, in, "go "+calleeName(&in.Call), e.args(s, c, &in.Call), nil)
		}
	case *ssa.Defer:
		d := deferred{c: c, in: in, args: e.args(s, c, &in.Call)}
		if !in.Call.IsInvoke() {
			d.fn = e.val(s, c, in.Call.Value)
		}
		s.defers = append(s.defers, d)
	case *ssa.RunDefers:
		return e.runDefers(c, s, false)
	case *ssa.Send:
	case *ssa.Select:
		tup := in.Type().(*types.Tuple)
		var vs []*Term
		for i := 0; i < tup.Len(); i++ {
			vs = append(vs, e.newSym("op", fmt.Sprintf("%s.%d", in.Name(), i), tup.At(i).Type(), c, in, in))
		}
		e.set(s, c, in, tt.mk("tuple", "", in.Type(), vs...))
	default:
		if v, ok := in.(ssa.Value); ok {
			e.set(s, c, v, e.newSym("op", v.Name(), v.Type(), c, v, in))
		}
	}
	return one
}

func (e *Eng) checkMapNil(s *State, c *Ctx, in ssa.Instruction, m *Term) {
	if e.H.Bounds != nil {
		e.bounds(s, c, in, "nilmap", e.notNil(s, m), short(m))
	}
	e.assume(s, e.tt.eq(m, e.tt.nilc(m.T)), false)
}

func (e *Eng) retype(x *Term, t types.Type) *Term {
	if x.Op == "nil" {
		return e.tt.nilc(t)
	}
	if x.Op == "const" {
		return e.tt.constant(x.C, t)
	}
	return x
}

func (e *Eng) zeroInit(s *State, a *Term, t types.Type) {
	if arr, ok := t.Underlying().(*types.Array); ok {
		if arr.Len() <= 32 {
			for i := int64(0); i < arr.Len(); i++ {
				e.zeroInit(s, e.tt.indexAddr(a, e.tt.intc(i, nil), arr.Elem()), arr.Elem())
			}
		}
		return
	}
	e.leaves(a, t, func(x *Term, path []int, ft types.Type) { s.mem[x] = e.tt.zero(ft) })
}

func (e *Eng) at(x, i *Term, t types.Type) *Term {
	if str, ok := x.strVal(); ok {
		if n, ok := i.intVal(); ok && n >= 0 && n < int64(len(str)) {
			return e.tt.intc(int64(str[n]), t)
		}
	}
	for x.Op == "slice" && isStr(x.T) {
		if x.A[1].Op != "none" {
			i = e.tt.bin(token.ADD, i, x.A[1], i.T)
		}
		x = x.A[0]
	}
	return e.tt.mk("at", "", t, x, i)
}

func (e *Eng) lookup(s *State, m, k *Term, mt types.Type) (v, ok *Term) {
	tt := e.tt
	et := mt.Underlying().(*types.Map).Elem()
	if m.Op == "nil" {
		return tt.zero(et), tt.boolc(false)
	}
	a := tt.mk("me", typKey(mt), types.NewPointer(et), m, k)
	if x, has := s.mem[a]; has {
		return x, tt.boolc(true)
	}
	if allocTerm(m) && !s.esc[m] {
		if em, has := s.mem[tt.mk("me", typKey(mt), types.NewPointer(types.Typ[types.Bool]), m, tt.mk("empty", "", nil))]; has {
			if b, isB := em.boolVal(); isB && b {
				return tt.zero(et), tt.boolc(false)
			}
		}
	}
	ver := e.version(s, a)
	if e.Frozen != nil && e.Frozen(m) {
		ver = e.ver0
	}
	v = tt.mk("lookup", "", et, m, k, ver)
	ok = tt.mk("lookupok", "", types.Typ[types.Bool], m, k, ver)
	return
}

func (e *Eng) mapUpdate(s *State, m, k, v *Term, mt types.Type, c *Ctx, in ssa.Instruction) {
	et := mt.Underlying().(*types.Map).Elem()
	a := e.tt.mk("me", typKey(mt), types.NewPointer(et), m, k)
	em := e.tt.mk("me", typKey(mt), types.NewPointer(types.Typ[types.Bool]), m, e.tt.mk("empty", "", nil))
	e.clobber(s, a, c, in)
	for b := range s.mem {
		if b != a && b.Op == "me" && b != em && e.mayAlias(s, a, b) {
			delete(s.mem, b)
		}
	}
	delete(s.mem, em)
	l, f := leafSel(a)
	e.bump(s, l, f, "mu", c, in)
	s.mem[a] = v
	if !s.nonEscapedAlloc(m) {
		e.escape(s, v)
		e.escape(s, k)
	}
}

func (e *Eng) next(s *State, c *Ctx, in *ssa.Next) {
	tt := e.tt
	r := e.val(s, c, in.Iter)
	x := r
	if r.Op == "range" {
		x = r.A[0]
	}
	tup := in.Type().(*types.Tuple)
	ok := e.newSym("next", in.Name()+".ok", types.Typ[types.Bool], c, in, in)
	var k, v *Term
	kt, vt := tup.At(1).Type(), tup.At(2).Type()
	if in.IsString {
		k = e.newSym("next", in.Name()+".k/"+x.key, types.Typ[types.Int], c, in, in)
		v = e.newSym("next", in.Name()+".v/"+x.key, types.Typ[types.Rune], c, in, in)
		z := tt.intc(0, nil)
		ok = e.newSym("next", in.Name()+".ok/"+x.key, types.Typ[types.Bool], c, in, in)
		ok.Info.onT = []lit{{tt.lt(k, z), false}, {tt.lt(k, tt.length(x)), true}, {tt.lt(v, z), false}}
	} else {
		if mt, isMap := x.T.Underlying().(*types.Map); isMap {
			if b, isB := kt.(*types.Basic); isB && b.Kind() == types.Invalid {
				kt = mt.Key()
			}
			if b, isB := vt.(*types.Basic); isB && b.Kind() == types.Invalid {
				vt = mt.Elem()
			}
			ok = e.newSym("next", in.Name()+".ok/"+x.key, types.Typ[types.Bool], c, in, in)
			k = e.newSym("next", in.Name()+".k/"+x.key, kt, c, in, in)
			vv, okk := e.lookup(s, x, k, x.T)
			v = vv
			if _, isC := okk.boolVal(); !isC {
				ok.Info.onT = []lit{{okk, true}}
			}
		} else {
			k = e.newSym("next", in.Name()+".k", kt, c, in, in)
			v = e.newSym("next", in.Name()+".v", vt, c, in, in)
		}
	}
	e.set(s, c, in, tt.mk("tuple", "", in.Type(), ok, k, v))
}

func (e *Eng) slice(s *State, c *Ctx, in *ssa.Slice) {
	tt := e.tt
	x := e.val(s, c, in.X)
	none := tt.mk("none", "", nil)
	lo, hi := none, none
	if in.Low != nil {
		lo = e.val(s, c, in.Low)
	}
	if in.High != nil {
		hi = e.val(s, c, in.High)
	}
	z := tt.intc(0, nil)
	n := tt.length(x)
	l, h := lo, hi
	if l == none {
		l = z
	}
	if h == none {
		h = n
	}
	if lo != none || hi != none {
		conds := []lit{{tt.lt(l, z), false}, {tt.lt(h, l), false}, {tt.lt(n, h), false}}
		if e.H.Bounds != nil {
			ok := true
			for _, q := range conds {
				if !e.implied(s, q.t, q.pos) {
					ok = false
				}
			}
			d := ""
			if !ok {
				d = fmt.Sprintf("[%s:%s] of length %s", short(l), short(h), short(n))
			}
			e.bounds(s, c, in, "slice", ok, d)
		}
		for _, q := range conds {
			e.assume(s, q.t, q.pos)
		}
	}
	if v, ok := lo.intVal(); ok && v == 0 {
		lo = none
	}
	if hi != none && e.implied(s, tt.eq(h, n), true) {
		hi = none
	}
	if str, ok := x.strVal(); ok {
		a, ok1 := l.intVal()
		b, ok2 := h.intVal()
		if ok1 && ok2 && a >= 0 && a <= b && b <= int64(len(str)) {
			e.set(s, c, in, tt.constant(constant.MakeString(str[a:b]), in.Type()))
			return
		}
	}
	if lo == none && hi == none {
		if _, isPtr := in.X.Type().Underlying().(*types.Pointer); !isPtr {
			e.set(s, c, in, x)
			return
		}
	}
	// slice of slice
	if x.Op == "slice" {
		blo := x.A[1]
		if blo == none {
			blo = z
		}
		nl := tt.bin(token.ADD, blo, l, types.Typ[types.Int])
		nh := x.A[2]
		if hi != none {
			nh = tt.bin(token.ADD, blo, h, types.Typ[types.Int])
		}
		if v, ok := nl.intVal(); ok && v == 0 {
			nl = none
		}
		x, lo, hi = x.A[0], nl, nh
	}
	// x[:k] of an append that only added beyond k
	if lo == none && x.Op == "append" && hi != none && e.equal(s, hi, tt.length(x.A[0])) {
		e.set(s, c, in, x.A[0])
		return
	}
	e.set(s, c, in, tt.mk("slice", "", in.Type(), x, lo, hi))
}

func (e *Eng) convert(x *Term, from, to types.Type) *Term {
	tt := e.tt
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 {
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			if x.Op == "const" {
				return tt.constant(x.C, to)
			}
			// widening keeps the value
			if sizeOf(tb) >= sizeOf(fb) && (fb.Info()&types.IsUnsigned == tb.Info()&types.IsUnsigned || fb.Info()&types.IsUnsigned != 0 && sizeOf(tb) > sizeOf(fb)) {
				return x
			}
			return tt.mk("conv", tb.Name(), to, x)
		}
		if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
			return e.retype(x, to)
		}
	}
	return tt.mk("conv", typKey(to), to, x)
}

func sizeOf(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	}
	return 8
}

func (e *Eng) binop(s *State, c *Ctx, in *ssa.BinOp) *Term {
	x, y := e.val(s, c, in.X), e.val(s, c, in.Y)
	switch in.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		t, pos := e.tt.cmp(in.Op, x, y)
		if t != nil {
			if e.Fold {
				for _, b := range []bool{true, false} {
					if e.implied(s, t, b) {
						return e.tt.boolc(b == pos)
					}
				}
			}
			if !pos {
				t = e.tt.not(t)
			}
			if b, ok := t.boolVal(); ok {
				return e.tt.boolc(b)
			}
			return t
		}
	case token.QUO, token.REM:
		if isInt(in.Type()) {
			z := e.tt.eq(y, e.tt.intc(0, nil))
			e.bounds(s, c, in, "div", e.implied(s, z, false), short(y))
			e.assume(s, z, false)
		}
	}
	return e.tt.bin(in.Op, x, y, in.Type())
}

func (e *Eng) args(s *State, c *Ctx, cc *ssa.CallCommon) []*Term {
	var out []*Term
	if cc.IsInvoke() {
		out = append(out, e.val(s, c, cc.Value))
	}
	for _, a := range cc.Args {
		out = append(out, e.val(s, c, a))
	}
	return out
}

func (e *Eng) runDefers(c *Ctx, s *State, panicking bool) []*State {
	states := []*State{s}
	for {
		any := false
		var next []*State
		for _, st := range states {
			n := len(st.defers)
			if n == 0 || (!panicking && st.defers[n-1].c != c) {
				next = append(next, st)
				continue
			}
			any = true
			d := st.defers[n-1]
			st.defers = st.defers[:n-1]
			next = append(next, e.invoke(d.c, st, d.in, &d.in.Call, d.fn, d.args, nil)...)
		}
		states = next
		if !any {
			return states
		}
	}
}

func (e *Eng) doCall(c *Ctx, s *State, in ssa.CallInstruction, v ssa.Value) []*State {
	cc := in.Common()
	var fn *Term
	if !cc.IsInvoke() {
		fn = e.val(s, c, cc.Value)
	}
	return e.invoke(c, s, in, cc, fn, e.args(s, c, cc), v)
}

func (e *Eng) invoke(c *Ctx, s *State, in ssa.CallInstruction, cc *ssa.CallCommon, fnv *Term, args []*Term, v ssa.Value) []*State {
	name := calleeName(cc)
	set := func(st *State, t *Term) {
		if v != nil {
			st.env[vkey{c, v}] = t
		}
	}
	if e.H.Call != nil {
		if t, handled := e.H.Call(s, c, in, name, args); handled {
			if s.dead {
				return nil
			}
			if t != nil {
				set(s, t)
			} else if v != nil {
				set(s, e.opaqueResult(s, c, in, v.Type(), "res"))
			}
			return []*State{s}
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		t := e.builtin(s, c, in, b.Name(), cc, args)
		if s.dead {
			return nil
		}
		set(s, t)
		if e.H.After != nil {
			e.H.After(s, c, in, name, args, t)
		}
		return []*State{s}
	}
	if t, ok := e.model(s, c, in, name, cc, args, v); ok {
		if s.dead {
			return nil
		}
		if v != nil && t != nil {
			set(s, t)
		}
		if e.H.After != nil {
			e.H.After(s, c, in, name, args, t)
		}
		return []*State{s}
	}
	// resolve the callee
	var f *ssa.Function
	var free []*Term
	switch {
	case cc.IsInvoke():
		recv := args[0]
		if recv.Op == "iface" {
			if m := e.p.lookupMethod(recv.A[0].T, cc.Method); m != nil && e.p.isMod[m] {
				f = m
				args = append([]*Term{recv.A[0]}, args[1:]...)
				if name2 := m.Object(); name2 != nil {
					if fo, ok := name2.(*types.Func); ok {
						name = fo.FullName()
					}
				}
			}
		}
		e.checkDeref(s, c, in, recv)
	case fnv != nil && fnv.Op == "closure":
		f = e.p.closures[fnv.S]
		free = fnv.A
	case fnv != nil && fnv.Op == "func":
		f = e.p.byName[fnv.S]
	default:
		f = cc.StaticCallee()
	}
	if f != nil && e.p.isMod[f] && len(f.Blocks) > 0 && !c.onStack(f) && c.depth < e.MaxDep && (e.H.Opaque == nil || !e.H.Opaque(f)) {
		nc := e.ctx(c, in, f)
		if e.H.Inlined != nil {
			e.H.Inlined(s, c, in, f, args)
		}
		var out []*State
		for _, o := range e.call(nc, s, args, free) {
			var t *Term
			switch len(o.vals) {
			case 0:
			case 1:
				t = o.vals[0]
			default:
				t = e.tt.mk("tuple", "", f.Signature.Results(), o.vals...)
			}
			if t != nil {
				set(o.st, t)
			} else if v != nil {
				set(o.st, e.tt.mk("tuple", "void", nil))
			}
			if e.H.After != nil {
				e.H.After(o.st, c, in, name, args, t)
			}
			if !o.st.dead {
				out = append(out, o.st)
			}
		}
		return out
	}
	if out, ok := e.search(c, s, in, name, args, v); ok {
		return out
	}
	// opaque
	if f != nil && e.p.isMod[f] {
		for sel := range e.modset(f) {
			e.havocSel(s, sel, c, in)
		}
		for _, a := range args {
			e.escape(s, a)
		}
	} else if e.pureExternal(name) {
		// no effects
	} else {
		for _, a := range args {
			e.havocArg(s, a, c, in)
		}
	}
	var t *Term
	if v != nil {
		t = e.opaqueResult(s, c, in, v.Type(), "res")
		set(s, t)
	} else if cc.Signature().Results().Len() > 0 {
		t = e.opaqueResult(s, c, in, cc.Signature().Results(), "res")
	}
	if e.H.After != nil {
		e.H.After(s, c, in, name, args, t)
	}
	if s.dead {
		return nil
	}
	return []*State{s}
}

// search models sort.Search: the function is false of the index before the one
// returned, and true of that one, unless they do not exist.
func (e *Eng) search(c *Ctx, s *State, in ssa.CallInstruction, name string, args []*Term, v ssa.Value) ([]*State, bool) {
	if name != "sort.Search" || v == nil || args[1].Op != "closure" {
		return nil, false
	}
	f := e.p.closures[args[1].S]
	if f == nil || c.onStack(f) || c.depth >= e.MaxDep {
		return nil, false
	}
	tt := e.tt
	r := e.newSym("op", "search", v.Type(), c, v, in)
	z := tt.intc(0, nil)
	at := func(s *State, i *Term, want bool) (out []*State) {
		for _, o := range e.call(e.ctx(c, in, f), s, []*Term{i}, args[1].A) {
			if len(o.vals) == 1 && e.assume(o.st, o.vals[0], want) && !o.st.dead {
				out = append(out, o.st)
			}
		}
		return
	}
	if !e.assume(s, tt.lt(r, z), false) {
		return nil, true
	}
	var mid, out []*State
	if n := s.clone(); e.assume(n, tt.lt(r, args[0]), false) && (e.implied(n, tt.eq(r, z), true) || !e.implied(n, tt.lt(args[0], z), false) || e.assume(n, tt.eq(r, args[0]), true)) {
		mid = append(mid, n)
	}
	if n := s.clone(); e.assume(n, tt.lt(r, args[0]), true) {
		mid = append(mid, at(n, r, true)...)
	}
	for _, m := range mid {
		if n := m.clone(); e.assume(n, tt.eq(r, z), true) {
			out = append(out, n)
		}
		if n := m.clone(); e.assume(n, tt.lt(z, r), true) {
			out = append(out, at(n, tt.addc(r, -1), false)...)
		}
	}
	for _, o := range out {
		o.env[vkey{c, v}] = r
	}
	return out, true
}

func (e *Eng) havocArg(s *State, a *Term, c *Ctx, in ssa.Instruction) {
	switch a.Op {
	case "slice":
		// variadic arguments
		if allocTerm(a.A[0]) {
			for b, v := range s.mem {
				if rootOf(b) == a.A[0] && v.Op != "nil" {
					if v != a {
						e.havocArg(s, v, c, in)
					}
				}
			}
		}
	case "iface":
		e.havocArg(s, a.A[0], c, in)
	case "sym", "fa":
		if a.T == nil {
			return
		}
		if _, ok := a.T.Underlying().(*types.Pointer); !ok {
			return
		}
		if structOf(deref(a.T)) != nil && e.p.typeInModule(deref(a.T)) {
			// module structures are not changed by formatting and the like
			e.escape(s, a)
			return
		}
		e.havocObj(s, a, c, in)
	}
}

func (e *Eng) opaqueResult(s *State, c *Ctx, in ssa.Instruction, t types.Type, tag string) *Term {
	if tup, ok := t.(*types.Tuple); ok {
		if tup.Len() == 0 {
			return e.tt.mk("tuple", "void", nil)
		}
		if tup.Len() > 1 {
			var vs []*Term
			for i := 0; i < tup.Len(); i++ {
				vs = append(vs, e.newSym("call", fmt.Sprintf("%s.%d", tag, i), tup.At(i).Type(), c, nil, in))
			}
			return e.tt.mk("tuple", "", t, vs...)
		}
		t = tup.At(0).Type()
	}
	return e.newSym("call", tag, t, c, nil, in)
}

// modset: the leaf selectors a function may write, transitively.
func (e *Eng) modset(f *ssa.Function) map[string]bool {
	if m, ok := e.mods[f]; ok {
		return m
	}
	all := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function)
	visit = func(g *ssa.Function) {
		if all[g] || !e.p.isMod[g] {
			return
		}
		all[g] = true
		for _, cl := range e.p.callees(g) {
			visit(cl)
		}
		for _, an := range g.AnonFuncs {
			visit(an)
		}
	}
	visit(f)
	m := map[string]bool{}
	var addType func(sel string, t types.Type)
	addType = func(sel string, t types.Type) {
		st := structOf(t)
		if st == nil || e.atomicStruct(t) {
			m[sel] = true
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			addType(ownerName(t)+"."+st.Field(i).Name(), st.Field(i).Type())
		}
	}
	for g := range all {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					root := in.Addr
					for {
						if fa, ok := root.(*ssa.FieldAddr); ok {
							root = fa.X
							continue
						}
						break
					}
					if _, isLocal := root.(*ssa.Alloc); isLocal && !root.(*ssa.Alloc).Heap {
						continue
					}
					switch a := in.Addr.(type) {
					case *ssa.FieldAddr:
						o := deref(a.X.Type())
						fl := structOf(o).Field(a.Field)
						addType(ownerName(o)+"."+fl.Name(), fl.Type())
					case *ssa.IndexAddr:
						addType("[]"+typKey(deref(a.Type())), deref(a.Type()))
					case *ssa.Global:
						addType("g:"+a.Pkg.Pkg.Path()+"."+a.Name(), deref(a.Type()))
					default:
						addType("*"+typKey(deref(in.Addr.Type())), deref(in.Addr.Type()))
					}
				case *ssa.MapUpdate:
					m["map:"+typKey(in.Map.Type())] = true
				case ssa.CallInstruction:
					n := calleeName(in.Common())
					if n == "builtin.delete" {
						m["map:"+typKey(in.Common().Args[0].Type())] = true
					}
					if strings.HasPrefix(n, "sort.") || n == "builtin.copy" {
						for _, a := range in.Common().Args {
							t := a.Type()
							if mi, ok := a.(*ssa.MakeInterface); ok {
								t = mi.X.Type()
							}
							if sl, ok := t.Underlying().(*types.Slice); ok {
								addType("[]"+typKey(sl.Elem()), sl.Elem())
							}
						}
					}
				}
			}
		}
	}
	e.mods[f] = m
	return m
}

// short prints a term briefly.
func short(t *Term) string {
	if t == nil {
		return "?"
	}
	var rec func(t *Term, d int) string
	rec = func(t *Term, d int) string {
		if d == 0 {
			return "…"
		}
		switch t.Op {
		case "const":
			return t.S
		case "nil":
			return "nil"
		case "zero":
			return "zero"
		case "sym":
			k := t.Info.kind
			n := t.Info.shape
			if t.Info.val != nil && t.Info.val.Name() != "" {
				n = t.Info.val.Name()
				if a, ok := t.Info.val.(*ssa.Alloc); ok && a.Comment != "" {
					n = a.Comment
				}
			}
			if len(n) > 40 {
				n = n[len(n)-40:]
			}
			return k + ":" + n
		case "fa":
			return rec(t.A[0], d-1) + "." + t.S[strings.LastIndex(t.S, ".")+1:]
		case "load":
			return rec(t.A[0], d)
		case "ia", "at":
			return rec(t.A[0], d-1) + "[" + rec(t.A[1], d-1) + "]"
		case "lookup":
			return rec(t.A[0], d-1) + "[" + rec(t.A[1], d-1) + "]"
		case "global":
			return t.S[strings.LastIndex(t.S, "/")+1:]
		case "lin":
			var p []string
			for i := 0; i+1 < len(t.A); i += 2 {
				p = append(p, t.A[i].S+"*"+rec(t.A[i+1], d-1))
			}
			p = append(p, t.A[len(t.A)-1].S)
			return strings.Join(p, "+")
		}
		var p []string
		for _, a := range t.A {
			p = append(p, rec(a, d-1))
		}
		n := t.Op
		if t.S != "" && len(t.S) < 30 {
			n += ":" + t.S
		}
		return n + "(" + strings.Join(p, ",") + ")"
	}
	return rec(t, 6)
}

func (e *Eng) diffStates(a, b *State) {
	fmt.Fprintln(os.Stderr, "-- diff")
	for k, v := range a.env {
		if b.env[k] != v {
			fmt.Fprintln(os.Stderr, " env", k.v.Name(), short(v), short(b.env[k]))
		}
	}
	for k, v := range a.mem {
		if b.mem[k] != v {
			fmt.Fprintln(os.Stderr, " mem", short(k), short(v), short(b.mem[k]))
		}
	}
	for k, v := range b.mem {
		if a.mem[k] != v {
			fmt.Fprintln(os.Stderr, " mem+", short(k), short(a.mem[k]), short(v))
		}
	}
	for k, v := range a.ver {
		if b.ver[k] != v {
			fmt.Fprintln(os.Stderr, " ver", k, v.key, b.ver[k])
		}
	}
	for k, v := range b.ver {
		if a.ver[k] != v {
			fmt.Fprintln(os.Stderr, " ver+", k)
		}
	}
	for k, v := range a.lits {
		if x, ok := b.lits[k]; !ok || x != v {
			fmt.Fprintln(os.Stderr, " lit-", v, short(k))
		}
	}
	for k, v := range b.lits {
		if x, ok := a.lits[k]; !ok || x != v {
			fmt.Fprintln(os.Stderr, " lit+", v, short(k))
		}
	}
	for k := range a.esc {
		if !b.esc[k] {
			fmt.Fprintln(os.Stderr, " esc-", short(k))
		}
	}
	for k := range b.esc {
		if !a.esc[k] {
			fmt.Fprintln(os.Stderr, " esc+", short(k))
		}
	}
}
