package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A points-to analysis (inclusion-based, field-sensitive, with closures and
// interface calls) of the functions reachable from some roots.  What exists
// before the analysed call is one external object per type.

type pobj struct {
	kind string // alloc, ext, global, func
	site ssa.Instruction
	typ  types.Type
	fn   *ssa.Function
	mc   *ssa.MakeClosure
	tag  string
	id   int
}

type ploc struct {
	o    *pobj
	path string
}

type pnode struct {
	v    ssa.Value // a register (path inside a struct value)
	o    *pobj     // or a memory cell
	path string
}

type ptsEffect struct {
	In   ssa.Instruction
	Loc  ploc
	What string
}

type Pts struct {
	p       *Prog
	funcs   map[*ssa.Function]bool
	order   []*ssa.Function
	sets    map[pnode]map[ploc]bool
	why     map[pnode]map[ploc]ssa.Instruction
	objs    map[string]*pobj
	n       int
	changed bool
	cur     ssa.Instruction
	Effects map[string]ptsEffect
	rets    map[*ssa.Function][]*ssa.Return
	// OwnGlobals: package variables hold what is stored in them (and nothing else)
	OwnGlobals bool
	calls      map[ssa.CallInstruction]map[*ssa.Function]bool
	// Special: models a call; returns true if it did
	Special func(pt *Pts, in ssa.CallInstruction, name string) bool
}

func NewPts(p *Prog) *Pts {
	return &Pts{p: p, funcs: map[*ssa.Function]bool{}, sets: map[pnode]map[ploc]bool{}, why: map[pnode]map[ploc]ssa.Instruction{},
		objs: map[string]*pobj{}, Effects: map[string]ptsEffect{}, rets: map[*ssa.Function][]*ssa.Return{}, calls: map[ssa.CallInstruction]map[*ssa.Function]bool{}}
}

func (pt *Pts) obj(key string, mk func() *pobj) *pobj {
	if o, ok := pt.objs[key]; ok {
		return o
	}
	o := mk()
	pt.n++
	o.id = pt.n
	pt.objs[key] = o
	return o
}

func (pt *Pts) allocObj(in ssa.Instruction, t types.Type, tag string) *pobj {
	return pt.obj(fmt.Sprintf("a%p%s", in, tag), func() *pobj { return &pobj{kind: "alloc", site: in, typ: t, tag: tag} })
}

func (pt *Pts) ext(t types.Type) *pobj {
	return pt.obj("x"+typKey(t), func() *pobj { return &pobj{kind: "ext", typ: t} })
}

func (pt *Pts) opaque() *pobj {
	return pt.obj("opaque", func() *pobj { return &pobj{kind: "opaque"} })
}

// refLike: can a value of type t hold a reference we follow?
func (p *Prog) flat(t types.Type) []string {
	var out []string
	var walk func(t types.Type, path string, depth int)
	walk = func(t types.Type, path string, depth int) {
		if depth > 6 {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if n, ok := types.Unalias(t).(*types.Named); ok && !p.inModule(n.Obj().Pkg()) {
				return
			}
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type(), join(path, u.Field(i).Name()), depth+1)
			}
		case *types.Array:
			walk(u.Elem(), join(path, "[]"), depth+1)
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				walk(u.At(i).Type(), join(path, fmt.Sprintf("#%d", i)), depth+1)
			}
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
			out = append(out, path)
		}
	}
	walk(t, "", 0)
	return out
}

func join(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	return a + "." + b
}

func (pt *Pts) add(n pnode, l ploc) {
	s := pt.sets[n]
	if s == nil {
		s = map[ploc]bool{}
		pt.sets[n] = s
		pt.why[n] = map[ploc]ssa.Instruction{}
	}
	if !s[l] {
		s[l] = true
		pt.why[n][l] = pt.cur
		pt.changed = true
	}
}

// typeAt: the type found following path from t.
func typeAt(t types.Type, path string) types.Type {
	if path == "" || t == nil {
		return t
	}
	for _, f := range strings.Split(path, ".") {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			var ft types.Type
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == f {
					ft = u.Field(i).Type()
				}
			}
			if ft == nil {
				return nil
			}
			t = ft
		case *types.Array:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		case *types.Map:
			if f == "key" {
				t = u.Key()
			} else {
				t = u.Elem()
			}
		default:
			return nil
		}
	}
	return t
}

// extOf: what a reference of type t found in external memory may point to.
func (pt *Pts) extOf(t types.Type) []ploc {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return []ploc{{pt.ext(u.Elem()), ""}}
	case *types.Slice:
		return []ploc{{pt.ext(t.Underlying()), ""}}
	case *types.Map:
		return []ploc{{pt.ext(t.Underlying()), ""}}
	case *types.Interface:
		if u.NumMethods() > 0 {
			return []ploc{{pt.opaque(), ""}}
		}
		out := []ploc{{pt.opaque(), ""}}
		for _, n := range []string{"Account", "Transaction", "Split", "Currency", "Price"} {
			if nt := pt.p.RootType(n); nt != nil {
				out = append(out, ploc{pt.ext(nt), ""})
			}
		}
		return out
	}
	return []ploc{{pt.opaque(), ""}}
}

// cell: what the memory cell l (of reference type) may point to.
func (pt *Pts) cell(l ploc) []ploc {
	var out []ploc
	if l.o.kind == "opaque" {
		return []ploc{{pt.opaque(), ""}}
	}
	if l.o.kind == "ext" || l.o.kind == "global" && !pt.OwnGlobals {
		if t := typeAt(l.o.typ, l.path); t != nil {
			out = append(out, pt.extOf(t)...)
		}
	}
	for x := range pt.sets[pnode{o: l.o, path: l.path}] {
		out = append(out, x)
	}
	return out
}

// val: what the register v (at path) may point to, refined by the type tests
// that failed before block b.
func (pt *Pts) val(v ssa.Value, path string, b *ssa.BasicBlock) []ploc {
	switch x := v.(type) {
	case *ssa.Const:
		return nil
	case *ssa.Global:
		return []ploc{{pt.obj("g"+x.String(), func() *pobj { return &pobj{kind: "global", typ: deref(x.Type()), tag: x.Name()} }), ""}}
	case *ssa.Function:
		return []ploc{{pt.obj("f"+x.String(), func() *pobj { return &pobj{kind: "func", fn: x} }), ""}}
	case *ssa.Builtin:
		return nil
	}
	set := pt.sets[pnode{v: v, path: path}]
	if len(set) == 0 {
		return nil
	}
	var not []types.Type
	if b != nil && path == "" && types.IsInterface(v.Type()) {
		not = pt.refuted(v, b)
	}
	out := make([]ploc, 0, len(set))
next:
	for l := range set {
		for _, t := range not {
			if l.o.typ != nil && types.Identical(t, types.NewPointer(l.o.typ)) {
				continue next
			}
		}
		out = append(out, l)
	}
	return out
}

// refuted: the dynamic types v cannot have in block b.
func (pt *Pts) refuted(v ssa.Value, b *ssa.BasicBlock) []types.Type {
	var out []types.Type
	refs := v.Referrers()
	if refs == nil {
		return nil
	}
	for _, r := range *refs {
		ta, ok := r.(*ssa.TypeAssert)
		if !ok || !ta.CommaOk {
			continue
		}
		for _, r2 := range *ta.Referrers() {
			ex, ok := r2.(*ssa.Extract)
			if !ok || ex.Index != 1 {
				continue
			}
			for _, r3 := range *ex.Referrers() {
				iff, ok := r3.(*ssa.If)
				if !ok {
					continue
				}
				f := iff.Block().Succs[1]
				if len(f.Preds) == 1 && f.Dominates(b) {
					out = append(out, ta.AssertedType)
				}
			}
		}
	}
	return out
}

// copyVal copies the references in value v to the node dst (same type).
func (pt *Pts) copyVal(dst func(path string) pnode, v ssa.Value, b *ssa.BasicBlock) {
	for _, path := range pt.p.flat(v.Type()) {
		for _, l := range pt.val(v, path, b) {
			pt.add(dst(path), l)
		}
	}
}

func reg(v ssa.Value, base string) func(string) pnode {
	return func(p string) pnode { return pnode{v: v, path: join(base, p)} }
}

// Analyze runs the analysis from the given roots, whose parameters are external.
func (pt *Pts) Analyze(roots ...*ssa.Function) {
	for _, f := range roots {
		pt.addFunc(f)
		for _, pa := range f.Params {
			for _, path := range pt.p.flat(pa.Type()) {
				for _, l := range pt.extOf(typeAtVal(pa.Type(), path)) {
					pt.add(pnode{v: pa, path: path}, l)
				}
			}
		}
	}
	for round := 0; round < 200; round++ {
		pt.changed = false
		for i := 0; i < len(pt.order); i++ {
			f := pt.order[i]
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					pt.cur = in
					pt.instr(in)
				}
			}
		}
		if !pt.changed {
			return
		}
	}
	panic(undecided{"points-to analysis does not converge"})
}

func typeAtVal(t types.Type, path string) types.Type {
	if path == "" {
		return t
	}
	return typeAt(t, path)
}

func (pt *Pts) addFunc(f *ssa.Function) {
	if f == nil || pt.funcs[f] || len(f.Blocks) == 0 {
		return
	}
	pt.funcs[f] = true
	pt.order = append(pt.order, f)
	pt.changed = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok {
				pt.rets[f] = append(pt.rets[f], r)
			}
		}
	}
}

func (pt *Pts) effect(in ssa.Instruction, l ploc, what string) {
	k := fmt.Sprintf("%p|%d|%s", in, l.o.id, l.path)
	if _, ok := pt.Effects[k]; !ok {
		pt.Effects[k] = ptsEffect{in, l, what}
	}
}

// storeTo stores value v of type t at location l.
func (pt *Pts) storeTo(l ploc, v ssa.Value, b *ssa.BasicBlock, skip map[string]bool) {
	if l.o.kind == "opaque" {
		return
	}
	for _, path := range pt.p.flat(v.Type()) {
		if skip[path] {
			continue
		}
		for _, x := range pt.val(v, path, b) {
			pt.add(pnode{o: l.o, path: join(l.path, path)}, x)
		}
	}
}

// killed: the fields that are overwritten after the struct store in, before
// anything else can happen to the object (on every path out of it).
func killed(st *ssa.Store) map[string]bool {
	u := structOf(st.Val.Type())
	if u == nil {
		return nil
	}
	stores := map[string]map[ssa.Instruction]bool{}
	var collect func(addr ssa.Value, path string)
	collect = func(addr ssa.Value, path string) {
		refs := addr.Referrers()
		if refs == nil {
			return
		}
		for _, r := range *refs {
			switch x := r.(type) {
			case *ssa.FieldAddr:
				if x.X == addr {
					f := structOf(deref(x.X.Type()))
					collect(x, join(path, f.Field(x.Field).Name()))
				}
			case *ssa.Store:
				if x.Addr == addr && path != "" {
					if stores[path] == nil {
						stores[path] = map[ssa.Instruction]bool{}
					}
					stores[path][x] = true
				}
			}
		}
	}
	collect(st.Addr, "")
	out := map[string]bool{}
	for path, set := range stores {
		if mustHit(st, set) {
			out[path] = true
		}
	}
	// a whole nested struct overwritten kills its fields
	full := map[string]bool{}
	for k := range out {
		full[k] = true
	}
	return full
}

// mustHit: every path from in to a return (or back to in) passes one of set.
func mustHit(in ssa.Instruction, set map[ssa.Instruction]bool) bool {
	hitIn := func(b *ssa.BasicBlock, from int) bool {
		for i := from; i < len(b.Instrs); i++ {
			if set[b.Instrs[i]] {
				return true
			}
		}
		return false
	}
	b := in.Block()
	idx := 0
	for i, x := range b.Instrs {
		if x == in {
			idx = i + 1
		}
	}
	if hitIn(b, idx) {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	stack := append([]*ssa.BasicBlock(nil), b.Succs...)
	if len(b.Succs) == 0 {
		return false
	}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if x == b {
			return false
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		if hitIn(x, 0) {
			continue
		}
		if len(x.Succs) == 0 {
			if _, isRet := x.Instrs[len(x.Instrs)-1].(*ssa.Return); isRet {
				return false
			}
			continue
		}
		stack = append(stack, x.Succs...)
	}
	return true
}

func isMutable(l ploc) bool { return l.o.kind == "ext" || l.o.kind == "global" }

func (pt *Pts) instr(in ssa.Instruction) {
	b := in.Block()
	switch x := in.(type) {
	case *ssa.Alloc:
		pt.add(pnode{v: x}, ploc{pt.allocObj(x, deref(x.Type()), ""), ""})
	case *ssa.MakeMap:
		pt.add(pnode{v: x}, ploc{pt.allocObj(x, x.Type().Underlying(), ""), ""})
	case *ssa.MakeSlice:
		pt.add(pnode{v: x}, ploc{pt.allocObj(x, x.Type().Underlying(), ""), ""})
	case *ssa.MakeChan:
		pt.add(pnode{v: x}, ploc{pt.allocObj(x, x.Type().Underlying(), ""), ""})
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		pt.add(pnode{v: x}, ploc{pt.obj(fmt.Sprintf("c%p", x), func() *pobj { return &pobj{kind: "func", fn: f, mc: x} }), ""})
		for i, bd := range x.Bindings {
			pt.copyVal(reg(f.FreeVars[i], ""), bd, b)
		}
	case *ssa.MakeInterface:
		switch x.X.Type().Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature:
			pt.copyVal(reg(x, ""), x.X, b)
		default:
			pt.add(pnode{v: x}, ploc{pt.opaque(), ""})
		}
	case *ssa.ChangeInterface:
		pt.copyVal(reg(x, ""), x.X, b)
	case *ssa.ChangeType:
		pt.copyVal(reg(x, ""), x.X, b)
	case *ssa.Convert:
		pt.copyVal(reg(x, ""), x.X, b)
	case *ssa.Slice:
		for _, l := range pt.val(x.X, "", b) {
			if c, ok := x.Max.(*ssa.Const); ok && c.Value != nil && c.Int64() == 0 {
				continue // x[:0:0] has no room
			}
			pt.add(pnode{v: x}, l)
		}
	case *ssa.Phi:
		for i, ed := range x.Edges {
			t := edgeRefutes(b.Preds[i], b, ed)
			for _, path := range pt.p.flat(ed.Type()) {
				for _, l := range pt.val(ed, path, b.Preds[i]) {
					if t != nil && l.o.typ != nil && types.Identical(t, types.NewPointer(l.o.typ)) {
						continue
					}
					pt.add(pnode{v: x, path: path}, l)
				}
			}
		}
	case *ssa.FieldAddr:
		f := structOf(deref(x.X.Type()))
		for _, l := range pt.val(x.X, "", b) {
			if l.o.kind == "opaque" {
				pt.add(pnode{v: x}, l)
				continue
			}
			pt.add(pnode{v: x}, ploc{l.o, join(l.path, f.Field(x.Field).Name())})
		}
	case *ssa.Field:
		f := structOf(x.X.Type())
		for _, path := range pt.p.flat(x.Type()) {
			for _, l := range pt.val(x.X, join(f.Field(x.Field).Name(), path), b) {
				pt.add(pnode{v: x, path: path}, l)
			}
		}
	case *ssa.IndexAddr:
		for _, l := range pt.val(x.X, "", b) {
			if l.o.kind == "opaque" {
				pt.add(pnode{v: x}, l)
				continue
			}
			pt.add(pnode{v: x}, ploc{l.o, join(l.path, "[]")})
		}
	case *ssa.Index:
		for _, path := range pt.p.flat(x.Type()) {
			for _, l := range pt.val(x.X, join("[]", path), b) {
				pt.add(pnode{v: x, path: path}, l)
			}
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return
		}
		for _, l := range pt.val(x.X, "", b) {
			pt.load(x, "", x.Type(), l)
		}
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			return
		}
		base, t := "", x.Type()
		if x.CommaOk {
			base = "#0"
			t = x.Type().(*types.Tuple).At(0).Type()
		}
		for _, l := range pt.val(x.X, "", b) {
			if l.o.kind == "opaque" {
				continue
			}
			pt.load(x, base, t, ploc{l.o, join(l.path, "val")})
		}
	case *ssa.Range:
		pt.copyVal(reg(x, ""), x.X, b)
		for _, l := range pt.val(x.X, "", b) {
			pt.add(pnode{v: x}, l)
		}
	case *ssa.Next:
		if x.IsString {
			return
		}
		tu := x.Type().(*types.Tuple)
		for _, l := range pt.val(x.Iter, "", b) {
			if l.o.kind == "opaque" {
				continue
			}
			pt.load(x, "#1", tu.At(1).Type(), ploc{l.o, join(l.path, "key")})
			pt.load(x, "#2", tu.At(2).Type(), ploc{l.o, join(l.path, "val")})
		}
	case *ssa.Extract:
		for _, path := range pt.p.flat(x.Type()) {
			for _, l := range pt.val(x.Tuple, join(fmt.Sprintf("#%d", x.Index), path), nil) {
				pt.add(pnode{v: x, path: path}, l)
			}
		}
	case *ssa.TypeAssert:
		base := ""
		if x.CommaOk {
			base = "#0"
		}
		for _, l := range pt.val(x.X, "", b) {
			if pp, ok := x.AssertedType.Underlying().(*types.Pointer); ok && !types.IsInterface(x.AssertedType) {
				if l.o.typ != nil && l.path == "" && !types.Identical(l.o.typ, pp.Elem()) {
					continue
				}
				if l.o.kind == "opaque" && pt.p.typeInModule(pp.Elem()) && !types.Identical(pp.Elem(), types.Typ[types.Int]) {
					if n, ok := pp.Elem().(*types.Named); ok && n.Obj().Pkg() == pt.p.Root.Pkg {
						continue
					}
				}
			}
			if _, isSt := x.AssertedType.Underlying().(*types.Struct); isSt {
				continue
			}
			pt.add(pnode{v: x, path: base}, l)
		}
	case *ssa.Store:
		skip := killed(x)
		for _, l := range pt.val(x.Addr, "", b) {
			if isMutable(l) {
				pt.effect(x, l, "store")
			}
			pt.storeTo(l, x.Val, b, skip)
		}
	case *ssa.MapUpdate:
		for _, l := range pt.val(x.Map, "", b) {
			if isMutable(l) {
				pt.effect(x, l, "map update")
			}
			pt.storeTo(ploc{l.o, join(l.path, "key")}, x.Key, b, nil)
			pt.storeTo(ploc{l.o, join(l.path, "val")}, x.Value, b, nil)
		}
	case *ssa.Send:
		for _, l := range pt.val(x.Chan, "", b) {
			pt.storeTo(ploc{l.o, join(l.path, "[]")}, x.X, b, nil)
		}
	case *ssa.Call:
		pt.call(x)
	case *ssa.Defer:
		pt.call(x)
	case *ssa.Go:
		pt.call(x)
	}
}

// edgeRefutes: the dynamic type v cannot have when control goes from pred to b.
func edgeRefutes(pred, b *ssa.BasicBlock, v ssa.Value) types.Type {
	iff, ok := pred.Instrs[len(pred.Instrs)-1].(*ssa.If)
	if !ok || pred.Succs[1] != b || pred.Succs[0] == b {
		return nil
	}
	ex, ok := iff.Cond.(*ssa.Extract)
	if !ok || ex.Index != 1 {
		return nil
	}
	ta, ok := ex.Tuple.(*ssa.TypeAssert)
	if !ok || ta.X != v {
		return nil
	}
	return ta.AssertedType
}

func (pt *Pts) load(dst ssa.Value, base string, t types.Type, l ploc) {
	for _, path := range pt.p.flat(t) {
		for _, x := range pt.cell(ploc{l.o, join(l.path, path)}) {
			pt.add(pnode{v: dst, path: join(base, path)}, x)
		}
	}
}

func (pt *Pts) call(in ssa.CallInstruction) {
	cc := in.Common()
	b := in.Block()
	var res ssa.Value
	if v := in.Value(); v != nil {
		res = v
	}
	name := calleeName(cc)
	if pt.Special != nil && pt.Special(pt, in, name) {
		return
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		pt.builtin(in, bi.Name(), res)
		return
	}
	bind := func(f *ssa.Function, args []ssa.Value) {
		pt.addFunc(f)
		if pt.calls[in] == nil {
			pt.calls[in] = map[*ssa.Function]bool{}
		}
		pt.calls[in][f] = true
		for i, pa := range f.Params {
			if i < len(args) {
				pt.copyVal(reg(pa, ""), args[i], b)
			}
		}
		if res == nil {
			return
		}
		for _, r := range pt.rets[f] {
			for i, rv := range r.Results {
				base := ""
				if len(r.Results) > 1 {
					base = fmt.Sprintf("#%d", i)
				}
				pt.copyVal(reg(res, base), rv, r.Block())
			}
		}
	}
	if cc.IsInvoke() {
		it, _ := cc.Value.Type().Underlying().(*types.Interface)
		found := false
		if it != nil {
			for _, f := range pt.p.implementersOf(it, cc.Method.Name()) {
				if !pt.p.IsLib(f) {
					continue
				}
				args := append([]ssa.Value{cc.Value}, cc.Args...)
				bind(f, args)
				found = true
			}
		}
		if !found || pt.external(cc) {
			pt.extResult(res)
		}
		return
	}
	if f := cc.StaticCallee(); f != nil {
		if pt.p.isMod[f] {
			bind(f, cc.Args)
			return
		}
		pt.extCall(in, name, cc, res)
		return
	}
	for _, l := range pt.val(cc.Value, "", b) {
		if l.o.kind == "func" && pt.p.isMod[l.o.fn] {
			bind(l.o.fn, cc.Args)
		} else {
			pt.extResult(res)
		}
	}
}

func (pt *Pts) external(cc *ssa.CallCommon) bool { return true }

func (pt *Pts) extResult(res ssa.Value) {
	if res == nil {
		return
	}
	for _, path := range pt.p.flat(res.Type()) {
		var t types.Type = res.Type()
		if tu, ok := res.Type().(*types.Tuple); ok {
			parts := strings.SplitN(path, ".", 2)
			var i int
			fmt.Sscanf(parts[0], "#%d", &i)
			t = tu.At(i).Type()
			if len(parts) > 1 {
				t = typeAt(t, parts[1])
			}
		} else if path != "" {
			t = typeAt(t, path)
		}
		if t == nil {
			continue
		}
		if pt.p.mentionsModule(t) {
			for _, l := range pt.extOf(t) {
				pt.add(pnode{v: res, path: path}, l)
			}
		} else {
			pt.add(pnode{v: res, path: path}, ploc{pt.allocObj(res.(ssa.Instruction), nil, path), ""})
		}
	}
}

// mentionsModule: is t (a reference) to data of the module?
func (p *Prog) mentionsModule(t types.Type) bool {
	switch u := types.Unalias(t).(type) {
	case *types.Named:
		return p.inModule(u.Obj().Pkg())
	case *types.Pointer:
		return p.mentionsModule(u.Elem())
	case *types.Slice:
		return p.mentionsModule(u.Elem())
	case *types.Map:
		return p.mentionsModule(u.Elem()) || p.mentionsModule(u.Key())
	case *types.Interface:
		return false
	}
	return false
}

func (pt *Pts) extCall(in ssa.CallInstruction, name string, cc *ssa.CallCommon, res ssa.Value) {
	b := in.Block()
	// function values handed to the outside are called by it
	for _, a := range cc.Args {
		for _, l := range pt.val(a, "", b) {
			if l.o.kind == "func" {
				pt.addFunc(l.o.fn)
				for _, pa := range l.o.fn.Params {
					for _, path := range pt.p.flat(pa.Type()) {
						if t := typeAtVal(pa.Type(), path); t != nil {
							for _, x := range pt.extOf(t) {
								pt.add(pnode{v: pa, path: path}, x)
							}
						}
					}
				}
			}
		}
	}
	if writesArg0(name) {
		for _, l := range pt.val(cc.Args[0], "", b) {
			if isMutable(l) {
				pt.effect(in, ploc{l.o, join(l.path, "[]")}, name)
			}
		}
	}
	if res == nil {
		return
	}
	// results of the standard library are new, except those which are one of the arguments
	pt.extResult(res)
}

// writesArg0: library functions that change what their first argument refers to.
func writesArg0(name string) bool {
	for _, p := range []string{"sort.Slice", "sort.Sort", "sort.Stable", "sort.Strings", "sort.Ints", "sort.Float64s", "sort.Reverse",
		"sync/atomic.Add", "sync/atomic.Store", "sync/atomic.Swap", "sync/atomic.CompareAndSwap", "encoding/json.Unmarshal",
		"(*time.Time).UnmarshalText", "(*math/big.Int).Set", "(*math/big.Int).Add", "(*math/big.Int).Mul"} {
		if strings.HasPrefix(name, p) && name != "sort.SliceIsSorted" {
			return true
		}
	}
	return false
}

func (pt *Pts) builtin(in ssa.CallInstruction, name string, res ssa.Value) {
	cc := in.Common()
	b := in.Block()
	switch name {
	case "append":
		if res == nil {
			return
		}
		o := pt.allocObj(in, cc.Args[0].Type().Underlying(), "")
		pt.add(pnode{v: res}, ploc{o, ""})
		elem := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		srcs := []ploc{}
		for _, l := range pt.val(cc.Args[0], "", b) {
			pt.add(pnode{v: res}, l)
			srcs = append(srcs, l)
			if isMutable(l) && shorter(cc.Args[0]) {
				pt.effect(in, ploc{l.o, join(l.path, "[]")}, "append to a shortened slice")
			}
		}
		if len(cc.Args) > 1 {
			if _, ok := cc.Args[1].Type().Underlying().(*types.Slice); ok {
				srcs = append(srcs, pt.val(cc.Args[1], "", b)...)
			}
		}
		dsts := pt.val(res, "", b)
		for _, path := range pt.p.flat(elem) {
			for _, s := range srcs {
				if s.o.kind == "opaque" {
					continue
				}
				for _, x := range pt.cell(ploc{s.o, join(join(s.path, "[]"), path)}) {
					for _, d := range dsts {
						if d.o.kind == "alloc" {
							pt.add(pnode{o: d.o, path: join(join(d.path, "[]"), path)}, x)
						}
					}
				}
			}
		}
	case "copy":
		elem, ok := cc.Args[0].Type().Underlying().(*types.Slice)
		if !ok {
			return
		}
		for _, d := range pt.val(cc.Args[0], "", b) {
			if isMutable(d) {
				pt.effect(in, ploc{d.o, join(d.path, "[]")}, "copy")
			}
			for _, path := range pt.p.flat(elem.Elem()) {
				for _, s := range pt.val(cc.Args[1], "", b) {
					for _, x := range pt.cell(ploc{s.o, join(join(s.path, "[]"), path)}) {
						pt.add(pnode{o: d.o, path: join(join(d.path, "[]"), path)}, x)
					}
				}
			}
		}
	case "delete", "clear":
		for _, l := range pt.val(cc.Args[0], "", b) {
			if isMutable(l) {
				pt.effect(in, l, name)
			}
		}
	}
}

// shorter: is the append base a slice cut at an upper bound?
func shorter(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Slice:
		return x.High != nil
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v {
				if s, ok := e.(*ssa.Slice); ok && s.High != nil {
					return true
				}
			}
		}
	case *ssa.ChangeType:
		return shorter(x.X)
	}
	return false
}

func (pt *Pts) locName(l ploc) string {
	t := "?"
	if l.o.typ != nil {
		t = pt.p.short(l.o.typ)
	}
	if l.o.kind == "global" {
		t = "package variable " + l.o.tag
	}
	if l.path != "" {
		t += "." + l.path
	}
	return t
}

// short prints a type without package paths of the module.
func (p *Prog) short(t types.Type) string {
	return types.TypeString(t, func(pk *types.Package) string {
		if pk == p.Root.Pkg {
			return ""
		}
		return pk.Name()
	})
}

// Reach: the external objects reachable from the given locations, with the
// cell through which each is first reached.
type ptsLeak struct {
	Holder string // type.path of the cell in new memory
	To     string // what external object
	In     ssa.Instruction
}

func (pt *Pts) Leaks(start []ploc) []ptsLeak {
	seen := map[*pobj]bool{}
	var out []ptsLeak
	dup := map[string]bool{}
	var visit func(l ploc, holder string, in ssa.Instruction)
	visit = func(l ploc, holder string, in ssa.Instruction) {
		switch l.o.kind {
		case "opaque", "func":
			return
		case "ext", "global":
			k := holder + ">" + pt.locName(l)
			if !dup[k] {
				dup[k] = true
				out = append(out, ptsLeak{holder, pt.locName(l), in})
			}
			return
		}
		if seen[l.o] {
			return
		}
		seen[l.o] = true
		var ns []pnode
		for n := range pt.sets {
			if n.o == l.o {
				ns = append(ns, n)
			}
		}
		sort.Slice(ns, func(i, j int) bool { return ns[i].path < ns[j].path })
		for _, n := range ns {
			for x := range pt.sets[n] {
				visit(x, pt.locName(ploc{l.o, n.path}), pt.why[n][x])
			}
		}
	}
	for _, l := range start {
		visit(l, "result", nil)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Holder+out[i].To < out[j].Holder+out[j].To })
	return out
}
