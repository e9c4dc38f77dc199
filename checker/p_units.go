package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P25", "other", checkP25)
}

// Units of measure.
//
// Every number of the program gets the set of the scales it may have: the
// power of ten by which the actual value was multiplied (8 for an amount,
// which is held in units of 1/U = 10^-8), and the power of time it carries (1
// for a duration). Scales are added by products, subtracted by quotients, and
// must agree in sums. Constants fit any sum; as factors they count as their
// power of ten.

// items of a scale set:
//
//	"k<n>"    the constant n
//	"s<a>,<b>" scale: power of ten, power of time
//	"r<a>,<b>" the same, of a rounded quotient which is coarser than an amount
//	"p"       a product of such a quotient: precision was lost
//	"t"       a number read digit by digit
//	"?"       unknown
type sset map[string]bool

func scaleOf(ten, tim int) string {
	if ten > 60 || ten < -60 || tim > 9 || tim < -9 {
		return "?"
	}
	return fmt.Sprintf("s%d,%d", ten, tim)
}

func ss(items ...string) sset {
	s := sset{}
	for _, i := range items {
		s[i] = true
	}
	return s
}

func (s sset) join(t sset) (sset, bool) {
	ch := false
	for k := range t {
		if !s[k] {
			if !ch {
				n := sset{}
				for x := range s {
					n[x] = true
				}
				s = n
				ch = true
			}
			s[k] = true
		}
	}
	if len(s) > 12 {
		return ss("?"), true
	}
	return s, ch
}

func (s sset) list() []string {
	var o []string
	for k := range s {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func (s sset) String() string { return strings.Join(s.list(), "|") }

func isScale(i string) (ten, tim int, ok bool) {
	if i == "" || i[0] != 's' && i[0] != 'r' {
		return 0, 0, false
	}
	fmt.Sscanf(i[1:], "%d,%d", &ten, &tim)
	return ten, tim, true
}

func isKonst(i string) (*big.Int, bool) {
	if i == "" || i[0] != 'k' {
		return nil, false
	}
	n, ok := new(big.Int).SetString(i[1:], 10)
	return n, ok
}

// log10k is the power of ten a constant factor stands for.
func log10k(k *big.Int) int {
	if k.Sign() == 0 {
		return 0
	}
	n := new(big.Int).Abs(k)
	z := 0
	ten := big.NewInt(10)
	for {
		q, m := new(big.Int).QuoRem(n, ten, new(big.Int))
		if m.Sign() != 0 {
			break
		}
		n = q
		z++
	}
	switch {
	case n.IsInt64() && n.Int64() == 1 && (z <= 8 || z == 16):
		return z
	case z >= 8:
		return 8
	}
	return 0
}

func mulItem(a, b string, div bool) string {
	ka, isA := isKonst(a)
	kb, isB := isKonst(b)
	if isA && ka.Sign() == 0 {
		return a
	}
	if isA && isB {
		if div {
			if kb.Sign() == 0 {
				return "?"
			}
			return "k" + new(big.Int).Quo(ka, kb).String()
		}
		return "k" + new(big.Int).Mul(ka, kb).String()
	}
	if isB && kb.IsInt64() && (kb.Int64() == 1 || kb.Int64() == -1) {
		return a
	}
	if isA && !div && ka.IsInt64() && (ka.Int64() == 1 || ka.Int64() == -1) {
		return b
	}
	conv := func(i string) (int, int, bool) {
		if k, ok := isKonst(i); ok {
			return log10k(k), 0, true
		}
		if i == "t" {
			return 8, 0, true
		}
		return isScale(i)
	}
	if !div && isB && kb.Sign() == 0 {
		return b
	}
	if a == "p" || b == "p" {
		return "p"
	}
	x, xt, ok1 := conv(a)
	y, yt, ok2 := conv(b)
	if !ok1 || !ok2 {
		return "?"
	}
	if a == "t" && b == "t" && !div {
		return "t"
	}
	if (a == "t" && (isB || y == 0 && yt == 0)) || (!div && b == "t" && (isA || x == 0 && xt == 0)) {
		return "t"
	}
	if div {
		return scaleOf(x-y, xt-yt)
	}
	if a[0] == 'r' || b[0] == 'r' {
		return "p"
	}
	return scaleOf(x+y, xt+yt)
}

// quo: the scale of a quotient; integer quotients are rounded.
func quo(a, b sset, whole bool) sset {
	return binSets(a, b, func(i, j string) string {
		r := mulItem(i, j, true)
		if ten, tim, ok := isScale(r); ok && whole && (ten < 8 || tim < 0) {
			r = "r" + r[1:]
		}
		return r
	})
}

func addItem(a, b string) (string, bool) {
	if a == "?" || b == "?" {
		return "?", true
	}
	ka, isA := isKonst(a)
	kb, isB := isKonst(b)
	if isA && isB {
		if ka.Sign() == 0 {
			return b, true
		}
		if kb.Sign() == 0 {
			return a, true
		}
		u := big.NewInt(unitU)
		if new(big.Int).Rem(ka, u).Sign() == 0 && new(big.Int).Rem(kb, u).Sign() == 0 {
			return scaleOf(8, 0), true
		}
		return scaleOf(0, 0), true
	}
	if isA {
		return b, true
	}
	if isB {
		return a, true
	}
	if a == "t" || b == "t" {
		return "t", true
	}
	if a == "p" || b == "p" {
		return "p", true
	}
	if a[1:] == b[1:] {
		if a[0] == 'r' {
			return a, true
		}
		return b, true
	}
	return "?", false
}

const unitU = 100000000

type unitCell struct{ v ssa.Value }

type unitSite struct {
	in   ssa.Instruction
	what string
	set  sset
}

type unitRes struct {
	res   []sset
	big   []sset // contents, afterwards, of the *big.Int parameters
	ready bool
}

type units struct {
	sites map[*ssa.Function][]*ssa.BasicBlock
	p     *Prog
	memo  map[string]*unitRes
	sinks map[string]*unitSite // what is stored into amounts
	mixed map[string]*unitSite // sums of different scales
	prods map[string]*unitSite // products computed in 64 bits
	depth int
	loops map[*ssa.Function]map[*ssa.BasicBlock]bool
	nfn   map[*ssa.Function]bool
	nmul  int
}

func isNamedType(t types.Type, path, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == path
}

func (u *units) isValue(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n == u.p.RootType("Value")
}

func isBigPtr(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	return ok && isNamedType(pt.Elem(), "math/big", "Int")
}

func isNumber(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsFloat) != 0
}

// def is what is known of a number that comes from elsewhere.
func (u *units) def(t types.Type) sset {
	switch {
	case u.isValue(t):
		return ss("s8,0")
	case isNamedType(t, "time", "Duration"):
		return ss("s0,1")
	}
	if b, ok := t.Underlying().(*types.Basic); ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int32) {
		return ss("s0,0")
	}
	return ss("?")
}

// inLoop: is a product computed again and again, in a loop or by a helper
// called there that is given the number?
func (u *units) inLoop(in ssa.Instruction) bool {
	if u.inLoop0(in.Block()) {
		return true
	}
	x, ok := in.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, v := range []ssa.Value{x.X, x.Y} {
		if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
			v = ld.X
		}
		if fa, ok := v.(*ssa.FieldAddr); ok {
			v = fa.X
		}
		if _, ok := v.(*ssa.Parameter); ok {
			return u.loopedOnly(in.Parent(), 0)
		}
	}
	return false
}

func (u *units) inLoop0(b *ssa.BasicBlock) bool {
	f := b.Parent()
	m, ok := u.loops[f]
	if !ok {
		m = map[*ssa.BasicBlock]bool{}
		for _, l := range loopsOf(f) {
			for x := range l {
				m[x] = true
			}
		}
		u.loops[f] = m
	}
	return m[b]
}

// loopedOnly: is f a helper that is only called inside of loops?
func (u *units) loopedOnly(f *ssa.Function, d int) bool {
	if u.sites == nil {
		u.sites = map[*ssa.Function][]*ssa.BasicBlock{}
		for g := range u.p.isMod {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					call, _ := in.(ssa.CallInstruction)
					for _, o := range in.Operands(nil) {
						h, ok := (*o).(*ssa.Function)
						if !ok {
							continue
						}
						if call == nil || call.Common().StaticCallee() != h {
							u.sites[h] = append(u.sites[h], nil) // used as a value
							continue
						}
						u.sites[h] = append(u.sites[h], b)
					}
				}
			}
		}
	}
	l := u.sites[f]
	if len(l) == 0 || d > 4 || f.Object() != nil && f.Object().Exported() {
		return false
	}
	for _, b := range l {
		if b == nil {
			return false
		}
		if !u.inLoop0(b) && !u.loopedOnly(b.Parent(), d+1) {
			return false
		}
	}
	return true
}

func siteID(in ssa.Instruction, what string) string { return fmt.Sprintf("%p%s", in, what) }

func note(m map[string]*unitSite, in ssa.Instruction, what string, s sset) {
	k := siteID(in, what)
	x := m[k]
	if x == nil {
		x = &unitSite{in: in, what: what, set: sset{}}
		m[k] = x
	}
	x.set, _ = x.set.join(s)
}

// eval analyses fn for the given scales of its parameters.
func (u *units) eval(fn *ssa.Function, args []sset, root bool) *unitRes {
	key := fmt.Sprintf("%p %v %v", fn, args, root)
	if r := u.memo[key]; r != nil {
		return r
	}
	res := &unitRes{}
	u.memo[key] = res
	sig := fn.Signature.Results()
	for i := 0; i < sig.Len(); i++ { // assumed of recursive calls
		res.res = append(res.res, u.def(sig.At(i).Type()))
	}
	for i := range fn.Params {
		res.big = append(res.big, args[i])
	}
	if u.depth > 12 || len(fn.Blocks) == 0 {
		res.ready = true
		return res
	}
	u.depth++
	defer func() { u.depth-- }()
	u.nfn[fn] = true
	f := &unitFrame{u: u, fn: fn, reg: map[ssa.Value]sset{}, tup: map[ssa.Value][]sset{}, in: map[*ssa.BasicBlock]map[ssa.Value]sset{}, root: root}
	for i, p := range fn.Params {
		f.reg[p] = args[i]
	}
	start := map[ssa.Value]sset{}
	for i, p := range fn.Params {
		if isBigPtr(p.Type()) {
			start[p] = args[i]
		}
	}
	f.in[fn.Blocks[0]] = start
	for n := 0; ; n++ {
		f.changed = false
		f.out = nil
		f.outBig = nil
		for _, b := range fn.Blocks {
			if f.in[b] == nil {
				continue
			}
			f.block(b)
		}
		if !f.changed || n > 60 {
			break
		}
	}
	if f.out != nil {
		res.res = f.out
		res.big = f.outBig
	}
	res.ready = true
	return res
}

type unitFrame struct {
	u       *units
	fn      *ssa.Function
	reg     map[ssa.Value]sset
	tup     map[ssa.Value][]sset
	in      map[*ssa.BasicBlock]map[ssa.Value]sset
	mem     map[ssa.Value]sset
	changed bool
	root    bool
	out     []sset
	outBig  []sset
}

func (f *unitFrame) get(v ssa.Value) sset {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && isNamedType(x.Type(), "time", "Duration") && x.Int64() != 0 {
			return ss("s0,1")
		}
		if x.Value != nil && (x.Value.Kind() == constant.Int || x.Value.Kind() == constant.Float) {
			c := constant.ToInt(x.Value)
			if c.Kind() == constant.Int {
				return ss("k" + c.ExactString())
			}
			return ss("s0,0")
		}
		if x.Value == nil {
			return ss("k0")
		}
		return ss("?")
	}
	if s, ok := f.reg[v]; ok {
		return s
	}
	switch v.(type) {
	case *ssa.Global, *ssa.Function, *ssa.FreeVar, *ssa.Builtin:
		return f.u.def(v.Type())
	}
	return sset{} // not evaluated yet
}

func (f *unitFrame) set(v ssa.Value, s sset) {
	n, ch := f.reg[v].join(s)
	if f.reg[v] == nil {
		ch = true
	}
	if ch {
		f.reg[v] = n
		f.changed = true
	}
}

// cell: the local variable p points to, if it is one whose contents are
// followed: a number, a Value (its amount is followed) or a big.Int.
func (f *unitFrame) cells(p ssa.Value) []ssa.Value {
	switch x := p.(type) {
	case *ssa.Alloc:
		t := deref(x.Type())
		if isNumber(t) || f.u.isValue(t) || isNamedType(t, "math/big", "Int") {
			return []ssa.Value{x}
		}
	case *ssa.FieldAddr:
		if a, ok := x.X.(*ssa.Alloc); ok && f.u.isValue(deref(a.Type())) && f.amountField(x) {
			return []ssa.Value{a}
		}
	case *ssa.Call:
		if isBigPtr(x.Type()) {
			if g := x.Call.StaticCallee(); g != nil && g.Signature.Recv() != nil && isBigPtr(g.Signature.Recv().Type()) && len(x.Call.Args) > 0 {
				return f.cells(x.Call.Args[0]) // z.Mul(x, y) returns z
			}
			return []ssa.Value{x}
		}
	case *ssa.Extract:
		if isBigPtr(x.Type()) {
			return []ssa.Value{x}
		}
	case *ssa.Parameter:
		if isBigPtr(x.Type()) {
			return []ssa.Value{x}
		}
	case *ssa.Phi:
		if isBigPtr(x.Type()) {
			var o []ssa.Value
			for _, e := range x.Edges {
				if _, ok := e.(*ssa.Phi); ok {
					return nil
				}
				o = append(o, f.cells(e)...)
			}
			return o
		}
	}
	return nil
}

func (f *unitFrame) amountField(x *ssa.FieldAddr) bool {
	st := structOf(deref(x.X.Type()))
	return st != nil && f.u.isValue(deref(x.X.Type())) && st.Field(x.Field).Name() == "Amount"
}

func (f *unitFrame) content(cs []ssa.Value) sset {
	if len(cs) == 0 {
		return ss("?")
	}
	o := sset{}
	for _, c := range cs {
		s, ok := f.mem[c]
		if !ok {
			s = ss("k0")
		}
		o, _ = o.join(s)
	}
	return o
}

func (f *unitFrame) write(cs []ssa.Value, s sset) {
	if len(cs) == 1 {
		f.mem[cs[0]] = s
		return
	}
	for _, c := range cs {
		n, _ := f.mem[c].join(s)
		f.mem[c] = n
	}
}

func (f *unitFrame) bigVal(v ssa.Value) sset { return f.content(f.cells(v)) }

func binSets(a, b sset, op func(x, y string) string) sset {
	o := sset{}
	for x := range a {
		for y := range b {
			o[op(x, y)] = true
		}
	}
	if len(o) > 12 {
		return ss("?")
	}
	return o
}

func (f *unitFrame) add(in ssa.Instruction, a, b sset) sset {
	return binSets(a, b, func(x, y string) string {
		r, ok := addItem(x, y)
		if !ok {
			note(f.u.mixed, in, "", ss(x, y))
		}
		return r
	})
}

func (f *unitFrame) mul(in ssa.Instruction, a, b sset, bits64 bool) sset {
	isTen := func(s sset) bool {
		for k := range s {
			if n, ok := isKonst(k); !ok || !n.IsInt64() || n.Int64() != 10 {
				return false
			}
		}
		return len(s) > 0
	}
	if f.u.inLoop(in) {
		// A number read digit by digit.
		if isTen(a) && len(b) > 0 || isTen(b) && len(a) > 0 {
			return ss("t")
		}
	}
	return binSets(a, b, func(x, y string) string {
		r := mulItem(x, y, false)
		if bits64 {
			f.u.nmul++
			ten, tim, ok := isScale(r)
			big := func(i string) bool {
				t, tm, ok := isScale(i)
				return ok && (t >= 8 || tm >= 1) || i == "t"
			}
			num := func(i string) bool { _, _, ok := isScale(i); return ok || i == "t" }
			if ok && (ten > 8 || ten >= 8 && tim >= 1) && (big(x) || big(y)) || num(x) && num(y) && (big(x) || big(y)) && !(x == "t" && y == "t") {
				note(f.u.prods, in, "", ss(x+" * "+y))
			}
		}
		return r
	})
}

func (f *unitFrame) sink(in ssa.Instruction, what string, s sset) {
	note(f.u.sinks, in, what, s)
}

func (f *unitFrame) block(b *ssa.BasicBlock) {
	f.mem = map[ssa.Value]sset{}
	for k, v := range f.in[b] {
		f.mem[k] = v
	}
	for _, in := range b.Instrs {
		f.instr(in)
	}
	for _, s := range b.Succs {
		if f.in[s] == nil {
			f.in[s] = map[ssa.Value]sset{}
			f.changed = true
			for k, v := range f.mem {
				f.in[s][k] = v
			}
			continue
		}
		for k, v := range f.mem {
			old, had := f.in[s][k]
			if !had && len(s.Preds) > 1 {
				// not there on another path: it does not exist yet there, or is zero
			}
			n, ch := old.join(v)
			if ch || !had {
				f.in[s][k] = n
				f.changed = true
			}
		}
	}
}

func (f *unitFrame) instr(in ssa.Instruction) {
	u := f.u
	switch x := in.(type) {
	case *ssa.Alloc:
		if len(f.cells(x)) == 1 {
			f.mem[x] = ss("k0")
		}
	case *ssa.Store:
		s := f.get(x.Val)
		if cs := f.cells(x.Addr); len(cs) > 0 {
			f.write(cs, s)
			return
		}
		if fa, ok := x.Addr.(*ssa.FieldAddr); ok && f.amountField(fa) {
			f.sink(in, "stored as an amount", s)
		} else if u.isValue(x.Val.Type()) {
			f.sink(in, "stored", s)
		}
	case *ssa.MapUpdate:
		if u.isValue(x.Value.Type()) {
			f.sink(in, "stored in a map", f.get(x.Value))
		}
	case *ssa.Send:
		if u.isValue(x.X.Type()) {
			f.sink(in, "sent", f.get(x.X))
		}
	case *ssa.Return:
		var rs []sset
		bad := false
		for _, r := range x.Results {
			rs = append(rs, f.result(r))
			if isErr(r.Type()) {
				if c, ok := r.(*ssa.Const); !ok || c.Value != nil {
					bad = true
				}
			}
		}
		if f.root && !bad {
			for i, r := range x.Results {
				if u.isValue(r.Type()) {
					f.sink(in, fmt.Sprintf("returned #%d", i), rs[i])
				}
			}
		}
		if f.out == nil {
			f.out = rs
		} else {
			for i := range rs {
				f.out[i], _ = f.out[i].join(rs[i])
			}
		}
		var bs []sset
		for _, p := range f.fn.Params {
			s := sset{}
			if isBigPtr(p.Type()) {
				s = f.mem[p]
			}
			bs = append(bs, s)
		}
		if f.outBig == nil {
			f.outBig = bs
		} else {
			for i := range bs {
				f.outBig[i], _ = f.outBig[i].join(bs[i])
			}
		}
	case *ssa.Call:
		f.call(x, &x.Call)
	case *ssa.Defer:
		f.call(nil, &x.Call)
	case *ssa.Go:
		f.call(nil, &x.Call)
	case *ssa.MakeInterface:
		if u.isValue(x.X.Type()) {
			f.sink(in, "passed on", f.get(x.X))
		}
	case ssa.Value:
		if s := f.value(x); s != nil {
			f.set(x, s)
		}
	}
}

// result: the scale of a result; for a *big.Int, of what it holds.
func (f *unitFrame) result(r ssa.Value) sset {
	if isBigPtr(r.Type()) {
		return f.bigVal(r)
	}
	return f.get(r)
}

func (f *unitFrame) value(v ssa.Value) sset {
	u := f.u
	switch x := v.(type) {
	case *ssa.Phi:
		o := sset{}
		for _, e := range x.Edges {
			o, _ = o.join(f.get(e))
		}
		return o
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if cs := f.cells(x.X); len(cs) > 0 {
				return f.content(cs)
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok && f.amountField(fa) {
				return ss("s8,0")
			}
			return u.def(x.Type())
		case token.SUB:
			o := sset{}
			for i := range f.get(x.X) {
				if k, ok := isKonst(i); ok {
					i = "k" + new(big.Int).Neg(k).String()
				}
				o[i] = true
			}
			return o
		case token.ARROW:
			return u.def(x.Type())
		}
		return f.get(x.X)
	case *ssa.BinOp:
		if !isNumber(x.Type()) {
			return nil
		}
		a, b := f.get(x.X), f.get(x.Y)
		switch x.Op {
		case token.ADD, token.SUB:
			if x.Op == token.SUB {
				if _, ok := x.Y.(*ssa.Const); ok && len(a) == 1 && a["s0,0"] {
					return a
				}
			}
			return f.add(x, a, b)
		case token.MUL:
			bt, _ := x.Type().Underlying().(*types.Basic)
			return f.mul(x, a, b, bt != nil && bt.Info()&types.IsInteger != 0)
		case token.QUO:
			bt, _ := x.Type().Underlying().(*types.Basic)
			return quo(a, b, bt != nil && bt.Info()&types.IsInteger != 0)
		case token.REM:
			return a
		}
		return ss("?")
	case *ssa.Convert:
		if isNumber(x.Type()) && isNumber(x.X.Type()) {
			return f.get(x.X)
		}
		return u.def(x.Type())
	case *ssa.ChangeType:
		return f.get(x.X)
	case *ssa.Field:
		if st := structOf(x.X.Type()); st != nil && u.isValue(x.X.Type()) && st.Field(x.Field).Name() == "Amount" {
			return f.get(x.X)
		}
		return u.def(x.Type())
	case *ssa.Extract:
		if t, ok := f.tup[x.Tuple]; ok && x.Index < len(t) {
			if isBigPtr(x.Type()) {
				f.mem[x] = t[x.Index]
			}
			return t[x.Index]
		}
		return u.def(x.Type())
	case *ssa.Index:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return ss("s0,0")
		}
		return u.def(x.Type())
	case *ssa.Lookup, *ssa.TypeAssert:
		return u.def(v.Type())
	}
	if isNumber(v.Type()) || u.isValue(v.Type()) {
		return u.def(v.Type())
	}
	return nil
}

var colFactor = regexp.MustCompile(`^\(*\s*(\d+)\s*\*|\*\s*(\d+)\s*\)*(::\w+)?$`)

// columns: the scales of the columns a query selects.
func columns(query string) []sset {
	q := strings.TrimSpace(query)
	low := strings.ToLower(q)
	if !strings.HasPrefix(low, "select") {
		return nil
	}
	depth := 0
	var cols []string
	start := 6
	end := len(q)
	for i := 6; i < len(q); i++ {
		switch {
		case q[i] == '(':
			depth++
		case q[i] == ')':
			depth--
		case q[i] == ',' && depth == 0:
			cols = append(cols, q[start:i])
			start = i + 1
		case depth == 0 && strings.HasPrefix(low[i:], "from") && (i == 0 || low[i-1] == ' ' || low[i-1] == '\n' || low[i-1] == '\t'):
			end = i
		}
		if end < len(q) {
			break
		}
	}
	cols = append(cols, q[start:end])
	var out []sset
	for _, c := range cols {
		c = strings.TrimSpace(c)
		if c == "*" {
			return nil
		}
		m := colFactor.FindStringSubmatch(c)
		ten := 0
		if m != nil {
			n, err := strconv.ParseInt(m[1]+m[2], 10, 64)
			if err == nil {
				ten = log10k(big.NewInt(n))
			}
		}
		out = append(out, ss(scaleOf(ten, 0)))
	}
	return out
}

// scan: the cells a Scan of database/sql fills, with the scales of their columns.
func (f *unitFrame) scan(cc *ssa.CallCommon) {
	var cols []sset
	if ex, ok := cc.Args[0].(*ssa.Extract); ok {
		if q, ok := ex.Tuple.(*ssa.Call); ok {
			cols = f.queryCols(&q.Call)
		}
	} else if q, ok := cc.Args[0].(*ssa.Call); ok {
		cols = f.queryCols(&q.Call)
	}
	sl, ok := cc.Args[len(cc.Args)-1].(*ssa.Slice)
	if !ok {
		return
	}
	arr, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return
	}
	for _, ref := range *arr.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		ix, ok := ia.Index.(*ssa.Const)
		if !ok {
			continue
		}
		for _, r2 := range *ia.Referrers() {
			st, ok := r2.(*ssa.Store)
			if !ok {
				continue
			}
			mi, ok := st.Val.(*ssa.MakeInterface)
			if !ok {
				continue
			}
			cs := f.cells(mi.X)
			if len(cs) == 0 {
				continue
			}
			n := int(ix.Int64())
			s := ss("?")
			if n < len(cols) {
				s = cols[n]
			}
			f.write(cs, s)
		}
	}
}

func (f *unitFrame) queryCols(cc *ssa.CallCommon) []sset {
	for _, a := range cc.Args {
		if c, ok := a.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
			if cols := columns(constant.StringVal(c.Value)); cols != nil {
				return cols
			}
		}
	}
	return nil
}

func (f *unitFrame) call(v *ssa.Call, cc *ssa.CallCommon) {
	u := f.u
	var in ssa.Instruction
	if v != nil {
		in = v
	}
	setRes := func(rs ...sset) {
		if v == nil {
			return
		}
		if _, ok := v.Type().(*types.Tuple); ok {
			old := f.tup[v]
			if old == nil {
				f.tup[v] = rs
				f.changed = true
				return
			}
			for i := range rs {
				n, ch := old[i].join(rs[i])
				if ch {
					old[i] = n
					f.changed = true
				}
			}
			return
		}
		if len(rs) == 1 {
			f.set(v, rs[0])
		}
	}
	defRes := func() {
		if v == nil {
			return
		}
		if t, ok := v.Type().(*types.Tuple); ok {
			var rs []sset
			for i := 0; i < t.Len(); i++ {
				rs = append(rs, u.def(t.At(i).Type()))
			}
			setRes(rs...)
			return
		}
		setRes(u.def(v.Type()))
	}
	// Pointers to Values which are handed over hold amounts.
	for _, a := range cc.Args {
		if al, ok := a.(*ssa.Alloc); ok && u.isValue(deref(al.Type())) {
			if in != nil {
				f.sink(in, "passed by reference", f.content([]ssa.Value{al}))
			}
			f.mem[al] = ss("s8,0")
		}
	}
	name := calleeName(cc)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap", "copy":
			setRes(ss("s0,0"))
		default:
			defRes()
		}
		return
	}
	g := cc.StaticCallee()
	if g != nil && u.p.isMod[g] && len(g.Blocks) > 0 {
		var args []sset
		for i, prm := range g.Params {
			if isBigPtr(prm.Type()) {
				args = append(args, f.bigVal(cc.Args[i]))
				continue
			}
			a := f.get(cc.Args[i])
			if !isNumber(prm.Type()) && !u.isValue(prm.Type()) {
				a = ss("?")
			}
			if len(a) == 0 {
				return // not evaluated yet
			}
			if u.isValue(prm.Type()) && in != nil && g.Object() != nil && g.Object().Exported() {
				f.sink(in, "given to "+g.Name(), a)
			}
			args = append(args, a)
		}
		r := u.eval(g, args, false)
		for i, prm := range g.Params {
			if isBigPtr(prm.Type()) && i < len(r.big) && len(r.big[i]) > 0 {
				f.write(f.cells(cc.Args[i]), r.big[i])
			}
		}
		if v != nil && len(r.res) == 1 && isBigPtr(v.Type()) {
			f.mem[v] = r.res[0]
		}
		setRes(append([]sset{}, r.res...)...)
		return
	}
	if g != nil && g.Signature.Recv() != nil && isBigPtr(g.Signature.Recv().Type()) {
		f.bigCall(v, g.Name(), cc, setRes, defRes)
		return
	}
	for _, a := range cc.Args {
		if u.isValue(a.Type()) && in != nil {
			f.sink(in, "passed on", f.get(a))
		}
	}
	switch name {
	case "math/big.NewInt":
		if v != nil {
			f.mem[v] = f.get(cc.Args[0])
		}
		return
	case "strconv.ParseInt", "strconv.ParseUint", "strconv.ParseFloat", "strconv.Atoi":
		setRes(ss("s0,0"), ss("?"))
		return
	case "(time.Duration).Seconds", "(time.Duration).Minutes", "(time.Duration).Hours", "(time.Duration).Nanoseconds", "(time.Duration).Milliseconds", "(time.Duration).Microseconds":
		setRes(ss("s0,1"))
		return
	case "math.Round", "math.Abs", "math.Floor", "math.Ceil", "math.Trunc", "math.RoundToEven":
		setRes(f.get(cc.Args[0]))
		return
	case "(*database/sql.Rows).Scan", "(*database/sql.Row).Scan":
		f.scan(cc)
	}
	defRes()
}

func (f *unitFrame) bigCall(v *ssa.Call, op string, cc *ssa.CallCommon, setRes func(...sset), defRes func()) {
	if v == nil {
		return
	}
	recv := f.cells(cc.Args[0])
	arg := func(i int) sset { return f.bigVal(cc.Args[i]) }
	switch op {
	case "Mul":
		f.write(recv, f.mul(v, arg(1), arg(2), false))
	case "Quo", "Div":
		f.write(recv, quo(arg(1), arg(2), true))
	case "QuoRem", "DivMod":
		a := arg(1)
		f.write(recv, quo(a, arg(2), true))
		f.write(f.cells(cc.Args[3]), a)
		setRes(ss("?"), ss("?"))
		return
	case "Add", "Sub":
		f.write(recv, f.add(v, arg(1), arg(2)))
	case "Rem", "Mod", "Neg", "Abs", "Set":
		f.write(recv, arg(1))
	case "SetInt64", "SetUint64":
		f.write(recv, f.get(cc.Args[1]))
	case "Int64", "Uint64":
		setRes(f.content(recv))
		return
	case "Cmp", "CmpAbs", "Sign", "IsInt64", "IsUint64", "String", "BitLen", "Text":
		defRes()
		return
	default:
		f.write(recv, ss("?"))
		defRes()
	}
}

func (p *Prog) units() *units {
	u := &units{p: p, memo: map[string]*unitRes{}, sinks: map[string]*unitSite{}, mixed: map[string]*unitSite{}, prods: map[string]*unitSite{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]bool{}, nfn: map[*ssa.Function]bool{}}
	for _, fn := range p.Funcs {
		if fn.Synthetic != "" {
			continue
		}
		var args []sset
		for _, prm := range fn.Params {
			if isBigPtr(prm.Type()) {
				args = append(args, ss("?"))
				continue
			}
			args = append(args, u.def(prm.Type()))
		}
		exported := false
		if o := fn.Object(); o != nil && o.Exported() {
			exported = true
		}
		u.eval(fn, args, exported)
	}
	return u
}

func (u *units) sorted(m map[string]*unitSite) []*unitSite {
	var o []*unitSite
	for _, s := range m {
		o = append(o, s)
	}
	sort.Slice(o, func(i, j int) bool {
		if o[i].in.Pos() != o[j].in.Pos() {
			return o[i].in.Pos() < o[j].in.Pos()
		}
		return o[i].what < o[j].what
	})
	return o
}

func describe(i string) string {
	if ten, tim, ok := isScale(i); ok {
		s := "the actual value"
		switch {
		case ten == 8:
			s += " times U"
		case ten > 8 && ten%8 == 0:
			s += fmt.Sprintf(" times U%s", strings.Repeat(" times U", ten/8-1))
		case ten != 0:
			s += fmt.Sprintf(" times 10^%d", ten)
		}
		if i[0] == 'r' {
			s += ", rounded"
		}
		if tim != 0 {
			s += fmt.Sprintf(", times a length of time^%d", tim)
		}
		return s
	}
	if i[0] == 'k' {
		return "the constant " + i[1:]
	}
	if i == "t" {
		return "a number read digit by digit"
	}
	if i == "p" {
		return "a product of a quotient which was rounded first"
	}
	return i
}

func checkP25(p *Prog, r *Report) {
	r.Expl = "every number which becomes the amount of a Value has the scale of amounts (the actual value times U): scales are followed through products, quotients, sums, conversions, big.Int operations, helpers and SQL columns"
	r.Assume = append(r.Assume,
		"a number built digit by digit (times ten in a loop) ends at the scale of amounts; the unit tests of the journal reader settle that",
		"columns of the SQL database hold actual values, and so do the numbers strconv reads",
		"constants as factors count as their power of ten")
	u := p.units()
	unknown := 0
	cnt := map[string]int{}
	for _, s := range u.sorted(u.sinks) {
		f := s.in.Parent()
		var bad []string
		q := false
		for _, i := range s.set.list() {
			if i == "s8,0" || i == "t" {
				continue
			}
			if k, ok := isKonst(i); ok {
				if new(big.Int).Rem(k, big.NewInt(unitU)).Sign() == 0 {
					continue
				}
			}
			if i == "?" {
				q = true
				continue
			}
			bad = append(bad, describe(i))
		}
		if len(s.set) == 0 {
			continue
		}
		if q && len(bad) == 0 {
			unknown++
		}
		base := p.Fn(f) + ": " + s.what
		cnt[base]++
		if os.Getenv("DBGUNITS") != "" {
			fmt.Println(p.InstrPos(s.in), base, s.set)
		}
		r.Add("amount-scale", fmt.Sprintf("%s (%d)", base, cnt[base]), p.InstrPos(s.in), len(bad) == 0,
			"the amount %s is %s; amounts are the actual value times U", s.what, strings.Join(bad, ", or "))
	}
	cnt = map[string]int{}
	for _, s := range u.sorted(u.mixed) {
		base := p.Fn(s.in.Parent())
		cnt[base]++
		var d []string
		for _, i := range s.set.list() {
			d = append(d, describe(i))
		}
		r.Bad("same-scale", fmt.Sprintf("%s (%d)", base, cnt[base]), p.InstrPos(s.in), "numbers of different scales are added: %s", strings.Join(d, " and "))
	}
	r.Counts["functions followed"] = len(u.nfn)
	r.Counts["contexts"] = len(u.memo)
	r.Counts["amounts of unknown origin"] = unknown
	r.Expect("amount-scale", 10)
}
