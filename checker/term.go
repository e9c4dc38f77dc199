package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a canonical, hash-consed description of the value some expression
// has at some program point, in terms of parameters, loads, calls and opaque
// symbols.
type Term struct {
	Op   string
	S    string
	A    []*Term
	T    types.Type
	C    constant.Value
	key  string
	syms []int
	size int
	Info *symInfo // for Op=="sym"
}

type symInfo struct {
	id    int
	kind  string // param, phi, call, alloc, ver, held, next, ...
	ctx   *Ctx
	val   ssa.Value
	instr ssa.Instruction
	shape string
	block *ssa.BasicBlock // where the symbol is born
	onT   []lit           // facts that hold when this boolean symbol is true
	onF   []lit
	facts []lit // facts that always hold
	lenT  *Term
}

func (t *Term) String() string { return t.key }

func (t *Term) has(sym int) bool {
	i := sort.SearchInts(t.syms, sym)
	return i < len(t.syms) && t.syms[i] == sym
}

type terms struct {
	tab   map[string]*Term
	nsym  int
	bysym []*Term
}

func newTerms() *terms { return &terms{tab: map[string]*Term{}} }

func typKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (tt *terms) intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.Op)
	if t.S != "" {
		sb.WriteByte(':')
		sb.WriteString(t.S)
	}
	if len(t.A) > 0 {
		sb.WriteByte('(')
		for i, a := range t.A {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(a.key)
		}
		sb.WriteByte(')')
	}
	k := sb.String()
	if o, ok := tt.tab[k]; ok {
		return o
	}
	t.key = k
	t.size = 1
	var syms []int
	for _, a := range t.A {
		t.size += a.size
		syms = append(syms, a.syms...)
	}
	if t.Op == "sym" {
		syms = append(syms, t.Info.id)
	}
	sort.Ints(syms)
	var u []int
	for i, s := range syms {
		if i == 0 || s != syms[i-1] {
			u = append(u, s)
		}
	}
	t.syms = u
	tt.tab[k] = t
	return t
}

func (tt *terms) sym(name string, typ types.Type, mk func() *symInfo) *Term {
	k := "sym:" + name
	if o, ok := tt.tab[k]; ok {
		return o
	}
	info := mk()
	info.id = tt.nsym
	tt.nsym++
	t := tt.intern(&Term{Op: "sym", S: name, T: typ, Info: info})
	tt.bysym = append(tt.bysym, t)
	return t
}

func (tt *terms) mk(op, s string, typ types.Type, a ...*Term) *Term {
	return tt.intern(&Term{Op: op, S: s, T: typ, A: a})
}

func (tt *terms) constant(v constant.Value, typ types.Type) *Term {
	s := v.ExactString()
	if v.Kind() == constant.String {
		s = constant.StringVal(v)
		return tt.intern(&Term{Op: "const", S: "s" + fmt.Sprintf("%q", s), T: typ, C: v})
	}
	if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		return tt.intern(&Term{Op: "const", S: "f" + s, T: typ, C: v})
	}
	return tt.intern(&Term{Op: "const", S: s, T: typ, C: v})
}

func (tt *terms) intc(n int64, typ types.Type) *Term {
	if typ == nil {
		typ = types.Typ[types.Int]
	}
	return tt.constant(constant.MakeInt64(n), typ)
}

func (tt *terms) boolc(b bool) *Term { return tt.constant(constant.MakeBool(b), types.Typ[types.Bool]) }

func (tt *terms) nilc(typ types.Type) *Term { return tt.intern(&Term{Op: "nil", T: typ}) }

// zero gives the zero value of a type.
func (tt *terms) zero(typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tt.constant(constant.MakeBool(false), typ)
		case u.Info()&types.IsString != 0:
			return tt.constant(constant.MakeString(""), typ)
		case u.Info()&types.IsNumeric != 0:
			return tt.constant(constant.MakeInt64(0), typ)
		}
		return tt.nilc(typ)
	case *types.Struct, *types.Array:
		return tt.intern(&Term{Op: "zero", S: typKey(typ), T: typ})
	}
	return tt.nilc(typ)
}

func (t *Term) isConst() bool { return t.Op == "const" || t.Op == "nil" || t.Op == "zero" }

func (t *Term) intVal() (int64, bool) {
	if t.Op == "const" && t.C.Kind() == constant.Int {
		return constant.Int64Val(t.C)
	}
	return 0, false
}

func (t *Term) boolVal() (bool, bool) {
	if t.Op == "const" && t.C.Kind() == constant.Bool {
		return constant.BoolVal(t.C), true
	}
	return false, false
}

func (t *Term) strVal() (string, bool) {
	if t.Op == "const" && t.C.Kind() == constant.String {
		return constant.StringVal(t.C), true
	}
	return "", false
}

func isZeroTerm(t *Term) bool {
	switch t.Op {
	case "nil", "zero":
		return true
	case "const":
		switch t.C.Kind() {
		case constant.Bool:
			return !constant.BoolVal(t.C)
		case constant.String:
			return constant.StringVal(t.C) == ""
		default:
			return constant.Sign(t.C) == 0
		}
	case "mk":
		for _, a := range t.A {
			if !isZeroTerm(a) {
				return false
			}
		}
		return true
	}
	return false
}

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isStr(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isTime(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

// ---- linear normal form of integer terms ----

type linForm struct {
	c    int64
	co   map[*Term]int64
	over bool // it wrapped around
}

func (tt *terms) linOf(t *Term) linForm {
	if n, ok := t.intVal(); ok {
		return linForm{c: n, co: map[*Term]int64{}}
	}
	if t.Op == "lin" {
		l := linForm{co: map[*Term]int64{}}
		// A = pairs coefficient, term; last is the constant
		for i := 0; i+1 < len(t.A); i += 2 {
			n, _ := t.A[i].intVal()
			l.co[t.A[i+1]] = n
		}
		n, _ := t.A[len(t.A)-1].intVal()
		l.c = n
		return l
	}
	return linForm{co: map[*Term]int64{t: 1}}
}

// small: the form was computed without wrapping around.
func (l linForm) small() bool {
	if l.over || len(l.co) > 0 && (l.c > 1<<61 || l.c < -1<<61) {
		return false
	}
	for _, n := range l.co {
		if n > 1<<40 || n < -1<<40 {
			return false
		}
	}
	return true
}

func wraps(a, k, b int64) bool { // a + k*b
	p := new(big.Int).Mul(big.NewInt(k), big.NewInt(b))
	return !p.Add(p, big.NewInt(a)).IsInt64()
}

func (l linForm) add(o linForm, k int64) linForm {
	r := linForm{c: l.c + k*o.c, co: map[*Term]int64{}, over: l.over || o.over || wraps(l.c, k, o.c)}
	for t, n := range l.co {
		r.co[t] = n
	}
	for t, n := range o.co {
		r.co[t] += k * n
		if r.co[t] == 0 {
			delete(r.co, t)
		}
	}
	return r
}

func (l linForm) scale(k int64) linForm {
	r := linForm{c: l.c * k, co: map[*Term]int64{}, over: l.over || wraps(0, k, l.c)}
	if k != 0 {
		for t, n := range l.co {
			if wraps(0, k, n) {
				r.over = true
			}
			r.co[t] = n * k
		}
	}
	return r
}

func (tt *terms) fromLin(l linForm, typ types.Type) *Term {
	if len(l.co) == 0 {
		return tt.intc(l.c, typ)
	}
	if len(l.co) == 1 && l.c == 0 {
		for t, n := range l.co {
			if n == 1 {
				return t
			}
		}
	}
	var ks []*Term
	for t := range l.co {
		ks = append(ks, t)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].key < ks[j].key })
	var a []*Term
	for _, t := range ks {
		a = append(a, tt.intc(l.co[t], nil), t)
	}
	a = append(a, tt.intc(l.c, nil))
	return tt.intern(&Term{Op: "lin", T: typ, A: a})
}

func (tt *terms) addc(t *Term, n int64) *Term {
	l := tt.linOf(t)
	l.c += n
	return tt.fromLin(l, t.T)
}

func (tt *terms) bin(op token.Token, x, y *Term, typ types.Type) *Term {
	if isInt(typ) {
		switch op {
		case token.ADD:
			if l := tt.linOf(x).add(tt.linOf(y), 1); l.small() {
				return tt.fromLin(l, typ)
			}
		case token.SUB:
			if l := tt.linOf(x).add(tt.linOf(y), -1); l.small() {
				return tt.fromLin(l, typ)
			}
		case token.MUL:
			if n, ok := x.intVal(); ok {
				if l := tt.linOf(y).scale(n); l.small() {
					return tt.fromLin(l, typ)
				}
			}
			if n, ok := y.intVal(); ok {
				if l := tt.linOf(x).scale(n); l.small() {
					return tt.fromLin(l, typ)
				}
			}
			if x.key > y.key {
				x, y = y, x
			}
		case token.QUO, token.REM:
			a, ok1 := x.intVal()
			b, ok2 := y.intVal()
			if ok1 && ok2 && b != 0 {
				if op == token.QUO {
					return tt.intc(a/b, typ)
				}
				return tt.intc(a%b, typ)
			}
			if op == token.QUO && ok2 && b == 1 {
				return x
			}
		}
	}
	if op == token.ADD && isStr(typ) {
		if a, ok := x.strVal(); ok {
			if b, ok := y.strVal(); ok {
				return tt.constant(constant.MakeString(a+b), typ)
			}
			if a == "" {
				return y
			}
		}
		if b, ok := y.strVal(); ok && b == "" {
			return x
		}
	}
	return tt.mk("bin", op.String(), typ, x, y)
}

// atom builds a boolean term for a comparison, plus its polarity.
func (tt *terms) cmp(op token.Token, x, y *Term) (*Term, bool) {
	switch op {
	case token.EQL:
		return tt.eq(x, y), true
	case token.NEQ:
		return tt.eq(x, y), false
	case token.LSS:
		return tt.lt(x, y), true
	case token.GTR:
		return tt.lt(y, x), true
	case token.GEQ: // !(x<y)
		if isFloat(x.T) {
			return tt.mk("le", "", types.Typ[types.Bool], y, x), true
		}
		return tt.lt(x, y), false
	case token.LEQ:
		if isFloat(x.T) {
			return tt.mk("le", "", types.Typ[types.Bool], x, y), true
		}
		return tt.lt(y, x), false
	}
	return nil, false
}

func (tt *terms) eq(x, y *Term) *Term {
	if x == y {
		return tt.boolc(true)
	}
	// a boolean compared with a constant
	if isBool(x.T) {
		if b, ok := y.boolVal(); ok {
			return tt.negIf(x, !b)
		}
		if b, ok := x.boolVal(); ok {
			return tt.negIf(y, !b)
		}
	}
	if isStr(x.T) || isStr(y.T) {
		if s, ok := y.strVal(); ok && s == "" {
			return tt.eq(tt.length(x), tt.intc(0, nil))
		}
		if s, ok := x.strVal(); ok && s == "" {
			return tt.eq(tt.length(y), tt.intc(0, nil))
		}
	}
	if x.isConst() && y.isConst() {
		if isZeroTerm(x) && isZeroTerm(y) {
			return tt.boolc(true)
		}
		if x.Op == "const" && y.Op == "const" && x.C.Kind() == y.C.Kind() {
			return tt.boolc(constant.Compare(x.C, token.EQL, y.C))
		}
	}
	// never nil
	if x.Op == "nil" || y.Op == "nil" {
		o := x
		if x.Op == "nil" {
			o = y
		}
		if tt.nonNil(o) {
			return tt.boolc(false)
		}
	}
	if isInt(x.T) && isInt(y.T) {
		// normalise x-y == 0 with the first coefficient positive
		l := tt.linOf(x).add(tt.linOf(y), -1)
		if len(l.co) == 0 {
			return tt.boolc(l.c == 0)
		}
		c := l.c
		l.c = 0
		t := tt.fromLin(l, x.T)
		if t.Op == "lin" {
			n, _ := t.A[0].intVal()
			if n < 0 {
				l = l.scale(-1)
				c = -c
				t = tt.fromLin(l, x.T)
			}
		}
		if t.Op == "cmp" {
			switch c {
			case 0:
				return tt.eq(t.A[0], t.A[1])
			case 1:
				return tt.lt(t.A[0], t.A[1])
			case -1:
				return tt.lt(t.A[1], t.A[0])
			}
			return tt.boolc(false)
		}
		return tt.mk("eq", "", types.Typ[types.Bool], t, tt.intc(-c, nil))
	}
	if x.isConst() && !y.isConst() || (x.isConst() == y.isConst() && x.key > y.key) {
		x, y = y, x
	}
	return tt.mk("eq", "", types.Typ[types.Bool], x, y)
}

func (tt *terms) negIf(t *Term, neg bool) *Term {
	if !neg {
		return t
	}
	return tt.not(t)
}

func (tt *terms) not(t *Term) *Term {
	if t.Op == "not" {
		return t.A[0]
	}
	if b, ok := t.boolVal(); ok {
		return tt.boolc(!b)
	}
	return tt.mk("not", "", types.Typ[types.Bool], t)
}

func (tt *terms) nonNil(t *Term) bool {
	switch t.Op {
	case "fa", "ia", "global", "closure", "func", "iface", "makeslice", "ty":
		return true
	case "sym":
		return t.Info.kind == "alloc" || t.Info.kind == "make" || t.Info.kind == "nonnil"
	case "append":
		return len(t.A) > 1
	case "load": // an error variable of the standard library, such as io.EOF
		if g := t.A[0]; g.Op == "global" && isErr(t.T) {
			return !strings.Contains(strings.SplitN(g.S, "/", 2)[0], ".") || !strings.Contains(g.S, "/")
		}
	}
	return false
}

// lt: x < y; on integers normalised to lin < const with positive lead.
func (tt *terms) lt(x, y *Term) *Term {
	if x == y {
		return tt.boolc(false)
	}
	if x.Op == "const" && y.Op == "const" && x.C.Kind() == y.C.Kind() {
		return tt.boolc(constant.Compare(x.C, token.LSS, y.C))
	}
	if isInt(x.T) && isInt(y.T) {
		l := tt.linOf(x).add(tt.linOf(y), -1) // l < 0
		if len(l.co) == 0 {
			return tt.boolc(l.c < 0)
		}
		c := l.c
		l.c = 0
		t := tt.fromLin(l, x.T)
		neg := false
		if t.Op == "lin" {
			n, _ := t.A[0].intVal()
			neg = n < 0
		}
		if neg {
			// -t' + c < 0  <=>  t' > c  <=> !(t' < c+1)
			l = l.scale(-1)
			t = tt.fromLin(l, x.T)
			if t.Op == "cmp" {
				return tt.not(tt.lt(t, tt.intc(c+1, nil)))
			}
			return tt.not(tt.mk("lt", "", types.Typ[types.Bool], t, tt.intc(c+1, nil)))
		}
		if t.Op == "cmp" && (c == 0 || c == -1) {
			// the order of two times
			if c == 0 {
				return tt.lt(t.A[0], t.A[1])
			}
			return tt.not(tt.lt(t.A[1], t.A[0]))
		}
		return tt.mk("lt", "", types.Typ[types.Bool], t, tt.intc(-c, nil))
	}
	return tt.mk("lt", "", types.Typ[types.Bool], x, y)
}

func (tt *terms) length(x *Term) *Term {
	it := types.Typ[types.Int]
	switch x.Op {
	case "const":
		if s, ok := x.strVal(); ok {
			return tt.intc(int64(len(s)), it)
		}
	case "nil", "zero":
		if a, ok := x.T.Underlying().(*types.Array); ok {
			return tt.intc(a.Len(), it)
		}
		return tt.intc(0, it)
	case "append":
		return tt.addc(tt.length(x.A[0]), int64(len(x.A)-1))
	case "appendv":
		return tt.bin(token.ADD, tt.length(x.A[0]), tt.length(x.A[1]), it)
	case "slice":
		lo, hi := x.A[1], x.A[2]
		if hi.Op == "none" {
			hi = tt.length(x.A[0])
		}
		if lo.Op == "none" {
			return hi
		}
		return tt.bin(token.SUB, hi, lo, it)
	case "bin":
		if x.S == "+" && isStr(x.T) {
			return tt.bin(token.ADD, tt.length(x.A[0]), tt.length(x.A[1]), it)
		}
	case "sym":
		if x.Info.lenT != nil {
			return x.Info.lenT
		}
	case "fieldarr":
	}
	if x.T != nil {
		if p, ok := x.T.Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return tt.intc(a.Len(), it)
			}
		}
		if a, ok := x.T.Underlying().(*types.Array); ok {
			return tt.intc(a.Len(), it)
		}
	}
	return tt.mk("len", "", it, x)
}

// fieldOf selects a field of a struct value.
func (tt *terms) fieldOf(s *Term, st *types.Struct, i int) *Term {
	f := st.Field(i)
	switch s.Op {
	case "mk":
		return s.A[i]
	case "zero":
		return tt.zero(f.Type())
	case "load":
		return tt.mk("load", "", f.Type(), tt.fieldAddr(s.A[0], s.T, f.Name(), f.Type()), s.A[1])
	}
	return tt.mk("field", f.Name(), f.Type(), s)
}

func fieldIndex(st *types.Struct, name string) int {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func ownerName(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return "struct"
}

// fieldAddr: the address of a field. S is Owner.field.
func (tt *terms) fieldAddr(base *Term, owner types.Type, field string, ft types.Type) *Term {
	return tt.mk("fa", ownerName(owner)+"."+field, types.NewPointer(ft), base)
}

func (tt *terms) indexAddr(base, idx *Term, et types.Type) *Term {
	// &(x[lo:hi])[i] is &x[lo+i]
	for base.Op == "slice" {
		if base.A[1].Op != "none" {
			idx = tt.bin(token.ADD, idx, base.A[1], idx.T)
		}
		base = base.A[0]
	}
	return tt.mk("ia", typKey(et), types.NewPointer(et), base, idx)
}

// selector is the alias class of an address.
func selector(addr *Term) string {
	switch addr.Op {
	case "fa":
		return addr.S
	case "ia":
		return "[]" + addr.S
	case "global":
		return "global:" + addr.S
	}
	if addr.T != nil {
		return "*" + typKey(deref(addr.T))
	}
	return "*"
}

// rootOf finds the object an address lies in.
func rootOf(addr *Term) *Term {
	for addr.Op == "fa" || addr.Op == "ia" {
		addr = addr.A[0]
	}
	return addr
}

// underOf tells whether addr lies within object/address base.
func underOf(addr, base *Term) bool {
	for {
		if addr == base {
			return true
		}
		if addr.Op != "fa" && addr.Op != "ia" {
			return false
		}
		addr = addr.A[0]
	}
}

func (tt *terms) subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.A) == 0 {
		return t
	}
	ch := false
	na := make([]*Term, len(t.A))
	for i, a := range t.A {
		na[i] = tt.subst(a, m)
		if na[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	return tt.rebuild(t, na)
}

func (tt *terms) rebuild(t *Term, na []*Term) *Term {
	switch t.Op {
	case "lin":
		l := linForm{co: map[*Term]int64{}}
		for i := 0; i+1 < len(na); i += 2 {
			n, _ := na[i].intVal()
			l = l.add(tt.linOf(na[i+1]), n)
		}
		n, _ := na[len(na)-1].intVal()
		l.c += n
		return tt.fromLin(l, t.T)
	case "eq":
		return tt.eq(na[0], na[1])
	case "lt":
		return tt.lt(na[0], na[1])
	case "len":
		return tt.length(na[0])
	case "not":
		return tt.not(na[0])
	case "badd":
		return tt.badd(na[0], na[1:]...)
	case "bneg":
		return tt.bneg(na[0])
	case "field":
		if st := structOf(na[0].T); st != nil {
			if k := fieldIndex(st, t.S); k >= 0 {
				return tt.fieldOf(na[0], st, k)
			}
		}
	case "bin":
		for _, o := range []token.Token{token.ADD, token.SUB, token.MUL, token.QUO, token.REM} {
			if o.String() == t.S {
				return tt.bin(o, na[0], na[1], t.T)
			}
		}
	case "mk":
		return tt.mkStruct(t.T, na)
	case "ia":
		return tt.indexAddr(na[0], na[1], deref(t.T))
	}
	return tt.intern(&Term{Op: t.Op, S: t.S, T: t.T, A: na, C: t.C})
}

// badd: a Balance plus a multiset of values (value semantics).
func (tt *terms) badd(base *Term, vs ...*Term) *Term {
	var all []*Term
	if base.Op == "badd" {
		all = append(all, base.A[1:]...)
		base = base.A[0]
	}
	for _, v := range vs {
		if isZeroTerm(v) {
			continue
		}
		neg := tt.bneg(v)
		cancelled := false
		for i, o := range all {
			if o == neg {
				all = append(all[:i:i], all[i+1:]...)
				cancelled = true
				break
			}
		}
		if !cancelled {
			all = append(all, v)
		}
	}
	if len(all) == 0 {
		return base
	}
	sort.Slice(all, func(i, j int) bool { return all[i].key < all[j].key })
	return tt.intern(&Term{Op: "badd", T: base.T, A: append([]*Term{base}, all...)})
}

func (tt *terms) bneg(v *Term) *Term {
	if v.Op == "bneg" {
		return v.A[0]
	}
	// -{Amount: -x, Currency: c} is {Amount: x, Currency: c}
	if v.Op == "mk" && v.S == "Value" && len(v.A) == 2 {
		r := tt.mkStruct(v.T, []*Term{tt.bin(token.SUB, tt.intc(0, v.A[0].T), v.A[0], v.A[0].T), v.A[1]})
		if r.Op != "mk" {
			return r
		}
	}
	return tt.mk("bneg", "", v.T, v)
}

// mkStruct builds a struct value, collapsing {x.f1, x.f2, ...} to x.
func (tt *terms) mkStruct(typ types.Type, fs []*Term) *Term {
	st := structOf(typ)
	if st == nil || len(fs) == 0 {
		return tt.intern(&Term{Op: "zero", S: typKey(typ), T: typ})
	}
	allZero := true
	for _, f := range fs {
		if !isZeroTerm(f) {
			allZero = false
		}
	}
	if allZero {
		return tt.zero(typ)
	}
	var base *Term
	ok := true
	for i, f := range fs {
		var b *Term
		switch {
		case f.Op == "field" && f.S == st.Field(i).Name() && types.Identical(f.A[0].T, typ):
			b = f.A[0]
		case f.Op == "load" && f.A[0].Op == "fa" && f.A[0].S == ownerName(typ)+"."+st.Field(i).Name():
			b = tt.mk("load", "", typ, f.A[0].A[0], f.A[1])
		default:
			ok = false
		}
		if !ok || (base != nil && b != base) {
			ok = false
			break
		}
		base = b
	}
	if ok && base != nil {
		return base
	}
	return tt.intern(&Term{Op: "mk", S: ownerName(typ), T: typ, A: fs})
}

func isConstInt(t *Term, n int64) bool {
	if t == nil {
		return false
	}
	v, ok := t.intVal()
	return ok && v == n
}
