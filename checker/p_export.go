package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P20", "other", checkP20)
	register("P21", "other", checkP21)
}

// exporting analyses what Export writes.  Facts about what has been written are
// atoms of the state: "wrote" x, "pre" (list, n) for "the first n elements of
// list have been written completely", "all" list.  That pre holds at the head of
// a loop for a counter of it is assumed first and checked at its entries and
// back edges; what fails is dropped and the analysis made again, until nothing
// does.
type exporting struct {
	p     *Prog
	r     *Report
	e     *Eng
	tr    *Tracker
	f     *ssa.Function
	led   *Term
	out   *Term
	lines bool // P20: look at the lines
	bad   map[string]bool
	why   map[string]string
	more  bool
	// layouts the reader accepts, and the keywords it knows
	layouts  map[string]bool
	replaced map[string]bool
	nline    map[string]int
	npiece   int
	ndone    map[string]int
	viol     map[string]string
}

func (x *exporting) atom(op string, a ...*Term) *Term {
	return x.e.tt.mk(op, "", types.Typ[types.Bool], a...)
}

func (x *exporting) set(s *State, op string, a ...*Term) {
	s.lits[x.atom(op, a...)] = true
	s.sv = nil
}

// parts: what a list is made of: single elements, and lists marked with more.
type listPart struct {
	t    *Term
	list bool
	from int64 // lists: without the first ones
}

func (x *exporting) parts(l *Term) []listPart {
	switch l.Op {
	case "nil":
		return nil
	case "append":
		out := x.parts(l.A[0])
		for _, a := range l.A[1:] {
			out = append(out, listPart{t: a})
		}
		return out
	case "appendv":
		return append(x.parts(l.A[0]), x.parts(l.A[1])...)
	case "slice":
		k := int64(0)
		if l.A[1].Op != "none" {
			n, ok := l.A[1].intVal()
			if !ok {
				return []listPart{{t: l, list: true}}
			}
			k = n
		}
		if l.A[2].Op != "none" {
			return []listPart{{t: l, list: true}}
		}
		var out []listPart
		for _, q := range x.parts(l.A[0]) {
			switch {
			case k == 0:
				out = append(out, q)
			case q.list:
				q.from += k
				k = 0
				out = append(out, q)
			default:
				k--
			}
		}
		return out
	}
	return []listPart{{t: l, list: true}}
}

// norm: an element of a list by its number is what has been put there.
func (x *exporting) norm(s *State, t *Term) *Term {
	if t.Op != "load" || t.A[0].Op != "ia" {
		return t
	}
	i, ok := t.A[0].A[1].intVal()
	if !ok {
		return t
	}
	l := t.A[0].A[0]
	for _, q := range x.parts(l) {
		if q.list {
			if q.t == l && q.from == 0 {
				return t
			}
			return x.e.elem(s, q.t, x.e.tt.intc(i+q.from, nil))
		}
		if i == 0 {
			return q.t
		}
		i--
	}
	return t
}

func (x *exporting) wrote(s *State, t *Term) bool {
	if t == nil {
		return false
	}
	for a, pos := range s.lits {
		if !pos {
			continue
		}
		if a.Op == "wrote" && (a.A[0] == t || a.A[0].Op == t.Op && a.A[0].S == t.S && x.e.equal(s, a.A[0], t)) {
			return true
		}
		if a.Op == "all" {
			for _, q := range x.parts(a.A[0]) {
				if q.list {
					continue
				}
				for _, y := range x.flat(s, q.t) {
					if y == t || y.Op == t.Op && y.S == t.S && x.e.equal(s, y, t) {
						return true
					}
				}
			}
		}
	}
	return false
}

// wroteText: has all of a text been written?
func (x *exporting) wroteText(s *State, t *Term) bool {
	if t.T == nil || !isStr(t.T) {
		return x.wrote(s, t)
	}
	for _, y := range x.flat(s, t) {
		if !y.isConst() && !x.wrote(s, y) {
			return false
		}
	}
	return true
}

// allOf: have all the elements of list c been written?
func (x *exporting) allOf(s *State, c *Term) bool {
	e := x.e
	if e.zeroLen(s, c) {
		return true
	}
	if x.upTo(s, c, e.tt.length(c)) {
		return true
	}
	first := int64(0) // how many elements have been written one by one
	for first < 4 && x.wroteText(s, e.elem(s, c, e.tt.intc(first, nil))) {
		first++
		if e.implied(s, e.tt.lt(e.tt.intc(first, nil), e.tt.length(c)), false) {
			return true
		}
	}
	for a, pos := range s.lits {
		if !pos || a.Op != "all" {
			continue
		}
		if l := a.A[0]; l.Op == "slice" && l.A[1].Op != "none" && l.A[2].Op == "none" && e.equal(s, l.A[0], c) && x.upTo(s, c, l.A[1]) {
			return true
		}
		for _, q := range x.parts(a.A[0]) {
			if q.list && q.from <= first && (q.t == c || q.t.Op == c.Op && e.equal(s, q.t, c)) {
				return true
			}
		}
	}
	return false
}

// upTo: have the first n elements of list c been written?
func (x *exporting) upTo(s *State, c, n *Term) bool {
	e := x.e
	if e.implied(s, e.tt.lt(e.tt.intc(0, nil), n), false) {
		return true
	}
	if k, ok := n.intVal(); ok && k < 4 {
		for i := int64(0); ; i++ {
			if i == k {
				return true
			}
			if e.implied(s, e.tt.lt(e.tt.intc(i, nil), e.tt.length(c)), false) {
				return true
			}
			if !x.wroteText(s, e.elem(s, c, e.tt.intc(i, nil))) {
				break
			}
		}
	}
	for a, pos := range s.lits {
		if !pos || a.Op != "pre" && a.Op != "all" || a.A[0].Op != c.Op || !e.equal(s, a.A[0], c) {
			continue
		}
		if a.Op == "all" || e.equal(s, a.A[1], n) {
			return true
		}
		if e.equal(s, n, e.tt.addc(a.A[1], 1)) && x.complete(s, c, a.A[1]) {
			return true
		}
	}
	return false
}

func (x *exporting) note(kind, format string, a ...interface{}) bool {
	if x.why[kind] == "" {
		x.why[kind] = fmt.Sprintf(format, a...)
	}
	return false
}

// complete: has element i of list c been written with all that belongs to it?
func (x *exporting) complete(s *State, c, i *Term) bool {
	e := x.e
	el := c.T.Underlying().(*types.Slice).Elem()
	o := e.elem(s, c, i)
	if isStr(el) {
		return x.wroteText(s, o)
	}
	pt, ok := el.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(pt.Elem()).(*types.Named)
	if !ok {
		return false
	}
	kind := n.Obj().Name()
	x.ndone[kind]++
	no := func(what string) bool { return x.note(kind, "%s may not be written; %s", what, e.path(s)) }
	text := func(obj *Term, f string) bool {
		v := e.fld(s, obj, f)
		return v != nil && (x.wrote(s, v) || e.isZero(s, v, v.T))
	}
	name := func(a *Term) bool { return x.wrote(s, x.fullName(a)) }
	switch kind {
	case "Account":
		if !name(o) {
			return no("its name")
		}
		if !text(o, "Code") {
			return no("its code")
		}
	case "Currency":
		if !x.sample(s, o) && !x.wrote(s, e.fld(s, o, "Name")) {
			return no("its name")
		}
		if !text(o, "ISIN") {
			return no("its ISIN")
		}
	case "Transaction":
		if !x.time(s, e.fld(s, o, "Time")) {
			return no("its time")
		}
		if !text(o, "Description") {
			return no("its description")
		}
		if !x.allOf(s, e.fld(s, o, "Splits")) {
			w := x.why["Split"]
			if w == "" {
				w = "not all of them are gone through"
			}
			return x.note(kind, "not all its splits may be written: %s; %s", w, e.path(s))
		}
	case "Price":
		if !x.time(s, e.fld(s, o, "Time")) {
			return no("its time")
		}
		if !x.wrote(s, e.fld(s, e.fld(s, o, "Currency"), "Name")) {
			return no("its currency")
		}
		if !x.value(s, e.fld(s, o, "Value")) {
			return no("its value, with currency and in full,")
		}
	case "Split":
		if !name(e.fld(s, o, "Account")) {
			return no("its account")
		}
		if !x.value(s, e.fld(s, o, "Value")) {
			return no("its value, with currency and in full,")
		}
		for _, f := range []string{"SplitPrices", "Assertions"} {
			m := e.fld(s, x.led, f)
			if m == nil {
				return no(f)
			}
			v, has := e.lookup(s, m, o, m.T)
			if !x.value(s, v) && !e.implied(s, has, false) && !e.implied(s, e.tt.eq(v, e.tt.zero(v.T)), true) {
				return no(map[string]string{"SplitPrices": "its price", "Assertions": "its assertion"}[f])
			}
		}
		tm := e.fld(s, o, "Time")
		own := e.Load(s, tm, deref(tm.T))
		if !x.time(s, own) && !x.sameTime(s, o, c, own) {
			return no("its own date")
		}
	default:
		return false
	}
	// comments
	m := e.fld(s, x.led, "Comments")
	if m == nil {
		return no("the comments")
	}
	key := e.tt.mk("iface", types.TypeString(el, nil), m.T.Underlying().(*types.Map).Key(), o)
	cs, has := e.lookup(s, m, key, m.T)
	if !e.implied(s, has, false) && !x.allOf(s, cs) {
		return no("one of its comments")
	}
	return true
}

// sameTime: is a split's time that of its transaction?
func (x *exporting) sameTime(s *State, o, splits, own *Term) bool {
	e := x.e
	txs := []*Term{e.fld(s, o, "Transaction")}
	if tx := owner(splits, "Transaction.Splits"); tx != nil {
		txs = append(txs, tx)
	}
	for _, tx := range txs {
		if tx == nil {
			continue
		}
		if t := e.fld(s, tx, "Time"); t != nil && (e.implied(s, e.tt.eq(own, t), true) || e.implied(s, e.tt.lt(own, t), false) && e.implied(s, e.tt.lt(t, own), false)) {
			return true
		}
		if e.implied(s, e.tt.eq(e.fld(s, o, "Time"), e.tt.fieldAddr(tx, deref(tx.T), "Time", own.T)), true) {
			return true
		}
	}
	return false
}

func (x *exporting) fullName(a *Term) *Term {
	return x.e.tt.mk("fn", "FullName", types.Typ[types.String], a)
}

// time: has time t been written?
func (x *exporting) time(s *State, t *Term) bool {
	if t == nil {
		return false
	}
	return x.some(s, func(y *Term) bool { return y.Op == "fn" && y.S == "Format" && x.e.equal(s, y.A[0], t) })
}

// value: has v been written with its currency and all its decimals?
func (x *exporting) value(s *State, v *Term) bool {
	if v == nil {
		return false
	}
	return x.some(s, func(y *Term) bool {
		if y.Op != "fn" || y.S != "GetString" || !x.e.sameFields(s, y.A[0], v) {
			return false
		}
		full, ok1 := y.A[1].boolVal()
		units, ok2 := y.A[2].boolVal()
		return ok1 && ok2 && full && units
	})
}

// sameFields: equal, field by field.
func (e *Eng) sameFields(s *State, a, b *Term) bool {
	if e.equal(s, a, b) {
		return true
	}
	st := structOf(b.T)
	if st == nil {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if !e.equal(s, e.tt.fieldOf(a, st, i), e.tt.fieldOf(b, st, i)) {
			return false
		}
	}
	return true
}

// sample: has some amount of the currency been written?
func (x *exporting) sample(s *State, cu *Term) bool {
	return x.some(s, func(y *Term) bool {
		return y.Op == "fn" && y.S == "GetString" && x.isSample(s, y) && x.e.equal(s, x.valueField(y.A[0], "Currency"), cu)
	})
}

func (x *exporting) valueField(v *Term, name string) *Term {
	st := structOf(v.T)
	return x.e.tt.fieldOf(v, st, fieldIndex(st, name))
}

func (x *exporting) isSample(s *State, y *Term) bool {
	u, ok := y.A[2].boolVal()
	return ok && u
}

func (x *exporting) some(s *State, ok func(y *Term) bool) bool {
	for a, pos := range s.lits {
		if !pos {
			continue
		}
		if a.Op == "wrote" && ok(a.A[0]) {
			return true
		}
		if a.Op == "all" {
			for _, q := range x.parts(a.A[0]) {
				if q.list {
					continue
				}
				for _, y := range x.flat(s, q.t) {
					if ok(y) {
						return true
					}
				}
			}
		}
	}
	return false
}

// flat: the pieces of a text.
func (x *exporting) flat(s *State, t *Term) []*Term {
	var out []*Term
	for _, y := range textParts(t) {
		y = x.norm(s, y)
		if y.Op == "bin" && y.S == "+" {
			out = append(out, x.flat(s, y)...)
			continue
		}
		if y.Op == "fn" && y.S == "text" {
			for _, z := range y.A {
				out = append(out, x.flat(s, z)...)
			}
			continue
		}
		out = append(out, y)
	}
	return out
}

func (x *exporting) str(c string) *Term {
	return x.e.tt.constant(constant.MakeString(c), types.Typ[types.String])
}

// shown: the text fmt makes of an argument.
func (x *exporting) shown(s *State, a *Term) *Term {
	if a.Op == "iface" {
		a = a.A[0]
	}
	if a.T != nil {
		if isStr(a.T) {
			return a
		}
		if types.Identical(a.T, x.p.RootType("Value")) {
			return x.e.tt.mk("fn", "GetString", types.Typ[types.String], a, x.e.tt.boolc(false), x.e.tt.boolc(true))
		}
	}
	return x.e.tt.mk("fn", "shown", types.Typ[types.String], a)
}

var verbRx = regexp.MustCompile(`^%([-+# 0]*)([0-9]*|\*)(\.[0-9]+)?([a-zA-Z%])`)

// format takes a format and its arguments apart.
func (x *exporting) format(s *State, f string, args []*Term) (out []*Term) {
	n := 0
	for f != "" {
		i := strings.IndexByte(f, '%')
		if i != 0 {
			if i < 0 {
				i = len(f)
			}
			out = append(out, x.str(f[:i]))
			f = f[i:]
			continue
		}
		m := verbRx.FindStringSubmatch(f)
		if m == nil {
			return append(out, x.e.tt.mk("fn", "shown", types.Typ[types.String]))
		}
		f = f[len(m[0]):]
		if m[4] == "%" {
			out = append(out, x.str("%"))
			continue
		}
		if m[2] == "*" {
			n++
		}
		if n >= len(args) {
			return append(out, x.e.tt.mk("fn", "shown", types.Typ[types.String]))
		}
		a := args[n]
		n++
		v := x.shown(s, a)
		if m[3] != "" || m[4] != "s" && m[4] != "v" {
			v = x.e.tt.mk("fn", "shown", types.Typ[types.String], v)
		}
		pad := x.e.tt.mk("fn", "pad", types.Typ[types.String])
		if m[2] != "" && !strings.Contains(m[1], "-") {
			out = append(out, pad)
		}
		out = append(out, v)
		if m[2] != "" && strings.Contains(m[1], "-") {
			out = append(out, pad)
		}
	}
	return out
}

// says: what a call of fmt prints.
func (x *exporting) says(s *State, name string, args []*Term) ([]*Term, bool) {
	if len(args) == 0 {
		return nil, false
	}
	els, ok := x.e.varargs(s, args[len(args)-1])
	if !ok {
		return nil, false
	}
	var out []*Term
	switch {
	case strings.HasSuffix(name, "f"):
		if len(args) < 2 {
			return nil, false
		}
		f, isC := args[len(args)-2].strVal()
		if !isC {
			return nil, false
		}
		out = x.format(s, f, els)
	case strings.HasSuffix(name, "ln"):
		for i, a := range els {
			if i > 0 {
				out = append(out, x.str(" "))
			}
			out = append(out, x.shown(s, a))
		}
		out = append(out, x.str("\n"))
	default:
		for i, a := range els {
			v := x.shown(s, a)
			if i > 0 && (v.Op == "fn" && v.S == "shown" || els[i-1].T != nil && x.shown(s, els[i-1]).S == "shown") {
				out = append(out, x.e.tt.mk("fn", "pad", types.Typ[types.String]))
			}
			out = append(out, v)
		}
	}
	return out, true
}

// toOut: is w the writer Export is given, or something that ends up there?
func (x *exporting) toOut(s *State, w *Term) bool {
	if w.Op == "iface" {
		w = w.A[0]
	}
	if x.e.equal(s, w, x.out) || w.Op == "fn" && w.S == "buffer" {
		return true
	}
	return allocTerm(rootOf(w)) && w.T != nil && isTextBuffer(deref(w.T))
}

// textBuffer: the text being put together that w is.
func (x *exporting) textBuffer(w *Term) *Term {
	if w.Op == "iface" {
		w = w.A[0]
	}
	if allocTerm(rootOf(w)) && w.T != nil && isTextBuffer(deref(w.T)) {
		return w
	}
	return nil
}

// goes: pieces are written to w.  What is written to something on the way has
// still to be written, and before anything else is.
func (x *exporting) goes(s *State, in ssa.CallInstruction, w *Term, pieces []*Term) {
	id := x.p.Fn(in.Parent()) + " " + x.p.InstrPos(in)
	var out []*Term
	for _, y := range pieces {
		if y.Op == "fn" && y.S == "collected" {
			if len(pieces) > 1 || s.gs["pending"] == "" || !x.e.equal(s, s.gt["pending"], y.A[0]) {
				x.fail("order", id, "what has been put together is not written where it belongs; %s", x.e.path(s))
			}
			if s.gs["pending"] == "2" {
				x.fail("order", id, "what has been put together may be written again; %s", x.e.path(s))
			}
			s.gs["pending"] = "2"
			continue
		}
		out = append(out, y)
	}
	if w.Op == "iface" {
		w = w.A[0]
	}
	if t := x.textBuffer(w); t != nil {
		if len(out) < len(pieces) {
			x.fail("order", id, "what has been put together is put together again; %s", x.e.path(s))
		}
		switch p := s.gt["pending"]; {
		case s.gs["pending"] == "" || s.gs["pending"] == "2" && (p == nil || !x.e.equal(s, p, t)):
			s.gs["pending"], s.gt["pending"] = "1", t
		case p == nil || !x.e.equal(s, p, t):
			x.fail("order", id, "two texts are put together at a time; %s", x.e.path(s))
		case s.gs["pending"] == "2":
			x.fail("order", id, "what has been written already is put together with more; %s", x.e.path(s))
		}
	} else if s.gs["pending"] == "1" {
		x.fail("order", id, "this is written before what has been put together before; %s", x.e.path(s))
	}
	if w.Op == "fn" && w.S == "buffer" {
		s.gs["unflushed"] = "1"
	} else if s.gs["unflushed"] != "" && x.textBuffer(w) == nil {
		x.fail("order", id, "this is written before what has been collected before; %s", x.e.path(s))
	}
	x.write(s, in, out)
}

// fresh: a text to be put together is empty again.
func (x *exporting) fresh(s *State, in ssa.Instruction, t *Term) {
	if s.gs["pending"] != "" && s.gt["pending"] != nil && x.e.equal(s, s.gt["pending"], t) {
		if s.gs["pending"] == "1" {
			x.fail("order", x.p.Fn(in.Parent())+" "+x.p.InstrPos(in), "what has been put together is dropped; %s", x.e.path(s))
		}
		delete(s.gs, "pending")
		delete(s.gt, "pending")
	}
}

func isTextBuffer(t types.Type) bool {
	return isNamedType(t, "strings", "Builder") || isNamedType(t, "bytes", "Buffer")
}

func (x *exporting) write(s *State, in ssa.CallInstruction, pieces []*Term) {
	for _, t := range pieces {
		for _, y := range x.flat(s, t) {
			x.npiece++
			if y.isConst() {
				if x.lines {
					c, _ := y.strVal()
					x.text(s, in, c)
				}
				continue
			}
			if y.Op == "fn" && y.S == "Join" {
				x.set(s, "all", y.A[0])
			}
			x.set(s, "wrote", y)
			if x.lines {
				x.token(s, in, y)
			}
		}
	}
}

// ---- P20: lines ----

func (x *exporting) text(s *State, in ssa.CallInstruction, c string) {
	for c != "" {
		i := strings.IndexByte(c, '\n')
		if i < 0 {
			x.add(s, c)
			return
		}
		x.add(s, c[:i])
		x.endLine(s, in)
		c = c[i+1:]
	}
}

func (x *exporting) add(s *State, c string) {
	l := s.gs["line"] + c
	if len(l) > 200 {
		l = l[:200] + "..."
	}
	if l == "" {
		delete(s.gs, "line")
		return
	}
	s.gs["line"] = l
}

func (x *exporting) token(s *State, in ssa.CallInstruction, y *Term) {
	k, obj := x.kind(s, y)
	if obj != nil {
		key := "obj"
		if k == "c" || k == "code" || k == "isin" {
			key = "cobj"
		}
		// the first one of a line says whose it is
		if s.gt[key] == nil {
			s.gt[key] = obj
		}
	}
	x.add(s, "{"+k+"}")
	if y.Op == "fn" && y.S == "Join" {
		// what comes between two of them
		sep, _ := y.A[1].strVal()
		x.text(s, in, sep)
		x.add(s, "{"+k+"}")
	}
}

// kind: what sort of thing a piece is, and what it belongs to.
func (x *exporting) kind(s *State, y *Term) (string, *Term) {
	e := x.e
	field := func(t *Term) (string, *Term) {
		if t.Op == "load" && t.A[0].Op == "fa" {
			return shortField(t.A[0].S), t.A[0].A[0]
		}
		return "", nil
	}
	if y.Op == "fn" {
		switch y.S {
		case "FullName":
			if f, o := field(y.A[0]); f == "Split.Account" {
				return "acct", o
			}
			return "acct", y.A[0]
		case "GetString":
			units, ok := y.A[2].boolVal()
			if !ok || !units {
				return "number", nil
			}
			if n, ok := x.valueField(y.A[0], "Amount").intVal(); ok {
				if n < 1000*100000000 {
					return "small", nil
				}
				return "val", x.valueField(y.A[0], "Currency")
			}
			_, o := field(y.A[0])
			return "val", o
		case "Format":
			l, ok := y.A[1].strVal()
			if !ok || !x.layoutOK(l) {
				return "time in a form the reader does not accept to the second", nil
			}
			t := y.A[0]
			f, o := field(t)
			if f == "" && t.Op == "load" {
				_, o = field(t.A[0])
			}
			return "time", o
		case "Join":
			return "c", x.commented(y.A[0])
		case "pad":
			return "pad", nil
		}
		return "?" + y.S, nil
	}
	if f, o := field(y); f != "" {
		switch f {
		case "Transaction.Description":
			return "desc", nil
		case "Currency.Name":
			return "cur", nil
		case "Account.Code":
			return "code", o
		case "Currency.ISIN":
			return "isin", o
		case "Account.Name":
			return "own name", nil
		}
	}
	if y.Op == "load" && y.A[0].Op == "ia" {
		if o := x.commented(y.A[0].A[0]); o != nil {
			return "c", o
		}
		if isStr(y.T) {
			return "c", nil
		}
	}
	_ = e
	return "?", nil
}

// commented: the object a list of comments is about.
func (x *exporting) commented(l *Term) *Term {
	for _, q := range x.parts(l) {
		if q.list && q.t.Op == "lookup" {
			if k := q.t.A[1]; k.Op == "iface" {
				return k.A[0]
			}
		}
	}
	return nil
}

func (x *exporting) layoutOK(l string) bool {
	if x.layouts[l] {
		return true
	}
	// what the reader makes of a date before parsing it
	for _, c := range []string{"/", "_", ":", "."} {
		if x.replaced[c] {
			l = strings.ReplaceAll(l, c, "-")
		}
	}
	return x.layouts[l]
}

const comm = `(?:\s*;\s*(?:\{c\}|code:\{code\}|isin:\{isin\}|date:\{time\}))?\s*$`

var lineRx = []struct {
	kind string
	rx   *regexp.Regexp
}{
	{"blank", regexp.MustCompile(`^\s*$`)},
	{"comment of the file", regexp.MustCompile(`^[;#*][^{}]*$`)},
	{"comment", regexp.MustCompile(`^[ \t]+[;#*]\s*(?:\{c\}|code:\{code\}|isin:\{isin\}|date:\{time\})\s*$`)},
	{"account", regexp.MustCompile(`^account +\{acct\}` + comm)},
	{"commodity", regexp.MustCompile(`^commodity +\{val\}` + comm)},
	{"price", regexp.MustCompile(`^P +\{time\} +\{cur\} +\{val\}` + comm)},
	{"transaction", regexp.MustCompile(`^\{time\} +(?:\{desc\})` + comm)},
	{"split", regexp.MustCompile(`^(?: +|\t)\s*\{acct\}(?:\{pad\})?  \s*(?:\{pad\})?\{val\}(?:\{pad\})?(?:\s*@@\s*\{val\})?(?:\{pad\})?(?:\s*=\s*\{val\})?(?:\{pad\})?` + comm)},
}

func (x *exporting) endLine(s *State, in ssa.CallInstruction) {
	l := s.gs["line"]
	delete(s.gs, "line")
	obj, cobj := s.gt["obj"], s.gt["cobj"]
	delete(s.gt, "obj")
	delete(s.gt, "cobj")
	kind := ""
	for _, k := range lineRx {
		if k.rx.MatchString(l) {
			kind = k.kind
			break
		}
	}
	id := x.p.Fn(in.Parent()) + " " + x.p.InstrPos(in)
	if kind == "" {
		x.fail("line", id, "a line of the form %q is not one the reader takes for what it is; %s", l, x.e.path(s))
		return
	}
	x.nline[kind]++
	if kind == "blank" || kind == "comment of the file" {
		return
	}
	if kind == "comment" {
		if obj != nil { // a date tag
			cobj = obj
		}
		last := s.gt["last"]
		switch {
		case last == nil:
			x.fail("attached", id, "a comment comes after no line of something it could be about; %s", x.e.path(s))
		case cobj != nil && !x.e.equal(s, cobj, last):
			x.fail("attached", id, "a comment does not come right after the line of what it is about; %s", x.e.path(s))
		}
		return
	}
	if cobj != nil && obj != nil && !x.e.equal(s, cobj, obj) {
		x.fail("attached", id, "a comment is written in the line of something else; %s", x.e.path(s))
	}
	if obj != nil {
		s.gt["last"] = obj
	}
}

func (x *exporting) fail(rule, id, format string, a ...interface{}) {
	k := rule + "|" + id
	if x.viol[k] == "" {
		x.viol[k] = fmt.Sprintf(format, a...)
	}
}

// ---- loops ----

type prefix struct {
	class string
	list  *Term
	n     *Term
}

func siteKey(c *Ctx, h *ssa.BasicBlock) string {
	k := fmt.Sprintf("%s.%d", c.fn.Name(), h.Index)
	for ; c.parent != nil; c = c.parent {
		k += fmt.Sprintf("<%d", c.call.Pos())
	}
	return k
}

// prefixes: which parts of which lists may have been written at the head of a loop.
func (x *exporting) prefixes(s *State, c *Ctx, h *ssa.BasicBlock) (out []prefix) {
	e := x.e
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if isInt(ph.Type()) {
			phis = append(phis, ph)
		}
	}
	l := e.flow(c.fn).loops[h]
	// counters of other loops that are still in use
	var kept []ssa.Value
	for k := range s.env {
		if in, ok := k.v.(ssa.Instruction); ok && k.c == c && isInt(k.v.Type()) && !l.blocks[in.Block()] {
			kept = append(kept, k.v)
		}
	}
	if len(phis)+len(kept) == 0 {
		return nil
	}
	type cand struct {
		k string
		l *Term
	}
	var ls []cand
	for _, f := range []string{"Accounts", "Currencies", "Transactions", "Prices"} {
		ls = append(ls, cand{f, e.fld(s, x.led, f)})
	}
	if _, n := x.tr.next2(s, c, h); n != nil && n.Op == "len" && n.A[0].T != nil {
		ls = append(ls, cand{"bound", n.A[0]})
	}
	for _, b := range c.fn.Blocks {
		if !l.blocks[b] {
			continue
		}
		for i, in := range b.Instrs {
			if ia, ok := in.(*ssa.IndexAddr); ok {
				if def, isI := ia.X.(ssa.Instruction); isI && l.blocks[def.Block()] {
					continue
				}
				if t := e.val(s, c, ia.X); t != nil && t.T != nil {
					ls = append(ls, cand{fmt.Sprintf("site%d.%d", b.Index, i), t})
				}
			}
		}
	}
	sk := siteKey(c, h)
	for _, q := range ls {
		if q.l == nil || q.l.T == nil {
			continue
		}
		if _, ok := q.l.T.Underlying().(*types.Slice); !ok {
			continue
		}
		for _, w := range kept {
			k := fmt.Sprintf("%s|%s|%s", sk, q.k, w.Name())
			if !strings.HasPrefix(q.k, "site") && q.k != "bound" && !x.bad[k] {
				out = append(out, prefix{k, q.l, e.val(s, c, w)})
			}
		}
		for _, ph := range phis {
			v := e.val(s, c, ph)
			for off := int64(0); off < 2; off++ {
				k := fmt.Sprintf("%s|%s|%s|%d", sk, q.k, ph.Name(), off)
				if !x.bad[k] {
					out = append(out, prefix{k, q.l, e.tt.addc(v, off)})
				}
			}
		}
	}
	return out
}

// rests: the lists that may be what is left of one of the ledger's lists, all
// before it having been written.
func (x *exporting) rests(s *State, c *Ctx, h *ssa.BasicBlock) (out []prefix) {
	e := x.e
	l := e.flow(c.fn).loops[h]
	for k := range s.env {
		if k.c != c {
			continue
		}
		sl, ok := k.v.Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		in, isI := k.v.(ssa.Instruction)
		if !isI {
			continue
		}
		if ph, isPhi := k.v.(*ssa.Phi); l.blocks[in.Block()] && !(isPhi && ph.Block() == h) {
			continue
		}
		for _, f := range []string{"Accounts", "Currencies", "Transactions", "Prices"} {
			g := e.fld(s, x.led, f)
			if g == nil || !types.Identical(g.T.Underlying(), sl) {
				continue
			}
			id := fmt.Sprintf("%s|rest|%s|%s", siteKey(c, h), f, k.v.Name())
			if !x.bad[id] {
				out = append(out, prefix{id, g, e.val(s, c, k.v)})
			}
		}
	}
	return out
}

func (x *exporting) isRest(s *State, g, v *Term) bool {
	e := x.e
	if e.equal(s, g, v) {
		return true
	}
	if v.Op == "slice" && v.A[2].Op == "none" && v.A[1].Op != "none" && e.equal(s, v.A[0], g) && x.upTo(s, g, v.A[1]) {
		return true
	}
	for a, pos := range s.lits {
		if !pos || a.Op != "rest" || a.A[0] != g {
			continue
		}
		y := a.A[1]
		if e.equal(s, v, y) {
			return true
		}
		if v.Op == "slice" && v.A[2].Op == "none" && e.equal(s, v.A[0], y) && e.equal(s, v.A[1], e.tt.intc(1, nil)) && x.complete(s, y, e.tt.intc(0, nil)) {
			return true
		}
	}
	return false
}

func (x *exporting) checkPrefixes(s *State, c *Ctx, h *ssa.BasicBlock) {
	for _, q := range x.rests(s, c, h) {
		if !x.isRest(s, q.list, q.n) {
			x.bad[q.class] = true
			x.more = true
		}
	}
	for _, q := range x.prefixes(s, c, h) {
		if !x.upTo(s, q.list, q.n) {
			if os.Getenv("DBGPARTS") != "" {
				fmt.Fprintln(os.Stderr, "dropped", q.class, short(q.list), short(q.n))
				for a, pos := range s.lits {
					if pos && (a.Op == "pre" || a.Op == "wrote") {
						fmt.Fprintln(os.Stderr, "     ", short(a))
					}
				}
			}
			x.bad[q.class] = true
			x.more = true
		}
	}
}

// overTexts: is this a loop over a list of texts?
func (x *exporting) overTexts(s *State, c *Ctx, h *ssa.BasicBlock) bool {
	l := x.e.flow(c.fn).loops[h]
	for _, b := range c.fn.Blocks {
		if !l.blocks[b] || x.inner(c, h, b) {
			continue
		}
		for _, in := range b.Instrs {
			if ia, ok := in.(*ssa.IndexAddr); ok {
				if _, isC := ia.Index.(*ssa.Const); isC {
					continue
				}
				if sl, isS := ia.X.Type().Underlying().(*types.Slice); isS && isStr(sl.Elem()) {
					return true
				}
			}
		}
	}
	return false
}

// inner: is b in a loop inside that of h?
func (x *exporting) inner(c *Ctx, h, b *ssa.BasicBlock) bool {
	loops := x.e.flow(c.fn).loops
	for h2, l2 := range loops {
		if h2 != h && l2.blocks[b] && loops[h].blocks[h2] {
			return true
		}
	}
	return false
}

// settle forgets how the comments of something came to be written completely.
func (x *exporting) settle(s *State) {
	found := map[*Term]bool{}
	seen := map[*Term]bool{}
	var scan func(t *Term)
	scan = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "lookup" && t.T != nil {
			if sl, ok := t.T.Underlying().(*types.Slice); ok && isStr(sl.Elem()) {
				found[t] = true
			}
		}
		for _, a := range t.A {
			scan(a)
		}
	}
	for t := range s.lits {
		scan(t)
	}
	for c := range found {
		if !x.allOf(s, c) {
			continue
		}
		has := map[*Term]bool{}
		var in func(t *Term) bool
		in = func(t *Term) bool {
			if t == nil {
				return false
			}
			if t == c {
				return true
			}
			if v, ok := has[t]; ok {
				return v
			}
			r := false
			for _, a := range t.A {
				r = r || in(a)
			}
			has[t] = r
			return r
		}
		for t := range s.lits {
			if in(t) {
				delete(s.lits, t)
			}
		}
		x.set(s, "all", c)
	}
}

func (x *exporting) once() (ok bool) {
	p, r := x.p, x.r
	e := p.frozenEng()
	x.e = e
	e.Cap, e.LCap = 400, 100
	e.PhiRel = func(t types.Type) bool { return !isInt(t) }
	x.more = false
	x.why, x.viol = map[string]string{}, map[string]string{}
	x.nline, x.ndone, x.npiece = map[string]int{}, map[string]int{}, 0
	x.tr = e.Track()
	args := e.Params(x.f)
	for _, a := range args {
		switch {
		case isLedger(p, a.T):
			x.led = a
		default:
			x.out = a
		}
	}
	if x.led == nil || x.out == nil || len(args) != 2 {
		r.Bad("found", "Export", p.Pos(x.f.Pos()), "not a function of a writer and a ledger")
		return false
	}
	tt := e.tt
	str := types.Typ[types.String]
	e.H.Call = func(s *State, c *Ctx, in ssa.CallInstruction, name string, args []*Term) (*Term, bool) {
		cc := in.Common()
		res := func(t *Term) (*Term, bool) {
			v := in.Value()
			if v == nil {
				return nil, true
			}
			if t != nil {
				return t, true
			}
			return e.newSym("op", "written", v.Type(), c, v, in), true
		}
		if g := cc.StaticCallee(); g != nil && g.Pkg == p.Root {
			switch g.Name() {
			case "FullName":
				if len(args) == 1 {
					a := args[0]
					if structOf(a.T) != nil && a.Op == "load" {
						a = a.A[0]
					}
					return x.fullName(a), true
				}
			case "GetString":
				if len(args) == 3 {
					return tt.mk("fn", "GetString", str, args...), true
				}
			}
		}
		if cc.IsInvoke() {
			if x.toOut(s, args[0]) {
				switch cc.Method.Name() {
				case "Write", "WriteString":
					x.goes(s, in, args[0], []*Term{x.bytesText(args[1])})
					return res(nil)
				}
			}
			return nil, false
		}
		switch name {
		case "(time.Time).Format":
			return tt.mk("fn", "Format", str, args[0], args[1]), true
		case "strings.Join":
			if sep, isC := args[1].strVal(); isC && !x.lines || isC && strings.Contains(sep, "\n") && lineRx[2].rx.MatchString(strings.TrimPrefix(sep, "\n")+"{c}") {
				return tt.mk("fn", "Join", str, args[0], args[1]), true
			}
			return nil, false
		case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
			if ps, ok := x.says(s, name, args); ok {
				return tt.mk("fn", "text", str, ps...), true
			}
			return nil, false
		case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
			if x.toOut(s, args[0]) {
				ps, ok := x.says(s, name, args[1:])
				if !ok {
					e.giveUp("%s: what is written here is not known", p.InstrPos(in))
				}
				x.goes(s, in, args[0], ps)
				return res(nil)
			}
		case "io.WriteString":
			if x.toOut(s, args[0]) {
				x.goes(s, in, args[0], []*Term{args[1]})
				return res(nil)
			}
		case "bufio.NewWriter", "bufio.NewWriterSize":
			if x.toOut(s, args[0]) {
				return tt.mk("fn", "buffer", in.Value().Type(), args[0]), true
			}
		case "(*bufio.Writer).Flush":
			delete(s.gs, "unflushed")
			return res(nil)
		case "(*bufio.Writer).WriteString", "(*bufio.Writer).WriteByte", "(*bufio.Writer).WriteRune", "(*bufio.Writer).Write":
			x.goes(s, in, args[0], []*Term{x.charText(args[1])})
			return res(nil)
		}
		if strings.HasPrefix(name, "(*strings.Builder).") || strings.HasPrefix(name, "(*bytes.Buffer).") {
			switch name[strings.LastIndexByte(name, '.')+1:] {
			case "WriteString", "Write", "WriteByte", "WriteRune":
				x.goes(s, in, args[0], []*Term{x.charText(args[1])})
				return res(nil)
			case "String", "Bytes":
				return res(tt.mk("fn", "collected", in.Value().Type(), args[0]))
			case "Len":
				if t := s.gt["pending"]; s.gs["pending"] != "" && t != nil && e.equal(s, t, args[0]) {
					return nil, false
				}
				return tt.intc(0, in.Value().Type()), true
			case "Grow":
				return res(nil)
			case "Reset":
				x.fresh(s, in, args[0])
				return res(nil)
			case "WriteTo":
				x.goes(s, in, args[1], []*Term{tt.mk("fn", "collected", str, args[0])})
				x.fresh(s, in, args[0])
				return res(nil)
			}
		}
		return nil, false
	}
	instr := e.H.Instr
	e.H.Instr = func(s *State, c *Ctx, in ssa.Instruction) {
		if instr != nil {
			instr(s, c, in)
		}
		if a, ok := in.(*ssa.Alloc); ok && isTextBuffer(deref(a.Type())) {
			x.fresh(s, in, e.newSym("alloc", a.Name(), a.Type(), c, a, a))
		}
		b := in.Block()
		if e.flow(c.fn).loops[b] == nil {
			return
		}
		if _, isPhi := in.(*ssa.Phi); isPhi {
			return
		}
		for _, y := range b.Instrs {
			if _, isPhi := y.(*ssa.Phi); !isPhi {
				if y != in {
					return
				}
				break
			}
		}
		for _, q := range x.prefixes(s, c, b) {
			x.set(s, "pre", q.list, q.n)
		}
		for _, q := range x.rests(s, c, b) {
			x.set(s, "rest", q.list, q.n)
		}
	}
	in0, back0, out0 := e.H.LoopIn, e.H.LoopBack, e.H.LoopOut
	e.H.LoopIn = func(s *State, c *Ctx, h *ssa.BasicBlock) {
		x.checkPrefixes(s, c, h)
		in0(s, c, h)
		// what differs when comments are written is kept apart, but not elsewhere
		e.LCap = 100
		if !x.overTexts(s, c, h) {
			e.LCap = 1
			x.settle(s)
		}
	}
	e.H.LoopBack = func(s *State, c *Ctx, h *ssa.BasicBlock) {
		x.checkPrefixes(s, c, h)
		back0(s, c, h)
	}
	e.H.LoopOut = func(s *State, c *Ctx, h *ssa.BasicBlock) {
		for a, pos := range s.lits {
			if pos && a.Op == "pre" && e.implied(s, tt.lt(a.A[1], tt.length(a.A[0])), false) {
				x.set(s, "all", a.A[0])
			}
			if pos && a.Op == "rest" && e.zeroLen(s, a.A[1]) {
				x.set(s, "all", a.A[0])
			}
		}
		for a, pos := range s.lits {
			if !pos {
				continue
			}
			if a.Op == "all" && a.A[0].Op == "slice" && x.allOf(s, a.A[0].A[0]) {
				x.set(s, "all", a.A[0].A[0])
			}
			if a.Op == "rest" && x.allOf(s, a.A[1]) {
				x.set(s, "all", a.A[0])
			}
		}
		out0(s, c, h)
	}
	e.H.Return = func(s *State, c *Ctx, in ssa.Instruction, res []*Term) {
		if c.fn != x.f || c.parent != nil {
			return
		}
		if s.gs["unflushed"] != "" || s.gs["pending"] == "1" {
			x.fail("flushed", p.Fn(x.f), "what is collected may not be written to the writer; %s", e.path(s))
		}
		if x.lines {
			if s.gs["line"] != "" {
				x.fail("line", p.Fn(x.f), "the last line (%q) is not finished; %s", s.gs["line"], e.path(s))
			}
			return
		}
		for f, kind := range map[string]string{"Accounts": "Account", "Currencies": "Currency", "Transactions": "Transaction", "Prices": "Price"} {
			if !x.allOf(s, e.fld(s, x.led, f)) {
				w := x.why[kind]
				if w == "" {
					w = "they are not all gone through"
				}
				x.fail("complete", f, "Export may return without having written all of Ledger.%s completely: %s", f, w)
			}
		}
	}
	return p.runDecided(r, "decided", e, x.f, newState(), args)
}

func (x *exporting) bytesText(t *Term) *Term {
	for t.Op == "conv" || t.Op == "convert" || t.Op == "bytes" {
		t = t.A[0]
	}
	return t
}

func (x *exporting) charText(t *Term) *Term {
	if n, ok := t.intVal(); ok {
		return x.str(string(rune(n)))
	}
	return x.bytesText(t)
}

func (p *Prog) exportFn(r *Report) *ssa.Function {
	lp := p.PkgByPath("backend/ledger")
	if lp == nil {
		r.Bad("found", "backend/ledger", "-", "package not found")
		return nil
	}
	f := lp.Func("Export")
	if f == nil {
		r.Bad("found", "Export", "-", "function not found")
	}
	return f
}

func (p *Prog) exported(r *Report, lines bool) *exporting {
	f := p.exportFn(r)
	if f == nil {
		return nil
	}
	x := &exporting{p: p, r: r, f: f, lines: lines, bad: map[string]bool{}, layouts: map[string]bool{}}
	if lines {
		x.readerSide()
	}
	for n := 0; ; n++ {
		if n > 60 {
			r.Bad("decided", p.Fn(f), p.Pos(f.Pos()), "what holds in the loops is not found")
			return nil
		}
		if !x.once() {
			return nil
		}
		if lines || !x.more {
			r.Counts["analyses until nothing changes"] = n + 1
			break
		}
	}
	r.Counts["pieces of text written"] = x.npiece
	return x
}

func (x *exporting) report() {
	var ks []string
	for k := range x.viol {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		i := strings.IndexByte(k, '|')
		x.r.Bad(k[:i], k[i+1:], x.p.Pos(x.f.Pos()), "%s", x.viol[k])
	}
}

func checkP21(p *Prog, r *Report) {
	x := p.exported(r, false)
	if x == nil {
		return
	}
	x.report()
	for _, k := range []string{"Accounts", "Currencies", "Transactions", "Prices"} {
		if x.viol["complete|"+k] == "" {
			r.OK("complete", k, p.Pos(x.f.Pos()))
		}
	}
	r.Expect("complete", 4)
	for k, n := range x.ndone {
		r.Counts["tests of "+k] = n
	}
}

// readerSide finds what the reader of journals accepts.
func (x *exporting) readerSide() {
	p, r := x.p, x.r
	lp := p.PkgByPath("backend/ledger")
	have := map[string]bool{}
	var roots, dated []*ssa.Function
	for _, f := range p.Funcs {
		if f.Pkg == lp && (f.Name() == "Open" || f.Name() == "init") {
			roots = append(roots, f)
		}
	}
	if f := lp.Func("init"); f != nil {
		roots = append(roots, f)
	}
	// the constants of a function, but for the layouts
	initial := map[string]bool{} // layouts in the variables of the package
	consts := func(f *ssa.Function, have map[string]bool) {
		layouts := x.layouts
		if f.Name() == "init" && f.Signature.Recv() == nil {
			layouts = initial
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					k, ok := (*op).(*ssa.Const)
					if !ok || k.Value == nil {
						continue
					}
					switch k.Value.Kind() {
					case constant.String:
						s := constant.StringVal(k.Value)
						if strings.Contains(s, "2006") {
							layouts[s] = true
							continue
						}
						have[s] = true
					case constant.Int:
						if n, ok := constant.Int64Val(k.Value); ok && n > 31 && n < 127 {
							if bt, isB := k.Type().Underlying().(*types.Basic); isB && (bt.Kind() == types.Uint8 || bt.Kind() == types.Int32) {
								have[string(rune(n))] = true
							}
						}
					}
				}
			}
		}
	}
	writes := p.reach(x.f)
	for f := range p.reach(roots...) {
		if f.Pkg != lp || writes[f] {
			continue
		}
		consts(f, have)
		isDate := f.Name() == "init" && f.Signature.Recv() == nil
		if res := f.Signature.Results(); res.Len() > 0 && isNamedType(res.At(0).Type(), "time", "Time") {
			isDate = true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && calleeName(ci.Common()) == "time.Parse" {
					isDate = true
				}
			}
		}
		if isDate {
			dated = append(dated, f)
		}
	}
	x.replaced = map[string]bool{}
	for f := range p.reach(dated...) {
		if f.Pkg == lp && !writes[f] {
			consts(f, x.replaced)
		}
	}
	// only those to the second count
	for _, ls := range []map[string]bool{x.layouts, initial} {
		for l := range ls {
			if !strings.Contains(l, "05") || !strings.Contains(l, "15") {
				delete(ls, l)
			}
		}
	}
	if len(x.layouts) == 0 {
		x.layouts = initial
	}
	for _, w := range []string{"account", "commodity", "P", ";", "  ", "@@", "=", "code", "isin", "date"} {
		r.Add("reader", fmt.Sprintf("%q", w), "-", have[w], "the journal reader does not know %q, which Export writes", w)
	}
	r.Expect("reader", 10)
}

func checkP20(p *Prog, r *Report) {
	x := p.exported(r, true)
	if x == nil {
		return
	}
	x.report()
	for _, k := range lineRx[2:] {
		if k.kind == "comments" {
			continue
		}
		if n := x.nline[k.kind]; n > 0 {
			r.OK("line", k.kind, p.Pos(x.f.Pos()))
		} else if k.kind != "comment" {
			r.Bad("line", k.kind, p.Pos(x.f.Pos()), "Export writes no line of this kind")
		}
	}
	if len(x.viol) == 0 {
		r.OK("attached", "comments", p.Pos(x.f.Pos()))
	}
}
