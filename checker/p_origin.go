package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P35", "other", checkP35)
}

// ---- P35: where the data in a ledger comes from ----
//
// The origin of a value is a part of the source: the text of a line, cut at
// markers ("<;" means what is before a ';', "> " what is after a space), a field
// of a line split at a separator ("#4"), or a column of the database.

type origin struct {
	src string
	ops []string
}

func (o origin) key() string { return o.src + "|" + strings.Join(o.ops, "\x00") }
func (o origin) String() string {
	l := []string{}
	for _, p := range o.ops {
		l = append(l, fmt.Sprintf("%q", p))
	}
	return o.src + "[" + strings.Join(l, " ") + "]"
}

type origins map[string]origin

func (a origins) add(b origins) {
	for k, o := range b {
		a[k] = o
	}
}

func (a origins) with(op string) origins {
	r := origins{}
	for _, o := range a {
		n := origin{o.src, append(append([]string{}, o.ops...), op)}
		sort.Strings(n.ops)
		if len(n.ops) > 12 {
			n = origin{o.src, []string{"…"}}
		}
		r[n.key()] = n
	}
	return r
}

func one(src string) origins {
	o := origin{src: src}
	return origins{o.key(): o}
}

const (
	negRight = "negated after a '-'"
	negWrong = "negated without a '-'"
)

func negated(ok bool, at ssa.Instruction) origins {
	if ok {
		return one(negRight)
	}
	return one(negWrong)
}

// minusTest: is cond true (yes) or false (!yes) exactly if a text begins with '-'?
func minusTest(cond ssa.Value, yes bool) bool {
	switch x := cond.(type) {
	case *ssa.BinOp:
		if ph, ok := x.X.(*ssa.Phi); ok && isInt(ph.Type()) {
			if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil && signTest(ph, x.Op, c, yes) {
				return true
			}
		}
		if x.Op != token.EQL && x.Op != token.NEQ || (x.Op == token.EQL) != yes {
			return false
		}
		for _, y := range []ssa.Value{x.X, x.Y} {
			if c, ok := y.(*ssa.Const); ok && c.Value != nil {
				if c.Value.Kind() == constant.String && constant.StringVal(c.Value) == "-" {
					return true
				}
				if c.Value.Kind() == constant.Int {
					n, ok := constant.Int64Val(c.Value)
					return ok && n == '-'
				}
			}
		}
	case *ssa.UnOp:
		return x.Op == token.NOT && minusTest(x.X, !yes)
	case *ssa.Call:
		if n := calleeName(&x.Call); n == "strings.HasPrefix" && yes {
			c, ok := x.Call.Args[1].(*ssa.Const)
			return ok && c.Value != nil && constant.StringVal(c.Value) == "-"
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok && calleeName(&c.Call) == "strings.CutPrefix" && yes && x.Index == 1 {
			k, ok := c.Call.Args[1].(*ssa.Const)
			return ok && k.Value != nil && constant.StringVal(k.Value) == "-"
		}
	case *ssa.Phi:
		// a variable that is only set where there is one
		n := 0
		for i, e := range x.Edges {
			c, ok := e.(*ssa.Const)
			if !ok {
				if !minusTest(e, yes) {
					return false
				}
				n++
				continue
			}
			if c.Value == nil || c.Value.Kind() != constant.Bool {
				return false
			}
			if constant.BoolVal(c.Value) == yes {
				if !edgeGuarded(x.Block().Preds[i], x.Block()) {
					return false
				}
				n++
			}
		}
		return n > 0
	}
	return false
}

// signTest: does the variable only compare like this where it was set after a '-'?
func signTest(ph *ssa.Phi, op token.Token, c *ssa.Const, yes bool) bool {
	n := 0
	for i, e := range ph.Edges {
		k, ok := e.(*ssa.Const)
		if !ok || k.Value == nil {
			return false
		}
		if constant.Compare(k.Value, op, c.Value) == yes {
			if !edgeGuarded(ph.Block().Preds[i], ph.Block()) {
				return false
			}
			n++
		}
	}
	return n > 0
}

// edgeGuarded: is the edge only taken if a text begins with '-'?
func edgeGuarded(from, to *ssa.BasicBlock) bool {
	if br, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok && from.Succs[0] != from.Succs[1] {
		if minusTest(br.Cond, from.Succs[0] == to) {
			return true
		}
	}
	return minusGuarded(from)
}

func minusGuarded(b *ssa.BasicBlock) bool {
	for ; b != nil; b = b.Idom() {
		if len(b.Preds) == 1 && b.Idom() == b.Preds[0] {
			p := b.Preds[0]
			if br, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] && minusTest(br.Cond, p.Succs[0] == b) {
				return true
			}
		}
	}
	return false
}

// frame is a function as it is called from one place.
type frame struct {
	f    *ssa.Function
	call *ssa.CallCommon
	up   *frame
	mc   *frame // where a closure was made
	d    int
}

type frameKey struct {
	f    *ssa.Function
	call *ssa.CallCommon
	up   *frame
}

type sourcing struct {
	p      *Prog
	frames map[frameKey]*frame
	memo   map[valKey]origins
	busy   map[valKey]bool
	cut    int // how many values were left out because they depend on themselves
	sinks  map[string]origins
	where  map[string]ssa.Instruction
	signs  map[string]ssa.Instruction
	n      int
}

type valKey struct {
	v  ssa.Value
	fr *frame
	x  string
}

func (z *sourcing) enter(f *ssa.Function, call *ssa.CallCommon, up *frame) *frame {
	for u := up; u != nil; u = u.up {
		if u.f == f {
			return nil // it calls itself
		}
	}
	if up != nil && up.d > 10 || len(f.Blocks) == 0 || !z.p.isMod[f] {
		return nil
	}
	k := frameKey{f, call, up}
	if fr := z.frames[k]; fr != nil {
		return fr
	}
	fr := &frame{f: f, call: call, up: up}
	if up != nil {
		fr.d = up.d + 1
		for u := up; u != nil; u = u.up {
			if u.f == f.Parent() {
				fr.mc = u
				break
			}
		}
	}
	z.frames[k] = fr
	return fr
}

func callee(c *ssa.CallCommon) *ssa.Function {
	if f := c.StaticCallee(); f != nil {
		return f
	}
	if c.IsInvoke() {
		return nil
	}
	return funcIn(c.Value, 0)
}

// up gives the argument a parameter stands for.
func (fr *frame) arg(v *ssa.Parameter) (ssa.Value, *frame) {
	if fr == nil || fr.call == nil || fr.up == nil {
		return nil, nil
	}
	for i, pa := range fr.f.Params {
		if pa == v && i < len(fr.call.Args) {
			return fr.call.Args[i], fr.up
		}
	}
	return nil, nil
}

// returns calls do with what f returns as its i-th result.
func returns(f *ssa.Function, i int, do func(v ssa.Value)) {
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
			do(r.Results[i])
		}
	}
}

// model: t is one of the types a ledger is made of.
func (z *sourcing) model(t types.Type) string {
	n, ok := deref(t).(*types.Named)
	if !ok || n.Obj().Pkg() != z.p.Root.Pkg {
		return ""
	}
	switch n.Obj().Name() {
	case "Account", "Transaction", "Split", "Price", "Currency", "Ledger", "Value":
		return n.Obj().Name()
	}
	return ""
}

// inlined: the results of this type are followed into the function; others are
// taken to be made of all texts it is given.
func (z *sourcing) inlined(t types.Type) bool {
	if isStr(t) || isInt(t) || isBool(t) {
		return true
	}
	d := deref(t)
	if isTime(d) || z.model(d) != "" {
		return false
	}
	switch d.Underlying().(type) {
	case *types.Struct, *types.Slice, *types.Map:
		return true
	}
	return false
}

// of gives the origins of v.
func (z *sourcing) of(v ssa.Value, fr *frame) origins { return z.at(v, nil, fr) }

// at gives the origins of the part of v which path (of field names) leads to.
func (z *sourcing) at(v ssa.Value, path []string, fr *frame) origins {
	k := valKey{v, fr, strings.Join(path, ".")}
	if o, ok := z.memo[k]; ok {
		return o
	}
	if z.busy[k] {
		z.cut++
		return nil
	}
	z.busy[k] = true
	cut := z.cut
	o := z.compute(v, path, fr)
	delete(z.busy, k)
	if z.cut == cut || len(z.busy) == 0 {
		z.memo[k] = o
	}
	return o
}

func (z *sourcing) compute(v ssa.Value, path []string, fr *frame) origins {
	out := origins{}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, *ssa.MakeClosure:
	case *ssa.Parameter:
		if a, up := fr.arg(x); a != nil {
			return z.at(a, path, up)
		}
	case *ssa.FreeVar:
		if b := bound(x); b != nil && fr != nil && fr.mc != nil {
			return z.at(b, path, fr.mc)
		}
	case *ssa.Phi:
		for i, e := range x.Edges {
			out.add(z.at(e, path, fr))
			if c, ok := e.(*ssa.Const); ok && isInt(x.Type()) && c.Value != nil && constant.Sign(c.Value) < 0 {
				out.add(negated(edgeGuarded(x.Block().Preds[i], x.Block()), x))
			}
		}
	case *ssa.MakeInterface:
		return z.at(x.X, path, fr)
	case *ssa.ChangeInterface:
		return z.at(x.X, path, fr)
	case *ssa.ChangeType:
		return z.at(x.X, path, fr)
	case *ssa.Convert:
		return z.at(x.X, path, fr)
	case *ssa.TypeAssert:
		return z.at(x.X, path, fr)
	case *ssa.Alloc:
		// a pointer to something that is not part of the ledger: what is there
		if z.model(x.Type()) == "" {
			return z.contents(x, path, fr)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return z.load(x.X, path, fr)
		}
		out.add(z.at(x.X, nil, fr))
		if x.Op == token.SUB {
			out.add(negated(minusGuarded(x.Block()), x))
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.MUL, token.QUO:
			for _, y := range []ssa.Value{x.X, x.Y} {
				if c, ok := y.(*ssa.Const); ok && c.Value != nil && constant.Sign(c.Value) < 0 {
					out.add(negated(minusGuarded(x.Block()), x))
				}
			}
		case token.SUB:
			if c, ok := x.X.(*ssa.Const); ok && c.Value != nil && constant.Sign(c.Value) == 0 {
				out.add(negated(minusGuarded(x.Block()), x))
			}
		}
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return out
		}
		out.add(z.at(x.X, nil, fr))
		out.add(z.at(x.Y, nil, fr))
		if x.Op == token.ADD && isStr(x.Type()) {
			return out.with("+")
		}
	case *ssa.Field:
		return z.at(x.X, append([]string{structOf(x.X.Type()).Field(x.Field).Name()}, path...), fr)
	case *ssa.Lookup:
		if isStr(x.X.Type()) {
			return z.at(x.X, nil, fr)
		}
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			if _, list := mt.Elem().Underlying().(*types.Slice); list {
				return out
			}
		}
		return z.at(x.Index, nil, fr)
	case *ssa.Index:
		return z.at(x.X, nil, fr)
	case *ssa.Range:
		return z.at(x.X, nil, fr)
	case *ssa.Next:
		return z.at(x.Iter, nil, fr)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return z.call(&c.Call, x.Index, x.Type(), path, fr)
		}
		if l, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			return z.at(l, path, fr)
		}
		return z.at(x.Tuple, path, fr)
	case *ssa.Call:
		return z.call(&x.Call, 0, x.Type(), path, fr)
	case *ssa.Slice:
		if !isStr(x.Type()) {
			return z.at(x.X, path, fr)
		}
		return z.slice(x, fr)
	}
	return out
}

var splitters = map[string]int{"strings.Split": 1, "strings.SplitN": 1, "strings.SplitAfter": 2, "strings.Fields": 3, "strings.SplitAfterN": 2}

// load gives the origins of what is at address addr.
func (z *sourcing) load(addr ssa.Value, path []string, fr *frame) origins {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		return z.load(a.X, append([]string{fieldName(a)}, path...), fr)
	case *ssa.IndexAddr:
		return z.element(a.X, a.Index, path, fr)
	case *ssa.Alloc:
		return z.contents(a, path, fr)
	case *ssa.Global:
		return nil
	}
	out := origins{}
	cells, _ := z.cells(addr, fr, 0)
	if len(cells) == 0 {
		// an object made earlier: what it has is of another line
		if n := z.model(addr.Type()); len(path) > 0 && (n == "Transaction" || n == "Split" || n == "Price" || n == "Account") {
			return one("the " + n + "." + path[0] + " of another object")
		}
		return out
	}
	for _, c := range cells {
		out.add(z.contents(c.v.(*ssa.Alloc), path, c.fr))
	}
	return out
}

type placed struct {
	v  ssa.Value
	fr *frame
}

// cells: the variables an address can be the address of.
func (z *sourcing) cells(v ssa.Value, fr *frame, d int) (out []placed, ok bool) {
	if d > 12 {
		return nil, false
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		return []placed{{x, fr}}, true
	case *ssa.Parameter:
		if a, up := fr.arg(x); a != nil {
			return z.cells(a, up, d+1)
		}
	case *ssa.FreeVar:
		if b := bound(x); b != nil && fr != nil && fr.mc != nil {
			return z.cells(b, fr.mc, d+1)
		}
	case *ssa.ChangeType:
		return z.cells(x.X, fr, d+1)
	case *ssa.TypeAssert:
		return z.cells(x.X, fr, d+1)
	case *ssa.MakeInterface:
		return z.cells(x.X, fr, d+1)
	case *ssa.Phi:
		ok = true
		for _, e := range x.Edges {
			c, k := z.cells(e, fr, d+1)
			out, ok = append(out, c...), ok && k
		}
		return out, ok
	case *ssa.UnOp:
		// a pointer kept in a local variable
		if al, is := x.X.(*ssa.Alloc); is {
			ok = true
			for _, s := range z.stores(al, fr) {
				if len(s.path) == 0 {
					c, k := z.cells(s.v, s.fr, d+1)
					out, ok = append(out, c...), ok && k
				}
			}
			return out, ok
		}
	case *ssa.Extract:
		if c, is := x.Tuple.(*ssa.Call); is {
			return z.resultCells(&c.Call, x.Index, fr, d)
		}
		if ta, is := x.Tuple.(*ssa.TypeAssert); is {
			return z.cells(ta.X, fr, d+1)
		}
	case *ssa.Call:
		return z.resultCells(&x.Call, 0, fr, d)
	case *ssa.Const:
		return nil, true
	}
	return nil, false
}

func (z *sourcing) resultCells(c *ssa.CallCommon, i int, fr *frame, d int) (out []placed, ok bool) {
	f := callee(c)
	if f == nil {
		return nil, false
	}
	in := z.enter(f, c, fr)
	if in == nil {
		return nil, false
	}
	ok = true
	returns(f, i, func(v ssa.Value) {
		c, k := z.cells(v, in, d+1)
		out, ok = append(out, c...), ok && k
	})
	return out, ok
}

type stored struct {
	v    ssa.Value
	fr   *frame
	path []string
	col  string // what Scan puts there
	in   ssa.Instruction
}

// stores: everything that is put into a variable or its fields.
func (z *sourcing) stores(root ssa.Value, fr *frame) (out []stored) {
	seen := map[placed]bool{}
	var walk func(v ssa.Value, path []string, fr *frame, d int)
	walk = func(v ssa.Value, path []string, fr *frame, d int) {
		if seen[placed{v, fr}] || v.Referrers() == nil || d > 8 {
			return
		}
		seen[placed{v, fr}] = true
		for _, ref := range *v.Referrers() {
			switch y := ref.(type) {
			case *ssa.Store:
				if y.Addr == v {
					out = append(out, stored{v: y.Val, fr: fr, path: path, in: y})
				}
			case *ssa.FieldAddr:
				if y.X == v {
					walk(y, append(append([]string{}, path...), fieldName(y)), fr, d)
				}
			case *ssa.IndexAddr:
				if y.X == v {
					walk(y, path, fr, d)
				}
			case *ssa.MakeInterface:
				if col, ok := z.column(y, fr); ok {
					out = append(out, stored{path: path, col: col, in: y})
				}
			case *ssa.Call:
				if f := callee(&y.Call); f != nil {
					for i, a := range y.Call.Args {
						if a == v && i < len(f.Params) {
							if in := z.enter(f, &y.Call, fr); in != nil {
								walk(f.Params[i], path, in, d+1)
							}
						}
					}
				}
			case *ssa.MakeClosure:
				for i, b := range y.Bindings {
					if b != v {
						continue
					}
					f := y.Fn.(*ssa.Function)
					in := z.frames[frameKey{f, nil, fr}]
					if in == nil {
						in = &frame{f: f, up: fr, mc: fr}
						z.frames[frameKey{f, nil, fr}] = in
					}
					walk(f.FreeVars[i], path, in, d+1)
				}
			}
		}
	}
	walk(root, nil, fr, 0)
	return out
}

// contents: the origins of what a variable (or the part of it at path) holds.
func (z *sourcing) contents(al *ssa.Alloc, path []string, fr *frame) origins {
	// a variable which belongs to a function further up
	for u := fr; u != nil; u = u.up {
		if u.f == al.Parent() {
			fr = u
			break
		}
	}
	out := origins{}
	for _, s := range z.stores(al, fr) {
		n := len(s.path)
		if n > len(path) {
			n = len(path)
		}
		if strings.Join(s.path[:n], ".") != strings.Join(path[:n], ".") {
			continue
		}
		if s.col != "" {
			out.add(one("column " + s.col))
			continue
		}
		out.add(z.at(s.v, path[n:], s.fr))
	}
	return out
}

// element: the origins of an element of a list.
func (z *sourcing) element(list, index ssa.Value, path []string, fr *frame) origins {
	if c, f := z.madeBy(list, fr, 0); c != nil {
		name := calleeName(c)
		if kind := splitters[name]; kind != 0 {
			k := "?"
			if ic, ok := index.(*ssa.Const); ok && ic.Value != nil {
				k = ic.Value.ExactString()
			}
			o := z.of(c.Args[0], f)
			if kind == 3 {
				return cuts(o, " ", k)
			}
			sep, ok := z.text(c.Args[1], f)
			if !ok || kind == 2 {
				return o.with("split")
			}
			if sep == ":" && name == "strings.Split" {
				return o.with("#" + k)
			}
			if n := "2"; name == "strings.SplitN" {
				if nc, ok := c.Args[2].(*ssa.Const); ok {
					n = nc.Value.ExactString()
				}
				if n == "2" {
					if k == "1" {
						return o.with(">" + sep)
					}
					return cuts(o, sep, k)
				}
				if sep == ":" {
					return o.with("#" + k + "/" + n)
				}
			}
			return cuts(o, sep, k)
		}
	}
	return z.at(list, path, fr)
}

// cuts: the k-th part between separators.
func cuts(o origins, sep, k string) origins {
	n := 0
	if _, err := fmt.Sscanf(k, "%d", &n); err != nil || n > 6 {
		return o.with("split")
	}
	for i := 0; i < n; i++ {
		o = o.with(">" + sep)
	}
	return o.with("<" + sep)
}

// madeBy: the call whose result v is.
func (z *sourcing) madeBy(v ssa.Value, fr *frame, d int) (*ssa.CallCommon, *frame) {
	if d > 8 {
		return nil, nil
	}
	switch x := v.(type) {
	case *ssa.Call:
		if f := callee(&x.Call); f != nil && z.p.isMod[f] {
			in := z.enter(f, &x.Call, fr)
			if in == nil {
				return nil, nil
			}
			var rc *ssa.CallCommon
			var rf *frame
			n := 0
			returns(f, 0, func(r ssa.Value) {
				if c, ff := z.madeBy(r, in, d+1); c != nil {
					rc, rf = c, ff
					n++
				}
			})
			if n == 1 {
				return rc, rf
			}
			return nil, nil
		}
		return &x.Call, fr
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return &c.Call, fr
		}
	case *ssa.Parameter:
		if a, up := fr.arg(x); a != nil {
			return z.madeBy(a, up, d+1)
		}
	case *ssa.FreeVar:
		if b := bound(x); b != nil && fr.mc != nil {
			return z.madeBy(b, fr.mc, d+1)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if al, ok := x.X.(*ssa.Alloc); ok {
				st := z.stores(al, fr)
				if len(st) == 1 && st[0].v != nil {
					return z.madeBy(st[0].v, st[0].fr, d+1)
				}
			}
			if fv, ok := x.X.(*ssa.FreeVar); ok && fr != nil && fr.mc != nil {
				if al, ok := bound(fv).(*ssa.Alloc); ok {
					st := z.stores(al, fr.mc)
					if len(st) == 1 && st[0].v != nil {
						return z.madeBy(st[0].v, st[0].fr, d+1)
					}
				}
			}
		}
	}
	return nil, nil
}

// text: the constant text (or character) v is.
func (z *sourcing) text(v ssa.Value, fr *frame) (string, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return "", false
		}
		if x.Value.Kind() == constant.String {
			return constant.StringVal(x.Value), true
		}
		if n, ok := constant.Int64Val(constant.ToInt(x.Value)); ok {
			return string(rune(n)), true
		}
	case *ssa.Parameter:
		if a, up := fr.arg(x); a != nil {
			return z.text(a, up)
		}
	case *ssa.Convert:
		return z.text(x.X, fr)
	case *ssa.ChangeType:
		return z.text(x.X, fr)
	case *ssa.FreeVar, *ssa.UnOp:
		if ss, ok := z.p.constStrings(v, 0); ok && len(ss) == 1 {
			return ss[0], true
		}
	}
	return "", false
}

var trims = map[string]bool{"strings.TrimSpace": true, "strings.Clone": true, "strings.ToValidUTF8": true}
var finders = map[string]bool{"strings.Index": true, "strings.IndexByte": true, "strings.IndexRune": true, "strings.LastIndex": true, "strings.LastIndexByte": true, "strings.IndexAny": true}

// call: the origins of a result of a call.
func (z *sourcing) call(c *ssa.CallCommon, i int, t types.Type, path []string, fr *frame) origins {
	out := origins{}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" || b.Name() == "min" || b.Name() == "max" {
			for _, a := range c.Args {
				out.add(z.at(a, path, fr))
			}
		}
		return out
	}
	name := calleeName(c)
	f := callee(c)
	if f != nil && z.p.isMod[f] && z.inlined(t) {
		if in := z.enter(f, c, fr); in != nil {
			returns(f, i, func(v ssa.Value) { out.add(z.at(v, path, in)) })
			return out
		}
		z.cut++
		return out
	}
	switch {
	case strings.HasSuffix(name, "bufio.Scanner).Text") || strings.HasSuffix(name, "bufio.Scanner).Bytes") || strings.HasSuffix(name, "bufio.Reader).ReadString"):
		return one("line")
	case finders[name] || name == "strings.Contains" || name == "strings.HasPrefix" || name == "strings.HasSuffix":
		return out
	case trims[name]:
		return z.of(c.Args[0], fr)
	case name == "strings.Trim" || name == "strings.TrimLeft" || name == "strings.TrimRight":
		if s, ok := z.text(c.Args[1], fr); ok && strings.TrimSpace(s) == "" {
			return z.of(c.Args[0], fr)
		}
		return z.of(c.Args[0], fr).with(name)
	case name == "strings.TrimPrefix" || name == "strings.TrimSuffix":
		if s, ok := z.text(c.Args[1], fr); ok && (s == "+" || s == "-" || strings.TrimSpace(s) == "") {
			return z.of(c.Args[0], fr)
		}
		return z.of(c.Args[0], fr).with(name)
	case name == "strings.Cut":
		sep, ok := z.text(c.Args[1], fr)
		o := z.of(c.Args[0], fr)
		switch {
		case i == 2:
			return out
		case !ok:
			return o.with("cut")
		case i == 0:
			return o.with("<" + sep)
		}
		return o.with(">" + sep)
	case strings.HasSuffix(name, "regexp.Regexp).FindString"):
		return z.of(c.Args[1], fr).with("found")
	}
	if isBool(t) || t.String() == "error" {
		return out
	}
	for _, a := range c.Args {
		if _, isPtr := a.Type().(*types.Pointer); isPtr && z.model(a.Type()) != "" {
			continue
		}
		out.add(z.of(a, fr))
	}
	if c.IsInvoke() {
		out.add(z.of(c.Value, fr))
	}
	if isStr(t) {
		return out.with(name)
	}
	return out
}

// slice: part of a text.
func (z *sourcing) slice(x *ssa.Slice, fr *frame) origins {
	out := origins{}
	base := z.of(x.X, fr)
	lo, hi := []bnd{{}}, []bnd{{end: true}}
	if x.Low != nil {
		lo = z.relative(z.bounds(x.Low, fr, 0, map[ssa.Value]bool{}), x.X, fr)
	}
	if x.High != nil {
		hi = z.relative(z.bounds(x.High, fr, 0, map[ssa.Value]bool{}), x.X, fr)
	}
	for _, l := range lo {
		for _, h := range hi {
			if !h.end && !h.odd && len(h.marks) == 0 && h.c == 0 {
				continue // nothing
			}
			o := base
			if op := l.low(); op != "" {
				o = o.with(op)
			}
			if op := h.high(); op != "" {
				o = o.with(op)
			}
			out.add(o)
		}
	}
	return out
}

// bnd is where a text is cut: c bytes after the markers found.
type bnd struct {
	c     int64
	marks []mark
	end   bool // the length of the text
	odd   bool // something else
}

type mark struct {
	m    string
	of   placed // the text it was looked for in
	base int    // how many markers that text was cut after
}

// root: the value a parameter stands for.
func (z *sourcing) root(v ssa.Value, fr *frame) placed {
	for d := 0; d < 12; d++ {
		switch x := v.(type) {
		case *ssa.Parameter:
			if a, up := fr.arg(x); a != nil {
				v, fr = a, up
				continue
			}
		case *ssa.ChangeType:
			v = x.X
			continue
		}
		break
	}
	return placed{v, fr}
}

// relative: the places in text b can be, as far as they make sense.
func (z *sourcing) relative(l []bnd, text ssa.Value, fr *frame) (out []bnd) {
	this := z.root(text, fr)
	seen := map[string]bool{}
	for _, b := range l {
		b.marks = append([]mark{}, b.marks...)
		ok := true
		for i := range b.marks {
			m := &b.marks[i]
			if m.of == this {
				continue
			}
			if sl, is := m.of.v.(*ssa.Slice); is && sl.Low != nil && z.root(sl.X, m.of.fr) == this {
				for _, x := range z.bounds(sl.Low, m.of.fr, 0, map[ssa.Value]bool{}) {
					if len(x.marks) > m.base {
						m.base = len(x.marks)
					}
				}
				if m.base >= len(b.marks) {
					ok = false // the marker it is behind was not found
				}
			}
		}
		if !ok {
			continue
		}
		if k := fmt.Sprint(b.c, b.end, b.odd, b.low(), b.high()); !seen[k] {
			seen[k] = true
			out = append(out, b)
		}
	}
	return out
}

// last: the marker found in what follows all the others.
func (b bnd) last() (m string, all int64, ok bool) {
	at := -1
	for i, x := range b.marks {
		all += int64(len(x.m))
		if at < 0 || x.base > b.marks[at].base {
			at = i
		}
	}
	for i, x := range b.marks {
		if i != at && x.base == b.marks[at].base {
			return "", all, false
		}
	}
	if b.marks[at].base != len(b.marks)-1 {
		return "", all, false
	}
	return b.marks[at].m, all, true
}

func (b bnd) low() string {
	switch {
	case b.odd || b.end:
		return ">?"
	case len(b.marks) == 0:
		if b.c == 0 {
			return ""
		}
		return fmt.Sprintf(">+%d", b.c)
	}
	m, all, ok := b.last()
	if blank := strings.TrimSpace(m) == ""; !ok || b.c != all && !(blank && b.c < all && b.c >= all-int64(len(m))) {
		return fmt.Sprintf(">%s at the wrong place", m)
	}
	return ">" + m
}

func (b bnd) high() string {
	switch {
	case b.odd:
		return "<?"
	case b.end:
		if b.c == 0 && len(b.marks) == 0 {
			return ""
		}
		return "<?"
	case len(b.marks) == 0:
		return fmt.Sprintf("<+%d", b.c)
	}
	m, all, ok := b.last()
	if !ok || b.c != all-int64(len(m)) {
		return fmt.Sprintf("<%s at the wrong place", m)
	}
	return "<" + m
}

// bounds: the places v can be.
func (z *sourcing) bounds(v ssa.Value, fr *frame, d int, seen map[ssa.Value]bool) []bnd {
	odd := []bnd{{odd: true}}
	if d > 20 {
		return odd
	}
	switch x := v.(type) {
	case *ssa.Const:
		if n, ok := constant.Int64Val(constant.ToInt(x.Value)); ok {
			return []bnd{{c: n}}
		}
	case *ssa.Convert:
		return z.bounds(x.X, fr, d+1, seen)
	case *ssa.Phi:
		if seen[x] {
			return nil
		}
		seen[x] = true
		var out []bnd
		for _, e := range x.Edges {
			out = append(out, z.bounds(e, fr, d+1, seen)...)
		}
		delete(seen, x)
		if len(out) > 200 {
			return odd
		}
		return out
	case *ssa.BinOp:
		if x.Op != token.ADD && x.Op != token.SUB {
			return odd
		}
		var out []bnd
		for _, a := range z.bounds(x.X, fr, d+1, seen) {
			for _, b := range z.bounds(x.Y, fr, d+1, seen) {
				if x.Op == token.SUB {
					if len(b.marks) > 0 || b.end || b.odd {
						return odd
					}
					b.c = -b.c
				}
				out = append(out, bnd{a.c + b.c, append(append([]mark{}, a.marks...), b.marks...), a.end || b.end, a.odd || b.odd})
			}
		}
		return out
	case *ssa.Parameter:
		if a, up := fr.arg(x); a != nil {
			return z.bounds(a, up, d+1, map[ssa.Value]bool{})
		}
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			if seen[x] {
				return nil
			}
			seen[x] = true
			var out []bnd
			for _, s := range z.stores(al, fr) {
				if s.v == nil || len(s.path) > 0 {
					return odd
				}
				out = append(out, z.bounds(s.v, s.fr, d+1, seen)...)
			}
			delete(seen, x)
			return out
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return z.boundsOf(&c.Call, x.Index, fr, d)
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if s, ok := z.text(x.Call.Args[0], fr); ok {
				return []bnd{{c: int64(len(s))}}
			}
			return []bnd{{end: true}}
		}
		if finders[calleeName(&x.Call)] {
			m, ok := z.text(x.Call.Args[1], fr)
			if !ok || m == "" {
				return odd
			}
			if strings.Contains(calleeName(&x.Call), "Last") {
				m = "…" + m
			}
			return []bnd{{marks: []mark{{m: m, of: z.root(x.Call.Args[0], fr)}}}}
		}
		return z.boundsOf(&x.Call, 0, fr, d)
	}
	return odd
}

func (z *sourcing) boundsOf(c *ssa.CallCommon, i int, fr *frame, d int) []bnd {
	f := callee(c)
	if f == nil {
		return []bnd{{odd: true}}
	}
	in := z.enter(f, c, fr)
	if in == nil {
		return []bnd{{odd: true}}
	}
	var out []bnd
	returns(f, i, func(v ssa.Value) { out = append(out, z.bounds(v, in, d+1, map[ssa.Value]bool{})...) })
	return out
}

var sqlIdent = regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_]*`)

// columns: what the columns of a SELECT are made of.
func selectedColumns(q string) (out []string, ok bool) {
	q = stripSQLStrings(q)
	re := regexp.MustCompile(`(?is)^\s*select\s+(.*)$`)
	m := re.FindStringSubmatch(q)
	if m == nil {
		return nil, false
	}
	depth, start := 0, 0
	text := m[1]
	var parts []string
	for i := 0; i < len(text); i++ {
		switch text[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ',':
			if depth == 0 {
				parts = append(parts, text[start:i])
				start = i + 1
			}
		}
		if depth == 0 && i+6 <= len(text) && strings.EqualFold(text[i:i+4], "from") && (i == 0 || isSpaceByte(text[i-1])) && isSpaceByte(text[i+4]) {
			parts = append(parts, text[start:i])
			start = -1
			break
		}
	}
	if start >= 0 {
		return nil, false
	}
	as := regexp.MustCompile(`(?is)\s+as\s+\S+\s*$`)
	cast := regexp.MustCompile(`::\s*[A-Za-z_0-9]+`)
	fn := regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_]*\s*\(`)
	qual := regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_]*\s*\.`)
	for _, c := range parts {
		c = strings.TrimSpace(c)
		if strings.Contains(c, "*") && !regexp.MustCompile(`[0-9a-z)]\s*\*`).MatchString(c) {
			return nil, false
		}
		c = as.ReplaceAllString(c, "")
		c = cast.ReplaceAllString(c, "")
		c = fn.ReplaceAllString(c, "(")
		c = qual.ReplaceAllString(c, "")
		out = append(out, strings.ToLower(strings.Join(sqlIdent.FindAllString(c, -1), "+")))
	}
	return out, true
}

func isSpaceByte(b byte) bool { return b == ' ' || b == '\t' || b == '\n' || b == '\r' }

// column: the column that Scan stores where y points to.
func (z *sourcing) column(y *ssa.MakeInterface, fr *frame) (string, bool) {
	for _, ref := range *y.Referrers() {
		st, ok := ref.(*ssa.Store)
		if !ok {
			continue
		}
		ia, ok := st.Addr.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		ic, ok := ia.Index.(*ssa.Const)
		if !ok {
			continue
		}
		k, _ := constant.Int64Val(ic.Value)
		for _, r2 := range *ia.X.Referrers() {
			sl, ok := r2.(*ssa.Slice)
			if !ok {
				continue
			}
			for _, r3 := range *sl.Referrers() {
				c, ok := r3.(*ssa.Call)
				if !ok || !strings.HasSuffix(calleeName(&c.Call), "sql.Rows).Scan") && !strings.HasSuffix(calleeName(&c.Call), "sql.Row).Scan") {
					continue
				}
				n := int64(0)
				if al, ok := ia.X.(*ssa.Alloc); ok {
					if at, ok := deref(al.Type()).Underlying().(*types.Array); ok {
						n = at.Len()
					}
				}
				cols, ok := z.selected(c.Call.Args[0], fr)
				switch {
				case !ok:
					return "unknown", true
				case int64(len(cols)) != n:
					return fmt.Sprintf("of %d (Scan wants %d)", len(cols), n), true
				}
				return cols[k], true
			}
		}
	}
	return "", false
}

// selected: the columns of the rows.
func (z *sourcing) selected(rows ssa.Value, fr *frame) ([]string, bool) {
	c, f := z.madeBy(rows, fr, 0)
	if c == nil {
		return nil, false
	}
	for _, a := range c.Args {
		if !isStr(a.Type()) {
			continue
		}
		if q, ok := z.text(a, f); ok {
			return selectedColumns(q)
		}
		if ss, ok := z.p.constStrings(a, 0); ok && len(ss) == 1 {
			return selectedColumns(ss[0])
		}
	}
	return nil, false
}

// ---- the places in a ledger ----

func (z *sourcing) sink(name string, o origins, in ssa.Instruction) {
	if z.sinks[name] == nil {
		z.sinks[name] = origins{}
		z.where[name] = in
	}
	z.n++
	z.sinks[name].add(o)
}

// visit follows the program from f.
func (z *sourcing) visit(fr *frame) {
	for _, b := range fr.f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				z.store(x, fr)
			case *ssa.MapUpdate:
				z.mapUpdate(x, fr)
			case *ssa.MakeInterface:
				if fa, ok := x.X.(*ssa.FieldAddr); ok {
					if n := z.model(fa.X.Type()); n != "" && n != "Value" {
						if col, ok := z.column(x, fr); ok {
							z.sink(n+"."+fieldName(fa), one("column "+col), x)
						}
					}
				}
			case ssa.CallInstruction:
				if f := callee(x.Common()); f != nil && z.p.isMod[f] && f.Pkg != nil && f.Pkg != z.p.Root {
					if n := z.enter(f, x.Common(), fr); n != nil {
						z.visit(n)
					}
				}
			}
		}
	}
}

func (z *sourcing) store(x *ssa.Store, fr *frame) {
	// the address: a field of an object of the ledger
	var path []string
	addr := x.Addr
	through := false
	for {
		if fa, ok := addr.(*ssa.FieldAddr); ok {
			n := z.model(fa.X.Type())
			path = append([]string{fieldName(fa)}, path...)
			if n != "" && n != "Value" {
				name := n + "." + path[0]
				switch {
				case through || len(path) > 0 && n != "Ledger":
					z.sink(name, z.of(x.Val, fr), x)
				case n == "Ledger":
					z.sink(name, z.of(x.Val, fr), x)
				}
				return
			}
			addr = fa.X
			continue
		}
		if ld, ok := addr.(*ssa.UnOp); ok && ld.Op == token.MUL && !through {
			if pt, ok := ld.Type().(*types.Pointer); ok && isTime(pt.Elem()) {
				addr, through = ld.X, true // *s.Time = …
				path = nil
				continue
			}
		}
		break
	}
	if len(path) == 1 && path[0] == "Amount" {
		z.sink("Value.Amount", z.of(x.Val, fr), x)
	}
	// a whole object
	if n := z.model(x.Val.Type()); n != "" && n != "Value" {
		if _, isPtr := x.Val.Type().(*types.Pointer); !isPtr {
			st := structOf(x.Val.Type())
			for i := 0; i < st.NumFields(); i++ {
				if o := z.at(x.Val, []string{st.Field(i).Name()}, fr); len(o) > 0 {
					z.sink(n+"."+st.Field(i).Name(), o, x)
				}
			}
		}
	}
}

func (z *sourcing) mapUpdate(x *ssa.MapUpdate, fr *frame) {
	m := x.Map
	if ld, ok := m.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if fa, ok := ld.X.(*ssa.FieldAddr); ok && z.model(fa.X.Type()) == "Ledger" {
			z.sink("Ledger."+fieldName(fa), z.of(x.Value, fr), x)
			return
		}
	}
	if mt, ok := m.Type().Underlying().(*types.Map); ok {
		if n := z.model(mt.Elem()); n == "Account" {
			z.sink("map of accounts", z.of(x.Key, fr), x)
			return
		}
		if pa, ok := m.(*ssa.Parameter); ok {
			if a, up := fr.arg(pa); a != nil {
				if ld, ok := a.(*ssa.UnOp); ok && ld.Op == token.MUL {
					if fa, ok := ld.X.(*ssa.FieldAddr); ok && z.model(fa.X.Type()) == "Ledger" {
						_ = up
						z.sink("Ledger."+fieldName(fa), z.of(x.Value, fr), x)
					}
				}
			}
		}
	}
}

// rule: the parts that may be stored somewhere, and those that have to be.
type placeRule struct {
	sink string
	src  string
	may  [][]string // each origin is within one of these
	must [][]string // each of these is within an origin
}

func within(a, b []string) bool {
	n := map[string]int{}
	for _, x := range b {
		n[x]++
	}
	for _, x := range a {
		if n[x]--; n[x] < 0 {
			return false
		}
	}
	return true
}

func (z *sourcing) check(r *Report, backend string, rules []placeRule) {
	for _, ru := range rules {
		got := z.sinks[ru.sink]
		cons := backend + ": " + ru.sink
		pos := "-"
		if in := z.where[ru.sink]; in != nil {
			pos = z.p.InstrPos(in)
		}
		var ks []string
		for k := range got {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		ok := true
		var say []string
		for _, k := range ks {
			o := got[k]
			if o.src == negRight || o.src == negWrong {
				continue
			}
			fits := o.src == ru.src
			if fits {
				fits = false
				for _, m := range ru.may {
					fits = fits || within(o.ops, m)
				}
			}
			if !fits {
				ok = false
				say = append(say, "it may come from "+o.String())
			}
		}
		for _, m := range ru.must {
			have := false
			for _, o := range got {
				have = have || o.src == ru.src && within(m, o.ops)
			}
			if !have {
				ok = false
				say = append(say, "it never comes from "+origin{ru.src, m}.String())
			}
		}
		r.Add("origin", cons, pos, ok, "%s: %s", ru.sink, strings.Join(say, "; "))
	}
}

// signs: an amount is negated exactly where its text has a minus sign.
func (z *sourcing) signed(r *Report, backend string, sinks ...string) {
	for _, n := range sinks {
		pos := "-"
		if in := z.where[n]; in != nil {
			pos = z.p.InstrPos(in)
		}
		got := z.sinks[n]
		_, right := got[one(negRight).any()]
		_, wrong := got[one(negWrong).any()]
		why := "no minus sign makes it negative"
		if wrong {
			why = "it is negated where its text does not have a minus sign"
		}
		r.Add("sign", backend+": "+n, pos, right && !wrong, "%s: %s", n, why)
	}
}

func (a origins) any() string {
	for k := range a {
		return k
	}
	return ""
}

func checkP35(p *Prog, r *Report) {
	r.Expl = "Provenance analysis (data flow through variables, fields, helper functions and results, separately for each chain of calls) from the texts and rows a backend reads to the fields of the ledger."
	run := func(suffix string, rules []placeRule) *sourcing {
		pkg := p.PkgByPath(suffix)
		if pkg == nil {
			r.Bad("origin", suffix, "-", "package not found")
			return &sourcing{p: p}
		}
		z := &sourcing{p: p, frames: map[frameKey]*frame{}, memo: map[valKey]origins{}, busy: map[valKey]bool{}, sinks: map[string]origins{}, where: map[string]ssa.Instruction{}}
		for _, f := range p.Implementers("Driver", "Open") {
			if f.Pkg == pkg {
				if fr := z.enter(f, nil, nil); fr != nil {
					z.visit(fr)
				}
			}
		}
		r.Counts["stores followed in "+suffix] = z.n
		r.Counts["call chains in "+suffix] = len(z.frames)
		z.check(r, suffix, rules)
		return z
	}
	s := func(l ...string) []string { return l }
	split := s("<;", ">  ", "<@@", "<@", "<=")
	z := run("backend/ledger", []placeRule{
		{"Transaction.Time", "line", [][]string{s("<;", "< ")}, [][]string{s("< ")}},
		{"Transaction.Description", "line", [][]string{s("<;", "> ")}, [][]string{s("> ", "<;"), s("> ")}},
		{"Price.Time", "line", [][]string{s("<;", "> ", "< ")}, [][]string{s("> ", "< ")}},
		{"Price.Currency", "line", [][]string{s("<;", "> ", "> ", "< ")}, [][]string{s("> ", "> ", "< ")}},
		{"Price.Value", "line", [][]string{s("<;", "> ", "> ", "> ")}, [][]string{s("> ", "> ", "> ")}},
		{"Split.Account", "line", [][]string{s("<;", "<  ")}, [][]string{s("<  ")}},
		{"Split.Value", "line", [][]string{split}, [][]string{s(">  ", "<@@"), s(">  ", "<@"), s(">  ", "<=")}},
		{"Ledger.SplitPrices", "line", [][]string{split, s("<;", ">  ", ">@@", "<="), s("<;", ">  ", ">@", "<=")}, [][]string{s(">@@", "<="), s(">@", "<=")}},
		{"Ledger.Assertions", "line", [][]string{s("<;", ">  ", ">=")}, [][]string{s(">=")}},
		{"Ledger.DefaultCurrency", "line", [][]string{s("<;", "> ")}, [][]string{s("> ")}},
		{"Ledger.Comments", "line", [][]string{s(">;"), s(">+1")}, [][]string{s(">;"), s(">+1")}},
		{"Account.Code", "line", [][]string{s(">;", "found", ">:"), s(">+1", "found", ">:")}, [][]string{s(">;", "found", ">:"), s(">+1", "found", ">:")}},
		{"Currency.ISIN", "line", [][]string{s(">;", "found", ">:"), s(">+1", "found", ">:")}, [][]string{s(">;", "found", ">:"), s(">+1", "found", ">:")}},
		{"Split.Time", "line", [][]string{s(">;", "found", ">:"), s(">+1", "found", ">:")}, [][]string{s(">;", "found", ">:"), s(">+1", "found", ">:")}},
	})
	z.signed(r, "backend/ledger", "Value.Amount")
	f := func(sink, k string) placeRule {
		return placeRule{sink, "line", [][]string{s("#"+k, ">+1")}, [][]string{s("#" + k)}}
	}
	z = run("backend/txtdb", []placeRule{f("Account.ID", "0"), f("map of accounts", "0"), f("Account.Name", "3"), f("Account.Code", "4"), f("Account.Parent", "5"),
		f("Transaction.Time", "1"), f("Transaction.Description", "2"), f("Split.Account", "4"), f("Split.Time", "1"), f("Split.Value", "5"), f("Ledger.Assertions", "6")})
	z.signed(r, "backend/txtdb", "Split.Value", "Ledger.Assertions")
	c := func(sink, col string) placeRule {
		return placeRule{sink, "column " + col, [][]string{{}}, [][]string{{}}}
	}
	z = run("backend/postgres", []placeRule{c("Account.ID", "id"), c("Account.Name", "name"), c("Account.Code", "code"), c("Transaction.ID", "transaction_id"), c("Transaction.Time", "datetime"),
		c("Transaction.Description", "description"), c("Split.Account", "account_id"), c("Split.Value", "value")})
	for _, f := range p.Implementers("Driver", "Open") {
		if f.Pkg == p.PkgByPath("backend/postgres") {
			z.grouped(r, "backend/postgres", f)
		}
	}
	r.Expect("origin", 33)
	r.Expect("sign", 3)
	r.Expect("group", 2)
}

// grouped: a row makes a new transaction exactly if its transaction ID is not
// that of the last one, and its split goes there.
func (z *sourcing) grouped(r *Report, backend string, root *ssa.Function) {
	p := z.p
	e := NewEng(p)
	e.NonNil = e.usualNonNil
	e.firstLater()
	var scans []ssa.CallInstruction
	idAt := map[ssa.Instruction]int{}
	for _, fr := range z.frames {
		for _, b := range fr.f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(*ssa.Call); ok && strings.HasSuffix(calleeName(&ci.Call), "sql.Rows).Scan") {
					cols, ok := z.selected(ci.Call.Args[0], fr)
					if !ok {
						continue
					}
					for k, c := range cols {
						if c == "transaction_id" {
							idAt[ci] = k
							scans = append(scans, ci)
						}
					}
				}
			}
		}
	}
	if len(scans) == 0 {
		r.Bad("group", backend, "-", "no row with a transaction ID is read")
		return
	}
	rowID := func(s *State) *Term {
		if ptr := s.gt["row"]; ptr != nil {
			et := deref(ptr.T)
			return e.Load(s, ptr, et)
		}
		return nil
	}
	has := func(s *State, id *Term) bool {
		w := rowID(s)
		return w != nil && id != nil && (e.equal(s, id, w) || id.Op == "iface" && e.equal(s, id.A[0], w) || e.equal(s, id, e.tt.mk("iface", types.TypeString(w.T, nil), id.T, w)))
	}
	isNot := func(s *State, id *Term) bool {
		w := rowID(s)
		if w == nil || id == nil {
			return false
		}
		if id.Op == "iface" {
			return e.implied(s, e.tt.eq(id.A[0], w), false)
		}
		return e.implied(s, e.tt.eq(id, e.tt.mk("iface", types.TypeString(w.T, nil), id.T, w)), false)
	}
	e.H.Call = func(s *State, c *Ctx, in ssa.CallInstruction, name string, as []*Term) (*Term, bool) {
		k, ok := idAt[in]
		if !ok || len(as) < 2 || as[1].T == nil {
			return nil, false
		}
		if _, isS := as[1].T.Underlying().(*types.Slice); !isS {
			return nil, false
		}
		el := e.elem(s, as[1], e.tt.intc(int64(k), nil))
		if el.Op == "iface" {
			el = el.A[0]
		}
		delete(s.gt, "row")
		s.gs["new"] = ""
		if el.T != nil {
			if _, isP := el.T.Underlying().(*types.Pointer); isP {
				s.gt["row"] = el
			}
		}
		return nil, false
	}
	made := map[string]bool{}
	e.H.Store = func(s *State, c *Ctx, in ssa.Instruction, addr, v *Term, t types.Type) {
		if addr.Op != "fa" || len(addr.A) == 0 || s.gt["row"] == nil {
			return
		}
		obj := addr.A[0]
		cons := backend + ": " + p.Fn(in.Parent())
		switch shortField(addr.S) {
		case "Transaction.Splits":
			made["splits"] = true
			id := e.fld(s, obj, "ID")
			r.Add("group", cons+" split", p.InstrPos(in), has(s, id), "the split of a row may be added to a transaction with another ID; %s", e.path(s))
		case "Ledger.Transactions":
			old := e.Load(s, addr, t)
			els, ok := e.addedTo(s, v, old)
			if !ok || len(els) != 1 {
				r.Bad("group", cons+" transaction", p.InstrPos(in), "the list of transactions changes other than by one at the end; %s", e.path(s))
				return
			}
			made["transaction"] = true
			n := e.tt.length(old)
			last := e.fld(s, e.elem(s, old, e.tt.addc(n, -1)), "ID")
			first := e.implied(s, e.tt.lt(e.tt.intc(0, nil), n), false)
			ok = first || isNot(s, last)
			for k, v := range s.env {
				// a variable with the last one
				if ok || k.c != c || !lastMade(k.v, map[ssa.Value]bool{}) {
					continue
				}
				ok = e.isNil(s, v) || isNot(s, e.fld(s, v, "ID"))
			}
			r.Add("group", cons+" transaction", p.InstrPos(in), ok, "a new transaction may be made for a row whose transaction ID is that of the last one; %s", e.path(s))
			s.gs["new"] = "1"
		}
	}
	p.runDecided(r, "group", e, root, newState(), e.Params(root))
	for _, k := range []string{"splits", "transaction"} {
		if !made[k] {
			r.Bad("group", backend+": "+k, "-", "no row adds one")
		}
	}
	r.Counts["abstract steps"] += e.Steps
}

// lastMade: a variable that only holds nothing or a new transaction, set again
// in a loop.
func lastMade(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && c.IsNil() {
				continue
			}
			if al, ok := e.(*ssa.Alloc); ok && al.Heap {
				continue
			}
			if _, ok := e.(*ssa.Phi); !ok || !lastMade(e, seen) {
				return false
			}
		}
		n, ok := deref(v.Type()).(*types.Named)
		return ok && n.Obj().Name() == "Transaction"
	}
	return false
}
