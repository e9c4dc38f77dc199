package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P22", "other", checkP22)
}

// reader analyses one loop that reads the lines of a file.
type reader struct {
	p    *Prog
	e    *Eng
	r    *Report
	root *ssa.Function
	loop *loop
	fn   *ssa.Function // the function with the loop

	lineT        types.Type // the type of what is read, nil for plain text
	file, number *Term      // of the current line (journal)
	line         *Term
	base         []string // names of files read (plain text)
	c            *Ctx
	count        map[string]*counter
	sites        map[string]map[string]bool
	now          map[string]bool
	texts        map[*Term]bool
}

// kept: the fields that hold what has been read.
var keptFields = map[string]string{
	"Ledger.Prices": "P", "Ledger.Transactions": "T", "Transaction.Splits": "T", "Ledger.Accounts": "account", "Ledger.DefaultCurrency": "D",
	"Ledger.Comments": "comment", "Account.Code": "comment", "Currency.ISIN": "comment", "Split.Time": "comment",
}

func shortField(fa string) string { // pkg.T.F -> T.F
	p := strings.Split(fa, ".")
	if len(p) < 2 {
		return fa
	}
	return p[len(p)-2] + "." + p[len(p)-1]
}

// lineType: a structure with the name of a file and the number of a line.
func (p *Prog) lineType(t types.Type) bool {
	st := structOf(t)
	if st == nil {
		return false
	}
	f, n := fieldIndex(st, "Filename"), fieldIndex(st, "LineNum")
	return f >= 0 && n >= 0 && isStr(st.Field(f).Type()) && isInt(st.Field(n).Type())
}

// isLineRead: does a call read the next line?
func (p *Prog) isLineRead(ci ssa.CallInstruction) (journal, text bool) {
	n := calleeName(ci.Common())
	if n == "(*bufio.Scanner).Scan" || n == "(*bufio.Reader).ReadString" || n == "(*bufio.Reader).ReadLine" || n == "(*bufio.Reader).ReadBytes" {
		return false, true
	}
	g := ci.Common().StaticCallee()
	if g == nil || !p.isMod[g] || g.Signature.Results().Len() != 1 {
		return false, false
	}
	return p.lineType(g.Signature.Results().At(0).Type()), false
}

const (
	saysFile = 1 << iota
	saysLine
)

// says: what the arguments of a call tell about where the line is.
func (d *reader) says(s *State, args []*Term) (what int) {
	e := d.e
	seen := map[*Term]bool{}
	var look func(t *Term, depth int)
	look = func(t *Term, depth int) {
		if t == nil || seen[t] || depth > 12 {
			return
		}
		seen[t] = true
		if d.file != nil && (t == d.line || e.equal(s, t, d.file)) {
			what |= saysFile
		}
		if d.number != nil && (t == d.line || isInt(t.T) && e.equal(s, t, d.number)) {
			what |= saysLine
		}
		if !d.journal() && isInt(t.T) && d.isNumber(s, t) {
			what |= saysLine
		}
		if s.lits[e.tt.mk("saysfile", "", types.Typ[types.Bool], t)] {
			what |= saysFile
		}
		if s.lits[e.tt.mk("saysline", "", types.Typ[types.Bool], t)] {
			what |= saysLine
		}
		if t.Op == "fa" || t.Op == "load" && t.A[0].Op == "fa" && strings.HasSuffix(t.A[0].S, ".ID") {
			// the ID of an account, transaction, split or price
			if t.Op == "load" && d.hasID(t.A[0].S) {
				what |= saysFile | saysLine
			}
		}
		if c, ok := t.strVal(); ok && d.line == nil {
			for _, b := range d.base {
				if strings.Contains(c, b) || strings.Contains(c, strings.TrimSuffix(b, "s")) {
					what |= saysFile
				}
			}
		}
		if t.Op == "slice" || t.Op == "ia" {
			if els, ok := e.varargs(s, t); ok {
				for _, x := range els {
					look(x, depth+1)
				}
			}
		}
		if allocTerm(t) && t.T != nil {
			if _, isArr := deref(t.T).Underlying().(*types.Array); !isArr {
				var as []*Term
				for a := range s.mem {
					if rootOf(a) == t {
						as = append(as, a)
					}
				}
				for _, a := range as {
					look(s.mem[a], depth+1)
				}
			}
		}
		if t.Op == "field" && t.A[0] == d.line || t.T != nil && isInt(t.T) && t.Op != "conv" {
			return // another part of the line, or one of those above
		}
		if t.Op != "load" {
			for _, a := range t.A {
				look(a, depth+1)
			}
		}
	}
	for _, a := range args {
		look(a, 0)
	}
	return
}

func (d *reader) hasID(fa string) bool {
	switch shortField(fa) {
	case "Account.ID", "Transaction.ID", "Split.ID", "Price.ID":
		return true
	}
	return false
}

func (d *reader) current(s *State) bool { return s.gs["line"] == "1" }

func (d *reader) event(s *State, what string) {
	if d.current(s) {
		s.gs["ev:"+what] = "1"
	}
}

// clear forgets what happened to the line before.
func (d *reader) clear(s *State) {
	for k := range s.gs {
		if strings.HasPrefix(k, "ev:") || k == "kind" || k == "ind" || k == "bad" || k == "blank" || k == "line" {
			delete(s.gs, k)
		}
	}
}

// done decides what has become of a line: "" or what is wrong.
func (d *reader) done(s *State) string {
	if !d.current(s) || s.gs["ev:diag"] != "" || s.gs["blank"] != "" {
		return ""
	}
	k := s.gs["kind"]
	ev := func(w string) bool { return s.gs["ev:"+w] != "" }
	ok := false
	switch k {
	case "comment":
		ok = s.gs["ind"] == "" || ev("comment")
	case "commodity":
		ok = s.gs["bad"] == ""
	case "":
		ok = ev("T") || ev("P") && !d.journal() || ev("account") && !d.journal()
	default: // an indented word is not a keyword
		ok = ev(k) || s.gs["ind"] != "" && ev("T")
	}
	if ok {
		return ""
	}
	if k == "" {
		k = "other"
	}
	return fmt.Sprintf("a line (%s) is neither taken into the ledger nor reported with its file and number", k)
}

func (d *reader) journal() bool { return d.lineT != nil }

// noteKind finds out what kind of line a branch has found.
func (d *reader) noteKind(s *State, l lit) {
	e := d.e
	t, pos := l.t, l.pos
	for t.Op == "not" {
		t, pos = t.A[0], !pos
	}
	switch t.Op {
	case "eq":
		for i := range t.A {
			x, y := t.A[i], t.A[1-i]
			if isErr(x.T) && y.isConst() {
				if !pos {
					s.gs["bad"] = "1"
				}
				return
			}
			if c, ok := y.strVal(); ok && !x.isConst() {
				if c == "" && pos && d.fromLine(s, x) {
					s.gs["blank"] = "1"
				}
				switch c {
				case "P", "D", "include", "commodity", "account":
					if pos {
						s.gs["kind"] = c
					}
				}
			}
			if n, ok := y.intVal(); ok && pos && !x.isConst() {
				if x.Op == "len" && n == 0 && d.fromLine(s, x.A[0]) {
					s.gs["blank"] = "1"
				}
				d.noteChar(s, string(rune(n)))
			}
		}
	case "fn":
		if pos {
			for _, a := range t.A {
				if c, ok := a.strVal(); ok {
					d.noteChar(s, c)
				}
			}
		}
	case "lt": // len(text) < 1
		if n, ok := t.A[1].intVal(); ok && pos && n == 1 && t.A[0].Op == "len" && d.fromLine(s, t.A[0].A[0]) {
			s.gs["blank"] = "1"
		}
	}
	_ = e
}

// fromLine: is x the whole text of the line, trimmed?
func (d *reader) fromLine(s *State, x *Term) bool {
	for x.Op == "fn" && strings.HasPrefix(x.S, "strings.Trim") {
		x = x.A[0]
	}
	if d.line != nil {
		return x.Op == "field" && x.A[0] == d.line || contains(x, d.line) && x.Op == "sym"
	}
	return d.texts[x]
}

func (d *reader) noteChar(s *State, c string) {
	if s.gs["kind"] != "" || c == "" {
		return
	}
	switch {
	case strings.ContainsAny(c, "*#;") && len(c) < 8:
		s.gs["kind"] = "comment"
	case strings.ContainsAny(c, " \t") && strings.TrimSpace(c) == "":
		s.gs["ind"] = "1"
	}
}

func (p *Prog) checkReader(r *Report, root, fn *ssa.Function, l *loop, call ssa.CallInstruction) {
	d := &reader{p: p, r: r, root: root, loop: l, fn: fn, count: map[string]*counter{}, sites: map[string]map[string]bool{}, texts: map[*Term]bool{}, now: map[string]bool{}}
	journal, _ := p.isLineRead(call)
	e := NewEng(p)
	d.e = e
	tt := e.tt
	e.NonNil = e.usualNonNil
	e.coarse()
	if journal {
		d.lineT = call.Value().Type()
	}
	if !journal {
		d.base = p.openedNames(fn, call)
	}
	rule := "text-line"
	if journal {
		rule = "journal-line"
	}
	// functions that keep something, print or return an error made with the place are looked into
	looks := p.ioFuncs(func(n string, cc *ssa.CallCommon) bool { return isDiag(n) })
	stores := p.fieldWriters()
	for f := range stores {
		looks[f] = true
	}
	e.H.Opaque = func(f *ssa.Function) bool {
		if f == call.Common().StaticCallee() {
			return true
		}
		if looks[f] {
			return false
		}
		for _, pa := range f.Params { // wrappers that make messages
			if p.lineType(pa.Type()) && len(f.Blocks) < 4 {
				return false
			}
		}
		return len(f.Blocks) > 3 || selfCalls(f)
	}
	isHead := func(c *Ctx, h *ssa.BasicBlock) bool { return c.fn == fn && h == l.head }
	verdict := func(s *State, in ssa.Instruction, why string) {
		r.Add(rule, p.Fn(fn)+" loop "+p.InstrPos(call), p.InstrPos(in), why == "", "%s; %s", why, e.path(s))
	}
	rec := map[string]bool{}
	e.H.Call = func(s *State, c *Ctx, in ssa.CallInstruction, cn string, args []*Term) (*Term, bool) {
		g := in.Common().StaticCallee()
		if g != nil && c.onStack(g) && journal && stores[g] && d.current(s) {
			what := d.says(s, args)
			ok := what == saysFile|saysLine
			key := p.InstrPos(in)
			if !ok || !rec[key] {
				rec[key] = true
				r.Add("id", p.Fn(g), key, ok, "the file and line are not handed on to the call that may create more of them")
			}
			d.event(s, "account")
		}
		return nil, false
	}
	e.H.After = func(s *State, c *Ctx, in ssa.CallInstruction, cn string, args []*Term, res *Term) {
		if in == call && journal {
			d.clear(s)
			d.line = res
			st := structOf(d.lineT)
			d.file = tt.fieldOf(d.line, st, fieldIndex(st, "Filename"))
			d.number = tt.fieldOf(d.line, st, fieldIndex(st, "LineNum"))
			s.gs["line"] = "1"
			return
		}
		if cn == "(*bufio.Scanner).Text" && res != nil {
			d.texts[res] = true
		}
		if !journal && isDiag(cn) && !d.current(s) {
			if at := topCall(c, in, fn); at != nil && !e.inAnyLoop(at) && l.head.Dominates(at.Block()) && d.says(s, args)&saysFile != 0 {
				r.Add("text-end", p.InstrPos(at), p.InstrPos(at), usesCounter(at, l), "what is said about the lines after the last one does not tell which lines")
			}
		}
		if !d.current(s) {
			return
		}
		g := in.Common().StaticCallee()
		if g != nil && p.isMod[g] && len(g.Blocks) > 3 && !e.H.Opaque(g) {
			return
		}
		d.now = map[string]bool{}
		what := d.says(s, args)
		if isDiag(cn) && len(d.now) > 0 {
			d.printed(p.InstrPos(in))
		}
		if isDiag(cn) && what == saysFile|saysLine {
			s.gs["ev:diag"] = "1"
		}
		if res != nil && what != 0 && !(g != nil && p.isMod[g] && len(g.Blocks) > 0) {
			for _, x := range append([]*Term{res}, e.errsIn(res)...) {
				if x.isConst() {
					continue
				}
				if what&saysFile != 0 {
					s.lits[tt.mk("saysfile", "", types.Typ[types.Bool], x)] = true
				}
				if what&saysLine != 0 {
					s.lits[tt.mk("saysline", "", types.Typ[types.Bool], x)] = true
				}
			}
			s.sv = nil
		}
	}
	e.H.MapWrite = func(s *State, c *Ctx, in ssa.Instruction, m, k, v *Term) {
		if m.Op == "load" && m.A[0].Op == "fa" {
			if ev := keptFields[shortField(m.A[0].S)]; ev != "" {
				d.event(s, ev)
			}
		}
		for a, x := range s.mem {
			if x == m && a.Op == "fa" {
				if ev := keptFields[shortField(a.S)]; ev != "" {
					d.event(s, ev)
				}
			}
		}
	}
	e.H.Store = func(s *State, c *Ctx, in ssa.Instruction, addr, v *Term, t types.Type) {
		if addr.Op != "fa" || !d.current(s) {
			return
		}
		f := shortField(addr.S)
		if strings.HasSuffix(f, ".files") {
			d.event(s, "include")
		}
		ev := keptFields[f]
		if ev == "" || allocTerm(rootOf(addr)) && ev == "comment" {
			return
		}
		d.event(s, ev)
		if !journal || v.Op != "append" {
			return
		}
		x := v.A[len(v.A)-1]
		if x.T == nil {
			return
		}
		if _, ok := x.T.Underlying().(*types.Pointer); !ok {
			return
		}
		st := structOf(deref(x.T))
		if st == nil || fieldIndex(st, "ID") < 0 {
			return
		}
		ft := st.Field(fieldIndex(st, "ID")).Type()
		id := e.Load(s, tt.fieldAddr(x, deref(x.T), "ID", ft), ft)
		why := ""
		if d.says(s, []*Term{id}) != saysFile|saysLine {
			why = "what is loaded does not carry the file and line where it was defined"
		}
		r.Add("id", p.Fn(c.fn)+" "+f, p.InstrPos(in), why == "", "%s; %s", why, e.path(s))
	}
	e.H.Branch = func(s *State, c *Ctx, in ssa.Instruction, ls []lit) {
		if in == ifOf(call) && c.fn == fn && !journal {
			for n, x := range d.counters(s) {
				s.gt["nr"+n] = x
			}
		}
		for _, l := range ls {
			t, pos := l.t, l.pos
			for t.Op == "not" {
				t, pos = t.A[0], !pos
			}
			if journal && d.line != nil && t.Op == "eq" {
				for i, x := range t.A {
					if isErr(x.T) && x.Op == "field" && x.A[0] == d.line && (e.notNil(s, x) || pos && e.notNil(s, t.A[1-i])) {
						delete(s.gs, "line") // nothing was read
					}
				}
			}
			if !journal && c.fn == fn && in == ifOf(call) {
				d.clear(s)
				if pos {
					s.gs["line"] = "1"
				}
			}
			if d.current(s) {
				d.noteKind(s, lit{t, pos})
			}
		}
	}
	e.H.LoopIn = func(s *State, c *Ctx, h *ssa.BasicBlock) {
		if isHead(c, h) {
			d.clear(s)
			d.c = c
			for n, x := range d.counters(s) {
				d.counter(n).init[x.key] = true
			}
		}
	}
	e.H.LoopBack = func(s *State, c *Ctx, h *ssa.BasicBlock) {
		if isHead(c, h) {
			verdict(s, call, d.done(s))
			for n, x := range d.counters(s) {
				if old := s.gt["nr"+n]; old == nil || !e.equal(s, x, tt.addc(old, 1)) {
					d.counter(n).odd = e.path(s)
				}
			}
			d.clear(s)
		}
	}
	e.H.Return = func(s *State, c *Ctx, in ssa.Instruction, res []*Term) {
		if c.fn != fn || !d.current(s) {
			return
		}
		why := ""
		if s.gs["ev:diag"] == "" {
			why = "a line ends the reading without an error that names its file and number"
			for _, x := range res {
				if isErr(x.T) && !e.isNil(s, x) && e.notNil(s, x) && d.says(s, []*Term{x}) == saysFile|saysLine {
					why = ""
				}
			}
		}
		verdict(s, in, why)
		d.clear(s)
	}
	p.runDecided(r, rule, e, fn, newState(), e.Params(fn))
	r.Counts["functions interpreted"] += len(e.Fns)
	var sites []string
	for at := range d.sites {
		sites = append(sites, at)
	}
	sort.Strings(sites)
	for _, at := range sites {
		ok, odd := false, ""
		for n := range d.sites[at] {
			i := strings.LastIndex(n, "+")
			c := d.counter(n[:i])
			k, _ := strconv.ParseInt(n[i+1:], 10, 64)
			if c.odd == "" && len(c.init) == 1 && c.init[tt.intc(1-k, nil).key] {
				ok = true
			}
			odd = c.odd
		}
		r.Add("line-number", p.Fn(fn)+" "+at, at, ok, "the number given for the line does not start at one or does not go up by one with each line; %s", odd)
	}
}

// ifOf: the branch on the result of a call.
func ifOf(call ssa.CallInstruction) ssa.Instruction {
	v := call.Value()
	if v == nil || v.Referrers() == nil {
		return nil
	}
	for _, in := range *v.Referrers() {
		if i, ok := in.(*ssa.If); ok {
			return i
		}
	}
	return nil
}

func (e *Eng) inAnyLoop(in ssa.Instruction) bool {
	for _, l := range e.flow(in.Parent()).loops {
		if l.blocks[in.Block()] {
			return true
		}
	}
	return false
}

// topCall: the instruction of fn that an instruction is executed under.
func topCall(c *Ctx, in ssa.CallInstruction, fn *ssa.Function) ssa.Instruction {
	at := ssa.Instruction(in)
	for c != nil && c.fn != fn {
		at, c = c.call, c.parent
	}
	if c == nil {
		return nil
	}
	return at
}

// usesCounter: is an operand of the instruction made with the number of a line of the loop?
func usesCounter(at ssa.Instruction, l *loop) bool {
	isCounter := func(v ssa.Value) bool {
		ph, ok := v.(*ssa.Phi)
		if !ok || ph.Block() != l.head {
			return false
		}
		for _, x := range ph.Edges {
			if b, ok := x.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == ph {
				if k, ok := b.Y.(*ssa.Const); ok && k.Int64() == 1 {
					return true
				}
			}
		}
		return false
	}
	// only: are all the values of v numbers of lines, or constants?
	var only func(v ssa.Value, seen map[ssa.Value]bool) (ok, some bool)
	only = func(v ssa.Value, seen map[ssa.Value]bool) (ok, some bool) {
		if seen[v] {
			return true, false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			return true, false
		case *ssa.BinOp:
			if _, isC := x.Y.(*ssa.Const); isC && (x.Op == token.ADD || x.Op == token.SUB) {
				if isCounter(x.X) {
					return true, true
				}
				return only(x.X, seen)
			}
		case *ssa.Convert:
			return only(x.X, seen)
		case *ssa.Phi:
			if isCounter(x) {
				return true, true
			}
			ok = true
			for _, y := range x.Edges {
				o, s := only(y, seen)
				ok, some = ok && o, some || s
			}
			return ok, some
		}
		return false, false
	}
	seen := map[ssa.Value]bool{}
	var from func(v ssa.Value, d int) bool
	from = func(v ssa.Value, d int) bool {
		if v == nil || seen[v] || d > 12 {
			return false
		}
		seen[v] = true
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			o, s := only(v, map[ssa.Value]bool{})
			return o && s
		}
		if al, ok := v.(*ssa.Alloc); ok {
			for _, u := range *al.Referrers() {
				switch u := u.(type) {
				case *ssa.IndexAddr:
					for _, w := range *u.Referrers() {
						if st, ok := w.(*ssa.Store); ok && st.Addr == u && from(st.Val, d+1) {
							return true
						}
					}
				case *ssa.Store:
					if u.Addr == al && from(u.Val, d+1) {
						return true
					}
				}
			}
			return false
		}
		in, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}
		for _, o := range in.Operands(nil) {
			if from(*o, d+1) {
				return true
			}
		}
		return false
	}
	for _, o := range at.Operands(nil) {
		if from(*o, 0) {
			return true
		}
	}
	return false
}

// fieldWriters: the functions that may change something that holds what was read.
func (p *Prog) fieldWriters() map[*ssa.Function]bool {
	direct := map[*ssa.Function]bool{}
	for f := range p.isMod {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				st := structOf(deref(fa.X.Type()))
				n, ok := deref(fa.X.Type()).(*types.Named)
				if st == nil || !ok {
					continue
				}
				k := n.Obj().Name() + "." + st.Field(fa.Field).Name()
				if keptFields[k] == "" && !strings.HasSuffix(k, ".files") || k == "Ledger.DefaultCurrency" {
					continue
				}
				for _, u := range *fa.Referrers() {
					switch u := u.(type) {
					case *ssa.Store:
						if u.Addr == fa {
							direct[f] = true
						}
					case *ssa.UnOp:
						for _, w := range *u.Referrers() {
							if m, ok := w.(*ssa.MapUpdate); ok && m.Map == u {
								direct[f] = true
							}
						}
					}
				}
			}
		}
	}
	out := map[*ssa.Function]bool{}
	for f := range p.isMod {
		for g := range p.reach(f) {
			if direct[g] {
				out[f] = true
				break
			}
		}
	}
	return out
}

// openedNames: the constant names of the file opened last before a loop, or of
// all those the function may have opened if that is not known.
func (p *Prog) openedNames(fn *ssa.Function, call ssa.CallInstruction) (out []string) {
	var last ssa.CallInstruction
	for g := range p.reach(fn) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !p.isMod[g] {
					continue
				}
				switch calleeName(ci.Common()) {
				case "path/filepath.Join", "path.Join", "os.Open", "os.OpenFile":
					var names []string
					for _, a := range ci.Common().Args {
						names = append(names, p.constArgs(a)...)
					}
					out = append(out, names...)
					if g == fn && len(names) > 0 && b.Dominates(call.Block()) && (last == nil || last.Block() != b && last.Block().Dominates(b)) {
						last = ci
					}
				}
			}
		}
	}
	if last != nil {
		out = nil
		for _, a := range last.Common().Args {
			out = append(out, p.constArgs(a)...)
		}
	}
	sort.Strings(out)
	return
}

// constArgs: the constants among the values an argument is made of.
func (p *Prog) constArgs(v ssa.Value) (out []string) {
	if c, ok := p.constStrings(v, 0); ok {
		return c
	}
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	for _, u := range *al.Referrers() {
		if ia, ok := u.(*ssa.IndexAddr); ok {
			for _, w := range *ia.Referrers() {
				if st, ok := w.(*ssa.Store); ok && st.Addr == ia {
					if c, ok := p.constStrings(st.Val, 0); ok {
						out = append(out, c...)
					}
				}
			}
		}
	}
	return
}

// counter: an integer variable of a loop.
type counter struct {
	init map[string]bool // what it can be before the loop
	odd  string          // where it does not go up by one
	off  map[int64]string
}

// counters: the integers that may be the number of the line.
func (d *reader) counters(s *State) map[string]*Term {
	out := map[string]*Term{}
	if d.c == nil {
		return out
	}
	for _, i := range d.loop.head.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		if x := s.env[vkey{d.c, ph}]; x != nil && isInt(x.T) {
			out[ph.Name()] = x
		}
	}
	for a, x := range s.mem {
		if allocTerm(a) && x.T != nil && isInt(x.T) {
			out[a.key] = x
		}
	}
	return out
}

// isNumber: is t the number of the line, if the loop counts them?
func (d *reader) isNumber(s *State, t *Term) bool {
	found := false
	for n, x := range d.counters(s) {
		for k := int64(0); k < 2; k++ {
			if d.e.equal(s, t, d.e.tt.addc(x, k)) {
				d.counter(n)
				d.now[fmt.Sprint(n, "+", k)] = true
				found = true
			}
		}
	}
	return found
}

// printed notes what the numbers printed somewhere are in every state that comes there.
func (d *reader) printed(site string) {
	old, seen := d.sites[site]
	if !seen {
		d.sites[site] = d.now
		return
	}
	for n := range old {
		if !d.now[n] {
			delete(old, n)
		}
	}
}

func (d *reader) counter(n string) *counter {
	if d.count[n] == nil {
		d.count[n] = &counter{init: map[string]bool{}}
	}
	return d.count[n]
}

// checkScanner: what a function that reads the next line says about it is so.
func (p *Prog) checkScanner(r *Report, f *ssa.Function) {
	e := NewEng(p)
	e.NonNil = e.usualNonNil
	tt := e.tt
	lt := f.Signature.Results().At(0).Type()
	st := structOf(lt)
	part := func(v *Term, name string) *Term {
		if i := fieldIndex(st, name); i >= 0 {
			return tt.fieldOf(v, st, i)
		}
		return nil
	}
	own := map[*Term]bool{}
	e.H.After = func(s *State, c *Ctx, in ssa.CallInstruction, cn string, args []*Term, res *Term) {
		if g := in.Common().StaticCallee(); g == f && res != nil {
			own[res] = true
			for _, k := range []string{"file", "line", "at", "text"} {
				delete(s.gt, k)
			}
			delete(s.gs, "scan")
			return
		}
		switch cn {
		case "(*bufio.Scanner).Scan":
			for _, k := range []string{"file", "line", "at", "text"} {
				delete(s.gt, k)
			}
			s.gs["scan"] = "1"
			if x := e.holder(s, args[0]); x != nil {
				n, ft := p.placeFields(deref(x.T))
				if n != "" {
					s.gt["file"] = e.fld(s, x, ft)
					s.gt["line"] = e.fld(s, x, n)
					s.gt["at"] = x
				}
			}
		case "(*bufio.Scanner).Text", "(*bufio.Scanner).Bytes":
			s.gt["text"] = res
		}
	}
	e.H.Return = func(s *State, c *Ctx, in ssa.Instruction, res []*Term) {
		if c.fn != f || c.parent != nil || len(res) != 1 || own[res[0]] {
			return
		}
		if err := part(res[0], "Err"); err != nil && e.notNil(s, err) {
			return
		}
		why := ""
		file, line, at := s.gt["file"], s.gt["line"], s.gt["at"]
		switch {
		case s.gs["scan"] == "":
			why = "a line is returned without reading one"
		case file == nil || line == nil || at == nil:
			why = "the file that is read is not known to have a name and a count of lines"
		case !e.equal(s, part(res[0], "Filename"), file):
			why = "the name is not that of the file the line was read from"
		case !e.equal(s, part(res[0], "LineNum"), tt.addc(line, 1)):
			why = "the number is not one more than the number of lines read from the file before"
		default:
			n, _ := p.placeFields(deref(at.T))
			if !e.equal(s, e.fld(s, at, n), tt.addc(line, 1)) {
				why = "the count of lines of the file does not go up by one"
			} else if t := part(res[0], "Text"); t != nil && (s.gt["text"] == nil || !mentions(t, s.gt["text"])) {
				why = "the text is not that of the line just read"
			}
		}
		r.Add("line-place", p.Fn(f), p.InstrPos(in), why == "", "%s; %s", why, e.path(s))
	}
	p.runDecided(r, "line-place", e, f, newState(), e.Params(f))
	r.Counts["functions interpreted"] += len(e.Fns)
}

// placeFields: the fields of an open file that hold the number of lines read
// and the name.
func (p *Prog) placeFields(t types.Type) (num, name string) {
	st := structOf(t)
	if st == nil {
		return "", ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if isInt(st.Field(i).Type()) && num == "" {
			num = st.Field(i).Name()
		}
		if isStr(st.Field(i).Type()) && name == "" {
			name = st.Field(i).Name()
		}
	}
	if name == "" {
		num = ""
	}
	return
}

// holder: a pointer to the structure that a scanner is a field of.
func (e *Eng) holder(s *State, sc *Term) *Term {
	if sc.Op == "fa" { // an embedded scanner
		return sc.A[0]
	}
	if sc.Op == "load" && sc.A[0].Op == "fa" {
		return sc.A[0].A[0]
	}
	if sc.Op == "field" && sc.A[0].Op == "load" {
		return e.retype(sc.A[0].A[0], types.NewPointer(sc.A[0].T))
	}
	return nil
}

// checkOpened: a file that is opened for reading starts at line zero, under the name it was opened by.
func (p *Prog) checkOpened(r *Report, f *ssa.Function) {
	e := NewEng(p)
	e.NonNil = e.usualNonNil
	e.coarse()
	tt := e.tt
	e.H.After = func(s *State, c *Ctx, in ssa.CallInstruction, cn string, args []*Term, res *Term) {
		if cn == "os.Open" || cn == "os.OpenFile" {
			s.gt["name"] = args[0]
		}
	}
	e.H.Store = func(s *State, c *Ctx, in ssa.Instruction, addr, v *Term, t types.Type) {
		if v.Op != "append" || v.T == nil {
			return
		}
		sl, ok := v.T.Underlying().(*types.Slice)
		if !ok || !p.isOpenFile(sl.Elem()) {
			return
		}
		for _, x := range v.A[1:] {
			why := ""
			num, name := p.placeFields(deref(sl.Elem()))
			get := func(n string) *Term {
				if _, ok := sl.Elem().Underlying().(*types.Pointer); ok {
					return e.fld(s, x, n)
				}
				st := structOf(sl.Elem())
				return tt.fieldOf(x, st, fieldIndex(st, n))
			}
			switch {
			case num == "":
				why = "it has no name or no count of lines"
			case s.gt["name"] == nil || !e.equal(s, get(name), s.gt["name"]):
				why = "its name is not the one it was opened by"
			default:
				if n, ok := get(num).intVal(); !ok || n != 0 {
					why = "its count of lines does not start at zero"
				}
			}
			r.Add("open-place", p.Fn(f), p.InstrPos(in), why == "", "%s; %s", why, e.path(s))
		}
	}
	p.runDecided(r, "open-place", e, f, newState(), e.Params(f))
	r.Counts["functions interpreted"] += len(e.Fns)
}

func (p *Prog) isOpenFile(t types.Type) bool {
	st := structOf(deref(t))
	if st == nil {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if types.TypeString(deref(st.Field(i).Type()), nil) == "bufio.Scanner" {
			return true
		}
	}
	return false
}

// checkFillErrors: every error of Fill tells which transaction or split it is about.
func (p *Prog) checkFillErrors(r *Report) {
	f := p.Method(types.NewPointer(p.RootType("Ledger")), p.Root.Pkg, "Fill")
	if !mustFn(r, f, "(*accounting.Ledger).Fill") {
		return
	}
	e := NewEng(p)
	e.NonNil = e.usualNonNil
	e.coarse()
	tt := e.tt
	named := func(x *Term) *Term { return tt.mk("names-entry", "", types.Typ[types.Bool], x) }
	var says func(s *State, t *Term, d int) bool
	says = func(s *State, t *Term, d int) bool {
		if t == nil || d > 8 {
			return false
		}
		if t.Op == "load" && t.A[0].Op == "fa" && (shortField(t.A[0].S) == "Transaction.ID" || shortField(t.A[0].S) == "Split.ID") || s.lits[named(t)] {
			return true
		}
		if t.Op == "slice" || t.Op == "ia" {
			if els, ok := e.varargs(s, t); ok {
				for _, x := range els {
					if says(s, x, d+1) {
						return true
					}
				}
			}
			return false
		}
		if t.Op == "load" || t.Op == "field" {
			return false
		}
		for _, a := range t.A {
			if says(s, a, d+1) {
				return true
			}
		}
		return false
	}
	e.H.Call = func(s *State, c *Ctx, in ssa.CallInstruction, name string, args []*Term) (*Term, bool) {
		return e.balanceOps(s, c, in, name, args)
	}
	e.H.After = func(s *State, c *Ctx, in ssa.CallInstruction, name string, args []*Term, res *Term) {
		g := in.Common().StaticCallee()
		if res == nil || g != nil && p.isMod[g] && e.Fns[g] {
			return
		}
		ok := false
		for _, a := range args {
			ok = ok || says(s, a, 0)
		}
		if ok {
			for _, x := range append([]*Term{res}, e.errsIn(res)...) {
				if !x.isConst() {
					s.lits[named(x)] = true
				}
			}
			s.sv = nil
		}
	}
	n := 0
	e.H.Return = func(s *State, c *Ctx, in ssa.Instruction, res []*Term) {
		if c.fn != f || c.parent != nil || len(res) != 1 || e.isNil(s, res[0]) {
			return
		}
		n++
		r.Add("fill-error", p.InstrPos(in), p.InstrPos(in), says(s, res[0], 0), "Fill returns an error that does not name the transaction or split it is about; %s", e.path(s))
	}
	p.runDecided(r, "fill-error", e, f, newState(), e.Params(f))
	r.Counts["functions interpreted"] += len(e.Fns)
	r.Counts["errors of Fill"] = n
}

func checkP22(p *Prog, r *Report) {
	r.Expl = "Abstract interpretation, on all paths, of every loop of the library that reads lines (of a journal, through a function that returns a line with the name of its file and its number, or of a text database, with bufio). " +
		"journal-line / text-line: from the moment a line has been read, every path to the next one records it in the field of the ledger its kind belongs in, or prints a diagnostic whose arguments include the file and the number of that very line, or has found it blank or a comment; a path that leaves the loop with a line in hand returns an error made with both. " +
		"id: whatever is appended to Prices, Transactions, Accounts or a transaction's Splits has an ID made with the file and number of the line in hand. " +
		"text-end: what is printed about the file after its last line has a number of a line in it too. line-number: the counter printed for a text database starts at one and goes up by one with each line. line-place / open-place: the line returned by the journal's scanner names the file it was read from and the number of lines read from it, this one included, and a file starts at zero under the name it was opened by. " +
		"fill-error: every error Fill returns is made with the ID of a transaction or split."
	r.Assume = append(r.Assume,
		"printing a diagnostic is a call of log.Print*, or of fmt.Fprint* or fmt.Print*; what is printed is not read, only what it is made of",
		"a constant that contains the base name of the text database's file counts as naming the file",
		"a bad date tag is reported with the ID of the split it is for")
	n := 0
	flows := NewEng(p)
	for _, f := range p.Funcs {
		if !p.IsLib(f) {
			continue
		}
		if f.Signature.Results().Len() == 1 && p.lineType(f.Signature.Results().At(0).Type()) && len(f.Blocks) > 0 {
			p.checkScanner(r, f)
		}
		opens := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if sl, ok := st.Val.Type().Underlying().(*types.Slice); ok && p.isOpenFile(sl.Elem()) {
						opens = true
					}
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				j, t := p.isLineRead(ci)
				if !j && !t {
					continue
				}
				var l *loop
				for _, x := range flows.flow(f).loops {
					if x.blocks[b] && (l == nil || len(x.blocks) < len(l.blocks)) {
						l = x
					}
				}
				if l != nil && !(t && p.placeInHand(f)) {
					n++
					p.checkReader(r, f, f, l, ci)
				}
			}
		}
		if opens {
			p.checkOpened(r, f)
		}
	}
	p.checkFillErrors(r)
	r.Counts["reading loops"] = n
	r.Expect("journal-line", 1)
	r.Expect("text-line", 2)
	r.Expect("id", 4)
	r.Expect("line-number", 1)
	r.Expect("text-end", 1)
	r.Expect("line-place", 1)
	r.Expect("open-place", 1)
	r.Expect("fill-error", 2)
}

// placeInHand: a function that returns lines with their place is judged by checkScanner.
func (p *Prog) placeInHand(f *ssa.Function) bool {
	return f.Signature.Results().Len() == 1 && p.lineType(f.Signature.Results().At(0).Type())
}
