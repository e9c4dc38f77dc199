package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P05", "other", checkP05)
	register("P06", "other", checkP06)
	register("P23", "other", checkP23)
}

// isDriverMap: a map whose elements are accounting.Driver.
func (p *Prog) isDriverMap(t types.Type) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	return ok && types.Identical(m.Elem(), p.RootType("Driver"))
}

// driverMapUsers: functions that touch a map of drivers.
func (p *Prog) driverMapUsers() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Lookup:
					if p.isDriverMap(in.X.Type()) {
						out[f] = true
					}
				case *ssa.MapUpdate:
					if p.isDriverMap(in.Map.Type()) {
						out[f] = true
					}
				case *ssa.Range:
					if p.isDriverMap(in.X.Type()) {
						out[f] = true
					}
				case ssa.CallInstruction:
					for _, a := range in.Common().Args {
						if p.isDriverMap(a.Type()) {
							out[f] = true
						}
					}
				}
			}
		}
	}
	return out
}

func checkP05(p *Prog, r *Report) {
	r.Expl = "Abstract interpretation of every exported function of package accounting that reaches a map of drivers. The set of locks held (and whether exclusively) is part of the abstract state; " +
		"acquiring or releasing a lock forgets what was known about the registry, so a duplicate test only counts if it is made under the same acquisition as the insertion."
	reg, open := p.RootFunc("Register"), p.RootFunc("Open")
	if !mustFn(r, reg, "accounting.Register") || !mustFn(r, open, "accounting.Open") {
		return
	}
	users := p.driverMapUsers()
	roots := []*ssa.Function{reg, open}
	covered := p.reach(reg, open)
	for _, f := range p.Funcs {
		if users[f] && !covered[f] && f.Name() != "init" && f.Parent() == nil {
			roots = append(roots, f)
			for g := range p.reach(f) {
				covered[g] = true
			}
		}
	}
	fill := p.RootFunc("(*Ledger).Fill")
	common := map[string]bool{} // locks held at every access
	first := true
	nAccess := 0
	for _, root := range roots {
		root := root
		e := NewEng(p)
		e.H.Opaque = func(f *ssa.Function) bool { return f == fill || !p.reach(f)[f] && false }
		cons := func(in ssa.Instruction) string { return p.Fn(in.Parent()) }
		held := func(s *State) (ks []string) {
			for k := range s.gs {
				if strings.HasPrefix(k, "lock:") {
					ks = append(ks, k)
				}
			}
			sort.Strings(ks)
			return
		}
		forget := func(s *State, c *Ctx, in ssa.Instruction) {
			for sel := range e.driverSels() {
				e.havocSel(s, sel, c, in)
			}
		}
		access := func(s *State, in ssa.Instruction, m *Term, write bool) {
			if allocTerm(rootOf(m)) && !s.esc[rootOf(m)] {
				return // not shared yet
			}
			nAccess++
			ks := map[string]bool{}
			excl := false
			for _, k := range held(s) {
				ks[k] = true
				if s.gs[k] == "W" {
					excl = true
				}
			}
			what := "read"
			if write {
				what = "write"
			}
			r.Add("locked-access", cons(in)+": "+what, p.InstrPos(in), len(ks) > 0 && (!write || excl), "the driver registry is %s without holding its lock%s; %s", map[bool]string{true: "changed", false: "read"}[write], map[bool]string{true: " exclusively", false: ""}[write], e.path(s))
			if first {
				for k := range ks {
					common[k] = true
				}
				first = false
			} else {
				for k := range common {
					if !ks[k] {
						delete(common, k)
					}
				}
			}
		}
		released := func(s *State, in ssa.Instruction, how string) {
			h := held(s)
			r.Add("lock-released", p.Fn(root)+": "+how, p.InstrPos(in), len(h) == 0, "a lock is still held when %s leaves by %s; %s", p.Fn(root), how, e.path(s))
		}
		e.H.Instr = func(s *State, c *Ctx, in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.Lookup:
				if p.isDriverMap(in.X.Type()) {
					m, k := e.val(s, c, in.X), e.val(s, c, in.Index)
					access(s, in, m, false)
					v, ok := e.lookup(s, m, k, in.X.Type())
					s.gt["look.k"], s.gt["look.v"], s.gt["look.ok"] = k, v, ok
				}
			case *ssa.Range:
				if p.isDriverMap(in.X.Type()) {
					access(s, in, e.val(s, c, in.X), false)
				}
			case *ssa.Next:
				if rg, ok := in.Iter.(*ssa.Range); ok && p.isDriverMap(rg.X.Type()) {
					access(s, in, e.val(s, c, rg.X), false)
				}
			}
		}
		e.H.MapWrite = func(s *State, c *Ctx, in ssa.Instruction, m, k, v *Term) {
			if !p.isDriverMap(m.T) {
				return
			}
			access(s, in, m, true)
			lv, lok := e.lookup(s, m, k, m.T)
			absent := e.implied(s, lok, false) || e.isNil(s, lv)
			r.Add("insert-only-if-absent", cons(in), p.InstrPos(in), absent, "a driver is inserted without a test, under the same acquisition of the lock, that its name is free; %s", e.path(s))
			r.Add("driver-not-nil", cons(in), p.InstrPos(in), e.notNil(s, v), "the inserted driver may be nil; %s", e.path(s))
			s.gt["ins.k"], s.gt["ins.v"] = k, v
		}
		e.H.Call = func(s *State, c *Ctx, in ssa.CallInstruction, name string, args []*Term) (*Term, bool) {
			var op string
			switch name {
			case "(*sync.RWMutex).Lock", "(*sync.Mutex).Lock", "(sync.Locker).Lock":
				op = "W"
			case "(*sync.RWMutex).RLock":
				op = "R"
			case "(*sync.RWMutex).Unlock", "(*sync.Mutex).Unlock":
				op = "uW"
			case "(*sync.RWMutex).RUnlock":
				op = "uR"
			}
			if op != "" {
				k := "lock:" + args[0].key
				switch op {
				case "W", "R":
					r.Add("no-self-deadlock", cons(in)+": "+op, p.InstrPos(in), s.gs[k] == "", "a lock that is already held is acquired again; %s", e.path(s))
					s.gs[k] = op
				default:
					r.Add("unlock-matches", cons(in)+": "+op, p.InstrPos(in), s.gs[k] == op[1:], "the lock that is released is not held in that mode; %s", e.path(s))
					delete(s.gs, k)
				}
				forget(s, c, in)
				return nil, true
			}
			if name == "builtin.delete" && p.isDriverMap(args[0].T) {
				access(s, in, args[0], true)
				r.Bad("no-unregister", cons(in), p.InstrPos(in), "a driver is taken out of the registry")
			}
			if name == "builtin.len" && len(args) > 0 && p.isDriverMap(args[0].T) {
				access(s, in, args[0], false)
			}
			// code that may panic runs with the lock held only if releasing it is deferred
			if in.Common().IsInvoke() || in.Common().StaticCallee() == fill {
				for _, k := range held(s) {
					ok := false
					for _, d := range s.defers {
						n := calleeName(&d.in.Call)
						if strings.HasSuffix(n, "nlock") && len(d.args) > 0 && "lock:"+d.args[0].key == k {
							ok = true
						}
						if d.fn != nil && d.fn.Op == "closure" {
							ok = true // decided when the closure runs
						}
					}
					r.Add("release-deferred", cons(in)+": "+name, p.InstrPos(in), ok, "a panic in %s would leave the registry locked; %s", name, e.path(s))
				}
			}
			if name == "("+p.Mod+".Driver).Open" {
				d := args[0]
				r.Add("open-registered", p.Fn(root), p.InstrPos(in), e.notNil(s, d), "a driver that may not be registered is called; %s", e.path(s))
				okKey := d.Op == "lookup"
				if okKey && s.gt["scheme"] != nil {
					sch := s.gt["scheme"]
					okKey = e.equal(s, d.A[1], sch) || e.implied(s, e.tt.eq(sch, e.tt.zero(sch.T)), true)
				}
				r.Add("open-by-name", p.Fn(root), p.InstrPos(in), okKey && s.gt["scheme"] != nil, "the driver that is called is not the one registered under the URL's scheme; %s", e.path(s))
				s.gs["opened"] = "1"
			}
			return nil, false
		}
		e.H.After = func(s *State, c *Ctx, in ssa.CallInstruction, name string, args []*Term, res *Term) {
			if name == "net/url.Parse" && res != nil && res.Op == "tuple" {
				u := res.A[0]
				st := structOf(deref(u.T))
				if i := fieldIndex(st, "Scheme"); i >= 0 {
					s.gt["scheme"] = e.Load(s, e.tt.fieldAddr(u, deref(u.T), "Scheme", st.Field(i).Type()), st.Field(i).Type())
				}
			}
		}
		e.H.Return = func(s *State, c *Ctx, in ssa.Instruction, res []*Term) {
			if c.parent != nil {
				return
			}
			released(s, in, "return")
			if root == reg {
				ps := e.Params(reg)
				ok := s.gt["ins.k"] != nil && e.equal(s, s.gt["ins.k"], ps[0]) && e.equal(s, s.gt["ins.v"], ps[1])
				r.Add("registered-on-return", p.Fn(root), p.InstrPos(in), ok, "Register returns without having inserted the driver under its name; %s", e.path(s))
			}
			if root == open && s.gs["opened"] == "" {
				r.Add("unregistered-is-error", p.Fn(root), p.InstrPos(in), e.isNil(s, res[0]) && e.notNil(s, res[1]), "Open returns without error although no driver was opened; %s", e.path(s))
			}
		}
		e.H.Panic = func(s *State, c *Ctx, in ssa.Instruction, v *Term) {
			released(s, in, "panic")
			if root == reg {
				d := e.Params(reg)[1]
				ok := e.isNil(s, d)
				if k := s.gt["look.k"]; k != nil && e.equal(s, k, e.Params(reg)[0]) {
					ok = ok || e.implied(s, s.gt["look.ok"], true) || e.notNil(s, s.gt["look.v"])
				}
				r.Add("panic-documented", p.Fn(root), p.InstrPos(in), ok, "Register panics although the driver is not nil and its name is free; %s", e.path(s))
			}
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					r.Bad("undecided", p.Fn(root), p.Pos(root.Pos()), "%v", x)
				}
			}()
			e.Run(root, newState(), e.Params(root))
		}()
		r.Counts["abstract steps"] += e.Steps
	}
	r.Counts["registry accesses"] = nAccess
	r.Add("one-lock", "driver registry", p.Pos(reg.Pos()), len(common) > 0, "the accesses to the registry are not all made under one and the same lock")
	r.Expect("locked-access", 2)
	r.Expect("insert-only-if-absent", 1)
	r.Expect("registered-on-return", 1)
	r.Expect("open-registered", 1)
	// a nil driver and a duplicate must panic: both are shown by the insertion's own conditions
	r.Assume = append(r.Assume, "sync.Mutex and sync.RWMutex exclude as documented")
}

// driverSels: memory selectors of registries.
func (e *Eng) driverSels() map[string]bool {
	out := map[string]bool{}
	for _, m := range e.p.Root.Members {
		if g, ok := m.(*ssa.Global); ok && e.p.isDriverMap(deref(g.Type())) {
			out["map:"+typKey(deref(g.Type()))] = true
		}
	}
	if len(out) == 0 {
		out["map:"+typKey(types.NewMap(types.Typ[types.String], e.p.RootType("Driver")))] = true
	}
	return out
}

// isErr: the error type.
func isErr(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// errResult: the error among the results of a call.
func errResult(res *Term) *Term {
	if res == nil {
		return nil
	}
	if res.Op == "tuple" {
		for i := len(res.A) - 1; i >= 0; i-- {
			if isErr(res.A[i].T) {
				return res.A[i]
			}
		}
		return nil
	}
	if isErr(res.T) {
		return res
	}
	return nil
}

func checkP06(p *Prog, r *Report) {
	r.Expl = "Abstract interpretation of accounting.Open on all paths, with URL parsing, the driver's Open, Fill and Close as unknown functions whose error may or may not be nil."
	open, fill := p.RootFunc("Open"), p.RootFunc("(*Ledger).Fill")
	if !mustFn(r, open, "accounting.Open") || !mustFn(r, fill, "(*Ledger).Fill") {
		return
	}
	lt := p.RootType("Ledger")
	connT := p.RootType("Connection")
	connField := ""
	st := structOf(lt)
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), connT) {
			connField = st.Field(i).Name()
		}
	}
	if connField == "" {
		r.Bad("anchor", "Ledger", "-", "Ledger has no field of type Connection")
		return
	}
	e := NewEng(p)
	e.H.Opaque = func(f *ssa.Function) bool { return f == fill }
	n := 0
	// sites whose failure must be returned
	e.H.After = func(s *State, c *Ctx, in ssa.CallInstruction, name string, args []*Term, res *Term) {
		g := in.Common().StaticCallee()
		if g != nil && p.isMod[g] && g != fill {
			return // interpreted
		}
		er := errResult(res)
		if er == nil || er.Info == nil || er.Info.kind != "call" {
			return
		}
		switch {
		case name == "("+connT.String()+").Close":
			s.gs["closed:"+args[0].key] = "1"
			return
		case name == "("+p.Mod+".Driver).Open":
			s.gt["conn"] = res.A[0]
			s.gt["err.driver"] = er
			n++
		case g == fill:
			s.gt["filled"] = args[0]
			s.gt["err.fill"] = er
			n++
		default:
			s.gt["err."+name+fmt.Sprint(in.Pos())] = er
			n++
		}
	}
	rets := 0
	e.H.Return = func(s *State, c *Ctx, in ssa.Instruction, res []*Term) {
		if c.parent != nil {
			return
		}
		rets++
		pos := p.InstrPos(in)
		cons := "Open"
		var pend []string
		for k, v := range s.gt {
			if strings.HasPrefix(k, "err.") && !e.isNil(s, v) {
				pend = append(pend, strings.TrimPrefix(k, "err."))
			}
		}
		sort.Strings(pend)
		failed := e.isNil(s, res[0]) && e.notNil(s, res[1])
		success := e.notNil(s, res[0]) && e.isNil(s, res[1])
		r.Add("all-or-nothing", cons, pos, failed || success, "Open can return something other than a ledger without error or an error without ledger; %s", e.path(s))
		if !failed {
			r.Add("failure-returned", cons, pos, len(pend) == 0, "the failure of %s is not returned; %s", strings.Join(pend, ", "), e.path(s))
			f := s.gt["filled"]
			r.Add("filled", cons, pos, f != nil && e.equal(s, f, res[0]), "the returned ledger has not been filled; %s", e.path(s))
			conn := s.gt["conn"]
			ok := conn != nil
			if ok {
				a := e.Load(s, e.tt.fieldAddr(res[0], lt, connField, connT), connT)
				ok = e.equal(s, a, conn)
			}
			r.Add("attached", cons, pos, ok, "the returned ledger is not attached to the connection the driver opened; %s", e.path(s))
			if conn != nil {
				r.Add("success-open", cons, pos, s.gs["closed:"+conn.key] == "", "the connection of the returned ledger has been closed; %s", e.path(s))
			}
			return
		}
		if conn := s.gt["conn"]; conn != nil && e.isNil(s, s.gt["err.driver"]) {
			r.Add("closed-on-failure", cons, pos, s.gs["closed:"+conn.key] != "", "the connection is not closed although Open fails; %s", e.path(s))
		}
	}
	e.Run(open, newState(), e.Params(open))
	r.Counts["abstract steps"] = e.Steps
	r.Counts["paths returning"] = rets
	r.Counts["fallible steps"] = n
	r.Add("driver-called", "Open", p.Pos(open.Pos()), n >= 3, "URL parsing, the driver and Fill are not all called")
	r.Expect("filled", 1)
	r.Expect("closed-on-failure", 1)
	r.Assume = append(r.Assume, "a driver keeps the Ledger of the Backend it is given (Backend.Ledger is not replaced)")
}

// optional operations of a connection and what Ledger does without them
var p23Methods = []struct {
	name string
	kind string // query, edit, flush
}{
	{"Account", "query"}, {"TransactionsInAccount", "query"}, {"TransactionsInInterval", "query"},
	{"NewAccount", "edit"}, {"EditAccount", "edit"}, {"NewTransaction", "edit"}, {"EditTransaction", "edit"}, {"Flush", "flush"},
}

func checkP23(p *Prog, r *Report) {
	r.Expl = "Abstract interpretation of each of the Ledger methods that mirror an optional backend operation, on the two cases of the test whether the connection implements it."
	lt := p.RootType("Ledger")
	for _, m := range p23Methods {
		m := m
		f := p.RootFunc("(*Ledger)." + m.name)
		if !mustFn(r, f, "(*Ledger)."+m.name) {
			continue
		}
		cons := p.Fn(f)
		e := NewEng(p)
		ps := e.Params(f)
		s0 := newState()
		e.assume(s0, e.tt.eq(ps[0], e.tt.nilc(ps[0].T)), false)
		fsig := f.Signature
		// ops asserted: interface types used to ask the connection
		good := map[string]bool{}
		bad := map[string]string{}
		classify := func(t types.Type) string {
			k := types.TypeString(t, nil)
			it, ok := t.Underlying().(*types.Interface)
			if !ok {
				return k
			}
			has := false
			for i := 0; i < it.NumMethods(); i++ {
				mt := it.Method(i)
				if mt.Name() == m.name {
					sig := mt.Type().(*types.Signature)
					if types.Identical(sig.Params(), fsig.Params()) && types.Identical(sig.Results(), fsig.Results()) {
						has = true
					} else {
						bad[k] = "with another signature than the Ledger method"
					}
				}
			}
			switch {
			case has && it.NumMethods() == 1:
				good[k] = true
			case has:
				bad[k] = "together with other operations"
			}
			return k
		}
		e.H.Instr = func(s *State, c *Ctx, in ssa.Instruction) {
			if ta, ok := in.(*ssa.TypeAssert); ok {
				x := e.val(s, c, ta.X)
				k := classify(ta.AssertedType)
				if good[k] || bad[k] != "" {
					s.gt["is:"+k] = e.tt.mk("istype", k, types.Typ[types.Bool], x)
				}
			}
		}
		e.H.After = func(s *State, c *Ctx, in ssa.CallInstruction, name string, args []*Term, res *Term) {
			if !in.Common().IsInvoke() {
				return
			}
			if args[0].Op != "asserted" && !types.Identical(args[0].T, p.RootType("Connection")) {
				return
			}
			if in.Common().Method.Name() != m.name {
				s.gs["other:"+in.Common().Method.Name()] = "1"
				return
			}
			if s.gs["called"] != "" {
				s.gs["called"] = "twice"
				return
			}
			s.gs["called"] = "once"
			s.gs["calledas"] = args[0].S
			ok := len(args) == len(ps)
			for i := 1; ok && i < len(args); i++ {
				if !e.equal(s, args[i], ps[i]) {
					ok = false
				}
			}
			r.Add("arguments-passed", cons, p.InstrPos(in), ok, "the arguments are not passed on unchanged; %s", e.path(s))
			if res != nil {
				s.gt["res"] = res
			}
		}
		e.H.Store = func(s *State, c *Ctx, in ssa.Instruction, addr, val *Term, t types.Type) {
			root := rootOf(addr)
			if allocTerm(root) {
				return
			}
			s.gs["stored"] = p.InstrPos(in)
		}
		e.H.MapWrite = func(s *State, c *Ctx, in ssa.Instruction, mm, k, v *Term) {
			if !allocTerm(rootOf(mm)) {
				s.gs["stored"] = p.InstrPos(in)
			}
		}
		nf, nn := 0, 0
		e.H.Return = func(s *State, c *Ctx, in ssa.Instruction, res []*Term) {
			if c.parent != nil {
				return
			}
			pos := p.InstrPos(in)
			asked, is := false, false
			for k := range good {
				t := s.gt["is:"+k]
				if t == nil {
					continue
				}
				asked = true
				if e.implied(s, t, true) {
					is = true
				} else if !e.implied(s, t, false) {
					asked = false
				}
			}
			r.Add("asked", cons, pos, asked, "the method answers without asking whether the connection implements %s (an interface with just that operation and the method's own signature)%s; %s", m.name, why(bad), e.path(s))
			for k := range s.gs {
				if strings.HasPrefix(k, "other:") {
					r.Bad("only-that-operation", cons, pos, "the connection's %s is called; %s", strings.TrimPrefix(k, "other:"), e.path(s))
				}
			}
			if is {
				nf++
				r.Add("forwarded", cons, pos, s.gs["called"] == "once", "the connection implements %s but it is called %s; %s", m.name, map[string]string{"": "never", "twice": "more than once"}[s.gs["called"]], e.path(s))
				rt := s.gt["res"]
				ok := rt != nil
				if ok {
					if len(res) == 1 {
						ok = e.equal(s, rt, res[0])
					} else {
						ok = rt.Op == "tuple" && len(rt.A) == len(res)
						for i := 0; ok && i < len(res); i++ {
							ok = e.equal(s, rt.A[i], res[i])
						}
					}
				}
				r.Add("results-unchanged", cons, pos, ok, "the results of the connection's %s are not returned unchanged; %s", m.name, e.path(s))
				r.Add("ledger-unchanged", cons, pos, s.gs["stored"] == "", "the ledger is changed at %s", s.gs["stored"])
				return
			}
			nn++
			r.Add("not-forwarded", cons, pos, s.gs["called"] == "", "the operation is called although the connection does not implement it; %s", e.path(s))
			switch m.kind {
			case "edit":
				ok := len(res) == 2 && e.isNil(s, res[0]) && e.notNil(s, res[1])
				r.Add("refused", cons, pos, ok, "the operation is not implemented, but the method does not return nil and an error; %s", e.path(s))
				r.Add("ledger-unchanged", cons, pos, s.gs["stored"] == "", "the ledger is changed at %s", s.gs["stored"])
			case "flush":
				r.Add("flush-nil", cons, pos, e.isNil(s, res[0]), "Flush returns an error although the connection needs no flushing; %s", e.path(s))
			case "query":
				r.Add("ledger-unchanged", cons, pos, s.gs["stored"] == "", "the ledger is changed at %s", s.gs["stored"])
			}
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					r.Bad("undecided", cons, p.Pos(f.Pos()), "%v", x)
				}
			}()
			e.Run(f, s0, ps)
		}()
		r.Add("both-cases", cons, p.Pos(f.Pos()), nf > 0 && nn > 0, "the method does not distinguish whether the connection implements %s%s", m.name, why(bad))
		r.Counts["abstract steps"] += e.Steps
		if m.kind == "query" {
			// it answers from the ledger: something of it is read in the other case
			ok := false
			for g := range p.reach(f) {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if fa, is := in.(*ssa.FieldAddr); is && types.Identical(deref(fa.X.Type()), lt) {
							if n := structOf(lt).Field(fa.Field).Name(); n == "Accounts" || n == "Transactions" {
								ok = true
							}
						}
					}
				}
			}
			r.Add("answered-from-ledger", cons, p.Pos(f.Pos()), ok, "without the optional operation the method does not look at the ledger")
		}
	}
	r.Expect("forwarded", len(p23Methods))
}

func why(bad map[string]string) string {
	for k, v := range bad {
		return fmt.Sprintf(" (it asks for %s, %s)", k, v)
	}
	return ""
}
