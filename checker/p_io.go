package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P07", "other", checkP07)
	register("P08", "other", checkP08)
}

// extPkg: the package of an external callee, from its full name.
func extPkg(name string) string {
	n := strings.TrimPrefix(strings.TrimPrefix(name, "("), "*")
	i := strings.LastIndex(n, "/")
	j := strings.Index(n[i+1:], ".")
	if j < 0 {
		return n
	}
	return n[:i+1+j]
}

func sourcePkg(pk string) bool {
	switch pk {
	case "os", "io", "io/ioutil", "io/fs", "bufio", "database/sql", "net/url", "encoding/csv", "compress/gzip", "net", "net/http", "path/filepath":
		return true
	}
	return false
}

// readOp: an operation on a data source that can fail.
func readOp(name string, res *types.Tuple) bool {
	if res == nil || !sourcePkg(extPkg(name)) || strings.HasSuffix(name, ".Close") {
		return false
	}
	for i := 0; i < res.Len(); i++ {
		if isErr(res.At(i).Type()) {
			return true
		}
	}
	return false
}

// scanOp: advancing to the next line or row; failure is told by Err.
func scanOp(name string) bool {
	return name == "(*bufio.Scanner).Scan" || name == "(*database/sql.Rows).Next"
}

func errOp(name string) bool {
	return name == "(*bufio.Scanner).Err" || name == "(*database/sql.Rows).Err"
}

func isDiag(name string) bool {
	return strings.HasPrefix(name, "log.Print") || strings.HasPrefix(name, "(*log.Logger).Print") || strings.HasPrefix(name, "(*log.Logger).Output") || name == "log.Output" ||
		strings.HasPrefix(name, "fmt.Print") || strings.HasPrefix(name, "fmt.Fprint") || name == "builtin.println" || name == "builtin.print"
}

// ioFuncs: module functions from which a data source operation is reached.
func (p *Prog) ioFuncs(want func(name string, cc *ssa.CallCommon) bool) map[*ssa.Function]bool {
	direct := map[*ssa.Function]bool{}
	for f := range p.isMod {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if want(calleeName(ci.Common()), ci.Common()) {
						direct[f] = true
					}
				}
			}
		}
	}
	out := map[*ssa.Function]bool{}
	for f := range p.isMod {
		for g := range p.reach(f) {
			if direct[g] {
				out[f] = true
				break
			}
		}
	}
	return out
}

func hasErrParam(f *ssa.Function) bool {
	for _, pa := range f.Params {
		if isErr(pa.Type()) {
			return true
		}
	}
	for _, fv := range f.FreeVars {
		if isErr(deref(fv.Type())) {
			return true
		}
	}
	return false
}

// inLoop: does the call chain pass through a loop body?
func (e *Eng) inLoop(c *Ctx, in ssa.Instruction) bool {
	b := in.Block()
	for c != nil {
		for _, l := range e.flow(c.fn).loops {
			if l.blocks[b] {
				return true
			}
		}
		if c.call == nil {
			return false
		}
		b = c.call.Block()
		c = c.parent
	}
	return false
}

func mentions(t *Term, subs ...*Term) bool {
	for _, x := range subs {
		if x != nil && contains(t, x) {
			return true
		}
	}
	return false
}

// errIn: the error carried by a result (itself, or a field of a structure).
func (e *Eng) errsIn(v *Term) (out []*Term) {
	if v == nil {
		return
	}
	if isErr(v.T) {
		return []*Term{v}
	}
	if v.Op == "tuple" {
		for _, x := range v.A {
			out = append(out, e.errsIn(x)...)
		}
		return
	}
	if st := structOf(v.T); st != nil && !e.atomicStruct(v.T) {
		for i := 0; i < st.NumFields(); i++ {
			if isErr(st.Field(i).Type()) {
				out = append(out, e.tt.fieldOf(v, st, i))
			}
		}
	}
	return
}

func checkP07(p *Prog, r *Report) {
	r.Expl = "Abstract interpretation of every driver's Open on all paths. Each operation on the data source (os, io, bufio, database/sql, net/url) leaves a pending error in the abstract state until the path shows it is nil (or io.EOF); " +
		"a Scan or Next that returned false leaves a pending failure until Err has been asked. Returning without a non-nil error while something is pending is a violation; only opening an included file may instead print the error."
	drivers := p.Implementers("Driver", "Open")
	io := p.ioFuncs(func(n string, cc *ssa.CallCommon) bool {
		return readOp(n, cc.Signature().Results()) || scanOp(n) || errOp(n)
	})
	diag := p.ioFuncs(func(n string, cc *ssa.CallCommon) bool { return isDiag(n) })
	sites := map[ssa.Instruction]string{}
	for _, root := range drivers {
		root := root
		e := NewEng(p)
		e.coarse()
		e.H.Opaque = func(f *ssa.Function) bool { return !io[f] && !hasErrParam(f) && !(diag[f] && len(f.Blocks) < 4) }
		eof := func(s *State) *Term {
			g := e.tt.intern(&Term{Op: "global", S: "io.EOF", T: types.NewPointer(types.Universe.Lookup("error").Type())})
			return e.Load(s, g, types.Universe.Lookup("error").Type())
		}
		settled := func(s *State, er *Term) bool {
			if er == nil {
				return false
			}
			if e.isNil(s, er) {
				return true
			}
			if e.implied(s, e.tt.eq(er, eof(s)), true) {
				return true
			}
			return e.implied(s, e.tt.mk("fn", "errors.Is", types.Typ[types.Bool], er, eof(s)), true)
		}
		clean := func(s *State) {
			for k := range s.gs {
				if strings.HasPrefix(k, "pend:") && settled(s, s.gt[k]) {
					delete(s.gs, k)
					delete(s.gt, k)
					delete(s.gt, "msg"+k[4:])
				}
				if strings.HasPrefix(k, "scan:") && s.gs[k] == "?" {
					if b := s.gt[k]; b != nil {
						if e.implied(s, b, true) {
							s.gs[k] = "more"
						} else if e.implied(s, b, false) {
							s.gs[k] = "end"
						}
					}
				}
				if strings.HasPrefix(k, "scan:") && s.gs[k] == "rec" {
					if er := s.gt[k]; er != nil {
						if e.implied(s, e.tt.eq(er, eof(s)), true) {
							delete(s.gs, k)
						} else if e.isNil(s, er) {
							s.gs[k] = "more"
						}
					}
				}
			}
		}
		e.H.Branch = func(s *State, c *Ctx, in ssa.Instruction, ls []lit) {
			clean(s)
			// an empty list of sources: all of them were read to their end
			for _, x := range lensOf(ls[0].t) {
				if sl, ok := x.T.Underlying().(*types.Slice); ok && len(p.handleFields(sl.Elem())) > 0 && e.implied(s, e.tt.eq(e.tt.length(x), e.tt.intc(0, nil)), true) {
					for k, v := range s.gs {
						if strings.HasPrefix(k, "scan:") && v != "end" {
							delete(s.gs, k)
						}
					}
				}
			}
		}
		e.H.LoopBack = func(s *State, c *Ctx, head *ssa.BasicBlock) { clean(s) }
		e.H.After = func(s *State, c *Ctx, in ssa.CallInstruction, name string, args []*Term, res *Term) {
			if g := in.Common().StaticCallee(); g != nil && p.isMod[g] {
				if c.onStack(g) { // recursion: its result carries its failures (shown where it returns)
					clean(s)
					if es := e.errsIn(res); len(es) == 1 {
						for k := range s.gs {
							if strings.HasPrefix(k, "scan:") && s.gs[k] != "end" {
								delete(s.gs, k)
							}
						}
						k := "scan:" + p.siteName(in, name)
						s.gs[k], s.gt[k] = "rec", es[0]
					}
				}
				return
			}
			site := p.siteName(in, name)
			if scanOp(name) {
				sites[in] = site
				clean(s)
				if s.gs["scan:"+site] == "end" {
					s.gs["lost:"+site] = "1"
				}
				if !isCallSym(args[0]) { // another of the list of sources
					for k, v := range s.gs {
						if strings.HasPrefix(k, "scan:") && v != "end" && v != "?" && !isCallSym(s.gt["of:"+k[5:]]) {
							delete(s.gs, k)
						}
					}
				}
				s.gs["scan:"+site] = "?"
				s.gt["scan:"+site] = res
				s.gt["of:"+site] = args[0]
				return
			}
			if errOp(name) {
				for k := range s.gs {
					if strings.HasPrefix(k, "scan:") && s.gt["of:"+k[5:]] != nil && e.equal(s, s.gt["of:"+k[5:]], args[0]) {
						clean(s)
						if s.gs[k] == "end" || s.gs[k] == "?" {
							delete(s.gs, k)
							delete(s.gt, k)
						}
					}
				}
			}
			er := errResult(res)
			switch {
			case (readOp(name, in.Common().Signature().Results()) || errOp(name)) && er != nil:
				sites[in] = site
				clean(s)
				if s.gs["pend:"+site] != "" {
					s.gs["lost:"+site] = "1"
				}
				s.gs["pend:"+site] = "1"
				if e.inLoop(c, in) && strings.HasPrefix(name, "os.Open") {
					s.gs["pend:"+site] = "include"
				}
				s.gt["pend:"+site] = er
				delete(s.gt, "msg:"+site)
				if errOp(name) { // documented never to be io.EOF
					e.assume(s, e.tt.eq(er, eof(s)), false)
				}
			case name == "fmt.Errorf" || name == "(error).Error" || strings.HasPrefix(name, "fmt.Sprint"):
				var as []*Term
				as = append(as, args...)
				if len(args) > 0 {
					if els, ok := e.varargs(s, args[len(args)-1]); ok {
						as = append(as, els...)
					}
				}
				for k := range s.gs {
					if !strings.HasPrefix(k, "pend:") {
						continue
					}
					for _, a := range as {
						if mentions(a, s.gt[k], s.gt["msg"+k[4:]]) && res != nil {
							s.gt["msg"+k[4:]] = res
						}
					}
				}
			case isDiag(name):
				var as []*Term
				if len(args) > 0 {
					as = append(as, args...)
					if els, ok := e.varargs(s, args[len(args)-1]); ok {
						as = append(as, els...)
					}
				}
				for k, v := range s.gs {
					if v != "include" {
						continue
					}
					for _, a := range as {
						if mentions(a, s.gt[k], s.gt["msg"+k[4:]]) {
							delete(s.gs, k)
							delete(s.gt, k)
							break
						}
					}
				}
			}
		}
		e.H.Return = func(s *State, c *Ctx, in ssa.Instruction, res []*Term) {
			rec := c.parent == nil
			if !rec {
				for g := range p.reach(c.fn) {
					for _, x := range p.callees(g) {
						if x == c.fn {
							rec = true
						}
					}
				}
			}
			if !rec {
				return
			}
			clean(s)
			var errs []*Term
			for _, v := range res {
				errs = append(errs, e.errsIn(v)...)
			}
			for _, er := range errs {
				if e.notNil(s, er) && !settled(s, er) {
					return // a failure is reported
				}
			}
			var ks []string
			for k := range s.gs {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				site := k[strings.Index(k, ":")+1:]
				switch {
				case strings.HasPrefix(k, "lost:"):
					r.Bad("failure-reaches-caller", p.Fn(root)+": "+site, p.InstrPos(in), "a failure of %s in an earlier iteration is forgotten; %s", site, e.path(s))
				case strings.HasPrefix(k, "scan:"):
					if s.gs[k] == "more" || s.gs[k] == "rec" {
						if c.parent == nil {
							r.Bad("read-to-the-end", p.Fn(root)+": "+site, p.InstrPos(in), "the data source is not read to its end; %s", e.path(s))
						}
						continue
					}
					if c.parent != nil && s.gs[k] == "?" {
						continue
					}
					r.Bad("failure-reaches-caller", p.Fn(root)+": "+site, p.InstrPos(in), "%s may have stopped because of a failure, which is not asked for; %s", site, e.path(s))
				case strings.HasPrefix(k, "pend:"):
					ok := false
					for _, er := range errs {
						if s.gt[k] != nil && e.equal(s, er, s.gt[k]) {
							ok = true
						}
					}
					if !ok {
						r.Bad("failure-reaches-caller", p.Fn(root)+": "+site, p.InstrPos(in), "a failure of %s can be dropped: no error is returned%s; %s", site, map[bool]string{true: " or printed"}[s.gs[k] == "include"], e.path(s))
					}
				}
			}
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					r.Bad("undecided", p.Fn(root), p.Pos(root.Pos()), "%v", x)
				}
			}()
			e.Run(root, newState(), e.Params(root))
		}()
		r.Counts["abstract steps"] += e.Steps
		r.Counts["functions interpreted"] += len(e.Fns)
		var ss []ssa.Instruction
		for in := range sites {
			if e.Fns[in.Parent()] {
				ss = append(ss, in)
			}
		}
		for _, in := range ss {
			r.OK("failure-reaches-caller", p.Fn(root)+": "+sites[in], p.InstrPos(in))
		}
		r.Add("driver-reads", p.Fn(root), p.Pos(root.Pos()), len(ss) > 0, "the driver reads nothing")
		// every site the driver can reach was interpreted
		for f := range p.reach(root) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						n := calleeName(ci.Common())
						if (readOp(n, ci.Common().Signature().Results()) || scanOp(n)) && sites[in] == "" && f.Pkg == root.Pkg && feasible(e, in) {
							r.Bad("site-analysed", p.Fn(f)+" "+n, p.InstrPos(in), "this operation on the data source is not reached by the analysis of %s", p.Fn(root))
						}
					}
				}
			}
		}
	}
	r.Counts["operations on data sources"] = len(sites)
	r.Expect("driver-reads", 3)
	r.Expect("failure-reaches-caller", 10)
}

// feasible: the engine interpreted the function, so the site is only left out
// if no path leads to it.
func feasible(e *Eng, in ssa.Instruction) bool { return !e.Fns[in.Parent()] }

// ---- P08 ----

// closable: a handle: a value of an external type with Close() error.
func (p *Prog) closable(t types.Type) bool {
	if t == nil {
		return false
	}
	n, ok := types.Unalias(deref(t)).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || p.inModule(n.Obj().Pkg()) {
		return false
	}
	obj, _, _ := types.LookupFieldOrMethod(t, true, nil, "Close")
	fn, ok := obj.(*types.Func)
	if !ok {
		return false
	}
	sg := fn.Type().(*types.Signature)
	return sg.Params().Len() == 0 && sg.Results().Len() == 1 && isErr(sg.Results().At(0).Type())
}

// opens: index of the handle among the results of an external call, or -1.
func (p *Prog) opens(name string, sig *types.Signature) int {
	if !sourcePkg(extPkg(name)) && extPkg(name) != "syscall" {
		return -1
	}
	res := sig.Results()
	if res.Len() < 2 || !isErr(res.At(res.Len()-1).Type()) {
		return -1
	}
	for i := 0; i < res.Len()-1; i++ {
		if p.closable(res.At(i).Type()) {
			return i
		}
	}
	return -1
}

// handleField: the field of a structure that holds a handle ("" if none).
func (p *Prog) handleFields(t types.Type) []int {
	t = deref(t)
	st := structOf(t)
	var out []int
	if st == nil {
		return nil
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && !p.inModule(n.Obj().Pkg()) {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if p.closable(st.Field(i).Type()) {
			out = append(out, i)
		}
	}
	return out
}

// closerLoop: a loop each of whose iterations closes field F of an element,
// left only at its head; gives the selectors of F.
func (p *Prog) closerLoops(f *ssa.Function) map[*ssa.BasicBlock]map[string]bool {
	out := map[*ssa.BasicBlock]map[string]bool{}
	for _, l := range loopsOf(f) {
		var head *ssa.BasicBlock
		for b := range l {
			all := true
			for x := range l {
				if !b.Dominates(x) {
					all = false
				}
			}
			if all {
				head = b
			}
		}
		if head == nil {
			continue
		}
		ok := true
		for b := range l {
			for _, sc := range b.Succs {
				if !l[sc] && b != head {
					ok = false
				}
			}
		}
		for _, in := range head.Instrs {
			if ph, is := in.(*ssa.Phi); is && isInt(ph.Type()) {
				for i, ed := range ph.Edges {
					if !l[head.Preds[i]] {
						c, isC := ed.(*ssa.Const)
						if !isC || c.Value == nil || (c.Int64() != -1 && c.Int64() != 0) {
							ok = false
						}
					}
				}
			}
		}
		if !ok {
			continue
		}
		for b := range l {
			dom := true
			for _, pr := range head.Preds {
				if l[pr] && !b.Dominates(pr) {
					dom = false
				}
			}
			if !dom {
				continue
			}
			for _, in := range b.Instrs {
				c, is := in.(*ssa.Call)
				if !is || !strings.HasSuffix(calleeName(&c.Call), ").Close") || len(c.Call.Args) != 1 {
					continue
				}
				sel := ""
				switch x := c.Call.Args[0].(type) {
				case *ssa.UnOp:
					if fa, is := x.X.(*ssa.FieldAddr); is {
						sel = ownerName(deref(fa.X.Type())) + "." + structOf(deref(fa.X.Type())).Field(fa.Field).Name()
					}
				case *ssa.Field:
					sel = ownerName(x.X.Type()) + "." + structOf(x.X.Type()).Field(x.Field).Name()
				}
				if sel != "" {
					if out[head] == nil {
						out[head] = map[string]bool{}
					}
					out[head][sel] = true
				}
			}
		}
	}
	return out
}

func checkP08(p *Prog, r *Report) {
	r.Expl = "Typestate of handles (files, row sets, database handles) by abstract interpretation of every driver's Open and every Connection.Close on all paths: a handle is released by Close, or kept in a field; " +
		"a field of the connection must be closed by its Close method, and handles kept in a list must be closed by a loop over the whole list before Open returns, an element leaving the list only after it was closed."
	isOpen := func(n string, cc *ssa.CallCommon) bool { return p.opens(n, cc.Signature()) >= 0 }
	isClose := func(n string, cc *ssa.CallCommon) bool {
		return strings.HasSuffix(n, ").Close") && len(cc.Args) >= 1 && p.closable(cc.Args[0].Type())
	}
	io := p.ioFuncs(func(n string, cc *ssa.CallCommon) bool { return isOpen(n, cc) || isClose(n, cc) })
	// functions that handle a container of handles are interpreted, too
	cont := map[*ssa.Function]bool{}
	for f := range p.isMod {
		for g := range p.reach(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if sl, ok := st.Val.Type().Underlying().(*types.Slice); ok && len(p.handleFields(sl.Elem())) > 0 {
							cont[f] = true
						}
						if p.closable(st.Val.Type()) {
							cont[f] = true
						}
					}
				}
			}
		}
	}
	loops := map[*ssa.BasicBlock]map[string]bool{}
	for f := range p.isMod {
		for h, m := range p.closerLoops(f) {
			loops[h] = m
		}
	}
	connT := p.RootType("Connection").Underlying().(*types.Interface)
	// what each connection's Close closes
	closedBy := map[string]bool{} // selector -> closed on every path of its connection's Close
	for _, f := range p.implementersOf(connT, "Close") {
		f := f
		recv := f.Signature.Recv().Type()
		for _, i := range p.handleFields(deref(recv)) {
			fl := structOf(deref(recv)).Field(i)
			sel := ownerName(deref(recv)) + "." + fl.Name()
			e := NewEng(p)
			ps := e.Params(f)
			want := e.Load(newState(), e.tt.fieldAddr(ps[0], deref(recv), fl.Name(), fl.Type()), fl.Type())
			e.H.Call = func(s *State, c *Ctx, in ssa.CallInstruction, name string, args []*Term) (*Term, bool) {
				if strings.HasSuffix(name, ").Close") && len(args) == 1 && e.equal(s, args[0], want) {
					s.gs["closed"] = "1"
				}
				return nil, false
			}
			ok := true
			e.H.Return = func(s *State, c *Ctx, in ssa.Instruction, res []*Term) {
				if c.parent == nil && s.gs["closed"] == "" && !e.isNil(s, want) {
					ok = false
				}
			}
			e.Run(f, newState(), ps)
			closedBy[sel] = ok
			r.Counts["abstract steps"] += e.Steps
			r.Add("connection-close", p.Fn(f)+" "+fl.Name(), p.Pos(f.Pos()), ok, "Close can return without closing %s", fl.Name())
		}
	}
	sites := map[ssa.Instruction]string{}
	for _, root := range p.Implementers("Driver", "Open") {
		root := root
		e := NewEng(p)
		e.coarse()
		e.H.Opaque = func(f *ssa.Function) bool { return !io[f] && !cont[f] && !hasErrParam(f) }
		live := func(s *State) (ks []string) {
			for k := range s.gs {
				if strings.HasPrefix(k, "h:") {
					if er := s.gt["e"+k[1:]]; er != nil && e.notNil(s, er) {
						delete(s.gs, k)
						continue
					}
					ks = append(ks, k)
				}
			}
			sort.Strings(ks)
			return
		}
		e.H.Branch = func(s *State, c *Ctx, in ssa.Instruction, ls []lit) { live(s) }
		e.H.Call = func(s *State, c *Ctx, in ssa.CallInstruction, name string, args []*Term) (*Term, bool) {
			if strings.HasSuffix(name, ").Close") && len(args) >= 1 && p.closable(args[0].T) {
				for _, k := range live(s) {
					if h := s.gt[k]; h != nil && e.equal(s, h, args[0]) {
						delete(s.gs, k)
						delete(s.gt, k)
					}
				}
				s.gt["lastclosed"] = args[0]
				return nil, false
			}
			return nil, false
		}
		e.H.After = func(s *State, c *Ctx, in ssa.CallInstruction, name string, args []*Term, res *Term) {
			i := p.opens(name, in.Common().Signature())
			if i < 0 {
				return
			}
			site := p.siteName(in, name)
			if _, ok := in.(*ssa.Call); !ok || res == nil || res.Op != "tuple" {
				r.Bad("handle-dropped", site, p.InstrPos(in), "the handle that is opened here is dropped")
				return
			}
			sites[in] = site
			live(s)
			k := "h:" + site
			if s.gs[k] == "live" {
				r.Bad("released", site, p.InstrPos(in), "the handle opened in the previous iteration is still open; %s", e.path(s))
			}
			s.gs[k] = "live"
			s.gt[k] = res.A[i]
			s.gt["e"+k[1:]] = res.A[len(res.A)-1]
		}
		e.H.Store = func(s *State, c *Ctx, in ssa.Instruction, addr, val *Term, t types.Type) {
			if p.closable(t) && addr.Op == "fa" {
				for _, k := range live(s) {
					if h := s.gt[k]; h != nil && e.equal(s, h, val) {
						leaf, _ := leafSel(addr)
						s.gs[k] = "in:" + leaf
					}
				}
				return
			}
			sl, ok := t.Underlying().(*types.Slice)
			if !ok {
				return
			}
			hf := p.handleFields(sl.Elem())
			if len(hf) == 0 || addr.Op != "fa" {
				return
			}
			cons := p.Fn(in.Parent()) + " " + addr.S
			old := e.Load(s, addr, t)
			ok = false
			switch {
			case e.equal(s, old, val):
				ok = true
			case val.Op == "append" && (e.equal(s, val.A[0], old) || old.Op == "append" && prefixOf(old.A, val.A)):
				ok = true
			case old.Op == "append" && (len(old.A) == 2 && e.equal(s, val, old.A[0]) || val.Op == "append" && len(val.A) == len(old.A)-1 && prefixOf(val.A, old.A)):
				ok = true
				for _, i := range hf {
					if lc := s.gt["lastclosed"]; lc == nil || !e.equal(s, e.elemField(s, old.A[len(old.A)-1], i), lc) {
						ok = false
					}
				}
			case e.implied(s, e.tt.eq(e.tt.length(old), e.tt.intc(0, nil)), true) || old.Op == "nil":
				ok = true
			case e.isNil(s, val) || e.implied(s, e.tt.eq(e.tt.length(val), e.tt.intc(0, nil)), true):
				ok = true
				for _, k := range live(s) {
					for _, i := range hf {
						if s.gs[k] == "in:"+ownerName(deref(sl.Elem()))+"."+structOf(deref(sl.Elem())).Field(i).Name() {
							ok = false
						}
					}
				}
			case val.Op == "slice" && e.equal(s, val.A[0], old) && val.A[1].Op == "none":
				n1 := e.tt.addc(e.tt.length(old), -1)
				if val.A[2].Op != "none" && e.equal(s, val.A[2], n1) {
					ok = true
					for _, i := range hf {
						var h *Term
						if el := e.tt.indexAddr(old, n1, sl.Elem()); isPtr(sl.Elem()) {
							h = e.elemField(s, e.Load(s, el, sl.Elem()), i)
						} else {
							fl := structOf(sl.Elem()).Field(i)
							h = e.Load(s, e.tt.fieldAddr(el, sl.Elem(), fl.Name(), fl.Type()), fl.Type())
						}
						if lc := s.gt["lastclosed"]; lc == nil || !e.equal(s, h, lc) {
							ok = false
						}
					}
				}
			}
			r.Add("leaves-list-closed", cons, p.InstrPos(in), ok, "an open handle can leave the list without being closed; %s", e.path(s))
		}
		e.H.LoopOut = func(s *State, c *Ctx, head *ssa.BasicBlock) {
			for sel := range loops[head] {
				for k, v := range s.gs {
					if v == "in:"+sel {
						delete(s.gs, k)
						delete(s.gt, k)
					}
				}
			}
		}
		e.H.Return = func(s *State, c *Ctx, in ssa.Instruction, res []*Term) {
			if c.parent != nil {
				return
			}
			failed := !e.isNil(s, res[len(res)-1])
			for _, k := range live(s) {
				site := k[2:]
				v := s.gs[k]
				if strings.HasPrefix(v, "in:") && !failed {
					_, isField := closedBy[v[3:]]
					r.Add("released", site, p.InstrPos(in), isField, "the handle kept in %s is still open when loading ends; %s", v[3:], e.path(s))
					continue
				}
				r.Bad("released", site, p.InstrPos(in), "the handle is still open when %s returns%s; %s", p.Fn(root), map[bool]string{true: " (an error)"}[failed], e.path(s))
			}
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					r.Bad("undecided", p.Fn(root), p.Pos(root.Pos()), "%v", x)
				}
			}()
			e.Run(root, newState(), e.Params(root))
		}()
		r.Counts["abstract steps"] += e.Steps
		r.Counts["functions interpreted"] += len(e.Fns)
		for in, site := range sites {
			if e.Fns[in.Parent()] {
				r.OK("released", site, p.InstrPos(in))
			}
		}
	}
	for _, f := range p.Funcs {
		if !p.IsLib(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && isOpen(calleeName(ci.Common()), ci.Common()) && sites[in] == "" {
					r.Bad("site-analysed", p.Fn(f)+" "+calleeName(ci.Common()), p.InstrPos(in), "a handle is opened where no driver's Open leads, or where no path leads")
				}
			}
		}
	}
	r.Counts["handles opened"] = len(sites)
	r.Expect("released", 5)
	r.Expect("connection-close", 1)
	r.Expect("leaves-list-closed", 1)
}

// elemField: field i of an element of a list, which is a structure or the
// address of one.
func (e *Eng) elemField(s *State, x *Term, i int) *Term {
	if x.T != nil && isPtr(x.T) {
		t := deref(x.T)
		fl := structOf(t).Field(i)
		return e.Load(s, e.tt.fieldAddr(x, t, fl.Name(), fl.Type()), fl.Type())
	}
	return e.tt.fieldOf(x, structOf(x.T), i)
}

// siteName: the function and the callee, numbered if there are several.
func (p *Prog) siteName(in ssa.Instruction, name string) string {
	n, i := 0, 0
	for _, b := range in.Parent().Blocks {
		for _, x := range b.Instrs {
			if ci, ok := x.(ssa.CallInstruction); ok && calleeName(ci.Common()) == name {
				n++
			}
			if x == in {
				i = n
			}
		}
	}
	s := p.Fn(in.Parent()) + " " + name
	if i > 1 {
		s += fmt.Sprintf(" (%d)", i)
	}
	return s
}

func prefixOf(a, b []*Term) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// coarse: forget the facts about texts, numbers and dates.
func (e *Eng) coarse() {
	e.Cap = 12
	e.LCap = 2
	e.PhiRel = func(t types.Type) bool { return !isInt(t) && !isStr(t) && !isBool(t) }
	var rel func(t *Term) bool
	rel = func(t *Term) bool {
		switch t.Op {
		case "not":
			return rel(t.A[0])
		case "eq", "lt":
			for _, a := range t.A {
				if a.T != nil && (isStr(a.T) || isTime(a.T)) {
					return false
				}
				if a.T == nil || isInt(a.T) {
					if _, isC := a.intVal(); !isC && !lenOfList(a) {
						return false
					}
				}
			}
			return true
		}
		return t.Op != "fn" || t.S == "errors.Is"
	}
	e.Fact = rel
}

// lenOfList: does the number involve the length of a slice?
func lenOfList(t *Term) bool {
	if t.Op == "len" {
		if len(t.A) > 0 && t.A[0].Op == "badd" {
			return true
		}
		if len(t.A) == 0 || t.A[0].T == nil {
			return false
		}
		_, ok := t.A[0].T.Underlying().(*types.Slice)
		return ok
	}
	for _, a := range t.A {
		if lenOfList(a) {
			return true
		}
	}
	return false
}

// lensOf: the lists whose length a condition is about.
func lensOf(t *Term) (out []*Term) {
	if t.Op == "len" && len(t.A) > 0 && t.A[0].T != nil {
		out = append(out, t.A[0])
	}
	for _, a := range t.A {
		out = append(out, lensOf(a)...)
	}
	return
}

func isCallSym(t *Term) bool { return t != nil && t.Op == "sym" && t.Info.kind == "call" }

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}
