package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P02", "other", checkP02)
}

// cloneCheck relates what Clone builds to what it is given.
type cloneCheck struct {
	p     *Prog
	e     *Eng
	tr    *Tracker
	r     *Report
	led   *Term            // the original
	kinds []*types.Named   // the types of objects a ledger consists of
	maps  map[*Term]string // maps from originals to copies, and whether they were used well
	init0 map[string]bool  // cells that hold an empty list when a loop begins
	bads  map[string]string
	origs map[*Term]bool
	// the loops that set a field, and those that leave it as it was made
	sets   map[string]map[string]bool
	asMade map[string]string
	pos    string
}

func (k *cloneCheck) kindOf(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok {
		return nil
	}
	for _, x := range k.kinds {
		if x.Obj() == n.Obj() {
			return x
		}
	}
	return nil
}

// orig: a term which is part of the original ledger, whatever the state.
func (k *cloneCheck) orig(t *Term) bool {
	if len(t.A) == 0 {
		return k.orig1(t)
	}
	o, ok := k.origs[t]
	if !ok {
		o = k.orig1(t)
		k.origs[t] = o
	}
	return o
}

func (k *cloneCheck) orig1(t *Term) bool {
	switch t.Op {
	case "sym":
		return t == k.led || t.Info.kind == "next" || t.Info.kind == "param"
	case "load", "lookup":
		return k.orig(t.A[0])
	case "fa", "ia", "asserted", "field", "at", "iface":
		return k.orig(t.A[0])
	}
	return false
}

// norm: loads of the original, and uses of the maps of copies, do not depend on
// when they happen.
func (k *cloneCheck) norm(s *State, t *Term) *Term {
	return k.norm1(k.e.canon(s, t))
}

func (k *cloneCheck) norm1(t *Term) *Term {
	if len(t.A) == 0 {
		return t
	}
	tt := k.e.tt
	na := make([]*Term, len(t.A))
	for i, a := range t.A {
		na[i] = k.norm1(a)
	}
	switch t.Op {
	case "load":
		if k.orig(na[0]) {
			na[1] = k.e.ver0
		}
	case "lookup", "lookupok":
		if _, is := k.maps[na[0]]; is || k.orig(na[0]) {
			na[2] = k.e.ver0
		}
	}
	return tt.rebuild(t, na)
}

// copyOf: the copies of original object o, of the given type.
func (k *cloneCheck) copyOf(s *State, o *Term, t types.Type) (out []*Term) {
	no := k.norm(s, o)
	for m := range k.maps {
		mt := m.T.Underlying().(*types.Map)
		key, nkey := o, no
		if types.IsInterface(mt.Key()) {
			key = k.e.tt.mk("iface", types.TypeString(t, nil), mt.Key(), o)
			nkey = k.e.tt.mk("iface", types.TypeString(t, nil), mt.Key(), no)
		} else if !types.Identical(mt.Key(), t) {
			continue
		}
		add := func(v *Term) {
			if types.IsInterface(mt.Elem()) {
				if v.Op == "iface" {
					v = v.A[0]
				} else {
					v = k.e.tt.mk("asserted", types.TypeString(t, nil), t, v)
				}
			}
			out = append(out, v)
		}
		v, _ := k.e.lookup(s, m, key, m.T)
		add(v)
		for a := range s.lits {
			if a.Op == "done" && a.S == "copy" && a.A[0] == m && k.norm1(a.A[1]) == nkey {
				add(a.A[2])
			}
		}
		add(k.e.tt.mk("lookup", "", mt.Elem(), m, nkey, k.e.ver0))
		for a, v := range s.mem {
			if a.Op == "me" && a.A[0] == m && a.A[1] != key && k.norm(s, a.A[1]) == nkey {
				add(v)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	return
}

// isCopy: is v the copy of original object o?
func (k *cloneCheck) isCopy(s *State, v, o *Term, t types.Type) bool {
	if k.e.isNil(s, o) {
		return k.e.isNil(s, v)
	}
	nv := k.norm(s, v)
	if k.isLookup(nv) && !k.listed(t) && !k.present(s, v) && !k.registered(s, nv) {
		return false // there may be none
	}
	for _, c := range k.copyOf(s, o, t) {
		if nc := k.norm(s, c); nc == nv || k.e.equal(s, c, v) {
			return true
		}
	}
	// the same original under another name
	return k.isLookup(nv) && k.same(s, unface(nv.A[1]), o)
}

// inList: an element of a list of the ledger or of an object in one.
func (k *cloneCheck) inList(o *Term, led *types.Named) bool {
	if o.Op != "load" || o.A[0].Op != "ia" {
		return false
	}
	l := o.A[0].A[0]
	if l.Op != "load" || l.A[0].Op != "fa" {
		return false
	}
	n := strings.SplitN(l.A[0].S, ".", 2)[0]
	if n == led.Obj().Name() {
		return true
	}
	return n == "Transaction" && k.inList(l.A[0].A[0], led)
}

func unface(t *Term) *Term {
	if t.Op == "iface" {
		return t.A[0]
	}
	return t
}

// unset: the value of a field of a copy which has not been set by this loop:
// it is empty if no other one sets it.
func (k *cloneCheck) unset(v *Term) bool {
	if v.Op == "load" && v.A[0].Op == "fa" && k.isLookup(v.A[0].A[0]) {
		k.asMade[v.A[0].S] = "*"
		return true
	}
	return false
}

func (k *cloneCheck) isLookup(t *Term) bool {
	if t.Op == "asserted" {
		t = t.A[0]
	}
	if t.Op != "lookup" {
		return false
	}
	_, is := k.maps[t.A[0]]
	return is
}

// present: is this an entry which there is?
func (k *cloneCheck) present(s *State, v *Term) bool {
	if k.e.notNil(s, v) {
		return true
	}
	if v.Op == "asserted" {
		v = v.A[0]
	}
	return v.Op == "lookup" && k.e.implied(s, k.e.tt.mk("lookupok", "", types.Typ[types.Bool], v.A...), true)
}

// registered: is this the entry of an element of a list all of whose elements
// have been given one?
func (k *cloneCheck) registered(s *State, l *Term) bool {
	if l.Op == "asserted" {
		l = l.A[0]
	}
	o := unface(l.A[1])
	return o.Op == "load" && o.A[0].Op == "ia" && k.tr.Done(s, "reg/"+l.A[0].key, o.A[0].A[0])
}

// pending: copies must have been filled when the function that makes them ends.
func (k *cloneCheck) pending(s *State) {
	for g, v := range s.gt {
		if !strings.HasPrefix(g, "fill/") || v.Op != "tuple" {
			continue
		}
		n, o := v.A[0], v.A[1]
		kind := k.kindOf(n.T)
		st := structOf(kind)
		for i := 0; i < st.NumFields(); i++ {
			fl := st.Field(i)
			x := k.e.Load(s, k.e.tt.fieldAddr(n, kind, fl.Name(), fl.Type()), fl.Type())
			w := k.e.Load(s, k.norm1(k.e.tt.fieldAddr(k.norm(s, o), kind, fl.Name(), fl.Type())), fl.Type())
			why := k.rel(s, x, w, fl.Type())
			k.r.Add("filled", kind.Obj().Name()+"."+fl.Name(), k.pos, why == "", "the copy of a %s not in the ledger's list does not get its %s: %s", kind.Obj().Name(), fl.Name(), why)
		}
		delete(s.gt, g)
	}
}

// listed: every object of this type in use is in a list of the ledger;
// currencies need not be.
func (k *cloneCheck) listed(t types.Type) bool {
	n := k.kindOf(t)
	return n != nil && n.Obj().Name() != "Currency"
}

func (k *cloneCheck) same(s *State, a, b *Term) bool {
	return k.norm(s, a) == k.norm(s, b) || k.e.equal(s, a, b)
}

// rel: does v stand for original value w?  The reason if it does not.
func (k *cloneCheck) rel(s *State, v, w *Term, t types.Type) string {
	e := k.e
	if e.isZero(s, w, t) && e.isZero(s, v, t) {
		return ""
	}
	if k.kindOf(t) != nil {
		if k.isCopy(s, v, w, t) || k.tr.Done(s, "is", v, w) {
			return ""
		}
		return fmt.Sprintf("it is not the copy of %s", short(w))
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		// a time
		if v.Op == "fa" && k.kindOf(v.A[0].T) != nil {
			// the field of some copy: the original must be that field of its original
			nv := k.norm(s, v)
			nw := k.norm(s, w)
			if nv.Op == "fa" && nw.Op == "fa" && nv.S == nw.S && k.isCopy(s, v.A[0], nw.A[0], v.A[0].T) {
				return ""
			}
			for a := range s.lits {
				if a.Op == "eq" && s.lits[a] {
					for i := 0; i < 2; i++ {
						x, y := k.norm1(a.A[i]), a.A[1-i]
						if x == nw && y.Op == "fa" && y.S == v.S && k.isCopy(s, v.A[0], y.A[0], v.A[0].T) {
							return ""
						}
					}
				}
			}
			return fmt.Sprintf("it points into an object of the copy, %s not into the same object of the original", short(w))
		}
		if r := rootOf(v); allocTerm(r) && r == v {
			x, y := e.Load(s, v, u.Elem()), e.Load(s, w, u.Elem())
			if why := k.rel(s, x, y, u.Elem()); why != "" {
				return why
			}
			return k.notShared(s, w)
		}
		return fmt.Sprintf("it is not a copy of what %s points to", short(w))
	case *types.Struct:
		if e.atomicStruct(t) {
			break
		}
		for i := 0; i < u.NumFields(); i++ {
			if why := k.rel(s, e.tt.fieldOf(v, u, i), e.tt.fieldOf(w, u, i), u.Field(i).Type()); why != "" {
				return u.Field(i).Name() + ": " + why
			}
		}
		return ""
	case *types.Slice:
		nv, nw := v, k.norm(s, w)
		if k.tr.Done(s, "elem", nv, nw) {
			return ""
		}
		if e.zeroLen(s, v) && e.zeroLen(s, w) {
			return ""
		}
		if v.Op == "appendv" && e.zeroLen(s, v.A[0]) && k.same(s, v.A[1], w) && k.p.immutable(u.Elem()) {
			return ""
		}
		return fmt.Sprintf("its elements are not those of %s", short(w))
	case *types.Map:
		if k.tr.Done(s, "entry", v, k.norm(s, w)) {
			return ""
		}
		return fmt.Sprintf("its entries are not those of %s", short(w))
	}
	if k.same(s, v, w) {
		return ""
	}
	return fmt.Sprintf("it is %s, not %s", short(v), short(w))
}

// notShared: a time that gets a copy of its own must not be the one of its
// transaction, which is shared.
func (k *cloneCheck) notShared(s *State, w *Term) string {
	e := k.e
	nw := k.norm(s, w)
	if nw.Op != "load" || nw.A[0].Op != "fa" {
		return ""
	}
	o := nw.A[0].A[0]
	owner := k.kindOf(o.T)
	if owner == nil || nw.A[0].S != "Split.Time" {
		return ""
	}
	// some path fact says that it is not &o.Transaction.Time
	tr := k.norm1(e.tt.mk("load", "", nil, e.tt.mk("fa", "Split.Transaction", nil, o), e.ver0))
	for a, pos := range s.lits {
		if a.Op != "eq" || pos {
			continue
		}
		for i := 0; i < 2; i++ {
			x, y := k.norm1(a.A[i]), k.norm1(a.A[1-i])
			if x == nw && y.Op == "fa" && y.S == "Transaction.Time" {
				b := y.A[0]
				if b.Op == "load" && b.A[0].Op == "fa" && b.A[0].S == "Split.Transaction" && b.A[0].A[0] == o {
					return ""
				}
				// the transaction whose splits are gone over
				if o.Op == "load" && o.A[0].Op == "ia" {
					l := o.A[0].A[0]
					if l.Op == "load" && l.A[0].Op == "fa" && l.A[0].S == "Transaction.Splits" && l.A[0].A[0] == b {
						return ""
					}
				}
			}
		}
	}
	_ = tr
	return "the time of a split gets a copy of its own even when it is its transaction's"
}

// load reads memory by the common form of its addresses.
func (k *cloneCheck) load(s *State, nm map[*Term]*Term, addr *Term, t types.Type) *Term {
	if st := structOf(t); st != nil && !k.e.atomicStruct(t) {
		fs := make([]*Term, st.NumFields())
		for i := range fs {
			fl := st.Field(i)
			fs[i] = k.load(s, nm, k.e.tt.fieldAddr(addr, t, fl.Name(), fl.Type()), fl.Type())
		}
		return k.e.tt.mkStruct(t, fs)
	}
	if v, ok := nm[addr]; ok {
		return v
	}
	return k.e.Load(s, addr, t)
}

func (k *cloneCheck) normMem(s *State) map[*Term]*Term {
	nm := map[*Term]*Term{}
	for a, v := range s.mem {
		if a.Op == "fa" {
			nm[k.norm1(a)] = v
		}
	}
	return nm
}

func (e *Eng) zeroLen(s *State, v *Term) bool {
	return e.implied(s, e.tt.eq(e.tt.length(v), e.tt.intc(0, nil)), true)
}

// isZero: provably the zero value.
func (e *Eng) isZero(s *State, v *Term, t types.Type) bool {
	if isZeroTerm(v) {
		return true
	}
	if st := structOf(t); st != nil && !e.atomicStruct(t) {
		if v.Op == "mk" {
			for i := range v.A {
				if !e.isZero(s, v.A[i], st.Field(i).Type()) {
					return false
				}
			}
			return true
		}
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		return e.zeroLen(s, v)
	}
	return e.implied(s, e.tt.eq(v, e.tt.zero(t)), true)
}

// cells: the lists a loop may build: variables of its head, and memory.
func (k *cloneCheck) cells(s *State, it *Iter, f func(name string, v *Term)) {
	for _, in := range it.Head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if _, isSl := ph.Type().Underlying().(*types.Slice); isSl {
			if v := s.env[vkey{it.C, ph}]; v != nil {
				f(ph.Name(), v)
			}
		}
	}
	for a, v := range s.mem {
		if v.T == nil || a.Op == "me" {
			continue
		}
		if _, isSl := v.T.Underlying().(*types.Slice); isSl {
			f(a.key, v)
		}
	}
}

func checkP02(p *Prog, r *Report) {
	r.Expl = "Abstract interpretation of Ledger.Clone, with every helper inlined: loops that go over all the elements of a list of the original are recognised, and at the end of each iteration every field of the element's copy must hold the element's field " +
		"(for references, the copy of what it refers to; for lists and maps, a list or map filled by a complete loop); at the return every field of the ledger must correspond, and the fields of every kind of object must have been copied for the whole of its list."
	led := p.RootType("Ledger")
	if led == nil {
		r.Bad("anchor", "accounting.Ledger", "", "type not found")
		return
	}
	f := p.Method(types.NewPointer(led), p.Root.Pkg, "Clone")
	if !mustFn(r, f, "Ledger.Clone") {
		return
	}
	e := NewEng(p)
	k := &cloneCheck{p: p, e: e, r: r, maps: map[*Term]string{}, init0: map[string]bool{}, bads: map[string]string{}, origs: map[*Term]bool{}, sets: map[string]map[string]bool{}, asMade: map[string]string{}}
	for _, n := range []string{"Account", "Transaction", "Split", "Currency", "Price"} {
		t := p.RootType(n)
		if t == nil {
			r.Bad("anchor", "accounting."+n, "", "type not found")
			return
		}
		k.kinds = append(k.kinds, t)
	}
	e.Frozen = k.orig
	frozen := func(in ssa.Instruction, a *Term) {
		if k.orig(a) {
			r.Bad("original", p.Fn(in.Parent()), p.InstrPos(in), "Clone writes to the original ledger: %s", short(a))
		}
	}
	e.H.Store = func(s *State, c *Ctx, in ssa.Instruction, addr, val *Term, t types.Type) { frozen(in, addr) }
	tr := e.Track()
	k.tr = tr
	tr.Norm = func(s *State, t *Term) *Term { return k.norm(s, t) }
	// loops whose body has been seen to build a list or map
	type cell struct{ id, name string }
	appended := map[cell]string{} // "" ok, else why not
	seenApp := map[cell]bool{}
	notEmpty := map[cell]bool{}
	tr.In = func(s *State, it *Iter) {
		k.note(s)
		if it.C.parent == nil {
			k.pending(s)
		}
		k.cells(s, it, func(name string, v *Term) {
			if !e.zeroLen(s, v) && !k.unset(v) {
				notEmpty[cell{it.id, name}] = true
			}
		})
	}
	elemType := func(t types.Type) types.Type {
		if sl, ok := t.Underlying().(*types.Slice); ok {
			return sl.Elem()
		}
		return nil
	}
	tr.Back = func(s *State, it *Iter) map[string]string {
		k.note(s)
		if it.C.parent == nil {
			k.pending(s)
		}
		tags := map[string]string{}
		if !k.orig(it.Coll) {
			return tags
		}
		if it.IsMap {
			mt := it.Coll.T.Underlying().(*types.Map)
			val := it.Val
			if val == nil || val.T == nil {
				val, _ = e.lookup(s, it.Coll, it.Key, it.Coll.T)
			}
			for a, v := range s.mem {
				if a.Op != "me" || a.A[0].T == nil || !types.Identical(a.A[0].T, it.Coll.T) || a.A[1].Op == "empty" || !allocTerm(a.A[0]) {
					continue
				}
				if why := k.relKey(s, a.A[1], it.Key, mt.Key()); why == "" {
					tags["entry/"+a.A[0].key] = k.rel(s, v, val, mt.Elem())
				}
			}
			for m := range k.tr.made(s, it.Coll.T) {
				if _, has := tags["entry/"+m.key]; !has {
					tags["entry/"+m.key] = fmt.Sprintf("some keys of %s get no entry; %s", short(it.Coll), e.path(s))
					if e.isZero(s, val, mt.Elem()) && !types.Identical(mt.Elem(), p.RootType("Value")) {
						tags["entry/"+m.key] = ""
					}
				}
			}
			return tags
		}
		et := elemType(it.Coll.T)
		if et == nil {
			return tags
		}
		o := e.Load(s, e.tt.indexAddr(it.Coll, it.Idx, et), et)
		// lists being built, one element per iteration
		for a := range s.mem {
			base := a
			if a.Op == "fa" {
				base = a.A[0]
			}
			if base.Op != "ia" || !types.Identical(deref(base.T), et) || k.orig(base.A[0]) || !e.equal(s, base.A[1], it.Idx) {
				continue
			}
			v := e.Load(s, base, et)
			tags["elem/"+base.A[0].key] = k.rel(s, v, o, et)
		}
		k.cells(s, it, func(name string, v *Term) {
			if v.Op == "append" && len(v.A) == 2 && (v.A[0].Op == "sym" && v.A[0].Info.kind == "hd" || isConstInt(it.Idx, 0) && (e.zeroLen(s, v.A[0]) || k.unset(v.A[0]))) && types.Identical(elemType(v.T), et) {
				c := cell{it.id, name}
				seenApp[c] = true
				if why := k.rel(s, v.A[1], o, et); why != "" && appended[c] == "" {
					appended[c] = why
				}
				tags["app/"+name] = appended[c]
			}
		})
		// the element has a copy
		for m := range k.maps {
			for a := range s.mem {
				if a.Op == "me" && a.A[0] == m && k.norm(s, unface(a.A[1])) == k.norm(s, o) {
					tags["reg/"+m.key] = ""
				}
			}
		}
		// the fields of the copy
		kind := k.kindOf(et)
		if kind == nil {
			return tags
		}
		st := structOf(kind)
		nm := k.normMem(s)
		for _, n := range k.copyOf(s, o, et) {
			for i := 0; i < st.NumFields(); i++ {
				fl := st.Field(i)
				a := e.tt.fieldAddr(n, kind, fl.Name(), fl.Type())
				tag := "field/" + kind.Obj().Name() + "." + fl.Name()
				v := k.load(s, nm, a, fl.Type())
				w := e.Load(s, k.norm1(e.tt.fieldAddr(k.norm(s, o), kind, fl.Name(), fl.Type())), fl.Type())
				touched := false
				for x, y := range nm {
					if underOf(x, a) && !(y.Op == "load" && k.norm1(y.A[0]) == x) {
						touched = true
					}
				}
				why := k.rel(s, v, w, fl.Type())
				name := kind.Obj().Name() + "." + fl.Name()
				if why != "" && !touched {
					if !e.isZero(s, w, fl.Type()) {
						continue
					}
					// nothing to copy: it is as it was made
					why = ""
					if k.asMade[name] == "" {
						k.asMade[name] = it.id
					}
				} else if touched && !e.isZero(s, v, fl.Type()) {
					if k.sets[name] == nil {
						k.sets[name] = map[string]bool{}
					}
					k.sets[name][it.id] = true
				}
				if why != "" {
					why += "; " + e.path(s)
				}
				if old, has := tags[tag]; !has || old == "" {
					tags[tag] = why
				}
			}
		}
		// objects within this one
		for i := 0; i < st.NumFields(); i++ {
			fl := st.Field(i)
			if sl, ok := fl.Type().Underlying().(*types.Slice); ok {
				if sub := k.kindOf(sl.Elem()); sub != nil {
					w := k.norm(s, e.Load(s, e.tt.fieldAddr(k.norm(s, o), kind, fl.Name(), fl.Type()), fl.Type()))
					ss := structOf(sub)
					for j := 0; j < ss.NumFields(); j++ {
						tag := "field/" + sub.Obj().Name() + "." + ss.Field(j).Name()
						if tr.Done(s, tag, w) {
							tags["in/"+kind.Obj().Name()+"."+fl.Name()+"/"+tag] = ""
						}
					}
				}
			}
		}
		return tags
	}
	tr.Out = func(s *State, it *Iter) {
		st := tr.stat(it.id)
		key := it.Coll.key
		all := func(tag string) bool { return st.backs[key] > 0 && st.oks[key][tag] == st.backs[key] }
		if it.IsMap {
			for m := range tr.made(s, it.Coll.T) {
				if all("entry/" + m.key) {
					tr.Mark(s, "entry", m, it.Coll)
				}
			}
			return
		}
		// lists of the right length filled by index
		for m := range k.lists(s) {
			if all("elem/"+m.key) && k.same(s, e.tt.length(m), e.tt.length(it.Coll)) {
				tr.Mark(s, "elem", m, it.Coll)
			} else if all("elem/"+m.key) && it.Len != nil && e.equal(s, e.tt.length(m), it.Len) {
				tr.Mark(s, "elem", m, it.Coll)
			}
		}
		k.cells(s, it, func(name string, v *Term) {
			c := cell{it.id, name}
			if seenApp[c] && appended[c] == "" && !notEmpty[c] && all("app/"+name) {
				tr.Mark(s, "elem", v, it.Coll)
			}
		})
	}
	// maps of copies: every original gets one copy, once
	e.H.MapWrite = func(s *State, c *Ctx, in ssa.Instruction, m, key, v *Term) {
		frozen(in, m)
		if !allocTerm(m) {
			return
		}
		mt := m.T.Underlying().(*types.Map)
		vv := v
		if vv.Op == "iface" {
			vv = vv.A[0]
		}
		if k.kindOf(vv.T) == nil || k.kindOf(mt.Key()) == nil && !types.IsInterface(mt.Key()) {
			return
		}
		if _, is := k.maps[m]; !is {
			k.maps[m] = ""
		}
		name := p.Fn(in.Parent()) + ": copies of " + vv.T.String()
		old, ok := e.lookup(s, m, key, m.T)
		fresh := allocTerm(vv)
		absent := tr.Done(s, "unused", m) || e.isNil(s, old) || e.implied(s, ok, false)
		if !fresh {
			r.Bad("one-copy", name, p.InstrPos(in), "an object is registered as a copy which is not a new one: %s", short(vv))
		} else if !absent {
			r.Bad("one-copy", name, p.InstrPos(in), "an original may get a second copy after the first one was used; %s", e.path(s))
		} else {
			r.OK("one-copy", name, p.InstrPos(in))
			// entries never change, so that this holds from now on
			tr.Mark(s, "copy", m, k.norm(s, key), v)
			if o := k.norm(s, unface(key)); !k.inList(o, led) {
				s.gt["fill/"+vv.key] = e.tt.mk("tuple", "", nil, vv, o)
			}
		}
	}
	e.H.After = func(s *State, c *Ctx, in ssa.CallInstruction, name string, args []*Term, res *Term) {
		if b, is := in.Common().Value.(*ssa.Builtin); is && b.Name() == "copy" && len(args) == 2 {
			if et := elemType(args[0].T); et != nil && p.immutable(et) && k.same(s, e.tt.length(args[0]), e.tt.length(args[1])) {
				tr.Mark(s, "elem", args[0], k.norm(s, args[1]))
			}
		}
	}
	e.H.Instr = func(s *State, c *Ctx, in ssa.Instruction) {
		if b := in.Block(); len(b.Preds) > 1 {
			for i := range b.Instrs {
				if _, isPhi := b.Instrs[i].(*ssa.Phi); !isPhi {
					if b.Instrs[i] == in {
						k.note(s)
					}
					break
				}
			}
		}
		if mm, ok := in.(*ssa.MakeMap); ok {
			tr.Mark(s, "unused", e.newSym("make", mm.Name(), mm.Type(), c, mm, mm))
		}
		if lk, ok := in.(*ssa.Lookup); ok {
			if m := e.val(s, c, lk.X); m != nil && allocTerm(m) {
				delete(s.lits, tr.atom("unused", m))
				s.sv = nil
			}
		}
	}
	led0 := e.Params(f)
	k.led = led0[0]
	pos := p.Pos(f.Pos())
	k.pos = pos
	ret := 0
	e.H.Return = func(s *State, c *Ctx, in ssa.Instruction, res []*Term) {
		if c.parent == nil || c.parent.parent == nil {
			k.pending(s)
		}
		if c.parent != nil || len(res) != 1 {
			return
		}
		ret++
		k.final(s, led, res[0], pos)
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if u, ok := x.(undecided); ok {
					r.Bad("copied", p.Fn(f), pos, "not decided: %s", u.msg)
					return
				}
				panic(x)
			}
		}()
		e.Run(f, newState(), led0)
	}()
	if ret == 0 {
		r.Bad("copied", p.Fn(f), pos, "Clone was not seen to return")
	}
	r.Counts["abstract steps"] = e.Steps
	r.Counts["functions interpreted"] = len(e.Fns)
	r.Expect("field", 20)
	r.Expect("ledger-field", 8)
	r.Expect("one-copy", 1)
}

// note remembers the entries of the maps of copies, which never change.
func (k *cloneCheck) note(s *State) {
	for a, v := range s.mem {
		if a.Op == "me" && a.A[1].Op != "empty" {
			if _, is := k.maps[a.A[0]]; is {
				k.tr.Mark(s, "copy", a.A[0], k.norm(s, a.A[1]), v)
			}
		}
		if a.Op == "fa" && allocTerm(a.A[0]) && a.T != nil && k.led.T != nil && types.Identical(a.A[0].T, k.led.T) {
			if t := deref(a.T); k.kindOf(t) != nil {
				w := k.e.Load(s, k.e.tt.mk("fa", a.S, a.T, k.led), t)
				if k.isCopy(s, v, w, t) {
					k.tr.Mark(s, "is", v, w)
				}
			}
		}
		if v.Op == "lookup" && k.isLookup(v) && (k.listed(v.T) || k.present(s, v)) {
			k.tr.Mark(s, "copy", v.A[0], k.norm(s, v.A[1]), v)
		}
	}
}

// made: the maps of this type created by Clone.
func (t *Tracker) made(s *State, mt types.Type) map[*Term]bool {
	out := map[*Term]bool{}
	for a := range s.mem {
		if a.Op == "me" && allocTerm(a.A[0]) && types.Identical(a.A[0].T, mt) {
			out[a.A[0]] = true
		}
	}
	for _, v := range s.mem {
		if v.T != nil && allocTerm(v) && types.Identical(v.T, mt) {
			out[v] = true
		}
	}
	return out
}

// lists: the lists created by Clone which s knows.
func (k *cloneCheck) lists(s *State) map[*Term]bool {
	out := map[*Term]bool{}
	add := func(v *Term) {
		if v != nil && v.T != nil && allocTerm(v) {
			if _, ok := v.T.Underlying().(*types.Slice); ok {
				out[v] = true
			}
		}
	}
	for a, v := range s.mem {
		add(v)
		add(rootOf(a))
	}
	for _, v := range s.env {
		add(v)
	}
	return out
}

// relKey: does key v stand for key w of the original?
func (k *cloneCheck) relKey(s *State, v, w *Term, t types.Type) string {
	if !types.IsInterface(t) {
		return k.rel(s, v, w, t)
	}
	e := k.e
	if v.Op == "iface" {
		for _, kind := range k.kinds {
			pt := types.NewPointer(kind)
			if types.TypeString(pt, nil) != v.S {
				continue
			}
			x := e.tt.mk("asserted", v.S, v.A[0].T, w)
			if e.implied(s, e.tt.mk("istype", v.S, types.Typ[types.Bool], w), true) && k.isCopy(s, v.A[0], x, pt) {
				return ""
			}
		}
		return "the key is not the copy of the original key"
	}
	if k.same(s, v, w) {
		for _, kind := range k.kinds {
			if !e.implied(s, e.tt.mk("istype", types.TypeString(types.NewPointer(kind), nil), types.Typ[types.Bool], w), false) {
				return "the key may be an object of the original"
			}
		}
		return ""
	}
	// a map of copies by interface
	if v.Op == "lookup" {
		if _, is := k.maps[v.A[0]]; is && k.same(s, v.A[1], w) {
			return ""
		}
	}
	return "the key is not the copy of the original key"
}

func (k *cloneCheck) final(s *State, led *types.Named, res *Term, pos string) {
	e, r := k.e, k.r
	st := structOf(led)
	for i := 0; i < st.NumFields(); i++ {
		fl := st.Field(i)
		v := e.Load(s, e.tt.fieldAddr(res, led, fl.Name(), fl.Type()), fl.Type())
		w := e.Load(s, k.norm1(e.tt.fieldAddr(k.led, led, fl.Name(), fl.Type())), fl.Type())
		why := k.rel(s, v, w, fl.Type())
		if why != "" {
			for _, lst := range k.tr.st {
				for key, x := range lst.bad {
					if strings.Contains(key, "elem/"+v.key) || strings.Contains(key, "entry/"+v.key) {
						why += ": " + x
					}
				}
			}
		}
		r.Add("ledger-field", "Ledger."+fl.Name(), pos, why == "", "the copy's %s does not hold what the original's does: %s", fl.Name(), why)
	}
	for _, kind := range k.kinds {
		ks := structOf(kind)
		for j := 0; j < ks.NumFields(); j++ {
			name := kind.Obj().Name() + "." + ks.Field(j).Name()
			tag := "field/" + name
			ok := false
			why := ""
			for i := 0; i < st.NumFields(); i++ {
				fl := st.Field(i)
				sl, isSl := fl.Type().Underlying().(*types.Slice)
				if !isSl || k.kindOf(sl.Elem()) == nil {
					continue
				}
				coll := k.norm(s, e.Load(s, k.norm1(e.tt.fieldAddr(k.led, led, fl.Name(), fl.Type())), fl.Type()))
				sub := k.kindOf(sl.Elem())
				if sub.Obj() == kind.Obj() {
					ok = ok || k.tr.Done(s, tag, coll)
					why += k.tr.Why(tag, coll)
					continue
				}
				ss := structOf(sub)
				// the splits of the transactions are all the splits
				if sub.Obj().Name() != "Transaction" {
					continue
				}
				for n := 0; n < ss.NumFields(); n++ {
					ok = ok || k.tr.Done(s, "in/"+sub.Obj().Name()+"."+ss.Field(n).Name()+"/"+tag, coll)
				}
			}
			if id, left := k.asMade[name]; ok && left {
				for o := range k.sets[name] {
					if id == "*" && len(k.sets[name]) > 1 || id != "*" && o != id {
						ok, why = false, "it is left as another loop set it where the original has none"
					}
				}
			}
			if !ok && why == "" {
				best := 0
				for _, lst := range k.tr.st {
					for key, x := range lst.bad {
						if n := len(lst.oks[strings.SplitN(key, "|", 2)[0]]); strings.HasSuffix(key, "|"+tag) && n > best {
							why, best = x, n
						}
					}
				}
				if why == "" {
					why = "no complete loop over them copies it"
				}
			}
			r.Add("field", name, pos, ok, "the copies of all %ss do not get their %s: %s", kind.Obj().Name(), ks.Field(j).Name(), why)
		}
	}
}
