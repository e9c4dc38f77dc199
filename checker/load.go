package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the resolved program: every package of /repo, type-checked with the
// build's own flags, in SSA form.
type Prog struct {
	Repo       string
	Fset       *token.FileSet
	Pkgs       []*packages.Package
	SSA        *ssa.Program
	SPkgs      []*ssa.Package
	Funcs      []*ssa.Function // all source functions of the module, incl. methods and closures
	isMod      map[*ssa.Function]bool
	Mod        string
	Root       *ssa.Package // package accounting
	impls      map[string][]*ssa.Function
	closures   map[string]*ssa.Function
	byName     map[string]*ssa.Function
	calleeMemo map[*ssa.Function][]*ssa.Function
}

func Load(repo string) (*Prog, error) {
	env := os.Environ()
	env = append(env, "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOFLAGS=-mod=readonly")
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repo, Env: env}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "; "))
	}
	p := &Prog{Repo: repo, Pkgs: pkgs, isMod: map[*ssa.Function]bool{}, closures: map[string]*ssa.Function{}, byName: map[string]*ssa.Function{}, calleeMemo: map[*ssa.Function][]*ssa.Function{}}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", repo)
	}
	p.Fset = pkgs[0].Fset
	p.SSA, p.SPkgs = ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	p.SSA.Build()
	for i, sp := range p.SPkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		if pkgs[i].Module != nil && p.Mod == "" {
			p.Mod = pkgs[i].Module.Path
		}
		if pkgs[i].PkgPath == p.Mod {
			p.Root = sp
		}
	}
	if p.Root == nil {
		return nil, fmt.Errorf("root package not found")
	}
	inMod := map[*ssa.Package]bool{}
	for _, sp := range p.SPkgs {
		inMod[sp] = true
	}
	for f := range ssautil.AllFunctions(p.SSA) {
		if f.Pkg == nil || !inMod[f.Pkg] || len(f.Blocks) == 0 {
			continue
		}
		p.isMod[f] = true
		rotateLoops(f)
		counterFirst(f)
		p.byName[f.String()] = f
		if f.Synthetic == "" || f.Name() == "init" {
			p.Funcs = append(p.Funcs, f)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		if a, b := p.Funcs[i].String(), p.Funcs[j].String(); a != b {
			return a < b
		}
		return p.Funcs[i].Pos() < p.Funcs[j].Pos()
	})
	return p, nil
}

// IsLib tells whether f belongs to the library (not to a command).
func (p *Prog) IsLib(f *ssa.Function) bool {
	return f.Pkg != nil && f.Pkg.Pkg.Name() != "main"
}

// Pos gives file:line relative to the repository.
func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Repo, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// InstrPos finds a usable position for an instruction.
func (p *Prog) InstrPos(in ssa.Instruction) string {
	if in == nil {
		return "-"
	}
	if in.Pos().IsValid() {
		return p.Pos(in.Pos())
	}
	if v, ok := in.(ssa.Value); ok {
		if refs := v.Referrers(); refs != nil {
			for _, r := range *refs {
				if r.Pos().IsValid() {
					return p.Pos(r.Pos())
				}
			}
		}
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && (*op).Pos().IsValid() {
			return p.Pos((*op).Pos())
		}
	}
	b := in.Block()
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return p.Pos(i.Pos())
		}
	}
	return p.Pos(in.Parent().Pos())
}

// Fn is a short stable name of a function for reports.
func (p *Prog) Fn(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, p.Mod+"/", "")
	s = strings.ReplaceAll(s, p.Mod, "accounting")
	return s
}

// Member finds a package-level function or method: "Open", "(*Ledger).Fill".
func (p *Prog) RootFunc(name string) *ssa.Function { return p.Func(p.Root, name) }

func (p *Prog) Func(pkg *ssa.Package, name string) *ssa.Function {
	if !strings.HasPrefix(name, "(") {
		return pkg.Func(name)
	}
	end := strings.Index(name, ")")
	recv, meth := name[1:end], name[end+2:]
	ptr := strings.HasPrefix(recv, "*")
	recv = strings.TrimPrefix(recv, "*")
	t := pkg.Type(recv)
	if t == nil {
		return nil
	}
	var typ types.Type = t.Type()
	if ptr {
		typ = types.NewPointer(typ)
	}
	return p.Method(typ, pkg.Pkg, meth)
}

// Method finds the source method name on typ, whichever receiver it is declared with.
func (p *Prog) Method(typ types.Type, pkg *types.Package, meth string) *ssa.Function {
	for _, t := range []types.Type{typ, types.NewPointer(typ)} {
		obj, _, _ := types.LookupFieldOrMethod(t, true, pkg, meth)
		if fn, ok := obj.(*types.Func); ok {
			return p.SSA.FuncValue(fn)
		}
	}
	return nil
}

// RootType gives a named type of package accounting.
func (p *Prog) RootType(name string) *types.Named {
	t := p.Root.Type(name)
	if t == nil {
		return nil
	}
	n, _ := t.Type().(*types.Named)
	return n
}

func (p *Prog) PkgByPath(suffix string) *ssa.Package {
	for _, sp := range p.SPkgs {
		if sp.Pkg.Path() == p.Mod+"/"+suffix {
			return sp
		}
	}
	return nil
}

// Drivers lists the Open methods of every type of the module that implements
// accounting.Driver.
func (p *Prog) Implementers(iface string, meth string) []*ssa.Function {
	key := iface + "." + meth
	if p.impls == nil {
		p.impls = map[string][]*ssa.Function{}
	}
	if r, ok := p.impls[key]; ok {
		return r
	}
	in := p.RootType(iface)
	if in == nil {
		return nil
	}
	it := in.Underlying().(*types.Interface)
	r := p.implementersOf(it, meth)
	p.impls[key] = r
	return r
}

func (p *Prog) implementersOf(it *types.Interface, meth string) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, sp := range p.SPkgs {
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			t, ok := sp.Members[n].(*ssa.Type)
			if !ok {
				continue
			}
			for _, typ := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if types.IsInterface(typ) || !types.Implements(typ, it) {
					continue
				}
				f := p.Method(typ, sp.Pkg, meth)
				if f != nil && !seen[f] && len(f.Blocks) > 0 {
					seen[f] = true
					out = append(out, f)
				}
			}
		}
	}
	return out
}

// calleeName gives the resolved name of a call's static callee, such as
// "os.Open", "(*os.File).Close", "(io.Writer).Write", "builtin.len".
func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return fmt.Sprintf("(%s).%s", c.Value.Type().String(), c.Method.Name())
	}
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		return "builtin." + v.Name()
	case *ssa.Function:
		if o := v.Object(); o != nil {
			if fn, ok := o.(*types.Func); ok {
				return fn.FullName()
			}
		}
		return v.String()
	}
	return ""
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// typeName: short name of a named type ("Split", "time.Time"), "" otherwise.
func (p *Prog) typeName(t types.Type) string {
	n, ok := t.(*types.Named)
	if !ok {
		if a, ok2 := t.(*types.Alias); ok2 {
			return p.typeName(types.Unalias(a))
		}
		return ""
	}
	o := n.Obj()
	if o.Pkg() == nil {
		return o.Name()
	}
	if o.Pkg() == p.Root.Pkg {
		return o.Name()
	}
	return o.Pkg().Name() + "." + o.Name()
}
