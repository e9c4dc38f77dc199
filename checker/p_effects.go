package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P03", "other", checkP03)
	register("P09", "other", checkP09)
	register("P12", "other", checkP12)
}

// ---- helpers ----

// callers: direct callers (or mentioners) of each module function.
func (p *Prog) callers() map[*ssa.Function]map[*ssa.Function]bool {
	out := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		for _, g := range p.callees(f) {
			if out[g] == nil {
				out[g] = map[*ssa.Function]bool{}
			}
			out[g][f] = true
		}
	}
	return out
}

// onlyFrom: f is root, or an unexported function all of whose uses lie in such
// functions (or in package initialisers, if inits).
func (p *Prog) onlyFrom(root *ssa.Function, inits bool) map[*ssa.Function]bool {
	cal := p.callers()
	ok := map[*ssa.Function]bool{}
	if root != nil {
		ok[root] = true
	}
	isInit := func(f *ssa.Function) bool {
		return f.Synthetic != "" && f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") || f.Name() == "init"
	}
	for changed := true; changed; {
		changed = false
		for _, f := range p.Funcs {
			if ok[f] || !p.IsLib(f) {
				continue
			}
			if inits && isInit(f) {
				ok[f] = true
				changed = true
				continue
			}
			if o := f.Object(); o != nil && o.Exported() {
				continue
			}
			cs := cal[f]
			if f.Parent() != nil {
				if ok[f.Parent()] {
					ok[f] = true
					changed = true
				}
				continue
			}
			if len(cs) == 0 {
				continue
			}
			all := true
			for c := range cs {
				if !ok[c] {
					all = false
				}
			}
			if all {
				ok[f] = true
				changed = true
			}
		}
	}
	return ok
}

// refsExt lists every reference to a function of another module or of the
// standard library in f: calls, method values, function values.
func (p *Prog) refsExt(f *ssa.Function, visit func(in ssa.Instruction, name string, cc *ssa.CallCommon)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			var cc *ssa.CallCommon
			if ci, ok := in.(ssa.CallInstruction); ok {
				cc = ci.Common()
				if g := cc.StaticCallee(); g != nil && g.Name() == "init" && g.Synthetic != "" {
					continue
				}
				if cc.IsInvoke() {
					visit(in, calleeName(cc), cc)
				} else if g := cc.StaticCallee(); g != nil && !p.isMod[g] {
					visit(in, calleeName(cc), cc)
				}
			}
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				g, ok := (*op).(*ssa.Function)
				if !ok || p.isMod[g] || (cc != nil && cc.Value == g) {
					continue
				}
				n := g.String()
				if o, ok := g.Object().(*types.Func); ok {
					n = o.FullName()
				}
				visit(in, n, nil)
			}
		}
	}
}

// ---- P03 ----

var immutableTypes = map[string]bool{"*regexp.Regexp": true, "error": true, "reflect.Type": true, "*time.Location": true, "*strings.Replacer": true}

func (p *Prog) immutable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Signature:
		return true
	case *types.Struct:
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" {
			return true
		}
		for i := 0; i < u.NumFields(); i++ {
			if !p.immutable(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return p.immutable(u.Elem())
	}
	return immutableTypes[types.TypeString(t, func(pk *types.Package) string { return pk.Name() })]
}

type globalUse struct {
	p     *Prog
	r     *Report
	g     *ssa.Global
	write map[*ssa.Function]bool // functions that may write
	seen  map[string]bool
	n     int
}

func (u *globalUse) bad(in ssa.Instruction, format string, a ...interface{}) {
	u.r.Bad("package-state", u.p.Fn(in.Parent())+": "+u.g.Name(), u.p.InstrPos(in), format, a...)
}

var readOnlyPkgs = []string{"strings.", "strconv.", "fmt.", "errors.", "log.", "(*log.Logger)", "unicode.", "regexp.", "(*regexp.Regexp)", "math.", "path.", "path/filepath.", "bytes.", "time.", "(time."}

func readOnlyCall(name string) bool {
	for _, s := range readOnlyPkgs {
		if strings.HasPrefix(name, s) {
			return true
		}
	}
	return false
}

// addr: v is an address inside (or a reference to) the variable's data.
func (u *globalUse) follow(v ssa.Value, what string) {
	k := fmt.Sprintf("%p", v)
	if u.seen[k] {
		return
	}
	u.seen[k] = true
	refs := v.Referrers()
	if refs == nil {
		return
	}
	for _, in := range *refs {
		u.use(in, v, what)
	}
}

func (u *globalUse) result(v ssa.Value, what string) {
	if u.p.immutable(v.Type()) {
		return
	}
	u.follow(v, what)
}

func (u *globalUse) use(in ssa.Instruction, v ssa.Value, what string) {
	u.n++
	f := in.Parent()
	if u.write[f] {
		return
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if v == u.g && structOf(x.Type()) != nil && !u.p.initRefs(u.g) {
				return // a copy of a struct whose references are all nil
			}
			u.result(x, "what "+what+" holds")
		}
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice:
		u.follow(x.(ssa.Value), what)
	case *ssa.Field, *ssa.Index, *ssa.Lookup, *ssa.Range, *ssa.Next, *ssa.Extract, *ssa.Phi, *ssa.ChangeType, *ssa.TypeAssert, *ssa.ChangeInterface, *ssa.MakeInterface:
		if lk, ok := x.(*ssa.Lookup); ok && lk.X != v {
			return // used as a key
		}
		u.result(x.(ssa.Value), what)
	case *ssa.BinOp, *ssa.If:
	case *ssa.Store:
		if x.Addr == v {
			u.bad(in, "writes to %s", what)
		} else if al, ok := x.Addr.(*ssa.Alloc); ok && !al.Heap {
			u.follow(al, what)
		} else if al, ok := x.Addr.(*ssa.Alloc); ok {
			// a local copy: the references in it are followed where it is read
			u.localCopy(al, what)
		} else {
			u.bad(in, "%s becomes reachable from elsewhere", what)
		}
	case *ssa.MapUpdate:
		if x.Map == v {
			u.bad(in, "writes to %s", what)
		} else {
			u.bad(in, "%s becomes reachable from a map", what)
		}
	case *ssa.Return:
		// returned to module callers: follow there
		if o := f.Object(); o != nil && o.Exported() {
			u.bad(in, "%s is handed to the caller", what)
			return
		}
		for _, g := range u.p.Funcs {
			for _, b := range g.Blocks {
				for _, i2 := range b.Instrs {
					if c, ok := i2.(*ssa.Call); ok && c.Call.StaticCallee() == f {
						u.follow(c, what)
					}
				}
			}
		}
	case *ssa.MakeClosure:
		for i, bd := range x.Bindings {
			if bd == v {
				u.follow(x.Fn.(*ssa.Function).FreeVars[i], what)
			}
		}
	case ssa.CallInstruction:
		cc := x.Common()
		name := calleeName(cc)
		if cc.IsInvoke() && cc.Value == v {
			return // the object answers for itself
		}
		if strings.HasPrefix(name, "(*sync.Mutex)") || strings.HasPrefix(name, "(*sync.RWMutex)") {
			return
		}
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			switch name {
			case "builtin.len", "builtin.cap":
				return
			case "builtin.append":
				if len(cc.Args) > 1 && cc.Args[1] == v && cc.Args[0] != v {
					if sl, ok := v.Type().Underlying().(*types.Slice); ok && u.p.immutable(sl.Elem()) {
						return
					}
				}
				u.bad(in, "%s is appended to or copied by reference", what)
				return
			case "builtin.copy":
				if cc.Args[0] == v {
					u.bad(in, "writes to %s", what)
				}
				return
			case "builtin.delete", "builtin.clear":
				u.bad(in, "deletes from %s", what)
				return
			}
			return
		}
		if g := cc.StaticCallee(); g != nil && u.p.isMod[g] {
			for i, a := range cc.Args {
				if a == v && i < len(g.Params) {
					u.follow(g.Params[i], what)
				}
			}
			return
		}
		if cc.Value == v {
			return // calling a function held in a variable
		}
		if readOnlyCall(name) {
			return
		}
		u.bad(in, "%s is passed to %s", what, name)
	default:
		u.bad(in, "%s is used by %T", what, in)
	}
}

// initRefs: does the initialiser put a reference into the struct variable g?
func (p *Prog) initRefs(g *ssa.Global) bool {
	var within func(v ssa.Value) bool
	within = func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Global:
			return x == g
		case *ssa.FieldAddr:
			return within(x.X)
		case *ssa.IndexAddr:
			return within(x.X)
		}
		return false
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && within(st.Addr) && !p.immutable(st.Val.Type()) {
					u, ok := st.Val.(*ssa.UnOp)
					if !ok {
						return true
					}
					al, ok := u.X.(*ssa.Alloc)
					if !ok {
						return true
					}
					for _, ref := range *al.Referrers() {
						switch x := ref.(type) {
						case *ssa.FieldAddr:
							if !p.immutable(deref(x.Type())) {
								return true
							}
						case *ssa.UnOp, *ssa.DebugRef:
						default:
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (u *globalUse) localCopy(al *ssa.Alloc, what string) {
	u.follow(al, what)
}

func checkP03(p *Prog, r *Report) {
	r.Expl = "For every package-level variable of the library packages, every use of its address and of every reference read from it is followed (through locals, parameters, closures and results of module functions). " +
		"Outside package initialisation and the functions only Register uses, no such use may write, and none may let the data escape into other objects, into a map or to an exported function's caller. Immutable values (strings, numbers, errors, functions, compiled regular expressions) are exempt."
	reg := p.RootFunc("Register")
	if !mustFn(r, reg, "accounting.Register") {
		return
	}
	write := p.onlyFrom(reg, true)
	nv := 0
	for _, sp := range p.SPkgs {
		if sp.Pkg.Name() == "main" {
			continue
		}
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			g, ok := sp.Members[n].(*ssa.Global)
			if !ok || n == "init$guard" {
				continue
			}
			nv++
			u := &globalUse{p: p, r: r, g: g, write: write, seen: map[string]bool{}}
			for _, f := range p.Funcs {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if !p.IsLib(f) {
							continue
						}
						for _, op := range in.Operands(nil) {
							if *op == g {
								u.use(in, g, "package variable "+g.Name())
								break
							}
						}
					}
				}
			}
			r.OK("package-state", sp.Pkg.Name()+"."+n, p.Pos(g.Pos()))
			r.Counts["uses of "+sp.Pkg.Name()+"."+n] = u.n
		}
	}
	r.Counts["package_variables"] = nv
	r.Expect("package-state", 1)
}

// ---- P09 ----

var osAllowed = map[string]bool{"Open": true, "Exit": true, "Getenv": true, "LookupEnv": true, "Stat": true, "Lstat": true, "ReadFile": true, "ReadDir": true, "Getwd": true,
	"IsNotExist": true, "IsExist": true, "IsPermission": true, "Hostname": true, "Getpid": true, "Getuid": true, "Environ": true, "ExpandEnv": true, "Expand": true, "Readlink": true, "DirFS": true, "UserHomeDir": true, "Executable": true, "SameFile": true, "IsTimeout": true}
var fileAllowed = map[string]bool{"Close": true, "Read": true, "ReadAt": true, "Name": true, "Stat": true, "Seek": true, "ReadDir": true, "Readdir": true, "Readdirnames": true, "Fd": true, "WriteTo": true, "SetDeadline": true, "SetReadDeadline": true}
var sqlAllowed = map[string]bool{"Open": true, "Ping": true, "PingContext": true, "Query": true, "QueryContext": true, "QueryRow": true, "QueryRowContext": true, "Close": true, "Next": true, "Scan": true,
	"Err": true, "Columns": true, "ColumnTypes": true, "NextResultSet": true, "Stats": true, "SetMaxOpenConns": true, "SetMaxIdleConns": true, "SetConnMaxLifetime": true, "SetConnMaxIdleTime": true, "Driver": true, "Drivers": true, "Valid": true, "String": true, "Value": true}

var sqlModifies = regexp.MustCompile(`(?i)\b(insert|update|delete|merge|truncate|drop|alter|create|grant|revoke|copy|call|do|lock|vacuum|reindex|refresh|comment|set|reset|nextval|setval|lo_[a-z]+|pg_[a-z_]+|execute|prepare|into|import|notify|cluster|discard|begin|commit|savepoint|for\s+(no\s+key\s+)?update|for\s+(key\s+)?share)\b`)

// constStrings: the constant strings v can be; ok is false if it may be something else.
func (p *Prog) constStrings(v ssa.Value, depth int) ([]string, bool) {
	if depth > 6 {
		return nil, false
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return []string{constant.StringVal(x.Value)}, true
		}
		return nil, false
	case *ssa.Phi:
		var out []string
		for _, e := range x.Edges {
			s, ok := p.constStrings(e, depth+1)
			if !ok {
				return nil, false
			}
			out = append(out, s...)
		}
		return out, true
	case *ssa.BinOp:
		if x.Op != token.ADD {
			return nil, false
		}
		a, ok1 := p.constStrings(x.X, depth+1)
		b, ok2 := p.constStrings(x.Y, depth+1)
		if !ok1 || !ok2 {
			return nil, false
		}
		var out []string
		for _, i := range a {
			for _, j := range b {
				out = append(out, i+j)
			}
		}
		return out, true
	case *ssa.ChangeType:
		return p.constStrings(x.X, depth+1)
	case *ssa.Parameter:
		f := x.Parent()
		idx := -1
		for i, pa := range f.Params {
			if pa == x {
				idx = i
			}
		}
		if o := f.Object(); o != nil && o.Exported() {
			return nil, false
		}
		var out []string
		n := 0
		for _, g := range p.Funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
						n++
						s, ok := p.constStrings(ci.Common().Args[idx], depth+1)
						if !ok {
							return nil, false
						}
						out = append(out, s...)
					}
				}
			}
		}
		return out, n > 0
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			// a package variable assigned only once, in the initialiser
			var out []string
			n := 0
			for _, f := range p.Funcs {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok && st.Addr == g {
							n++
							s, ok := p.constStrings(st.Val, depth+1)
							if !ok {
								return nil, false
							}
							out = append(out, s...)
						}
					}
				}
			}
			return out, n == 1
		}
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			var out []string
			for _, ref := range *al.Referrers() {
				switch s := ref.(type) {
				case *ssa.Store:
					if s.Addr != al {
						return nil, false
					}
					c, ok := p.constStrings(s.Val, depth+1)
					if !ok {
						return nil, false
					}
					out = append(out, c...)
				case *ssa.UnOp, *ssa.DebugRef, *ssa.MakeClosure:
				default:
					return nil, false
				}
			}
			return out, len(out) > 0
		}
	}
	return nil, false
}

func checkP09(p *Prog, r *Report) {
	r.Expl = "Effect allow-list over every function of the module (library and commands). Every use of package os, of *os.File, of database/sql and of packages that can reach the file system or run programs must be one of the read-only operations; " +
		"os.OpenFile only with constant flags O_RDONLY; the SQL text must be constant on every flow and contain only selecting statements. In the functions Export reaches, nothing is written but through the writer it is given."
	for _, f := range p.Funcs {
		ff := f
		p.refsExt(f, func(in ssa.Instruction, name string, cc *ssa.CallCommon) {
			n := strings.TrimPrefix(strings.TrimPrefix(name, "("), "*")
			cons := p.Fn(ff) + ": " + name
			pos := p.InstrPos(in)
			switch {
			case strings.HasPrefix(n, "os."):
				if strings.HasPrefix(n, "os.File).") || strings.HasPrefix(n, "os.File.") {
					m := n[strings.LastIndex(n, ".")+1:]
					ok := fileAllowed[m]
					if !ok && cc != nil && (m == "Write" || m == "WriteString" || m == "Sync") && isStdStream(cc.Args[0]) {
						ok = true
					}
					r.Add("file-method", cons, pos, ok, "%s can change a file", name)
					return
				}
				if n == "os.OpenFile" {
					ok := false
					if cc != nil {
						if c, isC := cc.Args[1].(*ssa.Const); isC && c.Int64() == 0 {
							ok = true
						}
					}
					r.Add("os-call", cons, pos, ok, "a file is opened with flags other than the constant O_RDONLY")
					return
				}
				m := n[strings.LastIndex(n, ".")+1:]
				ok := osAllowed[m] || strings.Contains(n, "FileInfo)") || strings.Contains(n, "DirEntry)") || strings.Contains(n, "PathError)") || strings.Contains(n, "FileMode)")
				r.Add("os-call", cons, pos, ok, "%s is not a read-only operation", name)
			case strings.HasPrefix(n, "database/sql."):
				m := n[strings.LastIndex(n, ".")+1:]
				r.Add("sql-call", cons, pos, sqlAllowed[m], "%s is not a read-only operation", name)
				if cc != nil && strings.HasPrefix(m, "Query") {
					checkSQL(p, r, in, cc, cons)
				} else if cc == nil && strings.HasPrefix(m, "Query") {
					r.Bad("sql-text", cons, pos, "the statement of a query used as a value is not known")
				}
			case strings.HasPrefix(n, "io/ioutil."):
				m := n[len("io/ioutil."):]
				r.Add("os-call", cons, pos, m == "ReadFile" || m == "ReadDir" || m == "ReadAll" || m == "NopCloser", "%s is not a read-only operation", name)
			case strings.HasPrefix(n, "os/exec."), strings.HasPrefix(n, "syscall."), strings.HasPrefix(n, "golang.org/x/sys/"), strings.HasPrefix(n, "plugin."), strings.HasPrefix(n, "unsafe."):
				r.Bad("os-call", cons, pos, "%s can change anything", name)
			}
		})
	}
	r.Expect("os-call", 3)
	r.Expect("sql-call", 3)
	r.Expect("sql-text", 2)
	// Export
	lp := p.PkgByPath("backend/ledger")
	var ex *ssa.Function
	if lp != nil {
		ex = lp.Func("Export")
	}
	if !mustFn(r, ex, "ledger.Export") {
		return
	}
	n := 0
	for f := range p.reach(ex) {
		ff := f
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" {
						r.Bad("export-writer", p.Fn(ff)+": os."+g.Name(), p.InstrPos(in), "Export uses os.%s", g.Name())
					}
				}
			}
		}
		p.refsExt(f, func(in ssa.Instruction, name string, cc *ssa.CallCommon) {
			n++
			bad := name == "fmt.Print" || name == "fmt.Println" || name == "fmt.Printf" || strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "os.") || strings.HasPrefix(name, "(*log.")
			r.Add("export-writer", p.Fn(ff)+": "+name, p.InstrPos(in), !bad, "Export reaches %s, which does not write to the given writer", name)
		})
	}
	r.Counts["external calls in Export"] = n
}

func isStdStream(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	return ok && g.Pkg.Pkg.Path() == "os" && (g.Name() == "Stdout" || g.Name() == "Stderr")
}

func checkSQL(p *Prog, r *Report, in ssa.Instruction, cc *ssa.CallCommon, cons string) {
	for _, a := range cc.Args {
		if b, ok := a.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
			continue
		}
		ss, ok := p.constStrings(a, 0)
		if !ok {
			r.Bad("sql-text", cons, p.InstrPos(in), "the statement is not constant on every path")
			return
		}
		for _, s := range ss {
			t := strings.TrimSpace(s)
			first := strings.ToLower(firstField(t))
			sel := first == "select" || first == "with" || first == "values" || first == "table" || first == "show"
			m := sqlModifies.FindString(stripSQLStrings(t))
			multi := strings.Contains(strings.TrimRight(strings.TrimSpace(stripSQLStrings(t)), ";"), ";")
			r.Add("sql-text", p.Fn(in.Parent())+": "+first+" …", p.InstrPos(in), sel && m == "" && !multi, "statement %q is not a plain selection (%s)", t, m)
		}
		return
	}
}

func firstField(s string) string {
	f := strings.Fields(s)
	if len(f) == 0 {
		return ""
	}
	return f[0]
}

func stripSQLStrings(s string) string {
	return regexp.MustCompile(`'[^']*'`).ReplaceAllString(s, "''")
}

// ---- P12 ----

var chance = regexp.MustCompile(`^(\(?\*?math/rand[./]|\(?\*?crypto/rand\.|time\.(Now|Since|Until|After|Tick|NewTimer|NewTicker|AfterFunc|Sleep)$|os\.(Getpid|Getppid|Hostname)$|runtime\.|reflect\.Value\)?\.(Pointer|UnsafeAddr|UnsafePointer|MapKeys|MapRange)|\(reflect\.Value\)\.(Pointer|UnsafeAddr|UnsafePointer|MapKeys|MapRange)|hash/maphash|\(?\*?hash/maphash|maps\.(Keys|Values|All)|\(\*sync\.Map\)\.Range|sync/atomic\.|\(\*sync\.Pool\))`)

func checkP12(p *Prog, r *Report) {
	r.Expl = "Over every library function: no goroutine, channel or select; no reference to the clock, random numbers, addresses (%p, reflect, unsafe); and every loop over a map is order-insensitive: per iteration it may only write map entries, new objects of that iteration, or a slice that is sorted by value before any other use."
	nf := 0
	for _, f := range p.Funcs {
		if !p.IsLib(f) {
			continue
		}
		nf++
		ff := f
		before := len(r.Obl)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go:
					r.Bad("no-chance", p.Fn(f)+": go", p.InstrPos(in), "a goroutine is started: the result may depend on scheduling")
				case *ssa.Select, *ssa.MakeChan, *ssa.Send:
					r.Bad("no-chance", p.Fn(f)+": channel", p.InstrPos(in), "channels are used: the result may depend on scheduling")
				case *ssa.Convert:
					if isUnsafe(x.X.Type()) || isUnsafe(x.Type()) {
						r.Bad("no-chance", p.Fn(f)+": unsafe", p.InstrPos(in), "a pointer is converted to a number")
					}
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						why := p.mapLoop(x)
						r.Add("map-order", fmt.Sprintf("%s: range over %s", p.Fn(f), p.short(x.X.Type())), p.InstrPos(in), why == "", "the effect of the loop depends on the order of the map: %s", why)
					}
				}
				for _, op := range in.Operands(nil) {
					if c, ok := (*op).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
						if strings.Contains(constant.StringVal(c.Value), "%p") {
							r.Bad("no-chance", p.Fn(f)+": %p", p.InstrPos(in), "an address is formatted")
						}
					}
				}
			}
		}
		p.refsExt(f, func(in ssa.Instruction, name string, cc *ssa.CallCommon) {
			if chance.MatchString(name) {
				r.Bad("no-chance", p.Fn(ff)+": "+name, p.InstrPos(in), "%s does not depend on the data only", name)
			}
		})
		if len(r.Obl) == before {
			r.OK("no-chance", p.Fn(f), p.Pos(f.Pos()))
		}
	}
	r.Counts["library_functions"] = nf
	r.Expect("no-chance", 20)
}

func isUnsafe(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

// mapLoop explains why the loop over a map depends on its order ("" if it does not).
func (p *Prog) mapLoop(rg *ssa.Range) string {
	var next *ssa.Next
	for _, ref := range *rg.Referrers() {
		if n, ok := ref.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return ""
	}
	head := next.Block()
	in := map[*ssa.BasicBlock]bool{head: true}
	for _, b := range head.Parent().Blocks {
		if head.Dominates(b) && reaches(b, head, head) {
			in[b] = true
		}
	}
	memo := map[*ssa.Function]string{}
	// values carried from one iteration to the next
	for _, x := range head.Instrs {
		ph, ok := x.(*ssa.Phi)
		if !ok {
			break
		}
		if why := p.orderFreePhi(ph, in, head); why != "" {
			return why
		}
	}
	for b := range in {
		for _, x := range b.Instrs {
			if why := p.orderFree(x, in, memo, 0); why != "" {
				return why + " (" + p.InstrPos(x) + ")"
			}
		}
		// leaving early keeps the first match
		if b != head {
			for _, s := range b.Succs {
				if !in[s] && !panics(s) {
					return "the loop is left early (" + p.InstrPos(b.Instrs[len(b.Instrs)-1]) + ")"
				}
			}
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				return "the loop returns early"
			}
		}
	}
	return ""
}

func panics(b *ssa.BasicBlock) bool {
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
	return ok
}

// reaches: from b one can get to target without leaving the region dominated by head.
func reaches(b, target, head *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	stack := []*ssa.BasicBlock{b}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		for _, s := range x.Succs {
			if s == target {
				return true
			}
			if !seen[s] && head.Dominates(s) {
				seen[s] = true
				stack = append(stack, s)
			}
		}
	}
	return false
}

func (p *Prog) orderFreePhi(ph *ssa.Phi, in map[*ssa.BasicBlock]bool, head *ssa.BasicBlock) string {
	if _, ok := ph.Type().Underlying().(*types.Slice); ok {
		// collected and then sorted by value
		if p.sortedAfter(ph, in) {
			return ""
		}
		return "a slice is built in the order of the map (" + p.InstrPos(ph) + ")"
	}
	if b, ok := ph.Type().Underlying().(*types.Basic); ok {
		for i, e := range ph.Edges {
			if !in[head.Preds[i]] || e == ph {
				continue
			}
			if !commutes(e, ph, b, map[ssa.Value]bool{}) {
				return "a value is carried from one entry to the next (" + p.InstrPos(ph) + ")"
			}
		}
		return ""
	}
	for i, e := range ph.Edges {
		if in[head.Preds[i]] && e != ph {
			return "a value is carried from one entry to the next (" + p.InstrPos(ph) + ")"
		}
	}
	return ""
}

// commutes: e is ph combined by a commutative and associative operation, or ph itself, or a constant.
func commutes(e ssa.Value, ph *ssa.Phi, b *types.Basic, seen map[ssa.Value]bool) bool {
	if seen[e] || e == ph {
		return true
	}
	seen[e] = true
	switch x := e.(type) {
	case *ssa.BinOp:
		ok := false
		switch x.Op {
		case token.ADD, token.MUL, token.OR, token.AND, token.XOR:
			ok = b.Info()&types.IsInteger != 0
		}
		if !ok {
			return false
		}
		if usesPhi(x.X, ph, 0) && usesPhi(x.Y, ph, 0) {
			return false
		}
		return (commutes(x.X, ph, b, seen) && usesPhi(x.X, ph, 0)) || (commutes(x.Y, ph, b, seen) && usesPhi(x.Y, ph, 0))
	case *ssa.Phi:
		for _, y := range x.Edges {
			if c, isC := y.(*ssa.Const); isC && b.Info()&types.IsBoolean != 0 && c.Value != nil {
				continue
			}
			if !commutes(y, ph, b, seen) {
				return false
			}
		}
		return true
	case *ssa.Const:
		return b.Info()&types.IsBoolean != 0
	}
	return false
}

func usesPhi(v ssa.Value, ph *ssa.Phi, d int) bool {
	if v == ph {
		return true
	}
	if d > 5 {
		return true
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		return usesPhi(x.X, ph, d+1) || usesPhi(x.Y, ph, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if usesPhi(e, ph, d+1) {
				return true
			}
		}
	}
	return false
}

// sortedAfter: outside the loop the slice is first sorted with a total order on its values.
func (p *Prog) sortedAfter(ph *ssa.Phi, in map[*ssa.BasicBlock]bool) bool {
	var sorts []ssa.Instruction
	var others []ssa.Instruction
	for _, ref := range *ph.Referrers() {
		if in[ref.Block()] {
			continue
		}
		if c, ok := ref.(*ssa.Call); ok {
			switch calleeName(&c.Call) {
			case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort":
				sorts = append(sorts, c)
				continue
			}
		}
		others = append(others, ref)
	}
	if len(sorts) == 0 {
		return len(others) == 0
	}
	for _, o := range others {
		ok := false
		for _, s := range sorts {
			if s.Block() == o.Block() {
				for _, x := range s.Block().Instrs {
					if x == s {
						ok = true
						break
					}
					if x == o {
						break
					}
				}
			} else if s.Block().Dominates(o.Block()) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// funcIn: the function a value is, also if it is in a variable which is set once.
func funcIn(v ssa.Value, d int) *ssa.Function {
	if d > 5 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.ChangeType:
		return funcIn(x.X, d+1)
	case *ssa.UnOp:
		cell := x.X
		for {
			fv, ok := cell.(*ssa.FreeVar)
			if !ok {
				break
			}
			if cell = bound(fv); cell == nil {
				return nil
			}
		}
		a, ok := cell.(*ssa.Alloc)
		if !ok {
			return nil
		}
		var set ssa.Value
		if n := cellStores(a, &set); n != 1 {
			return nil
		}
		return funcIn(set, d+1)
	}
	return nil
}

// bound: the variable a captured one is.
func bound(fv *ssa.FreeVar) ssa.Value {
	f := fv.Parent()
	var found ssa.Value
	for i, v := range f.FreeVars {
		if v != fv {
			continue
		}
		for _, b := range f.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
					if found != nil && found != mc.Bindings[i] {
						return nil
					}
					found = mc.Bindings[i]
				}
			}
		}
	}
	return found
}

// cellStores: how often a variable is set, here and in the functions that capture it.
func cellStores(v ssa.Value, set *ssa.Value) int {
	n := 0
	for _, ref := range *v.Referrers() {
		switch y := ref.(type) {
		case *ssa.Store:
			if y.Addr != v {
				return 99
			}
			n++
			*set = y.Val
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for i, b := range y.Bindings {
				if b == v {
					n += cellStores(y.Fn.(*ssa.Function).FreeVars[i], set)
				}
			}
		default:
			return 99
		}
	}
	return n
}

// orderFree: may instruction x run in a loop over a map?
func (p *Prog) orderFree(x ssa.Instruction, in map[*ssa.BasicBlock]bool, memo map[*ssa.Function]string, depth int) string {
	fresh := func(v ssa.Value) bool { return p.freshIn(v, in, 0) }
	switch y := x.(type) {
	case *ssa.Store:
		if fresh(y.Addr) {
			return ""
		}
		// a captured or escaping local written only here? be strict
		return "it writes to memory that outlives the iteration"
	case *ssa.MapUpdate:
		if _, isC := y.Key.(*ssa.Const); isC {
			return "every entry writes the same key"
		}
		return ""
	case *ssa.Send, *ssa.Go, *ssa.Defer:
		return "it has effects in the order of the map"
	case *ssa.Call:
		cc := &y.Call
		name := calleeName(cc)
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			return ""
		}
		if cc.IsInvoke() {
			if strings.HasSuffix(name, ".String") || strings.HasSuffix(name, ".Error") {
				return ""
			}
			return "it calls " + name
		}
		var g *ssa.Function
		if g = cc.StaticCallee(); g == nil {
			if g = funcIn(cc.Value, 0); g == nil {
				return "it calls an unknown function"
			}
		}
		if !p.isMod[g] {
			if strings.HasPrefix(name, "fmt.Sprint") || name == "fmt.Errorf" || readOnlyCall(name) && !strings.HasPrefix(name, "fmt.") && !strings.HasPrefix(name, "log.") && !strings.HasPrefix(name, "(*log") || strings.HasPrefix(name, "math/big.") || strings.HasPrefix(name, "(*math/big.") {
				return ""
			}
			return "it calls " + name
		}
		if depth > 6 {
			return "its calls nest too deep to decide"
		}
		if why, ok := memo[g]; ok {
			return why
		}
		memo[g] = ""
		why := ""
		all := map[*ssa.BasicBlock]bool{}
		for _, b := range g.Blocks {
			all[b] = true
		}
		for _, b := range g.Blocks {
			for _, i2 := range b.Instrs {
				if w := p.orderFree(i2, all, memo, depth+1); w != "" && why == "" {
					why = w + " in " + p.Fn(g)
				}
			}
		}
		memo[g] = why
		return why
	}
	return ""
}

// freshIn: v points into an object made inside the region.
func (p *Prog) freshIn(v ssa.Value, in map[*ssa.BasicBlock]bool, d int) bool {
	if d > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		return in[x.Block()] || !x.Heap && onlyInRegion(x, in)
	case *ssa.FieldAddr:
		return p.freshIn(x.X, in, d+1)
	case *ssa.IndexAddr:
		return p.freshIn(x.X, in, d+1)
	case *ssa.MakeSlice, *ssa.MakeMap:
		return in[x.(ssa.Instruction).Block()]
	case *ssa.Lookup:
		// entry of a map that was written in this iteration with a new object
		for _, ref := range *x.X.Referrers() {
			if mu, ok := ref.(*ssa.MapUpdate); ok && in[mu.Block()] && mu.Map == x.X && mu.Key == x.Index && p.freshIn(mu.Value, in, d+1) && before(mu, x) {
				return true
			}
		}
		// or read again through the same variable
		if u, ok := x.X.(*ssa.UnOp); ok {
			for b := range in {
				for _, i2 := range b.Instrs {
					mu, ok := i2.(*ssa.MapUpdate)
					if !ok || mu.Key != x.Index || !p.freshIn(mu.Value, in, d+1) || !before(mu, x) {
						continue
					}
					if u2, ok := mu.Map.(*ssa.UnOp); ok && u2.X == u.X {
						return true
					}
				}
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !p.freshIn(e, in, d+1) {
				return false
			}
		}
		return len(x.Edges) > 0
	case *ssa.Slice:
		return p.freshIn(x.X, in, d+1)
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			if c, ok := x.Call.Args[0].(*ssa.Const); ok && c.IsNil() {
				return true
			}
			return p.freshIn(x.Call.Args[0], in, d+1)
		}
	}
	return false
}

func before(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, x := range a.Block().Instrs {
			if x == a {
				return true
			}
			if x == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

func onlyInRegion(a *ssa.Alloc, in map[*ssa.BasicBlock]bool) bool {
	for _, r := range *a.Referrers() {
		if !in[r.Block()] {
			return false
		}
	}
	return true
}
