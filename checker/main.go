package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check decides one property.
type Check struct {
	ID    string
	Title string
	Level string
	Run   func(p *Prog, r *Report)
}

var checks = map[string]*Check{}

func register(id, level string, run func(p *Prog, r *Report)) {
	checks[id] = &Check{ID: id, Level: level, Run: run}
}

func main() {
	prop := flag.String("prop", "", "property id, or all")
	repo := flag.String("repo", "/repo", "tree to analyse")
	verif := flag.String("verif", "/verif", "where evidence goes")
	dump := flag.String("dump", "", "dump the SSA of a function")
	interp := flag.String("interp", "", "interpret a function and print statistics")
	list := flag.Bool("list", false, "list the properties with a check")
	flag.Parse()
	debug.SetGCPercent(400)
	if *list {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))

	if f := os.Getenv("CPUPROFILE"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	p, loadErr := Load(*repo)
	if *dump != "" {
		if loadErr != nil {
			fmt.Println(loadErr)
			os.Exit(2)
		}
		for _, f := range p.Funcs {
			if f.Name() == *dump || f.String() == *dump {
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	if *interp != "" {
		for _, f := range p.Funcs {
			if f.Name() == *interp || f.String() == *interp {
				smoke(p, f)
			}
		}
		return
	}
	var ids []string
	if *prop == "all" {
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = []string{*prop}
	}
	rc := 0
	for _, id := range ids {
		c := checks[id]
		if c == nil {
			fmt.Fprintf(os.Stderr, "no check for %s\n", id)
			os.Exit(2)
		}
		r := NewReport(id)
		if loadErr != nil {
			r.Bad("load", *repo, "-", "the tree does not load: %v", loadErr)
		} else {
			func() {
				defer func() {
					if e := recover(); e != nil {
						r.Bad("undecided", "checker", "-", "the analysis could not decide this tree: %v\n%s", e, debug.Stack())
					}
				}()
				r.Counts["packages"] = len(p.Pkgs)
				r.Counts["functions"] = len(p.Funcs)
				c.Run(p, r)
				if len(r.Obl) == 0 {
					r.Bad("instances", id, "-", "no obligation was generated")
				}
			}()
		}
		if x := r.Finish(*verif, tier, seed, c.Level); x != 0 {
			rc = x
		}
	}
	pprof.StopCPUProfile()
	os.Exit(rc)
}

func smoke(p *Prog, f *ssa.Function) {
	t0 := time.Now()
	e := NewEng(p)
	e.Debug = true
	e.H.Call = e.balanceOps
	bad := map[string]int{}
	e.H.Bounds = func(s *State, c *Ctx, in ssa.Instruction, what string, ok bool, detail string) {
		if !ok {
			k := what + " " + p.Fn(in.Parent()) + " " + p.InstrPos(in) + " " + detail
			if bad[k] == 0 && os.Getenv("TRACE") != "" {
				k2 := k + " " + e.path(s)
				fmt.Println(k2)
			}
			bad[k]++
		}
	}
	defer func() {
		if r := recover(); r != nil {
			fmt.Println("gave up:", r)
			debug.PrintStack()
		}
		fmt.Println(f, "steps", e.Steps, "terms", len(e.tt.tab), "ctxs", e.nctx, "time", time.Since(t0))
		var ks []string
		for k, n := range bad {
			ks = append(ks, fmt.Sprintf("%s (%d)", k, n))
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println("  ", k)
		}
	}()
	out := e.Run(f, newState(), e.Params(f))
	fmt.Println("outcomes", len(out))
}
