package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Oblig is one proof obligation: a rule applied to one construct of /repo.
type Oblig struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Pos       string `json:"pos"`
	OK        bool   `json:"ok"`
	Detail    string `json:"detail,omitempty"`
}

func (o Oblig) key() string { return o.Rule + "|" + o.Construct }

// Report collects the obligations of one property.
type Report struct {
	Prop   string
	Obl    []Oblig
	index  map[string]int
	Counts map[string]int
	Notes  []string
	Assume []string
	Expl   string
	start  time.Time
}

func NewReport(p string) *Report {
	return &Report{Prop: p, index: map[string]int{}, Counts: map[string]int{}, start: time.Now()}
}

// Add records an obligation. Obligations with the same rule+construct are
// folded together: the result is OK only if all of them are.
func (r *Report) Add(rule, construct, pos string, ok bool, format string, args ...interface{}) {
	o := Oblig{rule, construct, pos, ok, fmt.Sprintf(format, args...)}
	if i, dup := r.index[o.key()]; dup {
		if r.Obl[i].OK && !ok {
			r.Obl[i] = o
		}
		return
	}
	r.index[o.key()] = len(r.Obl)
	r.Obl = append(r.Obl, o)
}

func (r *Report) OK(rule, construct, pos string) { r.Add(rule, construct, pos, true, "") }
func (r *Report) Bad(rule, construct, pos, format string, args ...interface{}) {
	r.Add(rule, construct, pos, false, format, args...)
}

// Expect fails if a rule was applied to fewer than n constructs: a rule that
// matches nothing would pass vacuously.
func (r *Report) Expect(rule string, n int) {
	c := 0
	for _, o := range r.Obl {
		if o.Rule == rule {
			c++
		}
	}
	if c < n {
		r.Bad("instances", rule, "-", "rule %q matched %d construct(s), at least %d expected: its anchors are gone", rule, c, n)
	}
}

type finding struct {
	Property  string `json:"property"`
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	What      string `json:"what"`
}

type findingsFile struct {
	Known []finding `json:"known"`
	Fixed []string  `json:"fixed"`
}

// Finish prints the verdict, writes evidence and returns the exit code.
func (r *Report) Finish(verif, tier string, seed int, level string) int {
	var ff findingsFile
	if b, err := os.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &ff); err != nil {
			r.Bad("internal", "known_findings.json", "-", "%v", err)
		}
	}
	known := map[string]finding{}
	for _, f := range ff.Known {
		if f.Property == r.Prop {
			known[f.Rule+"|"+f.Construct] = f
		}
	}
	var bad []Oblig
	nOK, nKnown := 0, 0
	rules := map[string]int{}
	for _, o := range r.Obl {
		rules[o.Rule]++
		if o.OK {
			nOK++
			continue
		}
		if f, ok := known[o.key()]; ok {
			nKnown++
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", r.Prop, o.Construct, f.What)
			continue
		}
		bad = append(bad, o)
	}
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0o755)
	fmt.Printf("%s: %d obligations, %d discharged, %d known, %d violated\n", r.Prop, len(r.Obl), nOK, nKnown, len(bad))
	var names []string
	for k := range rules {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		fmt.Printf("  rule %-28s %d construct(s)\n", k, rules[k])
	}
	replay := filepath.Join(evdir, r.Prop+".violations.txt")
	os.Remove(replay)
	if len(bad) > 0 {
		var sb strings.Builder
		for _, o := range bad {
			fmt.Fprintf(&sb, "%s: [%s] %s: %s\n", o.Pos, o.Rule, o.Construct, o.Detail)
		}
		os.WriteFile(replay, []byte(sb.String()), 0o644)
		fmt.Print(sb.String())
	}
	samples := []interface{}{}
	seen := map[string]int{}
	for _, o := range r.Obl {
		if seen[o.Rule] < 6 && len(samples) < 60 {
			seen[o.Rule]++
			samples = append(samples, map[string]interface{}{"rule": o.Rule, "construct": o.Construct, "pos": o.Pos, "ok": o.OK})
		}
	}
	cov := map[string]interface{}{
		"explanation": r.Expl,
		"obligations": len(r.Obl),
		"discharged":  nOK,
		"known":       nKnown,
		"rules":       rules,
		"analysed":    r.Counts,
		"samples":     samples,
	}
	if len(r.Notes) > 0 {
		cov["notes"] = r.Notes
	}
	ev := map[string]interface{}{
		"property":    r.Prop,
		"tier":        tier,
		"seed":        seed,
		"level":       level,
		"coverage":    cov,
		"assumptions": append([]string{"the Go type checker and golang.org/x/tools/go/ssa represent /repo faithfully"}, r.Assume...),
		"wall_s":      time.Since(r.start).Seconds(),
		"violations":  len(bad),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
	}
	if len(bad) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replay)
		return 1
	}
	return 0
}
