package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"
)

// Finding is a construct of the source that breaks a property.
type Finding struct {
	Prop   string `json:"property"`
	Config string `json:"config"`
	Where  string `json:"where"`
	Func   string `json:"function"`
	Rule   string `json:"rule"`
	Msg    string `json:"message"`
	Path   string `json:"path,omitempty"`
}

func (f Finding) key() string { return f.Where + "|" + f.Func + "|" + f.Rule + "|" + f.Msg }

// Report collects what a check did.
type Report struct {
	Prop     string
	Config   string
	Findings []Finding
	Obl      map[string]int  // obligations discharged, by rule
	Funcs    map[string]bool // functions analysed
	Sites    map[string]bool // constructs looked at
	Paths    int
	seen     map[string]bool
}

func newReport(prop, cfg string) *Report {
	return &Report{Prop: prop, Config: cfg, Obl: map[string]int{}, Funcs: map[string]bool{}, Sites: map[string]bool{}, seen: map[string]bool{}}
}

// ok counts an obligation that was discharged.
func (r *Report) ok(rule string) { r.Obl[rule]++ }

func (r *Report) okn(rule string, n int) { r.Obl[rule] += n }

func (r *Report) site(s string) { r.Sites[s] = true }

func (r *Report) bad(c *Ctx, pos token.Pos, fn, rule, path, f string, a ...interface{}) {
	fd := Finding{Prop: r.Prop, Config: r.Config, Func: fn, Rule: rule, Msg: fmt.Sprintf(f, a...), Path: path}
	if c != nil && pos.IsValid() {
		fd.Where = c.P.pos(pos)
	}
	k := fd.Where + "|" + fn + "|" + rule
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.Findings = append(r.Findings, fd)
}

func (r *Report) paths(c *Ctx, run *Run, outs []*Outcome) {
	r.Paths += len(outs)
	if run != nil {
		for f := range run.Funcs {
			r.Funcs[fname(f)] = true
		}
	}
}

// undecided reports the outcomes that the analysis could not follow.
func (r *Report) undecided(c *Ctx, fn string, outs []*Outcome) bool {
	bad := false
	for _, o := range outs {
		if o.Kind == OutUndecided {
			bad = true
			r.bad(c, o.Pos, fn, "analysable", o.St.pathString(), "the analysis cannot follow this path: %s", o.Why)
		}
	}
	return bad
}

func sortedKeys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return strings.TrimSpace(s)
}
