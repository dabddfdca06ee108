package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func run(args []string) int {
	fs := flag.NewFlagSet("ruddcheck", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "quick or thorough")
	repo := fs.String("repo", "/repo", "source under analysis")
	out := fs.String("out", "/verif/evidence", "evidence directory")
	known := fs.String("known", "/verif/known_findings.txt", "known findings")
	fs.Parse(args)
	if strings.Contains(*prop, ",") {
		return runAll(strings.Split(*prop, ","), *repo, *known)
	}
	p := registry[*prop]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *prop)
		return 2
	}
	start := time.Now()
	var cfgs []Config
	for _, t := range []string{"", "buddy", "debug", "buddy debug"} {
		cfgs = append(cfgs, Config{Tags: t, GOARCH: "amd64"})
	}
	if *tier == "thorough" || p.both {
		for _, t := range []string{"", "buddy", "debug", "buddy debug"} {
			cfgs = append(cfgs, Config{Tags: t, GOARCH: "386"})
		}
	}
	go watchdog(*prop, *tier, *out, p.rule, start)
	reps := make([]*Report, len(cfgs))
	ctxs := make([]*Ctx, len(cfgs))
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	for i := range cfgs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			rep := newReport(*prop, cfgs[i].String())
			reps[i] = rep
			safely(*prop, nil, rep, func(_ *Ctx, rep *Report) {
				c, err := NewCtx(cfgs[i], *repo)
				if err != nil {
					rep.bad(nil, token.NoPos, cfgs[i].String(), "analysable", "", "%v", err)
					return
				}
				ctxs[i] = c
				p.fn(c, rep)
			})
		}(i)
	}
	wg.Wait()
	if p2 := crossChecks[*prop]; p2 != nil {
		rep := newReport(*prop, "all")
		safely(*prop, nil, rep, func(_ *Ctx, rep *Report) { p2(ctxs, rep) })
		reps = append(reps, rep)
	}

	// findings
	kn := readKnown(*known, *prop)
	var viol []Finding
	seen := map[string]bool{}
	usedKnown := map[string]bool{}
	for _, r := range reps {
		for _, f := range r.Findings {
			if k := kn.match(f); k != "" {
				usedKnown[k] = true
				continue
			}
			if !seen[f.key()] {
				seen[f.key()] = true
				viol = append(viol, f)
			}
		}
	}
	// evidence
	obl := map[string]int{}
	funcs := map[string]bool{}
	sites := map[string]bool{}
	paths := 0
	total := 0
	perCfg := map[string]int{}
	for _, r := range reps {
		for k, v := range r.Obl {
			obl[k] += v
			total += v
			perCfg[r.Config] += v
		}
		for f := range r.Funcs {
			funcs[f] = true
		}
		for f := range r.Sites {
			sites[f] = true
		}
		paths += r.Paths
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var cl []string
	for _, c := range cfgs {
		cl = append(cl, c.String())
	}
	cov := map[string]interface{}{
		"explanation":            "Static analysis (abstract interpretation of the SSA form and dataflow); nothing of the code under analysis is executed. " + p.rule,
		"rule":                   p.rule,
		"configurations":         cl,
		"functions_analysed":     sortedKeys(funcs),
		"abstract_paths":         paths,
		"obligations_discharged": total,
		"obligations_by_rule":    obl,
		"obligations_by_config":  perCfg,
		"violations":             len(viol),
		"findings":               viol,
	}
	if len(sites) > 0 {
		cov["constructs"] = sortedKeys(sites)
	}
	ev := map[string]interface{}{
		"property": *prop,
		"tier":     *tier,
		"seed":     seed,
		"level":    "other",
		"coverage": cov,
		"wall_s":   time.Since(start).Seconds(),
	}
	os.MkdirAll(*out, 0o755)
	js, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*out, *prop+".json"), append(js, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var ks []string
	for k := range usedKnown {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k)
	}
	if total == 0 && len(viol) == 0 {
		viol = append(viol, Finding{Prop: *prop, Rule: "vacuous", Msg: "no obligation was generated: the constructs that the property talks about were not found"})
	}
	if len(viol) > 0 {
		rp := filepath.Join(*out, *prop+".violation.json")
		js, _ := json.MarshalIndent(viol, "", " ")
		os.WriteFile(rp, append(js, '\n'), 0o644)
		for i, f := range viol {
			if i == 20 {
				fmt.Printf("... %d more\n", len(viol)-i)
				break
			}
			fmt.Printf("%s: %s: [%s] %s: %s\n", f.Where, f.Func, f.Config, f.Rule, f.Msg)
			if f.Path != "" {
				fmt.Printf("    path: %s\n", short(f.Path, 600))
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rp)
		return 1
	}
	fmt.Printf("%s holds: %d obligations discharged in %d functions, %d abstract paths, %d configurations (%.1fs)\n", *prop, total, len(funcs), paths, len(cfgs), time.Since(start).Seconds())
	return 0
}

// runAll is a development aid: several properties with the same analysis of each
// configuration; it writes no evidence.
func runAll(props []string, repo, known string) int {
	res := map[string][]Finding{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, t := range []string{"", "buddy", "debug", "buddy debug"} {
		wg.Add(1)
		go func(cfg Config) {
			defer wg.Done()
			c, err := NewCtx(cfg, repo)
			if err != nil {
				fmt.Println(err)
				return
			}
			for _, p := range props {
				rep := newReport(p, cfg.String())
				safely(p, nil, rep, func(_ *Ctx, rep *Report) { registry[p].fn(c, rep) })
				mu.Lock()
				res[p] = append(res[p], rep.Findings...)
				mu.Unlock()
			}
		}(Config{Tags: t, GOARCH: "amd64"})
	}
	wg.Wait()
	rc := 0
	for _, p := range props {
		kn := readKnown(known, p)
		for _, f := range res[p] {
			if kn.match(f) == "" {
				fmt.Printf("%s ALARM %s: %s: [%s] %s: %s\n", p, f.Where, f.Func, f.Config, f.Rule, f.Msg)
				rc = 1
				break
			}
		}
	}
	return rc
}

// crossChecks compare the configurations.
var crossChecks = map[string]func(ctxs []*Ctx, rep *Report){}

type knownSet struct{ l []knownEntry }

type knownEntry struct {
	fn, rule, text string
}

// readKnown reads lines "known: property=<id> func=<function> rule=<rule> :: <what fails>".
func readKnown(file, prop string) *knownSet {
	k := &knownSet{}
	b, err := os.ReadFile(file)
	if err != nil {
		return k
	}
	for _, line := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(line, "known: property="+prop+" ") {
			continue
		}
		var e knownEntry
		if i := strings.Index(line, " :: "); i >= 0 {
			e.text = line[i+4:]
			line = line[:i]
		}
		if i := strings.Index(line, " rule="); i >= 0 {
			e.rule = line[i+6:]
			line = line[:i]
		}
		if i := strings.Index(line, " func="); i >= 0 {
			e.fn = line[i+6:]
		}
		if e.fn != "" && e.rule != "" {
			k.l = append(k.l, e)
		}
	}
	return k
}

func (k *knownSet) match(f Finding) string {
	for _, e := range k.l {
		if e.fn == f.Func && e.rule == f.Rule {
			return e.text
		}
	}
	return ""
}

// watchdog gives up, with a violation, when the analysis exceeds its budget.
func watchdog(prop, tier, out, rule string, start time.Time) {
	for {
		time.Sleep(500 * time.Millisecond)
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc < 16<<30 && time.Since(start) < 750*time.Second {
			continue
		}
		msg := fmt.Sprintf("the analysis exceeds its budget (%d MB, %.0fs): some function has too many abstract paths to be decided", ms.HeapAlloc>>20, time.Since(start).Seconds())
		ev := map[string]interface{}{"property": prop, "tier": tier, "level": "other", "seed": 0, "wall_s": time.Since(start).Seconds(),
			"coverage": map[string]interface{}{"explanation": msg, "rule": rule, "obligations_discharged": 0}}
		os.MkdirAll(out, 0o755)
		js, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(out, prop+".json"), append(js, '\n'), 0o644)
		rp := filepath.Join(out, prop+".violation.json")
		js, _ = json.MarshalIndent([]Finding{{Prop: prop, Rule: "analysable", Msg: msg}}, "", " ")
		os.WriteFile(rp, append(js, '\n'), 0o644)
		fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", msg, prop, rp)
		os.Exit(1)
	}
}
