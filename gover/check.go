package main

// The check of one property: every obligation of the contracts it rests on,
// then the contracts executed against the code.

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

type propCfg struct {
	Roots   []string `json:"roots"`   // functions whose contracts state the property
	Bounded []string `json:"bounded"` // contracts only executed, never counted as proved
	Assume  []string `json:"assume"`  // contracts relied on and decided under another property
	Note    []string `json:"assumptions"`
	Pkgs    []string `json:"pkgs"` // packages to load besides those named
	Level   string   `json:"level"`
}

type known struct {
	Property string `json:"property"`
	Fn       string `json:"function"`
	Label    string `json:"label"` // substring of the clause
	What     string `json:"what"`
}

func readKnown(path string) ([]known, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var f struct {
		Findings []known  `json:"findings"`
		Fixed    []string `json:"fixed"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		return nil, err
	}
	return f.Findings, nil
}

type failure struct {
	Obligation string `json:"obligation"`
	Where      string `json:"where"`
	Case       string `json:"case,omitempty"`
	Result     string `json:"result"`
	fn, label  string
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	to := fs.Duration("t", 15*time.Second, "")
	noproof := fs.Bool("noproof", false, "the verifier could not process the code")
	one := fs.String("one", "", "replay: seed/size of one execution")
	fn := fs.String("fn", "", "replay: function")
	fs.Parse(args)
	t0 := time.Now()
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	croot := filepath.Join(*verif, "contracts")
	var cfgs map[string]*propCfg
	b, err := os.ReadFile(filepath.Join(croot, "props.json"))
	if err == nil {
		err = json.Unmarshal(b, &cfgs)
	}
	cfg := cfgs[*prop]
	if err != nil || cfg == nil {
		fmt.Fprintln(os.Stderr, "no configuration for", *prop, err)
		return 2
	}
	knowns, err := readKnown(filepath.Join(*verif, "known_findings.json"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	pkgSet := map[string]bool{}
	for _, l := range [][]string{cfg.Roots, cfg.Bounded} {
		for _, r := range l {
			pkgSet[r[:strings.IndexByte(r, '.')]] = true
		}
	}
	for _, k := range cfg.Pkgs {
		pkgSet[k] = true
	}
	pkgs := keysOf(pkgSet)
	p, err := load(*repo, croot, pkgs)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if *one != "" {
		return replayOne(p, *fn, *prop, *one)
	}
	// ---- proof
	var res []*FnResult
	var fails []failure
	pl := newPool(runtime.NumCPU(), *to)
	budget := 330 * time.Second
	if *tier == "thorough" {
		budget = 600 * time.Second
	}
	pl.deadline = t0.Add(budget)
	assumed := map[string]bool{}
	for _, a := range cfg.Assume {
		assumed[a] = true
	}
	if *noproof {
		fails = append(fails, failure{Obligation: "the verifier processes the changed code", Result: "it did not finish", fn: "", label: ""})
	} else {
		done := map[string]bool{}
		work := append([]string{}, cfg.Roots...)
		for len(work) > 0 {
			n := work[0]
			work = work[1:]
			if done[n] || assumed[n] {
				continue
			}
			done[n] = true
			c := p.byName[n]
			if c == nil || c.fn == nil {
				fails = append(fails, failure{Obligation: n + ": the function under contract exists", Result: "missing", fn: n})
				continue
			}
			pk := n[:strings.IndexByte(n, '.')]
			for d, why := range p.dropped {
				if strings.HasPrefix(d, pk+".") {
					dn := d[len(pk)+1:]
					if i := strings.IndexByte(dn, '_'); i > 0 {
						tgt := dn[i+1:]
						if tgt == c.name || strings.HasPrefix(dn, "Inv_"+c.name+"_") {
							if strings.HasPrefix(dn, "Gen_") {
								continue
							}
							fails = append(fails, failure{Obligation: n + ": " + dn + " applies to the code", Result: why, fn: n, label: dn})
						}
					}
				}
			}
			if c.trusted {
				continue
			}
			if c.post == nil && !c.lemma {
				fails = append(fails, failure{Obligation: n + ": its postcondition applies to the code", Result: "no postcondition", fn: n})
				continue
			}
			r := p.verifyFn(c, *prop, pl)
			res = append(res, r)
			var used []string
			for u := range r.used {
				used = append(used, u)
			}
			sort.Strings(used)
			work = append(work, used...)
		}
		pl.wait()
		pl.retry(150 * time.Second)
	}
	nObl, nDis, nCover := 0, 0, 0
	back := map[string]int{}
	var ms int64
	var fns []string
	inl, tru, unt := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, r := range res {
		fns = append(fns, fmt.Sprintf("%s (%d obligations, %d cases)", r.name, len(r.obls), r.splits))
		if len(r.obls) == 0 {
			fails = append(fails, failure{Obligation: r.name + ": generates obligations", Result: "none", fn: r.name})
		}
		for _, m := range []struct{ a, b map[string]bool }{{inl, r.inlined}, {tru, r.trusted}, {unt, r.unterm}} {
			for k := range m.b {
				m.a[k] = true
			}
		}
		for _, o := range r.obls {
			nObl++
			if o.cover {
				nCover++
			}
			ms += o.ms
			if o.res == "unsat" {
				nDis++
				back[o.solver]++
				continue
			}
			fails = append(fails, failure{o.fn + ": " + o.label, o.pos, o.detail, o.res, o.fn, o.label})
		}
	}
	// ---- known findings
	hit := map[int]bool{}
	isKnown := func(fn, label string) bool {
		for i, k := range knowns {
			if k.Property == *prop && k.Fn == fn && strings.Contains(label, k.Label) {
				hit[i] = true
				return true
			}
		}
		return false
	}
	var left []failure
	for _, f := range fails {
		if !isKnown(f.fn, f.label) {
			left = append(left, f)
		}
	}
	// ---- execution
	h, err := newHarness(p)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer h.close()
	byPkg := map[string][]string{}
	isB := map[string]bool{}
	for _, b := range cfg.Bounded {
		isB[b] = true
	}
	for _, r := range append(append([]string{}, cfg.Roots...), cfg.Bounded...) {
		i := strings.IndexByte(r, '.')
		byPkg[r[:i]] = append(byPkg[r[:i]], r[i+1:])
	}
	per, max := 1500, 6000
	total := len(cfg.Roots) + len(cfg.Bounded)
	if *tier == "thorough" {
		per, max = 120000/total, 400000
	}
	if len(left) > 0 {
		per, max = 180000/total, 300000
		if per > 60000 {
			per = 60000
		}
	}
	if len(cfg.Bounded) > 0 && len(left) == 0 && *tier == "quick" {
		per, max = 60000/total, 60000
		if per > 15000 {
			per = 15000
		}
	}
	var bad []outcome
	var harnessErr []string
	nRan, nDist := 0, 0
	var samples []string
	ranBy := map[string]int{}
	for _, pk := range pkgs {
		if len(byPkg[pk]) == 0 {
			continue
		}
		outs, e := h.run(pk, byPkg[pk], seed, per, max, *prop, "")
		if e != "" {
			harnessErr = append(harnessErr, e)
			continue
		}
		for _, o := range outs {
			if o.Sum {
				nRan += o.Ran
				nDist += o.Dist
				ranBy[pk+"."+o.Fn] = o.Ran
				if o.Gen != "" {
					harnessErr = append(harnessErr, "generator of "+o.Fn+": "+o.Gen)
				}
				if o.In != "" && len(samples) < 4 {
					samples = append(samples, fmt.Sprintf("%s(%s) -> %s", o.Fn, clip(o.In, 300), clip(o.Out, 200)))
				}
			}
			if len(o.Fails) > 0 {
				all := true
				for _, l := range o.Fails {
					if !isKnown(pk+"."+o.Fn, l) {
						all = false
					}
				}
				if !all {
					bad = append(bad, o)
				}
			}
		}
	}
	// a crash of the process is worth a second look at what caused it only in the report
	for i := range knowns {
		if hit[i] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, knowns[i].What)
		}
	}
	viol := len(left) > 0 || len(bad) > 0
	for _, b := range cfg.Bounded {
		if ranBy[b] == 0 && len(bad) == 0 {
			viol = true
			left = append(left, failure{Obligation: b + ": its contract can be executed against the code", Result: strings.Join(harnessErr, "; "), fn: b})
		}
	}
	// ---- evidence
	trusted := []string{
		"gover (this framework): SSA-level symbolic execution of /repo's current source, its memory model and simplifier",
		"golang.org/x/tools/go/ssa and go/types build the SSA form that is verified",
		"the SMT solvers answering unsat: z3 5.3.2, z3 4.8.12, cvc5 1.1.2",
		"the Go compiler and runtime implement the language semantics assumed by the SSA translation",
	}
	for _, t := range keysOf(tru) {
		trusted = append(trusted, "assumed library contract: "+t)
	}
	asm := append([]string{
		"machine integers: every fixed-width operation wraps as in Go; int is 64 bits",
		"the first slice or pointer parameter of an element type starts its backing object (translation invariance of offsets)",
		"slices are never resliced beyond their length; no two goroutines run a function under contract on the same data",
	}, cfg.Note...)
	for _, a := range cfg.Assume {
		asm = append(asm, "contract of "+a+" is decided under another property")
	}
	for _, u := range keysOf(unt) {
		asm = append(asm, "termination not proved: "+u)
	}
	level := cfg.Level
	if level == "" {
		level = "proof"
	}
	cov := map[string]interface{}{
		"obligations": nObl, "discharged": nDis, "checker_cmd": fmt.Sprintf("/verif/check.sh %s %s", *prop, *tier), "trusted_base": trusted,
		"functions_under_contract": fns, "by_backend": back, "solver_ms": ms, "cover_checks": nCover, "inlined_without_contract": keysOf(inl),
		"bounded_execution": map[string]interface{}{
			"what":      "the same contracts executed on generated inputs; never counted as proved",
			"functions": ranBy, "seed": seed, "harness_notes": harnessErr,
		},
		"evaluations": nRan, "distinct_nontrivial": nDist, "samples": samples,
		"rule": "inputs made by Gen_<function> that satisfy the precondition; distinct by printed input",
	}
	if len(cfg.Bounded) > 0 {
		cov["bounded_only"] = cfg.Bounded
	}
	if level == "other" || level == "exploration" {
		cov["explanation"] = "contracts executed on generated inputs, bounded by count and size; see DESIGN.md"
	}
	ev := map[string]interface{}{"property": *prop, "tier": *tier, "seed": seed, "level": level, "coverage": cov, "assumptions": asm,
		"wall_s": time.Since(t0).Seconds(), "violations": len(left) + len(bad)}
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	eb, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), eb, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d obligations, %d discharged, %d functions; %d executions; %.1fs\n", *prop, *tier, nObl, nDis, len(res), nRan, time.Since(t0).Seconds())
	if !viol {
		return 0
	}
	rdir := filepath.Join(*verif, "replays")
	os.MkdirAll(rdir, 0o755)
	rp := filepath.Join(rdir, *prop+".json")
	rep := map[string]interface{}{"property": *prop, "failed_obligations": left, "harness_notes": harnessErr}
	if len(bad) > 0 {
		var ins []map[string]interface{}
		for _, o := range bad {
			ins = append(ins, map[string]interface{}{"function": o.pkg + "." + o.Fn, "clauses": o.Fails, "input": o.In, "output": o.Out,
				"rerun": fmt.Sprintf("/verif/check.sh %s replay %s.%s %d/%d", *prop, o.pkg, o.Fn, o.Seed, o.Size)})
		}
		rep["failing_inputs"] = ins
	}
	rb, _ := json.MarshalIndent(rep, "", " ")
	os.WriteFile(rp, rb, 0o644)
	for i, f := range left {
		if i == 12 {
			fmt.Printf("  ... %d more\n", len(left)-i)
			break
		}
		fmt.Printf("  failed obligation %s (%s) [%s] %s\n", f.Obligation, f.Where, f.Case, clip(f.Result, 200))
	}
	for _, o := range bad {
		fmt.Printf("  failing input %s(%s) -> %s: %s\n", o.Fn, clip(o.In, 400), clip(o.Out, 200), strings.Join(o.Fails, "; "))
	}
	if len(bad) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rp)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", *prop, rp)
	}
	return 1
}

func replayOne(p *Prog, fn, prop, one string) int {
	h, err := newHarness(p)
	if err != nil {
		return 2
	}
	defer h.close()
	i := strings.IndexByte(fn, '.')
	outs, e := h.run(fn[:i], []string{fn[i+1:]}, 0, 1000, 1, prop, one)
	if e != "" {
		fmt.Println(e)
		return 2
	}
	code := 0
	for _, o := range outs {
		fmt.Printf("%s(%s)\n  -> %s\n  violated: %s\n", o.Fn, o.In, o.Out, strings.Join(o.Fails, "; "))
		if len(o.Fails) > 0 {
			code = 1
		}
	}
	return code
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
