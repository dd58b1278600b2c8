package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func main() {
	if f := os.Getenv("GOVER_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gover verify|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "verify":
		cmdVerify(os.Args[2:])
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

// cmdVerify checks named functions and prints every undischarged obligation.
func cmdVerify(args []string) {
	fs := flag.NewFlagSet("verify", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	croot := fs.String("contracts", "/verif/contracts", "")
	prop := fs.String("prop", "", "")
	to := fs.Duration("t", 20*time.Second, "")
	verbose := fs.Bool("v", false, "")
	dump := fs.String("dump", "", "")
	fs.Parse(args)
	dumpDir = *dump
	if dumpDir != "" {
		os.MkdirAll(dumpDir, 0o755)
	}
	byPkg := map[string][]string{}
	for _, a := range fs.Args() {
		i := strings.IndexByte(a, '.')
		if i < 0 {
			byPkg[a] = append(byPkg[a], "*")
			continue
		}
		byPkg[a[:i]] = append(byPkg[a[:i]], a[i+1:])
	}
	var names []string
	for k := range byPkg {
		names = append(names, k)
	}
	var cs map[string]*propCfg
	if b, err := os.ReadFile(filepath.Join(*croot, "props.json")); err == nil && json.Unmarshal(b, &cs) == nil {
		have := map[string]bool{}
		for _, n := range names {
			have[n] = true
		}
		for _, c := range cs {
			for _, k := range c.Pkgs {
				if !have[k] && have["rtsp"] {
					have[k] = true
					names = append(names, k)
				}
			}
		}
	}
	t0 := time.Now()
	p, err := load(*repo, *croot, names)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	pl := newPool(runtime.NumCPU(), *to)
	var res []*FnResult
	sort.Strings(names)
	for _, n := range names {
		for _, f := range byPkg[n] {
			var cs []string
			if f == "*" {
				for k, c := range p.byName {
					if strings.HasPrefix(k, n+".") && c.fn != nil {
						cs = append(cs, k)
					}
				}
				sort.Strings(cs)
			} else {
				cs = []string{n + "." + f}
			}
			for _, k := range cs {
				c := p.byName[k]
				if c == nil || c.fn == nil {
					fmt.Println("no contract", k)
					continue
				}
				if c.trusted {
					continue
				}
				r := p.verifyFn(c, *prop, pl)
				if *verbose {
					fmt.Printf("generated %s %d obligations %.1fs\n", k, len(r.obls), r.seconds)
				}
				res = append(res, r)
			}
		}
	}
	pl.wait()
	bad := 0
	for _, r := range res {
		n, triv := 0, 0
		var mx int64
		for _, o := range r.obls {
			if o.ms > mx {
				mx = o.ms
			}
			if o.trivial {
				triv++
			}
			if o.res == "unsat" {
				n++
				if *verbose && o.ms > 1500 {
					fmt.Printf("   slow %s %s [%s] %s %dms %s\n", o.fn, o.label, o.detail, o.pos, o.ms, o.solver)
				}
				continue
			}
			bad++
			fmt.Printf("   FAIL %s %s: %s [%s] -> %s (%dms)\n", o.pos, o.fn, o.label, o.detail, o.res, o.ms)
		}
		fmt.Printf("%-40s %d/%d (trivial %d) gen %.1fs max %dms splits %d unterm %v\n", r.name, n, len(r.obls), triv, r.seconds, mx, r.splits, keysOf(r.unterm))
	}
	if os.Getenv("GOVER_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "generation: hints", tHint, "prune", tPrune, "prune queries", tPruneQ)
	}
	fmt.Printf("total %.1fs, %d failing; steps\n", time.Since(t0).Seconds(), bad)
	for s, d := range statTime {
		fmt.Printf("  %s %.1fs\n", s, d.Seconds())
	}
	if bad > 0 {
		pprof.StopCPUProfile()
		os.Exit(1)
	}
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
