package main

// Replay: contracts executed against the running code, to look for a concrete
// input behind an obligation that could not be discharged.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type outcome struct {
	Fn    string   `json:"fn"`
	Seed  uint64   `json:"seed"`
	Size  int      `json:"size"`
	Fails []string `json:"fails"`
	In    string   `json:"in"`
	Out   string   `json:"out"`
	Sum   bool     `json:"sum"`
	Ran   int      `json:"ran"`
	Skip  int      `json:"skipped"`
	Dist  int      `json:"distinct"`
	Gen   string   `json:"genpanic"`
	pkg   string
}

// harnessSrc is the test file that drives every executable contract of a package.
func (p *Prog) harnessSrc(pkg string) (string, []string) {
	pk := p.pkgs[pkg]
	scope := pk.Types.Scope()
	var names []string
	for _, n := range scope.Names() {
		if strings.HasPrefix(n, "Gen_") {
			names = append(names, strings.TrimPrefix(n, "Gen_"))
		}
	}
	sort.Strings(names)
	has := func(n string) *types.Signature {
		f, ok := scope.Lookup(n).(*types.Func)
		if !ok {
			return nil
		}
		return f.Type().(*types.Signature)
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"testing\"\n\n\t\"%s\"\n)\n\nfunc TestZZVerif(t *testing.T) {\n\tvf.Drive([]vf.Case{\n", pkg, vfPath)
	var done []string
	for _, n := range names {
		post := has("Post_" + n)
		gen := has("Gen_" + n)
		if post == nil || gen == nil {
			continue
		}
		fn := p.funcs[pkg+"."+n]
		if fn == nil {
			continue
		}
		np := len(fn.Params)
		if gen.Results().Len() != np {
			continue
		}
		nr := fn.Signature.Results().Len()
		hasOld := has("Old_"+n) != nil
		want := np + nr
		if hasOld {
			want++
		}
		if post.Params().Len() != want {
			continue
		}
		list := func(c string, k int) []string {
			var out []string
			for i := 0; i < k; i++ {
				out = append(out, fmt.Sprintf("%s%d", c, i))
			}
			return out
		}
		as, rs := list("a", np), list("r", nr)
		al := strings.Join(as, ", ")
		fmt.Fprintf(&b, "\t\t{Name: %q, Run: func(c *vf.Ctx) {\n", n)
		if np > 0 {
			fmt.Fprintf(&b, "\t\t\t%s := Gen_%s(c.G)\n", al, n)
		}
		fmt.Fprintf(&b, "\t\t\tc.In(%s)\n", al)
		if has("Pre_"+n) != nil {
			fmt.Fprintf(&b, "\t\t\tif !Pre_%s(%s) {\n\t\t\t\tc.Skip()\n\t\t\t\treturn\n\t\t\t}\n", n, al)
		}
		if hasOld {
			fmt.Fprintf(&b, "\t\t\told := Old_%s(%s)\n", n, al)
		}
		frame := has("Mod_"+n) == nil && np > 0
		if frame {
			fmt.Fprintf(&b, "\t\t\tsnap := c.Before(%s)\n", al)
		}
		dots := ""
		if fn.Signature.Variadic() {
			dots = "..."
		}
		b.WriteString("\t\t\tc.Call()\n\t\t\t")
		if nr > 0 {
			b.WriteString(strings.Join(rs, ", ") + " := ")
		}
		if fn.Signature.Recv() != nil {
			fmt.Fprintf(&b, "a0.%s(%s%s)\n", fn.Name(), strings.Join(as[1:], ", "), dots)
		} else {
			fmt.Fprintf(&b, "%s(%s%s)\n", fn.Name(), al, dots)
		}
		fmt.Fprintf(&b, "\t\t\tc.Out(%s)\n", strings.Join(rs, ", "))
		pa := append([]string{}, as...)
		if hasOld {
			pa = append(pa, "old")
		}
		pa = append(pa, rs...)
		fmt.Fprintf(&b, "\t\t\tPost_%s(%s)\n", n, strings.Join(pa, ", "))
		if frame {
			fmt.Fprintf(&b, "\t\t\tc.Frame(snap, %s)\n", al)
		}
		b.WriteString("\t\t}},\n")
		done = append(done, n)
	}
	ints, strs := p.harvest(pkg)
	b.WriteString("\t}, []int64{")
	for _, i := range ints {
		fmt.Fprintf(&b, "%d, ", i)
	}
	b.WriteString("}, []string{")
	for _, s := range strs {
		fmt.Fprintf(&b, "%q, ", s)
	}
	b.WriteString("})\n}\n")
	return b.String(), done
}

// harvest collects the constants of the code under test, as test data.
func (p *Prog) harvest(pkg string) ([]int64, []string) {
	is, ss := map[int64]bool{}, map[string]bool{}
	for _, f := range p.pkgs[pkg].Syntax {
		if _, ok := p.overlay[p.fset.Position(f.Pos()).Filename]; ok {
			continue
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			if l, ok := n.(*ast.BasicLit); ok {
				switch l.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(l.Value, 0, 64); err == nil {
						is[v] = true
					}
				case token.STRING:
					if s, err := strconv.Unquote(l.Value); err == nil && len(s) < 40 {
						ss[s] = true
					}
				}
			}
			return true
		})
	}
	var ints []int64
	var strs []string
	for i := range is {
		ints = append(ints, i)
	}
	for s := range ss {
		strs = append(strs, s)
	}
	sort.Slice(ints, func(i, j int) bool { return ints[i] < ints[j] })
	sort.Strings(strs)
	return ints, strs
}

// lazy rewrites vf.Imp(a, b) to !(a) || (b) and defers the clauses of vf.Ensure,
// so that executing a contract evaluates a guarded part only where it is guarded.
func lazy(src []byte) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return src
	}
	type edit struct {
		at, end int
		text    string
	}
	var es []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	ast.Inspect(f, func(n ast.Node) bool {
		c, ok := n.(*ast.CallExpr)
		if !ok || len(c.Args) != 2 {
			return true
		}
		s, ok := c.Fun.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		if id, ok := s.X.(*ast.Ident); !ok || id.Name != "vf" {
			return true
		}
		a, b := c.Args[0], c.Args[1]
		switch s.Sel.Name {
		case "Imp":
			es = append(es, edit{off(c.Pos()), off(a.Pos()), "(!("}, edit{off(a.End()), off(b.Pos()), ") || ("}, edit{off(b.End()), off(c.End()), "))"})
		case "Ensure":
			es = append(es, edit{off(c.Pos()), off(a.Pos()), "vf.EnsureF("}, edit{off(a.End()), off(b.Pos()), ", func() bool { return "}, edit{off(b.End()), off(c.End()), " })"})
		}
		return true
	})
	sort.Slice(es, func(i, j int) bool {
		if es[i].at != es[j].at {
			return es[i].at < es[j].at
		}
		return es[i].end < es[j].end
	})
	var out []byte
	last := 0
	for _, e := range es {
		if e.at < last {
			return src
		}
		out = append(out, src[last:e.at]...)
		out = append(out, e.text...)
		last = e.end
	}
	return append(out, src[last:]...)
}

type harness struct {
	p    *Prog
	dir  string
	bins map[string]string
	errs map[string]string
	have map[string]map[string]bool
}

func newHarness(p *Prog) (*harness, error) {
	d, err := os.MkdirTemp("", "gover")
	if err != nil {
		return nil, err
	}
	return &harness{p: p, dir: d, bins: map[string]string{}, errs: map[string]string{}, have: map[string]map[string]bool{}}, nil
}

func (h *harness) close() { os.RemoveAll(h.dir) }

// build compiles the test binary of one package.
func (h *harness) build(pkg string) {
	if h.bins[pkg] != "" || h.errs[pkg] != "" {
		return
	}
	src, names := h.p.harnessSrc(pkg)
	h.have[pkg] = map[string]bool{}
	for _, n := range names {
		h.have[pkg][n] = true
	}
	rep := map[string]string{}
	i := 0
	put := func(to string, b []byte) {
		i++
		f := filepath.Join(h.dir, fmt.Sprintf("f%d.go", i))
		os.WriteFile(f, b, 0o644)
		rep[to] = f
	}
	for to, b := range h.p.overlay {
		if !strings.HasSuffix(filepath.Dir(to), filepath.Join("internal", "vf")) {
			b = lazy(b)
		}
		put(to, b)
	}
	put(filepath.Join(h.p.repo, "net", pkg, "zz_verif_replay_test.go"), []byte(src))
	// the package's own tests play no part here
	own, _ := filepath.Glob(filepath.Join(h.p.repo, "net", pkg, "*_test.go"))
	for _, f := range own {
		rep[f] = ""
	}
	js, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ov := filepath.Join(h.dir, pkg+"_overlay.json")
	os.WriteFile(ov, js, 0o644)
	bin := filepath.Join(h.dir, pkg+".test")
	cmd := exec.Command("go", "test", "-vet=off", "-overlay", ov, "-c", "-o", bin, "./net/"+pkg)
	cmd.Dir = h.p.repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		h.errs[pkg] = string(out)
		return
	}
	h.bins[pkg] = bin
}

// run executes contracts of one package.
func (h *harness) run(pkg string, fns []string, seed uint64, ms, max int, prop, one string) (outs []outcome, errs string) {
	h.build(pkg)
	if h.errs[pkg] != "" {
		return nil, h.errs[pkg]
	}
	var have []string
	for _, f := range fns {
		if h.have[pkg][f] {
			have = append(have, f)
		}
	}
	if len(have) == 0 {
		return nil, ""
	}
	for len(have) > 0 {
		work := filepath.Join(h.dir, "work")
		os.MkdirAll(work, 0o755)
		lim := time.Duration(len(have)*(ms+12000)+20000) * time.Millisecond
		ctx, cancel := context.WithTimeout(context.Background(), lim)
		cmd := exec.CommandContext(ctx, "bash", "-c", "ulimit -v 12000000; exec "+h.bins[pkg]+" -test.run TestZZVerif -test.timeout 0")
		cmd.Dir = work
		cmd.Env = append(os.Environ(), "VF_CASES="+strings.Join(have, ","), fmt.Sprintf("VF_SEED=%d", seed), fmt.Sprintf("VF_MS=%d", ms),
			fmt.Sprintf("VF_MAX=%d", max), "VF_PROP="+prop, "VF_ONE="+one, "GOTRACEBACK=single")
		var buf, eb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &buf, &eb
		err := cmd.Run()
		cancel()
		done := map[string]bool{}
		for _, l := range strings.Split(buf.String(), "\n") {
			if !strings.HasPrefix(l, "VF ") {
				continue
			}
			var o outcome
			if json.Unmarshal([]byte(l[3:]), &o) == nil {
				o.pkg = pkg
				outs = append(outs, o)
				if o.Sum || one != "" || len(o.Fails) > 0 && strings.HasPrefix(o.Fails[0], "does not return") {
					done[o.Fn] = true
				}
			}
		}
		if err == nil || one != "" {
			break
		}
		// the process died in the first function without a summary
		var rest []string
		dead := ""
		for _, f := range have {
			if done[f] {
				continue
			}
			if dead == "" && !hung(outs, f) {
				dead = f
				continue
			}
			rest = append(rest, f)
		}
		if dead != "" && !hungAny(outs, done) {
			outs = append(outs, outcome{pkg: pkg, Fn: dead, Fails: []string{"the process dies: " + firstLine(strings.TrimSpace(eb.String()))}, In: "(see seed)", Out: eb.String()})
		} else if dead != "" {
			rest = append([]string{dead}, rest...)
		}
		if len(rest) == len(have) {
			break
		}
		have = rest
	}
	return outs, ""
}

func hung(outs []outcome, f string) bool {
	for _, o := range outs {
		if o.Fn == f && len(o.Fails) > 0 && strings.HasPrefix(o.Fails[0], "does not return") {
			return true
		}
	}
	return false
}

func hungAny(outs []outcome, done map[string]bool) bool {
	if len(outs) == 0 {
		return false
	}
	o := outs[len(outs)-1]
	return len(o.Fails) > 0 && strings.HasPrefix(o.Fails[0], "does not return")
}
