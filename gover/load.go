package main

// Loading of the real packages together with the contract overlay, and
// discovery of contracts by naming convention.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/aboukirev/ouro"
const vfPath = modPath + "/internal/vf"

type Contract struct {
	name    string // Type_Method or Func
	fn      *ssa.Function
	pre     *ssa.Function
	post    *ssa.Function
	old     *ssa.Function
	mod     *ssa.Function
	hint    *ssa.Function
	inv     map[int]*ssa.Function
	splits  [][]*ssaSplit
	unroll  int
	nilable map[string]bool
	lemma   bool
	dec     *ssa.Function
	trusted bool
	lemPost *ssa.Function
	wfrefs  bool            // references held by elements are below the allocation counter
	noprune bool            // keep branches of specifications that are not literally decided
	opaque  map[string]bool // specification functions not unfolded
	depth   int
	caseOf  *ssa.Function
	before  map[*ssa.Function]*ssa.Function
	after   map[*ssa.Function]*ssa.Function // annotations after calls of other functions
}

type ssaSplit struct {
	expr   string
	lo, hi int64
}

type Prog struct {
	cells     map[string]types.Type
	repo      string
	fset      *token.FileSet
	pkgs      map[string]*packages.Package
	spkgs     map[string]*ssa.Package
	ssaProg   *ssa.Program
	contracts map[*ssa.Function]*Contract
	byName    map[string]*Contract // pkg.Name
	recs      map[string]*RecFn
	recByFn   map[*ssa.Function]*RecFn
	stored    map[*ssa.Global]bool
	globRef   map[*ssa.Global]int64
	globSeq   int64
	overlay   map[string][]byte
	funcs     map[string]*ssa.Function
	dirs      map[string][]string // function -> directives
	dropped   map[string]string   // contract declarations that do not fit the code
}

func overlayFiles(root, repo string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	ents, err := os.ReadDir(root)
	if err != nil {
		return nil, err
	}
	for _, e := range ents {
		if !e.IsDir() {
			continue
		}
		dir := filepath.Join(root, e.Name())
		fs, err := filepath.Glob(filepath.Join(dir, "*.go"))
		if err != nil {
			return nil, err
		}
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			var to string
			if e.Name() == "vf" {
				to = filepath.Join(repo, "internal", "vf", filepath.Base(f))
			} else {
				to = filepath.Join(repo, "net", e.Name(), "zz_verif_"+filepath.Base(f))
			}
			ov[to] = b
		}
	}
	return ov, nil
}

// dropDecl blanks the overlay declaration at pos, keeping line numbers.
func dropDecl(ov map[string][]byte, pos string) (name, why string) {
	f := strings.Split(pos, ":")
	if len(f) < 2 {
		return "", ""
	}
	src, ok := ov[f[0]]
	if !ok {
		return "", ""
	}
	line, _ := strconv.Atoi(f[1])
	fset := token.NewFileSet()
	af, err := parser.ParseFile(fset, f[0], src, parser.ParseComments)
	if err != nil {
		return "", ""
	}
	blank := func(n ast.Node) {
		out := append([]byte{}, src...)
		for i := fset.Position(n.Pos()).Offset; i < fset.Position(n.End()).Offset && i < len(out); i++ {
			if out[i] != '\n' {
				out[i] = ' '
			}
		}
		ov[f[0]] = out
	}
	for _, d := range af.Decls {
		if fset.Position(d.Pos()).Line > line || line > fset.Position(d.End()).Line {
			continue
		}
		switch d := d.(type) {
		case *ast.FuncDecl:
			blank(d)
			return d.Name.Name, ""
		case *ast.GenDecl:
			if d.Tok == token.IMPORT {
				for _, s := range d.Specs {
					if fset.Position(s.Pos()).Line == line {
						blank(s)
						return "import", ""
					}
				}
			}
			blank(d)
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.TypeSpec:
					return s.Name.Name, ""
				case *ast.ValueSpec:
					return s.Names[0].Name, ""
				}
			}
			return "decl", ""
		}
	}
	return "", ""
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOFLAGS=-mod=readonly", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0", "GO111MODULE=on")
}

func load(repo, croot string, pkgNames []string) (*Prog, error) {
	ov, err := overlayFiles(croot, repo)
	if err != nil {
		return nil, err
	}
	p := &Prog{repo: repo, pkgs: map[string]*packages.Package{}, spkgs: map[string]*ssa.Package{},
		contracts: map[*ssa.Function]*Contract{}, byName: map[string]*Contract{}, recs: map[string]*RecFn{}, recByFn: map[*ssa.Function]*RecFn{},
		stored: map[*ssa.Global]bool{}, globRef: map[*ssa.Global]int64{}, globSeq: refGlobal0, overlay: ov, funcs: map[string]*ssa.Function{}, dirs: map[string][]string{}, dropped: map[string]string{}}
	pats := []string{"./internal/vf"}
	for _, n := range pkgNames {
		pats = append(pats, "./net/"+n)
	}
	var pkgs []*packages.Package
	for round := 0; ; round++ {
		cfg := &packages.Config{
			Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedSyntax |
				packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
			Dir: repo, Env: goEnv(), Overlay: ov,
		}
		pkgs, err = packages.Load(cfg, pats...)
		if err != nil {
			return nil, err
		}
		var errs []string
		dropped := false
		for _, pk := range pkgs {
			for _, e := range pk.Errors {
				errs = append(errs, e.Error())
			}
			// A contract that no longer fits the code is set aside, not guessed at.
			for _, e := range pk.Errors {
				if name, why := dropDecl(ov, e.Pos); name != "" {
					p.dropped[pk.Name+"."+name] = why + e.Msg
					dropped = true
				}
			}
		}
		if len(errs) == 0 {
			break
		}
		if !dropped || round > 40 {
			sort.Strings(errs)
			if len(errs) > 10 {
				errs = errs[:10]
			}
			return nil, fmt.Errorf("loading: %s", strings.Join(errs, "\n"))
		}
	}
	for _, pk := range pkgs {
		p.pkgs[pk.Name] = pk
		p.fset = pk.Fset
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.GlobalDebug|ssa.InstantiateGenerics)
	prog.Build()
	p.ssaProg = prog
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no ssa for %s", pkgs[i].PkgPath)
		}
		p.spkgs[pkgs[i].Name] = sp
	}
	var names []string
	for n := range p.spkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	fns := map[string][]*ssa.Function{}
	for _, n := range names {
		fns[n] = p.scan(n, p.spkgs[n])
	}
	for _, n := range names {
		p.scanContracts(n, fns[n])
	}
	return p, nil
}

func (p *Prog) ours(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return false
	}
	return strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
}

// isSpec: declared in an overlay file.
func (p *Prog) isSpec(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	f := p.fset.Position(fn.Pos()).Filename
	_, ok := p.overlay[f]
	return ok
}

func fnKey(fn *ssa.Function) string {
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name() + "_" + fn.Name()
		}
	}
	return fn.Name()
}

func (p *Prog) scan(pkg string, sp *ssa.Package) []*ssa.Function {
	var all []*ssa.Function
	add := func(fn *ssa.Function) {
		if fn == nil {
			return
		}
		all = append(all, fn)
	}
	var names []string
	for n := range sp.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		switch m := sp.Members[n].(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := p.ssaProg.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if fn := p.ssaProg.MethodValue(ms.At(i)); fn != nil && fn.Pkg == sp && fn.Synthetic == "" {
						add(fn)
					}
				}
			}
		}
	}
	for _, fn := range all {
		p.funcs[pkg+"."+fnKey(fn)] = fn
		p.scanStores(fn)
	}
	return all
}

func (p *Prog) scanContracts(pkg string, all []*ssa.Function) {
	for _, fn := range all {
		if !p.isSpec(fn) || fn.Signature.Recv() != nil {
			continue
		}
		name := fn.Name()
		i := strings.IndexByte(name, '_')
		if i < 0 {
			if strings.HasPrefix(name, "Lemma") {
				p.contract(pkg, name, fn).lemma = true
			}
			continue
		}
		kind, target := name[:i], name[i+1:]
		switch kind {
		case "Pre", "Post", "Old", "Mod", "Hint", "Inv", "Dec", "Trusted", "After", "Before", "Case":
		case "Lemma":
			continue
		default:
			continue
		}
		k := 0
		if kind == "Inv" {
			j := strings.LastIndexByte(target, '_')
			n, err := strconv.Atoi(target[j+1:])
			if err != nil {
				panic("bad Inv name " + name)
			}
			k, target = n, target[:j]
		}
		var callee *ssa.Function
		if kind == "After" || kind == "Before" {
			ok := false
			for j := range target {
				if target[j] == '_' && p.funcs[pkg+"."+target[:j]] != nil && p.funcs[pkg+"."+target[j+1:]] != nil {
					callee, target, ok = p.funcs[pkg+"."+target[j+1:]], target[:j], true
					break
				}
				// a function of another package: Caller_pkg_Callee
				if q := strings.IndexByte(target[j+1:], '_'); target[j] == '_' && q > 0 && p.funcs[pkg+"."+target[:j]] != nil {
					if f := p.funcs[target[j+1:j+1+q]+"."+target[j+2+q:]]; f != nil {
						callee, target, ok = f, target[:j], true
						break
					}
				}
			}
			if !ok {
				continue
			}
		}
		tf := p.funcs[pkg+"."+target]
		if tf == nil {
			// contract for a function that no longer exists
			p.byName[pkg+"."+target] = &Contract{name: target}
			continue
		}
		c := p.contract(pkg, target, tf)
		switch kind {
		case "Pre":
			c.pre = fn
		case "Post":
			c.post = fn
		case "Old":
			c.old = fn
		case "Mod":
			c.mod = fn
		case "Hint":
			c.hint = fn
		case "Dec":
			c.dec = fn
		case "Trusted":
			c.trusted = true
		case "Case":
			c.caseOf = fn
		case "Before":
			if c.before == nil {
				c.before = map[*ssa.Function]*ssa.Function{}
			}
			c.before[callee] = fn
		case "After":
			if c.after == nil {
				c.after = map[*ssa.Function]*ssa.Function{}
			}
			c.after[callee] = fn
		case "Inv":
			c.inv[k] = fn
		}
		if strings.HasPrefix(target, "Lemma") {
			c.lemma = true
		}
		if fd, ok := fn.Syntax().(*ast.FuncDecl); ok && fd.Doc != nil {
			for _, cm := range fd.Doc.List {
				if strings.HasPrefix(cm.Text, "//vf:") {
					p.directive(c, strings.TrimPrefix(cm.Text, "//vf:"))
				}
			}
		}
	}
}

func (p *Prog) directive(c *Contract, d string) {
	f := strings.Fields(d)
	switch f[0] {
	case "split":
		var ss []*ssaSplit
		for i := 1; i+1 < len(f); i += 2 {
			r := strings.Split(f[i+1], "..")
			lo, _ := strconv.ParseInt(r[0], 10, 64)
			hi, _ := strconv.ParseInt(r[1], 10, 64)
			ss = append(ss, &ssaSplit{f[i], lo, hi})
		}
		c.splits = append(c.splits, ss)
	case "unroll":
		c.unroll, _ = strconv.Atoi(f[1])
	case "nilable":
		for _, n := range f[1:] {
			c.nilable[n] = true
		}
	case "opaque":
		if c.opaque == nil {
			c.opaque = map[string]bool{}
		}
		for _, n := range f[1:] {
			c.opaque[n] = true
		}
	case "cases":
		n, _ := strconv.ParseInt(f[1], 10, 64)
		c.splits = append(c.splits, []*ssaSplit{{"case", 0, n - 1}})
	case "wfrefs":
		c.wfrefs = true
	case "noprune":
		c.noprune = true
	case "depth":
		c.depth, _ = strconv.Atoi(f[1])
	default:
		panic("unknown directive " + d)
	}
}

func (p *Prog) contract(pkg, target string, fn *ssa.Function) *Contract {
	if c, ok := p.contracts[fn]; ok {
		return c
	}
	c := &Contract{name: target, fn: fn, inv: map[int]*ssa.Function{}, nilable: map[string]bool{}}
	p.contracts[fn] = c
	p.byName[pkg+"."+target] = c
	return c
}

// scanStores records globals written outside initialisers.
func (p *Prog) scanStores(fn *ssa.Function) {
	if fn.Name() == "init" {
		return
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if g, ok := in.Addr.(*ssa.Global); ok {
					p.stored[g] = true
				}
			default:
				// address escaping anywhere else than a load or a selection
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						if u, isU := in.(*ssa.UnOp); isU && u.Op == token.MUL {
							continue
						}
						if _, isD := in.(*ssa.DebugRef); isD {
							continue
						}
						if _, isF := in.(*ssa.FieldAddr); isF {
							continue
						}
						if _, isI := in.(*ssa.IndexAddr); isI {
							continue
						}
						p.stored[g] = true
					}
				}
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		p.scanStores(a)
	}
}

func (p *Prog) pos(pos token.Pos) string {
	ps := p.fset.Position(pos)
	if !ps.IsValid() {
		return "-"
	}
	f := ps.Filename
	if r, err := filepath.Rel(p.repo, f); err == nil {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// globalInit finds the expression initialising a package-level variable.
func (p *Prog) globalInit(g *ssa.Global) ssa.Value {
	init := g.Pkg.Func("init")
	if init == nil {
		return nil
	}
	var v ssa.Value
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				v = s.Val
			}
		}
	}
	return v
}

func constVal(c *ssa.Const) (constant.Value, bool) {
	if c.Value == nil {
		return nil, false
	}
	return c.Value, true
}
