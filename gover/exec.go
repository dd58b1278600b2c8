package main

// Symbolic execution of SSA into verification conditions.

import (
	"context"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	fn, label, pos string
	hyps           []*Term
	pc             *Term
	goal           *Term
	cover          bool // must be satisfiable
	res            string
	solver         string
	ms             int64
	detail         string
	trivial        bool
	split          int
}

type Exec struct {
	topOld    Val
	prune     bool // drop branches that a case excludes
	prog      *Prog
	c         *Contract
	fname     string
	facts     []*Term
	headFacts int // facts when the head of the region executed last was left
	obls      []*Obl
	initHeap  map[string]*Term
	globText  map[int64]string // contents of package variables that are never changed
	ifaces    map[*Term]IfaceV
	funcs     map[*Term]FuncV
	spec      int
	bvs       []*Term // quantifiers around the term being built
	lemmas    int
	nformal   int
	wf        map[*Term]bool
	undec     map[string]int
	hints     []hintT
	usedHint  map[string]bool
	pats      []*Term // trigger terms given for the innermost quantifier
	wfFacts   []*Term // references in the initial heap
	mute      int     // >0: obligations are not recorded
	emode     int     // how vf.Ensure and vf.Inv are interpreted
	label     string
	measure   []*Term // collected by vf.Dec
	modLocs   *[]modLoc
	recOK     bool
	records   map[string][]*Term // vf.Record
	topMods   []modLoc           // of the function under verification
	entry     *State             // state at function entry
	preAlloc  *Term              // allocation counter before the call whose Post is evaluated
	depth     int
	trusted   map[string]bool
	used      map[string]bool // contracts relied upon
	inlined   map[string]bool
	unterm    map[string]bool // loops without a measure
	loops     map[*ssa.Function]*loopInfo
	scout     int // finding out what a loop modifies
	loopAlloc *Term
	specBase  *Term // allocation counter before the specification under evaluation
	splitNo   int
	inRec     *RecFn
	lemSelf   bool
	fresh0    *Term
	steps     int
	deadline  time.Time
	prop      string // property being decided; other properties' clauses are skipped
}

const (
	emNone = iota
	emCheck
	emAssume
)

type modLoc struct {
	key  string
	sort *Sort
	ref  *Term
	idx  *Term // nil: whole object
	lo   *Term // when not nil, the elements in lo..hi-1 of the object
	hi   *Term
	lf   leaf
}

type frame struct {
	fn     *ssa.Function
	params []Val
	parent *frame
	old    Val
	rets   []retState
	li     *loopInfo
	c      *Contract
	outer  *Term // allocation counter when the outermost loop under way began
}

type retState struct {
	st  *State
	res []Val
	pos token.Pos
}

type edgeState struct {
	from, to *ssa.BasicBlock
	st       *State
}

func newExec(p *Prog, c *Contract) *Exec {
	return &Exec{prog: p, c: c, initHeap: map[string]*Term{}, globText: map[int64]string{}, ifaces: map[*Term]IfaceV{}, funcs: map[*Term]FuncV{}, trusted: map[string]bool{}, used: map[string]bool{}, inlined: map[string]bool{}, unterm: map[string]bool{}, loops: map[*ssa.Function]*loopInfo{}}
}

func (x *Exec) factRaw(t *Term) {
	if t == tTrue {
		return
	}
	if t.hasB {
		// a lemma about bound variables: of use where the innermost
		// quantifier around it is a goal
		if x.lemmas > 0 && len(x.bvs) > 0 {
			b := x.bvs[len(x.bvs)-1]
			bvFacts[b] = append(bvFacts[b], t)
		}
		return
	}
	x.facts = append(x.facts, t)
}

// bvFacts are lemma instances for bound variables.
var bvFacts = map[*Term][]*Term{}

// fact records a formula that holds whenever st's path is taken.
func (x *Exec) fact(st *State, t *Term) {
	if t == tTrue {
		return
	}
	x.factRaw(imp(st.pcT(), t))
}

func (x *Exec) oblig(st *State, label string, pos token.Pos, goal *Term) {
	if st.dead() {
		return
	}
	if x.mute > 0 {
		return
	}
	for _, g := range splitGoal(goal) {
		o := &Obl{fn: x.fname, label: label, pos: x.prog.pos(pos), hyps: append(x.facts[:len(x.facts):len(x.facts)], x.wfFacts...), pc: st.pcT(), goal: g, split: x.splitNo}
		if g == tTrue {
			o.trivial = true
			o.res = "unsat"
			o.solver = "simplifier"
		}
		x.obls = append(x.obls, o)
	}
}

// splitGoal splits conjunctions and skolemises universal goals.
func splitGoal(g *Term) []*Term { return splitGoalIn(g, nil) }

func splitGoalIn(g *Term, env map[*Term]*Term) []*Term {
	switch g.op {
	case oAnd:
		var out []*Term
		for _, a := range g.args {
			out = append(out, splitGoalIn(a, env)...)
		}
		return out
	case oForall:
		m := map[*Term]*Term{}
		for b, v := range env {
			m[b] = v
		}
		var hyp []*Term
		for _, b := range g.bvs {
			m[b] = fresh("sk", b.sort, nil, nil)
		}
		for _, b := range g.bvs {
			for _, f := range bvFacts[b] {
				if f = subst(f, m); !f.hasB {
					hyp = append(hyp, not(f))
				}
			}
		}
		gs := splitGoalIn(subst(g.args[0], m), m)
		if len(hyp) > 0 {
			for i := range gs {
				gs[i] = or(append(hyp[:len(hyp):len(hyp)], gs[i])...)
			}
		}
		return gs
	case oOr:
		// distribute over a single splittable disjunct
		for i, a := range g.args {
			if a.op == oForall || a.op == oAnd && len(a.args) <= 64 {
				var rest []*Term
				rest = append(rest, g.args[:i]...)
				rest = append(rest, g.args[i+1:]...)
				var out []*Term
				for _, s := range splitGoalIn(a, env) {
					out = append(out, or(append(rest[:len(rest):len(rest)], s)...))
				}
				return out
			}
		}
	case oIte:
		if g.sort == sBool {
			a := splitGoalIn(or(not(g.args[0]), g.args[1]), env)
			return append(a, splitGoalIn(or(g.args[0], g.args[2]), env)...)
		}
	}
	return []*Term{g}
}

// safety is an obligation that is assumed afterwards.
func (x *Exec) safety(st *State, label string, pos token.Pos, goal *Term) {
	if x.spec > 0 || goal == tTrue {
		return
	}
	x.oblig(st, label, pos, goal)
	x.fact(st, goal)
}

// ---- control flow

type loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	no     int
}

type loopInfo struct {
	heads map[*ssa.BasicBlock]*loop
	rpo   []*ssa.BasicBlock
	order map[*ssa.BasicBlock]int
}

func (x *Exec) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := x.loops[fn]; ok {
		return li
	}
	li := &loopInfo{heads: map[*ssa.BasicBlock]*loop{}, order: map[*ssa.BasicBlock]int{}}
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		li.rpo = append(li.rpo, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(li.rpo)-1; i < j; i, j = i+1, j-1 {
		li.rpo[i], li.rpo[j] = li.rpo[j], li.rpo[i]
	}
	for i, b := range li.rpo {
		li.order[b] = i
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.heads[s]
				if l == nil {
					l = &loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.heads[s] = l
				}
				var up func(c *ssa.BasicBlock)
				up = func(c *ssa.BasicBlock) {
					if l.blocks[c] {
						return
					}
					l.blocks[c] = true
					for _, p := range c.Preds {
						if _, ok := li.order[p]; ok {
							up(p)
						}
					}
				}
				up(b)
			} else if li.order[s] <= li.order[b] {
				panic(unsup("irreducible control flow"))
			}
		}
	}
	// number loops in source order
	var hs []*loop
	for _, l := range li.heads {
		hs = append(hs, l)
	}
	sort.Slice(hs, func(i, j int) bool { return li.order[hs[i].head] < li.order[hs[j].head] })
	for i, l := range hs {
		l.no = i + 1
	}
	x.loops[fn] = li
	return li
}

// region executes the blocks of a region from its entry block. Edges back to
// the entry block and edges leaving the region are returned.
func (x *Exec) region(fr *frame, blocks map[*ssa.BasicBlock]bool, entry *ssa.BasicBlock, start []edgeState, startAt int) (exits, backs []edgeState) {
	inc := map[*ssa.BasicBlock][]edgeState{entry: start}
	skip := map[*ssa.BasicBlock]bool{}
	route := func(e edgeState) {
		if e.st == nil || e.st.dead() {
			return
		}
		switch {
		case e.to == entry:
			backs = append(backs, e)
		case blocks != nil && !blocks[e.to]:
			exits = append(exits, e)
		default:
			inc[e.to] = append(inc[e.to], e)
		}
	}
	nh := 0
	defer func() { x.headFacts = nh }()
	for _, b := range fr.li.rpo {
		if skip[b] || blocks != nil && !blocks[b] {
			continue
		}
		in := inc[b]
		if len(in) == 0 {
			continue
		}
		if l := fr.li.heads[b]; l != nil && b != entry {
			for bb := range l.blocks {
				skip[bb] = true
			}
			for _, e := range x.loop(fr, l, in) {
				route(e)
			}
			continue
		}
		st := x.join(in, b, b == entry && startAt == 1)
		if st == nil {
			continue
		}
		for _, e := range x.block(fr, st, b) {
			route(e)
		}
		if b == entry {
			nh = len(x.facts)
		}
	}
	return
}

// join merges the incoming states of a block, evaluating its phis.
func (x *Exec) join(in []edgeState, b *ssa.BasicBlock, phisDone bool) *State {
	var ss []*State
	for _, e := range in {
		if e.st.dead() {
			continue
		}
		if !phisDone && e.from != nil {
			e.st = x.phis(e)
		}
		ss = append(ss, e.st)
	}
	return x.mergeStates(ss)
}

func (x *Exec) phis(e edgeState) *State {
	pi := -1
	for i, p := range e.to.Preds {
		if p == e.from {
			pi = i
		}
	}
	st := e.st
	var vals []Val
	var ph []*ssa.Phi
	for _, in := range e.to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ph = append(ph, p)
		vals = append(vals, x.val(st, p.Edges[pi]))
	}
	if len(ph) > 0 {
		st = st.clone()
		for i, p := range ph {
			st.env[p] = vals[i]
		}
	}
	return st
}

// block executes the instructions of a block and returns its outgoing edges.
func (x *Exec) block(fr *frame, st *State, b *ssa.BasicBlock) []edgeState {
	st = st.clone()
	for _, in := range b.Instrs {
		x.steps++
		switch in := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := x.val(st, in.Cond).(*Term)
			t, f := st.clone(), st
			if x.prune && !c.hasB && c != tTrue && c != tFalse {
				site := fmt.Sprint(x.splitNo, b.Parent(), b.Index)
				if x.undec[site] < 3 {
					neg := make(chan bool, 1)
					if x.spec > 0 && x.c.noprune {
						h, nh := x.known(st, c)
						if h {
							return []edgeState{{b, b.Succs[0], t}}
						}
						if nh {
							return []edgeState{{b, b.Succs[1], f}}
						}
						t.assume(c)
						f.assume(not(c))
						return []edgeState{{b, b.Succs[0], t}, {b, b.Succs[1], f}}
					}
					q := x.impliedQ(st, c)
					qn := x.impliedQ(st, not(c))
					go func() { neg <- qn() }()
					if q() {
						delete(x.undec, site)
						return []edgeState{{b, b.Succs[0], t}}
					}
					if <-neg {
						delete(x.undec, site)
						return []edgeState{{b, b.Succs[1], f}}
					}
					if x.undec == nil {
						x.undec = map[string]int{}
					}
					x.undec[site]++
				}
			}
			t.assume(c)
			f.assume(not(c))
			return []edgeState{{b, b.Succs[0], t}, {b, b.Succs[1], f}}
		case *ssa.Jump:
			return []edgeState{{b, b.Succs[0], st}}
		case *ssa.Return:
			var rs []Val
			for _, r := range in.Results {
				rs = append(rs, x.val(st, r))
			}
			fr.rets = append(fr.rets, retState{st, rs, in.Pos()})
			return nil
		case *ssa.Panic:
			x.safety(st, "explicit panic unreachable", in.Pos(), tFalse)
			return nil
		default:
			if x.instr(fr, st, in) {
				return nil // path ends
			}
		}
	}
	return nil
}

// call runs fn's body on args; the result state is the merge of all returns.
func (x *Exec) runBody(fn *ssa.Function, args []Val, st *State, c *Contract, old Val) (*State, []Val, *frame) {
	if fn.Blocks == nil {
		panic(unsup("no body: " + fn.String()))
	}
	fr := &frame{fn: fn, params: args, li: x.loopsOf(fn), c: c, old: old}
	saved := st.env
	s := st.clone()
	s.env = map[ssa.Value]Val{}
	for i, p := range fn.Params {
		s.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		s.env[fv] = args[len(fn.Params)+i]
	}
	sd := s.defs
	s.defs = nil
	x.region(fr, nil, fn.Blocks[0], []edgeState{{nil, fn.Blocks[0], s}}, 0)
	var ss []*State
	for i := range fr.rets {
		r := &fr.rets[i]
		r.st = r.st.clone()
		r.st.env = map[ssa.Value]Val{}
		for j, v := range r.res {
			r.st.env[resKey(j)] = v
		}
		ss = append(ss, r.st)
	}
	m := x.mergeStates(ss)
	if m == nil {
		return nil, nil, fr
	}
	m = m.clone()
	var res []Val
	n := fn.Signature.Results().Len()
	for j := 0; j < n; j++ {
		v := m.env[resKey(j)]
		if p, ok := v.(poison); ok {
			panic(unsup(p.why))
		}
		res = append(res, v)
	}
	m.env = saved
	m.defs = sd
	return m, res, fr
}

type resKeyT struct {
	ssa.Value
	i int
}

var resKeys []*resKeyT

func resKey(i int) ssa.Value {
	for len(resKeys) <= i {
		resKeys = append(resKeys, &resKeyT{i: len(resKeys)})
	}
	return resKeys[i]
}

// ---- values

func (x *Exec) val(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constant(v)
	case *ssa.Global:
		return PtrV{glob: v, root: v.Type().Underlying().(*types.Pointer).Elem()}
	case *ssa.Function:
		return x.funcVal(v)
	case *ssa.Builtin:
		return nil
	}
	r, ok := st.env[v]
	if !ok {
		panic(unsup("undefined value " + v.Name() + " = " + v.String() + " in " + v.Parent().String()))
	}
	if p, ok := r.(poison); ok {
		panic(unsup(p.why))
	}
	return r
}

func (x *Exec) funcVal(fn *ssa.Function) Val {
	id := app("fn_"+fn.String(), sInt, bi1, nil)
	fv := FuncV{id: id, fn: fn, t: fn.Signature}
	x.funcs[id] = fv
	return fv
}

func (x *Exec) constant(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return x.zeroVal(t)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return cBool(constant.BoolVal(c.Value))
		}
		if u.Info()&types.IsString != 0 {
			return slit(constant.StringVal(c.Value))
		}
		if u.Info()&types.IsInteger != 0 {
			k := new(big.Int)
			k.SetString(constant.ToInt(c.Value).ExactString(), 10)
			return cBig(k)
		}
		if u.Info()&types.IsFloat != 0 {
			return app("flt_"+c.Value.ExactString(), sInt, nil, nil)
		}
	}
	panic(unsup("constant of type " + t.String()))
}

func (x *Exec) term(st *State, v ssa.Value) *Term {
	t, ok := x.val(st, v).(*Term)
	if !ok {
		panic(unsup("not a scalar: " + v.String()))
	}
	return t
}

// globals

func (x *Exec) loadGlobal(st *State, g *ssa.Global) Val {
	el := g.Type().Underlying().(*types.Pointer).Elem()
	name := g.Pkg.Pkg.Name() + "." + g.Name()
	if !x.prog.stored[g] {
		if x.prog.spkgs[g.Pkg.Pkg.Name()] == g.Pkg {
			if v, ok := x.constGlobal(st, g, el, name); ok {
				return v
			}
		} else if _, ok := under(el).(*types.Interface); ok {
			return x.errConst(name)
		} else if _, ok := under(el).(*types.Struct); ok {
			return x.zeroVal(el) // binary.BigEndian and the like
		} else {
			return x.fromLeaves(el, x.globLeaves(el, name))
		}
	}
	panic(unsup("mutable package variable " + name))
}

func (x *Exec) globLeaves(el types.Type, name string) []*Term {
	var ts []*Term
	for _, l := range leaves(el) {
		ts = append(ts, mkVar("G_"+sanitize(name+l.name), l.sort, l.lo, l.hi))
	}
	return ts
}

func (x *Exec) errConst(name string) Val {
	id := app("gvar_"+sanitize(name), sInt, bi1, nil)
	return IfaceV{id: id}
}

// constGlobal evaluates the initialiser of a never-reassigned variable.
func (x *Exec) constGlobal(st *State, g *ssa.Global, el types.Type, name string) (Val, bool) {
	iv := x.prog.globalInit(g)
	switch u := under(el).(type) {
	case *types.Interface:
		if c, ok := iv.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && f.String() == "errors.New" {
				return x.errConst(name), true
			}
		}
		return nil, false
	case *types.Struct:
		if u.NumFields() == 0 {
			return x.zeroVal(el), true
		}
		return nil, false
	case *types.Basic:
		if c, ok := iv.(*ssa.Const); ok {
			return x.constant(c), true
		}
		if iv == nil {
			return x.zeroVal(el), true
		}
		return nil, false
	case *types.Slice:
		// slice literal of constants: a fixed object
		sl, ok := iv.(*ssa.Slice)
		if !ok {
			return nil, false
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok {
			return nil, false
		}
		n := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		vals := make([]*Term, n)
		for _, r := range *al.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			ic, ok := ia.Index.(*ssa.Const)
			if !ok {
				return nil, false
			}
			for _, rr := range *ia.Referrers() {
				if s, ok := rr.(*ssa.Store); ok {
					c, ok := s.Val.(*ssa.Const)
					if !ok {
						return nil, false
					}
					t, ok := x.constant(c).(*Term)
					if !ok {
						return nil, false
					}
					vals[ic.Int64()] = t
				}
			}
		}
		ref, ok := x.prog.globRef[g]
		if !ok {
			x.prog.globSeq++
			ref = x.prog.globSeq
			x.prog.globRef[g] = ref
		}
		lf := leaves(u.Elem())
		if len(lf) != 1 {
			return nil, false
		}
		k := hkey(u.Elem(), lf[0].name)
		// the contents are read through the current heap; assume them unchanged (checked by the frame of every function)
		h := x.heapGet(st, k, lf[0].sort)
		if b, ok := under(u.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
			var text []byte
			for _, v := range vals {
				if v == nil {
					v = cInt(0)
				}
				text = append(text, byte(v.k.Int64()))
			}
			x.globText[ref] = string(text)
		}
		for i, v := range vals {
			if v == nil {
				v = zeroLeaf(lf[0])
			}
			x.fact(st, eq(ranged(sel(sel(h, cInt(ref)), cInt(int64(i))), lf[0]), v))
		}
		return SliceV{cInt(ref), cInt(0), cInt(n), cInt(n), u.Elem()}, true
	}
	return nil, false
}

func (x *Exec) storeGlobal(st *State, g *ssa.Global, v Val) {
	panic(unsup("store to package variable " + g.String()))
}

// ---- instructions

func (x *Exec) set(st *State, v ssa.Value, val Val) { st.env[v] = val }

// arrObj resolves a pointer to an array to (ref, base index, element type).
func (x *Exec) arrObj(st *State, p PtrV, at *types.Array) (ref, idx *Term) {
	if p.glob != nil {
		panic(unsup("global array"))
	}
	t, pre := fieldAt(p.root, p.path)
	if _, ok := under(t).(*types.Array); ok && (len(p.path) > 0 || types.Identical(t, at)) {
		l := leaves(t)[0]
		l.name = pre + l.name
		return x.loadLeaf(st, p.root, l, p.ref, p.idx), cInt(0)
	}
	return p.ref, p.idx
}

func (x *Exec) nonNil(st *State, v Val, pos token.Pos, what string) {
	switch v := v.(type) {
	case PtrV:
		if v.glob == nil {
			x.safety(st, "nil dereference: "+what, pos, not(eq(v.ref, cInt(0))))
		}
	}
}

func (x *Exec) instr(fr *frame, st *State, in ssa.Instruction) bool {
	if x.steps++; x.steps&255 == 0 && !x.deadline.IsZero() && time.Now().After(x.deadline) {
		panic(unsup("time budget used up"))
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		return false
	case *ssa.Alloc:
		el := in.Type().Underlying().(*types.Pointer).Elem()
		if a, ok := under(el).(*types.Array); ok {
			ref := x.allocElems(st, a.Elem(), cInt(a.Len()))
			x.set(st, in, PtrV{ref: ref, idx: cInt(0), root: a.Elem()})
			return false
		}
		if x.spec > 0 {
			el = x.prog.specCell(el)
		}
		ref := x.newRef(st)
		x.zeroAt(st, el, ref)
		x.set(st, in, PtrV{ref: ref, idx: cInt(0), root: el})
	case *ssa.BinOp:
		x.set(st, in, x.binop(st, in.Op, x.val(st, in.X), x.val(st, in.Y), in.X.Type(), in.Y.Type(), in.Pos()))
	case *ssa.UnOp:
		x.set(st, in, x.unop(st, in))
	case *ssa.Call:
		res, ok := x.doCall(fr, st, &in.Call, in, in.Pos())
		if !ok {
			return true
		}
		switch len(res) {
		case 0:
		case 1:
			x.set(st, in, res[0])
		default:
			x.set(st, in, TupleV(res))
		}
	case *ssa.ChangeType:
		v := x.val(st, in.X)
		switch vv := v.(type) {
		case FuncV:
			vv.t = in.Type()
			v = vv
		case MapV:
			vv.t = under(in.Type()).(*types.Map)
			v = vv
		case StructV:
			vv.t = in.Type()
			v = vv
		}
		x.set(st, in, v)
	case *ssa.ChangeInterface:
		x.set(st, in, x.val(st, in.X))
	case *ssa.Convert:
		x.set(st, in, x.convert(st, in))
	case *ssa.MakeInterface:
		x.set(st, in, x.makeIface(st, x.val(st, in.X), in.X.Type()))
	case *ssa.Extract:
		x.set(st, in, x.val(st, in.Tuple).(TupleV)[in.Index])
	case *ssa.Field:
		x.set(st, in, x.val(st, in.X).(StructV).f[in.Field])
	case *ssa.FieldAddr:
		p := x.val(st, in.X).(PtrV)
		x.nonNil(st, p, in.Pos(), "field "+fieldName(in.X.Type(), in.Field))
		if p.glob != nil {
			panic(unsup("field of package variable " + p.glob.Name()))
		}
		np := p
		np.path = append(append([]int{}, p.path...), in.Field)
		x.set(st, in, np)
	case *ssa.Index:
		switch v := x.val(st, in.X).(type) {
		case ArrV:
			i := x.term(st, in.Index)
			x.safety(st, "index in range", in.Pos(), and(le(cInt(0), i), lt(i, cInt(v.t.Len()))))
			x.set(st, in, x.arrIndex(v, i))
		case *Term: // string
			i := x.term(st, in.Index)
			x.safety(st, "string index in range", in.Pos(), and(le(cInt(0), i), lt(i, slen(v))))
			x.set(st, in, sat(v, i))
		default:
			panic(unsup("index"))
		}
	case *ssa.IndexAddr:
		i := x.term(st, in.Index)
		switch v := x.val(st, in.X).(type) {
		case SliceV:
			x.safety(st, "index in range", in.Pos(), and(le(cInt(0), i), lt(i, v.ln)))
			x.set(st, in, PtrV{ref: v.ref, idx: add(v.off, i), root: v.elem})
		case PtrV:
			at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			x.nonNil(st, v, in.Pos(), "array")
			x.safety(st, "index in range", in.Pos(), and(le(cInt(0), i), lt(i, cInt(at.Len()))))
			ref, base := x.arrObj(st, v, at)
			x.set(st, in, PtrV{ref: ref, idx: add(base, i), root: at.Elem()})
		default:
			panic(unsup("indexaddr"))
		}
	case *ssa.Lookup:
		x.set(st, in, x.lookup(st, in))
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		var bs []Val
		for _, b := range in.Bindings {
			bs = append(bs, x.val(st, b))
		}
		id := fresh("clo", sInt, bi1, nil)
		fv := FuncV{id: id, fn: fn, binds: bs, t: in.Type()}
		x.funcs[id] = fv
		x.set(st, in, fv)
	case *ssa.MakeMap:
		t := under(in.Type()).(*types.Map)
		ref := x.newRef(st)
		x.mapZero(st, t, ref)
		x.set(st, in, MapV{ref, t})
	case *ssa.MakeChan:
		ref := x.newRef(st)
		x.set(st, in, ChanV{ref, in.Type()})
	case *ssa.MakeSlice:
		t := under(in.Type()).(*types.Slice)
		n, c := x.term(st, in.Len), x.term(st, in.Cap)
		x.safety(st, "make: length in range", in.Pos(), and(le(cInt(0), n), le(n, c), le(c, cBig(maxLen))))
		ref := x.allocElems(st, t.Elem(), c)
		x.set(st, in, SliceV{ref, cInt(0), n, c, t.Elem()})
	case *ssa.MapUpdate:
		m := x.val(st, in.Map).(MapV)
		x.safety(st, "assignment to nil map", in.Pos(), not(eq(m.ref, cInt(0))))
		x.mapSet(st, m, x.mapKey(st, m, x.val(st, in.Key)), x.val(st, in.Value))
	case *ssa.Store:
		p := x.val(st, in.Addr).(PtrV)
		x.nonNil(st, p, in.Pos(), "store")
		x.storeAny(st, p, x.val(st, in.Val), in.Val.Type())
	case *ssa.Slice:
		x.set(st, in, x.slice(st, in))
	case *ssa.TypeAssert:
		x.set(st, in, x.typeAssert(st, in))
	case *ssa.Defer:
		d := deferred{call: &in.Call}
		if in.Call.IsInvoke() {
			panic(unsup("deferred interface call"))
		}
		if in.Call.StaticCallee() == nil {
			d.fn = x.val(st, in.Call.Value)
		}
		for _, a := range in.Call.Args {
			d.args = append(d.args, x.val(st, a))
		}
		st.defs = append(st.defs[:len(st.defs):len(st.defs)], d)
	case *ssa.RunDefers:
		ds := st.defs
		st.defs = nil
		for i := len(ds) - 1; i >= 0; i-- {
			d := ds[i]
			f := d.call.StaticCallee()
			if f == nil {
				panic(unsup("deferred dynamic call"))
			}
			var binds []Val
			if mc, ok := d.call.Value.(*ssa.MakeClosure); ok {
				binds = x.val(st, mc).(FuncV).binds
			}
			if _, ok := x.callFn(fr, st, f, append(append([]Val{}, d.args...), binds...), in.Pos()); !ok {
				return true
			}
		}
	case *ssa.Go:
		x.trusted["goroutine start not modelled: "+in.Call.String()] = true
	case *ssa.Range:
		x.set(st, in, x.rangeInit(st, in))
	case *ssa.Next:
		x.set(st, in, x.rangeNext(st, in))
	case *ssa.Send:
		x.send(st, x.val(st, in.Chan).(ChanV), x.val(st, in.X), in.X.Type())
	case *ssa.Select:
		x.set(st, in, x.selectOp(st, in))
	default:
		panic(unsup(fmt.Sprintf("instruction %T %s", in, in)))
	}
	return false
}

func fieldName(t types.Type, i int) string {
	if p, ok := under(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	return under(t).(*types.Struct).Field(i).Name()
}

func (x *Exec) arrIndex(v ArrV, i *Term) Val {
	ls := leaves(v.t.Elem())
	var ts []*Term
	for k, l := range ls {
		ts = append(ts, ranged(sel(v.leaves[k], i), l))
	}
	return x.fromLeaves(v.t.Elem(), ts)
}

func (x *Exec) storeAny(st *State, p PtrV, v Val, t types.Type) {
	if a, ok := under(t).(*types.Array); ok && len(p.path) == 0 && p.glob == nil && !types.Identical(p.root, t) {
		x.storeArr(st, a, p.ref, v.(ArrV))
		return
	}
	x.store(st, p, v)
}

// smallMul multiplies, by cases when one factor is known to be 0, 1 or 2.
func (x *Exec) smallMul(st *State, p, q *Term) *Term {
	if isC(p) || isC(q) || x.spec > 0 {
		return mul(p, q)
	}
	for i := 0; i < 2; i++ {
		if p.op != oIte && x.prove(st, and(le(cInt(0), p), le(p, cInt(2))), 2*time.Second) {
			return ite(eq(p, cInt(0)), cInt(0), ite(eq(p, cInt(1)), q, mulc(q, big.NewInt(2))))
		}
		p, q = q, p
	}
	return mul(p, q)
}

func (x *Exec) unop(st *State, in *ssa.UnOp) Val {
	switch in.Op {
	case token.MUL:
		p := x.val(st, in.X).(PtrV)
		x.nonNil(st, p, in.Pos(), "load")
		if a, ok := under(in.Type()).(*types.Array); ok && len(p.path) == 0 && p.glob == nil && !types.Identical(p.root, in.Type()) {
			return x.loadArr(st, a, p.ref)
		}
		return x.load(st, p)
	case token.NOT:
		return not(x.term(st, in.X))
	case token.SUB:
		if isFloat(in.Type()) {
			return app("fneg", sInt, nil, nil, x.term(st, in.X))
		}
		return x.arith(neg(x.term(st, in.X)), in.Type())
	case token.XOR:
		t := x.term(st, in.X)
		_, hi, _, signed, _ := intRange(in.Type())
		if signed {
			return sub(cInt(-1), t)
		}
		return sub(cBig(hi), t)
	case token.ARROW:
		return x.recv(st, in)
	}
	panic(unsup("unop " + in.String()))
}

// arith wraps to the machine type; in specifications int is mathematical.
func (x *Exec) arith(t *Term, ty types.Type) *Term {
	if x.spec > 0 {
		if b, ok := under(ty).(*types.Basic); ok && (b.Kind() == types.Int || b.Kind() == types.UntypedInt) {
			return t
		}
	}
	return wrap(t, ty)
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (x *Exec) binop(st *State, op token.Token, a, b Val, ta, tb types.Type, pos token.Pos) Val {
	switch op {
	case token.EQL:
		return x.equal(st, a, b, ta)
	case token.NEQ:
		return not(x.equal(st, a, b, ta))
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		panic(unsup("binop operands"))
	}
	if isFloat(ta) {
		switch op {
		case token.LSS:
			return app("flt", sBool, nil, nil, p, q)
		case token.GTR:
			return app("flt", sBool, nil, nil, q, p)
		case token.LEQ:
			return app("fle", sBool, nil, nil, p, q)
		case token.GEQ:
			return app("fle", sBool, nil, nil, q, p)
		}
		return app("f"+op.String(), sInt, nil, nil, p, q)
	}
	if p.sort == sStr {
		switch op {
		case token.ADD:
			return cat(p, q)
		case token.LSS:
			return app("strlt", sBool, nil, nil, p, q)
		case token.GTR:
			return app("strlt", sBool, nil, nil, q, p)
		case token.LEQ:
			return not(app("strlt", sBool, nil, nil, q, p))
		case token.GEQ:
			return not(app("strlt", sBool, nil, nil, p, q))
		}
		panic(unsup("string op " + op.String()))
	}
	lo, _, bits, signed, isInt := intRange(ta)
	_ = lo
	switch op {
	case token.LSS:
		return lt(p, q)
	case token.LEQ:
		return le(p, q)
	case token.GTR:
		return lt(q, p)
	case token.GEQ:
		return le(q, p)
	}
	if p.sort == sBool {
		switch op {
		case token.AND, token.LAND:
			return and(p, q)
		case token.OR, token.LOR:
			return or(p, q)
		}
	}
	if !isInt {
		panic(unsup("binop on " + ta.String()))
	}
	switch op {
	case token.ADD:
		return x.arith(add(p, q), ta)
	case token.SUB:
		return x.arith(sub(p, q), ta)
	case token.MUL:
		return x.arith(x.smallMul(st, p, q), ta)
	case token.QUO, token.REM:
		x.safety(st, "division by zero", pos, not(eq(q, cInt(0))))
		nn := p.lo != nil && p.lo.Sign() >= 0 && q.lo != nil && q.lo.Sign() >= 0
		var d, m *Term
		if nn || isC(q) && q.k.Sign() > 0 && p.lo != nil && p.lo.Sign() >= 0 {
			d, m = divx(p, q), modx(p, q)
		} else if isC(q) && q.k.Sign() > 0 {
			// truncated division
			d = ite(le(cInt(0), p), divc(p, q.k), neg(divc(neg(p), q.k)))
			m = sub(p, mulc(d, q.k))
		} else {
			absq := ite(le(cInt(0), q), q, neg(q))
			absp := ite(le(cInt(0), p), p, neg(p))
			dd := divx(absp, absq)
			mm := modx(absp, absq)
			d = ite(eq(cBool1(le(cInt(0), p)), cBool1(le(cInt(0), q))), dd, neg(dd))
			m = ite(le(cInt(0), p), mm, neg(mm))
		}
		if op == token.QUO {
			return x.arith(d, ta)
		}
		return x.arith(m, ta)
	case token.SHL, token.SHR:
		if _, _, _, sg, _ := intRange(tb); sg {
			x.safety(st, "negative shift count", pos, le(cInt(0), q))
		}
		return x.shift(op, p, q, ta, bits, signed)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		up, uq := p, q
		if signed && !(nonneg(p) && nonneg(q)) {
			up, uq = toUnsigned(p, bits), toUnsigned(q, bits)
		}
		var r *Term
		switch op {
		case token.AND:
			r = band(up, uq, bits)
		case token.OR:
			r = bor(up, uq, bits)
		case token.XOR:
			r = bxor(up, uq, bits)
		case token.AND_NOT:
			r = band(up, sub(cBig(new(big.Int).Sub(pow2i(bits), bi1)), uq), bits)
		}
		return wrap(r, ta)
	}
	panic(unsup("binop " + op.String()))
}

func cBool1(t *Term) *Term { return t }

func nonneg(t *Term) bool { return t.lo != nil && t.lo.Sign() >= 0 }

func (x *Exec) shift(op token.Token, p, q *Term, ta types.Type, bits int, signed bool) *Term {
	big_ := cInt(int64(bits))
	if x.spec > 0 && !isC(q) {
		if op == token.SHL {
			return ite(lt(q, big_), x.arith(mul(p, pow2t(q)), ta), cInt(0))
		}
		return ite(lt(q, big_), divx(p, pow2t(q)), ite(le(cInt(0), p), cInt(0), cInt(-1)))
	}
	if op == token.SHL {
		if isC(q) {
			if q.k.Cmp(bi(int64(bits))) >= 0 {
				return cInt(0)
			}
			return x.arith(mulc(p, pow2i(int(q.k.Int64()))), ta)
		}
		qq := q
		if q.hi == nil || q.hi.Cmp(bi(int64(bits))) >= 0 {
			// guard: count >= width gives zero
			c := fresh("sh", sInt, bi0, bi(int64(bits-1)))
			x.factRaw(imp(and(lt(q, big_), le(cInt(0), q)), eq(c, q)))
			return ite(lt(q, big_), x.arith(mul(p, pow2t(c)), ta), cInt(0))
		}
		return x.arith(mul(p, pow2t(qq)), ta)
	}
	if isC(q) {
		k := q.k
		if k.Cmp(bi(int64(bits))) > 0 {
			k = bi(int64(bits))
		}
		return divc(p, pow2i(int(k.Int64())))
	}
	if q.hi != nil && q.hi.Cmp(bi(int64(bits))) <= 0 {
		return divx(p, pow2t(q))
	}
	c := fresh("sh", sInt, bi0, bi(int64(bits-1)))
	x.factRaw(imp(and(lt(q, big_), le(cInt(0), q)), eq(c, q)))
	sat := cInt(0)
	if signed {
		sat = ite(le(cInt(0), p), cInt(0), cInt(-1))
	}
	return ite(lt(q, big_), divx(p, pow2t(c)), sat)
}

func (x *Exec) equal(st *State, a, b Val, t types.Type) *Term {
	switch a := a.(type) {
	case *Term:
		if isFloat(t) {
			return app("feq", sBool, nil, nil, a, b.(*Term))
		}
		return eq(a, b.(*Term))
	case SliceV:
		if bb, ok := b.(SliceV); ok {
			if bb.ref == cInt(0) {
				return eq(a.ref, cInt(0))
			}
			if a.ref == cInt(0) {
				return eq(bb.ref, cInt(0))
			}
		}
	case PtrV:
		bb := b.(PtrV)
		if a.glob != nil || bb.glob != nil {
			return cBool(a.glob == bb.glob)
		}
		if isC(bb.ref) && bb.ref.k.Sign() == 0 || isC(a.ref) && a.ref.k.Sign() == 0 {
			return eq(a.ref, bb.ref)
		}
		return and(eq(a.ref, bb.ref), eq(a.idx, bb.idx))
	case MapV:
		return eq(a.ref, b.(MapV).ref)
	case ChanV:
		return eq(a.ref, b.(ChanV).ref)
	case IfaceV:
		return eq(a.id, b.(IfaceV).id)
	case FuncV:
		return eq(a.id, b.(FuncV).id)
	case StructV:
		bb := b.(StructV)
		u := under(a.t).(*types.Struct)
		r := tTrue
		for i := range a.f {
			r = and(r, x.equal(st, a.f[i], bb.f[i], u.Field(i).Type()))
		}
		return r
	case ArrV:
		bb := b.(ArrV)
		bv := mkBVar("e")
		r := tTrue
		for i := range a.leaves {
			r = and(r, eq(sel(a.leaves[i], bv), sel(bb.leaves[i], bv)))
		}
		return forall([]*Term{bv}, imp(and(le(cInt(0), bv), lt(bv, cInt(a.t.Len()))), r))
	}
	panic(unsup(fmt.Sprintf("comparison of %T", a)))
}

func (x *Exec) makeIface(st *State, v Val, t types.Type) Val {
	if _, ok := under(t).(*types.Interface); ok {
		return v
	}
	var id *Term
	if iv, ok := v.(IfaceV); ok {
		return iv
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(unsupported); !ok {
					panic(r)
				}
				id = fresh("iface", sInt, bi1, nil)
			}
		}()
		if _, ok := v.(ArrV); ok {
			id = fresh("iface", sInt, bi1, nil)
			return
		}
		id = app("if_"+sanitize(typeName(t)), sInt, bi1, nil, x.toLeaves(v, t)...)
	}()
	iv := IfaceV{id: id, dyn: v, dt: t}
	x.ifaces[id] = iv
	return iv
}

func (x *Exec) typeAssert(st *State, in *ssa.TypeAssert) Val {
	v := x.val(st, in.X).(IfaceV)
	if v.dyn != nil {
		ok := tFalse
		var r Val
		if _, isI := under(in.AssertedType).(*types.Interface); isI {
			ok, r = cBool(types.Implements(v.dt, under(in.AssertedType).(*types.Interface))), v
		} else if types.Identical(v.dt, in.AssertedType) {
			ok, r = tTrue, v.dyn
		} else {
			r = x.zeroVal(in.AssertedType)
		}
		if in.CommaOk {
			return TupleV{r, ok}
		}
		x.safety(st, "type assertion", in.Pos(), ok)
		return r
	}
	if in.CommaOk {
		ok := and(app("isT_"+sanitize(typeName(in.AssertedType)), sBool, nil, nil, v.id), not(eq(v.id, cInt(0))))
		if _, isI := under(in.AssertedType).(*types.Interface); isI {
			return TupleV{v, ok}
		}
		return TupleV{x.havocVal(st, "ta", in.AssertedType), ok}
	}
	x.safety(st, "type assertion", in.Pos(), tFalse)
	return x.havocVal(st, "ta", in.AssertedType)
}

func (x *Exec) convert(st *State, in *ssa.Convert) Val {
	from, to := in.X.Type(), in.Type()
	v := x.val(st, in.X)
	_, _, _, _, fi := intRange(from)
	_, _, _, _, ti := intRange(to)
	switch {
	case fi && ti:
		return x.arith(v.(*Term), to)
	case fi && isFloat(to):
		return app("i2f", sInt, nil, nil, v.(*Term))
	case isFloat(from) && ti:
		lo, hi, _, _, _ := intRange(to)
		return app("f2i_"+typeName(to), sInt, lo, hi, v.(*Term))
	case isFloat(from) && isFloat(to):
		return v
	case isString(from) && isString(to):
		return v
	}
	if sl, ok := under(from).(*types.Slice); ok && isString(to) {
		s := v.(SliceV)
		h := x.heapGet(st, hkey(sl.Elem(), ""), sInt)
		return bstr(sel(h, s.ref), s.off, s.ln)
	}
	if sl, ok := under(to).(*types.Slice); ok && isString(from) {
		return x.strBytes(st, v.(*Term), sl.Elem())
	}
	if fi && isString(to) {
		return app("runestr", sStr, nil, nil, v.(*Term))
	}
	panic(unsup("convert " + from.String() + " to " + to.String()))
}

// strBytes makes a fresh slice holding the bytes of a string.
func (x *Exec) strBytes(st *State, s *Term, elem types.Type) SliceV {
	ref := x.newRef(st)
	k := hkey(elem, "")
	h := x.heapGet(st, k, sInt)
	var arr, off *Term
	off = cInt(0)
	if s.op == oApp && s.name == "bstr" {
		arr, off = s.args[0], s.args[1]
	} else if s.op == oLit {
		arr = karr(sArr(sInt, sInt), cInt(0))
		for i := range []byte(s.name) {
			arr = sto(arr, cInt(int64(i)), cInt(int64(s.name[i])))
		}
	} else {
		arr = sbytes(s)
	}
	st.heap[k] = sto(h, ref, arr)
	n := slen(s)
	return SliceV{ref, off, n, n, elem}
}

func (x *Exec) slice(st *State, in *ssa.Slice) Val {
	v := x.val(st, in.X)
	get := func(e ssa.Value, d *Term) *Term {
		if e == nil {
			return d
		}
		return x.term(st, e)
	}
	switch v := v.(type) {
	case *Term: // string
		n := slen(v)
		lo := get(in.Low, cInt(0))
		hi := get(in.High, n)
		x.safety(st, "string slice bounds", in.Pos(), and(le(cInt(0), lo), le(lo, hi), le(hi, n)))
		return ssub(v, lo, hi)
	case SliceV:
		lo := get(in.Low, cInt(0))
		hi := get(in.High, v.ln)
		mx := get(in.Max, v.cp)
		g := and(le(cInt(0), lo), le(lo, hi))
		if in.High != nil {
			g = and(g, le(hi, v.ln))
		}
		if in.Max != nil {
			g = and(g, le(hi, mx), le(mx, v.cp))
		}
		x.safety(st, "slice bounds", in.Pos(), g)
		return SliceV{v.ref, add(v.off, lo), sub(hi, lo), sub(mx, lo), v.elem}
	case PtrV:
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		x.nonNil(st, v, in.Pos(), "array slice")
		ref, base := x.arrObj(st, v, at)
		n := cInt(at.Len())
		lo := get(in.Low, cInt(0))
		hi := get(in.High, n)
		mx := get(in.Max, n)
		x.safety(st, "slice bounds", in.Pos(), and(le(cInt(0), lo), le(lo, hi), le(hi, mx), le(mx, n)))
		return SliceV{ref, add(base, lo), sub(hi, lo), sub(mx, lo), at.Elem()}
	}
	panic(unsup("slice"))
}

// ---- calls

func (x *Exec) doCall(fr *frame, st *State, call *ssa.CallCommon, site ssa.Value, pos token.Pos) ([]Val, bool) {
	if call.IsInvoke() {
		return x.invoke(st, call, pos)
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		return x.builtin(st, b, call, pos), true
	}
	var args []Val
	for _, a := range call.Args {
		args = append(args, x.val(st, a))
	}
	fn := call.StaticCallee()
	if fn == nil {
		fv, ok := x.val(st, call.Value).(FuncV)
		if !ok {
			panic(unsup("call of " + call.Value.String()))
		}
		return x.callVal(fr, st, fv, args, call, pos)
	}
	if mc, ok := call.Value.(*ssa.MakeClosure); ok {
		args = append(args, x.val(st, mc).(FuncV).binds...)
	}
	return x.callFn(fr, st, fn, args, pos)
}

// callVal calls a function value: the closure it is known to be, case by case.
func (x *Exec) callVal(fr *frame, st *State, fv FuncV, args []Val, call *ssa.CallCommon, pos token.Pos) ([]Val, bool) {
	if fv.fn == nil {
		if k, ok := x.funcs[fv.id]; ok {
			fv = k
		}
	}
	if fv.fn != nil {
		return x.callFn(fr, st, fv.fn, append(args[:len(args):len(args)], fv.binds...), pos)
	}
	if fv.id.op != oIte {
		return x.dynCall(st, fv, args, call, pos), true
	}
	c := fv.id.args[0]
	t, f := st.clone(), st.clone()
	t.assume(c)
	f.assume(not(c))
	var rt, rf []Val
	var okT, okF bool
	if !t.dead() {
		rt, okT = x.callVal(fr, t, FuncV{id: fv.id.args[1], t: fv.t}, args, call, pos)
	}
	if !f.dead() {
		rf, okF = x.callVal(fr, f, FuncV{id: fv.id.args[2], t: fv.t}, args, call, pos)
	}
	okT, okF = okT && !t.dead(), okF && !f.dead()
	switch {
	case okT && okF:
		*st = *x.mergeStates([]*State{t, f})
		out := make([]Val, len(rt))
		for i := range rt {
			out[i] = x.mergeVal(c, rt[i], rf[i])
		}
		return out, true
	case okT:
		*st = *t
		return rt, true
	case okF:
		*st = *f
		return rf, true
	}
	st.assume(tFalse)
	return nil, false
}

func (x *Exec) callFn(fr *frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Val, bool) {
	if res, ok, handled := x.intrinsic(fr, st, fn, args, pos); handled {
		return res, ok
	}
	if !x.prog.ours(fn) {
		panic(unsup("call of unmodelled function " + fn.String()))
	}
	if x.prog.isSpec(fn) {
		if x.spec == 0 {
			panic(unsup("specification function called from code: " + fn.Name()))
		}
		if strings.HasPrefix(fn.Name(), "Lemma") {
			x.lemmaCall(st, fn, args, pos)
			return nil, true
		}
		if r := x.prog.recFor(fn); r != nil && (x.inRec != nil || !r.folded || x.c.opaque[fn.Name()]) {
			return x.recCall(st, r, args), true
		}
		if c := x.prog.contracts[fn]; c != nil && c.post != nil {
			return x.callContract(st, c, args, pos), true // ghost code
		}
		return x.inline(fr, st, fn, args, nil)
	}
	if c := x.prog.contracts[fn]; c != nil && c.post != nil && (x.spec == 0 || c.trusted) {
		if a := x.c.before[fn]; a != nil && x.spec == 0 {
			as := args
			if len(a.Params) > 0 && a.Params[0].Name() == "old" {
				as = append([]Val{x.topOld}, as...)
			}
			x.evalSpec(st, a, as, emCheck, "before "+fn.Name()+":")
		}
		var cold Val
		res := x.callContractOld(st, c, args, pos, &cold)
		if a := x.c.after[fn]; a != nil && x.spec == 0 {
			var as []Val
			n := 0
			if len(a.Params) > n && a.Params[n].Name() == "old" {
				as, n = append(as, x.topOld), n+1
			}
			if len(a.Params) > n && a.Params[n].Name() == "cold" {
				as = append(as, cold)
			}
			as = append(append(as, args...), res...)
			x.hints = nil
			x.evalSpec(st, a, as, emCheck, "after "+fn.Name()+":")
			x.tryHints(st, fn.Name(), pos)
		}
		return res, true
	}
	x.inlined[fn.String()] = true
	return x.inline(fr, st, fn, args, x.prog.contracts[fn])
}

func (x *Exec) inline(fr *frame, st *State, fn *ssa.Function, args []Val, c *Contract) ([]Val, bool) {
	x.depth++
	defer func() { x.depth-- }()
	if x.depth > 40 {
		panic(unsup("inlining too deep at " + fn.String()))
	}
	var old Val
	if c != nil && c.old != nil && len(c.inv) > 0 {
		old = x.evalOld(st, c, args)
	}
	ns, res, _ := x.runBody(fn, args, st, c, old)
	if ns == nil {
		st.assume(tFalse)
		return nil, false
	}
	*st = *ns
	return res, true
}

func (x *Exec) evalOld(st *State, c *Contract, args []Val) Val {
	x.spec++
	defer func() { x.spec-- }()
	s := st.clone()
	ns, res, _ := x.runBody(c.old, args, s, nil, nil)
	// snapshots may allocate (copies): keep heap and allocation counter
	st.heap, st.alloc = ns.heap, ns.alloc
	return res[0]
}

func (x *Exec) evalPred(st *State, fn *ssa.Function, args []Val) *Term {
	x.spec++
	defer func() { x.spec-- }()
	s := st.clone()
	_, res, _ := x.runBody(fn, args, s, nil, nil)
	return res[0].(*Term)
}

// evalSpec runs a specification procedure (Post, Inv, Hint) in a given mode.
func (x *Exec) evalSpec(st *State, fn *ssa.Function, args []Val, mode int, label string) {
	x.spec++
	om, ol := x.emode, x.label
	x.emode, x.label = mode, label
	ob := x.specBase
	if x.spec == 1 {
		x.specBase = st.alloc
	}
	defer func() { x.spec--; x.emode, x.label, x.specBase = om, ol, ob }()
	x.runBody(fn, args, st.clone(), nil, nil)
}

func (x *Exec) postArgs(c *Contract, args []Val, old Val, res []Val) []Val {
	out := append([]Val{}, args...)
	if c.old != nil {
		out = append(out, old)
	}
	return append(out, res...)
}

func (x *Exec) callContract(st *State, c *Contract, args []Val, pos token.Pos) []Val {
	return x.callContractOld(st, c, args, pos, nil)
}

func (x *Exec) callContractOld(st *State, c *Contract, args []Val, pos token.Pos, cold *Val) []Val {
	x.used[fullName(c.fn)] = true
	if c.pre != nil {
		x.evalPre(st, c, args, pos)
	}
	// nil pointer receivers and parameters
	for i, p := range c.fn.Params {
		if pv, ok := args[i].(PtrV); ok && !c.nilable[p.Name()] {
			x.safety(st, "nil argument "+p.Name()+" of "+c.name, pos, not(eq(pv.ref, cInt(0))))
		}
	}
	var old Val
	if c.old != nil {
		old = x.evalOld(st, c, args)
	}
	if cold != nil {
		*cold = old
	}
	locs := x.evalMods(st, c, args)
	oldAlloc := st.alloc
	st.alloc = fresh("alloc", sInt, bAlloc0, nil)
	x.factRaw(le(oldAlloc, st.alloc))
	x.havocLocs(st, locs)
	var res []Val
	sig := c.fn.Signature.Results()
	for i := 0; i < sig.Len(); i++ {
		res = append(res, x.havocVal(st, c.name+"_"+sig.At(i).Name(), sig.At(i).Type()))
	}
	op := x.preAlloc
	x.preAlloc = oldAlloc
	sp := st
	if x.spec > 0 && c.pre != nil {
		// ghost code: nothing is known about the result unless the precondition holds
		sp = st.clone()
		sp.assume(x.evalPred(st, c.pre, args))
	}
	x.evalSpec(sp, c.post, x.postArgs(c, args, old, res), emAssume, "")
	x.preAlloc = op
	return res
}

func (x *Exec) evalPre(st *State, c *Contract, args []Val, pos token.Pos) {
	g := x.evalPred(st, c.pre, args)
	if x.spec > 0 {
		return
	}
	x.oblig(st, "precondition of "+c.name, pos, g)
	x.fact(st, g)
}

func (x *Exec) evalMods(st *State, c *Contract, args []Val) []modLoc {
	var locs []modLoc
	if c.mod == nil {
		return nil
	}
	om := x.modLocs
	x.modLocs = &locs
	x.spec++
	x.runBody(c.mod, args, st.clone(), nil, nil)
	x.spec--
	x.modLocs = om
	return locs
}

func (x *Exec) havocLocs(st *State, locs []modLoc) {
	for _, m := range locs {
		h, ok := st.heap[m.key]
		if !ok {
			h = mkVar("H0_"+sanitize(m.key), m.sort, nil, nil)
		}
		if m.idx == nil {
			fa := fresh("hv_"+m.key, m.sort.v, nil, nil)
			x.refArr(st, m.key, fa)
			st.heap[m.key] = sto(h, m.ref, fa)
			if m.lo != nil {
				bv := mkBVar("i")
				x.fact(st, forall([]*Term{bv}, or(and(le(m.lo, bv), lt(bv, m.hi)), eq(sel(fa, bv), sel(sel(h, m.ref), bv)))))
			}
			continue
		}
		v := fresh("hv_"+m.key, m.lf.sort, m.lf.lo, m.lf.hi)
		if m.lf.kind == 'r' {
			x.fact(st, lt(v, st.alloc))
		}
		st.heap[m.key] = sto(h, m.ref, sto(sel(h, m.ref), m.idx, v))
	}
}

// refArr: references in an unknown part of the heap are to allocated objects.
func (x *Exec) refArr(st *State, key string, fa *Term) {
	if !strings.HasSuffix(key, ".ref") || fa.sort.k != sInt || fa.sort.v != sInt {
		return
	}
	bv := mkBVar("i")
	e := sel(fa, bv)
	x.wfFacts = append(x.wfFacts, forall([]*Term{bv}, and(le(cInt(0), e), lt(e, st.alloc))))
}

// specCell: variables of specifications live apart from the memory of the program.
func (p *Prog) specCell(t types.Type) types.Type {
	if p.cells == nil {
		p.cells = map[string]types.Type{}
	}
	k := typeName(t)
	c := p.cells[k]
	if c == nil {
		c = types.NewNamed(types.NewTypeName(token.NoPos, nil, "spec$"+k, nil), t.Underlying(), nil)
		p.cells[k] = c
	}
	return c
}

// known: whether c or its negation is literally among the facts.
func (x *Exec) known(st *State, c *Term) (yes, no bool) {
	nc := not(c)
	for _, hs := range [][]*Term{x.facts, conj(st.pcT())} {
		for _, h := range hs {
			if h == c {
				return true, false
			}
			if h == nc {
				return false, true
			}
		}
	}
	return
}

var tHint, tPrune, tPruneQ time.Duration // where generation time goes

type hintT struct {
	lab string
	c   *Term
}

// tryHints looks for the first few of the offered facts that hold here. Hints are
// offered in the order in which they are expected to become true; one that was
// used is not tried again.
func (x *Exec) tryHints(st *State, where string, pos token.Pos) {
	hs := x.hints
	x.hints = nil
	t0 := time.Now()
	defer func() { tHint += time.Since(t0) }()
	if len(hs) == 0 || st.dead() || x.mute > 0 {
		return
	}
	if x.usedHint == nil {
		x.usedHint = map[string]bool{}
	}
	var todo []hintT
	for _, h := range hs {
		if !x.usedHint[h.lab] {
			todo = append(todo, h)
		}
	}
	if len(todo) > 8 {
		todo = todo[:8]
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	found := make(chan int, len(todo))
	for i, h := range todo {
		hy := append(x.facts[:len(x.facts):len(x.facts)], x.wfFacts...)
		hy = append(hy, conj(st.pcT())...)
		hy = relevant(hy, h.c)
		hy = append(hy[:len(hy):len(hy)], x.prog.unfoldX(append(hy[:len(hy):len(hy)], h.c), 1, x.c.opaque)...)
		q := render(x.prog, hy, h.c)
		go func(i int) {
			r, _ := askCtx(ctx, solvers[0], q, 2*time.Second)
			if r != "unsat" {
				i = -1
			}
			found <- i
		}(i)
	}
	for range todo {
		if i := <-found; i >= 0 {
			x.usedHint[todo[i].lab] = true
			x.fact(st, todo[i].c)
			if os.Getenv("GOVER_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "hint", x.prog.pos(pos), where, todo[i].lab)
			}
			break
		}
	}
}

// impliedQ: whether c follows from the facts without quantifiers at once. The
// query is put together now and answered by the function returned.
func (x *Exec) impliedQ(st *State, c *Term) func() bool {
	is := func(b bool) func() bool { return func() bool { return b } }
	t0 := time.Now()
	defer func() { tPrune += time.Since(t0) }()
	if c == tTrue || c == tFalse {
		return is(c == tTrue)
	}
	var hy []*Term
	for _, h := range append(x.facts[:len(x.facts):len(x.facts)], conj(st.pcT())...) {
		if h == c {
			return is(true)
		}
		if h == not(c) {
			return is(false)
		}
		if !hasQuant(h) {
			hy = append(hy, h)
		}
	}
	if hasQuant(c) {
		return is(false)
	}
	q := render(x.prog, relevant(hy, c), c)
	return func() bool {
		t0 := time.Now()
		r, _ := ask(solvers[0], q, 300*time.Millisecond)
		tPruneQ += time.Since(t0)
		return r == "unsat"
	}
}

var quantMemo = map[*Term]bool{}

func hasQuant(t *Term) bool {
	if t.op == oForall || t.hasB {
		return true
	}
	if len(t.args) == 0 {
		return false
	}
	r, ok := quantMemo[t]
	if !ok {
		for _, a := range t.args {
			if hasQuant(a) {
				r = true
				break
			}
		}
		quantMemo[t] = r
	}
	return r
}
