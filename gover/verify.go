package main

// Verification of one function against its contract, and discharge.

import (
	"context"
	"fmt"
	"go/types"
	"math/big"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FnResult struct {
	name     string
	obls     []*Obl
	err      string
	used     map[string]bool
	inlined  map[string]bool
	trusted  map[string]bool
	unterm   map[string]bool
	covers   int
	seconds  float64
	splits   int
	contract *Contract
}

var refBound = new(big.Int).Sub(bAlloc0, bi1)

// param makes an arbitrary entry value whose references are allocated before entry.
func (x *Exec) param(st *State, name string, t types.Type, normed map[string]bool) Val {
	switch u := shape(t).(type) {
	case *types.Struct:
		sv := StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.f = append(sv.f, x.param(st, name+"."+u.Field(i).Name(), u.Field(i).Type(), nil))
		}
		return sv
	case *types.Array:
		av := ArrV{t: u}
		for _, l := range leaves(u.Elem()) {
			av.leaves = append(av.leaves, fresh(name+l.name, sArr(sInt, l.sort), nil, nil))
		}
		return av
	}
	var ts []*Term
	for _, l := range leaves(t) {
		if l.kind == 'r' {
			l.hi = refBound
		}
		ts = append(ts, leafVar(name, l))
	}
	v := x.fromLeaves(t, ts)
	switch s := v.(type) {
	case SliceV:
		x.sliceFacts(st, s)
		k := typeName(s.elem)
		if normed != nil && !normed[k] {
			normed[k] = true
			s.off = cInt(0)
			v = s
		}
	case PtrV:
		k := typeName(s.root)
		if normed != nil && !normed[k] {
			normed[k] = true
			s.idx = cInt(0)
			v = s
		}
	}
	return v
}

type splitCase struct {
	desc string
	vals []*int64 // nil: outside the range
}

func (c *Contract) cases() [][]splitVal {
	out := [][]splitVal{nil}
	for _, ss := range c.splits {
		for _, s := range ss {
			var next [][]splitVal
			for _, pre := range out {
				for v := s.lo; v <= s.hi; v++ {
					v := v
					next = append(next, append(pre[:len(pre):len(pre)], splitVal{s, &v}))
				}
			}
			// one case for everything outside this range, not split further
			if len(out) > 0 {
				for _, pre := range out {
					next = append(next, append(pre[:len(pre):len(pre)], splitVal{s, nil}))
				}
			}
			out = next
		}
	}
	// drop cases in which an earlier component is "outside" but later ones vary
	var res [][]splitVal
	seen := map[string]bool{}
	for _, cs := range out {
		for i, v := range cs {
			if v.v == nil {
				cs = cs[:i+1]
				break
			}
		}
		k := ""
		for _, v := range cs {
			k += v.String() + " "
		}
		if !seen[k] {
			seen[k] = true
			res = append(res, cs)
		}
	}
	return res
}

type splitVal struct {
	s *ssaSplit
	v *int64
}

func (v splitVal) String() string {
	if v.v == nil {
		return fmt.Sprintf("%s not in %d..%d", v.s.expr, v.s.lo, v.s.hi)
	}
	return fmt.Sprintf("%s=%d", v.s.expr, *v.v)
}

// lhs finds the current term of a split expression and a setter.
func (x *Exec) applySplit(st *State, fn *ssa.Function, args []Val, v splitVal) {
	if v.s.expr == "case" {
		for i, p := range fn.Params {
			st.env[p] = args[i]
		}
		x.spec++
		_, _, fr := x.runBody(x.c.caseOf, args, st.clone(), nil, nil)
		x.spec--
		var pcs []*Term
		for _, r := range fr.rets {
			e := r.res[0].(*Term)
			if !isC(e) {
				panic(unsup("case number is not constant"))
			}
			k := e.k.Int64()
			if v.v != nil && k == *v.v || v.v == nil && (k < v.s.lo || v.s.hi < k) {
				pcs = append(pcs, r.st.pcT())
			}
		}
		for _, c := range conj(or(pcs...)) {
			x.factRaw(c)
		}
		x.prune = true
		return
	}
	name, field := v.s.expr, ""
	isLen := false
	if strings.HasPrefix(name, "len(") {
		isLen = true
		name = strings.TrimSuffix(strings.TrimPrefix(name, "len("), ")")
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		name, field = name[:i], name[i+1:]
	}
	for i, p := range fn.Params {
		if p.Name() != name {
			continue
		}
		if field != "" {
			pv := args[i].(PtrV)
			t := under(pv.root).(*types.Struct)
			for k := 0; k < t.NumFields(); k++ {
				if t.Field(k).Name() != field {
					continue
				}
				fp := pv
				fp.path = []int{k}
				cur := x.load(st, fp)
				if isLen {
					s := cur.(SliceV)
					if v.v != nil {
						x.factRaw(eq(s.ln, cInt(*v.v)))
						s.ln = cInt(*v.v)
						x.store(st, fp, s)
					} else {
						x.factRaw(or(lt(s.ln, cInt(v.s.lo)), lt(cInt(v.s.hi), s.ln)))
					}
					return
				}
				if v.v != nil {
					x.store(st, fp, cInt(*v.v))
				} else {
					c := cur.(*Term)
					x.factRaw(or(lt(c, cInt(v.s.lo)), lt(cInt(v.s.hi), c)))
				}
				return
			}
			panic(unsup("split: no field " + field))
		}
		if isLen {
			s := args[i].(SliceV)
			if v.v != nil {
				s.ln = cInt(*v.v)
				x.factRaw(le(s.ln, s.cp))
				args[i] = s
			} else {
				x.factRaw(or(lt(s.ln, cInt(v.s.lo)), lt(cInt(v.s.hi), s.ln)))
			}
			return
		}
		if v.v != nil {
			args[i] = cInt(*v.v)
		} else {
			c := args[i].(*Term)
			x.factRaw(or(lt(c, cInt(v.s.lo)), lt(cInt(v.s.hi), c)))
		}
		return
	}
	panic(unsup("split: no parameter " + name))
}

func (p *Prog) verifyFn(c *Contract, prop string, pool *pool) (res *FnResult) {
	t0 := time.Now()
	res = &FnResult{name: fullName(c.fn), used: map[string]bool{}, inlined: map[string]bool{}, trusted: map[string]bool{}, unterm: map[string]bool{}, contract: c}
	defer func() { res.seconds = time.Since(t0).Seconds() }()
	cs := c.cases()
	res.splits = len(cs)
	for i, sc := range cs {
		x := newExec(p, c)
		x.fname = res.name
		x.splitNo = i
		x.prop = prop
		x.deadline = pool.deadline
		err := x.runCase(c, sc, pool)
		for _, m := range []struct{ a, b map[string]bool }{{res.used, x.used}, {res.inlined, x.inlined}, {res.trusted, x.trusted}, {res.unterm, x.unterm}} {
			for k := range m.b {
				m.a[k] = true
			}
		}
		desc := ""
		for _, v := range sc {
			desc += v.String() + " "
		}
		for _, o := range x.obls {
			o.detail = strings.TrimSpace(desc)
			res.obls = append(res.obls, o)
			pool.submit(p, x, o)
		}
		if err != "" {
			res.err = err
			res.obls = append(res.obls, &Obl{fn: res.name, label: "the function is within the verifier's reach: " + err, pos: p.pos(c.fn.Pos()), goal: tFalse, res: "unsupported", detail: desc})
			break
		}
	}
	return res
}

func fullName(fn *ssa.Function) string {
	if fn.Pkg == nil {
		return fn.String()
	}
	return fn.Pkg.Pkg.Name() + "." + fnKey(fn)
}

func (x *Exec) runCase(c *Contract, sc []splitVal, pool *pool) (errs string) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				errs = u.msg
				return
			}
			if os.Getenv("GOVER_PANIC") != "" {
				panic(r)
			}
			buf := make([]byte, 4096)
			n := runtime.Stack(buf, false)
			errs = fmt.Sprintf("internal error: %v\n%s", r, buf[:n])
		}
	}()
	fn := c.fn
	st := &State{env: map[ssa.Value]Val{}, heap: map[string]*Term{}, alloc: cInt(refAlloc0)}
	normed := map[string]bool{}
	var args []Val
	for _, p := range fn.Params {
		v := x.param(st, p.Name(), p.Type(), normed)
		if pv, ok := v.(PtrV); ok && !c.nilable[p.Name()] {
			x.fact(st, not(eq(pv.ref, cInt(0))))
		}
		args = append(args, v)
	}
	for _, v := range sc {
		x.applySplit(st, fn, args, v)
	}
	for i, p := range fn.Params {
		st.env[p] = args[i]
	}
	x.entry = st.clone()
	if c.pre != nil {
		g := x.evalPred(st, c.pre, args)
		x.fact(st, g)
		if g == tFalse {
			return ""
		}
	}
	rest := len(sc) > 0 && sc[len(sc)-1].v == nil
	if len(sc) > 0 && rest && x.prove(st, tFalse, 2*time.Second) {
		return "" // excluded by the precondition
	}
	if len(sc) > 0 && !rest && c.pre != nil && x.prove(st, tFalse, time.Second) {
		return ""
	}
	if c.pre != nil {
		x.cover(st, "precondition satisfiable", c.pre)
	}
	var old Val
	if c.old != nil {
		old = x.evalOld(st, c, args)
		x.topOld = old
	}
	entry := st.clone()
	x.topMods, x.records = nil, nil
	if c.mod != nil && !c.lemma {
		x.topMods = x.evalMods(entry, c, args)
	}
	if c.lemma {
		x.spec++
		x.emode = emCheck
	}
	ns, _, fr := x.runBody(fn, args, st, c, old)
	if c.lemma {
		x.spec--
		x.emode = emNone
	}
	_ = ns
	for _, r := range fr.rets {
		rs := r.st.clone()
		if c.hint != nil {
			x.evalSpec(rs, c.hint, x.postArgs(c, args, old, r.res), emCheck, "")
		}
		if c.post != nil {
			x.evalSpec(rs, c.post, x.postArgs(c, args, old, r.res), emCheck, "")
		}
		if !c.lemma {
			x.frameCheck(rs, entry, c, args, r)
		}
	}
	if len(fr.rets) > 0 && !c.lemma {
		var pcs []*Term
		for _, r := range fr.rets {
			pcs = append(pcs, r.st.pcT())
		}
		s := entry.clone()
		s.pc = []*Term{or(pcs...)}
		x.cover(s, "some return is reachable", fn)
	}
	return ""
}

func (x *Exec) cover(st *State, label string, fn *ssa.Function) {
	o := &Obl{fn: x.fname, label: "cover: " + label, pos: x.prog.pos(fn.Pos()), hyps: x.facts[:len(x.facts):len(x.facts)], pc: st.pcT(), goal: tFalse, cover: true, split: x.splitNo}
	x.obls = append(x.obls, o)
}

func (x *Exec) frameCheck(st, entry *State, c *Contract, args []Val, r retState) {
	var locs []modLoc
	if c.mod != nil {
		locs = x.evalMods(entry, c, args)
	}
	var keys []string
	for k := range st.heap {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if k == "$iter" {
			continue
		}
		h := st.heap[k]
		h0, ok := entry.heap[k]
		if !ok {
			h0 = mkVar("H0_"+sanitize(k), h.sort, nil, nil)
		}
		if h == h0 {
			continue
		}
		for _, ref := range storeRefs(h, h0) {
			for _, rf := range iteLeaves(ref) {
				if rf.lo != nil && rf.lo.Cmp(bAlloc0) >= 0 {
					continue
				}
				i := fresh("fi", h.sort.v.k, nil, nil)
				if rf == cInt(0) {
					continue // no memory there
				}
				g := or(le(cBig(bAlloc0), rf), eq(rf, cInt(0)))
				for _, m := range locs {
					if m.key != k {
						continue
					}
					cov := eq(rf, m.ref)
					if m.idx != nil {
						cov = and(cov, eq(i, m.idx))
					}
					if m.lo != nil {
						cov = and(cov, le(m.lo, i), lt(i, m.hi))
					}
					g = or(g, cov)
				}
				g = or(g, eq(sel(sel(h, rf), i), sel(sel(h0, rf), i)))
				x.oblig(st, "frame: only declared locations change ("+k+")", r.pos, g)
			}
		}
	}
}

// ---- discharge

type pool struct {
	sem     chan struct{}
	wg      sync.WaitGroup
	timeout time.Duration
	batch   []job
	bytes   int
	// give up on further hard obligations after these
	deadline time.Time
	failed   int32
	mu       sync.Mutex
	again    []job // worth another try when the machine is less busy
}

const failLimit = 10

// spent: enough obligations have failed, or the time budget is used up.
func (pl *pool) spent() bool {
	return atomic.LoadInt32(&pl.failed) >= failLimit || !pl.deadline.IsZero() && time.Now().After(pl.deadline)
}

type job struct {
	o  *Obl
	q  string
	q2 string // the same with more instances of the hypotheses
}

func newPool(n int, timeout time.Duration) *pool {
	return &pool{sem: make(chan struct{}, n), timeout: timeout}
}

// submit renders the query now (term tables are not shared between goroutines)
// and solves it in the background, together with its neighbours.
func (pl *pool) submit(p *Prog, x *Exec, o *Obl) {
	if o.trivial {
		return
	}
	hy := append(o.hyps[:len(o.hyps):len(o.hyps)], conj(o.pc)...)
	if !o.cover {
		o.goal = extStr(o.goal)
	}
	if !o.cover && o.goal != tFalse {
		hy = relevant(hy, o.goal)
	}
	hy = instances(hy, o.goal)
	q2 := ""
	if m := matched(hy, o.goal); len(m) > len(hy) && !o.cover {
		m = append(m[:len(m):len(m)], p.unfoldX(append(m[:len(m):len(m)], o.goal), x.c.unfoldDepth(), x.c.opaque)...)
		q2 = render(p, m, o.goal)
	}
	hy = append(hy[:len(hy):len(hy)], p.unfoldX(append(hy[:len(hy):len(hy)], o.goal), x.c.unfoldDepth(), x.c.opaque)...)
	q := render(p, hy, o.goal) + "; " + o.label + "\n"
	o.hyps = nil
	pl.batch = append(pl.batch, job{o, q, q2})
	pl.bytes += len(q)
	if len(pl.batch) >= 24 || pl.bytes > 400000 {
		pl.flush()
	}
}

func (pl *pool) flush() {
	b := pl.batch
	pl.batch, pl.bytes = nil, 0
	if len(b) == 0 {
		return
	}
	pl.sem <- struct{}{}
	pl.wg.Add(1)
	go func() {
		defer func() { <-pl.sem; pl.wg.Done() }()
		var qs []string
		for _, j := range b {
			qs = append(qs, j.q)
		}
		t0 := time.Now()
		each0 := 2 * time.Second
		if pl.spent() {
			each0 = 300 * time.Millisecond
		}
		rs := askBatch(solvers[0], qs, each0)
		if os.Getenv("GOVER_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "batch", len(qs), time.Since(t0).Milliseconds(), rs)
		}
		each := time.Since(t0).Milliseconds() / int64(len(b))
		for i, j := range b {
			j.o.solver, j.o.ms = solvers[0].name, each
			if j.o.cover {
				// an inconsistent set of assumptions would make everything provable
				if rs[i] == "unsat" {
					j.o.res = "vacuous"
				} else {
					j.o.res = "unsat"
				}
				continue
			}
			if rs[i] == "unsat" {
				j.o.res = "unsat"
				continue
			}
			pl.hard(j)
		}
	}()
}

// hard tries the whole portfolio on one obligation.
func (pl *pool) hard(j job) {
	o := j.o
	t0 := time.Now()
	defer func() {
		o.ms = time.Since(t0).Milliseconds()
		if o.res != "unsat" {
			atomic.AddInt32(&pl.failed, 1)
			if o.res != "sat" {
				pl.mu.Lock()
				pl.again = append(pl.again, j)
				pl.mu.Unlock()
			}
		}
	}()
	if pl.spent() {
		o.res = "undecided within the budget"
		return
	}
	// all strategies at once; the first decisive answer ends the others
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type ans struct {
		r, out, by string
	}
	ch := make(chan ans, len(solvers)+1)
	runs := len(solvers)
	if j.q2 != "" {
		runs++
		go func() {
			r, out := askCtx(ctx, solvers[0], j.q2, pl.timeout)
			ch <- ans{r, out, solvers[0].name + "+instances"}
		}()
	}
	for _, sv := range solvers {
		sv := sv
		go func() {
			r, out := askCtx(ctx, sv, j.q, pl.timeout)
			ch <- ans{r, out, sv.name}
		}()
	}
	quant := strings.Contains(j.q, "forall")
	o.res = "timeout"
	for i := 0; i < runs; i++ {
		a := <-ch
		if a.r == "error" {
			o.detail += " solver error: " + firstLine(a.out)
		}
		if a.r == "unsat" || a.r == "sat" && !quant {
			o.res, o.solver = a.r, a.by
			return
		}
		if a.r == "sat" || a.r == "unknown" && o.res == "timeout" {
			o.res = a.r
		}
	}
	if quant && pl.dropOne(j) {
		o.res, o.solver = "unsat", solvers[0].name+"-1"
	}
}

// retry gives the few obligations left undecided a second chance, one after
// the other and with more time.
func (pl *pool) retry(limit time.Duration) {
	js := pl.again
	pl.again = nil
	if len(js) == 0 || len(js) > 6 || int(pl.failed) != len(js) {
		return
	}
	end := time.Now().Add(limit)
	pl.failed, pl.deadline, pl.timeout = 0, end, pl.timeout*3
	for _, j := range js {
		if time.Now().After(end) {
			return
		}
		pl.hard(j)
		if j.o.res != "unsat" {
			return
		}
	}
}

// dropOne leaves out one quantified hypothesis after the other: what follows
// from fewer hypotheses follows from all, and is often found faster.
func (pl *pool) dropOne(j job) bool {
	ctx, cancel := context.WithTimeout(context.Background(), pl.timeout)
	defer cancel()
	sem := make(chan struct{}, 4)
	found := make(chan bool, 200)
	n := 0
	for _, q := range []string{j.q, j.q2} {
		if q == "" {
			continue
		}
		lines := strings.Split(q, "\n")
		last := 0
		for i, l := range lines {
			if strings.HasPrefix(l, "(assert") {
				last = i
			}
		}
		for i, l := range lines {
			if !strings.HasPrefix(l, "(assert") || !strings.Contains(l, "forall") || i == last || n >= 100 {
				continue
			}
			n++
			s := strings.Join(append(append([]string{}, lines[:i]...), lines[i+1:]...), "\n")
			go func() {
				sem <- struct{}{}
				defer func() { <-sem }()
				if ctx.Err() != nil {
					found <- false
					return
				}
				r, _ := askCtx(ctx, solvers[0], s, 3*time.Second)
				found <- r == "unsat"
			}()
		}
	}
	for ; n > 0; n-- {
		if <-found {
			return true
		}
	}
	return false
}

func (c *Contract) unfoldDepth() int {
	if c.depth > 0 {
		return c.depth
	}
	return unfoldDepth
}

var unfoldDepth = 3

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (pl *pool) wait() { pl.flush(); pl.wg.Wait() }

// instances adds to the hypotheses what they say about the elements the goal
// speaks of.
func instances(hy []*Term, goal *Term) []*Term {
	var sks []*Term
	for _, v := range symsOf(goal) {
		if strings.HasPrefix(v.name, "sk!") {
			sks = append(sks, v)
		}
	}
	if len(sks) == 0 || len(sks) > 3 {
		return hy
	}
	out := hy[:len(hy):len(hy)]
	for _, h := range hy {
		if !hasQuant(h) {
			continue
		}
		for _, sk := range sks {
			if t := instAt(h, sk, sks); t != h && t != tTrue {
				out = append(out, t)
			}
		}
	}
	return out
}

func instAt(h, sk *Term, sks []*Term) *Term {
	switch h.op {
	case oForall:
		if len(h.bvs) != 1 || h.bvs[0].sort != sk.sort {
			return h
		}
		t := subst(h.args[0], map[*Term]*Term{h.bvs[0]: sk})
		if len(sks) > 1 && hasQuant(t) {
			for _, s := range sks {
				if s != sk {
					if u := instAt(t, s, nil); u != t {
						t = and(t, u)
					}
				}
			}
		}
		return t
	case oOr, oAnd:
		var as []*Term
		ch := false
		for _, a := range h.args {
			b := a
			if hasQuant(a) {
				b = instAt(a, sk, sks)
			}
			ch = ch || a != b
			as = append(as, b)
		}
		if !ch {
			return h
		}
		if h.op == oOr {
			return or(as...)
		}
		return and(as...)
	}
	return h
}

// matched adds what the hypotheses say about the array elements the goal reads,
// which takes solving for the index.
func matched(hy []*Term, goal *Term) []*Term {
	have := map[*Term]bool{}
	for _, h := range hy {
		have[h] = true
	}
	seen := map[*Term]bool{}
	reads := map[*Term][]*Term{} // array -> indices
	var collect func(t *Term)
	collect = func(t *Term) {
		if seen[t] || t.op == oForall {
			return
		}
		seen[t] = true
		if t.op == oSel && !t.hasB && t.args[1].sort == sInt && hasSkolem(t.args[1]) {
			reads[t.args[0]] = append(reads[t.args[0]], t.args[1])
		}
		for _, a := range t.args {
			collect(a)
		}
	}
	collect(goal)
	if len(reads) == 0 {
		return hy
	}
	out := hy[:len(hy):len(hy)]
	base := hy
	n := 0
	for round := 0; round < 2 && n < 60; round++ {
		var add []*Term
		for _, h := range base {
			if !hasQuant(h) {
				continue
			}
			for _, t := range matchIn(h, reads) {
				if !have[t] && t != tTrue && n < 60 {
					have[t] = true
					add = append(add, t)
					n++
				}
			}
		}
		if len(add) == 0 {
			break
		}
		out = append(out, add...)
		for _, t := range add {
			collect(t)
		}
	}
	return out
}

func hasSkolem(t *Term) bool {
	for _, v := range symsOf(t) {
		if strings.HasPrefix(v.name, "sk!") {
			return true
		}
	}
	return false
}

// matchIn: instances of the quantifiers at the surface of h.
func matchIn(h *Term, reads map[*Term][]*Term) []*Term {
	switch h.op {
	case oForall:
		if len(h.bvs) != 1 {
			return nil
		}
		bv := h.bvs[0]
		at := map[*Term]bool{}
		var vals []*Term
		seen := map[*Term]bool{}
		var f func(t *Term)
		f = func(t *Term) {
			if seen[t] || !t.hasB {
				return
			}
			seen[t] = true
			if t.op == oSel && !t.args[0].hasB && t.args[1].sort == sInt {
				if ix := reads[t.args[0]]; len(ix) > 0 {
					e0 := subst(t.args[1], map[*Term]*Term{bv: cInt(0)})
					if !e0.hasB && sub(t.args[1], e0) == bv {
						for _, i := range ix {
							v := sub(i, e0)
							if !at[v] && len(vals) < 6 {
								at[v] = true
								vals = append(vals, v)
							}
						}
					}
				}
			}
			for _, a := range t.args {
				f(a)
			}
		}
		f(h.args[0])
		var out []*Term
		for _, v := range vals {
			out = append(out, subst(h.args[0], map[*Term]*Term{bv: v}))
		}
		return out
	case oOr:
		// one quantifier among the alternatives
		for i, a := range h.args {
			if a.op != oForall && a.op != oAnd || !hasQuant(a) {
				continue
			}
			var out []*Term
			for _, t := range matchIn(a, reads) {
				as := append([]*Term{}, h.args...)
				as[i] = t
				out = append(out, or(as...))
			}
			if len(out) > 0 {
				return out
			}
		}
	case oAnd:
		var out []*Term
		for _, a := range h.args {
			if hasQuant(a) {
				out = append(out, matchIn(a, reads)...)
			}
		}
		return out
	}
	return nil
}
