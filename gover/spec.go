package main

// Specification constructs: quantifiers, recursive specification functions,
// lemmas, snapshots; and Go built-ins, maps and channels.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- recursive specification functions

type RecFn struct {
	name   string
	fn     *ssa.Function
	params []*Term // flattened formal parameters
	sorts  []*Sort
	res    []leaf
	body   []*Term
	ready  bool
	folded bool // not recursive: a name only where contracts list it as opaque
}

func (p *Prog) recFor(fn *ssa.Function) *RecFn {
	if r, ok := p.recByFn[fn]; ok {
		return r
	}
	p.recByFn[fn] = nil
	if !p.isRecursive(fn) && !strings.HasPrefix(fn.Name(), "opaque") && !isFolded(fn) {
		return nil
	}
	r := &RecFn{name: fn.Pkg.Pkg.Name() + "." + fn.Name(), fn: fn, folded: isFolded(fn)}
	sig := fn.Signature
	for i := 0; i < sig.Results().Len(); i++ {
		for _, l := range leaves(sig.Results().At(i).Type()) {
			if b, ok := under(sig.Results().At(i).Type()).(*types.Basic); ok && b.Kind() == types.Int {
				l.lo, l.hi = nil, nil
			}
			r.res = append(r.res, l)
		}
	}
	p.recByFn[fn] = r
	for k := range r.res {
		p.recs[r.appName(k)] = r
	}
	return r
}

// isFolded: the function is marked to be kept as a name, defined by an equation.
func isFolded(fn *ssa.Function) bool {
	if fd, ok := fn.Syntax().(*ast.FuncDecl); ok && fd.Doc != nil {
		for _, cm := range fd.Doc.List {
			if strings.TrimSpace(cm.Text) == "//vf:folded" {
				return true
			}
		}
	}
	return false
}

func (r *RecFn) appName(k int) string {
	if len(r.res) == 1 {
		return r.name
	}
	return fmt.Sprintf("%s$%d", r.name, k)
}

func (p *Prog) isRecursive(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var f func(g *ssa.Function) bool
	f = func(g *ssa.Function) bool {
		for _, h := range callees(g) {
			if h == fn {
				return true
			}
			if !seen[h] && p.ours(h) && p.isSpec(h) {
				seen[h] = true
				if f(h) {
					return true
				}
			}
		}
		return false
	}
	return f(fn)
}

func callees(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil {
					out = append(out, g)
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				out = append(out, mc.Fn.(*ssa.Function))
			}
		}
	}
	out = append(out, fn.AnonFuncs...)
	return out
}

// flatten turns an argument into heap-independent terms.
func (x *Exec) flatten(st *State, v Val, t types.Type) []*Term {
	switch v := v.(type) {
	case *Term:
		return []*Term{v}
	case SliceV:
		var out []*Term
		for _, l := range leaves(v.elem) {
			h := x.heapGet(st, hkey(v.elem, l.name), l.sort)
			out = append(out, sel(h, v.ref))
		}
		return append(out, v.off, v.ln)
	case StructV:
		u := under(v.t).(*types.Struct)
		var out []*Term
		for i, f := range v.f {
			out = append(out, x.flatten(st, f, u.Field(i).Type())...)
		}
		return out
	case ArrV:
		return v.leaves
	case IfaceV:
		return []*Term{v.id}
	case FuncV:
		return []*Term{v.id}
	case MapV:
		var out []*Term
		for _, c := range x.mapComps(v.t) {
			h := x.heapGetS(st, c.key, c.sort)
			out = append(out, sel(h, v.ref))
		}
		return out
	}
	panic(unsup(fmt.Sprintf("argument of recursive specification function: %T", v)))
}

// formal makes a symbolic argument whose flattening is a list of variables.
func (x *Exec) formal(st *State, name string, t types.Type) (Val, []*Term) {
	switch u := shape(t).(type) {
	case *types.Slice:
		x.nformal++
		ref := cInt(int64(100 + x.nformal)) // distinct, not nil
		var vs []*Term
		for _, l := range leaves(u.Elem()) {
			k := hkey(u.Elem(), l.name)
			h := x.heapGet(st, k, l.sort)
			a := fresh("fa_"+name, sArr(sInt, l.sort), nil, nil)
			st.heap[k] = sto(h, ref, a)
			vs = append(vs, a)
		}
		off := fresh("fo_"+name, sInt, nil, nil)
		ln := fresh("fl_"+name, sInt, bi0, maxLen)
		return SliceV{ref, off, ln, ln, u.Elem()}, append(vs, off, ln)
	case *types.Map:
		x.nformal++
		ref := cInt(int64(100 + x.nformal)) // distinct, not nil
		var vs []*Term
		for _, c := range x.mapComps(u) {
			h := x.heapGetS(st, c.key, c.sort)
			a := fresh("fm_"+name, c.sort.v, nil, nil)
			st.heap[c.key] = sto(h, ref, a)
			vs = append(vs, a)
		}
		return MapV{ref, u}, vs
	case *types.Struct:
		sv := StructV{t: t}
		var vs []*Term
		for i := 0; i < u.NumFields(); i++ {
			v, w := x.formal(st, name, u.Field(i).Type())
			sv.f = append(sv.f, v)
			vs = append(vs, w...)
		}
		return sv, vs
	case *types.Array:
		av := ArrV{t: u}
		for _, l := range leaves(u.Elem()) {
			av.leaves = append(av.leaves, fresh("fa_"+name, sArr(sInt, l.sort), nil, nil))
		}
		return av, av.leaves
	case *types.Basic:
		l := leaves(t)[0]
		if u.Kind() == types.Int {
			l.lo, l.hi = nil, nil
		}
		v := leafVar("f_"+name, l)
		return v, []*Term{v}
	case *types.Interface:
		v := fresh("f_"+name, sInt, nil, nil)
		return IfaceV{id: v}, []*Term{v}
	case *types.Signature:
		v := fresh("f_"+name, sInt, nil, nil)
		return FuncV{id: v, t: t}, []*Term{v}
	}
	panic(unsup("formal " + t.String()))
}

func (x *Exec) recCall(st *State, r *RecFn, args []Val) []Val {
	var fl []*Term
	for i, a := range args {
		fl = append(fl, x.flatten(st, a, r.fn.Params[i].Type())...)
	}
	var ts []*Term
	for k, l := range r.res {
		ts = append(ts, app(r.appName(k), l.sort, l.lo, l.hi, fl...))
	}
	var out []Val
	n := 0
	sig := r.fn.Signature.Results()
	for i := 0; i < sig.Len(); i++ {
		c := len(leaves(sig.At(i).Type()))
		out = append(out, x.fromLeaves(sig.At(i).Type(), ts[n:n+c]))
		n += c
	}
	return out
}

// template computes the defining equation of a recursive function.
func (p *Prog) template(r *RecFn) {
	if r.ready {
		return
	}
	r.ready = true
	x := newExec(p, &Contract{name: r.name, fn: r.fn})
	x.spec, x.mute, x.inRec = 1, 1, r
	st := &State{env: map[ssa.Value]Val{}, heap: map[string]*Term{}, alloc: cInt(refAlloc0)}
	var args []Val
	for _, pa := range r.fn.Params {
		v, fs := x.formal(st, pa.Name(), pa.Type())
		args = append(args, v)
		r.params = append(r.params, fs...)
	}
	_, res, _ := x.runBody(r.fn, args, st, nil, nil)
	sig := r.fn.Signature.Results()
	for i, v := range res {
		r.body = append(r.body, x.toLeaves(v, sig.At(i).Type())...)
	}
	ok := map[*Term]bool{}
	for _, t := range r.params {
		ok[t] = true
	}
	for _, b := range r.body {
		for _, s := range symsOf(b) {
			if !ok[s] && !strings.HasPrefix(s.name, "G_") {
				panic(unsup("specification function " + r.name + " does not reduce to a term (" + s.name + ")"))
			}
		}
	}
}

// unfold instantiates definitions for the ground applications in ts.
func (p *Prog) unfold(ts []*Term, depth int) []*Term { return p.unfoldX(ts, depth, nil) }

func (p *Prog) unfoldX(ts []*Term, depth int, opaque map[string]bool) []*Term {
	var out []*Term
	done := map[*Term]bool{}
	seen := map[*Term]bool{}
	var apps []*Term
	var collect func(t *Term)
	collect = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			collect(a)
		}
		if t.op == oApp && !t.hasB {
			if r, ok := p.recs[t.name]; ok && !done[t] && !opaque[r.fn.Name()] {
				done[t] = true
				apps = append(apps, t)
			}
		}
	}
	for _, t := range ts {
		collect(t)
	}
	for d := 0; len(apps) > 0; d++ {
		cur := apps
		if d >= depth {
			cur = nil
			for _, a := range apps {
				if p.recs[a.name].folded {
					cur = append(cur, a)
				}
			}
		}
		apps = nil
		for _, a := range cur {
			r := p.recs[a.name]
			p.template(r)
			k := 0
			for i := range r.res {
				if r.appName(i) == a.name {
					k = i
				}
			}
			m := map[*Term]*Term{}
			for i, f := range r.params {
				m[f] = a.args[i]
			}
			e := eq(a, subst(r.body[k], m))
			out = append(out, e)
			collect(e)
		}
		if len(out) > 4000 {
			break
		}
	}
	return out
}

// ---- lemmas

func (x *Exec) lemmaCall(st *State, fn *ssa.Function, args []Val, pos token.Pos) {
	c := x.prog.contracts[fn]
	if c == nil || c.post == nil {
		panic(unsup("lemma without postcondition: " + fn.Name()))
	}
	x.used[fullName(fn)] = true
	s := st.clone()
	if c.pre != nil {
		s.assume(x.evalPred(s, c.pre, args))
	}
	if c == x.c || x.c.lemma && x.prog.reaches(fn, x.c.fn) {
		// recursion: only for a smaller measure
		if c.dec == nil || x.c.dec == nil {
			panic(unsup("recursive lemma without measure: " + fn.Name()))
		}
		m := x.evalInt(s, c.dec, args)
		m0 := x.evalInt(x.entry, x.c.dec, x.entryArgs())
		s.assume(and(le(cInt(0), m), lt(m, m0)))
	}
	x.lemmas++
	x.evalSpec(s, c.post, append([]Val{}, args...), emAssume, "")
	x.lemmas--
}

func (p *Prog) reaches(from, to *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var f func(g *ssa.Function) bool
	f = func(g *ssa.Function) bool {
		if g == to {
			return true
		}
		if seen[g] || !p.ours(g) {
			return false
		}
		seen[g] = true
		for _, h := range callees(g) {
			if f(h) {
				return true
			}
		}
		return false
	}
	return f(from)
}

func (x *Exec) entryArgs() []Val {
	var a []Val
	for _, p := range x.c.fn.Params {
		a = append(a, x.entry.env[p])
	}
	return a
}

func (x *Exec) evalInt(st *State, fn *ssa.Function, args []Val) *Term {
	x.spec++
	defer func() { x.spec-- }()
	_, res, _ := x.runBody(fn, args, st.clone(), nil, nil)
	return res[0].(*Term)
}

// ---- package vf

func (x *Exec) vfCall(fr *frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Val, bool, bool) {
	one := func(t Val) ([]Val, bool, bool) { return []Val{t}, true, true }
	switch fn.Name() {
	case "All", "Ex":
		lo, hi, f := args[0].(*Term), args[1].(*Term), args[2].(FuncV)
		ex := fn.Name() == "Ex"
		d := sub(hi, lo)
		if isC(d) && d.k.Cmp(bi(40)) <= 0 {
			r := cBool(!ex)
			for i := int64(0); i < d.k.Int64(); i++ {
				b := x.closure(st, f, []Val{addc(lo, i)})
				if ex {
					r = or(r, b)
				} else {
					r = and(r, b)
				}
			}
			return one(r)
		}
		bv := mkBVar("i")
		x.bvs = append(x.bvs, bv)
		pats := x.pats
		x.pats = nil
		body := x.closure(st, f, []Val{bv})
		mine := x.pats
		x.pats = pats
		x.bvs = x.bvs[:len(x.bvs)-1]
		rng := and(le(lo, bv), lt(bv, hi))
		if ex {
			return one(not(forall([]*Term{bv}, not(and(rng, body)), mine...)))
		}
		return one(forall([]*Term{bv}, imp(rng, body), mine...))
	case "AllStr", "AllInt", "AllU32":
		// unbounded quantification
		srt := sInt
		if fn.Name() == "AllStr" {
			srt = sStr
		}
		bv := mk(oBVar, srt, freshName("q_s"), nil, nil, nil, nil)
		x.bvs = append(x.bvs, bv)
		body := x.closure(st, args[0].(FuncV), []Val{bv})
		x.bvs = x.bvs[:len(x.bvs)-1]
		if fn.Name() == "AllU32" {
			body = imp(and(le(cInt(0), bv), le(bv, cInt(0xffffffff))), body)
		}
		return one(forall([]*Term{bv}, body))
	case "Hint":
		// a fact that may help: used when it can be proved, dropped otherwise
		lab := ""
		if l := args[0].(*Term); l.op == oLit {
			lab = l.name
		}
		x.hints = append(x.hints, hintT{lab, args[1].(*Term)})
		return nil, true, true
	case "Ensure", "Inv", "Assert":
		l, c := args[0].(*Term), args[1].(*Term)
		lab := ""
		if l.op == oLit {
			lab = l.name
		}
		if fn.Name() == "Ensure" && strings.HasPrefix(lab, "@") {
			// clause belonging to particular properties: neither checked nor
			// assumed while deciding another one
			i := strings.IndexByte(lab, ' ')
			if x.prop != "" && !strings.Contains(lab[:i]+"@", "@"+x.prop+"@") {
				return nil, true, true
			}
		}
		if fn.Name() == "Ensure" && fr != nil {
			lab = strings.TrimPrefix(fr.fn.Name(), "Post_") + " ensures " + lab
		}
		if x.label != "" {
			lab = x.label + " " + lab
		}
		fs := st
		if fn.Name() == "Assert" && len(symsOf(c)) == 0 && c.hasNoHeap() {
			// a closed formula is proved, and then known, on every path
			cp := *st
			cp.pc = nil
			fs = &cp
		}
		if x.emode == emCheck {
			x.oblig(fs, lab, pos, c)
		}
		x.fact(fs, c)
		return nil, true, true
	case "Dec":
		x.measure = append(x.measure, args[0].(*Term))
		return nil, true, true
	case "Pat":
		// where the quantified formula is to be used
		if t := args[0].(*Term); t.hasB {
			x.pats = append(x.pats, t)
		}
		return nil, true, true
	case "Imp":
		return one(imp(args[0].(*Term), args[1].(*Term)))
	case "Iff":
		return one(eq(args[0].(*Term), args[1].(*Term)))
	case "Modifies", "ModElems", "ModWithin", "ModMap":
		x.modify(st, fn.Name(), args[0])
		return nil, true, true
	case "Stream":
		return one(x.ghostGet(st, gIn, sStr, args[0].(PtrV).ref))
	case "Wire":
		return one(x.ghostGet(st, gOut, sStr, args[0].(PtrV).ref))
	case "ModStream", "ModWire":
		if x.modLocs != nil {
			k := gIn
			if fn.Name() == "ModWire" {
				k = gOut
			}
			*x.modLocs = append(*x.modLocs, modLoc{key: k, sort: sArr(sInt, sArr(sInt, sStr)), ref: args[0].(PtrV).ref})
		}
		return nil, true, true
	case "Sent":
		return one(x.chanLen(st, args[0].(IfaceV).dyn.(ChanV)))
	case "SentAt":
		c := args[0].(IfaceV).dyn.(ChanV)
		el := under(c.t).(*types.Chan).Elem()
		var ts []*Term
		for _, l := range leaves(el) {
			h := x.heapGet(st, "chan["+typeName(el)+"].log"+l.name, l.sort)
			ts = append(ts, ranged(sel(sel(h, c.ref), args[1].(*Term)), l))
		}
		return one(IfaceV{id: fresh("sent", sInt, bi1, nil), dyn: x.fromLeaves(el, ts), dt: el})
	case "For":
		// clauses of one property only
		if x.prop == "" || x.prop == args[0].(*Term).name {
			return one(tTrue)
		}
		return one(tFalse)
	case "KeyIdx":
		// the place of a key in the order of iteration
		m := args[0].(IfaceV).dyn.(MapV)
		cs := x.mapComps(m.t)
		ks := mapKeySort(m.t)
		has := sel(x.heapGetS(st, cs[0].key, cs[0].sort), m.ref)
		return one(app("mapidx_"+ks.name, sInt, nil, nil, has, args[1].(*Term)))
	case "KeyStr":
		// the i-th key in the order of iteration
		m := args[0].(IfaceV).dyn.(MapV)
		cs := x.mapComps(m.t)
		ks := mapKeySort(m.t)
		has := sel(x.heapGetS(st, cs[0].key, cs[0].sort), m.ref)
		return one(sel(app("mapkeys_"+ks.name, sArr(sInt, ks), nil, nil, has), args[1].(*Term)))
	case "Fresh", "New":
		base := x.preAlloc
		if base == nil {
			base = cInt(refAlloc0)
		}
		if fn.Name() == "New" && x.loopAlloc != nil {
			base = x.loopAlloc
		}
		switch v := args[0].(IfaceV).dyn.(type) {
		case SliceV:
			return one(le(base, v.ref))
		case PtrV:
			return one(le(base, v.ref))
		case MapV:
			return one(le(base, v.ref))
		}
		panic(unsup("vf.Fresh"))
	case "Stays":
		// the slice is in the memory it was in, or in new memory
		base := x.preAlloc
		if base == nil {
			base = cInt(refAlloc0)
		}
		a, b := args[0].(IfaceV).dyn.(SliceV), args[1].(IfaceV).dyn.(SliceV)
		return one(or(eq(a.ref, b.ref), le(base, a.ref)))
	case "SubOf":
		// a is b[lo:lo+len(a)], sharing memory
		a, b := args[0].(SliceV), args[1].(SliceV)
		lo := args[2].(*Term)
		return one(and(or(eq(a.ln, cInt(0)), and(eq(a.ref, b.ref), eq(a.off, add(b.off, lo)))), le(cInt(0), lo), le(add(lo, a.ln), b.ln)))
	case "Same":
		a, b := args[0].(SliceV), args[1].(SliceV)
		return one(and(eq(a.ref, b.ref), eq(a.off, b.off), eq(a.ln, b.ln)))
	case "SameBytes":
		a, b := args[0].(SliceV), args[1].(SliceV)
		bv := mkBVar("i")
		h := x.heapGet(st, hkey(a.elem, ""), sInt)
		body := imp(and(le(cInt(0), bv), lt(bv, a.ln)), eq(sel(sel(h, a.ref), add(a.off, bv)), sel(sel(h, b.ref), add(b.off, bv))))
		if isC(a.ln) && a.ln.k.Cmp(bi(40)) <= 0 {
			r := eq(a.ln, b.ln)
			for i := int64(0); i < a.ln.k.Int64(); i++ {
				r = and(r, eq(sel(sel(h, a.ref), addc(a.off, i)), sel(sel(h, b.ref), addc(b.off, i))))
			}
			return one(r)
		}
		return one(and(eq(a.ln, b.ln), forall([]*Term{bv}, body)))
	case "Separate":
		a, b := args[0].(IfaceV).dyn, args[1].(IfaceV).dyn
		return one(not(eq(x.refOf(a), x.refOf(b))))
	case "Concrete":
		return one(tFalse)
	case "Known":
		return one(tTrue)
	case "Record":
		// a value a specification may refer to later, as a witness
		l := args[0].(*Term).name
		v := args[1].(IfaceV)
		ts := x.toLeaves(v.dyn, v.dt)
		if s, ok := v.dyn.(SliceV); ok {
			// its elements, as they are now
			for _, lf := range leaves(s.elem) {
				ts = append(ts, sel(x.heapGet(st, hkey(s.elem, lf.name), lf.sort), s.ref))
			}
		}
		if o, ok := x.records[l]; ok {
			for i := range ts {
				ts[i] = ite(st.pcT(), ts[i], o[i])
			}
		}
		if x.records == nil {
			x.records = map[string][]*Term{}
		}
		x.records[l] = ts
		return nil, true, true
	case "Recorded":
		l := args[0].(*Term).name
		v := args[1].(IfaceV)
		r := IfaceV{id: v.id, dt: v.dt}
		if ts := x.records[l]; (x.emode == emCheck || x.recOK) && ts != nil {
			if sl, ok := under(v.dt).(*types.Slice); ok {
				lf := leaves(sl.Elem())
				n := len(ts) - len(lf)
				s := x.fromLeaves(v.dt, ts[:n]).(SliceV)
				s.ref = x.newRef(st)
				for i, e := range lf {
					k := hkey(s.elem, e.name)
					st.heap[k] = sto(x.heapGet(st, k, e.sort), s.ref, ts[n+i])
				}
				r.dyn = s
			} else {
				r.dyn = x.fromLeaves(v.dt, ts)
			}
		} else {
			r.dyn = x.havocVal(st, "rec", v.dt)
		}
		return []Val{r}, true, true
	case "Snap":
		// heap-independent copy of a byte slice
		s := args[0].(SliceV)
		var ref *Term
		ref = x.newRef(st)
		k := hkey(s.elem, "")
		h := x.heapGet(st, k, sInt)
		st.heap[k] = sto(h, ref, sel(h, s.ref))
		return one(SliceV{ref, s.off, s.ln, s.ln, s.elem})
	case "SnapOf":
		// the same of any slice or map
		if m, ok := args[0].(IfaceV).dyn.(MapV); ok {
			ref := x.newRef(st)
			for i, c := range x.mapComps(m.t) {
				h := x.heapGetS(st, c.key, c.sort)
				v := sel(h, m.ref)
				if i == 0 {
					v = ite(eq(m.ref, cInt(0)), karr(c.sort.v, tFalse), v)
				}
				st.heap[c.key] = sto(h, ref, v)
			}
			r := args[0].(IfaceV)
			r.dyn = MapV{ref, m.t}
			return one(r)
		}
		s := args[0].(IfaceV).dyn.(SliceV)
		ref := x.newRef(st)
		for _, l := range leaves(s.elem) {
			k := hkey(s.elem, l.name)
			h := x.heapGet(st, k, l.sort)
			st.heap[k] = sto(h, ref, sel(h, s.ref))
		}
		r := args[0].(IfaceV)
		r.dyn = SliceV{ref, s.off, s.ln, s.ln, s.elem}
		return one(r)
	case "MapSame", "MapSameBut":
		// equal contents, but for one key
		a, b := args[0].(IfaceV).dyn.(MapV), args[1].(IfaceV).dyn.(MapV)
		r := tTrue
		for i, c := range x.mapComps(a.t) {
			h := x.heapGetS(st, c.key, c.sort)
			va, vb := sel(h, a.ref), sel(h, b.ref)
			if i == 0 {
				va, vb = ite(eq(a.ref, cInt(0)), karr(c.sort.v, tFalse), va), ite(eq(b.ref, cInt(0)), karr(c.sort.v, tFalse), vb)
			}
			if fn.Name() == "MapSameBut" {
				k := x.mapKey(st, a, args[2].(IfaceV).dyn)
				vb = sto(vb, k, sel(va, k))
			}
			r = and(r, eq(va, vb))
		}
		return one(r)
	case "Pow2":
		return one(pow2t(args[0].(*Term)))
	case "Unchanged":
		// all memory allocated at entry is as it was
		panic(unsup("vf.Unchanged"))
	}
	return nil, false, false
}

func (x *Exec) refOf(v Val) *Term {
	switch v := v.(type) {
	case SliceV:
		return v.ref
	case PtrV:
		return v.ref
	case MapV:
		return v.ref
	}
	panic(unsup("refOf"))
}

func (x *Exec) closure(st *State, f FuncV, args []Val) *Term {
	if f.fn == nil {
		panic(unsup("unknown closure"))
	}
	s := st.clone()
	_, res, _ := x.runBody(f.fn, append(args, f.binds...), s, nil, nil)
	return res[0].(*Term)
}

func (x *Exec) modify(st *State, kind string, arg Val) {
	if x.modLocs == nil {
		return
	}
	v := arg.(IfaceV).dyn
	add := func(m modLoc) { *x.modLocs = append(*x.modLocs, m) }
	switch v := v.(type) {
	case PtrV:
		t, pre := fieldAt(v.root, v.path)
		var rec func(t types.Type, pre string)
		rec = func(t types.Type, pre string) {
			switch u := shape(t).(type) {
			case *types.Struct:
				for i := 0; i < u.NumFields(); i++ {
					rec(u.Field(i).Type(), pre+"."+u.Field(i).Name())
				}
				return
			case *types.Array:
				l := leaves(t)[0]
				l.name = pre + l.name
				aref := x.loadLeaf(st, v.root, l, v.ref, v.idx)
				for _, l := range leaves(u.Elem()) {
					add(modLoc{key: hkey(u.Elem(), l.name), sort: sArr(sInt, sArr(sInt, l.sort)), ref: aref})
				}
				return
			}
			for _, l := range leaves(t) {
				l.name = pre + l.name
				add(modLoc{key: hkey(v.root, l.name), sort: sArr(sInt, sArr(sInt, l.sort)), ref: v.ref, idx: v.idx, lf: l})
			}
		}
		rec(t, pre)
	case SliceV:
		for _, l := range leaves(v.elem) {
			m := modLoc{key: hkey(v.elem, l.name), sort: sArr(sInt, sArr(sInt, l.sort)), ref: v.ref}
			if kind == "ModWithin" {
				m.lo, m.hi = v.off, sum(v.off, v.ln)
			}
			add(m)
		}
	case MapV:
		for _, c := range x.mapComps(v.t) {
			add(modLoc{key: c.key, sort: c.sort, ref: v.ref})
		}
	case ChanV:
		for k, s := range x.chanComps(v.t) {
			add(modLoc{key: k, sort: s, ref: v.ref})
		}
	default:
		panic(unsup(fmt.Sprintf("vf.%s of %T", kind, v)))
	}
}

// ---- built-ins

func (x *Exec) builtin(st *State, b *ssa.Builtin, call *ssa.CallCommon, pos token.Pos) []Val {
	var args []Val
	for _, a := range call.Args {
		args = append(args, x.val(st, a))
	}
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case *Term:
			return []Val{slen(v)}
		case SliceV:
			return []Val{v.ln}
		case ArrV:
			return []Val{cInt(v.t.Len())}
		case PtrV:
			return []Val{cInt(call.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())}
		case MapV:
			h := x.heapGetS(st, x.mapComps(v.t)[0].key, x.mapComps(v.t)[0].sort)
			return []Val{ite(eq(v.ref, cInt(0)), cInt(0), app("maplen_"+mapKeySort(v.t).name, sInt, bi0, maxLen, sel(h, v.ref)))}
		}
	case "cap":
		switch v := args[0].(type) {
		case SliceV:
			return []Val{v.cp}
		case ArrV:
			return []Val{cInt(v.t.Len())}
		}
	case "append":
		if len(args) == 1 {
			return args
		}
		return []Val{x.appendOp(st, args[0].(SliceV), args[1])}
	case "copy":
		return []Val{x.copyOp(st, args[0].(SliceV), args[1])}
	case "delete":
		m := args[0].(MapV)
		x.mapDel(st, m, x.mapKey(st, m, args[1]))
		return nil
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		x.nonNil(st, args[0], pos, "method receiver")
		return []Val{args[0]}
	}
	panic(unsup("builtin " + b.Name()))
}

// appendOp models append. The new backing array, when one is needed, is given
// the old contents at the old offset, so both cases are the same store at a
// conditional reference. (Contents past the length of a grown slice are never
// read: slicing beyond the length is rejected.)
func (x *Exec) appendOp(st *State, s SliceV, more Val) Val {
	var tl SliceV
	var str *Term
	switch m := more.(type) {
	case SliceV:
		tl = m
	case *Term:
		str = m
		tl = SliceV{ln: slen(m), off: cInt(0), elem: s.elem}
	}
	if tl.ln == cInt(0) {
		return s
	}
	lvs := leaves(s.elem)
	newLen := add(s.ln, tl.ln)
	if s.ln == cInt(0) && isC(s.cp) && s.cp.k.Sign() == 0 && str == nil && !isC(tl.ln) {
		// copy of a whole slice
		ref := x.newRef(st)
		ref = ite(eq(tl.ln, cInt(0)), s.ref, ref)
		for _, l := range lvs {
			k := hkey(s.elem, l.name)
			h := x.heapGet(st, k, l.sort)
			st.heap[k] = sto(h, ref, sel(h, tl.ref))
		}
		cp := fresh("cap", sInt, bi0, maxLen)
		x.factRaw(le(tl.ln, cp))
		x.factRaw(imp(eq(tl.ln, cInt(0)), eq(cp, cInt(0))))
		return SliceV{ref, ite(eq(tl.ln, cInt(0)), cInt(0), tl.off), tl.ln, cp, s.elem}
	}
	fits := le(newLen, s.cp)
	nr := x.newRef(st)
	ref := ite(fits, s.ref, nr)
	cp := fresh("cap", sInt, bi0, maxLen)
	x.factRaw(le(newLen, cp))
	cp = ite(fits, s.cp, cp)
	x.fact(st, le(newLen, cBig(maxLen)))
	if isC(tl.ln) && tl.ln.k.Cmp(bi(64)) <= 0 && str == nil {
		n := tl.ln.k.Int64()
		for _, l := range lvs {
			k := hkey(s.elem, l.name)
			h := x.heapGet(st, k, l.sort)
			src := sel(h, tl.ref)
			a := sel(h, s.ref)
			for i := int64(0); i < n; i++ {
				a = sto(a, add(s.off, addc(s.ln, i)), ranged(sel(src, addc(tl.off, i)), l))
			}
			st.heap[k] = sto(h, ref, a)
		}
	} else {
		for _, l := range lvs {
			k := hkey(s.elem, l.name)
			h := x.heapGet(st, k, l.sort)
			old := sel(h, s.ref)
			var src *Term
			if str != nil {
				src = sbytes(str)
			} else {
				src = sel(h, tl.ref)
			}
			a := fresh("app_"+k, sArr(sInt, l.sort), nil, nil)
			bv := mkBVar("i")
			base := add(s.off, s.ln)
			x.fact(st, forall([]*Term{bv}, imp(lt(bv, base), eq(sel(a, bv), sel(old, bv)))))
			bw := mkBVar("i")
			x.fact(st, forall([]*Term{bw}, imp(and(le(base, bw), lt(bw, add(base, tl.ln))), eq(sel(a, bw), sel(src, add(tl.off, sub(bw, base)))))))
			// the same, indexed from the source
			bz := mkBVar("i")
			x.fact(st, forall([]*Term{bz}, imp(and(le(tl.off, bz), lt(bz, add(tl.off, tl.ln))), eq(sel(src, bz), sel(a, add(base, sub(bz, tl.off)))))))
			st.heap[k] = sto(h, ref, a)
		}
	}
	return SliceV{ref, s.off, newLen, cp, s.elem}
}

func (x *Exec) copyOp(st *State, d SliceV, src Val) Val {
	var sn *Term
	var sarr func(l leaf, h *Term) *Term
	soff := cInt(0)
	switch s := src.(type) {
	case SliceV:
		sn = s.ln
		soff = s.off
		sarr = func(l leaf, h *Term) *Term { return sel(h, s.ref) }
	case *Term:
		sn = slen(s)
		sarr = func(l leaf, h *Term) *Term { return sbytes(s) }
		if s.op == oLit {
			sarr = func(l leaf, h *Term) *Term {
				a := karr(sArr(sInt, sInt), cInt(0))
				for i := range []byte(s.name) {
					a = sto(a, cInt(int64(i)), cInt(int64(s.name[i])))
				}
				return a
			}
		}
	}
	n := ite(le(sn, d.ln), sn, d.ln)
	for _, l := range leaves(d.elem) {
		k := hkey(d.elem, l.name)
		h := x.heapGet(st, k, l.sort)
		old := sel(h, d.ref)
		sa := sarr(l, h)
		if isC(n) && n.k.Cmp(bi(64)) <= 0 {
			a := old
			for i := int64(0); i < n.k.Int64(); i++ {
				a = sto(a, addc(d.off, i), ranged(sel(sa, addc(soff, i)), l))
			}
			st.heap[k] = sto(h, d.ref, a)
			continue
		}
		a := fresh("cpy_"+k, sArr(sInt, l.sort), nil, nil)
		bv := mkBVar("i")
		in := and(le(d.off, bv), lt(bv, add(d.off, n)))
		x.fact(st, forall([]*Term{bv}, eq(sel(a, bv), ite(in, sel(sa, add(soff, sub(bv, d.off))), sel(old, bv)))))
		st.heap[k] = sto(h, d.ref, a)
	}
	return n
}

// ---- maps

type mapComp struct {
	key  string
	sort *Sort
	lf   leaf
}

func (x *Exec) mapComps(t *types.Map) []mapComp {
	ks := mapKeySort(t)
	n := "map[" + typeName(t) + "]"
	out := []mapComp{{n + ".has", sArr(sInt, sArr(ks, sBool)), leaf{}}}
	for _, l := range leaves(t.Elem()) {
		out = append(out, mapComp{n + ".val" + l.name, sArr(sInt, sArr(ks, l.sort)), l})
	}
	return out
}

func (x *Exec) mapKey(st *State, m MapV, k Val) *Term {
	if t, ok := k.(*Term); ok {
		return t
	}
	return x.toLeaves(k, m.t.Key())[0]
}

func (x *Exec) mapZero(st *State, t *types.Map, ref *Term) {
	for i, c := range x.mapComps(t) {
		h := x.heapGetS(st, c.key, c.sort)
		if i == 0 {
			st.heap[c.key] = sto(h, ref, karr(c.sort.v, tFalse))
		} else {
			st.heap[c.key] = sto(h, ref, karr(c.sort.v, zeroLeaf(c.lf)))
		}
	}
}

func (x *Exec) mapSet(st *State, m MapV, k *Term, v Val) {
	cs := x.mapComps(m.t)
	vs := x.toLeaves(v, m.t.Elem())
	for i, c := range cs {
		h := x.heapGetS(st, c.key, c.sort)
		val := tTrue
		if i > 0 {
			val = vs[i-1]
		}
		st.heap[c.key] = sto(h, m.ref, sto(sel(h, m.ref), k, val))
	}
}

func (x *Exec) mapDel(st *State, m MapV, k *Term) {
	c := x.mapComps(m.t)[0]
	h := x.heapGetS(st, c.key, c.sort)
	st.heap[c.key] = ite(eq(m.ref, cInt(0)), h, sto(h, m.ref, sto(sel(h, m.ref), k, tFalse)))
}

func (x *Exec) mapGet(st *State, m MapV, k *Term) (Val, *Term) {
	cs := x.mapComps(m.t)
	h := x.heapGetS(st, cs[0].key, cs[0].sort)
	settle := x.spec > 0 && x.emode == emCheck && !k.hasB && !m.ref.hasB
	if in := sel(h, m.ref); settle && in.op == oSto && in.args[1].op != oIte && eq(in.args[1], k) != tTrue && x.prove(st, eq(in.args[1], k), 4*time.Second) {
		k = in.args[1] // the entry written last
	}
	has := and(not(eq(m.ref, cInt(0))), sel(sel(h, m.ref), k))
	if settle && has.op != oTrue && sel(h, m.ref).op == oSto && sel(sel(h, m.ref), k) == tTrue && x.prove(st, has, 2*time.Second) {
		has = tTrue
	}
	var ts []*Term
	for _, c := range cs[1:] {
		h := x.heapGetS(st, c.key, c.sort)
		v := ranged(sel(sel(h, m.ref), k), c.lf)
		if c.lf.kind == 'r' && !v.hasB {
			x.fact(st, lt(v, st.alloc))
		}
		ts = append(ts, ite(has, v, zeroLeaf(c.lf)))
	}
	return x.fromLeaves(m.t.Elem(), ts), has
}

func (x *Exec) lookup(st *State, in *ssa.Lookup) Val {
	switch v := x.val(st, in.X).(type) {
	case *Term: // string
		i := x.term(st, in.Index)
		x.safety(st, "string index in range", in.Pos(), and(le(cInt(0), i), lt(i, slen(v))))
		return sat(v, i)
	case MapV:
		r, ok := x.mapGet(st, v, x.mapKey(st, v, x.val(st, in.Index)))
		if in.CommaOk {
			return TupleV{r, ok}
		}
		return r
	}
	panic(unsup("lookup"))
}

// ---- iteration over maps and strings

func (x *Exec) iterPos(st *State, iv IterV) *Term {
	h := x.heapGet(st, "$iter", sInt)
	return sel(sel(h, cInt(int64(iv.pos))), cInt(0))
}

var iterSeq = 100

func (x *Exec) rangeInit(st *State, in *ssa.Range) Val {
	v := x.val(st, in.X)
	m, ok := v.(MapV)
	if !ok {
		panic(unsup("range over string"))
	}
	iterSeq++
	cs := x.mapComps(m.t)
	h := x.heapGetS(st, cs[0].key, cs[0].sort)
	has := sel(h, m.ref)
	ks := mapKeySort(m.t)
	// the iteration order is an arbitrary enumeration of the keys, a function
	// of the key set only for the purpose of naming it in specifications
	keys := app("mapkeys_"+ks.name, sArr(sInt, ks), nil, nil, has)
	n := ite(eq(m.ref, cInt(0)), cInt(0), app("maplen_"+ks.name, sInt, bi0, maxLen, has))
	bv := mkBVar("i")
	x.fact(st, forall([]*Term{bv}, imp(and(le(cInt(0), bv), lt(bv, n)), sel(has, sel(keys, bv)))))
	// every key has its place in the enumeration
	bk := mk(oBVar, ks, freshName("q_k"), nil, nil, nil, nil)
	idx := app("mapidx_"+ks.name, sInt, nil, nil, has, bk)
	x.fact(st, imp(not(eq(m.ref, cInt(0))), forall([]*Term{bk}, imp(sel(has, bk), and(le(cInt(0), idx), lt(idx, n), eq(sel(keys, idx), bk))))))
	bw := mkBVar("i")
	x.fact(st, forall([]*Term{bw}, imp(and(le(cInt(0), bw), lt(bw, n)), eq(app("mapidx_"+ks.name, sInt, nil, nil, has, sel(keys, bw)), bw))))
	st.heap["$iter"] = sto(x.heapGet(st, "$iter", sInt), cInt(int64(iterSeq)), karr(sArr(sInt, sInt), cInt(0)))
	return IterV{m: m, pos: iterSeq, str: keys, n: n}
}

func (x *Exec) rangeNext(st *State, in *ssa.Next) Val {
	iv := x.val(st, in.Iter).(IterV)
	pos := x.iterPos(st, iv)
	ok := lt(pos, iv.n)
	st.heap["$iter"] = sto(x.heapGet(st, "$iter", sInt), cInt(int64(iv.pos)), karr(sArr(sInt, sInt), ite(ok, addc(pos, 1), pos)))
	k := sel(iv.str, pos)
	v, _ := x.mapGet(st, iv.m, k)
	return TupleV{ok, k, v}
}

// ---- channels: a send appends to a ghost log

func (x *Exec) chanComps(t types.Type) map[string]*Sort {
	el := under(t).(*types.Chan).Elem()
	n := "chan[" + typeName(el) + "]"
	out := map[string]*Sort{n + ".n": sArr(sInt, sArr(sInt, sInt))}
	for _, l := range leaves(el) {
		out[n+".log"+l.name] = sArr(sInt, sArr(sInt, l.sort))
	}
	return out
}

func (x *Exec) chanLen(st *State, c ChanV) *Term {
	el := under(c.t).(*types.Chan).Elem()
	h := x.heapGet(st, "chan["+typeName(el)+"].n", sInt)
	return ranged(sel(sel(h, c.ref), cInt(0)), leaf{lo: bi0, hi: maxLen})
}

func (x *Exec) send(st *State, c ChanV, v Val, t types.Type) {
	el := under(c.t).(*types.Chan).Elem()
	n := "chan[" + typeName(el) + "]"
	cnt := x.chanLen(st, c)
	vs := x.toLeaves(v, el)
	for i, l := range leaves(el) {
		k := n + ".log" + l.name
		h := x.heapGet(st, k, l.sort)
		st.heap[k] = sto(h, c.ref, sto(sel(h, c.ref), cnt, vs[i]))
	}
	k := n + ".n"
	h := x.heapGet(st, k, sInt)
	st.heap[k] = sto(h, c.ref, sto(sel(h, c.ref), cInt(0), addc(cnt, 1)))
}

func (x *Exec) recv(st *State, in *ssa.UnOp) Val {
	v := x.havocVal(st, "recv", under(in.X.Type()).(*types.Chan).Elem())
	if in.CommaOk {
		return TupleV{v, fresh("ok", sBool, nil, nil)}
	}
	return v
}

func (x *Exec) selectOp(st *State, in *ssa.Select) Val {
	if in.Blocking && len(in.States) == 1 {
		s := in.States[0]
		c := x.val(st, s.Chan).(ChanV)
		out := TupleV{cInt(0), tTrue}
		if s.Dir == types.SendOnly {
			x.send(st, c, x.val(st, s.Send), s.Send.Type())
		} else {
			out = append(out, x.havocVal(st, "recv", under(c.t).(*types.Chan).Elem()))
		}
		return out
	}
	var hi = big.NewInt(int64(len(in.States)) - 1)
	lo := bi0
	if !in.Blocking {
		lo = bi(-1)
	}
	out := TupleV{fresh("sel", sInt, lo, hi), fresh("ok", sBool, nil, nil)}
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			out = append(out, x.havocVal(st, "recv", under(s.Chan.Type()).(*types.Chan).Elem()))
		} else {
			panic(unsup("select with several cases including a send"))
		}
	}
	return out
}

// ---- relevance

// relevant keeps the hypotheses connected to the goal through shared symbols.
func relevant(hyps []*Term, goal *Term) []*Term {
	flat := make([]*Term, 0, len(hyps))
	for _, h := range hyps {
		flat = append(flat, conj(h)...)
	}
	syms := make([][]*Term, len(flat))
	for i, h := range flat {
		syms[i] = symsOf(h)
	}
	in := map[*Term]bool{}
	for _, s := range symsOf(goal) {
		in[s] = true
	}
	taken := make([]bool, len(flat))
	for changed := true; changed; {
		changed = false
		for i := range flat {
			if taken[i] {
				continue
			}
			hit := len(syms[i]) == 0
			for _, s := range syms[i] {
				if in[s] {
					hit = true
					break
				}
			}
			if hit {
				taken[i] = true
				changed = true
				for _, s := range syms[i] {
					in[s] = true
				}
			}
		}
	}
	var out []*Term
	seen := map[*Term]bool{}
	for i, t := range taken {
		if t && !seen[flat[i]] {
			seen[flat[i]] = true
			out = append(out, flat[i])
		}
	}
	return out
}

// hasNoHeap: a formula about constants only.
func (t *Term) hasNoHeap() bool {
	if t.op == oVar || t.op == oBVar {
		return false
	}
	for _, a := range t.args {
		if !a.hasNoHeap() {
			return false
		}
	}
	return true
}

var symCache = map[*Term][]*Term{}

func symsOf(t *Term) []*Term {
	if s, ok := symCache[t]; ok {
		return s
	}
	set := map[*Term]bool{}
	seen := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == oVar && !strings.HasPrefix(t.name, "H0_") {
			set[t] = true
		}
		for _, a := range t.args {
			f(a)
		}
	}
	f(t)
	out := make([]*Term, 0, len(set))
	for s := range set {
		out = append(out, s)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	symCache[t] = out
	return out
}
