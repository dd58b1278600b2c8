package main

// Loops: unrolling when every bound is decided by the path, invariants otherwise.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

const maxUnroll = 130

func (x *Exec) loop(fr *frame, l *loop, in []edgeState) []edgeState {
	inv := (*ssa.Function)(nil)
	c := x.prog.contracts[fr.fn]
	if c != nil {
		inv = c.inv[l.no]
	}
	st := x.join(in, l.head, false)
	if st == nil {
		return nil
	}
	if inv == nil {
		lim := 0
		if c != nil {
			lim = c.unroll
		}
		if ex, ok := x.tryUnroll(fr, l, st, lim); ok {
			return ex
		}
	}
	return x.invLoop(fr, l, st, inv)
}

// tryUnroll executes iterations while each is decided; it gives up when an
// iteration leaves both continuing and leaving states undecided by the first
// test (unless a limit was declared, which is then an obligation).
func (x *Exec) tryUnroll(fr *frame, l *loop, st *State, lim int) (out []edgeState, ok bool) {
	saveFacts, saveObls := len(x.facts), len(x.obls)
	undo := func() {
		x.facts, x.obls = x.facts[:saveFacts], x.obls[:saveObls]
	}
	cur := st
	nrets := len(fr.rets)
	for it := 0; ; it++ {
		max := maxUnroll
		if lim > 0 {
			max = lim
		}
		if it >= max {
			if lim > 0 {
				x.oblig(cur, fmt.Sprintf("loop %d terminates within %d iterations", l.no, lim), l.head.Instrs[0].Pos(), tFalse)
				return out, true
			}
			undo()
			fr.rets = fr.rets[:nrets]
			return nil, false
		}
		if lim == 0 && !x.decided(fr, l, cur) {
			undo()
			fr.rets = fr.rets[:nrets]
			return nil, false
		}
		exits, backs := x.region(fr, l.blocks, l.head, []edgeState{{nil, l.head, cur}}, 1)
		out = append(out, exits...)
		if len(backs) == 0 {
			return out, true
		}
		cur = x.join(backs, l.head, false)
		if cur == nil {
			return out, true
		}
	}
}

// decided: the loop test at the head (a conditional whose successors differ in
// loop membership, reached without side effects) is a constant in this state.
func (x *Exec) decided(fr *frame, l *loop, st *State) bool {
	b := l.head
	last := b.Instrs[len(b.Instrs)-1]
	iff, ok := last.(*ssa.If)
	if !ok {
		return false
	}
	if l.blocks[b.Succs[0]] == l.blocks[b.Succs[1]] {
		return false
	}
	x.mute++
	defer func() { x.mute-- }()
	nf := len(x.facts)
	s := st.clone()
	for _, in := range b.Instrs[:len(b.Instrs)-1] {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		switch in.(type) {
		case *ssa.BinOp, *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Convert, *ssa.Extract, *ssa.Field, *ssa.Call:
			if call, isC := in.(*ssa.Call); isC {
				if _, isB := call.Call.Value.(*ssa.Builtin); !isB {
					x.facts = x.facts[:nf]
					return false
				}
			}
			x.instr(fr, s, in)
		default:
			x.facts = x.facts[:nf]
			return false
		}
	}
	c := x.val(s, iff.Cond).(*Term)
	x.facts = x.facts[:nf]
	return c == tTrue || c == tFalse
}

type candidate struct {
	name string
	f    func(st *State) *Term // evaluated on a state at the head
	head *Term
}

func (x *Exec) invLoop(fr *frame, l *loop, E *State, inv *ssa.Function) []edgeState {
	if inv == nil && x.prove(E, tFalse, time.Second) {
		return nil // unreachable here
	}
	pos := l.head.Instrs[0].Pos()
	for _, in := range l.head.Instrs {
		if in.Pos().IsValid() {
			pos = in.Pos()
			break
		}
	}
	lname := fmt.Sprintf("loop %d", l.no)
	if fr.fn != x.c.fn {
		lname = fnKey(fr.fn) + " " + lname
	}
	var phis []*ssa.Phi
	for _, in := range l.head.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}

	if fr.outer == nil {
		fr.outer = E.alloc
		defer func() { fr.outer = nil }()
	}

	// --- discover what the loop modifies
	mods := map[string]map[*Term]*modIdx{}
	type headT struct {
		st   *State
		back map[*Term]*Term // head symbol -> entry value
		arrs map[string]map[*Term]*Term
	}
	entryPhi := map[*ssa.Phi]Val{}
	for _, p := range phis {
		entryPhi[p] = E.env[p]
	}
	mkHead := func() headT {
		h := headT{st: E.clone(), back: map[*Term]*Term{}, arrs: map[string]map[*Term]*Term{}}
		h.st.alloc = fresh("alloc", sInt, bAlloc0, nil)
		x.factRaw(le(E.alloc, h.st.alloc))
		for _, p := range phis {
			if l.unmoved(p) {
				h.st.env[p] = entryPhi[p]
				continue
			}
			v := x.havocVal(h.st, p.Comment, p.Type())
			if iv, ok := entryPhi[p].(IterV); ok {
				h.st.env[p] = iv
				continue
			}
			// interior pointer shapes are kept
			h.st.env[p] = v
			ls := leaves(p.Type())
			a, b := x.safeLeaves(v, p.Type()), x.safeLeaves(entryPhi[p], p.Type())
			if a != nil && b != nil {
				for i := range ls {
					h.back[a[i]] = b[i]
				}
			}
		}
		var keys []string
		for k := range mods {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			hp := E.heap[k]
			h.arrs[k] = map[*Term]*Term{}
			var refs []*Term
			for r := range mods[k] {
				refs = append(refs, r)
			}
			sort.Slice(refs, func(i, j int) bool { return refs[i].id < refs[j].id })
			for _, r := range refs {
				if mi := mods[k][r]; !mi.whole {
					a := sel(h.st.heap[k], r)
					for _, i := range mi.list() {
						fv := fresh("lv_"+k, hp.sort.v.v, nil, nil)
						h.back[fv] = sel(sel(hp, r), i)
						a = sto(a, i, fv)
					}
					h.arrs[k][r] = a
					h.st.heap[k] = sto(h.st.heap[k], r, a)
					continue
				}
				fa := fresh("lh_"+k, hp.sort.v, nil, nil)
				x.refArr(h.st, k, fa)
				h.arrs[k][r] = fa
				h.back[fa] = sel(hp, r)
				h.st.heap[k] = sto(h.st.heap[k], r, fa)
			}
		}
		return h
	}
	refCands := func(h headT) []candidate {
		var cs []candidate
		for _, p := range phis {
			ls := leaves(p.Type())
			if l.unmoved(p) {
				continue
			}
			if _, ok := entryPhi[p].(IterV); ok {
				continue
			}
			e := x.safeLeaves(entryPhi[p], p.Type())
			if e == nil {
				continue
			}
			for i, lf := range ls {
				if lf.kind != 'r' {
					continue
				}
				i, p, lf := i, p, lf
				_ = lf
				cs = append(cs, candidate{"ref " + p.Comment + ls[i].name, func(st *State) *Term {
					v := x.safeLeaves(st.env[p], p.Type())
					if v == nil {
						return tTrue
					}
					return or(eq(v[i], e[i]), le(E.alloc, v[i]))
				}, nil})
			}
		}
		for k, m := range h.arrs {
			if !(strings.HasSuffix(k, ".ref") || strings.HasSuffix(k, ".aref")) {
				continue
			}
			for r := range m {
				idx := []*Term{cInt(0)}
				if mi := mods[k][r]; mi != nil && !mi.whole {
					idx = mi.list()
				}
				for _, i := range idx {
					k, r, i := k, r, i
					e := sel(sel(E.heap[k], r), i)
					cs = append(cs, candidate{"ref " + k, func(st *State) *Term {
						v := sel(sel(st.heap[k], r), i)
						return or(eq(v, e), le(E.alloc, v))
					}, nil})
				}
			}
		}
		return cs
	}
	discover := func() {
		x.scout++
		defer func() { x.scout-- }()
		for round := 0; round < 8; round++ {
			x.mute++
			nf := len(x.facts)
			nr := len(fr.rets)
			h := mkHead()
			x.fact(h.st, tTrue)
			exits, backs := x.region(fr, l.blocks, l.head, []edgeState{{nil, l.head, h.st}}, 1)
			rets := append([]retState{}, fr.rets[nr:]...)
			fr.rets = fr.rets[:nr]
			x.facts = x.facts[:nf]
			x.mute--
			changed := false
			note := func(st *State) {
				for k, t := range st.heap {
					base, ok := h.st.heap[k]
					if !ok {
						continue
					}
					if t == base {
						continue
					}
					for _, r := range storeRefs(t, base) {
						idxs, whole := storeIdxs(t, base, r)
						whole = whole || len(idxs) == 0
						if mods[k] == nil {
							mods[k] = map[*Term]*modIdx{}
						}
						// the leaves first: conditions hold for any iteration
						for _, r2 := range iteLeaves(r) {
							r3 := subst(r2, h.back)
							if derivedAlloc(r3, E, h.st) {
								continue
							}
							mi := mods[k][r3]
							if mi == nil {
								mi = &modIdx{idx: map[*Term]bool{}}
								mods[k][r3] = mi
								changed = true
							}
							if mi.whole {
								continue
							}
							if whole || r.op == oIte {
								mi.whole, changed = true, true
								continue
							}
							for _, i := range idxs {
								i2 := subst(i, h.back)
								if i2 != i || i2.op == oIte || newerThan(i2, h.st.alloc) {
									mi.whole, changed = true, true
									break
								}
								if !mi.idx[i2] {
									mi.idx[i2] = true
									changed = true
								}
								if len(mi.idx) > 6 {
									mi.whole, changed = true, true
									break
								}
							}
						}
					}
				}
			}
			for _, e := range backs {
				for k := range e.st.heap {
					if _, ok := E.heap[k]; !ok {
						E.heap[k] = mkVar("H0_"+sanitize(k), e.st.heap[k].sort, nil, nil)
						changed = changed || e.st.heap[k] != E.heap[k]
					}
				}
				note(e.st)
			}
			_ = exits
			_ = rets
			if !changed {
				return
			}
		}
		panic(unsup(lname + ": modified set does not stabilise"))
	}
	discover()
	if os.Getenv("GOVER_DEBUG") != "" {
		for k, m := range mods {
			for r, mi := range m {
				fmt.Fprintln(os.Stderr, lname, "modifies", k, r.String(), mi.whole)
			}
		}
	}

	evalInv := func(st *State, mode int, what string) []*Term {
		if inv == nil {
			return nil
		}
		args := x.invArgs(fr, l, st, inv)
		om := x.measure
		x.measure = nil
		x.recOK = true
		defer func(a *Term) { x.recOK, x.loopAlloc = false, a }(x.loopAlloc)
		x.loopAlloc = fr.outer
		x.evalSpec(st, inv, args, mode, fmt.Sprintf("%s %s", lname, what))
		m := x.measure
		x.measure = om
		return m
	}

	// --- memory reached through the heap: unless it has to be modified, the
	// invariants say that it is new
	if x.scout == 0 && inv != nil {
		type km struct {
			k string
			r *Term
		}
		var js []km
		for k, m := range mods {
			for r := range m {
				if r.op == oSel {
					js = append(js, km{k, r})
				}
			}
		}
		if len(js) > 0 {
			x.mute++
			nf, nr := len(x.facts), len(fr.rets)
			x.scout++
			h := mkHead()
			evalInv(h.st, emAssume, "")
			_, backs := x.region(fr, l.blocks, l.head, []edgeState{{nil, l.head, h.st}}, 1)
			x.scout--
			fr.rets = fr.rets[:nr]
			for _, j := range js {
				need := false
				for _, e := range backs {
					s := x.phis(e)
					base, ok := h.st.heap[j.k]
					if !ok || s.heap[j.k] == base {
						continue
					}
					conds := storeConds(s.heap[j.k], base)
					for _, r := range storeRefs(s.heap[j.k], base) {
						ok := or(le(E.alloc, r), eq(r, cInt(0)))
						for m := range mods[j.k] {
							if m != j.r {
								ok = or(ok, eq(r, m))
							}
						}
						if c := conds[r]; c != nil {
							ok = or(not(c), ok)
						}
						if ok != tTrue && !x.prove(s, ok, 3*time.Second) {
							need = true
							if os.Getenv("GOVER_DEBUG") != "" {
								fmt.Fprintln(os.Stderr, lname, "keeps", j.k, j.r, "for", r, "cond", conds[r])
							}
						}
					}
				}
				if !need {
					delete(mods[j.k], j.r)
				}
			}
			x.facts = x.facts[:nf]
			x.mute--
		}
	}

	// --- candidate invariants (Houdini)
	var cands []candidate
	if x.scout == 0 {
		h := mkHead()
		cands = refCands(h)
		cands = append(cands, x.intCands(fr, l, E, phis, h.st, entryPhi)...)
		for _, m := range x.topMods {
			if m.lo == nil || h.arrs[m.key][m.ref] == nil {
				continue
			}
			m, e := m, sel(E.heap[m.key], m.ref)
			cands = append(cands, candidate{"outside " + m.key, func(st *State) *Term {
				bv := mkBVar("i")
				return forall([]*Term{bv}, or(and(le(m.lo, bv), lt(bv, m.hi)), eq(sel(sel(st.heap[m.key], m.ref), bv), sel(e, bv))))
			}, nil})
		}
	}
	if os.Getenv("GOVER_DEBUG") != "" {
		for _, c := range cands {
			fmt.Fprintln(os.Stderr, lname, "candidate", c.name)
		}
	}
	if len(cands) > 0 {
		var base []candidate
		for _, c := range cands {
			g := c.f(E)
			if g == tTrue || x.prove(E, g, 3*time.Second) {
				base = append(base, c)
			}
		}
		cands = base
	}
	for len(cands) > 0 {
		x.mute++
		nf, nr := len(x.facts), len(fr.rets)
		h := mkHead()
		for _, c := range cands {
			x.fact(h.st, c.f(h.st))
		}
		evalInv(h.st, emAssume, "")
		_, backs := x.region(fr, l.blocks, l.head, []edgeState{{nil, l.head, h.st}}, 1)
		fr.rets = fr.rets[:nr]
		var keep []candidate
		for _, c := range cands {
			good := true
			for _, e := range backs {
				s := x.phis(e)
				g := c.f(s)
				if g != tTrue && !x.prove(s, g, 3*time.Second) {
					good = false
					break
				}
			}
			if good {
				keep = append(keep, c)
			}
		}
		x.facts = x.facts[:nf]
		x.mute--
		if len(keep) == len(cands) {
			break
		}
		cands = keep
		if os.Getenv("GOVER_DEBUG") != "" {
			for _, c := range cands {
				fmt.Fprintln(os.Stderr, lname, "kept", c.name)
			}
		}
	}

	// --- the real pass
	evalInv(E, emCheck, "invariant on entry:")
	h := mkHead()
	for _, c := range cands {
		x.fact(h.st, c.f(h.st))
	}
	// references below the entry counter stay what they were
	m0 := evalInv(h.st, emAssume, "")
	if inv == nil && len(m0) == 0 {
		x.unterm[x.fname+" "+lname] = true
	}
	nr := len(fr.rets)
	exits, backs := x.region(fr, l.blocks, l.head, []edgeState{{nil, l.head, h.st}}, 1)
	nh := x.headFacts
	nb := len(x.facts)
	for _, e := range backs {
		x.facts = append([]*Term{}, x.facts[:nb]...) // what was shown for other paths is of no use on this one
		s := x.phis(e)
		ms := evalInv(s, emCheck, "invariant preserved:")
		for i := range ms {
			if i < len(m0) {
				x.oblig(s, lname+" terminates: measure decreases", pos, and(le(cInt(0), m0[i]), lt(ms[i], m0[i])))
			}
		}
		if inv != nil && len(ms) == 0 {
			x.unterm[x.fname+" "+lname] = true
		}
		// frame
		var keys []string
		for k := range s.heap {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			base, ok := h.st.heap[k]
			if !ok || base == s.heap[k] {
				continue
			}
			conds := storeConds(s.heap[k], base)
			for _, r := range storeRefs(s.heap[k], base) {
				okr := or(le(E.alloc, r), eq(r, cInt(0))) // nil has no memory
				var i *Term
				for m, mi := range mods[k] {
					if mi.whole {
						okr = or(okr, eq(r, m))
						continue
					}
					if i == nil {
						i = fresh("fi", s.heap[k].sort.v.k, nil, nil)
					}
					oki := eq(sel(sel(s.heap[k], r), i), sel(sel(base, r), i))
					for j := range mi.idx {
						oki = or(oki, eq(i, j))
					}
					okr = or(okr, and(eq(r, m), oki))
				}
				if c := conds[r]; c != nil && okr != tTrue {
					okr = or(not(c), okr)
				}
				x.oblig(s, lname+" frame: "+k, pos, okr)
			}
		}
	}
	// what holds within the body is of no use behind the loop, unless it is left from there
	fromHead := len(fr.rets) == nr
	for _, e := range exits {
		fromHead = fromHead && e.from == l.head
	}
	if fromHead {
		x.facts = append([]*Term{}, x.facts[:nh]...)
	}
	return exits
}

func (x *Exec) safeLeaves(v Val, t types.Type) (out []*Term) {
	defer func() {
		if r := recover(); r != nil {
			out = nil
		}
	}()
	if v == nil {
		return nil
	}
	return x.toLeaves(v, t)
}

// storeRefs lists the references written between base and t.
func storeRefs(t, base *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	got := map[*Term]bool{}
	add := func(r *Term) {
		if !got[r] {
			got[r] = true
			out = append(out, r)
		}
	}
	// base without its last stores, and the references of those
	var above [][]*Term
	chain := map[*Term]int{}
	bs := map[*Term]*Term{}
	var refs []*Term
	for b := base; ; b = b.args[0] {
		chain[b] = len(above)
		above = append(above, refs[:len(refs):len(refs)])
		if b.op != oSto {
			break
		}
		if _, ok := bs[b.args[1]]; !ok {
			bs[b.args[1]] = b.args[2]
		}
		refs = append(refs, b.args[1])
	}
	var f func(t *Term)
	f = func(t *Term) {
		if n, ok := chain[t]; ok {
			for _, r := range above[n] {
				add(r)
			}
			return
		}
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case oSto:
			add(t.args[1])
			f(t.args[0])
		case oIte:
			f(t.args[1])
			f(t.args[2])
		}
	}
	f(t)
	// stores already present in base are not new writes unless their value changed
	var res []*Term
	for _, r := range out {
		if v, ok := bs[r]; ok && sel(t, r) == v {
			continue
		}
		res = append(res, r)
	}
	return res
}

// storeConds says under which condition each reference is written between base
// and t.
func storeConds(t, base *Term) map[*Term]*Term {
	out := map[*Term]*Term{}
	chain := map[*Term]bool{}
	for b := base; ; b = b.args[0] {
		chain[b] = true
		if b.op != oSto {
			break
		}
	}
	var order []*Term
	seen := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if !chain[t] {
			switch t.op {
			case oSto:
				f(t.args[0])
			case oIte:
				f(t.args[1])
				f(t.args[2])
			}
		}
		order = append(order, t)
	}
	f(t)
	cond := map[*Term]*Term{t: tTrue}
	put := func(m map[*Term]*Term, k, c *Term) {
		if o, ok := m[k]; ok {
			c = or(o, c)
		}
		m[k] = c
	}
	for i := len(order) - 1; i >= 0; i-- {
		n := order[i]
		c := cond[n]
		if chain[n] {
			// the stores of base above n are undone
			for b := base; b != n; b = b.args[0] {
				put(out, b.args[1], c)
			}
			continue
		}
		switch n.op {
		case oSto:
			put(out, n.args[1], c)
			put(cond, n.args[0], c)
		case oIte:
			put(cond, n.args[1], and(c, n.args[0]))
			put(cond, n.args[2], and(c, not(n.args[0])))
		}
	}
	return out
}

func iteLeaves(t *Term) []*Term {
	if t.op == oIte {
		return append(iteLeaves(t.args[1]), iteLeaves(t.args[2])...)
	}
	return []*Term{t}
}

func mentionsAny(t, v *Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// derivedAlloc: r is an allocation made inside the loop body.
func derivedAlloc(r *Term, E, h *State) bool {
	if r.op == oIte {
		return derivedAlloc(r.args[1], E, h) && derivedAlloc(r.args[2], E, h)
	}
	if mentionsAny(r, h.alloc) {
		return true
	}
	// allocation counters created later than the head
	bad := false
	seen := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == oVar && t.id > h.alloc.id {
			bad = true
		}
		for _, a := range t.args {
			f(a)
		}
	}
	f(r)
	return bad
}

// intCands proposes bounds for loop counters.
func (x *Exec) intCands(fr *frame, l *loop, E *State, phis []*ssa.Phi, H *State, entry map[*ssa.Phi]Val) []candidate {
	var cs []candidate
	for _, p := range phis {
		p := p
		if _, _, _, _, ok := intRange(p.Type()); !ok {
			continue
		}
		e, ok := entry[p].(*Term)
		if !ok {
			continue
		}
		cs = append(cs, candidate{p.Comment + ">=entry", func(st *State) *Term {
			if v, ok := st.env[p].(*Term); ok {
				return le(e, v)
			}
			return tTrue
		}, nil})
	}
	last := l.head.Instrs[len(l.head.Instrs)-1]
	if iff, ok := last.(*ssa.If); ok {
		if bo, ok := iff.Cond.(*ssa.BinOp); ok {
			lhs, rhs := bo.X, bo.Y
			slack := int64(0)
			okop := true
			switch bo.Op {
			case token.LSS:
			case token.LEQ:
				slack = 1
			case token.GTR:
				lhs, rhs = rhs, lhs
			case token.GEQ:
				lhs, rhs = rhs, lhs
				slack = 1
			default:
				okop = false
			}
			if _, _, _, _, isI := intRange(lhs.Type()); okop && isI {
				evalAt := func(st *State) (a, b *Term) {
					defer func() {
						if r := recover(); r != nil {
							a, b = nil, nil
						}
					}()
					x.mute++
					nf := len(x.facts)
					s := st.clone()
					for _, in := range l.head.Instrs {
						switch in.(type) {
						case *ssa.BinOp, *ssa.UnOp, *ssa.Convert, *ssa.FieldAddr:
							x.instr(fr, s, in)
						case *ssa.Call:
							if _, isB := in.(*ssa.Call).Call.Value.(*ssa.Builtin); isB {
								x.instr(fr, s, in)
							}
						}
					}
					a = x.term(s, lhs)
					b = x.term(s, rhs)
					x.facts = x.facts[:nf]
					x.mute--
					return
				}
				cs = append(cs, candidate{"head bound", func(st *State) *Term {
					a, b := evalAt(st)
					if a == nil || b == nil {
						return tTrue
					}
					return le(a, addc(b, slack))
				}, nil})
			}
		}
	}
	return cs
}

// prove asks the first solver quickly.
func (x *Exec) prove(st *State, g *Term, to time.Duration) bool {
	ok := true
	for _, gg := range splitGoal(g) {
		if gg == tTrue {
			continue
		}
		hy := append(x.facts[:len(x.facts):len(x.facts)], x.wfFacts...)
		hy = append(hy, conj(st.pcT())...)
		if gg != tFalse {
			hy = relevant(hy, gg)
		}
		hy = append(hy[:len(hy):len(hy)], x.prog.unfoldX(append(hy[:len(hy):len(hy)], gg), 2, x.c.opaque)...)
		q := render(x.prog, hy, gg)
		t0 := time.Now()
		r, _ := ask(solvers[0], q, to)
		if os.Getenv("GOVER_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "prove", r, time.Since(t0).Milliseconds(), len(q), "case", x.splitNo)
		}
		if r != "unsat" {
			ok = false
			break
		}
	}
	return ok
}

// invArgs binds the parameters of an invariant function by variable name.
func (x *Exec) invArgs(fr *frame, l *loop, st *State, inv *ssa.Function) []Val {
	var out []Val
	used := map[*ssa.Phi]bool{}
	for _, p := range inv.Params {
		v := x.resolve(fr, l, st, p.Name(), p.Type(), used)
		if v == nil {
			// fall back on the only head variable of that type not claimed by name
			var cand []*ssa.Phi
			for _, in := range l.head.Instrs {
				if ph, ok := in.(*ssa.Phi); ok && !used[ph] && types.Identical(ph.Type(), p.Type()) {
					named := false
					for _, q := range inv.Params {
						if q.Name() == ph.Comment {
							named = true
						}
					}
					if !named {
						cand = append(cand, ph)
					}
				}
			}
			if len(cand) == 1 {
				used[cand[0]] = true
				v = st.env[cand[0]]
			}
		}
		if v == nil {
			panic(unsup(fmt.Sprintf("invariant %s: no variable %s", inv.Name(), p.Name())))
		}
		out = append(out, v)
	}
	return out
}

func (x *Exec) resolve(fr *frame, l *loop, st *State, name string, t types.Type, used map[*ssa.Phi]bool) Val {
	if name == "old" && fr.old != nil {
		return fr.old
	}
	for _, in := range l.head.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			if ph.Comment == name && types.Identical(ph.Type(), t) {
				used[ph] = true
				return st.env[ph]
			}
			if name == "it" && ph.Comment == "rangeindex" {
				return addc(st.env[ph].(*Term), 1)
			}
		}
	}
	if no, err := strconv.Atoi(strings.TrimPrefix(name, "it")); err == nil && strings.HasPrefix(name, "it") {
		// the place an enclosing range loop has got to
		for _, o := range x.loopsOf(fr.fn).heads {
			if o.no != no || !o.blocks[l.head] {
				continue
			}
			for _, in := range o.head.Instrs {
				if ph, ok := in.(*ssa.Phi); ok && ph.Comment == "rangeindex" {
					if v, ok := st.env[ph].(*Term); ok {
						return addc(v, 1)
					}
				}
			}
		}
		return nil
	}
	if name == "it" {
		for _, in := range l.head.Instrs {
			if nx, ok := in.(*ssa.Next); ok {
				if iv, ok := st.env[nx.Iter].(IterV); ok {
					return x.iterPos(st, iv)
				}
			}
		}
	}
	type cd struct {
		v    ssa.Value
		addr bool
		b    *ssa.BasicBlock
		n    int
	}
	var best *cd
	consider := func(v ssa.Value, addr bool, b *ssa.BasicBlock, n int) {
		if !b.Dominates(l.head) || b == l.head {
			return
		}
		if _, ok := st.env[v]; !ok {
			if _, isC := v.(*ssa.Const); !isC {
				return
			}
		}
		c := &cd{v, addr, b, n}
		if best == nil || best.b != b && best.b.Dominates(b) || best.b == b && n >= best.n {
			best = c
		}
	}
	for _, b := range fr.fn.Blocks {
		for n, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.DebugRef:
				if o := in.Object(); o != nil && o.Name() == name {
					consider(in.X, in.IsAddr, b, n)
				}
			case *ssa.Phi:
				if in.Comment == name {
					consider(in, false, b, n)
				}
			case *ssa.Alloc:
				if in.Comment == name {
					consider(in, true, b, n)
				}
			}
		}
	}
	if best != nil {
		if best.addr {
			p, ok := x.val(st, best.v).(PtrV)
			if ok {
				pt := best.v.Type().Underlying().(*types.Pointer).Elem()
				if a, isA := under(pt).(*types.Array); isA && len(p.path) == 0 && !types.Identical(p.root, pt) {
					return x.loadArr(st, a, p.ref)
				}
				return x.load(st, p)
			}
		}
		if types.Identical(best.v.Type(), t) {
			return x.val(st, best.v)
		}
	}
	for i, p := range fr.fn.Params {
		if p.Name() == name {
			return fr.params[i]
		}
	}
	if strings.HasSuffix(name, "0") {
		for i, p := range fr.fn.Params {
			if p.Name() == strings.TrimSuffix(name, "0") {
				return fr.params[i]
			}
		}
	}
	return nil
}

// modIdx: which positions of an object a loop changes.
type modIdx struct {
	whole bool
	idx   map[*Term]bool
}

func (m *modIdx) list() []*Term {
	var out []*Term
	for t := range m.idx {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// storeIdxs lists the positions of object r written between base and t.
func storeIdxs(t, base, r *Term) (out []*Term, whole bool) {
	stop := map[*Term]bool{}
	for b := sel(base, r); ; b = b.args[0] {
		stop[b] = true
		if b.op != oSto {
			break
		}
	}
	seen := map[*Term]bool{}
	var f func(a *Term)
	f = func(a *Term) {
		if stop[a] || seen[a] || whole {
			return
		}
		seen[a] = true
		switch a.op {
		case oSto:
			out = append(out, a.args[1])
			f(a.args[0])
		case oIte:
			f(a.args[1])
			f(a.args[2])
		default:
			whole = true
		}
	}
	// every value stored at r along the way
	seenH := map[*Term]bool{}
	for b := base; ; b = b.args[0] {
		seenH[b] = true
		if b.op != oSto {
			break
		}
	}
	var g func(h *Term)
	g = func(h *Term) {
		if seenH[h] {
			return
		}
		seenH[h] = true
		switch h.op {
		case oSto:
			if h.args[1] == r {
				f(h.args[2])
			}
			g(h.args[0])
		case oIte:
			g(h.args[1])
			g(h.args[2])
		}
	}
	g(t)
	return out, whole
}

// newerThan: t mentions a symbol made after mark.
func newerThan(t, mark *Term) bool {
	bad := false
	seen := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] || bad {
			return
		}
		seen[t] = true
		if t.op == oVar && t.id > mark.id && !strings.HasPrefix(t.name, "H0_") {
			bad = true
		}
		for _, a := range t.args {
			f(a)
		}
	}
	f(t)
	return bad
}

// unmoved: the value of p merges different ways into the loop only.
func (l *loop) unmoved(p *ssa.Phi) bool {
	seen := map[ssa.Value]bool{p: true}
	var same func(v ssa.Value) bool
	same = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		q, ok := v.(*ssa.Phi)
		if !ok || !l.blocks[q.Block()] {
			return false
		}
		seen[v] = true
		for _, e := range q.Edges {
			if !same(e) {
				return false
			}
		}
		return true
	}
	for i, b := range l.head.Preds {
		if l.blocks[b] && !same(p.Edges[i]) {
			return false
		}
	}
	return true
}
