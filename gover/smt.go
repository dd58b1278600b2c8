package main

// SMT-LIB rendering of verification conditions and the solver portfolio.

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type printer struct {
	scope []*Term // variables bound around the term being printed

	decls  map[string]string
	order  []string
	defs   []string // define-fun for shared ground subterms
	named  map[*Term]string
	refs   map[*Term]int
	lits   map[string]bool
	ranges []*Term
	seen   map[*Term]bool
	strEqs []*Term // equations with a part of a string
	subs   []*Term // parts of strings
	xfacts []*Term // axioms instantiated for particular applications
	prog   *Prog
}

func newPrinter(p *Prog) *printer {
	return &printer{decls: map[string]string{}, named: map[*Term]string{}, refs: map[*Term]int{}, lits: map[string]bool{}, seen: map[*Term]bool{}, prog: p}
}

func (p *printer) declare(name, d string) {
	if _, ok := p.decls[name]; !ok {
		p.decls[name] = d
		p.order = append(p.order, name)
	}
}

func (p *printer) count(t *Term) {
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	for _, a := range t.args {
		p.count(a)
	}
}

// scan collects range facts and per-application axioms.
func (p *printer) scan(t *Term) {
	if p.seen[t] {
		return
	}
	p.seen[t] = true
	for _, a := range t.args {
		p.scan(a)
	}
	if t.hasB {
		if t.op == oApp {
			p.appAxioms(t)
		}
		return
	}
	if t.sort == sInt && (t.lo != nil || t.hi != nil) && (t.op == oVar || t.op == oSel || t.op == oApp) {
		p.ranges = append(p.ranges, t)
	}
	if t.op == oApp {
		p.appAxioms(t)
		if t.name == "ssub" {
			p.subs = append(p.subs, t)
		}
	}
	if t.op == oEq && t.args[0].sort == sStr {
		p.strEqs = append(p.strEqs, t)
	}
	if t.op == oModX || t.op == oDivX {
		a, b := t.args[0], t.args[1]
		m := mk(oModX, sInt, "", nil, []*Term{a, b}, nil, nil)
		d := mk(oDivX, sInt, "", nil, []*Term{a, b}, nil, nil)
		pos := lt(cInt(0), b)
		na := le(cInt(0), a)
		p.fact(imp(pos, and(le(cInt(0), m), lt(m, b))))
		p.fact(imp(and(pos, na, lt(a, b)), and(eq(m, a), eq(d, cInt(0)))))
		p.fact(imp(and(pos, le(b, a), lt(a, mulc(b, bi(2)))), and(eq(m, sub(a, b)), eq(d, cInt(1)))))
		p.fact(imp(and(pos, na), and(le(m, a), le(cInt(0), d), le(d, a))))
	}
}

func (p *printer) fact(t *Term) {
	if t != tTrue {
		p.xfacts = append(p.xfacts, t)
	}
}

// subFacts: parts of what equals a part are parts of the whole.
func (p *printer) subFacts(done map[string]bool) {
	for _, e := range p.strEqs {
		for i := 0; i < 2; i++ {
			v, w := e.args[i], e.args[1-i]
			if w.op != oApp || w.name != "ssub" || v.op == oApp && v.name == "ssub" {
				continue
			}
			for _, u := range p.subs {
				if u.args[0] != v {
					continue
				}
				k := fmt.Sprintf("%d/%d", w.id, u.id)
				if done[k] {
					continue
				}
				done[k] = true
				s, a, b := w.args[0], w.args[1], w.args[2]
				c, d := u.args[1], u.args[2]
				r := app("ssub", sStr, nil, nil, s, add(a, c), add(a, d))
				p.fact(imp(and(eq(v, w), le(cInt(0), a), le(a, b), le(b, slen(s)), le(cInt(0), c), le(c, d), le(d, sub(b, a))), eq(u, r)))
			}
		}
	}
}

func (p *printer) appAxioms(t *Term) {
	if t.hasB {
		return
	}
	switch t.name {
	case "pow2":
		n := t.args[0]
		hi := int64(64)
		if n.hi != nil && n.hi.Cmp(bi(64)) <= 0 {
			hi = n.hi.Int64()
		}
		for i := int64(0); i <= hi; i++ {
			p.fact(imp(eq(n, cInt(i)), eq(t, cBig(pow2i(int(i))))))
		}
	case "bor":
		a, b := t.args[0], t.args[1]
		p.fact(and(le(a, t), le(b, t), le(t, add(a, b))))
	case "band":
		a, b := t.args[0], t.args[1]
		p.fact(and(le(t, a), le(t, b)))
	case "slen":
		p.fact(imp(eq(t, cInt(0)), eq(t.args[0], slit(""))))
		p.lits[""] = true
	case "sbytes":
	default:
		for _, f := range libAxioms(t) {
			p.fact(f)
		}
	}
}

func (p *printer) intS(k *big.Int) string {
	if k.Sign() < 0 {
		return "(- " + new(big.Int).Neg(k).String() + ")"
	}
	return k.String()
}

func litName(s string) string {
	return "lit_" + fmt.Sprintf("%x", s)
}

func (p *printer) str(t *Term) string {
	if n, ok := p.named[t]; ok {
		return n
	}
	s := p.raw(t)
	if !t.hasB && t.op == oIte && t.sort != sBool {
		// a constant, not a macro: patterns must not expand to if-then-else
		n := fmt.Sprintf("n%d", t.id)
		p.defs = append(p.defs, fmt.Sprintf("(declare-fun %s () %s)\n(assert (= %s %s))", n, t.sort.name, n, s))
		p.named[t] = n
		return n
	}
	if !t.hasB && p.refs[t] > 1 && len(t.args) > 0 && len(s) > 12 {
		n := fmt.Sprintf("n%d", t.id)
		p.defs = append(p.defs, fmt.Sprintf("(define-fun %s () %s %s)", n, t.sort.name, s))
		p.named[t] = n
		return n
	}
	if !t.hasB {
		p.named[t] = s
	}
	return s
}

func (p *printer) nary(op string, ts []*Term) string {
	var b strings.Builder
	b.WriteString("(" + op)
	for _, a := range ts {
		b.WriteByte(' ')
		b.WriteString(p.str(a))
	}
	b.WriteByte(')')
	return b.String()
}

func (p *printer) raw(t *Term) string {
	switch t.op {
	case oConst:
		return p.intS(t.k)
	case oTrue:
		return "true"
	case oFalse:
		return "false"
	case oVar:
		p.declare(t.name, fmt.Sprintf("(declare-fun %s () %s)", t.name, t.sort.name))
		return t.name
	case oBVar:
		return t.name
	case oLit:
		n := litName(t.name)
		p.lits[t.name] = true
		p.declare(n, fmt.Sprintf("(declare-fun %s () Str)", n))
		return n
	case oLin:
		var b strings.Builder
		n := 0
		for i, a := range t.args {
			b.WriteByte(' ')
			if t.coefs[i].Cmp(bi1) == 0 {
				b.WriteString(p.str(a))
			} else {
				fmt.Fprintf(&b, "(* %s %s)", p.intS(t.coefs[i]), p.str(a))
			}
			n++
		}
		if t.k.Sign() != 0 {
			b.WriteString(" " + p.intS(t.k))
			n++
		}
		if n == 1 {
			return b.String()[1:]
		}
		return "(+" + b.String() + ")"
	case oMul:
		return p.nary("*", t.args)
	case oDiv:
		return fmt.Sprintf("(div %s %s)", p.str(t.args[0]), p.intS(t.k))
	case oMod:
		return fmt.Sprintf("(mod %s %s)", p.str(t.args[0]), p.intS(t.k))
	case oDivX:
		p.declare("idiv", "(declare-fun idiv (Int Int) Int)")
		return p.nary("idiv", t.args)
	case oModX:
		p.declare("imod", "(declare-fun imod (Int Int) Int)")
		return p.nary("imod", t.args)
	case oIte:
		return p.nary("ite", t.args)
	case oEq:
		return p.nary("=", t.args)
	case oLe:
		// print  lin <= 0  as  pos <= neg
		d := t.args[0]
		l, r := newLin(), newLin()
		if d.op == oLin {
			for i, a := range d.args {
				if d.coefs[i].Sign() > 0 {
					l.add1(a, d.coefs[i])
				} else {
					r.add1(a, new(big.Int).Neg(d.coefs[i]))
				}
			}
			if d.k.Sign() > 0 {
				l.k.Set(d.k)
			} else {
				r.k.Neg(d.k)
			}
			return "(<= " + p.raw0(l.term()) + " " + p.raw0(r.term()) + ")"
		}
		return "(<= " + p.str(d) + " 0)"
	case oNot:
		return p.nary("not", t.args)
	case oAnd:
		return p.nary("and", t.args)
	case oOr:
		return p.nary("or", t.args)
	case oSel:
		return p.nary("select", t.args)
	case oSto:
		return p.nary("store", t.args)
	case oKArr:
		return fmt.Sprintf("((as const %s) %s)", t.sort.name, p.str(t.args[0]))
	case oCat:
		p.declare("scat", "(declare-fun scat (Str Str) Str)")
		s := p.str(t.args[len(t.args)-1])
		for i := len(t.args) - 2; i >= 0; i-- {
			s = "(scat " + p.str(t.args[i]) + " " + s + ")"
		}
		return s
	case oApp:
		if t.sort == sFuel {
			p.declare("ZF", "(declare-sort Fuel 0)\n(declare-fun ZF () Fuel)\n(declare-fun SF (Fuel) Fuel)")
			if len(t.args) == 0 {
				return t.name
			}
			return p.nary(t.name, t.args)
		}
		n := sanitize(t.name)
		var as []string
		for _, a := range t.args {
			as = append(as, a.sort.name)
			if a.sort == sFuel {
				p.str(a)
			}
		}
		p.declare(n, fmt.Sprintf("(declare-fun %s (%s) %s)", n, strings.Join(as, " "), t.sort.name))
		if len(t.args) == 0 {
			return n
		}
		return p.nary(n, t.args)
	case oForall:
		return p.quant(t)
	}
	panic("smt: " + t.String())
}

// raw0 renders a linear term that was made for printing only.
func (p *printer) raw0(t *Term) string {
	if _, ok := p.refs[t]; ok {
		return p.str(t)
	}
	return p.raw(t)
}

type trig struct {
	t *Term
	c *Term // index offset: trigger mentions bv + c
}

// triggers finds subterms usable as patterns for bv.
func triggers(body, bv *Term, scope []*Term) []trig {
	var out []trig
	seen := map[*Term]bool{}
	var inner func(t *Term)
	offOf := func(t *Term) (*Term, bool) {
		if t == bv {
			return cInt(0), true
		}
		if t.op == oLin {
			for i, a := range t.args {
				if a == bv {
					if t.coefs[i].Cmp(bi1) != 0 {
						return nil, false
					}
					c := sub(t, bv)
					if c.hasB && mentions(c, bv) {
						return nil, false
					}
					return c, true
				}
			}
		}
		return nil, false
	}
	inner = func(t *Term) {
		if seen[t] || !t.hasB || !mentions(t, bv) {
			return
		}
		seen[t] = true
		if t.op == oForall {
			inner(t.args[0])
			return
		}
		for _, a := range t.args {
			inner(a)
		}
		var c *Term
		switch t.op {
		case oSel, oApp:
			if t.op == oApp && t.sort == sFuel {
				return
			}
			for _, a := range t.args {
				if !mentions(a, bv) {
					continue
				}
				o, ok := offOf(a)
				if !ok {
					return
				}
				if c == nil {
					c = o
				} else if c != o {
					return
				}
			}
			if c != nil && !badPat(t, bv, scope) {
				out = append(out, trig{t, c})
			}
		}
	}
	inner(body)
	return out
}

// badPat rejects patterns that contain logical structure or other bound variables.
func badPat(t, bv *Term, scope []*Term) bool {
	bad := false
	seen := map[*Term]bool{}
	var f func(t *Term, top bool)
	f = func(t *Term, top bool) {
		if seen[t] || bad {
			return
		}
		seen[t] = true
		if !t.hasB && !top {
			return
		}
		switch t.op {
		case oIte, oAnd, oOr, oNot, oEq, oLe, oForall, oSto:
			bad = true
		case oBVar:
			if t != bv {
				bad = true
				for _, o := range scope {
					if o == t {
						bad = false
					}
				}
			}
		}
		for _, a := range t.args {
			f(a, false)
		}
	}
	f(t, true)
	return bad
}

func mentions(t, bv *Term) bool {
	if t == bv {
		return true
	}
	if !t.hasB {
		return false
	}
	for _, a := range t.args {
		if mentions(a, bv) {
			return true
		}
	}
	return false
}

func (p *printer) quant(t *Term) string {
	bv := t.bvs[0]
	body := t.args[0]
	ts := triggers(body, bv, p.scope)
	if len(t.args) > 1 {
		var only []trig
		for _, m := range t.args[1:] {
			if gs := triggers(m, bv, p.scope); len(gs) > 0 {
				only = append(only, gs[len(gs)-1])
			}
		}
		if len(only) > 0 {
			ts = only
		}
	}
	p.scope = append(p.scope, bv)
	defer func() { p.scope = p.scope[:len(p.scope)-1] }()
	var pick []trig
	used := map[*Term]bool{}
	for _, g := range ts {
		k := g.t
		if g.c != nil {
			k = subst(g.t, map[*Term]*Term{bv: sub(bv, g.c)})
		}
		if used[k] {
			continue
		}
		used[k] = true
		pick = append(pick, g)
		if len(pick) >= 6 {
			break
		}
	}
	if len(pick) == 0 {
		return fmt.Sprintf("(forall ((%s %s)) %s)", bv.name, bv.sort.name, p.str(body))
	}
	// group by offset so that one quantifier carries all alternatives with the same shift
	var parts []string
	done := map[*Term]bool{}
	for _, g := range pick {
		if done[g.c] {
			continue
		}
		done[g.c] = true
		m := map[*Term]*Term{bv: sub(bv, g.c)}
		b := body
		if g.c != cInt(0) {
			b = subst(body, m)
		}
		if b == tTrue {
			continue
		}
		var pats []string
		for _, h := range pick {
			if h.c == g.c {
				pt := h.t
				if g.c != cInt(0) {
					pt = subst(h.t, m)
				}
				pats = append(pats, ":pattern ("+p.str(pt)+")")
			}
		}
		parts = append(parts, fmt.Sprintf("(forall ((%s %s)) (! %s %s))", bv.name, bv.sort.name, p.str(b), strings.Join(pats, " ")))
	}
	if len(parts) == 0 {
		return "true"
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(and " + strings.Join(parts, " ") + ")"
}

const strPrelude = `(declare-sort Str 0)
`

// render makes a query asserting the hypotheses and the negated goal.
func render(prog *Prog, hyps []*Term, goal *Term) string {
	p := newPrinter(prog)
	ng := not(goal)
	all := append(append([]*Term{}, hyps...), ng)
	for _, h := range all {
		p.scan(h)
	}
	// facts may mention new terms: close
	for done := map[string]bool{}; ; {
		for i := 0; i < len(p.xfacts); i++ {
			p.scan(p.xfacts[i])
		}
		n := len(p.xfacts)
		p.subFacts(done)
		if len(p.xfacts) == n {
			break
		}
	}
	for _, h := range all {
		p.count(h)
	}
	for _, h := range p.xfacts {
		p.count(h)
	}
	var body []string
	for _, h := range all {
		body = append(body, "(assert "+p.str(h)+")")
	}
	for _, h := range p.xfacts {
		body = append(body, "(assert "+p.str(h)+")")
	}
	for _, t := range p.ranges {
		s := p.str(t)
		if t.lo != nil {
			body = append(body, fmt.Sprintf("(assert (<= %s %s))", p.intS(t.lo), s))
		}
		if t.hi != nil {
			body = append(body, fmt.Sprintf("(assert (<= %s %s))", s, p.intS(t.hi)))
		}
	}
	// string literals
	var ls []string
	for l := range p.lits {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	var extra []string
	if _, ok := p.decls["scat"]; ok {
		// how literals are put together from one another
		orig := append([]string{}, ls...)
		for i := 0; i < len(ls) && len(ls) < 400; i++ {
			for _, y := range orig {
				for _, suf := range []bool{false, true} {
					if y == "" || len(y) >= len(ls[i]) || suf && !strings.HasSuffix(ls[i], y) || !suf && !strings.HasPrefix(ls[i], y) {
						continue
					}
					a, b := y, ls[i][len(y):]
					if suf {
						a, b = ls[i][:len(ls[i])-len(y)], y
					}
					for _, r := range []string{a, b} {
						if !p.lits[r] {
							p.lits[r] = true
							ls = append(ls, r)
						}
					}
					extra = append(extra, fmt.Sprintf("(assert (= %s (scat %s %s)))", litName(ls[i]), litName(a), litName(b)))
				}
			}
		}
	}
	for _, l := range ls {
		p.declare(litName(l), fmt.Sprintf("(declare-fun %s () Str)", litName(l)))
	}
	if len(ls) > 1 {
		var ns []string
		for _, l := range ls {
			ns = append(ns, litName(l))
		}
		extra = append(extra, "(assert (distinct "+strings.Join(ns, " ")+"))")
	}
	if _, ok := p.decls["slen"]; ok {
		for _, l := range ls {
			extra = append(extra, fmt.Sprintf("(assert (= (slen %s) %d))", litName(l), len(l)))
		}
	}
	if _, ok := p.decls["sat"]; ok {
		for _, l := range ls {
			if len(l) <= 2 {
				for i := range []byte(l) {
					extra = append(extra, fmt.Sprintf("(assert (= (sat %s %d) %d))", litName(l), i, l[i]))
				}
			}
		}
	}
	_, hasSat := p.decls["sat"]
	if _, ok := p.decls["bstr"]; ok && hasSat {
		extra = append(extra,
			"(assert (forall ((a (Array Int Int)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (sat (bstr a o n) i) (select a (+ o i)))) :pattern ((sat (bstr a o n) i)))))")
	}
	if _, ok := p.decls["sbytes"]; ok && hasSat {
		extra = append(extra,
			"(assert (forall ((s Str) (i Int)) (! (= (select (sbytes s) i) (sat s i)) :pattern ((select (sbytes s) i)))))")
	}
	if _, ok := p.decls["scat"]; ok && hasSat {
		p.declare("slen", "(declare-fun slen (Str) Int)")
		extra = append(extra,
			"(assert (forall ((a Str) (b Str) (i Int)) (! (= (sat (scat a b) i) (ite (< i (slen a)) (sat a i) (sat b (- i (slen a))))) :pattern ((sat (scat a b) i)))))")
	}
	if _, ok := p.decls["scat"]; ok && p.decls["slen"] != "" {
		extra = append(extra,
			"(assert (forall ((a Str) (b Str)) (! (= (slen (scat a b)) (+ (slen a) (slen b))) :pattern ((slen (scat a b))))))",
			"(assert (forall ((a Str) (b Str)) (! (= (slen (scat a b)) (+ (slen a) (slen b))) :pattern ((scat a b)))))")
	}
	if _, ok := p.decls["scat"]; ok {
		extra = append(extra,
			"(assert (forall ((a Str) (b Str) (c Str)) (! (= (scat (scat a b) c) (scat a (scat b c))) :pattern ((scat (scat a b) c)))))")
		if p.lits[""] {
			e := litName("")
			extra = append(extra, fmt.Sprintf("(assert (forall ((a Str)) (! (= (scat a %s) a) :pattern ((scat a %s)))))", e, e),
				fmt.Sprintf("(assert (forall ((a Str)) (! (= (scat %s a) a) :pattern ((scat %s a)))))", e, e))
		}
	}
	var b strings.Builder
	b.WriteString(strPrelude)
	for _, n := range p.order {
		b.WriteString(p.decls[n])
		b.WriteByte('\n')
	}
	for _, d := range p.defs {
		b.WriteString(d)
		b.WriteByte('\n')
	}
	for _, d := range body {
		b.WriteString(d)
		b.WriteByte('\n')
	}
	for _, d := range extra {
		b.WriteString(d)
		b.WriteByte('\n')
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

// ---- solvers

type solverSpec struct {
	name string
	argv []string
	pre  string
}

var solvers = []solverSpec{
	{"z3-5.3.2", []string{"z3-new", "-smt2"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.random_seed 1)\n"},
	{"cvc5-1.1.2", []string{"cvc5", "--lang=smt2", "-q"}, "(set-logic ALL)\n"},
	{"z3-4.8.12", []string{"z3", "-smt2"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"},
	{"z3-5.3.2-arith2", []string{"z3-new", "-smt2"}, "(set-option :smt.arith.solver 2)\n(set-option :smt.random_seed 7)\n"},
}

var (
	statTime    = map[string]time.Duration{}
	statCount   = map[string]int{}
	statMu      sync.Mutex
	queryNo     int64
	dumpDir     string
	solverSlots = make(chan struct{}, 8)
)

// ask runs one solver on a query; result is "unsat", "sat", "unknown" or "timeout".
func ask(s solverSpec, q string, timeout time.Duration) (string, string) {
	return askCtx(context.Background(), s, q, timeout)
}

func askCtx(ctx context.Context, s solverSpec, q string, timeout time.Duration) (string, string) {
	select {
	case solverSlots <- struct{}{}:
	case <-ctx.Done():
		return "timeout", ""
	}
	defer func() { <-solverSlots }()
	ctx, cancel := context.WithTimeout(ctx, timeout+2*time.Second)
	defer cancel()
	args := append([]string{}, s.argv[1:]...)
	if strings.HasPrefix(s.argv[0], "z3") {
		args = append(args, fmt.Sprintf("-t:%d", timeout.Milliseconds()), "-memory:4000", "-in")
	} else {
		args = append(args, fmt.Sprintf("--tlimit=%d", timeout.Milliseconds()), "-")
	}
	cmd := exec.CommandContext(ctx, s.argv[0], args...)
	cmd.Stdin = strings.NewReader(s.pre + q)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	d := time.Since(t0)
	statMu.Lock()
	statTime[s.name] += d
	statMu.Unlock()
	res := strings.TrimSpace(out.String())
	for strings.HasPrefix(res, "WARNING") {
		i := strings.IndexByte(res, '\n')
		if i < 0 {
			res = ""
			break
		}
		res = strings.TrimSpace(res[i:])
	}
	first := res
	if i := strings.IndexByte(res, '\n'); i >= 0 {
		first = res[:i]
	}
	if dumpDir != "" {
		n := atomic.AddInt64(&queryNo, 1)
		os.WriteFile(filepath.Join(dumpDir, fmt.Sprintf("q%05d_%s_%s.smt2", n, s.name, sanitize(first))), []byte(s.pre+q), 0o644)
	}
	switch first {
	case "unsat", "sat", "unknown":
	default:
		if strings.Contains(res, "error") {
			return "error", res
		}
		first = "timeout"
	}
	return first, res
}

// askBatch runs one solver on several independent queries.
func askBatch(s solverSpec, qs []string, timeout time.Duration) []string {
	out := make([]string, len(qs))
	if len(qs) == 1 {
		out[0], _ = ask(s, qs[0], timeout)
		return out
	}
	solverSlots <- struct{}{}
	defer func() { <-solverSlots }()
	var b strings.Builder
	for i, q := range qs {
		if i > 0 {
			b.WriteString("(reset)\n")
		}
		b.WriteString(s.pre)
		fmt.Fprintf(&b, "(set-option :timeout %d)\n", timeout.Milliseconds())
		b.WriteString(q)
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(len(qs))*timeout+5*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, s.argv[0], append(append([]string{}, s.argv[1:]...), "-memory:4000", "-in")...)
	cmd.Stdin = strings.NewReader(b.String())
	var buf bytes.Buffer
	cmd.Stdout = &buf
	t0 := time.Now()
	cmd.Run()
	d := time.Since(t0)
	statMu.Lock()
	statTime[s.name] += d
	statMu.Unlock()
	// an error line desynchronises the answers: discard everything then
	var ls []string
	for _, l := range strings.Split(strings.TrimSpace(buf.String()), "\n") {
		if !strings.HasPrefix(l, "WARNING") {
			ls = append(ls, l)
		}
	}
	ok := len(ls) == len(qs)
	for _, l := range ls {
		switch strings.TrimSpace(l) {
		case "sat", "unsat", "unknown", "timeout":
		default:
			ok = false
		}
	}
	for i := range qs {
		if ok {
			out[i] = strings.TrimSpace(ls[i])
		} else {
			out[i] = "unknown"
		}
	}
	return out
}
