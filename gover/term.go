package main

// Hash-consed terms over mathematical integers, booleans, opaque strings,
// arrays and uninterpreted functions, with an aggressive local simplifier.
// Machine integers are mathematical integers kept in range by explicit
// wrap-around terms (see wrap in mem.go): no arithmetic is idealised.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort struct {
	name string // SMT-LIB text
	k, v *Sort  // arrays
}

var (
	sInt   = &Sort{name: "Int"}
	sBool  = &Sort{name: "Bool"}
	sStr   = &Sort{name: "Str"}
	sFuel  = &Sort{name: "Fuel"}
	arrTab = map[string]*Sort{}
)

func sArr(k, v *Sort) *Sort {
	n := "(Array " + k.name + " " + v.name + ")"
	if s, ok := arrTab[n]; ok {
		return s
	}
	s := &Sort{name: n, k: k, v: v}
	arrTab[n] = s
	return s
}

type Op uint8

const (
	oConst Op = iota // integer constant
	oTrue
	oFalse
	oVar    // free constant
	oBVar   // bound variable
	oLin    // sum coefs[i]*args[i] + k
	oMul    // nonlinear product
	oDiv    // floor division by positive constant k
	oMod    // modulus by positive constant k
	oDivX   // euclidean division by a term
	oModX   // euclidean modulus by a term
	oIte    //
	oEq     //
	oLe     // args[0] <= 0
	oNot    //
	oAnd    //
	oOr     //
	oSel    //
	oSto    //
	oKArr   // constant array
	oApp    // uninterpreted function application
	oLit    // string literal
	oCat    // string concatenation
	oForall // args[0]: body ; bvs bound variables
)

type Term struct {
	op    Op
	sort  *Sort
	args  []*Term
	coefs []*big.Int
	k     *big.Int
	name  string
	bvs   []*Term
	id    int
	lo    *big.Int
	hi    *big.Int
	hasB  bool // contains a bound variable
	tzero int  // number of known trailing zero bits
}

var (
	termTab = map[string]*Term{}
	termSeq int
	bi0     = big.NewInt(0)
	bi1     = big.NewInt(1)
)

func bi(n int64) *big.Int { return big.NewInt(n) }
func pow2i(n int) *big.Int {
	return new(big.Int).Lsh(bi1, uint(n))
}

func key(op Op, s *Sort, name string, k *big.Int, args []*Term, coefs []*big.Int, bvs []*Term) string {
	var b strings.Builder
	b.WriteByte(byte(op) + 33)
	b.WriteString(s.name)
	b.WriteByte('|')
	b.WriteString(name)
	if k != nil {
		b.WriteByte('#')
		b.WriteString(k.String())
	}
	for i, a := range args {
		b.WriteByte(',')
		if coefs != nil {
			b.WriteString(coefs[i].String())
			b.WriteByte('*')
		}
		fmt.Fprintf(&b, "%d", a.id)
	}
	for _, a := range bvs {
		fmt.Fprintf(&b, "!%d", a.id)
	}
	return b.String()
}

func mk(op Op, s *Sort, name string, k *big.Int, args []*Term, coefs []*big.Int, bvs []*Term) *Term {
	ky := key(op, s, name, k, args, coefs, bvs)
	if t, ok := termTab[ky]; ok {
		return t
	}
	termSeq++
	t := &Term{op: op, sort: s, args: args, coefs: coefs, k: k, name: name, bvs: bvs, id: termSeq}
	t.hasB = op == oBVar
	for _, a := range args {
		if a.hasB {
			t.hasB = true
		}
	}
	if op == oForall && t.hasB {
		t.hasB = freeBVar(args[0], bvs)
	}
	termTab[ky] = t
	t.bounds()
	return t
}

// freeBVar reports whether t mentions a bound variable outside bvs.
func freeBVar(t *Term, bvs []*Term) bool {
	seen := map[*Term]bool{}
	bound := map[*Term]int{}
	for _, b := range bvs {
		bound[b]++
	}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if !t.hasB || seen[t] {
			return false
		}
		if t.op == oBVar {
			return bound[t] == 0
		}
		if t.op == oForall {
			for _, b := range t.bvs {
				bound[b]++
			}
			r := f(t.args[0])
			for _, b := range t.bvs {
				bound[b]--
			}
			return r
		}
		seen[t] = true
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

func minB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func (t *Term) bounds() {
	if t.sort != sInt {
		return
	}
	switch t.op {
	case oConst:
		t.lo, t.hi = t.k, t.k
		if t.k.Sign() == 0 {
			t.tzero = 4096
		} else {
			t.tzero = int(new(big.Int).Abs(t.k).TrailingZeroBits())
		}
	case oLin:
		lo, hi := new(big.Int).Set(t.k), new(big.Int).Set(t.k)
		tz := 4096
		if t.k.Sign() != 0 {
			tz = int(new(big.Int).Abs(t.k).TrailingZeroBits())
		}
		for i, a := range t.args {
			c := t.coefs[i]
			al, ah := a.lo, a.hi
			if c.Sign() < 0 {
				al, ah = ah, al
			}
			if al == nil {
				lo = nil
			} else if lo != nil {
				lo.Add(lo, new(big.Int).Mul(c, al))
			}
			if ah == nil {
				hi = nil
			} else if hi != nil {
				hi.Add(hi, new(big.Int).Mul(c, ah))
			}
			z := a.tzero + int(new(big.Int).Abs(c).TrailingZeroBits())
			if z < tz {
				tz = z
			}
		}
		t.lo, t.hi, t.tzero = lo, hi, tz
	case oMul:
		a, b := t.args[0], t.args[1]
		if a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
			t.lo = new(big.Int).Mul(a.lo, b.lo)
			if a.hi != nil && b.hi != nil {
				t.hi = new(big.Int).Mul(a.hi, b.hi)
			}
		} else if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
			for i, x := range []*big.Int{new(big.Int).Mul(a.lo, b.lo), new(big.Int).Mul(a.lo, b.hi), new(big.Int).Mul(a.hi, b.lo), new(big.Int).Mul(a.hi, b.hi)} {
				if i == 0 {
					t.lo, t.hi = x, x
				} else {
					t.lo, t.hi = minB(t.lo, x), maxB(t.hi, x)
				}
			}
		}
		t.tzero = a.tzero + b.tzero
	case oDiv:
		a := t.args[0]
		if a.lo != nil {
			t.lo = floorDiv(a.lo, t.k)
		}
		if a.hi != nil {
			t.hi = floorDiv(a.hi, t.k)
		}
		if n := pow2exp(t.k); n >= 0 && a.tzero > n {
			t.tzero = a.tzero - n
		}
	case oMod:
		t.lo, t.hi = bi0, new(big.Int).Sub(t.k, bi1)
		a := t.args[0]
		if a.lo != nil && a.lo.Sign() >= 0 && a.hi != nil && a.hi.Cmp(t.hi) < 0 {
			t.hi = a.hi
		}
		if n := pow2exp(t.k); n >= 0 {
			t.tzero = a.tzero
			if t.tzero > n {
				t.tzero = 4096
			}
		}
	case oIte:
		t.lo, t.hi = minB(t.args[1].lo, t.args[2].lo), maxB(t.args[1].hi, t.args[2].hi)
		t.tzero = t.args[1].tzero
		if t.args[2].tzero < t.tzero {
			t.tzero = t.args[2].tzero
		}
	case oVar, oBVar, oApp, oSel:
		// set by creators
	case oDivX:
		a, b := t.args[0], t.args[1]
		if a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() >= 0 {
			t.lo, t.hi = bi0, a.hi
		}
	case oModX:
		a, b := t.args[0], t.args[1]
		if b.lo != nil && b.lo.Sign() > 0 {
			t.lo, t.hi = bi0, b.hi
			if a.lo != nil && a.lo.Sign() >= 0 {
				t.hi = b.hi
				if a.hi != nil && (t.hi == nil || a.hi.Cmp(t.hi) < 0) {
					t.hi = a.hi
				}
			}
		}
	}
}

func pow2exp(k *big.Int) int {
	if k.Sign() <= 0 {
		return -1
	}
	n := int(k.TrailingZeroBits())
	if pow2i(n).Cmp(k) == 0 {
		return n
	}
	return -1
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m) // euclidean, b>0 -> floor
	return q
}

// ---- constructors

var tTrue = mk(oTrue, sBool, "", nil, nil, nil, nil)
var tFalse = mk(oFalse, sBool, "", nil, nil, nil, nil)

func cBig(k *big.Int) *Term { return mk(oConst, sInt, "", k, nil, nil, nil) }
func cInt(k int64) *Term    { return cBig(bi(k)) }
func cBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

var varSeq int

func freshName(p string) string {
	varSeq++
	return fmt.Sprintf("%s!%d", sanitize(p), varSeq)
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' || r == '@' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

// mkVar makes a free constant; lo/hi (may be nil) are type facts emitted with the VC.
func mkVar(name string, s *Sort, lo, hi *big.Int) *Term {
	t := mk(oVar, s, name, nil, nil, nil, nil)
	if s == sInt && (lo != nil || hi != nil) {
		t.lo, t.hi = lo, hi
	}
	return t
}
func fresh(p string, s *Sort, lo, hi *big.Int) *Term { return mkVar(freshName(p), s, lo, hi) }

func mkBVar(p string) *Term {
	return mk(oBVar, sInt, freshName("q_"+p), nil, nil, nil, nil)
}

func isC(t *Term) bool { return t.op == oConst }

type linForm struct {
	m map[*Term]*big.Int
	k *big.Int
}

func (l *linForm) add(t *Term, c *big.Int) {
	switch t.op {
	case oConst:
		l.k.Add(l.k, new(big.Int).Mul(c, t.k))
	case oLin:
		l.k.Add(l.k, new(big.Int).Mul(c, t.k))
		for i, a := range t.args {
			l.add1(a, new(big.Int).Mul(c, t.coefs[i]))
		}
	default:
		l.add1(t, c)
	}
}
func (l *linForm) add1(t *Term, c *big.Int) {
	if o, ok := l.m[t]; ok {
		s := new(big.Int).Add(o, c)
		if s.Sign() == 0 {
			delete(l.m, t)
		} else {
			l.m[t] = s
		}
	} else if c.Sign() != 0 {
		l.m[t] = new(big.Int).Set(c)
	}
}
func newLin() *linForm { return &linForm{m: map[*Term]*big.Int{}, k: new(big.Int)} }
func (l *linForm) term() *Term {
	if len(l.m) == 0 {
		return cBig(l.k)
	}
	ts := make([]*Term, 0, len(l.m))
	for t := range l.m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	if len(ts) == 1 && l.k.Sign() == 0 && l.m[ts[0]].Cmp(bi1) == 0 {
		return ts[0]
	}
	cs := make([]*big.Int, len(ts))
	for i, t := range ts {
		cs[i] = l.m[t]
	}
	// fuse  d*(x div d) + (x mod d)  ->  x
	for _, t := range ts {
		if t.op == oMod {
			d := mk(oDiv, sInt, "", t.k, t.args, nil, nil)
			cm := l.m[t]
			if cd, ok := l.m[d]; ok && new(big.Int).Mul(cm, t.k).Cmp(cd) == 0 {
				n := newLin()
				n.k.Set(l.k)
				for u, c := range l.m {
					if u != t && u != d {
						n.add1(u, c)
					}
				}
				n.add(t.args[0], cm)
				return n.term()
			}
		}
	}
	return mk(oLin, sInt, "", new(big.Int).Set(l.k), ts, cs, nil)
}

func add(a, b *Term) *Term {
	l := newLin()
	l.add(a, bi1)
	l.add(b, bi1)
	return l.term()
}
func sub(a, b *Term) *Term {
	l := newLin()
	l.add(a, bi1)
	l.add(b, bi(-1))
	return l.term()
}
func addc(a *Term, c int64) *Term { return add(a, cInt(c)) }
func neg(a *Term) *Term           { return sub(cInt(0), a) }
func mulc(a *Term, c *big.Int) *Term {
	if c.Sign() == 0 {
		return cInt(0)
	}
	l := newLin()
	l.add(a, c)
	return l.term()
}
func mul(a, b *Term) *Term {
	if isC(a) {
		return mulc(b, a.k)
	}
	if isC(b) {
		return mulc(a, b.k)
	}
	// distribute over ite with constant leaves
	if a.op == oIte && constLeaves(a, 6) {
		return ite(a.args[0], mul(a.args[1], b), mul(a.args[2], b))
	}
	if b.op == oIte && constLeaves(b, 6) {
		return ite(b.args[0], mul(a, b.args[1]), mul(a, b.args[2]))
	}
	if a.op == oLin || b.op == oLin {
		if a.op != oLin || (b.op == oLin && b.id < a.id) {
			a, b = b, a
		}
		r := mulc(b, a.k)
		for i, x := range a.args {
			r = add(r, mulc(mul(x, b), a.coefs[i]))
		}
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(oMul, sInt, "", nil, []*Term{a, b}, nil, nil)
}

func constLeaves(t *Term, n int) bool {
	if isC(t) {
		return true
	}
	if n > 0 && t.op == oIte {
		return constLeaves(t.args[1], n-1) && constLeaves(t.args[2], n-1)
	}
	return false
}

// divc is floor division by a positive constant.
func divc(a *Term, k *big.Int) *Term {
	if k.Cmp(bi1) == 0 {
		return a
	}
	if isC(a) {
		return cBig(floorDiv(a.k, k))
	}
	if a.lo != nil && a.hi != nil {
		l, h := floorDiv(a.lo, k), floorDiv(a.hi, k)
		if l.Cmp(h) == 0 {
			return cBig(l)
		}
	}
	if a.op == oDiv {
		return divc(a.args[0], new(big.Int).Mul(a.k, k))
	}
	if a.op == oIte && constLeaves(a, 6) {
		return ite(a.args[0], divc(a.args[1], k), divc(a.args[2], k))
	}
	if a.op == oLin {
		in, out := newLin(), newLin()
		for i, x := range a.args {
			q, m := new(big.Int).DivMod(a.coefs[i], k, new(big.Int))
			if m.Sign() == 0 {
				out.add1(x, q)
			} else {
				in.add1(x, a.coefs[i])
			}
		}
		q, m := new(big.Int).DivMod(a.k, k, new(big.Int))
		out.k.Add(out.k, q)
		in.k.Add(in.k, m)
		if len(out.m) > 0 || out.k.Sign() != 0 {
			return add(out.term(), divc(in.term(), k))
		}
		// common power of two factor between coefficients and k
		g := new(big.Int).Set(k)
		for _, c := range a.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if g.Cmp(bi1) > 0 {
			// floor((g*X + r)/ (g*k')) = floor((X + floor(r/g))/k')
			l := newLin()
			for i, x := range a.args {
				l.add1(x, new(big.Int).Div(a.coefs[i], g))
			}
			l.k.Set(floorDiv(a.k, g))
			return divc(l.term(), new(big.Int).Div(k, g))
		}
		// drop low part: X = hiPart + loPart with hiPart multiple of 2^s and 0<=lo<2^s where 2^s | k
		if n := pow2exp(k); n > 0 {
			hiL, loL := newLin(), newLin()
			for s := n; s > 0; s-- {
				hiL, loL = newLin(), newLin()
				ok := true
				loLo, loHi := new(big.Int), new(big.Int)
				km := new(big.Int).Mod(a.k, pow2i(s))
				hiL.k.Sub(a.k, km)
				loL.k.Set(km)
				loLo.Set(km)
				loHi.Set(km)
				for i, x := range a.args {
					if x.tzero+int(new(big.Int).Abs(a.coefs[i]).TrailingZeroBits()) >= s {
						hiL.add1(x, a.coefs[i])
						continue
					}
					loL.add1(x, a.coefs[i])
					if x.lo == nil || x.hi == nil {
						ok = false
						break
					}
					p, q := new(big.Int).Mul(a.coefs[i], x.lo), new(big.Int).Mul(a.coefs[i], x.hi)
					if p.Cmp(q) > 0 {
						p, q = q, p
					}
					loLo.Add(loLo, p)
					loHi.Add(loHi, q)
				}
				if ok && len(loL.m) > 0 && len(hiL.m) > 0 && loLo.Sign() >= 0 && loHi.Cmp(pow2i(s)) < 0 {
					return divc(hiL.term(), k)
				}
			}
		}
	}
	return mk(oDiv, sInt, "", k, []*Term{a}, nil, nil)
}

// modc is the modulus by a positive constant.
func modc(a *Term, k *big.Int) *Term {
	if k.Cmp(bi1) == 0 {
		return cInt(0)
	}
	if isC(a) {
		return cBig(new(big.Int).Mod(a.k, k))
	}
	if a.lo != nil && a.hi != nil {
		l, h := floorDiv(a.lo, k), floorDiv(a.hi, k)
		if l.Cmp(h) == 0 {
			return sub(a, cBig(new(big.Int).Mul(l, k)))
		}
	}
	if a.op == oMod {
		if new(big.Int).Mod(a.k, k).Sign() == 0 {
			return modc(a.args[0], k)
		}
	}
	if a.op == oIte && constLeaves(a, 6) {
		return ite(a.args[0], modc(a.args[1], k), modc(a.args[2], k))
	}
	if n := pow2exp(k); n >= 0 && a.tzero >= n {
		return cInt(0)
	}
	if a.op == oLin {
		l := newLin()
		ch := false
		for i, x := range a.args {
			m := new(big.Int).Mod(a.coefs[i], k)
			if m.Cmp(a.coefs[i]) != 0 {
				ch = true
			}
			if m.Sign() != 0 {
				// (c*(x mod j)) mod k with j*c divisible by k -> c*x
				if x.op == oMod && new(big.Int).Mod(new(big.Int).Mul(x.k, m), k).Sign() == 0 {
					l.add(x.args[0], m)
					ch = true
				} else {
					l.add1(x, m)
				}
			}
		}
		m := new(big.Int).Mod(a.k, k)
		if m.Cmp(a.k) != 0 {
			ch = true
		}
		l.k.Add(l.k, m)
		if ch {
			return modc(l.term(), k)
		}
		// common factor
		g := new(big.Int).Set(k)
		for _, c := range a.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if g.Cmp(bi1) > 0 && new(big.Int).Mod(a.k, g).Sign() == 0 {
			l := newLin()
			for i, x := range a.args {
				l.add1(x, new(big.Int).Div(a.coefs[i], g))
			}
			l.k.Set(floorDiv(a.k, g))
			return mulc(modc(l.term(), new(big.Int).Div(k, g)), g)
		}
		// split high/low when disjoint: (hi + lo) mod 2^n, 0<=lo<2^s, 2^s | hi, s<=n -> (hi mod 2^n)+lo
		if n := pow2exp(k); n > 0 {
			for s := n - 1; s > 0; s-- {
				hiL, loL := newLin(), newLin()
				ok := true
				loLo, loHi := new(big.Int), new(big.Int)
				km := new(big.Int).Mod(a.k, pow2i(s))
				hiL.k.Sub(a.k, km)
				loL.k.Set(km)
				loLo.Set(km)
				loHi.Set(km)
				for i, x := range a.args {
					if x.tzero+int(new(big.Int).Abs(a.coefs[i]).TrailingZeroBits()) >= s {
						hiL.add1(x, a.coefs[i])
						continue
					}
					loL.add1(x, a.coefs[i])
					if x.lo == nil || x.hi == nil {
						ok = false
						break
					}
					p, q := new(big.Int).Mul(a.coefs[i], x.lo), new(big.Int).Mul(a.coefs[i], x.hi)
					if p.Cmp(q) > 0 {
						p, q = q, p
					}
					loLo.Add(loLo, p)
					loHi.Add(loHi, q)
				}
				if ok && len(loL.m) > 0 && len(hiL.m) > 0 && loLo.Sign() >= 0 && loHi.Cmp(pow2i(s)) < 0 {
					return add(modc(hiL.term(), k), loL.term())
				}
			}
		}
	}
	return mk(oMod, sInt, "", k, []*Term{a}, nil, nil)
}

func divx(a, b *Term) *Term {
	if isC(b) && b.k.Sign() > 0 {
		return divc(a, b.k)
	}
	if b.op == oIte && constLeaves(b, 8) {
		return ite(b.args[0], divx(a, b.args[1]), divx(a, b.args[2]))
	}
	return mk(oDivX, sInt, "", nil, []*Term{a, b}, nil, nil)
}
func modx(a, b *Term) *Term {
	if isC(b) && b.k.Sign() > 0 {
		return modc(a, b.k)
	}
	if b.op == oIte && constLeaves(b, 8) {
		return ite(b.args[0], modx(a, b.args[1]), modx(a, b.args[2]))
	}
	return mk(oModX, sInt, "", nil, []*Term{a, b}, nil, nil)
}

func not(a *Term) *Term {
	switch a.op {
	case oTrue:
		return tFalse
	case oFalse:
		return tTrue
	case oNot:
		return a.args[0]
	case oLe: // not (x<=0) -> x>=1 -> 1-x<=0
		return le(cInt(1), a.args[0])
	}
	return mk(oNot, sBool, "", nil, []*Term{a}, nil, nil)
}

func and(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var push func(a *Term) bool
	push = func(a *Term) bool {
		if a.op == oAnd {
			for _, x := range a.args {
				if !push(x) {
					return false
				}
			}
			return true
		}
		if a == tTrue || seen[a] {
			return true
		}
		if a == tFalse || seen[not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !push(a) {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mk(oAnd, sBool, "", nil, out, nil, nil)
}

func or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var push func(a *Term) bool
	push = func(a *Term) bool {
		if a.op == oOr {
			for _, x := range a.args {
				if !push(x) {
					return false
				}
			}
			return true
		}
		if a == tFalse || seen[a] {
			return true
		}
		if a == tTrue || seen[not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !push(a) {
			return tTrue
		}
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	// factor common conjuncts: (p & a) | (p & b) -> p & (a|b)
	common := map[*Term]bool{}
	for i, a := range out {
		cs := conj(a)
		if i == 0 {
			for _, c := range cs {
				common[c] = true
			}
		} else {
			now := map[*Term]bool{}
			for _, c := range cs {
				if common[c] {
					now[c] = true
				}
			}
			common = now
		}
	}
	if len(common) > 0 {
		var cm []*Term
		var rest []*Term
		for c := range common {
			cm = append(cm, c)
		}
		for _, a := range out {
			var r []*Term
			for _, c := range conj(a) {
				if !common[c] {
					r = append(r, c)
				}
			}
			rest = append(rest, and(r...))
		}
		return and(append(cm, or(rest...))...)
	}
	// a | (not a & b) -> a | b
	for i, a := range out {
		na := not(a)
		for j, b := range out {
			if i != j && b.op == oAnd {
				for x, c := range b.args {
					if c == na {
						r := append(append([]*Term{}, b.args[:x]...), b.args[x+1:]...)
						o2 := append([]*Term{}, out...)
						o2[j] = and(r...)
						return or(o2...)
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mk(oOr, sBool, "", nil, out, nil, nil)
}

func conj(a *Term) []*Term {
	if a.op == oAnd {
		return a.args
	}
	if a == tTrue {
		return nil
	}
	return []*Term{a}
}

func imp(a, b *Term) *Term { return or(not(a), b) }

func le(a, b *Term) *Term { return le0(sub(a, b)) }
func lt(a, b *Term) *Term { return le0(addc(sub(a, b), 1)) }

func le0(d *Term) *Term {
	if d.hi != nil && d.hi.Sign() <= 0 {
		return tTrue
	}
	if d.lo != nil && d.lo.Sign() > 0 {
		return tFalse
	}
	if d.op == oIte {
		return ite(d.args[0], le0(d.args[1]), le0(d.args[2]))
	}
	if d.op == oLin {
		for i, x := range d.args {
			if x.op == oIte && constLeaves(x, 8) {
				rest := newLin()
				rest.k.Set(d.k)
				for j, y := range d.args {
					if j != i {
						rest.add1(y, d.coefs[j])
					}
				}
				r := rest.term()
				if isC(r) {
					return ite(x.args[0], le0(add(mulc(x.args[1], d.coefs[i]), r)), le0(add(mulc(x.args[2], d.coefs[i]), r)))
				}
			}
		}
		g := new(big.Int)
		for _, c := range d.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if g.Cmp(bi1) > 0 {
			l := newLin()
			for i, x := range d.args {
				l.add1(x, new(big.Int).Div(d.coefs[i], g))
			}
			// sum g*ci*xi + k <= 0  <=> sum ci*xi + ceil(k/g) <= 0
			l.k.Neg(floorDiv(new(big.Int).Neg(d.k), g))
			return le0(l.term())
		}
	}
	return mk(oLe, sBool, "", nil, []*Term{d}, nil, nil)
}

func eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq: sorts %s %s: %s == %s", a.sort.name, b.sort.name, a, b))
	}
	switch a.sort {
	case sBool:
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return not(b)
		}
		if b == tFalse {
			return not(a)
		}
		if a == not(b) {
			return tFalse
		}
	case sInt:
		d := sub(a, b)
		if isC(d) {
			return cBool(d.k.Sign() == 0)
		}
		if d.lo != nil && d.lo.Sign() > 0 || d.hi != nil && d.hi.Sign() < 0 {
			return tFalse
		}
		if isC(b) {
			a, b = b, a
		}
		if isC(a) && b.op == oIte && (isC(b.args[1]) || isC(b.args[2])) {
			return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
		}
		if d.op == oLin {
			// solve parity: gcd of coefs must divide k
			g := new(big.Int)
			for _, c := range d.coefs {
				g.GCD(nil, nil, g, new(big.Int).Abs(c))
			}
			if new(big.Int).Mod(d.k, g).Sign() != 0 {
				return tFalse
			}
			if isC(a) && b.op == oLin {
				// normalise  c = lin  by moving constants
				l := newLin()
				for i, x := range d.args {
					l.add1(x, new(big.Int).Div(d.coefs[i], g))
				}
				if l.m[d.args[0]].Sign() < 0 {
					n := newLin()
					n.add(l.term(), bi(-1))
					l = n
					a, b = cBig(new(big.Int).Div(d.k, g)), l.term()
				} else {
					a, b = cBig(new(big.Int).Neg(new(big.Int).Div(d.k, g))), l.term()
				}
			}
		}
	case sStr:
		if a.op == oLit && b.op == oLit {
			return tFalse // hash-consed: different literals
		}
		if a.op == oCat || b.op == oCat {
			if r := eqCat(a, b); r != nil {
				return r
			}
		}
		if a.op == oIte && b.op == oLit && (a.args[1].op == oLit || a.args[2].op == oLit) {
			return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
		}
		if b.op == oIte && a.op == oLit && (b.args[1].op == oLit || b.args[2].op == oLit) {
			return ite(b.args[0], eq(b.args[1], a), eq(b.args[2], a))
		}
	}
	if a.op == oIte && b.op == oIte && a.args[0] == b.args[0] {
		return ite(a.args[0], eq(a.args[1], b.args[1]), eq(a.args[2], b.args[2]))
	}
	if a.op == oIte && (a.args[1] == b || a.args[2] == b) {
		if a.args[1] == b {
			return or(a.args[0], eq(a.args[2], b))
		}
		return or(not(a.args[0]), eq(a.args[1], b))
	}
	if b.op == oIte && (b.args[1] == a || b.args[2] == a) {
		return eq(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(oEq, sBool, "", nil, []*Term{a, b}, nil, nil)
}

func catParts(t *Term) []*Term {
	if t.op == oCat {
		return t.args
	}
	return []*Term{t}
}

// eqCat strips common prefixes and suffixes of two concatenations.
func eqCat(a, b *Term) *Term {
	x, y := catParts(a), catParts(b)
	i := 0
	for i < len(x) && i < len(y) && x[i] == y[i] {
		i++
	}
	x, y = x[i:], y[i:]
	j := 0
	for j < len(x) && j < len(y) && x[len(x)-1-j] == y[len(y)-1-j] {
		j++
	}
	x, y = x[:len(x)-j], y[:len(y)-j]
	// literal prefix comparison
	if len(x) > 0 && len(y) > 0 && x[0].op == oLit && y[0].op == oLit {
		p, q := x[0].name, y[0].name
		n := 0
		for n < len(p) && n < len(q) && p[n] == q[n] {
			n++
		}
		if n < len(p) && n < len(q) {
			return tFalse
		}
		if n > 0 {
			return eq(cat(append([]*Term{slit(p[n:])}, x[1:]...)...), cat(append([]*Term{slit(q[n:])}, y[1:]...)...))
		}
	}
	if i == 0 && j == 0 {
		return nil
	}
	return eq(cat(x...), cat(y...))
}

func ite(c, a, b *Term) *Term {
	if a == b || c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.sort != b.sort {
		panic("ite sorts " + a.sort.name + " " + b.sort.name)
	}
	if c.op == oNot {
		return ite(c.args[0], b, a)
	}
	if a.sort == sBool {
		if a == tTrue {
			return or(c, b)
		}
		if a == tFalse {
			return and(not(c), b)
		}
		if b == tTrue {
			return or(not(c), a)
		}
		if b == tFalse {
			return and(c, a)
		}
	}
	if a.op == oIte && a.args[0] == c {
		return ite(c, a.args[1], b)
	}
	if b.op == oIte && b.args[0] == c {
		return ite(c, a, b.args[2])
	}
	if a.op == oIte && a.args[2] == b {
		return ite(and(c, a.args[0]), a.args[1], b)
	}
	if a.op == oIte && a.args[1] == b {
		return ite(and(c, not(a.args[0])), a.args[2], b)
	}
	if b.op == oIte && b.args[1] == a {
		return ite(or(c, b.args[0]), a, b.args[2])
	}
	if b.op == oIte && b.args[2] == a {
		return ite(or(c, not(b.args[0])), a, b.args[1])
	}
	if a.sort.k != nil {
		// merge single stores on the same base
		if a.op == oSto && b.op == oSto && a.args[0] == b.args[0] && a.args[1] == b.args[1] {
			return sto(a.args[0], a.args[1], ite(c, a.args[2], b.args[2]))
		}
		if a.op == oSto && a.args[0] == b {
			return sto(b, a.args[1], ite(c, a.args[2], sel(b, a.args[1])))
		}
		if b.op == oSto && b.args[0] == a {
			return sto(a, b.args[1], ite(c, sel(a, b.args[1]), b.args[2]))
		}
		// strip a common chain of stores
		if m := mergeStores(c, a, b); m != nil {
			return m
		}
	}
	if a.sort == sStr && (a.op == oCat || b.op == oCat) {
		x, y := catParts(a), catParts(b)
		i := 0
		for i < len(x) && i < len(y) && x[i] == y[i] {
			i++
		}
		j := 0
		for j < len(x)-i && j < len(y)-i && x[len(x)-1-j] == y[len(y)-1-j] {
			j++
		}
		if i > 0 || j > 0 {
			mid := ite(c, cat(x[i:len(x)-j]...), cat(y[i:len(y)-j]...))
			ps := append([]*Term{}, x[:i]...)
			ps = append(ps, mid)
			ps = append(ps, x[len(x)-j:]...)
			return cat(ps...)
		}
	}
	t := mk(oIte, a.sort, "", nil, []*Term{c, a, b}, nil, nil)
	return t
}

// mergeStores merges two store chains over the same base array index by index.
func mergeStores(c, a, b *Term) *Term {
	depth := 0
	var ia, ib []*Term
	x, y := a, b
	for x.op == oSto && depth < 64 {
		ia = append(ia, x.args[1])
		x = x.args[0]
		depth++
	}
	depth = 0
	for y.op == oSto && depth < 64 {
		ib = append(ib, y.args[1])
		y = y.args[0]
		depth++
	}
	if x != y || len(ia)+len(ib) == 0 {
		return nil
	}
	// all indexes must be pairwise identical or provably distinct
	var idx []*Term
	addI := func(t *Term) bool {
		for _, u := range idx {
			if u == t {
				return true
			}
			if eq(u, t) != tFalse {
				return false
			}
		}
		idx = append(idx, t)
		return true
	}
	for i := len(ia) - 1; i >= 0; i-- {
		if !addI(ia[i]) {
			return nil
		}
	}
	for i := len(ib) - 1; i >= 0; i-- {
		if !addI(ib[i]) {
			return nil
		}
	}
	r := x
	for _, i := range idx {
		r = sto(r, i, ite(c, sel(a, i), sel(b, i)))
	}
	return r
}

func sel(a, i *Term) *Term {
	for {
		if a.op == oSto {
			e := eq(a.args[1], i)
			if e == tTrue {
				return a.args[2]
			}
			if e == tFalse {
				a = a.args[0]
				continue
			}
		}
		if a.op == oKArr {
			return a.args[0]
		}
		if a.op == oApp && a.name == "sbytes" {
			return sat(a.args[0], i)
		}
		if a.op == oIte {
			// push through when a branch resolves
			x, y := a.args[1], a.args[2]
			if a.sort.v.k == nil || (x.op == oSto || y.op == oSto) {
				sx, sy := sel(x, i), sel(y, i)
				return ite(a.args[0], sx, sy)
			}
		}
		break
	}
	if a.op == oSto && i.op == oIte && eq(a.args[1], i.args[1]) != nil {
		// index is ite: split when both resolve syntactically
		if e1, e2 := eq(a.args[1], i.args[1]), eq(a.args[1], i.args[2]); (e1 == tTrue || e1 == tFalse) && (e2 == tTrue || e2 == tFalse) {
			return ite(i.args[0], sel(a, i.args[1]), sel(a, i.args[2]))
		}
	}
	return mk(oSel, a.sort.v, "", nil, []*Term{a, i}, nil, nil)
}

func sto(a, i, v *Term) *Term {
	if a.op == oSto && a.args[1] == i {
		return sto(a.args[0], i, v)
	}
	if v.op == oSel && v.args[0] == a && v.args[1] == i {
		return a
	}
	if a.op == oKArr && a.args[0] == v {
		return a
	}
	if v.sort != a.sort.v {
		panic("sto sort mismatch " + a.sort.name + " <- " + v.sort.name)
	}
	return mk(oSto, a.sort, "", nil, []*Term{a, i, v}, nil, nil)
}

func karr(s *Sort, v *Term) *Term { return mk(oKArr, s, "", nil, []*Term{v}, nil, nil) }

// app applies an uninterpreted function; lo/hi give its declared range.
func app(name string, s *Sort, lo, hi *big.Int, args ...*Term) *Term {
	t := mk(oApp, s, name, nil, args, nil, nil)
	if s == sInt && t.lo == nil && t.hi == nil {
		t.lo, t.hi = lo, hi
	}
	return t
}

func slit(s string) *Term { return mk(oLit, sStr, s, nil, nil, nil, nil) }

func cat(ps ...*Term) *Term {
	var out []*Term
	var push func(p *Term)
	push = func(p *Term) {
		if p.op == oCat {
			for _, x := range p.args {
				push(x)
			}
			return
		}
		if p.op == oLit {
			if p.name == "" {
				return
			}
			if n := len(out); n > 0 && out[n-1].op == oLit {
				out[n-1] = slit(out[n-1].name + p.name)
				return
			}
		}
		out = append(out, p)
	}
	for _, p := range ps {
		push(p)
	}
	if len(out) == 0 {
		return slit("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(oCat, sStr, "", nil, out, nil, nil)
}

func slen(s *Term) *Term {
	switch s.op {
	case oLit:
		return cInt(int64(len(s.name)))
	case oCat:
		r := cInt(0)
		for _, p := range s.args {
			r = add(r, slen(p))
		}
		return r
	case oIte:
		return ite(s.args[0], slen(s.args[1]), slen(s.args[2]))
	case oApp:
		if s.name == "bstr" {
			return s.args[2]
		}
		if s.name == "chr" {
			return cInt(1)
		}
	}
	return app("slen", sInt, bi0, maxLen, s)
}

func forall(bvs []*Term, body *Term, pats ...*Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	return mk(oForall, sBool, "", nil, append([]*Term{body}, pats...), nil, bvs)
}

// subst replaces terms by terms, rebuilding with simplification.
func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		na := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			na[i] = f(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, na)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func rebuild(t *Term, na []*Term) *Term {
	switch t.op {
	case oLin:
		l := newLin()
		l.k.Set(t.k)
		for i, a := range na {
			l.add(a, t.coefs[i])
		}
		return l.term()
	case oMul:
		return mul(na[0], na[1])
	case oDiv:
		return divc(na[0], t.k)
	case oMod:
		return modc(na[0], t.k)
	case oDivX:
		return divx(na[0], na[1])
	case oModX:
		return modx(na[0], na[1])
	case oIte:
		return ite(na[0], na[1], na[2])
	case oEq:
		return eq(na[0], na[1])
	case oLe:
		return le0(na[0])
	case oNot:
		return not(na[0])
	case oAnd:
		return and(na...)
	case oOr:
		return or(na...)
	case oSel:
		r := sel(na[0], na[1])
		if r.op == oSel && r.sort == sInt && r.lo == nil && r.hi == nil {
			r.lo, r.hi = t.lo, t.hi
		}
		return r
	case oSto:
		return sto(na[0], na[1], na[2])
	case oKArr:
		return karr(t.sort, na[0])
	case oApp:
		return reapp(t, na)
	case oCat:
		return cat(na...)
	case oForall:
		return forall(t.bvs, na[0], na[1:]...)
	}
	panic("rebuild")
}

func reapp(t *Term, na []*Term) *Term {
	if r := simpApp(t.name, na); r != nil {
		return r
	}
	return app(t.name, t.sort, t.lo, t.hi, na...)
}

// simpApp rebuilds applications that have their own simplifying constructors.
func simpApp(name string, na []*Term) *Term {
	switch name {
	case "slen":
		return slen(na[0])
	case "sat":
		return sat(na[0], na[1])
	case "ssub":
		return ssub(na[0], na[1], na[2])
	case "bstr":
		return bstr(na[0], na[1], na[2])
	case "pow2":
		return pow2t(na[0])
	case "bor", "bxor", "band":
		return nil
	}
	return nil
}

func (t *Term) String() string {
	return pp(t, 12)
}

func pp(t *Term, d int) string {
	if d == 0 {
		return "..."
	}
	switch t.op {
	case oConst:
		return t.k.String()
	case oTrue:
		return "true"
	case oFalse:
		return "false"
	case oVar, oBVar:
		return t.name
	case oLit:
		return fmt.Sprintf("%q", t.name)
	case oLin:
		var p []string
		for i, a := range t.args {
			if t.coefs[i].Cmp(bi1) == 0 {
				p = append(p, pp(a, d-1))
			} else {
				p = append(p, t.coefs[i].String()+"*"+pp(a, d-1))
			}
		}
		if t.k.Sign() != 0 {
			p = append(p, t.k.String())
		}
		return "(" + strings.Join(p, " + ") + ")"
	case oForall:
		return "forall(" + pp(t.bvs[0], 2) + ": " + pp(t.args[0], d-1) + ")"
	}
	nm := map[Op]string{oMul: "*", oDiv: "div", oMod: "mod", oDivX: "div", oModX: "mod", oIte: "ite", oEq: "=", oLe: "<=0", oNot: "!", oAnd: "&", oOr: "|", oSel: "sel", oSto: "sto", oKArr: "K", oCat: "cat"}[t.op]
	if t.op == oApp {
		nm = t.name
	}
	var p []string
	for _, a := range t.args {
		p = append(p, pp(a, d-1))
	}
	if t.k != nil {
		p = append(p, t.k.String())
	}
	return nm + "(" + strings.Join(p, ", ") + ")"
}

func sum(a, b *Term) *Term { return add(a, b) }
