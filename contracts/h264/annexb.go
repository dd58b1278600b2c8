package h264

import "github.com/aboukirev/ouro/internal/vf"

// ---- emulation prevention: removal (clause 7.3.1)

// isEmul: octet k of b is an emulation prevention octet.
func isEmul(b []byte, k int) bool {
	return k >= 2 && b[k] == 3 && b[k-1] == 0 && b[k-2] == 0
}

// kept is how many of the first k octets are not emulation prevention octets.
func kept(b []byte, k int) int {
	if k <= 0 {
		return 0
	}
	if isEmul(b, k-1) {
		return kept(b, k-1)
	}
	return kept(b, k-1) + 1
}

// opaqueRaw: out is b without its emulation prevention octets.
func opaqueRaw(out, b []byte) bool {
	return len(out) == kept(b, len(b)) &&
		vf.All(0, len(b), func(j int) bool {
			vf.Pat(kept(b, j))
			return vf.Imp(!isEmul(b, j), out[kept(b, j)] == b[j])
		})
}

func Post_EBSPToRaw(buf []byte, out []byte) {
	vf.Ensure("fresh", vf.Fresh(out))
	vf.Ensure("raw", opaqueRaw(out, buf))
	vf.Ensure("length", len(out) == kept(buf, len(buf)))
	vf.Ensure("every other octet in order", vf.All(0, len(buf), func(j int) bool {
		vf.Pat(kept(buf, j))
		return vf.Imp(!isEmul(buf, j), out[kept(buf, j)] == buf[j])
	}))
}

func Inv_EBSPToRaw_1(buf, rbsp []byte, off int) {
	vf.Inv("in range", 0 <= off && off <= len(buf) && off <= 1<<60)
	vf.Inv("fresh", vf.Fresh(rbsp))
	vf.Inv("length so far", len(rbsp) == kept(buf, off) && len(rbsp) <= off)
	vf.Inv("places so far", vf.All(0, off, func(j int) bool {
		return 0 <= kept(buf, j) && vf.Imp(!isEmul(buf, j), kept(buf, j) < len(rbsp))
	}))
	vf.Inv("octets so far", vf.All(0, off, func(j int) bool {
		return vf.Imp(!isEmul(buf, j), rbsp[kept(buf, j)] == buf[j])
	}))
	vf.Inv("no pair is cut", vf.Imp(off < len(buf), !isEmul(buf, off)) && vf.Imp(off+1 < len(buf), !isEmul(buf, off+1)))
	vf.Dec(len(buf) - off)
}

func genEmul(g *vf.Gen) []byte {
	n := g.Len(24)
	b := make([]byte, n)
	for i := range b {
		b[i] = []byte{0, 0, 0, 0, 1, 2, 3, 3, 4, 0x80}[g.N(10)]
	}
	return b
}

func Gen_EBSPToRaw(g *vf.Gen) []byte { return genEmul(g) }

func LemmaKept(b []byte, k int) {
	if k > 0 {
		LemmaKept(b, k-1)
	}
}
func Pre_LemmaKept(b []byte, k int) bool { return k <= len(b) }
func Dec_LemmaKept(b []byte, k int) int  { return k }
func Post_LemmaKept(b []byte, k int) {
	vf.Ensure("range", 0 <= kept(b, k) && vf.Imp(k >= 0, kept(b, k) <= k))
}

// ---- emulation prevention: insertion (clause 7.4.1)

// run is the number of zero octets that end the output before octet k is
// written; it is never more than two.
func run(b []byte, k int) int {
	if k <= 0 {
		return 0
	}
	if b[k-1] != 0 {
		return 0
	}
	if run(b, k-1) == 2 {
		return 1
	}
	return run(b, k-1) + 1
}

// esc: octet k has to be preceded by an emulation prevention octet.
func esc(b []byte, k int) bool { return run(b, k) == 2 && b[k] <= 3 }

// elen is the number of octets written for the first k.
func elen(b []byte, k int) int {
	if k <= 0 {
		return 0
	}
	if esc(b, k-1) {
		return elen(b, k-1) + 2
	}
	return elen(b, k-1) + 1
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// isEnc: out is b with emulation prevention octets inserted where needed.
func isEnc(out, b []byte) bool {
	n := len(b)
	return len(out) == elen(b, n)+b2i(run(b, n) == 2) &&
		vf.Imp(run(b, n) == 2, out[elen(b, n)] == 3) &&
		vf.All(0, n, func(k int) bool {
			return out[elen(b, k)+b2i(esc(b, k))] == b[k] && vf.Imp(esc(b, k), out[elen(b, k)] == 3)
		})
}

func Pre_RBSPToEncapsulated(buf []byte) bool { return len(buf) < 1<<40 }
func Post_RBSPToEncapsulated(buf []byte, out []byte) {
	n := len(buf)
	vf.Ensure("fresh", vf.Fresh(out))
	vf.Ensure("length", len(out) == elen(buf, n)+b2i(run(buf, n) == 2))
	vf.Ensure("every octet in order", vf.All(0, n, func(k int) bool { return out[elen(buf, k)+b2i(esc(buf, k))] == buf[k] }))
	vf.Ensure("emulation prevention octets", vf.All(0, n, func(k int) bool { return vf.Imp(esc(buf, k), out[elen(buf, k)] == 3) }))
	vf.Ensure("no zeros at the end", vf.Imp(run(buf, n) == 2, out[elen(buf, n)] == 3))
	vf.Ensure("no start code inside", vf.All(0, len(out)-2, func(i int) bool { return !(out[i] == 0 && out[i+1] == 0 && out[i+2] <= 2) }))
}

func Inv_RBSPToEncapsulated_1(buf, ebsp []byte, off int) {
	n := len(buf)
	r := run(buf, off)
	pend := r == 2 && (off == n || buf[off] <= 3)
	m := len(ebsp)
	vf.Inv("in range", 0 <= off && off <= n && off <= 1<<60)
	LemmaRun(buf, off)
	vf.Inv("fresh", vf.Fresh(ebsp))
	vf.Inv("places so far", vf.All(0, off, func(k int) bool { return 0 <= elen(buf, k) && elen(buf, k)+b2i(esc(buf, k)) < m }))
	vf.Inv("length so far", m == elen(buf, off)+b2i(pend) && m <= 2*off)
	vf.Inv("run of one", vf.Imp(r == 1 && off < n && buf[off] == 0, off+1 < n && buf[off+1] > 3))
	vf.Inv("run of two", vf.Imp(r == 2 && off < n && !pend, buf[off] > 3))
	vf.Inv("octets so far", vf.All(0, off, func(k int) bool { return ebsp[elen(buf, k)+b2i(esc(buf, k))] == buf[k] }))
	vf.Inv("escapes so far", vf.All(0, off, func(k int) bool { return vf.Imp(esc(buf, k), ebsp[elen(buf, k)] == 3) }))
	vf.Inv("pending escape", vf.Imp(pend, ebsp[m-1] == 3 && m >= 1))
	vf.Inv("written run", vf.Imp(!pend && r == 0, m == 0 || ebsp[m-1] != 0) &&
		vf.Imp(!pend && r == 1, m >= 1 && ebsp[m-1] == 0 && (m == 1 || ebsp[m-2] != 0)) &&
		vf.Imp(!pend && r == 2, m >= 2 && ebsp[m-1] == 0 && ebsp[m-2] == 0))
	vf.Inv("no start code so far", vf.All(0, m-2, func(i int) bool { return !(ebsp[i] == 0 && ebsp[i+1] == 0 && ebsp[i+2] <= 2) }))
	vf.Dec(n - off)
}
func Gen_RBSPToEncapsulated(g *vf.Gen) []byte { return genEmul(g) }

func LemmaRun(b []byte, k int) {
	if k > 0 {
		LemmaRun(b, k-1)
	}
}
func Pre_LemmaRun(b []byte, k int) bool { return k <= len(b) }
func Dec_LemmaRun(b []byte, k int) int  { return k }
func Post_LemmaRun(b []byte, k int) {
	vf.Ensure("run", 0 <= run(b, k) && run(b, k) <= 2)
	vf.Ensure("length", 0 <= elen(b, k) && vf.Imp(k >= 0, k <= elen(b, k)))
}

func LemmaElen(b []byte, k, n int) {
	if k < n {
		LemmaElen(b, k, n-1)
	}
}
func Pre_LemmaElen(b []byte, k, n int) bool { return 0 <= k && k <= n && n <= len(b) }
func Dec_LemmaElen(b []byte, k, n int) int  { return n }
func Post_LemmaElen(b []byte, k, n int) {
	vf.Ensure("grows", elen(b, k)+n-k <= elen(b, n))
}

// ---- both ways

// EncDec encapsulates octets and removes the emulation prevention octets again.
func EncDec(b []byte) (e, out []byte) {
	e = RBSPToEncapsulated(b)
	return e, EBSPToRaw(e)
}

// LemmaEncDec: the first k octets take up elen(b,k) octets of e, k of which are kept.
func LemmaEncDec(e, b []byte, k int) {
	LemmaRun(b, k)
	LemmaElen(b, k, len(b))
	if k > 0 {
		LemmaRun(b, k-1)
	}
	if k > 0 {
		LemmaEncDec(e, b, k-1)
	}
}
func Pre_LemmaEncDec(e, b []byte, k int) bool { return isEnc(e, b) && 0 <= k && k <= len(b) }
func Dec_LemmaEncDec(e, b []byte, k int) int  { return k }
func Post_LemmaEncDec(e, b []byte, k int) {
	m := elen(b, k)
	vf.Ensure("within", vf.Imp(k >= 0, m <= len(e)))
	vf.Ensure("kept", vf.Imp(k >= 0, kept(e, m) == k))
	vf.Ensure("run of none", vf.Imp(run(b, k) == 0, m == 0 || e[m-1] != 0))
	vf.Ensure("run of one", vf.Imp(run(b, k) == 1, m >= 1 && e[m-1] == 0 && (m == 1 || e[m-2] != 0)))
	vf.Ensure("run of two", vf.Imp(run(b, k) == 2, m >= 2 && e[m-1] == 0 && e[m-2] == 0))
}

// LemmaEncAt: where octet k of b is found in e.
func LemmaEncAt(e, b []byte, k int) {
	LemmaEncDec(e, b, k)
	LemmaEncDec(e, b, k+1)
	LemmaRun(b, k)
	LemmaRun(b, k+1)
	LemmaElen(b, k+1, len(b))
}
func Pre_LemmaEncAt(e, b []byte, k int) bool { return isEnc(e, b) && 0 <= k && k < len(b) }
func Post_LemmaEncAt(e, b []byte, k int) {
	j := elen(b, k) + b2i(esc(b, k))
	vf.Ensure("within", 0 <= j && j < len(e))
	vf.Ensure("same", e[j] == b[k])
	vf.Ensure("not an emulation prevention octet", !isEmul(e, j))
	vf.Ensure("kept", kept(e, j) == k)
}

// LemmaBack: removing the emulation prevention octets gives octet k back.
func LemmaBack(e, b, out []byte, k int) {
	LemmaEncAt(e, b, k)
}
func Pre_LemmaBack(e, b, out []byte, k int) bool {
	return isEnc(e, b) && opaqueRaw(out, e) && 0 <= k && k < len(b)
}
func Post_LemmaBack(e, b, out []byte, k int) {
	j := elen(b, k) + b2i(esc(b, k))
	vf.Ensure("the same through e", out[kept(e, j)] == e[j])
	vf.Ensure("the same", out[k] == b[k])
}

func Pre_EncDec(b []byte) bool { return len(b) < 1<<40 }
func Post_EncDec(b []byte, e, out []byte) {
	LemmaEncDec(e, b, len(b))
	vf.Ensure("same length", len(out) == len(b))
	vf.Ensure("same octets", vf.All(0, len(b), func(k int) bool {
		LemmaBack(e, b, out, k)
		return out[k] == b[k]
	}))
}
func Gen_EncDec(g *vf.Gen) []byte { return genEmul(g) }

// ---- Annex B byte streams

// isStart: a start code is at position p of b, followed by at least one octet.
func isStart(b []byte, p int) bool {
	return p >= 0 && p+3 < len(b) && b[p] == 0 && b[p+1] == 0 && b[p+2] == 1
}

// unitStart is where the unit begins that position p follows.
func unitStart(b []byte, p int) int {
	if p <= 0 {
		return 0
	}
	if isStart(b, p-1) {
		return p + 2
	}
	return unitStart(b, p-1)
}

// unitEnd is where the unit ends that is followed by a start code at p: a
// zero octet in front of it belongs to the start code.
func unitEnd(b []byte, p int) int {
	if p > 0 && b[p-1] == 0 {
		return p - 1
	}
	return p
}

// isUnit: a unit that is not empty ends at the start code at p.
func isUnit(b []byte, p int) bool {
	return isStart(b, p) && unitEnd(b, p) > unitStart(b, p)
}

// unitsTo is the number of units that end before p.
func unitsTo(b []byte, p int) int {
	if p <= 0 {
		return 0
	}
	if isUnit(b, p-1) {
		return unitsTo(b, p-1) + 1
	}
	return unitsTo(b, p-1)
}

// LemmaStep: one octet, three octets or one start code on.
func LemmaStep(b []byte, p int) {
}
func Post_LemmaStep(b []byte, p int) {
	vf.Ensure("one", vf.Imp(p >= 1 && !isStart(b, p-1), unitStart(b, p) == unitStart(b, p-1) && unitsTo(b, p) == unitsTo(b, p-1)))
	vf.Ensure("three", vf.Imp(p >= 3 && !isStart(b, p-3) && !isStart(b, p-2) && !isStart(b, p-1),
		unitStart(b, p) == unitStart(b, p-3) && unitsTo(b, p) == unitsTo(b, p-3)))
	vf.Ensure("start code", vf.Imp(p >= 3 && isStart(b, p-3), unitStart(b, p) == p && unitsTo(b, p) == unitsTo(b, p-3)+b2i(isUnit(b, p-3))))
	vf.Ensure("start", vf.Imp(p <= 0, unitStart(b, p) == 0 && unitsTo(b, p) == 0))
}

// LemmaUnits: there are at most as many units as octets.
func LemmaUnits(b []byte, p int) {
	if p > 0 {
		LemmaUnits(b, p-1)
	}
}
func Dec_LemmaUnits(b []byte, p int) int { return p }
func Post_LemmaUnits(b []byte, p int) {
	vf.Ensure("range", 0 <= unitsTo(b, p) && vf.Imp(p >= 0, unitsTo(b, p) <= p))
}

// LemmaTail: no start code among the last three octets.
func LemmaTail(b []byte, p, q int) {
	if q > p {
		LemmaTail(b, p, q-1)
	}
}
func Pre_LemmaTail(b []byte, p, q int) bool { return len(b)-3 <= p && p <= q }
func Dec_LemmaTail(b []byte, p, q int) int  { return q - p }
func Post_LemmaTail(b []byte, p, q int) {
	vf.Ensure("same", unitStart(b, q) == unitStart(b, p) && unitsTo(b, q) == unitsTo(b, p))
}

//vf:opaque opaqueRaw unitStart unitsTo
func Post_SplitAnnexB(buf []byte, units [][]byte) {
	n := len(buf)
	vf.Ensure("fresh", vf.Fresh(units))
	vf.Ensure("number of units", len(units) == unitsTo(buf, n)+1)
	vf.Ensure("units in order", vf.All(0, n, func(p int) bool {
		return vf.Imp(isUnit(buf, p), unitsTo(buf, p) < len(units) &&
			opaqueRaw(units[unitsTo(buf, p)], buf[unitStart(buf, p):unitEnd(buf, p)]))
	}))
	vf.Ensure("last unit", opaqueRaw(units[len(units)-1], buf[unitStart(buf, n):]))
	vf.Ensure("units with their headers", vf.All(0, n, func(p int) bool {
		k := unitsTo(buf, p)
		vf.Pat(k)
		if !isUnit(buf, p) {
			return true
		}
		x := buf[unitStart(buf, p):unitEnd(buf, p)]
		LemmaRawUnit(units[k], x)
		return (len(units[k]) > 0 && opaqueUnit(units[k][0], units[k][1:], x) && units[k][0] == buf[unitStart(buf, p)])
	}))
	u, x := units[len(units)-1], buf[unitStart(buf, n):]
	LemmaRawUnit(u, x)
	LemmaUnitStart(buf, n)
	vf.Ensure("last unit with its header", vf.Imp(n > 0, len(u) > 0 && opaqueUnit(u[0], u[1:], x) && u[0] == buf[unitStart(buf, n)]))
	vf.Ensure("nothing", vf.Imp(n == 0, len(u) == 0))
}

// LemmaUnitStart: the last unit is not empty.
func LemmaUnitStart(b []byte, p int) {
	if p > 0 {
		LemmaUnitStart(b, p-1)
	}
}
func Pre_LemmaUnitStart(b []byte, p int) bool { return p <= len(b) }
func Dec_LemmaUnitStart(b []byte, p int) int  { return p }
func Post_LemmaUnitStart(b []byte, p int) {
	vf.Ensure("range", 0 <= unitStart(b, p) && vf.Imp(len(b) > 0, unitStart(b, p) < len(b)))
}

// opaqueUnit: d follows h in x without its emulation prevention octets.
func opaqueUnit(h byte, d, x []byte) bool {
	return len(x) > 0 && h == x[0] && len(d) == kept(x, len(x))-1 && vf.All(1, len(x), func(j int) bool {
		vf.Pat(kept(x, j))
		return vf.Imp(!isEmul(x, j), d[kept(x, j)-1] == x[j])
	})
}

// LemmaRawUnit: the first octet of a unit is never removed.
func LemmaRawUnit(out, x []byte) {
	LemmaKeptPos(x, len(x))
	LemmaKept(x, 0)
}

// LemmaKeptPos: the first octet is kept.
func LemmaKeptPos(b []byte, k int) {
	if k > 1 {
		LemmaKeptPos(b, k-1)
	}
}
func Pre_LemmaKeptPos(b []byte, k int) bool { return 1 <= k && k <= len(b) }
func Dec_LemmaKeptPos(b []byte, k int) int  { return k }
func Post_LemmaKeptPos(b []byte, k int) {
	vf.Ensure("some", kept(b, k) >= 1)
}

func Pre_LemmaRawUnit(out, x []byte) bool { return len(x) > 0 && opaqueRaw(out, x) }
func Post_LemmaRawUnit(out, x []byte) {
	vf.Ensure("length", len(out) > 0)
	vf.Ensure("unit", opaqueUnit(out[0], out[1:], x))
	vf.Ensure("header", out[0] == x[0])
}

func Inv_SplitAnnexB_1(buf []byte, units [][]byte, off, prev, end int) {
	vf.Inv("in range", 0 <= off && off <= 1<<60 && 0 <= prev && prev <= off && prev <= len(buf) && vf.Imp(off > end, off <= end+2 || off == 0))
	LemmaStep(buf, off)
	vf.Inv("fresh", vf.Fresh(units))
	vf.Inv("unit start", prev == unitStart(buf, off))
	LemmaTail(buf, off, len(buf))
	LemmaTail(buf, len(buf), off)
	vf.Inv("at the end", vf.Imp(off >= end, prev == unitStart(buf, len(buf)) && len(units) == unitsTo(buf, len(buf))))
	vf.Inv("after a start code", prev == 0 || prev >= 3 && buf[prev-1] == 1)
	vf.Inv("number so far", len(units) == unitsTo(buf, off) && len(units) <= off)
	vf.Inv("places so far", vf.All(0, off, func(p int) bool {
		LemmaUnits(buf, p)
		return 0 <= unitsTo(buf, p) && vf.Imp(isUnit(buf, p), unitsTo(buf, p) < len(units))
	}))
	vf.Inv("units so far", vf.All(0, off, func(p int) bool {
		return vf.Imp(isUnit(buf, p), opaqueRaw(units[unitsTo(buf, p)], buf[unitStart(buf, p):unitEnd(buf, p)]))
	}))
	vf.Dec(len(buf) + 3 - off)
}

func Gen_SplitAnnexB(g *vf.Gen) []byte { return genEmul(g) }
