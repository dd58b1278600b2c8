package h264

import "github.com/aboukirev/ouro/internal/vf"

// ---- vocabulary

// bitsVal is the number formed by the n bits that start at bit p of b, the most
// significant bit of b[0] being bit 0.
func bitsVal(b []byte, p, n int) int {
	if n <= 0 {
		return 0
	}
	have := 8 - p%8
	if n <= have {
		return int(b[p/8]) % vf.Pow2(have) / vf.Pow2(have-n)
	}
	return int(b[p/8])%vf.Pow2(have)*vf.Pow2(n-have) + bitsVal(b, p+have, n-have)
}

// rdOK is the representation invariant of a BitReader.
func rdOK(r *BitReader) bool {
	return r.count == uint(len(r.buffer)) && r.bitn <= 8 && (r.byten < r.count || r.byten == r.count && r.bitn == 0)
}

// rdPos is the number of bits consumed.
func rdPos(r *BitReader) int { return posOf(r.byten, r.bitn) }

//vf:folded
func posOf(byten, bitn uint) int { return int(byten)*8 + int(bitn) }

// rdEnd is the number of bits of the buffer.
func rdEnd(r *BitReader) int { return len(r.buffer) * 8 }

type rdOld struct{ pos int }

// ---- NewBitReader

func Post_NewBitReader(buf []byte, r *BitReader) {
	vf.Ensure("fresh", vf.Fresh(r))
	vf.Ensure("well formed", rdOK(r))
	vf.Ensure("at the first bit", rdPos(r) == 0)
	vf.Ensure("buffer", vf.Same(r.buffer, buf))
}

// ---- Available

func Pre_BitReader_Available(r *BitReader) bool { return rdOK(r) }
func Post_BitReader_Available(r *BitReader, n uint) {
	vf.Ensure("bits left", int(n) == rdEnd(r)-rdPos(r))
}

// ---- ReadBits

func Pre_BitReader_ReadBits(r *BitReader, n uint) bool  { return rdOK(r) }
func Old_BitReader_ReadBits(r *BitReader, n uint) rdOld { return rdOld{rdPos(r)} }
func Mod_BitReader_ReadBits(r *BitReader, n uint) {
	vf.Modifies(&r.byten)
	vf.Modifies(&r.bitn)
}

//vf:split r.bitn 0..8 n 0..32
//vf:depth 6
func Post_BitReader_ReadBits(r *BitReader, n uint, old rdOld, val uint32, err error) {
	ok := n <= 32 && old.pos+int(n) <= rdEnd(r)
	vf.Ensure("well formed", rdOK(r))
	vf.Ensure("succeeds exactly when enough bits are left", (err == nil) == ok)
	vf.Ensure("value", vf.Imp(ok, int(val) == bitsVal(r.buffer, old.pos, int(n))))
	vf.Ensure("value fits", vf.Imp(ok, int(val) < vf.Pow2(int(n))))
	vf.Ensure("position", vf.Imp(ok, rdPos(r) == old.pos+int(n)))
	vf.Ensure("failure leaves the reader alone", vf.Imp(!ok, rdPos(r) == old.pos && val == 0))
}

func Gen_BitReader_ReadBits(g *vf.Gen) (*BitReader, uint) {
	return genReader(g), uint(g.Int(0, 34))
}

// genReader makes a reader somewhere inside a buffer, the way reads leave it.
func genReader(g *vf.Gen) *BitReader {
	b := g.Bytes(24)
	r := NewBitReader(b)
	if len(b) > 0 {
		p := g.N(len(b)*8 + 1)
		if g.P(40) {
			p = 0
		}
		r.byten, r.bitn = uint(p/8), uint(p%8)
		if p > 0 && p%8 == 0 && g.P(60) {
			r.byten, r.bitn = r.byten-1, 8
		}
	}
	return r
}

// ---- ReadByteBits, ReadFlag

func Pre_BitReader_ReadByteBits(r *BitReader, n uint) bool  { return rdOK(r) }
func Old_BitReader_ReadByteBits(r *BitReader, n uint) rdOld { return rdOld{rdPos(r)} }
func Mod_BitReader_ReadByteBits(r *BitReader, n uint) {
	vf.Modifies(&r.byten)
	vf.Modifies(&r.bitn)
}

//vf:opaque bitsVal
func Post_BitReader_ReadByteBits(r *BitReader, n uint, old rdOld, val byte, err error) {
	m := int(n)
	if m > 8 {
		m = 8
	}
	ok := old.pos+m <= rdEnd(r)
	vf.Ensure("well formed", rdOK(r))
	vf.Ensure("succeeds exactly when enough bits are left", (err == nil) == ok)
	vf.Ensure("value", vf.Imp(ok, int(val) == bitsVal(r.buffer, old.pos, m)))
	vf.Ensure("position", vf.Imp(ok, rdPos(r) == old.pos+m))
	vf.Ensure("failure leaves the reader alone", vf.Imp(!ok, rdPos(r) == old.pos && val == 0))
}

func Gen_BitReader_ReadByteBits(g *vf.Gen) (*BitReader, uint) {
	return genReader(g), uint(g.Int(0, 12))
}

func Pre_BitReader_ReadFlag(r *BitReader) bool  { return rdOK(r) }
func Old_BitReader_ReadFlag(r *BitReader) rdOld { return rdOld{rdPos(r)} }
func Mod_BitReader_ReadFlag(r *BitReader) {
	vf.Modifies(&r.byten)
	vf.Modifies(&r.bitn)
}

//vf:opaque bitsVal
func Post_BitReader_ReadFlag(r *BitReader, old rdOld, val bool, err error) {
	ok := old.pos+1 <= rdEnd(r)
	vf.Ensure("well formed", rdOK(r))
	vf.Ensure("succeeds exactly when a bit is left", (err == nil) == ok)
	vf.Ensure("value", vf.Imp(ok, val == (bitsVal(r.buffer, old.pos, 1) != 0)))
	vf.Ensure("position", vf.Imp(ok, rdPos(r) == old.pos+1))
	vf.Ensure("failure leaves the reader alone", vf.Imp(!ok, rdPos(r) == old.pos && !val))
}

func Gen_BitReader_ReadFlag(g *vf.Gen) *BitReader { return genReader(g) }

// ---- SkipBits

func Pre_BitReader_SkipBits(r *BitReader, n uint) bool  { return rdOK(r) }
func Old_BitReader_SkipBits(r *BitReader, n uint) rdOld { return rdOld{rdPos(r)} }
func Mod_BitReader_SkipBits(r *BitReader, n uint) {
	vf.Modifies(&r.byten)
	vf.Modifies(&r.bitn)
}

//vf:split n 0..32
func Post_BitReader_SkipBits(r *BitReader, n uint, old rdOld, err error) {
	ok := n <= 32 && old.pos+int(n) <= rdEnd(r)
	vf.Ensure("well formed", rdOK(r))
	vf.Ensure("succeeds exactly when enough bits are left", (err == nil) == ok)
	vf.Ensure("position", vf.Imp(ok, rdPos(r) == old.pos+int(n)))
	vf.Ensure("failure leaves the reader alone", vf.Imp(!ok, rdPos(r) == old.pos))
}

func Inv_BitReader_SkipBits_1(r *BitReader, n, bits uint, old rdOld) {
	vf.Inv("bits", int(bits) == int(r.byten)*8+8-old.pos)
	vf.Inv("well formed", rdOK(r) && (n == 0 || r.byten < r.count))
	vf.Inv("not past", int(bits) <= int(n)+7 || int(r.byten)*8+int(r.bitn) == old.pos)
	vf.Inv("bits range", bits <= 48)
	vf.Dec(int(n) + 64 - int(bits))
}

func Gen_BitReader_SkipBits(g *vf.Gen) (*BitReader, uint) {
	return genReader(g), uint(g.Int(0, 34))
}

// ---- Exp-Golomb codes

// zeros is the length of the run of zero bits that starts at p, not past end.
func zeros(b []byte, p, end int) int {
	if p >= end || bitsVal(b, p, 1) != 0 {
		return 0
	}
	return 1 + zeros(b, p+1, end)
}

// ueOK: a complete Exp-Golomb code of at most 32 significant bits starts at p.
//
//vf:folded
func ueOK(b []byte, p, end int) bool {
	z := zeros(b, p, end)
	return z <= 31 && p+2*z+1 <= end
}

// ueLen is the number of bits of the code at p.
//
//vf:folded
func ueLen(b []byte, p, end int) int { return 2*zeros(b, p, end) + 1 }

// ueVal is the value of the code at p (H.264 clause 9.1).
//
//vf:folded
func ueVal(b []byte, p, end int) int {
	z := zeros(b, p, end)
	return vf.Pow2(z) - 1 + bitsVal(b, p+z+1, z)
}

// seVal is the signed mapping of clause 9.1.1.
func seVal(k int) int {
	if k%2 == 0 {
		return -(k / 2)
	}
	return (k + 1) / 2
}

func Pre_BitReader_ReadUnsignedGolomb(r *BitReader) bool  { return rdOK(r) }
func Old_BitReader_ReadUnsignedGolomb(r *BitReader) rdOld { return rdOld{rdPos(r)} }
func Mod_BitReader_ReadUnsignedGolomb(r *BitReader) {
	vf.Modifies(&r.byten)
	vf.Modifies(&r.bitn)
}

//vf:opaque bitsVal
func Post_BitReader_ReadUnsignedGolomb(r *BitReader, old rdOld, val uint32, err error) {
	b, end := r.buffer, rdEnd(r)
	ok := ueOK(b, old.pos, end)
	vf.Ensure("well formed", rdOK(r))
	vf.Ensure("succeeds exactly on a complete code", (err == nil) == ok)
	vf.Ensure("value", vf.Imp(ok, int(val) == ueVal(b, old.pos, end) && val < 0xffffffff))
	vf.Ensure("position", vf.Imp(ok, rdPos(r) == old.pos+ueLen(b, old.pos, end)))
}

func Inv_BitReader_ReadUnsignedGolomb_1(r *BitReader, val uint32, err error, zeroes uint, old rdOld) {
	b, end := r.buffer, rdEnd(r)
	p := old.pos + int(zeroes)
	vf.Inv("well formed", rdOK(r) && old.pos >= 0 && p <= end)
	vf.Inv("run of zeros so far", zeros(b, old.pos, end) == int(zeroes)+zeros(b, p, end))
	vf.Inv("bit read", vf.Imp(err == nil, rdPos(r) == p+1 && int(val) == bitsVal(b, p, 1)))
	vf.Inv("end reached", vf.Imp(err != nil, rdPos(r) == p && p == end && val == 0))
	vf.Dec(end - int(zeroes))
}

func Gen_BitReader_ReadUnsignedGolomb(g *vf.Gen) *BitReader { return genReader(g) }

func LemmaZeros(b []byte, p, end int) {
	if p < end {
		LemmaZeros(b, p+1, end)
	}
}
func Dec_LemmaZeros(b []byte, p, end int) int { return end - p }

//vf:opaque bitsVal
func Post_LemmaZeros(b []byte, p, end int) {
	vf.Ensure("not negative", zeros(b, p, end) >= 0)
	vf.Ensure("within the data", vf.Imp(p <= end, p+zeros(b, p, end) <= end))
	vf.Ensure("ends at a one", vf.Imp(p+zeros(b, p, end) < end, bitsVal(b, p+zeros(b, p, end), 1) != 0))
}

// ---- signed codes, scaling lists

func Pre_BitReader_ReadSignedGolomb(r *BitReader) bool  { return rdOK(r) }
func Old_BitReader_ReadSignedGolomb(r *BitReader) rdOld { return rdOld{rdPos(r)} }
func Mod_BitReader_ReadSignedGolomb(r *BitReader) {
	vf.Modifies(&r.byten)
	vf.Modifies(&r.bitn)
}

//vf:opaque bitsVal zeros
func Post_BitReader_ReadSignedGolomb(r *BitReader, old rdOld, val int32, err error) {
	b, end := r.buffer, rdEnd(r)
	ok := ueOK(b, old.pos, end)
	vf.Ensure("well formed", rdOK(r))
	vf.Ensure("succeeds exactly on a complete code", (err == nil) == ok)
	vf.Ensure("value", vf.Imp(ok, int(val) == seVal(ueVal(b, old.pos, end))))
	vf.Ensure("position", vf.Imp(ok, rdPos(r) == old.pos+ueLen(b, old.pos, end)))
}
func Gen_BitReader_ReadSignedGolomb(g *vf.Gen) *BitReader { return genReader(g) }

func Pre_BitReader_SkipGolomb(r *BitReader) bool  { return rdOK(r) }
func Old_BitReader_SkipGolomb(r *BitReader) rdOld { return rdOld{rdPos(r)} }
func Mod_BitReader_SkipGolomb(r *BitReader) {
	vf.Modifies(&r.byten)
	vf.Modifies(&r.bitn)
}

//vf:opaque bitsVal
func Post_BitReader_SkipGolomb(r *BitReader, old rdOld, err error) {
	b, end := r.buffer, rdEnd(r)
	ok := ueOK(b, old.pos, end)
	vf.Ensure("well formed", rdOK(r))
	vf.Ensure("succeeds exactly on a complete code", (err == nil) == ok)
	vf.Ensure("position", vf.Imp(ok, rdPos(r) == old.pos+ueLen(b, old.pos, end)))
}

func Inv_BitReader_SkipGolomb_1(r *BitReader, val uint32, err error, zeroes uint, old rdOld) {
	b, end := r.buffer, rdEnd(r)
	p := old.pos + int(zeroes)
	vf.Inv("well formed", rdOK(r) && old.pos >= 0 && p <= end)
	vf.Inv("run of zeros so far", zeros(b, old.pos, end) == int(zeroes)+zeros(b, p, end))
	vf.Inv("bit read", vf.Imp(err == nil, rdPos(r) == p+1 && int(val) == bitsVal(b, p, 1)))
	vf.Inv("end reached", vf.Imp(err != nil, rdPos(r) == p && p == end && val == 0))
	vf.Dec(end - int(zeroes))
}
func Gen_BitReader_SkipGolomb(g *vf.Gen) *BitReader { return genReader(g) }

// scaleState is the state of the scaling list syntax (clause 7.3.2.1.1.1) after
// some entries: the bit position, lastScale and nextScale.  ok drops when a delta
// is missing or outside the range -128..127 the syntax allows.
type scaleState struct {
	ok         bool
	pos        int
	last, next int
	dflt       bool
}

// scaleStep processes one entry.
func scaleStep(b []byte, end int, s scaleState, first bool) scaleState {
	if !s.ok {
		return s
	}
	if s.next != 0 {
		if !ueOK(b, s.pos, end) {
			s.ok = false
			return s
		}
		d := seVal(ueVal(b, s.pos, end))
		if d < -128 || d > 127 {
			s.ok = false
			return s
		}
		s.pos += ueLen(b, s.pos, end)
		s.next = (s.last + d + 256) % 256
		s.dflt = first && s.next == 0
	}
	if s.next != 0 {
		s.last = s.next
	}
	return s
}

// scaleAt is the state after j entries.
func scaleAt(b []byte, p, end, j int) scaleState {
	if j <= 0 {
		return scaleState{true, p, 8, 8, false}
	}
	return scaleStep(b, end, scaleAt(b, p, end, j-1), j == 1)
}

// LemmaScaleStop: a list that cannot be read stays so.
func LemmaScaleStop(b []byte, p, end, i, j int) {
	if i < j {
		LemmaScaleStop(b, p, end, i, j-1)
	}
}
func Dec_LemmaScaleStop(b []byte, p, end, i, j int) int { return j }

//vf:opaque bitsVal zeros
func Post_LemmaScaleStop(b []byte, p, end, i, j int) {
	si, sj := scaleAt(b, p, end, i), scaleAt(b, p, end, j)
	vf.Ensure("stops", vf.Imp(0 <= i && i <= j && !si.ok, !sj.ok))
}

func Pre_BitReader_ReadScalingList(r *BitReader, list []int32) bool  { return rdOK(r) }
func Old_BitReader_ReadScalingList(r *BitReader, list []int32) rdOld { return rdOld{rdPos(r)} }
func Mod_BitReader_ReadScalingList(r *BitReader, list []int32) {
	vf.Modifies(&r.byten)
	vf.Modifies(&r.bitn)
	vf.ModWithin(list)
}

//vf:opaque bitsVal zeros
func Post_BitReader_ReadScalingList(r *BitReader, list []int32, old rdOld, useDefault bool, err error) {
	b, end := r.buffer, rdEnd(r)
	s := scaleAt(b, old.pos, end, len(list))
	vf.Ensure("well formed", rdOK(r))
	vf.Ensure("succeeds exactly when every delta is present and in range", (err == nil) == s.ok)
	vf.Ensure("position", vf.Imp(err == nil, rdPos(r) == s.pos))
	vf.Ensure("default flag", vf.Imp(err == nil, useDefault == s.dflt))
	vf.Ensure("entries", vf.Imp(err == nil, vf.All(0, len(list), func(j int) bool {
		return int(list[j]) == scaleAt(b, old.pos, end, j+1).last
	})))
}

//vf:opaque bitsVal zeros
//vf:depth 1
func Inv_BitReader_ReadScalingList_1(r *BitReader, list []int32, lastScale, nextScale, delta int32, useDefault bool, err error, j int, old rdOld) {
	b, end := r.buffer, rdEnd(r)
	LemmaScaleStop(b, old.pos, end, j, len(list))
	LemmaScaleStop(b, old.pos, end, j+1, len(list))
	s := scaleAt(b, old.pos, end, j)
	vf.Inv("well formed", rdOK(r) && 0 <= j && j <= len(list))
	vf.Inv("no error so far", err == nil)
	vf.Inv("readable", s.ok)
	vf.Inv("position", rdPos(r) == s.pos)
	vf.Inv("last", int(lastScale) == s.last)
	vf.Inv("next", int(nextScale) == s.next)
	vf.Inv("default", useDefault == s.dflt)
	vf.Inv("range", 0 <= lastScale && lastScale < 256 && 0 <= nextScale && nextScale < 256)
	vf.Inv("entries", vf.All(0, j, func(k int) bool {
		return int(list[k]) == scaleAt(b, old.pos, end, k+1).last
	}))
	vf.Dec(len(list) - j)
}

func Gen_BitReader_ReadScalingList(g *vf.Gen) (*BitReader, []int32) {
	n := 1 + g.N(17)
	w := &vf.Bits{}
	for i := 0; i < n; i++ {
		switch g.N(4) {
		case 0:
			w.SE(-8)
		case 1:
			w.SE(int64(g.Int(-140, 140)))
		default:
			w.SE(int64(g.Int(-128, 127)))
		}
	}
	if g.P(20) {
		return genReader(g), make([]int32, n)
	}
	return NewBitReader(w.B), make([]int32, n)
}

// ---- trailing bits, SEI parameters

func Pre_BitReader_SkipTrailingBits(r *BitReader) bool  { return rdOK(r) }
func Old_BitReader_SkipTrailingBits(r *BitReader) rdOld { return rdOld{rdPos(r)} }
func Mod_BitReader_SkipTrailingBits(r *BitReader) {
	vf.Modifies(&r.byten)
	vf.Modifies(&r.bitn)
}

// aligned is the first byte boundary at or after p.
func aligned(p int) int { return (p + 7) / 8 * 8 }

//vf:opaque bitsVal
func Post_BitReader_SkipTrailingBits(r *BitReader, old rdOld, err error) {
	b, end := r.buffer, rdEnd(r)
	p := old.pos
	ok := p < end && bitsVal(b, p, 1) == 1 && vf.All(p+1, aligned(p+1), func(k int) bool { return bitsVal(b, k, 1) == 0 })
	vf.Ensure("well formed", rdOK(r))
	vf.Ensure("succeeds exactly on a stop bit and zero bits to the byte boundary", (err == nil) == ok)
	vf.Ensure("position", vf.Imp(ok, rdPos(r) == aligned(p+1)))
}

func Inv_BitReader_SkipTrailingBits_1(r *BitReader, old rdOld) {
	b := r.buffer
	p := old.pos
	vf.Inv("well formed", rdOK(r))
	vf.Inv("between", p+1 <= rdPos(r) && rdPos(r) <= aligned(p+1) && p < rdEnd(r) && bitsVal(b, p, 1) == 1)
	vf.Inv("zero so far", vf.All(p+1, rdPos(r), func(k int) bool { return bitsVal(b, k, 1) == 0 }))
	vf.Dec(aligned(p+1) - rdPos(r))
}
func Gen_BitReader_SkipTrailingBits(g *vf.Gen) *BitReader { return genReader(g) }

// lastOne is the position of the last one among the first n bits of b, -1 if none.
func lastOne(b []byte, n int) int {
	if n <= 0 {
		return -1
	}
	if bitAt(b, n-1) {
		return n - 1
	}
	return lastOne(b, n-1)
}

// bitAt is the bit at position p.
func bitAt(b []byte, p int) bool {
	x := b[p/8]
	switch p % 8 {
	case 0:
		return x >= 128
	case 1:
		return x/64%2 != 0
	case 2:
		return x/32%2 != 0
	case 3:
		return x/16%2 != 0
	case 4:
		return x/8%2 != 0
	case 5:
		return x/4%2 != 0
	case 6:
		return x/2%2 != 0
	}
	return x%2 != 0
}

func Pre_BitReader_MoreData(r *BitReader) bool { return rdOK(r) }
func Post_BitReader_MoreData(r *BitReader, more bool) {
	vf.Ensure("more data exactly when the last one bit is still ahead of the next bit", more == (rdPos(r) < lastOne(r.buffer, rdEnd(r))))
}

// LemmaLastRange: the last one is before the end.
func LemmaLastRange(b []byte, n int) {
	if n > 0 {
		LemmaLastRange(b, n-1)
	}
}
func Dec_LemmaLastRange(b []byte, n int) int { return n }
func Post_LemmaLastRange(b []byte, n int) {
	vf.Ensure("range", -1 <= lastOne(b, n) && (lastOne(b, n) < n || n < 0))
}

// LemmaLastZero: a zero octet holds no one.
func LemmaLastZero(b []byte, n int) {}
func Pre_LemmaLastZero(b []byte, n int) bool {
	return 0 < n && n <= len(b)
}

//vf:depth 10
func Post_LemmaLastZero(b []byte, n int) {
	vf.Ensure("skips", vf.Imp(b[n-1] == 0, lastOne(b, n*8) == lastOne(b, n*8-8)))
	vf.Ensure("within", vf.Imp(b[n-1] != 0, n*8-8 <= lastOne(b, n*8) && lastOne(b, n*8) < n*8))
}

//vf:depth 1
func Inv_BitReader_MoreData_1(r *BitReader, n uint) {
	LemmaLastZero(r.buffer, int(n))
	LemmaLastRange(r.buffer, int(n)*8)
	vf.Inv("well formed", n <= r.count && n >= r.byten)
	vf.Inv("zero behind", lastOne(r.buffer, int(n)*8) == lastOne(r.buffer, rdEnd(r)))
	vf.Dec(int(n))
}

func Inv_BitReader_MoreData_2(r *BitReader, n, stop uint, v byte) {
	x := r.buffer[n-1]
	k := int(n*8 - 1 - stop)
	vf.Inv("within the octet", v != 0 && stop < n*8 && stop >= n*8-8)
	vf.Inv("shifted", k == 0 && v == x || k == 1 && v == x/2 || k == 2 && v == x/4 || k == 3 && v == x/8 ||
		k == 4 && v == x/16 || k == 5 && v == x/32 || k == 6 && v == x/64 || k == 7 && v == x/128)
	vf.Inv("last", lastOne(r.buffer, int(stop)+1) == lastOne(r.buffer, rdEnd(r)))
	vf.Dec(int(v))
}

func Gen_BitReader_MoreData(g *vf.Gen) *BitReader {
	r := genReader(g)
	if n := len(r.buffer); n > 0 && g.P(60) {
		for k := g.N(n + 1); k < n; k++ {
			r.buffer[k] = 0
		}
		if k := g.N(n); g.P(70) {
			r.buffer[k] = byte(1) << uint(g.N(8))
		}
	}
	return r
}

// run255 is the number of consecutive 0xff octets starting at bit p.
func run255(b []byte, p, end int) int {
	if p+8 > end || bitsVal(b, p, 8) != 255 {
		return 0
	}
	return 1 + run255(b, p+8, end)
}

func Pre_BitReader_ReadPayloadParam(r *BitReader) bool {
	return rdOK(r) && len(r.buffer) < 1<<24
}
func Old_BitReader_ReadPayloadParam(r *BitReader) rdOld { return rdOld{rdPos(r)} }
func Mod_BitReader_ReadPayloadParam(r *BitReader) {
	vf.Modifies(&r.byten)
	vf.Modifies(&r.bitn)
}

//vf:opaque bitsVal
func Post_BitReader_ReadPayloadParam(r *BitReader, old rdOld, val uint32, err error) {
	b, end := r.buffer, rdEnd(r)
	n := run255(b, old.pos, end)
	q := old.pos + 8*n
	ok := q+8 <= end
	vf.Ensure("well formed", rdOK(r))
	vf.Ensure("succeeds exactly on a complete parameter", (err == nil) == ok)
	vf.Ensure("value", vf.Imp(ok, int(val) == 255*n+bitsVal(b, q, 8)))
	vf.Ensure("position", vf.Imp(ok, rdPos(r) == q+8))
}

func Inv_BitReader_ReadPayloadParam_1(r *BitReader, val uint32, old rdOld) {
	b, end := r.buffer, rdEnd(r)
	vf.Inv("well formed", rdOK(r))
	k := (rdPos(r) - old.pos) / 8
	vf.Inv("octets so far", rdPos(r) >= old.pos && (rdPos(r)-old.pos)%8 == 0 && int(val) == 255*k)
	vf.Inv("run", run255(b, old.pos, end) == k+run255(b, rdPos(r), end))
	vf.Dec(end - rdPos(r))
}
func Gen_BitReader_ReadPayloadParam(g *vf.Gen) *BitReader {
	if g.P(30) {
		return genReader(g)
	}
	n := g.N(6)
	b := []byte{}
	for i := 0; i < n; i++ {
		b = append(b, 255)
	}
	return NewBitReader(append(b, g.Bytes(3)...))
}
