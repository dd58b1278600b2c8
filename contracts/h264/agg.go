package h264

import "github.com/aboukirev/ouro/internal/vf"

// Aggregation packets (RFC 6184, 5.7): units, each behind a header of h octets
// that begins with a 16 bit size.

func aggSize(b []byte, p int) int { return be16(b, p) }

// aggFits: there is a whole unit at p.
func aggFits(b []byte, h, p int) bool {
	return 0 <= p && p+h <= len(b) && aggSize(b, p) > 0 && p+h+aggSize(b, p) <= len(b)
}

// aggN is the number of units from p on.
func aggN(b []byte, h, p int) int {
	if h < 2 || !aggFits(b, h, p) {
		return 0
	}
	return 1 + aggN(b, h, p+h+aggSize(b, p))
}

// aggBad: after the units from p on there is a malformed one.
func aggBad(b []byte, h, p int) bool {
	if h < 2 || p < 0 || p+h > len(b) {
		return false
	}
	if !aggFits(b, h, p) {
		return true
	}
	return aggBad(b, h, p+h+aggSize(b, p))
}

// aggPos is the place of unit i.
func aggPos(b []byte, h, p, i int) int {
	if i <= 0 {
		return p
	}
	q := aggPos(b, h, p, i-1)
	return q + h + aggSize(b, q)
}

// aggUnit: u is the unit at q.
func aggUnit(u NALUnit, b []byte, h, q int, don uint16, ts uint32) bool {
	return u.Header == b[q+h] && u.Don == don && u.TS == ts && opaqueRaw(u.Data, b[q+h+1:q+h+aggSize(b, q)])
}

// stapUnits: the units n0… of s are k units from p on.
func stapUnits(s *NALSink, n0 int, b []byte, p, k int, don uint16, ts uint32) bool {
	return len(s.Units) == n0+k && vf.All(0, k, func(i int) bool {
		q := aggPos(b, 2, p, i)
		vf.Pat(aggPos(b, 2, p, i))
		return aggFits(b, 2, q) && aggUnit(s.Units[n0+i], b, 2, q, don+uint16(i), ts)
	})
}

func Pre_NALSink_parseSTAP(s *NALSink, typ byte, buf []byte, ts uint32) bool {
	return (typ == typeStapA || typ == typeStapB)
}
func Old_NALSink_parseSTAP(s *NALSink, typ byte, buf []byte, ts uint32) sinkOld { return snapSink(s) }
func Mod_NALSink_parseSTAP(s *NALSink, typ byte, buf []byte, ts uint32) {
	vf.Modifies(&s.Units)
	vf.Modifies(&s.Don)
	vf.ModElems(s.Units)
}

func stapBase(typ byte) int {
	if typ == typeStapB {
		return 2
	}
	return 0
}
func stapDon(typ byte, b []byte, don uint16) uint16 {
	if typ == typeStapB {
		return uint16(be16(b, 0))
	}
	return don
}

//vf:opaque opaqueRaw kept
func Post_NALSink_parseSTAP(s *NALSink, typ byte, buf []byte, ts uint32, old sinkOld, err error) {
	stapPost(s, typ, buf, ts, old, err)
}
func stapPost(s *NALSink, typ byte, buf []byte, ts uint32, old sinkOld, err error) {
	p := stapBase(typ)
	k := len(old.units)
	vf.Ensure("earlier units stay", keeps(s, old))
	vf.Ensure("memory of the queue", vf.Stays(s.Units, old.u0))
	if len(buf) < p {
		vf.Ensure("no number: rejected", err != nil && len(s.Units) == k && s.Don == old.don)
	} else {
		n := aggN(buf, 2, p)
		don := stapDon(typ, buf, old.don)
		vf.Ensure("malformed unit rejected", (err != nil) == aggBad(buf, 2, p))
		vf.Ensure("number of units", len(s.Units) == k+n)
		vf.Ensure("all units in order", stapUnits(s, k, buf, p, n, don, ts))
		vf.Ensure("next number", s.Don == don+uint16(n))
	}
}
func Inv_NALSink_parseSTAP_1(s *NALSink, typ byte, buf, buf0 []byte, ts uint32, old sinkOld) {
	p0 := stapBase(typ)
	don := stapDon(typ, buf0, old.don)
	p := len(buf0) - len(buf)
	n0 := len(old.units)
	k := len(s.Units) - n0
	vf.Inv("in range", p0 <= p && p0 <= len(buf0) && 0 <= k && k <= p && vf.SubOf(buf, buf0, p))
	vf.Inv("place", p == aggPos(buf0, 2, p0, k))
	vf.Inv("units left", aggN(buf0, 2, p0) == k+aggN(buf0, 2, p) && aggBad(buf0, 2, p0) == aggBad(buf0, 2, p))
	vf.Inv("number", s.Don == don+uint16(k))
	vf.Inv("kept", keeps(s, old))
	vf.Inv("units so far", stapUnits(s, n0, buf0, p0, k, don, ts))
	vf.Dec(len(buf))
}

func genAgg(g *vf.Gen, h int, lead []byte) []byte {
	b := append([]byte{}, lead...)
	for n := g.N(4); n > 0; n-- {
		d := genEmul(g)
		z := len(d) + 1
		if g.N(12) == 0 {
			z += g.N(5) - 2
			if g.N(2) == 0 || z < 0 {
				z = 0
			}
		}
		b = append(b, byte(z>>8), byte(z))
		b = append(b, g.Bytes(h-2)...)
		b = append(b, g.Byte())
		b = append(b, d...)
	}
	if g.N(4) == 0 {
		b = append(b, g.Bytes(g.N(7))...)
	}
	if g.N(6) == 0 && len(b) > 0 {
		b = b[:g.N(len(b))]
	}
	return b
}
func Gen_NALSink_parseSTAP(g *vf.Gen) (*NALSink, byte, []byte, uint32) {
	if g.N(2) == 0 {
		return genSink(g), typeStapA, genAgg(g, 2, nil), g.U32()
	}
	return genSink(g), typeStapB, genAgg(g, 2, g.Bytes(2)), g.U32()
}

// ---- multi-time aggregation packets

func mtapHdr(typ byte) int {
	if typ == typeMtap24 {
		return 6
	}
	return 5
}
func mtapOff(typ byte, b []byte, q int) uint32 {
	if typ == typeMtap24 {
		return uint32(b[q+3])<<16 | uint32(b[q+4])<<8 | uint32(b[q+5])
	}
	return uint32(b[q+3])<<8 | uint32(b[q+4])
}

// The units n0… of s are the k units of b.
func mtapHdrs(s *NALSink, n0 int, typ byte, b []byte, k int) bool {
	h := mtapHdr(typ)
	return len(s.Units) == n0+k &&
		vf.All(0, k, func(i int) bool {
			q := aggPos(b, h, 2, i)
			vf.Pat(aggPos(b, h, 2, i))
			return aggFits(b, h, q) && s.Units[n0+i].Header == b[q+h]
		})
}
func mtapDons(s *NALSink, n0 int, typ byte, b []byte, k int) bool {
	h := mtapHdr(typ)
	return vf.All(0, k, func(i int) bool {
		q := aggPos(b, h, 2, i)
		vf.Pat(aggPos(b, h, 2, i))
		return s.Units[n0+i].Don == uint16(be16(b, 0))+uint16(b[q+2])
	})
}
func mtapTimes(s *NALSink, n0 int, typ byte, b []byte, k int, ts uint32) bool {
	h := mtapHdr(typ)
	return vf.All(0, k, func(i int) bool {
		q := aggPos(b, h, 2, i)
		vf.Pat(aggPos(b, h, 2, i))
		return s.Units[n0+i].TS == ts+mtapOff(typ, b, q)
	})
}
func mtapData(s *NALSink, n0 int, typ byte, b []byte, k int) bool {
	h := mtapHdr(typ)
	return vf.All(0, k, func(i int) bool {
		vf.Pat(aggPos(b, h, 2, i))
		return mtapDatum(s, n0, typ, b, i)
	})
}
func mtapDatum(s *NALSink, n0 int, typ byte, b []byte, i int) bool {
	h := mtapHdr(typ)
	q := aggPos(b, h, 2, i)
	return opaqueRaw(s.Units[n0+i].Data, b[q+h+1:q+h+aggSize(b, q)])
}

func Pre_NALSink_parseMTAP(s *NALSink, typ byte, buf []byte, ts uint32) bool {
	return (typ == typeMtap16 || typ == typeMtap24)
}
func Old_NALSink_parseMTAP(s *NALSink, typ byte, buf []byte, ts uint32) sinkOld { return snapSink(s) }
func Mod_NALSink_parseMTAP(s *NALSink, typ byte, buf []byte, ts uint32) {
	vf.Modifies(&s.Units)
	vf.Modifies(&s.Don)
	vf.ModElems(s.Units)
}

//vf:opaque opaqueRaw kept
//vf:split typ 26..27
func Post_NALSink_parseMTAP(s *NALSink, typ byte, buf []byte, ts uint32, old sinkOld, err error) {
	mtapPost(s, typ, buf, ts, old, err)
}
func mtapPost(s *NALSink, typ byte, buf []byte, ts uint32, old sinkOld, err error) {
	k := len(old.units)
	h := mtapHdr(typ)
	vf.Ensure("earlier units stay", keeps(s, old))
	vf.Ensure("memory of the queue", vf.Stays(s.Units, old.u0))
	if len(buf) < 2 {
		vf.Ensure("no number: rejected", err != nil && len(s.Units) == k && s.Don == old.don)
	} else {
		n := aggN(buf, h, 2)
		vf.Ensure("malformed unit rejected", (err != nil) == aggBad(buf, h, 2))
		vf.Ensure("number of units", len(s.Units) == k+n)
		vf.Ensure("headers in order", mtapHdrs(s, k, typ, buf, n))
		vf.Ensure("numbers relative to the base", mtapDons(s, k, typ, buf, n))
		vf.Ensure("times relative to the packet", mtapTimes(s, k, typ, buf, n, ts))
		vf.Ensure("data in order", mtapData(s, k, typ, buf, n))
		vf.Ensure("base number", s.Don == uint16(be16(buf, 0)))
	}
}
func Inv_NALSink_parseMTAP_1(s *NALSink, typ byte, buf, buf0 []byte, ts uint32, old sinkOld) {
	h := mtapHdr(typ)
	p := len(buf0) - len(buf)
	n0 := len(old.units)
	k := len(s.Units) - n0
	vf.Inv("in range", 2 <= p && 2 <= len(buf0) && 0 <= k && k <= p && vf.SubOf(buf, buf0, p))
	vf.Inv("place", p == aggPos(buf0, h, 2, k))
	vf.Inv("units left", aggN(buf0, h, 2) == k+aggN(buf0, h, p) && aggBad(buf0, h, 2) == aggBad(buf0, h, p))
	vf.Inv("number", s.Don == uint16(be16(buf0, 0)))
	vf.Inv("kept", keeps(s, old))
	vf.Inv("headers so far", mtapHdrs(s, n0, typ, buf0, k))
	vf.Inv("numbers so far", mtapDons(s, n0, typ, buf0, k))
	vf.Inv("times so far", mtapTimes(s, n0, typ, buf0, k, ts))
	vf.Inv("last data", vf.Imp(k > 0, mtapDatum(s, n0, typ, buf0, k-1)))
	vf.Inv("data so far", mtapData(s, n0, typ, buf0, k))
	vf.Dec(len(buf))
}
func Gen_NALSink_parseMTAP(g *vf.Gen) (*NALSink, byte, []byte, uint32) {
	if g.N(2) == 0 {
		return genSink(g), typeMtap16, genAgg(g, 5, g.Bytes(2)), g.U32()
	}
	return genSink(g), typeMtap24, genAgg(g, 6, g.Bytes(2)), g.U32()
}
