package h264

import "github.com/aboukirev/ouro/internal/vf"

// isPacket: the payload is an aggregation or fragmentation packet.
func isPacket(buf []byte) bool {
	return len(buf) > 0 && nalType(buf) >= typeStapA && nalType(buf) <= typeFuB
}

// isPlain: h is the header of an ordinary unit.
func isPlain(h byte) bool { return h&31 < typeStapA || h&31 > typeFuB }

// plain: every unit of an Annex B stream is an ordinary one.
func plain(buf []byte) bool {
	return len(buf) > 0 && isPlain(buf[unitStart(buf, len(buf))]) && vf.All(0, len(buf), func(p int) bool {
		vf.Pat(unitsTo(buf, p))
		return vf.Imp(isUnit(buf, p), isPlain(buf[unitStart(buf, p)]))
	})
}

// unitAt is where unit i ends, before q.
func unitAt(b []byte, i, q int) int {
	if q <= 0 {
		return -1
	}
	if isUnit(b, q-1) && unitsTo(b, q-1) == i {
		return q - 1
	}
	return unitAt(b, i, q-1)
}
func LemmaUnitAt(b []byte, i, q int) {
	if q > 0 {
		LemmaUnitAt(b, i, q-1)
	}
}
func Pre_LemmaUnitAt(b []byte, i, q int) bool { return 0 <= i && i < unitsTo(b, q) }
func Dec_LemmaUnitAt(b []byte, i, q int) int  { return q }
func Post_LemmaUnitAt(b []byte, i, q int) {
	p := unitAt(b, i, q)
	vf.Ensure("there", 0 <= p && p < q && isUnit(b, p) && unitsTo(b, p) == i)
}

func Old_NALSink_Push(s *NALSink, buf []byte, ts uint32) sinkOld {
	var o sinkOld
	if isPacket(buf) {
		o = nalOld(s, buf)
	} else {
		o = snapSink(s)
	}
	o.units = o.units[:0]
	o.buf = buf
	return o
}
func Mod_NALSink_Push(s *NALSink, buf []byte, ts uint32) {
	vf.Modifies(&s.Units)
	vf.Modifies(&s.Fragments)
	vf.Modifies(&s.Don)
	vf.ModElems(s.Units)
	vf.ModElems(s.Fragments)
}
func Case_NALSink_Push(s *NALSink, buf []byte, ts uint32) int {
	if len(buf) == 0 {
		return 0
	}
	if !isPacket(buf) {
		if plain(buf) {
			return 1
		}
		return 2
	}
	t := nalType(buf)
	if t <= typeStapB {
		return 3
	}
	if t <= typeMtap24 {
		return 4
	}
	if len(buf) < fuHdr(buf) {
		return 5
	}
	if t == typeFuA {
		return 6
	}
	return 7
}

func Before_NALSink_Push_NALSink_parseNAL(old sinkOld, s *NALSink, buf []byte, ts uint32) {
	if !isPacket(old.buf) && len(old.buf) > 0 && plain(old.buf) {
		vf.Assert("ordinary unit", len(buf) > 0 && isPlain(buf[0]))
	}
	if len(old.buf) == 0 {
		vf.Assert("nothing", len(buf) == 0)
	}
	if isPacket(old.buf) {
		vf.Assert("the packet", len(buf) == len(old.buf) && buf[0] == old.buf[0])
	}
}

func After_NALSink_Push_NALSink_parseNAL(old, cold sinkOld, s *NALSink, buf []byte, ts uint32, err error) {
	if !isPacket(old.buf) && len(old.buf) > 0 && plain(old.buf) {
		b := old.buf
		k := len(cold.units)
		u := s.Units[k]
		vf.Assert("this unit", vf.All(0, len(b), func(p int) bool {
			i := unitsTo(b, p)
			vf.Pat(i)
			return vf.Imp(isUnit(b, p) && i == k, opaqueUnit(buf[0], buf[1:], b[unitStart(b, p):unitEnd(b, p)]))
		}))
		vf.Assert("the same unit", vf.All(0, len(b), func(p int) bool {
			i := unitsTo(b, p)
			vf.Pat(i)
			return vf.Imp(isUnit(b, p) && i == k, opaqueUnit(u.Header, u.Data, b[unitStart(b, p):unitEnd(b, p)]))
		}))
		vf.Assert("earlier units before", vf.All(0, len(b), func(p int) bool {
			i := unitsTo(b, p)
			LemmaUnits(b, p)
			vf.Pat(i)
			return vf.Imp(isUnit(b, p) && i < k, opaqueUnit(cold.units[i].Header, cold.units[i].Data, b[unitStart(b, p):unitEnd(b, p)]))
		}))
		vf.Assert("earlier units", vf.All(0, len(b), func(p int) bool {
			i := unitsTo(b, p)
			LemmaUnits(b, p)
			vf.Pat(i)
			return vf.Imp(isUnit(b, p) && i < k, opaqueUnit(s.Units[i].Header, s.Units[i].Data, b[unitStart(b, p):unitEnd(b, p)]))
		}))
	}
	if isPacket(old.buf) {
		t := nalType(old.buf)
		b1, b2 := buf[1:], old.buf[1:]
		vf.Assert("same octets", vf.SameBytes(b1, b2))
		if t == typeStapA || t == typeStapB {
			p := stapBase(byte(t))
			LemmaAggSame(b1, b2, 2, p)
			n := aggN(b2, 2, p)
			vf.Assert("units of the copy", vf.All(0, n, func(i int) bool {
				LemmaAggPos(b1, b2, 2, p, i)
				q := aggPos(b2, 2, p, i)
				z := q + 2 + aggSize(b2, q)
				LemmaRawExt(s.Units[i].Data, b1[q+3:z], b2[q+3:z])
				vf.Pat(q)
				return aggPos(b1, 2, p, i) == q && aggFits(b2, 2, q) && s.Units[i].Header == b2[q+2] && opaqueRaw(s.Units[i].Data, b2[q+3:z])
			}))
		} else if t == typeMtap16 || t == typeMtap24 {
			h := mtapHdr(byte(t))
			LemmaAggSame(b1, b2, h, 2)
			n := aggN(b2, h, 2)
			vf.Assert("units of the copy", vf.All(0, n, func(i int) bool {
				LemmaAggPos(b1, b2, h, 2, i)
				q := aggPos(b2, h, 2, i)
				z := q + h + aggSize(b2, q)
				LemmaRawExt(s.Units[i].Data, b1[q+h+1:z], b2[q+h+1:z])
				vf.Pat(q)
				return aggPos(b1, h, 2, i) == q && aggFits(b2, h, q) && s.Units[i].Header == b2[q+h] && opaqueRaw(s.Units[i].Data, b2[q+h+1:z])
			}))
		} else if isFU(old.buf) {
			data := buf[fuHdr(buf):]
			LemmaJoinSame(cold.cat, old.cat, cold.frags, old.frags, data, old.data)
			if buf[1]&0x40 != 0 && len(s.Units) > 0 {
				u := s.Units[0]
				vf.Assert("same data", vf.Imp(buf[1]&0x80 != 0 || len(old.frags) > 0, opaqueRaw(u.Data, cold.cat)))
				LemmaRawExt(u.Data, cold.cat, old.cat)
			}
		}
	}
}

// LemmaAggSame: the units depend on the octets only.
func LemmaAggSame(a, b []byte, h, p int) {
	if h >= 2 && aggFits(a, h, p) {
		LemmaAggSame(a, b, h, p+h+aggSize(a, p))
	}
}
func Pre_LemmaAggSame(a, b []byte, h, p int) bool { return vf.SameBytes(a, b) && p >= 0 }
func Dec_LemmaAggSame(a, b []byte, h, p int) int  { return len(a) - p }
func Post_LemmaAggSame(a, b []byte, h, p int) {
	vf.Ensure("same", aggN(a, h, p) == aggN(b, h, p) && aggBad(a, h, p) == aggBad(b, h, p))
}

// LemmaAggPos: unit i is at the same place.
func LemmaAggPos(a, b []byte, h, p, i int) {
	if i > 0 {
		LemmaAggPos(a, b, h, p, i-1)
	}
}
func Pre_LemmaAggPos(a, b []byte, h, p, i int) bool {
	return vf.SameBytes(a, b) && h >= 2 && vf.All(0, i, func(k int) bool {
		vf.Pat(aggPos(a, h, p, k))
		return aggFits(a, h, aggPos(a, h, p, k))
	})
}
func Dec_LemmaAggPos(a, b []byte, h, p, i int) int { return i }
func Post_LemmaAggPos(a, b []byte, h, p, i int) {
	vf.Ensure("same", aggPos(a, h, p, i) == aggPos(b, h, p, i))
}

//vf:cases 8
//vf:opaque opaqueRaw opaqueUnit kept unitStart unitsTo unitAt
func Post_NALSink_Push(s *NALSink, buf []byte, ts uint32, old sinkOld, err error) {
	if isPacket(buf) {
		packetPost(s, buf, ts, old, err)
	} else if len(buf) == 0 {
		vf.Ensure("@C12 nothing: rejected", err != nil && len(s.Units) == 0)
	} else if plain(buf) {
		n := len(buf)
		m := unitsTo(buf, n)
		vf.Ensure("@C12 accepted", err == nil)
		vf.Ensure("@C12 number of units", len(s.Units) == m+1)
		vf.Ensure("@C12 units in order", vf.All(0, n, func(p int) bool {
			i := unitsTo(buf, p)
			LemmaUnitsMono(buf, p, n)
			LemmaUnits(buf, p)
			vf.Pat(i)
			return !isUnit(buf, p) || (i < m && theUnit(s.Units[i], buf[unitStart(buf, p):unitEnd(buf, p)], old.don+uint16(i), ts))
		}))
		vf.Ensure("@C12 last unit", theUnit(s.Units[m], buf[unitStart(buf, n):], old.don+uint16(m), ts))
		vf.Ensure("@C12 next number", s.Don == old.don+uint16(m)+1)
		vf.Ensure("@C12 fragments stay", sameFrags(s, old))
	}
}

// LemmaUnitsMono: the number of units grows.
func LemmaUnitsMono(b []byte, p, q int) {
	if p < q {
		LemmaUnitsMono(b, p, q-1)
	}
}
func Pre_LemmaUnitsMono(b []byte, p, q int) bool { return 0 <= p && p <= q }
func Dec_LemmaUnitsMono(b []byte, p, q int) int  { return q }
func Post_LemmaUnitsMono(b []byte, p, q int) {
	vf.Ensure("grows", unitsTo(b, p) <= unitsTo(b, q) && vf.Imp(isUnit(b, p) && p < q, unitsTo(b, p) < unitsTo(b, q)))
}

// theUnit: u is the unit x of a stream.
func theUnit(u NALUnit, x []byte, don uint16, ts uint32) bool {
	return u.Don == don && u.TS == ts && opaqueUnit(u.Header, u.Data, x)
}

func Inv_NALSink_Push_1(s *NALSink, buf []byte, ts uint32, old sinkOld, it int) {
	n := len(buf)
	m := unitsTo(buf, n)
	LemmaUnits(buf, n)
	LemmaStep(buf, 0)
	vf.Inv("in range", 0 <= it && it <= m+1)
	LemmaUnitAt(buf, it, n)
	LemmaUnitStart(buf, n)
	if n == 0 {
		vf.Inv("nothing yet", it == 0 && len(s.Units) == 0)
	} else if plain(buf) {
		vf.Inv("number", len(s.Units) == it && s.Don == old.don+uint16(it))
		vf.Inv("units so far", vf.All(0, it, func(i int) bool {
			return s.Units[i].Don == old.don+uint16(i) && s.Units[i].TS == ts
		}))
		vf.Inv("data so far", vf.All(0, n, func(p int) bool {
			i := unitsTo(buf, p)
			LemmaUnits(buf, p)
			vf.Pat(i)
			return vf.Imp(isUnit(buf, p) && i < it, opaqueUnit(s.Units[i].Header, s.Units[i].Data, buf[unitStart(buf, p):unitEnd(buf, p)]))
		}))
		vf.Inv("last unit", vf.Imp(it > m, opaqueUnit(s.Units[m].Header, s.Units[m].Data, buf[unitStart(buf, n):])))
		vf.Inv("fragments", sameFrags(s, old))
	}
	vf.Dec(m + 1 - it)
}
func Gen_NALSink_Push(g *vf.Gen) (*NALSink, []byte, uint32) {
	return genSink(g), genPayload(g), g.U32()
}
