package h264

import "github.com/aboukirev/ouro/internal/vf"

func nalType(buf []byte) int { return int(buf[0]) & 31 }

// fuHdr is the number of octets in front of the data of a fragment.
func fuHdr(buf []byte) int {
	if len(buf) > 0 && nalType(buf) == typeFuB {
		return 4
	}
	return 2
}

// isFU: the payload is a whole fragment.
func isFU(buf []byte) bool {
	return len(buf) > 0 && (nalType(buf) == typeFuA || nalType(buf) == typeFuB) && len(buf) >= fuHdr(buf)
}

func nalOld(s *NALSink, buf []byte) sinkOld {
	o := snapSink(s)
	if isFU(buf) {
		if buf[1]&0x80 != 0 {
			o.frags = o.frags[:0]
		}
		o.cat = Joined(o.frags, buf[fuHdr(buf):])
		o.data = buf[fuHdr(buf):]
	}
	return o
}

func Old_NALSink_parseNAL(s *NALSink, buf []byte, ts uint32) sinkOld { return nalOld(s, buf) }
func Mod_NALSink_parseNAL(s *NALSink, buf []byte, ts uint32) {
	vf.Modifies(&s.Units)
	vf.Modifies(&s.Fragments)
	vf.Modifies(&s.Don)
	vf.ModElems(s.Units)
	vf.ModElems(s.Fragments)
}

func Case_NALSink_parseNAL(s *NALSink, buf []byte, ts uint32) int {
	if len(buf) == 0 {
		return 0
	}
	t := nalType(buf)
	if t < typeStapA || t > typeFuB {
		return 1
	}
	if t <= typeStapB {
		return 2
	}
	if t <= typeMtap24 {
		return 3
	}
	if len(buf) < fuHdr(buf) {
		return 4
	}
	if t == typeFuA {
		return 5
	}
	return 6
}

//vf:cases 7
//vf:opaque opaqueRaw kept
func Post_NALSink_parseNAL(s *NALSink, buf []byte, ts uint32, old sinkOld, err error) {
	vf.Ensure("memory of the queues", vf.Stays(s.Units, old.u0) && vf.Stays(s.Fragments, old.f0))
	if len(buf) > 0 && nalType(buf) < typeStapA || len(buf) > 0 && nalType(buf) > typeFuB {
		k := len(old.units)
		vf.Ensure("accepted", err == nil)
		vf.Ensure("earlier units stay", keeps(s, old))
		vf.Ensure("one unit", len(s.Units) == k+1)
		u := s.Units[k]
		vf.Ensure("the unit", u.Header == buf[0] && u.Don == old.don && u.TS == ts && vf.Same(u.Data, buf[1:]))
		vf.Ensure("next number", s.Don == old.don+1)
		vf.Ensure("fragments stay", sameFrags(s, old))
	} else {
		packetPost(s, buf, ts, old, err)
	}
}

func sameFrags(s *NALSink, old sinkOld) bool {
	return len(s.Fragments) == len(old.frags) && vf.All(0, len(old.frags), func(i int) bool {
		return sameUnit(s.Fragments[i].NALUnit, old.frags[i].NALUnit) && s.Fragments[i].Flags == old.frags[i].Flags
	})
}

// packetPost: what becomes of an aggregation or fragmentation packet.
func packetPost(s *NALSink, buf []byte, ts uint32, old sinkOld, err error) {
	k := len(old.units)
	if len(buf) < 1 {
		vf.Ensure("no payload: rejected", err != nil && len(s.Units) == k && s.Don == old.don && keeps(s, old))
	} else if nalType(buf) == typeStapA || nalType(buf) == typeStapB {
		vf.Ensure("@C10@C12 fragments stay", sameFrags(s, old))
		stapPost(s, buf[0]&0x1f, buf[1:], ts, old, err)
	} else if nalType(buf) == typeMtap16 || nalType(buf) == typeMtap24 {
		vf.Ensure("@C10@C12 fragments stay", sameFrags(s, old))
		mtapPost(s, buf[0]&0x1f, buf[1:], ts, old, err)
	} else if len(buf) < fuHdr(buf) {
		vf.Ensure("short fragment: rejected", err != nil && len(s.Units) == k && s.Don == old.don && keeps(s, old))
		vf.Ensure("short fragment: fragments stay", sameFrags(s, old))
	} else {
		vf.Ensure("fragment accepted", err == nil)
		vf.Ensure("numbering goes on", s.Don == old.don)
		fragPost(s, buf[0]&0x60|buf[1]&0x1f, buf[1], fuDon(buf, old), ts, buf[fuHdr(buf):], old)
	}
}

func fuDon(buf []byte, old sinkOld) uint16 {
	if nalType(buf) == typeFuB {
		return uint16(be16(buf, 2))
	}
	return old.don
}

func After_NALSink_parseNAL_NALSink_AddFragment(old, cold sinkOld, s *NALSink, indicator byte, header byte, don uint16, ts uint32, data []byte) {
	LemmaJoinSame(cold.cat, old.cat, cold.frags, old.frags, data, old.data)
	if header&0x40 != 0 && len(s.Units) > len(old.units) {
		u := s.Units[len(old.units)]
		vf.Assert("same data", vf.Imp(header&0x80 != 0 || len(old.frags) > 0, opaqueRaw(u.Data, cold.cat)))
		LemmaRawExt(u.Data, cold.cat, old.cat)
	}
}

// LemmaJoinSame: a join depends on the octets only.
func LemmaJoinSame(c1, c2 []byte, f1, f2 []NALFragment, d1, d2 []byte) {}
func Pre_LemmaJoinSame(c1, c2 []byte, f1, f2 []NALFragment, d1, d2 []byte) bool {
	return isJoin(c1, f1, d1) && isJoin(c2, f2, d2) && vf.SameBytes(d1, d2) && sameData(f1, f2, len(f1)) && len(f1) == len(f2)
}
func Post_LemmaJoinSame(c1, c2 []byte, f1, f2 []NALFragment, d1, d2 []byte) {
	LemmaPlenSame(f1, f2, len(f1))
	vf.Assert("length", len(c1) == len(c2))
	vf.Ensure("same", len(c1) == len(c2) && vf.All(0, len(c1), func(x int) bool {
		LemmaJoinAt(c1, c2, f1, f2, len(f1), x)
		return c1[x] == c2[x]
	}))
}

// sameData: the first n fragments have the same octets.
func sameData(f1, f2 []NALFragment, n int) bool {
	return n <= len(f1) && n <= len(f2) && vf.All(0, n, func(i int) bool { return vf.Same(f1[i].Data, f2[i].Data) })
}

func LemmaPlenSame(f1, f2 []NALFragment, n int) {
	if n > 0 {
		LemmaPlenSame(f1, f2, n-1)
	}
}
func Pre_LemmaPlenSame(f1, f2 []NALFragment, n int) bool { return sameData(f1, f2, n) }
func Dec_LemmaPlenSame(f1, f2 []NALFragment, n int) int  { return n }
func Post_LemmaPlenSame(f1, f2 []NALFragment, n int) {
	vf.Ensure("same", plen(f1, n) == plen(f2, n))
}

// LemmaJoinAt: the octet at x, which lies in the first n fragments.
func LemmaJoinAt(c1, c2 []byte, f1, f2 []NALFragment, n, x int) {
	if n > 0 {
		LemmaPlenSame(f1, f2, n)
		LemmaPlenSame(f1, f2, n-1)
		LemmaPlen(f1, n-1, n)
		LemmaJoinAt(c1, c2, f1, f2, n-1, x)
	}
}
func Pre_LemmaJoinAt(c1, c2 []byte, f1, f2 []NALFragment, n, x int) bool {
	return sameData(f1, f2, n) && 0 <= n && n <= len(f1) && len(f1) == len(f2) && 0 <= x && x < len(c1) && len(c1) == len(c2) &&
		vf.All(0, n, func(i int) bool {
			return vf.All(0, len(f1[i].Data), func(j int) bool { return c1[plen(f1, i)+j] == f1[i].Data[j] })
		}) &&
		vf.All(0, n, func(i int) bool {
			return vf.All(0, len(f2[i].Data), func(j int) bool { return c2[plen(f2, i)+j] == f2[i].Data[j] })
		})
}
func Dec_LemmaJoinAt(c1, c2 []byte, f1, f2 []NALFragment, n, x int) int { return n }
func Post_LemmaJoinAt(c1, c2 []byte, f1, f2 []NALFragment, n, x int) {
	vf.Ensure("same", vf.Imp(x < plen(f1, n), c1[x] == c2[x]))
}

func genPayload(g *vf.Gen) []byte {
	nri := g.Byte() & 0xe0
	switch g.N(8) {
	case 0:
		return genAgg(g, 2, []byte{nri | typeStapA})
	case 1:
		return genAgg(g, 2, []byte{nri | typeStapB, g.Byte(), g.Byte()})
	case 2:
		return genAgg(g, 5, []byte{nri | typeMtap16, g.Byte(), g.Byte()})
	case 3:
		return genAgg(g, 6, []byte{nri | typeMtap24, g.Byte(), g.Byte()})
	case 4, 5:
		return append([]byte{nri | byte(typeFuA+g.N(2)), []byte{0x80, 0x40, 0xc0, 0}[g.N(4)] | g.Byte()&0x1f}, genEmul(g)...)
	default:
		b := genEmul(g)
		for g.N(3) == 0 {
			b = append(append(b, 0, 0, 1, g.Byte()), genEmul(g)...)
		}
		return b
	}
}
func Gen_NALSink_parseNAL(g *vf.Gen) (*NALSink, []byte, uint32) {
	return genSink(g), genPayload(g), g.U32()
}
