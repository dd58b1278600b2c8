package h264

import "github.com/aboukirev/ouro/internal/vf"

func be16(b []byte, p int) int { return int(b[p])<<8 | int(b[p+1]) }

// ---- accessors

func Post_NALUnit_ZeroBit(u *NALUnit, z bool) { vf.Ensure("bit", z == (u.Header>>7 == 0)) }
func Gen_NALUnit_ZeroBit(g *vf.Gen) *NALUnit  { return &NALUnit{Header: g.Byte()} }
func Post_NALUnit_RefIdc(u *NALUnit, r byte)  { vf.Ensure("bits", int(r) == int(u.Header)/32%4) }
func Gen_NALUnit_RefIdc(g *vf.Gen) *NALUnit   { return &NALUnit{Header: g.Byte()} }
func Post_NALUnit_Type(u *NALUnit, t byte)    { vf.Ensure("bits", int(t) == int(u.Header)%32) }
func Gen_NALUnit_Type(g *vf.Gen) *NALUnit     { return &NALUnit{Header: g.Byte()} }
func Post_NALFragment_IsStart(f NALFragment, s bool) {
	vf.Ensure("bit", s == (f.Flags>>7 == 1))
}
func Gen_NALFragment_IsStart(g *vf.Gen) NALFragment { return NALFragment{Flags: g.Byte()} }
func Post_NALFragment_IsEnd(f NALFragment, s bool)  { vf.Ensure("bit", s == (f.Flags>>6&1 == 1)) }
func Gen_NALFragment_IsEnd(g *vf.Gen) NALFragment   { return NALFragment{Flags: g.Byte()} }

func Post_NewNALSink(s *NALSink) {
	vf.Ensure("empty", vf.Fresh(s) && len(s.Units) == 0 && len(s.Fragments) == 0 && s.Don == 0)
}
func Gen_NewNALSink(g *vf.Gen) {}

// ---- decoding order numbers

func Post_DonDiff(don1, don2 uint16, diff int) {
	vf.Ensure("congruent", (int(don1)+diff-int(don2))%65536 == 0)
	vf.Ensure("shortest way round", -32768 <= diff && diff <= 32768)
	vf.Ensure("half way round", vf.Imp(diff == 32768, don1 > don2) && vf.Imp(diff == -32768, don1 < don2))
}
func Gen_DonDiff(g *vf.Gen) (uint16, uint16) {
	a := g.Int(0, 65535)
	b := g.Int(0, 65535)
	if g.N(3) == 0 {
		b = (a + 32767 + g.N(3)) % 65536
	}
	return uint16(a), uint16(b)
}

// ---- the sink

type sinkOld struct {
	units []NALUnit
	frags []NALFragment
	don   uint16
	cat   []byte
	data  []byte
	buf   []byte
	u0    []NALUnit
	f0    []NALFragment
}

func snapSink(s *NALSink) sinkOld {
	return sinkOld{units: vf.SnapOf(s.Units).([]NALUnit), frags: vf.SnapOf(s.Fragments).([]NALFragment), don: s.Don, u0: s.Units, f0: s.Fragments}
}

func sameUnit(a, b NALUnit) bool {
	return a.Header == b.Header && a.Don == b.Don && a.TS == b.TS && vf.Same(a.Data, b.Data)
}

// keeps: the first n units are those of old.
func keeps(s *NALSink, old sinkOld) bool {
	return len(s.Units) >= len(old.units) && vf.All(0, len(old.units), func(i int) bool {
		vf.Pat(int(s.Units[i].Header))
		vf.Pat(int(s.Units[i].Don))
		return sameUnit(s.Units[i], old.units[i])
	})
}

// plen is the length of the first i fragments.
func plen(fs []NALFragment, i int) int {
	if i <= 0 {
		return 0
	}
	return plen(fs, i-1) + len(fs[i-1].Data)
}

func LemmaPlen(fs []NALFragment, i, j int) {
	if i < j {
		LemmaPlen(fs, i, j-1)
	}
}
func Pre_LemmaPlen(fs []NALFragment, i, j int) bool { return 0 <= i && i <= j && j <= len(fs) }
func Dec_LemmaPlen(fs []NALFragment, i, j int) int  { return j }
func Post_LemmaPlen(fs []NALFragment, i, j int) {
	vf.Ensure("grows", plen(fs, i) <= plen(fs, j) && vf.Imp(i < j, plen(fs, i)+len(fs[i].Data) <= plen(fs, j)))
}

// isJoin: c is the data of all fragments, then data.
func isJoin(c []byte, fs []NALFragment, data []byte) bool {
	n := len(fs)
	return len(c) == plen(fs, n)+len(data) &&
		vf.All(0, n, func(i int) bool {
			return vf.All(0, len(fs[i].Data), func(j int) bool { return c[plen(fs, i)+j] == fs[i].Data[j] })
		}) &&
		vf.All(0, len(data), func(j int) bool { return c[plen(fs, n)+j] == data[j] })
}

// Joined puts fragments together.
func Joined(fs []NALFragment, data []byte) []byte {
	out := []byte{}
	for _, f := range fs {
		out = append(out, f.Data...)
	}
	return append(out, data...)
}
func Post_Joined(fs []NALFragment, data []byte, out []byte) {
	vf.Ensure("fresh", vf.Fresh(out))
	n := len(fs)
	vf.Ensure("length", len(out) == plen(fs, n)+len(data))
	vf.Ensure("fragments", vf.All(0, n, func(i int) bool {
		LemmaPlen(fs, i, n)
		return vf.All(0, len(fs[i].Data), func(j int) bool { return out[plen(fs, i)+j] == fs[i].Data[j] })
	}))
	vf.Ensure("join", isJoin(out, fs, data))
}
func Inv_Joined_1(fs []NALFragment, out []byte, it int) {
	vf.Inv("fresh", vf.Fresh(out))
	vf.Inv("length", len(out) == plen(fs, it))
	vf.Inv("in range", 0 <= it && it <= len(fs))
	LemmaPlen(fs, it, len(fs))
	vf.Dec(len(fs) - it)
	vf.Inv("in place", vf.All(0, it, func(i int) bool {
		LemmaPlen(fs, i, it-1)
		LemmaPlen(fs, i, it)
		return vf.All(0, len(fs[i].Data), func(j int) bool { return out[plen(fs, i)+j] == fs[i].Data[j] })
	}))
}
func Gen_Joined(g *vf.Gen) ([]NALFragment, []byte) { return genFrags(g), genEmul(g) }

func genFrags(g *vf.Gen) []NALFragment {
	var fs []NALFragment
	for n := g.N(4); n > 0; n-- {
		f := NALFragment{NALUnit: NALUnit{Header: g.Byte(), Don: g.U16(), TS: g.U32(), Data: genEmul(g)}, Flags: g.Byte() & 0x3f}
		if len(fs) == 0 {
			f.Flags |= 0x80
		}
		fs = append(fs, f)
	}
	return fs
}

func Old_NALSink_AddFragment(s *NALSink, indicator byte, header byte, don uint16, ts uint32, data []byte) sinkOld {
	o := snapSink(s)
	if header&0x80 != 0 {
		o.frags = o.frags[:0]
	}
	o.cat = Joined(o.frags, data)
	o.data = data
	return o
}
func Mod_NALSink_AddFragment(s *NALSink, indicator byte, header byte, don uint16, ts uint32, data []byte) {
	vf.Modifies(&s.Units)
	vf.Modifies(&s.Fragments)
	vf.ModElems(s.Units)
	vf.ModElems(s.Fragments)
}

//vf:opaque opaqueRaw kept
func Post_NALSink_AddFragment(s *NALSink, indicator byte, header byte, don uint16, ts uint32, data []byte, old sinkOld) {
	fragPost(s, indicator, header, don, ts, data, old)
}

func fragPost(s *NALSink, indicator byte, header byte, don uint16, ts uint32, data []byte, old sinkOld) {
	n := len(old.frags)
	k := len(old.units)
	start, end := header&0x80 != 0, header&0x40 != 0
	vf.Ensure("earlier units stay", keeps(s, old))
	vf.Ensure("memory of the queues", vf.Stays(s.Units, old.u0) && vf.Stays(s.Fragments, old.f0))
	if !start && n == 0 {
		vf.Ensure("start lost: nothing is kept", len(s.Units) == k && len(s.Fragments) == 0)
	} else if !end {
		vf.Ensure("no unit yet", len(s.Units) == k)
		vf.Ensure("one more fragment", len(s.Fragments) == n+1)
		vf.Ensure("earlier fragments stay", vf.All(0, n, func(i int) bool {
			return sameUnit(s.Fragments[i].NALUnit, old.frags[i].NALUnit) && s.Fragments[i].Flags == old.frags[i].Flags
		}))
		f := s.Fragments[n]
		vf.Ensure("the fragment", f.Header == indicator && f.Don == don && f.TS == ts && f.Flags == header && vf.SameBytes(f.Data, data))
	} else {
		vf.Ensure("one more unit", len(s.Units) == k+1)
		vf.Ensure("no fragments left", len(s.Fragments) == 0)
		u := s.Units[k]
		vf.Ensure("header and time", u.Header == indicator && u.TS == ts)
		vf.Ensure("number of the first fragment", u.Don == firstDon(old.frags, don))
		vf.Ensure("data of all fragments", opaqueRaw(u.Data, old.cat))
		vf.Ensure("data is new", vf.Fresh(u.Data))
	}
}

func firstDon(fs []NALFragment, don uint16) uint16 {
	if len(fs) == 0 {
		return don
	}
	return fs[0].Don
}

func Inv_NALSink_AddFragment_1(s *NALSink, data []byte, old sinkOld, it int) {
	n := len(old.frags)
	vf.Inv("in range", 0 <= it && it <= len(s.Fragments))
	vf.Inv("fresh", vf.Fresh(data))
	vf.Inv("fragments", len(s.Fragments) == n+1 && s.Fragments[0].Don == firstDon(old.frags, s.Fragments[n].Don) &&
		vf.All(0, n, func(i int) bool { return vf.Same(s.Fragments[i].Data, old.frags[i].Data) }) &&
		vf.Same(s.Fragments[n].Data, old.data))
	vf.Inv("length", len(data) == pickInt(it <= n, plen(old.frags, it), len(old.cat)))
	LemmaPlen(old.frags, it, n)
	LemmaPlen(old.frags, it-1, n)
	vf.Inv("not longer", len(data) <= len(old.cat))
	vf.Inv("earlier octets", vf.All(0, plen(old.frags, it-1), func(x int) bool {
		return data[x] == old.cat[x]
	}))
	k := plen(old.frags, it-1)
	vf.Inv("apart", vf.All(0, n+1, func(i int) bool { return vf.Separate(data, s.Fragments[i].Data) }))
	vf.Inv("appended", vf.Imp(it > 0, len(data) == k+len(s.Fragments[it-1].Data) && vf.All(0, len(data)-k, func(j int) bool {
		return data[k+j] == s.Fragments[it-1].Data[j]
	})))
	vf.Inv("octets of a fragment", vf.Imp(0 < it && it <= n, vf.All(0, len(data)-k, func(j int) bool {
		return old.cat[k+j] == s.Fragments[it-1].Data[j]
	})))
	vf.Inv("octets of the last", vf.Imp(it > n, vf.All(0, len(data)-k, func(j int) bool {
		return old.cat[k+j] == s.Fragments[n].Data[j]
	})))
	vf.Dec(len(s.Fragments) - it)
}

func After_NALSink_AddFragment_EBSPToRaw(old sinkOld, buf, out []byte) {
	vf.Assert("all fragments", vf.SameBytes(buf, old.cat))
	LemmaRawExt(out, buf, old.cat)
}

// LemmaRawExt: what remains depends on the octets only.
func LemmaRawExt(out, a, b []byte) {}
func Pre_LemmaRawExt(out, a, b []byte) bool {
	return vf.SameBytes(a, b) && opaqueRaw(out, a)
}
func Post_LemmaRawExt(out, a, b []byte) {
	LemmaKeptSame(a, b, len(a))
	vf.Assert("length", len(out) == kept(b, len(b)))
	vf.Assert("octets", vf.All(0, len(b), func(j int) bool {
		LemmaKeptSame(a, b, j)
		return vf.Imp(!isEmul(b, j), out[kept(b, j)] == b[j])
	}))
	vf.Ensure("same", opaqueRaw(out, b))
}

// LemmaIn: the octet at x of a join is that of fragment i.
func LemmaIn(c []byte, fs []NALFragment, d []byte, i, x int) {}
func Pre_LemmaIn(c []byte, fs []NALFragment, d []byte, i, x int) bool {
	return isJoin(c, fs, d) && 0 <= i && i <= len(fs) && plen(fs, i) <= x && x < len(c)
}
func Post_LemmaIn(c []byte, fs []NALFragment, d []byte, i, x int) {
	j := x - plen(fs, i)
	vf.Ensure("fragment", vf.Imp(i < len(fs) && j < len(fs[i].Data), c[x] == fs[i].Data[j]))
	vf.Ensure("rest", vf.Imp(i == len(fs), c[x] == d[j]))
}

// LemmaKeptSame: what is removed depends on the octets only.
func LemmaKeptSame(a, b []byte, k int) {
	if k > 0 {
		LemmaKeptSame(a, b, k-1)
	}
}
func Pre_LemmaKeptSame(a, b []byte, k int) bool {
	return k <= len(a) && k <= len(b) && vf.All(0, k, func(j int) bool { return a[j] == b[j] })
}
func Dec_LemmaKeptSame(a, b []byte, k int) int { return k }
func Post_LemmaKeptSame(a, b []byte, k int) {
	vf.Ensure("same", kept(a, k) == kept(b, k))
}

func genSink(g *vf.Gen) *NALSink {
	s := NewNALSink()
	if g.N(3) == 0 {
		s.Units, s.Fragments = nil, nil
	}
	for n := g.N(3); n > 0; n-- {
		s.Units = append(s.Units, NALUnit{Header: g.Byte(), Don: g.U16(), TS: g.U32(), Data: genEmul(g)})
	}
	s.Fragments = append(s.Fragments, genFrags(g)...)
	s.Don = g.U16()
	return s
}
func Gen_NALSink_AddFragment(g *vf.Gen) (*NALSink, byte, byte, uint16, uint32, []byte) {
	return genSink(g), g.Byte(), []byte{0x80, 0x40, 0xc0, 0}[g.N(4)] | g.Byte()&0x1f, g.U16(), g.U32(), genEmul(g)
}

func pickInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
