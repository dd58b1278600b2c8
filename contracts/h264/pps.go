package h264

import "github.com/aboukirev/ouro/internal/vf"

// ---- picture parameter set (clause 7.3.2.2)

type ppsHead struct {
	id, sps, entropy, bottom, groups elem
	mapType                          elem // inferred as 0 when there is one group
	direction, rate, size            elem
	ok                               bool // the slice groups are readable
	pos                              int  // the position after them
	idPos, idBits                    int  // the slice group map
}

// ppsStart reads the head and the slice groups.
func ppsStart(b []byte) ppsHead {
	end := len(b) * 8
	var h ppsHead
	h.id = elUE(b, elem{true, 0, 0})
	h.sps = elUE(b, h.id)
	h.entropy = elU(b, h.sps, 1)
	h.bottom = elU(b, h.entropy, 1)
	h.groups = elUE(b, h.bottom)
	n := h.groups.v
	h.ok, h.pos = h.groups.ok && n <= 7, h.groups.pos
	h.mapType = elNone(h.groups, 0)
	h.idBits = 1
	if n > 3 {
		h.idBits = 3
	} else if n > 1 {
		h.idBits = 2
	}
	if n > 0 {
		h.mapType = elUE(b, h.groups)
	}
	h.direction = elNone(h.mapType, 0)
	h.rate = elNone(h.mapType, 0)
	h.size = elNone(h.mapType, 0)
	if n > 0 {
		t := h.mapType.v
		h.ok, h.pos = h.ok && h.mapType.ok, h.mapType.pos
		if vf.Concrete() && !h.ok {
			return h
		}
		if t == 0 {
			s := skipAt(b, h.mapType.pos, end, n+1)
			h.ok, h.pos = h.ok && s.ok, s.pos
		} else if t == 2 {
			s := skipAt(b, h.mapType.pos, end, n*2)
			h.ok, h.pos = h.ok && s.ok, s.pos
		} else if t == 3 || t == 4 || t == 5 {
			h.direction = elU(b, h.mapType, 1)
			h.rate = elUE(b, h.direction)
			h.ok, h.pos = h.ok && h.rate.ok, h.rate.pos
		} else if t == 6 {
			h.size = elUE(b, h.mapType)
			h.idPos = h.size.pos
			h.ok = h.ok && h.size.ok && h.idPos+(h.size.v+1)*h.idBits <= end
			h.pos = h.idPos + (h.size.v+1)*h.idBits
		}
	}
	return h
}

// skipVal is the k-th of the elements that skipAt counts.
func skipVal(b []byte, p, end, k int) int { return ueVal(b, skipAt(b, p, end, k).pos, end) }

type ppsMid struct {
	l0, l1, weighted, bipred, qp, qs, chroma elem
	deblocking, constrained, redundant       elem
	more                                     bool
	t8x8, matrix                             elem
}

func ppsOptions(b []byte, h ppsHead) ppsMid {
	var m ppsMid
	m.l0 = elUE(b, elem{h.ok, h.pos, 0})
	m.l1 = elUE(b, m.l0)
	m.weighted = elU(b, m.l1, 1)
	m.bipred = elU(b, m.weighted, 2)
	m.qp = elSE(b, m.bipred)
	m.qs = elSE(b, m.qp)
	m.chroma = elSE(b, m.qs)
	m.deblocking = elU(b, m.chroma, 1)
	m.constrained = elU(b, m.deblocking, 1)
	m.redundant = elU(b, m.constrained, 1)
	m.more = m.redundant.ok && m.redundant.pos < lastOne(b, len(b)*8)
	if m.more {
		m.t8x8 = elU(b, m.redundant, 1)
		m.matrix = elU(b, m.t8x8, 1)
	} else {
		m.t8x8 = elNone(m.redundant, 0)
		m.matrix = elNone(m.redundant, 0)
	}
	return m
}

// ppsLists is the number of scaling lists, given the chroma format in use.
func ppsLists(m ppsMid, chroma int) int {
	if m.matrix.v == 0 {
		return 0
	}
	if m.t8x8.v == 0 {
		return 6
	}
	if chroma == 3 {
		return 12
	}
	return 8
}

func ppsMatrix(b []byte, m ppsMid, n int) lists {
	if vf.Concrete() && !m.matrix.ok {
		return lists{}
	}
	return listsAt(b, m.matrix.pos, len(b)*8, n)
}

// ppsLast is the last element.
func ppsLast(b []byte, m ppsMid, n int) elem {
	if !m.more {
		return elem{m.matrix.ok, m.matrix.pos, m.chroma.v}
	}
	l := ppsMatrix(b, m, n)
	return elSE(b, elem{m.matrix.ok && l.ok, l.pos, 0})
}

// chromaOf is the chroma format of a sequence, 4:4:4 when it is not known.
func chromaOf(s *ParameterSets, id uint32) int {
	if sps, has := s.spset[id]; has {
		return int(sps.ChromaFormatIdc)
	}
	return 3
}

func Pre_ParameterSets_ParsePPS(s *ParameterSets, buf []byte) bool    { return setsOK(s) }
func Old_ParameterSets_ParsePPS(s *ParameterSets, buf []byte) setsOld { return snapSets(s) }
func Mod_ParameterSets_ParsePPS(s *ParameterSets, buf []byte)         { vf.ModMap(s.ppset) }

//vf:opaque bitsVal zeros ueOK ueLen ueVal scaleAt posOf lastOne
//vf:noprune
func Post_ParameterSets_ParsePPS(s *ParameterSets, buf []byte, old setsOld, err error) {
	end := len(buf) * 8
	h := ppsStart(buf)
	m := ppsOptions(buf, h)
	n := ppsLists(m, chromaOf(s, uint32(h.sps.v)))
	last := ppsLast(buf, m, n)
	if err != nil {
		vf.Ensure("@C15 fails only when a syntax element is missing or there are too many slice groups", !last.ok)
		vf.Ensure("@C16 failure leaves the sets alone", vf.MapSame(s.ppset, old.pps))
		return
	}
	vf.Ensure("@C15 succeeds only when every syntax element is present", last.ok)
	if vf.Concrete() && !last.ok {
		return
	}
	id := uint32(h.id.v)
	vf.Ensure("@C16 sets under other ids stay", vf.MapSameBut(s.ppset, old.pps, id))
	pps, has := s.ppset[id]
	vf.Ensure("@C15@C16 stored under its id", has && pps != nil && vf.Fresh(pps))
	vf.Ensure("@C15 ids", pps.PpsID == id && int(pps.SpsID) == h.sps.v)
	vf.Ensure("@C15 entropy coding and field order", pps.EntropyCodingMode == (h.entropy.v != 0) && pps.BottomFieldPicOorderInFramePresent == (h.bottom.v != 0))
	vf.Ensure("@C15 slice groups", int(pps.NumSliceGroupsMinus1) == h.groups.v && int(pps.SliceGroupMapType) == h.mapType.v)
	g, t, p := h.groups.v, h.mapType.v, h.mapType.pos
	vf.Ensure("@C15 run lengths", vf.All(0, 8, func(i int) bool {
		if g > 0 && t == 0 && i <= g {
			return int(pps.RunLengthMinus1[i]) == skipVal(buf, p, end, i)
		}
		return pps.RunLengthMinus1[i] == 0
	}))
	vf.Ensure("@C15 rectangles", vf.All(0, 8, func(i int) bool {
		if t == 2 && i < g {
			return int(pps.TopLeft[i]) == skipVal(buf, p, end, i*2) && int(pps.BottomRight[i]) == skipVal(buf, p, end, i*2+1)
		}
		return pps.TopLeft[i] == 0 && pps.BottomRight[i] == 0
	}))
	vf.Ensure("@C15 changing slice groups", pps.SliceGroupChangeDirection == (h.direction.v != 0) && int(pps.SliceGroupChangeRateMinus1) == h.rate.v)
	vf.Ensure("@C15 slice group map size", int(pps.PicSizeInMapUnitsMinus1) == h.size.v && (t == 6 || len(pps.SliceGroupID) == 0) && (t != 6 || len(pps.SliceGroupID) == h.size.v+1))
	vf.Ensure("@C15 slice group map", t != 6 || vf.All(0, h.size.v+1, func(i int) bool {
		return int(pps.SliceGroupID[i]) == bitsVal(buf, h.idPos+i*h.idBits, h.idBits)
	}))
	vf.Ensure("@C15 reference indices", int(pps.NumRefIdxL0DefaultActiveMinus1) == m.l0.v && int(pps.NumRefIdxL1DefaultActiveMinus1) == m.l1.v)
	vf.Ensure("@C15 weighted prediction", pps.WeightedPred == (m.weighted.v != 0) && int(pps.WeightedBipredIdc) == m.bipred.v)
	vf.Ensure("@C15 quantisers", int(pps.PicInitQpMinus26) == m.qp.v && int(pps.PicInitQsMinus26) == m.qs.v && int(pps.ChromaQpIndexOffset) == m.chroma.v)
	vf.Ensure("@C15 flags", pps.DeblockingFilterControlPresent == (m.deblocking.v != 0) && pps.ConstrainedIntraPred == (m.constrained.v != 0) &&
		pps.RedundantPicCntPresent == (m.redundant.v != 0))
	vf.Ensure("@C15 transform and scaling matrix flags", pps.Transform8x8Mode == (m.t8x8.v != 0) && pps.ScalingMatrixPresent == (m.matrix.v != 0) &&
		pps.ScalingListPresent == ppsMatrix(buf, m, n).mask)
	vf.Ensure("@C15 scaling lists", vf.All(0, 480, func(e int) bool {
		return int(pps.ScalingList[e]) == listEntry(buf, m.matrix.pos, end, n, e)
	}))
	vf.Ensure("@C15 default scaling matrices", vf.All(0, 12, func(k int) bool {
		return pps.UseDefaultScalingMatrix[k] == listDefault(buf, m.matrix.pos, end, n, k)
	}))
	vf.Ensure("@C15 second chroma quantiser", int(pps.SecondChromaQpIndexOffset) == last.v)
}

// run lengths
//
//vf:depth 1
func Inv_ParameterSets_ParsePPS_1(s *ParameterSets, buf []byte, pps *PPSInfo, br *BitReader, err error, i uint32) {
	b, end := buf, len(buf)*8
	h := ppsStart(buf)
	p, n := h.mapType.pos, int(pps.NumSliceGroupsMinus1)+1
	LemmaSkipStop(b, p, end, int(i), n)
	LemmaSkipStop(b, p, end, int(i)+1, n)
	k := skipAt(b, p, end, int(i))
	vf.Inv("well formed", rdOK(br) && vf.Same(br.buffer, buf))
	vf.Inv("read so far", int(i) <= n && n == h.groups.v+1 && n <= 8 && h.mapType.ok && k.ok && rdPos(br) == k.pos)
	vf.Inv("run lengths", vf.All(0, 8, func(j int) bool {
		if j < int(i) {
			return int(pps.RunLengthMinus1[j]) == skipVal(b, p, end, j)
		}
		return pps.RunLengthMinus1[j] == 0
	}))
	vf.Dec(n - int(i))
}

// rectangles
//
//vf:depth 2
func Inv_ParameterSets_ParsePPS_2(s *ParameterSets, buf []byte, pps *PPSInfo, br *BitReader, err error, i uint32) {
	b, end := buf, len(buf)*8
	h := ppsStart(buf)
	p, n := h.mapType.pos, int(pps.NumSliceGroupsMinus1)
	LemmaSkipStop(b, p, end, int(i)*2, n*2)
	LemmaSkipStop(b, p, end, int(i)*2+1, n*2)
	LemmaSkipStop(b, p, end, int(i)*2+2, n*2)
	k := skipAt(b, p, end, int(i)*2)
	vf.Inv("well formed", rdOK(br) && vf.Same(br.buffer, buf))
	vf.Inv("read so far", int(i) <= n && n == h.groups.v && n <= 7 && h.mapType.ok && k.ok && rdPos(br) == k.pos)
	vf.Inv("rectangles", vf.All(0, 8, func(j int) bool {
		if j < int(i) {
			return int(pps.TopLeft[j]) == skipVal(b, p, end, j*2) && int(pps.BottomRight[j]) == skipVal(b, p, end, j*2+1)
		}
		return pps.TopLeft[j] == 0 && pps.BottomRight[j] == 0
	}))
	vf.Dec(n - int(i))
}

// slice group map
//
//vf:depth 1
func Inv_ParameterSets_ParsePPS_3(s *ParameterSets, buf []byte, pps *PPSInfo, br *BitReader, err error, i uint32, bits uint) {
	h := ppsStart(buf)
	n := int(pps.PicSizeInMapUnitsMinus1) + 1
	vf.Inv("well formed", rdOK(br) && vf.Same(br.buffer, buf))
	vf.Inv("read so far", int(i) <= n && n == h.size.v+1 && h.ok && int(bits) == h.idBits && rdPos(br) == h.idPos+int(i)*h.idBits)
	vf.Inv("map", len(pps.SliceGroupID) == n && vf.All(0, int(i), func(j int) bool {
		return int(pps.SliceGroupID[j]) == bitsVal(buf, h.idPos+j*h.idBits, h.idBits)
	}))
	vf.Dec(n - int(i))
}

//vf:depth 1
func Inv_ParameterSets_ParsePPS_4(s *ParameterSets, buf []byte, pps *PPSInfo, br *BitReader, err error, chromaFormatIdc uint32, i, off, size, nlists int) {
	b, end := buf, len(buf)*8
	h := ppsStart(buf)
	m := ppsOptions(buf, h)
	p := m.matrix.pos
	l := listsAt(b, p, end, i)
	LemmaListsStop(b, p, end, i, nlists)
	LemmaListsStop(b, p, end, i+1, nlists)
	vf.Inv("well formed", rdOK(br) && vf.Same(br.buffer, buf))
	vf.Inv("lists so far", 0 <= i && i <= nlists && m.matrix.ok && l.ok && rdPos(br) == l.pos)
	vf.Inv("count", nlists == ppsLists(m, chromaOf(s, uint32(h.sps.v))) && nlists <= 12)
	vf.Inv("place", off == listOff(i) && size == listSize(i))
	vf.Inv("mask", pps.ScalingListPresent == l.mask)
	vf.Inv("entries", vf.All(0, off, func(e int) bool {
		return int(pps.ScalingList[e]) == entryOf(b, p, end, e)
	}))
	vf.Inv("entries to come", vf.All(off, 480, func(e int) bool { return pps.ScalingList[e] == 0 }))
	vf.Inv("defaults", vf.All(0, 12, func(k int) bool {
		return pps.UseDefaultScalingMatrix[k] == listDefault(b, p, end, i, k)
	}))
	vf.Dec(nlists - i)
}

func ppsHints(b []byte, p int, err error) {
	h := ppsStart(b)
	m := ppsOptions(b, h)
	vf.Hint("id", err != nil || h.id.ok && p == h.id.pos)
	vf.Hint("sps", err != nil || h.sps.ok && p == h.sps.pos)
	vf.Hint("entropy", err != nil || h.entropy.ok && p == h.entropy.pos)
	vf.Hint("bottom", err != nil || h.bottom.ok && p == h.bottom.pos)
	vf.Hint("groups", err != nil || h.groups.ok && p == h.groups.pos)
	vf.Hint("mapType", err != nil || h.mapType.ok && p == h.mapType.pos)
	vf.Hint("direction", err != nil || h.direction.ok && p == h.direction.pos)
	vf.Hint("rate", err != nil || h.rate.ok && p == h.rate.pos)
	vf.Hint("size", err != nil || h.size.ok && p == h.size.pos)
	vf.Hint("l0", err != nil || m.l0.ok && p == m.l0.pos)
	vf.Hint("l1", err != nil || m.l1.ok && p == m.l1.pos)
	vf.Hint("weighted", err != nil || m.weighted.ok && p == m.weighted.pos)
	vf.Hint("bipred", err != nil || m.bipred.ok && p == m.bipred.pos)
	vf.Hint("qp", err != nil || m.qp.ok && p == m.qp.pos)
	vf.Hint("qs", err != nil || m.qs.ok && p == m.qs.pos)
	vf.Hint("chroma", err != nil || m.chroma.ok && p == m.chroma.pos)
	vf.Hint("deblocking", err != nil || m.deblocking.ok && p == m.deblocking.pos)
	vf.Hint("constrained", err != nil || m.constrained.ok && p == m.constrained.pos)
	vf.Hint("redundant", err != nil || m.redundant.ok && p == m.redundant.pos)
	vf.Hint("t8x8", err != nil || m.t8x8.ok && p == m.t8x8.pos)
	vf.Hint("matrix", err != nil || m.matrix.ok && p == m.matrix.pos)
}
func After_ParameterSets_ParsePPS_BitReader_ReadByteBits(r *BitReader, n uint, val byte, err error) {
	ppsHints(r.buffer, rdPos(r), err)
}
func After_ParameterSets_ParsePPS_BitReader_ReadFlag(r *BitReader, val bool, err error) {
	ppsHints(r.buffer, rdPos(r), err)
}
func After_ParameterSets_ParsePPS_BitReader_ReadUnsignedGolomb(r *BitReader, val uint32, err error) {
	ppsHints(r.buffer, rdPos(r), err)
}
func After_ParameterSets_ParsePPS_BitReader_ReadSignedGolomb(r *BitReader, val int32, err error) {
	ppsHints(r.buffer, rdPos(r), err)
}

func Gen_ParameterSets_ParsePPS(g *vf.Gen) (*ParameterSets, []byte) {
	return genSets(g), genPPS(g)
}

func genPPS(g *vf.Gen) []byte {
	if g.P(5) {
		return g.Bytes(20)
	}
	w := &vf.Bits{}
	w.UE(uint64(g.N(5)))
	w.UE(uint64(g.N(5)))
	w.U(1, uint64(g.N(2)))
	w.U(1, uint64(g.N(2)))
	n := 0
	if g.P(60) {
		n = g.N(8)
		if g.P(4) {
			n = g.N(300)
		}
	}
	w.UE(uint64(n))
	if n > 0 {
		t := g.N(8)
		w.UE(uint64(t))
		switch t {
		case 0:
			for i := 0; i <= n && n < 9; i++ {
				w.UE(genUE(g))
			}
		case 2:
			for i := 0; i < n*2 && n < 9; i++ {
				w.UE(genUE(g))
			}
		case 3, 4, 5:
			w.U(1, uint64(g.N(2)))
			w.UE(genUE(g))
		case 6:
			k := g.N(20)
			if g.P(6) {
				w.UE(uint64(g.U32() - 1))
			} else {
				w.UE(uint64(k))
			}
			bits := 1
			if n > 3 {
				bits = 3
			} else if n > 1 {
				bits = 2
			}
			for i := 0; i <= k; i++ {
				w.U(bits, uint64(g.N(1<<uint(bits))))
			}
		}
	}
	w.UE(genUE(g))
	w.UE(genUE(g))
	w.U(1, uint64(g.N(2)))
	w.U(2, uint64(g.N(4)))
	w.SE(int64(g.Int(-30, 30)))
	w.SE(int64(g.Int(-30, 30)))
	w.SE(int64(g.Int(-30, 30)))
	w.U(1, uint64(g.N(2)))
	w.U(1, uint64(g.N(2)))
	w.U(1, uint64(g.N(2)))
	if g.P(70) {
		t := g.N(2)
		w.U(1, uint64(t))
		m := g.N(2)
		w.U(1, uint64(m))
		if m == 1 {
			k := 6
			if t == 1 {
				k = 8
				if g.P(60) {
					k = 12
				}
			}
			genLists(g, w, k)
		}
		w.SE(int64(g.Int(-30, 30)))
	}
	return cutBits(g, w)
}
