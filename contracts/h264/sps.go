package h264

import "github.com/aboukirev/ouro/internal/vf"

// ---- syntax, read one element at a time

// elem is a syntax element: whether it and everything before it could be read,
// the position after it and its value.
type elem struct {
	ok  bool
	pos int
	v   int
}

// elU is u(n), elUE is ue(v), elSE is se(v) after element s.
func elU(b []byte, s elem, n int) elem {
	if vf.Concrete() && (!s.ok || s.pos+n > len(b)*8) {
		return elem{false, s.pos, 0}
	}
	return elem{s.ok && s.pos+n <= len(b)*8, s.pos + n, bitsVal(b, s.pos, n)}
}
func elUE(b []byte, s elem) elem {
	if vf.Concrete() && (!s.ok || !ueOK(b, s.pos, len(b)*8)) {
		return elem{false, s.pos, 0}
	}
	return elem{s.ok && ueOK(b, s.pos, len(b)*8), s.pos + ueLen(b, s.pos, len(b)*8), ueVal(b, s.pos, len(b)*8)}
}
func elSE(b []byte, s elem) elem {
	k := elUE(b, s)
	return elem{k.ok, k.pos, seVal(k.v)}
}

// elNone is an absent element with the value v inferred for it.
func elNone(s elem, v int) elem { return elem{s.ok, s.pos, v} }

// ---- scaling lists

func listSize(k int) int {
	if k < 6 {
		return 16
	}
	return 64
}
func listOff(k int) int {
	if k < 6 {
		return k * 16
	}
	return 96 + (k-6)*64
}

// listOf is the list that entry e of the flat array belongs to.
func listOf(e int) int {
	if e < 96 {
		return e / 16
	}
	return 6 + (e-96)/64
}

// lists is the state of the scaling matrix syntax after some lists.
type lists struct {
	ok   bool
	pos  int
	mask uint32
}

func listsAt(b []byte, p, end, k int) lists {
	if k <= 0 {
		return lists{true, p, 0}
	}
	s := listsAt(b, p, end, k-1)
	if !s.ok || s.pos+1 > end {
		return lists{false, s.pos, s.mask}
	}
	if bitsVal(b, s.pos, 1) == 0 {
		return lists{true, s.pos + 1, s.mask}
	}
	t := scaleAt(b, s.pos+1, end, listSize(k-1))
	return lists{t.ok, t.pos, s.mask | 1<<uint32(k-1)}
}

// LemmaListsStop: syntax that cannot be read stays so.
func LemmaListsStop(b []byte, p, end, i, j int) {
	if i < j {
		LemmaListsStop(b, p, end, i, j-1)
	}
}
func Dec_LemmaListsStop(b []byte, p, end, i, j int) int { return j }

//vf:opaque bitsVal zeros scaleAt
func Post_LemmaListsStop(b []byte, p, end, i, j int) {
	vf.Ensure("stops", vf.Imp(0 <= i && i <= j && !listsAt(b, p, end, i).ok, !listsAt(b, p, end, j).ok))
}

// listHas: list k is present.
func listHas(b []byte, p, end, k int) bool {
	s := listsAt(b, p, end, k)
	return bitsVal(b, s.pos, 1) != 0
}

// entryOf is what entry e of the flat array holds once its list was read.
func entryOf(b []byte, p, end, e int) int {
	k := listOf(e)
	if !listHas(b, p, end, k) {
		return 0
	}
	return scaleAt(b, listsAt(b, p, end, k).pos+1, end, e-listOff(k)+1).last
}

// listEntry is what entry e of the flat array holds when n lists were read.
func listEntry(b []byte, p, end, n, e int) int {
	if e >= listOff(n) {
		return 0
	}
	return entryOf(b, p, end, e)
}

// listDefault: list k asks for the default matrix.
func listDefault(b []byte, p, end, n, k int) bool {
	return k < n && listHas(b, p, end, k) && scaleAt(b, listsAt(b, p, end, k).pos+1, end, listSize(k)).dflt
}

// ---- se(v) elements that are read and dropped

type skips struct {
	ok  bool
	pos int
}

func skipAt(b []byte, p, end, k int) skips {
	if k <= 0 {
		return skips{true, p}
	}
	s := skipAt(b, p, end, k-1)
	if !s.ok || !ueOK(b, s.pos, end) {
		return skips{false, s.pos}
	}
	return skips{true, s.pos + ueLen(b, s.pos, end)}
}

// skipN is skipAt for counts that may be far larger than the data holds.
func skipN(b []byte, p, end, k int) skips {
	if vf.Concrete() && k > end {
		return skips{false, p}
	}
	return skipAt(b, p, end, k)
}
func LemmaSkipStop(b []byte, p, end, i, j int) {
	if i < j {
		LemmaSkipStop(b, p, end, i, j-1)
	}
}
func Dec_LemmaSkipStop(b []byte, p, end, i, j int) int { return j }

//vf:opaque bitsVal zeros ueOK ueLen
func Post_LemmaSkipStop(b []byte, p, end, i, j int) {
	vf.Ensure("stops", vf.Imp(0 <= i && i <= j && !skipAt(b, p, end, i).ok, !skipAt(b, p, end, j).ok))
}

// ---- sequence parameter set (clause 7.3.2.1.1)

type spsHead struct {
	profile, constraints, level, id               elem
	chroma, separate, luma, depth, bypass, matrix elem
	high                                          bool
	nlists                                        int
}

// isHigh: profiles that carry the chroma format and its companions.
func isHigh(p int) bool {
	return p == 100 || p == 110 || p == 122 || p == 244 || p == 44 || p == 83 || p == 86 || p == 118 || p == 128 ||
		p == 138 || p == 139 || p == 134 || p == 135
}

// spsStart reads up to the scaling matrix flag.
func spsStart(b []byte) spsHead {
	var h spsHead
	h.profile = elU(b, elem{true, 0, 0}, 8)
	h.constraints = elU(b, h.profile, 8)
	h.level = elU(b, h.constraints, 8)
	h.id = elUE(b, h.level)
	h.high = isHigh(h.profile.v)
	if h.high {
		h.chroma = elUE(b, h.id)
		if h.chroma.v == 3 {
			h.separate = elU(b, h.chroma, 1)
		} else {
			h.separate = elNone(h.chroma, 0)
		}
		h.luma = elUE(b, h.separate)
		h.depth = elUE(b, h.luma)
		h.bypass = elU(b, h.depth, 1)
		h.matrix = elU(b, h.bypass, 1)
	} else {
		h.chroma = elNone(h.id, 1)
		if h.profile.v == 183 {
			h.chroma.v = 0
		}
		h.separate = elNone(h.chroma, 0)
		h.luma = elNone(h.chroma, 0)
		h.depth = elNone(h.chroma, 0)
		h.bypass = elNone(h.chroma, 0)
		h.matrix = elNone(h.chroma, 0)
	}
	h.nlists = 0
	if h.matrix.v != 0 {
		h.nlists = 8
		if h.chroma.v == 3 {
			h.nlists = 12
		}
	}
	return h
}

// spsMatrix is the state after the scaling matrix.
func spsMatrix(b []byte, h spsHead) lists {
	if vf.Concrete() && !h.matrix.ok {
		return lists{}
	}
	return listsAt(b, h.matrix.pos, len(b)*8, h.nlists)
}

type spsMid struct {
	frameNum, pocType, pocBits        elem
	always0, nonRef, topBottom, cycle elem
}

// spsOrder reads up to the number of frames in the picture order count cycle.
func spsOrder(b []byte, h spsHead) spsMid {
	var m spsMid
	l := spsMatrix(b, h)
	m.frameNum = elUE(b, elem{h.matrix.ok && l.ok, l.pos, 0})
	m.pocType = elUE(b, m.frameNum)
	if m.pocType.v == 0 {
		m.pocBits = elUE(b, m.pocType)
	} else {
		m.pocBits = elNone(m.pocType, 0)
	}
	if m.pocType.v == 1 {
		m.always0 = elU(b, m.pocType, 1)
		m.nonRef = elSE(b, m.always0)
		m.topBottom = elSE(b, m.nonRef)
		m.cycle = elUE(b, m.topBottom)
	} else {
		m.always0 = elNone(m.pocBits, 0)
		m.nonRef = elNone(m.pocBits, 0)
		m.topBottom = elNone(m.pocBits, 0)
		m.cycle = elNone(m.pocBits, 0)
	}
	return m
}

type spsTail struct {
	refs, gaps, width, height, frames, mbaff, direct elem
	crop, left, right, top, bottom, vui              elem
}

// spsEnd reads the rest.
func spsEnd(b []byte, m spsMid) spsTail {
	var t spsTail
	s := skips{}
	if !vf.Concrete() || m.cycle.ok {
		s = skipN(b, m.cycle.pos, len(b)*8, m.cycle.v)
	}
	t.refs = elUE(b, elem{m.cycle.ok && s.ok, s.pos, 0})
	t.gaps = elU(b, t.refs, 1)
	t.width = elUE(b, t.gaps)
	t.height = elUE(b, t.width)
	t.frames = elU(b, t.height, 1)
	if t.frames.v == 0 {
		t.mbaff = elU(b, t.frames, 1)
	} else {
		t.mbaff = elNone(t.frames, 0)
	}
	t.direct = elU(b, t.mbaff, 1)
	t.crop = elU(b, t.direct, 1)
	if t.crop.v != 0 {
		t.left = elUE(b, t.crop)
		t.right = elUE(b, t.left)
		t.top = elUE(b, t.right)
		t.bottom = elUE(b, t.top)
	} else {
		t.left = elNone(t.crop, 0)
		t.right = elNone(t.crop, 0)
		t.top = elNone(t.crop, 0)
		t.bottom = elNone(t.crop, 0)
	}
	t.vui = elU(b, t.bottom, 1)
	return t
}

// spsWidth and spsHeight are the cropped dimensions (clause 7.4.2.1.1), modulo 2^32.
func spsWidth(h spsHead, t spsTail) uint32 {
	full, crop := (uint32(t.width.v)+1)*16, uint32(t.left.v)+uint32(t.right.v)
	if h.separate.v == 0 && (h.chroma.v == 1 || h.chroma.v == 2) {
		crop *= 2
	}
	return full - crop
}
func spsHeight(h spsHead, t spsTail) uint32 {
	mbs, crop := uint32(t.height.v)+1, uint32(t.top.v)+uint32(t.bottom.v)
	sub := h.separate.v == 0 && h.chroma.v == 1
	if t.frames.v == 0 && sub {
		return mbs*32 - crop*4
	}
	if t.frames.v == 0 {
		return mbs*32 - crop*2
	}
	if sub {
		return mbs*16 - crop*2
	}
	return mbs*16 - crop
}

type setsOld struct {
	sps map[uint32]*SPSInfo
	pps map[uint32]*PPSInfo
}

func setsOK(s *ParameterSets) bool {
	return s.spset != nil && s.ppset != nil && vf.AllU32(func(k uint32) bool {
		sps, has := s.spset[k]
		return !has || sps != nil
	})
}

func snapSets(s *ParameterSets) setsOld {
	return setsOld{vf.SnapOf(s.spset).(map[uint32]*SPSInfo), vf.SnapOf(s.ppset).(map[uint32]*PPSInfo)}
}

func Pre_ParameterSets_ParseSPS(s *ParameterSets, buf []byte) bool    { return setsOK(s) }
func Old_ParameterSets_ParseSPS(s *ParameterSets, buf []byte) setsOld { return snapSets(s) }
func Mod_ParameterSets_ParseSPS(s *ParameterSets, buf []byte)         { vf.ModMap(s.spset) }

//vf:opaque bitsVal zeros ueOK ueLen ueVal scaleAt posOf
//vf:noprune
func Post_ParameterSets_ParseSPS(s *ParameterSets, buf []byte, old setsOld, err error) {
	h := spsStart(buf)
	m := spsOrder(buf, h)
	t := spsEnd(buf, m)
	if err != nil {
		vf.Ensure("@C14 fails only when a syntax element is missing", !t.vui.ok)
		vf.Ensure("@C16 failure leaves the sets alone", vf.MapSame(s.spset, old.sps))
		return
	}
	vf.Ensure("sets stay valid", setsOK(s))
	vf.Ensure("@C14 succeeds only when every syntax element is present", t.vui.ok)
	if vf.Concrete() && !t.vui.ok {
		return
	}
	id := uint32(h.id.v)
	vf.Ensure("@C16 sets under other ids stay", vf.MapSameBut(s.spset, old.sps, id))
	sps, has := s.spset[id]
	vf.Ensure("@C14@C16 stored under its id", has && sps != nil && vf.Fresh(sps))
	vf.Ensure("@C14 profile, constraints and level", int(sps.ProfileIdc) == h.profile.v && int(sps.ConstraintSet) == h.constraints.v && int(sps.LevelIdc) == h.level.v)
	vf.Ensure("@C14 id", sps.SpsID == id)
	vf.Ensure("@C14 chroma format", int(sps.ChromaFormatIdc) == h.chroma.v && sps.SeparateColorPlane == (h.separate.v != 0))
	vf.Ensure("@C14 bit depths", int(sps.BitDepthLuma) == h.luma.v && int(sps.BitDepthChroma) == h.depth.v)
	vf.Ensure("@C14 transform bypass", sps.ZeroTransformBypass == (h.bypass.v != 0))
	vf.Ensure("@C14 scaling matrix flags", sps.ScalingMatrixPresent == (h.matrix.v != 0) && sps.ScalingListPresent == spsMatrix(buf, h).mask)
	vf.Ensure("@C14 scaling lists", vf.All(0, 480, func(e int) bool {
		return int(sps.ScalingList[e]) == listEntry(buf, h.matrix.pos, len(buf)*8, h.nlists, e)
	}))
	vf.Ensure("@C14 default scaling matrices", vf.All(0, 12, func(k int) bool {
		return sps.UseDefaultScalingMatrix[k] == listDefault(buf, h.matrix.pos, len(buf)*8, h.nlists, k)
	}))
	vf.Ensure("@C14 frame numbers", int(sps.Log2MaxFrameNum) == m.frameNum.v)
	vf.Ensure("@C14 picture order count", int(sps.PicOrderCntType) == m.pocType.v && int(sps.Log2MaxPicOrderCnt) == m.pocBits.v)
	vf.Ensure("@C14 picture order count cycle", sps.DeltaPicOrderAlways0 == (m.always0.v != 0) && int(sps.OffsetForNonRefPic) == m.nonRef.v &&
		int(sps.OffsetForTopToBottomField) == m.topBottom.v && int(sps.NumRefFramesInPicOrderCntCycle) == m.cycle.v)
	vf.Ensure("@C14 reference frames", int(sps.MaxNumRefFrames) == t.refs.v && sps.GapsInFrameNumValueAllowed == (t.gaps.v != 0))
	vf.Ensure("@C14 size in macroblocks", int(sps.PicWidthInMbsMinus1) == t.width.v && int(sps.PicHeightInMapUnitsMinus1) == t.height.v)
	vf.Ensure("@C14 frame flags", int(sps.FrameMbsOnly) == t.frames.v && sps.MbAdaptiveFrameField == (t.mbaff.v != 0) && sps.Direct8x8Inference == (t.direct.v != 0))
	vf.Ensure("@C14 cropping", sps.FrameCropping == (t.crop.v != 0) && int(sps.FrameCropLeftOffset) == t.left.v && int(sps.FrameCropRightOffset) == t.right.v &&
		int(sps.FrameCropTopOffset) == t.top.v && int(sps.FrameCropBottomOffset) == t.bottom.v)
	vf.Ensure("@C14 vui flag", sps.VuiParametersPresent == (t.vui.v != 0))
	vf.Ensure("@C14 width", sps.Width == spsWidth(h, t))
	vf.Assert("frame flag", sps.FrameMbsOnly <= 1)
	mbs, crop := sps.PicHeightInMapUnitsMinus1+1, sps.FrameCropTopOffset+sps.FrameCropBottomOffset
	sub := !sps.SeparateColorPlane && sps.ChromaFormatIdc == 1
	vf.Assert("height of frames", vf.Imp(sps.FrameMbsOnly == 1 && !sub, sps.Height == mbs*16-crop))
	vf.Assert("height of subsampled frames", vf.Imp(sps.FrameMbsOnly == 1 && sub, sps.Height == mbs*16-crop*2))
	vf.Assert("height of fields", vf.Imp(sps.FrameMbsOnly == 0 && !sub, sps.Height == mbs*32-crop*2))
	vf.Assert("height of subsampled fields", vf.Imp(sps.FrameMbsOnly == 0 && sub, sps.Height == mbs*32-crop*4))
	vf.Assert("subsampling", sub == (h.separate.v == 0 && h.chroma.v == 1))
	vf.Assert("crop", crop == uint32(t.top.v)+uint32(t.bottom.v))
	vf.Assert("rows", mbs == uint32(t.height.v)+1)
	vf.Assert("frames", int(sps.FrameMbsOnly) == t.frames.v)
	vf.Ensure("@C14 height", sps.Height == spsHeight(h, t))
}

//vf:depth 1
func Inv_ParameterSets_ParseSPS_1(s *ParameterSets, buf []byte, sps *SPSInfo, br *BitReader, err error, i, off, size, nlists int) {
	b, end := buf, len(buf)*8
	h := spsStart(buf)
	p := h.matrix.pos
	l := listsAt(b, p, end, i)
	LemmaListsStop(b, p, end, i, nlists)
	LemmaListsStop(b, p, end, i+1, nlists)
	vf.Inv("well formed", rdOK(br) && vf.Same(br.buffer, buf))
	vf.Inv("lists so far", 0 <= i && i <= nlists && h.matrix.ok && l.ok && rdPos(br) == l.pos)
	vf.Inv("count", nlists == h.nlists)
	vf.Inv("place", off == listOff(i) && size == listSize(i))
	vf.Inv("mask", sps.ScalingListPresent == l.mask)
	vf.Inv("entries", vf.All(0, off, func(e int) bool {
		return int(sps.ScalingList[e]) == entryOf(b, p, end, e)
	}))
	vf.Inv("entries to come", vf.All(off, 480, func(e int) bool { return sps.ScalingList[e] == 0 }))
	vf.Inv("defaults", vf.All(0, 12, func(k int) bool {
		return sps.UseDefaultScalingMatrix[k] == listDefault(b, p, end, i, k)
	}))
	vf.Dec(nlists - i)
}

//vf:depth 1
func Inv_ParameterSets_ParseSPS_2(s *ParameterSets, buf []byte, sps *SPSInfo, br *BitReader, err error, i uint32) {
	b, end := buf, len(buf)*8
	m := spsOrder(buf, spsStart(buf))
	p := m.cycle.pos
	n := int(sps.NumRefFramesInPicOrderCntCycle)
	LemmaSkipStop(b, p, end, int(i), n)
	LemmaSkipStop(b, p, end, int(i)+1, n)
	k := skipAt(b, p, end, int(i))
	vf.Inv("well formed", rdOK(br) && vf.Same(br.buffer, buf))
	vf.Inv("skipped so far", int(i) <= n && n == m.cycle.v && m.cycle.ok && k.ok && rdPos(br) == k.pos)
	vf.Dec(n - int(i))
}

// spsHints are the positions passed on the way.
func spsHints(b []byte, p int, err error) {
	h := spsStart(b)
	m := spsOrder(b, h)
	t := spsEnd(b, m)
	vf.Hint("profile", err != nil || h.profile.ok && p == h.profile.pos)
	vf.Hint("constraints", err != nil || h.constraints.ok && p == h.constraints.pos)
	vf.Hint("level", err != nil || h.level.ok && p == h.level.pos)
	vf.Hint("id", err != nil || h.id.ok && p == h.id.pos)
	vf.Hint("chroma", err != nil || h.chroma.ok && p == h.chroma.pos)
	vf.Hint("separate", err != nil || h.separate.ok && p == h.separate.pos)
	vf.Hint("luma", err != nil || h.luma.ok && p == h.luma.pos)
	vf.Hint("depth", err != nil || h.depth.ok && p == h.depth.pos)
	vf.Hint("bypass", err != nil || h.bypass.ok && p == h.bypass.pos)
	vf.Hint("matrix", err != nil || h.matrix.ok && p == h.matrix.pos)
	vf.Hint("frameNum", err != nil || m.frameNum.ok && p == m.frameNum.pos)
	vf.Hint("pocType", err != nil || m.pocType.ok && p == m.pocType.pos)
	vf.Hint("pocBits", err != nil || m.pocBits.ok && p == m.pocBits.pos)
	vf.Hint("always0", err != nil || m.always0.ok && p == m.always0.pos)
	vf.Hint("nonRef", err != nil || m.nonRef.ok && p == m.nonRef.pos)
	vf.Hint("topBottom", err != nil || m.topBottom.ok && p == m.topBottom.pos)
	vf.Hint("cycle", err != nil || m.cycle.ok && p == m.cycle.pos)
	vf.Hint("refs", err != nil || t.refs.ok && p == t.refs.pos)
	vf.Hint("gaps", err != nil || t.gaps.ok && p == t.gaps.pos)
	vf.Hint("width", err != nil || t.width.ok && p == t.width.pos)
	vf.Hint("height", err != nil || t.height.ok && p == t.height.pos)
	vf.Hint("frames", err != nil || t.frames.ok && p == t.frames.pos)
	vf.Hint("mbaff", err != nil || t.mbaff.ok && p == t.mbaff.pos)
	vf.Hint("direct", err != nil || t.direct.ok && p == t.direct.pos)
	vf.Hint("crop", err != nil || t.crop.ok && p == t.crop.pos)
	vf.Hint("left", err != nil || t.left.ok && p == t.left.pos)
	vf.Hint("right", err != nil || t.right.ok && p == t.right.pos)
	vf.Hint("top", err != nil || t.top.ok && p == t.top.pos)
	vf.Hint("bottom", err != nil || t.bottom.ok && p == t.bottom.pos)
	vf.Hint("vui", err != nil || t.vui.ok && p == t.vui.pos)
}
func After_ParameterSets_ParseSPS_BitReader_ReadByteBits(r *BitReader, n uint, val byte, err error) {
	spsHints(r.buffer, rdPos(r), err)
}
func After_ParameterSets_ParseSPS_BitReader_ReadFlag(r *BitReader, val bool, err error) {
	spsHints(r.buffer, rdPos(r), err)
}
func After_ParameterSets_ParseSPS_BitReader_ReadBits(r *BitReader, n uint, val uint32, err error) {
	spsHints(r.buffer, rdPos(r), err)
}
func After_ParameterSets_ParseSPS_BitReader_ReadUnsignedGolomb(r *BitReader, val uint32, err error) {
	spsHints(r.buffer, rdPos(r), err)
}
func After_ParameterSets_ParseSPS_BitReader_ReadSignedGolomb(r *BitReader, val int32, err error) {
	spsHints(r.buffer, rdPos(r), err)
}

func Gen_ParameterSets_ParseSPS(g *vf.Gen) (*ParameterSets, []byte) {
	return genSets(g), genSPS(g)
}

func genSets(g *vf.Gen) *ParameterSets {
	s := NewParameterSets()
	for i := g.N(4); i > 0; i-- {
		id := uint32(g.N(4))
		s.spset[id] = &SPSInfo{SpsID: id, ChromaFormatIdc: uint32(g.N(4)), Width: 99}
	}
	for i := g.N(4); i > 0; i-- {
		id := uint32(g.N(4))
		s.ppset[id] = &PPSInfo{PpsID: id, PicInitQpMinus26: 99}
	}
	return s
}

func genUE(g *vf.Gen) uint64 {
	switch g.N(12) {
	case 0:
		return uint64(g.U32() - 1)
	case 1:
		return uint64(g.N(300))
	}
	return uint64(g.N(12))
}

func genLists(g *vf.Gen, w *vf.Bits, n int) {
	for k := 0; k < n; k++ {
		if g.P(60) {
			w.U(1, 0)
			continue
		}
		w.U(1, 1)
		next := 8
		for j := 0; j < listSize(k) && next != 0; j++ {
			d := g.Int(-20, 20)
			if g.P(8) {
				d = -next
			}
			if g.P(1) {
				d = g.Int(-140, 140)
			}
			w.SE(int64(d))
			if next = (next + d + 256) % 256; next < 0 {
				next += 256
			}
		}
	}
}

func cutBits(g *vf.Gen, w *vf.Bits) []byte {
	if g.P(70) {
		w.U(1, 1)
	}
	b := w.B
	if g.P(20) {
		b = b[:g.N(len(b)+1)]
	}
	if g.P(10) {
		b = append(b, g.Bytes(3)...)
	}
	return b
}

func genSPS(g *vf.Gen) []byte {
	if g.P(5) {
		return g.Bytes(20)
	}
	w := &vf.Bits{}
	profile := []int{66, 77, 88, 183, 100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135}[g.N(17)]
	if g.P(5) {
		profile = g.N(256)
	}
	w.U(8, uint64(profile))
	w.U(8, uint64(g.Byte()))
	w.U(8, uint64(g.Byte()))
	w.UE(uint64(g.N(5)))
	if isHigh(profile) {
		c := uint64(g.N(5))
		w.UE(c)
		if c == 3 {
			w.U(1, uint64(g.N(2)))
		}
		w.UE(genUE(g))
		w.UE(genUE(g))
		w.U(1, uint64(g.N(2)))
		m := g.N(2)
		w.U(1, uint64(m))
		if m == 1 {
			n := 8
			if c == 3 {
				n = 12
			}
			genLists(g, w, n)
		}
	}
	w.UE(genUE(g))
	t := uint64(g.N(4))
	w.UE(t)
	if t == 0 {
		w.UE(genUE(g))
	} else if t == 1 {
		w.U(1, uint64(g.N(2)))
		w.SE(int64(g.Int(-300, 300)))
		w.SE(int64(g.Int(-300, 300)))
		n := g.N(6)
		if g.P(5) {
			n = 100000
		}
		w.UE(uint64(n))
		for i := 0; i < n && i < 20; i++ {
			w.SE(int64(g.Int(-300, 300)))
		}
	}
	w.UE(genUE(g))
	w.U(1, uint64(g.N(2)))
	w.UE(genUE(g))
	w.UE(genUE(g))
	f := g.N(2)
	w.U(1, uint64(f))
	if f == 0 {
		w.U(1, uint64(g.N(2)))
	}
	w.U(1, uint64(g.N(2)))
	c := g.N(2)
	w.U(1, uint64(c))
	if c == 1 {
		for i := 0; i < 4; i++ {
			w.UE(genUE(g))
		}
	}
	w.U(1, uint64(g.N(2)))
	return cutBits(g, w)
}
