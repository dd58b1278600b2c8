package rtp

import "github.com/aboukirev/ouro/internal/vf"

// ---- vocabulary: the packet of RFC 3550 section 5.1, read off the octets

func be16At(b []byte, p int) int { return int(b[p])*256 + int(b[p+1]) }
func be32At(b []byte, p int) int {
	return int(b[p])*16777216 + int(b[p+1])*65536 + int(b[p+2])*256 + int(b[p+3])
}

func hasPad(b0 byte) bool { return int(b0)/32%2 == 1 }
func hasExt(b0 byte) bool { return int(b0)/16%2 == 1 }
func numSrc(b0 byte) int  { return int(b0) % 16 }

// extAt is where the header extension of a packet starts, if it has one.
func extAt(b []byte) int { return 12 + 4*numSrc(b[0]) }

// payloadAt is where the payload starts.
func payloadAt(b []byte) int {
	if hasExt(b[0]) {
		return extAt(b) + 4 + 4*be16At(b, extAt(b)+2)
	}
	return extAt(b)
}

// headOK: the octets hold a complete version 2 header.
func headOK(b []byte) bool {
	return len(b) >= 12 && int(b[0])/64 == 2 && len(b) >= extAt(b) &&
		vf.Imp(hasExt(b[0]), len(b) >= extAt(b)+4 && len(b) >= payloadAt(b))
}

// padOf is the number of padding octets.
func padOf(b []byte) int {
	if hasPad(b[0]) {
		return int(b[len(b)-1])
	}
	return 0
}

// wireOK: the octets are an RTP packet.
func wireOK(b []byte) bool {
	return headOK(b) && vf.Imp(hasPad(b[0]), padOf(b) >= 1 && padOf(b) <= len(b)-payloadAt(b))
}

// ---- Unpack

func Post_Unpack(buf []byte, p *Packet, err error) {
	ok := wireOK(buf)
	vf.Ensure("@C01@C02 accepts exactly well formed packets", (err == nil) == ok)
	vf.Ensure("@C01@C02 nothing is returned with an error", (p == nil) == !ok)
	vf.Ensure("fresh", vf.Imp(ok, vf.Fresh(p)))
	vf.Ensure("@C01@C02 first octets", vf.Imp(ok, p.VPXCC == buf[0] && p.MPT == buf[1]))
	vf.Ensure("@C01@C02 sequence number", vf.Imp(ok, int(p.SN) == be16At(buf, 2)))
	vf.Ensure("@C01@C02 timestamp", vf.Imp(ok, int(p.TS) == be32At(buf, 4)))
	vf.Ensure("@C01@C02 synchronization source", vf.Imp(ok, int(p.SSRC) == be32At(buf, 8)))
	vf.Ensure("@C01@C02 number of contributing sources", vf.Imp(ok, len(p.CSRC) == numSrc(buf[0])))
	vf.Ensure("@C01@C02 contributing sources", vf.Imp(ok, vf.All(0, numSrc(buf[0]), func(i int) bool {
		return int(p.CSRC[i]) == be32At(buf, 12+4*i)
	})))
	x := ok && hasExt(buf[0])
	e := extAt
	vf.Ensure("@C01@C02 extension header", vf.Imp(x, int(p.XH) == be16At(buf, e(buf)) && int(p.XL) == be16At(buf, e(buf)+2)))
	vf.Ensure("@C01@C02 extension data", vf.Imp(x, len(p.XD) == 4*int(p.XL) && vf.SubOf(p.XD, buf, e(buf)+4)))
	vf.Ensure("@C01@C02 no extension", vf.Imp(ok && !hasExt(buf[0]), p.XH == 0 && p.XL == 0 && len(p.XD) == 0))
	vf.Ensure("@C01@C02 payload without header or padding", vf.Imp(ok,
		len(p.PL) == len(buf)-payloadAt(buf)-padOf(buf) && vf.SubOf(p.PL, buf, payloadAt(buf))))
}

func Inv_Unpack_1(buf []byte, packet *Packet, off int, it int) {
	vf.Inv("in range", 0 <= it && it <= len(packet.CSRC) && off == 12+4*it)
	vf.Inv("sources so far", vf.All(0, it, func(i int) bool { return int(packet.CSRC[i]) == be32At(buf, 12+4*i) }))
	vf.Dec(len(packet.CSRC) - it)
}

func genWire(g *vf.Gen) []byte {
	w := &vf.Bits{}
	v := 2
	if g.P(5) {
		v = g.N(4)
	}
	w.U(2, uint64(v))
	pad, ext := g.P(40), g.P(50)
	cc := g.Int(0, 15)
	if g.Bool() {
		cc = g.N(3)
	}
	w.U(1, b2u(pad))
	w.U(1, b2u(ext))
	w.U(4, uint64(cc))
	for i := 0; i < 11+4*cc; i++ {
		w.U(8, uint64(g.Byte()))
	}
	if ext {
		w.U(16, uint64(g.U16()))
		n := g.N(4)
		if g.P(5) {
			n = 60 + g.N(20)
		}
		w.U(16, uint64(n))
		for i := 0; i < 4*n; i++ {
			w.U(8, uint64(g.Byte()))
		}
	}
	b := append(w.B, g.Bytes(20)...)
	if pad {
		n := 1 + g.N(6)
		for i := 1; i < n; i++ {
			b = append(b, g.Byte())
		}
		if g.P(20) {
			n = g.N(256)
		}
		b = append(b, byte(n))
	}
	if g.P(30) {
		b = b[:g.N(len(b)+1)]
	}
	return b
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func Gen_Unpack(g *vf.Gen) []byte { return genWire(g) }

// ---- accessors

func Post_Packet_P(p Packet, v bool)  { vf.Ensure("@C01@C02 padding flag", v == hasPad(p.VPXCC)) }
func Post_Packet_X(p Packet, v bool)  { vf.Ensure("@C01@C02 extension flag", v == hasExt(p.VPXCC)) }
func Post_Packet_CC(p Packet, v byte) { vf.Ensure("@C01@C02 source count", int(v) == numSrc(p.VPXCC)) }
func Post_Packet_M(p Packet, v bool)  { vf.Ensure("@C01@C02 marker", v == (int(p.MPT) >= 128)) }
func Post_Packet_PT(p Packet, v byte) { vf.Ensure("@C01@C02 payload type", int(v) == int(p.MPT)%128) }

func genPacket(g *vf.Gen) Packet {
	p := Packet{VPXCC: byte(128 + g.N(64)), MPT: g.Byte(), SN: g.U16(), TS: g.U32(), SSRC: g.U32()}
	if g.Bool() {
		p.VPXCC &= 0xf3
	}
	n := int(p.VPXCC & 15)
	if g.P(20) {
		n = g.N(18)
	}
	for i := 0; i < n; i++ {
		p.CSRC = append(p.CSRC, g.U32())
	}
	if p.VPXCC&16 != 0 || g.P(10) {
		p.XH, p.XL = g.U16(), uint16(g.N(4))
		if g.P(3) {
			p.XL = uint16(16300 + g.N(150))
		}
		n := 4 * int(p.XL)
		if g.P(20) {
			n = g.N(24)
		}
		for i := 0; i < n; i++ {
			p.XD = append(p.XD, g.Byte())
		}
	}
	p.PL = g.Bytes(40)
	return p
}

func Gen_Packet_P(g *vf.Gen) Packet  { return genPacket(g) }
func Gen_Packet_X(g *vf.Gen) Packet  { return genPacket(g) }
func Gen_Packet_CC(g *vf.Gen) Packet { return genPacket(g) }
func Gen_Packet_M(g *vf.Gen) Packet  { return genPacket(g) }
func Gen_Packet_PT(g *vf.Gen) Packet { return genPacket(g) }

// ---- Pack

// extLen is the number of octets of header extension a packet declares.
func extLen(p *Packet) int {
	if hasExt(p.VPXCC) {
		return 4 + 4*int(p.XL)
	}
	return 0
}

//vf:nilable p
func Pre_Packet_Pack(p *Packet) bool { return vf.Imp(p != nil, len(p.PL) < 1<<40) }

func Post_Packet_Pack(p *Packet, b []byte) {
	if p == nil {
		vf.Ensure("@C02 no packet, no octets", b == nil)
		return
	}
	n := numSrc(p.VPXCC)
	e := 12 + 4*n
	q := e + extLen(p)
	vf.Ensure("@C02 fresh", vf.Fresh(b))
	vf.Ensure("@C02 length", len(b) == q+len(p.PL))
	vf.Ensure("@C02 first octets", b[0] == p.VPXCC && b[1] == p.MPT)
	vf.Ensure("@C02 sequence number", be16At(b, 2) == int(p.SN))
	vf.Ensure("@C02 timestamp", be32At(b, 4) == int(p.TS))
	vf.Ensure("@C02 synchronization source", be32At(b, 8) == int(p.SSRC))
	vf.Ensure("@C02 contributing sources", vf.All(0, n, func(i int) bool {
		return vf.Imp(i < len(p.CSRC), be32At(b, 12+4*i) == int(p.CSRC[i]))
	}))
	x := hasExt(p.VPXCC)
	vf.Ensure("@C02 extension header", vf.Imp(x, be16At(b, e) == int(p.XH) && be16At(b, e+2) == int(p.XL)))
	vf.Ensure("@C02 extension data", vf.Imp(x, vf.All(0, 4*int(p.XL), func(i int) bool {
		return vf.Imp(i < len(p.XD), b[e+4+i] == p.XD[i])
	})))
	vf.Ensure("@C02 payload", vf.All(0, len(p.PL), func(i int) bool { return b[q+i] == p.PL[i] }))
}

func Inv_Packet_Pack_1(p *Packet, b []byte, off int, it int) {
	vf.Inv("in range", 0 <= it && it <= len(p.CSRC) && it <= numSrc(p.VPXCC))
	vf.Inv("head stays", b[0] == p.VPXCC && b[1] == p.MPT && be16At(b, 2) == int(p.SN) && be32At(b, 4) == int(p.TS) && be32At(b, 8) == int(p.SSRC))
	vf.Inv("sources so far", vf.All(0, it, func(i int) bool { return be32At(b, 12+4*i) == int(p.CSRC[i]) }))
	vf.Inv("rest untouched", vf.All(12+4*it, len(b), func(i int) bool { return b[i] == 0 }))
	vf.Dec(len(p.CSRC) - it)
}

func Gen_Packet_Pack(g *vf.Gen) *Packet {
	if g.P(2) {
		return nil
	}
	p := genPacket(g)
	return &p
}

// ---- both ways

// consistent: the flags of p describe what it carries, and it is not padded.
func consistent(p *Packet) bool {
	return int(p.VPXCC)/64 == 2 && !hasPad(p.VPXCC) && len(p.CSRC) == numSrc(p.VPXCC) &&
		vf.Imp(hasExt(p.VPXCC), len(p.XD) == 4*int(p.XL)) && vf.Imp(!hasExt(p.VPXCC), p.XH == 0 && p.XL == 0 && len(p.XD) == 0)
}

// ThereAndBack packs a packet and unpacks the result.
func ThereAndBack(p *Packet) (*Packet, error) { return Unpack(p.Pack()) }

func Pre_ThereAndBack(p *Packet) bool { return consistent(p) && len(p.PL) < 1<<40 }
func Post_ThereAndBack(p *Packet, q *Packet, err error) {
	vf.Ensure("@C02 accepted", err == nil && q != nil)
	vf.Ensure("@C02 same first octets", q.VPXCC == p.VPXCC && q.MPT == p.MPT)
	vf.Ensure("@C02 same numbers", q.SN == p.SN && q.TS == p.TS && q.SSRC == p.SSRC)
	vf.Ensure("@C02 same sources", len(q.CSRC) == len(p.CSRC) && vf.All(0, len(p.CSRC), func(i int) bool { return q.CSRC[i] == p.CSRC[i] }))
	vf.Ensure("@C02 same extension", q.XH == p.XH && q.XL == p.XL && len(q.XD) == len(p.XD) && vf.All(0, len(p.XD), func(i int) bool { return q.XD[i] == p.XD[i] }))
	vf.Ensure("@C02 same payload", len(q.PL) == len(p.PL) && vf.All(0, len(p.PL), func(i int) bool { return q.PL[i] == p.PL[i] }))
}
func Gen_ThereAndBack(g *vf.Gen) *Packet {
	p := genPacket(g)
	p.VPXCC &= 0xdf
	p.CSRC = nil
	for i := 0; i < int(p.VPXCC&15); i++ {
		p.CSRC = append(p.CSRC, g.U32())
	}
	p.XH, p.XL, p.XD = 0, 0, nil
	if p.VPXCC&16 != 0 {
		p.XH, p.XL = g.U16(), uint16(g.N(5))
		for i := 0; i < int(p.XL)*4; i++ {
			p.XD = append(p.XD, g.Byte())
		}
	}
	return &p
}

// BackAndThere unpacks octets and packs the result.
func BackAndThere(buf []byte) (*Packet, []byte, error) {
	p, err := Unpack(buf)
	if err != nil {
		return nil, nil, err
	}
	return p, p.Pack(), nil
}

func Pre_BackAndThere(buf []byte) bool {
	return len(buf) < 1<<40 && vf.Imp(len(buf) > 0, !hasPad(buf[0]))
}
func Post_BackAndThere(buf []byte, p *Packet, out []byte, err error) {
	vf.Ensure("@C02 accepts exactly well formed packets", (err == nil) == wireOK(buf))
	vf.Ensure("@C02 same length", vf.Imp(err == nil, len(out) == len(buf)))
	ok := err == nil
	vf.Ensure("@C02 same octets before the sources", vf.Imp(ok, vf.All(0, 12, func(i int) bool { return out[i] == buf[i] })))
	vf.Ensure("@C02 same sources", vf.Imp(ok, vf.All(0, numSrc(buf[0]), func(i int) bool {
		return be32At(out, 12+4*i) == int(p.CSRC[i]) && int(p.CSRC[i]) == be32At(buf, 12+4*i)
	})))
	vf.Ensure("@C02 same extension header", vf.Imp(ok && hasExt(buf[0]), be32At(out, extAt(buf)) == be32At(buf, extAt(buf))))
	vf.Ensure("@C02 same extension data", vf.Imp(ok && hasExt(buf[0]), vf.All(extAt(buf)+4, payloadAt(buf), func(i int) bool { return out[i] == buf[i] })))
	vf.Ensure("@C02 same payload", vf.Imp(ok, vf.All(payloadAt(buf), len(buf), func(i int) bool { return out[i] == buf[i] })))
}
func Gen_BackAndThere(g *vf.Gen) []byte {
	b := genWire(g)
	if len(b) > 0 {
		b[0] &= 0xdf
	}
	return b
}
