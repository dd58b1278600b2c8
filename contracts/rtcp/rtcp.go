package rtcp

import "github.com/aboukirev/ouro/internal/vf"

// ---- vocabulary: RFC 3550 section 6.4.1, read off the octets

func be16At(b []byte, p int) int { return int(b[p])*256 + int(b[p+1]) }
func be32At(b []byte, p int) int {
	return int(b[p])*16777216 + int(b[p+1])*65536 + int(b[p+2])*256 + int(b[p+3])
}

// wireOK: a version 2 packet that, when it is a sender report, is long enough
// for the sender information and the report blocks it announces.
func wireOK(b []byte) bool {
	return len(b) >= 4 && int(b[0])/64 == 2 &&
		vf.Imp(b[1] == 200, len(b) >= 28+24*(int(b[0])%32))
}

func Post_Unpack(buf []byte, p *Packet, err error) {
	ok := wireOK(buf)
	sr := ok && buf[1] == 200
	vf.Ensure("accepts exactly well formed packets", (err == nil) == ok)
	vf.Ensure("nothing is returned with an error", (p == nil) == !ok)
	vf.Ensure("fresh", vf.Imp(ok, vf.Fresh(p)))
	vf.Ensure("first octets", vf.Imp(ok, p.VPC == buf[0] && p.PT == buf[1]))
	vf.Ensure("length", vf.Imp(ok, int(p.LN) == be16At(buf, 2)))
	vf.Ensure("sender report exactly for type 200", vf.Imp(ok, (p.DSR != nil) == sr))
	vf.Ensure("no other report", vf.Imp(ok, p.DRR == nil && p.DBYE == nil))
	vf.Ensure("sender", vf.Imp(sr, int(p.DSR.SSRC) == be32At(buf, 4)))
	vf.Ensure("NTP timestamp, seconds", vf.Imp(sr, int(p.DSR.NTPTS>>32) == be32At(buf, 8)))
	vf.Ensure("NTP timestamp, fraction", vf.Imp(sr, int(p.DSR.NTPTS&0xffffffff) == be32At(buf, 12)))
	vf.Ensure("RTP timestamp", vf.Imp(sr, int(p.DSR.RTPTS) == be32At(buf, 16)))
	vf.Ensure("packet count", vf.Imp(sr, int(p.DSR.PC) == be32At(buf, 20)))
	vf.Ensure("octet count", vf.Imp(sr, int(p.DSR.OC) == be32At(buf, 24)))
}

func Gen_Unpack(g *vf.Gen) []byte {
	v, c, pt := 2, g.Int(0, 31), 200
	if g.P(60) {
		c = g.N(3)
	}
	if g.P(20) {
		pt = g.Int(190, 210)
	}
	if g.P(5) {
		v = g.N(4)
	}
	b := []byte{byte(v<<6 | g.N(2)<<5 | c), byte(pt), g.Byte(), g.Byte()}
	n := 24 + 24*c + g.N(6) - 3
	if g.P(15) {
		n = g.N(40)
	}
	for i := 0; i < n; i++ {
		b = append(b, g.Byte())
	}
	if g.P(10) {
		b = b[:g.N(len(b)+1)]
	}
	return b
}

func Post_Packet_P(p Packet, v bool) { vf.Ensure("padding flag", v == (int(p.VPC)/32%2 == 1)) }
func Post_Packet_C(p Packet, v byte) { vf.Ensure("count", int(v) == int(p.VPC)%32) }

func Gen_Packet_P(g *vf.Gen) Packet { return Packet{VPC: g.Byte()} }
func Gen_Packet_C(g *vf.Gen) Packet { return Packet{VPC: g.Byte()} }
