From 7f61cb8ec9c3ec8a4332269c909e78e441398315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 01/36] fix: read unaligned 32 bit values without losing high
 bits

An unaligned read of more than 24 bits spans five bytes and the accumulator
was only 32 bits wide.  A zero length read at the end of the buffer indexed
past the end.
---
 net/h264/bits.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/net/h264/bits.go b/net/h264/bits.go
index 85581b4..2cec71e 100644
--- a/net/h264/bits.go
+++ b/net/h264/bits.go
@@ -33,16 +33,20 @@ func (r *BitReader) ReadBits(n uint) (val uint32, err error) {
 	if n > 32 || n > r.Available() {
 		return 0, io.ErrUnexpectedEOF
 	}
-	val = uint32(r.buffer[r.byten])
+	if n == 0 {
+		return 0, nil
+	}
+	// An unaligned 32 bit value spans five bytes.
+	acc := uint64(r.buffer[r.byten])
 	bits := 8 - r.bitn
 	for n > bits {
 		// No check here as we already know there is enough data from AvailableBits().
 		r.byten++
-		val = (val << 8) | uint32(r.buffer[r.byten])
+		acc = (acc << 8) | uint64(r.buffer[r.byten])
 		bits += 8
 	}
 	// Align and nask out most significant bits that are not requested.
-	val = (val >> (bits - n)) & ((1 << n) - 1)
+	val = uint32(acc>>(bits-n)) & ((1 << n) - 1)
 	r.bitn = 8 - (bits - n)
 	return
 }
-- 
2.43.0


From b0f58747742a23e4c026d0ca884e2228e12615d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 02/36] fix: reject Exp-Golomb codes that do not fit 32 bits

---
 net/h264/bits.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/net/h264/bits.go b/net/h264/bits.go
index 2cec71e..a9d7dcc 100644
--- a/net/h264/bits.go
+++ b/net/h264/bits.go
@@ -7,6 +7,7 @@ import (
 
 var (
 	errMissingTrailingBits = errors.New("RBSP is missing trailing stop and align bits")
+	errGolombOverflow      = errors.New("Exp-Golomb code does not fit 32 bits")
 )
 
 // BitReader implements bit stream reading for H.264 network layer processing.
@@ -81,6 +82,9 @@ func (r *BitReader) ReadUnsignedGolomb() (val uint32, err error) {
 		}
 		zeroes++
 	}
+	if zeroes > 31 {
+		return 0, errGolombOverflow
+	}
 	// Last read bit was 1.  Read (zeroes) more.
 	val, err = r.ReadBits(zeroes)
 	if err != nil {
@@ -156,6 +160,9 @@ func (r *BitReader) SkipGolomb() (err error) {
 		}
 		zeroes++
 	}
+	if zeroes > 31 {
+		return errGolombOverflow
+	}
 	// Last read bit was 1.  Read (zeroes) more.
 	return r.SkipBits(zeroes)
 }
-- 
2.43.0


From 611c63d21d8a4689a0aa5a81c4bf619cc6ccfed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 03/36] fix: reject truncated RTP packets instead of panicking

---
 net/rtp/packet.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/net/rtp/packet.go b/net/rtp/packet.go
index 77c6af5..c920df7 100644
--- a/net/rtp/packet.go
+++ b/net/rtp/packet.go
@@ -14,6 +14,8 @@ const (
 
 var (
 	errInvalidVersion = errors.New("Invalid version of RTP packet")
+	errPacketTooShort = errors.New("Packet is too short")
+	errInvalidPadding = errors.New("Invalid padding of RTP packet")
 )
 
 var be = binary.BigEndian
@@ -48,6 +50,9 @@ type (
 
 // Unpack validates a packed RTP packet and converts it into a sparse structure.
 func Unpack(buf []byte) (*Packet, error) {
+	if len(buf) < HeaderSize {
+		return nil, errPacketTooShort
+	}
 	if (buf[0] & 0xC0) != RtpVersion {
 		return nil, errInvalidVersion
 	}
@@ -60,6 +65,9 @@ func Unpack(buf []byte) (*Packet, error) {
 	}
 
 	off := HeaderSize
+	if len(buf) < off+int(packet.CC())*4 {
+		return nil, errPacketTooShort
+	}
 	packet.CSRC = make([]uint32, packet.CC())
 	for i := range packet.CSRC {
 		packet.CSRC[i] = be.Uint32(buf[off:])
@@ -67,9 +75,15 @@ func Unpack(buf []byte) (*Packet, error) {
 	}
 
 	if packet.X() {
+		if len(buf) < off+4 {
+			return nil, errPacketTooShort
+		}
 		packet.XH = be.Uint16(buf[off:])
 		packet.XL = be.Uint16(buf[off+2:])
 		off += 4
+		if len(buf) < off+int(packet.XL)*4 {
+			return nil, errPacketTooShort
+		}
 		if packet.XL > 0 {
 			packet.XD = buf[off : off+int(packet.XL)*4]
 			off += int(packet.XL) * 4
-- 
2.43.0


From 988aa2480912983abf90326746f53300d296ef0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 04/36] fix: do not deliver RTP padding as payload

---
 net/rtp/packet.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/net/rtp/packet.go b/net/rtp/packet.go
index c920df7..60b5dfc 100644
--- a/net/rtp/packet.go
+++ b/net/rtp/packet.go
@@ -90,7 +90,16 @@ func Unpack(buf []byte) (*Packet, error) {
 		}
 	}
 
-	packet.PL = buf[off:]
+	end := len(buf)
+	if packet.P() {
+		// Last octet tells how many octets of padding to ignore, including itself.
+		n := int(buf[end-1])
+		if n == 0 || n > end-off {
+			return nil, errInvalidPadding
+		}
+		end -= n
+	}
+	packet.PL = buf[off:end]
 
 	//s.rtpChan <- packet
 	return packet, nil
-- 
2.43.0


From 90bcd80b1b049f901504f5f1ac4be4bdb57ba19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 05/36] fix: pack the whole RTP packet

The size was computed in 16 bits, so a long extension wrapped it and Pack
panicked, and everything after the timestamp was left zero.
---
 net/rtp/packet.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/net/rtp/packet.go b/net/rtp/packet.go
index 60b5dfc..b61223f 100644
--- a/net/rtp/packet.go
+++ b/net/rtp/packet.go
@@ -135,15 +135,28 @@ func (p *Packet) Pack() []byte {
 	if p == nil {
 		return nil
 	}
-	sz := uint16(HeaderSize + p.CC()*4)
+	off := HeaderSize + int(p.CC())*4
+	sz := off
 	if p.X() {
-		sz = sz + 4*(1+p.XL)
+		sz = sz + 4*(1+int(p.XL))
 	}
-	b := make([]byte, sz)
+	b := make([]byte, sz+len(p.PL))
 	b[0] = p.VPXCC
 	b[1] = p.MPT
 	be.PutUint16(b[2:], p.SN)
 	be.PutUint32(b[4:], p.TS)
-	// TODO: Finish this
+	be.PutUint32(b[8:], p.SSRC)
+	for i, csrc := range p.CSRC {
+		if i >= int(p.CC()) {
+			break
+		}
+		be.PutUint32(b[HeaderSize+i*4:], csrc)
+	}
+	if p.X() {
+		be.PutUint16(b[off:], p.XH)
+		be.PutUint16(b[off+2:], p.XL)
+		copy(b[off+4:sz], p.XD)
+	}
+	copy(b[sz:], p.PL)
 	return b
 }
-- 
2.43.0


From d375d244bde93c128f668bbd4b75b745d1be1545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 06/36] fix: reject RTCP packets shorter than the header

---
 net/rtcp/packet.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/rtcp/packet.go b/net/rtcp/packet.go
index e61e349..a9451c6 100644
--- a/net/rtcp/packet.go
+++ b/net/rtcp/packet.go
@@ -187,6 +187,9 @@ type DataBYE struct {
 
 // Unpack validates a packed RTCP packet and converts it into a sparse structure.
 func Unpack(buf []byte) (*Packet, error) {
+	if len(buf) < HeaderSize {
+		return nil, errPacketTooShort
+	}
 	packet := &Packet{
 		VPC: buf[0],
 		PT:  buf[1],
-- 
2.43.0


From 06c18eccd0ff895b06f0f88473064cca99c3929a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:21 +0000
Subject: [PATCH 07/36] fix: encapsulate every emulated start code and trailing
 zeroes

---
 net/h264/annexb.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/net/h264/annexb.go b/net/h264/annexb.go
index 565f566..7366964 100644
--- a/net/h264/annexb.go
+++ b/net/h264/annexb.go
@@ -58,10 +58,11 @@ func RBSPToEncapsulated(buf []byte) []byte {
 	size := len(buf)
 	ebsp := make([]byte, 0, size*2)
 	for off := 0; off < size; {
-		if size-off >= 2 && buf[off] == 0 && buf[off+1] == 0 && buf[off+2] <= 3 {
-			// Add emulation prevention bytes.
+		if size-off >= 2 && buf[off] == 0 && buf[off+1] == 0 && (size-off == 2 || buf[off+2] <= 3) {
+			// Add emulation prevention bytes.  Byte that follows may start another pair of zeroes.
 			ebsp = append(ebsp, zero, zero, epb)
 			off += 2
+			continue
 		}
 		ebsp = append(ebsp, buf[off])
 		off++
-- 
2.43.0


From 1d614ab8059f86e23861e871b514d6aa884411f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:53 +0000
Subject: [PATCH 08/36] fix: reject empty and oversized units in aggregation
 packets instead of panicking

---
 net/h264/packet.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index 8b96cb4..170be3d 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -167,12 +167,15 @@ func (s *NALSink) parseSTAP(typ byte, buf []byte, ts uint32) error {
 			return nil // Nothing more to process
 		}
 		size := be.Uint16(buf)
-		if len(buf) < int(size+2) {
+		if size == 0 {
+			return errInvalidPayloadHeader
+		}
+		if len(buf) < int(size)+2 {
 			return errPacketTooShort
 		}
-		s.Units = append(s.Units, NALUnit{Header: buf[2], Don: s.Don, TS: ts, Data: buf[3 : size+2]})
+		s.Units = append(s.Units, NALUnit{Header: buf[2], Don: s.Don, TS: ts, Data: buf[3 : int(size)+2]})
 		s.Don++
-		buf = buf[size+2:]
+		buf = buf[int(size)+2:]
 	}
 }
 
@@ -182,12 +185,12 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 	}
 	s.Don = be.Uint16(buf)
 	buf = buf[2:]
-	off := uint16(2 + 1 + 2) // size, donb, 16-bit ts offset
+	off := 2 + 1 + 2 // size, donb, 16-bit ts offset
 	if typ == typeMtap24 {
 		off++ // 24-bit ts offset instead of 16-bit
 	}
 	for {
-		if len(buf) < int(off) {
+		if len(buf) < off {
 			return nil // Nothing more to process
 		}
 		size := be.Uint16(buf)
@@ -197,12 +200,15 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 		if typ == typeMtap24 {
 			tsoff = ts<<8 + uint32(buf[5])
 		}
-		if len(buf) < int(size+off) {
+		if size == 0 {
+			return errInvalidPayloadHeader
+		}
+		if len(buf) < int(size)+off {
 			return errPacketTooShort
 		}
-		s.Units = append(s.Units, NALUnit{Header: buf[off], Don: s.Don + dond, TS: ts + tsoff, Data: buf[off+1 : size+off]})
+		s.Units = append(s.Units, NALUnit{Header: buf[off], Don: s.Don + dond, TS: ts + tsoff, Data: buf[off+1 : int(size)+off]})
 		s.Don++
-		buf = buf[size+off:]
+		buf = buf[int(size)+off:]
 	}
 }
 
-- 
2.43.0


From 14e66f98b975673db50a5b2485c79b57337135a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:53 +0000
Subject: [PATCH 09/36] fix: read 24 bit timestamp offsets of aggregated units

---
 net/h264/packet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index 170be3d..c875fb9 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -198,7 +198,7 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 		// Read and handle 16-bit or 24-bit timestamp offset.
 		tsoff := uint32(buf[3])<<8 + uint32(buf[4])
 		if typ == typeMtap24 {
-			tsoff = ts<<8 + uint32(buf[5])
+			tsoff = tsoff<<8 + uint32(buf[5])
 		}
 		if size == 0 {
 			return errInvalidPayloadHeader
-- 
2.43.0


From 5e710a767b9de43faae7d45636e8e3ef2f791ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:54 +0000
Subject: [PATCH 10/36] fix: number units of multi-time aggregates relative to
 the base of the packet

---
 net/h264/packet.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index c875fb9..b24ed2b 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -207,7 +207,6 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 			return errPacketTooShort
 		}
 		s.Units = append(s.Units, NALUnit{Header: buf[off], Don: s.Don + dond, TS: ts + tsoff, Data: buf[off+1 : int(size)+off]})
-		s.Don++
 		buf = buf[int(size)+off:]
 	}
 }
-- 
2.43.0


From a5cc94f6278f7fcb15a441a541b9256810d16c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:54 +0000
Subject: [PATCH 11/36] fix: keep all units of a pushed payload in the queue

---
 net/h264/packet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index b24ed2b..5566403 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -213,6 +213,7 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 
 // Push RTP payload parsing NAL units and handling aggregation and fragmenting.
 func (s *NALSink) Push(buf []byte, ts uint32) error {
+	s.Units = s.Units[:0]
 	// TODO: Detect Annex B vs AVC payloads.  If starts with Annex B start code then split on start code.
 	for _, nal := range SplitAnnexB(buf) {
 		if err := s.parseNAL(nal, ts); err != nil {
@@ -223,7 +224,6 @@ func (s *NALSink) Push(buf []byte, ts uint32) error {
 }
 
 func (s *NALSink) parseNAL(buf []byte, ts uint32) error {
-	s.Units = s.Units[:0]
 	if len(buf) < 1 {
 		return errPacketTooShort
 	}
-- 
2.43.0


From 604227bf1057b83b89b6b57dc8b4d368682d77d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:55 +0000
Subject: [PATCH 12/36] fix: do not combine fragments of different units

---
 net/h264/packet.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index 5566403..81af26a 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -133,6 +133,8 @@ func NewNALSink() *NALSink {
 func (s *NALSink) AddFragment(indicator byte, header byte, don uint16, ts uint32, data []byte) {
 	if (header & 0x80) != 0 {
 		s.Fragments = s.Fragments[:0]
+	} else if len(s.Fragments) == 0 {
+		return // First fragment in a series has been lost.
 	}
 	s.Fragments = append(s.Fragments, NALFragment{
 		NALUnit: NALUnit{
@@ -150,7 +152,9 @@ func (s *NALSink) AddFragment(indicator byte, header byte, don uint16, ts uint32
 		for _, frag := range s.Fragments {
 			data = append(data, frag.Data...)
 		}
-		s.Units = append(s.Units, NALUnit{Header: indicator, Don: don, TS: ts, Data: data})
+		// Only the first fragment in a series carries decoding order number of the unit.
+		s.Units = append(s.Units, NALUnit{Header: indicator, Don: s.Fragments[0].Don, TS: ts, Data: data})
+		s.Fragments = s.Fragments[:0]
 	}
 }
 
-- 
2.43.0


From b42ee5cda1adb7fda47a673001eb176be1e555ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:55 +0000
Subject: [PATCH 13/36] fix: do not look for start codes in aggregation and
 fragmentation headers

---
 net/h264/packet.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index 81af26a..8ac38cd 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -153,7 +153,7 @@ func (s *NALSink) AddFragment(indicator byte, header byte, don uint16, ts uint32
 			data = append(data, frag.Data...)
 		}
 		// Only the first fragment in a series carries decoding order number of the unit.
-		s.Units = append(s.Units, NALUnit{Header: indicator, Don: s.Fragments[0].Don, TS: ts, Data: data})
+		s.Units = append(s.Units, NALUnit{Header: indicator, Don: s.Fragments[0].Don, TS: ts, Data: EBSPToRaw(data)})
 		s.Fragments = s.Fragments[:0]
 	}
 }
@@ -177,7 +177,7 @@ func (s *NALSink) parseSTAP(typ byte, buf []byte, ts uint32) error {
 		if len(buf) < int(size)+2 {
 			return errPacketTooShort
 		}
-		s.Units = append(s.Units, NALUnit{Header: buf[2], Don: s.Don, TS: ts, Data: buf[3 : int(size)+2]})
+		s.Units = append(s.Units, NALUnit{Header: buf[2], Don: s.Don, TS: ts, Data: EBSPToRaw(buf[3 : int(size)+2])})
 		s.Don++
 		buf = buf[int(size)+2:]
 	}
@@ -210,7 +210,7 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 		if len(buf) < int(size)+off {
 			return errPacketTooShort
 		}
-		s.Units = append(s.Units, NALUnit{Header: buf[off], Don: s.Don + dond, TS: ts + tsoff, Data: buf[off+1 : int(size)+off]})
+		s.Units = append(s.Units, NALUnit{Header: buf[off], Don: s.Don + dond, TS: ts + tsoff, Data: EBSPToRaw(buf[off+1 : int(size)+off])})
 		buf = buf[int(size)+off:]
 	}
 }
@@ -218,6 +218,10 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 // Push RTP payload parsing NAL units and handling aggregation and fragmenting.
 func (s *NALSink) Push(buf []byte, ts uint32) error {
 	s.Units = s.Units[:0]
+	if len(buf) > 0 && buf[0]&0x1F >= typeStapA && buf[0]&0x1F <= typeFuB {
+		// Headers of aggregates and fragments may look like start codes or emulation bytes.
+		return s.parseNAL(append([]byte{}, buf...), ts)
+	}
 	// TODO: Detect Annex B vs AVC payloads.  If starts with Annex B start code then split on start code.
 	for _, nal := range SplitAnnexB(buf) {
 		if err := s.parseNAL(nal, ts); err != nil {
-- 
2.43.0


From 62dd446ea872ff9d1b33db44e765355519e3e1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:29 +0000
Subject: [PATCH 14/36] fix: reject scaling list deltas that are out of range

---
 net/h264/bits.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/net/h264/bits.go b/net/h264/bits.go
index a9d7dcc..9ca7978 100644
--- a/net/h264/bits.go
+++ b/net/h264/bits.go
@@ -7,6 +7,7 @@ import (
 
 var (
 	errMissingTrailingBits = errors.New("RBSP is missing trailing stop and align bits")
+	errInvalidScale        = errors.New("Scaling list delta is out of range")
 	errGolombOverflow      = errors.New("Exp-Golomb code does not fit 32 bits")
 )
 
@@ -119,6 +120,9 @@ func (r *BitReader) ReadScalingList(list []int32) (useDefault bool, err error) {
 			if delta, err = r.ReadSignedGolomb(); err != nil {
 				return
 			}
+			if delta < -128 || delta > 127 {
+				return false, errInvalidScale
+			}
 			nextScale = (lastScale + delta + 256) % 256
 			useDefault = j == 0 && nextScale == 0
 		}
-- 
2.43.0


From d9cf5d2105868f72d481cc233fcae114c9818f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:30 +0000
Subject: [PATCH 15/36] fix: picture order count type 2 has no syntax elements
 of its own

---
 net/h264/spspps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index 5ac7854..b39d348 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -174,7 +174,7 @@ func (s *ParameterSets) ParseSPS(buf []byte) (err error) {
 		if sps.Log2MaxPicOrderCnt, err = br.ReadUnsignedGolomb(); err != nil {
 			return
 		}
-	} else {
+	} else if sps.PicOrderCntType == 1 {
 		if sps.DeltaPicOrderAlways0, err = br.ReadFlag(); err != nil {
 			return
 		}
-- 
2.43.0


From a3808066f42c6c742ba249826e4fd569bfb14849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:31 +0000
Subject: [PATCH 16/36] fix: read frame_mbs_only_flag as a flag and derive the
 frame height from it

---
 net/h264/spspps.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index b39d348..d600c37 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -205,13 +205,10 @@ func (s *ParameterSets) ParseSPS(buf []byte) (err error) {
 	if sps.PicHeightInMapUnitsMinus1, err = br.ReadUnsignedGolomb(); err != nil {
 		return
 	}
-	if sps.FrameMbsOnly, err = br.ReadUnsignedGolomb(); err != nil {
+	if sps.FrameMbsOnly, err = br.ReadBits(1); err != nil {
 		return
 	}
-	if (sps.ConstraintSet&0x2) != 0 && (sps.ProfileIdc == 77 || sps.ProfileIdc == 88 || sps.ProfileIdc == 100) {
-		sps.FrameMbsOnly = 1
-	}
-	if sps.FrameMbsOnly != 0 {
+	if sps.FrameMbsOnly == 0 {
 		if sps.MbAdaptiveFrameField, err = br.ReadFlag(); err != nil {
 			return
 		}
@@ -253,9 +250,9 @@ func (s *ParameterSets) ParseSPS(buf []byte) (err error) {
 	}
 
 	// Macroblock width is 16 for luma.
-	sps.Width = (sps.PicWidthInMbsMinus1 + 1) * 16 // / subWidthC
+	sps.Width = (sps.PicWidthInMbsMinus1 + 1) * 16
 	// FrameMbsOnly designates either full frame or field (half frame).  Hence multiplier.
-	sps.Height = (2 - sps.FrameMbsOnly) * (sps.PicHeightInMapUnitsMinus1 + 1) * 16 / subHeightC
+	sps.Height = (2 - sps.FrameMbsOnly) * (sps.PicHeightInMapUnitsMinus1 + 1) * 16
 	// Adjust for crop if present.  This accounts for monochrome vs. various color chroma formats.
 	cropUnitX := subWidthC
 	cropUnitY := (2 - sps.FrameMbsOnly) * subHeightC
-- 
2.43.0


From f0f1a25392d6589bf4e9451ca4964310824cde5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:33 +0000
Subject: [PATCH 17/36] fix: read chroma format of profiles 134, 135 and 139

---
 net/h264/spspps.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index d600c37..fbc185e 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -120,7 +120,8 @@ func (s *ParameterSets) ParseSPS(buf []byte) (err error) {
 	}
 	if sps.ProfileIdc == 100 || sps.ProfileIdc == 110 || sps.ProfileIdc == 122 || sps.ProfileIdc == 244 ||
 		sps.ProfileIdc == 44 || sps.ProfileIdc == 83 || sps.ProfileIdc == 86 || sps.ProfileIdc == 118 ||
-		sps.ProfileIdc == 128 || sps.ProfileIdc == 138 {
+		sps.ProfileIdc == 128 || sps.ProfileIdc == 138 || sps.ProfileIdc == 139 || sps.ProfileIdc == 134 ||
+		sps.ProfileIdc == 135 {
 		if sps.ChromaFormatIdc, err = br.ReadUnsignedGolomb(); err != nil {
 			return
 		}
-- 
2.43.0


From e45567411711cd94717ba42be0c5a6ef3428a086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:34 +0000
Subject: [PATCH 18/36] fix: read slice group parameters within the bounds of
 the standard and of the data

---
 net/h264/spspps.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index fbc185e..93568ab 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -1,7 +1,8 @@
 package h264
 
 import (
-	"math"
+	"errors"
+	"io"
 )
 
 type (
@@ -85,6 +86,10 @@ type (
 	}
 )
 
+var (
+	errInvalidSliceGroups = errors.New("Too many slice groups")
+)
+
 // NewParameterSets create an representation of indexed storage for sequence
 // and picture parameter sets.
 func NewParameterSets() *ParameterSets {
@@ -289,6 +294,9 @@ func (s *ParameterSets) ParsePPS(buf []byte) (err error) {
 	if pps.NumSliceGroupsMinus1, err = br.ReadUnsignedGolomb(); err != nil {
 		return
 	}
+	if pps.NumSliceGroupsMinus1 > 7 {
+		return errInvalidSliceGroups
+	}
 	if pps.NumSliceGroupsMinus1 > 0 {
 		if pps.SliceGroupMapType, err = br.ReadUnsignedGolomb(); err != nil {
 			return
@@ -311,9 +319,7 @@ func (s *ParameterSets) ParsePPS(buf []byte) (err error) {
 				}
 			}
 			break
-		case 3:
-		case 4:
-		case 5:
+		case 3, 4, 5:
 			if pps.SliceGroupChangeDirection, err = br.ReadFlag(); err != nil {
 				return
 			}
@@ -325,8 +331,17 @@ func (s *ParameterSets) ParsePPS(buf []byte) (err error) {
 			if pps.PicSizeInMapUnitsMinus1, err = br.ReadUnsignedGolomb(); err != nil {
 				return
 			}
+			bits := uint(1) // Ceil(Log2(NumSliceGroupsMinus1 + 1))
+			if pps.NumSliceGroupsMinus1 > 3 {
+				bits = 3
+			} else if pps.NumSliceGroupsMinus1 > 1 {
+				bits = 2
+			}
+			// Do not allocate more than the data can fill.
+			if uint64(pps.PicSizeInMapUnitsMinus1)+1 > uint64(br.Available()/bits) {
+				return io.ErrUnexpectedEOF
+			}
 			pps.SliceGroupID = make([]byte, pps.PicSizeInMapUnitsMinus1+1)
-			bits := uint(math.Ceil(math.Log2(float64(pps.NumSliceGroupsMinus1 + 1))))
 			for i := uint32(0); i <= pps.PicSizeInMapUnitsMinus1; i++ {
 				if pps.SliceGroupID[i], err = br.ReadByteBits(bits); err != nil {
 					return
-- 
2.43.0


From a7ee63b47034dc9357dddcadada91e90af644a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:35 +0000
Subject: [PATCH 19/36] fix: do not take the trailing bits of a PPS for more
 parameters

---
 net/h264/bits.go   | 17 +++++++++++++++++
 net/h264/spspps.go |  2 +-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/net/h264/bits.go b/net/h264/bits.go
index 9ca7978..5df24cc 100644
--- a/net/h264/bits.go
+++ b/net/h264/bits.go
@@ -187,6 +187,23 @@ func (r *BitReader) SkipTrailingBits() (err error) {
 	return nil
 }
 
+// MoreData tells whether there is more data before the trailing bits, i.e. before
+// the last bit set in the buffer.
+func (r *BitReader) MoreData() bool {
+	n := r.count
+	for n > r.byten && r.buffer[n-1] == 0 {
+		n--
+	}
+	if n <= r.byten {
+		return false
+	}
+	stop := n*8 - 1
+	for v := r.buffer[n-1]; v&1 == 0; v >>= 1 {
+		stop--
+	}
+	return r.byten*8+r.bitn < stop
+}
+
 // ReadPayloadParam parses payload type and size of SEI message from bit reader.
 func (r *BitReader) ReadPayloadParam() (val uint32, err error) {
 	var v uint32
diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index 93568ab..b8b0830 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -379,7 +379,7 @@ func (s *ParameterSets) ParsePPS(buf []byte) (err error) {
 	if pps.RedundantPicCntPresent, err = br.ReadFlag(); err != nil {
 		return
 	}
-	if br.Available() > 0 {
+	if br.MoreData() {
 		if pps.Transform8x8Mode, err = br.ReadFlag(); err != nil {
 			return
 		}
-- 
2.43.0


From a78ba779199ff905d1c03ac7323cfccf7f7f6660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:37 +0000
Subject: [PATCH 20/36] fix: remove emulation prevention bytes from sprop
 parameter sets

---
 net/h264/spspps.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index b8b0830..7506cf0 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -428,9 +428,9 @@ func (s *ParameterSets) ParseSprop(buf []byte) (err error) {
 	}
 	typ := buf[0] & 0x1F
 	if typ == typeSPS {
-		return s.ParseSPS(buf[1:])
+		return s.ParseSPS(EBSPToRaw(buf[1:]))
 	} else if typ == typePPS {
-		return s.ParsePPS(buf[1:])
+		return s.ParsePPS(EBSPToRaw(buf[1:]))
 	}
 	return
 }
-- 
2.43.0


From e1f36117cf89575ecf4d0598f024faa29a8965c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:25 +0000
Subject: [PATCH 21/36] fix: infer second_chroma_qp_index_offset when a PPS
 does not carry it

---
 net/h264/spspps.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index 7506cf0..e2505db 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -370,6 +370,8 @@ func (s *ParameterSets) ParsePPS(buf []byte) (err error) {
 	if pps.ChromaQpIndexOffset, err = br.ReadSignedGolomb(); err != nil {
 		return
 	}
+	// Same for both chroma components unless specified otherwise below.
+	pps.SecondChromaQpIndexOffset = pps.ChromaQpIndexOffset
 	if pps.DeblockingFilterControlPresent, err = br.ReadFlag(); err != nil {
 		return
 	}
-- 
2.43.0


From 5ef1e392abb2f619addfe63c836ba62adc33233f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:14 +0000
Subject: [PATCH 22/36] fix: wrap the first segment of a playlist around the
 ring

---
 net/hls/playlist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/hls/playlist.go b/net/hls/playlist.go
index 3704f21..94e4b6c 100644
--- a/net/hls/playlist.go
+++ b/net/hls/playlist.go
@@ -100,7 +100,7 @@ func (pl *Playlist) AddSegment(duration float64, length int64) {
 	pl.Segments[pl.Last].Position = pos
 	pl.Segments[pl.Last].Length = length
 	if pl.First == pl.Last {
-		pl.First++
+		pl.First = (pl.First + 1) % len(pl.Segments)
 	} else if pl.First < 0 {
 		pl.First = pl.Last
 	}
-- 
2.43.0


From 56c1f1f7523f2ded4007ad04d91500243b433a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 23/36] fix: refuse playlists without room for a segment

---
 net/hls/playlist.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/net/hls/playlist.go b/net/hls/playlist.go
index 94e4b6c..1ef9e1a 100644
--- a/net/hls/playlist.go
+++ b/net/hls/playlist.go
@@ -2,6 +2,7 @@ package hls
 
 import (
 	"bytes"
+	"errors"
 	"net/url"
 	"path"
 	"path/filepath"
@@ -40,6 +41,9 @@ type (
 
 // NewPlaylist verifies that file exists and accessible for reading then instantiates Playlist.
 func NewPlaylist(uri string, name string, nseg int, size float64) (*Playlist, error) {
+	if nseg < 1 {
+		return nil, errors.New("hls: playlist needs at least one segment")
+	}
 	base := filepath.Base(name)
 	u, err := url.Parse(uri)
 	if err != nil {
-- 
2.43.0


From ddc8db241cadf11e8d90c6166f040b1be6b4d5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:12 +0000
Subject: [PATCH 24/36] fix: do not split quoted challenge directives at commas

---
 net/rtsp/digest.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/net/rtsp/digest.go b/net/rtsp/digest.go
index 619f4bb..aa663e6 100644
--- a/net/rtsp/digest.go
+++ b/net/rtsp/digest.go
@@ -53,7 +53,7 @@ func NewDigest(uri, challenge string) (*Digest, error) {
 	} else {
 		return nil, ErrAuthMalformedChallenge
 	}
-	parts := strings.Split(challenge, ",")
+	parts := splitDirectives(challenge)
 	for i := 0; i < len(parts); i++ {
 		parts[i] = strings.TrimSpace(parts[i])
 		if len(parts[i]) == 0 {
@@ -95,6 +95,23 @@ func NewDigest(uri, challenge string) (*Digest, error) {
 	return d, nil
 }
 
+// splitDirectives splits a challenge at the commas outside of quoted strings.
+func splitDirectives(challenge string) (parts []string) {
+	quoted, from := false, 0
+	for i := 0; i < len(challenge); i++ {
+		switch challenge[i] {
+		case '"':
+			quoted = !quoted
+		case ',':
+			if !quoted {
+				parts = append(parts, challenge[from:i])
+				from = i + 1
+			}
+		}
+	}
+	return append(parts, challenge[from:])
+}
+
 // Authenticate creates value for Authorization header.
 func (d *Digest) Authenticate(username, password string) DigestAuth {
 	out := strings.Builder{}
-- 
2.43.0


From 680cc98346cbffb89a1d08678e06063927afe309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:13 +0000
Subject: [PATCH 25/36] fix: ignore challenge directives that are not known

---
 net/rtsp/digest.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/net/rtsp/digest.go b/net/rtsp/digest.go
index aa663e6..2042fcb 100644
--- a/net/rtsp/digest.go
+++ b/net/rtsp/digest.go
@@ -82,8 +82,6 @@ func NewDigest(uri, challenge string) (*Digest, error) {
 				if len(vals) > 0 {
 					d.qop = strings.ToLower(vals[0])
 				}
-			default:
-				return nil, ErrAuthMalformedChallenge
 			}
 		}
 	}
-- 
2.43.0


From aefee0538b23ad461e210f903fc5ec5f351a21cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:13 +0000
Subject: [PATCH 26/36] fix: derive the md5-sess session key once

---
 net/rtsp/digest.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/net/rtsp/digest.go b/net/rtsp/digest.go
index 2042fcb..3c379dc 100644
--- a/net/rtsp/digest.go
+++ b/net/rtsp/digest.go
@@ -37,6 +37,7 @@ type Digest struct {
 	ha2       string
 	nc        string
 	count     int
+	sess      bool
 }
 
 // NewDigest parses challenge and creates a new basic/digest authentication processor.
@@ -123,6 +124,7 @@ func (d *Digest) Authenticate(username, password string) DigestAuth {
 	}
 	d.username = username
 	d.ha1 = md5hex(colonnade(username, d.realm, password))
+	d.sess = false
 	out.WriteString("Digest username=\"")
 	out.WriteString(d.username)
 	out.WriteString("\", realm=\"")
@@ -168,7 +170,9 @@ func (d *Digest) response(verb string, body []byte) string {
 		out.WriteString(", response=\"")
 		out.WriteString(md5hex(colonnade(d.ha1, d.nonce, d.ha2)))
 	} else {
-		if d.algorithm == "md5-sess" {
+		if d.algorithm == "md5-sess" && !d.sess {
+			// Session key is derived once, from the first client nonce.
+			d.sess = true
 			d.ha1 = md5hex(colonnade(d.ha1, d.nonce, d.cnonce))
 		}
 		out.WriteString(", qop=\"")
-- 
2.43.0


From 3a52a06fd0f3a6f69aba09e5b1a221b4518ff6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:14 +0000
Subject: [PATCH 27/36] fix: advance the nonce count with every digest request

---
 net/rtsp/digest.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/net/rtsp/digest.go b/net/rtsp/digest.go
index 3c379dc..31c5b31 100644
--- a/net/rtsp/digest.go
+++ b/net/rtsp/digest.go
@@ -183,6 +183,8 @@ func (d *Digest) response(verb string, body []byte) string {
 		out.WriteString(d.cnonce)
 		out.WriteString("\", response=\"")
 		out.WriteString(md5hex(colonnade(d.ha1, d.nonce, d.nc, d.cnonce, d.qop, d.ha2)))
+		// Every request with the same nonce has a count of its own.
+		d.Next()
 	}
 	out.WriteByte('"')
 	return out.String()
-- 
2.43.0


From b621807e8aaa7ec8fe64e28a03247f03cc7a73a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:57 +0000
Subject: [PATCH 28/36] fix: take the lower protocol from the transport
 specification only

Slashes in the value of any parameter, a destination for instance, were
taken for a transport specification and reset the lower protocol.
---
 net/rtsp/transport.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/net/rtsp/transport.go b/net/rtsp/transport.go
index 64a736e..5ba3356 100644
--- a/net/rtsp/transport.go
+++ b/net/rtsp/transport.go
@@ -158,9 +158,9 @@ func (t Transport) String() string {
 // Parse transport header into constituent parts.
 func (t *Transport) Parse(value string) (err error) {
 	fields := strings.Split(value, ";")
-	for _, field := range fields {
+	for i, field := range fields {
 		keyval := strings.Split(field, "/")
-		if len(keyval) == 3 {
+		if i == 0 && len(keyval) == 3 {
 			// Third part is lower protocol TCP/UDP
 			t.IsTCP = strings.ToUpper(keyval[2]) == "TCP"
 		}
-- 
2.43.0


From c3d01eaaf9c1f3822be9ade1ab27dd519ce4f4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:57 +0000
Subject: [PATCH 29/36] fix: note that a transport is interleaved

The channels of the interleaved parameter were stored without the flag that
says they are in use.
---
 net/rtsp/transport.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/net/rtsp/transport.go b/net/rtsp/transport.go
index 5ba3356..72d0c9f 100644
--- a/net/rtsp/transport.go
+++ b/net/rtsp/transport.go
@@ -184,6 +184,7 @@ func (t *Transport) Parse(value string) (err error) {
 			}
 		case "interleaved":
 			t.IsMulticast = false
+			t.IsInterleaved = true
 			if len(keyval) > 1 {
 				t.Interleave, err = ParsePair(keyval[1])
 			} else {
-- 
2.43.0


From ea0340c7449c89933a52f1df31c34ed30bac5ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:05 +0000
Subject: [PATCH 30/36] fix: do not panic on a media line without a port

---
 net/sdp/packet.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/net/sdp/packet.go b/net/sdp/packet.go
index 79d3df5..14fcd26 100644
--- a/net/sdp/packet.go
+++ b/net/sdp/packet.go
@@ -49,9 +49,11 @@ func Parse(buf []byte) (feeds []Media) {
 					case "video": // case "audio", "video":
 						feeds = append(feeds, Media{audio: fields[0] == "audio"})
 						m = &feeds[len(feeds)-1]
-						mfields := strings.Split(fields[1], " ")
-						if len(mfields) >= 3 {
-							m.PayloadType, _ = strconv.Atoi(mfields[2])
+						if len(fields) > 1 {
+							mfields := strings.Split(fields[1], " ")
+							if len(mfields) >= 3 {
+								m.PayloadType, _ = strconv.Atoi(mfields[2])
+							}
 						}
 					default:
 						m = nil
-- 
2.43.0


From 14dabb29903d71422ce825ee42bc1c55200cf3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:05 +0000
Subject: [PATCH 31/36] fix: read media attributes by their names

Slashes in any attribute, a control address for instance, set the time scale,
the second word of any attribute could replace the control address, and a
single format parameter was not read at all for want of a semicolon.
---
 net/sdp/packet.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/net/sdp/packet.go b/net/sdp/packet.go
index 14fcd26..343af14 100644
--- a/net/sdp/packet.go
+++ b/net/sdp/packet.go
@@ -61,9 +61,10 @@ func Parse(buf []byte) (feeds []Media) {
 				}
 			case "a":
 				if m != nil {
-					for _, field := range fields {
+					attr := strings.SplitN(fields[0], ":", 2)[0]
+					for i, field := range fields {
 						keyval = strings.SplitN(field, ":", 2)
-						if len(keyval) >= 2 {
+						if i == 0 && len(keyval) >= 2 {
 							key := keyval[0]
 							val := keyval[1]
 							switch key {
@@ -74,7 +75,7 @@ func Parse(buf []byte) (feeds []Media) {
 							}
 						}
 						keyval = strings.Split(field, "/")
-						if len(keyval) >= 2 {
+						if attr == "rtpmap" && len(keyval) >= 2 {
 							key := keyval[0]
 							switch strings.ToUpper(key) {
 							case "MPEG4-GENERIC":
@@ -87,7 +88,7 @@ func Parse(buf []byte) (feeds []Media) {
 							}
 						}
 						keyval = strings.Split(field, ";")
-						if len(keyval) > 1 {
+						if attr == "fmtp" {
 							for _, field := range keyval {
 								keyval := strings.SplitN(field, "=", 2)
 								if len(keyval) == 2 {
-- 
2.43.0


From 412468964740c962b3d6bc9eb067d43f6f16785f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:06 +0000
Subject: [PATCH 32/36] fix: read bodies and packets larger than the buffer
 into memory of their own

---
 net/rtsp/connection.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index 2b296d7..8c131db 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -2,9 +2,11 @@ package rtsp
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/base64"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"math/rand"
 	"net"
 	"net/url"
@@ -166,12 +168,16 @@ func (c *Conn) ReadByte() (byte, error) {
 }
 
 // ReadBytes reads requested number of bytes, returning a slice containing the data.
+// The number of bytes is not limited by the size of the buffer, and memory grows only with the data received.
 func (c *Conn) ReadBytes(n int) ([]byte, error) {
-	b, err := c.Peek(n)
-	if err == nil {
-		c.rdr.Discard(n)
+	if c.Timeout > 0 {
+		c.conn.SetReadDeadline(time.Now().Add(c.Timeout))
+	}
+	buf := &bytes.Buffer{}
+	if _, err := io.CopyN(buf, c.rdr, int64(n)); err != nil {
+		return nil, err
 	}
-	return b, err
+	return buf.Bytes(), nil
 }
 
 // AddSink creates a listener on UDP port for RTP data or control channel.
-- 
2.43.0


From d3a9fcfabdad70284a811d214b9a22683584f3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:06 +0000
Subject: [PATCH 33/36] fix: number requests under the lock and keep the number
 of repeated ones

---
 net/rtsp/session.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 5384c06..b4bd895 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -67,10 +67,14 @@ func (s *Session) authorize(challenge string) error {
 	return nil
 }
 
+// enqueue registers a request under its sequence number.  New requests get the next one, retransmitted ones keep theirs.
 func (s *Session) enqueue(req *Request) {
 	s.Lock()
 	defer s.Unlock()
-	req.Cseq = s.cseq
+	if req.Cseq == 0 {
+		s.cseq++
+		req.Cseq = s.cseq
+	}
 	req.Session = s.session
 	s.queue[req.Cseq] = req
 }
@@ -96,7 +100,6 @@ func (s *Session) command(verb, uri string, headers Headers) error {
 	if s.auth != nil {
 		req.Auth = s.auth(req.Verb, nil)
 	}
-	s.cseq++
 	s.enqueue(req)
 	buf := req.Pack()
 
@@ -236,9 +239,8 @@ func (s *Session) handleRtsp() (err error) {
 			return err
 		}
 		req.Auth = s.auth(req.Verb, nil)
-		// Treat this as retransmit of the same message.
-		// If the following line is uncommented, it will break matching responses to transport setup commands based on checking CSeq.
-		// s.cseq++
+		// Treat this as retransmit of the same message, under the same CSeq.
+		// Matching responses to transport setup commands is based on checking CSeq.
 		s.enqueue(req)
 		buf := req.Pack()
 
-- 
2.43.0


From a2f8e9ba0a69c0a89e163d8719ea464e79189778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:07 +0000
Subject: [PATCH 34/36] fix: open the connection that RTSP over HTTP sends its
 commands on

---
 net/rtsp/connection.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index 8c131db..4bf2ca7 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -100,6 +100,10 @@ func Dial(uri string, proto int) (*Conn, error) {
 		if err := ReceiveHTTP(c); err != nil {
 			return nil, err
 		}
+		// Commands go out over a connection of their own.
+		if c.post, err = net.DialTCP("tcp", nil, addr); err != nil {
+			return nil, err
+		}
 	}
 
 	return c, nil
@@ -119,8 +123,10 @@ func (c *Conn) Write(p []byte) (n int, err error) {
 			c.connected = true
 		}
 		w := base64.NewEncoder(base64.StdEncoding, c.post)
-		defer w.Close()
-		return w.Write(p)
+		if n, err = w.Write(p); err != nil {
+			return n, err
+		}
+		return n, w.Close()
 	}
 	if c.Timeout > 0 {
 		c.conn.SetWriteDeadline(time.Now().Add(c.Timeout))
-- 
2.43.0


From 1e9b01cb07b4937159a403f4019de8350673debf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:07 +0000
Subject: [PATCH 35/36] fix: listen on the ports of the transport under the
 channels of the stream

---
 net/rtsp/session.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index b4bd895..fb75599 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -292,18 +292,23 @@ func (s *Session) handleRtsp() (err error) {
 
 func (s *Session) handleSetup(rsp *Response) (err error) {
 	if rsp.StatusCode == RtspOK {
-		for _, f := range s.feeds {
+		for i, f := range s.feeds {
 			if f.cseq == rsp.Cseq {
 				s.feedidx++
 				if err = f.TransportSetup(rsp.Header.Get(HeaderTransport)); err != nil {
 					return err
 				}
 				if !f.transp.IsTCP {
-					ch := byte(s.feedidx) * 2
-					if err := s.AddSink(ch, f.transp.Port.One); err != nil {
+					// Listen where the server sends to: the group's ports or our own.
+					ports := f.transp.ClientPort
+					if f.transp.IsMulticast {
+						ports = f.transp.Port
+					}
+					ch := byte(i) * 2
+					if err := s.AddSink(ch, ports.One); err != nil {
 						return err
 					}
-					if err := s.AddSink(ch+1, f.transp.Port.Two); err != nil {
+					if err := s.AddSink(ch+1, ports.Two); err != nil {
 						return err
 					}
 				}
-- 
2.43.0


From a9664eb3d079e74f39bbc74d1b54594cd8719cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:56 +0000
Subject: [PATCH 36/36] fix: repeat a request with credentials only once

---
 net/rtsp/definitions.go | 1 +
 net/rtsp/message.go     | 1 +
 net/rtsp/session.go     | 5 +++++
 3 files changed, 7 insertions(+)

diff --git a/net/rtsp/definitions.go b/net/rtsp/definitions.go
index eb5322c..8548655 100644
--- a/net/rtsp/definitions.go
+++ b/net/rtsp/definitions.go
@@ -130,6 +130,7 @@ var (
 	errNotSupported      = errors.New("Unsupported protocol version")
 	errNoCredentials     = errors.New("Resource URI has no credentials to perform authorization")
 	errOutOfMemory       = errors.New("Out of memory")
+	errNotAuthorized     = errors.New("Credentials are refused")
 	errBadResponse       = errors.New("Bad or unexpected response")
 	errNoConnection      = errors.New("Connection to RTSP source is required")
 	errPacketTooShort    = errors.New("Packet is too short")
diff --git a/net/rtsp/message.go b/net/rtsp/message.go
index 168021b..0913966 100644
--- a/net/rtsp/message.go
+++ b/net/rtsp/message.go
@@ -22,6 +22,7 @@ type (
 		Auth    string
 		Session string
 		Header  MessageHeader
+		retried bool // Repeated with credentials.
 	}
 
 	// Response encapsulates RTSP response.  It is modeled by http.Response but includes only what is needed to handle RTSP.
diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index fb75599..d4006e9 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -235,6 +235,11 @@ func (s *Session) handleRtsp() (err error) {
 	}
 
 	if rsp.StatusCode == RtspUnauthorized {
+		// Credentials that have been refused once are not going to be accepted later.
+		if req.retried {
+			return errNotAuthorized
+		}
+		req.retried = true
 		if err = s.authorize(rsp.Header.Get(HeaderAuthenticate)); err != nil {
 			return err
 		}
-- 
2.43.0

