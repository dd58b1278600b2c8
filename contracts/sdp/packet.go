package sdp

import (
	"encoding/base64"
	"encoding/hex"
	"reflect"
	"strconv"
	"strings"

	"github.com/aboukirev/ouro/internal/vf"
)

// ---- vocabulary: lines of a session description, RFC 2327 section 6

// lKey and lVal are the type and the value of a line; lines without are ignored.
func lKey(line string) string {
	kv := strings.SplitN(strings.TrimSpace(line), "=", 2)
	if len(kv) == 2 {
		return kv[0]
	}
	return ""
}

func lWords(line string) []string {
	kv := strings.SplitN(strings.TrimSpace(line), "=", 2)
	if len(kv) == 2 {
		return strings.SplitN(kv[1], " ", 2)
	}
	return nil
}

func isMedia(line string) bool { return lKey(line) == "m" }
func isAttr(line string) bool  { return lKey(line) == "a" }

// isVideo: the line starts the description of a video stream.
func isVideo(line string) bool { return isMedia(line) && lWords(line)[0] == "video" }

// videos is the number of video streams started in the first n lines.
func videos(ls []string, n int) int {
	if n <= 0 {
		return 0
	}
	if isVideo(ls[n-1]) {
		return videos(ls, n-1) + 1
	}
	return videos(ls, n-1)
}

// inVideo: lines after the first n describe a video stream.
func inVideo(ls []string, n int) bool {
	if n <= 0 {
		return false
	}
	if isMedia(ls[n-1]) {
		return isVideo(ls[n-1])
	}
	return inVideo(ls, n-1)
}

func num(s string) int { n, _ := strconv.Atoi(s); return n }

// payloadType is what a media line says.
func payloadType(line string) int {
	w := lWords(line)
	if len(w) < 2 {
		return 0
	}
	f := strings.Split(w[1], " ")
	if len(f) < 3 {
		return 0
	}
	return num(f[2])
}

const (
	nPayload = iota
	nRtpmap
	nType
	nScale
	nSizeLen
	nIndexLen
	sControl
	sConfig
)

func attrName(ws []string) string { return strings.SplitN(ws[0], ":", 2)[0] }

func attrVal(w string) string {
	kv := strings.SplitN(w, ":", 2)
	if len(kv) == 2 {
		return kv[1]
	}
	return ""
}

func attrHas(w string) bool { return len(strings.SplitN(w, ":", 2)) == 2 }

// ---- format parameters

func pKey(p string) string {
	kv := strings.SplitN(p, "=", 2)
	if len(kv) == 2 {
		return strings.TrimSpace(kv[0])
	}
	return ""
}

func pVal(p string) string {
	kv := strings.SplitN(p, "=", 2)
	if len(kv) == 2 {
		return kv[1]
	}
	return ""
}

func unhex(s string) string    { b, _ := hex.DecodeString(s); return string(b) }
func unbase(s string) string   { b, _ := base64.StdEncoding.DecodeString(s); return string(b) }
func sets(val string) []string { return strings.Split(val, ",") }

// numP, strP: what the first n parameters make of an attribute.
func numP(ps []string, n, what, was int) int {
	if n <= 0 {
		return was
	}
	if what == nSizeLen && pKey(ps[n-1]) == "sizelength" || what == nIndexLen && pKey(ps[n-1]) == "indexlength" {
		return num(pVal(ps[n-1]))
	}
	return numP(ps, n-1, what, was)
}

func strP(ps []string, n int, was string) string {
	if n <= 0 {
		return was
	}
	if pKey(ps[n-1]) == "config" {
		return unhex(pVal(ps[n-1]))
	}
	return strP(ps, n-1, was)
}

// setsP counts the parameter sets in the first n parameters, setP is the j-th.
func setsP(ps []string, n int) int {
	if n <= 0 {
		return 0
	}
	if pKey(ps[n-1]) == "sprop-parameter-sets" {
		return setsP(ps, n-1) + len(sets(pVal(ps[n-1])))
	}
	return setsP(ps, n-1)
}

func setP(ps []string, n, j int) string {
	if n <= 0 {
		return ""
	}
	if j < setsP(ps, n-1) {
		return setP(ps, n-1, j)
	}
	return unbase(sets(pVal(ps[n-1]))[j-setsP(ps, n-1)])
}

func params(w string) []string { return strings.Split(w, ";") }

// ---- attributes

func codec(s string, was int) int {
	switch strings.ToUpper(s) {
	case "MPEG4-GENERIC":
		return AAC
	case "H264":
		return H264
	}
	return was
}

// numW, strW: what the first n words of an attribute line make of an attribute.
func numW(ws []string, n, what, was int) int {
	if n <= 0 {
		return was
	}
	x := numW(ws, n-1, what, was)
	w := ws[n-1]
	enc := strings.Split(w, "/")
	if what == nRtpmap && attrName(ws) == "rtpmap" && n == 1 && attrHas(w) {
		return num(attrVal(w))
	}
	if what == nType && attrName(ws) == "rtpmap" && len(enc) >= 2 {
		return codec(enc[0], x)
	}
	if what == nScale && attrName(ws) == "rtpmap" && len(enc) >= 2 {
		if r, err := strconv.Atoi(enc[1]); err == nil {
			return r
		}
	}
	if attrName(ws) == "fmtp" && (what == nSizeLen || what == nIndexLen) {
		return numP(params(w), len(params(w)), what, x)
	}
	return x
}

func strW(ws []string, n, what int, was string) string {
	if n <= 0 {
		return was
	}
	x := strW(ws, n-1, what, was)
	w := ws[n-1]
	if what == sControl && attrName(ws) == "control" && n == 1 && attrHas(w) {
		return attrVal(w)
	}
	if what == sConfig && attrName(ws) == "fmtp" {
		return strP(params(w), len(params(w)), x)
	}
	return x
}

func setsW(ws []string, n int) int {
	if n <= 0 {
		return 0
	}
	if attrName(ws) == "fmtp" {
		return setsW(ws, n-1) + setsP(params(ws[n-1]), len(params(ws[n-1])))
	}
	return setsW(ws, n-1)
}

func setW(ws []string, n, j int) string {
	if n <= 0 {
		return ""
	}
	if j < setsW(ws, n-1) {
		return setW(ws, n-1, j)
	}
	return setP(params(ws[n-1]), len(params(ws[n-1])), j-setsW(ws, n-1))
}

// ---- streams

// about: line n-1 is an attribute of the k-th stream.
func about(ls []string, n, k int) bool {
	return isAttr(ls[n-1]) && inVideo(ls, n-1) && videos(ls, n-1) == k+1
}

func starts(ls []string, n, k int) bool { return isVideo(ls[n-1]) && videos(ls, n-1) == k }

// numL, strL: an attribute of the k-th stream after the first n lines.
func numL(ls []string, n, k, what int) int {
	if n <= 0 {
		return 0
	}
	if starts(ls, n, k) {
		if what == nPayload {
			return payloadType(ls[n-1])
		}
		return 0
	}
	if about(ls, n, k) && what != nPayload {
		return numW(lWords(ls[n-1]), len(lWords(ls[n-1])), what, numL(ls, n-1, k, what))
	}
	return numL(ls, n-1, k, what)
}

func strL(ls []string, n, k, what int) string {
	if n <= 0 || starts(ls, n, k) {
		return ""
	}
	if about(ls, n, k) {
		return strW(lWords(ls[n-1]), len(lWords(ls[n-1])), what, strL(ls, n-1, k, what))
	}
	return strL(ls, n-1, k, what)
}

func setsL(ls []string, n, k int) int {
	if n <= 0 || starts(ls, n, k) {
		return 0
	}
	if about(ls, n, k) {
		return setsL(ls, n-1, k) + setsW(lWords(ls[n-1]), len(lWords(ls[n-1])))
	}
	return setsL(ls, n-1, k)
}

func setL(ls []string, n, k, j int) string {
	if n <= 0 {
		return ""
	}
	if about(ls, n, k) && j >= setsL(ls, n-1, k) {
		return setW(lWords(ls[n-1]), len(lWords(ls[n-1])), j-setsL(ls, n-1, k))
	}
	return setL(ls, n-1, k, j)
}

// isStream: f is what the first n lines say of the k-th stream.
func isStream(f Media, ls []string, n, k int) bool {
	return isNums(f, numL(ls, n, k, nPayload), numL(ls, n, k, nRtpmap), numL(ls, n, k, nType), numL(ls, n, k, nScale), numL(ls, n, k, nSizeLen), numL(ls, n, k, nIndexLen)) &&
		f.Control == strL(ls, n, k, sControl) && string(f.Config) == strL(ls, n, k, sConfig) && len(f.SpropParameterSets) == setsL(ls, n, k)
}

func isNums(f Media, payload, rtpmap, typ, scale, size, index int) bool {
	return !f.audio && f.PayloadType == payload && f.Rtpmap == rtpmap && int(f.Type) == typ && f.TimeScale == scale && f.SizeLength == size && f.IndexLength == index
}

// hasSets: the parameter sets of the k-th stream.
func hasSets(f Media, ls []string, n, k int) bool {
	return vf.All(0, len(f.SpropParameterSets), func(j int) bool { return string(f.SpropParameterSets[j]) == setL(ls, n, k, j) })
}

//vf:depth 1
//vf:wfrefs
func Pre_Parse(buf []byte) bool { return true }

func Inv_Parse_1(buf []byte, feeds []Media, m *Media, it int) {
	ls := strings.Split(string(buf), "\n")
	n := it
	vf.Inv("range", 0 <= n && n <= len(ls))
	vf.Inv("streams so far", len(feeds) == videos(ls, n) && (feeds == nil || vf.Fresh(feeds)))
	vf.Inv("current", (m != nil) == inVideo(ls, n))
	vf.Inv("the last", vf.Imp(inVideo(ls, n), len(feeds) >= 1 && m == &feeds[len(feeds)-1]))
	vf.Inv("new sets", vf.All(0, len(feeds), func(k int) bool {
		return feeds[k].SpropParameterSets == nil || vf.New(feeds[k].SpropParameterSets)
	}))
	vf.Inv("nil is empty", vf.All(0, len(feeds), func(k int) bool {
		return feeds[k].SpropParameterSets != nil || len(feeds[k].SpropParameterSets) == 0
	}))
	vf.Inv("own sets", vf.All(0, len(feeds)-1, func(k int) bool {
		return feeds[k].SpropParameterSets == nil || vf.Separate(feeds[k].SpropParameterSets, feeds[len(feeds)-1].SpropParameterSets)
	}))
	vf.Inv("video", vf.All(0, len(feeds), func(k int) bool { return !feeds[k].audio }))
	vf.Inv("payload type", vf.All(0, len(feeds), func(k int) bool { return feeds[k].PayloadType == numL(ls, n, k, nPayload) }))
	vf.Inv("rtpmap", vf.All(0, len(feeds), func(k int) bool { return feeds[k].Rtpmap == numL(ls, n, k, nRtpmap) }))
	vf.Inv("codec", vf.All(0, len(feeds), func(k int) bool { return int(feeds[k].Type) == numL(ls, n, k, nType) }))
	vf.Inv("time scale", vf.All(0, len(feeds), func(k int) bool { return feeds[k].TimeScale == numL(ls, n, k, nScale) }))
	vf.Inv("size length", vf.All(0, len(feeds), func(k int) bool { return feeds[k].SizeLength == numL(ls, n, k, nSizeLen) }))
	vf.Inv("index length", vf.All(0, len(feeds), func(k int) bool { return feeds[k].IndexLength == numL(ls, n, k, nIndexLen) }))
	vf.Inv("control", vf.All(0, len(feeds), func(k int) bool { return feeds[k].Control == strL(ls, n, k, sControl) }))
	vf.Inv("config", vf.All(0, len(feeds), func(k int) bool { return string(feeds[k].Config) == strL(ls, n, k, sConfig) }))
	vf.Inv("number of sets", vf.All(0, len(feeds), func(k int) bool { return len(feeds[k].SpropParameterSets) == setsL(ls, n, k) }))
	vf.Inv("sets", vf.All(0, len(feeds), func(k int) bool { return hasSets(feeds[k], ls, n, k) }))
	vf.Dec(len(ls) - n)
}

// setTo: the j-th set when n lines and i words of the next line were read.
func setTo(ls []string, n, k int, ws []string, i, j int) string {
	if j < setsL(ls, n, k) {
		return setL(ls, n, k, j)
	}
	return setW(ws, i, j-setsL(ls, n, k))
}

func Inv_Parse_2(buf []byte, feeds []Media, m *Media, fields []string, attr string, it, it1 int) {
	ls := strings.Split(string(buf), "\n")
	n, k := it1, len(feeds)-1
	ws := lWords(ls[n])
	vf.Inv("range", 0 <= it && it <= len(fields) && len(fields) == len(ws) && vf.All(0, len(ws), func(i int) bool { return fields[i] == ws[i] }))
	vf.Inv("name", attr == attrName(ws))
	vf.Inv("the last", len(feeds) >= 1 && m == &feeds[len(feeds)-1])
	vf.Inv("own sets", m.SpropParameterSets == nil || vf.New(m.SpropParameterSets))
	vf.Inv("nil is empty", m.SpropParameterSets != nil || len(m.SpropParameterSets) == 0)
	vf.Inv("no other's sets", vf.All(0, k, func(i int) bool {
		return feeds[i].SpropParameterSets == nil || vf.Separate(feeds[i].SpropParameterSets, m.SpropParameterSets)
	}))
	vf.Inv("video", !m.audio)
	vf.Inv("payload type", m.PayloadType == numL(ls, n, k, nPayload))
	vf.Inv("rtpmap", m.Rtpmap == numW(ws, it, nRtpmap, numL(ls, n, k, nRtpmap)))
	vf.Inv("codec", int(m.Type) == numW(ws, it, nType, numL(ls, n, k, nType)))
	vf.Inv("time scale", m.TimeScale == numW(ws, it, nScale, numL(ls, n, k, nScale)))
	vf.Inv("size length", m.SizeLength == numW(ws, it, nSizeLen, numL(ls, n, k, nSizeLen)))
	vf.Inv("index length", m.IndexLength == numW(ws, it, nIndexLen, numL(ls, n, k, nIndexLen)))
	vf.Inv("control", m.Control == strW(ws, it, sControl, strL(ls, n, k, sControl)))
	vf.Inv("config", string(m.Config) == strW(ws, it, sConfig, strL(ls, n, k, sConfig)))
	vf.Inv("number of sets", 0 <= setsL(ls, n, k) && 0 <= setsW(ws, it) && len(m.SpropParameterSets) == setsL(ls, n, k)+setsW(ws, it))
	vf.Inv("sets", vf.All(0, len(m.SpropParameterSets), func(j int) bool {
		return string(m.SpropParameterSets[j]) == setTo(ls, n, k, ws, it, j)
	}))
	vf.Dec(len(fields) - it)
}

// setTo2: and i2 parameters of word i.
func setTo2(ls []string, n, k int, ws []string, i int, ps []string, i2, j int) string {
	if j < setsL(ls, n, k)+setsW(ws, i) {
		return setTo(ls, n, k, ws, i, j)
	}
	return setP(ps, i2, j-setsL(ls, n, k)-setsW(ws, i))
}

func Inv_Parse_3(buf []byte, feeds []Media, m *Media, keyval []string, it, it1, it2 int) {
	ls := strings.Split(string(buf), "\n")
	n, k := it1, len(feeds)-1
	ws := lWords(ls[n])
	ps := params(ws[it2])
	vf.Inv("range", 0 <= it && it <= len(keyval) && len(keyval) == len(ps) && vf.All(0, len(ps), func(i int) bool { return keyval[i] == ps[i] }))
	vf.Inv("the last", len(feeds) >= 1 && m == &feeds[len(feeds)-1])
	vf.Inv("own sets", m.SpropParameterSets == nil || vf.New(m.SpropParameterSets))
	vf.Inv("nil is empty", m.SpropParameterSets != nil || len(m.SpropParameterSets) == 0)
	vf.Inv("no other's sets", vf.All(0, k, func(i int) bool {
		return feeds[i].SpropParameterSets == nil || vf.Separate(feeds[i].SpropParameterSets, m.SpropParameterSets)
	}))
	vf.Inv("size", m.SizeLength == numP(ps, it, nSizeLen, numW(ws, it2, nSizeLen, numL(ls, n, k, nSizeLen))))
	vf.Inv("index", m.IndexLength == numP(ps, it, nIndexLen, numW(ws, it2, nIndexLen, numL(ls, n, k, nIndexLen))))
	vf.Inv("config", string(m.Config) == strP(ps, it, strW(ws, it2, sConfig, strL(ls, n, k, sConfig))))
	vf.Inv("number of sets", 0 <= setsP(ps, it) && len(m.SpropParameterSets) == setsL(ls, n, k)+setsW(ws, it2)+setsP(ps, it))
	vf.Inv("sets", vf.All(0, len(m.SpropParameterSets), func(j int) bool {
		return string(m.SpropParameterSets[j]) == setTo2(ls, n, k, ws, it2, ps, it, j)
	}))
	vf.Dec(len(keyval) - it)
}

// setTo3: and i3 sets of a list.
func setTo3(ls []string, n, k int, ws []string, i int, ps []string, i2 int, ss []string, j int) string {
	b := setsL(ls, n, k) + setsW(ws, i) + setsP(ps, i2)
	if j < b {
		return setTo2(ls, n, k, ws, i, ps, i2, j)
	}
	return unbase(ss[j-b])
}

func Inv_Parse_4(buf []byte, feeds []Media, m *Media, fields []string, it, it1, it2, it3 int) {
	ls := strings.Split(string(buf), "\n")
	n, k := it1, len(feeds)-1
	ws := lWords(ls[n])
	ps := params(ws[it2])
	ss := sets(pVal(ps[it3]))
	vf.Inv("range", 0 <= it && it <= len(fields) && len(fields) == len(ss) && vf.All(0, len(ss), func(i int) bool { return fields[i] == ss[i] }))
	vf.Inv("the last", len(feeds) >= 1 && m == &feeds[len(feeds)-1])
	vf.Inv("own sets", m.SpropParameterSets == nil || vf.New(m.SpropParameterSets))
	vf.Inv("nil is empty", m.SpropParameterSets != nil || len(m.SpropParameterSets) == 0)
	vf.Inv("no other's sets", vf.All(0, k, func(i int) bool {
		return feeds[i].SpropParameterSets == nil || vf.Separate(feeds[i].SpropParameterSets, m.SpropParameterSets)
	}))
	vf.Inv("number of sets", len(m.SpropParameterSets) == setsL(ls, n, k)+setsW(ws, it2)+setsP(ps, it3)+it)
	vf.Inv("sets", vf.All(0, len(m.SpropParameterSets), func(j int) bool {
		return string(m.SpropParameterSets[j]) == setTo3(ls, n, k, ws, it2, ps, it3, ss, j)
	}))
	vf.Dec(len(fields) - it)
}

func Post_Parse(buf []byte, feeds []Media) {
	ls := strings.Split(string(buf), "\n")
	n := len(ls)
	vf.Ensure("fresh", feeds == nil || vf.Fresh(feeds))
	vf.Ensure("one for every video stream", len(feeds) == videos(ls, n))
	vf.Ensure("@C28 attributes as described, the others zero", vf.All(0, len(feeds), func(k int) bool { return isStream(feeds[k], ls, n, k) }))
	vf.Ensure("@C28 parameter sets as described, in order", vf.All(0, len(feeds), func(k int) bool { return hasSets(feeds[k], ls, n, k) }))
}

func Gen_Parse(g *vf.Gen) []byte {
	s := ""
	n := g.N(14)
	for i := 0; i < n; i++ {
		s += genLine(g) + g.Pick("\n", "\r\n", "\n", "\n\n", " \n")
	}
	return []byte(s)
}

func genLine(g *vf.Gen) string {
	switch g.N(10) {
	case 0, 1, 2:
		return "m=" + g.Pick("video", "video", "video", "video", "audio", "application") + g.Pick(" 0 RTP/AVP 96", " 0 RTP/AVP 96", " 0 RTP/AVP 26 96", " 0 RTP/AVP", "", " ", " 1/2 RTP/AVP 97 98", " 0 RTP/AVP x")
	case 3:
		return "a=control:" + g.Pick("trackID=1", "rtsp://h/a/2", "track/1", "*", "a b", "", "x:y", "H264/90000")
	case 4, 5:
		return "a=rtpmap:" + g.Pick("96", "97", "", "x") + g.Pick(" H264/90000", " h264/90000", " MPEG4-GENERIC/16000/1", " VP8/90000", " H264", "", " H264/x", "/5 H264/1")
	case 6, 7:
		s := g.Pick("a=fmtp:96 ", "a=fmtp:96 ", "a=fmtp:96 ", "a=fmtp:96", "a=fmtp:", "a=fmtp ", "a=tool:1 ")
		for i := g.N(5); i >= 0; i-- {
			s += g.Pick("packetization-mode=1", "sprop-parameter-sets=Z2QAKKzoBQBbkA==,aO48sA==", "sprop-parameter-sets="+g.Word(4)+","+g.Word(4), "config=1408", "config=14x8", "sizelength=13", "indexlength=3", "SizeLength=4", "sizelength", "sprop-parameter-sets=a/12/b,", "indexlength=a", "sizelength=")
			s += g.Pick(";", "; ", ";", "", " ;")
		}
		return s
	case 8:
		return g.Pick("a=recvonly", "a=framerate:25/1", "a=tool:x control:y", "a=", "a", "b=AS:16", "=", "m", " a=control:3", "a =control:4", "a=x-dim:704/480", "a=range:npt=0- rtpmap:5")
	}
	return g.Pick("v=0", "o=- 1 1 IN IP4", "", "s="+g.Word(3), "t=0 0", "c=IN IP4 0.0.0.0/127")
}

// Streams is how many video streams a description has.
func Streams(buf []byte) int {
	ls := strings.Split(string(buf), "\n")
	return videos(ls, len(ls))
}

// SameMedia: one is a copy of the other.
func SameMedia(a, b Media) bool {
	if vf.Concrete() {
		return reflect.DeepEqual(a, b)
	}
	return a.audio == b.audio && a.Type == b.Type && a.TimeScale == b.TimeScale && a.Control == b.Control && a.Rtpmap == b.Rtpmap &&
		a.PayloadType == b.PayloadType && a.SizeLength == b.SizeLength && a.IndexLength == b.IndexLength && vf.Same(a.Config, b.Config) &&
		len(a.SpropParameterSets) == len(b.SpropParameterSets) &&
		(len(a.SpropParameterSets) == 0 || &a.SpropParameterSets[0] == &b.SpropParameterSets[0])
}
