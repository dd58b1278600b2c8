package rtsp

import (
	"net/textproto"
	"strings"

	"github.com/aboukirev/ouro/internal/vf"
)

// ---- headers: names are case insensitive, RFC 2326 section 4.2

func canon(key string) string { return textproto.CanonicalMIMEHeaderKey(key) }

func Pre_MessageHeader_Set(h MessageHeader, key, value string) bool { return h != nil }

func Old_MessageHeader_Set(h MessageHeader, key, value string) MessageHeader {
	return vf.SnapOf(h).(MessageHeader)
}

func Mod_MessageHeader_Set(h MessageHeader, key, value string) { vf.ModMap(h) }

func Post_MessageHeader_Set(h MessageHeader, key, value string, old MessageHeader) {
	v, ok := h[canon(key)]
	vf.Ensure("has the value under the name", ok && v == value)
	vf.Ensure("other headers stay", vf.MapSameBut(h, old, canon(key)))
}

func Gen_MessageHeader_Set(g *vf.Gen) (MessageHeader, string, string) {
	return genHeader(g), genName(g), genText(g)
}

func Pre_MessageHeader_Get(h MessageHeader, key string) bool { return true }

func Post_MessageHeader_Get(h MessageHeader, key string, v string) {
	w, ok := h[canon(key)]
	vf.Ensure("the value under the name", vf.Imp(ok, v == w))
	vf.Ensure("empty when there is none", ok || v == "")
}

func Gen_MessageHeader_Get(g *vf.Gen) (MessageHeader, string) {
	if g.P(5) {
		return nil, genName(g)
	}
	return genHeader(g), genName(g)
}

func Old_MessageHeader_Del(h MessageHeader, key string) MessageHeader {
	return vf.SnapOf(h).(MessageHeader)
}

func Mod_MessageHeader_Del(h MessageHeader, key string) { vf.ModMap(h) }

func Post_MessageHeader_Del(h MessageHeader, key string, old MessageHeader) {
	_, ok := h[canon(key)]
	vf.Ensure("has none of the name", !ok)
	vf.Ensure("other headers stay", vf.MapSameBut(h, old, canon(key)))
}

func Gen_MessageHeader_Del(g *vf.Gen) (MessageHeader, string) {
	return genHeader(g), genName(g)
}

func genName(g *vf.Gen) string {
	return g.Pick("CSeq", "cseq", "Cseq", "CSEQ", "session", "Session", "www-authenticate", "WWW-Authenticate", "X-"+g.Word(3), "", "a b", "content-length")
}

func genText(g *vf.Gen) string {
	return g.Pick("", "1", "12345678", "12345678;timeout=60", "a: b", "RTP/AVP/TCP;interleaved=0-1", g.Word(5))
}

func genHeader(g *vf.Gen) MessageHeader {
	h := MessageHeader{}
	for i := g.N(5); i > 0; i-- {
		k := genName(g)
		if g.P(80) {
			k = canon(k)
		}
		h[k] = genText(g)
	}
	return h
}

// SetAndDeleted sets a header under one name, looks it up under another, deletes it and looks again.
func SetAndDeleted(h MessageHeader, a, b, v string) (got, gone string) {
	h.Set(a, v)
	got = h.Get(b)
	h.Del(b)
	return got, h.Get(a)
}

func Pre_SetAndDeleted(h MessageHeader, a, b, v string) bool {
	return h != nil && canon(a) == canon(b)
}
func Mod_SetAndDeleted(h MessageHeader, a, b, v string) { vf.ModMap(h) }
func Post_SetAndDeleted(h MessageHeader, a, b, v string, got, gone string) {
	vf.Ensure("found under any spelling", got == v)
	vf.Ensure("gone under any spelling", gone == "")
}

func Gen_SetAndDeleted(g *vf.Gen) (MessageHeader, string, string, string) {
	a := genName(g)
	return genHeader(g), a, g.Pick(a, strings.ToUpper(a), strings.ToLower(a)), genText(g)
}
