package rtsp

import (
	"crypto/md5"
	"encoding/base64"
	"encoding/hex"
	"fmt"

	"github.com/aboukirev/ouro/internal/vf"
)

// ---- vocabulary: RFC 2617 section 3.2.2

// h is the hexadecimal MD5 digest H(s) of RFC 2617.
func h(s string) string {
	f := md5.New()
	f.Write([]byte(s))
	return hex.EncodeToString(f.Sum(nil))
}

// joined is the first n strings with colons between them.
func joined(ss []string, n int) string {
	if n <= 0 {
		return ""
	}
	if n == 1 {
		return ss[0]
	}
	return joined(ss, n-1) + ":" + ss[n-1]
}

func joinedLen(ss []string, n int) int {
	if n <= 0 {
		return 0
	}
	return joinedLen(ss, n-1) + len(ss[n-1])
}

// ---- md5hex, colonnade

func Post_md5hex(data []byte, s string) { vf.Ensure("hexadecimal MD5", s == h(string(data))) }

func Gen_md5hex(g *vf.Gen) []byte { return g.Bytes(40) }

func Pre_colonnade(params []string) bool {
	return len(params) >= 1 && len(params) <= 64 && vf.All(0, len(params), func(i int) bool { return len(params[i]) <= 1<<40 })
}

func Inv_colonnade_1(params []string, n, i int) {
	vf.Inv("range", 0 <= i && i <= len(params))
	vf.Inv("size", n == len(params)-1+joinedLen(params, i))
	vf.Inv("small", joinedLen(params, i) <= i<<40)
	vf.Inv("growing", vf.All(0, i+1, func(k int) bool { return 0 <= joinedLen(params, k) && joinedLen(params, k) <= joinedLen(params, i) }))
	vf.Dec(len(params) - i)
}

func Inv_colonnade_2(params []string, b []byte, bp int, it int) {
	vf.Inv("size", len(b) == len(params)-1+joinedLen(params, len(params)))
	vf.Inv("place", 0 <= it && it < len(params) && bp == joinedLen(params, it+1)+it && bp <= len(b))
	vf.Dec(len(params) - it)
	vf.Inv("text", string(b[:bp]) == joined(params, it+1))
}

func Post_colonnade(params []string, b []byte) {
	vf.Ensure("fresh", vf.Fresh(b))
	vf.Ensure("joined by colons", string(b) == joined(params, len(params)))
}

func Gen_colonnade(g *vf.Gen) []string {
	n := 1 + g.N(6)
	var ss []string
	for i := 0; i < n; i++ {
		ss = append(ss, g.Str(6))
	}
	return ss
}

// ---- the response to a challenge

type digOld struct {
	basic                                                                           bool
	user, realm, nonce, opaque, algorithm, cnonce, qop, uri, ha1, nc, domain, stale string
	count                                                                           int
	sess                                                                            bool
}

func digSnap(d *Digest) digOld {
	return digOld{d.basic, d.username, d.realm, d.nonce, d.opaque, d.algorithm, d.cnonce, d.qop, d.uri, d.ha1, d.nc, d.domain, d.stale, d.count, d.sess}
}

// sameChallenge: nothing of the challenge and the credentials changed.
func sameChallenge(d *Digest, o digOld) bool {
	return d.basic == o.basic && d.username == o.user && d.realm == o.realm && d.nonce == o.nonce && d.opaque == o.opaque &&
		d.algorithm == o.algorithm && d.qop == o.qop && d.uri == o.uri && d.domain == o.domain && d.stale == o.stale
}

// nonceCount is the count as it is sent.
func nonceCount(n int) string { return fmt.Sprintf("%08x", n) }

// entityHash is H(A2).
func entityHash(qop, verb, uri string, body []byte) string {
	if qop == "auth-int" {
		return h(verb + ":" + uri + ":" + h(string(body)))
	}
	return h(verb + ":" + uri)
}

// sessionHash is H(A1): with MD5-sess, derived from the first nonces used.
func sessionHash(o digOld) string {
	if o.qop != "" && o.algorithm == "md5-sess" && !o.sess {
		return h(o.ha1 + ":" + o.nonce + ":" + o.cnonce)
	}
	return o.ha1
}

// answer is the part of the header that depends on the request.
func answer(o digOld, verb string, body []byte) string {
	a2 := entityHash(o.qop, verb, o.uri, body)
	if o.qop == "" {
		return ", response=\"" + h(o.ha1+":"+o.nonce+":"+a2) + "\""
	}
	return ", qop=\"" + o.qop + "\", nc=" + o.nc + ", cnonce=\"" + o.cnonce + "\", response=\"" +
		h(sessionHash(o)+":"+o.nonce+":"+o.nc+":"+o.cnonce+":"+o.qop+":"+a2) + "\""
}

func short(s string) bool { return len(s) <= 1<<32 }

// digOK: strings of reasonable size.
func digOK(d *Digest) bool {
	return short(d.username) && short(d.realm) && short(d.nonce) && short(d.opaque) && short(d.algorithm) && short(d.cnonce) &&
		short(d.qop) && short(d.uri) && short(d.ha1) && short(d.nc) && d.count >= 0 && d.count < 1<<60
}

func Old_Digest_Next(d *Digest) digOld { return digSnap(d) }
func Mod_Digest_Next(d *Digest) {
	vf.Modifies(&d.count)
	vf.Modifies(&d.nc)
	vf.Modifies(&d.cnonce)
}
func Pre_Digest_Next(d *Digest) bool { return d.count >= 0 && d.count < 1<<60 }
func Post_Digest_Next(d *Digest, o digOld) {
	vf.Ensure("counts only when the count is sent", d.count == o.count+boolInt(o.qop != ""))
	vf.Ensure("count as sent", vf.Imp(o.qop != "", d.nc == nonceCount(d.count)))
	vf.Ensure("client nonce", vf.Imp(o.qop != "", len(d.cnonce) == 8))
	vf.Ensure("nothing without qop", vf.Imp(o.qop == "", d.nc == o.nc && d.cnonce == o.cnonce))
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

//vf:depth 8
func Pre_Digest_response(d *Digest, verb string, body []byte) bool   { return digOK(d) && short(verb) }
func Old_Digest_response(d *Digest, verb string, body []byte) digOld { return digSnap(d) }
func Mod_Digest_response(d *Digest, verb string, body []byte) {
	vf.Modifies(&d.count)
	vf.Modifies(&d.nc)
	vf.Modifies(&d.cnonce)
	vf.Modifies(&d.ha1)
	vf.Modifies(&d.ha2)
	vf.Modifies(&d.sess)
}
func Post_Digest_response(d *Digest, verb string, body []byte, o digOld, s string) {
	vf.Ensure("reasonable sizes", short(d.ha1) && short(d.nc) && short(d.cnonce))
	vf.Ensure("RFC 2617 response", s == answer(o, verb, body))
	vf.Ensure("the session key is derived once", d.ha1 == sessionHash(o))
	vf.Ensure("and then kept", d.sess == (o.sess || o.qop != "" && o.algorithm == "md5-sess"))
	vf.Ensure("the next request has the next count", d.count == o.count+boolInt(o.qop != "") && vf.Imp(o.qop != "", d.nc == nonceCount(d.count)))
}

func Gen_Digest_response(g *vf.Gen) (*Digest, string, []byte) {
	return genDigest(g), genVerb(g), g.Bytes(20)
}
func Gen_Digest_Next(g *vf.Gen) *Digest { return genDigest(g) }

func genVerb(g *vf.Gen) string { return g.Pick(VerbOptions, VerbDescribe, VerbSetup, VerbPlay) }

func genDigest(g *vf.Gen) *Digest {
	d := &Digest{username: g.Word(5), realm: g.Word(6), nonce: g.Word(8), uri: "rtsp://" + g.Word(5), algorithm: g.Pick("md5", "md5", "md5-sess"),
		qop: g.Pick("", "auth", "auth", "auth-int"), ha1: g.Word(6), opaque: g.Pick("", "x1"), count: g.N(20), basic: g.P(10)}
	d.nc, d.cnonce, d.sess = nonceCount(d.count), g.Word(8), g.P(40)
	return d
}

// ---- Authenticate, and the function it returns

// AnsweredTwice authenticates two requests and tells the client nonces used.
func AnsweredTwice(d *Digest, username, password, verb1, verb2 string, body1, body2 []byte) (s1, s2, cnonce1, cnonce2 string) {
	f := d.Authenticate(username, password)
	cnonce1 = d.cnonce
	s1 = f(verb1, body1)
	cnonce2 = d.cnonce
	s2 = f(verb2, body2)
	return
}

//vf:depth 8
func Pre_AnsweredTwice(d *Digest, username, password, verb1, verb2 string, body1, body2 []byte) bool {
	return digOK(d) && d.count < 1<<50 && short(username) && short(password) && short(verb1) && short(verb2)
}

func Old_AnsweredTwice(d *Digest, username, password, verb1, verb2 string, body1, body2 []byte) digOld {
	return digSnap(d)
}

func Mod_AnsweredTwice(d *Digest, username, password, verb1, verb2 string, body1, body2 []byte) {
	vf.Modifies(&d.username)
	vf.Modifies(&d.count)
	vf.Modifies(&d.nc)
	vf.Modifies(&d.cnonce)
	vf.Modifies(&d.ha1)
	vf.Modifies(&d.ha2)
	vf.Modifies(&d.sess)
}

// identity is the part of the header that is the same for every request.
func identity(o digOld, username string) string {
	s := "Digest username=\"" + username + "\", realm=\"" + o.realm + "\", nonce=\"" + o.nonce + "\", uri=\"" + o.uri + "\", algorithm=\"" + o.algorithm
	if o.opaque != "" {
		s += "\", opaque=\"" + o.opaque
	}
	return s + "\""
}

// userHash is H(username:realm:password).
func userHash(o digOld, username, password string) string {
	return h(username + ":" + o.realm + ":" + password)
}

func Post_AnsweredTwice(d *Digest, username, password, verb1, verb2 string, body1, body2 []byte, o digOld, s1, s2, cnonce1, cnonce2 string) {
	if o.basic {
		b := "Basic " + base64.StdEncoding.EncodeToString([]byte(username+":"+password))
		vf.Ensure("basic credentials", s1 == b && s2 == b)
		return
	}
	q := o
	q.ha1, q.sess = userHash(o, username, password), false
	if o.qop != "" {
		q.nc, q.cnonce = nonceCount(o.count+1), cnonce1
	}
	vf.Ensure("first request", s1 == identity(o, username)+answer(q, verb1, body1))
	r := q
	r.ha1, r.sess = sessionHash(q), q.qop != "" && q.algorithm == "md5-sess"
	if o.qop != "" {
		r.nc, r.cnonce = nonceCount(o.count+2), cnonce2
	}
	vf.Ensure("second request counts on", s2 == identity(o, username)+answer(r, verb2, body2))
}

func Gen_AnsweredTwice(g *vf.Gen) (*Digest, string, string, string, string, []byte, []byte) {
	return genDigest(g), g.Word(5), g.Word(5), genVerb(g), genVerb(g), g.Bytes(10), g.Bytes(10)
}
