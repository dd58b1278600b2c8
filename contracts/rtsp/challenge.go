package rtsp

import (
	"strings"

	"github.com/aboukirev/ouro/internal/vf"
)

// ---- vocabulary: the directives of a challenge, RFC 2617 section 1.2

// quotedAt: position i of s is inside a quoted string.
func quotedAt(s string, i int) bool {
	if i <= 0 {
		return false
	}
	return quotedAt(s, i-1) != (s[i-1] == '"')
}

func isCut(s string, i int) bool { return s[i] == ',' && !quotedAt(s, i) }

// cutsIn is the number of separating commas before position i.
func cutsIn(s string, i int) int {
	if i <= 0 {
		return 0
	}
	return cutsIn(s, i-1) + boolInt(isCut(s, i-1))
}

// partFrom is where the directive around position i starts.
func partFrom(s string, i int) int {
	if i <= 0 {
		return 0
	}
	if isCut(s, i-1) {
		return i
	}
	return partFrom(s, i-1)
}

// ---- splitDirectives

func Inv_splitDirectives_1(challenge string, parts []string, quoted bool, from, i int) {
	vf.Inv("range", 0 <= i && i <= len(challenge) && 0 <= from && from <= i)
	vf.Inv("quoted", quoted == quotedAt(challenge, i))
	vf.Inv("from", from == partFrom(challenge, i))
	vf.Inv("parts", len(parts) == cutsIn(challenge, i) && (parts == nil || vf.Fresh(parts)))
	vf.Inv("growing", vf.All(0, i, func(k int) bool { return 0 <= cutsIn(challenge, k) && cutsIn(challenge, k+1) <= cutsIn(challenge, i) }))
	vf.Inv("text", vf.All(0, i, func(k int) bool {
		return vf.Imp(isCut(challenge, k), parts[cutsIn(challenge, k)] == challenge[partFrom(challenge, k):k])
	}))
	vf.Dec(len(challenge) - i)
}

func Post_splitDirectives(challenge string, parts []string) {
	n := len(challenge)
	vf.Ensure("fresh", vf.Fresh(parts))
	vf.Ensure("one directive more than there are separating commas", len(parts) == cutsIn(challenge, n)+1)
	vf.Ensure("directives between the commas", vf.All(0, n, func(k int) bool {
		return vf.Imp(isCut(challenge, k), cutsIn(challenge, k) < cutsIn(challenge, n) && parts[cutsIn(challenge, k)] == challenge[partFrom(challenge, k):k])
	}))
	vf.Ensure("and after the last", parts[cutsIn(challenge, n)] == challenge[partFrom(challenge, n):])
}

func Gen_splitDirectives(g *vf.Gen) string { return genChallenge(g) }

func genChallenge(g *vf.Gen) string {
	s := ""
	n := g.N(7)
	for i := 0; i < n; i++ {
		if i > 0 {
			s += g.Pick(",", ", ", " , ", ",,", ", ")
		}
		s += genDirective(g)
	}
	if g.P(15) && len(s) > 0 {
		k := g.N(len(s))
		s = s[:k] + g.Pick("\"", ",", "=", "", " ") + s[k+g.N(2):]
	}
	return s
}

func genDirective(g *vf.Gen) string {
	k := g.Pick("realm", "nonce", "opaque", "qop", "algorithm", "stale", "domain", "charset", "Realm", "NONCE", "x-"+g.Word(2), "uri")
	v := g.Word(5)
	switch strings.ToLower(k) {
	case "qop":
		v = g.Pick("auth", "auth,auth-int", "auth-int", "AUTH", "auth, auth-int")
	case "algorithm":
		v = g.Pick("MD5", "MD5-sess", "md5", "SHA-256", "md5-SESS")
	case "realm":
		v = g.Pick(v, "a, b", "x=y", "with space", "")
	}
	switch g.N(6) {
	case 0:
		return k + "=" + v
	case 1:
		return k + "=\"" + v
	case 2:
		return k
	}
	return k + "=\"" + v + "\""
}

// ---- NewDigest

// nameOf and valueOf take a directive apart.
func nameOf(part string) string {
	p := strings.TrimSpace(part)
	if j := strings.Index(p, "="); j > 0 {
		return strings.ToLower(p[:j])
	}
	return ""
}

func valueOf(part string) string {
	p := strings.TrimSpace(part)
	if j := strings.Index(p, "="); j > 0 {
		return strings.Trim(p[j+1:], "\"")
	}
	return ""
}

// given is the value of the last of the first n directives with a name.
func given(parts []string, n int, name, otherwise string) string {
	if n <= 0 {
		return otherwise
	}
	if nameOf(parts[n-1]) == name {
		return valueOf(parts[n-1])
	}
	return given(parts, n-1, name, otherwise)
}

// protection is the first of the qop values offered.
func protection(parts []string, n int) string {
	if n <= 0 {
		return ""
	}
	if nameOf(parts[n-1]) == "qop" {
		return strings.ToLower(strings.Split(valueOf(parts[n-1]), ",")[0])
	}
	return protection(parts, n-1)
}

// hashing is the algorithm asked for.
func hashing(parts []string, n int) string {
	if n <= 0 {
		return "md5"
	}
	if nameOf(parts[n-1]) == "algorithm" {
		return strings.ToLower(valueOf(parts[n-1]))
	}
	return hashing(parts, n-1)
}

func isDigest(ch string) bool { return strings.HasPrefix(strings.TrimSpace(ch), "Digest ") }
func isBasic(ch string) bool  { return strings.HasPrefix(strings.TrimSpace(ch), "Basic ") }

func After_NewDigest_splitDirectives(challenge string, parts []string) {
	vf.Record("parts", parts)
}

// directives is what the challenge says after its scheme.
func directives(challenge string) []string {
	c := strings.TrimSpace(challenge)
	if isDigest(challenge) {
		c = c[7:]
	} else {
		c = c[6:]
	}
	var parts []string
	from := 0
	for k := 0; k < len(c); k++ {
		if isCut(c, k) {
			parts = append(parts, c[from:k])
			from = k + 1
		}
	}
	return append(parts, c[from:])
}

func Inv_NewDigest_1(d *Digest, parts []string, i int) {
	ps := vf.Recorded("parts", []string(nil)).([]string)
	vf.Inv("range", 0 <= i && i <= len(parts) && len(parts) == len(ps))
	vf.Inv("rest", vf.All(i, len(parts), func(k int) bool { return parts[k] == ps[k] }))
	vf.Inv("realm", d.realm == given(ps, i, "realm", ""))
	vf.Inv("domain", d.domain == given(ps, i, "domain", ""))
	vf.Inv("nonce", d.nonce == given(ps, i, "nonce", ""))
	vf.Inv("opaque", d.opaque == given(ps, i, "opaque", ""))
	vf.Inv("stale", d.stale == given(ps, i, "stale", ""))
	vf.Inv("algorithm", d.algorithm == hashing(ps, i))
	vf.Inv("qop", d.qop == protection(ps, i))
	vf.Dec(len(parts) - i)
}

func Post_NewDigest(uri, challenge string, d *Digest, err error) {
	vf.Ensure("other schemes are refused", vf.Imp(!isDigest(challenge) && !isBasic(challenge), err != nil))
	vf.Ensure("an authentication or an error", (d == nil) == (err != nil))
	vf.Ensure("fresh", vf.Imp(err == nil, vf.Fresh(d)))
	if !isDigest(challenge) && !isBasic(challenge) {
		return
	}
	var ps []string
	if vf.Concrete() {
		ps = directives(challenge)
	} else {
		ps = vf.Recorded("parts", []string(nil)).([]string)
	}
	n := len(ps)
	algo, nonce := hashing(ps, n), given(ps, n, "nonce", "")
	known := nonce == "" || algo == "md5" || algo == "md5-sess"
	vf.Ensure("hash functions not implemented are refused, everything else accepted", (err == nil) == known)
	if err != nil {
		return
	}
	vf.Ensure("scheme", d.basic == !isDigest(challenge))
	vf.Ensure("nonce", d.nonce == nonce)
	vf.Ensure("realm", d.realm == given(ps, n, "realm", ""))
	vf.Ensure("opaque", d.opaque == given(ps, n, "opaque", ""))
	vf.Ensure("stale", d.stale == given(ps, n, "stale", ""))
	vf.Ensure("domain", d.domain == given(ps, n, "domain", ""))
	vf.Ensure("algorithm", d.algorithm == algo)
	vf.Ensure("qop", d.qop == protection(ps, n))
	vf.Ensure("address", d.uri == uri)
	vf.Ensure("no request counted yet", d.count == 0)
}

func Gen_NewDigest(g *vf.Gen) (string, string) {
	return "rtsp://" + g.Word(5), g.Pick("Digest ", "Digest ", "Digest ", "Basic ", " Digest ", "Bearer ", "", "Digest") + genChallenge(g)
}
