package rtsp

import (
	"strconv"
	"strings"

	"github.com/aboukirev/ouro/internal/vf"
)

// ---- vocabulary: parameters of a transport header, RFC 2326 section 12.39

// tKey and tVal are the name and the value of a parameter.
func tKey(f string) string { return strings.ToLower(strings.SplitN(f, "=", 2)[0]) }
func tHas(f string) bool   { return len(strings.SplitN(f, "=", 2)) == 2 }
func tVal(f string) string {
	kv := strings.SplitN(f, "=", 2)
	if len(kv) == 2 {
		return kv[1]
	}
	return ""
}

func isNum(s string) bool { _, err := strconv.Atoi(s); return err == nil }
func num(s string) int    { n, _ := strconv.Atoi(s); return n }

// isPair: one number or two with a dash between them.
func isPair(s string) bool {
	p := strings.Split(s, "-")
	return isNum(p[0]) && (len(p) < 2 || isNum(p[1]))
}
func pairOne(s string) int { return num(strings.Split(s, "-")[0]) }
func pairTwo(s string) int {
	p := strings.Split(s, "-")
	if len(p) < 2 {
		return 0
	}
	return num(p[1])
}

// tFine: the parameter has the value it needs.
func tFine(f string) bool {
	switch tKey(f) {
	case "destination", "source", "ssrc", "mode":
		return tHas(f)
	case "layers", "ttl":
		return tHas(f) && isNum(tVal(f))
	case "interleaved", "port", "client_port", "server_port":
		return tHas(f) && isPair(tVal(f))
	}
	return true
}

// tAll: the first n parameters have the values they need.
func tAll(fs []string, n int) bool {
	return vf.All(0, n, func(k int) bool { return tFine(fs[k]) })
}

// tStr, tNum, tOne and tTwo are what the last of the first n parameters of a name says.
func tStr(fs []string, n int, key, was string) string {
	if n <= 0 {
		return was
	}
	if tKey(fs[n-1]) == key {
		return tVal(fs[n-1])
	}
	return tStr(fs, n-1, key, was)
}

func tNum(fs []string, n int, key string, was int) int {
	if n <= 0 {
		return was
	}
	if tKey(fs[n-1]) == key {
		return num(tVal(fs[n-1]))
	}
	return tNum(fs, n-1, key, was)
}

func tOne(fs []string, n int, key string, was int) int {
	if n <= 0 {
		return was
	}
	if tKey(fs[n-1]) == key {
		return pairOne(tVal(fs[n-1]))
	}
	return tOne(fs, n-1, key, was)
}

func tTwo(fs []string, n int, key string, was int) int {
	if n <= 0 {
		return was
	}
	if tKey(fs[n-1]) == key {
		return pairTwo(tVal(fs[n-1]))
	}
	return tTwo(fs, n-1, key, was)
}

// tFlag: a parameter of that name was given.
func tFlag(fs []string, n int, key string, was bool) bool {
	if n <= 0 {
		return was
	}
	return tKey(fs[n-1]) == key || tFlag(fs, n-1, key, was)
}

// tMulti: the last parameter that tells says multicast.
func tMulti(fs []string, n int, was bool) bool {
	if n <= 0 {
		return was
	}
	switch tKey(fs[n-1]) {
	case "multicast":
		return true
	case "unicast", "interleaved":
		return false
	}
	return tMulti(fs, n-1, was)
}

// tTCP: the transport specification names TCP as lower transport.
func tTCP(fs []string, was bool) bool {
	p := strings.Split(fs[0], "/")
	if len(p) == 3 {
		return strings.ToUpper(p[2]) == "TCP"
	}
	return was
}

func tPair(p Pair, fs []string, n int, key string, was Pair) bool {
	return p.One == tOne(fs, n, key, was.One) && p.Two == tTwo(fs, n, key, was.Two)
}

// ---- ParsePair

func Post_ParsePair(val string, p Pair, err error) {
	vf.Ensure("refuses what is not one or two numbers", (err == nil) == isPair(val))
	vf.Ensure("first", vf.Imp(err == nil, p.One == pairOne(val)))
	vf.Ensure("second", vf.Imp(err == nil, p.Two == pairTwo(val)))
}

func Gen_ParsePair(g *vf.Gen) string { return genPair(g) }

func genPair(g *vf.Gen) string {
	a := strconv.Itoa(g.N(100000))
	switch g.N(8) {
	case 0:
		return a
	case 1:
		return g.Pick("-", "", "a", "1-", "-1", "99999999999999999999", "1-x", "x-1", "1--2", " 1-2", "0x1") + g.Pick("", "", a)
	}
	return a + "-" + strconv.Itoa(g.N(100000))
}

// ---- Parse

func Old_Transport_Parse(t *Transport, value string) Transport { return *t }
func Mod_Transport_Parse(t *Transport, value string)           { vf.Modifies(t) }

func Inv_Transport_Parse_1(t *Transport, value string, err error, fields []string, it int, old Transport) {
	fs := strings.Split(value, ";")
	n := it
	vf.Inv("fields", len(fields) == len(fs) && vf.All(0, len(fs), func(k int) bool { return fields[k] == fs[k] }))
	vf.Inv("range", 0 <= n && n <= len(fs) && err == nil)
	vf.Inv("fine so far", tAll(fs, n))
	if n == 0 {
		vf.Inv("lower transport", t.IsTCP == old.IsTCP)
	} else {
		vf.Inv("lower transport", t.IsTCP == tTCP(fs, old.IsTCP))
	}
	vf.Inv("multicast", t.IsMulticast == tMulti(fs, n, old.IsMulticast))
	vf.Inv("interleaved", t.IsInterleaved == tFlag(fs, n, "interleaved", old.IsInterleaved))
	vf.Inv("append", t.IsAppend == tFlag(fs, n, "append", old.IsAppend))
	vf.Inv("channels", tPair(t.Interleave, fs, n, "interleaved", old.Interleave))
	vf.Inv("port", tPair(t.Port, fs, n, "port", old.Port))
	vf.Inv("client port", tPair(t.ClientPort, fs, n, "client_port", old.ClientPort))
	vf.Inv("server port", tPair(t.ServerPort, fs, n, "server_port", old.ServerPort))
	vf.Inv("layers", t.Layers == tNum(fs, n, "layers", old.Layers))
	vf.Inv("ttl", t.TTL == tNum(fs, n, "ttl", old.TTL))
	vf.Inv("destination", t.Destination == tStr(fs, n, "destination", old.Destination))
	vf.Inv("source", t.Source == tStr(fs, n, "source", old.Source))
	vf.Inv("ssrc", t.SSRC == tStr(fs, n, "ssrc", old.SSRC))
	vf.Inv("mode", t.Mode == tStr(fs, n, "mode", old.Mode))
	vf.Dec(len(fs) - n)
}

func Post_Transport_Parse(t *Transport, value string, old Transport, err error) {
	fs := strings.Split(value, ";")
	n := len(fs)
	vf.Ensure("@C19 refuses exactly the headers with a malformed parameter", (err == nil) == tAll(fs, n))
	if err != nil {
		return
	}
	vf.Ensure("@C19 lower transport", t.IsTCP == tTCP(fs, old.IsTCP))
	vf.Ensure("@C19 multicast", t.IsMulticast == tMulti(fs, n, old.IsMulticast))
	vf.Ensure("@C19 interleaved", t.IsInterleaved == tFlag(fs, n, "interleaved", old.IsInterleaved))
	vf.Ensure("@C19 append", t.IsAppend == tFlag(fs, n, "append", old.IsAppend))
	vf.Ensure("@C19 channels", tPair(t.Interleave, fs, n, "interleaved", old.Interleave))
	vf.Ensure("@C19 port", tPair(t.Port, fs, n, "port", old.Port))
	vf.Ensure("@C19 client port", tPair(t.ClientPort, fs, n, "client_port", old.ClientPort))
	vf.Ensure("@C19 server port", tPair(t.ServerPort, fs, n, "server_port", old.ServerPort))
	vf.Ensure("@C19 layers", t.Layers == tNum(fs, n, "layers", old.Layers))
	vf.Ensure("@C19 ttl", t.TTL == tNum(fs, n, "ttl", old.TTL))
	vf.Ensure("@C19 destination", t.Destination == tStr(fs, n, "destination", old.Destination))
	vf.Ensure("@C19 source", t.Source == tStr(fs, n, "source", old.Source))
	vf.Ensure("@C19 ssrc", t.SSRC == tStr(fs, n, "ssrc", old.SSRC))
	vf.Ensure("@C19 mode", t.Mode == tStr(fs, n, "mode", old.Mode))
}

func Gen_Transport_Parse(g *vf.Gen) (*Transport, string) {
	t := genTransport(g)
	s := g.Pick("RTP/AVP", "RTP/AVP/TCP", "RTP/AVP/UDP", "RTP/AVP/tcp", "", "RTP/AVP/TCP/x")
	n := g.N(7)
	for i := 0; i < n; i++ {
		if i > 0 || g.P(95) {
			s += ";"
		}
		k := g.Pick("unicast", "multicast", "destination", "source", "interleaved", "append", "layers", "ttl", "port", "client_port", "server_port", "ssrc", "mode", "x-"+g.Word(2), "Client_Port", "UNICAST", "a/b/TCP", "RTP/AVP/TCP")
		s += k
		if g.P(80) {
			v := g.Word(4)
			switch strings.ToLower(k) {
			case "layers", "ttl":
				v = g.Pick("1", "127", "0", "-3", v)
			case "interleaved", "port", "client_port", "server_port":
				v = genPair(g)
			case "destination", "source":
				v = g.Pick("10.0.0.1", "a/b/c", "x/y/TCP", "a=b", "")
			}
			s += "=" + v
		}
	}
	return &t, s
}

func genTransport(g *vf.Gen) Transport {
	p := func() Pair { return Pair{g.N(5) * 1000, g.N(3)} }
	w := func() string { return g.Pick("", "a", "PLAY", "RECORD", "10.0.0.1", "1A2b") }
	return Transport{g.P(50), g.P(50), g.P(50), g.P(50), p(), p(), p(), p(), g.N(3), g.N(3) * 60, w(), w(), w(), w()}
}

// ---- NewTransport

func Pre_NewTransport(proto int, port int) bool { return 0 <= port && port < 1<<50 }

func Post_NewTransport(proto int, port int, t *Transport) {
	vf.Ensure("fresh", vf.Fresh(t))
	tcp := proto == ProtoTCP || proto == ProtoHTTP
	vf.Ensure("over the connection itself for TCP and HTTP", t.IsTCP == tcp && t.IsInterleaved == tcp)
	vf.Ensure("multicast when asked for", t.IsMulticast == (proto == ProtoMulticast))
	vf.Ensure("a pair of channels", t.Interleave == pairIf(tcp, port))
	vf.Ensure("a pair of ports of the client", t.ClientPort == pairIf(proto == ProtoUnicast, firstUDPPort+port))
	vf.Ensure("a pair of ports of the group", t.Port == pairIf(proto == ProtoMulticast, firstUDPPort+port))
	vf.Ensure("play", t.Mode == "PLAY" && !t.IsAppend)
	vf.Ensure("nothing else", t.ServerPort == Pair{} && t.Layers == 0 && t.TTL == 0 && t.Destination == "" && t.Source == "" && t.SSRC == "")
}

func pairIf(c bool, n int) Pair {
	if c {
		return Pair{n, n + 1}
	}
	return Pair{}
}

func Gen_NewTransport(g *vf.Gen) (int, int) { return g.N(5), 2 * g.N(50) }

// ---- String

func Post_Pair_String(p Pair, s string) {
	vf.Ensure("both numbers with a dash between them", s == pairText(p))
}

func Gen_Pair_String(g *vf.Gen) Pair { return Pair{g.Int(-5, 70000), g.Int(-5, 70000)} }

func pairText(p Pair) string { return strconv.Itoa(p.One) + "-" + strconv.Itoa(p.Two) }

func opt(c bool, s string) string {
	if c {
		return s
	}
	return ""
}

// transportText is the header for a transport.
func transportText(t Transport) string {
	s := "RTP/AVP"
	if t.IsTCP {
		s += "/TCP"
	} else if t.IsMulticast {
		s += ";multicast"
	} else {
		s += ";unicast"
	}
	s += opt(t.Destination != "", ";destination="+t.Destination)
	s += opt(t.Source != "", ";source="+t.Source)
	s += opt(t.IsInterleaved, ";interleaved="+pairText(t.Interleave))
	s += opt(t.IsAppend, ";append")
	s += opt(t.Port.One > 0, ";port="+pairText(t.Port))
	s += opt(t.ClientPort.One > 0, ";client_port="+pairText(t.ClientPort))
	s += opt(t.ServerPort.One > 0, ";server_port="+pairText(t.ServerPort))
	s += opt(t.IsMulticast && t.TTL > 0, ";ttl="+strconv.Itoa(t.TTL))
	s += opt(t.Layers > 0, ";layers="+strconv.Itoa(t.Layers))
	s += opt(t.SSRC != "", ";ssrc="+t.SSRC)
	s += opt(t.Mode != "" && t.Mode != "PLAY", ";mode="+t.Mode)
	return s
}

func Post_Transport_String(t Transport, s string) {
	vf.Ensure("the transport and its parameters, separated by semicolons", s == transportText(t))
}

func Gen_Transport_String(g *vf.Gen) Transport { return genTransport(g) }
