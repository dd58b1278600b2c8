package rtsp

import (
	"encoding/base64"
	"net"
	"strconv"
	"strings"

	"github.com/aboukirev/ouro/internal/vf"
)

// ---- reading from the connection: what is read is what comes next, and no more

// canRead: there is a reader, and a connection to set deadlines on.
func canRead(c *Conn) bool { return c.rdr != nil && (c.Timeout <= 0 || c.conn != nil) }

func genConn(g *vf.Gen, s string) *Conn {
	return &Conn{rdr: g.Reader(s), Data: make(chan RawPacket, 20), Proto: ProtoTCP}
}

// hasLine: a complete line is there.
func hasLine(s string) bool { return strings.IndexByte(s, '\n') >= 0 }

// lineOf is the first line, with its end.
func lineOf(s string) string { return s[:strings.IndexByte(s, '\n')+1] }

// behind is what follows the first line.
func behind(s string) string { return s[strings.IndexByte(s, '\n')+1:] }

func Pre_Conn_ReadLine(c *Conn) bool { return canRead(c) }
func Mod_Conn_ReadLine(c *Conn)      { vf.ModStream(c.rdr) }
func Old_Conn_ReadLine(c *Conn) string {
	return vf.Stream(c.rdr)
}
func Post_Conn_ReadLine(c *Conn, old string, line string, err error) {
	vf.Ensure("a complete line or an error", (err == nil) == hasLine(old))
	if err != nil {
		return
	}
	vf.Ensure("the next line", line == lineOf(old))
	vf.Ensure("nothing else is read", vf.Stream(c.rdr) == behind(old))
}
func Gen_Conn_ReadLine(g *vf.Gen) *Conn { return genConn(g, genStream(g)) }

func Pre_Conn_Peek(c *Conn, n int) bool { return canRead(c) && n >= 0 && n <= 2048 }
func Mod_Conn_Peek(c *Conn, n int)      {}
func Old_Conn_Peek(c *Conn, n int) string {
	return vf.Stream(c.rdr)
}
func Post_Conn_Peek(c *Conn, n int, old string, b []byte, err error) {
	vf.Ensure("as many bytes as asked for, or an error", (err == nil) == (n <= len(old)))
	vf.Ensure("nothing is read", vf.Stream(c.rdr) == old)
	if err != nil {
		return
	}
	vf.Ensure("the next bytes", string(b) == old[:n])
}
func Gen_Conn_Peek(g *vf.Gen) (*Conn, int) { return genConn(g, genStream(g)), g.N(12) }

func Pre_Conn_ReadUint16(c *Conn) bool { return canRead(c) }
func Mod_Conn_ReadUint16(c *Conn)      { vf.ModStream(c.rdr) }
func Old_Conn_ReadUint16(c *Conn) string {
	return vf.Stream(c.rdr)
}
func Post_Conn_ReadUint16(c *Conn, old string, v uint16, err error) {
	vf.Ensure("two bytes or an error", (err == nil) == (len(old) >= 2))
	if err != nil {
		return
	}
	vf.Ensure("the next two bytes, the higher one first", int(v) == int(old[0])*256+int(old[1]))
	vf.Ensure("nothing else is read", vf.Stream(c.rdr) == old[2:])
}
func Gen_Conn_ReadUint16(g *vf.Gen) *Conn { return genConn(g, genBytes(g)) }

func Pre_Conn_Discard(c *Conn, n int) bool { return c.rdr != nil && n >= 0 }
func Mod_Conn_Discard(c *Conn, n int)      { vf.ModStream(c.rdr) }
func Old_Conn_Discard(c *Conn, n int) string {
	return vf.Stream(c.rdr)
}
func Post_Conn_Discard(c *Conn, n int, old string, k int, err error) {
	vf.Ensure("as many bytes as asked for, or an error", (err == nil) == (n <= len(old)))
	if err != nil {
		return
	}
	vf.Ensure("exactly these are skipped", k == n && vf.Stream(c.rdr) == old[n:])
}
func Gen_Conn_Discard(g *vf.Gen) (*Conn, int) { return genConn(g, genBytes(g)), g.N(12) }

func Pre_Conn_ReadByte(c *Conn) bool { return canRead(c) }
func Mod_Conn_ReadByte(c *Conn)      { vf.ModStream(c.rdr) }
func Old_Conn_ReadByte(c *Conn) string {
	return vf.Stream(c.rdr)
}
func Post_Conn_ReadByte(c *Conn, old string, b byte, err error) {
	vf.Ensure("a byte or an error", (err == nil) == (len(old) >= 1))
	if err != nil {
		return
	}
	vf.Ensure("the next byte, and nothing else is read", b == old[0] && vf.Stream(c.rdr) == old[1:])
}
func Gen_Conn_ReadByte(g *vf.Gen) *Conn { return genConn(g, genBytes(g)) }

func Pre_Conn_ReadBytes(c *Conn, n int) bool { return canRead(c) && n >= 0 }
func Mod_Conn_ReadBytes(c *Conn, n int)      { vf.ModStream(c.rdr) }
func Old_Conn_ReadBytes(c *Conn, n int) string {
	return vf.Stream(c.rdr)
}
func Post_Conn_ReadBytes(c *Conn, n int, old string, b []byte, err error) {
	vf.Ensure("as many bytes as asked for, or an error", (err == nil) == (n <= len(old)))
	if err != nil {
		return
	}
	vf.Ensure("the next bytes", string(b) == old[:n])
	vf.Ensure("nothing else is read", vf.Stream(c.rdr) == old[n:])
	vf.Ensure("in memory of their own", b == nil || vf.Fresh(b))
	if vf.Concrete() {
		vf.Ensure("in memory of their own", ownBytes(c, b, old, n))
	}
}

// ownBytes: what was read stays the same when more is read.
func ownBytes(c *Conn, b []byte, old string, n int) bool {
	for {
		if _, err := c.rdr.ReadByte(); err != nil {
			return string(b) == old[:n]
		}
	}
}
func Gen_Conn_ReadBytes(g *vf.Gen) (*Conn, int) {
	s := genBytes(g)
	if g.P(25) {
		s = strings.Repeat(s+"0123456789", 700)
	}
	n := g.Int(0, len(s))
	if g.P(10) {
		n = len(s) + g.Int(1, 1<<62)
	}
	return genConn(g, s), n
}

// ---- interleaved packets, RFC 2326 section 10.12

type rcvOld struct {
	in   string
	sent int
}

func Old_Session_receive(s *Session) rcvOld {
	return rcvOld{vf.Stream(s.rdr), vf.Sent(s.Data)}
}

func genBytes(g *vf.Gen) string {
	b := make([]byte, g.N(20))
	for i := range b {
		b[i] = byte(g.Int(0, 255))
	}
	return string(b)
}

func genStream(g *vf.Gen) string {
	switch g.N(4) {
	case 0:
		return genBytes(g)
	case 1:
		return genBytes(g) + "\n" + genBytes(g)
	}
	return genResponse(g) + genBytes(g)
}

// ---- responses, RFC 2326 section 7

// status is the line that begins a response, behind its version.
func statusOf(s string) string {
	line := lineOf(s)
	return strings.TrimSpace(line[strings.IndexByte(line, ' ')+1:])
}

func genResponse(g *vf.Gen) string {
	e := g.Pick("\r\n", "\r\n", "\r\n", "\n")
	s := g.Pick("RTSP/1.0 ", "RTSP/1.0 ", "RTSP/1.0 ", "RTSP/1.0 ", "RTSP/1.0 ", "HTTP/1.0 ", "RTSP/2.0 ", "RTSP/1.0", "")
	s += g.Pick("200 OK", "200 OK", "200 OK", "401 Unauthorized", "404 Not Found", "404", " 200 OK ", "2000 x", "2x0 x", "-12 x", "", "20 O") + e
	body := g.Pick("", "", "", "v=0\r\nm=video 0 RTP/AVP 96\r\na=control:track1\r\n", g.Word(30))
	for i := g.N(7); i > 0; i-- {
		s += genName(g) + g.Pick(":", ": ", ": ", " : ", "")
		s += genText(g) + e
	}
	if g.P(50) {
		s += g.Pick("CSeq: ", "cseq:") + g.Pick("1", "2", "3", "4", "0", "x") + e
	}
	if body != "" && g.P(80) {
		n := len(body)
		if g.P(10) {
			n += g.N(5) - 2
		}
		s += "Content-Length: " + itoa(n) + e
	}
	if g.P(92) {
		s += g.Pick("", "", "", " ") + e
	}
	return s + body
}

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	return itoa(n/10) + string([]byte{byte('0' + n%10)})
}

// headersOK: header lines, each with a colon, up to an empty one.
func headersOK(s string) bool {
	if !hasLine(s) {
		return false
	}
	l := strings.TrimSpace(lineOf(s))
	if l == "" {
		return true
	}
	return len(strings.SplitN(l, ":", 2)) == 2 && headersOK(behind(s))
}

// bodyOf is what follows the headers.
func bodyOf(s string) string {
	if !hasLine(s) || strings.TrimSpace(lineOf(s)) == "" {
		return behind(s)
	}
	return bodyOf(behind(s))
}

func nameIn(s string) string {
	return canon(strings.TrimSpace(strings.SplitN(strings.TrimSpace(lineOf(s)), ":", 2)[0]))
}

func valueIn(s string) string {
	return strings.TrimSpace(strings.SplitN(strings.TrimSpace(lineOf(s)), ":", 2)[1])
}

// hasHeader: there is a header of the (canonical) name, or was before.
func hasHeader(s, name string, before bool) bool {
	if !hasLine(s) || strings.TrimSpace(lineOf(s)) == "" {
		return before
	}
	return hasHeader(behind(s), name, before || nameIn(s) == name)
}

// headerIn is the value of the last header of the name.
func headerIn(s, name, before string) string {
	if !hasLine(s) || strings.TrimSpace(lineOf(s)) == "" {
		return before
	}
	if nameIn(s) == name {
		return headerIn(behind(s), name, valueIn(s))
	}
	return headerIn(behind(s), name, before)
}

// codeOf is the status code as text.
func codeOf(status string) string {
	if i := strings.IndexByte(status, ' '); i >= 0 {
		return status[:i]
	}
	return status
}

func isCode(s string) bool {
	n, err := strconv.Atoi(s)
	return len(s) == 3 && err == nil && n >= 0
}

// begins: the first line is a status line of the protocol.
func begins(s, proto string) bool {
	if !hasLine(s) {
		return false
	}
	l := lineOf(s)
	i := strings.IndexByte(l, ' ')
	return i >= 0 && l[:i] == proto && isCode(codeOf(strings.TrimSpace(l[i+1:])))
}

// value is the value of a header, empty when there is none.
func value(h MessageHeader, name string) string {
	if v, ok := h[canon(name)]; ok {
		return v
	}
	return ""
}

// lengthIn is the length announced, 0 when there is none that can be read.
func lengthIn(h MessageHeader) int64 {
	n, err := strconv.ParseInt(value(h, HeaderContentLength), 10, 64)
	if err != nil {
		return 0
	}
	return n
}

func Pre_Unpack(rdr *Conn) bool { return canRead(rdr) }
func Mod_Unpack(rdr *Conn)      { vf.ModStream(rdr.rdr) }
func Old_Unpack(rdr *Conn) string {
	return vf.Stream(rdr.rdr)
}

func Inv_Unpack_1(rdr *Conn, r *Response, old string) {
	h, in := behind(old), vf.Stream(rdr.rdr)
	vf.Inv("began", begins(old, "RTSP/1.0") && r != nil && r.Header != nil)
	vf.Inv("well formed", headersOK(h) == headersOK(in))
	vf.Inv("body", bodyOf(h) == bodyOf(in))
	vf.Inv("has", vf.AllStr(func(k string) bool {
		_, ok := r.Header[k]
		return hasHeader(h, k, false) == hasHeader(in, k, ok)
	}))
	vf.Inv("values", vf.AllStr(func(k string) bool {
		return headerIn(h, k, "") == headerIn(in, k, plain(r.Header, k))
	}))
	vf.Dec(len(in))
}

// plain is the value under a canonical name.
func plain(h MessageHeader, k string) string {
	if v, ok := h[k]; ok {
		return v
	}
	return ""
}

func Post_Unpack(rdr *Conn, old string, r *Response, err error) {
	vf.Ensure("nothing but a response is accepted", vf.Imp(err == nil, begins(old, "RTSP/1.0") && headersOK(behind(old))))
	vf.Ensure("every response is", vf.Imp(begins(old, "RTSP/1.0") && headersOK(behind(old)), r != nil))
	vf.Ensure("a response or an error", vf.Imp(err == nil, r != nil && vf.Fresh(r)))
	if r == nil {
		return
	}
	rest := bodyOf(behind(old))
	vf.Ensure("version", r.Proto == "RTSP/1.0")
	vf.Ensure("status", r.Status == statusOf(old))
	n, _ := strconv.Atoi(codeOf(statusOf(old)))
	vf.Ensure("status code", r.StatusCode == n)
	vf.Ensure("headers present", vf.AllStr(func(k string) bool {
		_, ok := r.Header[k]
		return ok == hasHeader(behind(old), k, false)
	}))
	vf.Ensure("header values", vf.AllStr(func(k string) bool {
		return plain(r.Header, k) == headerIn(behind(old), k, "")
	}))
	if vf.Concrete() {
		vf.Ensure("header values", sameHeaders(r.Header, behind(old)))
	}
	vf.Ensure("own headers", r.Header != nil && vf.Fresh(r.Header))
	seq, _ := strconv.Atoi(value(r.Header, HeaderCSeq))
	vf.Ensure("sequence number", r.Cseq == seq)
	vf.Ensure("length", r.ContentLength == lengthIn(r.Header))
	vf.Ensure("an error exactly when the body is not complete", (err == nil) == (r.ContentLength <= int64(len(rest))))
	if err != nil {
		return
	}
	if r.ContentLength <= 0 {
		vf.Ensure("no body", len(r.Body) == 0 && r.Body == nil)
		vf.Ensure("nothing beyond the response is read", vf.Stream(rdr.rdr) == rest)
		return
	}
	vf.Ensure("body", string(r.Body) == rest[:int(r.ContentLength)])
	vf.Ensure("body in memory of its own", r.Body == nil || vf.Fresh(r.Body))
	vf.Ensure("nothing beyond the response is read", vf.Stream(rdr.rdr) == rest[int(r.ContentLength):])
}

// sameHeaders: the headers are the ones of the text.
func sameHeaders(h MessageHeader, s string) bool {
	for k, v := range h {
		if !hasHeader(s, k, false) || headerIn(s, k, "") != v {
			return false
		}
	}
	for ; hasLine(s) && strings.TrimSpace(lineOf(s)) != ""; s = behind(s) {
		if _, ok := h[nameIn(s)]; !ok {
			return false
		}
	}
	return true
}

func Gen_Unpack(g *vf.Gen) *Conn { return genConn(g, genStream(g)) }

// ---- RTSP over HTTP: the response to GET

func Pre_ReceiveHTTP(rdr *Conn) bool { return canRead(rdr) }
func Mod_ReceiveHTTP(rdr *Conn)      { vf.ModStream(rdr.rdr) }
func Old_ReceiveHTTP(rdr *Conn) string {
	return vf.Stream(rdr.rdr)
}

func Inv_ReceiveHTTP_1(rdr *Conn, old string) {
	h, in := behind(old), vf.Stream(rdr.rdr)
	vf.Inv("began", begins(old, "HTTP/1.0"))
	vf.Inv("well formed", headersOK(h) == headersOK(in))
	vf.Inv("body", bodyOf(h) == bodyOf(in))
	vf.Dec(len(in))
}

func Post_ReceiveHTTP(rdr *Conn, old string, err error) {
	vf.Ensure("accepts exactly the responses of HTTP 1.0", (err == nil) == (begins(old, "HTTP/1.0") && headersOK(behind(old))))
	if err != nil {
		return
	}
	vf.Ensure("leaves everything behind the headers to be read", vf.Stream(rdr.rdr) == bodyOf(behind(old)))
}

func Gen_ReceiveHTTP(g *vf.Gen) *Conn {
	s := genStream(g)
	if strings.HasPrefix(s, "RTSP/1.0") && g.P(80) {
		s = "HTTP" + s[4:]
	}
	return genConn(g, s)
}

// ---- writing: what is written goes out, over HTTP in base 64 behind a request that opens the way

// encoded is the encoding of the bytes, of whole groups of three first.
//
//vf:folded
func encoded(s string) string {
	k := len(s) / 3 * 3
	return base64.StdEncoding.EncodeToString([]byte(s[:k])) + base64.StdEncoding.EncodeToString([]byte(s[k:]))
}

// goesOut is the connection commands are written to.
func goesOut(c *Conn) *net.TCPConn {
	if c.Proto == ProtoHTTP {
		return c.post
	}
	return c.conn
}

// onWire is how a message is written.
func onWire(c *Conn, connected bool, msg string) string {
	if c.Proto != ProtoHTTP {
		return msg
	}
	if connected {
		return encoded(msg)
	}
	return connectText("POST", c.BaseURI, c.guid) + encoded(msg)
}

type wireOld struct {
	out       string
	connected bool
	other     string
}

func Pre_Conn_Write(c *Conn, p []byte) bool { return goesOut(c) != nil }

func Mod_Conn_Write(c *Conn, p []byte) {
	vf.ModWire(goesOut(c))
	vf.Modifies(&c.connected)
}

func Old_Conn_Write(c *Conn, p []byte) wireOld {
	return wireOld{out: vf.Wire(goesOut(c)), connected: c.connected}
}

func Post_Conn_Write(c *Conn, p []byte, old wireOld, n int, err error) {
	vf.Ensure("the way is opened once and stays open", vf.Imp(old.connected || c.Proto != ProtoHTTP, c.connected == old.connected))
	if err != nil {
		return
	}
	vf.Ensure("everything is written", n == len(p))
	vf.Ensure("and nothing else", vf.Wire(goesOut(c)) == old.out+onWire(c, old.connected, string(p)))
	vf.Ensure("the way is open", vf.Imp(c.Proto == ProtoHTTP, c.connected))
	if vf.Concrete() && c.Proto == ProtoHTTP {
		vf.Ensure("as one encoding", strings.HasSuffix(vf.Wire(c.post), base64.StdEncoding.EncodeToString(p)))
	}
}

// withWire gives a session or connection something to write to.
func withWire(g *vf.Gen, c *Conn) *Conn {
	c.BaseURI, c.guid = "rtsp://"+g.Word(4), "cookie"
	w := g.Wire()
	if g.P(10) {
		w = g.ClosedWire()
	}
	if g.P(30) {
		c.Proto, c.post, c.connected = ProtoHTTP, w, g.P(50)
	} else {
		c.Proto, c.conn = g.N(3), w
	}
	return c
}

func Gen_Conn_Write(g *vf.Gen) (*Conn, []byte) { return withWire(g, genConn(g, "")), g.Bytes(20) }
