package rtsp

import (
	"bytes"
	"encoding/base64"
	"net/url"
	"strconv"
	"strings"
	"time"

	"github.com/aboukirev/ouro/internal/vf"
)

// ---- requests on the wire, RFC 2326 section 6

// headerLines are the first n headers in the order they are met.
func headerLines(h MessageHeader, n int) string {
	if n <= 0 {
		return ""
	}
	k := vf.KeyStr(h, n-1)
	return headerLines(h, n-1) + k + ": " + h[k] + "\r\n"
}

func requestHead(r *Request) string { return headText(r.Verb, r.URI, r.Cseq) }

func requestTail(r *Request) string { return tailText(r.Verb, r.Session, r.Auth) }

//vf:folded
func headText(verb, uri string, cseq int) string {
	return verb + " " + uri + " RTSP/1.0\r\nCSeq: " + strconv.Itoa(cseq) + "\r\n"
}

//vf:folded
func tailText(verb, session, auth string) string {
	s := ""
	if session != "" && verb != "OPTIONS" && verb != "SETUP" {
		s += "Session: " + session + "\r\n"
	}
	if auth != "" {
		s += "Authorization: " + auth + "\r\n"
	}
	return s + "User-Agent: " + Agent + "\r\nContent-Length: 0\r\n\r\n"
}

func noHeader(h MessageHeader) bool {
	if vf.Concrete() {
		return len(h) == 0
	}
	return vf.AllStr(func(k string) bool {
		_, ok := h[k]
		return !ok
	})
}

// oneHeader: it is the only one.
func oneHeader(h MessageHeader, name, val string) bool {
	if vf.Concrete() {
		return len(h) == 1 && h[name] == val
	}
	return vf.AllStr(func(k string) bool {
		v, ok := h[k]
		return ok == (k == name) && vf.Imp(ok, v == val)
	})
}

// packed is the text of a request.
func packed(r *Request) string {
	return headText(r.Verb, r.URI, r.Cseq) + headerLines(r.Header, len(r.Header)) + tailText(r.Verb, r.Session, r.Auth)
}

// packs: the text is the request, its headers in any order.
func packs(r *Request, s string) bool {
	if !vf.Concrete() {
		return s == packed(r)
	}
	h, t := requestHead(r), requestTail(r)
	return strings.HasPrefix(s, h) && strings.HasSuffix(s, t) && len(s) >= len(h)+len(t) && listsAll(r.Header, s[len(h):len(s)-len(t)])
}

// listsAll: the text has a line for each header and nothing else.
func listsAll(h MessageHeader, s string) bool {
	left := map[string]string{}
	for k, v := range h {
		left[k] = v
	}
	for s != "" {
		hit := ""
		for k, v := range left {
			if l := k + ": " + v + "\r\n"; strings.HasPrefix(s, l) && len(l) > len(hit) {
				hit = l
			}
		}
		if hit == "" {
			return false
		}
		for k, v := range left {
			if k+": "+v+"\r\n" == hit {
				delete(left, k)
				break
			}
		}
		s = s[len(hit):]
	}
	return len(left) == 0
}

func Inv_Request_Pack_1(r *Request, buf *bytes.Buffer, it int) {
	vf.Inv("range", 0 <= it && it <= len(r.Header))
	vf.Inv("text", buf.String() == requestHead(r)+headerLines(r.Header, it))
	vf.Dec(len(r.Header) - it)
}

func Post_Request_Pack(r *Request, b []byte) {
	vf.Ensure("request line, sequence number, headers, session, authorization, agent, no content", packs(r, string(b)))
	vf.Ensure("in memory of its own", vf.Fresh(b))
}

func genRequest(g *vf.Gen) *Request {
	return &Request{Verb: g.Pick("OPTIONS", "DESCRIBE", "SETUP", "PLAY", "PAUSE", "TEARDOWN", "GET_PARAMETER"), Cseq: g.N(5), URI: "rtsp://" + g.Word(4),
		Auth: g.Pick("", "", "Basic YTpi", "Digest x"), Session: g.Pick("", "", "1234", "ab"), Header: genHeader(g)}
}

func Gen_Request_Pack(g *vf.Gen) *Request { return genRequest(g) }

// ---- responses, as they are logged

func Inv_Response_Pack_1(r Response, buf *bytes.Buffer, it int) {
	vf.Inv("range", 0 <= it && it <= len(r.Header))
	vf.Inv("text", buf.String() == "RTSP/1.0 "+r.Status+"\r\n"+headerLines(r.Header, it))
	vf.Dec(len(r.Header) - it)
}

func responseTail(r Response) string {
	if r.ContentLength > 0 {
		return "\r\n" + string(r.Body) + "\r\n"
	}
	return "\r\n"
}

func Post_Response_Pack(r Response, b []byte) {
	s, h, t := string(b), "RTSP/1.0 "+r.Status+"\r\n", responseTail(r)
	if vf.Concrete() {
		vf.Ensure("status, headers, body", strings.HasPrefix(s, h) && strings.HasSuffix(s, t) && len(s) >= len(h)+len(t) && listsAll(r.Header, s[len(h):len(s)-len(t)]))
	} else {
		vf.Ensure("status, headers, body", s == h+headerLines(r.Header, len(r.Header))+t)
	}
}

func Gen_Response_Pack(g *vf.Gen) Response {
	return Response{Status: g.Pick("200 OK", "401 x", ""), Header: genHeader(g), ContentLength: int64(g.N(3)), Body: []byte(g.Word(3))}
}

// ---- RTSP over HTTP: the requests that open the two connections

//vf:folded
func connectText(verb, uri, cookie string) string {
	s := verb + " " + uri + " HTTP/1.0\r\n" +
		"X-SessionCookie: " + cookie + "\r\n" +
		"Accept: application/x-rtsp-tunnelled\r\n" +
		"Pragma: no-cache\r\n" +
		"Cache-Control: no-store\r\n"
	if verb == "POST" {
		s += "Content-Length: 32767\r\n"
	}
	return s + "User-Agent: " + Agent + "\r\n\r\n"
}

func Post_ConnectHTTP(verb, uri, cookie string, b []byte) {
	vf.Ensure("request line, cookie, and no caching", string(b) == connectText(verb, uri, cookie))
}

func Gen_ConnectHTTP(g *vf.Gen) (string, string, string) {
	return g.Pick("GET", "POST", g.Word(3)), "rtsp://" + g.Word(4), g.Word(6)
}

// ---- the queue of requests waiting for their responses

func Pre_Session_enqueue(s *Session, req *Request) bool {
	return s.queue != nil && 0 <= s.cseq && s.cseq < 1<<62
}

type queueOld struct {
	queue Queue
	cseq  int
	req   int
}

func Old_Session_enqueue(s *Session, req *Request) queueOld {
	return queueOld{vf.SnapOf(s.queue).(Queue), s.cseq, req.Cseq}
}

func Mod_Session_enqueue(s *Session, req *Request) {
	vf.Modifies(&s.cseq)
	vf.Modifies(&req.Cseq)
	vf.Modifies(&req.Session)
	vf.ModMap(s.queue)
}

func Post_Session_enqueue(s *Session, req *Request, old queueOld) {
	if old.req == 0 {
		vf.Ensure("a new request gets the next number", s.cseq == old.cseq+1 && req.Cseq == s.cseq)
	} else {
		vf.Ensure("a repeated one keeps its number", s.cseq == old.cseq && req.Cseq == old.req)
	}
	vf.Ensure("it belongs to the session", req.Session == s.session)
	q, ok := s.queue[req.Cseq]
	vf.Ensure("waits for its response", ok && q == req)
	vf.Ensure("the others still wait", vf.MapSameBut(s.queue, old.queue, req.Cseq))
}

func genQueue(g *vf.Gen) Queue {
	q := Queue{}
	for i := g.N(5); i > 0; i-- {
		r := genRequest(g)
		r.Cseq = 1 + g.N(6)
		q[r.Cseq] = r
	}
	return q
}

func genSession(g *vf.Gen, in string) *Session {
	s := NewSession()
	s.Conn = genConn(g, in)
	s.State = make(chan int, 20)
	s.queue = genQueue(g)
	s.cseq = 6 + g.N(3)
	s.session = g.Pick("", "1234", "5678")
	s.stage = g.N(5)
	return s
}

func Gen_Session_enqueue(g *vf.Gen) (*Session, *Request) { return genSession(g, ""), genRequest(g) }

func Mod_Session_dequeue(s *Session, seq int) { vf.ModMap(s.queue) }

func Old_Session_dequeue(s *Session, seq int) Queue { return vf.SnapOf(s.queue).(Queue) }

func Post_Session_dequeue(s *Session, seq int, old Queue, req *Request, ok bool) {
	q, was := old[seq]
	vf.Ensure("finds the request of the number", ok == was && vf.Imp(ok, req == q))
	_, still := s.queue[seq]
	vf.Ensure("it waits no longer", !still)
	vf.Ensure("the others still wait", vf.MapSameBut(s.queue, old, seq))
}

func Gen_Session_dequeue(g *vf.Gen) (*Session, int) { return genSession(g, ""), g.N(8) }

// ---- commands: each has a number of its own, waits in the queue, and goes out once

// sized: sequence numbers do not run out.
func sized(s *Session) bool { return s.queue != nil && 0 <= s.cseq && s.cseq < 1<<60 }

func canonical(headers Headers) bool {
	return vf.AllStr(func(k string) bool {
		_, ok := headers[k]
		return vf.Imp(ok, canon(k) == k)
	})
}

type cmdOld struct {
	first     bool
	out       string
	connected bool
	cseq      int
	queue     Queue
}

func cmdSnap(s *Session) cmdOld {
	o := cmdOld{cseq: s.cseq, queue: vf.SnapOf(s.queue).(Queue)}
	if s.Conn != nil {
		o.out, o.connected = vf.Wire(goesOut(s.Conn)), s.connected
	}
	return o
}

// hasHeaders: the headers of a request are the ones given.
func hasHeaders(h MessageHeader, headers Headers) bool {
	if vf.Concrete() {
		for k := range headers {
			if v, ok := h[k]; !ok || v != headers[k] {
				return false
			}
		}
		return len(h) == len(headers)
	}
	return vf.AllStr(func(k string) bool {
		v, ok := h[k]
		w, is := headers[k]
		return ok == is && vf.Imp(is, v == w)
	})
}

// wentOut: nothing but the request was written.
func wentOut(s *Session, r *Request, o cmdOld) bool {
	w := vf.Wire(goesOut(s.Conn))
	if !vf.Concrete() {
		return w == o.out+onWire(s.Conn, o.connected, packed(r))
	}
	if s.Proto != ProtoHTTP {
		return strings.HasPrefix(w, o.out) && packs(r, w[len(o.out):])
	}
	pre := o.out
	if !o.connected {
		pre += connectText("POST", s.BaseURI, s.guid)
	}
	if !strings.HasPrefix(w, pre) {
		return false
	}
	b, err := base64.StdEncoding.DecodeString(w[len(pre):])
	return err == nil && packs(r, string(b))
}

//vf:opaque headText tailText connectText encoded
func Pre_Session_command(s *Session, verb, uri string, headers Headers) bool {
	return able(s) && canonical(headers)
}

func Old_Session_command(s *Session, verb, uri string, headers Headers) cmdOld { return cmdSnap(s) }

func Mod_Session_command(s *Session, verb, uri string, headers Headers) { modCommand(s) }

func Inv_Session_command_1(s *Session, headers Headers, req *Request, it int) {
	vf.Inv("range", 0 <= it && it <= len(headers))
	vf.Inv("headers so far", vf.AllStr(func(k string) bool {
		v, ok := req.Header[k]
		w, is := headers[k]
		return ok == (is && vf.KeyIdx(headers, k) < it) && vf.Imp(ok, v == w)
	}))
	vf.Dec(len(headers) - it)
}

// commanded: the command got the next number, waits in the queue, and was written unless there is an error.
func commanded(s *Session, verb, uri string, old cmdOld, err error) {
	if s.Conn == nil {
		vf.Ensure("a connection is needed", err != nil)
		vf.Ensure("nothing happens without", s.cseq == old.cseq && vf.MapSame(s.queue, old.queue))
		return
	}
	vf.Ensure("gets the next number", s.cseq == old.cseq+1)
	r, ok := s.queue[s.cseq]
	vf.Ensure("waits for its response", ok && r != nil && vf.Fresh(r) && r.Cseq == s.cseq)
	vf.Ensure("the others still wait", vf.MapSameBut(s.queue, old.queue, s.cseq))
	vf.Ensure("verb, resource and session", r.Verb == verb && r.URI == uri && r.Session == s.session && !r.retried)
	if s.auth != nil {
		vf.Ensure("credentials", r.Auth == s.auth(verb, nil))
	} else {
		vf.Ensure("no credentials", r.Auth == "")
	}
	vf.Ensure("is written, and nothing else", vf.Imp(err == nil, wentOut(s, r, old)))
	vf.Ensure("the way is opened once and stays open", vf.Imp(old.connected || s.Proto != ProtoHTTP, s.connected == old.connected))
}

func Post_Session_command(s *Session, verb, uri string, headers Headers, old cmdOld, err error) {
	commanded(s, verb, uri, old, err)
	if s.Conn != nil {
		vf.Ensure("headers", hasHeaders(s.queue[s.cseq].Header, headers))
	}
}

// genClient is a session with a connection, most of the time.
func genClient(g *vf.Gen, in string) *Session {
	s := genSession(g, in)
	withWire(g, s.Conn)
	s.URL, _ = url.Parse(g.Pick("rtsp://h/", "rtsp://u:p@h/x", "rtsp://u@h/"))
	if g.P(50) {
		a := g.Pick("Basic YTpi", "Digest x")
		s.auth = func(verb string, body []byte) string { return a + verb }
	}
	return s
}

func Gen_Session_command(g *vf.Gen) (*Session, string, string, Headers) {
	s := genClient(g, "")
	if g.P(5) {
		s.Conn = nil
	}
	var h Headers
	if g.P(70) {
		h = Headers{}
		for i := g.N(3); i > 0; i-- {
			h[g.Pick("Accept", "Session", "Transport", "Range")] = g.Word(4)
		}
	}
	return s, g.Pick("OPTIONS", "PLAY", "SETUP"), "rtsp://" + g.Word(3), h
}

// able: commands can be sent.
func able(s *Session) bool {
	return sized(s) && vf.Imp(s.Conn != nil, s.Conn == nil || goesOut(s.Conn) != nil)
}

func modCommand(s *Session) {
	vf.Modifies(&s.cseq)
	vf.ModMap(s.queue)
	if s.Conn != nil {
		vf.ModWire(goesOut(s.Conn))
		vf.Modifies(&s.connected)
	}
}

func linked(s *Session) bool { return able(s) && s.Conn != nil }

//vf:opaque headText tailText connectText encoded
func Pre_Session_Options(s *Session) bool   { return linked(s) }
func Old_Session_Options(s *Session) cmdOld { return cmdSnap(s) }
func Mod_Session_Options(s *Session)        { modCommand(s) }
func Post_Session_Options(s *Session, old cmdOld, err error) {
	commanded(s, "OPTIONS", s.BaseURI, old, err)
	vf.Ensure("no more headers", noHeader(s.queue[s.cseq].Header))
}
func Gen_Session_Options(g *vf.Gen) *Session { return genClient(g, "") }

//vf:opaque headText tailText connectText encoded
func Pre_Session_Describe(s *Session) bool   { return linked(s) }
func Old_Session_Describe(s *Session) cmdOld { return cmdSnap(s) }
func Mod_Session_Describe(s *Session)        { modCommand(s) }
func Before_Session_Describe_Session_command(s *Session, verb, uri string, headers Headers) {
	vf.Assert("canonical", canon("Accept") == "Accept")
}
func Post_Session_Describe(s *Session, old cmdOld, err error) {
	commanded(s, "DESCRIBE", s.BaseURI, old, err)
	vf.Ensure("header", oneHeader(s.queue[s.cseq].Header, "Accept", "application/sdp"))
}
func Gen_Session_Describe(g *vf.Gen) *Session { return genClient(g, "") }

//vf:opaque headText tailText connectText encoded
func Pre_Session_Play(s *Session) bool   { return linked(s) }
func Old_Session_Play(s *Session) cmdOld { return cmdSnap(s) }
func Mod_Session_Play(s *Session)        { modCommand(s) }
func Post_Session_Play(s *Session, old cmdOld, err error) {
	commanded(s, "PLAY", s.BaseURI, old, err)
	vf.Ensure("no more headers", noHeader(s.queue[s.cseq].Header))
}
func Gen_Session_Play(g *vf.Gen) *Session { return genClient(g, "") }

//vf:opaque headText tailText connectText encoded
func Pre_Session_Pause(s *Session) bool   { return linked(s) }
func Old_Session_Pause(s *Session) cmdOld { return cmdSnap(s) }
func Mod_Session_Pause(s *Session)        { modCommand(s) }
func Post_Session_Pause(s *Session, old cmdOld, err error) {
	commanded(s, "PAUSE", s.BaseURI, old, err)
	vf.Ensure("no more headers", noHeader(s.queue[s.cseq].Header))
}
func Gen_Session_Pause(g *vf.Gen) *Session { return genClient(g, "") }

//vf:opaque headText tailText connectText encoded
func Pre_Session_Teardown(s *Session) bool   { return linked(s) }
func Old_Session_Teardown(s *Session) cmdOld { return cmdSnap(s) }
func Mod_Session_Teardown(s *Session)        { modCommand(s) }
func Post_Session_Teardown(s *Session, old cmdOld, err error) {
	commanded(s, "TEARDOWN", s.BaseURI, old, err)
	vf.Ensure("no more headers", noHeader(s.queue[s.cseq].Header))
}
func Gen_Session_Teardown(g *vf.Gen) *Session { return genClient(g, "") }

// keepsAlive: only a session over UDP that was set up needs it.
func keepsAlive(s *Session) bool {
	return (s.Proto == ProtoUnicast || s.Proto == ProtoMulticast) && (s.stage == StageReady || s.stage == StagePlay || s.stage == StagePause)
}

//vf:opaque headText tailText connectText encoded
func Pre_Session_KeepAlive(s *Session) bool {
	return linked(s) && 0 <= s.Proto && s.Proto <= 3
}
func Old_Session_KeepAlive(s *Session) cmdOld {
	o := cmdSnap(s)
	o.first = s.last.IsZero()
	return o
}
func Mod_Session_KeepAlive(s *Session) {
	modCommand(s)
	vf.Modifies(&s.last)
}
func Before_Session_KeepAlive_Session_command(s *Session, verb, uri string, headers Headers) {
	vf.Assert("canonical", canon("Session") == "Session")
}
func Post_Session_KeepAlive(s *Session, old cmdOld, err error) {
	vf.Ensure("only where it is needed, at first at once", vf.Imp(s.cseq != old.cseq, keepsAlive(s)) && vf.Imp(keepsAlive(s) && old.first, s.cseq != old.cseq))
	if s.cseq != old.cseq {
		commanded(s, "OPTIONS", s.BaseURI, old, err)
		vf.Ensure("header", oneHeader(s.queue[s.cseq].Header, "Session", s.session))
		return
	}
	vf.Ensure("otherwise nothing happens", err == nil && vf.MapSame(s.queue, old.queue) && vf.Wire(goesOut(s.Conn)) == old.out && s.connected == old.connected)
}
func Gen_Session_KeepAlive(g *vf.Gen) *Session {
	s := genClient(g, "")
	if g.P(50) {
		s.last = time.Now().Add(time.Duration(g.N(3)-1) * time.Hour)
	}
	return s
}
