package vf

// Connections: what is still to be read, what was written, what was sent.

import (
	"bufio"
	"io"
	"net"
	"reflect"
	"strings"
)

type source struct {
	*strings.Reader
	text  string
	chunk int
	err   error
}

func (s *source) Read(p []byte) (int, error) {
	if s.Len() == 0 {
		return 0, s.err
	}
	if len(p) > s.chunk {
		p = p[:s.chunk]
	}
	return s.Reader.Read(p)
}

type timeout struct{}

func (timeout) Error() string   { return "timeout" }
func (timeout) Timeout() bool   { return true }
func (timeout) Temporary() bool { return true }

var sources = map[*bufio.Reader]*source{}

// Reader is a buffered connection that delivers s, piece by piece.
func (g *Gen) Reader(s string) *bufio.Reader {
	if len(sources) > 16 {
		sources = map[*bufio.Reader]*source{}
	}
	src := &source{Reader: strings.NewReader(s), text: s, chunk: 1 << 30, err: io.EOF}
	if g.P(50) {
		src.chunk = 1 + g.N(9)
	}
	if g.P(30) {
		src.err = timeout{}
	}
	r := bufio.NewReaderSize(src, 2048)
	sources[r] = src
	return r
}

// Stream is what a buffered connection is still going to deliver.
func Stream(r *bufio.Reader) string {
	src := sources[r]
	if src == nil {
		return ""
	}
	b, _ := r.Peek(r.Buffered())
	return string(b) + src.text[len(src.text)-src.Len():]
}

// ModStream declares that something may be read from a connection.
func ModStream(r *bufio.Reader) {}

// ModWire declares that something may be written to a connection.
func ModWire(c *net.TCPConn) {}

const mark = "\x00\x01\xfe<end of what was written>\xff"

var (
	wireConn *net.TCPConn
	wirePeer *net.TCPConn
	wireSeen bool
	wireText string
)

// Wire makes a connection over the loopback interface.
func (g *Gen) Wire() *net.TCPConn {
	wireSeen, wireText = false, ""
	Called = false
	if wireConn != nil {
		return wireConn
	}
	l, err := net.ListenTCP("tcp", &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		panic(err)
	}
	defer l.Close()
	c, err := net.DialTCP("tcp", nil, l.Addr().(*net.TCPAddr))
	if err != nil {
		panic(err)
	}
	p, err := l.AcceptTCP()
	if err != nil {
		panic(err)
	}
	wireConn, wirePeer = c, p
	return c
}

// ClosedWire makes a connection that is closed.
func (g *Gen) ClosedWire() *net.TCPConn {
	c := wireConn
	if c == nil {
		c = g.Wire()
	}
	wireConn = nil
	c.Close()
	wirePeer.Close()
	return c
}

// Called: the function under contract has begun.
var Called bool

// Wire is what was written to a connection.
func Wire(c *net.TCPConn) string {
	if c == nil || c != wireConn || !Called {
		return ""
	}
	if !wireSeen {
		wireSeen = true
		if _, err := c.Write([]byte(mark)); err != nil {
			wireConn = nil
			return ""
		}
		var b []byte
		var buf [4096]byte
		for !strings.HasSuffix(string(b), mark) {
			n, err := wirePeer.Read(buf[:])
			b = append(b, buf[:n]...)
			if err != nil {
				panic(err)
			}
		}
		wireText = string(b[:len(b)-len(mark)])
	}
	return wireText
}

// Sent is how many values were sent to a channel.
func Sent(ch interface{}) int {
	v := reflect.ValueOf(ch)
	if v.IsNil() {
		return 0
	}
	return v.Len()
}

// SentAt is the i-th of them.
func SentAt(ch interface{}, i int) (x interface{}) {
	v := reflect.ValueOf(ch)
	for j, n := 0, v.Len(); j < n; j++ {
		e, _ := v.Recv()
		if j == i {
			x = e.Interface()
		}
		v.Send(e)
	}
	return
}
