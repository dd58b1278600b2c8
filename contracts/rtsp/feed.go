package rtsp

import (
	"strings"

	"github.com/aboukirev/ouro/internal/vf"
	"github.com/aboukirev/ouro/net/h264"
	"github.com/aboukirev/ouro/net/sdp"
)

// ---- feeds: one for every video stream of a session description

// offers: the transport is the one offered for a protocol and a first channel or port.
func offers(t *Transport, proto int, port int) bool {
	tcp := proto == ProtoTCP || proto == ProtoHTTP
	return t.IsTCP == tcp && t.IsInterleaved == tcp && t.IsMulticast == (proto == ProtoMulticast) &&
		t.Interleave == pairIf(tcp, port) &&
		t.ClientPort == pairIf(proto == ProtoUnicast, firstUDPPort+port) &&
		t.Port == pairIf(proto == ProtoMulticast, firstUDPPort+port)
}

func isFeed(f *Feed, proto int, m sdp.Media, k int) bool {
	return f != nil && f.transp != nil && offers(f.transp, proto, 2*k) && h264.SetsOK(f.Sets) && !f.IsSet && f.cseq == 0 && sdp.SameMedia(f.Media, m)
}

func After_ParseFeeds_sdp_Parse(buf []byte, ms []sdp.Media) { vf.Record("streams", ms) }

// streams are what the description was parsed to.
func streams(buf []byte) []sdp.Media {
	if vf.Concrete() {
		return sdp.Parse(buf)
	}
	return vf.Recorded("streams", []sdp.Media(nil)).([]sdp.Media)
}

func Inv_ParseFeeds_1(proto int, buf []byte, feeds []*Feed, it int) {
	ms := vf.Recorded("streams", []sdp.Media(nil)).([]sdp.Media)
	vf.Inv("range", 0 <= it && it <= len(ms) && len(feeds) == it && len(ms) == sdp.Streams(buf))
	vf.Inv("new", feeds == nil || vf.Fresh(feeds))
	vf.Inv("objects", vf.All(0, it, func(k int) bool { return feeds[k] != nil && feeds[k].transp != nil && feeds[k].Sets != nil }))
	vf.Inv("transports", vf.All(0, it, func(k int) bool { return offers(feeds[k].transp, proto, 2*k) }))
	vf.Inv("sets", vf.All(0, it, func(k int) bool { return h264.SetsOK(feeds[k].Sets) }))
	vf.Inv("not set up", vf.All(0, it, func(k int) bool { return !feeds[k].IsSet && feeds[k].cseq == 0 }))
	vf.Inv("streams", vf.All(0, it, func(k int) bool { return sdp.SameMedia(feeds[k].Media, ms[k]) }))
	vf.Dec(len(ms) - it)
}

//vf:wfrefs
func Post_ParseFeeds(proto int, buf []byte, feeds []*Feed, err error) {
	vf.Ensure("never fails", err == nil)
	vf.Ensure("one for every video stream", len(feeds) == sdp.Streams(buf))
	ms := streams(buf)
	vf.Ensure("each with its stream, a transport of its own, and no parameter sets yet", vf.All(0, len(feeds), func(k int) bool { return isFeed(feeds[k], proto, ms[k], k) }))
	if vf.Concrete() {
		vf.Ensure("no two share anything", vf.All(0, len(feeds), func(k int) bool {
			return vf.All(0, k, func(j int) bool {
				return feeds[j] != feeds[k] && feeds[j].transp != feeds[k].transp && feeds[j].Sets != feeds[k].Sets
			})
		}))
	}
}

func Gen_ParseFeeds(g *vf.Gen) (int, []byte) { return g.N(5), []byte(genSDP(g)) }

func genSDP(g *vf.Gen) string {
	s := "v=0\n"
	for i := g.N(4); i > 0; i-- {
		s += g.Pick("m=video 0 RTP/AVP 96\n", "m=audio 0 RTP/AVP 0\n", "m=video 0 RTP/AVP 97\n")
		for j := g.N(4); j > 0; j-- {
			s += g.Pick("a=control:trackID=1\n", "a=control:rtsp://h/a\n", "a=rtpmap:96 H264/90000\n", "a=fmtp:96 sprop-parameter-sets=Z2QAKKzoBQBbkA==,aO48sA==\n", "a=tool:x\n")
		}
	}
	return s
}

func Post_Feed_TransportHeader(f *Feed, s string) {
	Post_Transport_String(*f.transp, s)
}

func Pre_Feed_TransportHeader(f *Feed) bool { return f.transp != nil }

func genFeed(g *vf.Gen, k int) *Feed {
	f := &Feed{transp: NewTransport(g.N(4), 2*k), Sets: h264.NewParameterSets()}
	f.Control = g.Pick("trackID=1", "rtsp://h/a/2", "track", "", "rtsp:/x", "http://h/rtsp://")
	for i := g.N(3); i > 0; i-- {
		f.SpropParameterSets = append(f.SpropParameterSets, []byte(g.Pick("gd\x00\x28", "h\xee\x3c\xb0", "", "a", "\x67\x42\x00\x0a\xf8\x41\xa2", "\x68\xce\x38\x80")))
	}
	return f
}

func Gen_Feed_TransportHeader(g *vf.Gen) *Feed { return genFeed(g, g.N(3)) }

// ---- what the response to SETUP makes of a feed

type feedOld struct {
	transp Transport
	isSet  bool
	sets   *h264.ParameterSets
	fails  bool
}

func Pre_Feed_TransportSetup(f *Feed, value string) bool {
	return f.transp != nil && h264.SetsOK(f.Sets)
}

func Old_Feed_TransportSetup(f *Feed, value string) feedOld {
	o := feedOld{transp: *f.transp, isSet: f.IsSet}
	if vf.Concrete() {
		// what the parameter sets of the description make of an empty store
		o.sets = h264.NewParameterSets()
		for _, b := range f.SpropParameterSets {
			if o.sets.ParseSprop(b) != nil {
				o.fails = true
				break
			}
		}
	}
	return o
}

func After_Feed_TransportSetup_Transport_Parse(t *Transport, value string, err error) {
	vf.Record("value", value)
	vf.Record("transport", t)
	vf.Record("fine", err == nil)
}

func Mod_Feed_TransportSetup(f *Feed, value string) {
	vf.Modifies(f.transp)
	vf.Modifies(&f.IsSet)
	h264.ModSets(f.Sets)
}

func Inv_Feed_TransportSetup_1(f *Feed, it int, old feedOld) {
	vf.Inv("range", 0 <= it && it <= len(f.SpropParameterSets))
	vf.Inv("valid", h264.SetsOK(f.Sets))
	vf.Inv("not yet", f.IsSet == old.isSet)
	vf.Dec(len(f.SpropParameterSets) - it)
}

//vf:wfrefs
func Post_Feed_TransportSetup(f *Feed, value string, old feedOld, err error) {
	vf.Ensure("set up exactly when nothing fails", f.IsSet == (old.isSet || err == nil))
	if !vf.Concrete() {
		vf.Ensure("the transport is parsed", vf.Recorded("value", "").(string) == value && vf.Recorded("transport", (*Transport)(nil)).(*Transport) == f.transp)
		vf.Ensure("a malformed transport fails", vf.Imp(err == nil, vf.Recorded("fine", false).(bool)))
	}
	vf.Ensure("valid sets", h264.SetsOK(f.Sets))
	if vf.Concrete() {
		fs := strings.Split(value, ";")
		vf.Ensure("a malformed transport or parameter set fails", (err == nil) == (tAll(fs, len(fs)) && !old.fails))
		if err == nil {
			Post_Transport_Parse(f.transp, value, old.transp, nil)
			vf.Ensure("parameter sets of the description", h264.SameSets(f.Sets, old.sets))
		}
	}
}

func Gen_Feed_TransportSetup(g *vf.Gen) (*Feed, string) {
	t, s := Gen_Transport_Parse(g)
	f := genFeed(g, g.N(3))
	f.transp = t
	return f, s
}
