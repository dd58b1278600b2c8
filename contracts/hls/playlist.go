package hls

import (
	"bytes"
	"math"
	"net/url"
	"path"
	"path/filepath"
	"strconv"

	"github.com/aboukirev/ouro/internal/vf"
)

// ---- vocabulary: the window of segments a playlist announces

// plOK: there is room for segments and the window is empty or within the ring.
func plOK(pl *Playlist) bool {
	return len(pl.Segments) >= 1 && winOK(pl.First, pl.Last, len(pl.Segments))
}

func winOK(first, last, n int) bool {
	return first == -1 && last == -1 || 0 <= first && first < n && 0 <= last && last < n
}

// winLen is the number of segments announced.
func winLen(first, last, n int) int {
	if first < 0 {
		return 0
	}
	return winOff(first, last, n) + 1
}

// winOff is the distance of place i of the ring from the oldest segment.
func winOff(first, i, n int) int {
	if i >= first {
		return i - first
	}
	return i - first + n
}

// winAt is the place in the ring of the k-th oldest segment.
func winAt(first, k, n int) int {
	if first+k < n {
		return first + k
	}
	return first + k - n
}

// ---- NewPlaylist

// Pre_NewPlaylist: a ring that fits into memory.
func Pre_NewPlaylist(uri string, name string, nseg int, size float64) bool { return nseg <= 1<<24 }

func Post_NewPlaylist(uri string, name string, nseg int, size float64, pl *Playlist, err error) {
	vf.Ensure("a playlist or an error", (pl == nil) == (err != nil))
	vf.Ensure("needs room for a segment", vf.Imp(err == nil, nseg >= 1))
	vf.Ensure("fresh", vf.Imp(err == nil, vf.Fresh(pl) && vf.Fresh(pl.Segments)))
	vf.Ensure("starts out empty with room for nseg segments", vf.Imp(err == nil, plOK(pl) && len(pl.Segments) == nseg && winLen(pl.First, pl.Last, nseg) == 0))
	vf.Ensure("keeps what it was given", vf.Imp(err == nil, pl.FileName == name && sameF(pl.SegSize, size)))
	_, perr := url.Parse(uri)
	vf.Ensure("refuses what is not an address", vf.Imp(perr != nil, err != nil))
	vf.Ensure("accepts addresses", vf.Imp(perr == nil && nseg >= 1, err == nil))
	vf.Ensure("segments are fetched below the given address", vf.Imp(err == nil, pl.URI == mediaURI(uri, name)))
	vf.Ensure("version has byte ranges", vf.Imp(err == nil, pl.Version >= 4))
}

// mediaURI is the address uri with the file's base name appended to its path.
func mediaURI(uri, name string) string {
	u, err := url.Parse(uri)
	if err != nil {
		return ""
	}
	u.Path = path.Join(u.Path, filepath.Base(name))
	return u.String()
}

func Gen_NewPlaylist(g *vf.Gen) (string, string, int, float64) {
	return g.Pick("https://example.com/media", "/a", "http://h:8/x/?q=1", "%", "") + g.Word(3), g.Pick("/var/", "", "../", "a b/") + g.Word(4) + ".ts", g.N(6) - 1, 3.5
}

// ---- AddSegment

type addOld struct {
	segs        []Segment
	first, last int
	ver         int
	uri, file   string
}

func Pre_Playlist_AddSegment(pl *Playlist, duration float64, length int64) bool { return plOK(pl) }

func Old_Playlist_AddSegment(pl *Playlist, duration float64, length int64) addOld {
	return addOld{vf.SnapOf(pl.Segments).([]Segment), pl.First, pl.Last, pl.Version, pl.URI, pl.FileName}
}

func Mod_Playlist_AddSegment(pl *Playlist, duration float64, length int64) {
	vf.Modifies(&pl.First)
	vf.Modifies(&pl.Last)
	vf.ModElems(pl.Segments)
}

// shift: how many of the oldest segments the addition pushed out.
func shift(o addOld) int {
	if winLen(o.first, o.last, len(o.segs)) == len(o.segs) {
		return 1
	}
	return 0
}

func Post_Playlist_AddSegment(pl *Playlist, duration float64, length int64, o addOld) {
	n := len(o.segs)
	c := winLen(o.first, o.last, n)
	vf.Ensure("stays well formed", plOK(pl) && len(pl.Segments) == n)
	vf.Ensure("one segment more, up to the size of the ring", winLen(pl.First, pl.Last, n) == c+1-shift(o))
	vf.Ensure("earlier segments stay, in order, the oldest one dropped when full", vf.All(0, c-shift(o), func(k int) bool {
		return sameSeg(pl.Segments[winAt(pl.First, k, n)], o.segs[winAt(o.first, k+shift(o), n)])
	}))
	last := pl.Segments[winAt(pl.First, c-shift(o), n)]
	vf.Ensure("the new segment comes last", sameF(last.Duration, duration) && last.Length == length)
	vf.Ensure("the media starts at zero", vf.Imp(c == 0, last.Position == 0))
	vf.Ensure("the new segment starts where the one before ended", vf.Imp(c > 0, last.Position == segEnd(o.segs, winAt(o.first, c-1, n))))
}

// sameF: the same number, bit by bit.
func sameF(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

func sameSeg(a, b Segment) bool {
	return sameF(a.Duration, b.Duration) && a.Position == b.Position && a.Length == b.Length
}

func segEnd(segs []Segment, i int) int64 {
	if i < 0 {
		return 0
	}
	return segs[i].Position + segs[i].Length
}

func Gen_Playlist_AddSegment(g *vf.Gen) (*Playlist, float64, int64) {
	pl := genPlaylist(g)
	return pl, float64(g.N(1000)) / 8, int64(g.N(100000))
}

func genPlaylist(g *vf.Gen) *Playlist {
	n := 1 + g.N(6)
	pl := &Playlist{Version: 4 + g.N(4), URI: "u" + g.Word(5), FileName: g.Word(3), Segments: make([]Segment, n), First: -1, Last: -1}
	for i := range pl.Segments {
		pl.Segments[i] = Segment{float64(g.N(4000)) / 16, int64(g.N(1 << 30)), int64(g.N(1 << 20))}
	}
	if g.P(85) {
		pl.First, pl.Last = g.N(n), g.N(n)
	}
	if g.P(20) {
		pl.First, pl.Last = -1, -1
	}
	return pl
}

// ---- String

// block is what announces one segment.
func block(uri string, seg Segment) string {
	return "#EXTINF:" + strconv.FormatFloat(seg.Duration, 'f', -1, 64) + "\n" +
		"#EXT-X-BYTERANGE:" + strconv.FormatInt(seg.Length, 10) + "@" + strconv.FormatInt(seg.Position, 10) + "\n" +
		uri + "\n"
}

// blocks announces the k oldest segments, oldest first.
func blocks(uri string, segs []Segment, first, k int) string {
	if k <= 0 {
		return ""
	}
	return blocks(uri, segs, first, k-1) + block(uri, segs[winAt(first, k-1, len(segs))])
}

func m3uHead(version int) string {
	return "#EXTM3U\n#EXT-X-VERSION:" + strconv.Itoa(version) + "\n"
}

func Pre_Playlist_String(pl Playlist) bool {
	return len(pl.Segments) >= 1 && winOK(pl.First, pl.Last, len(pl.Segments))
}

func Inv_Playlist_String_1(pl Playlist, buf *bytes.Buffer, i int) {
	n := len(pl.Segments)
	vf.Inv("place", 0 <= i && i < n && winOff(pl.First, i, n) <= winOff(pl.First, pl.Last, n))
	vf.Inv("text", buf.String() == m3uHead(pl.Version)+blocks(pl.URI, pl.Segments, pl.First, winOff(pl.First, i, n)))
	vf.Dec(winOff(pl.First, pl.Last, n) - winOff(pl.First, i, n))
}

func Post_Playlist_String(pl Playlist, s string) {
	n := len(pl.Segments)
	vf.Ensure("announces the segments of the window, oldest first", s == m3uHead(pl.Version)+blocks(pl.URI, pl.Segments, pl.First, winLen(pl.First, pl.Last, n))+"#EXT-X-ENDLIST\n")
}

func Gen_Playlist_String(g *vf.Gen) Playlist { return *genPlaylist(g) }
