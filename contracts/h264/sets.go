package h264

import "reflect"

import "github.com/aboukirev/ouro/internal/vf"

// ---- the store of parameter sets

func Post_NewParameterSets(s *ParameterSets) {
	vf.Ensure("@C16@C29 fresh", s != nil && vf.Fresh(s))
	vf.Ensure("@C16@C29 valid", setsOK(s))
	vf.Ensure("@C16@C29 empty", vf.AllU32(func(k uint32) bool {
		_, sps := s.spset[k]
		_, pps := s.ppset[k]
		return !sps && !pps
	}))
	if vf.Concrete() {
		vf.Ensure("@C16 no sets", len(s.spset) == 0 && len(s.ppset) == 0)
	}
}

func Pre_ParameterSets_GetSPS(s *ParameterSets, id uint32) bool { return setsOK(s) }
func Post_ParameterSets_GetSPS(s *ParameterSets, id uint32, sps *SPSInfo, ok bool) {
	v, has := s.spset[id]
	vf.Ensure("@C16 the set stored under the id", ok == has && sps == v)
}
func Gen_ParameterSets_GetSPS(g *vf.Gen) (*ParameterSets, uint32) { return genSets(g), uint32(g.N(4)) }

func Pre_ParameterSets_GetPPS(s *ParameterSets, id uint32) bool { return setsOK(s) }
func Post_ParameterSets_GetPPS(s *ParameterSets, id uint32, pps *PPSInfo, ok bool) {
	v, has := s.ppset[id]
	vf.Ensure("@C16 the set stored under the id", ok == has && pps == v)
}
func Gen_ParameterSets_GetPPS(g *vf.Gen) (*ParameterSets, uint32) { return genSets(g), uint32(g.N(4)) }

// ---- sets that come as NAL units, from SDP

// rawOf is b without its emulation prevention octets.
func rawOf(b []byte) []byte {
	out := []byte{}
	for k := range b {
		if !isEmul(b, k) {
			out = append(out, b[k])
		}
	}
	return out
}

func Pre_ParameterSets_ParseSprop(s *ParameterSets, buf []byte) bool    { return setsOK(s) }
func Old_ParameterSets_ParseSprop(s *ParameterSets, buf []byte) setsOld { return snapSets(s) }
func Mod_ParameterSets_ParseSprop(s *ParameterSets, buf []byte) {
	vf.ModMap(s.spset)
	vf.ModMap(s.ppset)
}

func After_ParameterSets_ParseSprop_ParameterSets_ParseSPS(s *ParameterSets, buf []byte, err error) {
	vf.Record("sps", buf)
}
func After_ParameterSets_ParseSprop_ParameterSets_ParsePPS(s *ParameterSets, buf []byte, err error) {
	vf.Record("pps", buf)
}

//vf:opaque bitsVal zeros ueOK ueLen ueVal scaleAt posOf lastOne kept listsAt skipAt
//vf:noprune
func Post_ParameterSets_ParseSprop(s *ParameterSets, buf []byte, old setsOld, err error) {
	vf.Ensure("@C16@C29 the store stays valid", setsOK(s))
	if !vf.For("C16") {
		return
	}
	typ := 0
	if len(buf) > 0 {
		typ = int(buf[0] % 32)
	}
	if typ == 7 {
		var raw []byte
		if vf.Concrete() {
			raw = rawOf(buf[1:])
		} else {
			raw = vf.Recorded("sps", []byte(nil)).([]byte)
		}
		vf.Ensure("@C16 parses the payload without emulation prevention", opaqueRaw(raw, buf[1:]))
		Post_ParameterSets_ParseSPS(s, raw, old, err)
		vf.Ensure("@C16 picture sets stay", vf.MapSame(s.ppset, old.pps))
		return
	}
	if typ == 8 {
		var raw []byte
		if vf.Concrete() {
			raw = rawOf(buf[1:])
		} else {
			raw = vf.Recorded("pps", []byte(nil)).([]byte)
		}
		vf.Ensure("@C16 parses the payload without emulation prevention", opaqueRaw(raw, buf[1:]))
		Post_ParameterSets_ParsePPS(s, raw, old, err)
		vf.Ensure("@C16 sequence sets stay", vf.MapSame(s.spset, old.sps))
		return
	}
	vf.Ensure("@C16 other units are ignored", err == nil && vf.MapSame(s.spset, old.sps) && vf.MapSame(s.ppset, old.pps))
}

func Gen_ParameterSets_ParseSprop(g *vf.Gen) (*ParameterSets, []byte) {
	s := genSets(g)
	if g.P(4) {
		return s, nil
	}
	h := byte(g.N(256))
	var b []byte
	switch g.N(5) {
	case 0, 1:
		h, b = h&0xE0|7, genSPS(g)
	case 2, 3:
		h, b = h&0xE0|8, genPPS(g)
	default:
		b = genSPS(g)
	}
	out := []byte{h}
	zeros := 0
	for _, x := range b {
		if zeros >= 2 && x <= 3 && g.P(95) {
			out, zeros = append(out, 3), 0
		}
		if out = append(out, x); x == 0 {
			zeros++
		} else {
			zeros = 0
		}
	}
	return s, out
}

// SetsOK: the store is one that NewParameterSets made.
func SetsOK(s *ParameterSets) bool { return s != nil && setsOK(s) }

// SameSets: the stores have the same parameter sets.
func SameSets(a, b *ParameterSets) bool { return reflect.DeepEqual(a, b) }

// ModSets declares that parameter sets may be stored.
func ModSets(s *ParameterSets) {
	vf.ModMap(s.spset)
	vf.ModMap(s.ppset)
}
