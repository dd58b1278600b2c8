package main

// Contracts assumed for the standard library (the trusted boundary), and
// dispatch of specification constructs.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"net/textproto"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pureFns are deterministic functions of their arguments without side effects:
// each is an uninterpreted function, the same in code and in specifications.
var pureFns = map[string]bool{
	"strings.Split": true, "strings.SplitN": true, "strings.TrimSpace": true, "strings.HasPrefix": true, "strings.HasSuffix": true,
	"strings.ToLower": true, "strings.ToUpper": true, "strings.Index": true, "strings.IndexByte": true, "strings.Trim": true,
	"strings.TrimPrefix": true, "strings.TrimSuffix": true, "strings.Contains": true, "strings.EqualFold": true, "strings.LastIndex": true, "strings.Fields": true,
	"strings.LastIndexByte": true, "strings.TrimLeft": true, "strings.TrimRight": true, "strings.Count": true, "strings.IndexAny": true, "strings.Replace": true, "strings.ReplaceAll": true,
	"strings.ContainsRune": true, "strings.IndexRune": true, "strings.ContainsAny": true, "strings.Repeat": true, "strings.Cut": true, "strings.Join": true,
	"strconv.Atoi": true, "strconv.Itoa": true, "strconv.ParseInt": true, "strconv.FormatInt": true, "strconv.FormatFloat": true, "strconv.ParseUint": true,
	"strconv.FormatUint":        true,
	"encoding/hex.DecodeString": true, "encoding/hex.EncodeToString": true,
	"(*encoding/base64.Encoding).DecodeString": true, "(*encoding/base64.Encoding).EncodeToString": true,
	"net/textproto.CanonicalMIMEHeaderKey": true, "path.Join": true, "path/filepath.Base": true,
	"math.Log2": true, "math.Ceil": true, "fmt.Sprintf": true, "fmt.Sprint": true,
	"net.SplitHostPort": true, "(*net/url.Userinfo).Username": true, "(*net/url.Userinfo).Password": true,
	"(time.Time).IsZero": true, "(time.Time).Sub": true, "(time.Time).Add": true, "(*net/url.Userinfo).String": true,
	"(time.Duration).Seconds": true, "math.Float64bits": true,
	"math/bits.Len32": true, "math/bits.Len": true, "math/bits.LeadingZeros32": true,
	"encoding/hex.DecodedLen": true, "crypto/md5.Sum": true,
}

var noopFns = map[string]bool{
	"log.Println": true, "log.Printf": true, "log.Print": true, "fmt.Printf": true, "fmt.Println": true,
	"(*sync.Mutex).Lock": true, "(*sync.Mutex).Unlock": true,
	"(*net.conn).SetReadDeadline": true, "(*net.conn).SetWriteDeadline": true,
	"(*net.TCPConn).SetReadDeadline": true, "(*net.TCPConn).SetWriteDeadline": true,
}

func (x *Exec) trust(s string) { x.trusted[s] = true }

func (x *Exec) nilErr() Val { return IfaceV{id: cInt(0)} }

// someErr is an arbitrary non-nil error.
func (x *Exec) someErr() IfaceV { return IfaceV{id: fresh("err", sInt, bi1, nil)} }

func (x *Exec) byteArr(st *State, s SliceV) *Term {
	return sel(x.heapGet(st, hkey(s.elem, ""), sInt), s.ref)
}

func (x *Exec) bytesStr(st *State, s SliceV) *Term {
	if isC(s.ref) && isC(s.off) && isC(s.ln) {
		t, ok := x.globText[s.ref.k.Int64()]
		if a, b := s.off.k.Int64(), s.ln.k.Int64(); ok && 0 <= a && 0 <= b && a+b <= int64(len(t)) {
			return slit(t[a : a+b])
		}
	}
	return bstr(x.byteArr(st, s), s.off, s.ln)
}

func (x *Exec) intrinsic(fr *frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Val, bool, bool) {
	name := fn.String()
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == vfPath {
		return x.vfCall(fr, st, fn, args, pos)
	}
	if x.prog.ours(fn) {
		return nil, false, false
	}
	ret := func(v ...Val) ([]Val, bool, bool) { return v, true, true }
	switch {
	case strings.HasPrefix(name, "(encoding/binary.bigEndian)."):
		x.trust("encoding/binary big-endian accessors")
		s := args[1].(SliceV)
		n := 0
		m := fn.Name()
		switch {
		case strings.HasSuffix(m, "16"):
			n = 2
		case strings.HasSuffix(m, "32"):
			n = 4
		case strings.HasSuffix(m, "64"):
			n = 8
		default:
			return nil, false, false
		}
		x.safety(st, "binary."+m+": slice long enough", pos, le(cInt(int64(n)), s.ln))
		k := hkey(s.elem, "")
		h := x.heapGet(st, k, sInt)
		l := leaf{lo: bi0, hi: bi(255)}
		if strings.HasPrefix(m, "Uint") {
			a := sel(h, s.ref)
			r := cInt(0)
			for i := 0; i < n; i++ {
				r = add(r, mulc(ranged(sel(a, addc(s.off, int64(i))), l), pow2i(8*(n-1-i))))
			}
			return ret(r)
		}
		if strings.HasPrefix(m, "Put") {
			v := args[2].(*Term)
			a := sel(h, s.ref)
			for i := 0; i < n; i++ {
				a = sto(a, addc(s.off, int64(i)), modc(divc(v, pow2i(8*(n-1-i))), bi(256)))
			}
			st.heap[k] = sto(h, s.ref, a)
			return ret()
		}
		return nil, false, false
	case name == "errors.New":
		return ret(IfaceV{id: fresh("err", sInt, bi1, nil)})
	case name == "fmt.Errorf":
		return ret(x.someErr())
	case noopFns[name]:
		x.trust(name + " has no effect on the verified state")
		var out []Val
		sig := fn.Signature.Results()
		for i := 0; i < sig.Len(); i++ {
			out = append(out, x.havocVal(st, fn.Name(), sig.At(i).Type()))
		}
		return out, true, true
	case pureFns[name]:
		return ret(x.pure(st, fn, args, pos)...)
	}
	if r := fn.Signature.Recv(); r != nil {
		rt := r.Type()
		if p, ok := rt.(*types.Pointer); ok {
			rt = p.Elem()
		}
		if isStrBuf(rt) {
			return x.strBuf(st, fn, args)
		}
	}
	if r, ok, h := x.library(st, fn, name, args, pos); h {
		return r, ok, h
	}
	return nil, false, false
}

// pure applies an uninterpreted function.
func (x *Exec) pure(st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
	name := fn.String()
	x.trust(name + " is a deterministic function of its arguments")
	var fl []*Term
	for i, a := range args {
		fl = append(fl, x.pureArg(st, a, fn.Signature, i)...)
	}
	sig := fn.Signature.Results()
	var out []Val
	for i := 0; i < sig.Len(); i++ {
		t := sig.At(i).Type()
		nm := name
		if sig.Len() > 1 {
			nm = fmt.Sprintf("%s$%d", name, i)
		}
		switch u := shape(t).(type) {
		case *types.Slice:
			ref := x.newRef(st)
			if b, ok := under(u.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
				s := app(nm, sStr, nil, nil, fl...)
				k := hkey(u.Elem(), "")
				st.heap[k] = sto(x.heapGet(st, k, sInt), ref, sbytes(s))
				n := slen(s)
				out = append(out, SliceV{ref, cInt(0), n, n, u.Elem()})
				continue
			}
			for _, l := range leaves(u.Elem()) {
				k := hkey(u.Elem(), l.name)
				st.heap[k] = sto(x.heapGet(st, k, l.sort), ref, app(nm+".arr"+l.name, sArr(sInt, l.sort), nil, nil, fl...))
			}
			n := app(nm+".len", sInt, bi0, maxLen, fl...)
			out = append(out, SliceV{ref, cInt(0), n, n, u.Elem()})
		case *types.Interface:
			out = append(out, IfaceV{id: app(nm, sInt, bi0, nil, fl...)})
		case *types.Array:
			av := ArrV{t: u}
			for _, l := range leaves(u.Elem()) {
				av.leaves = append(av.leaves, app(nm+".arr"+l.name, sArr(sInt, l.sort), nil, nil, fl...))
			}
			out = append(out, av)
		default:
			ls := leaves(t)
			var ts []*Term
			for _, l := range ls {
				ts = append(ts, app(nm+l.name, l.sort, l.lo, l.hi, fl...))
			}
			out = append(out, x.fromLeaves(t, ts))
		}
	}
	return out
}

func (x *Exec) pureArg(st *State, a Val, sig *types.Signature, i int) []*Term {
	switch v := a.(type) {
	case SliceV:
		if b, ok := under(v.elem).(*types.Basic); ok && b.Kind() == types.Uint8 {
			return []*Term{x.bytesStr(st, v)}
		}
		// variadic arguments: constant length lists are spelled out
		if isC(v.ln) && v.ln.k.Cmp(bi(16)) <= 0 {
			out := []*Term{v.ln}
			for j := int64(0); j < v.ln.k.Int64(); j++ {
				e := x.load(st, PtrV{ref: v.ref, idx: addc(v.off, j), root: v.elem})
				out = append(out, x.pureArg(st, e, nil, 0)...)
			}
			return out
		}
		return x.flatten(st, v, nil)
	case PtrV:
		if v.glob != nil {
			return []*Term{app("glob_"+sanitize(v.glob.String()), sInt, bi1, nil)}
		}
		if len(v.path) > 0 {
			panic(unsup("interior pointer passed to a library function"))
		}
		return []*Term{v.ref}
	}
	return x.toLeaves(a, nil)
}

// strBuf: bytes.Buffer and strings.Builder accumulate a string.
func (x *Exec) strBuf(st *State, fn *ssa.Function, args []Val) ([]Val, bool, bool) {
	p, ok := args[0].(PtrV)
	if !ok {
		return nil, false, false
	}
	x.trust("bytes.Buffer and strings.Builder accumulate what is written to them")
	cur := x.load(st, p).(*Term)
	put := func(s *Term) { x.store(st, p, cat(cur, s)) }
	switch fn.Name() {
	case "WriteString":
		put(args[1].(*Term))
		return []Val{slen(args[1].(*Term)), x.nilErr()}, true, true
	case "WriteByte":
		put(chr(args[1].(*Term)))
		return []Val{x.nilErr()}, true, true
	case "WriteRune":
		put(app("runestr", sStr, nil, nil, args[1].(*Term)))
		return []Val{cInt(1), x.nilErr()}, true, true
	case "Write":
		s := args[1].(SliceV)
		put(x.bytesStr(st, s))
		return []Val{s.ln, x.nilErr()}, true, true
	case "String":
		return []Val{cur}, true, true
	case "Len":
		return []Val{slen(cur)}, true, true
	case "Grow":
		return nil, true, true
	case "Reset":
		x.store(st, p, slit(""))
		return nil, true, true
	case "Bytes":
		return []Val{x.strBytes(st, cur, types.Typ[types.Uint8])}, true, true
	}
	return nil, false, false
}

// ghost cells: a string, integer or boolean attached to a reference
func (x *Exec) ghostGet(st *State, key string, s *Sort, ref *Term) *Term {
	return sel(sel(x.heapGet(st, key, s), ref), cInt(0))
}
func (x *Exec) ghostSet(st *State, key string, s *Sort, ref, v *Term) {
	h := x.heapGet(st, key, s)
	st.heap[key] = sto(h, ref, sto(sel(h, ref), cInt(0), v))
}

const (
	gIn   = "$stream.in" // bytes a bufio.Reader will still deliver
	gOut  = "$conn.out"  // bytes written to a connection
	gHash = "$hash.in"   // bytes written to a hash
	gEnc  = "$enc.in"    // bytes an encoder still holds back
)

func (x *Exec) objRef(v Val) *Term {
	p := v.(PtrV)
	if p.glob != nil || len(p.path) > 0 {
		panic(unsup("interior connection object"))
	}
	return p.ref
}

func (x *Exec) library(st *State, fn *ssa.Function, name string, args []Val, pos token.Pos) ([]Val, bool, bool) {
	ret := func(v ...Val) ([]Val, bool, bool) { return v, true, true }
	switch name {
	case "(*bufio.Reader).ReadString":
		x.trust("bufio.Reader delivers the connection's bytes in order; after an error the remaining input is arbitrary")
		ref := x.objRef(args[0])
		x.nonNil(st, args[0], pos, "reader")
		in := x.ghostGet(st, gIn, sStr, ref)
		i := app("strings.IndexByte", sInt, bi(-1), maxLen, in, args[1].(*Term))
		has := le(cInt(0), i)
		line := ite(has, ssub(in, cInt(0), addc(i, 1)), in)
		rest := ite(has, ssub(in, addc(i, 1), slen(in)), fresh("in", sStr, nil, nil))
		x.ghostSet(st, gIn, sStr, ref, rest)
		return ret(line, IfaceV{id: ite(has, cInt(0), fresh("err", sInt, bi1, nil))})
	case "(*bufio.Reader).Peek":
		x.trust("bufio.Reader.Peek returns the next bytes without consuming them, or an error when fewer are available or they do not fit its buffer")
		ref := x.objRef(args[0])
		n := args[1].(*Term)
		in := x.ghostGet(st, gIn, sStr, ref)
		ok := and(le(cInt(0), n), le(n, slen(in)), le(n, cInt(2048)))
		// the returned slice aliases the internal buffer, which later reads overwrite
		bref := x.newRef(st)
		k := hkey(types.Typ[types.Uint8], "")
		h := x.heapGet(st, k, sInt)
		got := ssub(in, cInt(0), n)
		st.heap[k] = sto(h, bref, sbytes(got))
		ln := ite(ok, n, fresh("short", sInt, bi0, maxLen))
		return ret(SliceV{bref, cInt(0), ln, ln, types.Typ[types.Uint8]}, IfaceV{id: ite(ok, cInt(0), fresh("err", sInt, bi1, nil))})
	case "(*bufio.Reader).Discard":
		ref := x.objRef(args[0])
		n := args[1].(*Term)
		in := x.ghostGet(st, gIn, sStr, ref)
		ok := and(le(cInt(0), n), le(n, slen(in)))
		x.ghostSet(st, gIn, sStr, ref, ite(ok, ssub(in, n, slen(in)), fresh("in", sStr, nil, nil)))
		return ret(ite(ok, n, fresh("disc", sInt, bi0, maxLen)), IfaceV{id: ite(ok, cInt(0), fresh("err", sInt, bi1, nil))})
	case "(*bufio.Reader).ReadByte":
		ref := x.objRef(args[0])
		in := x.ghostGet(st, gIn, sStr, ref)
		ok := le(cInt(1), slen(in))
		x.ghostSet(st, gIn, sStr, ref, ite(ok, ssub(in, cInt(1), slen(in)), fresh("in", sStr, nil, nil)))
		return ret(ite(ok, sat(in, cInt(0)), cInt(0)), IfaceV{id: ite(ok, cInt(0), fresh("err", sInt, bi1, nil))})
	case "io.ReadFull":
		x.trust("io.ReadFull fills the whole slice or fails")
		iv, isI := args[0].(IfaceV)
		if !isI || iv.dyn == nil {
			return nil, false, false
		}
		ref := x.objRef(iv.dyn)
		s := args[1].(SliceV)
		in := x.ghostGet(st, gIn, sStr, ref)
		ok := le(s.ln, slen(in))
		x.fillBytes(st, s, ok, in)
		x.ghostSet(st, gIn, sStr, ref, ite(ok, ssub(in, s.ln, slen(in)), fresh("in", sStr, nil, nil)))
		return ret(ite(ok, s.ln, fresh("short", sInt, bi0, maxLen)), IfaceV{id: ite(ok, cInt(0), fresh("err", sInt, bi1, nil))})
	case "io.CopyN":
		x.trust("io.CopyN copies exactly as many bytes as asked for or fails")
		dv, isD := args[0].(IfaceV)
		sv, isS := args[1].(IfaceV)
		if !isD || dv.dyn == nil || !isS || sv.dyn == nil {
			return nil, false, false
		}
		dst, okD := dv.dyn.(PtrV)
		if pt, ok := dv.dt.(*types.Pointer); !okD || !ok || !isStrBuf(pt.Elem()) {
			return nil, false, false
		}
		ref := x.objRef(sv.dyn)
		n := args[2].(*Term)
		in := x.ghostGet(st, gIn, sStr, ref)
		ok := le(n, slen(in))
		cur := x.load(st, dst).(*Term)
		got := ite(le(cInt(0), n), ssub(in, cInt(0), n), slit(""))
		x.store(st, dst, ite(ok, cat(cur, got), cat(cur, in)))
		x.ghostSet(st, gIn, sStr, ref, ite(ok, ite(le(cInt(0), n), ssub(in, n, slen(in)), in), fresh("in", sStr, nil, nil)))
		return ret(ite(ok, ite(le(cInt(0), n), n, cInt(0)), slen(in)), IfaceV{id: ite(ok, cInt(0), fresh("err", sInt, bi1, nil))})
	case "encoding/binary.Read":
		// binary.Read(bufio reader, big endian, *uint16)
		x.trust("binary.Read decodes a big-endian integer from the reader")
		iv, isI := args[0].(IfaceV)
		pv, isP := args[2].(IfaceV)
		if !isI || iv.dyn == nil || !isP || pv.dyn == nil {
			return nil, false, false
		}
		dst := pv.dyn.(PtrV)
		t, _ := fieldAt(dst.root, dst.path)
		_, _, bits, signed, okI := intRange(t)
		if !okI || signed {
			return nil, false, false
		}
		n := int64(bits / 8)
		ref := x.objRef(iv.dyn)
		in := x.ghostGet(st, gIn, sStr, ref)
		ok := le(cInt(n), slen(in))
		v := cInt(0)
		for i := int64(0); i < n; i++ {
			v = add(v, mulc(sat(in, cInt(i)), pow2i(8*int(n-1-i))))
		}
		cur := x.load(st, dst).(*Term)
		x.store(st, dst, ite(ok, v, cur))
		x.ghostSet(st, gIn, sStr, ref, ite(ok, ssub(in, cInt(n), slen(in)), fresh("in", sStr, nil, nil)))
		return ret(IfaceV{id: ite(ok, cInt(0), fresh("err", sInt, bi1, nil))})
	case "(*net.conn).Write", "(*net.TCPConn).Write":
		x.trust("net.TCPConn.Write sends its argument in full or fails")
		var ref *Term
		if p, ok := args[0].(PtrV); ok {
			ref = p.ref
		}
		s := args[1].(SliceV)
		e := IfaceV{id: fresh("err", sInt, bi0, nil)}
		out := x.ghostGet(st, gOut, sStr, ref)
		x.ghostSet(st, gOut, sStr, ref, ite(eq(e.id, cInt(0)), cat(out, x.bytesStr(st, s)), fresh("out", sStr, nil, nil)))
		n := fresh("n", sInt, bi0, maxLen)
		x.fact(st, imp(eq(e.id, cInt(0)), eq(n, s.ln)))
		return ret(n, e)
	case "encoding/base64.NewEncoder":
		x.trust("base64.NewEncoder writes the encoding of whole groups of three bytes at once, and of the rest when it is closed")
		iv, isI := args[1].(IfaceV)
		if !isI || iv.dyn == nil {
			return nil, false, false
		}
		ref := x.newRef(st)
		x.ghostSet(st, gEnc, sStr, ref, slit(""))
		w := IfaceV{id: app("encobj", sInt, bi1, nil, ref), dyn: EncV{ref: ref, conn: x.objRef(iv.dyn), enc: args[0].(PtrV)}, dt: encT}
		x.ifaces[w.id] = w
		return ret(w)
	case "time.Now":
		return ret(x.havocVal(st, "now", fn.Signature.Results().At(0).Type()))
	case "math/rand.Uint64":
		return ret(fresh("rnd", sInt, bi0, maxU64))
	case "crypto/rand.Read":
		x.trust("crypto/rand.Read fills its argument with arbitrary bytes")
		s := args[0].(SliceV)
		k := hkey(s.elem, "")
		h := x.heapGet(st, k, sInt)
		st.heap[k] = sto(h, s.ref, fresh("rnd", sArr(sInt, sInt), nil, nil))
		e := IfaceV{id: fresh("err", sInt, bi0, nil)}
		return ret(s.ln, e)
	case "crypto/md5.New":
		x.trust("crypto/md5 hash objects digest the bytes written to them")
		ref := x.newRef(st)
		x.ghostSet(st, gHash, sStr, ref, slit(""))
		iv := IfaceV{id: app("hashobj", sInt, bi1, nil, ref), dyn: PtrV{ref: ref, idx: cInt(0), root: types.Typ[types.Int]}, dt: hashT}
		x.ifaces[iv.id] = iv
		return ret(iv)
	case "net/url.Parse":
		x.trust("net/url.Parse and URL.String are deterministic functions")
		s := args[0].(*Term)
		e := app("url.Parse$err", sInt, bi0, nil, s)
		pt := fn.Signature.Results().At(0).Type().(*types.Pointer)
		ref := x.newRef(st)
		u := x.urlVal(st, pt.Elem(), s)
		x.zeroAt(st, pt.Elem(), ref)
		p := PtrV{ref: ref, idx: cInt(0), root: pt.Elem()}
		x.store(st, p, u)
		p.ref = ite(eq(e, cInt(0)), ref, cInt(0))
		return ret(p, IfaceV{id: e})
	case "(*net/url.URL).String":
		p := args[0].(PtrV)
		x.nonNil(st, p, pos, "url")
		v := x.load(st, p)
		return ret(app("url.String", sStr, nil, nil, x.toLeaves(v, p.root)...))
	case "net.ResolveTCPAddr", "net.DialTCP", "net.ListenUDP", "net.ResolveIPAddr":
		x.trust(name + " returns a fresh object or an error")
		pt := fn.Signature.Results().At(0).Type().(*types.Pointer)
		ref := x.newRef(st)
		e := fresh("err", sInt, bi0, nil)
		if name == "net.DialTCP" {
			x.ghostSet(st, gOut, sStr, ref, slit(""))
		}
		return ret(PtrV{ref: ite(eq(e, cInt(0)), ref, cInt(0)), idx: cInt(0), root: pt.Elem()}, IfaceV{id: e})
	case "bufio.NewReaderSize", "bufio.NewReader":
		ref := x.newRef(st)
		pt := fn.Signature.Results().At(0).Type().(*types.Pointer)
		return ret(PtrV{ref: ref, idx: cInt(0), root: pt.Elem()})
	}
	return nil, false, false
}

var hashT types.Type = types.NewStruct(nil, nil)
var encT types.Type = types.NewStruct(nil, nil)

// EncV is an encoder that writes to a connection.
type EncV struct {
	ref, conn *Term
	enc       PtrV
}

func (x *Exec) urlVal(st *State, t types.Type, s *Term) Val {
	var ts []*Term
	for _, l := range leaves(t) {
		v := app("url.Parse"+l.name, l.sort, l.lo, l.hi, s)
		if l.kind == 'r' && v.hi == nil {
			v.hi = new(big.Int).Sub(bAlloc0, bi1)
		}
		ts = append(ts, v)
	}
	return x.fromLeaves(t, ts)
}

// fillBytes stores the first len(s) bytes of in into s when ok, arbitrary bytes otherwise.
func (x *Exec) fillBytes(st *State, s SliceV, ok, in *Term) {
	k := hkey(s.elem, "")
	h := x.heapGet(st, k, sInt)
	if isC(s.off) && s.off.k.Sign() == 0 {
		st.heap[k] = sto(h, s.ref, ite(ok, sbytes(ssub(in, cInt(0), s.ln)), fresh("junk", sArr(sInt, sInt), nil, nil)))
		return
	}
	a := fresh("rd", sArr(sInt, sInt), nil, nil)
	bv := mkBVar("i")
	inr := and(le(s.off, bv), lt(bv, add(s.off, s.ln)))
	x.fact(st, forall([]*Term{bv}, imp(not(inr), eq(sel(a, bv), sel(sel(h, s.ref), bv)))))
	bw := mkBVar("i")
	x.fact(st, imp(ok, forall([]*Term{bw}, imp(and(le(s.off, bw), lt(bw, add(s.off, s.ln))), eq(sel(a, bw), sat(in, sub(bw, s.off)))))))
	st.heap[k] = sto(h, s.ref, a)
}

// encode64 is the text an encoder makes of some bytes.
func (x *Exec) encode64(st *State, v EncV, b *Term) *Term {
	const n = "(*encoding/base64.Encoding).EncodeToString"
	x.trust(n + " is a deterministic function of its arguments")
	return app(n, sStr, nil, nil, append(x.pureArg(st, v.enc, nil, 0), b)...)
}

// invoke models calls through interfaces.
func (x *Exec) invoke(st *State, call *ssa.CallCommon, pos token.Pos) ([]Val, bool) {
	recv := x.val(st, call.Value).(IfaceV)
	var args []Val
	for _, a := range call.Args {
		args = append(args, x.val(st, a))
	}
	m := call.Method.Name()
	if recv.dt == hashT {
		ref := recv.dyn.(PtrV).ref
		cur := x.ghostGet(st, gHash, sStr, ref)
		switch m {
		case "Write":
			s := args[0].(SliceV)
			x.ghostSet(st, gHash, sStr, ref, cat(cur, x.bytesStr(st, s)))
			return []Val{s.ln, x.nilErr()}, true
		case "Sum":
			s := args[0].(SliceV)
			d := app("md5", sStr, nil, nil, cur)
			if s.ref == cInt(0) {
				return []Val{x.strBytes(st, d, types.Typ[types.Uint8])}, true
			}
		}
	}
	if recv.dt == encT {
		v := recv.dyn.(EncV)
		held := x.ghostGet(st, gEnc, sStr, v.ref)
		send := func(b *Term) *Term {
			e := fresh("err", sInt, bi0, nil)
			out := x.ghostGet(st, gOut, sStr, v.conn)
			t := x.encode64(st, v, b)
			x.ghostSet(st, gOut, sStr, v.conn, ite(eq(e, cInt(0)), cat(out, t), fresh("out", sStr, nil, nil)))
			return e
		}
		switch m {
		case "Write":
			s := args[0].(SliceV)
			if held != slit("") {
				panic(unsup("a second write to an encoder"))
			}
			b := x.bytesStr(st, s)
			k := mulc(divc(s.ln, bi(3)), bi(3))
			e := send(ssub(b, cInt(0), k))
			x.ghostSet(st, gEnc, sStr, v.ref, ssub(b, k, s.ln))
			n := fresh("n", sInt, bi0, maxLen)
			x.fact(st, imp(eq(e, cInt(0)), eq(n, s.ln)))
			return []Val{n, IfaceV{id: e}}, true
		case "Close":
			e := send(held)
			x.ghostSet(st, gEnc, sStr, v.ref, slit(""))
			return []Val{IfaceV{id: e}}, true
		}
	}
	if recv.dyn != nil && recv.dt != nil && recv.dt != hashT && recv.dt != encT {
		if fn := x.prog.ssaProg.LookupMethod(recv.dt, call.Method.Pkg(), m); fn != nil {
			return x.callFn(nil, st, fn, append([]Val{recv.dyn}, args...), pos)
		}
	}
	sig := call.Signature()
	switch m {
	case "Error", "Timeout", "Temporary":
		x.safety(st, "nil dereference: call of "+m, pos, not(eq(recv.id, cInt(0))))
		l := leaves(sig.Results().At(0).Type())[0]
		return []Val{app("iface."+m, l.sort, l.lo, l.hi, recv.id)}, true
	}
	panic(unsup("interface call " + m))
}

// dynCall models a call of an unknown function value: a pure function of the
// value and its arguments.
func (x *Exec) dynCall(st *State, fv FuncV, args []Val, call *ssa.CallCommon, pos token.Pos) []Val {
	x.safety(st, "call of nil function", pos, not(eq(fv.id, cInt(0))))
	x.trust("function values stored in fields are deterministic in their arguments between calls that replace them")
	fl := []*Term{fv.id}
	for i, a := range args {
		fl = append(fl, x.pureArg(st, a, nil, i)...)
	}
	sig := call.Signature().Results()
	var out []Val
	for i := 0; i < sig.Len(); i++ {
		t := sig.At(i).Type()
		var ts []*Term
		for _, l := range leaves(t) {
			ts = append(ts, app(fmt.Sprintf("dyn$%d%s", i, l.name), l.sort, l.lo, l.hi, fl...))
		}
		out = append(out, x.fromLeaves(t, ts))
	}
	return out
}

// libAxioms are facts about a particular application of a library function.
func libAxioms(t *Term) []*Term {
	a := t.args
	switch t.name {
	case "strings.Split.len":
		return []*Term{imp(not(eq(a[1], slit(""))), le(cInt(1), t)), le(t, addc(slen(a[0]), 1))}
	case "strings.SplitN.len":
		return []*Term{imp(and(not(eq(a[1], slit(""))), lt(cInt(0), a[2])), and(le(cInt(1), t), le(t, a[2])))}
	case "strings.IndexByte":
		s := a[0]
		return []*Term{le(cInt(-1), t), lt(t, slen(s)), imp(le(cInt(0), t), eq(app("sat", sInt, bi0, bi(255), s, t), a[1]))}
	case "strings.Index":
		return []*Term{le(cInt(-1), t), imp(le(cInt(0), t), le(add(t, slen(a[1])), slen(a[0])))}
	case "strings.HasPrefix":
		return []*Term{imp(t, le(slen(a[1]), slen(a[0])))}
	case "strings.HasSuffix":
		return []*Term{imp(t, le(slen(a[1]), slen(a[0])))}
	case "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight":
		return []*Term{le(slen(t), slen(a[0]))}
	case "ssub":
		return []*Term{imp(and(le(cInt(0), a[1]), le(a[1], a[2]), le(a[2], slen(a[0]))), eq(app("slen", sInt, bi0, maxLen, t), sub(a[2], a[1])))}
	case "bstr":
		if b := a[0]; b.op == oApp && b.name == "sbytes" && a[1] == cInt(0) {
			return []*Term{imp(le(cInt(0), a[2]), eq(app("slen", sInt, bi0, maxLen, t), a[2])), imp(eq(a[2], slen(b.args[0])), eq(t, b.args[0]))}
		}
		return []*Term{imp(le(cInt(0), a[2]), eq(app("slen", sInt, bi0, maxLen, t), a[2]))}
	case "chr":
		return []*Term{eq(app("slen", sInt, bi0, maxLen, t), cInt(1))}
	case "net/textproto.CanonicalMIMEHeaderKey":
		if a[0].op == oLit {
			return []*Term{eq(t, slit(textproto.CanonicalMIMEHeaderKey(a[0].name)))}
		}
	case "encoding/hex.EncodeToString":
		return []*Term{eq(app("slen", sInt, bi0, maxLen, t), mulc(slen(a[0]), bi(2)))}
	case "fmt.Sprintf":
		if a[0] == slit("%08x") {
			return []*Term{le(cInt(8), app("slen", sInt, bi0, maxLen, t)), le(app("slen", sInt, bi0, maxLen, t), cInt(17))}
		}
	case "md5":
		return []*Term{eq(app("slen", sInt, bi0, maxLen, t), cInt(16))}
	case "net/url.Parse.len":
	}
	return nil
}
