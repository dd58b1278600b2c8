package main

// Values, the typed heap, and machine arithmetic.
//
// Every object is an array of elements of its element type, addressed by
// (ref, idx).  For each leaf of an element type there is one heap component
// of sort (Array Int (Array Int leaf)).  Pointers to structs are (ref, idx)
// pairs, so interior pointers to slice elements need no special case.

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type SliceV struct {
	ref, off, ln, cp *Term
	elem             types.Type
}
type PtrV struct {
	ref, idx *Term
	root     types.Type // element type of the pointed-to object
	path     []int      // field path inside root
	glob     *ssa.Global
}
type StructV struct {
	t types.Type
	f []Val
}
type ArrV struct {
	t      *types.Array
	leaves []*Term
}
type IfaceV struct {
	id  *Term
	dyn Val
	dt  types.Type
}
type FuncV struct {
	id    *Term
	fn    *ssa.Function
	binds []Val
	t     types.Type
}
type MapV struct {
	ref *Term
	t   *types.Map
}
type ChanV struct {
	ref *Term
	t   types.Type
}
type TupleV []Val
type IterV struct {
	m   MapV
	pos int   // object holding the position
	str *Term // enumeration of the keys
	n   *Term
}

const (
	refGlobal0 = 1
	refParam0  = 1000
	refAlloc0  = 1000000
)

var (
	maxLen  = pow2i(48)
	minI64  = new(big.Int).Neg(pow2i(63))
	maxI64  = new(big.Int).Sub(pow2i(63), bi1)
	maxU64  = new(big.Int).Sub(pow2i(64), bi1)
	bAlloc0 = bi(refAlloc0)
)

type leaf struct {
	name string
	sort *Sort
	lo   *big.Int
	hi   *big.Int
	kind byte // 'r' reference, 0 plain
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

// shape is the underlying type, except that opaque types have none.
func shape(t types.Type) types.Type {
	if isStrBuf(t) || isOpaque(t) {
		return types.Typ[types.UnsafePointer]
	}
	return under(t)
}

func typeName(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	return reAlias.ReplaceAllStringFunc(strings.ReplaceAll(s, " ", ""), func(w string) string {
		if w == "rune" {
			return "int32"
		}
		return "byte"
	})
}

// reAlias: two names of one type each
var reAlias = regexp.MustCompile(`\b(uint8|rune)\b`)

// intRange returns the value range of an integer type.
func intRange(t types.Type) (lo, hi *big.Int, bits int, signed, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		bits, signed = 8, true
	case types.Int16:
		bits, signed = 16, true
	case types.Int32:
		bits, signed = 32, true
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		bits, signed = 64, true
	case types.Uint8:
		bits = 8
	case types.Uint16:
		bits = 16
	case types.Uint32:
		bits = 32
	default:
		bits = 64
	}
	if signed {
		return new(big.Int).Neg(pow2i(bits - 1)), new(big.Int).Sub(pow2i(bits-1), bi1), bits, true, true
	}
	return bi0, new(big.Int).Sub(pow2i(bits), bi1), bits, false, true
}

var leafCache = map[string][]leaf{}

// leaves flattens an element type.
func leaves(t types.Type) []leaf {
	k := t.String()
	if l, ok := leafCache[k]; ok {
		return l
	}
	l := leaves1(t)
	leafCache[k] = l
	return l
}

func leaves1(t types.Type) []leaf {
	if lo, hi, _, _, ok := intRange(t); ok {
		return []leaf{{"", sInt, lo, hi, 0}}
	}
	if isStrBuf(t) {
		return []leaf{{".$s", sStr, nil, nil, 0}}
	}
	if isOpaque(t) {
		return []leaf{{".$o", sInt, nil, nil, 0}}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return []leaf{{"", sBool, nil, nil, 0}}
		}
		if u.Info()&types.IsString != 0 {
			return []leaf{{"", sStr, nil, nil, 0}}
		}
		return []leaf{{"", sInt, nil, nil, 0}} // floats, unsafe pointers: opaque
	case *types.Slice:
		return []leaf{{".ref", sInt, bi0, nil, 'r'}, {".off", sInt, nil, nil, 0}, {".len", sInt, bi0, maxLen, 0}, {".cap", sInt, bi0, maxLen, 0}}
	case *types.Pointer:
		return []leaf{{".ref", sInt, bi0, nil, 'r'}, {".idx", sInt, nil, nil, 0}}
	case *types.Map, *types.Chan:
		return []leaf{{".ref", sInt, bi0, nil, 'r'}}
	case *types.Interface, *types.Signature:
		return []leaf{{".id", sInt, nil, nil, 0}}
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leaves(u.Field(i).Type()) {
				l.name = "." + u.Field(i).Name() + l.name
				out = append(out, l)
			}
		}
		return out
	case *types.Array:
		// reference to a separate array object
		return []leaf{{".aref", sInt, bi0, nil, 'r'}}
	case *types.Tuple:
		return nil
	}
	panic("leaves: " + t.String())
}

func leafVar(name string, l leaf) *Term { return fresh(name+l.name, l.sort, l.lo, l.hi) }

func mapKeySort(t *types.Map) *Sort {
	l := leaves(t.Key())
	if len(l) != 1 {
		panic(unsup("map key type " + t.Key().String()))
	}
	return l[0].sort
}

type unsupported struct{ msg string }

func unsup(s string) unsupported { return unsupported{s} }

// ---- state

// isStrBuf: bytes.Buffer and strings.Builder are a single string of contents.
func isStrBuf(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	k := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	return k == "bytes.Buffer" || k == "strings.Builder"
}

// isOpaque: types whose fields are never looked at by the verified code.
func isOpaque(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	if strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	k := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	return k != "net/url.URL"
}

type State struct {
	pc    []*Term
	env   map[ssa.Value]Val
	heap  map[string]*Term
	alloc *Term
	defs  []deferred
}

type deferred struct {
	call *ssa.CallCommon
	args []Val
	fn   Val
}

func (s *State) clone() *State {
	n := &State{pc: s.pc[:len(s.pc):len(s.pc)], alloc: s.alloc, defs: s.defs[:len(s.defs):len(s.defs)]}
	n.env = make(map[ssa.Value]Val, len(s.env)+8)
	for k, v := range s.env {
		n.env[k] = v
	}
	n.heap = make(map[string]*Term, len(s.heap)+4)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	return n
}

func (s *State) pcT() *Term { return and(s.pc...) }

func (s *State) assume(c *Term) {
	if c == tTrue {
		return
	}
	s.pc = append(s.pc, conj(c)...)
	if c == tFalse {
		s.pc = append(s.pc, tFalse)
	}
}
func (s *State) dead() bool { return s.pcT() == tFalse }

// ---- heap access

func hkey(root types.Type, lf string) string { return typeName(root) + lf }

func (x *Exec) heapGet(st *State, key string, ls *Sort) *Term {
	return x.heapGetS(st, key, sArr(sInt, sArr(sInt, ls)))
}

func (x *Exec) heapGetS(st *State, key string, s *Sort) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	t := mkVar("H0_"+sanitize(key), s, nil, nil)
	if g, ok := x.initHeap[key]; ok {
		t = g
	}
	st.heap[key] = t
	return t
}

func ranged(t *Term, l leaf) *Term {
	if t.sort == sInt && (t.op == oSel || t.op == oApp || t.op == oVar) && t.lo == nil && t.hi == nil && (l.lo != nil || l.hi != nil) {
		t.lo, t.hi = l.lo, l.hi
	}
	return t
}

func (x *Exec) loadLeaf(st *State, root types.Type, l leaf, ref, idx *Term) *Term {
	h := x.heapGet(st, hkey(root, l.name), l.sort)
	t := ranged(sel(ranged(sel(h, ref), leaf{}), idx), l)
	if l.kind == 'r' && (t.op == oSel || t.op == oVar) && !t.hasB {
		if t.op == oVar {
			x.fact(st, lt(t, st.alloc))
		} else if a := t.args[0]; a.op == oSel && a.args[0].op == oVar && strings.HasPrefix(a.args[0].name, "H0_") && a.args[1].hi != nil && a.args[1].hi.Cmp(bAlloc0) < 0 {
			// reachable from the arguments in the initial heap: allocated before entry
			t.lo, t.hi = bi0, new(big.Int).Sub(bAlloc0, bi1)
		} else if !t.hasB {
			x.fact(st, lt(t, st.alloc))
		}
	} else if l.kind == 'r' && t.op == oSel && t.hasB && !t.args[0].hasB {
		// the same for every element
		if a := t.args[0]; a.op == oSel && a.args[0].op == oVar && strings.HasPrefix(a.args[0].name, "H0_") && a.args[1].hi != nil && a.args[1].hi.Cmp(bAlloc0) < 0 && !x.wf[a] {
			if x.wf == nil {
				x.wf = map[*Term]bool{}
			}
			x.wf[a] = true
			bv := mkBVar("i")
			e := sel(a, bv)
			x.wfFacts = append(x.wfFacts, forall([]*Term{bv}, and(le(cInt(0), e), lt(e, cInt(refAlloc0)))))
		} else if x.c.wfrefs {
			bv := mkBVar("i")
			e := sel(a, bv)
			al := st.alloc
			if x.specBase != nil {
				al = x.specBase
			}
			x.fact(st, or(le(al, ref), forall([]*Term{bv}, and(le(cInt(0), e), lt(e, al)))))
		}
	}
	return t
}

func (x *Exec) storeLeaf(st *State, root types.Type, l leaf, ref, idx, v *Term) {
	k := hkey(root, l.name)
	h := x.heapGet(st, k, l.sort)
	st.heap[k] = sto(h, ref, sto(sel(h, ref), idx, v))
}

// fieldAt resolves a path inside root to the type and the leaf name prefix.
func fieldAt(root types.Type, path []int) (types.Type, string) {
	t, p := root, ""
	for _, i := range path {
		f := under(t).(*types.Struct).Field(i)
		t, p = f.Type(), p+"."+f.Name()
	}
	return t, p
}

// loadTyped loads a value of type t whose leaves have prefix p at (root,ref,idx).
func (x *Exec) loadTyped(st *State, root types.Type, p string, t types.Type, ref, idx *Term) Val {
	switch u := shape(t).(type) {
	case *types.Struct:
		sv := StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.f = append(sv.f, x.loadTyped(st, root, p+"."+u.Field(i).Name(), u.Field(i).Type(), ref, idx))
		}
		return sv
	case *types.Array:
		l := leaves(t)[0]
		l.name = p + l.name
		aref := x.loadLeaf(st, root, l, ref, idx)
		return x.loadArr(st, u, aref)
	}
	ls := leaves(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		l.name = p + l.name
		ts[i] = x.loadLeaf(st, root, l, ref, idx)
	}
	v := x.fromLeaves(t, ts)
	if sl, ok := v.(SliceV); ok && !sl.ln.hasB {
		x.sliceFacts(st, sl)
	}
	return v
}

func (x *Exec) sliceFacts(st *State, s SliceV) {
	x.fact(st, le(s.ln, s.cp))
	x.fact(st, le(cInt(0), s.ln))
	x.fact(st, le(cInt(0), s.ref))
	x.fact(st, imp(eq(s.ref, cInt(0)), eq(s.cp, cInt(0))))
}

func (x *Exec) loadArr(st *State, u *types.Array, aref *Term) Val {
	av := ArrV{t: u}
	for _, l := range leaves(u.Elem()) {
		h := x.heapGet(st, hkey(u.Elem(), l.name), l.sort)
		av.leaves = append(av.leaves, sel(h, aref))
	}
	return av
}

func (x *Exec) storeArr(st *State, u *types.Array, aref *Term, av ArrV) {
	for i, l := range leaves(u.Elem()) {
		k := hkey(u.Elem(), l.name)
		h := x.heapGet(st, k, l.sort)
		st.heap[k] = sto(h, aref, av.leaves[i])
	}
}

func (x *Exec) fromLeaves(t types.Type, ts []*Term) Val {
	if isStrBuf(t) || isOpaque(t) {
		return ts[0]
	}
	switch u := shape(t).(type) {
	case *types.Basic:
		return ts[0]
	case *types.Slice:
		return SliceV{ts[0], ts[1], ts[2], ts[3], u.Elem()}
	case *types.Pointer:
		return PtrV{ref: ts[0], idx: ts[1], root: ptrRoot(u.Elem())}
	case *types.Map:
		return MapV{ts[0], u}
	case *types.Chan:
		return ChanV{ts[0], t}
	case *types.Interface:
		if iv, ok := x.ifaces[ts[0]]; ok {
			return iv
		}
		return IfaceV{id: ts[0]}
	case *types.Signature:
		if fv, ok := x.funcs[ts[0]]; ok {
			return fv
		}
		return FuncV{id: ts[0], t: t}
	case *types.Struct:
		sv := StructV{t: t}
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			c := len(leaves(u.Field(i).Type()))
			sv.f = append(sv.f, x.fromLeaves(u.Field(i).Type(), ts[n:n+c]))
			n += c
		}
		return sv
	}
	panic(unsup("fromLeaves " + t.String()))
}

// ptrRoot: pointer to array is represented as pointer to its first element.
func ptrRoot(t types.Type) types.Type {
	if a, ok := under(t).(*types.Array); ok {
		return a.Elem()
	}
	return t
}

func (x *Exec) toLeaves(v Val, t types.Type) []*Term {
	switch v := v.(type) {
	case *Term:
		return []*Term{v}
	case SliceV:
		return []*Term{v.ref, v.off, v.ln, v.cp}
	case PtrV:
		if v.glob != nil || len(v.path) > 0 {
			panic(unsup("interior pointer stored or passed as a value: " + typeName(v.root)))
		}
		return []*Term{v.ref, v.idx}
	case MapV:
		return []*Term{v.ref}
	case ChanV:
		return []*Term{v.ref}
	case IfaceV:
		return []*Term{v.id}
	case FuncV:
		return []*Term{v.id}
	case StructV:
		var out []*Term
		u := under(v.t).(*types.Struct)
		for i, f := range v.f {
			out = append(out, x.toLeaves(f, u.Field(i).Type())...)
		}
		return out
	}
	panic(unsup(fmt.Sprintf("toLeaves %T", v)))
}

func (x *Exec) storeTyped(st *State, root types.Type, p string, t types.Type, ref, idx *Term, v Val) {
	switch u := shape(t).(type) {
	case *types.Struct:
		sv := v.(StructV)
		for i := 0; i < u.NumFields(); i++ {
			x.storeTyped(st, root, p+"."+u.Field(i).Name(), u.Field(i).Type(), ref, idx, sv.f[i])
		}
		return
	case *types.Array:
		l := leaves(t)[0]
		l.name = p + l.name
		aref := x.loadLeaf(st, root, l, ref, idx)
		x.storeArr(st, u, aref, v.(ArrV))
		return
	}
	ls := leaves(t)
	for i, tm := range x.toLeaves(v, t) {
		l := ls[i]
		l.name = p + l.name
		x.storeLeaf(st, root, l, ref, idx, tm)
	}
}

func (x *Exec) load(st *State, p PtrV) Val {
	if p.glob != nil {
		return x.loadGlobal(st, p.glob)
	}
	t, pre := fieldAt(p.root, p.path)
	return x.loadTyped(st, p.root, pre, t, p.ref, p.idx)
}

func (x *Exec) store(st *State, p PtrV, v Val) {
	if p.glob != nil {
		x.storeGlobal(st, p.glob, v)
		return
	}
	t, pre := fieldAt(p.root, p.path)
	x.storeTyped(st, p.root, pre, t, p.ref, p.idx, v)
}

// newRef allocates a reference distinct from every live one.
func (x *Exec) newRef(st *State) *Term {
	r := st.alloc
	st.alloc = addc(st.alloc, 1)
	return r
}

// allocElems zero-initialises a fresh object holding elements of type elem.
func (x *Exec) allocElems(st *State, elem types.Type, n *Term) *Term {
	ref := x.newRef(st)
	x.zeroAt(st, elem, ref)
	return ref
}

func (x *Exec) zeroAt(st *State, elem types.Type, ref *Term) {
	x.zeroLeaves(st, elem, "", elem, ref)
}

func (x *Exec) zeroLeaves(st *State, root types.Type, p string, t types.Type, ref *Term) {
	switch u := shape(t).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			x.zeroLeaves(st, root, p+"."+u.Field(i).Name(), u.Field(i).Type(), ref)
		}
		return
	case *types.Array:
		aref := x.allocElems(st, u.Elem(), nil)
		k := hkey(root, p+".aref")
		h := x.heapGet(st, k, sInt)
		st.heap[k] = sto(h, ref, karr(sArr(sInt, sInt), aref))
		return
	}
	for _, l := range leaves(t) {
		k := hkey(root, p+l.name)
		h := x.heapGet(st, k, l.sort)
		st.heap[k] = sto(h, ref, karr(sArr(sInt, l.sort), zeroLeaf(l)))
	}
}

func zeroLeaf(l leaf) *Term {
	switch l.sort {
	case sInt:
		return cInt(0)
	case sBool:
		return tFalse
	case sStr:
		return slit("")
	}
	panic("zeroLeaf")
}

func (x *Exec) zeroVal(t types.Type) Val {
	switch u := shape(t).(type) {
	case *types.Struct:
		sv := StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.f = append(sv.f, x.zeroVal(u.Field(i).Type()))
		}
		return sv
	case *types.Array:
		av := ArrV{t: u}
		for _, l := range leaves(u.Elem()) {
			av.leaves = append(av.leaves, karr(sArr(sInt, l.sort), zeroLeaf(l)))
		}
		return av
	case *types.Tuple:
		return nil
	}
	var ts []*Term
	for _, l := range leaves(t) {
		ts = append(ts, zeroLeaf(l))
	}
	return x.fromLeaves(t, ts)
}

// havocVal makes an arbitrary well-typed value.
func (x *Exec) havocVal(st *State, name string, t types.Type) Val {
	switch u := shape(t).(type) {
	case *types.Struct:
		sv := StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.f = append(sv.f, x.havocVal(st, name+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return sv
	case *types.Array:
		av := ArrV{t: u}
		for _, l := range leaves(u.Elem()) {
			av.leaves = append(av.leaves, fresh(name+l.name, sArr(sInt, l.sort), nil, nil))
		}
		return av
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, x.havocVal(st, name, u.At(i).Type()))
		}
		return tv
	}
	var ts []*Term
	for _, l := range leaves(t) {
		v := leafVar(name, l)
		if l.kind == 'r' {
			x.fact(st, lt(v, st.alloc))
		}
		ts = append(ts, v)
	}
	v := x.fromLeaves(t, ts)
	if s, ok := v.(SliceV); ok {
		x.sliceFacts(st, s)
	}
	return v
}

// ---- merging values

func (x *Exec) mergeVal(c *Term, a, b Val) Val {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	switch a := a.(type) {
	case *Term:
		return ite(c, a, b.(*Term))
	case SliceV:
		bb := b.(SliceV)
		if a == bb {
			return a
		}
		return SliceV{ite(c, a.ref, bb.ref), ite(c, a.off, bb.off), ite(c, a.ln, bb.ln), ite(c, a.cp, bb.cp), a.elem}
	case PtrV:
		bb := b.(PtrV)
		if a.glob != bb.glob || len(a.path) != len(bb.path) {
			return poison{"merge of different interior pointers"}
		}
		for i := range a.path {
			if a.path[i] != bb.path[i] {
				return poison{"merge of different interior pointers"}
			}
		}
		if a.glob != nil {
			return a
		}
		return PtrV{ref: ite(c, a.ref, bb.ref), idx: ite(c, a.idx, bb.idx), root: a.root, path: a.path}
	case StructV:
		bb := b.(StructV)
		r := StructV{t: a.t}
		for i := range a.f {
			r.f = append(r.f, x.mergeVal(c, a.f[i], bb.f[i]))
		}
		return r
	case ArrV:
		bb := b.(ArrV)
		r := ArrV{t: a.t}
		for i := range a.leaves {
			r.leaves = append(r.leaves, ite(c, a.leaves[i], bb.leaves[i]))
		}
		return r
	case IfaceV:
		bb := b.(IfaceV)
		id := ite(c, a.id, bb.id)
		if id == a.id {
			return a
		}
		if id == bb.id {
			return bb
		}
		return IfaceV{id: id}
	case FuncV:
		bb := b.(FuncV)
		id := ite(c, a.id, bb.id)
		if id == a.id {
			return a
		}
		if id == bb.id {
			return bb
		}
		return FuncV{id: id, t: a.t}
	case MapV:
		return MapV{ite(c, a.ref, b.(MapV).ref), a.t}
	case ChanV:
		return ChanV{ite(c, a.ref, b.(ChanV).ref), a.t}
	case TupleV:
		bb := b.(TupleV)
		var r TupleV
		for i := range a {
			r = append(r, x.mergeVal(c, a[i], bb[i]))
		}
		return r
	case IterV:
		return a
	case poison:
		return a
	}
	panic(fmt.Sprintf("mergeVal %T", a))
}

type poison struct{ why string }

func sameVal(a, b Val) bool {
	switch a := a.(type) {
	case *Term:
		return a == b
	case SliceV:
		bb, ok := b.(SliceV)
		return ok && a.ref == bb.ref && a.off == bb.off && a.ln == bb.ln && a.cp == bb.cp
	case MapV:
		bb, ok := b.(MapV)
		return ok && a.ref == bb.ref
	}
	return false
}

// mergeStates joins states at a control-flow merge.
func (x *Exec) mergeStates(ss []*State) *State {
	var live []*State
	for _, s := range ss {
		if !s.dead() {
			live = append(live, s)
		}
	}
	if len(live) == 0 {
		return nil
	}
	if len(live) == 1 {
		return live[0]
	}
	// common prefix
	n := 0
	for {
		if n >= len(live[0].pc) {
			break
		}
		ok := true
		for _, s := range live[1:] {
			if n >= len(s.pc) || s.pc[n] != live[0].pc[n] {
				ok = false
				break
			}
		}
		if !ok {
			break
		}
		n++
	}
	rel := make([]*Term, len(live))
	for i, s := range live {
		rel[i] = and(s.pc[n:]...)
	}
	out := live[len(live)-1].clone()
	out.pc = append([]*Term{}, live[0].pc[:n]...)
	out.assume(or(rel...))
	for i := len(live) - 2; i >= 0; i-- {
		s := live[i]
		c := rel[i]
		// env: keep values present in all
		for k, v := range out.env {
			w, ok := s.env[k]
			if !ok {
				delete(out.env, k)
				continue
			}
			if tb, ok := v.(*Term); ok && tb == w {
				continue
			}
			out.env[k] = x.mergeVal(c, w, v)
		}
		keys := map[string]bool{}
		for k := range s.heap {
			keys[k] = true
		}
		for k := range out.heap {
			keys[k] = true
		}
		for k := range keys {
			a, ok1 := s.heap[k]
			b, ok2 := out.heap[k]
			if !ok1 {
				a = x.heapGetS(s, k, b.sort)
			}
			if !ok2 {
				b = x.heapGetS(out, k, a.sort)
			}
			out.heap[k] = ite(c, a, b)
		}
		if s.alloc != out.alloc {
			d := sub(s.alloc, out.alloc)
			if isC(d) {
				if d.k.Sign() > 0 {
					out.alloc = s.alloc
				}
			} else {
				a := fresh("alloc", sInt, bAlloc0, nil)
				x.factRaw(le(s.alloc, a))
				x.factRaw(le(out.alloc, a))
				out.alloc = a
			}
		}
		if len(s.defs) != len(out.defs) {
			panic(unsup("conditional defer"))
		}
	}
	return out
}

// ---- machine arithmetic

// wrap reduces t to the range of type ty exactly as the machine does.
func wrap(t *Term, ty types.Type) *Term {
	lo, hi, bits, signed, ok := intRange(ty)
	if !ok {
		return t
	}
	return wrapBits(t, lo, hi, bits, signed)
}

func wrapBits(t *Term, lo, hi *big.Int, bits int, signed bool) *Term {
	if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
		return t
	}
	m := pow2i(bits)
	if !signed {
		if bits <= 32 || t.lo == nil || t.hi == nil || t.lo.Cmp(new(big.Int).Neg(m)) < 0 || t.hi.Cmp(new(big.Int).Lsh(m, 1)) >= 0 {
			if t.lo != nil && t.hi != nil && t.lo.Sign() >= 0 && t.hi.Cmp(new(big.Int).Lsh(m, 1)) < 0 {
				return ite(le(t, cBig(hi)), t, sub(t, cBig(m)))
			}
			return modc(t, m)
		}
		r := t
		if t.hi.Cmp(hi) > 0 {
			r = ite(le(t, cBig(hi)), t, sub(t, cBig(m)))
		}
		if t.lo.Sign() < 0 {
			r = ite(le(cInt(0), t), r, add(t, cBig(m)))
		}
		return r
	}
	half := pow2i(bits - 1)
	if t.lo != nil && t.hi != nil && t.lo.Cmp(new(big.Int).Sub(lo, m)) >= 0 && t.hi.Cmp(new(big.Int).Add(hi, m)) <= 0 {
		r := t
		if t.hi.Cmp(hi) > 0 {
			r = ite(le(t, cBig(hi)), t, sub(t, cBig(m)))
		}
		if t.lo.Cmp(lo) < 0 {
			r = ite(le(cBig(lo), t), r, add(t, cBig(m)))
		}
		return r
	}
	return sub(modc(add(t, cBig(half)), m), cBig(half))
}

// toUnsigned views a signed value as its unsigned bit pattern.
func toUnsigned(t *Term, bits int) *Term {
	return wrapBits(t, bi0, new(big.Int).Sub(pow2i(bits), bi1), bits, false)
}

func pow2t(n *Term) *Term {
	if isC(n) {
		if n.k.Sign() < 0 {
			return cInt(0)
		}
		if n.k.Cmp(bi(256)) > 0 {
			return app("pow2", sInt, bi1, nil, n)
		}
		return cBig(pow2i(int(n.k.Int64())))
	}
	if n.op == oIte && constLeaves(n, 6) {
		return ite(n.args[0], pow2t(n.args[1]), pow2t(n.args[2]))
	}
	var hi *big.Int
	if n.hi != nil && n.hi.Cmp(bi(128)) <= 0 && n.hi.Sign() >= 0 {
		hi = pow2i(int(n.hi.Int64()))
	}
	return app("pow2", sInt, bi1, hi, n)
}

// bitRuns decomposes a nonnegative constant into runs [i,j) of one bits.
func bitRuns(c *big.Int) [][2]int {
	var out [][2]int
	n := c.BitLen()
	for i := 0; i < n; {
		if c.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && c.Bit(j) == 1 {
			j++
		}
		out = append(out, [2]int{i, j})
		i = j
	}
	return out
}

// band is bitwise and of two nonnegative terms of the given width.
func band(a, b *Term, bits int) *Term {
	if isC(a) {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if isC(b) {
		r := cInt(0)
		for _, run := range bitRuns(b.k) {
			p := divc(a, pow2i(run[0]))
			if !(a.hi != nil && a.lo != nil && a.lo.Sign() >= 0 && a.hi.Cmp(pow2i(run[1])) < 0) {
				p = modc(p, pow2i(run[1]-run[0]))
			}
			r = add(r, mulc(p, pow2i(run[0])))
		}
		return r
	}
	// b of the form 2^k - 1
	if b.op == oLin && len(b.args) == 1 && b.k.Cmp(bi(-1)) == 0 && b.coefs[0].Cmp(bi1) == 0 && b.args[0].op == oApp && b.args[0].name == "pow2" {
		return modx(a, b.args[0])
	}
	if a.op == oLin && len(a.args) == 1 && a.k.Cmp(bi(-1)) == 0 && a.coefs[0].Cmp(bi1) == 0 && a.args[0].op == oApp && a.args[0].name == "pow2" {
		return modx(b, a.args[0])
	}
	if a.op == oIte && (isC(a.args[1]) || isC(a.args[2])) {
		return ite(a.args[0], band(a.args[1], b, bits), band(a.args[2], b, bits))
	}
	if b.op == oIte && (isC(b.args[1]) || isC(b.args[2])) {
		return ite(b.args[0], band(a, b.args[1], bits), band(a, b.args[2], bits))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return app("band", sInt, bi0, minB(a.hi, b.hi), a, b)
}

func bitsHi(t *Term) int {
	if t.hi == nil {
		return 1 << 20
	}
	return t.hi.BitLen()
}

func bor(a, b *Term, bits int) *Term {
	if isC(a) && a.k.Sign() == 0 {
		return b
	}
	if isC(b) && b.k.Sign() == 0 {
		return a
	}
	if a == b {
		return a
	}
	if a.tzero >= bitsHi(b) || b.tzero >= bitsHi(a) {
		return add(a, b)
	}
	if isC(a) || isC(b) {
		return sub(add(a, b), band(a, b, bits))
	}
	if a.op == oIte && (isC(a.args[1]) || isC(a.args[2])) {
		return ite(a.args[0], bor(a.args[1], b, bits), bor(a.args[2], b, bits))
	}
	if b.op == oIte && (isC(b.args[1]) || isC(b.args[2])) {
		return ite(b.args[0], bor(a, b.args[1], bits), bor(a, b.args[2], bits))
	}
	// bits known to be disjoint by construction: x*2^k mod.. | y handled by tzero above
	if a.id > b.id {
		a, b = b, a
	}
	return app("bor", sInt, bi0, new(big.Int).Sub(pow2i(bits), bi1), a, b)
}

func bxor(a, b *Term, bits int) *Term {
	if isC(a) && a.k.Sign() == 0 {
		return b
	}
	if isC(b) && b.k.Sign() == 0 {
		return a
	}
	if a == b {
		return cInt(0)
	}
	if isC(a) || isC(b) {
		return sub(add(a, b), mulc(band(a, b, bits), bi(2)))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return app("bxor", sInt, bi0, new(big.Int).Sub(pow2i(bits), bi1), a, b)
}

// ---- strings

func sat(s, i *Term) *Term {
	if s.op == oLit && isC(i) && i.k.IsInt64() && i.k.Sign() >= 0 && i.k.Int64() < int64(len(s.name)) {
		return cInt(int64(s.name[i.k.Int64()]))
	}
	if s.op == oApp && s.name == "bstr" {
		t := sel(s.args[0], add(s.args[1], i))
		return ranged(t, leaf{lo: bi0, hi: bi(255)})
	}
	return app("sat", sInt, bi0, bi(255), s, i)
}

// satDeep is sat of a concatenation or choice, part by part.
func satDeep(s, i *Term) *Term {
	switch s.op {
	case oCat:
		n := slen(s.args[0])
		return ite(lt(i, n), satDeep(s.args[0], i), satDeep(cat(s.args[1:]...), sub(i, n)))
	case oIte:
		return ite(s.args[0], satDeep(s.args[1], i), satDeep(s.args[2], i))
	case oLit:
		if len(s.name) == 1 {
			return cInt(int64(s.name[0]))
		}
	}
	return sat(s, i)
}

// extStr replaces equations between strings read out of memory by equations of
// their bytes: for a goal, where that is the same.
func extStr(g *Term) *Term {
	switch g.op {
	case oEq:
		a, b := g.args[0], g.args[1]
		if a.sort == sStr && (isBstr(a) || isBstr(b)) {
			i := fresh("at", sInt, bi0, nil)
			return or(g, and(eq(slen(a), slen(b)), imp(lt(i, slen(a)), eq(satDeep(a, i), satDeep(b, i)))))
		}
	case oOr:
		var as []*Term
		ch := false
		for _, a := range g.args {
			e := extStr(a)
			ch = ch || e != a
			as = append(as, e)
		}
		if ch {
			return or(as...)
		}
	case oAnd:
		var as []*Term
		ch := false
		for _, a := range g.args {
			e := extStr(a)
			ch = ch || e != a
			as = append(as, e)
		}
		if ch {
			return and(as...)
		}
	}
	return g
}

func isBstr(t *Term) bool {
	if t.op == oCat {
		for _, a := range t.args {
			if isBstr(a) {
				return true
			}
		}
	}
	return t.op == oApp && t.name == "bstr"
}

func ssub(s, i, j *Term) *Term {
	if isC(i) && i.k.Sign() == 0 && j == slen(s) {
		return s
	}
	if i == j {
		return slit("")
	}
	if s.op == oLit && isC(i) && isC(j) {
		a, b := i.k.Int64(), j.k.Int64()
		if 0 <= a && a <= b && b <= int64(len(s.name)) {
			return slit(s.name[a:b])
		}
	}
	if s.op == oApp && s.name == "bstr" {
		return bstr(s.args[0], add(s.args[1], i), sub(j, i))
	}
	if s.op == oApp && s.name == "ssub" {
		// substring of substring
		return app("ssub", sStr, nil, nil, s.args[0], add(s.args[1], i), add(s.args[1], j))
	}
	if s.op == oCat && isC(i) && i.k.Sign() == 0 {
		// prefix of a concatenation at a part boundary
		n := cInt(0)
		for k, p := range s.args {
			if n == j {
				return cat(s.args[:k]...)
			}
			n = add(n, slen(p))
		}
	}
	if s.op == oCat && j == slen(s) {
		n := cInt(0)
		for k, p := range s.args {
			if n == i {
				return cat(s.args[k:]...)
			}
			n = add(n, slen(p))
		}
	}
	return app("ssub", sStr, nil, nil, s, i, j)
}

// bstr is the string with the n bytes of arr starting at off.
func bstr(arr, off, n *Term) *Term {
	if isC(n) {
		if n.k.Sign() <= 0 {
			return slit("")
		}
		if isC(off) && n.k.Cmp(bi(64)) <= 0 {
			var b []byte
			for i := int64(0); i < n.k.Int64(); i++ {
				c := sel(arr, addc(off, i))
				if !isC(c) {
					b = nil
					break
				}
				b = append(b, byte(c.k.Int64()))
			}
			if b != nil {
				return slit(string(b))
			}
		}
	}
	if arr.op == oApp && arr.name == "sbytes" {
		return ssub(arr.args[0], off, add(off, n))
	}
	return app("bstr", sStr, nil, nil, arr, off, n)
}

func sbytes(s *Term) *Term {
	return app("sbytes", sArr(sInt, sInt), nil, nil, s)
}

func chr(c *Term) *Term {
	if isC(c) {
		return slit(string([]byte{byte(c.k.Int64())}))
	}
	return app("chr", sStr, nil, nil, c)
}
