package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic Go value.
type Val interface{}

type VT struct {
	t   *Term
	typ types.Type
}

// VPtr is a pointer. kind 'o': address of an object (struct, array or boxed cell);
// 'f': address of a scalar component key at ref; 'e': address of slice/array element.
type VPtr struct {
	kind byte
	ref  *Term
	idx  *Term
	key  string
	elem types.Type // pointee type
}

type VSlice struct {
	base, off, len, cap *Term
	elem                types.Type
}

type VStruct struct {
	typ types.Type
	f   []Val
}

type VArr struct {
	typ types.Type
	e   []Val
}

type VTup []Val

type VIface struct {
	t   *Term
	typ types.Type
}

type VFunc struct {
	fn    *ssa.Function
	binds []Val
	t     *Term
	typ   types.Type
	bi    *ssa.Builtin
	model string // externally modelled bound method
}

// VIter is a map/string iterator.
type VIter struct {
	m   Val
	typ types.Type
}

type comp struct {
	suf  string
	sort string
	ref  bool // nonnegative in the initial heap
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

var typeStrMemo sync.Map

func typeStr(t types.Type) string {
	if s, ok := typeStrMemo.Load(t); ok {
		return s.(string)
	}
	s := types.TypeString(t, func(p *types.Package) string {
		return strings.TrimPrefix(p.Path(), "zntr.io/solid/")
	})
	s = strings.ReplaceAll(s, "interface{}", "any")
	typeStrMemo.Store(t, s)
	return s
}

func isNamed(t types.Type, full string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return n.Obj().Pkg().Path()+"."+n.Obj().Name() == full
}

func isTime(t types.Type) bool { return isNamed(t, "time.Time") }

// opaqueStruct types are modelled as one Int component.
func opaqueStruct(t types.Type) bool {
	return isTime(t) || isNamed(t, "time.Location") || isNamed(t, "math/big.Int")
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok && !opaqueStruct(t)
}

func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	if ok {
		if _, tp := types.Unalias(t).(*types.TypeParam); tp {
			return false
		}
	}
	return ok
}

func scalarSort(t types.Type) (string, bool, bool) {
	if opaqueStruct(t) {
		return sInt, false, true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return sBool, false, true
		case u.Info()&types.IsInteger != 0:
			return sInt, u.Info()&types.IsUnsigned != 0, true
		case u.Info()&types.IsString != 0:
			return sStr, false, true
		case u.Info()&types.IsFloat != 0, u.Info()&types.IsComplex != 0:
			return sReal, false, true
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return sInt, true, true
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return sInt, true, true
	case *types.Interface:
		return sIface, false, true
	case *types.Array:
		if isByte(u.Elem()) {
			return sStr, false, true
		}
	}
	return "", false, false
}

// comps lists the scalar components of a value of type t that is not a struct.
func comps(t types.Type) []comp {
	if s, ref, ok := scalarSort(t); ok {
		return []comp{{"", s, ref}}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return []comp{{"#base", sInt, true}, {"#len", sInt, true}, {"#cap", sInt, true}, {"#off", sInt, true}}
	case *types.Struct:
		var r []comp
		for i := 0; i < u.NumFields(); i++ {
			for _, c := range comps(u.Field(i).Type()) {
				r = append(r, comp{fmt.Sprintf(".%s%s", u.Field(i).Name(), c.suf), c.sort, c.ref})
			}
		}
		return r
	case *types.Array:
		var r []comp
		for i := int64(0); i < u.Len() && i < 16; i++ {
			for _, c := range comps(u.Elem()) {
				r = append(r, comp{fmt.Sprintf("[%d]%s", i, c.suf), c.sort, c.ref})
			}
		}
		return r
	case *types.Tuple:
		return nil
	}
	panic(Unsupported{"comps of " + t.String()})
}

type Unsupported struct{ msg string }

// fromTerms builds a value of type t from its component terms.
func fromTerms(t types.Type, ts []*Term) Val {
	v, rest := fromTerms1(t, ts)
	if len(rest) != 0 {
		panic("fromTerms: leftover")
	}
	return v
}

func fromTerms1(t types.Type, ts []*Term) (Val, []*Term) {
	if _, _, ok := scalarSort(t); ok {
		x := ts[0]
		switch t.Underlying().(type) {
		case *types.Pointer:
			return ptrFromTerm(t, x), ts[1:]
		case *types.Interface:
			return VIface{x, t}, ts[1:]
		case *types.Signature:
			return funcFromTerm(t, x), ts[1:]
		}
		return VT{x, t}, ts[1:]
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return VSlice{base: ts[0], len: ts[1], cap: ts[2], off: ts[3], elem: u.Elem()}, ts[4:]
	case *types.Struct:
		s := VStruct{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			var v Val
			v, ts = fromTerms1(u.Field(i).Type(), ts)
			s.f = append(s.f, v)
		}
		return s, ts
	case *types.Array:
		s := VArr{typ: t}
		for i := int64(0); i < u.Len() && i < 16; i++ {
			var v Val
			v, ts = fromTerms1(u.Elem(), ts)
			s.e = append(s.e, v)
		}
		return s, ts
	}
	panic(Unsupported{"fromTerms " + t.String()})
}

// interior pointers that were stored in memory
var ptrReg sync.Map // literal op -> VPtr

func ptrFromTerm(t types.Type, x *Term) Val {
	if x.isInt() {
		if p, ok := ptrReg.Load(x.op); ok {
			return p.(VPtr)
		}
	}
	return VPtr{kind: 'o', ref: x, elem: deref(t)}
}

var funcReg sync.Map // literal op -> VFunc
var funcIDs sync.Map // *ssa.Function -> *Term
var funcCtr int64 = 2_000_000_000
var regMu sync.Mutex

func funcFromTerm(t types.Type, x *Term) Val {
	if x.isInt() {
		if f, ok := funcReg.Load(x.op); ok {
			return f.(VFunc)
		}
	}
	return VFunc{t: x, typ: t}
}

// funcTerm encodes a function value as an Int term.
func funcTerm(f VFunc) *Term {
	if f.t != nil {
		return f.t
	}
	if f.fn != nil && len(f.binds) == 0 {
		if x, ok := funcIDs.Load(f.fn); ok {
			return x.(*Term)
		}
	}
	regMu.Lock()
	funcCtr++
	x := tInt(-funcCtr)
	regMu.Unlock()
	funcReg.Store(x.op, f)
	if f.fn != nil && len(f.binds) == 0 {
		funcIDs.Store(f.fn, x)
	}
	return x
}

var ptrCtr int64 = 3_000_000_000

func ptrTerm(p VPtr) *Term {
	if p.kind == 'o' {
		return p.ref
	}
	regMu.Lock()
	ptrCtr++
	x := tInt(-ptrCtr)
	regMu.Unlock()
	ptrReg.Store(x.op, p)
	return x
}

// toTerms is the inverse of fromTerms.
func toTerms(v Val) []*Term {
	switch x := v.(type) {
	case VT:
		return []*Term{x.t}
	case VPtr:
		return []*Term{ptrTerm(x)}
	case VIface:
		return []*Term{x.t}
	case VFunc:
		return []*Term{funcTerm(x)}
	case VSlice:
		return []*Term{x.base, x.len, x.cap, x.off}
	case VStruct:
		var r []*Term
		for _, f := range x.f {
			r = append(r, toTerms(f)...)
		}
		return r
	case VArr:
		var r []*Term
		for _, f := range x.e {
			r = append(r, toTerms(f)...)
		}
		return r
	}
	panic(Unsupported{fmt.Sprintf("toTerms %T", v)})
}

func term1(v Val) *Term {
	ts := toTerms(v)
	if len(ts) != 1 {
		panic(Unsupported{fmt.Sprintf("not a scalar: %T", v)})
	}
	return ts[0]
}

func zeroTerm(srt string) *Term {
	switch srt {
	case sBool:
		return tFalse
	case sInt:
		return tInt(0)
	case sStr:
		return tStrLit("")
	case sIface:
		return tNilIface
	case sReal:
		return tVar("realzero", sReal)
	}
	panic("zeroTerm " + srt)
}

func zeroVal(t types.Type) Val {
	if a, ok := t.Underlying().(*types.Array); ok && isByte(a.Elem()) {
		if a.Len() <= 4096 {
			return VT{tStrLit(strings.Repeat("\x00", int(a.Len()))), t}
		}
	}
	if isTime(t) {
		return VT{zeroTime, t}
	}
	if tup, ok := t.(*types.Tuple); ok {
		var r VTup
		for i := 0; i < tup.Len(); i++ {
			r = append(r, zeroVal(tup.At(i).Type()))
		}
		return r
	}
	if s, ok := t.Underlying().(*types.Struct); ok && !opaqueStruct(t) {
		r := VStruct{typ: t}
		for i := 0; i < s.NumFields(); i++ {
			r.f = append(r.f, zeroVal(s.Field(i).Type()))
		}
		return r
	}
	var ts []*Term
	for _, c := range comps(t) {
		ts = append(ts, zeroTerm(c.sort))
	}
	return fromTerms(t, ts)
}

// the zero time.Time in nanoseconds since the Unix epoch
var zeroTime = tBig(new(big.Int).Mul(big.NewInt(-62135596800), big.NewInt(1_000_000_000)))

func valType(v Val) types.Type {
	switch x := v.(type) {
	case VT:
		return x.typ
	case VPtr:
		return types.NewPointer(x.elem)
	case VSlice:
		return types.NewSlice(x.elem)
	case VStruct:
		return x.typ
	case VArr:
		return x.typ
	case VIface:
		return x.typ
	case VFunc:
		return x.typ
	}
	return nil
}

// ---- interfaces ----

var typeIDs sync.Map // typeStr -> int
var typeByID sync.Map
var typeCtr int64

func typeID(t types.Type) *Term {
	k := typeStr(types.Unalias(t))
	if x, ok := typeIDs.Load(k); ok {
		return x.(*Term)
	}
	regMu.Lock()
	defer regMu.Unlock()
	if x, ok := typeIDs.Load(k); ok {
		return x.(*Term)
	}
	typeCtr++
	x := tInt(typeCtr)
	typeIDs.Store(k, x)
	typeByID.Store(x.op, t)
	return x
}

func init() {
	for _, s := range []string{sInt, sStr, sBool, sReal} {
		s := s
		injective["mkI!"+s] = true
		groundFuns["mkI!"+s] = func(u *Term) []*Term {
			return []*Term{
				tEq(tApp("ityp", sInt, u), u.args[0]),
				tEq(tApp("ival!"+s, s, u), u.args[1]),
			}
		}
	}
	groundFuns["ityp"] = func(u *Term) []*Term {
		return []*Term{tEq(tEq(u, tInt(0)), tEq(u.args[0], tNilIface)), tLe(tInt(0), u)}
	}
}

func ifTyp(x *Term) *Term {
	if x == tNilIface {
		return tInt(0)
	}
	if x.kind == 'a' && strings.HasPrefix(x.op, "mkI!") {
		return x.args[0]
	}
	if x.kind == 'a' && x.op == "ite" {
		return tIte(x.args[0], ifTyp(x.args[1]), ifTyp(x.args[2]))
	}
	return tApp("ityp", sInt, x)
}

func ifVal(x *Term, srt string) *Term {
	if x.kind == 'a' && x.op == "mkI!"+srt {
		return x.args[1]
	}
	return tApp("ival!"+srt, srt, x)
}

// dynType returns the statically known dynamic type of an interface term.
func dynType(x *Term) types.Type {
	if x.kind == 'a' && strings.HasPrefix(x.op, "mkI!") {
		if t, ok := typeByID.Load(x.args[0].op); ok {
			return t.(types.Type)
		}
	}
	return nil
}

func boxed(t types.Type) bool {
	if _, _, ok := scalarSort(t); ok {
		return false
	}
	return true
}

// ---- heap ----

type Heap struct {
	m  map[string]*Term
	ep string
}

// keyReg remembers every heap map ever used with its sort.
var keyReg sync.Map

// subOwner maps sub-object literals to the allocation they belong to.
var subOwner sync.Map

func ownerLit(t *Term) *Term {
	for {
		o, ok := subOwner.Load(t)
		if !ok {
			return t
		}
		t = o.(*Term)
	}
}

func newHeap(ep string) *Heap { return &Heap{m: map[string]*Term{}, ep: ep} }

func (h *Heap) clone() *Heap {
	n := &Heap{m: make(map[string]*Term, len(h.m)+8), ep: h.ep}
	for k, v := range h.m {
		n.m[k] = v
	}
	return n
}

func (h *Heap) get(key, srt string, ref bool) *Term {
	if t, ok := h.m[key]; ok {
		return t
	}
	p := "H!"
	if ref {
		p = "HR!"
	}
	t := tVar(p+key+"@"+h.ep, srt)
	keyReg.Store(key, srt)
	h.m[key] = t
	return t
}

// sub-object references
var subLits sync.Map

// subPart says which part of which object a sub-object literal denotes
var subPart sync.Map

type part struct {
	op       string
	ref, idx *Term
}

// distinctPart: the literal sub-object lit is not the sub-object t.
func distinctPart(lit, t *Term) bool {
	x, ok := subPart.Load(lit)
	if !ok || t.kind != 'a' || !strings.HasPrefix(t.op, "sub!") {
		return false
	}
	p := x.(part)
	return p.op != t.op || distinctTerms(p.ref, t.args[0]) || (p.idx != nil && len(t.args) > 1 && distinctTerms(p.idx, t.args[1]))
}
var subCtr int64 = 1_000_000_000

func subRef(kind string, ref *Term, idx *Term) *Term {
	lit := ref.isInt() && (idx == nil || idx.isInt())
	if lit {
		k := kind + "|" + ref.op
		if idx != nil {
			k += "|" + idx.op
		}
		if x, ok := subLits.Load(k); ok {
			return x.(*Term)
		}
		regMu.Lock()
		defer regMu.Unlock()
		if x, ok := subLits.Load(k); ok {
			return x.(*Term)
		}
		subCtr++
		sign := int64(-1)
		if ref.big.Sign() >= 0 {
			sign = -1
		}
		x := tInt(sign * subCtr)
		subLits.Store(k, x)
		subOwner.Store(x, ref)
		subPart.Store(x, part{"sub!" + kind, ref, idx})
		return x
	}
	op := "sub!" + kind
	if idx == nil {
		return tApp(op, sInt, ref)
	}
	return tApp(op, sInt, ref, idx)
}

func fieldKey(t types.Type, i int) string {
	s := t.Underlying().(*types.Struct)
	return typeStr(types.Unalias(t)) + "." + s.Field(i).Name()
}

// loadObj loads a whole value of type t stored at object ref.
func (h *Heap) loadObj(t types.Type, ref *Term) Val {
	if isStruct(t) {
		s := t.Underlying().(*types.Struct)
		r := VStruct{typ: t}
		for i := 0; i < s.NumFields(); i++ {
			r.f = append(r.f, h.loadField(t, i, ref))
		}
		return r
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		if isByte(a.Elem()) {
			return VT{h.bytes(ref), t}
		}
		r := VArr{typ: t}
		for i := int64(0); i < a.Len() && i < 16; i++ {
			r.e = append(r.e, h.loadElem(a.Elem(), ref, tInt(i)))
		}
		return r
	}
	return h.loadKey("cell:"+typeStr(t), t, ref)
}

func (h *Heap) storeObj(t types.Type, ref *Term, v Val) {
	if isStruct(t) {
		s := t.Underlying().(*types.Struct)
		sv, ok := v.(VStruct)
		if !ok {
			panic(Unsupported{fmt.Sprintf("storeObj %T", v)})
		}
		for i := 0; i < s.NumFields(); i++ {
			h.storeField(t, i, ref, sv.f[i])
		}
		return
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		if isByte(a.Elem()) {
			h.setBytes(ref, term1(v))
			return
		}
		for i, e := range v.(VArr).e {
			h.storeElem(a.Elem(), ref, tInt(int64(i)), e)
		}
		return
	}
	h.storeKey("cell:"+typeStr(t), t, ref, v)
}

func (h *Heap) loadKey(key string, t types.Type, ref *Term) Val {
	var ts []*Term
	for _, c := range comps(t) {
		if c.suf == "#off" {
			a, ok := h.m[key+c.suf]
			if !ok {
				ts = append(ts, tInt(0))
				continue
			}
			ts = append(ts, tSelect(a, ref))
			continue
		}
		a := h.get(key+c.suf, arrSort(sInt, c.sort), c.ref)
		ts = append(ts, tSelect(a, ref))
	}
	return fromTerms(t, ts)
}

func (h *Heap) storeKey(key string, t types.Type, ref *Term, v Val) {
	ts := toTerms(v)
	for i, c := range comps(t) {
		var a *Term
		if c.suf == "#off" {
			var ok bool
			if a, ok = h.m[key+c.suf]; !ok {
				if ts[i] == tInt(0) {
					continue
				}
				a = tConstArr(arrSort(sInt, sInt), tInt(0))
			}
		} else {
			a = h.get(key+c.suf, arrSort(sInt, c.sort), c.ref)
		}
		h.m[key+c.suf] = tStore(a, ref, ts[i])
	}
}

func (h *Heap) loadField(t types.Type, i int, ref *Term) Val {
	ft := t.Underlying().(*types.Struct).Field(i).Type()
	k := fieldKey(t, i)
	if isStruct(ft) || isArrObj(ft) {
		return h.loadObj(ft, subRef(k, ref, nil))
	}
	return h.loadKey(k, ft, ref)
}

func (h *Heap) storeField(t types.Type, i int, ref *Term, v Val) {
	ft := t.Underlying().(*types.Struct).Field(i).Type()
	k := fieldKey(t, i)
	if isStruct(ft) || isArrObj(ft) {
		h.storeObj(ft, subRef(k, ref, nil), v)
		return
	}
	h.storeKey(k, ft, ref, v)
}

func isArrObj(t types.Type) bool {
	_, ok := t.Underlying().(*types.Array)
	return ok
}

// fieldAddr gives the address of field i of the object at ref.
func fieldAddr(t types.Type, i int, ref *Term) VPtr {
	ft := t.Underlying().(*types.Struct).Field(i).Type()
	k := fieldKey(t, i)
	if isStruct(ft) || isArrObj(ft) {
		return VPtr{kind: 'o', ref: subRef(k, ref, nil), elem: ft}
	}
	return VPtr{kind: 'f', ref: ref, key: k, elem: ft}
}

func elemAddr(elem types.Type, base, idx *Term) VPtr {
	if isStruct(elem) || isArrObj(elem) {
		return VPtr{kind: 'o', ref: subRef("elem:"+typeStr(elem), base, idx), elem: elem}
	}
	return VPtr{kind: 'e', ref: base, idx: idx, elem: elem}
}

func (h *Heap) load(p VPtr) Val {
	switch p.kind {
	case 'o':
		return h.loadObj(p.elem, p.ref)
	case 'f':
		return h.loadKey(p.key, p.elem, p.ref)
	case 'e':
		return h.loadElem(p.elem, p.ref, p.idx)
	}
	panic("load")
}

func (h *Heap) store(p VPtr, v Val) {
	switch p.kind {
	case 'o':
		h.storeObj(p.elem, p.ref, v)
	case 'f':
		h.storeKey(p.key, p.elem, p.ref, v)
	case 'e':
		h.storeElem(p.elem, p.ref, p.idx, v)
	default:
		panic("store")
	}
}

func (h *Heap) bytesMap() *Term { return h.get("bytes", arrSort(sInt, sStr), false) }

func (h *Heap) bytes(base *Term) *Term { return tSelect(h.bytesMap(), base) }
func (h *Heap) setBytes(base, s *Term) {
	h.m["bytes"] = tStore(h.bytesMap(), base, s)
}

func (h *Heap) loadElem(elem types.Type, base, idx *Term) Val {
	if isStruct(elem) || isArrObj(elem) {
		return h.loadObj(elem, subRef("elem:"+typeStr(elem), base, idx))
	}
	if isByte(elem) {
		return VT{tAt(h.bytes(base), idx), elem}
	}
	var ts []*Term
	for _, c := range comps(elem) {
		a := h.get("elem:"+typeStr(elem)+c.suf, arrSort(sInt, arrSort(sInt, c.sort)), c.ref)
		ts = append(ts, tSelect(tSelect(a, base), idx))
	}
	return fromTerms(elem, ts)
}

func (h *Heap) storeElem(elem types.Type, base, idx *Term, v Val) {
	if isStruct(elem) || isArrObj(elem) {
		h.storeObj(elem, subRef("elem:"+typeStr(elem), base, idx), v)
		return
	}
	if isByte(elem) {
		s := h.bytes(base)
		if s.isStr() && idx.isInt() && term1(v).isInt() {
			i := int(idx.big.Int64())
			if i >= 0 && i < len(s.op) {
				b := []byte(s.op)
				b[i] = byte(term1(v).big.Int64())
				h.setBytes(base, tStrLit(string(b)))
				return
			}
		}
		h.setBytes(base, tUpd(s, idx, term1(v)))
		return
	}
	ts := toTerms(v)
	for i, c := range comps(elem) {
		k := "elem:" + typeStr(elem) + c.suf
		a := h.get(k, arrSort(sInt, arrSort(sInt, c.sort)), c.ref)
		h.m[k] = tStore(a, base, tStore(tSelect(a, base), idx, ts[i]))
	}
}

// elemArr returns the inner array term holding component c of the elements at base.
func (h *Heap) elemArr(elem types.Type, c comp, base *Term) *Term {
	a := h.get("elem:"+typeStr(elem)+c.suf, arrSort(sInt, arrSort(sInt, c.sort)), c.ref)
	return tSelect(a, base)
}

func (h *Heap) view(s VSlice) *Term {
	if s.base.isInt() && s.base.big.Sign() == 0 {
		return tStrLit("")
	}
	return tSubstr(h.bytes(s.base), s.off, tAdd(s.off, s.len))
}

// ---- maps ----

func mapKey(t types.Type) string { return "map:" + typeStr(t.Underlying()) }

func keyTerm(v Val) *Term { return term1(v) }

func (h *Heap) mapDom(t types.Type, m *Term) *Term {
	mt := t.Underlying().(*types.Map)
	ks, _, ok := scalarSort(mt.Key())
	if !ok {
		panic(Unsupported{"map key " + mt.Key().String()})
	}
	return tSelect(h.get(mapKey(t)+"#dom", arrSort(sInt, arrSort(ks, sBool)), false), m)
}

func (h *Heap) mapHas(t types.Type, m, k *Term) *Term {
	return tAnd(tNot(tEq(m, tInt(0))), tSelect(h.mapDom(t, m), k))
}

func (h *Heap) mapGet(t types.Type, m, k *Term) Val {
	mt := t.Underlying().(*types.Map)
	ks, _, _ := scalarSort(mt.Key())
	var ts []*Term
	for _, c := range comps(mt.Elem()) {
		a := h.get(mapKey(t)+"#val"+c.suf, arrSort(sInt, arrSort(ks, c.sort)), c.ref)
		ts = append(ts, tSelect(tSelect(a, m), k))
	}
	return fromTerms(mt.Elem(), ts)
}

func (h *Heap) mapSet(t types.Type, m, k *Term, v Val) {
	mt := t.Underlying().(*types.Map)
	ks, _, _ := scalarSort(mt.Key())
	dk := mapKey(t) + "#dom"
	d := h.get(dk, arrSort(sInt, arrSort(ks, sBool)), false)
	had := tSelect(tSelect(d, m), k)
	h.m[dk] = tStore(d, m, tStore(tSelect(d, m), k, tTrue))
	ts := toTerms(v)
	for i, c := range comps(mt.Elem()) {
		kk := mapKey(t) + "#val" + c.suf
		a := h.get(kk, arrSort(sInt, arrSort(ks, c.sort)), c.ref)
		h.m[kk] = tStore(a, m, tStore(tSelect(a, m), k, ts[i]))
	}
	l := h.get("maplen", arrSort(sInt, sInt), true)
	h.m["maplen"] = tStore(l, m, tIte(had, tSelect(l, m), tAdd(tSelect(l, m), tInt(1))))
}

// mapPut overrides the entry of k: present when has holds.
func (h *Heap) mapPut(t types.Type, m, k *Term, v Val, has *Term) {
	n := h.get("maplen", arrSort(sInt, sInt), true)
	h.mapSet(t, m, k, v)
	h.m["maplen"] = n
	dk := mapKey(t) + "#dom"
	d := h.m[dk]
	h.m[dk] = tStore(d, m, tStore(tSelect(d, m), k, has))
}

func (h *Heap) mapDel(t types.Type, m, k *Term) {
	mt := t.Underlying().(*types.Map)
	ks, _, _ := scalarSort(mt.Key())
	dk := mapKey(t) + "#dom"
	d := h.get(dk, arrSort(sInt, arrSort(ks, sBool)), false)
	had := tSelect(tSelect(d, m), k)
	h.m[dk] = tStore(d, m, tStore(tSelect(d, m), k, tFalse))
	l := h.get("maplen", arrSort(sInt, sInt), true)
	h.m["maplen"] = tStore(l, m, tIte(had, tSub(tSelect(l, m), tInt(1)), tSelect(l, m)))
}

func (h *Heap) mapNew(t types.Type, m *Term) {
	mt := t.Underlying().(*types.Map)
	ks, _, ok := scalarSort(mt.Key())
	if !ok {
		panic(Unsupported{"map key " + mt.Key().String()})
	}
	dk := mapKey(t) + "#dom"
	d := h.get(dk, arrSort(sInt, arrSort(ks, sBool)), false)
	h.m[dk] = tStore(d, m, tConstArr(arrSort(ks, sBool), tFalse))
	l := h.get("maplen", arrSort(sInt, sInt), true)
	h.m["maplen"] = tStore(l, m, tInt(0))
}

func constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	u, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(Unsupported{"const type " + t.String()})
	}
	switch {
	case u.Info()&types.IsBoolean != 0:
		return VT{tBool(constant.BoolVal(c.Value)), t}
	case u.Info()&types.IsInteger != 0:
		return VT{bigConst(c.Value), t}
	case u.Info()&types.IsString != 0:
		return VT{tStrLit(constant.StringVal(c.Value)), t}
	case u.Info()&types.IsFloat != 0:
		return VT{tVar("real!"+c.Value.ExactString(), sReal), t}
	}
	panic(Unsupported{"const " + c.String()})
}

func bigConst(v constant.Value) *Term {
	v = constant.ToInt(v)
	b, ok := new(big.Int).SetString(v.ExactString(), 10)
	if !ok {
		panic("bigConst " + v.ExactString())
	}
	return tBig(b)
}
