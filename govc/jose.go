package main

import (
	"go/token"
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- JSON decoding: the decoded value is a function of the document ----

// decodeVal gives the value of type t found at path in the JSON document data; old is what the destination held.
func (ex *Exec) decodeVal(st *State, t types.Type, data *Term, path string, old Val) Val {
	if isStruct(t) {
		s := t.Underlying().(*types.Struct)
		r := VStruct{typ: t}
		ov, _ := old.(VStruct)
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			var o Val
			if i < len(ov.f) {
				o = ov.f[i]
			}
			if !f.Exported() {
				if o == nil {
					o = ex.symVal(f.Type(), "json")
				}
				r.f = append(r.f, o)
				continue
			}
			name := f.Name()
			tag := jsonTag(s.Tag(i))
			if tag == "-" {
				if o == nil {
					o = ex.symVal(f.Type(), "json")
				}
				r.f = append(r.f, o)
				continue
			}
			if tag == "" && f.Embedded() && isStruct(derefAny(f.Type())) {
				// the members of an embedded structure are members of the outer one
				noCustomJSON(derefAny(f.Type()), "UnmarshalJSON")
				r.f = append(r.f, ex.decodeEmbedded(st, f, data, path, o))
				continue
			}
			if tag != "" {
				name = tag
			}
			if path != "" {
				name = path + "." + name
			}
			noCustomJSON(derefAny(f.Type()), "UnmarshalJSON")
			r.f = append(r.f, ex.decodeVal(st, f.Type(), data, name, o))
		}
		return r
	}
	p := tStrLit(path)
	has := tApp("json.has", sBool, data, p)
	var ts []*Term
	for _, c := range comps(t) {
		switch {
		case c.suf == "#off":
			ts = append(ts, tInt(0))
		case c.suf == "#cap":
			ts = append(ts, ts[len(ts)-1])
		case c.suf == "#len":
			x := tApp("json.len", sInt, data, p)
			ex.fact(tLe(tInt(0), x))
			ts = append(ts, x)
		default:
			n := map[string]string{sInt: "json.int", sStr: "json.str", sBool: "json.bool", sIface: "json.any", sReal: "json.real"}[c.sort]
			if c.ref && !isBasic(t) {
				n = "json.ref"
			}
			x := tApp(n, c.sort, data, p)
			if c.ref {
				ex.fact(tLe(tInt(0), x))
			}
			ts = append(ts, x)
		}
	}
	v := fromTerms(t, ts)
	ex.typeFacts(v)
	if p, ok := v.(VPtr); ok && (isStruct(p.elem) || isBasic(p.elem)) && strings.Count(path, ".") < 3 {
		// what a decoded pointer points to is decoded as well
		ex.store(st, p, ex.decodeVal(st, p.elem, data, path, nil))
	}
	// an absent member reads as the zero value
	z := toTerms(zeroVal(t))
	ex.fact(tOr(has, tEqTerms(toTerms(v), z)))
	if old != nil && !slices.Equal(toTerms(old), z) {
		v = iteVal(has, v, old)
	}
	return v
}

// decodeEmbedded decodes an embedded structure, or pointer to one, whose members are those of the document at path.
func (ex *Exec) decodeEmbedded(st *State, f *types.Var, data *Term, path string, old Val) Val {
	if _, ok := f.Type().Underlying().(*types.Pointer); !ok {
		return ex.decodeVal(st, f.Type(), data, path, old)
	}
	// a nil embedded pointer is set when one of its members is there
	at := path + ".*" + f.Name()
	v := ex.decodeVal(st, f.Type(), data, at, old)
	p, ok := v.(VPtr)
	if !ok {
		return v
	}
	if _, fresh := old.(VPtr); fresh && old.(VPtr).ref != tInt(0) {
		panic(Unsupported{"decoding into an embedded pointer that is already set"})
	}
	ex.store(st, p, ex.decodeVal(st, p.elem, data, path, nil))
	return v
}

func derefAny(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// promotedJSON is the path of embedded fields to the type whose (un)marshalling method type t has by promotion;
// it is empty for types with a method of their own or none.
func promotedJSON(t types.Type, name string) []int {
	sel := types.NewMethodSet(types.NewPointer(t)).Lookup(nil, name)
	if sel == nil || len(sel.Index()) < 2 {
		return nil
	}
	return sel.Index()[:len(sel.Index())-1]
}

// noCustomJSON refuses structures that are encoded or decoded by the method of an embedded one.
func noCustomJSON(t types.Type, name string) {
	if isStruct(t) && promotedJSON(t, name) != nil {
		panic(Unsupported{"JSON method promoted from an embedded field of " + t.String()})
	}
}

func tEqTerms(a, b []*Term) *Term {
	r := tTrue
	for i := range a {
		r = tAnd(r, tEq(a[i], b[i]))
	}
	return r
}

func jsonTag(tag string) string {
	const k = `json:"`
	i := strings.Index(tag, k)
	if i < 0 {
		return ""
	}
	s := tag[i+len(k):]
	if j := strings.IndexAny(s, `",`); j >= 0 {
		s = s[:j]
	}
	return s
}

// decodeInto decodes data into the destination held by the any value dst; false when the destination type is not static.
func (ex *Exec) decodeInto(st *State, data *Term, dst Val) bool {
	i, ok := dst.(VIface)
	if !ok {
		return false
	}
	d := dynType(i.t)
	if d == nil {
		return false
	}
	if _, ok := d.Underlying().(*types.Pointer); !ok {
		return false
	}
	p, ok := ex.unIface(st, i.t, d).(VPtr)
	if !ok {
		return false
	}
	var old Val
	func() {
		defer func() { recover() }()
		old = st.h.load(p)
	}()
	if path := promotedJSON(p.elem, "UnmarshalJSON"); path != nil {
		// the whole document is decoded by the method of the embedded field, and nothing else is
		ov, ok := old.(VStruct)
		if !ok || len(path) != 1 {
			panic(Unsupported{"JSON method promoted from an embedded field of " + p.elem.String()})
		}
		r := VStruct{typ: ov.typ, f: slices.Clone(ov.f)}
		if q, ok := r.f[path[0]].(VPtr); ok {
			ex.store(st, q, ex.decodeVal(st, q.elem, data, "", nil))
		} else {
			r.f[path[0]] = ex.decodeVal(st, p.elem.Underlying().(*types.Struct).Field(path[0]).Type(), data, "", r.f[path[0]])
		}
		ex.store(st, p, r)
		return true
	}
	ex.store(st, p, ex.decodeVal(st, p.elem, data, "", old))
	return true
}

// jsonInto is json.Unmarshal(data, dst) as a fork.
func (ex *Exec) jsonInto(st *State, data *Term, dst Val, what string, pos token.Pos, k func(*State, *Term)) {
	d := dynTypeOf(dst)
	ok := ex.freshVar("jsonok", sBool, false)
	if d != nil {
		ok = tApp("json.ok", sBool, data, typeID(d))
	}
	e := ex.freshErr()
	if !ex.promotedReceiver(st, dst, pos) {
		return
	}
	ex.fork(st, ok, what, func(st *State) {
		if p, ok := ex.anyMapDest(st, dst); ok {
			ex.decodeMap(st, data, p, what, func(st *State) { k(st, tNilIface) })
			return
		}
		if !ex.decodeInto(st, data, dst) {
			ex.havocPointee(st, dst)
		}
		k(st, tNilIface)
	}, func(st *State) {
		ex.havocPointee(st, dst)
		k(st, e)
	})
}

// promotedReceiver checks that a decoding method promoted from an embedded pointer has a receiver to decode into.
func (ex *Exec) promotedReceiver(st *State, dst Val, pos token.Pos) bool {
	d := dynTypeOf(dst)
	if d == nil {
		return true
	}
	pt, ok := d.Underlying().(*types.Pointer)
	if !ok || !isStruct(pt.Elem()) {
		return true
	}
	path := promotedJSON(pt.Elem(), "UnmarshalJSON")
	if len(path) == 0 {
		return true
	}
	p, ok := ex.unIface(st, term1(dst), d).(VPtr)
	if !ok {
		return true
	}
	sv, ok := st.h.load(p).(VStruct)
	if !ok {
		return true
	}
	q, ok := sv.f[path[0]].(VPtr)
	if !ok {
		return true
	}
	return ex.panicCheck(st, tNot(tEq(q.ref, tInt(0))), "UnmarshalJSON promoted from a nil embedded pointer", pos)
}

func dynTypeOf(v Val) types.Type {
	if i, ok := v.(VIface); ok {
		return dynType(i.t)
	}
	return nil
}

// ---- JOSE ----

const joseP = "github.com/go-jose/go-jose/v4"

// keyMaterial gives the cryptographic key named by a verification key argument.
func (ex *Exec) keyMaterial(st *State, v Val, pos token.Pos) (*Term, bool) {
	x := term1(v)
	d := dynType(x)
	if d == nil {
		return tApp("jose.keyOf", sIface, x), true
	}
	et := d
	ref := ifVal(x, sInt)
	if p, ok := d.Underlying().(*types.Pointer); ok {
		et = p.Elem()
		if isNamed(et, joseP+".JSONWebKey") {
			if !ex.panicCheck(st, tNot(tEq(ref, tInt(0))), "nil *JSONWebKey used as key", pos) {
				return nil, false
			}
		}
	}
	if isNamed(et, joseP+".JSONWebKey") {
		s := et.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "Key" {
				return term1(st.h.loadField(et, i, ref)), true
			}
		}
	}
	return x, true
}

func jwsVerifies(raw, key *Term) *Term { return tApp("jws.verifies", sBool, raw, key) }
func jwsPayload(raw *Term) *Term {
	// the payload of a document made here is known
	if raw.kind == 'a' && raw.op == "jws.make" {
		return raw.args[4]
	}
	return tApp("jws.payload", sStr, raw)
}

// rawOfJWS is the document a parsed signature or token stands for.
func rawOfJWS(h *Heap, v Val) *Term {
	var ref *Term
	switch x := v.(type) {
	case VPtr:
		ref = x.ref
		if isNamed(x.elem, joseP+".JSONWebSignature") {
			ref = h.loadField(x.elem, 0, x.ref).(VSlice).base
		}
	case VStruct:
		ref = x.f[0].(VSlice).base
	}
	return term1(h.loadKey("jws:raw", strT(), ref))
}

func jwsJwk(raw *Term) *Term { return tApp("jws.jwk", sIface, raw) }

func isBasic(t types.Type) bool { _, ok := t.Underlying().(*types.Basic); return ok }

func registerJose() {
	registerSigner()
	// jws.make(typ, kid, alg, key, payload, embedded jwk)
	injective["jws.make"] = true
	groundFuns["jws.make"] = func(u *Term) []*Term {
		r := []*Term{
			tEq(tApp("jws.typ", sStr, u), u.args[0]),
			tEq(tApp("jws.kid", sStr, u), u.args[1]),
			tEq(tApp("jws.alg", sStr, u), u.args[2]),
			tEq(tApp("jws.payload", sStr, u), u.args[4]),
			jwsVerifies(u, tApp("jose.public", sIface, u.args[3])),
			tApp("jws.parses", sBool, u, tTrue),
			tApp("jws.parses", sBool, u, tFalse),
			tApp("jws.hasTyp", sBool, u),
			tEq(jwsJwk(u), tIte(tAnd(u.args[5], tApp("jose.asymmetric", sBool, u.args[3])), tApp("jose.public", sIface, u.args[3]), tNilIface)),
		}
		return r
	}
	raws := rawOfJWS
	parse := func(jwt bool) model {
		return func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			raw := ex.strArg(st, args[0])
			res := fn.Signature.Results()
			et := deref(res.At(0).Type())
			ok := tApp("jws.parses", sBool, append([]*Term{raw}, tBool(jwt))...)
			if al, isS := args[1].(VSlice); isS {
				if es, known := ex.variadic(st, al); known && len(es) <= 8 {
					in := tFalse
					for _, e := range es {
						in = tOr(in, tEq(tApp("jws.alg", sStr, raw), term1(e)))
					}
					ok = tAnd(ok, in)
				} else {
					ok = tAnd(ok, tApp("jws.algIn", sBool, tApp("jws.alg", sStr, raw), al.base, al.len))
				}
			}
			e := ex.freshErr()
			pre := st.h.clone()
			ex.fork(st, ok, ex.pos(pos)+" parses", func(st *State) {
				ex.fact(tNot(tEq(raw, tStrLit(""))))
				r := ex.alloc(st)
				if jwt {
					s := et.Underlying().(*types.Struct)
					for i := 0; i < s.NumFields(); i++ {
						f := s.Field(i)
						if f.Name() == "Headers" {
							hb := ex.alloc(st)
							ht := f.Type().Underlying().(*types.Slice).Elem()
							st.h.storeElem(ht, hb, tInt(0), ex.joseHeader(st, ht, raw))
							st.h.storeField(et, i, r, VSlice{base: hb, off: tInt(0), len: tInt(1), cap: tInt(1), elem: ht})
							continue
						}
						st.h.storeField(et, i, r, ex.symVal(f.Type(), "jwt."+f.Name()))
					}
				} else {
					v := ex.symVal(et, "jws").(VStruct)
					n := tSlen(raw)
					pb := ex.alloc(st)
					v.f[0] = VSlice{base: pb, off: tInt(0), len: n, cap: n, elem: types.Typ[types.Byte]}
					st.h.storeObj(et, r, v)
					st.h.storeKey("jws:raw", strT(), pb, VT{raw, strT()})
				}
				if jwt {
					st.h.storeKey("jws:raw", strT(), r, VT{raw, strT()})
				}
				rv := []Val{VPtr{kind: 'o', ref: r, elem: et}, verr(tNilIface)}
				ex.event(st, "jose.Parse", nil, args, rv, pre, fn.Signature, pos)
				k(st, rv)
			}, func(st *State) {
				rv := []Val{VPtr{kind: 'o', ref: tInt(0), elem: et}, verr(e)}
				ex.event(st, "jose.Parse", nil, args, rv, pre, fn.Signature, pos)
				k(st, rv)
			})
		}
	}
	for _, n := range []string{"ParseSigned", "ParseSignedCompact"} {
		models[joseP+"."+n] = parse(false)
	}
	models[joseP+"/jwt.ParseSigned"] = parse(true)
	models["("+joseP+".JSONWebSignature).UnsafePayloadWithoutVerification"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		raw := raws(st.h, args[0])
		k(st, []Val{ex.bytesFrom(st, jwsPayload(raw), fn.Signature.Results().At(0).Type())})
	}
	models["("+joseP+".JSONWebSignature).Verify"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		raw := raws(st.h, args[0])
		key, ok := ex.keyMaterial(st, args[1], pos)
		if !ok {
			return
		}
		e := ex.freshErr()
		rt := fn.Signature.Results().At(0).Type()
		ex.fork(st, jwsVerifies(raw, key), ex.pos(pos)+" signature verifies", func(st *State) {
			k(st, []Val{ex.bytesFrom(st, jwsPayload(raw), rt), verr(tNilIface)})
		}, func(st *State) {
			k(st, []Val{zeroVal(rt), verr(e)})
		})
	}
	models["(*"+joseP+"/jwt.JSONWebToken).Claims"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		if !ex.nilCheck(st, args[0].(VPtr), pos, "JSONWebToken") {
			return
		}
		raw := raws(st.h, args[0])
		key, ok := ex.keyMaterial(st, args[1], pos)
		if !ok {
			return
		}
		dsts, isV := ex.variadic(st, args[2])
		if !isV {
			panic(Unsupported{"jwt Claims destinations"})
		}
		e := ex.freshErr()
		ex.fork(st, jwsVerifies(raw, key), ex.pos(pos)+" signature verifies", func(st *State) {
			var rec func(st *State, i int)
			rec = func(st *State, i int) {
				if i == len(dsts) {
					k(st, []Val{verr(tNilIface)})
					return
				}
				ex.jsonInto(st, jwsPayload(raw), dsts[i], ex.pos(pos)+" claims decode", pos, func(st *State, e *Term) {
					if e == tNilIface {
						rec(st, i+1)
					} else {
						k(st, []Val{verr(e)})
					}
				})
			}
			rec(st, 0)
		}, func(st *State) {
			k(st, []Val{verr(e)})
		})
	}
	models["(*"+joseP+"/jwt.JSONWebToken).UnsafeClaimsWithoutVerification"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		raw := raws(st.h, args[0])
		dsts, isV := ex.variadic(st, args[1])
		if !isV || len(dsts) != 1 {
			panic(Unsupported{"jwt Claims destinations"})
		}
		ex.jsonInto(st, jwsPayload(raw), dsts[0], ex.pos(pos)+" claims decode", pos, func(st *State, e *Term) { k(st, []Val{verr(e)}) })
	}
	// (*JSONWebKeySet).Key(kid): the keys of the set whose key id is kid, in order
	models["(*"+joseP+".JSONWebKeySet).Key"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		p := args[0].(VPtr)
		if !ex.nilCheck(st, p, pos, "JSONWebKeySet") {
			return
		}
		ks := st.h.load(p).(VStruct).f[0].(VSlice)
		kid := term1(args[1])
		b := ex.freshVar("keysof", sInt, true)
		n := ex.freshVar("keysof#len", sInt, true)
		ex.fact(tAnd(tLe(tInt(0), n), tLe(n, ks.len)))
		et := ks.elem
		s := et.Underlying().(*types.Struct)
		q, j := tVar("?q", sInt), tVar("?j", sInt)
		idx := func(x *Term) *Term { return tApp("keyIdx", sInt, b, x) }
		ps := func(x *Term) *Term { return tApp("keyPos", sInt, b, x) }
		obj := func(base, i *Term) *Term { return subRef("elem:"+typeStr(et), base, i) }
		dst, src := obj(b, q), obj(ks.base, tAdd(ks.off, idx(q)))
		body := tAnd(tLe(tInt(0), idx(q)), tLt(idx(q), ks.len))
		var other *Term
		for i := 0; i < s.NumFields(); i++ {
			d, o := toTerms(st.h.loadField(et, i, dst)), toTerms(st.h.loadField(et, i, src))
			body = tAnd(body, tEqTerms(d, o))
			if s.Field(i).Name() == "KeyID" {
				body = tAnd(body, tEq(o[0], kid))
				other = term1(st.h.loadField(et, i, obj(ks.base, tAdd(ks.off, j))))
			}
		}
		ex.assume(st, tForall([]*Term{q}, tImp(tAnd(tLe(tInt(0), q), tLt(q, n)), body), dst))
		ex.assume(st, tForall([]*Term{j}, tImp(tAnd(tLe(tInt(0), j), tLt(j, ks.len), tEq(other, kid)), tAnd(tLe(tInt(0), ps(j)), tLt(ps(j), n), tEq(idx(ps(j)), j))), other))
		k(st, []Val{VSlice{base: b, off: tInt(0), len: n, cap: n, elem: et}})
	}
	models["(*"+joseP+".JSONWebKey).Thumbprint"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		p := args[0].(VPtr)
		if !ex.nilCheck(st, p, pos, "JSONWebKey") {
			return
		}
		key, ok := ex.keyMaterial(st, VIface{tApp("mkI!Int", sIface, typeID(types.NewPointer(p.elem)), p.ref), nil}, pos)
		if !ok {
			return
		}
		th := tApp("jose.thumbprint", sStr, key, term1(args[1]))
		good := tApp("jose.supportedKey", sBool, key)
		e := ex.freshErr()
		rt := fn.Signature.Results().At(0).Type()
		ex.fork(st, good, ex.pos(pos)+" thumbprint computed", func(st *State) {
			k(st, []Val{ex.bytesFrom(st, th, rt), verr(tNilIface)})
		}, func(st *State) { k(st, []Val{zeroVal(rt), verr(e)}) })
	}
	jsonUnmarshal := func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		data := ex.strArg(st, args[0])
		pre := st.h.clone()
		ex.jsonInto(st, data, args[1], ex.pos(pos)+" decodes", pos, func(st *State, e *Term) {
			ex.event(st, fnName(fn), nil, args, []Val{verr(e)}, pre, fn.Signature, pos)
			k(st, []Val{verr(e)})
		})
	}
	models["encoding/json.Unmarshal"] = jsonUnmarshal
}

// joseHeader is the header of the parsed document raw.
func (ex *Exec) joseHeader(st *State, ht types.Type, raw *Term) Val {
	s := ht.Underlying().(*types.Struct)
	r := VStruct{typ: ht}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch f.Name() {
		case "KeyID":
			r.f = append(r.f, VT{tApp("jws.kid", sStr, raw), f.Type()})
		case "Algorithm":
			r.f = append(r.f, VT{tApp("jws.alg", sStr, raw), f.Type()})
		case "JSONWebKey":
			kt := deref(f.Type())
			ref := ex.alloc(st)
			kv := ex.symVal(kt, "jwk").(VStruct)
			for j := 0; j < kt.Underlying().(*types.Struct).NumFields(); j++ {
				if kf := kt.Underlying().(*types.Struct).Field(j); kf.Name() == "Key" {
					kv.f[j] = VIface{jwsJwk(raw), kf.Type()}
				}
			}
			st.h.storeObj(kt, ref, kv)
			has := tApp("jws.hasJwk", sBool, raw)
			ex.fact(tEq(has, tNot(tEq(jwsJwk(raw), tNilIface))))
			r.f = append(r.f, VPtr{kind: 'o', ref: tIte(has, ref, tInt(0)), elem: kt})
		case "ExtraHeaders":
			x := tApp("jws.extra", sInt, raw)
			ex.fact(tLt(tInt(0), x))
			st.h.mapPut(f.Type(), x, tStrLit("typ"), VIface{tApp("mkI!Str", sIface, typeID(strT()), tApp("jws.typ", sStr, raw)), anyT}, tApp("jws.hasTyp", sBool, raw))
			r.f = append(r.f, VT{x, f.Type()})
		default:
			r.f = append(r.f, ex.symVal(f.Type(), "hdr."+f.Name()))
		}
	}
	return r
}

func init() {
	ext := map[string]func(env *SpecEnv, a []*SE) Val{
		// splitpart(s, sep, n, i): the i-th part of strings.SplitN(s, sep, n)
		"splitpart": func(env *SpecEnv, a []*SE) Val {
			return vstr(tSelect(tApp("splitnArr", arrSort(sInt, sStr), env.str(a[0]), env.str(a[1]), term1(env.eval(a[2]))), term1(env.eval(a[3]))))
		},
		"splitcount": func(env *SpecEnv, a []*SE) Val {
			return vint(tApp("splitnLen", sInt, env.str(a[0]), env.str(a[1]), term1(env.eval(a[2]))))
		},
		// jwsPayload(raw): the payload of a signed document
		"jwsPayload": func(env *SpecEnv, a []*SE) Val { return vstr(jwsPayload(env.str(a[0]))) },
		"jwsVerifies": func(env *SpecEnv, a []*SE) Val {
			k := env.eval(a[1])
			return vbool(jwsVerifies(env.str(a[0]), term1(k)))
		},
		"jwsTyp":    func(env *SpecEnv, a []*SE) Val { return vstr(tApp("jws.typ", sStr, env.str(a[0]))) },
		"jwsKid":    func(env *SpecEnv, a []*SE) Val { return vstr(tApp("jws.kid", sStr, env.str(a[0]))) },
		"jwsAlg":    func(env *SpecEnv, a []*SE) Val { return vstr(tApp("jws.alg", sStr, env.str(a[0]))) },
		"jwsHasTyp": func(env *SpecEnv, a []*SE) Val { return vbool(tApp("jws.hasTyp", sBool, env.str(a[0]))) },
		// jwsJwk(raw): the public key embedded in the header (nil without one)
		"jwsJwk": func(env *SpecEnv, a []*SE) Val { return VIface{jwsJwk(env.str(a[0])), nil} },
		"publicKey": func(env *SpecEnv, a []*SE) Val {
			return VIface{tApp("jose.public", sIface, term1(env.eval(a[0]))), nil}
		},
		"asymmetric": func(env *SpecEnv, a []*SE) Val { return vbool(tApp("jose.asymmetric", sBool, term1(env.eval(a[0])))) },
		// thumbprint(key): the SHA-256 thumbprint (RFC 7638) of a key, base64url encoded
		"thumbprint": func(env *SpecEnv, a []*SE) Val {
			return vstr(tApp("b64enc", sStr, tStrLit("RawURLEncoding"), tApp("jose.thumbprint", sStr, term1(env.eval(a[0])), tInt(5))))
		},
		// targetURI(u): the URL u without userinfo, query and fragment
		"targetURI": func(env *SpecEnv, a []*SE) Val { return vstr(urlText(env.str(a[0]))) },
		"utf8ok":    func(env *SpecEnv, a []*SE) Val { return vbool(tApp("utf8.valid", sBool, env.str(a[0]))) },
		"jwsRaw": func(env *SpecEnv, a []*SE) Val {
			return vstr(rawOfJWS(env.h, env.eval(a[0])))
		},
		"protoStr": func(env *SpecEnv, a []*SE) Val { // the text of a message member in its JSON document
			return vstr(protoMember("json.str", sStr, env.str(a[0]), a[1].s, camelName(a[1].s), tStrLit("")))
		},
		"protoLen": func(env *SpecEnv, a []*SE) Val {
			return vint(protoMember("json.len", sInt, env.str(a[0]), a[1].s, camelName(a[1].s), tInt(0)))
		},
		"protoElem": func(env *SpecEnv, a []*SE) Val { // an element of a list of texts
			srt := arrSort(sInt, sStr)
			return vstr(tSelect(protoMember("json.arr", srt, env.str(a[0]), a[1].s, camelName(a[1].s), tConstArr(srt, tStrLit(""))), env.int(a[2])))
		},
		"protoHas": func(env *SpecEnv, a []*SE) Val {
			return vbool(protoMember("", sBool, env.str(a[0]), a[1].s, camelName(a[1].s), tFalse))
		},
		"jsonStr": func(env *SpecEnv, a []*SE) Val { return vstr(tApp("json.str", sStr, env.str(a[0]), tStrLit(a[1].s))) },
		"jsonInt": func(env *SpecEnv, a []*SE) Val { return vint(tApp("json.int", sInt, env.str(a[0]), tStrLit(a[1].s))) },
		"jsonBool": func(env *SpecEnv, a []*SE) Val {
			return vbool(tApp("json.bool", sBool, env.str(a[0]), tStrLit(a[1].s)))
		},
		"ozzoRule": func(env *SpecEnv, a []*SE) Val { return vbool(ozzoRule(a[0].s, env.str(a[1]))) },
		"jsonRef":  func(env *SpecEnv, a []*SE) Val { return vint(tApp("json.ref", sInt, env.str(a[0]), tStrLit(a[1].s))) },
		"jsonAny": func(env *SpecEnv, a []*SE) Val {
			return VIface{tApp("json.any", sIface, env.str(a[0]), tStrLit(a[1].s)), nil}
		},
		"jsonHas": func(env *SpecEnv, a []*SE) Val { return vbool(tApp("json.has", sBool, env.str(a[0]), tStrLit(a[1].s))) },
		"jsonOk": func(env *SpecEnv, a []*SE) Val {
			return vbool(tApp("json.ok", sBool, env.str(a[0]), typeID(env.w.findType(a[1].s))))
		},
		"jsonPtr": func(env *SpecEnv, a []*SE) Val { // jsonPtr(data, path, "pkg.T")
			return VPtr{kind: 'o', ref: tApp("json.ref", sInt, env.str(a[0]), tStrLit(a[1].s)), elem: env.w.findType(a[2].s)}
		},
		// jwksOf(data): the keys of a JSON key set document
		"jwksOf": func(env *SpecEnv, a []*SE) Val {
			d := env.str(a[0])
			n := tApp("json.len", sInt, d, tStrLit("keys"))
			return VSlice{base: tApp("json.ref", sInt, d, tStrLit("keys")), off: tInt(0), len: n, cap: n, elem: env.w.findType(joseP + ".JSONWebKey")}
		},
	}
	for k, v := range ext {
		k, v := k, v
		specExt[k] = v
	}
}
