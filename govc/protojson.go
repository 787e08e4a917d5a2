package main

import (
	"go/token"
	"go/types"
	"reflect"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- JSON objects decoded into map[string]any, and the JSON mapping of protobuf messages ----

// A map decoded from the document D has the domain json.dom(D) and the values json.vals(D), so the document is known
// when the map is encoded again. Numbers are kept as they are written (they are only compared through json.uint).

func anyMap(t types.Type) (*types.Map, bool) {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return nil, false
	}
	b, ok := m.Key().Underlying().(*types.Basic)
	if !ok || b.Kind() != types.String {
		return nil, false
	}
	i, ok := m.Elem().Underlying().(*types.Interface)
	return m, ok && i.NumMethods() == 0
}

// anyMapDest is the address of the map[string]any a JSON document is decoded into.
func (ex *Exec) anyMapDest(st *State, dst Val) (VPtr, bool) {
	d := dynTypeOf(dst)
	if d == nil {
		return VPtr{}, false
	}
	pt, ok := d.Underlying().(*types.Pointer)
	if !ok {
		return VPtr{}, false
	}
	if _, ok := anyMap(pt.Elem()); !ok {
		return VPtr{}, false
	}
	p, ok := ex.unIface(st, term1(dst), d).(VPtr)
	return p, ok
}

// decodeMap decodes the document data into the map variable at p.
func (ex *Exec) decodeMap(st *State, data *Term, p VPtr, what string, k func(*State)) {
	t := p.elem
	old := term1(st.h.load(p))
	fill := func(st *State, r *Term) {
		dk, vk := mapKey(t)+"#dom", mapKey(t)+"#val"
		ks := arrSort(sStr, sBool)
		vs := arrSort(sStr, sIface)
		for _, w := range ex.writes {
			w(dk, r)
			w(vk, r)
			w("maplen", r)
		}
		st.h.m[dk] = tStore(st.h.get(dk, arrSort(sInt, ks), false), r, tApp("json.dom", ks, data))
		st.h.m[vk] = tStore(st.h.get(vk, arrSort(sInt, vs), false), r, tApp("json.vals", vs, data))
		n := ex.freshVar("maplen", sInt, false)
		ex.fact(tLe(tInt(0), n))
		st.h.m["maplen"] = tStore(st.h.get("maplen", arrSort(sInt, sInt), true), r, n)
		for _, key := range specKeys {
			kt := tStrLit(key)
			ex.fact(tEq(tSelect(tApp("json.dom", ks, data), kt), tApp("json.has", sBool, data, kt)))
		}
	}
	ex.fork(st, tApp("json.isnull", sBool, data), what+" null", func(st *State) {
		ex.store(st, p, zeroVal(t))
		k(st)
	}, func(st *State) {
		ex.fork(st, tEq(old, tInt(0)), what+" into a nil map", func(st *State) {
			r := ex.alloc(st)
			fill(st, r)
			ex.store(st, p, fromTerms(t, []*Term{r}))
			k(st)
		}, func(st *State) {
			if d := st.h.mapDom(t, old); old.isInt() && d.kind == 'a' && d.op == "constarr" && d.args[0].isFalse() {
				fill(st, old)
				k(st)
				return
			}
			// the members are added to those there
			ex.store(st, p, ex.symVal(t, "merged"))
			k(st)
		})
	})
}

// mapDoc is the document of a map decoded from JSON and possibly changed; nil when its source is not known.
func (ex *Exec) mapDoc(st *State, t types.Type, m *Term) *Term {
	if _, ok := anyMap(t); !ok {
		return nil
	}
	if m == tInt(0) {
		null := tStrLit("null")
		ex.fact(tApp("json.isnull", sBool, null))
		return null
	}
	dom := st.h.mapDom(t, m)
	val := tSelect(st.h.get(mapKey(t)+"#val", arrSort(sInt, arrSort(sStr, sIface)), false), m)
	base := func(a *Term) *Term {
		for a.kind == 'a' && a.op == "store" {
			if !a.args[1].isStr() {
				return a
			}
			a = a.args[0]
		}
		return a
	}
	d, v := base(dom), base(val)
	if d.kind != 'a' || d.op != "json.dom" || v.kind != 'a' || v.op != "json.vals" || d.args[0] != v.args[0] {
		return nil
	}
	src := d.args[0]
	if d == dom && v == val {
		return src
	}
	doc := ex.freshVar("json", sStr, false)
	ex.fact(tNot(tEq(doc, tStrLit(""))))
	stored := mapKeys(dom)
	for _, key := range stored {
		in := st.h.mapHas(t, m, key)
		ex.jsonFacts(st, doc, t.Underlying().(*types.Map).Elem(), st.h.mapGet(t, m, key), key.op, false, 1, in)
		ex.fact(tImp(tNot(in), tNot(tApp("json.has", sBool, doc, key))))
	}
	for _, n := range specKeys {
		key := tStrLit(n)
		if slices.Contains(stored, key) {
			continue
		}
		for op, srt := range jsonFuns {
			ex.fact(tEq(tApp(op, srt, doc, key), tApp(op, srt, src, key)))
		}
	}
	return doc
}

// decodedMap reports whether v is a nil map or one decoded from JSON and unchanged since.
func (ex *Exec) decodedMap(st *State, t types.Type, v Val) bool {
	if _, ok := anyMap(t); !ok {
		return false
	}
	m := term1(v)
	if m == tInt(0) {
		return true
	}
	d := st.h.mapDom(t, m)
	x := tSelect(st.h.get(mapKey(t)+"#val", arrSort(sInt, arrSort(sStr, sIface)), false), m)
	return d.kind == 'a' && d.op == "json.dom" && x.kind == 'a' && x.op == "json.vals" && d.args[0] == x.args[0]
}

var jsonFuns = map[string]string{
	"json.has": sBool, "json.null": sBool, "json.str": sStr, "json.int": sInt, "json.bool": sBool,
	"json.len": sInt, "json.uint": sInt, "json.arr": arrSort(sInt, sStr),
}

// ---- protobuf messages ----

type protoField struct {
	idx        int
	name, json string
	typ        types.Type
}

// protoFields are the fields of a generated message of which the JSON mapping is modelled; ok is false when some are not.
func protoFields(t types.Type) (r []protoField, ok bool) {
	s, isS := t.Underlying().(*types.Struct)
	if !isS {
		return nil, false
	}
	ok = true
	for i := 0; i < s.NumFields(); i++ {
		if reflect.StructTag(s.Tag(i)).Get("protobuf_oneof") != "" {
			ok = false
		}
		tag := reflect.StructTag(s.Tag(i)).Get("protobuf")
		if tag == "" {
			continue
		}
		f := protoField{idx: i, typ: s.Field(i).Type()}
		for _, x := range strings.Split(tag, ",") {
			if n, is := strings.CutPrefix(x, "name="); is {
				f.name = n
			}
			if n, is := strings.CutPrefix(x, "json="); is {
				f.json = n
			}
		}
		if f.json == "" {
			f.json = f.name
		}
		r = append(r, f)
	}
	return r, ok && len(r) > 0
}

// camelName is the JSON name protobuf gives to a field.
func camelName(n string) string {
	var b strings.Builder
	up := false
	for i := 0; i < len(n); i++ {
		c := n[i]
		if c == '_' {
			up = true
			continue
		}
		if up && c >= 'a' && c <= 'z' {
			c -= 'a' - 'A'
		}
		up = false
		b.WriteByte(c)
	}
	return b.String()
}

// protoMember is the value of a message member of the document: either name may be used, null is an absent member.
func protoMember(op, srt string, doc *Term, name, json string, zero *Term) *Term {
	set := func(n string) *Term {
		return tAnd(tApp("json.has", sBool, doc, tStrLit(n)), tNot(tApp("json.null", sBool, doc, tStrLit(n))))
	}
	get := func(n string) *Term {
		if op == "" {
			return tTrue
		}
		return tApp(op, srt, doc, tStrLit(n))
	}
	r := zero
	if json != name {
		r = tIte(set(json), get(json), r)
	}
	return tIte(set(name), get(name), r)
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

func isUint64T(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint64
}

// protoDecode stores the members of the document in the message at ref.
func (ex *Exec) protoDecode(st *State, doc *Term, t types.Type, ref *Term, fs []protoField) {
	for _, f := range fs {
		set := protoMember("", sBool, doc, f.name, f.json, tFalse)
		elem := derefAny(f.typ)
		var v Val
		switch {
		case isStringT(elem):
			v = fromTerms(elem, []*Term{protoMember("json.str", sStr, doc, f.name, f.json, tStrLit(""))})
		case isUint64T(elem):
			v = fromTerms(elem, []*Term{protoMember("json.uint", sInt, doc, f.name, f.json, tInt(0))})
			ex.typeFacts(v)
		default:
			s, ok := f.typ.Underlying().(*types.Slice)
			if !ok || !isStringT(s.Elem()) {
				v := ex.symVal(f.typ, "proto")
				ex.typeFacts(v)
				st.h.storeField(t, f.idx, ref, v)
				continue
			}
			n := protoMember("json.len", sInt, doc, f.name, f.json, tInt(0))
			ex.fact(tLe(tInt(0), n))
			base := ex.alloc(st)
			k := "elem:" + typeStr(s.Elem())
			srt := arrSort(sInt, sStr)
			arr := protoMember("json.arr", srt, doc, f.name, f.json, tConstArr(srt, tStrLit("")))
			st.h.m[k] = tStore(st.h.get(k, arrSort(sInt, srt), false), base, arr)
			st.h.storeField(t, f.idx, ref, VSlice{base: tIte(tEq(n, tInt(0)), tInt(0), base), off: tInt(0), len: n, cap: n, elem: s.Elem()})
			continue
		}
		if p, ok := f.typ.Underlying().(*types.Pointer); ok {
			r := ex.alloc(st)
			st.h.storeObj(p.Elem(), r, v)
			v = VPtr{kind: 'o', ref: tIte(set, r, tInt(0)), elem: p.Elem()}
		}
		st.h.storeField(t, f.idx, ref, v)
	}
}

// protoFacts states what the JSON document of the message at ref says; it gives the condition under which it can be made.
func (ex *Exec) protoFacts(st *State, doc *Term, t types.Type, ref *Term, fs []protoField, protoNames, unpopulated *Term) (valid *Term) {
	valid = tTrue
	for _, f := range fs {
		v := st.h.loadField(t, f.idx, ref)
		elem := derefAny(f.typ)
		set := tTrue
		val := v
		if p, ok := v.(VPtr); ok {
			set = tNot(tEq(p.ref, tInt(0)))
			if !isStringT(elem) && !isUint64T(elem) {
				continue
			}
			val = st.h.load(p)
		}
		names := []string{f.name}
		guards := []*Term{tTrue}
		if f.json != f.name {
			names, guards = []string{f.name, f.json}, []*Term{protoNames, tNot(protoNames)}
		}
		for i, n := range names {
			p := tStrLit(n)
			fact := func(c *Term) { ex.fact(tImp(tAnd(guards[i], set), c)) }
			has := tApp("json.has", sBool, doc, p)
			pop := set
			switch {
			case isStringT(elem):
				x := term1(val)
				fact(tEq(tApp("json.str", sStr, doc, p), x))
				if set.isTrue() {
					pop = tOr(unpopulated, tNot(tEq(x, tStrLit(""))))
				}
				if i == 0 {
					valid = tAnd(valid, tImp(set, tApp("utf8.valid", sBool, x)))
				}
			case isUint64T(elem):
				x := term1(val)
				fact(tEq(tApp("json.uint", sInt, doc, p), x))
				if set.isTrue() {
					pop = tOr(unpopulated, tNot(tEq(x, tInt(0))))
				}
			default:
				s, ok := val.(VSlice)
				if !ok || !isStringT(s.elem) {
					continue
				}
				fact(tEq(tApp("json.len", sInt, doc, p), s.len))
				if s.off == tInt(0) {
					fact(tEq(tApp("json.arr", arrSort(sInt, sStr), doc, p), st.h.elemArr(s.elem, comps(s.elem)[0], s.base)))
				}
				pop = tOr(unpopulated, tNot(tEq(s.len, tInt(0))))
			}
			ex.fact(tEq(has, tAnd(guards[i], pop)))
			ex.fact(tNot(tApp("json.null", sBool, doc, p)))
		}
	}
	return valid
}

// protoMsg is the message a protobuf API is given; its type must be known.
func (ex *Exec) protoMsg(st *State, v Val) (types.Type, *Term, []protoField) {
	x := term1(v)
	d := dynType(x)
	if d == nil {
		panic(Unsupported{"protobuf message of unknown type"})
	}
	t := deref(d)
	fs, ok := protoFields(t)
	if !ok {
		panic(Unsupported{"JSON mapping of " + t.String()})
	}
	return t, ifVal(x, sInt), fs
}

// optField is a boolean option of protojson.MarshalOptions or UnmarshalOptions.
func optField(v Val, name string) *Term {
	s, ok := v.(VStruct)
	if !ok {
		return tFalse
	}
	u := s.typ.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return term1(s.f[i])
		}
	}
	return tFalse
}

func init() {
	const pj = "google.golang.org/protobuf/encoding/protojson"
	marshal := func(ex *Exec, st *State, fn *ssa.Function, msg, opts Val, pos token.Pos, k kont) {
		rt := fn.Signature.Results().At(0).Type()
		t, ref, fs := ex.protoMsg(st, msg)
		for _, o := range []string{"UseEnumNumbers", "EmitDefaultValues"} {
			if opts != nil && !optField(opts, o).isFalse() {
				panic(Unsupported{"protojson option " + o})
			}
		}
		doc := ex.freshVar("json", sStr, false)
		e := ex.freshErr()
		made := func(st *State, valid *Term) {
			ex.fact(tNot(tEq(doc, tStrLit(""))))
			ex.fact(tApp("json.ok", sBool, doc, typeID(types.NewPointer(types.NewMap(strT(), anyT)))))
			ex.fact(tNot(tApp("json.isnull", sBool, doc)))
			ex.fact(tApp("protojson.ok", sBool, doc, typeID(t), tFalse))
			ex.fact(tApp("protojson.ok", sBool, doc, typeID(t), tTrue))
			ex.fact(valid)
			k(st, []Val{ex.bytesFrom(st, doc, rt), verr(tNilIface)})
		}
		ex.fork(st, tEq(ref, tInt(0)), ex.pos(pos)+" nil message", func(st *State) {
			for _, f := range fs {
				ex.fact(tNot(tApp("json.has", sBool, doc, tStrLit(f.name))))
				ex.fact(tNot(tApp("json.has", sBool, doc, tStrLit(f.json))))
			}
			made(st, tTrue)
		}, func(st *State) {
			ex.fork(st, ex.freshVar("marshals", sBool, false), ex.pos(pos)+" message encoded", func(st *State) {
				made(st, ex.protoFacts(st, doc, t, ref, fs, optField(opts, "UseProtoNames"), optField(opts, "EmitUnpopulated")))
			}, func(st *State) { k(st, []Val{zeroVal(rt), verr(e)}) })
		})
	}
	models[pj+".Marshal"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		marshal(ex, st, fn, args[0], nil, pos, k)
	}
	models["("+pj+".MarshalOptions).Marshal"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		marshal(ex, st, fn, args[1], args[0], pos, k)
	}
	unmarshal := func(ex *Exec, st *State, data, msg, opts Val, pos token.Pos, k kont) {
		doc := ex.strArg(st, data)
		t, ref, fs := ex.protoMsg(st, msg)
		if !ex.panicCheck(st, tNot(tEq(ref, tInt(0))), "protojson.Unmarshal into a nil message", pos) {
			return
		}
		discard := optField(opts, "DiscardUnknown")
		e := ex.freshErr()
		ex.fork(st, tApp("protojson.ok", sBool, doc, typeID(t), discard), ex.pos(pos)+" message decoded", func(st *State) {
			ex.fact(tNot(tApp("json.isnull", sBool, doc)))
			for _, n := range specKeys {
				if !slices.ContainsFunc(fs, func(f protoField) bool { return f.name == n || f.json == n }) {
					ex.fact(tImp(tNot(discard), tNot(tApp("json.has", sBool, doc, tStrLit(n)))))
				}
			}
			ex.protoDecode(st, doc, t, ref, fs)
			k(st, []Val{verr(tNilIface)})
		}, func(st *State) {
			for _, f := range fs {
				v := ex.symVal(f.typ, "part")
				ex.typeFacts(v)
				st.h.storeField(t, f.idx, ref, v)
			}
			k(st, []Val{verr(e)})
		})
	}
	models[pj+".Unmarshal"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		unmarshal(ex, st, args[0], args[1], nil, pos, k)
	}
	models["("+pj+".UnmarshalOptions).Unmarshal"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		unmarshal(ex, st, args[1], args[2], args[0], pos, k)
	}
	marshalJSON := func(ex *Exec, st *State, v Val, k func(*State, *Term), fail func(*State, Val), pos token.Pos) {
		ok := ex.freshVar("marshals", sBool, false)
		e := ex.freshErr()
		doc := func(st *State) *Term {
			if d := dynTypeOf(v); d != nil && types.NewMethodSet(d).Lookup(nil, "MarshalJSON") != nil {
				return ex.freshVar("custom", sStr, false) // what the method of the type makes
			}
			return ex.jsonDoc(st, v)
		}
		if d := dynTypeOf(v); d != nil && ex.decodedMap(st, d, ex.unIface(st, term1(v), d)) {
			k(st, ex.jsonDoc(st, v)) // what was decoded from JSON can be encoded again
			return
		}
		ex.fork(st, ok, ex.pos(pos)+" encoded", func(st *State) { k(st, doc(st)) }, func(st *State) { fail(st, verr(e)) })
	}
	models["encoding/json.Marshal"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		rt := fn.Signature.Results().At(0).Type()
		marshalJSON(ex, st, args[0], func(st *State, doc *Term) {
			k(st, []Val{ex.bytesFrom(st, doc, rt), verr(tNilIface)})
		}, func(st *State, e Val) { k(st, []Val{zeroVal(rt), e}) }, pos)
	}
	models["encoding/json.NewEncoder"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		p := VPtr{kind: 'o', ref: ex.alloc(st), elem: deref(fn.Signature.Results().At(0).Type())}
		st.h.storeKey("json:writer", anyT, p.ref, VIface{term1(args[0]), anyT})
		k(st, []Val{p})
	}
	models["(*encoding/json.Encoder).Encode"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		p := args[0].(VPtr)
		if !ex.nilCheck(st, p, pos, "Encoder") {
			return
		}
		w := st.h.loadKey("json:writer", anyT, p.ref).(VIface)
		marshalJSON(ex, st, args[1], func(st *State, doc *Term) {
			b, ok := ex.bufferOf(st, w)
			if !ok {
				ex.havocPointee(st, w)
				k(st, []Val{verr(ite2(ex))})
				return
			}
			s := st.h.loadField(b.elem, 0, b.ref).(VSlice)
			if s.len != tInt(0) {
				doc = ex.freshVar("appended", sStr, false)
			}
			bt := b.elem.Underlying().(*types.Struct).Field(0).Type()
			st.h.storeField(b.elem, 0, b.ref, ex.bytesFrom(st, doc, bt))
			k(st, []Val{verr(tNilIface)})
		}, func(st *State, e Val) { k(st, []Val{e}) }, pos)
	}
	content := func(st *State, v Val) VSlice {
		b := v.(VPtr)
		s := st.h.loadField(b.elem, 0, b.ref).(VSlice)
		off := term1(st.h.loadField(b.elem, 1, b.ref))
		s.off, s.len = tAdd(s.off, off), tSub(s.len, off)
		return s
	}
	models["(*bytes.Buffer).Bytes"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		if !ex.nilCheck(st, args[0].(VPtr), pos, "Buffer") {
			return
		}
		k(st, []Val{content(st, args[0])})
	}
	models["(*bytes.Buffer).String"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		if !ex.nilCheck(st, args[0].(VPtr), pos, "Buffer") {
			return
		}
		k(st, []Val{vstr(ex.strArg(st, content(st, args[0])))})
	}
}

// ite2 is an error that may be nil.
func ite2(ex *Exec) *Term {
	return tIte(ex.freshVar("written", sBool, false), tNilIface, ex.freshErr())
}

// bufferOf is the bytes.Buffer an io.Writer stands for.
func (ex *Exec) bufferOf(st *State, w VIface) (VPtr, bool) {
	d := dynType(w.t)
	if d == nil {
		return VPtr{}, false
	}
	pt, ok := d.Underlying().(*types.Pointer)
	if !ok || !isNamed(pt.Elem(), "bytes.Buffer") {
		return VPtr{}, false
	}
	p, ok := ex.unIface(st, w.t, d).(VPtr)
	return p, ok && p.kind == 'o'
}
