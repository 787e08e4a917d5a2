package main

import (
	"go/token"
	"go/types"
	"net/textproto"
	"net/url"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// HTTP clients: a request is what the program put into it, an answer is arbitrary. Every answer is an event, so
// that contracts can speak about what was sent where and about what the answer's document says.

// readerDoc is the JSON document a reader gives.
func readerDoc(r *Term) *Term { return tApp("reader.doc", sStr, r) }

// readerText is the whole text a reader gives.
func readerText(r *Term) *Term { return tApp("reader.text", sStr, r) }

// canonURL names the resource a URL text stands for: parsing and printing does not change it.
func canonURL(t *Term) *Term {
	if t.kind == 'a' && t.op == "url.string" {
		var src *Term
		same := true
		for _, a := range t.args {
			if a.sort != sStr {
				continue
			}
			if a.kind != 'a' || !strings.HasPrefix(a.op, "url.") || len(a.args) != 1 || src != nil && src != a.args[0] {
				same = false
				break
			}
			src = a.args[0]
		}
		if same && src != nil {
			t = src
		}
	}
	return tApp("url.canon", sStr, t)
}

func fieldIndex(t types.Type, name string) int {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	panic(Unsupported{"field " + name})
}

// mapText is the element list a string slice map holds under a literal key, nil when it is not known.
func (ex *Exec) mapText(st *State, t types.Type, m, key *Term) []*Term {
	s, ok := st.h.mapGet(t, m, key).(VSlice)
	if !ok {
		return nil
	}
	es, ok := ex.variadic(st, s)
	if !ok {
		return nil
	}
	var r []*Term
	for _, e := range es {
		r = append(r, term1(e))
	}
	return r
}

func (ex *Exec) setList(st *State, t types.Type, m, key *Term, vals []*Term) {
	st.h.mapSet(t, m, key, ex.storeParts(st, vals))
}

func init() {
	listMap := func(canon func(string) string, add bool) model {
		return func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			t := fn.Signature.Recv().Type()
			m, key, v := term1(args[0]), term1(args[1]), term1(args[2])
			if !ex.panicCheck(st, tNot(tEq(m, tInt(0))), "assignment to nil map", pos) {
				return
			}
			if key.isStr() {
				key = tStrLit(canon(key.op))
			} else {
				key = tApp("mapkey."+fnName(fn), sStr, key)
			}
			var vals []*Term
			if add {
				has := st.h.mapHas(t, m, key)
				if !has.isFalse() {
					if vals = ex.mapText(st, t, m, key); vals == nil {
						panic(Unsupported{"adding to an unknown list"})
					}
				}
			}
			for _, w := range ex.writes {
				w(mapKey(t), m)
				w("maplen", m)
			}
			ex.setList(st, t, m, key, append(vals, v))
			k(st, nil)
		}
	}
	same := func(s string) string { return s }
	models["(net/url.Values).Add"] = listMap(same, true)
	models["(net/url.Values).Set"] = listMap(same, false)
	models["(net/http.Header).Add"] = listMap(textproto.CanonicalMIMEHeaderKey, true)
	models["(net/http.Header).Set"] = listMap(textproto.CanonicalMIMEHeaderKey, false)
	models["(net/url.Values).Encode"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		t, m := fn.Signature.Recv().Type(), term1(args[0])
		var lits []string
		dom := st.h.mapDom(t, m)
		for _, key := range mapKeys(dom) {
			lits = append(lits, key.op)
		}
		sort.Strings(lits)
		var ps []*Term
		for _, l := range lits {
			key := tStrLit(l)
			if has := st.h.mapHas(t, m, key); !has.isTrue() {
				if has.isFalse() {
					continue
				}
				k(st, []Val{vstr(ex.freshVar("form", sStr, false))})
				return
			}
			vs := ex.mapText(st, t, m, key)
			if vs == nil {
				k(st, []Val{vstr(ex.freshVar("form", sStr, false))})
				return
			}
			for _, v := range vs {
				if len(ps) > 0 {
					ps = append(ps, tStrLit("&"))
				}
				ps = append(ps, tStrLit(l+"="), queryEscape(v))
			}
		}
		r := catAll(ps)
		if !closedDom(dom) {
			r = tApp("form.open", sStr, r, ex.freshVar("form", sStr, false))
		}
		k(st, []Val{vstr(r)})
	}
	models["net/url.QueryEscape"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		k(st, []Val{vstr(queryEscape(term1(args[0])))})
	}
	for _, n := range []string{"strings.NewReader", "bytes.NewBufferString", "bytes.NewReader", "bytes.NewBuffer"} {
		models[n] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			var s *Term
			if _, ok := args[0].(VSlice); ok {
				s = ex.strArg(st, args[0])
			} else {
				s = term1(args[0])
			}
			t := fn.Signature.Results().At(0).Type()
			p := VPtr{kind: 'o', ref: ex.alloc(st), elem: deref(t)}
			ex.fact(tEq(readerText(tApp("mkI!Int", sIface, typeID(t), p.ref)), s))
			k(st, []Val{p})
		}
	}
	models["io.LimitReader"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		r := VIface{tApp("opq", sIface, tCat(tStrLit("limit"), tApp("itoa", sStr, ex.alloc(st)))), fn.Signature.Results().At(0).Type()}
		// a document that is read completely through the limited reader is the one of the reader
		ex.fact(tEq(readerDoc(r.t), readerDoc(term1(args[0]))))
		k(st, []Val{r})
	}
	models["io.ReadAll"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		t := fn.Signature.Results().At(0).Type()
		r := term1(args[0])
		e := ex.freshErr()
		ex.fork(st, ex.freshVar("readall", sBool, false), ex.pos(pos)+" read", func(st *State) {
			k(st, []Val{ex.bytesFrom(st, readerDoc(r), t), verr(tNilIface)})
		}, func(st *State) {
			k(st, []Val{ex.bytesFrom(st, ex.freshVar("readpart", sStr, false), t), verr(e)})
		})
	}
	models["encoding/json.NewDecoder"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		p := VPtr{kind: 'o', ref: ex.alloc(st), elem: deref(fn.Signature.Results().At(0).Type())}
		st.h.storeKey("json:decoder", strT(), p.ref, vstr(readerDoc(term1(args[0]))))
		k(st, []Val{p})
	}
	models["(*encoding/json.Decoder).Decode"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		p := args[0].(VPtr)
		if !ex.nilCheck(st, p, pos, "Decoder") {
			return
		}
		doc := term1(st.h.loadKey("json:decoder", strT(), p.ref))
		// the next one is another document
		st.h.storeKey("json:decoder", strT(), p.ref, vstr(ex.freshVar("nextdoc", sStr, false)))
		ex.jsonInto(st, doc, args[1], ex.pos(pos)+" decodes", pos, func(st *State, e *Term) { k(st, []Val{verr(e)}) })
	}
	models["net/http.NewRequestWithContext"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		method, u := term1(args[1]), term1(args[2])
		rt := fn.Signature.Results().At(0).Type()
		t := deref(rt)
		e := ex.freshErr()
		if !ex.panicCheck(st, tTrue, "", pos) {
			return
		}
		ok := tAnd(tNot(tEq(term1(args[0]), tNilIface)), tApp("http.validRequest", sBool, method, u))
		ex.fork(st, ok, ex.pos(pos)+" request built", func(st *State) {
			r := ex.alloc(st)
			hi := fieldIndex(t, "Header")
			ht := t.Underlying().(*types.Struct).Field(hi).Type()
			m := ex.alloc(st)
			st.h.mapNew(ht, m)
			st.h.storeField(t, hi, r, VT{m, ht})
			st.h.storeField(t, fieldIndex(t, "Method"), r, vstr(method))
			st.h.storeKey("http:url", strT(), r, vstr(canonURL(u)))
			body := tStrLit("")
			if b := term1(args[3]); b != tNilIface {
				body = tIte(tEq(b, tNilIface), body, readerText(b))
			}
			st.h.storeKey("http:body", strT(), r, vstr(body))
			k(st, []Val{VPtr{kind: 'o', ref: r, elem: t}, verr(tNilIface)})
		}, func(st *State) {
			k(st, []Val{VPtr{kind: 'o', ref: tInt(0), elem: t}, verr(e)})
		})
	}
	models["net/http.NewRequest"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		ctx := VIface{tApp("opq", sIface, tStrLit("context.Background")), anyT}
		models["net/http.NewRequestWithContext"](ex, st, fn, append([]Val{ctx}, args...), pos, k)
	}
	models["(*net/http.Client).Do"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		q := args[1].(VPtr)
		if !ex.nilCheck(st, args[0].(VPtr), pos, "http.Client") || !ex.nilCheck(st, q, pos, "http.Request") {
			return
		}
		rt := fn.Signature.Results().At(0).Type()
		t := deref(rt)
		e := ex.freshErr()
		hi := fieldIndex(q.elem, "Header")
		ht := q.elem.Underlying().(*types.Struct).Field(hi).Type()
		m := term1(st.h.loadField(q.elem, hi, q.ref))
		ctype := ex.freshVar("noheader", sStr, false)
		if has := st.h.mapHas(ht, m, tStrLit("Content-Type")); has.isFalse() {
			ctype = tStrLit("")
		} else if vs := ex.mapText(st, ht, m, tStrLit("Content-Type")); has.isTrue() && len(vs) == 1 {
			ctype = vs[0]
		}
		ev := []Val{
			st.h.loadField(q.elem, fieldIndex(q.elem, "Method"), q.ref),
			st.h.loadKey("http:url", strT(), q.ref),
			vstr(ctype),
			st.h.loadKey("http:body", strT(), q.ref),
		}
		answered := ex.freshVar("answered", sBool, false)
		ex.fork(st, answered, ex.pos(pos)+" answered", func(st *State) {
			r := ex.alloc(st)
			code := ex.freshVar("status", sInt, false)
			body := tApp("opq", sIface, tCat(tStrLit("http.body"), tApp("itoa", sStr, r)))
			bi := fieldIndex(t, "Body")
			st.h.storeField(t, fieldIndex(t, "StatusCode"), r, VT{code, types.Typ[types.Int]})
			st.h.storeField(t, bi, r, VIface{body, t.Underlying().(*types.Struct).Field(bi).Type()})
			res := []Val{vint(code), vstr(readerDoc(body)), verr(tNilIface)}
			ex.event(st, "http.Do", nil, ev, res, st.h, nil, pos)
			k(st, []Val{VPtr{kind: 'o', ref: r, elem: t}, verr(tNilIface)})
		}, func(st *State) {
			ex.event(st, "http.Do", nil, ev, []Val{vint(tInt(0)), vstr(tStrLit("")), verr(e)}, st.h, nil, pos)
			k(st, []Val{VPtr{kind: 'o', ref: tInt(0), elem: t}, verr(e)})
		})
	}
	ifaceModels["io.Closer.Close"] = func(ex *Exec, st *State, recv VIface, args []Val, sig *types.Signature, pos token.Pos, k kont) {
		res := []Val{ex.symVal(errT, "close")}
		ex.event(st, "io.Close", nil, []Val{vstr(readerDoc(recv.t))}, res, st.h, nil, pos)
		k(st, res)
	}
	ifaceModels["io.ReadCloser.Close"] = ifaceModels["io.Closer.Close"]
	// what documents' members are decoded into is new
	groundFuns["json.ref"] = func(u *Term) []*Term {
		var c []*Term
		for i, a := range u.args {
			c = append(c, tEq(tApp("json.refof"+string(rune('0'+i)), sStr, u), a))
		}
		return []*Term{tImp(tNot(tApp("=", sBool, u, tInt(0))), tAnd(c...))}
	}
	groundFuns["queryescape"] = func(u *Term) []*Term {
		return []*Term{tEq(tApp("queryunescape", sStr, u), u.args[0])}
	}
}

func queryEscape(v *Term) *Term {
	if v.isStr() {
		return tStrLit(url.QueryEscape(v.op))
	}
	return tApp("queryescape", sStr, v)
}

// closedDom: the map has only the keys stored into it since it was made.
func closedDom(t *Term) bool {
	for t.kind == 'a' && t.op == "store" {
		t = t.args[0]
	}
	return t.kind == 'a' && t.op == "constarr" && t.args[0] == tFalse
}
