package main

import (
	"go/token"
	"go/types"
	"regexp"
	"slices"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ---- JSON encoding: what the document says about the encoded value ----

// jsonFacts states what the JSON document doc says at path about the value v of type t, under the condition g.
func (ex *Exec) jsonFacts(st *State, doc *Term, t types.Type, v Val, path string, omit bool, depth int, g *Term) {
	if depth > 4 {
		return
	}
	fact := func(c *Term) { ex.fact(tImp(g, c)) }
	p := tStrLit(path)
	has := tApp("json.has", sBool, doc, p)
	zero := tTrue
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv, ok := v.(VStruct)
		if !ok {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			tag := jsonTag(u.Tag(i))
			if !f.Exported() || tag == "-" {
				continue
			}
			noCustomJSON(derefAny(f.Type()), "MarshalJSON")
			if tag == "" && f.Embedded() && isStruct(derefAny(f.Type())) {
				// the members of an embedded structure are members of the outer one
				if isStruct(f.Type()) {
					ex.jsonFacts(st, doc, f.Type(), sv.f[i], path, false, depth+1, g)
				}
				continue
			}
			name := f.Name()
			if tag != "" {
				name = tag
			}
			if path != "" {
				name = path + "." + name
			}
			ex.jsonFacts(st, doc, f.Type(), sv.f[i], name, strings.Contains(u.Tag(i), tag+",omitempty"), depth+1, g)
		}
		return
	case *types.Map:
		m := term1(v)
		zero = tEq(m, tInt(0))
		fact(has)
		if b, ok := u.Key().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 || !m.isInt() || m.big.Sign() == 0 {
			return
		}
		// the members stored under literal keys
		keys := mapKeys(st.h.mapDom(t, m))
		for _, n := range specKeys { // other members the contracts speak about
			if key := tStrLit(n); !slices.Contains(keys, key) {
				keys = append(keys, key)
			}
		}
		for _, key := range keys {
			name := key.op
			if path != "" {
				name = path + "." + name
			}
			in := st.h.mapHas(t, m, key)
			ex.jsonFacts(st, doc, u.Elem(), st.h.mapGet(t, m, key), name, false, depth+1, tAnd(g, in))
			ex.fact(tImp(tAnd(g, tNot(in)), tNot(tApp("json.has", sBool, doc, tStrLit(name)))))
		}
		return
	case *types.Interface:
		x := term1(v)
		d := dynType(x)
		if d == nil {
			return
		}
		ex.jsonFacts(st, doc, d, ex.unIface(st, x, d), path, false, depth, g)
		return
	case *types.Basic:
		x := term1(v)
		switch x.sort {
		case sStr:
			// text that is not valid UTF-8 is not encoded faithfully
			valid := tApp("utf8.valid", sBool, x)
			if x.isStr() {
				valid = tBool(utf8.ValidString(x.op))
			}
			fact(tImp(valid, tEq(tApp("json.str", sStr, doc, p), x)))
			zero = tEq(x, tStrLit(""))
		case sInt:
			fact(tEq(tApp("json.int", sInt, doc, p), x))
			zero = tEq(x, tInt(0))
		case sBool:
			fact(tEq(tApp("json.bool", sBool, doc, p), x))
			zero = tNot(x)
		default:
			return
		}
	case *types.Pointer:
		q, ok := v.(VPtr)
		if !ok || q.kind != 'o' {
			return
		}
		zero = tEq(q.ref, tInt(0))
		fact(tEq(tEq(tApp("json.ref", sInt, doc, p), tInt(0)), zero))
		if q.ref == tInt(0) {
			break
		}
		if _, basic := u.Elem().Underlying().(*types.Basic); basic || isStruct(u.Elem()) {
			ex.jsonFacts(st, doc, u.Elem(), st.h.load(q), path, false, depth+1, tAnd(g, tNot(zero)))
		}
	default:
		return
	}
	if omit {
		fact(tEq(has, tNot(zero)))
	} else {
		fact(has)
	}
}

// specKeys are the JSON member names in the contracts.
var specKeys []string

var specKeyRx = regexp.MustCompile(`(?:json|proto)[A-Z]\w*\(\w+, "([^"]*)"`)

func collectSpecKeys(text string) {
	for _, m := range specKeyRx.FindAllStringSubmatch(text, -1) {
		for _, n := range strings.Split(m[1], ".") {
			if !slices.Contains(specKeys, n) {
				specKeys = append(specKeys, n)
			}
		}
	}
}

// mapKeys are the literal keys stored in the domain of a map.
func mapKeys(dom *Term) []*Term {
	var r []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		switch {
		case t.kind == 'a' && t.op == "store":
			walk(t.args[0])
			if t.args[1].isStr() && !slices.Contains(r, t.args[1]) {
				r = append(r, t.args[1])
			}
		case t.kind == 'a' && t.op == "ite":
			walk(t.args[1])
			walk(t.args[2])
		}
	}
	walk(dom)
	return r
}

// jsonDoc is the JSON document of an any value; the second result is false when it cannot be encoded.
func (ex *Exec) jsonDoc(st *State, v Val) *Term {
	doc := ex.freshVar("json", sStr, false)
	ex.fact(tNot(tEq(doc, tStrLit(""))))
	x := term1(v)
	d := dynType(x)
	if d == nil {
		return doc
	}
	t := d
	val := ex.unIface(st, x, d)
	if _, ok := d.Underlying().(*types.Map); ok {
		if m := ex.mapDoc(st, d, term1(val)); m != nil {
			return m
		}
	}
	if p, ok := d.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		ref := val.(VPtr).ref
		if ref == tInt(0) {
			return doc
		}
		func() {
			defer func() { recover() }()
			val = st.h.load(val.(VPtr))
		}()
	}
	noCustomJSON(t, "MarshalJSON")
	if isStruct(t) {
		ex.fact(tApp("json.ok", sBool, doc, typeID(t)))
		ex.fact(tApp("json.ok", sBool, doc, typeID(types.NewPointer(t))))
		ex.jsonFacts(st, doc, t, val, "", false, 0, tTrue)
	} else if _, ok := t.Underlying().(*types.Map); ok {
		ex.jsonFacts(st, doc, t, val, "", false, 0, tTrue)
	}
	return doc
}

func strOf(x *Term) *Term {
	if x.kind == 'a' && x.op == "mkI!Str" {
		return x.args[1]
	}
	return ifVal(x, sStr)
}

// registerSigner models the signing side of go-jose: a serialized token is a function of the header, key and payload.
func registerSigner() {
	withHeader := func(name *Term) model {
		return func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			p := args[0].(VPtr)
			if !ex.nilCheck(st, p, pos, "SignerOptions") {
				return
			}
			n, v := name, args[len(args)-1]
			if n == nil {
				n = term1(args[1])
			} else {
				v = VIface{tApp("mkI!Str", sIface, typeID(fn.Signature.Params().At(0).Type()), term1(args[1])), anyT}
			}
			s := p.elem.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if f := s.Field(i); f.Name() == "ExtraHeaders" {
					m := term1(st.h.loadField(p.elem, i, p.ref))
					set := func(st *State, m *Term) {
						st.h.mapSet(f.Type(), m, n, v)
						k(st, []Val{p})
					}
					ex.fork(st, tEq(m, tInt(0)), ex.pos(pos)+" no extra header yet", func(st *State) {
						r := ex.alloc(st)
						st.h.mapNew(f.Type(), r)
						st.h.storeField(p.elem, i, p.ref, VT{r, f.Type()})
						set(st, r)
					}, func(st *State) { set(st, m) })
					return
				}
			}
			panic(Unsupported{"SignerOptions without ExtraHeaders"})
		}
	}
	models["(*"+joseP+".SignerOptions).WithHeader"] = withHeader(nil)
	models["(*"+joseP+".SignerOptions).WithType"] = withHeader(tStrLit("typ"))
	models["(*"+joseP+".SignerOptions).WithContentType"] = withHeader(tStrLit("cty"))
	models[joseP+".NewSigner"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		sk := args[0].(VStruct)
		alg := term1(sk.f[0])
		key, ok := ex.keyMaterial(st, sk.f[1], pos)
		if !ok {
			return
		}
		typ, kid, embed := ex.freshVar("notyp", sStr, false), ex.freshVar("nokid", sStr, false), tFalse
		hasTyp := tFalse
		if p, isP := args[1].(VPtr); isP && p.ref != tInt(0) {
			s := p.elem.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				v := st.h.loadField(p.elem, i, p.ref)
				switch f.Name() {
				case "EmbedJWK":
					embed = term1(v)
				case "ExtraHeaders":
					m := term1(v)
					g := func(n string) (*Term, *Term) {
						return st.h.mapHas(f.Type(), m, tStrLit(n)), strOf(term1(st.h.mapGet(f.Type(), m, tStrLit(n))))
					}
					h, x := g("typ")
					typ = tIte(h, x, typ)
					hasTyp = h
					h, x = g("kid")
					kid = tIte(h, x, kid)
				}
			}
		}
		sig := tApp("josesigner", sIface, typ, kid, alg, key, embed, hasTyp)
		e := ex.freshErr()
		rt := fn.Signature.Results().At(0).Type()
		ex.fork(st, tApp("jose.canSign", sBool, alg, key), ex.pos(pos)+" the key can sign", func(st *State) {
			k(st, []Val{VIface{sig, rt}, verr(tNilIface)})
		}, func(st *State) { k(st, []Val{VIface{tNilIface, rt}, verr(e)}) })
	}
	models[joseP+"/jwt.Signed"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		k(st, []Val{VIface{tApp("jwtbuilder", sIface, term1(args[0]), tStrLit(""), tNilIface), fn.Signature.Results().At(0).Type()}})
	}
	ifaceModels[joseP+"/jwt.Builder.Claims"] = func(ex *Exec, st *State, recv VIface, args []Val, sig *types.Signature, pos token.Pos, k kont) {
		if recv.t.op != "jwtbuilder" {
			panic(Unsupported{"jwt builder"})
		}
		doc := ex.freshVar("merged", sStr, false)
		if recv.t.args[1] == tStrLit("") {
			doc = ex.jsonDoc(st, args[0])
		}
		k(st, []Val{VIface{tApp("jwtbuilder", sIface, recv.t.args[0], doc, term1(args[0])), sig.Results().At(0).Type()}})
	}
	ifaceModels[joseP+"/jwt.Builder.Serialize"] = func(ex *Exec, st *State, recv VIface, args []Val, sig *types.Signature, pos token.Pos, k kont) {
		if recv.t.op != "jwtbuilder" || recv.t.args[0].op != "josesigner" {
			panic(Unsupported{"jwt builder"})
		}
		s := recv.t.args[0]
		doc := recv.t.args[1]
		if !s.args[5].isTrue() {
			panic(Unsupported{"signer without typ header"})
		}
		raw := tApp("jws.make", sStr, s.args[0], s.args[1], s.args[2], s.args[3], doc, s.args[4])
		ok := ex.freshVar("signed", sBool, false)
		e := ex.freshErr()
		ex.fork(st, ok, ex.pos(pos)+" token signed", func(st *State) {
			ex.fact(tNot(tEq(raw, tStrLit(""))))
			// an asymmetric key that signs has a thumbprint
			ex.fact(tImp(tApp("jose.asymmetric", sBool, s.args[3]), tApp("jose.supportedKey", sBool, tApp("jose.public", sIface, s.args[3]))))
			res := []Val{vstr(raw), verr(tNilIface)}
			ex.event(st, "jose.Sign", nil, []Val{VIface{recv.t.args[2], anyT}}, res, st.h, sig, pos)
			k(st, res)
		}, func(st *State) { k(st, []Val{vstr(tStrLit("")), verr(e)}) })
	}
	models["(*net/url.URL).String"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		p := args[0].(VPtr)
		if !ex.nilCheck(st, p, pos, "URL") {
			return
		}
		v := st.h.load(p).(VStruct)
		k(st, []Val{vstr(tApp("url.string", sStr, urlArgs(v)...))})
	}
	models["(*net/url.URL).EscapedPath"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		p := args[0].(VPtr)
		if !ex.nilCheck(st, p, pos, "URL") {
			return
		}
		s := p.elem.Underlying().(*types.Struct)
		var path, raw *Term
		for i := 0; i < s.NumFields(); i++ {
			switch s.Field(i).Name() {
			case "Path":
				path = term1(st.h.loadField(p.elem, i, p.ref))
			case "RawPath":
				raw = term1(st.h.loadField(p.elem, i, p.ref))
			}
		}
		k(st, []Val{vstr(tApp("url.escapedPath", sStr, path, raw))})
	}
	models["unicode/utf8.ValidString"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		k(st, []Val{vbool(tApp("utf8.valid", sBool, term1(args[0])))})
	}
}

func urlArgs(v VStruct) []*Term {
	var ts []*Term
	for _, f := range v.f {
		ts = append(ts, toTerms(f)...)
	}
	return ts
}

var urlNames []string // the fields of net/url.URL in order
var urlSorts []string

func noteURL(w *World) {
	t := w.findType("net/url.URL")
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		srt, _, _ := scalarSort(s.Field(i).Type())
		urlNames = append(urlNames, s.Field(i).Name())
		urlSorts = append(urlSorts, srt)
	}
}

// urlText is the text of the URL s without userinfo, query and fragment.
func urlText(s *Term) *Term {
	var ts []*Term
	for i, n := range urlNames {
		switch n {
		case "Scheme", "Opaque", "Host", "Path", "RawPath":
			ts = append(ts, tApp("url."+n, urlSorts[i], s))
			continue
		}
		switch urlSorts[i] {
		case sStr:
			ts = append(ts, tStrLit(""))
		case sBool:
			ts = append(ts, tFalse)
		default:
			ts = append(ts, tInt(0))
		}
	}
	return tApp("url.string", sStr, ts...)
}

func init() {
	for _, n := range []string{"josesigner", "jwtbuilder"} {
		n := n
		injective[n] = true
		kind := int64(-6)
		if n == "jwtbuilder" {
			kind = -7
		}
		groundFuns[n] = func(u *Term) []*Term {
			return []*Term{tNot(tApp("=", sBool, u, tNilIface)), tApp("=", sBool, tApp("ikind", sInt, u), tInt(kind))}
		}
	}
	groundFuns["jose.public"] = func(u *Term) []*Term {
		r := []*Term{tNot(tApp("=", sBool, u, tNilIface))}
		return r
	}
	// the encoded form of a URL parsed from valid UTF-8 is valid UTF-8
	groundFuns["url.string"] = func(u *Term) []*Term {
		var src *Term
		for _, a := range u.args {
			if a.kind == 'a' && strings.HasPrefix(a.op, "url.") && len(a.args) == 1 {
				src = a.args[0]
			}
		}
		if src == nil {
			return nil
		}
		r := []*Term{tImp(tApp("utf8.valid", sBool, src), tApp("utf8.valid", sBool, u))}
		// a parsed request URI has a scheme, opaque part or path
		whole := true
		for i, n := range urlNames {
			if (n == "Scheme" || n == "Opaque" || n == "Path") && u.args[i] != tApp("url."+n, sStr, src) {
				whole = false
			}
		}
		if whole {
			r = append(r, tImp(tApp("url.ParseRequestURI.ok", sBool, src), tNot(tApp("=", sBool, u, tStrLit("")))))
		}
		return r
	}
	groundFuns["charset"] = func(u *Term) []*Term {
		c := u.args[1]
		if !c.isStr() {
			return nil
		}
		j := tVar("?j", sInt)
		at := tApp("at", sInt, u.args[0], j)
		r := []*Term{tForall([]*Term{j}, tImp(tAnd(u, tLe(tInt(0), j), tLt(j, tSlen(u.args[0]))), inBytes(at, byteSet(c.op))), at)}
		if strings.IndexFunc(c.op, func(r rune) bool { return r >= 128 }) < 0 {
			r = append(r, tImp(u, tApp("utf8.valid", sBool, u.args[0])))
		}
		return r
	}
	groundFuns["utf8.valid"] = func(u *Term) []*Term {
		x := u.args[0]
		if x.kind == 'a' && (x.op == "b64enc" || x.op == "hex" || x.op == "itoa") {
			return []*Term{u}
		}
		return nil
	}
	groundFuns["url.ParseRequestURI.ok"] = func(u *Term) []*Term {
		return []*Term{tImp(u, tNot(tApp("=", sBool, u.args[0], tStrLit(""))))}
	}
	groundFuns["jose.thumbprint"] = func(u *Term) []*Term {
		if k := u.args[0]; k.kind == 'a' && k.op == "jose.public" {
			return []*Term{tApp("=", sBool, u, tApp("jose.thumbprint", sStr, k.args[0], u.args[1]))}
		}
		return nil
	}
}
