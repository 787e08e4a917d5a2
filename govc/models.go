package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type model func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont)
type ifaceModel func(ex *Exec, st *State, recv VIface, args []Val, sig *types.Signature, pos token.Pos, k kont)

var models map[string]model
var ifaceModels map[string]ifaceModel

// ---- errors ----

func init() {
	injective["errS"] = true
	injective["errF"] = true
	injective["hashI"] = true
	injective["ctxWith"] = true
	injective["opq"] = true
	for _, n := range []string{"errS", "errF", "hashI", "ctxWith", "opq"} {
		n := n
		groundFuns[n] = func(u *Term) []*Term {
			tid := int64(-1)
			switch n {
			case "errF":
				tid = -2
			case "hashI":
				tid = -3
			case "ctxWith":
				tid = -4
			case "opq":
				tid = -5
			}
			_ = tid
			r := []*Term{tNot(tApp("=", sBool, u, tNilIface)), tApp("=", sBool, tApp("ikind", sInt, u), tInt(tid))}
			for i, a := range u.args {
				r = append(r, tApp("=", sBool, tApp(fmt.Sprintf("inv%d%s", i, n), a.sort, u), a))
			}
			return r
		}
	}
	groundFuns["eis"] = func(u *Term) []*Term {
		return []*Term{
			tImp(tApp("=", sBool, u.args[0], u.args[1]), u),
			tImp(tApp("=", sBool, u.args[0], tNilIface), tApp("=", sBool, u, tApp("=", sBool, u.args[1], tNilIface))),
			tImp(tApp("=", sBool, tApp("ikind", sInt, u.args[0]), tInt(-1)), tApp("=", sBool, u, tApp("=", sBool, u.args[0], u.args[1]))),
		}
	}
	groundFuns["eqfold"] = func(u *Term) []*Term {
		return []*Term{tImp(tApp("=", sBool, u.args[0], u.args[1]), u)}
	}
	groundFuns["hasPrefix"] = func(u *Term) []*Term {
		s, p := u.args[0], u.args[1]
		return []*Term{tImp(u, tAnd(tLe(tSlen(p), tSlen(s)), tApp("=", sBool, tApp("sub", sStr, s, tInt(0), tSlen(p)), p)))}
	}
	groundFuns["b64enc"] = func(u *Term) []*Term {
		n, l := tSlen(u.args[1]), tApp("slen", sInt, u)
		r := []*Term{
			tEq(tApp("b64dec", sStr, u.args[0], u), u.args[1]),
			tApp("b64ok", sBool, u.args[0], u),
		}
		if u.args[0].isStr() && strings.HasPrefix(u.args[0].op, "Raw") {
			// l = ceil(4n/3)
			r = append(r, tAnd(tLe(tMul(n, tInt(4)), tMul(l, tInt(3))), tLe(tMul(l, tInt(3)), tAdd(tMul(n, tInt(4)), tInt(2)))))
		} else {
			r = append(r, tAnd(tLe(tMul(n, tInt(4)), tMul(l, tInt(3))), tLe(tMul(l, tInt(3)), tAdd(tMul(n, tInt(4)), tInt(8)))))
		}
		return r
	}
	groundFuns["b64dec"] = func(u *Term) []*Term {
		if u.args[0].isStr() && strings.HasPrefix(u.args[0].op, "Raw") {
			n, l := tApp("slen", sInt, u), tSlen(u.args[1])
			ok := tApp("b64ok", sBool, u.args[0], u.args[1])
			return []*Term{tImp(ok, tAnd(tLe(tMul(n, tInt(4)), tMul(l, tInt(3))), tLe(tSub(tMul(l, tInt(3)), tInt(6)), tMul(n, tInt(4)))))}
		}
		return nil
	}
	groundFuns["bitxor"] = nil
	delete(groundFuns, "bitxor")
	funAxioms["upd"] = func() []*Term {
		s, i, v, j := tVar("?s", sStr), tVar("?i", sInt), tVar("?v", sInt), tVar("?j", sInt)
		u := tApp("upd", sStr, s, i, v)
		at := tApp("at", sInt, u, j)
		return []*Term{
			tForall([]*Term{s, i, v, j}, tImp(tAnd(tLe(tInt(0), v), tLe(v, tInt(255))), tApp("=", sBool, at, tApp("ite", sInt, tApp("=", sBool, i, j), v, tApp("at", sInt, s, j)))), at),
			tForall([]*Term{s, i, v}, tApp("=", sBool, tApp("slen", sInt, u), tApp("slen", sInt, s)), u),
		}
	}
}

func tEqFold(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.isStr() && b.isStr() {
		return tBool(strings.EqualFold(a.op, b.op))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tApp("eqfold", sBool, a, b)
}

func isErr(e, t *Term) *Term {
	if e == t {
		return tTrue
	}
	if e == tNilIface {
		return tEq(t, tNilIface)
	}
	if e.kind == 'a' {
		switch e.op {
		case "errS":
			return tEq(e, t)
		case "errF":
			r := tEq(e, t)
			for _, w := range e.args[1:] {
				if w != tNilIface {
					r = tOr(r, tAnd(tNot(tEq(w, tNilIface)), isErr(w, t)))
				}
			}
			return r
		case "ite":
			return tIte(e.args[0], isErr(e.args[1], t), isErr(e.args[2], t))
		}
	}
	return tApp("eis", sBool, e, t)
}

func b64enc(ex *Exec, e, s *Term) *Term {
	return tApp("b64enc", sStr, e, s)
}

var errT = types.Universe.Lookup("error").Type()

func verr(t *Term) Val { return VIface{t, errT} }

func okErr(ok *Term, e *Term) Val { return VIface{tIte(ok, tNilIface, e), errT} }

// freshErr makes a non-nil error distinct from every other one.
func (ex *Exec) freshErr(wraps ...*Term) *Term {
	ex.n++
	args := []*Term{tInt(int64(ex.n))}
	if len(wraps) == 0 {
		wraps = []*Term{tNilIface}
	}
	args = append(args, wraps...)
	op := "errF"
	if len(wraps) > 1 {
		op = fmt.Sprintf("errF%d", len(wraps))
	}
	return tApp(op, sIface, args...)
}

// variadic returns the elements of a variadic argument slice of known length.
func (ex *Exec) variadic(st *State, v Val) ([]Val, bool) {
	s := v.(VSlice)
	if !s.len.isInt() {
		return nil, false
	}
	var r []Val
	for i := int64(0); i < s.len.big.Int64(); i++ {
		r = append(r, st.h.loadElem(s.elem, s.base, tAdd(s.off, tInt(i))))
	}
	return r, true
}

type fverb struct {
	lit  string
	verb byte
}

func parseFormat(f string) []fverb {
	var r []fverb
	cur := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			cur += string(f[i])
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			cur += "%"
			continue
		}
		r = append(r, fverb{cur, f[i]})
		cur = ""
	}
	return append(r, fverb{cur, 0})
}

func (ex *Exec) sprintf(st *State, format *Term, argv Val) *Term {
	as, ok := ex.variadic(st, argv)
	if !format.isStr() || !ok {
		return ex.freshVar("sprintf", sStr, false)
	}
	out := tStrLit("")
	i := 0
	for _, v := range parseFormat(format.op) {
		out = tCat(out, tStrLit(v.lit))
		if v.verb == 0 {
			break
		}
		if i >= len(as) {
			return ex.freshVar("sprintf", sStr, false)
		}
		x := term1(as[i])
		i++
		if v.verb == 'x' {
			if d := dynType(x); d != nil {
				if b, ok := ex.bytesOf(st, ex.unIface(st, x, d)); ok {
					out = tCat(out, tApp("hex", sStr, b))
					continue
				}
			}
		}
		out = tCat(out, fmtTerm(x, v.verb))
	}
	ex.catFacts(out)
	return out
}

// bytesOf is the text of a string, byte slice or byte array.
func (ex *Exec) bytesOf(st *State, v Val) (*Term, bool) {
	switch x := v.(type) {
	case VSlice:
		if isByte(x.elem) {
			return st.h.view(x), true
		}
	case VT:
		if x.t.sort == sStr {
			return x.t, true
		}
	}
	return nil, false
}

func fmtTerm(x *Term, verb byte) *Term {
	if x.kind == 'a' && x.op == "ite" {
		return tIte(x.args[0], fmtTerm(x.args[1], verb), fmtTerm(x.args[2], verb))
	}
	if d := dynType(x); d != nil && (verb == 's' || verb == 'v' || verb == 'd') {
		if _, named := types.Unalias(d).(*types.Named); !named || verb == 'd' {
			if x.op == "mkI!Str" && isString(d) {
				return x.args[1]
			}
			if x.op == "mkI!Int" {
				if b, ok := d.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					if x.args[1].isInt() {
						return tStrLit(x.args[1].op)
					}
					return tApp("itoa", sStr, x.args[1])
				}
			}
		}
	}
	return tApp("fmt%"+string(verb), sStr, x)
}

// ---- pure library functions: results are functions of their arguments ----

var purePkgs = []string{"strings.", "unicode/utf8.", "strconv.", "net/url.", "(*net/url.", "(net/url.", "path.", "bytes.", "(net/http.Header).", "math.", "encoding/hex.", "(time.", "time."}

func pureExternal(name string) bool {
	for _, p := range purePkgs {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return strings.HasSuffix(name, "error.Error") || name == "error.Error"
}

func (ex *Exec) pureResult(st *State, name string, recv Val, args []Val, i int, t types.Type) Val {
	srt, _, ok := scalarSort(t)
	if !ok {
		return nil
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Signature, *types.Interface:
		return nil
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Unsupported); !ok {
				panic(r)
			}
		}
	}()
	var ts []*Term
	if recv != nil {
		ts = append(ts, toTerms(recv)...)
	}
	for _, a := range args {
		switch x := a.(type) {
		case VPtr:
			if x.kind == 'o' {
				ts = append(ts, toTerms(st.h.load(x))...)
				continue
			}
			return nil
		case VSlice:
			if isByte(x.elem) {
				ts = append(ts, st.h.view(x))
				continue
			}
			return nil
		}
		ts = append(ts, toTerms(a)...)
	}
	v := VT{tApp(fmt.Sprintf("%s.%d", name, i), srt, ts...), t}
	ex.typeFacts(v)
	return v
}

// ---- globals of other packages ----

// externGlobal gives package-level variables of libraries fixed unknown values.
func (ex *Exec) externGlobal(st *State, g *ssa.Global) {
	p := g.Pkg.Pkg.Path()
	if strings.HasPrefix(p, "zntr.io/solid") {
		return
	}
	k := "eg:" + g.String()
	if _, ok := st.ghost[k]; ok {
		return
	}
	st.ghost[k] = vNil{}
	t := deref(g.Type())
	ref := ex.globalRef(st, g)
	switch {
	case ozzoGlobalPkg(p) && ex.ozzoGlobal(st, g, ref):
	case isErrorType(t):
		st.h.storeObj(t, ref, verr(tApp("errS", sIface, tStrLit(g.String()))))
	case p == "encoding/base64":
		x := subRef("b64:"+g.Name(), tInt(0), nil)
		st.h.storeObj(t, ref, VPtr{kind: 'o', ref: x, elem: deref(t)})
		b64Regs.Store(x, g.Name())
	case isIface(t):
		st.h.storeObj(t, ref, VIface{tApp("opq", sIface, tStrLit(g.String())), t})
	case externText[g.String()] != "":
		st.h.storeObj(t, ref, ex.bytesFrom(st, tStrLit(externText[g.String()]), t))
	default:
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			st.h.storeObj(t, ref, VPtr{kind: 'o', ref: subRef("extobj:"+g.String(), tInt(0), nil), elem: pt.Elem()})
		}
	}
}

func b64name(v Val) *Term {
	p := v.(VPtr)
	if n, ok := b64Regs.Load(p.ref); ok {
		return tStrLit(n.(string))
	}
	return tApp("b64of", sStr, p.ref)
}

func (ex *Exec) strArg(st *State, v Val) *Term {
	if s, ok := v.(VSlice); ok {
		t := st.h.view(s)
		ex.subFacts(t)
		return t
	}
	return term1(v)
}

func two256(n int64) *Term {
	return tBig(new(big.Int).Lsh(big.NewInt(1), uint(8*n)))
}

func (ex *Exec) now(st *State) *Term {
	c := ex.freshVar("now", sInt, false)
	ex.fact(tLe(st.clock, c))
	ex.fact(tLe(c, tInt(4_000_000_000_000_000_000))) // year 2096
	st.clock = c
	return c
}

func strT() types.Type  { return types.Typ[types.String] }
func boolT() types.Type { return types.Typ[types.Bool] }

func init() {
	resT := func(fn *ssa.Function, i int) types.Type { return fn.Signature.Results().At(i).Type() }
	// uf: scalar results as functions of string-like arguments
	strFn := func(op string, f func(a []string) (string, bool)) model {
		return func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			var ts []*Term
			var ss []string
			c := true
			for _, a := range args {
				t := ex.strArg(st, a)
				ts = append(ts, t)
				if t.isStr() {
					ss = append(ss, t.op)
				} else {
					c = false
				}
			}
			if c && f != nil {
				if r, ok := f(ss); ok {
					k(st, []Val{VT{tStrLit(r), resT(fn, 0)}})
					return
				}
			}
			k(st, []Val{VT{tApp(op, sStr, ts...), resT(fn, 0)}})
		}
	}
	timeBin := func(f func(a, b *Term) *Term) model {
		return func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			k(st, []Val{VT{f(term1(args[0]), term1(args[1])), resT(fn, 0)}})
		}
	}
	timeUn := func(f func(a *Term) *Term) model {
		return func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			v := VT{f(term1(args[0])), resT(fn, 0)}
			k(st, []Val{v})
		}
	}
	urlParse := func(op string) model {
		return func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			s := ex.strArg(st, args[0])
			ok := tApp(op+".ok", sBool, s)
			if op == "url.ParseRequestURI" {
				ex.fact(tImp(ok, tNot(tEq(s, tStrLit("")))))
			}
			e := ex.freshErr()
			ut := deref(resT(fn, 0))
			ex.fork(st, ok, ex.pos(pos)+" "+op+" ok", func(st *State) {
				r := ex.alloc(st)
				stt := ut.Underlying().(*types.Struct)
				for i := 0; i < stt.NumFields(); i++ {
					ft := stt.Field(i).Type()
					srt, _, sc := scalarSort(ft)
					if !sc || srt == sInt {
						st.h.storeField(ut, i, r, ex.symVal(ft, "url."+stt.Field(i).Name()))
						continue
					}
					st.h.storeField(ut, i, r, fromTerms(ft, []*Term{tApp("url."+stt.Field(i).Name(), srt, s)}))
				}
				k(st, []Val{VPtr{kind: 'o', ref: r, elem: ut}, verr(tNilIface)})
			}, func(st *State) {
				k(st, []Val{VPtr{kind: 'o', ref: tInt(0), elem: ut}, verr(e)})
			})
		}
	}
	lockModel := func(kind string) model {
		return func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			ex.lockOp(st, kind, args[0].(VPtr), pos)
			var res []Val
			for i := 0; i < fn.Signature.Results().Len(); i++ {
				res = append(res, ex.symVal(resT(fn, i), "try"))
			}
			k(st, res)
		}
	}
	newHash := func(alg string, keyed, witherr bool) model {
		return func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			r := ex.alloc(st)
			key := tStrLit("")
			if keyed {
				key = ex.strArg(st, args[len(args)-1])
			}
			st.h.setBytes(r, tStrLit(""))
			st.h.storeKey("hash:key", strT(), r, VT{key, strT()})
			st.h.storeKey("hash:alg", strT(), r, VT{tStrLit(alg), strT()})
			h := VIface{tApp("hashI", sIface, r), resT(fn, 0)}
			if witherr {
				// blake2b.New256 fails iff the key is longer than 64 bytes
				ok := tLe(tSlen(key), tInt(64))
				e := ex.freshErr()
				ex.fork(st, ok, ex.pos(pos)+" hash key length ok", func(st *State) {
					k(st, []Val{h, verr(tNilIface)})
				}, func(st *State) {
					k(st, []Val{VIface{tNilIface, h.typ}, verr(e)})
				})
				return
			}
			k(st, []Val{h})
		}
	}
	jsonDecode := func(dst int) model {
		return func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			pre := st.h.clone()
			ex.havocPointee(st, args[dst])
			e := ex.symVal(errT, "jsonerr")
			ex.event(st, fnName(fn), nil, args, []Val{e}, pre, fn.Signature, pos)
			k(st, []Val{e})
		}
	}

	models = map[string]model{
		"fmt.Errorf": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			var wraps []*Term
			f := term1(args[0])
			if as, ok := ex.variadic(st, args[1]); ok && f.isStr() {
				for i, v := range parseFormat(f.op) {
					if v.verb == 'w' && i < len(as) {
						wraps = append(wraps, term1(as[i]))
					}
				}
			}
			k(st, []Val{verr(ex.freshErr(wraps...))})
		},
		"errors.New": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			k(st, []Val{verr(ex.freshErr())})
		},
		"errors.Is": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			k(st, []Val{VT{isErr(term1(args[0]), term1(args[1])), boolT()}})
		},
		"errors.Join": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			if as, ok := ex.variadic(st, args[0]); ok {
				var ws []*Term
				allNil := tTrue
				for _, a := range as {
					ws = append(ws, term1(a))
					allNil = tAnd(allNil, tEq(term1(a), tNilIface))
				}
				k(st, []Val{verr(tIte(allNil, tNilIface, ex.freshErr(ws...)))})
				return
			}
			k(st, []Val{ex.symVal(errT, "join")})
		},
		"fmt.Sprintf": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			k(st, []Val{VT{ex.sprintf(st, term1(args[0]), args[1]), strT()}})
		},
		"strings.EqualFold": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			k(st, []Val{VT{tEqFold(term1(args[0]), term1(args[1])), boolT()}})
		},
		"strings.TrimSpace": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			k(st, []Val{VT{ex.trimSpace(term1(args[0])), strT()}})
		},
		"unicode/utf8.RuneCountInString": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			s := term1(args[0])
			r := tApp("runecount", sInt, s)
			ex.fact(tAnd(tLe(tInt(0), r), tLe(r, tSlen(s)), tLe(tSlen(s), tMul(tInt(4), r))))
			k(st, []Val{vint(r)})
		},
		"strings.ToLower":   strFn("tolower", func(a []string) (string, bool) { return strings.ToLower(a[0]), true }),
		"strings.ToUpper":   strFn("toupper", func(a []string) (string, bool) { return strings.ToUpper(a[0]), true }),
		"strings.TrimPrefix": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			s, p := term1(args[0]), term1(args[1])
			hp := tHasPrefix(s, p)
			if hp.isFalse() {
				k(st, []Val{VT{s, strT()}})
				return
			}
			r := ex.sub(s, tSlen(p), tSlen(s))
			k(st, []Val{VT{tIte(hp, r, s), strT()}})
		},
		"strings.HasPrefix": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			k(st, []Val{VT{tHasPrefix(term1(args[0]), term1(args[1])), boolT()}})
		},
		"strings.Repeat": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			s, n := term1(args[0]), term1(args[1])
			if !ex.panicCheck(st, tLe(tInt(0), n), "negative Repeat count", pos) {
				return
			}
			if s.isStr() && n.isInt() && n.big.Int64() < 1000 {
				k(st, []Val{VT{tStrLit(strings.Repeat(s.op, int(n.big.Int64()))), strT()}})
				return
			}
			r := tApp("repeat", sStr, s, n)
			if s.isStr() && len(s.op) == 1 {
				ex.fact(tEq(tSlen(r), n))
			}
			k(st, []Val{VT{r, strT()}})
		},
		"strings.Fields": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			s := term1(args[0])
			r := ex.alloc(st)
			key := "elem:string"
			a := st.h.get(key, arrSort(sInt, arrSort(sInt, sStr)), false)
			st.h.m[key] = tStore(a, r, tApp("fieldsArr", arrSort(sInt, sStr), s))
			n := tApp("fieldsLen", sInt, s)
			if s.isStr() {
				n = tInt(int64(len(strings.Fields(s.op))))
				for i, f := range strings.Fields(s.op) {
					st.h.storeElem(strT(), r, tInt(int64(i)), VT{tStrLit(f), strT()})
				}
			}
			ex.fieldsOf(st, s)
			k(st, []Val{VSlice{base: r, off: tInt(0), len: n, cap: n, elem: strT()}})
		},
		"strings.Join": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			s, sep := args[0].(VSlice), term1(args[1])
			if es, ok := ex.variadic(st, s); ok && len(es) <= 16 {
				out := tStrLit("")
				for i, e := range es {
					if i > 0 {
						out = tCat(out, sep)
					}
					out = tCat(out, term1(e))
				}
				ex.catFacts(out)
				k(st, []Val{VT{out, strT()}})
				return
			}
			arr := st.h.elemArr(s.elem, comp{"", sStr, false}, s.base)
			j := tApp("join", sStr, arr, s.off, s.len, sep)
			ex.fact(tImp(tAnd(tEq(j, tStrLit("")), tNot(tEq(sep, tStrLit("")))), tOr(tEq(s.len, tInt(0)), tAnd(tEq(s.len, tInt(1)), tEq(tSelect(arr, s.off), tStrLit("")), tNot(tWord(tSelect(arr, s.off)))))))
			if sep.isStr() && sep.op == " " {
				q := tVar("?w", sInt)
				in := tAnd(tLe(tInt(0), q), tLt(q, s.len))
				words := tForall([]*Term{q}, tImp(in, tWord(tSelect(arr, tAdd(s.off, q)))))
				fa := tApp("fieldsArr", arrSort(sInt, sStr), j)
				same := tForall([]*Term{q}, tImp(in, tEq(tSelect(fa, q), tSelect(arr, tAdd(s.off, q)))), tSelect(fa, q))
				ex.assume(st, tImp(words, tAnd(tEq(tApp("fieldsLen", sInt, j), s.len), same)))
			}
			k(st, []Val{VT{j, strT()}})
		},
		"strings.Split":  splitModel(false),
		"strings.SplitN": splitModel(true),
		"net/url.ParseRequestURI": urlParse("url.ParseRequestURI"),
		"net/url.Parse":           urlParse("url.Parse"),
		"crypto/sha256.Sum256": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			k(st, []Val{VT{tApp("sha256", sStr, ex.strArg(st, args[0])), resT(fn, 0)}})
		},
		"golang.org/x/crypto/blake2b.Sum256": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			k(st, []Val{VT{tApp("blake2b256", sStr, tStrLit(""), ex.strArg(st, args[0])), resT(fn, 0)}})
		},
		"golang.org/x/crypto/blake2b.New256": newHash("blake2b256", true, true),
		"crypto/hmac.New":                    newHash("hmac", true, false),
		"crypto/sha256.New":                  newHash("sha256", false, false),
		"crypto/subtle.ConstantTimeCompare": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			a, b := ex.strArg(st, args[0]), ex.strArg(st, args[1])
			k(st, []Val{VT{tIte(tEq(a, b), tInt(1), tInt(0)), types.Typ[types.Int]}})
		},
		"crypto/hmac.Equal": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			k(st, []Val{VT{tEq(ex.strArg(st, args[0]), ex.strArg(st, args[1])), boolT()}})
		},
		"bytes.Equal": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			k(st, []Val{VT{tEq(ex.strArg(st, args[0]), ex.strArg(st, args[1])), boolT()}})
		},
		"crypto/subtle.ConstantTimeEq": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			k(st, []Val{VT{tIte(tEq(term1(args[0]), term1(args[1])), tInt(1), tInt(0)), types.Typ[types.Int]}})
		},
		"(*encoding/base64.Encoding).EncodeToString": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			k(st, []Val{VT{b64enc(ex, b64name(args[0]), ex.strArg(st, args[1])), strT()}})
		},
		"(*encoding/base64.Encoding).DecodeString": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			e, s := b64name(args[0]), term1(args[1])
			ok := tApp("b64ok", sBool, e, s)
			v := tApp("b64dec", sStr, e, s)
			er := ex.freshErr()
			ex.fork(st, ok, ex.pos(pos)+" base64 decodes", func(st *State) {
				k(st, []Val{ex.bytesFrom(st, v, resT(fn, 0)), verr(tNilIface)})
			}, func(st *State) {
				k(st, []Val{ex.symVal(resT(fn, 0), "b64part"), verr(er)})
			})
		},
		"crypto/rand.Read": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			b := args[0].(VSlice)
			e := ex.symVal(errT, "randerr").(VIface)
			ex.fillRandom(st, b)
			n := tIte(tEq(e.t, tNilIface), b.len, ex.freshVar("n", sInt, true))
			k(st, []Val{VT{n, types.Typ[types.Int]}, e})
		},
		"io.ReadFull": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			b := args[1].(VSlice)
			pre := st.h.clone()
			e := ex.symVal(errT, "readerr").(VIface)
			src := args[0].(VIface)
			if src.t.kind == 'a' && src.t.op == "detReader" {
				// deterministic reader: content is a function of the reader
				// what was read before is not read again
				rd := fmt.Sprintf("read:%p", src.t)
				off := st.ghost[rd]
				o := tInt(0)
				if off != nil {
					o = term1(off)
				}
				nb := tApp("readfull", sStr, src.t.args[1], b.len, o)
				ex.writeBytes(st, b, nb)
				// HKDF gives out up to 255 blocks
				ex.fact(tImp(tLe(tAdd(o, b.len), tInt(255*20)), tEq(e.t, tNilIface)))
				st.ghost[rd] = vint(tAdd(o, b.len))
			} else {
				ex.fillRandom(st, b)
			}
			n := tIte(tEq(e.t, tNilIface), b.len, ex.freshVar("n", sInt, true))
			res := []Val{VT{n, types.Typ[types.Int]}, e}
			ex.event(st, "io.ReadFull", nil, args, res, pre, fn.Signature, pos)
			k(st, res)
		},
		"golang.org/x/crypto/hkdf.New": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			// args: hash, secret, salt, info
			t := tApp("detReader", sIface, ex.alloc(st), tApp("hkdf", sStr, ex.strArg(st, args[1]), ex.strArg(st, args[2]), ex.strArg(st, args[3])))
			ex.fact(tNot(tEq(t, tNilIface)))
			k(st, []Val{VIface{t, resT(fn, 0)}})
		},
		"io.LimitReader": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			r := ex.alloc(st)
			k(st, []Val{VIface{tApp("opq", sIface, tCat(tStrLit("limit"), tApp("itoa", sStr, r))), resT(fn, 0)}})
		},
		"github.com/dchest/uniuri.NewLen": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			ex.randomText(st, fn, term1(args[0]), tStrLit("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"), pos, k)
		},
		"github.com/dchest/uniuri.New": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			ex.randomText(st, fn, tInt(16), tStrLit("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"), pos, k)
		},
		"github.com/dchest/uniuri.NewLenChars": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			cs := ex.strArg(st, args[1])
			if !ex.panicCheck(st, tAnd(tLe(tInt(2), tSlen(cs)), tLe(tSlen(cs), tInt(256))), "charset length", pos) {
				return
			}
			ex.randomText(st, fn, term1(args[0]), cs, pos, k)
		},
		"time.Now": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			n := ex.now(st)
			v := VT{n, resT(fn, 0)}
			ex.event(st, "time.Now", nil, nil, []Val{v}, st.h, fn.Signature, pos)
			k(st, []Val{v})
		},
		"time.Since": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			k(st, []Val{VT{tSub(ex.now(st), term1(args[0])), resT(fn, 0)}})
		},
		"time.Until": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			k(st, []Val{VT{tSub(term1(args[0]), ex.now(st)), resT(fn, 0)}})
		},
		"time.Unix": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			k(st, []Val{VT{tAdd(tMul(term1(args[0]), tInt(1_000_000_000)), term1(args[1])), resT(fn, 0)}})
		},
		"(time.Time).Unix": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			v := VT{tUnix(term1(args[0])), resT(fn, 0)}
			ex.typeFacts(v)
			k(st, []Val{v})
		},
		"(time.Time).UnixNano":  timeUn(func(a *Term) *Term { return a }),
		"(time.Time).UnixMilli": timeUn(func(a *Term) *Term { return tDiv(a, tInt(1_000_000)) }),
		"(time.Time).UTC":       timeUn(func(a *Term) *Term { return a }),
		"(time.Time).Local":     timeUn(func(a *Term) *Term { return a }),
		"(time.Time).IsZero":    timeUn(func(a *Term) *Term { return tEq(a, zeroTime) }),
		"(time.Time).Add":       timeBin(tAdd),
		"(time.Time).Sub":       timeBin(tSub),
		"(time.Time).Before":    timeBin(tLt),
		"(time.Time).After":     timeBin(func(a, b *Term) *Term { return tLt(b, a) }),
		"(time.Time).Equal":     timeBin(func(a, b *Term) *Term { return tEq(a, b) }),
		"(time.Time).Truncate": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			r := ex.freshVar("trunc", sInt, false)
			ex.fact(tLe(r, term1(args[0])))
			k(st, []Val{VT{r, resT(fn, 0)}})
		},
		"(time.Duration).Seconds": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			k(st, []Val{ex.symVal(resT(fn, 0), "secs")})
		},
		"(*sync.Mutex).Lock":              lockModel("lock"),
		"(*sync.Mutex).Unlock":            lockModel("unlock"),
		"(*sync.Mutex).TryLock":           lockModel("trylock"),
		"(*sync.RWMutex).Lock":            lockModel("lock"),
		"(*sync.RWMutex).Unlock":          lockModel("unlock"),
		"(*sync.RWMutex).RLock":           lockModel("rlock"),
		"(*sync.RWMutex).RUnlock":         lockModel("runlock"),
		"encoding/json.Unmarshal":         jsonDecode(1),
		"(*encoding/json.Decoder).Decode": jsonDecode(1),
		"encoding/json.NewDecoder": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			k(st, []Val{VPtr{kind: 'o', ref: ex.alloc(st), elem: deref(resT(fn, 0))}})
		},
		"encoding/json.NewEncoder": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			k(st, []Val{VPtr{kind: 'o', ref: ex.alloc(st), elem: deref(resT(fn, 0))}})
		},
		"regexp.MustCompile": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			p := term1(args[0])
			name := "?"
			if p.isStr() {
				name = p.op
			}
			r := subRef("regexp:"+name, tInt(0), nil)
			regexRegs.Store(r, name)
			k(st, []Val{VPtr{kind: 'o', ref: r, elem: deref(resT(fn, 0))}})
		},
		"(*regexp.Regexp).MatchString": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			p := args[0].(VPtr)
			s := term1(args[1])
			pt := tApp("rxof", sStr, p.ref)
			if n, ok := regexRegs.Load(p.ref); ok {
				pt = tStrLit(n.(string))
			}
			u := rxMatch(pt, s)
			if pt.isStr() {
				if m := matchPieces(pt.op, s); m != nil {
					u = m
				} else {
					ex.matchFacts(pt.op, u, s)
				}
			}
			k(st, []Val{VT{u, boolT()}})
		},
		"context.Background": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			k(st, []Val{VIface{tApp("opq", sIface, tStrLit("context.Background")), resT(fn, 0)}})
		},
		"context.WithValue": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			k(st, []Val{VIface{tApp("ctxWith", sIface, term1(args[0]), term1(args[1]), term1(args[2])), resT(fn, 0)}})
		},
		"google.golang.org/protobuf/proto.Clone": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			m := term1(args[0])
			d := dynType(m)
			if d == nil {
				k(st, []Val{ex.symVal(resT(fn, 0), "clone")})
				return
			}
			src := ifVal(m, sInt)
			et := deref(d)
			r := ex.alloc(st)
			ex.fork(st, tEq(src, tInt(0)), ex.pos(pos)+" clone of nil", func(st *State) {
				k(st, []Val{VIface{tApp("mkI!Int", sIface, m.args[0], tInt(0)), resT(fn, 0)}})
			}, func(st *State) {
				st.h.storeObj(et, r, st.h.loadObj(et, src))
				k(st, []Val{VIface{tApp("mkI!Int", sIface, m.args[0], r), resT(fn, 0)}})
			})
		},
		"(*math/big.Int).SetBytes": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			p := args[0].(VPtr)
			s := ex.strArg(st, args[1])
			v := tApp("bigOf", sInt, s)
			ex.fact(tLe(tInt(0), v))
			if l := tSlen(s); l.isInt() && l.big.Int64() < 512 {
				ex.fact(tLt(v, two256(l.big.Int64())))
			}
			st.h.storeKey("cell:math/big.Int", types.Typ[types.Int], p.ref, VT{v, nil})
			k(st, []Val{p})
		},
		"(*math/big.Int).SetString": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			p := args[0].(VPtr)
			s, b := term1(args[1]), term1(args[2])
			if v := bigParsed(s, b); v != nil {
				st.h.storeKey("cell:math/big.Int", types.Typ[types.Int], p.ref, VT{v, nil})
				k(st, []Val{p, VT{tTrue, boolT()}})
				return
			}
			ok := tApp("bigParses", sBool, s, b)
			v := tApp("bigParse", sInt, s, b)
			ex.fork(st, ok, ex.pos(pos)+" big.Int parses", func(st *State) {
				// |v| < base^len ; the sign is unconstrained
				if l := tSlen(s); l.isInt() && b.isInt() {
					m := tBig(new(big.Int).Exp(b.big, l.big, nil))
					ex.fact(tAnd(tLt(v, m), tLt(tSub(tInt(0), m), v)))
				}
				st.h.storeKey("cell:math/big.Int", types.Typ[types.Int], p.ref, VT{v, nil})
				k(st, []Val{p, VT{tTrue, boolT()}})
			}, func(st *State) {
				st.h.storeKey("cell:math/big.Int", types.Typ[types.Int], p.ref, VT{ex.freshVar("bigundef", sInt, false), nil})
				k(st, []Val{VPtr{kind: 'o', ref: tInt(0), elem: p.elem}, VT{tFalse, boolT()}})
			})
		},
		"(*math/big.Int).Text": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			p := args[0].(VPtr)
			v := term1(st.h.loadKey("cell:math/big.Int", types.Typ[types.Int], p.ref))
			k(st, []Val{VT{ex.bigTextOf(v, term1(args[1])), strT()}})
		},
		"(*math/big.Int).BitLen": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			p := args[0].(VPtr)
			v := term1(st.h.loadKey("cell:math/big.Int", types.Typ[types.Int], p.ref))
			r := tApp("bitlen", sInt, v)
			ex.fact(tLe(tInt(0), r))
			if v.kind == 'a' && v.op == "bigOf" {
				ex.fact(tLe(r, tMul(tInt(8), tSlen(v.args[0]))))
			}
			k(st, []Val{VT{r, types.Typ[types.Int]}})
		},
		"(*math/big.Int).Sign": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			p := args[0].(VPtr)
			v := term1(st.h.loadKey("cell:math/big.Int", types.Typ[types.Int], p.ref))
			k(st, []Val{VT{tIte(tLt(v, tInt(0)), tInt(-1), tIte(tEq(v, tInt(0)), tInt(0), tInt(1))), types.Typ[types.Int]}})
		},
		"(*math/big.Int).FillBytes": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			p, b := args[0].(VPtr), args[1].(VSlice)
			v := term1(st.h.loadKey("cell:math/big.Int", types.Typ[types.Int], p.ref))
			if b.len.isInt() && b.len.big.Int64() < 512 {
				m := two256(b.len.big.Int64())
				bl := tApp("bitlen", sInt, v)
				// |v| fits iff bitlen <= 8*len
				ex.fact(tEq(tLe(bl, tMul(b.len, tInt(8))), tAnd(tLt(v, m), tLt(tSub(tInt(0), m), v))))
				if !ex.panicCheck(st, tAnd(tLt(v, m), tLt(tSub(tInt(0), m), v)), "big.Int FillBytes buffer too small", pos) {
					return
				}
			} else if !ex.panicCheck(st, tApp("bigFits", sBool, v, b.len), "big.Int FillBytes buffer too small", pos) {
				return
			}
			ex.writeBytes(st, b, bigBytes(v, b.len))
			k(st, []Val{b})
		},
		"reflect.ValueOf": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			v := ex.symVal(resT(fn, 0), "reflect")
			st.ghost["reflect:"+toTerms(v)[0].op] = args[0]
			k(st, []Val{v})
		},
		"(reflect.Value).Kind": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			if i, ok := st.ghost["reflect:"+toTerms(args[0])[0].op]; ok {
				x := term1(i)
				kd := tApp("reflectKind", sInt, ifTyp(x))
				if d := dynType(x); d != nil {
					kd = tInt(reflectKind(d))
				}
				ex.fact(tImp(tEq(x, tNilIface), tEq(kd, tInt(0))))
				k(st, []Val{VT{kd, resT(fn, 0)}})
				return
			}
			k(st, []Val{ex.symVal(resT(fn, 0), "kind")})
		},
		"(reflect.Value).IsNil": func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			if i, ok := st.ghost["reflect:"+toTerms(args[0])[0].op]; ok {
				x := term1(i)
				if x.op == "mkI!Int" {
					k(st, []Val{VT{tEq(x.args[1], tInt(0)), boolT()}})
					return
				}
				k(st, []Val{VT{tApp("ifaceHoldsNil", sBool, x), boolT()}})
				return
			}
			k(st, []Val{ex.symVal(boolT(), "isnil")})
		},
		"slices.Contains": nil,
	}
	delete(models, "slices.Contains")

	ifaceModels = map[string]ifaceModel{
		"context.Context.Value": func(ex *Exec, st *State, recv VIface, args []Val, sig *types.Signature, pos token.Pos, k kont) {
			k(st, []Val{VIface{ctxValue(recv.t, term1(args[0])), sig.Results().At(0).Type()}})
		},
		"io.Writer.Write": func(ex *Exec, st *State, recv VIface, args []Val, sig *types.Signature, pos token.Pos, k kont) {
			b := args[0].(VSlice)
			if recv.t.op == "hashI" {
				r := recv.t.args[0]
				c := tCat(st.h.bytes(r), ex.strArg(st, b))
				ex.catFacts(c)
				st.h.setBytes(r, c)
				k(st, []Val{VT{b.len, types.Typ[types.Int]}, verr(tNilIface)})
				return
			}
			ex.external(st, "io.Writer.Write", recv, args, sig, pos, k)
		},
		"hash.Hash.Sum": func(ex *Exec, st *State, recv VIface, args []Val, sig *types.Signature, pos token.Pos, k kont) {
			if recv.t.op == "hashI" {
				r := recv.t.args[0]
				alg := term1(st.h.loadKey("hash:alg", strT(), r))
				key := term1(st.h.loadKey("hash:key", strT(), r))
				op := "hash:?"
				if alg.isStr() {
					op = alg.op
				}
				var d *Term
				switch op {
				case "sha256":
					d = tApp("sha256", sStr, st.h.bytes(r))
				case "blake2b256":
					d = tApp("blake2b256", sStr, key, st.h.bytes(r))
				case "hmac":
					d = tApp("hmacsha256", sStr, key, st.h.bytes(r))
				default:
					d = ex.freshVar("digest", sStr, false)
				}
				b := args[0].(VSlice)
				out := tCat(st.h.view(b), d)
				ex.catFacts(out)
				k(st, []Val{ex.bytesFrom(st, out, sig.Results().At(0).Type())})
				return
			}
			ex.external(st, "hash.Hash.Sum", recv, args, sig, pos, k)
		},
	}
	registerJose()
	registerStore()
}

func tUnix(t *Term) *Term {
	// x*1e9 (+ smaller constant) folds
	if t.kind == 'a' && t.op == "*" && t.args[1].isInt() && t.args[1].big.Int64() == 1_000_000_000 {
		return t.args[0]
	}
	if x, c := splitAdd(t); x != t && x != nil && new(big.Int).Mod(c, big.NewInt(1_000_000_000)).Sign() == 0 {
		return tAdd(tUnix(x), tBig(new(big.Int).Div(c, big.NewInt(1_000_000_000))))
	}
	if t.isInt() {
		return tDiv(t, tInt(1_000_000_000))
	}
	return tDiv(t, tInt(1_000_000_000))
}

func ctxValue(c, key *Term) *Term {
	if c.kind == 'a' && c.op == "ctxWith" {
		return tIte(tEq(c.args[1], key), c.args[2], ctxValue(c.args[0], key))
	}
	if c.kind == 'a' && c.op == "ite" {
		return tIte(c.args[0], ctxValue(c.args[1], key), ctxValue(c.args[2], key))
	}
	if c.kind == 'a' && c.op == "opq" && c.args[0].isStr() && strings.HasPrefix(c.args[0].op, "context.") {
		return tNilIface // context.Background, context.TODO
	}
	return tApp("ctxVal", sIface, c, key)
}

func tHasPrefix(s, p *Term) *Term {
	if p.isStr() && p.op == "" {
		return tTrue
	}
	if s.isStr() && p.isStr() {
		return tBool(strings.HasPrefix(s.op, p.op))
	}
	if s.kind == 'a' && s.op == "cat" && s.args[0].isStr() && p.isStr() {
		h := s.args[0].op
		if len(h) >= len(p.op) {
			return tBool(strings.HasPrefix(h, p.op))
		}
		if !strings.HasPrefix(p.op, h) {
			return tFalse
		}
	}
	return tApp("hasPrefix", sBool, s, p)
}

// randomText: n characters of the set cs drawn from the system's random source (event RandomText).
func (ex *Exec) randomText(st *State, fn *ssa.Function, n, cs *Term, pos token.Pos, k kont) {
	if !ex.panicCheck(st, tLe(tInt(0), n), "negative length", pos) {
		return
	}
	s := ex.freshVar("uniuri", sStr, false)
	ex.fact(tEq(tSlen(s), n))
	ex.fact(tApp("charset", sBool, s, cs))
	r := VT{s, strT()}
	ex.event(st, "uniuri.Text", nil, []Val{vint(n), vstr(cs)}, []Val{r}, st.h, nil, pos)
	k(st, []Val{r})
}

func rxMatch(p, s *Term) *Term { return tApp("rxmatch", sBool, p, s) }

func splitModel(n bool) model {
	return func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		s, sep := term1(args[0]), term1(args[1])
		op := "split"
		ts := []*Term{s, sep}
		if n {
			op = "splitn"
			ts = append(ts, term1(args[2]))
		}
		r := ex.alloc(st)
		key := "elem:string"
		a := st.h.get(key, arrSort(sInt, arrSort(sInt, sStr)), false)
		arr := tApp(op+"Arr", arrSort(sInt, sStr), ts...)
		st.h.m[key] = tStore(a, r, arr)
		l := tApp(op+"Len", sInt, ts...)
		if n && ts[2].isInt() && ts[2].big.Sign() > 0 {
			ex.fact(tAnd(tLe(tInt(1), l), tLe(l, ts[2])))
			if ts[2].big.Int64() == 2 {
				splitFacts(ex, s, sep, arr, l)
			}
		} else {
			ex.fact(tImp(tNot(tEq(sep, tStrLit(""))), tLe(tInt(1), l)))
			ex.fact(tLe(tInt(0), l))
		}
		max := -1
		if n {
			max = 0
			if ts[2].isInt() {
				max = int(ts[2].big.Int64())
			}
		}
		if ps := ex.splitText(s, sep, max); ps != nil {
			ex.fact(tEq(l, tInt(int64(len(ps)))))
			for i, p := range ps {
				ex.fact(tEq(tSelect(arr, tInt(int64(i))), p))
			}
			k(st, []Val{ex.storeParts(st, ps)})
			return
		}
		if 2 <= max && max <= 4 {
			ex.cutFacts(s, sep, arr, l, max)
		}
		k(st, []Val{VSlice{base: r, off: tInt(0), len: l, cap: l, elem: strT()}})
	}
}

// splitFacts states what splitting s in at most two parts around sep gives.
func splitFacts(ex *Exec, s, sep, arr, l *Term) {
	ex.fact(tAnd(tLe(tInt(1), l), tLe(l, tInt(2))))
	e0, e1 := tSelect(arr, tInt(0)), tSelect(arr, tInt(1))
	ex.fact(tImp(tEq(l, tInt(2)), tEq(tAdd(tAdd(tSlen(e0), tSlen(e1)), tSlen(sep)), tSlen(s))))
	ex.fact(tImp(tEq(l, tInt(1)), tEq(e0, s)))
}

func (ex *Exec) fillRandom(st *State, b VSlice) {
	// callers read at least 0 bytes
	ex.writeBytes(st, b, tApp("blob", sStr, b.len, ex.freshVar("random", sStr, false)))
}

// writeBytes replaces the bytes visible through b.
func (ex *Exec) writeBytes(st *State, b VSlice, nb *Term) {
	for _, w := range ex.writes {
		w("bytes", b.base)
	}
	old := st.h.bytes(b.base)
	if b.off == tInt(0) && tSlen(old) == b.len {
		st.h.setBytes(b.base, nb)
		return
	}
	end := tAdd(b.off, b.len)
	n := tCat(ex.sub(old, tInt(0), b.off), tCat(nb, ex.sub(old, end, tSlen(old))))
	ex.catFacts(n)
	st.h.setBytes(b.base, n)
}

func reflectKind(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return 22
	case *types.Map:
		return 21
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	case *types.Signature:
		return 19
	case *types.Chan:
		return 18
	case *types.Array:
		return 17
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return 24
		case u.Kind() == types.Bool:
			return 1
		case u.Kind() == types.Int:
			return 2
		}
	}
	return 99
}

func tWord(s *Term) *Term { return tApp("isWord", sBool, s) }

// fieldsOf gives the words of a string with the facts strings.Fields guarantees.
func (ex *Exec) fieldsOf(st *State, s *Term) VWords {
	n := tApp("fieldsLen", sInt, s)
	if s.isStr() {
		fs := strings.Fields(s.op)
		ex.fact(tEq(n, tInt(int64(len(fs)))))
		for i, f := range fs {
			ex.fact(tEq(tSelect(tApp("fieldsArr", arrSort(sInt, sStr), s), tInt(int64(i))), tStrLit(f)))
		}
		return VWords{s}
	}
	if len(s.free) > 0 {
		return VWords{s}
	}
	ex.fact(tAnd(tLe(tInt(0), n), tLe(n, tSlen(s))))
	q := tVar("?w", sInt)
	e := tSelect(tApp("fieldsArr", arrSort(sInt, sStr), s), q)
	ex.fact(tForall([]*Term{q}, tImp(tAnd(tLe(tInt(0), q), tLt(q, n)), tWord(e)), e))
	return VWords{s}
}
