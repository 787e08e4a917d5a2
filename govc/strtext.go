package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- cutting, searching and building text ----

// cutOf is what cutting s around sep gives: the part before, the part after and whether sep occurs.
func (ex *Exec) cutOf(s, sep *Term) (before, after, found *Term) {
	if ps := ex.splitText(s, sep, 2); ps != nil {
		if len(ps) == 2 {
			return ps[0], ps[1], tTrue
		}
		return ps[0], tStrLit(""), tFalse
	}
	if s.isStr() && sep.isStr() {
		a, b, ok := strings.Cut(s.op, sep.op)
		return tStrLit(a), tStrLit(b), tBool(ok)
	}
	ts := []*Term{s, sep, tInt(2)}
	arr, l := tApp("splitnArr", arrSort(sInt, sStr), ts...), tApp("splitnLen", sInt, ts...)
	splitFacts(ex, s, sep, arr, l)
	if sep.isStr() && len(sep.op) == 1 {
		ex.cutFacts(s, sep, arr, l, 2)
	}
	found = tEq(l, tInt(2))
	return tSelect(arr, tInt(0)), tIte(found, tSelect(arr, tInt(1)), tStrLit("")), found
}

// textBuffer is where the bytes of a strings.Builder or bytes.Buffer are.
func textBuffer(p VPtr) (int, bool) {
	switch {
	case p.kind != 'o':
		return 0, false
	case isNamed(p.elem, "strings.Builder"):
		return 1, true
	case isNamed(p.elem, "bytes.Buffer"):
		return 0, true
	}
	return 0, false
}

func (ex *Exec) bufferText(st *State, p VPtr) (*Term, bool) {
	f, ok := textBuffer(p)
	if !ok {
		return nil, false
	}
	s := st.h.loadField(p.elem, f, p.ref).(VSlice)
	if f == 0 {
		off := term1(st.h.loadField(p.elem, 1, p.ref))
		s.off, s.len = tAdd(s.off, off), tSub(s.len, off)
	}
	return ex.strArg(st, s), true
}

func (ex *Exec) setBuffer(st *State, p VPtr, text *Term) {
	f, _ := textBuffer(p)
	bt := p.elem.Underlying().(*types.Struct).Field(f).Type()
	st.h.storeField(p.elem, f, p.ref, ex.bytesFrom(st, text, bt))
	if f == 0 {
		st.h.storeField(p.elem, 1, p.ref, VT{tInt(0), types.Typ[types.Int]})
	}
}

// writeText appends text to a builder or buffer.
func (ex *Exec) writeText(st *State, p VPtr, text *Term) bool {
	old, ok := ex.bufferText(st, p)
	if ok {
		c := tCat(old, text)
		ex.catFacts(c)
		ex.setBuffer(st, p, c)
	}
	return ok
}

// writeTo appends text to what an io.Writer stands for, if that is known.
func (ex *Exec) writeTo(st *State, w VIface, text *Term) bool {
	if w.t.op == "hashI" {
		r := w.t.args[0]
		c := tCat(st.h.bytes(r), text)
		ex.catFacts(c)
		st.h.setBytes(r, c)
		return true
	}
	d := dynType(w.t)
	if d == nil {
		return false
	}
	if _, ok := d.Underlying().(*types.Pointer); !ok {
		return false
	}
	p, ok := ex.unIface(st, w.t, d).(VPtr)
	if !ok {
		return false
	}
	return ex.writeText(st, p, text)
}

func init() {
	models["strings.Cut"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		b, a, f := ex.cutOf(term1(args[0]), term1(args[1]))
		k(st, []Val{vstr(b), vstr(a), vbool(f)})
	}
	literal := func(t *Term) bool { return t.isStr() && t.op != "" }
	pure := func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		ex.external(st, fnName(fn), nil, args, fn.Signature, pos, k)
	}
	models["strings.Contains"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		if !literal(term1(args[1])) {
			pure(ex, st, fn, args, pos, k)
			return
		}
		_, _, f := ex.cutOf(term1(args[0]), term1(args[1]))
		k(st, []Val{vbool(f)})
	}
	index := func(ex *Exec, s, sep *Term) Val {
		b, a, f := ex.cutOf(s, sep)
		if a.kind == 'a' && a.op == "ite" {
			a = a.args[1]
		}
		ex.fact(tImp(f, tAnd(tEq(ex.sub(s, tInt(0), tSlen(b)), b), tEq(ex.sub(s, tAdd(tSlen(b), tSlen(sep)), tSlen(s)), a))))
		return vint(tIte(f, tSlen(b), tInt(-1)))
	}
	models["strings.Index"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		if !literal(term1(args[1])) {
			pure(ex, st, fn, args, pos, k)
			return
		}
		k(st, []Val{index(ex, term1(args[0]), term1(args[1]))})
	}
	models["strings.IndexByte"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		c := term1(args[1])
		if !c.isInt() {
			pure(ex, st, fn, args, pos, k)
			return
		}
		k(st, []Val{index(ex, term1(args[0]), tStrLit(string([]byte{byte(c.big.Int64())})))})
	}
	hasSuffix := func(ex *Exec, s, p *Term) (has, rest *Term) {
		n := tSub(tSlen(s), tSlen(p))
		rest = ex.sub(s, tInt(0), n)
		if s.isStr() && p.isStr() {
			return tBool(strings.HasSuffix(s.op, p.op)), rest
		}
		return tAnd(tLe(tInt(0), n), tEq(ex.sub(s, n, tSlen(s)), p)), rest
	}
	models["strings.HasSuffix"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		has, _ := hasSuffix(ex, term1(args[0]), term1(args[1]))
		k(st, []Val{vbool(has)})
	}
	models["strings.TrimSuffix"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		has, rest := hasSuffix(ex, term1(args[0]), term1(args[1]))
		k(st, []Val{vstr(tIte(has, rest, term1(args[0])))})
	}
	models["strings.CutSuffix"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		has, rest := hasSuffix(ex, term1(args[0]), term1(args[1]))
		k(st, []Val{vstr(tIte(has, rest, term1(args[0]))), vbool(has)})
	}
	models["strings.CutPrefix"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		s, p := term1(args[0]), term1(args[1])
		has := tHasPrefix(s, p)
		if has.isFalse() {
			k(st, []Val{vstr(s), vbool(has)})
			return
		}
		k(st, []Val{vstr(tIte(has, ex.sub(s, tSlen(p), tSlen(s)), s)), vbool(has)})
	}
	models["strings.Clone"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		k(st, []Val{args[0]})
	}
	// lower case and white space do not interfere: spaces are their own lower case and nothing else becomes one
	lower := models["strings.ToLower"]
	models["strings.ToLower"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		if s := term1(args[0]); s.kind == 'a' && s.op == "trimspace" {
			lower(ex, st, fn, []Val{vstr(s.args[0])}, pos, func(st *State, res []Val) {
				k(st, []Val{vstr(ex.trimSpace(term1(res[0])))})
			})
			return
		}
		lower(ex, st, fn, args, pos, k)
	}

	intT := types.Typ[types.Int]
	for _, typ := range []string{"(*strings.Builder).", "(*bytes.Buffer)."} {
		write := func(text func(ex *Exec, st *State, v Val) (*Term, bool), results int) model {
			return func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
				p, ok := args[0].(VPtr)
				if ok && !ex.nilCheck(st, p, pos, "buffer") {
					return
				}
				t, tok := text(ex, st, args[1])
				if !ok || !tok || !ex.writeText(st, p, t) {
					pure(ex, st, fn, args, pos, k)
					return
				}
				switch results {
				case 1:
					k(st, []Val{verr(tNilIface)})
				default:
					k(st, []Val{VT{tSlen(t), intT}, verr(tNilIface)})
				}
			}
		}
		bytesText := func(ex *Exec, st *State, v Val) (*Term, bool) { return ex.bytesOf(st, v) }
		models[typ+"WriteString"] = write(bytesText, 2)
		models[typ+"Write"] = write(bytesText, 2)
		models[typ+"WriteByte"] = write(func(ex *Exec, st *State, v Val) (*Term, bool) {
			c := term1(v)
			if !c.isInt() {
				return nil, false
			}
			return tStrLit(string([]byte{byte(c.big.Int64())})), true
		}, 1)
		models[typ+"WriteRune"] = write(func(ex *Exec, st *State, v Val) (*Term, bool) {
			c := term1(v)
			if !c.isInt() {
				return nil, false
			}
			return tStrLit(string(rune(c.big.Int64()))), true
		}, 2)
		models[typ+"Grow"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			if p, ok := args[0].(VPtr); ok && !ex.nilCheck(st, p, pos, "buffer") {
				return
			}
			if !ex.panicCheck(st, tLe(tInt(0), term1(args[1])), "negative Grow", pos) {
				return
			}
			k(st, nil)
		}
		models[typ+"Reset"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			p, ok := args[0].(VPtr)
			if ok && !ex.nilCheck(st, p, pos, "buffer") {
				return
			}
			if _, known := textBuffer(p); !ok || !known {
				pure(ex, st, fn, args, pos, k)
				return
			}
			ex.setBuffer(st, p, tStrLit(""))
			k(st, nil)
		}
		models[typ+"Len"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			p, ok := args[0].(VPtr)
			if ok && !ex.nilCheck(st, p, pos, "buffer") {
				return
			}
			if t, known := ex.bufferText(st, p); ok && known {
				k(st, []Val{VT{tSlen(t), intT}})
				return
			}
			pure(ex, st, fn, args, pos, k)
		}
	}
	models["(*strings.Builder).String"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		p, ok := args[0].(VPtr)
		if ok && !ex.nilCheck(st, p, pos, "buffer") {
			return
		}
		if t, known := ex.bufferText(st, p); ok && known {
			k(st, []Val{vstr(t)})
			return
		}
		pure(ex, st, fn, args, pos, k)
	}
	newBuffer := func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		t, ok := ex.bytesOf(st, args[0])
		if !ok {
			pure(ex, st, fn, args, pos, k)
			return
		}
		elem := deref(fn.Signature.Results().At(0).Type())
		p := VPtr{kind: 'o', ref: ex.alloc(st), elem: elem}
		st.h.storeObj(elem, p.ref, zeroVal(elem))
		ex.setBuffer(st, p, t)
		k(st, []Val{p})
	}
	models["bytes.NewBufferString"] = newBuffer
	models["bytes.NewBuffer"] = newBuffer
	models["io.WriteString"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		w, ok := args[0].(VIface)
		if !ok || !ex.writeTo(st, w, term1(args[1])) {
			pure(ex, st, fn, args, pos, k)
			return
		}
		k(st, []Val{VT{tSlen(term1(args[1])), intT}, verr(tNilIface)})
	}
	models["fmt.Fprintf"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		w, ok := args[0].(VIface)
		if ok && (w.t.op == "hashI" || dynType(w.t) != nil) {
			t := ex.sprintf(st, term1(args[1]), args[2])
			if ex.writeTo(st, w, t) {
				k(st, []Val{VT{tSlen(t), intT}, verr(tNilIface)})
				return
			}
		}
		pure(ex, st, fn, args, pos, k)
	}
	models["strconv.Itoa"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		if n := term1(args[0]); n.isInt() {
			k(st, []Val{vstr(tStrLit(n.op))})
		} else {
			k(st, []Val{vstr(tApp("itoa", sStr, n))})
		}
	}
	for _, n := range []string{"FormatInt", "FormatUint"} {
		models["strconv."+n] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			b, v := term1(args[1]), term1(args[0])
			switch {
			case !b.isInt() || b.big.Int64() != 10:
				pure(ex, st, fn, args, pos, k)
			case v.isInt():
				k(st, []Val{vstr(tStrLit(v.op))})
			default:
				k(st, []Val{vstr(tApp("itoa", sStr, v))})
			}
		}
	}
}

// externText gives the value of byte slice variables of libraries that are never assigned.
var externText = map[string]string{
	"github.com/dchest/uniuri.StdChars": "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789",
}
