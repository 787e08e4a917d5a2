package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const ozzoP = "github.com/go-ozzo/ozzo-validation/v4"

// ozzoGlobal gives the rules kept in package variables their meaning.
func (ex *Exec) ozzoGlobal(st *State, g *ssa.Global, ref *Term) bool {
	t := deref(g.Type())
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != ozzoP {
		return false
	}
	switch n.Obj().Name() {
	case "RequiredRule":
		v := zeroVal(t).(VStruct)
		v.f[0] = vbool(tTrue)
		v.f[1] = vbool(tBool(g.Name() == "NilOrNotEmpty"))
		st.h.storeObj(t, ref, v)
		return true
	case "StringRule":
		v := zeroVal(t).(VStruct)
		v.f[1] = VIface{tApp("opq", sIface, tStrLit(g.String())), v.f[1].(VIface).typ}
		st.h.storeObj(t, ref, v)
		return true
	}
	return false
}

func ozzoRule(name string, s *Term) *Term {
	return tApp("ozzo.rule", sBool, tApp("opq", sIface, tStrLit(name)), s)
}

// ozzoCond: rule r accepts the value v.
func (ex *Exec) ozzoCond(st *State, r Val, v Val) *Term {
	x := term1(r)
	d := dynType(x)
	unknown := ex.freshVar("rule", sBool, false)
	if d == nil {
		return unknown
	}
	n, ok := types.Unalias(d).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != ozzoP {
		return unknown
	}
	rv, ok := ex.unIface(st, x, d).(VStruct)
	if !ok {
		return unknown
	}
	vt, ok := v.(VT)
	if !ok {
		return unknown
	}
	empty := tTrue
	switch vt.t.sort {
	case sStr:
		empty = tEq(vt.t, tStrLit(""))
	case sInt:
		empty = tEq(vt.t, tInt(0))
	default:
		return unknown
	}
	switch n.Obj().Name() {
	case "RequiredRule":
		return tOr(tNot(term1(rv.f[0])), tNot(empty))
	case "StringRule":
		if vt.t.sort != sStr {
			return unknown
		}
		return tOr(empty, tApp("ozzo.rule", sBool, term1(rv.f[1]), vt.t))
	case "ThresholdRule":
		th := term1(rv.f[0])
		td := dynType(th)
		op := term1(rv.f[1])
		if td == nil || vt.t.sort != sInt || !op.isInt() || !types.Identical(td.Underlying(), vt.typ.Underlying()) {
			return unknown
		}
		y := term1(ex.unIface(st, th, td))
		c := tTrue
		switch op.big.Int64() {
		case 0:
			c = tLt(y, vt.t)
		case 1:
			c = tLe(y, vt.t)
		case 2:
			c = tLt(vt.t, y)
		case 3:
			c = tLe(vt.t, y)
		default:
			return unknown
		}
		return tOr(empty, c)
	}
	return unknown
}

func init() {
	threshold := func(op int64) model {
		return func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			t := fn.Signature.Results().At(0).Type()
			v := zeroVal(t).(VStruct)
			v.f[0] = args[0]
			v.f[1] = vint(tInt(op))
			k(st, []Val{v})
		}
	}
	models[ozzoP+".Min"] = threshold(1)
	models[ozzoP+".Max"] = threshold(3)
	models["("+ozzoP+".ThresholdRule).Exclusive"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		v := args[0].(VStruct)
		f := append([]Val{}, v.f...)
		op := term1(f[1])
		if !op.isInt() {
			panic(Unsupported{"threshold operator"})
		}
		f[1] = vint(tInt(op.big.Int64() &^ 1))
		k(st, []Val{VStruct{typ: v.typ, f: f}})
	}
	models[ozzoP+".Field"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		rules, known := ex.variadic(st, args[1])
		c := ex.freshVar("fieldok", sBool, false)
		x := term1(args[0])
		if d := dynType(x); d != nil && known {
			if p, ok := ex.unIface(st, x, d).(VPtr); ok {
				if !ex.nilCheck(st, p, pos, "validated field") {
					return
				}
				c = tTrue
				v := ex.load(st, p)
				for _, r := range rules {
					c = tAnd(c, ex.ozzoCond(st, r, v))
				}
			}
		}
		ref := ex.alloc(st)
		st.h.storeKey("ozzo:ok", boolT(), ref, vbool(c))
		k(st, []Val{VPtr{kind: 'o', ref: ref, elem: deref(fn.Signature.Results().At(0).Type())}})
	}
	models[ozzoP+".ValidateStruct"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		fields, known := ex.variadic(st, args[1])
		c := tTrue
		if !known {
			c = ex.freshVar("structok", sBool, false)
		}
		for _, f := range fields {
			c = tAnd(c, term1(st.h.loadKey("ozzo:ok", boolT(), f.(VPtr).ref)))
		}
		e := ex.freshErr()
		ex.fork(st, c, ex.pos(pos)+" validation passes", func(st *State) { k(st, []Val{verr(tNilIface)}) }, func(st *State) { k(st, []Val{verr(e)}) })
	}
}

func ozzoGlobalPkg(p string) bool { return p == ozzoP || strings.HasPrefix(p, ozzoP+"/") }
