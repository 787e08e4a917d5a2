package main

import (
	"go/token"
	"sync"

	"golang.org/x/tools/go/ssa"
)

var b64Regs, regexRegs sync.Map

// genericScalar: the generic library models below cover slices of scalars.
func genericScalar(args []Val) bool {
	s, ok := args[0].(VSlice)
	return ok && !isByte(s.elem) && !isStruct(s.elem) && len(comps(s.elem)) == 1
}

func init() {
	// slices.Contains(s, x) is true exactly when some element equals x
	models["slices.Contains"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		if !genericScalar(args) {
			ex.callFn(st, fn, args, nil, k)
			return
		}
		s := args[0].(VSlice)
		x := term1(args[1])
		q := tVar("?c", sInt)
		cc := comps(s.elem)[0]
		e := tSelect(st.h.elemArr(s.elem, cc, s.base), tAdd(s.off, q))
		none := tForall([]*Term{q}, tImp(tAnd(tLe(tInt(0), q), tLt(q, s.len)), tNot(tEq(e, x))))
		k(st, []Val{vbool(tNot(none))})
	}
	// AddDate(0,0,d) in a local time zone moves by d days up to a change of the zone offset (at most two hours)
	models["(time.Time).AddDate"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		r := ex.freshVar("adddate", sInt, false)
		y, m, d := term1(args[1]), term1(args[2]), term1(args[3])
		if y.isInt() && m.isInt() && y.big.Sign() == 0 && m.big.Sign() == 0 {
			const h = 3_600_000_000_000
			c := tAdd(term1(args[0]), tMul(d, tInt(24*h)))
			ex.fact(tAnd(tLe(tSub(c, tInt(2*h)), r), tLe(r, tAdd(c, tInt(2*h)))))
			ex.assumed["time zone offsets change by at most two hours"] = true
		}
		k(st, []Val{VT{r, fn.Signature.Results().At(0).Type()}})
	}
}

func registerStore() { storeModels() }
