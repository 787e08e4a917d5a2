package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- math/rand generators: not safe for concurrent use, every use needs the lock of their owner ----

const randRand = "math/rand.Rand"

// lockOwner is the object a lock is part of.
func lockOwner(l *Term) *Term {
	if x, ok := subOwner.Load(l); ok {
		return x.(*Term)
	}
	if l.kind == 'a' && strings.HasPrefix(l.op, "sub!") {
		return l.args[0]
	}
	return nil
}

// guardRand: the generator is only used while the lock of the object holding it is held exclusively.
func (ex *Exec) guardRand(st *State, r VPtr, pos token.Pos) {
	if ex.target == nil || ex.target.Locks != ex.curID {
		return
	}
	ok := false
	for _, l := range st.held {
		o := lockOwner(l.ref)
		if !l.write || o == nil {
			continue
		}
		if lockOwner(r.ref) == o {
			ok = true
			break
		}
		for _, p := range ex.W.repoPkgs {
			for _, m := range p.Members {
				t, isT := m.(*ssa.Type)
				if !isT {
					continue
				}
				s, isS := t.Type().Underlying().(*types.Struct)
				if n, isN := t.Type().(*types.Named); !isS || !isN || n.TypeParams().Len() > 0 {
					continue
				}
				for i := 0; i < s.NumFields(); i++ {
					if pt, isP := s.Field(i).Type().(*types.Pointer); isP && pt.Elem().String() == randRand {
						if v, isV := st.h.loadField(t.Type(), i, o).(VPtr); isV && v.ref == r.ref {
							ok = true
						}
					}
				}
			}
		}
	}
	ex.prove(st, tBool(ok), ex.target.Locks, "data race", "random generator used without its owner's lock", pos)
}

// mayPanic: the call at pos panics unless ok holds; deferred calls then run and no lock may stay held.
func (ex *Exec) mayPanic(st *State, ok *Term, pos token.Pos, k func(*State)) {
	if ex.target == nil || ex.target.Locks != ex.curID {
		if ex.panicCheck(st, ok, "documented panic of a callee", pos) {
			k(st)
		}
		return
	}
	ex.fork(st, ok, ex.pos(pos)+" does not panic", k, func(st *State) {
		ex.unwind(st, func(st *State) {
			ex.prove(st, tBool(len(st.held) == 0), ex.target.Locks, "lock discipline", "a lock stays held after a panic", pos)
		})
	})
}

func (ex *Exec) unwind(st *State, k func(*State)) {
	if len(st.frames) == 0 {
		k(st)
		return
	}
	ds := st.fr().defers
	st.fr().defers = nil
	d := len(st.frames)
	var run func(st *State, j int)
	run = func(st *State, j int) {
		if j < 0 {
			st.frames = st.frames[: d-1 : d-1]
			ex.unwind(st, k)
			return
		}
		ds[j](st, func(st *State) { run(st, j-1) })
	}
	run(st, len(ds)-1)
}

func init() {
	need := map[string]func(args []Val) *Term{}
	pos := func(args []Val) *Term { return tLt(tInt(0), term1(args[1])) }
	nonneg := func(args []Val) *Term { return tLe(tInt(0), term1(args[1])) }
	for _, n := range []string{"Int63n", "Int31n", "Intn"} {
		need[n] = pos
	}
	need["Perm"] = nonneg
	for _, n := range []string{"Int63", "Uint32", "Uint64", "Int31", "Int", "Int63n", "Int31n", "Intn", "Float64", "Float32", "NormFloat64", "ExpFloat64", "Perm", "Seed", "Read", "Shuffle"} {
		n := n
		models["(*math/rand.Rand)."+n] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, p token.Pos, k kont) {
			r := args[0].(VPtr)
			if !ex.nilCheck(st, r, p, "random generator") {
				return
			}
			ex.guardRand(st, r, p)
			ok := tTrue
			if f := need[n]; f != nil {
				ok = f(args)
			}
			if n == "Shuffle" && ex.target != nil && ex.target.Locks == ex.curID {
				// the callback is the caller's code: it may panic as well
				ok = ex.freshVar("callbackReturns", sBool, false)
			}
			ex.mayPanic(st, ok, p, func(st *State) {
				var res []Val
				for i := 0; i < fn.Signature.Results().Len(); i++ {
					res = append(res, ex.symVal(fn.Signature.Results().At(i).Type(), "rnd"))
				}
				switch n {
				case "Int63", "Int31", "Int", "Int63n", "Int31n", "Intn":
					ex.fact(tLe(tInt(0), term1(res[0])))
					if need[n] != nil {
						ex.fact(tLt(term1(res[0]), term1(args[1])))
					}
				case "Perm":
					s := res[0].(VSlice)
					s.base, s.off, s.len, s.cap = ex.alloc(st), tInt(0), term1(args[1]), term1(args[1])
					res[0] = s
				case "Read":
					b := args[1].(VSlice)
					ex.fillRandom(st, b)
					res = []Val{VT{b.len, types.Typ[types.Int]}, verr(tNilIface)}
				}
				ex.event(st, "rand."+n, r, args[1:], res, st.h, nil, p)
				k(st, res)
			})
		}
	}
	alloc := func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		t := fn.Signature.Results().At(0).Type()
		if pt, ok := t.(*types.Pointer); ok {
			k(st, []Val{VPtr{kind: 'o', ref: ex.alloc(st), elem: pt.Elem()}})
			return
		}
		r := ex.alloc(st)
		k(st, []Val{VIface{tApp("opq", sIface, tCat(tStrLit("rand.Source"), tApp("itoa", sStr, r))), t}})
	}
	models["math/rand.New"] = alloc
	models["math/rand.NewSource"] = alloc
}
